#!/bin/bash
# Builds the four node libraries (backend x profile) from /repo's working tree, and the simulator.
# build.sh C12 also builds the two traced libraries of C12, build.sh C15 the four libraries with the
# twisted-curve calls of C15, build.sh C20 the two observed libraries of C20, build.sh C22 the four libraries of C22 (crate wipe/); without an argument everything is built, the extras as far as they build.
# Output: /verif/target/bin. Exits 2 on failure (an error of the check, not a verdict).
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_BUILD_RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
command -v cargo > /dev/null || export PATH="/root/.cargo/bin:$PATH"
T=$PWD/target; mkdir -p "$T/bin" "$T/log"
# cargo judges staleness by mtime: forget what it knows about the crate under test
for b in u64 u32 u64t/* u32t/* u64o/* u32o/* u64w u32w; do rm -rf "$T"/$b/*/.fingerprint/ed448-goldilocks-* "$T"/$b/*/.fingerprint/vnode-* "$T"/$b/*/.fingerprint/vwipe-*; done
put() { cp -f "$1" "$T/bin/$2.new" && mv -f "$T/bin/$2.new" "$T/bin/$2"; }
one() { # backend profile extra-feature output...
    local b=$1 p=$2 f=$3 l=$T/log/$1-$2-$3.log o; shift 3
    CARGO_TARGET_DIR=$T/$b RUSTFLAGS="--cfg goldilocks_sim" timeout 600 cargo build --manifest-path node/Cargo.toml --offline --locked \
        --profile "$p" --features "${b}b $f" > "$l" 2>&1 || { echo "build failed: $b $p $f"; tail -30 "$l"; return 1; }
    for o in "$@"; do put "$T/$b/$p/libvnode.so" "node-$b-$p$o" || return 1; done
}
four() { # backend
    local p
    for p in release checked; do one "$1" $p "" .so .2.so || return 1; done
    [ "$want" = C15 ] || [ -z "$want" ] || return 0
    for p in release checked; do one "$1" $p twisted .tw.so || { [ -z "$want" ]; return; }; done
}
traced() { # backend: release profile, no hooks, every load and store of the library reported
    local f="-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=1 -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores"
    CARGO_TARGET_DIR=$T/$1t RUSTFLAGS="$f" timeout 600 cargo build --manifest-path node/Cargo.toml --offline --locked --target x86_64-unknown-linux-gnu \
        --release --features "${1}b traced" > "$T/log/$1-traced.log" 2>&1 || { echo "build failed: $1 traced"; tail -30 "$T/log/$1-traced.log"; return 1; }
    put "$T/$1t/x86_64-unknown-linux-gnu/release/libvnode.so" "node-$1-traced.so"
}
observed() { # backend: release profile, no hooks, every block, load and store of the library and its dependencies reported
    local f="-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-prune-blocks=0"
    f+=" -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores -C link-arg=-Wl,-Bsymbolic"
    CARGO_TARGET_DIR=$T/$1o RUSTFLAGS="$f" timeout 600 cargo build --manifest-path node/Cargo.toml --offline --locked --target x86_64-unknown-linux-gnu \
        --release --config profile.release.strip=false --features "${1}b observed" > "$T/log/$1-observed.log" 2>&1 || { echo "build failed: $1 observed"; tail -30 "$T/log/$1-observed.log"; return 1; }
    put "$T/$1o/x86_64-unknown-linux-gnu/release/libvnode.so" "node-$1-observed.so"
}
wipe() { # backend: the library with its zeroize feature
    local p
    for p in release checked; do
        CARGO_TARGET_DIR=$T/$1w RUSTFLAGS="--cfg goldilocks_sim -C link-arg=-Wl,-Bsymbolic" timeout 600 cargo build --manifest-path wipe/Cargo.toml --offline --locked \
            --profile "$p" --features "${1}b" > "$T/log/$1-wipe.log" 2>&1 || { echo "build failed: $1 wipe"; tail -30 "$T/log/$1-wipe.log"; return 1; }
        put "$T/$1w/$p/libvwipe.so" "wipe-$1-$p.so" || return 1
    done
}
pids=()
want=$1
four u64 & pids+=($!)
four u32 & pids+=($!)
if [ -z "$want" ] || [ "$want" = C12 ]; then
    for b in u64 u32; do (traced $b || [ -z "$want" ]) & pids+=($!); done
fi
if [ -z "$want" ] || [ "$want" = C20 ]; then
    for b in u64 u32; do (observed $b || [ -z "$want" ]) & pids+=($!); done
fi
if [ -z "$want" ] || [ "$want" = C22 ]; then
    for b in u64 u32; do (wipe $b || [ -z "$want" ]) & pids+=($!); done
fi
(CARGO_TARGET_DIR=$T/sim timeout 600 cargo build --manifest-path sim/Cargo.toml --offline --locked --release > "$T/log/sim.log" 2>&1 \
   || { echo "build failed: sim"; tail -30 "$T/log/sim.log"; exit 1; }
 put "$T/sim/release/sim" sim) & pids+=($!)
rc=0; for p in "${pids[@]}"; do wait "$p" || rc=2; done
exit $rc
