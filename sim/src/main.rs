//! Deterministic simulation of parties that run ed448-goldilocks.
//!
//!   sim check <property> <quick|thorough> <seed>   search; exit 0 / 1 / 2
//!   sim replay <file>                              re-execute one recorded run
//!   sim determinism <property> <runs> <seed>       execute every run twice and compare histories
//!   sim model                                      print reference-model results (for tools/model_test.py)
mod c10;
mod c12;
mod c13;
mod c20;
mod c22;
mod ch;
mod gens;
mod model;
mod node;
mod num;
mod protos;
mod rngsim;
mod runner;
mod sys;
mod world;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let rc = match s(1) {
        "check" => runner::check(s(2), s(3), s(4).parse().unwrap_or(1)),
        "replay" => runner::replay(s(2)),
        "determinism" => runner::determinism(s(2), s(3).parse().unwrap(), s(4).parse().unwrap_or(1)),
        "one" => runner::one(s(2), s(3).parse().unwrap(), s(4).parse().unwrap_or(1)),
        "model" => model_dump(),
        _ => {
            eprintln!("usage: sim check|replay|determinism|model ...");
            2
        }
    };
    std::process::exit(rc);
}

fn model_dump() -> i32 {
    use model::*;
    use num::*;
    use world::hx;
    let mut c = ch::Ch::seeded(42);
    for _ in 0..400 {
        let (a, b) = (gens::scalar_raw(&mut c, &[]), gens::scalar_raw(&mut c, &[]));
        let (x, y) = (gens::field(&mut c, &[]), gens::field(&mut c, &[]));
        let h = |u: U| u.hex();
        println!("s {} {} {} {} {} {}", h(a), h(b), h(sadd(a, b)), h(ssub(a, b)), h(smul(a, b)), h(sinv(a)));
        println!("f {} {} {} {} {} {}", h(x), h(y), h(fadd(x, y)), h(fsub(x, y)), h(fmul(x, y)), h(finv(x)));
        println!("r {} {}", h(a), h(fred(a)));
        let w = c.bytes(114);
        println!("w {} {}", hx(&w), h(swide(&w)));
    }
    for _ in 0..60 {
        let p = gens::point(&mut c, &[]);
        let q = gens::point(&mut c, &[]);
        let k = gens::scalar_raw(&mut c, &[]);
        println!("e {} {} {} {} {} {} {}", hx(&p.enc()), hx(&q.enc()), k.hex(), hx(&p.add(&q).enc()), hx(&p.mul(k).enc()), p.torsion_free() as u8, p.to_u().hex());
        let u = gens::field_raw(&mut c, &[]).to_le();
        println!("x {} {} {}", k.hex(), hx(&u), hx(&x448(k, &u)));
        let d = gens::decaf(&mut c, &[]);
        println!("d {} {} {}", hx(&d.decaf_enc()), k.hex(), hx(&d.mul(k).decaf_enc()));
        let b = gens::field_raw(&mut c, &[]).to_le();
        println!("v {} {}", hx(&b), Pt::decaf_dec(&b).is_some() as u8);
        let mut b = gens::field_raw(&mut c, &[]).to_le().to_vec();
        b.push(c.pick(&[0u8, 128, 1]));
        println!("y {} {}", hx(&b), Pt::dec(&b[..].try_into().unwrap()).map(|p| hx(&p.enc())).unwrap_or("-".into()));
    }
    for _ in 0..100 {
        let k = gens::scalar_raw(&mut c, &[]);
        for m in [L, gens::twist_order()] {
            println!("i {} {} {} {}", k.hex(), m.hex(), inv_mod(k, m).unwrap_or(ZERO).hex(), gens::inv4(k, m).filter(|_| k.odd()).unwrap_or(ZERO).hex());
        }
        let p = gens::aimed_point(&mut c, k);
        println!("o {} {}", p.on_curve() as u8, Pt::from_sum(k).is_none_or(|p| p.on_curve()) as u8);
    }
    let mut p = ID;
    for _ in 0..16 {
        println!("g {}", hx(&p.decaf_enc()));
        p = p.add(&decaf_gen());
    }
    0
}
