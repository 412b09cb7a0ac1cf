#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
NOTE={
"C01":"Schedules matter: group keys travel through the parties in seeded order with loss, duplication, crashes and reloads. Every product is also compared with the reference ladder.",
"C02":"Fault content matters: damaged and hostile public values on the link; exact RFC 7748 answer and low-order verdict demanded for what arrived.",
"C03":"Fault content matters: torn, flipped, stale and forged encodings on links and disks; accepted iff canonical, re-encoded identically.",
"C04":"As C03, for Decaf encodings.",
"C05":"As C03, for scalar encodings (strict, raw, wide).",
"C06":"Secret sharing with refresh over seeded arrival orders and restarts; every scalar operation in lockstep with integers mod l. Values decide most violations, not the schedule.",
"C07":"Aggregation over seeded arrival orders, groupings and early-ending or unwinding iterators, in lockstep with affine Edwards arithmetic. Values decide most violations.",
"C08":"Verifiable secret sharing; shares and commitments arrive in seeded order; every multiple in lockstep with the model. Values decide most violations.",
"C09":"Threshold ElGamal over Decaf; seeded partial decryptions, restarts, relays; every element in lockstep with the model. Values decide most violations.",
"C10":"Replicated log with snapshots and crashes on four builds; outcome compared between builds at every position, no model needed.",
"C11":"Admission of points sent by honest and hostile peers over faulty links; verdict compared with membership computed by the model.",
"C12":"Real library code on real threads, one released at a time at hook points by the seeded scheduler; result compared with the same call in a freshly forked process and in a second copy of the library. Interleaving granularity: hook points at field and scalar primitives, and in two traced builds every access to writable static memory.",
"C13":"Generator failures, stuck and adversarial streams injected between and inside draws; reproducibility, canonicity and propagation checked. Spread over independent streams is judged statistically, and the number of stream bits that reach a scalar is counted; how the scalar is derived is not prescribed.",
"C14":"Two parties working on either curve exchange in seeded order under faults; both views compared with each other and with the model.",
"C15":"Parties on either side of the isogeny aggregate contributions in seeded order under crashes; every step on the twisted curve is carried back and compared with four times the model's point. Values decide most violations.",
"C20":"Two to four worlds, forked at one point, run the same seeded history under the same faults (crash and reload, failing generators and iterators) and differ in nothing but the secrets; the observer's histories (blocks entered, addresses touched, lengths copied, in order) must be identical, operation by operation. No model needed. Observed in optimised compiler output before instruction selection: instruction latencies and branches introduced by instruction selection are not seen. Values decide most violations.",
"C22":"Parties store, compute, copy and wipe Curve448 values in seeded interleavings, with injected unwinding, crashes and core dumps between and inside computations; memory of wiped values, in place and in freed containers, must be zero, everything else unchanged. No model needed. Copies the compiler makes on the stack are not the value's memory and are not looked at.",
}
NA={
"C21":"A pure function of limb vectors inside one call, with no schedule, fault, clock or party for the outcome to depend on. The limb bounds are internal, so only a proof or an exhaustive bound decides it; simulated runs exercise the reachable limbs through C01-C20, which is sampling of inputs and not claimed as a decision.",
}
checks=[]
for p in sorted(NOTE):
    checks.append(dict(property=p,quick_cmd=f"bash check.sh {p} quick",thorough_cmd=f"bash check.sh {p} thorough",
      evidence_file=f"evidence/{p}.json",
      technique="deterministic simulation with fault injection: seeded search over schedules, faults and workloads against a reference model" if p not in("C10","C12","C20","C22") else "deterministic simulation with fault injection: seeded histories with core dumps, unwinding and crashes, memory inspected" if p=="C22" else "deterministic simulation with fault injection: one seeded history in several worlds that differ only in secrets, observed block by block and address by address, histories compared" if p=="C20" else
       ("deterministic simulation with fault injection: replicated log over four builds, differential" if p=="C10" else "deterministic simulation: seeded thread interleavings of real code with injected unwinds, compared with fresh processes"),
      level="exploration",
      level_note=NOTE[p]+" Sampled search: a clean batch is evidence, not proof. Trusted: the simulator"+(" and the compiler's coverage instrumentation." if p=="C20" else "." if p=="C22" else ", and the reference model (checked against Python integers and RFC vectors by tools/model_test.py).")))
m=dict(version=1,setup_cmd="bash build.sh",
 hooks=dict(guard="cfg(goldilocks_sim)",enable='RUSTFLAGS="--cfg goldilocks_sim" in build.sh',source_commits=["6597fd7"]),
 checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes="sim replay <file> re-executes a recorded violation exactly; sim determinism <property> <runs> <seed> runs every run twice and compares.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
try:
    import jsonschema; jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json"))); print("valid")
except ImportError: print("written")
