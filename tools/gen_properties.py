#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
                   **({"observe_at":observe} if observe else {}), hook_needed=hook)))
ED="src/curve/edwards/extended.rs"; MO="src/curve/montgomery/montgomery.rs"; SC="src/field/scalar.rs"
DE="src/decaf/decaf.rs"; DO="src/decaf/ops.rs"; FM="src/field/mod.rs"; F64="src/field/fiat_u64/prime_field.rs"; F32="src/field/u32/prime_field.rs"; KA="src/field/u32/karatsuba.rs"
VB="src/curve/scalar_mul/variable_base.rs"; WN="src/curve/scalar_mul/window/wnaf/mod.rs"; TX="src/curve/twedwards/extensible.rs"; TE="src/curve/twedwards/extended.rs"; TP="src/curve/twedwards/projective.rs"; DA="src/curve/scalar_mul/double_and_add.rs"
C64="src/field/fiat_u64/constants.rs"; C32="src/field/u32/constants.rs"; CO="src/constants.rs"; MA="src/macros.rs"

prop("C01","Key agreement on Curve448 converges",
 "Parties that exchange Curve448 public values and multiply what they receive by their own secret scalar all end with the same shared value, for two parties or for a group value that visits the parties in any order, whichever backend each party runs and however often parties crash and reload their stored secret. Every public and shared value equals scalar multiplication on Curve448 (RFC 7748 u-coordinates, point at infinity as 0) by the full 448-bit integer value of the secret, odd or even, reduced or not.",
 ["inputs","schedules","crash_points","configurations"],
 "all secrets (448-bit), all peer sets, all delivery orders, duplications, losses and restarts, all mixes of backends",
 "The only test multiplies one point by the even number 200; no test has two parties, an odd scalar, an edge scalar, a reload or two backends talking to each other.",
 [MO,FM,F64,F32,KA],
 [("Montgomery ladder with conditional swaps","Mul<&Scalar> for &MontgomeryPoint"),("differential addition and doubling","differential_add_and_double"),("projective to affine u with inversion",'ProjectiveMontgomeryPoint::to_affine')],
 state=[("secret","448-bit integer a party keeps and reloads",SC),("public value","56-byte u-coordinate on the wire",MO)],
 observe=["bytes of every product of a scalar and a Curve448 point"])
prop("C02","Hostile Curve448 public values are handled exactly",
 "Whatever 56 bytes arrive as a public value (non-canonical, on the twist, of low order, bit-flipped in transit), multiplying them by a secret neither panics nor hangs and yields exactly the u-coordinate RFC 7748 gives for the received integer taken modulo p. The low-order test answers true for every encoding of u = 0, 1 or -1 modulo p, canonical or not, and false for everything else.",
 ["inputs","fault_sequences","configurations"],
 "every 56-byte string an adversary or a faulty link can deliver, every secret, both backends",
 "No test feeds a received byte string to the ladder or calls the low-order test at all.",
 [MO,FM,F64,F32,KA],
 [("byte import without canonicity requirement","FieldElement::from_bytes"),("low order comparison",'MontgomeryPoint::is_low_order'),("ladder",'Mul<&Scalar> for &MontgomeryPoint')],
 observe=["product bytes","low-order verdict"])
prop("C03","Edwards encodings survive links, disks and attackers",
 "A point compressed by any party decompresses at any other party, on any backend and after any number of store, crash, reload and relay steps, to an equal point whose encoding is the same 57 bytes (RFC 8032 format). A byte string that is damaged, torn or forged is accepted exactly when it is the canonical RFC 8032 encoding of a curve point (reduced y, unused bits clear, no negative zero), and what is accepted re-encodes to exactly the received bytes; decoding never panics.",
 ["inputs","fault_sequences","crash_points","configurations"],
 "all curve points incl. torsion points, all 57-byte strings reachable by bit flips, torn writes, stale tails and forgery, all relay paths across backends",
 "The tests decode four fixed valid strings and round-trip one point; nothing is ever corrupted and no invalid encoding is tried.",
 [ED,FM,F64,F32],
 [("decompression with square root and sign fix-up","CompressedEdwardsY::decompress"),("compression","ExtendedPoint::compress"),("square root ratio","FieldElement::sqrt_ratio")],
 observe=["accept/reject verdict","re-encoded bytes","equality with the sender's point"])
prop("C04","Decaf encodings survive links, disks and attackers",
 "Equal Decaf elements have equal 56-byte encodings and different elements different ones, on any backend and however the element was computed, stored, reloaded or relayed; decoding an encoding gives back an equal element. A damaged, torn or forged string is accepted exactly when it is a valid encoding under the Decaf448 specification (canonical, non-negative, square condition), and what is accepted re-encodes to exactly the received bytes; decoding never panics.",
 ["inputs","fault_sequences","crash_points","configurations"],
 "all group elements in every internal representation, all 56-byte strings reachable by faults or forgery, all relay paths across backends",
 "The tests compare the first 16 multiples of the generator; no invalid, damaged or non-canonical encoding is ever decoded.",
 [DE,FM,TE,C64,C32],
 [("canonicity, sign and square checks on decode","CompressedDecaf::decompress"),("torsion-independent encoding","DecafPoint::compress"),("quotient equality","DecafPoint::equals")],
 observe=["accept/reject verdict","encodings","equality verdicts"])
prop("C05","Scalar encodings survive links, disks and attackers",
 "A stored or transmitted scalar reloads to exactly the same value after any crash or relay, in its 56-byte and its 57-byte RFC 8032 form (last byte zero). The strict importer accepts a 57-byte string exactly when it is an integer below the group order, for every damaged, torn or forged string, and the wide importer maps any 114 bytes to their value modulo the group order; none of them panics.",
 ["inputs","fault_sequences","crash_points"],
 "all scalars, all 56-, 57- and 114-byte strings incl. damaged ones, all crash points between write and sync",
 "Tests try three strict and four wide strings.",
 [SC,CO],
 [("strict import",'Scalar::from_canonical_bytes'),("wide reduction",'Scalar::from_bytes_mod_order_wide'),("raw import/export",'Scalar::from_bytes / to_bytes / to_bytes_rfc_8032')],
 observe=["accept/reject verdict","exported bytes","bit list"])
prop("C06","Shared secrets reconstruct: scalars form the field Z/l",
 "However a secret is split, refreshed, combined and reconstructed by parties exchanging scalar shares (any threshold subset, any arrival order, duplicates and restarts included), the result is the original secret, because sums, differences, products, halves and inverses of scalars are exact modulo the group order for every operand, including operands imported without reduction. Sums, differences, products and inverses are canonical (below the order), the inverse of zero is zero, and equality holds exactly for equal 56-byte values.",
 ["inputs","histories","schedules","crash_points"],
 "all operation histories over scalars, all subsets and arrival orders of shares, all 448-bit operands",
 "Tests use small integers and two fixed products; no unreduced operand, no long history, no carry edge.",
 [SC,CO],
 [("addition/subtraction with conditional modulus",'add / sub_extra'),("Montgomery multiplication",'montgomery_multiply'),("windowed inversion",'Scalar::invert'),("halving",'Scalar::halve')],
 observe=["bytes of every result","reconstructed secrets"])
prop("C07","Edwards aggregation is independent of order, path and backend",
 "Parties that add, subtract, negate, double, select and sum curve points which arrive in any order, partly pre-aggregated by other parties and relayed in encoded form, all reach the same aggregate, equal to the sum in the Ed448-Goldilocks group of exactly the contributions counted. This holds for every operator form (by value, by reference, in place, iterator sum, including iterators that end early or fail) and for all points of the curve including the identity, equal or opposite operands and torsion points.",
 ["inputs","histories","schedules","configurations"],
 "all multisets of curve points, all groupings and arrival orders, all operator forms, both backends",
 "Tests add the generator to itself in one representation; no torsion operand, no projective operand, no operator form, no sum is exercised on this curve.",
 [ED,MA,F64,F32,KA],
 [("unified addition",'ExtendedPoint::add'),("operator forms",'define_*_variants and Sum impl'),("constant-time selection",'ConditionallySelectable'),("projective equality",'ConstantTimeEq')],
 observe=["encoding of every aggregate","equality verdicts"])
prop("C08","Edwards scalar multiples are consistent across parties",
 "Multiplying a curve point by a scalar gives the integer multiple of the point for every point of the curve (torsion included) and every 448-bit scalar, in every operator form, so that independent parties always agree: shares times generator match the dealer's commitments, a(bP) = b(aP) = (ab)P in the prime subgroup, and linear verification equations give the same verdict at every verifier in any message order. The identity, the generator and the multiplication by the scalar's residue modulo 4 agree with the same integer multiples.",
 ["inputs","histories","schedules","configurations"],
 "all points, all scalars, all operator forms, all delivery orders of commitments and shares, all backends",
 "Tests multiply the generator by one scalar and compare two internal algorithms with each other.",
 [ED,VB,WN,TX,TE,TP,SC,C64,C32],
 [("isogeny strategy: quarter scalar on the twisted curve plus remainder",'ExtendedPoint::scalar_mul / scalar_mod_four'),("signed radix-16 recoding",'Scalar::to_radix_16'),("table lookup",'LookupTable::select'),("window loop",'variable_base')],
 observe=["encoding of every multiple","verification verdicts"])
prop("C09","Decaf behaves as one prime-order group for all parties",
 "Decaf elements that parties add, subtract, negate and multiply by scalars, in any order and operator form and with any relay, store or restart in between, track one group of prime order: every result encodes as the group law demands, any element times the order is the identity, and encrypt/decrypt, commit/open and share/combine round trips return the original element. Equality of elements agrees with equality of encodings.",
 ["inputs","histories","schedules","configurations"],
 "all elements in all representations, all 448-bit scalars, all operation histories and delivery orders, both backends",
 "Tests add small multiples of the generator; scalar multiplication, subtraction and negation of Decaf elements are not tested at all.",
 [DE,DO,DA,TX,TE],
 [("group operations",'src/decaf/ops.rs impls'),("double-and-add",'double_and_add'),("extensible coordinates",'ExtensiblePoint::{add_extended, sub_extended, double}'),("quotient equality",'DecafPoint::equals')],
 observe=["encoding of every result","equality verdicts"])
prop("C10","Replicas on different backends never diverge",
 "Replicas that apply the same log of scalar, Edwards, Curve448 and Decaf operations produce byte-identical results at every log position although some run the 64-bit and some the 32-bit backend, in release or overflow-checked builds, and although each replica crashes at arbitrary points and resumes from a snapshot of encodings plus log replay. No operation panics or aborts on one build and succeeds on another.",
 ["histories","crash_points","configurations","schedules"],
 "all operation logs, all snapshot and crash points, all pairs of backend and build profile",
 "Each test run compiles one backend; nothing compares the two, and a code comment asks whether they are consistent.",
 [F64,F32,KA,C64,C32,FM],
 [("64-bit field backend",F64),("32-bit field backend",F32+" and "+KA),("per-backend constants",C64+" and "+C32)],
 observe=["encoding of the result of every applied log entry on every replica"])
prop("C11","Admission to the prime-order subgroup is exact",
 "For every point a peer can make a party decode, honest or with a hidden torsion component, the torsion-freeness test answers true exactly when the point lies in the prime-order subgroup, in any internal representation and on any backend. Torquing a point adds the point of order two, and multiplying any decoded point by four always passes the test.",
 ["inputs","fault_sequences","configurations"],
 "all curve points and all their projective representations, all ways a hostile peer can add torsion",
 "One test checks two subgroup points and one fixed outsider.",
 [ED,CO],
 [("multiplication by the group order",'ExtendedPoint::is_torsion_free'),("order constant",CO),("adding the point of order two",'ExtendedPoint::torque')],
 observe=["verdict of the torsion-freeness test"])
prop("C12","Concurrent and past calls never influence a result",
 "The result of any operation depends only on its arguments: not on what other threads of the process are computing at the same time, how their execution interleaves with it, which thread runs it, what was computed before, or earlier calls that unwound because a caller-supplied generator or iterator failed. Every operation also completes under every interleaving.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of operations of several threads at field-operation granularity, all call histories, all unwinds out of caller-supplied callbacks",
 "Tests run each operation in a fresh context and never interleave, repeat or interrupt calls.",
 [ED,MO,SC,DO,DE,VB,"src/sim.rs"],
 [("no shared mutable state: all operations are functions of their operands",'whole crate, forbid(unsafe_code)')],
 observe=["result of every operation of every thread against the same operation in a freshly loaded copy of the library"],
 hook="cfg(goldilocks_sim): scheduling points in the field and scalar primitives")
prop("C13","Random scalars come only from the caller's generator",
 "A random scalar is canonical, is determined solely by the output of the generator passed in (same stream, same scalar, on every backend and after any history), and over independent streams is spread uniformly over the whole range with no fixed, repeated or missing bits. If the generator fails, the failure reaches the caller and no scalar is produced, and later calls with a working generator are unaffected; stuck or adversarial output (all zeros, all ones, periodic) still yields a canonical scalar.",
 ["inputs","fault_sequences","histories","configurations"],
 "all generator streams, all failure points within and between draws, all interleavings of several generators",
 "The function is behind an optional feature that no test enables.",
 [SC],
 [("wide draw and reduction",'Scalar::random')],
 observe=["scalar bytes","bytes requested from the generator","propagation of generator failure"])
prop("C14","Edwards and Curve448 views of a key agree",
 "Mapping an Edwards point to Curve448 commutes with scalar multiplication for every curve point and every scalar, so a party that computes on the Edwards curve and converts and a party that converts and uses the ladder reach the same 56 bytes in any order of exchange, on any backend. The map gives u = y^2/x^2 (0 when x is 0 or y is 0), so it does not depend on the point's internal representation, on its sign, or on an added point of order two.",
 ["inputs","schedules","configurations"],
 "all curve points in all representations, all scalars, both backends, all exchange orders",
 "One test compares the two sides for the generator and the scalar 200.",
 [ED,MO,FM],
 [("map to the u-coordinate",'ExtendedPoint::to_montgomery'),("ladder",'Mul<&Scalar> for &MontgomeryPoint'),("Edwards multiplication",'ExtendedPoint::scalar_mul')],
 observe=["bytes of the converted points"])
prop("C15","Work on the isogenous twisted curve comes back as four times the same work",
 "Carrying a curve point to the isogenous twisted curve and back gives exactly four times the point, and the maps respect the group: whatever parties add, subtract, double, negate, select or torque on the twisted curve, in any mix of its extended, extensible and Niels representations, comes back as four times the same combination of the original points, on any backend and in any order. Points of the twisted curve compare equal exactly when they are the same point, which for images of curve points means that the originals differ by a point of order dividing four; torquing flips between two unequal points that come back as the same one.",
 ["inputs","schedules","configurations"],
 "all curve points including torsion, all combinations and orders of operations, all representations, both backends",
 "One test takes a single point around the isogeny and back; the additions, subtractions and comparisons are tested on two multiples of the base point, in one representation each.",
 [ED,TE,TX,TP],
 [("isogeny to the twisted curve",'ExtendedPoint::to_twisted'),("dual isogeny",'twedwards ExtendedPoint::to_untwisted'),("unified addition, subtraction, doubling and readdition",'ExtensiblePoint'),("Niels form, conditional negation",'ProjectiveNielsPoint')],
 observe=["encodings of points carried back","verdicts of equality on the twisted curve"])
prop("C20","What an observer of time and memory sees does not depend on secrets",
 "Which code is executed and which memory addresses are touched, in which order, is the same for all values of the operands, in optimised builds of both backends: for scalar arithmetic, inversion, halving, comparison and encoding; for addition, subtraction, negation, doubling, sums, conditional selection, comparison, subgroup test, encoding and conversion of points on the Edwards curve, Curve448 and Decaf; for multiplication of a point by a scalar in each of these; for drawing random scalars; and for importing valid encodings. It stays so after any history of earlier operations, after a reload from an encoding, and when a generator or iterator supplied by the caller fails. What is public by nature is not covered: the verdict on a received encoding, and the low-order verdict.",
 ["inputs","histories","fault_sequences","configurations"],
 "all secret operands including zero, identity, equal and nearly equal ones; all histories of operations; both backends",
 "Tests look at results; a branch or a table access that depends on a secret gives the same results.",
 [ED,MO,SC,DA,WN],
 [("ladder with conditional swaps",'Mul<&Scalar> for &MontgomeryPoint'),("table lookup that reads every entry",'LookupTable::select'),("masked final subtraction",'sub_extra'),("selection and comparison through subtle",'ConditionallySelectable, ConstantTimeEq')],
 observe=["number, kind and order of basic blocks entered and addresses loaded and stored per operation"])
prop("C21","Field arithmetic is exact for every internal representation",
 "Additions, products, squares, inverses and square roots of field elements equal the same operations modulo 2^448-2^224-1 for every limb vector within the backend's bounds, and results stay within those bounds.",
 ["inputs"],"all limb vectors within bounds","Tests sample a handful of products.",
 [F64,F32,KA,FM],[("limb arithmetic","both backends")])
prop("C22","Wiping a Curve448 value leaves nothing of it in memory",
 "With the zeroize feature, once a Curve448 value has been wiped the memory it occupied is all zero, whatever the value was, and stays so until something is stored there: when it is wiped in place, as one of several, or by a container that wipes itself when it goes out of scope, returns early or is unwound by a panic, in optimised and overflow-checked builds of both backends. No other value changes, a wiped value is the ordinary value u = 0, and a core dump taken at any later point, also inside another computation, shows nothing of it.",
 ["inputs","schedules","crash_points","fault_sequences","configurations"],
 "all values, all ways and orders of wiping among other operations, all points of crash, unwinding and core dump, both backends, optimised and checked builds",
 "The feature is not enabled in any test, and no test looks at memory.",
 [MO],[("derived wiping",'MontgomeryPoint, derive(Zeroize)')],
 observe=["memory of values held by the parties","memory of freed containers","core dumps inside computations"],
 hook="cfg(goldilocks_sim): points inside computations at which a core dump can be taken")
for p in P:
    assert len(p["title"])<=80,p["title"]
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
import subprocess
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p,s)
    print("valid",len(P))
except ImportError: print("no jsonschema",len(P))
