#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I = "iris-mpc/src/"
ALLP = [I+"aby3/protocol.rs", I+"aby3_mal/protocol.rs", I+"spdzwise/protocol.rs", I+"swift3/protocol.rs"]
prop("P01", "A shared iris query returns exactly the plaintext database decision",
 "For every backend, querying an iris code against a secret-shared database tells all three parties true exactly when at least one entry's masked fractional Hamming distance is below the match threshold, as the plaintext reference decides, and false otherwise. The answer does not depend on the chunk size or on which positions match. A query in which some pair of masks has too few usable bits is rejected with the mask error by all parties rather than answered.",
 ["inputs","configurations"], "all codes, masks (including distances at threshold-1/threshold/threshold+1 and mask weights around the minimum), database sizes and orders, chunk sizes, share randomness, backends",
 "The tests use a handful of random (far apart or near-identical) codes, one or two chunk sizes and only 16-bit shares; boundary distances, chunk boundaries and mask thresholds are never hit, and Swift3's query test is ignored.",
 [I+"iris/protocol.rs", "plain-reference/src/lib.rs"]+ALLP,
 [("iris_in_db", I+"iris/protocol.rs"), ("get_cmp_diff / threshold", I+"iris/protocol.rs"), ("masked_dot_many, get_msb_many, reduce_binary_or", I+"*/protocol.rs"), ("is_close reference", "plain-reference/src/lib.rs")],
 ["return value of the database query at each party", "plaintext reference decision"])
prop("P02", "Arithmetic on shares equals wrapping integer arithmetic",
 "For every backend and supported integer type, opening the result of any program of share additions, subtractions, constant operations, multiplications and dot products gives every party the value the same program yields on plain wrapping integers. This holds for values shared by a dealer and values input by a party, for single and batched operations, and for any interleaving with verification and opening.",
 ["inputs","programs","configurations"], "all programs over the public arithmetic operations, all operand values, vector lengths and batch sizes, all integer types the backend supports, all share randomness",
 "Each test runs one operation on one random pair of 16-bit values; no test composes operations, uses other widths in a protocol, or checks batched operations with unequal lengths; Swift3's dot test is ignored.",
 ALLP+[I+"aby3/share.rs", I+"swift3/share.rs", I+"types/ring_element.rs"],
 [("mul/dot/dot_many", I+"*/protocol.rs"), ("add/sub constants per party", I+"aby3/share.rs, "+I+"swift3/share.rs"), ("input/share/open", I+"*/protocol.rs")],
 ["values returned by opening"])
prop("P03", "Comparison and OR on shares equal the plaintext bits",
 "For every backend, extracting the sign bit of shared values, OR-ing shared bits and OR-reducing a shared bit vector yield, once opened, exactly the plaintext sign bits, OR and OR over all entries. This holds for any number of values, any chunk size of at least one, and for single and batched calls alike.",
 ["inputs","programs","configurations"], "all values, batch sizes (especially around multiples of the packing width), chunk sizes, positions of the set bits, types and share randomness",
 "Tests take the sign bit of a few random 16-bit values and never call the OR reduction or the binary gates directly; packing and chunk boundaries are not reached.",
 [I+"traits/binary_trait.rs", I+"aby3/utils.rs"]+ALLP,
 [("msb_adder_many / arithmetic_to_binary", I+"*/protocol.rs, "+I+"traits/binary_trait.rs"), ("or_tree, pack, transpose", I+"aby3/utils.rs"), ("reduce_or cascade", I+"*/protocol.rs")],
 ["opened bits"])
prop("P04", "A cheating party cannot make an honest party accept a wrong number",
 "In the three maliciously secure backends, if one party deviates by altering any of the messages it sends after sharing, depending on all it could know by then, every honest party that finishes verification and opening obtains the correct arithmetic results, or else it stops with an error. Deviations are never silently absorbed into a wrong opened value.",
 ["fault_sequences","inputs","programs"], "all single-party message alterations (bit flips, additive ring errors, replacement, replay, truncation) at any message of any arithmetic program, for every corrupt party",
 "No test in the repository alters a message: every malicious backend is tested only on honest executions, so removing a check would go unnoticed.",
 ALLP[1:]+[I+"dzkp/mul_proof.rs", I+"dzkp/dot_proof.rs", I+"commitment/mod.rs"],
 [("joint message passing and hash checks", I+"aby3_mal/protocol.rs, "+I+"swift3/protocol.rs"), ("multiplication sacrifice", I+"aby3_mal/protocol.rs"), ("MAC check", I+"spdzwise/protocol.rs"), ("distributed zero-knowledge proofs", I+"dzkp/")],
 ["values or errors returned at the two honest parties"])
prop("P05", "A cheating party cannot flip a bit or a match decision an honest party accepts",
 "In the three maliciously secure backends, if one party alters any message it sends during comparison, OR, verification or opening of bits, or during a whole database query, depending on all it could know by then, an honest party that returns a result returns the correct bits or decision, and otherwise returns an error. Detected cheating is reported as an error value, not a crash.",
 ["fault_sequences","inputs","programs"], "all single-party message alterations at any message of bit-level programs and database queries, for every corrupt party",
 "No test alters a message; AND-gate checks, triple sacrifices and AND proofs are exercised only on honest runs.",
 ALLP[1:]+[I+"iris/protocol.rs", I+"spdzwise/triples.rs", I+"dzkp/and_proof.rs"],
 [("AND verification / sacrifice", I+"aby3_mal/protocol.rs"), ("triple cut-and-choose and queue", I+"spdzwise/protocol.rs"), ("AND proof", I+"dzkp/and_proof.rs"), ("database query", I+"iris/protocol.rs")],
 ["bits, decisions or errors returned at the two honest parties"])
prop("P06", "Message timing never changes results, blocks parties or leaves stray messages",
 "Whatever the relative speed of the three parties and the delivery order across links, an honest execution terminates at all three parties with the same opened results, and those results are the ones obtained under any other schedule. When it ends, every message sent has been received by the party it was meant for.",
 ["schedules","programs"], "all interleavings of the three parties and of message delivery (per-link FIFO), for all programs and backends",
 "Tests run on one tokio scheduler with an unbounded instant network; an ordering dependence between links or an unreceived message is invisible there.",
 ALLP+[I+"traits/network_trait.rs", I+"traits/test_network.rs"],
 [("send/receive ordering in every protocol step", I+"*/protocol.rs"), ("broadcast", I+"aby3/network.rs")],
 ["results per party", "termination", "per-link sent and received message sequences"])
prop("P07", "Every operation leaves a well-formed sharing of the right value",
 "After any sequence of operations, the three parties' shares agree on every component that two of them hold, reconstruct to the intended value, and in the authenticated backend the attached tag equals the key times the value. This holds for dealer-created, input, local, multiplied, constant-adjusted and bit shares.",
 ["programs","inputs","histories"], "all programs, types, backends and randomness; checked on every intermediate share, not only on opened results",
 "Tests check opened values only; a replicated component that diverges between two parties, or a wrong tag, opens correctly in many paths and is never inspected.",
 [I+"aby3/share.rs", I+"swift3/share.rs", I+"spdzwise/share.rs"]+ALLP,
 [("constant addition per party", I+"aby3/share.rs"), ("resharing after multiplication", I+"*/protocol.rs"), ("tag maintenance", I+"spdzwise/protocol.rs")],
 ["share components returned to each party by the public operations"],
 state=[("replicated components", "each additive part is held identically by two parties", I+"aby3/share.rs"), ("tag", "key times value, shared", I+"spdzwise/share.rs")])
prop("P08", "Malformed or missing peer messages produce errors, never panics or hangs",
 "If a peer sends truncated, oversized, empty or arbitrary bytes in place of any protocol message, or closes its connection, the receiving party's operation returns an error or completes; it neither panics nor waits forever. This holds for every backend including the semi-honest one, for every operation and set-up step.",
 ["fault_sequences","inputs"], "all byte-level replacements, truncations, extensions and losses at any message of any operation",
 "No test delivers malformed bytes; length and encoding checks on received data are never exercised.",
 [I+"aby3/utils.rs", I+"types/int_ring.rs", I+"types/bit.rs"]+ALLP,
 [("decoding of received elements", I+"aby3/utils.rs, "+I+"types/int_ring.rs"), ("size checks on hashes, seeds, proofs", I+"*/protocol.rs")],
 ["result (value, error, panic, no progress) of each honest party"])
prop("P09", "Ring elements obey the laws of integers modulo a power of two",
 "Addition, subtraction, negation, multiplication, shifts, bit operations, bit access, sign bit, multiplicative inverse and width conversions of every supported type agree with exact integer arithmetic modulo two to the bit width, in every owned, borrowed and in-place form. An odd element times its inverse is one and an even element is reported as having none.",
 ["inputs"], "all operand values (including zero, one, extremes, single bits), all shift amounts below the width, all types, all operator forms",
 "Unit tests cover the conversions between vectors and a few random inverses for some widths; the operators and edge values are untested.",
 [I+"types/ring_element.rs", I+"types/int_ring.rs", I+"types/bit.rs", I+"types/sharable.rs", I+"types/mod.rs"],
 [("operator implementations", I+"types/ring_element.rs"), ("single-bit type", I+"types/bit.rs"), ("extended Euclid", I+"types/mod.rs"), ("signed/unsigned and verification-width casts", I+"types/sharable.rs")],
 ["values returned by the public element operations"])
prop("P10", "Encodings round-trip, have the fixed size and reject everything else",
 "Encoding an element, an element vector or a share and decoding it gives back the original, and the byte form has exactly the width fixed for its type. Decoding bytes of any other length, or bytes that are not a valid bit, is an error and never yields an element or a panic.",
 ["inputs"], "all values and vectors of all types; all byte strings of all small lengths",
 "Encoding is exercised only implicitly between equal code; wrong lengths and invalid bit bytes are never tried.",
 [I+"types/int_ring.rs", I+"types/ring_element.rs", I+"types/bit.rs", I+"aby3/utils.rs", I+"aby3/share.rs", I+"swift3/share.rs", I+"spdzwise/vecshare.rs"],
 [("add_to_bytes / take_from_bytes", I+"types/int_ring.rs"), ("vector encoding", I+"aby3/utils.rs"), ("serde of shares", I+"aby3/share.rs")],
 ["bytes and values returned by encode/decode"], hook="thin re-export of the vector encode/decode helpers")
prop("P11", "Commitments open only to what was committed",
 "A commitment verifies with the values and randomness that produced it, and does not verify with any other value vector or randomness or against any other commitment string. Two commitments to the same values with different randomness differ.",
 ["inputs"], "all value vectors, randomness, and single- or multi-byte alterations of the opening or the commitment, for all element types",
 "One round-trip test exists per type with random data; no altered opening is ever checked.",
 [I+"commitment/mod.rs", I+"swift3/protocol.rs", I+"aby3_mal/protocol.rs"],
 [("commit / verify", I+"commitment/mod.rs"), ("coin tossing and seed exchange", I+"swift3/protocol.rs")],
 ["result of opening verification"], hook="re-export of the commitment types")
prop("P12", "Multiplication proofs accept every honest run and reject every wrong gate",
 "The verification step that follows multiplications, dot products and AND gates accepts every honest execution, for any number and size of gates, any integer type, and any number of repeated verifications. If the registered result of any single gate is wrong, or any part of a proof is altered, the verifiers reject.",
 ["inputs","programs","fault_sequences"], "all gate counts, dot lengths (mixed), types and values; all positions of a wrong gate; all alterations of proof components",
 "Tests run a few honest proofs with 16-bit elements and fixed gate counts; unusual counts, other widths, re-verification and wrong gates are never tried.",
 [I+"dzkp/and_proof.rs", I+"dzkp/mul_proof.rs", I+"dzkp/dot_proof.rs", I+"swift3/protocol.rs"],
 [("prove / verify / combine", I+"dzkp/mul_proof.rs, dot_proof.rs, and_proof.rs"), ("gate registration", I+"swift3/protocol.rs")],
 ["verification result at each party", "result of combining verification messages"], hook="re-export of the proof types")
prop("P13", "Field and polynomial arithmetic behind the proofs is exact",
 "The binary extension field is a field and agrees with carry-less reference arithmetic; polynomial division, modular inversion and interpolation over rings modulo a power of two satisfy their defining equations; every tabulated modulus polynomial is irreducible of the stated degree.",
 ["inputs"], "all field elements, polynomials of all degrees used, point sets and moduli, all element widths",
 "Tests check three fixed vectors and random interpolation for 16-bit elements with one modulus.",
 [I+"dzkp/gf2p64.rs", I+"dzkp/polynomial.rs", I+"dzkp/irreducible_polys.rs"],
 [("field operations", I+"dzkp/gf2p64.rs"), ("long division, inverse, Lagrange", I+"dzkp/polynomial.rs"), ("modulus table", I+"dzkp/irreducible_polys.rs")],
 ["values returned by the field and polynomial operations"], hook="re-export of the field and polynomial types")
prop("P14", "What a party receives is freshly masked and independent of the others' secrets",
 "With the inputs and their shares held fixed, every data message (other than hashes comparing openings) a party receives in inputs, multiplication, dot product, comparison and OR is uniformly distributed over sessions, and distinct messages are not copies or fixed offsets of one another. Dealer-made shares seen by a single party are uniformly distributed whatever the secret, and two sessions, or two operations of one session, never use the same masks. Number and sizes of the messages do not depend on the secrets.",
 ["inputs","histories","programs"], "all inputs, operations, parties, widths; distribution over session randomness",
 "Correctness tests cannot see a missing or repeated mask, because unmasked protocols still compute the right result.",
 [I+"aby3/random/prf.rs", I+"swift3/random/prf.rs"]+ALLP,
 [("zero-share generation", I+"aby3/random/prf.rs"), ("pairwise seed set-up", I+"*/protocol.rs"), ("dealer sharing", I+"*/protocol.rs")],
 ["messages received by each party", "shares produced by the dealer function"])
prop("P15", "A session answers any history of queries, including rejected ones",
 "In every backend, one session can process any sequence of database queries of any sizes and chunk sizes, mixed with explicit verifications, and each answer is what a fresh session would give. Preprocessed material never runs out in an honest run, and a query rejected for bad masks or sizes leaves the session able to answer the next one correctly.",
 ["histories","inputs","configurations"], "all sequences of queries, database sizes, chunk sizes, rejected queries and verifications within one session",
 "Every test creates a new session, asks one query of fixed size and ends; leftover material, counters and buffers are never carried over.",
 [I+"iris/protocol.rs", I+"spdzwise/protocol.rs", I+"spdzwise/triples.rs", I+"swift3/protocol.rs"],
 [("triple budget", I+"iris/protocol.rs"), ("triple generation and consumption", I+"spdzwise/protocol.rs"), ("bit packing of used triples", I+"spdzwise/triples.rs")],
 ["answers of successive queries"],
 state=[("precomputed and pending triples", "checked material left over from earlier queries", I+"spdzwise/protocol.rs")])
prop("P16", "Plain iris bit arrays behave as fixed-length bit vectors",
 "Setting, flipping, reading, iterating, counting, combining and complementing bits of the fixed-length iris arrays agree with a reference vector of booleans of exactly that length, and converting to and from bytes or printing preserves every bit. No operation disturbs a bit it does not name.",
 ["inputs","histories"], "all sequences of bit operations at all positions (including word boundaries and the ends), all arrays",
 "The one plain test compares distances of random codes; single-bit access near word boundaries and operator identities are not covered.",
 ["plain-reference/src/lib.rs"],
 [("bit access, bits iterator, count_ones, &, ^, from/to bytes", "plain-reference/src/lib.rs")],
 ["bits, counts and bytes of arrays"])
prop("P17", "The plaintext match rule is the masked fractional Hamming distance test",
 "Two codes match exactly when the number of differing bits among those usable in both masks is below the floor of the threshold ratio times the number of usable bits; the rule is symmetric, ignores masked-out bits and is reflexive for sufficiently unmasked codes. Generated similar codes match their origin, and generated masks always leave enough usable bits.",
 ["inputs"], "all pairs of codes and masks, including distances at the threshold and masks at the minimum weight; all generator seeds",
 "A random-pair test cannot reach the threshold boundary, and symmetry and mask-independence are not tested.",
 ["plain-reference/src/lib.rs"],
 [("is_close, distance", "plain-reference/src/lib.rs"), ("random and similar code generation", "plain-reference/src/lib.rs")],
 ["match decisions", "generated codes"])
prop("P18", "Channels deliver exactly the sent values, in order, however bytes are split",
 "Whatever values are written to a channel, the peer reads exactly those values in the order sent, regardless of how the byte stream is fragmented or how reads and writes interleave, for raw and structured channels and for managed channel handles. A truncated or malformed frame yields an error, never a wrong value, and closing reports unexpected leftover data.",
 ["inputs","schedules","fault_sequences"], "all message sequences and sizes, all fragmentations of the stream, all orders of queued operations, all truncations",
 "The network crate has no tests at all.",
 ["mpc-net/src/channel.rs", "mpc-net/src/codecs.rs"],
 [("framing", "mpc-net/src/channel.rs"), ("bincode codec", "mpc-net/src/codecs.rs"), ("managed handle", "mpc-net/src/channel.rs")],
 ["values read from channels", "errors on closing"])
prop("P19", "Networks connect the configured parties and route every message to its addressee",
 "Parties started from consistent configurations, in any start order, obtain channels on which data sent to a party arrives at exactly that party, in order; next, previous and broadcast addressing mean the same on the real and the in-memory transport. A party's last messages arrive even if it shuts down right after sending them, and a server with another certificate, name or key than the configured one is not connected to. Inconsistent configurations (own identity missing, duplicate or oversized identities, wrong party count) are refused with an error, and a peer that introduces itself wrongly or hangs up while connecting causes an error, never a panic, an endless wait or a channel.",
 ["configurations","schedules","inputs"], "all party numberings, channel counts, start orders, message sequences and inconsistent configurations",
 "The network crate has no tests; the in-memory network is only used indirectly and always in the same pattern.",
 ["mpc-net/src/lib.rs", "mpc-net/src/config.rs", I+"aby3/network.rs", I+"traits/test_network.rs", I+"aby3/id.rs"],
 [("establish / channels", "mpc-net/src/lib.rs"), ("check_config", "mpc-net/src/config.rs"), ("next/prev routing", I+"aby3/network.rs, "+I+"traits/test_network.rs")],
 ["messages received per party", "errors for bad configurations"])
prop("P20", "Invalid arguments are refused by all parties and leave the session usable",
 "Calls with mismatched lengths or mask counts, empty databases or OR reductions, a chunk size of zero, wrong code sizes, unknown party numbers or too small integer types return an error at every party on every backend. The refusal neither panics nor desynchronises the parties: later valid calls in the same session still give correct results. A missing input value is reported by the party that lacks it, and no party panics or waits forever.",
 ["inputs","histories","configurations"], "all operations with all kinds of inconsistent arguments, before and between valid operations",
 "Error paths are not tested at all, and a one-sided refusal would only show as a hang or a wrong later result.",
 [I+"iris/protocol.rs", I+"traits/binary_trait.rs", I+"error.rs"]+ALLP,
 [("size and id checks", I+"*/protocol.rs"), ("constructor check", I+"iris/protocol.rs")],
 ["errors and later results at each party"])
prop("P21", "Generated sample databases are consistent sharings of the recorded codes",
 "For every scheme, the per-party database files the sample tool writes combine to exactly the plaintext codes and masks recorded alongside, entry by entry, with replicated components matching across parties and tags matching the recorded key. The same seed reproduces the same data, further runs only add entries, and a failed or interrupted run adds none. The plaintext search tool reports a match exactly when the recorded database contains a matching entry, and certificates the generator writes let parties connect under every given name.",
 ["inputs","configurations","crash_points","histories"], "all item counts, schemes, seeds, data directories, histories of runs and interruption points",
 "The command-line tools have no tests.",
 [I+"bin/create_sample_data.rs", I+"bin/gen_cert.rs", "mpc-net/src/bin/gen_cert.rs", "plain-reference/src/bin/create_sample_data_plain.rs", "plain-reference/src/bin/find_match.rs"],
 [("share database writers", I+"bin/create_sample_data.rs"), ("plain search", "plain-reference/src/bin/find_match.rs")],
 ["rows of the written database files", "output of the search tool"])
prop("P22", "Local share operations and share vectors are homomorphic and lossless",
 "Adding, subtracting, negating, scaling, XOR-ing, complementing, masking and shifting shares locally, in every operator form, changes the shared value by exactly that operation, with zero as neutral element. Splitting, chunking, extending, indexing and combining share vectors never loses, duplicates, reorders or detaches entries from their tags.",
 ["inputs","programs"], "all share values, constants, shift amounts, vector lengths, split points and chunk sizes, for all share types",
 "Tests reach the local operators only through two or three protocol steps on 16-bit values; the container operations are not tested.",
 [I+"aby3/share.rs", I+"swift3/share.rs", I+"spdzwise/share.rs", I+"aby3/vecshare.rs", I+"swift3/vecshare.rs", I+"spdzwise/vecshare.rs"],
 [("operator implementations", I+"aby3/share.rs, "+I+"swift3/share.rs"), ("vector operations", I+"*/vecshare.rs")],
 ["share components after each operation"])
prop("P23", "Parties end set-up with matching pairwise randomness and distinct keys",
 "After set-up, whatever the order of messages, each pair of parties that must share randomness draws identical values and no other pair does, so jointly generated masks cancel and locally generated random sharings are consistent. Repeating set-up yields new randomness, and commitments in set-up (MalAby3, Swift3) and the checks of coin tosses (MalAby3, SpdzWise, Swift3) make a tampered message be detected; no party learns such a coin before its messages that the coin helps to check have arrived. (ABY3's and SpdzWise's set-up is a plain exchange of seeds.)",
 ["schedules","histories","fault_sequences"], "all schedules, repeated set-ups and sequences of draws in all backends",
 "Tests only see that products open correctly; identical keys for all pairs, stale randomness after repeated set-up, or undetected seed tampering stay invisible.",
 [I+"aby3/random/prf.rs", I+"swift3/random/prf.rs"]+ALLP,
 [("setup_prf", I+"*/protocol.rs"), ("Prf", I+"aby3/random/prf.rs, "+I+"swift3/random/prf.rs")],
 ["random key shares generated at each party", "set-up errors under tampering"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
