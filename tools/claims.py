NA = {}
c("P01", "property-based testing of generated database queries in the deterministic three-party simulator against the plaintext rule",
  "Random search; entries biased to distances and mask sizes at the limits. Swift3 queries run as the sequence of its protocol steps without the proof over 12800 products (infeasible).")
c("P02", "property-based testing of generated programs in the deterministic three-party simulator against a wrapping-integer interpreter",
  "Random search: programs of bounded length over boundary-biased values, all backends and types.")
c("P03", "property-based testing of generated comparison/OR programs against plaintext bits",
  "Random search with batch and chunk sizes biased to the packing widths.")
c("P04", "fault injection: generated programs with generated alterations of one party's messages or state, and a rushing party which alters a held-back message using what it has received by then, honest observations compared with the plaintext interpreter",
  "Random search over single corrupt parties; the checks' own statistical soundness error is neglected.")
c("P05", "fault injection on generated comparison/OR programs and database queries, with a rushing party and one that foresees checks from common randomness, honest observations compared with the plaintext bits",
  "Random search over single corrupt parties; the checks' own statistical soundness error is neglected.")
c("P06", "generated programs under generated schedules (deterministic simulator), results and traffic compared across schedules",
  "Random search over schedules; per-link FIFO order assumed.")
c("P07", "property-based testing of generated programs with an invariant on every share register of every party",
  "Random search; the invariant is checked on every intermediate share.")
c("P08", "fault injection of malformed messages, closed connections and dying parties into generated programs, set-ups and queries, with exact deadlock detection",
  "Random search; a peer that stays connected but silent is outside the property.")
c("P09", "property-based testing of every element operation against exact integer arithmetic; exhaustive for 8-bit pairs and 16-bit inverses",
  "Random search on wider types.")
c("P15", "stateful property-based testing of query histories in the simulator against the plaintext rule",
  "Random histories of bounded length; Swift3 as in P01.")
c("P16", "model-based testing of the bit arrays against vectors of booleans", "Random operation sequences.")
c("P17", "property-based testing of the match rule against exact integer arithmetic; exhaustive in the number of usable bits",
  "Random pairs elsewhere.")
c("P22", "property-based testing of local share operators by reconstruction, model-based testing of share vectors", "Random search.")
c("P10", "property-based testing of the wire encodings: round trips, differential against a byte-level model, malformed buffers",
  "Random search; 1-, 2- and 3-byte buffers exhaustively where small.")
c("P11", "property-based testing of the commitments (binding to every part, independent recomputation) and fault injection on commitments in the simulator",
  "Random search; collision resistance of the hash assumed.")
c("P12", "property-based testing of proofs between prover and verifiers with one generated lie (gate, operand, proof, seed, verification message), and fault injection in Swift3 verification steps in the simulator",
  "Random search over gate counts and lies; the proofs' statistical soundness error (2^-40) is neglected.")
c("P13", "property-based testing of field and polynomial arithmetic against carry-less and wrapping-integer reference arithmetic; exhaustive irreducibility test of the table of moduli",
  "Random search except for the table.")
c("P20", "property-based testing: random programs and query sessions with invalid calls at random positions, every party's error, later results and message balance checked against the plaintext model",
  "Random search over kinds and positions of invalid calls; Swift3 query sessions end before their final verification.")
c("P18", "property-based testing of channels and codecs over simulated streams: random values, fragmentations, interleavings, truncations and corruptions against a byte-level model of the framing",
  "Random search; in-memory streams under a paused clock; two recorded findings (a cut right behind a frame header).")
c("P19", "model-based testing of the in-memory and the real (QUIC on loopback) networks: random histories against one queue per ordered pair, random configurations, start orders and imposters",
  "Random search; loopback only; no packet loss.")
c("P14", "property-based testing of generated operations with a statistical oracle: many sessions (or repetitions) on the same inputs, every received bit balanced and no affine relation between received bits",
  "Random search over operations, types and batch shapes; balance, GF(2)-affine dependence and fixed byte distances are tested, other dependencies are not.")
c("P23", "property-based testing of generated set-up histories under generated schedules with a statistical oracle on the draws (balance, independence, freshness of a repeated set-up), and fault injection on set-up and coin-toss messages",
  "Random search; draws observed through inputs; set-up of the semi-honest base of ABY3 and SpdzWise has no commitments.")
c("P21", "property-based testing of the command-line tools as processes: generated histories of runs (schemes, seeds, files), interruptions injected at drawn writes, searches in databases generated around the code the tool will draw; databases read back against the plaintext columns",
  "Random search; the tools' randomness and writes are controlled by interposing the C library; process interruption, not power failure.")
