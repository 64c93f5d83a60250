//! P02, P03, P06, P07: honest programs.
use crate::disp::*;
use vcore::glue::*;
use vcore::prog::*;
use vcore::sim::*;
use serde::{Deserialize, Serialize};
use vengine::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prog: Prog,
    entropy: u64,
    sched: Sched,
}

fn be_of(idx: u64) -> Be {
    BES[(idx % 4) as usize]
}

const ARITH: GenOpt = GenOpt { ops: 12, bits: false, arith: true, opens: true, inputs: true, max_vec: 9, max_batch: 4 };
const BITS: GenOpt = GenOpt { ops: 6, bits: true, arith: false, opens: true, inputs: false, max_vec: 3, max_batch: 2 };
const MIXED: GenOpt = GenOpt { ops: 9, bits: true, arith: true, opens: true, inputs: true, max_vec: 5, max_batch: 3 };

fn finish(s: &mut Src, mut p: Prog, bits: bool, arith: bool) -> Prog {
    // close with verification and opening of the last registers, so that every program is observed
    if s.below(4) > 0 {
        p.ops.push(Op::Verify);
    }
    if arith {
        let n = s.usize(1, 6);
        p.ops.push(Op::OpenMany((0..n).map(|_| s.below(24) as usize).collect()));
        let n = model(&p).regs.len().max(1);
        p.ops.push(Op::Open(n - 1));
    }
    if bits {
        let n = model(&p).bits.len();
        if n > 0 {
            p.ops.push(Op::OpenBit(n - 1));
            p.ops.push(Op::OpenBitMany((0..n).collect()));
        }
    }
    with_budget(p)
}

fn gen_arith(s: &mut Src, i: u64) -> Case {
    let be = be_of(i);
    let ty = pick_ty(s, be);
    let p = gen_prog(s, be, ty, &ARITH);
    Case { prog: finish(s, p, false, true), entropy: s.u64(), sched: Sched::PLAIN }
}

/// Long vectors and big batches.
fn gen_arith_big(s: &mut Src, i: u64) -> Case {
    let be = be_of(i);
    let ty = pick_ty(s, be);
    let k = ty.k();
    let n = s.usize(1, 6);
    let mut ops = vec![Op::Share { vals: gen_vals(s, k, n), seed: s.u64() }];
    for _ in 0..s.usize(1, 3) {
        let len = s.pick(&[1usize, 2, 15, 16, 17, 63, 64, 65, 100, 127, 128, 129, 300, 700]);
        let seed = s.u64();
        let mut r = Rng64::new(seed);
        let mut pair = || (r.below(24) as usize, r.below(24) as usize);
        match s.below(3) {
            0 => ops.push(Op::Dot((0..len).map(|_| pair()).collect())),
            1 => {
                let m = s.usize(1, 12);
                ops.push(Op::DotMany((0..m).map(|_| (0..len.min(64)).map(|_| pair()).collect()).collect()))
            }
            _ => {
                for _ in 0..len.min(70) {
                    let (a, b) = pair();
                    ops.push(Op::Mul(a, b));
                }
            }
        }
    }
    let p = Prog { be, ty, key: s.value(64), own_key: false, ops };
    Case { prog: finish(s, p, false, true), entropy: s.u64(), sched: Sched::PLAIN }
}

fn labels(o: Outcome, p: &Prog) -> Outcome {
    o.label(format!("{:?}/{:?}", p.be, p.ty))
}

fn run_values(c: &Case) -> Check {
    let m = model(&c.prog);
    let r = run_prog(&c.prog, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, &c.sched);
    let t = expect_clean(&c.prog, &r)?;
    for i in 0..3 {
        check_obs(&c.prog, &m, &t[i], i)?;
    }
    Ok(labels(Outcome::ok(nontrivial(&c.prog) && !m.obs.is_empty()), &c.prog))
}

fn gen_bits(s: &mut Src, i: u64) -> Case {
    let be = be_of(i);
    let ty = pick_ty(s, be);
    let p = gen_prog(s, be, ty, &BITS);
    Case { prog: finish(s, p, true, false), entropy: s.u64(), sched: Sched::PLAIN }
}

/// One batched sign extraction and one reduction around the packing widths.
fn gen_bits_batch(s: &mut Src, i: u64) -> Case {
    let be = be_of(i);
    let ty = pick_ty(s, be);
    let k = ty.k();
    let n = batch_len(s);
    let seed = s.u64();
    let mut r = Rng64::new(seed);
    let style = s.below(4);
    let vals: Vec<u128> = (0..n)
        .map(|_| match style {
            0 => r.u128() & (mask(k) >> 1),                                  // no sign bit
            1 => if r.below(n as u64) == 0 { 1 << (k - 1) } else { r.u128() & (mask(k) >> 1) },
            2 => (1u128 << (k - 1)).wrapping_add(r.below(3) as u128).wrapping_sub(1) & mask(k),
            _ => r.u128() & mask(k),
        })
        .collect();
    let mut ops = vec![Op::Share { vals, seed: s.u64() }, Op::MsbMany((0..n).collect())];
    let chunk = chunk_len(s);
    ops.push(Op::OrReduce { regs: (0..n).collect(), chunk });
    if s.bool() {
        let a = s.usize(0, n - 1);
        ops.push(Op::OrReduce { regs: (a..n).collect(), chunk: chunk_len(s) });
    }
    let p = Prog { be, ty, key: s.value(64), own_key: false, ops };
    Case { prog: finish(s, p, true, false), entropy: s.u64(), sched: Sched::PLAIN }
}

fn gen_or_only(s: &mut Src, i: u64) -> Case {
    let be = be_of(i);
    let ty = Ty::U16;
    let n = match s.below(5) {
        0 => s.usize(1, 20),
        1 => s.usize(120, 140),
        2 => s.usize(250, 260),
        3 => s.usize(380, 700),
        // enough for several levels also where bits are packed into words
        _ => {
            let words = s.usize(9, 37);
            (words * 128 - s.pick(&[0usize, 0, 1, 5, 64, 120])).min(if matches!(be, Be::Mal) { 900 } else { 5000 })
        }
    };
    let one = s.below(5) > 0;
    let two = one && s.one_in(4);
    let extra = s.usize(0, n - 1);
    let vals: Vec<bool> = (0..n).map(|j| one && j == 0 || two && j == extra).collect();
    let mut ops = vec![Op::Bits { vals, seed: s.u64() }];
    // the bit that is set comes to lie at drawn positions, mostly those at the ends of levels and words
    let times = if n > 1000 { s.usize(1, 2) } else { s.usize(2, 5) };
    for _ in 0..times {
        let pos = match s.below(6) {
            0 | 1 => n - 1,
            2 => n - 1 - s.usize(0, n.min(130) - 1),
            3 => s.usize(0, n.min(130) - 1),
            4 => (n / 2 + s.usize(0, 2)).min(n - 1),
            _ => s.usize(0, n - 1),
        };
        let regs = (0..n).map(|j| (j + n - pos) % n).collect();
        let chunk = if s.bool() { chunk_len(s) } else { s.pick(&[1usize, 2, 3, 4, 5, 7, 8, 16, 100]) };
        ops.push(Op::OrReduce { regs, chunk });
    }
    let mut p = Prog { be, ty, key: s.value(64), own_key: false, ops };
    if s.bool() {
        p.ops.push(Op::Verify);
    }
    for k in 0..times {
        p.ops.push(Op::OpenBit(n + k));
    }
    Case { prog: with_budget(p), entropy: s.u64(), sched: Sched::PLAIN }
}

fn gen_mixed(s: &mut Src, i: u64) -> Case {
    let be = be_of(i);
    let ty = pick_ty(s, be);
    let p = gen_prog(s, be, ty, &MIXED);
    Case { prog: finish(s, p, true, true), entropy: s.u64(), sched: Sched::PLAIN }
}

fn run_shares(c: &Case) -> Check {
    let m = model(&c.prog);
    let r = run_prog(&c.prog, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, &c.sched);
    let t = expect_clean(&c.prog, &r)?;
    let n = check_shares(&c.prog, &m, &t)?;
    Ok(labels(Outcome::ok(nontrivial(&c.prog)).evals(n), &c.prog))
}

fn gen_sched_case(s: &mut Src, i: u64) -> Case {
    let mut c = match s.below(3) {
        0 => gen_arith(s, i),
        1 => gen_mixed(s, i),
        _ => gen_bits(s, i),
    };
    c.sched = gen_sched(s);
    c
}

fn run_sched(c: &Case) -> Check {
    let m = model(&c.prog);
    let cfg = SimCfg { entropy: c.entropy, record: true, ..Default::default() };
    let base = run_prog(&c.prog, &[], &cfg, &Sched::PLAIN);
    let tb = expect_clean(&c.prog, &base)?;
    let tag = format!("{:?}", c.prog.be);
    let mut evals = 1;
    let mut others = vec![c.sched.clone()];
    for j in 0..3u64 {
        others.push(Sched { seed: mix(c.sched.seed ^ j), mode: (1 + (c.sched.mode as u64 + j) % 3) as u8, cap: if j == 0 { 8 } else { 0 }, yield_on_send: j % 2 == 1 });
    }
    ensure!(base.stray.is_empty(), format!("stray-{tag}"), "messages never received (from,to,count): {:?}", base.stray);
    for s in others {
        evals += 1;
        let r = run_prog(&c.prog, &[], &cfg, &s);
        let t = expect_clean(&c.prog, &r).map_err(|f| Fail { kind: f.kind, msg: format!("under schedule {s:?}: {}", f.msg) })?;
        ensure!(r.stray.is_empty(), format!("stray-{tag}"), "schedule {s:?}: messages never received: {:?}", r.stray);
        for i in 0..3 {
            check_obs(&c.prog, &m, &t[i], i).map_err(|f| Fail { kind: f.kind, msg: format!("under schedule {s:?}: {}", f.msg) })?;
            ensure!(t[i].obs == tb[i].obs, format!("diverge-{tag}"), "party {i}: results differ between schedules");
        }
        ensure!(r.lens == base.lens, format!("traffic-{tag}"), "message sequence per link differs between schedules {s:?}");
    }
    Ok(labels(Outcome::ok(nontrivial(&c.prog)).evals(evals), &c.prog))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P02",
            level: "exploration",
            families: vec![
                Box::new(Fam { name: "programs", quick: 1600, thorough: 40000, serial: false,
                    rule: "Random programs (share/input/add/sub/constants/mul/dot/dot_many/verify/open) over boundary-biased values, 4 backends x all types in turn; opened values of all parties compared with a wrapping-integer interpreter. Non-trivial: contains an interactive operation and an opening.",
                    gen: gen_arith, run: run_values }),
                Box::new(Fam { name: "long-vectors", quick: 240, thorough: 5000, serial: false,
                    rule: "Dot products up to 700 entries, batches up to 12 x 64, up to 70 pending multiplications before a verification. Non-trivial: contains an interactive operation and an opening.",
                    gen: gen_arith_big, run: run_values }),
            ],
            assumptions: vec!["SpdzWise programs request triples with a generous budget, as its interface requires"],
        },
        Prop {
            id: "P03",
            level: "exploration",
            families: vec![
                Box::new(Fam { name: "programs", quick: 480, thorough: 12000, serial: false,
                    rule: "Random programs of sign extraction, OR, OR-reduction over shares and bit shares with batch lengths around 8/16/32/64/128/256; opened bits compared with plaintext bits. Non-trivial: contains a bit operation and an opening.",
                    gen: gen_bits, run: run_values }),
                Box::new(Fam { name: "batches", quick: 320, thorough: 8000, serial: false,
                    rule: "One batched sign extraction (no/one/many sign bits, values at the sign boundary) followed by OR-reductions with random chunk sizes. Non-trivial as above.",
                    gen: gen_bits_batch, run: run_values }),
                Box::new(Fam { name: "or-reduce", quick: 480, thorough: 8000, serial: false,
                    rule: "OR-reductions of dealt bit vectors of up to 5000 bits with zero, one or two set positions, rotated so that they lie at the ends of levels and words or anywhere, and random chunk sizes. Non-trivial as above.",
                    gen: gen_or_only, run: run_values }),
            ],
            assumptions: vec!["chunk size at least one, non-empty batches (preconditions)"],
        },
        Prop {
            id: "P07",
            level: "exploration",
            families: vec![
                Box::new(Fam { name: "every-register", quick: 1200, thorough: 30000, serial: false,
                    rule: "Random mixed programs; after the run every share register of every party is compared across parties (replicated components), reconstructed against the wrapping-integer model, and for SpdzWise its tag against key times value. Evaluations count registers. Non-trivial: contains an interactive operation.",
                    gen: gen_mixed, run: run_shares }),
                Box::new(Fam { name: "arithmetic-registers", quick: 800, thorough: 20000, serial: false,
                    rule: "As above over arithmetic programs only.",
                    gen: gen_arith, run: run_shares }),
            ],
            assumptions: vec![],
        },
        Prop {
            id: "P06",
            level: "exploration",
            families: vec![Box::new(Fam { name: "schedules", quick: 480, thorough: 10000, serial: false,
                rule: "Random program run under the sequential schedule and four drawn schedules (uniform, starvation priorities, drifting priorities; link capacity unbounded or 8; optional yield after send). Results, termination, per-link message lengths and unreceived messages compared. Evaluations count schedules. Non-trivial: contains an interactive operation.",
                gen: gen_sched_case, run: run_sched })],
            assumptions: vec!["per-link FIFO delivery, link capacity unbounded or 8 messages"],
        },
    ]
}
