//! P12: the verification step of Swift3 sessions.
use crate::disp::run_prog;
use serde::{Deserialize, Serialize};
use vcore::glue::*;
use vcore::prog::*;
use vcore::sim::*;
use vengine::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prog: Prog,
    /// Corrupt party, message and alteration; none in an honest run.
    cheat: Option<(usize, u64, Alter)>,
    entropy: u64,
    sched: Sched,
}
/// Rounds of gates, each ended by one or two verifications.
fn gen_prog(s: &mut Src, ty: Ty, rounds: usize, big: bool) -> Prog {
    let n = s.usize(2, 5);
    let mut ops = vec![Op::Share { vals: gen_vals(s, ty.k(), n), seed: s.u64() }, Op::Bits { vals: (0..4).map(|_| s.bool()).collect(), seed: s.u64() }];
    for _ in 0..rounds {
        for _ in 0..s.usize(1, 3) {
            let reg = |s: &mut Src| s.usize(0, 20);
            let max = if big { 7 } else { 3 };
            ops.push(match s.below(6) {
                0 | 1 => Op::Mul(reg(s), reg(s)),
                2 => Op::Dot((0..s.usize(0, max)).map(|_| (reg(s), reg(s))).collect()),
                3 => Op::DotMany((0..s.usize(0, max)).map(|_| (0..s.usize(0, max)).map(|_| (reg(s), reg(s))).collect()).collect()),
                4 => Op::MsbMany((0..s.usize(1, 2)).map(|_| reg(s)).collect()),
                _ => if s.bool() { Op::Or(reg(s), reg(s)) } else { Op::OrReduce { regs: (0..s.usize(1, 9)).map(|_| reg(s)).collect(), chunk: s.usize(1, 4) } },
            });
        }
        if big {
            for _ in 0..s.usize(0, 12) {
                ops.push(Op::Mul(s.usize(0, 20), s.usize(0, 20)));
            }
        }
        ops.push(Op::Verify);
        if s.one_in(4) {
            ops.push(Op::Verify);
        }
    }
    ops.push(Op::Open(s.usize(0, 9)));
    ops.push(Op::OpenBit(s.usize(0, 9)));
    Prog { be: Be::Swift, ty, key: 1, own_key: false, ops }
}
fn gen_honest(s: &mut Src, _: u64) -> Case {
    let ty = pick_ty(s, Be::Swift);
    let rounds = s.usize(1, 4);
    Case { prog: gen_prog(s, ty, rounds, true), cheat: None, entropy: s.u64(), sched: gen_sched(s) }
}
fn gen_cheat(s: &mut Src, _: u64) -> Case {
    let ty = pick_ty(s, Be::Swift);
    let alter = match s.below(8) {
        0 => Alter::Random(s.u64()),
        1 => Alter::Truncate(s.below(8) as u32),
        2 => Alter::ReplayPrev,
        3 => Alter::AddElem { elem: s.u64() as u32, width: s.pick(&[1, 2, 4, 8]), delta: 1 << s.below(63) },
        _ => Alter::FlipBit(s.u64() as u32),
    };
    let rounds = s.usize(1, 2);
    let prog = gen_prog(s, ty, rounds, false);
    Case { prog, cheat: Some((s.usize(0, 2), s.u64(), alter)), entropy: s.u64(), sched: Sched::PLAIN }
}
fn run(c: &Case) -> Check {
    let m = model(&c.prog);
    let plain = c.cheat.is_some();
    let dry = run_prog(&c.prog, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, if plain { &Sched::PLAIN } else { &c.sched });
    expect_clean(&c.prog, &dry)?;
    let Some((p, msg, alter)) = &c.cheat else {
        for e in &dry.ends {
            if let PartyEnd::Done(t) = e {
                ensure!(t.obs == m.obs, "value", "observed {:?}, expected {:?}", t.obs, m.obs);
            }
        }
        return Ok(Outcome::ok(true).label(format!("{:?}", c.prog.ty)));
    };
    let marks = &dry.marks[*p];
    let mut cand = vec![];
    for (w, op) in c.prog.ops.iter().enumerate().map(|(i, o)| (i + 1, o)) {
        if *op == Op::Verify {
            for to in 0..3 {
                cand.extend((marks[w][to]..marks[w + 1][to]).map(|idx| (w, to, idx)));
            }
        }
    }
    if cand.is_empty() {
        return Ok(Outcome::ok(false).label("nothing sent"));
    }
    let (w, to, idx) = cand[(msg % cand.len() as u64) as usize];
    let f = Fault { from: *p, to, idx, alter: alter.clone() };
    let r = run_prog(&c.prog, &[], &SimCfg { entropy: c.entropy, faults: vec![f.clone()], ..Default::default() }, &c.sched);
    if r.fault_changed == 0 {
        return Ok(Outcome::ok(false).label("unchanged"));
    }
    let mut refused = false;
    for i in (0..3).filter(|i| i != p) {
        match &r.ends[i] {
            PartyEnd::Done(t) => refused |= matches!(t.err, Some((op, _)) if op + 1 == w),
            PartyEnd::Panic(e) => return fail("crash", format!("party {i} panicked: {e} after {f:?}")),
            PartyEnd::Stuck(s) => return fail("hang", format!("party {i} waits forever ({s}) after {f:?}")),
            PartyEnd::Killed => {}
        }
    }
    ensure!(refused, "accepted", "both honest parties accept the verification after {f:?} in operation {}", w - 1);
    Ok(Outcome::ok(true).label(format!("{:?}", c.prog.ty)))
}
pub fn families() -> Vec<Box<dyn Family>> {
    vec![
        Box::new(Fam { name: "sessions", quick: 90, thorough: 6000, serial: false,
            rule: "Swift3 sessions of 1..4 rounds of products, dot products of mixed lengths, comparisons and ORs, each round ended by one or two verifications: all accept and the opened values are right. Every case is non-trivial.",
            gen: gen_honest, run }),
        Box::new(Fam { name: "altered-messages", quick: 200, thorough: 15000, serial: false,
            rule: "Shorter sessions with one message that a party sends during a verification altered: an honest party refuses in that verification. Non-trivial: the bytes changed.",
            gen: gen_cheat, run }),
    ]
}
