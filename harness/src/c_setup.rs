//! P23: set-up leaves the parties with matching, distinct and fresh randomness.
use crate::c_mask::{distinct, uniform};
use crate::c_tamper::gen_alter;
use crate::disp::run_prog;
use serde::{Deserialize, Serialize};
use vcore::glue::*;
use vcore::prog::*;
use vcore::sim::*;
use vengine::*;

fn ring(p: &Prog) -> usize {
    if p.be == Be::Spdz {
        if p.ty.k() >= 64 { 128 } else { 64 }
    } else {
        p.ty.k()
    }
}

/// A program of inputs, with a repeated set-up in the middle.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prog: Prog,
    /// Vary only the randomness drawn from right before the last set-up on.
    late: bool,
    sched: Sched,
    seed: u64,
}
fn gen_case(s: &mut Src, i: u64, late: bool) -> Case {
    let be = BES[(i % 4) as usize];
    let ty = pick_ty(s, be);
    let mut ops = vec![];
    let part = |s: &mut Src, ops: &mut Vec<Op>, all: bool| {
        for d in 0..if all { s.usize(3, 5) } else { s.usize(0, 3) } {
            let who = if all && d < 3 { d } else { s.usize(0, 2) };
            ops.push(Op::Input { who, val: s.value(ty.k()) });
            if s.one_in(4) {
                ops.push(Op::Mul(s.below(8) as usize, s.below(8) as usize));
            }
        }
    };
    let again = late || s.below(3) > 0;
    part(s, &mut ops, !late);
    if again {
        if late {
            ops.push(Op::Reseed(0));
        }
        ops.push(Op::Preprocess);
        part(s, &mut ops, true);
    }
    let own_key = be == Be::Spdz && s.bool();
    Case { prog: Prog { be, ty, key: s.value(64) | 1, own_key, ops }, late, sched: gen_sched(s), seed: s.u64() }
}

/// Independent parts of the random draws behind each input: (name, value).
fn draws(p: &Prog, t: &[Trace; 3], from_op: usize) -> Vec<(String, u128)> {
    let um = mask(ring(p));
    let mut out = vec![];
    let mut reg = 0;
    for (i, op) in p.ops.iter().enumerate() {
        match op {
            Op::Input { who, val } => {
                let c = |q: usize| &t[q].arith[reg];
                let mut add = |n: String, v: u128| {
                    if i >= from_op {
                        out.push((format!("{n} of input {i}"), v & um))
                    }
                };
                match p.be {
                    Be::Aby3 => {
                        // the parts of zero without the value; the third is minus the sum of these
                        for q in 0..2 {
                            let v = if q == *who { *val & p.ty.mask() } else { 0 };
                            add(format!("party {q}'s part of zero"), c(q)[0].wrapping_sub(v));
                        }
                    }
                    Be::Spdz => {
                        for q in 0..2 {
                            let v = if q == *who { *val & p.ty.mask() } else { 0 };
                            add(format!("party {q}'s part of zero"), c(q)[0].wrapping_sub(v));
                            add(format!("party {q}'s tag component"), c(q)[2]);
                        }
                    }
                    // the owner's component is fixed by the value and the others
                    Be::Mal => (0..3).filter(|q| q != who).for_each(|q| add(format!("party {q}'s component"), c(q)[0])),
                    Be::Swift => {
                        add("alpha 1".into(), c(0)[0]);
                        add("alpha 3".into(), c(0)[1]);
                        add("alpha 2".into(), c(1)[0]);
                    }
                }
                reg += 1;
            }
            Op::Mul(..) if reg > 0 => reg += 1,
            _ => {}
        }
    }
    if p.be == Be::Spdz && p.own_key && !p.ops.iter().any(|o| matches!(o, Op::Reseed(_))) {
        for q in 0..3 {
            out.push((format!("party {q}'s key component"), t[q].key.unwrap_or((0, 0)).0 & um));
        }
    }
    out
}

fn run_case(c: &Case) -> Check {
    let from = if c.late { c.prog.ops.iter().position(|o| matches!(o, Op::Reseed(_))).unwrap_or(0) } else { 0 };
    let mut m = 256;
    let mut samples: Vec<Vec<u8>> = vec![];
    let mut names: Vec<String> = vec![];
    let r = ring(&c.prog);
    let model = model(&c.prog);
    let mut k = 0;
    while k < m {
        let mut p = c.prog.clone();
        let mut entropy = mix(c.seed ^ mix(k as u64));
        if c.late {
            entropy = c.seed;
            for o in p.ops.iter_mut() {
                if let Op::Reseed(x) = o {
                    *x = mix(c.seed ^ mix(77 + k as u64));
                }
            }
        }
        let res = run_prog(&p, &[], &SimCfg { entropy, ..Default::default() }, &c.sched);
        let t = expect_clean(&p, &res)?;
        check_shares(&p, &model, &t)?;
        let d = draws(&p, &t, from);
        if k == 0 {
            names = d.iter().map(|x| x.0.clone()).collect();
            m = (d.len() * r + 80).clamp(256, 480);
        }
        samples.push(d.iter().flat_map(|x| x.1.to_le_bytes()).collect());
        k += 1;
    }
    let n = samples[0].len();
    let pad: Vec<bool> = (0..n * 8).map(|i| i % 128 >= r).collect();
    let mut rng = Rng64::new(c.seed);
    let what = format!("{:?} {:?}{}", c.prog.be, c.prog.ty, if c.late { ", new randomness in the last set-up only" } else { "" });
    let name = |b: usize| format!("bit {} of {}", b % 128, names[b / 128]);
    let n = uniform(&what, &samples, &pad, &mut rng, name)?;
    if r >= 32 {
        distinct(&what, &samples, &pad, name)?;
    }
    let again = c.prog.ops.contains(&Op::Preprocess);
    Ok(Outcome::ok(n > 0).evals(m as u64).label(format!("{:?}{}", c.prog.be, if again { " repeated" } else { "" })))
}

// ------------------------------------------------------------------------------------------------ messages

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MsgCase {
    be: Be,
    ty: Ty,
    again: usize,
    sched: Sched,
    seed: u64,
}
fn gen_msg(s: &mut Src, i: u64) -> MsgCase {
    let be = BES[(i % 4) as usize];
    let ty = pick_ty(s, be);
    MsgCase { be, ty, again: s.usize(0, 2), sched: gen_sched(s), seed: s.u64() }
}
/// What is sent on one link during the set-ups is different from set-up to set-up, and what a party sends to its two
/// peers is not the same (a part of it may be: Swift3's common seed).
fn run_msg(c: &MsgCase) -> Check {
    let m = 24;
    let prog = Prog { be: c.be, ty: c.ty, key: 1, own_key: false, ops: vec![Op::Preprocess; c.again] };
    let mut links: Vec<Vec<Vec<u8>>> = vec![vec![]; 9];
    for k in 0..m {
        let r = run_prog(&prog, &[], &SimCfg { record: true, entropy: mix(c.seed ^ mix(k)), ..Default::default() }, &c.sched);
        expect_clean(&prog, &r)?;
        for l in 0..9 {
            let (from, to) = (l / 3, l % 3);
            let end = r.marks[from].get(1 + c.again).map(|x| x[to]).unwrap_or(usize::MAX).min(r.transcript[l].len());
            links[l].push(r.transcript[l][..end].concat());
        }
    }
    let mut n = 0;
    for l in 0..9 {
        let (from, to) = (l / 3, l % 3);
        let s = &links[l];
        if s[0].is_empty() || s.iter().any(|x| x.len() != s[0].len()) {
            continue;
        }
        let pad = vec![false; s[0].len() * 8];
        let what = format!("{:?} {:?}: set-up messages from {from} to {to}", c.be, c.ty);
        n += distinct(&what, s, &pad, |b| format!("byte {}", b / 8))?;
        let other = &links[from * 3 + (3 - from - to)];
        if to < 3 - from - to && other[0].len() == s[0].len() {
            let same = (0..s[0].len()).filter(|i| s.iter().zip(other).all(|(a, b)| a[*i] == b[*i])).count();
            let most = if c.be == Be::Swift { s[0].len() / 2 } else { 0 };
            ensure!(same <= most, "shared", "{:?} {:?}: {same} of {} set-up bytes party {from} sends to its two peers are the same in all sessions", c.be, c.ty, s[0].len());
            n += 1;
        }
    }
    Ok(Outcome::ok(n > 0).evals(m).label(format!("{:?}", c.be)))
}

// ------------------------------------------------------------------------------------------------ tampering

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TCase {
    be: Be,
    ty: Ty,
    /// Operations before the attacked set-up; none: the first one.
    before: Vec<Op>,
    /// Drawn message of the set-up.
    from: usize,
    to: usize,
    msg: u64,
    alter: Alter,
    sched: Sched,
    entropy: u64,
}
fn gen_tamper(s: &mut Src, i: u64) -> TCase {
    let be = [Be::Mal, Be::Swift][(i % 2) as usize];
    let ty = pick_ty(s, be);
    let mut before = vec![];
    if s.bool() {
        for _ in 0..s.usize(1, 3) {
            before.push(match s.below(4) {
                0 => Op::Preprocess,
                1 => Op::Mul(0, 1),
                _ => Op::Input { who: s.usize(0, 2), val: s.value(ty.k()) },
            });
        }
        before.push(Op::Preprocess);
    }
    let from = s.usize(0, 2);
    let to = (from + s.usize(1, 2)) % 3;
    let malformed = s.one_in(5);
    TCase { be, ty, before, from, to, msg: s.u64(), alter: gen_alter(s, malformed), sched: gen_sched(s), entropy: s.u64() }
}
fn run_tamper(c: &TCase) -> Check {
    let mut ops = c.before.clone();
    ops.push(Op::Input { who: 0, val: 5 });
    let prog = Prog { be: c.be, ty: c.ty, key: 1, own_key: false, ops };
    let cfg = SimCfg { entropy: c.entropy, ..Default::default() };
    let honest = run_prog(&prog, &[], &cfg, &c.sched);
    expect_clean(&prog, &honest)?;
    // marks: 0 is the start of the first set-up, 1+i that of operation i
    let win = if c.before.is_empty() { 0 } else { c.before.len() };
    let op = if c.before.is_empty() { usize::MAX } else { win - 1 };
    let mk = &honest.marks[c.from];
    let (a, b) = (mk[win][c.to], mk[win + 1][c.to]);
    if a == b {
        return Ok(Outcome::ok(false).label("no message"));
    }
    let idx = a + (c.msg % (b - a) as u64) as usize;
    let r = run_prog(&prog, &[], &SimCfg { faults: vec![Fault { from: c.from, to: c.to, idx, alter: c.alter.clone() }], ..cfg }, &c.sched);
    if r.fault_changed == 0 {
        return Ok(Outcome::ok(false).label("unchanged"));
    }
    match &r.ends[c.to] {
        PartyEnd::Done(t) if t.err.as_ref().is_some_and(|e| e.0 == op) => {}
        e => {
            let e = match e {
                PartyEnd::Done(t) => format!("{:?}", t.err),
                e => format!("{e:.200?}"),
            };
            return fail("undetected", format!("{:?} {:?}: message {} of {} of a set-up from party {} to {} altered ({:.100?}); the set-up of party {} ends as if nothing happened, the program with {e}",
                c.be, c.ty, idx - a, b - a, c.from, c.to, c.alter, c.to));
        }
    }
    Ok(Outcome::ok(true).label(format!("{:?} {}", c.be, if c.before.is_empty() { "first" } else { "repeated" })))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CoinCase {
    prog: Prog,
    from: usize,
    to: usize,
    msg: u64,
    alter: Alter,
    sched: Sched,
    entropy: u64,
}
/// SpdzWise tosses coins to permute triples, when it makes them and when it checks the gates.
fn gen_triple_coin(s: &mut Src, _: u64) -> CoinCase {
    let ty = s.pick(&[Ty::U16, Ty::U8, Ty::U32]);
    let n = s.usize(2, 6);
    let mut ops = vec![Op::Bits { vals: (0..n).map(|_| s.bool()).collect(), seed: s.u64() }];
    for _ in 0..s.usize(1, 3) {
        ops.push(Op::Or(s.below(8) as usize, s.below(8) as usize));
    }
    ops.push(Op::Verify);
    ops.push(Op::OpenBit(n));
    let from = s.usize(0, 2);
    // seeds go to the next party
    let to = (from + 1) % 3;
    let prog = with_budget(Prog { be: Be::Spdz, ty, key: s.value(64) | 1, own_key: false, ops });
    CoinCase { prog, from, to, msg: s.u64(), alter: gen_alter(s, false), sched: gen_sched(s), entropy: s.u64() }
}
fn gen_coin(s: &mut Src, i: u64) -> CoinCase {
    let be = [Be::Mal, Be::Swift][(i % 2) as usize];
    let ty = if be == Be::Mal { Ty::U16 } else { pick_ty(s, be) };
    let n = s.usize(2, 4);
    let mut ops = vec![Op::Share { vals: gen_vals(s, ty.k(), n), seed: s.u64() }];
    for _ in 0..s.usize(1, 3) {
        ops.push(match s.below(3) {
            0 => Op::Dot((0..s.usize(1, 3)).map(|_| (s.below(8) as usize, s.below(8) as usize)).collect()),
            _ => Op::Mul(s.below(8) as usize, s.below(8) as usize),
        });
    }
    ops.push(Op::Verify);
    ops.push(Op::OpenMany(vec![0, 1]));
    let from = s.usize(0, 2);
    let to = (from + s.usize(1, 2)) % 3;
    CoinCase { prog: Prog { be, ty, key: s.value(64) | 1, own_key: false, ops }, from, to, msg: s.u64(), alter: gen_alter(s, false), sched: gen_sched(s), entropy: s.u64() }
}
fn run_coin(c: &CoinCase) -> Check {
    let p = &c.prog;
    let cfg = SimCfg { entropy: c.entropy, record: true, ..Default::default() };
    let honest = run_prog(p, &[], &cfg, &c.sched);
    expect_clean(p, &honest)?;
    let v = p.ops.iter().position(|o| *o == Op::Verify).unwrap();
    let other = 3 - c.from - c.to;
    let mk = &honest.marks[c.from];
    let win = |to: usize| (mk[1 + v][to], mk[2 + v][to]);
    let tr = |to: usize| &honest.transcript[c.from * 3 + to];
    let cand: Vec<usize> = match p.be {
        // commitments and openings of the coin: the same 64 bytes to both peers
        Be::Swift => {
            let (a, b) = win(c.to);
            let (oa, ob) = win(other);
            (a..b).filter(|i| tr(c.to)[*i].len() == 64 && tr(other)[oa..ob].contains(&tr(c.to)[*i])).collect()
        }
        // seeds: 32 bytes (the values sent are shorter, the triples longer)
        Be::Spdz => (mk[1][c.to]..mk[2 + v][c.to]).filter(|i| tr(c.to)[*i].len() == 32).collect(),
        _ => (mk[1][c.to]..mk[1 + v][c.to]).filter(|i| tr(c.to)[*i].len() == 32).collect(),
    };
    if cand.is_empty() {
        return Ok(Outcome::ok(false).label("no message"));
    }
    let idx = cand[(c.msg % cand.len() as u64) as usize];
    let r = run_prog(p, &[], &SimCfg { faults: vec![Fault { from: c.from, to: c.to, idx, alter: c.alter.clone() }], record: false, ..cfg }, &c.sched);
    if r.fault_changed == 0 {
        return Ok(Outcome::ok(false).label("unchanged"));
    }
    let err = |q: usize| match &r.ends[q] {
        PartyEnd::Done(t) => t.err.clone(),
        _ => None,
    };
    let caught = match p.be {
        Be::Swift => err(c.to).is_some_and(|e| e.0 == v),
        _ => err(c.to).is_some() || err(other).is_some(),
    };
    ensure!(caught, "undetected", "{:?} {:?}: a {}-byte coin message from party {} to {} altered ({:.100?}); no honest party reports it: {:?} {:?}",
        p.be, p.ty, tr(c.to)[idx].len(), c.from, c.to, c.alter, err(c.to), err(other));
    Ok(Outcome::ok(true).label(format!("{:?}", p.be)))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P23",
        level: "exploration",
        families: vec![
            Box::new(Fam { name: "draws", quick: 400, thorough: 3000, serial: false,
                rule: "Programs of 3-10 inputs of all owners (and multiplications), most with a repeated set-up in the middle, all backends, types and schedules, 256-480 sessions each: the sharings are consistent, and the random draws behind them (and SpdzWise's own key) are jointly balanced and independent, before and after the repeated set-up. Non-trivial: every case.",
                gen: |s, i| gen_case(s, i, false), run: run_case }),
            Box::new(Fam { name: "repeated-fresh", quick: 300, thorough: 2000, serial: false,
                rule: "The same where the sessions differ only in the randomness available to the repeated set-up: the draws after it are balanced and independent. Non-trivial: every case.",
                gen: |s, i| gen_case(s, i, true), run: run_case }),
            Box::new(Fam { name: "messages", quick: 80, thorough: 3000, serial: false,
                rule: "The bytes sent on each link in 1-3 set-ups, 24 sessions: no byte is a copy of or at a fixed distance from another; what a party sends to its two peers is not the same (Swift3: at most half). Non-trivial: some link carries messages.",
                gen: gen_msg, run: run_msg }),
            Box::new(Fam { name: "tampered-set-up", quick: 12000, thorough: 400_000, serial: false,
                rule: "MalAby3 and Swift3: one message of a first or repeated set-up altered: the receiver's set-up fails. Non-trivial: the message changed.",
                gen: gen_tamper, run: run_tamper }),
            Box::new(Fam { name: "tampered-coin", quick: 6000, thorough: 150_000, serial: false,
                rule: "MalAby3 and Swift3: one message of a coin toss altered: the receiver's verification fails (Swift3, commitments and openings), an honest party reports an error (MalAby3). Non-trivial: the message changed.",
                gen: gen_coin, run: run_coin }),
            Box::new(Fam { name: "tampered-triple-coin", quick: 40, thorough: 1500, serial: false,
                rule: "SpdzWise: one seed message of the coin tosses that permute the triples altered: an honest party reports an error. Non-trivial: the message changed.",
                gen: gen_triple_coin, run: run_coin }),
        ],
        assumptions: vec![
            "set-up of ABY3 and SpdzWise is semi-honest: it has no commitments to check",
            "draws are observed through inputs (and the generated key); balance, affine relations over GF(2) and fixed byte distances are looked for",
        ],
    }]
}
