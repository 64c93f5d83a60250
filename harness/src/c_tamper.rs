//! P04, P05 (a cheating party), P08 (malformed and missing messages).
use crate::disp::{run_iris, run_prog};
use serde::{Deserialize, Serialize};
use vcore::glue::*;
use vcore::iris::{self, Ans, Hist, IDev, ITrace, Step};
use vcore::prog::*;
use vcore::sim::*;
use vengine::*;

/// A fault resolved against the honest run: in a (drawn) step of the program in which the corrupt party sends
/// something, alter a (drawn) message; `mirror` also alters the message with the same ordinal to the other peer.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub step: u64,
    pub msg: u64,
    pub alter: Alter,
    pub mirror: bool,
}

pub fn gen_alter(s: &mut Src, malformed: bool) -> Alter {
    if malformed {
        return match s.below(8) {
            0 => Alter::Truncate(0),
            1 => Alter::Truncate(s.below(64) as u32 + 1),
            2 => {
                let n = s.usize(1, 40);
                Alter::Extend((0..n).map(|_| s.below(256) as u8).collect())
            }
            3 => Alter::Random(s.u64()),
            4 => {
                let n = s.usize(0, 80);
                let style = s.below(3);
                Alter::Replace((0..n).map(|_| if style == 0 { 0xff } else if style == 1 { s.below(256) as u8 } else { 0 }).collect())
            }
            5 => Alter::FlipBit(s.below(64) as u32),
            6 => Alter::FlipBit(s.u64() as u32),
            _ => Alter::AddElem { elem: s.below(4) as u32, width: 1, delta: s.range(1, 255) },
        };
    }
    match s.below(14) {
        12 | 13 => Alter::Two { elem: s.u64() as u32, dist: match s.below(4) { 0 | 1 => 0, 2 => 1, _ => s.u64() as u32 }, width: s.pick(&[1u8, 2, 4, 8, 16]), delta: match s.below(3) { 0 => 1, 1 => 1 << s.below(63), _ => s.u64() | 1 }, flip: s.bool() },
        0..=4 => Alter::FlipBit(s.u64() as u32),
        5..=8 => Alter::AddElem { elem: s.u64() as u32, width: s.pick(&[1u8, 2, 4, 8, 16]), delta: match s.below(3) { 0 => 1, 1 => 1 << s.below(63), _ => s.u64() | 1 } },
        9 => Alter::Random(s.u64()),
        10 => s.pick(&[Alter::Zero, Alter::ReplayPrev, Alter::CopyOther]),
        _ => s.pick(&[Alter::Truncate(1), Alter::Extend(vec![0])]),
    }
}

fn gen_specs(s: &mut Src) -> Vec<Spec> {
    let n = match s.below(6) {
        0..=3 => 1,
        4 => 2,
        _ => 3,
    };
    (0..n).map(|_| Spec { step: s.u64(), msg: s.u64(), alter: gen_alter(s, false), mirror: s.one_in(4) }).collect()
}

/// Messages of `party` per step: (to, index), from the marks of the honest run. Step 0 is the set-up.
fn windows(marks: &[Vec<[usize; 3]>; 3], party: usize, lens: &[Vec<usize>]) -> Vec<Vec<(usize, usize)>> {
    let m = &marks[party];
    let mut out = vec![];
    for i in 0..m.len() {
        let end: Vec<usize> = (0..3).map(|to| if i + 1 < m.len() { m[i + 1][to] } else { lens[party * 3 + to].len() }).collect();
        let mut w = vec![];
        for to in 0..3 {
            for idx in m[i][to]..end[to] {
                w.push((to, idx));
            }
        }
        out.push(w);
    }
    out
}

pub fn resolve(specs: &[Spec], corrupt: usize, marks: &[Vec<[usize; 3]>; 3], lens: &[Vec<usize>], allowed: impl Fn(usize) -> bool) -> Vec<Fault> {
    let w = windows(marks, corrupt, lens);
    let cand: Vec<usize> = (0..w.len()).filter(|i| allowed(*i) && !w[*i].is_empty()).collect();
    let mut out = vec![];
    if cand.is_empty() {
        return out;
    }
    for sp in specs {
        let st = cand[(sp.step % cand.len() as u64) as usize];
        let ms = &w[st];
        let (to, idx) = ms[(sp.msg % ms.len() as u64) as usize];
        out.push(Fault { from: corrupt, to, idx, alter: sp.alter.clone() });
        if sp.mirror {
            let first = |t: usize| ms.iter().filter(|m| m.0 == t).map(|m| m.1).min();
            let other = 3 - corrupt - to;
            if let (Some(f0), Some(f1)) = (first(to), first(other)) {
                let j = f1 + (idx - f0);
                if ms.contains(&(other, j)) {
                    out.push(Fault { from: corrupt, to: other, idx: j, alter: sp.alter.clone() });
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------- programs

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prog: Prog,
    corrupt: usize,
    specs: Vec<Spec>,
    devs: Vec<Dev>,
    entropy: u64,
    sched: Sched,
}

/// A cheating party does not know the key, so it has to be a random one (small values are easily guessed).
pub fn secret_key(s: &mut Src) -> u128 {
    let x = s.u64();
    (mix(x) as u128) << 64 | mix(!x) as u128
}

/// [operations][Verify][openings], twice at most.
pub fn gen_closed(s: &mut Src, be: Be, ty: Ty, bits: bool, arith: bool) -> Prog {
    let o = GenOpt { ops: 4, bits, arith, opens: false, inputs: arith, max_vec: 4, max_batch: 3 };
    let first = s.usize(2, 4);
    let mut ops = vec![Op::Share { vals: gen_vals(s, ty.k(), first), seed: s.u64() }];
    if bits {
        let n = s.usize(2, 9);
        ops.push(Op::Bits { vals: (0..n).map(|_| s.bool()).collect(), seed: s.u64() });
    }
    let rounds = if s.one_in(4) { 2 } else { 1 };
    for _ in 0..rounds {
        let before = ops.len();
        for _ in 0..s.usize(1, 4) {
            let mut op = gen_op(s, ty, &o);
            if op == Op::Verify {
                op = Op::Mul(0, 1);
            }
            ops.push(op);
        }
        let _ = before;
        let probe = Prog { be, ty, key: 0, own_key: false, ops: ops.clone() };
        let m = model(&probe);
        ops.push(Op::Verify);
        if arith || m.bits.is_empty() {
            let n = m.regs.len();
            ops.push(Op::OpenMany((n.saturating_sub(4)..n).collect()));
            ops.push(Op::Open(n - 1));
        }
        if bits && !m.bits.is_empty() {
            let n = m.bits.len();
            ops.push(Op::OpenBit(n - 1));
            ops.push(Op::OpenBitMany((n.saturating_sub(20)..n).collect()));
        }
    }
    with_budget(Prog { be, ty, key: secret_key(s), own_key: s.one_in(4), ops })
}

fn gen_case(s: &mut Src, i: u64, bits: bool, arith: bool) -> Case {
    let be = MALICIOUS[(i % 3) as usize];
    let ty = pick_ty(s, be);
    let prog = gen_closed(s, be, ty, bits, arith);
    let corrupt = s.usize(0, 2);
    // deviations of the corrupt party's own state, or altered messages, or both
    let style = s.below(4);
    let specs = if style == 3 { vec![] } else { gen_specs(s) };
    let mut devs = vec![];
    if style >= 2 {
        for _ in 0..s.usize(1, 2) {
            devs.push(Dev { party: corrupt, op: s.usize(0, prog.ops.len() - 1), reg: s.below(64) as usize, comp: s.usize(0, 3), delta: match s.below(3) { 0 => 1, 1 => 1u128 << s.below(ty.k() as u64), _ => s.value(128) | 1 } });
        }
    }
    Case { prog, corrupt, specs, devs, entropy: s.u64(), sched: if s.one_in(4) { gen_sched(s) } else { Sched::PLAIN } }
}
fn gen_p04(s: &mut Src, i: u64) -> Case {
    gen_case(s, i, false, true)
}
fn gen_p05(s: &mut Src, i: u64) -> Case {
    let arith = s.one_in(3);
    gen_case(s, i, true, arith)
}

/// An honest party's observations are a prefix of the model's, and it ends with them all or with an error.
pub fn judge(p: &Prog, m: &Model, r: &SimResult<Trace>, corrupt: usize, what: &str) -> Result<usize, Fail> {
    let tag = format!("{:?}", p.be);
    let mut aborted = 0;
    for i in 0..3 {
        if i == corrupt {
            continue;
        }
        match &r.ends[i] {
            PartyEnd::Done(t) => {
                for (j, o) in t.obs.iter().enumerate() {
                    if j >= m.obs.len() || o != &m.obs[j] {
                        return fail(format!("accepted-{tag}"), format!("honest party {i} accepted {o:?}, correct is {:?}; corrupt party {corrupt}, {what}", m.obs.get(j)));
                    }
                }
                if t.err.is_some() || !t.setup_ok {
                    aborted += 1;
                } else {
                    ensure!(t.obs.len() == m.obs.len(), format!("lost-{tag}"), "honest party {i} returned {} of {} results without an error; {what}", t.obs.len(), m.obs.len());
                }
            }
            PartyEnd::Panic(e) => return fail(format!("crash-{tag}"), format!("honest party {i} panicked: {e}; corrupt party {corrupt}, {what}")),
            PartyEnd::Stuck(w) => return fail(format!("hang-{tag}"), format!("honest party {i} waits forever ({w}); corrupt party {corrupt}, {what}")),
            PartyEnd::Killed => {}
        }
    }
    Ok(aborted)
}

fn run_tamper(c: &Case) -> Check {
    let m = model(&c.prog);
    let mut faults = vec![];
    let mut changed = false;
    if !c.specs.is_empty() {
        let dry = run_prog(&c.prog, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, &Sched::PLAIN);
        expect_clean(&c.prog, &dry)?;
        // window 0 is the set-up, window 1 + i operation i, the last one finish()
        faults = resolve(&c.specs, c.corrupt, &dry.marks, &dry.lens, |w| {
            w >= 1 && w <= c.prog.ops.len() && !matches!(c.prog.ops[w - 1], Op::Input { who, .. } if who == c.corrupt)
        });
    }
    // a deviation at the dealer's or the party's own input changes the input, which is its right to choose
    let devs: Vec<Dev> = c.devs.iter().filter(|d| !matches!(c.prog.ops.get(d.op), Some(Op::Input { who, .. }) if *who == c.corrupt)).cloned().collect();
    let cfg = SimCfg { entropy: c.entropy, faults: faults.clone(), ..Default::default() };
    let r = run_prog(&c.prog, &devs, &cfg, &c.sched);
    changed |= r.fault_changed > 0 || devs.iter().any(|d| {
        let (a, b) = if d.op == 0 { (0, 0) } else { m.marks[d.op - 1] };
        m.marks[d.op] != (a, b)
    });
    let what = format!("faults {faults:?}, deviations {devs:?}");
    let ab = judge(&c.prog, &m, &r, c.corrupt, &what)?;
    Ok(Outcome::ok(changed).label(format!("{:?}/{:?}", c.prog.be, c.prog.ty)).label(format!("aborted:{ab}")))
}

// ---------------------------------------------------------------------------------------------- queries

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QCase {
    h: Hist,
    corrupt: usize,
    specs: Vec<Spec>,
    devs: Vec<IDev>,
    entropy: u64,
}
fn gen_q(s: &mut Src, i: u64) -> QCase {
    let be = [Be::Mal, Be::Spdz][(i % 2) as usize];
    let mut h = crate::c_iris::gen_one(s, be, 3);
    h.key = secret_key(s);
    if s.one_in(3) {
        h.steps.push(iris::gen_query(s, 2));
    }
    let corrupt = s.usize(0, 2);
    let mut devs = vec![];
    let mut specs = vec![];
    if s.one_in(4) {
        devs.push(IDev { party: corrupt, step: s.usize(0, h.steps.len() - 1), entry: if s.bool() { None } else { Some(s.usize(0, 2)) }, elem: s.below(12800) as usize, comp: s.usize(0, 3), delta: match s.below(3) { 0 => 1, 1 => 1u128 << s.below(h.ty.k() as u64), _ => s.value(128) | 1 } });
    } else {
        specs = gen_specs(s);
    }
    QCase { h, corrupt, specs, devs, entropy: s.u64() }
}
fn judge_q(h: &Hist, want: &[Ans], r: &SimResult<ITrace>, corrupt: usize, what: &str) -> Result<usize, Fail> {
    let tag = format!("{:?}", h.be);
    let mut aborted = 0;
    for i in 0..3 {
        if i == corrupt {
            continue;
        }
        match &r.ends[i] {
            PartyEnd::Done(t) => {
                let mut err = t.setup.is_some();
                for (j, a) in t.ans.iter().enumerate() {
                    match (a, want.get(j)) {
                        (a, Some(w)) if a == w => {}
                        (Ans::Err(_), _) => err = true,
                        (a, w) => return fail(format!("accepted-{tag}"), format!("honest party {i} accepted {a:?} in step {j}, correct is {w:?}; corrupt party {corrupt}, {what}")),
                    }
                }
                if err {
                    aborted += 1;
                } else {
                    ensure!(t.ans.len() == want.len(), format!("lost-{tag}"), "honest party {i}: missing answers; {what}");
                }
            }
            PartyEnd::Panic(e) => return fail(format!("crash-{tag}"), format!("honest party {i} panicked: {e}; corrupt party {corrupt}, {what}")),
            PartyEnd::Stuck(w) => return fail(format!("hang-{tag}"), format!("honest party {i} waits forever ({w}); corrupt party {corrupt}, {what}")),
            PartyEnd::Killed => {}
        }
    }
    Ok(aborted)
}
fn run_q(c: &QCase) -> Check {
    let want = iris::expected(&c.h);
    let mut faults = vec![];
    if !c.specs.is_empty() {
        let dry = run_iris(&c.h, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, &Sched::PLAIN);
        crate::c_iris::clean(&c.h, &dry)?;
        faults = resolve(&c.specs, c.corrupt, &dry.marks, &dry.lens, |w| w >= 1 && w <= c.h.steps.len());
    }
    let cfg = SimCfg { entropy: c.entropy, faults: faults.clone(), ..Default::default() };
    let r = run_iris(&c.h, &c.devs, &cfg, &Sched::PLAIN);
    let what = format!("faults {faults:?}, deviations {:?}", c.devs);
    let ab = judge_q(&c.h, &want, &r, c.corrupt, &what)?;
    let multi = matches!(c.h.steps[0], Step::Query { .. });
    Ok(Outcome::ok(multi && (r.fault_changed > 0 || !c.devs.is_empty())).label(format!("{:?}/{:?}", c.h.be, c.h.ty)).label(format!("aborted:{ab}")))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P04",
            level: "exploration",
            families: vec![Box::new(Fam { name: "cheating-arithmetic", quick: 5000, thorough: 60000, serial: false,
                rule: "Random arithmetic program (operations, verification, openings; one or two rounds) on MalAby3/SpdzWise/Swift3; one party alters 1-3 messages chosen among those it sends in the honest run (any operation, verification or opening, never its own input), or its own share state after an operation. Every observation of an honest party must be the plaintext one or it must return an error. Non-trivial: the alteration changed the bytes sent or a share.",
                gen: gen_p04, run: run_tamper })],
            assumptions: vec!["one corrupt party; statistical soundness error of the checks (at most 2^-30 per case) is neglected"],
        },
        Prop {
            id: "P05",
            level: "exploration",
            families: vec![
                Box::new(Fam { name: "cheating-bits", quick: 600, thorough: 40000, serial: false,
                    rule: "As P04 over sign extraction, OR, OR-reduction and openings of bits. Non-trivial: the alteration changed the bytes sent or a share.",
                    gen: gen_p05, run: run_tamper }),
                Box::new(Fam { name: "cheating-query", quick: 240, thorough: 6000, serial: false,
                    rule: "One or two database queries on MalAby3/SpdzWise with 1-3 altered messages or an altered code share of one party. Non-trivial: as above.",
                    gen: gen_q, run: run_q }),
            ],
            assumptions: vec!["one corrupt party; statistical soundness error of the checks (at most 2^-30 per case) is neglected"],
        },
    ]
}
