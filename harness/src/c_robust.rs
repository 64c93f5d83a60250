//! P08: malformed and missing messages.
use crate::c_tamper::*;
use crate::disp::{run_iris, run_prog};
use serde::{Deserialize, Serialize};
use vcore::glue::*;
use vcore::iris::{self, Hist};
use vcore::prog::*;
use vcore::sim::*;
use vengine::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    /// Alter messages of one party.
    Alter(Vec<Spec>),
    /// Close the connection at a message.
    Close { step: u64, msg: u64 },
    /// The party dies after this share of its messages.
    Die { at: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prog: Prog,
    bad: usize,
    what: What,
    setup_only: bool,
    entropy: u64,
    sched: Sched,
}

fn gen_what(s: &mut Src) -> What {
    match s.below(8) {
        0 => What::Close { step: s.u64(), msg: s.u64() },
        1 => What::Die { at: s.u64() },
        _ => {
            let n = if s.one_in(4) { s.usize(2, 4) } else { 1 };
            What::Alter((0..n).map(|_| Spec { step: s.u64(), msg: s.u64(), alter: gen_alter(s, true), mirror: s.one_in(6) }).collect())
        }
    }
}

/// (faults, kill) of a description.
fn faults(w: &What, bad: usize, marks: &[Vec<[usize; 3]>; 3], lens: &[Vec<usize>], allowed: impl Fn(usize) -> bool) -> (Vec<Fault>, Option<(usize, usize)>) {
    match w {
        What::Alter(sp) => (resolve(sp, bad, marks, lens, allowed), None),
        What::Close { step, msg } => (resolve(&[Spec { step: *step, msg: *msg, alter: Alter::Close, mirror: false }], bad, marks, lens, allowed), None),
        What::Die { at } => {
            let total: usize = (0..3).map(|t| lens[bad * 3 + t].len()).sum();
            (vec![], Some((bad, (*at % (total as u64 + 1)) as usize)))
        }
    }
}

fn calm<R>(r: &SimResult<R>, tag: &str, what: &str) -> Result<(), Fail> {
    for (i, e) in r.ends.iter().enumerate() {
        match e {
            PartyEnd::Panic(m) => return fail(format!("panic-{tag}"), format!("party {i} panicked: {m}; {what}")),
            PartyEnd::Stuck(w) => return fail(format!("hang-{tag}"), format!("party {i} waits forever ({w}); {what}")),
            _ => {}
        }
    }
    ensure!(!r.overflow, format!("flood-{tag}"), "more than the traffic limit was sent; {what}");
    Ok(())
}

fn gen(s: &mut Src, i: u64) -> Case {
    let be = BES[(i % 4) as usize];
    let ty = pick_ty(s, be);
    let (bits, arith) = match s.below(3) {
        0 => (true, false),
        1 => (false, true),
        _ => (true, true),
    };
    let prog = gen_closed(s, be, ty, bits, arith);
    Case { prog, bad: s.usize(0, 2), what: gen_what(s), setup_only: false, entropy: s.u64(), sched: if s.one_in(3) { gen_sched(s) } else { Sched::PLAIN } }
}
fn gen_setup(s: &mut Src, i: u64) -> Case {
    let be = BES[(i % 4) as usize];
    let ty = pick_ty(s, be);
    let mut ops = vec![Op::Share { vals: vec![3, 5], seed: s.u64() }];
    if s.one_in(3) {
        ops.push(Op::Preprocess);
    }
    if s.one_in(3) {
        ops.push(Op::Input { who: s.usize(0, 2), val: s.value(64) });
    }
    ops.push(Op::Mul(0, 1));
    ops.push(Op::Open(2));
    let prog = Prog { be, ty, key: crate::c_tamper::secret_key(s), own_key: s.one_in(2), ops };
    Case { prog, bad: s.usize(0, 2), what: gen_what(s), setup_only: true, entropy: s.u64(), sched: if s.one_in(3) { gen_sched(s) } else { Sched::PLAIN } }
}

fn run(c: &Case) -> Check {
    let dry = run_prog(&c.prog, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, &Sched::PLAIN);
    expect_clean(&c.prog, &dry)?;
    let ops = c.prog.ops.len();
    let (f, kill) = faults(&c.what, c.bad, &dry.marks, &dry.lens, |w| !c.setup_only || w == 0 || (w <= ops && matches!(c.prog.ops[w - 1], Op::Preprocess | Op::Input { .. })));
    let what = format!("party {} misbehaves: {f:?}, dies after {kill:?}", c.bad);
    let r = run_prog(&c.prog, &[], &SimCfg { entropy: c.entropy, faults: f, kill, ..Default::default() }, &c.sched);
    calm(&r, &format!("{:?}", c.prog.be), &what)?;
    let killed = r.ends.iter().any(|e| matches!(e, PartyEnd::Killed));
    let errs = r.ends.iter().filter(|e| matches!(e, PartyEnd::Done(t) if t.err.is_some())).count();
    Ok(Outcome::ok(r.fault_changed > 0 || killed).label(format!("{:?}/{:?}", c.prog.be, c.prog.ty)).label(format!("errors:{errs}")))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QCase {
    h: Hist,
    bad: usize,
    what: What,
    entropy: u64,
}
fn gen_q(s: &mut Src, i: u64) -> QCase {
    let be = BES[(i % 3) as usize];
    let mut h = crate::c_iris::gen_one(s, be, 3);
    if s.one_in(3) {
        h.steps.push(iris::gen_query(s, 2));
    }
    QCase { h, bad: s.usize(0, 2), what: gen_what(s), entropy: s.u64() }
}
fn run_q(c: &QCase) -> Check {
    let dry = run_iris(&c.h, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, &Sched::PLAIN);
    crate::c_iris::clean(&c.h, &dry)?;
    let (f, kill) = faults(&c.what, c.bad, &dry.marks, &dry.lens, |_| true);
    let what = format!("party {} misbehaves: {f:?}, dies after {kill:?}", c.bad);
    let r = run_iris(&c.h, &[], &SimCfg { entropy: c.entropy, faults: f, kill, ..Default::default() }, &Sched::PLAIN);
    calm(&r, &format!("{:?}", c.h.be), &what)?;
    let killed = r.ends.iter().any(|e| matches!(e, PartyEnd::Killed));
    Ok(Outcome::ok(r.fault_changed > 0 || killed).label(format!("{:?}/{:?}", c.h.be, c.h.ty)))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P08",
        level: "exploration",
        families: vec![
            Box::new(Fam { name: "program", quick: 900, thorough: 40000, serial: false,
                rule: "Random program on any of the four backends; one party's messages are truncated, extended, emptied or replaced, or its connection to one peer is closed, or it dies. No party may panic or wait forever (exact deadlock detection). Non-trivial: bytes changed, or the party died before it was done.",
                gen, run }),
            Box::new(Fam { name: "setup", quick: 40000, thorough: 1000000, serial: false,
                rule: "As above with the misbehaviour in the set-up, in a repeated set-up or in an input.",
                gen: gen_setup, run }),
            Box::new(Fam { name: "query", quick: 150, thorough: 6000, serial: false,
                rule: "As above during one or two database queries (including set-up and shutdown).",
                gen: gen_q, run: run_q }),
        ],
        assumptions: vec!["a party that stops without closing its connections is outside the property (nothing bounds the wait for it)"],
    }]
}
