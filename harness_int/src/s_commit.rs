//! P11: commitments as the set-up and the coin tossing use them.
use crate::disp::run_prog;
use serde::{Deserialize, Serialize};
use vcore::glue::*;
use vcore::prog::*;
use vcore::sim::*;
use vengine::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prog: Prog,
    corrupt: usize,
    coin: bool,
    msg: u64,
    alter: Alter,
    entropy: u64,
    sched: Sched,
}
fn gen(s: &mut Src, i: u64) -> Case {
    let coin = i % 3 == 2;
    let be = if coin || i % 3 == 1 { Be::Swift } else { Be::Mal };
    let ty = pick_ty(s, be);
    let vals = gen_vals(s, ty.k(), 2);
    let ops = vec![Op::Share { vals, seed: s.u64() }, Op::Mul(0, 1), Op::Verify, Op::Open(2)];
    let alter = match s.below(8) {
        0 => Alter::Random(s.u64()),
        1 => Alter::Zero,
        2 => Alter::ReplayPrev,
        3 => Alter::CopyOther,
        4 => Alter::AddElem { elem: s.u64() as u32, width: 1, delta: s.range(1, 255) },
        _ => Alter::FlipBit(s.u64() as u32),
    };
    Case { prog: Prog { be, ty, key: 1, own_key: false, ops }, corrupt: s.usize(0, 2), coin, msg: s.u64(), alter, entropy: s.u64(), sched: gen_sched(s) }
}
fn run(c: &Case) -> Check {
    let m = model(&c.prog);
    let dry = run_prog(&c.prog, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, &Sched::PLAIN);
    expect_clean(&c.prog, &dry)?;
    // the set-up is window 0, the verification window 3; a coin's messages are those of 64 bytes that go to both peers
    let (w, p) = (if c.coin { 3 } else { 0 }, c.corrupt);
    let marks = &dry.marks[p];
    ensure!(marks.len() > w + 1, "shape", "no marks");
    let mut cand = vec![];
    for to in 0..3 {
        for idx in marks[w][to]..marks[w + 1][to] {
            if !c.coin || dry.lens[p * 3 + to][idx] == 64 {
                cand.push((to, idx));
            }
        }
    }
    if cand.is_empty() {
        return Ok(Outcome::ok(false).label("nothing sent"));
    }
    let (to, idx) = cand[(c.msg % cand.len() as u64) as usize];
    let f = Fault { from: p, to, idx, alter: c.alter.clone() };
    let r = run_prog(&c.prog, &[], &SimCfg { entropy: c.entropy, faults: vec![f.clone()], ..Default::default() }, &c.sched);
    if r.fault_changed == 0 {
        return Ok(Outcome::ok(false).label("unchanged"));
    }
    let tag = format!("{:?}", c.prog.be);
    match &r.ends[to] {
        PartyEnd::Done(t) => {
            let refused = if c.coin { t.err.is_some() } else { !t.setup_ok };
            ensure!(refused, format!("accepted-{tag}"), "party {to} went on after {f:?} in the {}; observations {:?}, expected {:?}", if c.coin { "coin toss" } else { "set-up" }, t.obs, m.obs);
        }
        PartyEnd::Panic(e) => return fail(format!("crash-{tag}"), format!("party {to} panicked: {e} after {f:?}")),
        PartyEnd::Stuck(s) => return fail(format!("hang-{tag}"), format!("party {to} waits forever ({s}) after {f:?}")),
        PartyEnd::Killed => {}
    }
    Ok(Outcome::ok(true).label(format!("{tag}-{}", if c.coin { "coin" } else { "setup" })))
}
pub fn families() -> Vec<Box<dyn Family>> {
    vec![Box::new(Fam { name: "set-up-and-coin", quick: 1500, thorough: 30000, serial: false,
        rule: "MalAby3 and Swift3 set-ups and Swift3 coin tosses in the simulator with one commitment or opening of one party altered on its way to one peer: that peer must refuse. Non-trivial: the bytes changed.",
        gen, run })]
}
