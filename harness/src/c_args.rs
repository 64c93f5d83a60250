//! P20: invalid arguments are refused by every party and leave the session usable.
use crate::c_iris::{check_answers, clean, gen_one};
use crate::disp::*;
use serde::{Deserialize, Serialize};
use vcore::glue::*;
use vcore::iris::{iris_types, Hist, Step, MIN_MASK, N_BITS};
use vcore::prog::*;
use vcore::sim::*;
use vengine::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prog: Prog,
    entropy: u64,
    sched: Sched,
}

const BASE: GenOpt = GenOpt { ops: 5, bits: true, arith: true, opens: true, inputs: true, max_vec: 4, max_batch: 3 };

fn idxs(s: &mut Src, n: usize) -> Vec<usize> {
    (0..n).map(|_| s.below(24) as usize).collect()
}
/// Two different lengths, zero included.
fn lens(s: &mut Src) -> (usize, usize) {
    let a = s.usize(0, 6);
    let b = (a + s.usize(1, 6)) % 7;
    (a, b)
}

fn bad_op(s: &mut Src) -> Op {
    match s.below(12) {
        0 | 1 => {
            let (a, b) = lens(s);
            Op::BadDot { a: idxs(s, a), b: idxs(s, b) }
        }
        2 | 3 => {
            // different numbers of vectors
            let (m, n) = lens(s);
            let l = s.usize(1, 3);
            let a = (0..m).map(|_| idxs(s, l)).collect();
            let b = (0..n).map(|_| idxs(s, l)).collect();
            Op::BadDotMany { a, b }
        }
        4 | 5 => {
            // one pair of vectors of different length, anywhere in the batch
            let m = s.usize(1, 4);
            let bad = s.usize(0, m - 1);
            let (x, y) = lens(s);
            let mut a = vec![];
            let mut b = vec![];
            for i in 0..m {
                let l = s.usize(1, 3);
                let (p, q) = if i == bad { (x, y) } else { (l, l) };
                a.push(idxs(s, p));
                b.push(idxs(s, q));
            }
            Op::BadDotMany { a, b }
        }
        6 => Op::BadInputId { who: s.pick(&[3usize, 4, 7, 255, 256, 258, 65536, usize::MAX, usize::MAX - 1]) },
        7 => Op::BadOrReduce { regs: vec![], chunk: s.pick(&[1usize, 2, 128, 0]) },
        8 => {
            let n = s.pick(&[1usize, 2, 3, 129, 257, 300]);
            Op::BadOrReduce { regs: (0..n).map(|_| s.below(24) as usize).collect(), chunk: 0 }
        }
        9 => {
            // wrong number of masks
            let n = s.usize(0, 2);
            let m = if n == 0 { s.usize(1, 2) } else { s.pick(&[n - 1, n + 1]) };
            Op::BadMaskedDot { len_a: N_BITS, len_b: vec![N_BITS; n], masks: m, reg: s.below(24) as usize }
        }
        10 => {
            // one wrong code length
            let wrong = s.pick(&[0usize, 1, N_BITS - 1, N_BITS + 1]);
            let n = s.usize(1, 2);
            let mut len_b = vec![N_BITS; n];
            let mut len_a = N_BITS;
            if s.bool() {
                len_a = wrong;
            } else {
                let j = s.usize(0, n - 1);
                len_b[j] = wrong;
            }
            Op::BadMaskedDot { len_a, len_b, masks: n, reg: s.below(24) as usize }
        }
        _ => {
            // consistent, but not a code
            let l = s.pick(&[0usize, 1, N_BITS / 2, N_BITS - 1, N_BITS + 1]);
            let n = s.usize(1, 2);
            Op::BadMaskedDot { len_a: l, len_b: vec![l; n], masks: n, reg: s.below(24) as usize }
        }
    }
}

fn gen_args(s: &mut Src, i: u64) -> Case {
    let be = BES[(i % 4) as usize];
    let ty = pick_ty(s, be);
    let mut p = gen_prog(s, be, ty, &BASE);
    let n = s.usize(1, 4);
    // bits for the OR calls
    p.ops.insert(1, Op::Bits { vals: vec![true, false], seed: s.u64() });
    for _ in 0..n {
        let at = s.usize(2, p.ops.len());
        let op = bad_op(s);
        p.ops.insert(at, op);
    }
    p.ops.push(Op::Mul(s.below(24) as usize, s.below(24) as usize));
    p.ops.push(Op::Or(0, 1));
    p.ops.push(Op::Verify);
    let m = model(&p);
    p.ops.push(Op::OpenMany((0..m.regs.len()).collect()));
    p.ops.push(Op::OpenBitMany((0..m.bits.len()).collect()));
    Case { prog: with_budget(p), entropy: s.u64(), sched: gen_sched(s) }
}

fn is_bad(o: &Op) -> bool {
    matches!(o, Op::BadDot { .. } | Op::BadDotMany { .. } | Op::BadInputId { .. } | Op::BadMaskedDot { .. } | Op::BadOrReduce { .. } | Op::NoInput { .. })
}

fn run_args(c: &Case) -> Check {
    let m = model(&c.prog);
    let r = run_prog(&c.prog, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, &c.sched);
    let tag = format!("{:?}", c.prog.be);
    for e in &r.ends {
        if let PartyEnd::Done(t) = e {
            if let Some(Obs::BadOk(i)) = t.obs.last() {
                return fail(format!("accepted-{tag}"), format!("invalid call {:?} was accepted", c.prog.ops[*i]));
            }
        }
    }
    let t = expect_clean(&c.prog, &r)?;
    for i in 0..3 {
        check_obs(&c.prog, &m, &t[i], i)?;
    }
    check_shares(&c.prog, &m, &t)?;
    ensure!(r.stray.is_empty(), format!("stray-{tag}"), "messages never received: {:?}", r.stray);
    let n = c.prog.ops.iter().filter(|o| is_bad(o)).count();
    let mut o = Outcome::ok(n > 0).evals(n as u64).label(format!("{:?}/{:?}", c.prog.be, c.prog.ty));
    for x in c.prog.ops.iter().filter(|o| is_bad(o)) {
        let s = format!("{x:?}");
        o = o.label(s.split([' ', '{']).next().unwrap().to_string());
    }
    Ok(o)
}

fn gen_noinput(s: &mut Src, i: u64) -> Case {
    let be = BES[(i % 4) as usize];
    let ty = pick_ty(s, be);
    let mut p = gen_prog(s, be, ty, &GenOpt { ops: 3, ..BASE });
    p.ops.push(Op::NoInput { who: s.usize(0, 2) });
    Case { prog: with_budget(p), entropy: s.u64(), sched: gen_sched(s) }
}

fn run_noinput(c: &Case) -> Check {
    let tag = format!("{:?}", c.prog.be);
    let m = model(&c.prog);
    let last = c.prog.ops.len() - 1;
    let Op::NoInput { who } = c.prog.ops[last] else { unreachable!() };
    let r = run_prog(&c.prog, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, &c.sched);
    for (i, e) in r.ends.iter().enumerate() {
        match e {
            PartyEnd::Done(t) => {
                check_obs(&c.prog, &m, t, i)?;
                if i == who {
                    match &t.err {
                        Some((op, k)) => {
                            ensure!(*op == last, format!("early-{tag}"), "party {i} failed at op {op}: {k}");
                            ensure!(k == "ValueError", format!("noinput-{tag}"), "the party without its input reports {k}");
                        }
                        None => return fail(format!("accepted-{tag}"), format!("party {i} shared a missing value")),
                    }
                } else if let Some((op, k)) = &t.err {
                    ensure!(*op >= last, format!("early-{tag}"), "party {i} failed at op {op}: {k}");
                }
            }
            PartyEnd::Panic(x) => return fail(format!("panic-{tag}"), format!("party {i} panicked: {x}")),
            PartyEnd::Stuck(w) => return fail(format!("deadlock-{tag}"), format!("party {i} waits forever: {w}")),
            PartyEnd::Killed => return fail("killed", "killed"),
        }
    }
    Ok(Outcome::ok(true).label(format!("{:?}/{:?}", c.prog.be, c.prog.ty)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QCase {
    h: Hist,
    entropy: u64,
    sched: Sched,
}

fn bad_step(s: &mut Src) -> Step {
    match s.below(6) {
        0 => Step::BadCount { seed: s.u64(), extra: s.bool() },
        1 => Step::Empty,
        2 => {
            let n = s.usize(1, 3);
            Step::BadLen { seed: s.u64(), len: s.pick(&[N_BITS - 1, 1, N_BITS + 1, 0]), pos: s.usize(0, n - 1), n, chunk: s.usize(1, n) }
        }
        3 => Step::BadQueryLen { seed: s.u64(), len: s.pick(&[N_BITS - 1, 1, 0, N_BITS + 1]) },
        4 => {
            let n = s.usize(1, 3);
            Step::BadAllLen { seed: s.u64(), len: s.pick(&[N_BITS - 1, 1, 0, N_BITS + 1, N_BITS / 2]), n, chunk: s.usize(1, 4) }
        }
        _ => Step::BadChunk { seed: s.u64(), n: s.usize(1, 3) },
    }
}

fn gen_query_args(s: &mut Src, i: u64) -> QCase {
    let be = BES[(i % 4) as usize];
    let mut steps = vec![];
    let n = s.usize(1, 4);
    for _ in 0..n {
        steps.push(bad_step(s));
    }
    let mut h = Hist { be, ty: s.pick(iris_types(be)), key: s.value(64), own_key: s.one_in(4), steps };
    if be != Be::Swift {
        // a valid query afterwards (Swift3's final proof over 12800 products is out of reach); sometimes one before
        let mut last = gen_one(s, be, 2);
        if s.one_in(3) {
            let first = gen_one(s, be, 2);
            h.steps.insert(0, first.steps[0].clone());
        }
        if let Step::Query { entries, qmask, .. } = &mut last.steps[0] {
            for e in entries.iter_mut() {
                e.w = e.w.max(MIN_MASK);
            }
            *qmask = (*qmask).max(MIN_MASK);
        }
        h.steps.push(last.steps[0].clone());
    } else {
        // a refused length in a later chunk leaves the earlier chunks' products to be proven by the next
        // verification, which is out of reach: keep the refusals that come first
        for st in h.steps.iter_mut() {
            if let Step::BadLen { pos, n, chunk, .. } = st {
                *pos = 0;
                *chunk = *n;
            }
        }
        if s.bool() {
            h.steps.push(Step::Verify);
        }
    }
    QCase { h, entropy: s.u64(), sched: gen_sched(s) }
}

fn run_query_args(c: &QCase) -> Check {
    let r = run_iris(&c.h, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, &c.sched);
    let t = clean(&c.h, &r)?;
    check_answers(&c.h, &t)?;
    let tag = format!("{:?}", c.h.be);
    ensure!(r.stray.is_empty(), format!("stray-{tag}"), "messages never received: {:?}", r.stray);
    Ok(Outcome::ok(true).evals(c.h.steps.len() as u64).label(format!("{:?}/{:?}", c.h.be, c.h.ty)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TCase {
    be: Be,
    ty: Ty,
}
fn gen_type(_s: &mut Src, i: u64) -> TCase {
    let be = BES[(i % 4) as usize];
    let l = types(be);
    TCase { be, ty: l[(i / 4) as usize % l.len()] }
}
fn run_type(c: &TCase) -> Check {
    let h = Hist { be: c.be, ty: c.ty, key: 1, own_key: false, steps: vec![] };
    let r = run_iris(&h, &[], &SimCfg::default(), &Sched::PLAIN);
    let tag = format!("{:?}", c.be);
    // distances up to 12800 need 14 bits and a sign
    let small = c.ty.k() < 15;
    for (i, e) in r.ends.iter().enumerate() {
        let PartyEnd::Done(t) = e else { return fail(format!("end-{tag}"), format!("party {i}: {e:?}")) };
        match (&t.setup, small) {
            (Some(k), true) => ensure!(k == "ConfigError", format!("config-{tag}"), "party {i}: a type of {} bits is refused with {k}", c.ty.k()),
            (None, true) => return fail(format!("accepted-{tag}"), format!("party {i}: a type of {} bits is accepted", c.ty.k())),
            (Some(k), false) => return fail(format!("refused-{tag}"), format!("party {i}: a type of {} bits is refused: {k}", c.ty.k())),
            (None, false) => ensure!(t.finished, format!("finish-{tag}"), "party {i} did not finish"),
        }
    }
    Ok(Outcome::ok(true).label(format!("{:?}/{:?}", c.be, c.ty)))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P20",
        level: "exploration",
        families: vec![
            Box::new(Fam { name: "arguments", quick: 720, thorough: 12000, serial: false,
                rule: "Random programs on every backend and type with 1-4 invalid calls at random positions: dot products and batches of unequal lengths, unknown party numbers, OR reductions of nothing or in chunks of zero, masked dot products with wrong code lengths or mask counts. Every party must get an error from each of them, every other observation and every share must be as in the plaintext interpretation, all parties finish, no message is left over. Non-trivial: at least one invalid call.",
                gen: gen_args, run: run_args }),
            Box::new(Fam { name: "missing-input", quick: 160, thorough: 4000, serial: false,
                rule: "A random program whose last step is an input whose owner passes no value: the owner reports it, the others complete or fail, nobody panics or waits forever, earlier observations are right. Every case is non-trivial.",
                gen: gen_noinput, run: run_noinput }),
            Box::new(Fam { name: "queries", quick: 60, thorough: 1600, serial: false,
                rule: "Sessions of database queries with 1-4 invalid ones (counts, empty database, code lengths of one entry, the query or all of them, chunk size zero), followed by a valid query (except on Swift3): all parties refuse and the valid queries are answered as in plaintext. Every case is non-trivial.",
                gen: gen_query_args, run: run_query_args }),
            Box::new(Fam { name: "types", quick: 21, thorough: 21, serial: false,
                rule: "The query protocol over every backend and type: types that cannot hold a distance and its sign are refused by the constructor at every party, the others are not. Every case is non-trivial.",
                gen: gen_type, run: run_type }),
        ],
        assumptions: vec![
            "all parties make the same invalid call, except for a missing input, which only its owner can see",
            "after a missing input the session is over: the peers wait for a message its owner cannot send",
        ],
    }]
}
