//! P01 (one query), P15 (histories).
use crate::disp::{run_iris, run_pipe, run_prog};
use serde::{Deserialize, Serialize};
use vcore::glue::*;
use vcore::iris::{expected, gen_entry, gen_query, iris_types, reference, threshold, Ans, Entry, Hist, ITrace, Step, MIN_MASK, N_BITS};
use vcore::prog;
use vcore::sim::*;
use vengine::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub h: Hist,
    pub entropy: u64,
    pub sched: Sched,
}

fn be_for(s: &mut Src, i: u64) -> Be {
    let _ = s;
    BES[(i % 3) as usize]
}

pub fn clean(h: &Hist, r: &SimResult<ITrace>) -> Result<Vec<ITrace>, Fail> {
    let tag = format!("{:?}", h.be);
    if let Some((i, m)) = r.ends.iter().enumerate().find_map(|(i, e)| if let PartyEnd::Panic(m) = e { Some((i, m)) } else { None }) {
        return fail(format!("panic-{tag}"), format!("party {i} panicked: {m}"));
    }
    let mut out = vec![];
    for (i, e) in r.ends.iter().enumerate() {
        match e {
            PartyEnd::Done(t) => {
                if let Some(k) = &t.setup {
                    return fail(format!("setup-{tag}"), format!("party {i}: set-up or shutdown failed: {k}"));
                }
                out.push(t.clone())
            }
            PartyEnd::Stuck(w) => return fail(format!("deadlock-{tag}"), format!("party {i} waits forever: {w}")),
            _ => return fail("killed", "killed"),
        }
    }
    Ok(out)
}

fn same(a: &Ans, b: &Ans) -> bool {
    match (a, b) {
        (Ans::Err(x), Ans::Err(y)) if y == "Size" => x == "InvalidSizeError" || x == "InvalidCodeSizeError",
        _ => a == b,
    }
}

pub fn check_answers(h: &Hist, t: &[ITrace]) -> Result<(), Fail> {
    let tag = format!("{:?}", h.be);
    let want = expected(h);
    for (i, tr) in t.iter().enumerate() {
        for (j, w) in want.iter().enumerate() {
            let got = tr.ans.get(j);
            if let Some(g) = got {
                if same(g, w) {
                    continue;
                }
            }
            // name the root error, not the follow-up of a closed connection
            let root = t.iter().filter_map(|x| x.ans.get(j)).find_map(|a| match a {
                Ans::Err(k) if k != "IOError" => Some(k.clone()),
                _ => None,
            });
            let kind = match (got, w) {
                (Some(Ans::Err(k)), _) => format!("error-{tag}-{}", root.unwrap_or(k.clone())),
                (Some(Ans::Bool(_)), Ans::Err(_)) => format!("answered-{tag}"),
                (None, _) => format!("missing-{tag}"),
                _ => format!("decision-{tag}"),
            };
            return fail(kind, format!("party {i}, step {j} ({}): got {got:?}, expected {w:?}", show(&h.steps[j])));
        }
        ensure!(tr.finished, format!("finish-{tag}"), "party {i} did not finish");
    }
    Ok(())
}

fn show(s: &Step) -> String {
    match s {
        Step::Query { entries, chunk, qmask, .. } => format!(
            "query of {} entries (w,d,threshold)={:?} chunk {chunk} query mask {qmask}",
            entries.len(),
            entries.iter().map(|e| (e.w, e.d, threshold(e.w))).collect::<Vec<_>>()
        ),
        o => format!("{o:?}"),
    }
}

pub fn gen_one(s: &mut Src, be: Be, max: usize) -> Hist {
    let ty = s.pick(iris_types(be));
    let key = s.value(64);
    let own_key = s.one_in(4);
    Hist { be, ty, key, own_key, steps: vec![gen_query(s, max)] }
}

fn gen_p01(s: &mut Src, i: u64) -> Case {
    let be = be_for(s, i);
    let max = if s.one_in(6) { 24 } else { 9 };
    let h = gen_one(s, be, max);
    Case { h, entropy: s.u64(), sched: Sched::PLAIN }
}
/// Databases larger than a word of packed bits, made of a few distinct entries.
fn gen_p01_large(s: &mut Src, i: u64) -> Case {
    let be = be_for(s, i);
    let n = match s.below(4) {
        0 => s.usize(60, 70),
        1 => s.usize(125, 135),
        2 => s.usize(250, 262),
        _ => s.usize(25, 300),
    };
    let far: Vec<Entry> = (0..s.usize(1, 3)).map(|_| gen_entry(s, false)).collect();
    let mut entries: Vec<Entry> = (0..n).map(|j| far[j % far.len()].clone()).collect();
    for _ in 0..s.weighted(&[3, 5, 1]) {
        let pos = match s.below(4) {
            0 => n - 1,
            1 => s.usize(n - n.min(8), n - 1),
            2 => s.usize(0, n - 1) / 8 * 8,
            _ => s.usize(0, n - 1),
        };
        entries[pos] = gen_entry(s, true);
    }
    if s.one_in(10) {
        let p = s.usize(0, n - 1);
        entries[p].w = MIN_MASK - 1;
        entries[p].d = entries[p].d.min(entries[p].w);
    }
    let chunk = match s.below(3) {
        0 => s.usize(1, 40),
        1 => s.pick(&[16usize, 64, 128, 127, 129, 256, usize::MAX]),
        _ => n,
    };
    let wmax = entries.iter().map(|e| e.w).max().unwrap();
    let h = Hist { be, ty: s.pick(iris_types(be)), key: s.value(64), own_key: s.one_in(4), steps: vec![Step::Query { entries, chunk, qmask: wmax, seed: s.u64() }] };
    Case { h, entropy: s.u64(), sched: Sched::PLAIN }
}
fn gen_p01_swift(s: &mut Src, _i: u64) -> Case {
    let mut h = gen_one(s, Be::Swift, 6);
    for _ in 0..s.below(2) {
        h.steps.push(gen_query(s, 2));
    }
    for st in h.steps.iter_mut() {
        if let Step::Query { entries, qmask, .. } = st {
            for e in entries.iter_mut() {
                e.w = e.w.max(MIN_MASK);
            }
            *qmask = (*qmask).max(MIN_MASK);
        }
    }
    Case { h, entropy: s.u64(), sched: Sched::PLAIN }
}
fn run_p01_swift(c: &Case) -> Check {
    let r = run_pipe(&c.h, &SimCfg { entropy: c.entropy, ..Default::default() }, &c.sched);
    let t = clean(&c.h, &r)?;
    check_answers(&c.h, &t)?;
    Ok(Outcome::ok(true).label(format!("{:?}/{:?}", c.h.be, c.h.ty)))
}

fn run_p01(c: &Case) -> Check {
    let tag = format!("{:?}", c.h.be);
    let want = expected(&c.h);
    if let Step::Query { entries, qmask, seed, .. } = &c.h.steps[0] {
        let re = reference(entries, *qmask, *seed);
        let w = match &want[0] {
            Ans::Bool(b) => Some(*b),
            _ => None,
        };
        ensure!(re == w, "reference", "plaintext reference says {re:?}, exact rule says {w:?} for {}", show(&c.h.steps[0]));
    }
    let r = run_iris(&c.h, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, &c.sched);
    let t = clean(&c.h, &r)?;
    check_answers(&c.h, &t)?;
    let _ = tag;
    let near = match &c.h.steps[0] {
        Step::Query { entries, .. } => entries.iter().any(|e| e.d.abs_diff(threshold(e.w)) <= 2 || e.w.abs_diff(MIN_MASK) <= 4),
        _ => false,
    };
    Ok(Outcome::ok(near)
        .label(format!("{:?}/{:?}", c.h.be, c.h.ty))
        .label(match want[0] { Ans::Bool(true) => "match", Ans::Bool(false) => "no-match", _ => "rejected" }))
}

fn gen_hist(s: &mut Src, i: u64) -> Case {
    let be = be_for(s, i);
    let ty = s.pick(iris_types(be));
    let key = s.value(64);
    let own_key = s.one_in(4);
    let n = s.usize(2, 5);
    let mut steps = vec![];
    for _ in 0..n {
        let st = match s.below(12) {
            0 => Step::Verify,
            1 => Step::BadCount { seed: s.u64(), extra: s.bool() },
            2 => Step::Empty,
            3 => {
                let n = s.usize(1, 3);
                Step::BadLen { seed: s.u64(), len: s.pick(&[N_BITS - 1, 1, N_BITS + 1, 0]), pos: s.usize(0, n - 1), n, chunk: s.usize(1, n) }
            }
            4 => Step::BadQueryLen { seed: s.u64(), len: s.pick(&[N_BITS - 1, 0, N_BITS + 1]) },
            _ => {
                let big = s.one_in(10);
                let m = if big { 20 } else { 4 };
                gen_query(s, m)
            }
        };
        steps.push(st);
    }
    // the last step is always an answered query
    let mut last = gen_query(s, 3);
    if let Step::Query { entries, qmask, .. } = &mut last {
        for e in entries.iter_mut() {
            if e.w < MIN_MASK {
                e.w = MIN_MASK;
            }
        }
        *qmask = (*qmask).max(MIN_MASK);
    }
    steps.push(last);
    Case { h: Hist { be, ty, key, own_key, steps }, entropy: s.u64(), sched: prog::gen_sched(s) }
}

/// SpdzWise sessions whose queries need more triple material than the minimum batch.
fn gen_budget(s: &mut Src, _i: u64) -> Case {
    let ty = s.pick(&[Ty::U64, Ty::U32, Ty::U16]);
    let per = 2 * ty.k() - 3;
    let n = s.usize(1, 2);
    let mut steps = vec![];
    for _ in 0..n {
        // registers needed when each chunk is padded to 128 bits: chunks * per; the minimum batch is 8192
        let chunk = s.pick(&[1usize, 2, 3, 129]);
        let chunks = (8192 / per) * s.usize(1, 5) / 4 + s.usize(0, 3);
        let m = if chunk > 3 { s.usize(100, 300) } else { (chunks.max(1) - 1) * chunk + s.usize(1, chunk) };
        let hit = s.usize(0, 2 * m);
        let entries = (0..m.min(320)).map(|i| Entry { w: 10000, d: if i == hit { 3399 } else { 3400 + i % 50 }, layout: 1, seed: i as u64 }).collect();
        steps.push(Step::Query { entries, chunk, qmask: 10000, seed: s.u64() });
        if s.one_in(4) {
            steps.push(Step::Verify);
        }
    }
    Case { h: Hist { be: Be::Spdz, ty, key: 12345, own_key: false, steps }, entropy: s.u64(), sched: Sched::PLAIN }
}

/// The same block of operations several times, each closed by a verification.
fn gen_repeat(s: &mut Src, i: u64) -> RCase {
    let be = BES[(i % 4) as usize];
    let ty = s.pick(types(be));
    let o = prog::GenOpt { ops: 5, bits: true, arith: true, opens: false, inputs: true, max_vec: 4, max_batch: 3 };
    let p = prog::gen_prog(s, be, ty, &o);
    let mut block: Vec<prog::Op> = p.ops.iter().filter(|o| !matches!(o, prog::Op::Verify)).cloned().collect();
    block.push(prog::Op::Mul(0, 0));
    RCase { be, ty, block, times: s.usize(3, 5), entropy: s.u64() }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RCase {
    be: Be,
    ty: Ty,
    block: Vec<prog::Op>,
    times: usize,
    entropy: u64,
}
fn run_repeat(c: &RCase) -> Check {
    use prog::Op;
    let tag = format!("{:?}", c.be);
    let mut one = prog::Prog { be: c.be, ty: c.ty, key: 77, own_key: false, ops: c.block.clone() };
    if c.be == Be::Swift {
        prog::trim_swift(&mut one, 1);
    }
    let need: usize = one.ops.iter().map(|o| prog::gates(&one, o)).sum();
    let mut ops = vec![];
    let mut starts = vec![];
    for _ in 0..c.times {
        starts.push(ops.len());
        ops.push(Op::Precompute(need));
        ops.extend(one.ops.iter().cloned());
        ops.push(Op::Verify);
        ops.push(Op::Open(0));
    }
    starts.push(ops.len());
    let p = prog::Prog { ops, ..one };
    let m = prog::model(&p);
    let r = run_prog(&p, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, &Sched::PLAIN);
    let t = prog::expect_clean(&p, &r)?;
    for i in 0..3 {
        prog::check_obs(&p, &m, &t[i], i)?;
    }
    // bytes sent in each block
    let mut bytes = vec![0usize; c.times];
    for (b, x) in bytes.iter_mut().enumerate() {
        for f in 0..3 {
            let (lo, hi) = (r.marks[f][1 + starts[b]], r.marks[f][1 + starts[b + 1]]);
            for to in 0..3 {
                *x += r.lens[f * 3 + to][lo[to]..hi[to]].iter().sum::<usize>();
            }
        }
    }
    for b in 1..c.times {
        ensure!(bytes[b] <= bytes[0] + bytes[0] / 4 + 256, format!("growing-{tag}"), "the same block sends {bytes:?} bytes: the cost grows with the session");
    }
    Ok(Outcome::ok(true).evals(c.times as u64).label(format!("{:?}/{:?}", c.be, c.ty)))
}

fn run_hist(c: &Case) -> Check {
    let r = run_iris(&c.h, &[], &SimCfg { entropy: c.entropy, ..Default::default() }, &c.sched);
    let t = clean(&c.h, &r)?;
    check_answers(&c.h, &t)?;
    let tag = format!("{:?}", c.h.be);
    ensure!(r.stray.is_empty(), format!("stray-{tag}"), "messages never received: {:?}", r.stray);
    let q = c.h.steps.iter().filter(|s| matches!(s, Step::Query { .. })).count();
    let bad = expected(&c.h).iter().filter(|a| matches!(a, Ans::Err(_))).count();
    Ok(Outcome::ok(q >= 2 || bad > 0).evals(c.h.steps.len() as u64).label(format!("{:?}/{:?}", c.h.be, c.h.ty)).label(format!("rejected:{bad}")))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            level: "exploration",
            families: vec![
                Box::new(Fam { name: "query", quick: 240, thorough: 9000, serial: false,
                    rule: "One database query over 1-24 entries with constructed combined-mask weights (minimum, minimum+, full, random; sometimes below the minimum) and distances (0, threshold-1, threshold, threshold+1, full, random), all chunk sizes; ABY3, malicious ABY3 and SpdzWise in turn over all types the query supports; answers of all parties compared with the plaintext rule and the repository's plaintext reference. Non-trivial: some entry within 2 of its threshold or within 4 of the minimum mask weight.",
                    gen: gen_p01, run: run_p01 }),
                Box::new(Fam { name: "large-databases", quick: 15, thorough: 400, serial: false,
                    rule: "One query over 25-300 entries (around 64, 128 and 256 too) made of one to three distinct far or near entries and up to two others at chosen positions (last, near the end, at multiples of 8), sometimes with one entry below the minimum mask; chunks of 1-40, around 128, the whole database, more than it. Judged as in query; same rule for non-trivial.",
                    gen: gen_p01_large, run: run_p01 }),
                Box::new(Fam { name: "query-swift", quick: 24, thorough: 600, serial: false,
                    rule: "Swift3: the query's steps (masked dot products over 12800 entries, distance, comparison, OR, opening) called through the public operations without the final proof, whose cost over 12800 products per entry is out of reach; up to 6 entries. Every case is non-trivial.",
                    gen: gen_p01_swift, run: run_p01_swift }),
            ],
            assumptions: vec!["database codes have the full length of 12800 bits"],
        },
        Prop {
            id: "P15",
            level: "exploration",
            families: vec![
                Box::new(Fam { name: "histories", quick: 100, thorough: 4000, serial: false,
                    rule: "Sessions of 3-6 steps mixing answered queries, queries rejected for masks, wrong counts or lengths, empty databases and explicit verifications, under drawn schedules; every answer compared with the plaintext decision and no message may be left over. Non-trivial: at least two queries or one rejected step.",
                    gen: gen_hist, run: run_hist }),
                Box::new(Fam { name: "material", quick: 12, thorough: 200, serial: false,
                    rule: "SpdzWise sessions of one or two queries whose number of chunks is around the size of the minimum triple batch (8192 registers). Non-trivial: at least two queries.",
                    gen: gen_budget, run: run_hist }),
                Box::new(Fam { name: "repeated-blocks", quick: 120, thorough: 3000, serial: false,
                    rule: "A random block of operations closed by a verification and an opening, repeated 3-5 times in one session (all backends): same values each time, and no block may send more than the first (plus a quarter). Every case is non-trivial.",
                    gen: gen_repeat, run: run_repeat }),
            ],
            assumptions: vec!["a query is followed by others only if it was answered or refused for its arguments"],
        },
    ]
}
