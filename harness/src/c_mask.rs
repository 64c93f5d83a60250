//! P14: what a party receives is freshly masked (statistics over many sessions on the same inputs).
use crate::disp::run_prog;
use serde::{Deserialize, Serialize};
use vcore::glue::*;
use vcore::prog::*;
use vcore::sim::*;
use vengine::*;

// ------------------------------------------------------------------------------------------------ statistics

/// One row of bits per session.
pub struct Bits {
    pub n: usize,
    pub rows: Vec<Vec<u64>>,
}
impl Bits {
    pub fn of(samples: &[Vec<u8>]) -> Bits {
        let n = samples[0].len() * 8;
        let rows = samples
            .iter()
            .map(|b| {
                let mut w = vec![0u64; n.div_ceil(64)];
                for i in 0..n {
                    if b[i / 8] >> (i % 8) & 1 == 1 {
                        w[i / 64] |= 1 << (i % 64);
                    }
                }
                w
            })
            .collect();
        Bits { n, rows }
    }
    pub fn get(&self, row: usize, i: usize) -> bool {
        self.rows[row][i / 64] >> (i % 64) & 1 == 1
    }
    pub fn ones(&self, i: usize) -> usize {
        (0..self.rows.len()).filter(|r| self.get(*r, i)).count()
    }
    /// A set of the given columns whose sum (plus possibly 1) is zero in every row, if there is one.
    pub fn relation(&self, cols: &[usize]) -> Option<Vec<usize>> {
        // column vectors over the sessions, reduced against those before
        let m = self.rows.len();
        let w = m.div_ceil(64);
        let c = cols.len() + 1;
        let cw = c.div_ceil(64);
        let mut basis: Vec<(usize, Vec<u64>, Vec<u64>)> = vec![];
        for j in 0..c {
            let mut v = vec![0u64; w];
            for r in 0..m {
                let b = if j == 0 { true } else { self.get(r, cols[j - 1]) };
                if b {
                    v[r / 64] |= 1 << (r % 64);
                }
            }
            let mut who = vec![0u64; cw];
            who[j / 64] |= 1 << (j % 64);
            for (p, bv, bw) in &basis {
                if v[p / 64] >> (p % 64) & 1 == 1 {
                    for (x, y) in v.iter_mut().zip(bv) {
                        *x ^= y;
                    }
                    for (x, y) in who.iter_mut().zip(bw) {
                        *x ^= y;
                    }
                }
            }
            match (0..m).find(|r| v[r / 64] >> (r % 64) & 1 == 1) {
                Some(p) => basis.push((p, v, who)),
                None => return Some((1..c).filter(|i| who[i / 64] >> (i % 64) & 1 == 1).map(|i| cols[i - 1]).collect()),
            }
        }
        None
    }
}
/// The standard deviations that are still accepted: 2e-19 per bit.
const SIGMAS: f64 = 9.0;
pub fn far(ones: usize, m: usize) -> bool {
    let d = (2 * ones) as f64 - m as f64;
    d.abs() > SIGMAS * (m as f64).sqrt()
}

/// Balanced and independent: `samples` are the same bytes in different sessions, `pad` marks bits that carry nothing.
pub fn uniform(what: &str, samples: &[Vec<u8>], pad: &[bool], rng: &mut Rng64, name: impl Fn(usize) -> String) -> Result<u64, Fail> {
    let m = samples.len();
    let b = Bits::of(samples);
    let mut cols: Vec<usize> = (0..b.n).filter(|i| !pad[*i]).collect();
    for i in &cols {
        let o = b.ones(*i);
        if far(o, m) {
            return fail("biased", format!("{what}: {} is 1 in {o} of {m} sessions with the same inputs", name(*i)));
        }
    }
    // independence of as many bits as the number of sessions can tell apart
    let cap = m.saturating_sub(70);
    if cols.len() > cap {
        for i in 0..cap {
            let j = i + rng.below((cols.len() - i) as u64) as usize;
            cols.swap(i, j);
        }
        cols.truncate(cap);
        cols.sort();
    }
    if let Some(r) = b.relation(&cols) {
        let l: Vec<String> = r.iter().take(6).map(|i| name(*i)).collect();
        return fail("dependent", format!("{what}: the sum of {} bits is the same in all {m} sessions: {}", r.len(), l.join(", ")));
    }
    Ok(cols.len() as u64)
}

/// No byte is a copy of, or at a fixed distance from, another in every session.
pub fn distinct(what: &str, samples: &[Vec<u8>], pad: &[bool], name: impl Fn(usize) -> String) -> Result<u64, Fail> {
    let n = samples[0].len();
    let live: Vec<usize> = (0..n).filter(|i| (0..8).all(|k| !pad[i * 8 + k])).collect();
    let s0 = &samples[0];
    // over the sessions: how the byte moves; bytes at a fixed distance move alike (or opposite)
    let moves = |i: usize, f: &dyn Fn(u8, u8) -> u8| -> Vec<u8> { samples.iter().map(|s| f(s[i], s0[i])).collect() };
    let mut xors = std::collections::HashMap::new();
    let mut sums = std::collections::HashMap::new();
    for &i in &live {
        let up = moves(i, &|x, y| x.wrapping_sub(y));
        let down = moves(i, &|x, y| y.wrapping_sub(x));
        let x = moves(i, &|x, y| x ^ y);
        if let Some(j) = xors.get(&x).or(sums.get(&up)).or(sums.get(&down)) {
            let j: usize = *j;
            return fail("repeated", format!("{what}: {} and {} differ by the same amount in all {} samples", name(j * 8), name(i * 8), samples.len()));
        }
        xors.insert(x, i);
        sums.insert(up, i);
    }
    Ok((live.len() * live.len().saturating_sub(1) / 2) as u64)
}

// ------------------------------------------------------------------------------------------------ programs

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MCase {
    prog: Prog,
    /// The party whose incoming messages are observed.
    who: usize,
    /// Sessions.
    m: usize,
    seed: u64,
}

fn data_op(op: &Op) -> bool {
    matches!(op, Op::Input { .. } | Op::Mul(..) | Op::Dot(_) | Op::DotMany(_) | Op::Msb(_) | Op::MsbMany(_) | Op::Or(..) | Op::OrReduce { .. })
}

/// What `who` receives during the data operations: (operation, from, bytes).
fn received(p: &Prog, r: &SimResult<Trace>, who: usize) -> Result<Vec<(usize, usize, Vec<u8>)>, Fail> {
    for e in &r.ends {
        match e {
            PartyEnd::Done(t) if t.err.is_none() => {}
            PartyEnd::Done(t) => return fail("error", format!("a party ends with {:?}", t.err)),
            e => return fail("error", format!("a party ends with {e:.200?}")),
        }
    }
    let mut out = vec![];
    for (i, op) in p.ops.iter().enumerate() {
        if !data_op(op) {
            continue;
        }
        for from in 0..3 {
            if from == who {
                continue;
            }
            // in an input of MalAby3 the other two parties repeat to each other what the owner told them
            if matches!(op, Op::Input { who: owner, .. } if p.be == Be::Mal && *owner != who && *owner != from) {
                continue;
            }
            let (a, b) = (r.marks[from][1 + i][who], r.marks[from][2 + i][who]);
            for idx in a..b {
                let m = &r.transcript[from * 3 + who][idx];
                // openings within an operation are checked with hashes, the same ones from both sides
                if !matches!(p.be, Be::Mal | Be::Spdz) || m.len() != 64 {
                    out.push((i, from, m.clone()));
                }
            }
        }
    }
    Ok(out)
}
fn shape(v: &[(usize, usize, Vec<u8>)]) -> Vec<(usize, usize, usize)> {
    v.iter().map(|x| (x.0, x.1, x.2.len())).collect()
}
fn flat(v: &[(usize, usize, Vec<u8>)]) -> Vec<u8> {
    v.iter().flat_map(|x| x.2.iter().copied()).collect()
}
/// The same program on other inputs.
fn other_inputs(p: &Prog, seed: u64) -> Prog {
    let mut r = Rng64::new(seed);
    let m = p.ty.mask();
    let mut p = p.clone();
    for op in p.ops.iter_mut() {
        match op {
            Op::Share { vals, seed } => {
                vals.iter_mut().for_each(|v| *v = r.u128() & m);
                *seed = r.next();
            }
            Op::Bits { vals, seed } => {
                vals.iter_mut().for_each(|v| *v = r.next() & 1 == 1);
                *seed = r.next();
            }
            Op::Input { val, .. } => *val = r.u128() & m,
            _ => {}
        }
    }
    p
}

struct View {
    samples: Vec<Vec<u8>>,
    /// Bits that are 0 whatever the session and the inputs.
    pad: Vec<bool>,
    shape: Vec<(usize, usize, usize)>,
}
fn view(c: &MCase, each: impl Fn(usize) -> [u64; 3]) -> Result<View, Fail> {
    let cfg = |k: usize| SimCfg { record: true, each: Some(each(k)), ..Default::default() };
    let mut samples = vec![];
    let mut sh = vec![];
    for k in 0..c.m {
        let r = run_prog(&c.prog, &[], &cfg(k), &Sched::PLAIN);
        let v = received(&c.prog, &r, c.who)?;
        if k == 0 {
            sh = shape(&v);
        }
        ensure!(sh == shape(&v), "shape", "party {} receives other messages (operation, from, size) in another session on the same inputs:\n {sh:?}\n {:?}", c.who, shape(&v));
        samples.push(flat(&v));
    }
    let mut or = vec![0u8; samples[0].len()];
    let mut take = |s: &[u8]| or.iter_mut().zip(s).for_each(|(a, b)| *a |= b);
    samples.iter().for_each(|s| take(s));
    for k in 0..12 {
        let p = other_inputs(&c.prog, mix(c.seed ^ k));
        let r = run_prog(&p, &[], &cfg(c.m + k as usize), &Sched::PLAIN);
        let v = received(&p, &r, c.who)?;
        ensure!(sh == shape(&v), "shape", "party {} receives other messages (operation, from, size) on other inputs:\n {sh:?}\n {:?}", c.who, shape(&v));
        take(&flat(&v));
    }
    let pad = (0..or.len() * 8).map(|i| or[i / 8] >> (i % 8) & 1 == 0).collect();
    Ok(View { samples, pad, shape: sh })
}
fn namer<'a>(p: &'a Prog, who: usize, sh: &'a [(usize, usize, usize)]) -> impl Fn(usize) -> String + 'a {
    move |bit| {
        let mut off = bit / 8;
        for (k, (op, from, len)) in sh.iter().enumerate() {
            if off < *len {
                return format!("byte {off} bit {} of message {k} ({from} to {who}, {len} bytes, operation {op}: {:.60?})", bit % 8, p.ops[*op]);
            }
            off -= len;
        }
        "?".into()
    }
}

/// Programs of a few interactive operations over dealt shares; `big` draws batches.
fn gen_small(s: &mut Src, be: Be, ty: Ty, big: bool) -> Prog {
    let k = ty.k();
    let n = s.usize(2, 4);
    let mut ops = vec![Op::Share { vals: gen_vals(s, k, n), seed: s.u64() }];
    let nb = if big { s.usize(20, 150) } else { s.usize(2, 12) };
    ops.push(Op::Bits { vals: (0..nb).map(|_| s.bool()).collect(), seed: s.u64() });
    // SpdzWise gates need triples, which are slow to make: see "repeats"
    let kind = if be == Be::Spdz { 0 } else { s.below(4) };
    let ops_n = if big { s.usize(1, 2) } else { s.usize(1, 4) };
    let idx = |s: &mut Src| s.below(24) as usize;
    for _ in 0..ops_n {
        let w = match kind {
            0 => [2, 2, 2, 0, 0, 0, 0, 2, 2],
            1 => [0, 0, 0, 1, 1, 0, 0, 0, 0],
            2 => [0, 0, 0, 0, 0, 1, 1, 0, 0],
            _ => [2, 2, 2, 1, 1, 2, 2, 1, 2],
        };
        let op = match s.weighted(&w) {
            0 => Op::Mul(idx(s), idx(s)),
            1 => Op::Dot((0..s.usize(1, 4)).map(|_| (idx(s), idx(s))).collect()),
            2 => {
                let m = if big { s.usize(8, 60) } else { s.usize(1, 4) };
                let same = s.bool();
                let l = s.usize(1, 3);
                Op::DotMany((0..m).map(|_| (0..if same { l } else { s.usize(1, 3) }).map(|_| (idx(s), idx(s))).collect()).collect())
            }
            3 => Op::Msb(idx(s)),
            4 => Op::MsbMany((0..if big { s.usize(2, if be == Be::Mal { 8 } else { 20 }) } else { s.usize(1, 3) }).map(|_| idx(s)).collect()),
            5 => Op::Or(idx(s), idx(s)),
            6 => {
                let m = if big { s.usize(20, 300) } else { s.usize(2, 10) };
                Op::OrReduce { regs: (0..m).map(|_| s.below(400) as usize).collect(), chunk: chunk_len(s) }
            }
            8 => Op::Input { who: s.usize(0, 2), val: s.value(k) & ty.mask() },
            _ => match s.below(3) {
                0 => Op::Add(idx(s), idx(s)),
                1 => Op::AddC(idx(s), s.value(k)),
                _ => Op::MulC(idx(s), s.value(k)),
            },
        };
        ops.push(op);
    }
    if !ops.iter().any(data_op) {
        ops.push(if kind == 2 { Op::Or(0, 1) } else { Op::Mul(0, 1) });
    }
    with_budget(Prog { be, ty, key: s.value(64) | 1, own_key: be != Be::Spdz && s.one_in(3), ops })
}
fn gen_m(s: &mut Src, i: u64) -> MCase {
    let be = BES[(i % 4) as usize];
    let ty = pick_ty(s, be);
    let prog = gen_small(s, be, ty, false);
    MCase { prog, who: s.usize(0, 2), m: 0, seed: s.u64() }
}
/// As many sessions as it takes to tell all received bits apart, up to a limit.
fn sessions(c: &MCase, most: usize) -> Result<usize, Fail> {
    let r = run_prog(&c.prog, &[], &SimCfg { record: true, ..Default::default() }, &Sched::PLAIN);
    let n = flat(&received(&c.prog, &r, c.who)?).len() * 8;
    Ok((n + 80).clamp(256, most))
}
fn be_label(p: &Prog) -> String {
    format!("{:?}", p.be)
}
fn run_m(c: &MCase) -> Check {
    let mut c = c.clone();
    c.m = sessions(&c, 480)?;
    let seed = c.seed;
    let v = view(&c, |k| [0, 1, 2].map(|p| mix(seed ^ mix(k as u64 * 3 + p))))?;
    if v.samples[0].is_empty() {
        return Ok(Outcome::ok(false).label("nothing received"));
    }
    let name = namer(&c.prog, c.who, &v.shape);
    let mut rng = Rng64::new(seed);
    let what = format!("{:?} {:?}, party {} receives", c.prog.be, c.prog.ty, c.who);
    let n = uniform(&what, &v.samples, &v.pad, &mut rng, &name)?;
    Ok(Outcome::ok(n > 0).evals(c.m as u64).label(be_label(&c.prog)))
}

fn gen_big(s: &mut Src, i: u64) -> MCase {
    let be = BES[(i % 4) as usize];
    let ty = pick_ty(s, be);
    let prog = gen_small(s, be, ty, true);
    MCase { prog, who: s.usize(0, 2), m: 0, seed: s.u64() }
}
fn run_big(c: &MCase) -> Check {
    let mut c = c.clone();
    c.m = 110;
    let seed = c.seed;
    let v = view(&c, |k| [0, 1, 2].map(|p| mix(seed ^ mix(k as u64 * 3 + p))))?;
    if v.samples[0].is_empty() {
        return Ok(Outcome::ok(false).label("nothing received"));
    }
    let name = namer(&c.prog, c.who, &v.shape);
    let mut rng = Rng64::new(seed);
    let what = format!("{:?} {:?}, party {} receives", c.prog.be, c.prog.ty, c.who);
    uniform(&what, &v.samples, &v.pad, &mut rng, &name)?;
    let n = distinct(&what, &v.samples, &v.pad, &name)?;
    Ok(Outcome::ok(n > 0).evals(c.m as u64).label(be_label(&c.prog)))
}

/// The same, with everything the observed party knows held fixed: only one other party's randomness varies, chosen
/// so that what the observed party sends in a multiplication (its inputs and shared randomness) stays the same.
fn run_given(c: &MCase) -> Check {
    let mut c = c.clone();
    let seed = c.seed;
    let probe = Prog { ops: vec![Op::Share { vals: vec![3, 5], seed: 1 }, Op::Mul(0, 1)], ..c.prog.clone() };
    let sent = |e: [u64; 3]| {
        let r = run_prog(&probe, &[], &SimCfg { record: true, each: Some(e), ..Default::default() }, &Sched::PLAIN);
        received(&probe, &r, c.who).map(|_| {
            let m = &r.marks[c.who];
            (0..3).map(|t| r.transcript[c.who * 3 + t][m[2][t]..m[3][t]].to_vec()).collect::<Vec<_>>()
        })
    };
    let each = |vary: usize, k: usize| {
        let mut e = [mix(seed ^ 1), mix(seed ^ 2), mix(seed ^ 3)];
        e[vary] = mix(seed ^ mix(100 + k as u64));
        e
    };
    let mut vary = None;
    for d in 1..3 {
        let v = (c.who + d) % 3;
        let s: Result<Vec<_>, Fail> = (0..4).map(|k| sent(each(v, k))).collect();
        if s?.windows(2).all(|w| w[0] == w[1]) {
            vary = Some(v);
        }
    }
    let Some(vary) = vary else {
        return Ok(Outcome::ok(false).label("no party's randomness is unknown to the observer alone"));
    };
    c.m = sessions(&c, 480)?;
    let v = view(&c, |k| each(vary, k))?;
    // messages from the other, fixed party may be fixed or not: those it computes from what both know are
    let n = v.samples[0].len();
    if n == 0 {
        return Ok(Outcome::ok(false).label("nothing received"));
    }
    let name = namer(&c.prog, c.who, &v.shape);
    let mut rng = Rng64::new(seed);
    let what = format!("{:?} {:?}, party {} with its own randomness fixed receives", c.prog.be, c.prog.ty, c.who);
    let n = uniform(&what, &v.samples, &v.pad, &mut rng, &name)?;
    Ok(Outcome::ok(n > 0).evals(c.m as u64).label(be_label(&c.prog)))
}
fn gen_given(s: &mut Src, i: u64) -> MCase {
    let be = if i % 2 == 0 { Be::Aby3 } else { Be::Spdz };
    let ty = pick_ty(s, be);
    let prog = gen_small(s, be, ty, false);
    MCase { prog, who: s.usize(0, 2), m: 0, seed: s.u64() }
}

// ------------------------------------------------------------------------------------------------ repeats

/// One operation on the same inputs, over and over within one session.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RCase {
    be: Be,
    ty: Ty,
    vals: Vec<u128>,
    bits: Vec<bool>,
    op: Op,
    who: usize,
    seed: u64,
}
fn gen_repeat(s: &mut Src, i: u64) -> RCase {
    let be = BES[(i % 4) as usize];
    let ty = pick_ty(s, be);
    let n = s.usize(1, 4);
    let vals = gen_vals(s, ty.k(), n);
    let bits: Vec<bool> = (0..s.usize(1, 12)).map(|_| s.bool()).collect();
    let idx = |s: &mut Src| s.below(24) as usize;
    let w = if be == Be::Spdz { [1, 1, 1, 3, 3, 3, 3, 1] } else { [2, 1, 1, 1, 1, 1, 1, 2] };
    let op = match s.weighted(&w) {
        0 => Op::Mul(idx(s), idx(s)),
        1 => Op::Dot((0..s.usize(1, 4)).map(|_| (idx(s), idx(s))).collect()),
        2 => Op::DotMany((0..s.usize(1, 4)).map(|_| (0..s.usize(1, 3)).map(|_| (idx(s), idx(s))).collect()).collect()),
        3 => Op::Msb(idx(s)),
        4 => Op::MsbMany((0..s.usize(1, 3)).map(|_| idx(s)).collect()),
        5 => Op::Or(idx(s), idx(s)),
        7 => Op::Input { who: s.usize(0, 2), val: s.value(ty.k()) & ty.mask() },
        _ => Op::OrReduce { regs: (0..s.usize(2, 12)).map(|_| s.below(400) as usize).collect(), chunk: chunk_len(s) },
    };
    RCase { be, ty, vals, bits, op, who: s.usize(0, 2), seed: s.u64() }
}
/// The operation with other operands.
fn reindex(op: &Op, r: &mut Rng64) -> Op {
    let mut n = || r.below(1000) as usize;
    let pairs = |l: &Vec<(usize, usize)>, n: &mut dyn FnMut() -> usize| l.iter().map(|_| (n(), n())).collect::<Vec<_>>();
    match op {
        Op::Mul(..) => Op::Mul(n(), n()),
        Op::Dot(l) => Op::Dot(pairs(l, &mut n)),
        Op::DotMany(ls) => Op::DotMany(ls.iter().map(|l| pairs(l, &mut n)).collect()),
        Op::Msb(_) => Op::Msb(n()),
        Op::MsbMany(l) => Op::MsbMany(l.iter().map(|_| n()).collect()),
        Op::Or(..) => Op::Or(n(), n()),
        Op::Input { who, val } => Op::Input { who: *who, val: val ^ n() as u128 },
        Op::OrReduce { regs, chunk } => Op::OrReduce { regs: regs.iter().map(|_| n()).collect(), chunk: *chunk },
        o => o.clone(),
    }
}
fn per_op(p: &Prog, r: &SimResult<Trace>, who: usize) -> Result<Vec<Vec<(usize, usize, Vec<u8>)>>, Fail> {
    let mut out: Vec<Vec<(usize, usize, Vec<u8>)>> = vec![];
    for x in received(p, r, who)? {
        match out.last_mut() {
            Some(l) if l[0].0 == x.0 => l.push(x),
            _ => out.push(vec![x]),
        }
    }
    for l in out.iter_mut() {
        l.iter_mut().for_each(|x| x.0 = 0);
    }
    Ok(out)
}
fn run_repeat(c: &RCase) -> Check {
    let base = Prog { be: c.be, ty: c.ty, key: mix(c.seed) as u128 | 1, own_key: c.be != Be::Spdz && c.seed % 3 == 0, ops: vec![] };
    let inputs = vec![Op::Share { vals: c.vals.clone(), seed: c.seed }, Op::Bits { vals: c.bits.clone(), seed: c.seed ^ 1 }];
    let prog = |m: usize, other: bool| {
        let mut r = Rng64::new(c.seed ^ 77);
        let mut ops = inputs.clone();
        if other {
            ops = vec![
                Op::Share { vals: (0..30).map(|_| r.u128() & c.ty.mask()).collect(), seed: r.next() },
                Op::Bits { vals: (0..60).map(|_| r.next() & 1 == 1).collect(), seed: r.next() },
            ];
        }
        let need = gates(&base, &c.op) * m;
        if need > 0 && c.be == Be::Spdz {
            ops.push(Op::Precompute(need));
        }
        for _ in 0..m {
            ops.push(if other { reindex(&c.op, &mut r) } else { c.op.clone() });
        }
        Prog { ops, ..base.clone() }
    };
    // the operands are the dealt inputs in every repetition
    let fix = |p: &mut Prog, na: usize, nb: usize| {
        for op in p.ops.iter_mut() {
            match op {
                Op::Mul(a, b) => (*a, *b) = (*a % na, *b % na),
                Op::Dot(l) => l.iter_mut().for_each(|x| *x = (x.0 % na, x.1 % na)),
                Op::DotMany(ls) => ls.iter_mut().flatten().for_each(|x| *x = (x.0 % na, x.1 % na)),
                Op::Msb(a) => *a %= na,
                Op::MsbMany(l) => l.iter_mut().for_each(|x| *x %= na),
                Op::Or(a, b) => (*a, *b) = (*a % nb, *b % nb),
                Op::OrReduce { regs, .. } => regs.iter_mut().for_each(|x| *x %= nb),
                _ => {}
            }
        }
    };
    let run = |m: usize, other: bool, e: u64| -> Result<Vec<Vec<(usize, usize, Vec<u8>)>>, Fail> {
        let mut p = prog(m, other);
        if other { fix(&mut p, 30, 60) } else { fix(&mut p, c.vals.len(), c.bits.len()) }
        let r = run_prog(&p, &[], &SimCfg { record: true, entropy: mix(c.seed ^ e), ..Default::default() }, &Sched::PLAIN);
        per_op(&p, &r, c.who)
    };
    let other = run(40, true, 1)?;
    if other.is_empty() {
        return Ok(Outcome::ok(false).label("nothing received"));
    }
    let sh = shape(&other[0]);
    let n = flat(&other[0]).len();
    let m = (n * 8 + 80).clamp(256, 480);
    let all = run(m, false, 2)?;
    ensure!(all.len() == m, "shape", "{:?} {:?}: party {} receives messages in {} of {m} repetitions of {:.200?}", c.be, c.ty, c.who, all.len(), c.op);
    let mut or = vec![0u8; n];
    for l in other.iter().chain(&all) {
        ensure!(shape(l) == sh, "shape", "{:?} {:?} {:.200?}: party {} receives other messages (from, size) in another repetition:\n {sh:?}\n {:?}", c.be, c.ty, c.op, c.who, shape(l));
        or.iter_mut().zip(flat(l)).for_each(|(a, b)| *a |= b);
    }
    let pad: Vec<bool> = (0..n * 8).map(|i| or[i / 8] >> (i % 8) & 1 == 0).collect();
    let samples: Vec<Vec<u8>> = all.iter().map(|l| flat(l)).collect();
    let p = Prog { ops: vec![c.op.clone()], ..base };
    let name = namer(&p, c.who, &sh);
    let mut rng = Rng64::new(c.seed);
    let what = format!("{:?} {:?}, repeating an operation on the same inputs, party {} receives", c.be, c.ty, c.who);
    let k = uniform(&what, &samples, &pad, &mut rng, &name)?;
    distinct(&what, &samples, &pad, &name)?;
    Ok(Outcome::ok(k > 0).evals(m as u64).label(format!("{:?}", c.be)))
}

// ------------------------------------------------------------------------------------------------ dealer

/// Dealer-made shares of one value, over many seeds of the dealer.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DCase {
    be: Be,
    ty: Ty,
    vals: Vec<u128>,
    key: u128,
    seed: u64,
}
fn gen_dealer(s: &mut Src, i: u64) -> DCase {
    let be = BES[(i % 4) as usize];
    let ty = pick_ty(s, be);
    let n = s.usize(1, 2);
    DCase { be, ty, vals: gen_vals(s, ty.k(), n), key: s.value(64) | 1, seed: s.u64() }
}
fn run_dealer(c: &DCase) -> Check {
    // component bits: value ring K, or the larger ring of SpdzWise
    let run = |seed: u64, vals: &[u128]| -> Result<Vec<Vec<u8>>, Fail> {
        let p = Prog { be: c.be, ty: c.ty, key: c.key, own_key: false, ops: vals.iter().enumerate().map(|(i, v)| Op::Share { vals: vec![*v], seed: mix(seed ^ i as u64) }).collect() };
        let r = run_prog(&p, &[], &SimCfg { entropy: c.seed, ..Default::default() }, &Sched::PLAIN);
        r.ends
            .into_iter()
            .map(|e| match e {
                PartyEnd::Done(t) if t.err.is_none() => Ok(t.arith.iter().flatten().flat_map(|x| x.to_le_bytes()).collect()),
                e => fail("error", format!("{e:.200?}")),
            })
            .collect()
    };
    let bits = |n: usize| n + 80;
    let one = run(c.seed, &c.vals)?;
    let mut view: Vec<Vec<Vec<u8>>> = vec![vec![]; 3];
    let m = bits(one[0].len() * 8).clamp(256, 600);
    for k in 0..m {
        for (p, v) in run(mix(c.seed ^ mix(k as u64)), &c.vals)?.into_iter().enumerate() {
            view[p].push(v);
        }
    }
    let mut n = 0;
    let mut rng = Rng64::new(c.seed);
    for (p, v) in view.iter().enumerate() {
        // unused high bits of the 128-bit representation
        let mut or = vec![0u8; v[0].len()];
        v.iter().for_each(|s| or.iter_mut().zip(s).for_each(|(a, b)| *a |= b));
        for k in 0..24u64 {
            let mut r = Rng64::new(c.seed ^ k);
            let o: Vec<u128> = c.vals.iter().map(|_| r.u128() & c.ty.mask()).collect();
            or.iter_mut().zip(&run(r.next(), &o)?[p]).for_each(|(a, b)| *a |= b);
        }
        let pad: Vec<bool> = (0..or.len() * 8).map(|i| or[i / 8] >> (i % 8) & 1 == 0).collect();
        let live = pad.iter().filter(|x| !**x).count();
        let comps = v[0].len() / 16;
        ensure!(live >= comps * c.ty.k(), "short", "{:?} {:?}: only {live} bits of the {comps} components of party {p}'s shares are ever 1", c.be, c.ty);
        n += uniform(&format!("{:?} {:?}, dealer shares of {:?}, party {p}", c.be, c.ty, c.vals), v, &pad, &mut rng, |i| format!("bit {} of component {}", i % 128, i / 128))?;
    }
    Ok(Outcome::ok(n > 0).evals(3 * m as u64).label(format!("{:?}", c.be)))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P14",
        level: "exploration",
        families: vec![
            Box::new(Fam { name: "messages", quick: 120, thorough: 4000, serial: false,
                rule: "Programs of 1-4 inputs, multiplications, dot products, comparisons and ORs over dealt shares and inputs held fixed (SpdzWise: without the last two), 256-480 sessions each, all backends and types: every bit a party receives (except bits that are 0 for all inputs) is balanced (9 standard deviations) and no sum of received bits is constant; number and sizes of the messages do not depend on the inputs. Non-trivial: something is received.",
                gen: gen_m, run: run_m }),
            Box::new(Fam { name: "batches", quick: 80, thorough: 3000, serial: false,
                rule: "The same with batches (up to 60 dot products, 20 comparisons, 300 ORs), 110 sessions: no bit is constant or biased, no two received bytes are copies of or at a fixed distance from one another. Non-trivial: something is received.",
                gen: gen_big, run: run_big }),
            Box::new(Fam { name: "repeats", quick: 60, thorough: 2500, serial: false,
                rule: "One operation repeated 256-480 times on the same dealt inputs within one session, all backends (SpdzWise mostly comparisons and ORs): the repetitions as the sample, same tests. Non-trivial: something is received.",
                gen: gen_repeat, run: run_repeat }),
            Box::new(Fam { name: "given-own-view", quick: 60, thorough: 2000, serial: false,
                rule: "Semi-honest ABY3 and SpdzWise: the same with all randomness the observed party knows held fixed (only the randomness of one other party varies, chosen so that the observed party's own messages do not change). Non-trivial: such a party exists and something is received.",
                gen: gen_given, run: run_given }),
            Box::new(Fam { name: "dealer-shares", quick: 60, thorough: 2000, serial: false,
                rule: "Dealer-made shares of 1-2 values, 256-600 dealer seeds: everything one party gets is jointly uniform (balanced bits, no constant sum of bits). Every case is non-trivial.",
                gen: gen_dealer, run: run_dealer }),
        ],
        assumptions: vec![
            "bits are tested for balance and affine relations over GF(2), bytes for fixed differences; other dependencies are not looked for",
            "64-byte hash messages and in MalAby3's inputs the values two parties repeat to each other, and everything outside these kinds of operation (set-up, triples, verification, openings) are not data messages",
        ],
    }]
}
