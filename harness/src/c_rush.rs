//! P04, P05, P23: a cheating party which sends late and uses what it has learned by then, or what it can foresee.
use crate::c_tamper::{gen_alter, gen_closed, judge, resolve, Spec};
use crate::disp::run_prog;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha12Rng;
use serde::{Deserialize, Serialize};
use vcore::glue::*;
use vcore::prog::*;
use vcore::sim::*;
use vengine::*;

/// The coin of ABY3-like protocols: the parties' 32-byte seeds added up.
fn coin(seeds: [&[u8]; 3]) -> [u8; 32] {
    let mut s = [0; 32];
    for x in seeds {
        s.iter_mut().zip(x).for_each(|(a, b)| *a ^= b);
    }
    s
}

/// The first 32-byte message that is at the same place on all three links i -> i+1, after message `j`.
fn find_coin(lens: &[Vec<usize>], at: [usize; 3]) -> Option<[usize; 3]> {
    (1..4).map(|k| at.map(|a| a + k)).find(|m| (0..3).all(|i| lens[i * 3 + (i + 1) % 3].get(m[i]) == Some(&32)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SacCase {
    prog: Prog,
    corrupt: usize,
    msg: u64,
    elem: u64,
    delta: u128,
    /// Do not wait for the coin, act as if the results were checked with this multiple of themselves.
    guess: Option<i8>,
    entropy: u64,
}
fn gen_sac(s: &mut Src, bits: bool, arith: bool) -> SacCase {
    let ty = pick_ty(s, Be::Mal);
    let mut prog = gen_closed(s, Be::Mal, ty, bits, arith);
    // links carry other messages while a party shares its input
    prog.ops.iter_mut().for_each(|o| {
        if let Op::Input { val, .. } = o {
            *o = Op::Share { vals: vec![*val], seed: s.u64() };
        }
    });
    let bit = s.below(ty.k() as u64);
    SacCase { prog, corrupt: s.usize(0, 2), msg: s.u64(), elem: s.u64(), delta: match s.below(3) { 0 => 1, 1 => 1 << bit, _ => s.value(ty.k()) | 1 }, guess: if s.one_in(4) { Some(s.pick(&[1i8, 1, -1, 0, 2])) } else { None }, entropy: s.u64() }
}
fn run_sac(c: &SacCase) -> Check {
    let m = model(&c.prog);
    let k = c.corrupt;
    let cfg = SimCfg { entropy: c.entropy, record: true, ..Default::default() };
    let dry = run_prog(&c.prog, &[], &cfg, &Sched::PLAIN);
    expect_clean(&c.prog, &dry)?;
    let next = |i: usize| (i + 1) % 3;
    // a multiplication message is followed by a coin; both are at the same distance from the start of the operation
    let mut cand = vec![];
    for o in 1..=c.prog.ops.len() {
        let start = |i: usize| dry.marks[i][o][next(i)];
        let end = dry.marks[k].get(o + 1).map(|x| x[next(k)]).unwrap_or(0);
        for d in 0..end.saturating_sub(start(k)) {
            let at = [0, 1, 2].map(|i| start(i) + d);
            let len = dry.lens[k * 3 + next(k)][at[k]];
            if len >= 16 && len % 16 == 0 {
                if let Some(x) = find_coin(&dry.lens, at) {
                    cand.push((o, at[k], x, len));
                }
            }
        }
    }
    if cand.is_empty() {
        return Ok(Outcome::ok(false).label("no coin"));
    }
    let (o, idx, x, len) = cand[(c.msg % cand.len() as u64) as usize];
    // the results and those they are checked with; binary gates work over 64 bits
    let wide = c.prog.ty.k() >= 32 && matches!(c.prog.ops[o - 1], Op::Mul(..) | Op::Dot(_) | Op::DotMany(_));
    let w = if wide { 16 } else { 8 };
    let n = len / (2 * w);
    if n == 0 {
        return Ok(Outcome::ok(false).label("no pair"));
    }
    let s = coin([0, 1, 2].map(|i| &dry.transcript[i * 3 + next(i)][x[i]][..]));
    let mut rng = ChaCha12Rng::from_seed(s);
    let r = match c.guess {
        Some(g) => g as i128 as u128,
        None if wide => rng.gen::<u128>(),
        None => rng.gen::<u64>() as u128,
    };
    let be = |v: u128| v.to_be_bytes()[16 - w..].to_vec();
    let e = (c.elem % n as u64) as usize;
    let alters = vec![
        Alter::AddBytes { at: (e * w) as u32, num: be(c.delta) },
        Alter::AddBytes { at: ((n + e) * w) as u32, num: be(c.delta.wrapping_mul(r)) },
    ];
    let mut cfg = SimCfg { entropy: c.entropy, ..Default::default() };
    let what = format!("message {idx} altered by {alters:?}, operation {}", o - 1);
    if c.guess.is_some() {
        cfg.faults = alters.into_iter().map(|alter| Fault { from: k, to: next(k), idx, alter }).collect();
    } else {
        cfg.rush = Some(Rush { from: k, to: next(k), idx, learn: ((k + 2) % 3, x[(k + 2) % 3]), alters });
    }
    let r = run_prog(&c.prog, &[], &cfg, &Sched::PLAIN);
    judge(&c.prog, &m, &r, k, &what)?;
    Ok(Outcome::ok(true).label(format!("{:?}", c.prog.ty)).label(if c.guess.is_some() { "coefficient guessed" } else if r.rushed { "coin learned" } else { "coin not yet sent" }))
}

// ------------------------------------------------------------------------------------- SpdzWise permutation

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PermCase {
    ty: Ty,
    corrupt: usize,
    bit: u64,
    bits: u64,
    entropy: u64,
}
fn gen_perm(s: &mut Src, _: u64) -> PermCase {
    PermCase { ty: s.pick(&[Ty::U16, Ty::U32, Ty::U64]), corrupt: s.usize(0, 2), bit: s.u64(), bits: s.range(1, 300), entropy: s.u64() }
}
/// One party makes some triples wrong, and those wrong which they will be checked with, once it knows the permutation.
fn run_perm(c: &PermCase) -> Check {
    let k = c.corrupt;
    let prog = Prog { be: Be::Spdz, ty: c.ty, key: 1, own_key: false, ops: vec![Op::Share { vals: vec![1], seed: 1 }, Op::Precompute(128)] };
    let cfg = SimCfg { entropy: c.entropy, record: true, ..Default::default() };
    let dry = run_prog(&prog, &[], &cfg, &Sched::PLAIN);
    expect_clean(&prog, &dry)?;
    let next = |i: usize| (i + 1) % 3;
    let at = [0, 1, 2].map(|i| dry.marks[i][2][next(i)]);
    let len = dry.lens[k * 3 + next(k)].get(at[k]).copied().unwrap_or(0);
    let x = match find_coin(&dry.lens, at) {
        Some(x) if len % 32 == 16 => x,
        _ => return Ok(Outcome::ok(false).label("no coin")),
    };
    let n = (len - 16) / 32;
    let total = (n + 1) * 128;
    let s = coin([0, 1, 2].map(|i| &dry.transcript[i * 3 + next(i)][x[i]][..]));
    let mut rng = ChaCha12Rng::from_seed(s);
    let mut perm: Vec<usize> = (0..total).collect();
    for j in 0..total {
        let i = rng.gen_range(j..total);
        perm.swap(i, j);
    }
    let flip = |b: usize| Alter::FlipBit(((b / 128 * 16 + 15 - b % 128 / 8) * 8 + b % 8) as u32);
    let mut alters = vec![];
    for i in 0..c.bits as usize {
        let b = (c.bit as usize).wrapping_add(i) % (n * 128);
        alters.push(flip(b));
        alters.push(flip(n * 128 + perm[b]));
    }
    let rush = Rush { from: k, to: next(k), idx: at[k], learn: ((k + 2) % 3, x[(k + 2) % 3]), alters };
    let r = run_prog(&prog, &[], &SimCfg { entropy: c.entropy, rush: Some(rush), ..Default::default() }, &Sched::PLAIN);
    if r.rushed {
        let ok = (0..3).filter(|i| *i != k && matches!(&r.ends[*i], PartyEnd::Done(t) if t.err.is_none())).count();
        ensure!(ok < 2, "rigged-triples", "party {k} makes {} of the precomputed triples wrong, having learned the permutation before it sent its shares; both honest parties accept them", c.bits);
    } else {
        expect_clean(&prog, &r)?;
    }
    Ok(Outcome::ok(true).label(if r.rushed { "coin learned" } else { "coin not yet sent" }))
}

// ------------------------------------------------------------------------------------------ foreseen checks

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ForeCase {
    ty: Ty,
    bits: bool,
    /// Rows of the proof, and which column to cheat in.
    l: usize,
    col: u64,
    seed: u64,
    entropy: u64,
}
fn gen_fore(s: &mut Src, bits: bool) -> ForeCase {
    let l = if bits { s.usize(66, 70) } else { s.usize(48, 52) };
    ForeCase { ty: s.pick(&[Ty::U8, Ty::U16, Ty::U32]), bits, l, col: s.u64(), seed: s.u64(), entropy: s.u64() }
}
/// A set of these GF(2) vectors with sum zero.
fn kernel(v: &[u64]) -> Option<Vec<usize>> {
    let mut basis: Vec<(u64, Vec<bool>)> = vec![];
    for (i, x) in v.iter().enumerate() {
        let mut x = *x;
        let mut c = vec![false; v.len()];
        c[i] = true;
        for (b, cb) in &basis {
            if x ^ b < x {
                x ^= b;
                c.iter_mut().zip(cb).for_each(|(a, b)| *a ^= b);
            }
        }
        if x == 0 {
            return Some((0..v.len()).filter(|i| c[*i]).collect());
        }
        basis.push((x, c));
        basis.sort_by(|a, b| b.0.cmp(&a.0));
    }
    None
}
/// In Swift3, party 0 makes gates wrong such that the errors add up to zero under coefficients which it works out
/// before it sends its shares, from the generator it has in common with the others.
fn run_fore(c: &ForeCase) -> Check {
    let n = c.l * c.l;
    let k = c.ty.k();
    let mut ops = vec![];
    let first = 8;
    if c.bits {
        let mut r = Rng64::new(c.seed);
        ops.push(Op::Bits { vals: (0..first).map(|_| r.next() & 1 == 1).collect(), seed: c.seed });
        ops.extend((0..n).map(|i| Op::Or(i % first, (i / first) % first)));
        ops.push(Op::Verify);
        ops.push(Op::OpenBitMany((first..first + n).collect()));
    } else {
        let mut r = Rng64::new(c.seed);
        ops.push(Op::Share { vals: (0..first).map(|_| r.next() as u128 & c.ty.mask()).collect(), seed: c.seed });
        ops.extend((0..n).map(|i| Op::Mul(i % first, (i / first) % first)));
        ops.push(Op::Verify);
        ops.push(Op::OpenMany((first..first + n).collect()));
    }
    let prog = Prog { be: Be::Swift, ty: c.ty, key: 1, own_key: false, ops };
    let m = model(&prog);
    // up to the verification
    let gates = Prog { ops: prog.ops[..1 + n].to_vec(), ..prog.clone() };
    let dry = run_prog(&gates, &[], &SimCfg { entropy: c.entropy, record: true, ..Default::default() }, &Sched::PLAIN);
    expect_clean(&gates, &dry)?;
    // the seed in common: the second half of each opening, after the commitments
    let mut seed = [0u8; 32];
    for i in 0..3 {
        let open = dry.transcript[i * 3 + (i + 1) % 3].iter().filter(|x| x.len() == 128).nth(1).map(|x| x[64..96].to_vec());
        let Some(open) = open else { return Ok(Outcome::ok(false).label("no seed")) };
        seed.iter_mut().zip(open).for_each(|(a, b)| *a ^= b);
    }
    // what is drawn from it during the gates, and then for the check
    let mut p = ChaCha12Rng::from_seed(seed);
    for _ in 0..n {
        match (c.bits, k) {
            (true, _) => drop(p.gen::<bool>()),
            (_, 8) => drop(p.gen::<u8>()),
            (_, 16) => drop(p.gen::<u16>()),
            _ => drop(p.gen::<u32>()),
        }
    }
    let mut t = ChaCha12Rng::from_seed(p.gen::<[u8; 32]>());
    // over extension rings only the lowest bits of the coefficients count for an error in the highest bit
    let gamma = (2.0 * c.l as f64).log2().ceil() as usize;
    let vecs: Vec<u64> = (0..c.l)
        .map(|_| match c.bits {
            true => t.gen::<u64>(),
            _ => (0..gamma + 40).fold(0, |a, i| {
                let x = match k {
                    8 => t.gen::<u8>() as u64,
                    16 => t.gen::<u16>() as u64,
                    _ => t.gen::<u32>() as u64,
                };
                a | (x & 1) << i
            }),
        })
        .collect();
    let Some(rows) = kernel(&vecs) else { return Ok(Outcome::ok(false).label("independent")) };
    let col = (c.col % c.l as u64) as usize;
    let mut faults = vec![];
    for j in &rows {
        let w = 2 + j * c.l + col;
        // the sharing of the product goes to party 1, what follows from it to party 2
        let bit = if c.bits { 0 } else { 7 };
        for to in [1, 2] {
            faults.push(Fault { from: 0, to, idx: dry.marks[0][w][to], alter: Alter::FlipBit(bit) });
        }
    }
    let r = run_prog(&prog, &[], &SimCfg { entropy: c.entropy, faults, ..Default::default() }, &Sched::PLAIN);
    judge(&prog, &m, &r, 0, &format!("{} gates wrong, in rows {rows:?} of column {col} of {} rows", rows.len(), c.l))?;
    Ok(Outcome::ok(r.fault_changed > 0).label(format!("{:?}", c.ty)))
}

// ------------------------------------------------------------------------------------- mimicked checks

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MimicCase {
    prog: Prog,
    corrupt: usize,
    spec: Spec,
    /// Alter any message; otherwise one of an operation in which messages are compared.
    anywhere: bool,
    first: bool,
    /// Whose messages to mimic: 0 the receiver's, 1 the next party's, 2 the previous party's.
    source: usize,
    entropy: u64,
}
fn gen_mimic(s: &mut Src, bits: bool, arith: bool) -> MimicCase {
    let be = [Be::Mal, Be::Spdz, Be::Swift][s.weighted(&[6, 2, 1])];
    let ty = pick_ty(s, be);
    let mut prog = gen_closed(s, be, ty, bits, arith);
    if bits && !s.one_in(3) {
        // gates alone
        let n = s.usize(2, 6);
        prog.ops = vec![Op::Bits { vals: (0..n).map(|_| s.bool()).collect(), seed: s.u64() }];
        let gates = s.usize(1, 3);
        prog.ops.extend((0..gates).map(|i| if s.bool() { Op::Or(s.usize(0, n - 1), n + i - 1) } else { Op::OrReduce { regs: (0..n + i).collect(), chunk: s.usize(1, 4) } }));
        prog.ops.push(Op::Verify);
        prog.ops.push(Op::OpenBitMany((n..n + gates).collect()));
        prog = with_budget(prog);
    }
    prog.key = crate::c_tamper::secret_key(s);
    prog.ops.iter_mut().for_each(|o| {
        if let Op::Input { val, .. } = o {
            *o = Op::Share { vals: vec![*val], seed: s.u64() };
        }
    });
    // mostly an early message, what is sent later is what the checks are about
    // what is left of the numbers afterwards are their lowest bits
    let alter = if s.bool() { Alter::AddElem { elem: s.below(6) as u32, width: s.pick(&[2u8, 4, 8, 8, 16]), delta: 1 } } else { gen_alter(s, false) };
    let spec = Spec { step: s.u64(), msg: if s.one_in(3) { s.u64() } else { s.below(10) }, alter, mirror: s.one_in(8) };
    MimicCase { prog, corrupt: s.usize(0, 2), spec, anywhere: s.one_in(5), first: !s.one_in(4), source: s.usize(0, 2), entropy: s.u64() }
}
/// A party alters a message and then sends, wherever an honest run has it send what another party sends as well,
/// what that party sends now.
fn run_mimic(c: &MimicCase) -> Check {
    let m = model(&c.prog);
    let k = c.corrupt;
    let cfg = SimCfg { entropy: c.entropy, record: true, ..Default::default() };
    let dry = run_prog(&c.prog, &[], &cfg, &Sched::PLAIN);
    expect_clean(&c.prog, &dry)?;
    // (receiver, index, sender, index): messages that are the same in an honest run
    let mut pairs = vec![];
    for to in (0..3).filter(|t| *t != k) {
        let src = match c.source {
            0 => to,
            x => (k + x) % 3,
        };
        let theirs: std::collections::HashMap<&[u8], usize> = dry.transcript[src * 3 + k].iter().enumerate().filter(|(_, d)| d.len() >= 16).map(|(i, d)| (&d[..], i)).collect();
        for (i, d) in dry.transcript[k * 3 + to].iter().enumerate() {
            if let Some(j) = theirs.get(&d[..]) {
                pairs.push((to, i, src, *j));
            }
        }
    }
    let in_ops = |w: usize| w >= 1 && w <= c.prog.ops.len();
    let mark = |w: usize, to: usize| dry.marks[k].get(w).map_or(usize::MAX, |x| x[to]);
    let compared = |w: usize| pairs.iter().any(|p: &(usize, usize, usize, usize)| (mark(w, p.0)..mark(w + 1, p.0)).contains(&p.1));
    let find = |f: &dyn Fn(usize) -> bool| resolve(&[c.spec.clone()], k, &dry.marks, &dry.lens, |w| in_ops(w) && f(w));
    let mut faults = find(&|w| c.anywhere || compared(w));
    if faults.is_empty() {
        faults = find(&|_| true);
    }
    if c.first && !c.anywhere {
        // the first message of the operation
        if let Some(f) = faults.first().cloned() {
            if let Some(w) = (1..=c.prog.ops.len()).find(|w| (mark(*w, f.to)..mark(*w + 1, f.to)).contains(&f.idx)) {
                let to = (k + 1) % 3;
                let ms = mark(w, to)..mark(w + 1, to).min(mark(w, to) + 3).min(dry.lens[k * 3 + to].len());
                if let Some(idx) = ms.into_iter().find(|i| dry.lens[k * 3 + to][*i] > 0) {
                    faults = vec![Fault { from: k, to, idx, alter: c.spec.alter.clone() }];
                }
            }
        }
    }
    if faults.is_empty() {
        return Ok(Outcome::ok(false).label("no message"));
    }
    let first = faults.len();
    let mut r;
    let mut rounds = 0;
    loop {
        r = run_prog(&c.prog, &[], &SimCfg { entropy: c.entropy, record: true, faults: faults.clone(), ..Default::default() }, &Sched::PLAIN);
        if rounds == 5 {
            break;
        }
        let mut news = false;
        for (to, idx, src, j) in &pairs {
            let Some(now) = r.transcript[src * 3 + k].get(*j) else { continue };
            if now[..] == dry.transcript[src * 3 + k][*j][..] || faults[..first].iter().any(|f| f.to == *to && f.idx == *idx) {
                continue;
            }
            let alter = Alter::Replace(now.to_vec());
            match faults.iter_mut().find(|f| f.to == *to && f.idx == *idx) {
                Some(f) if f.alter == alter => continue,
                Some(f) => f.alter = alter,
                None => faults.push(Fault { from: k, to: *to, idx: *idx, alter }),
            }
            news = true;
        }
        if !news {
            break;
        }
        rounds += 1;
    }
    let what = format!("{:?}, then mimicking {}: {:?}", c.spec, c.source, faults.iter().map(|f| (f.to, f.idx)).collect::<Vec<_>>());
    judge(&c.prog, &m, &r, k, &what)?;
    Ok(Outcome::ok(rounds > 0).label(format!("{:?}: {}", c.prog.be, if rounds > 0 { "mimicked" } else { "nothing to mimic" })))
}

pub fn p04() -> Vec<Box<dyn Family>> {
    vec![
        Box::new(Fam { name: "mimicked-checks", quick: 1500, thorough: 20000, serial: false,
            rule: "MalAby3/SpdzWise/Swift3 programs: a party alters a message and afterwards sends, wherever in an honest run it sends the same as another party (digests that are compared), what that party sends now. Judged as above. Non-trivial: a later message was replaced.",
            gen: |s, _| gen_mimic(s, false, true), run: run_mimic }),
        Box::new(Fam { name: "rushing-sacrifice", quick: 3000, thorough: 10000, serial: false,
            rule: "MalAby3 programs: a party holds back the message of a multiplication or dot product; if the coin it is checked with reaches it before anyone waits for that message, it adds an error to a result and the matching error to what the result is checked with (or it does so at once for a guessed coefficient). Judged as above. Non-trivial: a message with a following coin was held back.",
            gen: |s, _| gen_sac(s, false, true), run: run_sac }),
        Box::new(Fam { name: "foreseen-products", quick: 0, thorough: 16, serial: false,
            rule: "Swift3: about 2500 multiplications, of which party 0 makes those wrong whose errors cancel under the coefficients that the generator in common would give next. Judged as above. Non-trivial: messages changed.",
            gen: |s, _| gen_fore(s, false), run: run_fore }),
    ]
}
pub fn p05() -> Vec<Box<dyn Family>> {
    vec![
        Box::new(Fam { name: "mimicked-bits", quick: 500, thorough: 6000, serial: false,
            rule: "As P04's mimicked-checks over sign extraction, OR, OR-reduction and openings of bits. Non-trivial: a later message was replaced.",
            gen: |s, _| { let a = s.one_in(4); gen_mimic(s, true, a) }, run: run_mimic }),
        Box::new(Fam { name: "rushing-bits", quick: 300, thorough: 3000, serial: false,
            rule: "MalAby3 programs of bit operations: a party holds back the message for the triples of one; as in P04's rushing-sacrifice. Non-trivial: a message with a following coin was held back.",
            gen: |s, _| { let a = s.one_in(4); gen_sac(s, true, a) }, run: run_sac }),
        Box::new(Fam { name: "foreseen-gates", quick: 4, thorough: 200, serial: false,
            rule: "Swift3: about 4500 OR gates; as in P04's foreseen-products. Non-trivial: messages changed.",
            gen: |s, _| gen_fore(s, true), run: run_fore }),
    ]
}
pub fn p23() -> Vec<Box<dyn Family>> {
    vec![Box::new(Fam { name: "rushed-permutation", quick: 4, thorough: 200, serial: false,
        rule: "SpdzWise: a party holds back its message for the precomputed triples; if the coin for the permutation reaches it before anyone waits for that message, it makes triples wrong together with those they are checked with. No honest party accepts them. Non-trivial: the message was held back.",
        gen: gen_perm, run: run_perm })]
}
