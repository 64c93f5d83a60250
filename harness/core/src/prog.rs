//! Programs over shares: representation, generator, plaintext model and the per-party interpreter.

use crate::glue::*;
use crate::sim::*;
use iris_mpc::prelude::Error;
use serde::{Deserialize, Serialize};
use std::rc::Rc;
use vengine::{mix, Rng64, Src};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// Dealer-made shares of the values.
    Share { vals: Vec<u128>, seed: u64 },
    /// Party `who` inputs `val`.
    Input { who: usize, val: u128 },
    /// Dealer-made bit shares.
    Bits { vals: Vec<bool>, seed: u64 },
    Add(usize, usize),
    Sub(usize, usize),
    AddC(usize, u128),
    SubC(usize, u128),
    MulC(usize, u128),
    Mul(usize, usize),
    Dot(Vec<(usize, usize)>),
    DotMany(Vec<Vec<(usize, usize)>>),
    Msb(usize),
    MsbMany(Vec<usize>),
    Or(usize, usize),
    OrReduce { regs: Vec<usize>, chunk: usize },
    Open(usize),
    OpenMany(Vec<usize>),
    OpenBit(usize),
    OpenBitMany(Vec<usize>),
    Verify,
    /// Precompute triples for at least this many AND gates (no-op except in SpdzWise).
    Precompute(usize),
    /// Run the set-up again.
    Preprocess,
    /// Mixes this number into the randomness the parties draw from here on.
    Reseed(u64),
    /// Invalid calls; every party must get an error and stay usable.
    BadDot { a: Vec<usize>, b: Vec<usize> },
    BadDotMany { a: Vec<Vec<usize>>, b: Vec<Vec<usize>> },
    BadInputId { who: usize },
    BadMaskedDot { len_a: usize, len_b: Vec<usize>, masks: usize, reg: usize },
    BadOrReduce { regs: Vec<usize>, chunk: usize },
    /// The owner passes no value (last operation of a program: the session is over afterwards).
    NoInput { who: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Prog {
    pub be: Be,
    pub ty: Ty,
    pub key: u128,
    /// SpdzWise: use the parties' own key generation instead of a dealt key.
    pub own_key: bool,
    pub ops: Vec<Op>,
}

/// A deviation of the corrupt party's own state after an operation: component `comp` of output register
/// `reg` of operation `op` is increased by `delta` (ring) or flipped (bits).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dev {
    pub party: usize,
    pub op: usize,
    pub reg: usize,
    pub comp: usize,
    pub delta: u128,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    Val(usize, Vec<u128>),
    Bits(usize, Vec<bool>),
    BadErr(usize, String),
    BadOk(usize),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Trace {
    pub obs: Vec<Obs>,
    pub arith: Vec<Vec<u128>>,
    pub bits: Vec<Vec<bool>>,
    /// (op index, error kind) of the operation that ended the program.
    pub err: Option<(usize, String)>,
    pub key: Option<(u128, u128)>,
    pub setup_ok: bool,
    pub finished: bool,
}

/// Plain wrapping-integer interpretation.
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub regs: Vec<u128>,
    pub bits: Vec<bool>,
    pub obs: Vec<Obs>,
    /// Number of arithmetic / bit registers after each operation.
    pub marks: Vec<(usize, usize)>,
}

fn at<T: Copy>(v: &[T], i: usize) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v[i % v.len()])
    }
}

pub fn model(p: &Prog) -> Model {
    let k = p.ty.k();
    let m = mask(k);
    let msb = |v: u128| (v >> (k - 1)) & 1 == 1;
    let mut s = Model::default();
    for (i, op) in p.ops.iter().enumerate() {
        match op {
            Op::Share { vals, .. } => s.regs.extend(vals.iter().map(|v| v & m)),
            Op::Input { val, .. } => s.regs.push(val & m),
            Op::Bits { vals, .. } => s.bits.extend(vals.iter().copied()),
            Op::Add(a, b) => {
                if let (Some(a), Some(b)) = (at(&s.regs, *a), at(&s.regs, *b)) {
                    s.regs.push(a.wrapping_add(b) & m)
                }
            }
            Op::Sub(a, b) => {
                if let (Some(a), Some(b)) = (at(&s.regs, *a), at(&s.regs, *b)) {
                    s.regs.push(a.wrapping_sub(b) & m)
                }
            }
            Op::AddC(a, c) => {
                if let Some(a) = at(&s.regs, *a) {
                    s.regs.push(a.wrapping_add(*c) & m)
                }
            }
            Op::SubC(a, c) => {
                if let Some(a) = at(&s.regs, *a) {
                    s.regs.push(a.wrapping_sub(*c) & m)
                }
            }
            Op::MulC(a, c) => {
                if let Some(a) = at(&s.regs, *a) {
                    s.regs.push(a.wrapping_mul(*c) & m)
                }
            }
            Op::Mul(a, b) => {
                if let (Some(a), Some(b)) = (at(&s.regs, *a), at(&s.regs, *b)) {
                    s.regs.push(a.wrapping_mul(b) & m)
                }
            }
            Op::Dot(l) => {
                if !s.regs.is_empty() {
                    let v = l.iter().fold(0u128, |acc, (a, b)| {
                        acc.wrapping_add(at(&s.regs, *a).unwrap().wrapping_mul(at(&s.regs, *b).unwrap()))
                    });
                    s.regs.push(v & m)
                }
            }
            Op::DotMany(ls) => {
                if !s.regs.is_empty() {
                    let r = s.regs.clone();
                    for l in ls {
                        let v = l.iter().fold(0u128, |acc, (a, b)| {
                            acc.wrapping_add(at(&r, *a).unwrap().wrapping_mul(at(&r, *b).unwrap()))
                        });
                        s.regs.push(v & m)
                    }
                }
            }
            Op::Msb(a) => {
                if let Some(a) = at(&s.regs, *a) {
                    s.bits.push(msb(a))
                }
            }
            Op::MsbMany(l) => {
                if !s.regs.is_empty() {
                    let r: Vec<bool> = l.iter().map(|a| msb(at(&s.regs, *a).unwrap())).collect();
                    s.bits.extend(r)
                }
            }
            Op::Or(a, b) => {
                if let (Some(a), Some(b)) = (at(&s.bits, *a), at(&s.bits, *b)) {
                    s.bits.push(a | b)
                }
            }
            Op::OrReduce { regs, .. } => {
                if !s.bits.is_empty() && !regs.is_empty() {
                    let v = regs.iter().any(|a| at(&s.bits, *a).unwrap());
                    s.bits.push(v)
                }
            }
            Op::Open(a) => {
                if let Some(a) = at(&s.regs, *a) {
                    s.obs.push(Obs::Val(i, vec![a]))
                }
            }
            Op::OpenMany(l) => {
                if !s.regs.is_empty() {
                    let v = l.iter().map(|a| at(&s.regs, *a).unwrap()).collect();
                    s.obs.push(Obs::Val(i, v))
                }
            }
            Op::OpenBit(a) => {
                if let Some(a) = at(&s.bits, *a) {
                    s.obs.push(Obs::Bits(i, vec![a]))
                }
            }
            Op::OpenBitMany(l) => {
                if !s.bits.is_empty() {
                    let v = l.iter().map(|a| at(&s.bits, *a).unwrap()).collect();
                    s.obs.push(Obs::Bits(i, v))
                }
            }
            Op::Verify | Op::Precompute(_) | Op::Preprocess | Op::Reseed(_) => {}
            Op::BadDot { .. } | Op::BadDotMany { .. } | Op::BadMaskedDot { .. } => {
                if !s.regs.is_empty() {
                    s.obs.push(Obs::BadErr(i, String::new()))
                }
            }
            Op::BadInputId { .. } => s.obs.push(Obs::BadErr(i, String::new())),
            Op::BadOrReduce { regs, .. } => {
                if regs.is_empty() || !s.bits.is_empty() {
                    s.obs.push(Obs::BadErr(i, String::new()))
                }
            }
            Op::NoInput { .. } => {}
        }
        s.marks.push((s.regs.len(), s.bits.len()));
    }
    s
}

fn sel<T: Clone>(v: &[T], i: usize) -> T {
    v[i % v.len()].clone()
}

/// Dealer-made bit shares in the layout of the backend.
pub fn deal_bit<G: Glue>(v: bool, rng: &mut Rng64, id: usize) -> G::B {
    let r = rng.next();
    let (x, y) = (r & 1 == 1, r & 2 == 2);
    match G::BE {
        Be::Swift => {
            let z = r & 4 == 4;
            let beta = v ^ x ^ y ^ z; // alphas x,y,z
            let c = match id {
                0 => [x, z, beta],
                1 => [y, x, beta],
                _ => [z, y, beta],
            };
            G::from_bcomps(&c)
        }
        _ => {
            let s = [x, y, v ^ x ^ y];
            G::from_bcomps(&[s[id], s[(id + 2) % 3]])
        }
    }
}

/// Dealer-made share in the layout of the backend, without the code under test (cheap, for bulk data).
pub fn deal<G: Glue>(v: u128, key: u128, rng: &mut Rng64, id: usize) -> G::A {
    let m = mask(G::UK);
    let three = |v: u128, rng: &mut Rng64| {
        let (x, y) = (rng.u128() & m, rng.u128() & m);
        [x, y, v.wrapping_sub(x).wrapping_sub(y) & m]
    };
    match G::BE {
        Be::Swift => {
            let (x, y, z) = (rng.u128() & m, rng.u128() & m, rng.u128() & m);
            let beta = v.wrapping_add(x).wrapping_add(y).wrapping_add(z) & m;
            let c = match id {
                0 => [x, z, beta],
                1 => [y, x, beta],
                _ => [z, y, beta],
            };
            G::from_comps(&c)
        }
        Be::Spdz => {
            let s = three(v, rng);
            let t = three(v.wrapping_mul(key) & m, rng);
            G::from_comps(&[s[id], s[(id + 2) % 3], t[id], t[(id + 2) % 3]])
        }
        _ => {
            let s = three(v, rng);
            G::from_comps(&[s[id], s[(id + 2) % 3]])
        }
    }
}

pub async fn interp<G: Glue>(net: SimNet, p: Rc<Prog>, dev: Rc<Vec<Dev>>) -> Trace {
    let id = net.id;
    let mut t = Trace::default();
    let probe = net.clone();
    probe.mark();
    let mut g = G::new(net);
    if let Err(e) = g.preprocess().await {
        t.err = Some((usize::MAX, err_kind(&e)));
        return t;
    }
    let mut key = p.key & mask(G::UK);
    if G::BE == Be::Spdz {
        if p.own_key {
            g.set_new_mac_key();
            let (a, b) = g.key_share().unwrap();
            match probe.exchange(vec![a, b]).await {
                Some(parts) => key = parts.iter().fold(0u128, |s, x| s.wrapping_add(x[0])) & mask(G::UK),
                None => {
                    t.err = Some((usize::MAX, "Exchange".into()));
                    return t;
                }
            }
        } else {
            let sh = G::share(1, key, mix(p.key as u64 ^ 0x77));
            g.set_mac_key_share(sh[id].clone());
        }
    }
    t.key = g.key_share();
    t.setup_ok = true;
    let mut regs: Vec<G::A> = vec![];
    let mut bits: Vec<G::B> = vec![];
    for (i, op) in p.ops.iter().enumerate() {
        probe.mark();
        let (nr, nb) = (regs.len(), bits.len());
        let r: Result<(), Error> = step::<G>(&mut g, op, i, id, key, &mut regs, &mut bits, &mut t).await;
        if let Err(e) = r {
            t.err = Some((i, err_kind(&e)));
            return t;
        }
        if let Some(Obs::BadOk(_)) = t.obs.last() {
            // the session goes on with a call that should have been refused: nothing more to learn
            t.err = Some((i, "accepted".into()));
            return t;
        }
        for d in dev.iter() {
            if d.party == id && d.op == i {
                if regs.len() > nr {
                    let j = nr + d.reg % (regs.len() - nr);
                    let mut c = G::comps(&regs[j]);
                    let x = d.comp % c.len();
                    c[x] = c[x].wrapping_add(d.delta) & mask(G::UK);
                    regs[j] = G::from_comps(&c);
                }
                if bits.len() > nb {
                    let j = nb + d.reg % (bits.len() - nb);
                    let mut c = G::bcomps(&bits[j]);
                    let x = d.comp % c.len();
                    c[x] = !c[x];
                    bits[j] = G::from_bcomps(&c);
                }
            }
        }
        for r in &regs[nr..] {
            t.arith.push(G::comps(r));
        }
        for b in &bits[nb..] {
            t.bits.push(G::bcomps(b));
        }
    }
    probe.mark();
    match g.finish().await {
        Ok(()) => t.finished = true,
        Err(e) => t.err = Some((p.ops.len(), err_kind(&e))),
    }
    t
}

#[allow(clippy::too_many_arguments)]
async fn step<G: Glue>(
    g: &mut G,
    op: &Op,
    i: usize,
    id: usize,
    key: u128,
    regs: &mut Vec<G::A>,
    bits: &mut Vec<G::B>,
    t: &mut Trace,
) -> Result<(), Error> {
    let have = !regs.is_empty();
    let haveb = !bits.is_empty();
    match op {
        Op::Share { vals, seed } => {
            for (j, v) in vals.iter().enumerate() {
                let sh = G::share(*v, key, mix(*seed ^ mix(j as u64)));
                regs.push(sh[id].clone());
            }
        }
        Op::Input { who, val } => {
            let v = if *who == id { Some(*val) } else { None };
            regs.push(g.input(v, *who).await?);
        }
        Op::Bits { vals, seed } => {
            let mut r = Rng64::new(*seed);
            for v in vals {
                bits.push(deal_bit::<G>(*v, &mut r, id));
            }
        }
        Op::Add(a, b) if have => regs.push(g.add(sel(regs, *a), sel(regs, *b))),
        Op::Sub(a, b) if have => regs.push(g.sub(sel(regs, *a), sel(regs, *b))),
        Op::AddC(a, c) if have => regs.push(g.add_const(sel(regs, *a), *c)),
        Op::SubC(a, c) if have => regs.push(g.sub_const(sel(regs, *a), *c)),
        Op::MulC(a, c) if have => regs.push(g.mul_const(sel(regs, *a), *c)),
        Op::Mul(a, b) if have => {
            let r = g.mul(sel(regs, *a), sel(regs, *b)).await?;
            regs.push(r)
        }
        Op::Dot(l) if have => {
            let a = l.iter().map(|x| sel(regs, x.0)).collect();
            let b = l.iter().map(|x| sel(regs, x.1)).collect();
            let r = g.dot(a, b).await?;
            regs.push(r)
        }
        Op::DotMany(ls) if have => {
            let a = ls.iter().map(|l| l.iter().map(|x| sel(regs, x.0)).collect()).collect();
            let b = ls.iter().map(|l| l.iter().map(|x| sel(regs, x.1)).collect()).collect();
            let r = g.dot_many(a, b).await?;
            regs.extend(r)
        }
        Op::Msb(a) if have => {
            let r = g.msb(sel(regs, *a)).await?;
            bits.push(r)
        }
        Op::MsbMany(l) if have => {
            let r = g.msb_many(l.iter().map(|x| sel(regs, *x)).collect()).await?;
            bits.extend(r)
        }
        Op::Or(a, b) if haveb => {
            let r = g.or(sel(bits, *a), sel(bits, *b)).await?;
            bits.push(r)
        }
        Op::OrReduce { regs: l, chunk } if haveb && !l.is_empty() => {
            let r = g.or_reduce(l.iter().map(|x| sel(bits, *x)).collect(), *chunk).await?;
            bits.push(r)
        }
        Op::Open(a) if have => {
            let v = g.open(sel(regs, *a)).await?;
            t.obs.push(Obs::Val(i, vec![v]))
        }
        Op::OpenMany(l) if have => {
            let v = g.open_many(l.iter().map(|x| sel(regs, *x)).collect()).await?;
            t.obs.push(Obs::Val(i, v))
        }
        Op::OpenBit(a) if haveb => {
            let v = g.open_bit(sel(bits, *a)).await?;
            t.obs.push(Obs::Bits(i, vec![v]))
        }
        Op::OpenBitMany(l) if haveb => {
            let v = g.open_bit_many(l.iter().map(|x| sel(bits, *x)).collect()).await?;
            t.obs.push(Obs::Bits(i, v))
        }
        Op::Verify => g.verify().await?,
        Op::Precompute(n) => g.precompute(*n).await?,
        Op::Preprocess => g.preprocess().await?,
        Op::Reseed(x) => {
            if let Some(e) = getrandom::verif::swap(None) {
                getrandom::verif::swap(Some(mix(e ^ mix(*x))));
            }
        }
        Op::BadDot { a, b } if have => {
            let a = a.iter().map(|x| sel(regs, *x)).collect();
            let b = b.iter().map(|x| sel(regs, *x)).collect();
            bad(t, i, g.dot(a, b).await.map(|_| ()))
        }
        Op::BadDotMany { a, b } if have => {
            let a = a.iter().map(|l| l.iter().map(|x| sel(regs, *x)).collect()).collect();
            let b = b.iter().map(|l| l.iter().map(|x| sel(regs, *x)).collect()).collect();
            bad(t, i, g.dot_many(a, b).await.map(|_| ()))
        }
        Op::BadInputId { who } => bad(t, i, g.input(Some(1), *who).await.map(|_| ())),
        Op::BadOrReduce { regs: l, chunk } if l.is_empty() || haveb => {
            let l = l.iter().map(|x| sel(bits, *x)).collect();
            bad(t, i, g.or_reduce(l, *chunk).await.map(|_| ()))
        }
        Op::NoInput { who } => {
            g.input(None, *who).await?;
        }
        Op::BadMaskedDot { len_a, len_b, masks, reg } if have => {
            let x = sel(regs, *reg);
            let a = vec![x.clone(); *len_a];
            let b: Vec<_> = len_b.iter().map(|n| vec![x.clone(); *n]).collect();
            let m = vec![plain_reference::IrisCodeArray::ONES; *masks];
            bad(t, i, g.masked_dot_many(a, b, &m).await.map(|_| ()))
        }
        _ => {}
    }
    Ok(())
}

fn bad(t: &mut Trace, i: usize, r: Result<(), Error>) {
    t.obs.push(match r {
        Err(e) => Obs::BadErr(i, err_kind(&e)),
        Ok(()) => Obs::BadOk(i),
    })
}

pub fn run_generic<G: Glue>(p: &Prog, dev: &[Dev], cfg: &SimCfg, sched: &Sched) -> SimResult<Trace> {
    let p = Rc::new(p.clone());
    let dev = Rc::new(dev.to_vec());
    run(cfg, sched, move |net| Box::pin(interp::<G>(net, p.clone(), dev.clone())))
}

// ---------------------------------------------------------------------------------------------- generators

#[derive(Clone, Copy)]
pub struct GenOpt {
    pub ops: usize,
    pub bits: bool,
    pub arith: bool,
    pub opens: bool,
    pub inputs: bool,
    pub max_vec: usize,
    pub max_batch: usize,
}

/// AND-gate budget generously covering an operation (only SpdzWise needs it).
pub fn gates(p: &Prog, op: &Op) -> usize {
    let k = p.ty.k();
    match op {
        Op::Msb(_) => k * 20 + 256,
        Op::MsbMany(l) => (2 * k) * (l.len().div_ceil(128)) * 128 + 256,
        Op::Or(..) => 128,
        Op::OrReduce { regs, .. } => (regs.len().div_ceil(128) + 2) * 128 + 256,
        _ => 0,
    }
}

/// Inserts the triple precomputation a SpdzWise user has to request before each segment of gates.
pub fn with_budget(mut p: Prog) -> Prog {
    if p.be == Be::Swift {
        trim_swift(&mut p, 1);
    }
    if p.be != Be::Spdz {
        return p;
    }
    let mut out: Vec<Op> = vec![];
    let mut i = 0;
    while i < p.ops.len() {
        // segment up to and including the next Verify
        let mut j = i;
        while j < p.ops.len() && p.ops[j] != Op::Verify {
            j += 1;
        }
        let end = (j + 1).min(p.ops.len());
        let need: usize = p.ops[i..end].iter().map(|o| gates(&p, o)).sum();
        if need > 0 {
            out.push(Op::Precompute(need));
        }
        out.extend(p.ops[i..end].iter().cloned());
        i = end;
    }
    p.ops = out;
    p
}

/// Keeps the Swift3 proofs small: their cost grows faster than linearly with the gates registered since the
/// last verification.
pub fn trim_swift(p: &mut Prog, scale: usize) {
    let k = p.ty.k();
    let and_cap = 1500 * scale;
    let arith_cap = if k >= 64 { 60 } else { 120 } * scale;
    let mul_cap = if k >= 64 { 14 } else { 30 } * scale;
    let per = k * (2 + 2 * k.ilog2() as usize);
    // (4 * largest dot + 2) * number of dots determines the cost of the dot proof
    let dot_cost = |n: usize, size: usize| (4 * size + 2) * n;
    let (mut ands, mut muls, mut dots, mut size) = (and_cap, mul_cap, 0usize, 0usize);
    for op in p.ops.iter_mut() {
        match op {
            Op::Verify => (ands, muls, dots, size) = (and_cap, mul_cap, 0, 0),
            Op::Mul(a, b) => {
                if muls == 0 {
                    *op = Op::Add(*a, *b);
                } else {
                    muls -= 1;
                }
            }
            Op::Msb(a) => {
                if ands < per {
                    *op = Op::Open(*a);
                } else {
                    ands -= per;
                }
            }
            Op::MsbMany(l) => {
                l.truncate((ands / per).max(1));
                ands = ands.saturating_sub(per * l.len());
            }
            Op::OrReduce { regs, .. } => {
                regs.truncate(ands.max(1));
                ands = ands.saturating_sub(regs.len());
            }
            Op::Dot(l) => {
                while l.len() > 1 && dot_cost(dots + 1, size.max(l.len())) > arith_cap {
                    l.pop();
                }
                dots += 1;
                size = size.max(l.len());
                if dot_cost(dots, size) > 2 * arith_cap {
                    *op = Op::Verify;
                    (ands, muls, dots, size) = (and_cap, mul_cap, 0, 0);
                }
            }
            Op::DotMany(ls) => {
                ls.truncate((arith_cap / 12).max(1));
                let most = |ls: &Vec<Vec<(usize, usize)>>| ls.iter().map(|l| l.len()).max().unwrap_or(0);
                while most(ls) > 1 && dot_cost(dots + ls.len(), size.max(most(ls))) > arith_cap {
                    let m = most(ls);
                    for l in ls.iter_mut() {
                        l.truncate(m - 1);
                    }
                }
                dots += ls.len();
                size = size.max(most(ls));
                if dot_cost(dots, size) > 2 * arith_cap {
                    *op = Op::Verify;
                    (ands, muls, dots, size) = (and_cap, mul_cap, 0, 0);
                }
            }
            _ => {}
        }
    }
}

pub fn gen_vals(s: &mut Src, k: usize, n: usize) -> Vec<u128> {
    (0..n).map(|_| s.value(k)).collect()
}

fn idx(s: &mut Src) -> usize {
    s.below(24) as usize
}

pub fn gen_op(s: &mut Src, ty: Ty, o: &GenOpt) -> Op {
    let k = ty.k();
    let a = o.arith as u64;
    let b = o.bits as u64;
    let op = o.opens as u64;
    let inp = o.inputs as u64;
    let w = [
        2,           // Share
        3 * inp,     // Input
        2 * a,       // Add
        2 * a,       // Sub
        2 * a,       // AddC
        2 * a,       // SubC
        2 * a,       // MulC
        5 * a,       // Mul
        4 * a,       // Dot
        4 * a,       // DotMany
        2 * b,       // Msb
        3 * b,       // MsbMany
        2 * b,       // Or
        3 * b,       // OrReduce
        3 * op * a,  // Open
        2 * op * a,  // OpenMany
        2 * op * b,  // OpenBit
        2 * op * b,  // OpenBitMany
        2 * op,      // Verify
        2 * b,       // Bits
    ];
    match s.weighted(&w) {
        0 => {
            let n = s.usize(1, 3);
            Op::Share { vals: gen_vals(s, k, n), seed: s.u64() }
        }
        1 => Op::Input { who: s.usize(0, 2), val: s.value(k) },
        2 => Op::Add(idx(s), idx(s)),
        3 => Op::Sub(idx(s), idx(s)),
        4 => Op::AddC(idx(s), s.value(k)),
        5 => Op::SubC(idx(s), s.value(k)),
        6 => Op::MulC(idx(s), s.value(k)),
        7 => Op::Mul(idx(s), idx(s)),
        8 => {
            let n = s.usize(1, o.max_vec);
            Op::Dot((0..n).map(|_| (idx(s), idx(s))).collect())
        }
        9 => {
            let m = s.usize(1, o.max_batch);
            let n0 = s.usize(1, o.max_vec);
            let same = s.below(3) > 0;
            Op::DotMany(
                (0..m)
                    .map(|_| {
                        let n = if same { n0 } else { s.usize(1, o.max_vec) };
                        (0..n).map(|_| (idx(s), idx(s))).collect()
                    })
                    .collect(),
            )
        }
        10 => Op::Msb(idx(s)),
        11 => {
            let n = batch_len(s);
            Op::MsbMany((0..n).map(|_| idx(s)).collect())
        }
        12 => Op::Or(idx(s), idx(s)),
        13 => {
            let n = batch_len(s);
            Op::OrReduce { regs: (0..n).map(|_| s.below(400) as usize).collect(), chunk: chunk_len(s) }
        }
        14 => Op::Open(idx(s)),
        15 => {
            let n = s.usize(1, 4);
            Op::OpenMany((0..n).map(|_| idx(s)).collect())
        }
        16 => Op::OpenBit(idx(s)),
        17 => {
            let n = s.usize(1, 9);
            Op::OpenBitMany((0..n).map(|_| idx(s)).collect())
        }
        18 => Op::Verify,
        _ => {
            let n = batch_len(s);
            let dense = s.below(4);
            Op::Bits {
                vals: (0..n).map(|_| match dense { 0 => false, 1 => s.below(n as u64 + 1) == 0, _ => s.bool() }).collect(),
                seed: s.u64(),
            }
        }
    }
}

/// Batch sizes biased to the packing widths.
pub fn batch_len(s: &mut Src) -> usize {
    match s.below(10) {
        0..=4 => s.usize(1, 9),
        5 => s.usize(7, 17),
        6 => s.usize(30, 34),
        7 => s.usize(62, 66),
        8 => s.usize(126, 130),
        _ => s.usize(250, 260),
    }
}
pub fn chunk_len(s: &mut Src) -> usize {
    match s.below(4) {
        0 => 1,
        1 => s.usize(1, 5),
        2 => s.usize(1, 300),
        _ => s.pick(&[2usize, 64, 127, 128, 129, 4096, usize::MAX]),
    }
}

pub fn pick_ty(s: &mut Src, be: Be) -> Ty {
    s.pick(types(be))
}

pub fn gen_prog(s: &mut Src, be: Be, ty: Ty, o: &GenOpt) -> Prog {
    let n = s.usize(1, o.ops);
    let first = s.usize(1, 4);
    let mut ops = vec![Op::Share { vals: gen_vals(s, ty.k(), first), seed: s.u64() }];
    for _ in 0..n {
        ops.push(gen_op(s, ty, o));
    }
    let key = s.value(if be == Be::Spdz { if ty.k() >= 64 { 128 } else { 64 } } else { ty.k() });
    let own_key = s.one_in(5);
    Prog { be, ty, key, own_key, ops }
}

pub fn gen_sched(s: &mut Src) -> Sched {
    Sched {
        mode: s.below(4) as u8,
        seed: s.u64(),
        cap: s.pick(&[0u8, 8]),
        yield_on_send: s.bool(),
    }
}

// -------------------------------------------------------------------------------------------------- oracles

use vengine::{ensure, Fail};

/// All three parties finished without error, panic or deadlock.
pub fn expect_clean(p: &Prog, r: &SimResult<Trace>) -> Result<[Trace; 3], Fail> {
    let tag = format!("{:?}", p.be);
    let mut out: Vec<Trace> = vec![];
    for (i, e) in r.ends.iter().enumerate() {
        match e {
            PartyEnd::Done(t) => {
                if let Some((op, k)) = &t.err {
                    // report the root error first
                    return Err(Fail {
                        kind: format!("error-{tag}-{}", root_err(r)),
                        msg: format!("party {i} got error {k} at op {op} ({:?}) in an honest run", p.ops.get(*op)),
                    });
                }
                out.push(t.clone());
            }
            PartyEnd::Panic(m) => {
                return Err(Fail { kind: format!("panic-{tag}"), msg: format!("party {i} panicked: {m}") })
            }
            PartyEnd::Killed => return Err(Fail { kind: "killed".into(), msg: "killed".into() }),
            PartyEnd::Stuck(w) => {
                // a panic elsewhere explains the wait better
                if let Some(m) = r.ends.iter().find_map(|e| if let PartyEnd::Panic(m) = e { Some(m) } else { None }) {
                    return Err(Fail { kind: format!("panic-{tag}"), msg: format!("panicked: {m}") });
                }
                return Err(Fail { kind: format!("deadlock-{tag}"), msg: format!("party {i} waits forever: {w}") });
            }
        }
    }
    Ok([out[0].clone(), out[1].clone(), out[2].clone()])
}

fn root_err(r: &SimResult<Trace>) -> String {
    let mut best: Option<(usize, bool, String)> = None;
    for e in &r.ends {
        if let PartyEnd::Done(t) = e {
            if let Some((op, k)) = &t.err {
                let io = k == "IOError";
                let c = (*op, io, k.clone());
                if best.as_ref().map(|b| (b.1, b.0) > (c.1, c.0)).unwrap_or(true) {
                    best = Some(c);
                }
            }
        }
        if let PartyEnd::Panic(_) = e {
            return "panic".into();
        }
    }
    best.map(|b| b.2).unwrap_or_default()
}

/// Opened values and reported errors of one party against the model.
pub fn check_obs(p: &Prog, m: &Model, t: &Trace, party: usize) -> Result<(), Fail> {
    let tag = format!("{:?}", p.be);
    ensure!(t.obs.len() == m.obs.len(), format!("obs-{tag}"), "party {party}: {} observations, expected {}", t.obs.len(), m.obs.len());
    for (a, b) in t.obs.iter().zip(&m.obs) {
        check_one(p, a, b, party)?;
    }
    Ok(())
}
pub fn check_one(p: &Prog, a: &Obs, b: &Obs, party: usize) -> Result<(), Fail> {
    let tag = format!("{:?}", p.be);
    match (a, b) {
        (Obs::BadErr(i, _), Obs::BadErr(j, _)) => {
            ensure!(i == j, format!("obs-{tag}"), "op order")
        }
        (Obs::BadOk(i), _) => ensure!(false, format!("accepted-{tag}"), "party {party}: invalid call {:?} was accepted", p.ops[*i]),
        _ => {
            let i = match b {
                Obs::Val(i, _) | Obs::Bits(i, _) | Obs::BadErr(i, _) | Obs::BadOk(i) => *i,
            };
            ensure!(a == b, format!("value-{tag}"), "party {party} at op {i} {:?}: got {:?}, expected {:?}", p.ops[i], a, b)
        }
    }
    Ok(())
}

/// Consistency and value of every share register.
pub fn check_shares(p: &Prog, m: &Model, t: &[Trace; 3]) -> Result<u64, Fail> {
    let tag = format!("{:?}", p.be);
    let k = p.ty.k();
    let uk = if p.be == Be::Spdz { if k >= 64 { 128 } else { 64 } } else { k };
    let um = mask(uk);
    let mut n = 0;
    for i in 0..3 {
        ensure!(t[i].arith.len() == m.regs.len() && t[i].bits.len() == m.bits.len(), format!("regs-{tag}"), "register count");
    }
    let key = if p.be == Be::Spdz {
        let ks: Vec<(u128, u128)> = (0..3).map(|i| t[i].key.unwrap_or((0, 0))).collect();
        for i in 0..3 {
            ensure!(ks[i].0 == ks[(i + 1) % 3].1, format!("key-{tag}"), "key share components differ between parties {i} and {}", (i + 1) % 3);
        }
        let sum = ks.iter().fold(0u128, |s, x| s.wrapping_add(x.0)) & um;
        if !p.own_key {
            ensure!(sum == p.key & um, format!("key-{tag}"), "key reconstructs to {sum:x}, expected {:x}", p.key);
        }
        sum
    } else {
        0
    };
    for (ri, want) in m.regs.iter().enumerate() {
        n += 1;
        let c: Vec<&Vec<u128>> = (0..3).map(|i| &t[i].arith[ri]).collect();
        match p.be {
            Be::Swift => {
                ensure!(c[0][0] == c[1][1] && c[0][1] == c[2][0] && c[1][0] == c[2][1] && c[0][2] == c[1][2] && c[1][2] == c[2][2],
                    format!("replicated-{tag}"), "register {ri}: components differ {c:?}");
                let v = c[0][2].wrapping_sub(c[0][0]).wrapping_sub(c[0][1]).wrapping_sub(c[1][0]) & um;
                ensure!(v == *want, format!("sharing-{tag}"), "register {ri} holds {v:x}, expected {want:x}");
            }
            _ => {
                for i in 0..3 {
                    ensure!(c[i][0] == c[(i + 1) % 3][1], format!("replicated-{tag}"), "register {ri}: component of party {i} differs {c:?}");
                }
                let v = c.iter().fold(0u128, |s, x| s.wrapping_add(x[0])) & um;
                ensure!(v & mask(k) == *want, format!("sharing-{tag}"), "register {ri} holds {v:x}, expected {want:x}");
                if p.be == Be::Spdz {
                    for i in 0..3 {
                        ensure!(c[i][2] == c[(i + 1) % 3][3], format!("replicated-{tag}"), "register {ri}: tag component of party {i} differs");
                    }
                    let mac = c.iter().fold(0u128, |s, x| s.wrapping_add(x[2])) & um;
                    ensure!(mac == v.wrapping_mul(key) & um, format!("tag-{tag}"), "register {ri}: tag {mac:x} is not key {key:x} times value {v:x}");
                }
            }
        }
    }
    for (ri, want) in m.bits.iter().enumerate() {
        n += 1;
        let c: Vec<&Vec<bool>> = (0..3).map(|i| &t[i].bits[ri]).collect();
        let v = match p.be {
            Be::Swift => {
                ensure!(c[0][0] == c[1][1] && c[0][1] == c[2][0] && c[1][0] == c[2][1] && c[0][2] == c[1][2] && c[1][2] == c[2][2],
                    format!("replicated-{tag}"), "bit {ri}: components differ {c:?}");
                c[0][2] ^ c[0][0] ^ c[0][1] ^ c[1][0]
            }
            _ => {
                for i in 0..3 {
                    ensure!(c[i][0] == c[(i + 1) % 3][1], format!("replicated-{tag}"), "bit {ri}: component of party {i} differs {c:?}");
                }
                c[0][0] ^ c[1][0] ^ c[2][0]
            }
        };
        ensure!(v == *want, format!("sharing-{tag}"), "bit {ri} holds {v}, expected {want}");
    }
    Ok(n)
}

pub fn nontrivial(p: &Prog) -> bool {
    p.ops.iter().any(|o| {
        matches!(o, Op::Mul(..) | Op::Dot(_) | Op::DotMany(_) | Op::Msb(_) | Op::MsbMany(_) | Op::Or(..) | Op::OrReduce { .. })
    })
}
