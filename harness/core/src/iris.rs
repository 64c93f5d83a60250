//! Database query histories: compact representation, plaintext decision, per-party interpreter.
use crate::glue::*;
use crate::prog::deal;
use crate::sim::*;
use iris_mpc::prelude::Error;
use plain_reference::{IrisCode, IrisCodeArray};
use serde::{Deserialize, Serialize};
use std::rc::Rc;
use vengine::{mix, Rng64, Src};

pub const N_BITS: usize = IrisCodeArray::IRIS_CODE_SIZE;
pub const MIN_MASK: usize = plain_reference::MASK_THRESHOLD;

/// The match threshold for `w` usable bits, in exact integer arithmetic (34 percent, rounded down).
pub fn threshold(w: usize) -> usize {
    w * 34 / 100
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Entry {
    /// Ones of the combined mask (below the minimum: the query is rejected).
    pub w: usize,
    /// Differing bits inside the combined mask.
    pub d: usize,
    /// 0: scattered; 1: the differing bits are the first of the combined mask; 2: the last.
    pub layout: u8,
    pub seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Query { entries: Vec<Entry>, chunk: usize, qmask: usize, seed: u64 },
    /// One mask fewer/more than entries, no entries, or an entry of the wrong length.
    BadCount { seed: u64, extra: bool },
    Empty,
    BadLen { seed: u64, len: usize, pos: usize, n: usize, chunk: usize },
    BadQueryLen { seed: u64, len: usize },
    /// Query and all entries have the same wrong length.
    BadAllLen { seed: u64, len: usize, n: usize, chunk: usize },
    /// Chunk size zero.
    BadChunk { seed: u64, n: usize },
    Verify,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Hist {
    pub be: Be,
    pub ty: Ty,
    pub key: u128,
    pub own_key: bool,
    pub steps: Vec<Step>,
}

/// Deviation: after dealing, the corrupt party changes component `comp` of element `elem` of its share of the query
/// (entry None) or a database entry.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct IDev {
    pub party: usize,
    pub step: usize,
    pub entry: Option<usize>,
    pub elem: usize,
    pub comp: usize,
    pub delta: u128,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Bool(bool),
    Done,
    Err(String),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct ITrace {
    pub ans: Vec<Ans>,
    pub setup: Option<String>,
    pub finished: bool,
}

pub struct Plain {
    pub query: IrisCode,
    pub db: Vec<IrisCode>,
}

fn shuffled(r: &mut Rng64, v: &mut [usize]) {
    for i in (1..v.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
}

/// Materialises the codes of a query.
pub fn plain(entries: &[Entry], qmask: usize, seed: u64) -> Plain {
    let mut r = Rng64::new(seed);
    let need = entries.iter().map(|e| e.w).max().unwrap_or(0).max(qmask).min(N_BITS);
    let mut order: Vec<usize> = (0..N_BITS).collect();
    shuffled(&mut r, &mut order);
    let mut query = IrisCode::default();
    for i in 0..N_BITS {
        query.code.set_bit(i, r.next() & 1 == 1);
        query.mask.set_bit(i, false);
    }
    for i in &order[..need] {
        query.mask.set_bit(*i, true);
    }
    let mut db: Vec<IrisCode> = vec![];
    let mut made: std::collections::HashMap<(usize, usize, u8, u64), usize> = Default::default();
    for e in entries {
        // large databases repeat a few entries
        if let Some(k) = made.get(&(e.w, e.d, e.layout, e.seed)) {
            db.push(db[*k].clone());
            continue;
        }
        made.insert((e.w, e.d, e.layout, e.seed), db.len());
        let mut r = Rng64::new(e.seed);
        let mut c = IrisCode::default();
        let mut inside: Vec<usize> = order[..need].to_vec();
        shuffled(&mut r, &mut inside);
        inside.truncate(e.w.min(need));
        inside.sort();
        for i in 0..N_BITS {
            c.code.set_bit(i, query.code.get_bit(i));
            c.mask.set_bit(i, false);
        }
        for i in &inside {
            c.mask.set_bit(*i, true);
        }
        for i in &order[need..] {
            c.mask.set_bit(*i, r.next() & 1 == 1);
        }
        for i in 0..N_BITS {
            // bits outside the combined mask are free
            if !(c.mask.get_bit(i) && query.mask.get_bit(i)) {
                c.code.set_bit(i, r.next() & 1 == 1);
            }
        }
        let d = e.d.min(inside.len());
        match e.layout {
            0 => shuffled(&mut r, &mut inside),
            2 => inside.reverse(),
            _ => {}
        }
        for i in &inside[..d] {
            c.code.flip_bit(*i);
        }
        db.push(c);
    }
    Plain { query, db }
}

/// Expected answer per step.
pub fn expected(h: &Hist) -> Vec<Ans> {
    h.steps
        .iter()
        .map(|s| match s {
            Step::Query { entries, qmask, .. } => {
                let need = entries.iter().map(|e| e.w).max().unwrap_or(0).max(*qmask).min(N_BITS);
                if entries.iter().any(|e| e.w.min(need) < MIN_MASK) {
                    Ans::Err("MaskHWError".into())
                } else {
                    Ans::Bool(entries.iter().any(|e| e.d.min(e.w) < threshold(e.w)))
                }
            }
            Step::BadCount { .. } | Step::Empty | Step::BadLen { .. } | Step::BadQueryLen { .. } | Step::BadAllLen { .. } | Step::BadChunk { .. } => Ans::Err("Size".into()),
            Step::Verify => Ans::Done,
        })
        .collect()
}

/// The decision of the repository's plaintext reference (None where it panics on the mask).
pub fn reference(entries: &[Entry], qmask: usize, seed: u64) -> Option<bool> {
    let p = plain(entries, qmask, seed);
    if p.db.iter().any(|e| (p.query.mask & e.mask).count_ones() < MIN_MASK) {
        return None;
    }
    Some(p.db.iter().any(|e| p.query.is_close(e)))
}

fn deal_code<G: Glue>(c: &IrisCodeArray, n: usize, key: u128, seed: u64, id: usize) -> Vec<G::A> {
    let mut r = Rng64::new(seed);
    (0..n).map(|i| deal::<G>(if i < N_BITS { c.get_bit(i) as u128 } else { 0 }, key, &mut r, id)).collect()
}

pub async fn interp<G: Glue>(net: SimNet, h: Rc<Hist>, dev: Rc<Vec<IDev>>) -> ITrace {
    let id = net.id;
    let mut t = ITrace::default();
    let probe = net.clone();
    probe.mark();
    let mut g = match G::iris_new(net) {
        Ok(g) => g,
        Err(e) => {
            t.setup = Some(err_kind(&e));
            return t;
        }
    };
    if let Err(e) = G::iris_pre(&mut g).await {
        t.setup = Some(err_kind(&e));
        return t;
    }
    let mut key = h.key & mask(G::UK);
    if G::BE == Be::Spdz {
        if h.own_key {
            G::iris_new_key(&mut g);
            let (a, b) = G::iris_key_share(&g).unwrap();
            match probe.exchange(vec![a, b]).await {
                Some(parts) => key = parts.iter().fold(0u128, |s, x| s.wrapping_add(x[0])) & mask(G::UK),
                None => {
                    t.setup = Some("Exchange".into());
                    return t;
                }
            }
        } else {
            let sh = G::share(1, key, mix(h.key as u64 ^ 0x77));
            G::iris_set_key(&mut g, sh[id].clone());
        }
    }
    for (si, s) in h.steps.iter().enumerate() {
        probe.mark();
        let r: Result<Ans, Error> = match s {
            Step::Verify => G::iris_verify(&mut g).await.map(|_| Ans::Done),
            _ => {
                let (entries, chunk, qmask, seed): (Vec<Entry>, usize, usize, u64) = match s {
                    Step::Query { entries, chunk, qmask, seed } => (entries.clone(), *chunk, *qmask, *seed),
                    Step::BadCount { seed, .. } => (vec![Entry { w: 10000, d: 0, layout: 0, seed: *seed }], 1, 10000, *seed),
                    Step::BadLen { seed, n, chunk, .. } | Step::BadAllLen { seed, n, chunk, .. } => {
                        ((0..*n).map(|i| Entry { w: 10000, d: 0, layout: 0, seed: mix(*seed ^ i as u64) }).collect(), *chunk, 10000, *seed)
                    }
                    Step::BadChunk { seed, n } => {
                        ((0..*n).map(|i| Entry { w: 10000, d: 0, layout: 0, seed: mix(*seed ^ i as u64) }).collect(), 0, 10000, *seed)
                    }
                    Step::BadQueryLen { seed, .. } => (vec![Entry { w: 10000, d: 0, layout: 0, seed: *seed }], 1, 10000, *seed),
                    _ => (vec![], 1, 10000, 5),
                };
                let p = plain(&entries, qmask, seed);
                let qlen = match s {
                    Step::BadQueryLen { len, .. } | Step::BadAllLen { len, .. } => *len,
                    _ => N_BITS,
                };
                let mut q = deal_code::<G>(&p.query.code, qlen, key, mix(seed ^ 0x9999), id);
                let mut dealt: std::collections::HashMap<Entry, Vec<G::A>> = Default::default();
                let mut db: Vec<Vec<G::A>> = p
                    .db
                    .iter()
                    .enumerate()
                    .map(|(i, e)| {
                        let n = match s {
                            Step::BadLen { len, pos, n, .. } if pos % n == i => *len,
                            Step::BadAllLen { len, .. } => *len,
                            _ => N_BITS,
                        };
                        let make = || deal_code::<G>(&e.code, n, key, mix(seed ^ mix(i as u64 + 1)), id);
                        if p.db.len() <= 24 {
                            return make();
                        }
                        dealt.entry(entries[i].clone()).or_insert_with(make).clone()
                    })
                    .collect();
                for d in dev.iter().filter(|d| d.party == id && d.step == si) {
                    let v = match d.entry {
                        None => Some(&mut q),
                        Some(j) if !db.is_empty() => {
                            let n = db.len();
                            Some(&mut db[j % n])
                        }
                        _ => None,
                    };
                    if let Some(v) = v {
                        let n = v.len();
                        let mut c = G::comps(&v[d.elem % n]);
                        let x = d.comp % c.len();
                        c[x] = c[x].wrapping_add(d.delta) & mask(G::UK);
                        v[d.elem % n] = G::from_comps(&c);
                    }
                }
                let mut masks: Vec<IrisCodeArray> = p.db.iter().map(|e| e.mask).collect();
                if let Step::BadCount { extra, .. } = s {
                    if *extra {
                        masks.push(IrisCodeArray::ONES);
                    } else {
                        db.push(q.clone());
                    }
                }
                G::iris_query(&mut g, q, db, &p.query.mask, &masks, chunk).await.map(Ans::Bool)
            }
        };
        match r {
            Ok(a) => t.ans.push(a),
            Err(e) => {
                let k = err_kind(&e);
                t.ans.push(Ans::Err(k.clone()));
                let refused = matches!(k.as_str(), "MaskHWError" | "InvalidSizeError" | "InvalidCodeSizeError");
                if !refused {
                    return t;
                }
            }
        }
    }
    probe.mark();
    match G::iris_finish(g).await {
        Ok(()) => t.finished = true,
        Err(e) => t.setup = Some(err_kind(&e)),
    }
    t
}

/// The steps of a database query without its verification, for backends whose proof over 12800 products per
/// entry is out of reach here: masked dot products, distances, comparison, OR, opening. Only `Step::Query`.
pub async fn pipe<G: Glue>(net: SimNet, h: Rc<Hist>) -> ITrace {
    let id = net.id;
    let mut t = ITrace::default();
    let mut g = G::new(net);
    let r: Result<(), Error> = async {
        g.preprocess().await?;
        for s in &h.steps {
            let Step::Query { entries, chunk, qmask, seed } = s else { continue };
            let p = plain(entries, *qmask, *seed);
            let q = deal_code::<G>(&p.query.code, N_BITS, 0, mix(*seed ^ 0x9999), id);
            let db: Vec<Vec<G::A>> =
                p.db.iter().enumerate().map(|(i, e)| deal_code::<G>(&e.code, N_BITS, 0, mix(*seed ^ mix(i as u64 + 1)), id)).collect();
            let masks: Vec<IrisCodeArray> = p.db.iter().map(|e| p.query.mask & e.mask).collect();
            let mut bits = vec![];
            for (dbc, mc) in db.chunks(*chunk).zip(masks.chunks(*chunk)) {
                let dots = g.masked_dot_many(q.clone(), dbc.to_vec(), mc).await?;
                let mut diffs = vec![];
                for ((e, dot), m) in dbc.iter().zip(dots).zip(mc) {
                    let mut sum: Option<G::A> = None;
                    for i in 0..N_BITS {
                        if m.get_bit(i) {
                            let x = g.add(q[i].clone(), e[i].clone());
                            sum = Some(match sum {
                                None => x,
                                Some(s) => g.add(s, x),
                            });
                        }
                    }
                    let hd = g.sub(sum.unwrap(), g.mul_const(dot, 2));
                    diffs.push(g.sub_const(hd, threshold(m.count_ones()) as u128));
                }
                bits.extend(g.msb_many(diffs).await?);
            }
            let r = g.or_reduce(bits, *chunk).await?;
            t.ans.push(Ans::Bool(g.open_bit(r).await?));
        }
        Ok(())
    }
    .await;
    match r {
        Ok(()) => match g.finish().await {
            Ok(()) => t.finished = true,
            Err(e) => t.setup = Some(err_kind(&e)),
        },
        Err(e) => t.ans.push(Ans::Err(err_kind(&e))),
    }
    t
}
pub fn run_pipe<G: Glue>(h: &Hist, cfg: &SimCfg, sched: &Sched) -> SimResult<ITrace> {
    let h = Rc::new(h.clone());
    run(cfg, sched, move |net| Box::pin(pipe::<G>(net, h.clone())))
}

pub fn run_iris<G: Glue>(h: &Hist, dev: &[IDev], cfg: &SimCfg, sched: &Sched) -> SimResult<ITrace> {
    let h = Rc::new(h.clone());
    let dev = Rc::new(dev.to_vec());
    run(cfg, sched, move |net| Box::pin(interp::<G>(net, h.clone(), dev.clone())))
}

// ------------------------------------------------------------------------------------------------ generators

/// Types the query is possible with.
pub fn iris_types(be: Be) -> &'static [Ty] {
    match be {
        Be::Aby3 => &[Ty::U16, Ty::I16, Ty::U32, Ty::U64, Ty::U128],
        Be::Mal => &[Ty::U16, Ty::I16, Ty::U64],
        Be::Spdz => &[Ty::U16, Ty::I16, Ty::U32, Ty::U64],
        Be::Swift => &[Ty::U16, Ty::U32, Ty::U64, Ty::I16, Ty::U128],
    }
}

/// `matching`: 0 none, 1 exactly at most one candidate, 2 free.
pub fn gen_entry(s: &mut Src, allow_match: bool) -> Entry {
    let w = match s.below(8) {
        0 => MIN_MASK,
        1 => MIN_MASK + s.usize(1, 60),
        2 => N_BITS,
        3 => N_BITS - s.usize(1, 60),
        _ => s.usize(MIN_MASK, N_BITS),
    };
    let t = threshold(w);
    let d = if allow_match {
        match s.below(5) {
            0 => 0,
            1 => t - 1,
            2 => s.usize(0, t - 1),
            _ => t - s.usize(1, 3),
        }
    } else {
        match s.below(7) {
            0 | 1 => t,
            2 => t + 1,
            3 => w,
            4 => w / 2,
            _ => s.usize(t, w),
        }
    };
    Entry { w, d, layout: s.below(3) as u8, seed: s.u64() }
}

pub fn gen_query(s: &mut Src, max: usize) -> Step {
    let n = match s.below(4) {
        0 => 1,
        1 => s.usize(1, 3.min(max)),
        _ => s.usize(1, max),
    };
    // none, one (any position), or free
    let style = s.below(5);
    let pos = s.usize(0, n - 1);
    let mut entries: Vec<Entry> = (0..n)
        .map(|i| {
            let m = match style {
                0 | 1 => false,
                2 | 3 => i == pos,
                _ => s.bool(),
            };
            gen_entry(s, m)
        })
        .collect();
    if s.one_in(8) {
        // one pair with too few usable bits
        let p = s.usize(0, n - 1);
        entries[p].w = MIN_MASK - s.usize(1, 4);
        entries[p].d = entries[p].d.min(entries[p].w);
    }
    let chunk = match s.below(4) {
        0 => 1,
        1 => s.usize(1, n + 2),
        2 => n,
        _ => s.pick(&[2usize, 3, 64, 128, 300, usize::MAX]),
    };
    let wmax = entries.iter().map(|e| e.w).max().unwrap_or(0);
    let qmask = if s.bool() { wmax } else { s.usize(wmax, N_BITS) };
    Step::Query { entries, chunk, qmask, seed: s.u64() }
}
