//! P12: the multiplication proofs (AND, product, dot product) between prover and verifiers.
use iris_mpc::prelude::{Bit, RingImpl, Sharable};
use iris_mpc::verif_hooks::p12::{And, Dot, Mul, Party};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use vengine::*;

fn mk<R: RingImpl>(v: u128) -> R {
    let bits: Vec<_> = (0..R::K).map(|i| Bit::new(v >> i & 1 == 1).to_sharetype()).collect();
    R::from_bits(&bits).unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Kind {
    And,
    Mul,
    Dot,
}
/// Whose copy of an output share is wrong.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Who {
    Both,
    Prover,
    Next,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Len {
    Drop,
    Grow,
    Empty,
    Clear,
    Pad,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tam {
    None,
    Gate { g: u64, bit: u32, who: Who },
    TwoGates { g: u64, h: u64, bit: u32 },
    Operand { g: u64, bit: u32 },
    Proof { a: bool, i: u64, c: u64, bit: u32 },
    ProofLen { a: bool, i: u64, how: Len },
    ProofZero,
    ProofSwap { a: bool, i: u64, j: u64 },
    ProofOf(usize),
    Seed { i: u8, x: u8 },
    Ver { next: bool, part: u8, i: u64, c: u64, bit: u32 },
    VerLen { next: bool, i: u64, how: Len },
    VerSwap,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    k: usize,
    lens: Vec<usize>,
    style: u8,
    seed: u64,
    prover: usize,
    tam: Tam,
}

fn val(rng: &mut Rng64, style: u8, k: usize) -> u128 {
    let m = if k == 128 { u128::MAX } else { (1 << k) - 1 };
    let wide = |rng: &mut Rng64| (rng.next() as u128) << 64 | rng.next() as u128;
    let x = match style {
        0 => wide(rng),
        1 => match rng.next() % 6 { 0 => 0, 1 => 1, 2 => m, 3 => 1 << (k - 1), 4 => m >> 1, _ => wide(rng) },
        2 => if rng.next() % 4 == 0 { wide(rng) } else { 0 },
        _ => 0,
    };
    x & m
}
type G<T> = ([Vec<T>; 4], [T; 4]);

/// The view of the three parties on one gate.
fn gate(and: bool, len: usize, k: usize, style: u8, rng: &mut Rng64) -> [([Vec<u128>; 4], [u128; 4]); 3] {
    let m = if k == 128 { u128::MAX } else { (1 << k) - 1 };
    let mut v = |n: usize| -> Vec<u128> { (0..n).map(|_| val(rng, style, k)).collect() };
    let (x, y): ([Vec<u128>; 3], [Vec<u128>; 3]) = ([v(len), v(len), v(len)], [v(len), v(len), v(len)]);
    let r = v(3);
    let z: Vec<u128> = (0..3)
        .map(|i| {
            let p = (i + 2) % 3;
            let mut s = if and { r[i] ^ r[p] } else { r[i].wrapping_sub(r[p]) };
            for j in 0..len {
                if and {
                    s ^= (x[i][j] & y[i][j]) ^ (x[i][j] & y[p][j]) ^ (x[p][j] & y[i][j]);
                } else {
                    s = s.wrapping_add(x[i][j].wrapping_mul(y[i][j])).wrapping_add(x[i][j].wrapping_mul(y[p][j])).wrapping_add(x[p][j].wrapping_mul(y[i][j]));
                }
            }
            s & m
        })
        .collect();
    [0, 1, 2].map(|i| {
        let p = (i + 2) % 3;
        ([x[i].clone(), x[p].clone(), y[i].clone(), y[p].clone()], [r[i], r[p], z[i], z[p]])
    })
}

trait Val: Clone + PartialEq + DeserializeOwned + Serialize {
    fn flip(&mut self, c: u64, bit: u32);
    fn set(&mut self, how: Len);
    fn zero(&mut self);
    fn norm(&self) -> Self;
}
impl<T: RingImpl> Val for Vec<T> {
    fn flip(&mut self, c: u64, bit: u32) {
        // also coefficients the polynomial does not have yet
        let c = (c % (self.len() as u64 + 1)) as usize;
        if c == self.len() {
            self.push(T::zero());
        }
        self[c] += mk::<T>(1 << (bit % T::K as u32));
    }
    fn set(&mut self, how: Len) {
        match how {
            Len::Pad => self.extend([T::zero(), T::zero()]),
            _ => self.clear(),
        }
    }
    fn zero(&mut self) {
        *self = vec![T::zero(); self.len()];
    }
    fn norm(&self) -> Self {
        let n = self.iter().rposition(|x| !x.is_zero()).map_or(0, |i| i + 1);
        self[..n].to_vec()
    }
}
#[derive(Clone, PartialEq, Serialize, Deserialize)]
struct F(u64);
impl Val for F {
    fn flip(&mut self, _: u64, bit: u32) {
        self.0 ^= 1 << (bit % 64);
    }
    fn set(&mut self, how: Len) {
        if how != Len::Pad {
            self.0 = 0
        }
    }
    fn zero(&mut self) {
        self.0 = 0;
    }
    fn norm(&self) -> Self {
        self.clone()
    }
}
type Pr<V> = (Vec<V>, Vec<V>);
type Ve<V> = (Vec<V>, V, V);
fn norm<V: Val>(v: &[V]) -> Vec<V> {
    v.iter().map(|x| x.norm()).collect()
}
fn relen<V: Val>(v: &mut Vec<V>, i: u64, how: Len) {
    let n = v.len();
    if n == 0 {
        return;
    }
    let i = (i % n as u64) as usize;
    match how {
        Len::Drop => drop(v.remove(i)),
        Len::Grow => v.insert(i, v[i].clone()),
        Len::Clear => v.clear(),
        Len::Empty | Len::Pad => v[i].set(how),
    }
}
/// Alters a proof; says whether its value changed.
fn alter_proof<V: Val>(b: Vec<u8>, t: &Tam) -> (Vec<u8>, bool) {
    let p: Pr<V> = bincode::deserialize(&b).unwrap();
    let mut q = p.clone();
    match t {
        Tam::Proof { a, i, c, bit } => {
            let v = if *a { &mut q.1 } else { &mut q.0 };
            let n = v.len() as u64;
            if n > 0 {
                v[(i % n) as usize].flip(*c, *bit);
            }
        }
        Tam::ProofLen { a, i, how } => relen(if *a { &mut q.1 } else { &mut q.0 }, *i, *how),
        Tam::ProofZero => q.0.iter_mut().chain(q.1.iter_mut()).for_each(|x| x.zero()),
        Tam::ProofSwap { a, i, j } => {
            let v = if *a { &mut q.1 } else { &mut q.0 };
            let n = v.len() as u64;
            if n > 0 {
                v.swap((i % n) as usize, (j % n) as usize);
            }
        }
        _ => (),
    }
    let changed = norm(&p.0) != norm(&q.0) || norm(&p.1) != norm(&q.1);
    (bincode::serialize(&q).unwrap(), changed)
}
fn alter_ver<V: Val>(b: Vec<u8>, t: &Tam) -> (Vec<u8>, bool) {
    let p: Ve<V> = bincode::deserialize(&b).unwrap();
    let mut q = p.clone();
    match t {
        Tam::Ver { part, i, c, bit, .. } => match part % 3 {
            0 => {
                let n = q.0.len() as u64;
                if n > 0 {
                    q.0[(i % n) as usize].flip(*c, *bit);
                }
            }
            1 => q.1.flip(*c, *bit),
            _ => q.2.flip(*c, *bit),
        },
        Tam::VerLen { i, how, .. } => relen(&mut q.0, *i, *how),
        _ => (),
    }
    let changed = norm(&p.0) != norm(&q.0) || p.1.norm() != q.1.norm() || p.2.norm() != q.2.norm();
    (bincode::serialize(&q).unwrap(), changed)
}

fn go<P: Party, V: Val, T: RingImpl>(c: &Case, wrap: impl Fn(G<T>) -> P::Gate) -> Check {
    let mut rng = Rng64(c.seed);
    let n = c.lens.len();
    let and = c.kind == Kind::And;
    let mut gates: Vec<_> = c.lens.iter().map(|l| gate(and, *l, c.k, c.style, &mut rng)).collect();
    let (p, nx, pv) = (c.prover, (c.prover + 1) % 3, (c.prover + 2) % 3);
    let m = if c.k == 128 { u128::MAX } else { (1 << c.k) - 1 };
    let mut bad = false;
    let mut wrong = |g: u64, bit: u32, who: Who, neg: bool| {
        let d = 1u128 << (bit % c.k as u32);
        let g = &mut gates[(g % n as u64) as usize];
        let f = |x: u128| (if and { x ^ d } else if neg { x.wrapping_sub(d) } else { x.wrapping_add(d) }) & m;
        if who != Who::Next {
            g[p].1[2] = f(g[p].1[2]);
        }
        if who != Who::Prover {
            g[nx].1[3] = f(g[nx].1[3]);
        }
    };
    match &c.tam {
        Tam::Gate { g, bit, who } => {
            wrong(*g, *bit, *who, false);
            bad = true;
        }
        Tam::TwoGates { g, h, bit } if g % n as u64 != h % n as u64 => {
            // errors that cancel in a plain sum
            wrong(*g, *bit, Who::Both, false);
            wrong(*h, *bit, Who::Both, true);
            bad = true;
        }
        Tam::Operand { g, bit } => {
            // the prover computed with another operand than it shares with the next party
            let g = &mut gates[(g % n as u64) as usize];
            if let Some(x) = g[p].0[0].first_mut() {
                *x ^= 1 << (bit % c.k as u32);
                bad = true;
            }
        }
        _ => (),
    }
    let mut ps: [P; 3] = Default::default();
    for g in &gates {
        for i in 0..3 {
            let v = g[i].0.clone().map(|x| x.into_iter().map(mk).collect());
            ps[i].register(wrap((v, g[i].1.map(mk))));
        }
    }
    let want = if and { n * c.k } else { n };
    let mut par = vec![];
    for (i, q) in ps.iter_mut().enumerate() {
        ensure!(q.count() == want, "count", "{} gates counted, {want} registered", q.count());
        par.push(q.params());
        ensure!(par[i] == par[0], "params", "the parties derive different proof sizes: {par:?}");
        ensure!(par[i].0 * par[i].1 >= want, "params", "{par:?} do not hold {want} gates");
    }
    let (l, mm) = par[0];
    let pr = ps[p].setup(l, mm, rng.next(), rng.next());
    let who = if let Tam::ProofOf(o) = c.tam { o } else { p };
    let (mut seed, proof) = ps[who].prove(&pr, rng.next());
    let (proof, ch) = alter_proof::<V>(proof, &c.tam);
    bad |= ch;
    if who != p {
        // another party's statement, which random shares make a different one
        if c.style == 0 && c.k >= 64 && c.lens.iter().any(|l| *l > 0) {
            bad = true;
        } else {
            return Ok(Outcome::ok(false).label("same statement"));
        }
    }
    if let Tam::Seed { i, x } = c.tam {
        seed[i as usize % 32] ^= x;
        bad |= x != 0;
    }
    let label = |b: bool| format!("{:?}-{}-{}", c.kind, c.k, if b { "bad" } else { "honest" });
    let refused = |bad: bool, what: &str, e: &str| -> Check {
        ensure!(bad, "honest-refused", "{what} refuses an honest proof: {e}; {l} x {mm} for {want} gates");
        Ok(Outcome::ok(true).label(label(true)))
    };
    let vp = match ps[nx].check(&pr, true, &proof) {
        Ok(v) => v,
        Err(e) => return refused(bad, "the next party", &e.to_string()),
    };
    let vn = match ps[pv].check(&pr, false, &ps[pv].expand(l, mm, seed)) {
        Ok(v) => v,
        Err(e) => return refused(bad, "the previous party", &e.to_string()),
    };
    let next = matches!(c.tam, Tam::Ver { next: true, .. } | Tam::VerLen { next: true, .. });
    let (vp, c1) = if next { (vp, false) } else { alter_ver::<V>(vp, &c.tam) };
    let (vn, c2) = if next { alter_ver::<V>(vn, &c.tam) } else { (vn, false) };
    bad |= c1 || c2;
    let (vp, vn) = if matches!(c.tam, Tam::VerSwap) { (vn, vp) } else { (vp, vn) };
    // both verifiers can be the one that combines
    for who in [nx, pv] {
        match ps[who].combine(&pr, &vp, &vn) {
            Ok(()) => ensure!(!bad, "accepted", "party {who} accepts the proof of party {p} with {:?}; {l} x {mm} for {want} gates", c.tam),
            Err(e) => ensure!(bad, "honest-refused", "party {who} refuses the honest proof of party {p}: {e}; {l} x {mm} for {want} gates"),
        }
    }
    Ok(Outcome::ok(want > 0).label(label(bad)).evals(2))
}
fn mul<T: RingImpl>(c: &Case) -> Check
where
    Mul<T>: Party<Gate = [T; 8]>,
{
    go::<Mul<T>, Vec<T>, T>(c, |(v, o)| flat(v, o))
}
fn and<T: RingImpl>(c: &Case) -> Check {
    go::<And<T>, F, T>(c, |(v, o)| flat(v, o))
}
fn dot<T: RingImpl>(c: &Case) -> Check
where
    Dot<T>: Party<Gate = G<T>>,
{
    go::<Dot<T>, Vec<T>, T>(c, |g| g)
}
fn flat<T: RingImpl>(v: [Vec<T>; 4], o: [T; 4]) -> [T; 8] {
    let [a, b, c, d] = v.map(|mut x| x.pop().unwrap());
    let [e, f, g, h] = o;
    [a, b, c, d, e, f, g, h]
}
macro_rules! by_k {
    ($k:expr, $f:ident, $c:expr) => {
        match $k {
            8 => $f::<<u8 as Sharable>::Share>($c),
            16 => $f::<<u16 as Sharable>::Share>($c),
            32 => $f::<<u32 as Sharable>::Share>($c),
            64 => $f::<<u64 as Sharable>::Share>($c),
            _ => $f::<<u128 as Sharable>::Share>($c),
        }
    };
}
fn run(c: &Case) -> Check {
    match c.kind {
        Kind::And if c.k == 1 => and::<<Bit as Sharable>::Share>(c),
        Kind::And => by_k!(c.k, and, c),
        Kind::Mul => by_k!(c.k, mul, c),
        Kind::Dot => by_k!(c.k, dot, c),
    }
}

fn gen_len(s: &mut Src) -> Len {
    s.pick(&[Len::Drop, Len::Grow, Len::Empty, Len::Clear, Len::Pad])
}
fn gen_tam(s: &mut Src, prover: usize) -> Tam {
    let bit = if s.one_in(3) { 127 } else { s.below(128) as u32 };
    match s.below(16) {
        0..=2 => Tam::None,
        3 | 4 => Tam::Gate { g: s.u64(), bit, who: s.pick(&[Who::Both, Who::Both, Who::Prover, Who::Next]) },
        5 => Tam::TwoGates { g: s.u64(), h: s.u64(), bit },
        6 => Tam::Operand { g: s.u64(), bit },
        7 | 8 => Tam::Proof { a: s.bool(), i: s.u64(), c: s.u64(), bit },
        9 => Tam::ProofLen { a: s.bool(), i: s.u64(), how: gen_len(s) },
        10 => if s.one_in(4) { Tam::ProofZero } else { Tam::ProofSwap { a: s.bool(), i: s.u64(), j: s.u64() } },
        11 => Tam::ProofOf((prover + s.usize(1, 2)) % 3),
        12 => Tam::Seed { i: s.below(32) as u8, x: 1 << s.below(8) },
        13 | 14 => Tam::Ver { next: s.bool(), part: s.below(3) as u8, i: s.u64(), c: s.u64(), bit },
        _ => if s.one_in(5) { Tam::VerSwap } else { Tam::VerLen { next: s.bool(), i: s.u64(), how: gen_len(s) } },
    }
}
/// Numbers of gates around squares and powers of two.
fn gen_n(s: &mut Src, max: usize) -> usize {
    let n = match s.below(3) {
        0 => {
            let r = s.usize(1, 12);
            (r * r + s.usize(0, 2)).saturating_sub(1)
        }
        1 => ((1 << s.below(8)) + s.usize(0, 2)).saturating_sub(1),
        _ => s.usize(1, 20),
    };
    n.clamp(1, max)
}
fn gen_mul(s: &mut Src, i: u64) -> Case {
    let k = [8, 16, 32, 64, 128][(i % 5) as usize];
    let n = gen_n(s, 30);
    let prover = s.usize(0, 2);
    Case { kind: Kind::Mul, k, lens: vec![1; n], style: s.below(4) as u8, seed: s.u64(), prover, tam: gen_tam(s, prover) }
}
fn gen_dot(s: &mut Src, i: u64) -> Case {
    let k = [8, 16, 32, 64, 128][(i % 5) as usize];
    let n = gen_n(s, 8);
    let max = if n > 4 { 4 } else { 9 };
    let same = s.one_in(3);
    let one = s.usize(0, max);
    let lens = (0..n).map(|_| if same { one } else { s.usize(0, max) }).collect();
    let prover = s.usize(0, 2);
    Case { kind: Kind::Dot, k, lens, style: s.below(4) as u8, seed: s.u64(), prover, tam: gen_tam(s, prover) }
}
fn gen_and(s: &mut Src, i: u64) -> Case {
    let k = [1, 8, 16, 32, 64, 128][(i % 6) as usize];
    let n = gen_n(s, if k == 1 { 260 } else { 1 + 200 / k });
    let prover = s.usize(0, 2);
    Case { kind: Kind::And, k, lens: vec![1; n], style: s.below(4) as u8, seed: s.u64(), prover, tam: gen_tam(s, prover) }
}
pub fn props() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut families: Vec<Box<dyn Family>> = vec![
        Box::new(Fam { name: "products", quick: 1600, thorough: 60000, serial: false,
            rule: "1..30 product gates of random, boundary, sparse or zero shares over rings of 8 to 128 bits, registered with three parties; the proof of one of them checked by both others, unaltered or with one lie (output share, operand, proof, verification message, seed). Accepted exactly when nothing changed in value. Every case is non-trivial.",
            gen: gen_mul, run }),
        Box::new(Fam { name: "dot-products", quick: 350, thorough: 12000, serial: false,
            rule: "As products, with 1..8 dot products of mixed lengths 0..9.", gen: gen_dot, run }),
        Box::new(Fam { name: "ands", quick: 1600, thorough: 60000, serial: false,
            rule: "As products, with 1..260 AND gates on registers of 1 to 128 bits.", gen: gen_and, run }),
    ];
    #[cfg(feature = "sim")]
    families.extend(crate::s_proof::families());
    vec![Prop { id: "P12", level: "exploration", families, assumptions: vec!["the soundness error of the proofs (at most 2^-40 per lie) is neglected", "one lying party"] }]
}
