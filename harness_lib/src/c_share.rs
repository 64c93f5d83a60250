//! P22: local operations on shares and share vectors.
use iris_mpc::prelude::{Aby3Share, Bit, RingImpl, Sharable, SpdzWiseShare, SpdzWiseVecShare, Swift3Share, VecShareTrait};
use num_traits::Zero;
use plain_reference::IrisCodeArray;
use serde::{Deserialize, Serialize};
use vengine::*;

fn mask(k: usize) -> u128 {
    if k >= 128 { u128::MAX } else { (1u128 << k) - 1 }
}
fn rd<R: RingImpl>(r: R) -> u128 {
    u128::from_sharetype(r.upgrade_to_128())
}
/// Element from its residue, bit by bit.
fn el<T: Sharable>(v: u128) -> T::Share {
    let k = <T::Share as RingImpl>::K;
    let bits: Vec<_> = (0..k).map(|i| Bit::new(v >> i & 1 == 1).to_sharetype()).collect();
    <T::Share as RingImpl>::from_bits(&bits).unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mode {
    Ring,
    Xor,
}

/// Three parties' components: ABY3 (a, b), Swift3 (a, b, c).
fn deal3(v: u128, k: usize, mode: Mode, r: &mut Rng64) -> [u128; 3] {
    let m = mask(k);
    let (x, y) = (r.u128() & m, r.u128() & m);
    match mode {
        Mode::Ring => [x, y, v.wrapping_sub(x).wrapping_sub(y) & m],
        Mode::Xor => [x, y, (v ^ x ^ y) & m],
    }
}
fn aby3<T: Sharable>(v: u128, mode: Mode, r: &mut Rng64) -> [Aby3Share<T>; 3] {
    let s = deal3(v, <T::Share as RingImpl>::K, mode, r);
    [0, 1, 2].map(|i: usize| Aby3Share::new(el::<T>(s[i]), el::<T>(s[(i + 2) % 3])))
}
fn swift<T: Sharable>(v: u128, mode: Mode, r: &mut Rng64) -> [Swift3Share<T>; 3] {
    let k = <T::Share as RingImpl>::K;
    let m = mask(k);
    let a = [r.u128() & m, r.u128() & m, r.u128() & m];
    let beta = match mode {
        Mode::Ring => v.wrapping_add(a[0]).wrapping_add(a[1]).wrapping_add(a[2]) & m,
        Mode::Xor => v ^ a[0] ^ a[1] ^ a[2],
    };
    [0, 1, 2].map(|i: usize| Swift3Share::new(el::<T>(a[i]), el::<T>(a[(i + 2) % 3]), el::<T>(beta)))
}
/// (value, replicated components agree)
fn rec_aby3<T: Sharable>(s: &[Aby3Share<T>], mode: Mode) -> (u128, bool) {
    let k = <T::Share as RingImpl>::K;
    let c: Vec<(u128, u128)> = s.iter().map(|x| { let (a, b) = x.clone().get_ab(); (rd(a), rd(b)) }).collect();
    let ok = (0..3).all(|i| c[i].1 == c[(i + 2) % 3].0);
    let v = match mode {
        Mode::Ring => c.iter().fold(0u128, |x, y| x.wrapping_add(y.0)) & mask(k),
        Mode::Xor => c.iter().fold(0u128, |x, y| x ^ y.0),
    };
    (v, ok)
}
fn rec_swift<T: Sharable>(s: &[Swift3Share<T>], mode: Mode) -> (u128, bool) {
    let k = <T::Share as RingImpl>::K;
    let c: Vec<(u128, u128, u128)> = s.iter().map(|x| { let (a, b, c) = x.clone().get_abc(); (rd(a), rd(b), rd(c)) }).collect();
    let ok = (0..3).all(|i| c[i].1 == c[(i + 2) % 3].0 && c[i].2 == c[0].2);
    let v = match mode {
        Mode::Ring => c.iter().fold(c[0].2, |x, y| x.wrapping_sub(y.0)) & mask(k),
        Mode::Xor => c.iter().fold(c[0].2, |x, y| x ^ y.0),
    };
    (v, ok)
}

type Line = (&'static str, u128, bool, u128);

macro_rules! lines {
    ($out:ident, $rec:ident, $mode:expr, $x:ident, $y:ident, $( $n:literal: |$p:ident, $q:ident| $e:expr => $want:expr );* $(;)?) => {
        $(
            let o: Vec<_> = (0..3).map(|i| { #[allow(unused)] let ($p, $q) = ($x[i].clone(), $y[i].clone()); $e }).collect();
            let (v, ok) = $rec(&o, $mode);
            $out.push(($n, v, ok, $want));
        )*
    };
}
macro_rules! both {
    ($t:ty, $deal:ident, $rec:ident, $v:ident, $w:ident, $c:ident, $s:ident, $seed:ident, $recbit:ident) => {{
        type R = <$t as Sharable>::Share;
        let m = mask(<R as RingImpl>::K);
        let k = <R as RingImpl>::K as u32;
        let mut r = Rng64::new($seed);
        let mut out: Vec<Line> = vec![];
        let e = || el::<$t>($c);
        {
            let (x, y) = ($deal::<$t>($v, Mode::Ring, &mut r), $deal::<$t>($w, Mode::Ring, &mut r));
            let (add, sub, mulc) = ($v.wrapping_add($w) & m, $v.wrapping_sub($w) & m, $v.wrapping_mul($c) & m);
            lines! { out, $rec, Mode::Ring, x, y,
                "dealt": |p, q| p => $v;
                "add": |p, q| p + q => add;
                "add ref": |p, q| p + &q => add;
                "add assign": |p, q| { let mut p = p; p += q; p } => add;
                "add assign ref": |p, q| { let mut p = p; p += &q; p } => add;
                "sub": |p, q| p - q => sub;
                "sub ref": |p, q| p - &q => sub;
                "sub assign": |p, q| { let mut p = p; p -= q; p } => sub;
                "sub assign ref": |p, q| { let mut p = p; p -= &q; p } => sub;
                "neg": |p, q| -p => $v.wrapping_neg() & m;
                "scale": |p, q| p * e() => mulc;
                "scale ref": |p, q| p * &e() => mulc;
                "scale assign": |p, q| { let mut p = p; p *= e(); p } => mulc;
                "scale assign ref": |p, q| { let mut p = p; p *= &e(); p } => mulc;
                "const * share": |p, q| e() * p => mulc;
                "const * share ref": |p, q| e() * &p => mulc;
                "add zero": |p, q| { let mut z = q; z.set_zero(); p + z } => $v;
                "zero": |p, q| { let mut z = p; z.set_zero(); z } => 0;
                "as_ref": |p, q| p.as_ref().clone() => $v;
            }
            if k > 1 {
                lines! { out, $rec, Mode::Ring, x, y,
                    "shl": |p, q| p << $s => ($v << $s) & m;
                    "shl assign": |p, q| { let mut p = p; p <<= $s; p } => ($v << $s) & m;
                }
            }
        }
        {
            let (x, y) = ($deal::<$t>($v, Mode::Xor, &mut r), $deal::<$t>($w, Mode::Xor, &mut r));
            lines! { out, $rec, Mode::Xor, x, y,
                "xor": |p, q| p ^ q => $v ^ $w;
                "xor ref": |p, q| p ^ &q => $v ^ $w;
                "xor assign": |p, q| { let mut p = p; p ^= q; p } => $v ^ $w;
                "xor assign ref": |p, q| { let mut p = p; p ^= &q; p } => $v ^ $w;
                "not": |p, q| !p => !$v & m;
                "mask": |p, q| p & e() => $v & $c;
                "mask ref": |p, q| p & &e() => $v & $c;
                "mask assign": |p, q| { let mut p = p; p &= e(); p } => $v & $c;
                "mask assign ref": |p, q| { let mut p = p; p &= &e(); p } => $v & $c;
                "const & share": |p, q| e() & p => $v & $c;
                "const & share ref": |p, q| e() & &p => $v & $c;
                "xor zero": |p, q| { let mut z = q; z.set_zero(); p ^ z } => $v;
            }
            if k > 1 {
                lines! { out, $rec, Mode::Xor, x, y,
                    "xor shl": |p, q| p << $s => ($v << $s) & m;
                    "xor shl assign": |p, q| { let mut p = p; p <<= $s; p } => ($v << $s) & m;
                }
            }
            let msb: Vec<_> = x.iter().map(|p| p.get_msb()).collect();
            let (b, ok) = $recbit(&msb, Mode::Xor);
            out.push(("get_msb", b, ok, $v >> (k - 1)));
        }
        let z = { let mut z = $deal::<$t>($v, Mode::Ring, &mut r)[0].clone(); z.set_zero(); z };
        out.push(("is_zero of zero", z.is_zero() as u128, true, 1));
        out
    }};
}

/// ABY3 only: local products, conversions to and from the verification ring, bits.
fn extra<T: Sharable>(v: u128, w: u128, seed: u64) -> Vec<Line> {
    let k = <T::Share as RingImpl>::K;
    let m = mask(k);
    let mut r = Rng64::new(seed ^ 0x99);
    let mut out: Vec<Line> = vec![];
    {
        let (x, y) = (aby3::<T>(v, Mode::Ring, &mut r), aby3::<T>(w, Mode::Ring, &mut r));
        let sum = |o: Vec<Aby3Share<T>>| -> (u128, bool) {
            let c: Vec<_> = o.into_iter().map(|x| x.get_ab()).map(|(a, b)| (rd(a), rd(b))).collect();
            (c.iter().fold(0u128, |a, b| a.wrapping_add(b.0)) & m, c.iter().all(|c| c.1 == 0))
        };
        let want = v.wrapping_mul(w) & m;
        let (a, ok) = sum((0..3).map(|i| x[i].clone() * y[i].clone()).collect());
        out.push(("local mul", a, ok, want));
        let (a, ok) = sum((0..3).map(|i| x[i].clone() * &y[i]).collect());
        out.push(("local mul ref", a, ok, want));
        let (a, ok) = sum((0..3).map(|i| { let mut t = x[i].clone(); t *= y[i].clone(); t }).collect());
        out.push(("local mul assign", a, ok, want));
        let (a, ok) = sum((0..3).map(|i| { let mut t = x[i].clone(); t *= &y[i]; t }).collect());
        out.push(("local mul assign ref", a, ok, want));
        // widening keeps the value modulo the narrow ring; narrowing undoes it
        let wide: Vec<_> = x.iter().map(|p| p.clone().to_verificationtype()).collect();
        let (a, ok) = rec_aby3(&wide, Mode::Ring);
        out.push(("to_verificationtype", a & m, ok, v));
        let back: Vec<_> = wide.into_iter().map(Aby3Share::<T>::from_verificationtype).collect();
        let (a, ok) = rec_aby3(&back, Mode::Ring);
        out.push(("from_verificationtype", a, ok, v));
    }
    let (x, y) = (aby3::<T>(v, Mode::Xor, &mut r), aby3::<T>(w, Mode::Xor, &mut r));
    let sum = |o: Vec<Aby3Share<T>>| -> (u128, bool) {
        let c: Vec<_> = o.into_iter().map(|x| x.get_ab()).map(|(a, b)| (rd(a), rd(b))).collect();
        (c.iter().fold(0u128, |a, b| a ^ b.0), c.iter().all(|c| c.1 == 0))
    };
    let (a, ok) = sum((0..3).map(|i| x[i].clone() & y[i].clone()).collect());
    out.push(("local and", a, ok, v & w));
    let (a, ok) = sum((0..3).map(|i| x[i].clone() & &y[i]).collect());
    out.push(("local and ref", a, ok, v & w));
    let (a, ok) = sum((0..3).map(|i| { let mut t = x[i].clone(); t &= y[i].clone(); t }).collect());
    out.push(("local and assign", a, ok, v & w));
    let (a, ok) = sum((0..3).map(|i| { let mut t = x[i].clone(); t &= &y[i]; t }).collect());
    out.push(("local and assign ref", a, ok, v & w));
    let bits: Vec<Vec<Aby3Share<Bit>>> = x.iter().map(|p| p.clone().to_bits()).collect();
    let mut got = 0;
    let mut ok = bits.iter().all(|b| b.len() == k);
    for i in 0..k.min(bits[0].len()) {
        let (b, o) = rec_aby3(&[bits[0][i].clone(), bits[1][i].clone(), bits[2][i].clone()], Mode::Xor);
        got |= b << i;
        ok &= o;
    }
    out.push(("to_bits", got, ok, v));
    for p in &x {
        let (a, b) = p.clone().get_ab();
        ok &= rd(p.clone().get_a()) == rd(a) && rd(p.clone().get_b()) == rd(b);
    }
    out.push(("parts", 0, ok, 0));
    out
}
/// SpdzWise: addition and zero on value and tag.
fn spdz<T: Sharable>(v: u128, w: u128, key: u128, seed: u64) -> Vec<Line> {
    let m = mask(<T::Share as RingImpl>::K);
    let mut r = Rng64::new(seed ^ 0x44);
    let mut mk = |v: u128| -> Vec<SpdzWiseShare<T>> {
        let (a, b) = (aby3::<T>(v, Mode::Ring, &mut r), aby3::<T>(v.wrapping_mul(key) & m, Mode::Ring, &mut r));
        a.into_iter().zip(b).map(|(a, b)| SpdzWiseShare::new(a, b)).collect()
    };
    let (x, y) = (mk(v), mk(w));
    let mut out: Vec<Line> = vec![];
    let mut push = |n: &'static str, o: Vec<SpdzWiseShare<T>>, want: u128| {
        let vals: Vec<_> = o.iter().map(|s| s.clone().get_value()).collect();
        let macs: Vec<_> = o.iter().map(|s| s.clone().get_mac()).collect();
        let (a, ok) = rec_aby3(&vals, Mode::Ring);
        let (t, ok2) = rec_aby3(&macs, Mode::Ring);
        let same = o.iter().zip(vals.iter().zip(&macs)).all(|(s, (v, m))| s.clone().get() == (v.clone(), m.clone()));
        out.push((n, a, ok && ok2 && same && t == a.wrapping_mul(key) & m, want));
    };
    push("spdz add", (0..3).map(|i| x[i].clone() + y[i].clone()).collect(), v.wrapping_add(w) & m);
    push("spdz add zero", (0..3).map(|i| x[i].clone() + Zero::zero()).collect(), v);
    push("spdz zero", (0..3).map(|_| SpdzWiseShare::<T>::zero()).collect(), 0);
    out.push(("spdz is_zero", SpdzWiseShare::<T>::zero().is_zero() as u128, true, 1));
    let one = SpdzWiseShare::<T>::new(Zero::zero(), Aby3Share::new(el::<T>(1), el::<T>(0)));
    out.push(("spdz is_zero of a bare tag", one.is_zero() as u128, true, 0));
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: usize,
    x: u128,
    y: u128,
    c: u128,
    shift: u32,
    seed: u64,
}
const TYPES: [&str; 8] = ["u8", "u16", "u32", "u64", "u128", "bit", "i16", "i64"];
const WIDTH: [usize; 8] = [8, 16, 32, 64, 128, 1, 16, 64];
fn gen(s: &mut Src, i: u64) -> Case {
    let ty = (i % 8) as usize;
    let k = WIDTH[ty];
    let val = |s: &mut Src| if k == 1 { s.below(2) as u128 } else { s.value(k) };
    Case { ty, x: val(s), y: val(s), c: val(s), shift: s.below(k as u64) as u32, seed: s.u64() }
}
fn run(c: &Case) -> Check {
    let Case { ty, x, y, c: k, shift, seed } = c.clone();
    macro_rules! on {
        ($t:ty) => {
            vec![
                ("Aby3", both!($t, aby3, rec_aby3, x, y, k, shift, seed, rec_aby3)),
                ("Swift3", both!($t, swift, rec_swift, x, y, k, shift, seed, rec_swift)),
                ("Aby3", extra::<$t>(x, y, seed)),
                ("SpdzWise", spdz::<$t>(x, y, k, seed)),
            ]
        };
    }
    let all: Vec<(&str, Vec<Line>)> = match ty {
        0 => on!(u8),
        1 => on!(u16),
        2 => on!(u32),
        3 => on!(u64),
        4 => on!(u128),
        5 => on!(Bit),
        6 => on!(i16),
        _ => on!(i64),
    };
    let mut n = 0;
    for (be, lines) in all {
        for (name, got, ok, want) in lines {
            n += 1;
            ensure!(ok, format!("form-{be}-{name}"), "{be}/{}: {name} leaves components that do not agree (x={x:#x} y={y:#x} c={k:#x})", TYPES[ty]);
            ensure!(got == want, format!("value-{be}-{name}"), "{be}/{}: {name} of x={x:#x} y={y:#x} c={k:#x} shift {shift}: shares {got:#x}, should be {want:#x}", TYPES[ty]);
        }
    }
    Ok(Outcome::ok(x > 1 || ty == 5).evals(n).label(TYPES[ty]))
}

// ------------------------------------------------------------------------------------------------ vectors

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum VOp {
    Push(u64),
    Extend(u64, usize),
    /// Keep the first or second half.
    Split(usize, bool),
    /// Chunk and glue together again.
    Chunks(usize),
    /// Keep one chunk.
    Pick(usize, usize),
    Set(usize, u64),
    Reserve(usize),
    Xor(u64, usize, bool),
    Shl(u32),
    /// Masked sums of a prefix of this vector and another one.
    Sum { seed: u64, mask: u64, other: usize },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VCase {
    be: u8,
    ty: u8,
    ops: Vec<VOp>,
}
fn gen_v(s: &mut Src, i: u64) -> VCase {
    let be = (i % 3) as u8;
    let n = s.usize(1, 25);
    let mut ops = vec![VOp::Extend(s.u64(), s.usize(0, 30))];
    for _ in 0..n {
        ops.push(match s.below(11) {
            0 => VOp::Push(s.u64()),
            1 | 2 => VOp::Extend(s.u64(), s.usize(0, 70)),
            3 => VOp::Split(s.u64() as usize, s.bool()),
            4 | 5 => VOp::Chunks(s.usize(1, 40)),
            6 => VOp::Pick(s.usize(1, 20), s.u64() as usize),
            7 => VOp::Set(s.u64() as usize, s.u64()),
            8 => if s.bool() { VOp::Xor(s.u64(), if s.one_in(4) { 1 } else { 0 }, s.bool()) } else { VOp::Shl(s.below(8) as u32) },
            9 => VOp::Reserve(s.usize(0, 100)),
            _ => VOp::Sum { seed: s.u64(), mask: s.u64(), other: if s.one_in(5) { 1 } else { 0 } },
        });
    }
    VCase { be, ty: s.below(3) as u8, ops }
}

trait Elem: Sized {
    type V: VecShareTrait<Share = Self> + PartialEq + std::fmt::Debug;
    const XOR: bool;
    const K: usize;
    const NAME: &'static str;
    fn mk(c: &[u128]) -> Self;
    fn comps(&self) -> Vec<u128>;
    const N: usize;
    /// Other ways to build and take apart the vector.
    fn build(v: Vec<Self>) -> Self::V;
    fn parts(v: &Self::V) -> Vec<Vec<u128>>;
}
impl<T: Sharable> Elem for Aby3Share<T> {
    type V = Vec<Self>;
    const XOR: bool = true;
    const K: usize = <T::Share as RingImpl>::K;
    const NAME: &'static str = "Aby3";
    const N: usize = 2;
    fn mk(c: &[u128]) -> Self {
        Aby3Share::new(el::<T>(c[0]), el::<T>(c[1]))
    }
    fn comps(&self) -> Vec<u128> {
        let (a, b) = self.clone().get_ab();
        vec![rd(a), rd(b)]
    }
    fn build(v: Vec<Self>) -> Vec<Self> {
        v
    }
    fn parts(v: &Vec<Self>) -> Vec<Vec<u128>> {
        v.iter().map(|e| e.comps()).collect()
    }
}
impl<T: Sharable> Elem for Swift3Share<T> {
    type V = Vec<Self>;
    const XOR: bool = true;
    const K: usize = <T::Share as RingImpl>::K;
    const NAME: &'static str = "Swift3";
    const N: usize = 3;
    fn mk(c: &[u128]) -> Self {
        Swift3Share::new(el::<T>(c[0]), el::<T>(c[1]), el::<T>(c[2]))
    }
    fn comps(&self) -> Vec<u128> {
        let (a, b, c) = self.clone().get_abc();
        vec![rd(a), rd(b), rd(c)]
    }
    fn build(v: Vec<Self>) -> Vec<Self> {
        v
    }
    fn parts(v: &Vec<Self>) -> Vec<Vec<u128>> {
        v.iter().map(|e| e.comps()).collect()
    }
}
impl<T: Sharable> Elem for SpdzWiseShare<T> {
    type V = SpdzWiseVecShare<T>;
    const XOR: bool = false;
    const K: usize = <T::Share as RingImpl>::K;
    const NAME: &'static str = "SpdzWise";
    const N: usize = 4;
    fn mk(c: &[u128]) -> Self {
        SpdzWiseShare::new(Aby3Share::mk(&c[..2]), Aby3Share::mk(&c[2..]))
    }
    fn comps(&self) -> Vec<u128> {
        let (a, b) = self.clone().get();
        [a.comps(), b.comps()].concat()
    }
    fn build(v: Vec<Self>) -> SpdzWiseVecShare<T> {
        let (a, b): (Vec<_>, Vec<_>) = v.iter().map(|s| s.clone().get()).unzip();
        let x = SpdzWiseVecShare::from_vec(v);
        assert!(x == SpdzWiseVecShare::new(a, b), "new and from_vec differ");
        x
    }
    fn parts(v: &SpdzWiseVecShare<T>) -> Vec<Vec<u128>> {
        let (a, b) = v.clone().get();
        assert!(a == v.clone().get_values() && b == v.clone().get_macs(), "parts differ");
        assert!(a.len() == b.len(), "values and tags have different lengths");
        a.iter().zip(&b).map(|(x, y)| [x.comps(), y.comps()].concat()).collect()
    }
}
fn fresh<E: Elem>(seed: u64, n: usize) -> Vec<Vec<u128>> {
    let mut r = Rng64::new(seed);
    (0..n).map(|_| (0..E::N).map(|_| r.u128() & mask(E::K)).collect()).collect()
}
fn vrun<E: Elem + Clone>(c: &VCase) -> Check {
    let tag = E::NAME;
    let mut v: E::V = VecShareTrait::with_capacity(c.ops.len());
    let mut m: Vec<Vec<u128>> = vec![];
    ensure!(v.len() == 0 && v.is_empty(), format!("new-{tag}"), "a fresh vector is not empty");
    let km = mask(E::K);
    let load = |x: &[Vec<u128>]| E::build(x.iter().map(|c| E::mk(c)).collect());
    let mut longest = 0;
    for (step, op) in c.ops.iter().enumerate() {
        match op {
            VOp::Push(s) => {
                let e = fresh::<E>(*s, 1).remove(0);
                VecShareTrait::push(&mut v, E::mk(&e));
                m.push(e);
            }
            VOp::Extend(s, n) => {
                let e = fresh::<E>(*s, *n);
                VecShareTrait::extend(&mut v, load(&e));
                m.extend(e);
            }
            VOp::Split(at, second) => {
                let at = at % (m.len() + 1);
                let (a, b) = VecShareTrait::split_at(&v, at);
                ensure!(E::parts(&a) == m[..at] && E::parts(&b) == m[at..], format!("split-{tag}"), "step {step}: split of {} at {at} is wrong", m.len());
                if m.len() > 20 {
                    v = if *second { b } else { a };
                    m = if *second { m[at..].to_vec() } else { m[..at].to_vec() };
                }
            }
            VOp::Chunks(n) => {
                let ch = VecShareTrait::chunks(v.clone(), *n);
                let want: Vec<Vec<Vec<u128>>> = m.chunks(*n).map(|x| x.to_vec()).collect();
                let got: Vec<_> = ch.iter().map(|x| E::parts(x)).collect();
                ensure!(got == want, format!("chunks-{tag}"), "step {step}: chunks of {} by {n} have lengths {:?}", m.len(), got.iter().map(|x| x.len()).collect::<Vec<_>>());
                v = VecShareTrait::with_capacity(0);
                for x in ch {
                    VecShareTrait::extend(&mut v, x);
                }
            }
            VOp::Pick(n, i) => {
                let mut ch = VecShareTrait::chunks(v.clone(), *n);
                if ch.len() > 3 {
                    let i = i % ch.len();
                    v = ch.swap_remove(i);
                    m = m.chunks(*n).nth(i).unwrap().to_vec();
                }
            }
            VOp::Set(i, s) => {
                if !m.is_empty() {
                    let e = fresh::<E>(*s, 1).remove(0);
                    VecShareTrait::set_at(&mut v, i % m.len(), E::mk(&e));
                    let l = m.len();
                    m[i % l] = e;
                }
            }
            VOp::Reserve(n) => VecShareTrait::reserve(&mut v, *n),
            VOp::Xor(s, off, in_place) => {
                if E::XOR {
                    let o = fresh::<E>(*s, m.len() + off);
                    let before = v.clone();
                    let r = if *in_place { v.xor_assign_many(load(&o)) } else { v.clone().xor_many(load(&o)) };
                    if *off == 0 {
                        for (a, b) in m.iter_mut().zip(&o) {
                            for (x, y) in a.iter_mut().zip(b) {
                                *x ^= y;
                            }
                        }
                        match r {
                            Ok(r) => {
                                if *in_place {
                                    ensure!(r == v, format!("xor-{tag}"), "step {step}: in-place xor returns something else");
                                }
                                v = r
                            }
                            Err(e) => return fail(format!("xor-{tag}"), format!("step {step}: xor of {} failed: {e:?}", m.len())),
                        }
                    } else {
                        ensure!(r.is_err() && v == before, format!("xor-{tag}"), "step {step}: xor of different lengths accepted");
                    }
                }
            }
            VOp::Shl(n) => {
                if E::XOR && (*n as usize) < E::K {
                    let r = v.shl_assign_many(*n);
                    ensure!(r == v, format!("shl-{tag}"), "step {step}: in-place shift returns something else");
                    for a in m.iter_mut() {
                        for x in a.iter_mut() {
                            *x = (*x << n) & km;
                        }
                    }
                }
            }
            VOp::Sum { seed, mask: ms, other } => {
                let o = fresh::<E>(*seed, m.len() + other);
                let mut im = IrisCodeArray::ZERO;
                let mut r = Rng64::new(*ms);
                let bits: Vec<bool> = (0..m.len() + 3).map(|_| r.next() % 3 != 0).collect();
                for (i, b) in bits.iter().enumerate() {
                    im.set_bit(i, *b);
                }
                let got = E::V::filter_reduce_add_twice(&v, &load(&o), &im);
                if m.is_empty() || *other != 0 {
                    ensure!(got.is_err(), format!("sum-{tag}"), "step {step}: sums of {} and {} elements accepted", m.len(), o.len());
                } else {
                    let sum = |x: &[Vec<u128>]| -> Vec<u128> {
                        (0..E::N).map(|j| x.iter().zip(&bits).filter(|(_, b)| **b).fold(0u128, |a, (e, _)| a.wrapping_add(e[j])) & km).collect()
                    };
                    match got {
                        Ok((a, b)) => {
                            ensure!(a.comps() == sum(&m) && b.comps() == sum(&o), format!("sum-{tag}"), "step {step}: masked sums over {} elements are wrong", m.len())
                        }
                        Err(e) => return fail(format!("sum-{tag}"), format!("step {step}: masked sums failed: {e:?}")),
                    }
                }
            }
        }
        longest = longest.max(m.len());
        ensure!(VecShareTrait::len(&v) == m.len() && VecShareTrait::is_empty(&v) == m.is_empty(), format!("len-{tag}"), "step {step} {op:?}: length {} instead of {}", VecShareTrait::len(&v), m.len());
        ensure!(E::parts(&v) == m, format!("content-{tag}"), "step {step} {op:?}: the vector's entries are wrong");
        for (i, e) in m.iter().enumerate() {
            ensure!(VecShareTrait::get_at(&v, i).comps() == *e, format!("get-{tag}"), "step {step} {op:?}: entry {i} reads wrong");
        }
    }
    Ok(Outcome::ok(longest > 1).label(tag))
}
fn run_v(c: &VCase) -> Check {
    match (c.be, c.ty) {
        (0, 0) => vrun::<Aby3Share<u16>>(c),
        (0, 1) => vrun::<Aby3Share<u64>>(c),
        (0, _) => vrun::<Aby3Share<Bit>>(c),
        (1, 0) => vrun::<Swift3Share<u16>>(c),
        (1, 1) => vrun::<Swift3Share<u64>>(c),
        (1, _) => vrun::<Swift3Share<Bit>>(c),
        (_, 0) => vrun::<SpdzWiseShare<u64>>(c),
        (_, 1) => vrun::<SpdzWiseShare<u128>>(c),
        _ => vrun::<SpdzWiseShare<u32>>(c),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P22",
        level: "exploration",
        families: vec![
            Box::new(Fam { name: "shares", quick: 200_000, thorough: 10_000_000, serial: false,
                rule: "Freshly dealt sharings (arithmetic and XOR) of boundary-biased values; every local operator in every form at all three parties, value and replicated components checked, for 8 element types. Non-trivial: first value above 1.",
                gen, run }),
            Box::new(Fam { name: "vectors", quick: 60_000, thorough: 3_000_000, serial: false,
                rule: "Random sequences of vector operations against a vector of components (values with their tags). Non-trivial: the vector had two or more entries.",
                gen: gen_v, run: run_v }),
        ],
        assumptions: vec!["complement, masking and XOR act on XOR-sharings, the others on additive ones; shift amounts below the width"],
    }]
}
