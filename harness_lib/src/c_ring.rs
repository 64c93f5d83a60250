//! P09: ring elements against exact integer arithmetic modulo 2^K.
use iris_mpc::prelude::{Bit, RingImpl, Sharable};
use num_traits::{One, WrappingAdd, WrappingMul, WrappingNeg, WrappingShl, WrappingShr, WrappingSub, Zero};
use serde::{Deserialize, Serialize};
use vengine::*;

fn mask(k: usize) -> u128 {
    if k >= 128 { u128::MAX } else { (1u128 << k) - 1 }
}

/// Integers the types are built from and read back to (never through the code under test where avoidable).
trait Int: Sharable {
    const WID: usize;
    const SIGNED: bool;
    const NAME: &'static str;
    fn mk(v: u128) -> Self;
    fn get(self) -> u128;
    fn vget(v: Self::VerificationShare) -> u128;
    fn rget(r: <Self::VerificationShare as Sharable>::Share) -> u128;
    /// Forms that mix a share element with a plain integer: (product, and).
    fn mixed(x: u128, y: u128) -> Vec<(&'static str, u128, u128)>;
    /// Round trips through the slice and vector casts.
    fn casts(v: &[u128]) -> Vec<(&'static str, Vec<u128>)>;
    fn own(x: u128, y: u128, s: u32) -> Vec<(&'static str, u128, u128)>;
    fn ring_only(x: u128, y: u128) -> Vec<(&'static str, u128, u128)>;
}
fn rd<R: RingImpl>(r: &R) -> u128 {
    u128::from_sharetype(r.clone().upgrade_to_128())
}

macro_rules! own_body {
    ($t:ty, $x:ident, $y:ident, $s:ident) => {{
        let (m, a, b) = (mask(Self::WID), Self::mk($x), Self::mk($y));
        let mut v: Vec<(&'static str, u128, u128)> = vec![
            ("wrapping_add", a.wrapping_add(b).get(), $x.wrapping_add($y) & m),
            ("WrappingAdd", WrappingAdd::wrapping_add(&a, &b).get(), $x.wrapping_add($y) & m),
            ("WrappingSub", WrappingSub::wrapping_sub(&a, &b).get(), $x.wrapping_sub($y) & m),
            ("WrappingMul", WrappingMul::wrapping_mul(&a, &b).get(), $x.wrapping_mul($y) & m),
            ("WrappingNeg", WrappingNeg::wrapping_neg(&a).get(), $x.wrapping_neg() & m),
            ("not", (!a).get(), !$x & m),
            ("xor", (a ^ b).get(), $x ^ $y),
            ("and", (a & b).get(), $x & $y),
            ("zero", <Self as Zero>::zero().get(), 0),
            ("one", <Self as One>::one().get(), 1),
            ("default", Self::default().get(), 0),
        ];
        v.push(("WrappingShl", WrappingShl::wrapping_shl(&a, $s).get(), ($x << $s) & m));
        let shr = if Self::SIGNED && ($x >> (Self::WID - 1)) & 1 == 1 { ($x >> $s) | (m & !(m >> $s)) } else { $x >> $s };
        v.push(("WrappingShr", WrappingShr::wrapping_shr(&a, $s).get(), shr));
        v.push(("arithmetic_shr", rd(&<Self as Sharable>::arithmetic_shr(a.to_sharetype(), $s)), shr));
        let mut t = a;
        t ^= b;
        v.push(("xor_assign", t.get(), $x ^ $y));
        let mut t = a;
        t &= b;
        v.push(("and_assign", t.get(), $x & $y));
        v
    }};
}
macro_rules! cast_body {
    ($v:ident) => {{
        let plain: Vec<Self> = $v.iter().map(|x| Self::mk(*x)).collect();
        let el: Vec<<Self as Sharable>::Share> = plain.iter().map(|x| x.to_sharetype()).collect();
        vec![
            ("slice_to_sharetype", Self::slice_to_sharetype(&plain).iter().map(rd).collect()),
            ("slice_from_sharetype", Self::slice_from_sharetype(&el).iter().map(|x| x.get()).collect()),
            ("vec_to_sharetype", Self::vec_to_sharetype(plain.clone()).iter().map(rd).collect()),
            ("vec_from_sharetype", Self::vec_from_sharetype(el.clone()).iter().map(|x| x.get()).collect()),
            ("vec_there_and_back", Self::vec_from_sharetype(Self::vec_to_sharetype(plain)).iter().map(|x| x.get()).collect()),
        ]
    }};
}

macro_rules! unsigned {
    ($($t:ty, $vs:ty, $n:literal);*) => ($(
        impl Int for $t {
            const WID: usize = <$t>::BITS as usize;
            const SIGNED: bool = false;
            const NAME: &'static str = $n;
            fn mk(v: u128) -> Self { v as $t }
            fn get(self) -> u128 { self as u128 }
            fn vget(v: $vs) -> u128 { v as u128 }
            fn rget(r: <$vs as Sharable>::Share) -> u128 { rd(&r) }
            fn mixed(x: u128, y: u128) -> Vec<(&'static str, u128, u128)> {
                let m = mask(Self::WID);
                let w = x.wrapping_mul(y) & m;
                let b = y as $t;
                let e = || (x as $t).to_sharetype();
                let mut p = e();
                p *= b;
                let mut q = e();
                q *= &b;
                vec![("el*int", rd(&(e() * b)), w), ("el*&int", rd(&(e() * &b)), w), ("el*=int", rd(&p), w), ("el*=&int", rd(&q), w)]
            }
            fn casts(v: &[u128]) -> Vec<(&'static str, Vec<u128>)> {
                type R = <$t as Sharable>::Share;
                let mut out: Vec<(&'static str, Vec<u128>)> = cast_body!(v);
                let plain: Vec<$t> = v.iter().map(|x| *x as $t).collect();
                let el: Vec<R> = plain.iter().map(|x| x.to_sharetype()).collect();
                out.push(("convert_slice", R::convert_slice(&el).iter().map(|x| *x as u128).collect()));
                out.push(("convert_slice_rev", R::convert_slice_rev(&plain).iter().map(rd).collect()));
                out.push(("convert_vec", R::convert_vec(el.clone()).iter().map(|x| *x as u128).collect()));
                out.push(("convert_vec_rev", R::convert_vec_rev(plain.clone()).iter().map(rd).collect()));
                out
            }
            fn own(x: u128, y: u128, s: u32) -> Vec<(&'static str, u128, u128)> { own_body!($t, x, y, s) }
            fn ring_only(x: u128, y: u128) -> Vec<(&'static str, u128, u128)> {
                let (a, b) = ((x as $t).to_sharetype(), (y as $t).to_sharetype());
                let mut t = a.clone();
                t |= &b;
                vec![("or", rd(&(a.clone() | b.clone())), x | y), ("or_ref", rd(&(a.clone() | &b)), x | y), ("or_assign_ref", rd(&t), x | y),
                    ("convert", a.clone().convert() as u128, x),
                    ("order", (a < b) as u128, (x < y) as u128), ("equal", (a == b) as u128, (x == y) as u128)]
            }
        }
    )*)
}
macro_rules! signed {
    ($($s:ty, $t:ty, $vs:ty, $n:literal);*) => ($(
        impl Int for $s {
            const WID: usize = <$t>::BITS as usize;
            const SIGNED: bool = true;
            const NAME: &'static str = $n;
            fn mk(v: u128) -> Self { v as $s }
            fn get(self) -> u128 { self as $t as u128 }
            fn vget(v: $vs) -> u128 { v as u128 }
            fn rget(r: <$vs as Sharable>::Share) -> u128 { rd(&r) }
            fn mixed(x: u128, y: u128) -> Vec<(&'static str, u128, u128)> {
                let m = mask(Self::WID);
                let (w, n) = (x.wrapping_mul(y) & m, x & y);
                let b = y as $s;
                let e = || (x as $t).to_sharetype();
                let mut p = e();
                p *= b;
                let mut q = e();
                q *= &b;
                let mut r = e();
                r &= b;
                let mut u = e();
                u &= &b;
                vec![("el*int", rd(&(e() * b)), w), ("el*&int", rd(&(e() * &b)), w), ("el*=int", rd(&p), w), ("el*=&int", rd(&q), w),
                    ("int*el", (b * e()).get(), w), ("uint*el", ((y as $t) * e()) as u128, w), ("uint&el", ((y as $t) & e()) as u128, n),
                    ("el&int", rd(&(e() & b)), n), ("el&&int", rd(&(e() & &b)), n), ("int&el", (b & e()).get(), n), ("el&=int", rd(&r), n), ("el&=&int", rd(&u), n)]
            }
            fn casts(v: &[u128]) -> Vec<(&'static str, Vec<u128>)> { cast_body!(v) }
            fn own(x: u128, y: u128, s: u32) -> Vec<(&'static str, u128, u128)> { own_body!($s, x, y, s) }
            fn ring_only(_x: u128, _y: u128) -> Vec<(&'static str, u128, u128)> { vec![] }
        }
    )*)
}
unsigned! { u8, u64, "u8"; u16, u64, "u16"; u32, u64, "u32"; u64, u128, "u64"; u128, u128, "u128" }
signed! { i8, u8, u64, "i8"; i16, u16, u64, "i16"; i32, u32, u64, "i32"; i64, u64, u128, "i64"; i128, u128, u128, "i128" }

impl Int for Bit {
    const WID: usize = 1;
    const SIGNED: bool = false;
    const NAME: &'static str = "bit";
    fn mk(v: u128) -> Self {
        Bit::new(v & 1 == 1)
    }
    fn get(self) -> u128 {
        self.convert() as u128
    }
    fn vget(v: u64) -> u128 {
        v as u128
    }
    fn rget(r: <u64 as Sharable>::Share) -> u128 {
        rd(&r)
    }
    fn mixed(x: u128, y: u128) -> Vec<(&'static str, u128, u128)> {
        let (a, b) = (Bit::mk(x), Bit::mk(y));
        let mut t = a;
        t |= b;
        let mut u = a;
        u |= &b;
        let mut xr = a;
        xr ^= &b;
        let mut ar = a;
        ar &= &b;
        let by = |v: u8| Bit::try_from(v).map(|b| b.get()).unwrap_or(9);
        let bu = |v: usize| Bit::try_from(v).map(|b| b.get()).unwrap_or(9);
        let wide = (x as u8) | 2;
        vec![
            ("bit+&bit", (a + &b).get(), x ^ y), ("bit+bit", (a + b).get(), x ^ y), ("bit-bit", (a - b).get(), x ^ y), ("bit-&bit", (a - &b).get(), x ^ y),
            ("bit*bit", (a * b).get(), x & y), ("bit*&bit", (a * &b).get(), x & y), ("-bit", (-a).get(), x),
            ("bit|bit", (a | b).get(), x | y), ("bit|&bit", (a | &b).get(), x | y), ("bit|=bit", t.get(), x | y), ("bit|=&bit", u.get(), x | y),
            ("bit^&bit", (a ^ &b).get(), x ^ y), ("bit^=&bit", xr.get(), x ^ y), ("bit&&bit", (a & &b).get(), x & y), ("bit&=&bit", ar.get(), x & y),
            ("u8", u8::from(a) as u128, x), ("bool", bool::from(a) as u128, x), ("from bool", Bit::from(x == 1).get(), x),
            ("try_from u8", by(x as u8), x), ("try_from usize", bu(x as usize), x), ("try_from wide u8", by(wide), 9), ("try_from wide usize", bu(256 + x as usize), 9),
            ("as_ref", a.as_ref().get(), x), ("display", a.to_string().parse().unwrap_or(9), x),
            ("is_zero", a.is_zero() as u128, 1 - x), ("order", (a < b) as u128, (x < y) as u128), ("equal", (a == b) as u128, (x == y) as u128),
        ]
    }
    fn casts(v: &[u128]) -> Vec<(&'static str, Vec<u128>)> {
        type R = <Bit as Sharable>::Share;
        let mut out: Vec<(&'static str, Vec<u128>)> = cast_body!(v);
        let plain: Vec<Bit> = v.iter().map(|x| Bit::mk(*x)).collect();
        let bools: Vec<bool> = v.iter().map(|x| *x == 1).collect();
        let el: Vec<R> = plain.iter().map(|x| x.to_sharetype()).collect();
        out.push(("convert_slice", R::convert_slice(&el).iter().map(|x| x.get()).collect()));
        out.push(("convert_vec_rev", R::convert_vec_rev(plain.clone()).iter().map(rd).collect()));
        out.push(("bit convert_slice", Bit::convert_slice(&plain).iter().map(|x| *x as u128).collect()));
        out.push(("bit convert_vec", Bit::convert_vec(plain.clone()).iter().map(|x| *x as u128).collect()));
        out.push(("bit convert_slice_rev", Bit::convert_slice_rev(&bools).iter().map(|x| x.get()).collect()));
        out.push(("bit convert_vec_rev", Bit::convert_vec_rev(bools).iter().map(|x| x.get()).collect()));
        out
    }
    fn own(x: u128, y: u128, s: u32) -> Vec<(&'static str, u128, u128)> {
        let (a, b) = (Bit::mk(x), Bit::mk(y));
        let _ = s;
        vec![("WrappingAdd", WrappingAdd::wrapping_add(&a, &b).get(), x ^ y), ("WrappingSub", WrappingSub::wrapping_sub(&a, &b).get(), x ^ y),
            ("WrappingMul", WrappingMul::wrapping_mul(&a, &b).get(), x & y), ("WrappingNeg", WrappingNeg::wrapping_neg(&a).get(), x), ("not", (!a).get(), 1 - x),
            ("shl0", WrappingShl::wrapping_shl(&a, 0).get(), x), ("shr0", WrappingShr::wrapping_shr(&a, 0).get(), x), ("zero", <Bit as Zero>::zero().get(), 0), ("one", <Bit as One>::one().get(), 1)]
    }
    fn ring_only(_x: u128, _y: u128) -> Vec<(&'static str, u128, u128)> {
        vec![]
    }
}

/// Everything that is defined on any element type, with exact results.
fn forms<T: Int>(x: u128, y: u128, z: u128, s: u32, idx: usize) -> Vec<(&'static str, u128, u128)> {
    let k = T::WID;
    let m = mask(k);
    let e = |v: u128| T::mk(v).to_sharetype();
    let (a, b) = (e(x), e(y));
    let mut v: Vec<(&'static str, u128, u128)> = vec![("to/from", T::from_sharetype(a.clone()).get(), x), ("upgrade", rd(&a), x)];
    macro_rules! bin {
        ($n:literal, $op:tt, $aop:tt, $w:expr) => {
            v.push(($n, rd(&(a.clone() $op b.clone())), $w & m));
            v.push((concat!($n, " ref"), rd(&(a.clone() $op &b)), $w & m));
            let mut t = a.clone();
            t $aop b.clone();
            v.push((concat!($n, " assign"), rd(&t), $w & m));
            let mut t = a.clone();
            t $aop &b;
            v.push((concat!($n, " assign ref"), rd(&t), $w & m));
        };
    }
    bin!("add", +, +=, x.wrapping_add(y));
    bin!("sub", -, -=, x.wrapping_sub(y));
    bin!("mul", *, *=, x.wrapping_mul(y));
    bin!("xor", ^, ^=, x ^ y);
    bin!("and", &, &=, x & y);
    let mut t = a.clone();
    t |= b.clone();
    v.push(("or assign", rd(&t), x | y));
    v.push(("neg", rd(&(-a.clone())), x.wrapping_neg() & m));
    v.push(("not", rd(&(!a.clone())), !x & m));
    v.push(("shl", rd(&(a.clone() << s)), (x << s) & m));
    v.push(("shr", rd(&(a.clone() >> s)), x >> s));
    let mut t = a.clone();
    t <<= s;
    v.push(("shl assign", rd(&t), (x << s) & m));
    let mut t = a.clone();
    t >>= s;
    v.push(("shr assign", rd(&t), x >> s));
    v.push(("msb", rd(&a.get_msb()), x >> (k - 1)));
    v.push(("get_bit", rd(&a.get_bit(idx)), (x >> idx) & 1));
    let bits = a.to_bits();
    v.push(("to_bits len", bits.len() as u128, k as u128));
    v.push(("to_bits", bits.iter().enumerate().fold(0u128, |acc, (i, b)| acc | (rd(b) << i)), x));
    let want: Vec<_> = (0..k).map(|i| Bit::new((x >> i) & 1 == 1).to_sharetype()).collect();
    v.push(("from_bits", <T::Share as RingImpl>::from_bits(&want).map(|r| rd(&r)).unwrap_or(!x), x));
    v.push(("from_bits short", <T::Share as RingImpl>::from_bits(&want[..k - 1]).is_err() as u128, 1));
    let mut long = want.clone();
    long.push(Bit::new(false).to_sharetype());
    v.push(("from_bits long", <T::Share as RingImpl>::from_bits(&long).is_err() as u128, 1));
    v.push(("zero", rd(&<T::Share as Zero>::zero()), 0));
    v.push(("one", rd(&<T::Share as One>::one()), 1));
    v.push(("default", rd(&T::Share::default()), 0));
    v.push(("is_zero", a.is_zero() as u128, (x == 0) as u128));
    v.push(("eq", (a == b) as u128, (x == y) as u128));
    v.push(("from bool", rd(&T::Share::from(x & 1 == 1)), x & 1));
    v.push(("K", <T::Share as RingImpl>::K as u128, k as u128));
    if y != 0 {
        v.push(("floor_div", rd(&a.clone().floor_div(&b)), x / y));
    }
    match a.inverse() {
        Ok(i) => {
            v.push(("inverse of odd", x & 1, 1));
            v.push(("a * inverse", rd(&i).wrapping_mul(x) & m, 1));
            v.push(("a * inverse (ring)", rd(&(i * &a)), 1));
        }
        Err(_) => v.push(("no inverse of even", x & 1, 0)),
    }
    // laws that tie the forms together
    let c = e(z);
    v.push(("distributive", rd(&(a.clone() * &(b.clone() + &c))), rd(&(a.clone() * &b + &(a.clone() * &c)))));
    v.push(("a - b = a + (-b)", rd(&(a.clone() - &b)), rd(&(a.clone() + &(-b.clone())))));
    // width conversions keep the residue
    let wide = T::to_verificationtype(a.clone());
    v.push(("to_verificationtype", T::rget(wide.clone()), x));
    v.push(("from_verificationtype", rd(&T::from_verificationtype(wide)), x));
    let vs = T::mk(x).to_verificationshare();
    v.push(("to_verificationshare", T::vget(vs) & m, x));
    v.push(("from_verificationshare", T::from_verificationshare(vs).get(), x));
    // casting down from a wide ring drops the high bits
    let vk = <<T::VerificationShare as Sharable>::Share as RingImpl>::K;
    let big = T::to_verificationtype(a.clone()) + &((T::to_verificationtype(b.clone()) << (k.min(vk - 1) as u32)) * &T::to_verificationtype(c));
    if k < vk {
        v.push(("narrow", rd(&T::from_verificationtype(big.clone())), x));
        v.push(("narrow share", T::from_verificationshare(<T::VerificationShare as Sharable>::from_sharetype(big)).get(), x));
    }
    v.extend(T::own(x, y, s));
    v.extend(T::mixed(x, y));
    v.extend(T::ring_only(x, y));
    v
}

const TYPES: [&str; 11] = ["bit", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"];
const BITS: [usize; 11] = [1, 8, 16, 32, 64, 128, 8, 16, 32, 64, 128];

fn all(ty: usize, x: u128, y: u128, z: u128, s: u32, idx: usize) -> Vec<(&'static str, u128, u128)> {
    match ty {
        0 => forms::<Bit>(x, y, z, s, idx),
        1 => forms::<u8>(x, y, z, s, idx),
        2 => forms::<u16>(x, y, z, s, idx),
        3 => forms::<u32>(x, y, z, s, idx),
        4 => forms::<u64>(x, y, z, s, idx),
        5 => forms::<u128>(x, y, z, s, idx),
        6 => forms::<i8>(x, y, z, s, idx),
        7 => forms::<i16>(x, y, z, s, idx),
        8 => forms::<i32>(x, y, z, s, idx),
        9 => forms::<i64>(x, y, z, s, idx),
        _ => forms::<i128>(x, y, z, s, idx),
    }
}
fn check_all(ty: usize, x: u128, y: u128, z: u128, s: u32, idx: usize) -> Result<u64, Fail> {
    let r = all(ty, x, y, z, s, idx);
    for (n, got, want) in &r {
        ensure!(got == want, format!("{n}/{}", TYPES[ty]), "{}: {n} of x={x:#x} y={y:#x} z={z:#x} shift {s} index {idx}: got {got:#x}, exact {want:#x}", TYPES[ty]);
    }
    Ok(r.len() as u64)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: usize,
    x: u128,
    y: u128,
    z: u128,
    shift: u32,
    idx: usize,
}
fn gen(s: &mut Src, i: u64) -> Case {
    let ty = (i % 11) as usize;
    let k = BITS[ty];
    let val = |s: &mut Src| if k == 1 { s.below(2) as u128 } else { s.value(k) };
    let x = val(s);
    let y = match s.below(8) {
        0 => x,
        1 => (!x).wrapping_add(s.below(3) as u128) & mask(k),
        _ => val(s),
    };
    Case { ty, x, y, z: val(s), shift: s.below(k as u64) as u32, idx: s.below(k as u64) as usize }
}
fn run(c: &Case) -> Check {
    let n = check_all(c.ty, c.x, c.y, c.z, c.shift, c.idx)?;
    Ok(Outcome::ok(c.x > 1 || c.ty == 0).evals(n).label(TYPES[c.ty]))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Row {
    kind: u8,
    row: u128,
}
/// Rows 0..256: every pair of 8-bit elements; 256..512: inverses of every 16-bit element; the rest: 32-bit and wider inverses.
fn gen_row(_s: &mut Src, i: u64) -> Row {
    if i < 256 { Row { kind: 0, row: i as u128 } } else { Row { kind: 1, row: (i - 256) as u128 } }
}
fn run_row(c: &Row) -> Check {
    let mut n = 0;
    if c.kind == 0 {
        for y in 0..256u128 {
            n += check_all(if c.row & 1 == 0 { 1 } else { 6 }, c.row, y, y ^ 0x5a, (y & 7) as u32, (y >> 3 & 7) as usize)?;
            n += check_all(if c.row & 1 == 0 { 6 } else { 1 }, c.row, y, y ^ 0x5a, (y & 7) as u32, (y >> 3 & 7) as usize)?;
        }
    } else {
        for lo in 0..256u128 {
            let x = (c.row << 8 | lo) & 0xffff;
            let e = (x as u16).to_sharetype();
            match e.inverse() {
                Ok(i) => ensure!(rd(&i).wrapping_mul(x) & 0xffff == 1, "inverse/u16", "inverse of {x}: {i:?}"),
                Err(_) => ensure!(x & 1 == 0, "inverse/u16", "no inverse of odd {x}"),
            }
            n += 1;
        }
    }
    Ok(Outcome::ok(true).evals(n))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Casts {
    ty: usize,
    v: Vec<u128>,
}
fn gen_casts(s: &mut Src, i: u64) -> Casts {
    let ty = (i % 11) as usize;
    let n = s.usize(0, 40);
    Casts { ty, v: (0..n).map(|_| if BITS[ty] == 1 { s.below(2) as u128 } else { s.value(BITS[ty]) }).collect() }
}
fn run_casts(c: &Casts) -> Check {
    let r = match c.ty {
        0 => Bit::casts(&c.v),
        1 => u8::casts(&c.v),
        2 => u16::casts(&c.v),
        3 => u32::casts(&c.v),
        4 => u64::casts(&c.v),
        5 => u128::casts(&c.v),
        6 => i8::casts(&c.v),
        7 => i16::casts(&c.v),
        8 => i32::casts(&c.v),
        9 => i64::casts(&c.v),
        _ => i128::casts(&c.v),
    };
    for (n, got) in &r {
        ensure!(got == &c.v, format!("{n}/{}", TYPES[c.ty]), "{}: {n} turned {:x?} into {got:x?}", TYPES[c.ty], c.v);
    }
    Ok(Outcome::ok(c.v.len() > 1).evals(r.len() as u64).label(TYPES[c.ty]))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P09",
        level: "exploration",
        families: vec![
            Box::new(Fam { name: "operations", quick: 2_000_000, thorough: 100_000_000, serial: false,
                rule: "Random boundary-biased triples of elements of the 11 element types; every operator in every owned, borrowed and in-place form, bit access, inverse, width conversion against exact 128-bit arithmetic. Non-trivial: first operand above 1.",
                gen, run }),
            Box::new(Fam { name: "exhaustive-8", quick: 512, thorough: 512, serial: false,
                rule: "Every pair of 8-bit elements (signed and unsigned) through every operation; the inverse of every 16-bit element.",
                gen: gen_row, run: run_row }),
            Box::new(Fam { name: "casts", quick: 22_000, thorough: 500_000, serial: false,
                rule: "Vector and slice casts between integers and elements keep length, order and values. Non-trivial: two or more elements.",
                gen: gen_casts, run: run_casts }),
        ],
        assumptions: vec!["shift amounts and bit indices below the width; division only by non-zero"],
    }]
}
