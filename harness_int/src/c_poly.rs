//! P13: the binary extension field, polynomials over the rings, interpolation and the table of moduli.
use iris_mpc::prelude::{Bit, RingImpl, Sharable};
use iris_mpc::verif_hooks::p13 as h;
use serde::{Deserialize, Serialize};
use vengine::*;

fn mk<R: RingImpl>(v: u128) -> R {
    let bits: Vec<_> = (0..R::K).map(|i| Bit::new(v >> i & 1 == 1).to_sharetype()).collect();
    R::from_bits(&bits).unwrap()
}
fn rd<R: RingImpl>(r: &R) -> u128 {
    r.to_bits().into_iter().enumerate().fold(0, |a, (i, b)| a | (b.0.convert() as u128) << i)
}
fn mks<R: RingImpl>(v: &[u128]) -> Vec<R> {
    v.iter().map(|x| mk(*x)).collect()
}
fn rds<R: RingImpl>(v: &[R]) -> Vec<u128> {
    v.iter().map(rd).collect()
}
fn msk(k: usize) -> u128 {
    if k == 128 { u128::MAX } else { (1 << k) - 1 }
}

// ------------------------------------------------------------------------------ binary polynomials, reference
fn deg2(a: u128) -> i32 {
    127 - a.leading_zeros() as i32
}
fn rem2(mut a: u128, m: u128) -> u128 {
    while a != 0 && deg2(a) >= deg2(m) {
        a ^= m << (deg2(a) - deg2(m));
    }
    a
}
fn mul2(a: u128, b: u128, m: u128) -> u128 {
    let (mut a, mut r) = (rem2(a, m), 0);
    for i in 0..=deg2(b).max(0) {
        if b >> i & 1 == 1 {
            r ^= a;
        }
        a <<= 1;
        if deg2(a) >= deg2(m) {
            a ^= m;
        }
    }
    rem2(r, m)
}
fn gcd2(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        (a, b) = (b, rem2(a, b));
    }
    a
}
/// Rabin's test.
fn irreducible(m: u128) -> bool {
    let d = deg2(m);
    if d < 1 {
        return false;
    }
    let x = rem2(2, m);
    let mut pw = vec![x];
    for i in 0..d as usize {
        pw.push(mul2(pw[i], pw[i], m));
    }
    if pw[d as usize] != x {
        return false;
    }
    let (mut n, mut q) = (d, 2);
    while n > 1 {
        if n % q == 0 {
            if gcd2(m, pw[(d / q) as usize] ^ x) != 1 {
                return false;
            }
            while n % q == 0 {
                n /= q;
            }
        }
        q += 1;
    }
    true
}
const GF: u128 = 1 << 64 | 0x1b;

// ------------------------------------------------------------------------------------ ring polynomials, reference
fn norm(v: &[u128]) -> Vec<u128> {
    v[..v.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1)].to_vec()
}
fn padd(a: &[u128], b: &[u128], neg: bool, m: u128) -> Vec<u128> {
    let at = |v: &[u128], i: usize| v.get(i).copied().unwrap_or(0);
    (0..a.len().max(b.len())).map(|i| if neg { at(a, i).wrapping_sub(at(b, i)) } else { at(a, i).wrapping_add(at(b, i)) } & m).collect()
}
fn pmul(a: &[u128], b: &[u128], m: u128) -> Vec<u128> {
    let mut r = vec![0u128; (a.len() + b.len()).saturating_sub(1)];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j].wrapping_add(x.wrapping_mul(*y)) & m;
        }
    }
    r
}
/// Remainder by a polynomial whose leading coefficient is one.
fn prem(a: &[u128], md: &[u128], m: u128) -> Vec<u128> {
    let (mut a, md) = (norm(a), norm(md));
    while a.len() >= md.len() {
        let (c, o) = (a[a.len() - 1], a.len() - md.len());
        for (i, x) in md.iter().enumerate() {
            a[o + i] = a[o + i].wrapping_sub(x.wrapping_mul(c)) & m;
        }
        a = norm(&a);
    }
    a
}
fn bits_poly(v: u128) -> Vec<u128> {
    (0..=deg2(v).max(0)).map(|i| v >> i & 1).collect()
}
fn mod2(v: &[u128]) -> u128 {
    v.iter().enumerate().fold(0, |a, (i, x)| a | (x & 1) << i)
}

macro_rules! by_k {
    ($k:expr, $f:ident, $c:expr) => {
        match $k {
            8 => $f::<<u8 as Sharable>::Share>($c),
            16 => $f::<<u16 as Sharable>::Share>($c),
            32 => $f::<<u32 as Sharable>::Share>($c),
            64 => $f::<<u64 as Sharable>::Share>($c),
            _ => $f::<<u128 as Sharable>::Share>($c),
        }
    };
}
const KS: [usize; 5] = [8, 16, 32, 64, 128];

// --------------------------------------------------------------------------------------------------- field
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FieldCase {
    a: u64,
    b: u64,
    m: u64,
}
fn gen_field(s: &mut Src, _: u64) -> FieldCase {
    let d = s.range(1, 63);
    FieldCase { a: s.value(64) as u64, b: s.value(64) as u64, m: (s.u64() | 1 << 63) >> (63 - d) }
}
fn run_field(c: &FieldCase) -> Check {
    let (a, b) = (c.a as u128, c.b as u128);
    for (n, got) in h::gf_ops(c.a, c.b) {
        let want = match n {
            "zero" | "default" | "lift0" => 0,
            "one" | "lift1" => 1,
            "neg" => a,
            _ if n.starts_with("mul") => mul2(a, b, GF),
            _ => a ^ b,
        };
        ensure!(got as u128 == want, format!("gf-{n}"), "{n}({:#x}, {:#x}) = {got:#x}, expected {want:#x}", c.a, c.b);
    }
    let f = h::gf_facts(c.a);
    ensure!(f == (c.a == 0, c.a == 1), "gf-facts", "is_zero, is_one of {:#x}: {f:?}", c.a);
    let (bytes, back) = h::gf_bincode(c.a);
    ensure!(bytes.len() == 8 && back == Ok(c.a), "gf-encoding", "{:#x} encodes to {bytes:?} and decodes to {back:?}", c.a);
    let mut e = 3;
    if c.a != 0 {
        let i = h::gf_inverse(c.a);
        ensure!(mul2(a, i as u128, GF) == 1, "gf-inverse", "inverse of {:#x} is {i:#x}", c.a);
        e += 1;
    }
    // inverses modulo any polynomial the element has no factor in common with
    let m = c.m as u128;
    if deg2(m) >= 1 && gcd2(m, a) == 1 {
        let i = h::gf_inv_mod(c.a, c.m) as u128;
        ensure!(mul2(a, i, m) == 1, "gf-inv-mod", "inverse of {:#x} modulo {:#x} is {i:#x}", c.a, c.m);
        e += 1;
    }
    Ok(Outcome::ok(c.a > 1 && c.b > 1).evals(e))
}

// --------------------------------------------------------------------------------------------------- polynomials
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PolyCase {
    k: usize,
    a: Vec<u128>,
    b: Vec<u128>,
    x: u128,
}
fn coeffs(s: &mut Src, k: usize, max: usize) -> Vec<u128> {
    let n = match s.below(5) {
        0 => s.usize(0, 3),
        _ => s.usize(0, max),
    };
    let style = s.below(4);
    let mut v: Vec<u128> = (0..n)
        .map(|_| match style {
            0 => s.below(2) as u128,
            1 => if s.one_in(3) { s.value(k) } else { 0 },
            _ => s.value(k),
        } & msk(k))
        .collect();
    if s.one_in(3) {
        v.extend(vec![0; s.usize(1, 4)]);
    }
    v
}
fn gen_poly(s: &mut Src, i: u64) -> PolyCase {
    let k = KS[(i % 5) as usize];
    let max = s.pick(&[4, 20, 66]);
    PolyCase { k, a: coeffs(s, k, max), b: coeffs(s, k, max), x: s.value(k) & msk(k) }
}
fn poly<R: RingImpl>(c: &PolyCase) -> Check {
    let m = msk(c.k);
    let (a, b, x): (Vec<R>, Vec<R>, R) = (mks(&c.a), mks(&c.b), mk(c.x));
    for (n, got) in h::poly_ops(&a, &b, &x) {
        let xs = [c.x];
        let want = match n {
            "one" => vec![1],
            "zero" => vec![],
            "lift" => vec![c.x],
            "neg" => padd(&[], &c.a, true, m),
            "shrink" => {
                let v = norm(&c.a);
                ensure!(got.len() == v.len().max(1), "poly-shrink", "{:?} shrinks to {} coefficients", c.a, got.len());
                v
            }
            _ => {
                let rhs: &[u128] = if n.contains("scalar") { &xs } else { &c.b };
                match &n[..3] {
                    "add" => padd(&c.a, rhs, false, m),
                    "sub" => padd(&c.a, rhs, true, m),
                    _ => pmul(&c.a, rhs, m),
                }
            }
        };
        ensure!(norm(&rds(&got)) == norm(&want), format!("poly-{n}"), "{n} of {:?}, {:?} and {} over {} bits is {:?}, expected {want:?}", c.a, c.b, c.x, c.k, rds(&got));
    }
    let v = norm(&c.a);
    let f = h::poly_facts(&a);
    ensure!(f == (v.len().saturating_sub(1), v.is_empty(), v == [1]), "poly-facts", "degree, is_zero, is_one of {:?}: {f:?}", c.a);
    let want = c.a.iter().rev().fold(0u128, |r, y| r.wrapping_mul(c.x).wrapping_add(*y) & m);
    let got = rd(&h::poly_eval(&a, &x));
    ensure!(got == want, "poly-evaluate", "{:?} at {} over {} bits is {got}, expected {want}", c.a, c.x, c.k);
    Ok(Outcome::ok(norm(&c.a).len() > 1 && norm(&c.b).len() > 1).label(format!("{}", c.k)).evals(28))
}
fn run_poly(c: &PolyCase) -> Check {
    by_k!(c.k, poly, c)
}

// --------------------------------------------------------------------------------------------------- division
fn gen_div(s: &mut Src, i: u64) -> PolyCase {
    let mut c = gen_poly(s, i);
    c.b = norm(&c.b);
    if c.b.is_empty() {
        c.b.push(1);
    }
    if !s.one_in(6) {
        *c.b.last_mut().unwrap() |= 1;
    }
    if s.one_in(3) {
        c.b.extend(vec![0; s.usize(1, 3)]);
    }
    c
}
fn div<R: RingImpl>(c: &PolyCase) -> Check {
    let m = msk(c.k);
    let (a, b): (Vec<R>, Vec<R>) = (mks(&c.a), mks(&c.b));
    let nb = norm(&c.b);
    let lead = nb.last().copied().unwrap_or(0);
    let res = h::poly_divide(&a, &b);
    if lead & 1 == 0 {
        ensure!(res.is_err(), "div-unit", "division by {:?} is not refused: {res:?}", c.b);
        return Ok(Outcome::ok(true).label("no unit"));
    }
    let (q, r) = match res {
        Ok((q, r)) => (rds(&q), rds(&r)),
        Err(e) => return fail("div-refused", format!("division of {:?} by {:?} over {} bits: {e}", c.a, c.b, c.k)),
    };
    let back = padd(&pmul(&q, &nb, m), &r, false, m);
    ensure!(norm(&back) == norm(&c.a), "div-value", "{:?} / {:?} over {} bits: quotient {q:?}, remainder {r:?}", c.a, c.b, c.k);
    ensure!(norm(&r).len() < nb.len(), "div-degree", "{:?} / {:?} over {} bits: remainder {r:?}", c.a, c.b, c.k);
    let (r1, r2) = h::poly_rem(&a, &b);
    ensure!(norm(&rds(&r1)) == norm(&r) && norm(&rds(&r2)) == norm(&r), "rem", "{:?} % {:?} over {} bits: {:?}, {:?}; division leaves {r:?}", c.a, c.b, c.k, rds(&r1), rds(&r2));
    Ok(Outcome::ok(norm(&c.a).len() >= nb.len() && nb.len() > 1).label(format!("{}", c.k)).evals(3))
}
fn run_div(c: &PolyCase) -> Check {
    by_k!(c.k, div, c)
}

// --------------------------------------------------------------------------------------------------- inverses
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InvCase {
    k: usize,
    /// 64: the modulus of the field.
    d: usize,
    a: Vec<u128>,
    xs: Vec<u64>,
    f: Vec<Vec<u128>>,
}
fn gen_inv(s: &mut Src, i: u64) -> InvCase {
    let k = KS[(i % 5) as usize];
    let d = if s.one_in(4) { 64 } else { s.usize(40, 63) };
    // differences of binary polynomials (as the interpolation inverts them), or anything
    let bin = s.bool();
    let n = if s.one_in(4) { s.usize(1, 3) } else { s.usize(1, d) };
    let a = (0..n).map(|_| if bin { s.pick(&[0, 1, msk(k)]) } else { s.value(k) & msk(k) }).collect();
    InvCase { k, d, a, xs: vec![], f: vec![] }
}
fn inv<R: RingImpl>(c: &InvCase) -> Check {
    let m = msk(c.k);
    let a: Vec<R> = mks(&c.a);
    let md: Vec<R> = if c.d == 64 { h::native_modulus() } else { h::modulus(c.d) };
    let mdv = rds(&md);
    if mod2(&c.a) == 0 {
        return Ok(Outcome::ok(false).label("no unit"));
    }
    let i = rds(&if c.d == 64 { h::poly_native_inverse(&a) } else { h::poly_inverse(&a, &md) });
    ensure!(norm(&i).len() < mdv.len(), "inv-degree", "inverse of {:?} modulo degree {}: {i:?}", c.a, c.d);
    let p = prem(&pmul(&c.a, &i, m), &mdv, m);
    ensure!(p == [1], "inv-value", "{:?} times its inverse {i:?} over {} bits, modulo degree {}, is {p:?}", c.a, c.k, c.d);
    Ok(Outcome::ok(norm(&c.a).len() > 1).label(format!("{}", c.k)))
}
fn run_inv(c: &InvCase) -> Check {
    by_k!(c.k, inv, c)
}

// --------------------------------------------------------------------------------------------------- interpolation
fn distinct(s: &mut Src, n: usize, bits: u32) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let seq = s.bool();
    while v.len() < n {
        let x = if seq { v.len() as u64 } else { s.u64() >> (64 - bits) };
        v.push(if v.contains(&x) { (0..).find(|y| !v.contains(y)).unwrap() } else { x });
    }
    v
}
fn gen_interp(s: &mut Src, i: u64) -> InvCase {
    let k = KS[(i % 5) as usize];
    let d = if s.one_in(4) { 64 } else { s.usize(40, 63) };
    let n = s.usize(1, 5);
    let bits = if s.bool() { 8 } else { d as u32 };
    let xs = distinct(s, n, bits);
    let f = (0..n).map(|_| { let l = if s.bool() { d } else { s.usize(0, d) }; (0..l).map(|_| s.value(k) & msk(k)).collect() }).collect();
    let a = (0..s.usize(1, d)).map(|_| s.value(k) & msk(k)).collect();
    InvCase { k, d, a, xs, f }
}
fn interp<R: RingImpl>(c: &InvCase) -> Check {
    let m = msk(c.k);
    let md: Vec<R> = if c.d == 64 { h::native_modulus() } else { h::modulus(c.d) };
    let mdv = rds(&md);
    let eval = |f: &[Vec<u128>], x: &[u128]| f.iter().rev().fold(vec![], |r, y| prem(&padd(&pmul(&r, x, m), y, false, m), &mdv, m));
    let xs: Vec<Vec<u128>> = c.xs.iter().map(|x| bits_poly(*x as u128)).collect();
    let ys: Vec<Vec<u128>> = xs.iter().map(|x| eval(&c.f, x)).collect();
    let rxs: Vec<Vec<R>> = xs.iter().map(|x| mks(x)).collect();
    let rys: Vec<Vec<R>> = ys.iter().map(|x| mks(x)).collect();
    let lag = h::lagrange(&rxs, if c.d == 64 { None } else { Some(&md) });
    let got = h::reduce_coeffs(&h::interpolate(&rys, &lag), &md);
    for j in 0..c.f.len().max(got.len()) {
        let g = got.get(j).map_or(vec![], |x| norm(&rds(x)));
        let w = prem(c.f.get(j).map_or(&[], |x| x), &mdv, m);
        ensure!(g == w, "interpolation", "coefficient {j} of the polynomial through {:?} over {} bits, modulo degree {}, is {g:?}, expected {w:?}", c.xs, c.k, c.d);
    }
    let ra: Vec<R> = mks(&c.a);
    let v = prem(&rds(&h::eval_poly_at(&got, &ra)), &mdv, m);
    ensure!(v == eval(&c.f, &c.a), "evaluation", "the polynomial {:?} at {:?} over {} bits, modulo degree {}, is {v:?}", c.f, c.a, c.k, c.d);
    Ok(Outcome::ok(c.xs.len() > 1).label(format!("{}", c.k)).evals(2))
}
fn run_interp(c: &InvCase) -> Check {
    by_k!(c.k, interp, c)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GfCase {
    xs: Vec<u64>,
    f: Vec<u64>,
    g: Vec<u64>,
    x: u64,
}
fn gen_gf(s: &mut Src, _: u64) -> GfCase {
    let n = s.usize(1, 24);
    let b = if s.bool() { 8 } else { 64 };
    let xs = distinct(s, n, b);
    GfCase { xs, f: (0..n).map(|_| s.value(64) as u64).collect(), g: (0..s.usize(0, 9)).map(|_| s.value(64) as u64).collect(), x: s.u64() }
}
fn run_gf(c: &GfCase) -> Check {
    let eval = |f: &[u64], x: u64| f.iter().rev().fold(0u64, |r, y| mul2(r as u128, x as u128, GF) as u64 ^ y);
    let strip = |v: &[u64]| v[..v.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1)].to_vec();
    let ys: Vec<u64> = c.xs.iter().map(|x| eval(&c.f, *x)).collect();
    let got = h::gf_interpolate(&c.xs, &ys);
    ensure!(strip(&got) == strip(&c.f), "gf-interpolation", "through {:x?}: {got:x?}, expected {:x?}", c.xs, c.f);
    ensure!(h::gf_eval(&c.f, c.x) == eval(&c.f, c.x), "gf-evaluate", "{:x?} at {:#x}", c.f, c.x);
    let mut w = vec![0u64; c.f.len() + c.g.len()];
    for (i, a) in c.f.iter().enumerate() {
        for (j, b) in c.g.iter().enumerate() {
            w[i + j] ^= mul2(*a as u128, *b as u128, GF) as u64;
        }
    }
    let p = h::gf_poly_mul(&c.f, &c.g);
    ensure!(strip(&p) == strip(&w), "gf-poly-mul", "{:x?} times {:x?} is {p:x?}", c.f, c.g);
    Ok(Outcome::ok(c.xs.len() > 1).evals(3))
}

// --------------------------------------------------------------------------------------------------- moduli
fn gen_table(_: &mut Src, i: u64) -> (usize, usize) {
    (KS[(i % 5) as usize], 40 + (i / 5 % 25) as usize)
}
fn table<R: RingImpl>(c: &(usize, usize)) -> Check {
    let (k, d) = *c;
    let v = rds(&if d == 64 { h::native_modulus::<R>() } else { h::modulus::<R>(d) });
    ensure!(v.iter().all(|x| *x < 2) && v.len() == d + 1 && v[d] == 1, "modulus-shape", "modulus of degree {d} over {k} bits: {v:?}");
    let m = mod2(&v);
    ensure!(irreducible(m), "reducible", "the modulus {m:#x} of degree {d} over {k} bits is reducible");
    if d == 64 {
        ensure!(m == GF && h::gf_modulus() == (0..65).map(|i| GF >> i & 1 == 1).collect::<Vec<_>>(), "field-modulus", "{m:#x}");
    }
    Ok(Outcome::ok(true))
}
fn run_table(c: &(usize, usize)) -> Check {
    by_k!(c.0, table, c)
}

pub fn props() -> Vec<Prop> {
    let families: Vec<Box<dyn Family>> = vec![
        Box::new(Fam { name: "moduli", quick: 125, thorough: 125, serial: true,
            rule: "Every tabulated modulus (degrees 40 to 63) and the modulus of the field, over every ring: monic, binary, of the stated degree, irreducible by Rabin's test. Exhaustive; every case is non-trivial.",
            gen: gen_table, run: run_table }),
        Box::new(Fam { name: "field", quick: 400000, thorough: 10000000, serial: false,
            rule: "Every operator form on two elements against carry-less arithmetic modulo x^64+x^4+x^3+x+1, inverses in the field and modulo a random polynomial, encoding. Non-trivial: both above one.",
            gen: gen_field, run: run_field }),
        Box::new(Fam { name: "polynomials", quick: 80000, thorough: 3000000, serial: false,
            rule: "Every operator form, degree, zero and one tests, shrinking and evaluation of polynomials with up to 70 coefficients (with leading zeros) against integer arithmetic. Non-trivial: both of degree one or more.",
            gen: gen_poly, run: run_poly }),
        Box::new(Fam { name: "division", quick: 80000, thorough: 3000000, serial: false,
            rule: "a = q b + r with r of smaller degree than b, for b with an odd leading coefficient and possibly leading zeros; even leading coefficients refused. Non-trivial: b not constant and not longer than a, or refused.",
            gen: gen_div, run: run_div }),
        Box::new(Fam { name: "inverses", quick: 20000, thorough: 600000, serial: false,
            rule: "Polynomials that are units modulo a table modulus or the field's: the product with the inverse is one. Non-trivial: not constant.",
            gen: gen_inv, run: run_inv }),
        Box::new(Fam { name: "interpolation", quick: 5000, thorough: 150000, serial: false,
            rule: "A random polynomial of up to 5 coefficients in the extension ring is evaluated (independently) at that many distinct binary points and recovered by interpolation; evaluation at a random point agrees. Non-trivial: two points or more.",
            gen: gen_interp, run: run_interp }),
        Box::new(Fam { name: "field-interpolation", quick: 8000, thorough: 200000, serial: false,
            rule: "The same over the field with up to 24 points, and products of polynomials. Non-trivial: two points or more.",
            gen: gen_gf, run: run_gf }),
    ];
    vec![Prop { id: "P13", level: "exploration", families, assumptions: vec!["the inverse of zero is not asked for", "Rabin's test and the reference arithmetic of the harness are right"] }]
}
