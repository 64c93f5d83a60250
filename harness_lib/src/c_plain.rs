//! P16 (bit arrays), P17 (match rule).
use plain_reference::{IrisCode, IrisCodeArray, MASK_THRESHOLD};
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use serde::{Deserialize, Serialize};
use vengine::*;

const N: usize = 12800;

// ------------------------------------------------------------------------------------------------ P16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(usize, usize, bool),
    Flip(usize, usize),
    /// dst = a (op) b, or in place
    And { dst: usize, a: usize, b: usize, in_place: bool },
    Xor { dst: usize, a: usize, b: usize, in_place: bool },
    Copy(usize, usize),
    Byte(usize, usize, u8),
    Fill(usize, u64),
    Const(usize, u8),
    Random(usize, u64),
    /// Through the byte form into another array.
    Bytes(usize, usize),
    /// Read with an iterator up to a position and compare.
    Iter(usize, usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}
fn pos(s: &mut Src) -> usize {
    match s.below(6) {
        0 => s.below(4) as usize,
        1 => N - 1 - s.below(4) as usize,
        2 => 64 * s.below(200) as usize,
        3 => 64 * s.below(200) as usize + 63,
        4 => (8 * s.below(1600) as usize + 7).min(N - 1),
        _ => s.below(N as u64) as usize,
    }
}
fn gen(s: &mut Src, _i: u64) -> Case {
    let n = s.usize(1, 60);
    let r = |s: &mut Src| s.usize(0, 2);
    let mut ops = vec![Op::Fill(0, s.u64()), Op::Fill(1, s.u64())];
    for _ in 0..n {
        ops.push(match s.below(14) {
            0..=3 => Op::Set(r(s), pos(s), s.bool()),
            4 | 5 => Op::Flip(r(s), pos(s)),
            6 => Op::And { dst: r(s), a: r(s), b: r(s), in_place: s.bool() },
            7 => Op::Xor { dst: r(s), a: r(s), b: r(s), in_place: s.bool() },
            8 => Op::Copy(r(s), r(s)),
            9 => Op::Byte(r(s), s.below(1600) as usize, s.below(256) as u8),
            10 => Op::Const(r(s), s.below(3) as u8),
            11 => Op::Random(r(s), s.u64()),
            12 => Op::Bytes(r(s), r(s)),
            _ => Op::Iter(r(s), pos(s)),
        });
    }
    Case { ops }
}
fn same(a: &IrisCodeArray, m: &[bool], what: &str) -> Result<(), Fail> {
    for i in 0..N {
        ensure!(a.get_bit(i) == m[i], "get_bit", "{what}: bit {i} reads {}, should be {}", a.get_bit(i), m[i]);
    }
    let it = a.bits();
    ensure!(it.len() == N, "len", "{what}: the iterator announces {} bits", it.len());
    let v: Vec<bool> = it.collect();
    ensure!(v.len() == N, "iter-len", "{what}: the iterator yields {} bits", v.len());
    if let Some(i) = (0..N).find(|i| v[*i] != m[*i]) {
        return fail("iter", format!("{what}: the iterator yields {} at {i}", v[i]));
    }
    let ones = m.iter().filter(|b| **b).count();
    ensure!(a.count_ones() == ones, "count_ones", "{what}: {} ones counted, there are {ones}", a.count_ones());
    let raw = a.as_raw_slice();
    ensure!(raw.len() == N / 8, "raw-len", "{what}: {} bytes", raw.len());
    for (j, b) in raw.iter().enumerate() {
        let w = (0..8).fold(0u8, |x, k| x | (m[8 * j + k] as u8) << k);
        ensure!(*b == w, "raw", "{what}: byte {j} is {b:#x}, should be {w:#x}");
    }
    Ok(())
}
fn run(c: &Case) -> Check {
    let mut a = [IrisCodeArray::default(); 3];
    let mut m: Vec<Vec<bool>> = vec![vec![false; N]; 3];
    same(&a[0], &m[0], "default")?;
    for (k, op) in c.ops.iter().enumerate() {
        let mut touched = None;
        match op {
            Op::Set(r, i, v) => {
                a[*r].set_bit(*i, *v);
                m[*r][*i] = *v;
                touched = Some((*r, *i));
            }
            Op::Flip(r, i) => {
                a[*r].flip_bit(*i);
                m[*r][*i] = !m[*r][*i];
                touched = Some((*r, *i));
            }
            Op::And { dst, a: x, b: y, in_place } => {
                if *in_place {
                    let t = a[*y];
                    a[*dst] &= t;
                    let t = m[*y].clone();
                    for i in 0..N {
                        m[*dst][i] &= t[i];
                    }
                } else {
                    a[*dst] = a[*x] & a[*y];
                    m[*dst] = (0..N).map(|i| m[*x][i] & m[*y][i]).collect();
                }
            }
            Op::Xor { dst, a: x, b: y, in_place } => {
                if *in_place {
                    let t = a[*y];
                    a[*dst] ^= t;
                    let t = m[*y].clone();
                    for i in 0..N {
                        m[*dst][i] ^= t[i];
                    }
                } else {
                    a[*dst] = a[*x] ^ a[*y];
                    m[*dst] = (0..N).map(|i| m[*x][i] ^ m[*y][i]).collect();
                }
            }
            Op::Copy(d, x) => {
                a[*d] = a[*x];
                m[*d] = m[*x].clone();
            }
            Op::Byte(r, j, v) => {
                a[*r].as_raw_mut_slice()[*j] = *v;
                for b in 0..8 {
                    m[*r][8 * j + b] = v >> b & 1 == 1;
                }
            }
            Op::Fill(r, seed) => {
                let mut g = Rng64::new(*seed);
                for j in 0..N / 8 {
                    let v = g.next() as u8;
                    a[*r].as_raw_mut_slice()[j] = v;
                    for b in 0..8 {
                        m[*r][8 * j + b] = v >> b & 1 == 1;
                    }
                }
            }
            Op::Const(r, k) => {
                a[*r] = match k {
                    0 => IrisCodeArray::ZERO,
                    1 => IrisCodeArray::ONES,
                    _ => IrisCodeArray::default(),
                };
                m[*r] = vec![*k == 1; N];
            }
            Op::Random(r, seed) => {
                // whatever it draws, the same generator draws it again, and another one draws something else
                let x = IrisCodeArray::random_rng(&mut ChaCha12Rng::seed_from_u64(*seed));
                let y = IrisCodeArray::random_rng(&mut ChaCha12Rng::seed_from_u64(*seed));
                let z = IrisCodeArray::random_rng(&mut ChaCha12Rng::seed_from_u64(seed ^ 1));
                ensure!(x == y, "random", "the same generator draws two different arrays");
                let d = (x ^ z).count_ones();
                ensure!((5000..=7800).contains(&d), "random-distance", "independent random arrays differ in {d} bits");
                for w in 0..50 {
                    let n = (0..256).filter(|b| x.get_bit(256 * w + b)).count();
                    ensure!((60..=196).contains(&n), "random-block", "256 random bits from {} have {n} ones", 256 * w);
                }
                a[*r] = x;
                m[*r] = (0..N).map(|i| x.get_bit(i)).collect();
            }
            Op::Bytes(d, x) => {
                let raw = a[*x].as_raw_slice().to_vec();
                a[*d].as_raw_mut_slice().copy_from_slice(&raw);
                m[*d] = m[*x].clone();
            }
            Op::Iter(r, upto) => {
                let mut it = a[*r].bits();
                for i in 0..*upto {
                    ensure!(it.len() == N - i && it.size_hint() == (N - i, Some(N - i)), "size_hint", "after {i} bits the iterator announces {:?}", it.size_hint());
                    ensure!(it.next() == Some(m[*r][i]), "iter", "bit {i} differs");
                }
                ensure!(it.count() == N - upto, "iter-rest", "wrong number of remaining bits");
            }
        }
        // the neighbourhood of a touched bit after every step, everything at the end
        if let Some((r, i)) = touched {
            for j in i.saturating_sub(130)..(i + 130).min(N) {
                ensure!(a[r].get_bit(j) == m[r][j], "disturbed", "step {k} {op:?}: bit {j} is now {}", a[r].get_bit(j));
            }
        }
        for x in 0..3 {
            for y in 0..3 {
                ensure!((a[x] == a[y]) == (m[x] == m[y]), "eq", "step {k} {op:?}: equality of {x} and {y} is wrong");
            }
        }
    }
    for x in 0..3 {
        same(&a[x], &m[x], &format!("array {x} at the end"))?;
    }
    Ok(Outcome::ok(c.ops.len() >= 8))
}

// ------------------------------------------------------------------------------------------------ P17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
    /// Usable bits, differing bits among them.
    w: usize,
    d: usize,
    /// Share of the unusable positions masked by 0: first only, 1: second only, 2: both, 3: mixed.
    out: u8,
    /// 0: random, 1: low positions, 2: high positions.
    layout: u8,
    seed: u64,
}
/// Codes with exactly `w` usable and `d` differing usable bits; unusable positions are arbitrary.
fn build(p: &Pair) -> (IrisCode, IrisCode) {
    let mut r = Rng64::new(p.seed);
    let mut order: Vec<usize> = (0..N).collect();
    for i in (1..N).rev() {
        let j = r.below(i as u64 + 1) as usize;
        order.swap(i, j);
    }
    let mut inside: Vec<usize> = order[..p.w].to_vec();
    let outside = &order[p.w..];
    let (mut x, mut y) = (IrisCode::default(), IrisCode::default());
    for i in 0..N {
        let b = r.next() & 1 == 1;
        x.code.set_bit(i, b);
        y.code.set_bit(i, b);
    }
    for i in outside {
        let how = if p.out == 3 { r.below(3) as u8 } else { p.out };
        x.mask.set_bit(*i, how == 1);
        y.mask.set_bit(*i, how == 0);
        x.code.set_bit(*i, r.next() & 1 == 1);
        y.code.set_bit(*i, r.next() & 1 == 1);
    }
    inside.sort();
    match p.layout {
        1 => {}
        2 => inside.reverse(),
        _ => {
            for i in (1..inside.len()).rev() {
                let j = r.below(i as u64 + 1) as usize;
                inside.swap(i, j);
            }
        }
    }
    for i in &inside[..p.d] {
        if r.next() & 1 == 1 { x.code.flip_bit(*i) } else { y.code.flip_bit(*i) }
    }
    (x, y)
}
fn decide(x: &IrisCode, y: &IrisCode) -> Option<bool> {
    std::panic::catch_unwind(|| x.is_close(y)).ok()
}
fn judge(p: &Pair, x: &IrisCode, y: &IrisCode) -> Result<(), Fail> {
    let t = p.w * 34 / 100;
    let want = if p.w < 8960 { None } else { Some(p.d < t) };
    for (u, v, o) in [(x, y, "forward"), (y, x, "backward")] {
        let got = decide(u, v);
        let kind = match (got, want) {
            (None, Some(_)) => "refused",
            (Some(_), None) => "answered",
            _ => "decision",
        };
        ensure!(got == want, kind, "{o}: {} of {} usable bits differ (threshold {t}): got {got:?}, should be {want:?}", p.d, p.w);
    }
    Ok(())
}
fn gen_pair(s: &mut Src, _i: u64) -> Pair {
    let w = match s.below(8) {
        0 => 8960 + s.below(3) as usize,
        1 => 8957 + s.below(3) as usize,
        2 => N - s.below(3) as usize,
        3 => s.usize(0, N),
        _ => s.usize(8960, N),
    };
    let t = w * 34 / 100;
    let d = match s.below(8) {
        0 => 0,
        1 => w,
        2 => s.usize(0, w),
        3 => t.saturating_sub(1 + s.below(20) as usize),
        _ => (t + 2).saturating_sub(s.below(5) as usize).min(w),
    };
    Pair { w, d, out: s.below(4) as u8, layout: s.below(3) as u8, seed: s.u64() }
}
fn run_pair(p: &Pair) -> Check {
    let (x, y) = build(p);
    judge(p, &x, &y)?;
    // masked-out bits do not matter
    let (mut x2, mut y2) = (x.clone(), y.clone());
    let mut r = Rng64::new(p.seed ^ 77);
    let usable = x.mask & y.mask;
    for i in 0..N {
        if !usable.get_bit(i) {
            if r.next() & 1 == 1 {
                x2.code.flip_bit(i);
            }
            if r.next() & 1 == 1 {
                y2.code.flip_bit(i);
            }
        }
    }
    judge(p, &x2, &y2)?;
    // reflexive
    if x.mask.count_ones() >= 8960 {
        ensure!(decide(&x, &x) == Some(true), "reflexive", "a code with {} usable bits does not match itself", x.mask.count_ones());
    }
    let t = p.w * 34 / 100;
    Ok(Outcome::ok(p.w >= 8960).label(if p.d < t { "close" } else { "far" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Row {
    w: usize,
}
fn gen_row(_s: &mut Src, i: u64) -> Row {
    Row { w: 8960 + (i as usize % 3841) }
}
/// Every admissible number of usable bits, with the distance just below, at and above the threshold.
fn run_row(c: &Row) -> Check {
    let t = c.w * 34 / 100;
    let mut x = IrisCode::default();
    for i in c.w..N {
        x.mask.set_bit((i * 7919) % N, false);
    }
    let left = x.mask.count_ones();
    let mut y = IrisCode::default();
    // 7919 is coprime to 12800, so exactly N - w positions were cleared
    ensure!(left == c.w, "harness", "mask has {left} ones");
    let mut d = 0;
    for i in 0..N {
        if d >= t + 1 {
            break;
        }
        if x.mask.get_bit(i) {
            if d + 2 > t {
                let p = Pair { w: c.w, d, out: 0, layout: 0, seed: 0 };
                judge(&p, &x, &y)?;
            }
            y.code.flip_bit(i);
            d += 1;
        }
    }
    let p = Pair { w: c.w, d, out: 0, layout: 0, seed: 0 };
    judge(&p, &x, &y)?;
    Ok(Outcome::ok(true).evals(4))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Gen {
    seed: u64,
}
fn gen_gen(s: &mut Src, _i: u64) -> Gen {
    Gen { seed: s.u64() }
}
fn run_gen(c: &Gen) -> Check {
    let mut r = ChaCha12Rng::seed_from_u64(c.seed);
    let a = IrisCode::random_rng(&mut r);
    let b = IrisCode::random_rng(&mut r);
    let sa = a.get_similar_iris(&mut r);
    let sb = b.get_similar_iris(&mut r);
    for (x, y, n) in [(&a, &b, "two codes"), (&a, &sa, "a code and a similar one"), (&sa, &b, "a similar and another code"), (&sa, &sb, "two similar codes")] {
        let u = (x.mask & y.mask).count_ones();
        ensure!(u >= MASK_THRESHOLD && u >= 8960, "mask", "{n}: only {u} usable bits");
        let d = ((x.code ^ y.code) & (x.mask & y.mask)).count_ones();
        let w = d < u * 34 / 100;
        ensure!(decide(x, y) == Some(w), "decision", "{n}: {d} of {u} bits differ, decided {:?}", decide(x, y));
    }
    ensure!(decide(&a, &sa) == Some(true) && decide(&sb, &b) == Some(true), "similar", "a similar code does not match its origin");
    ensure!(decide(&a, &a) == Some(true), "reflexive", "a generated code does not match itself");
    ensure!(decide(&a, &b) == Some(false), "unrelated", "two independent codes match");
    let e = IrisCode::random();
    ensure!(e.mask.count_ones() >= 8960 && decide(&e, &e) == Some(true), "random", "a random code is not usable");
    Ok(Outcome::ok(true))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P16",
            level: "exploration",
            families: vec![Box::new(Fam { name: "operations", quick: 20_000, thorough: 600_000, serial: false,
                rule: "Random sequences of up to 60 operations on three arrays against vectors of booleans; after a single-bit operation its neighbourhood, at the end every bit, iterator, count, equality and byte form. Non-trivial: at least 8 operations.",
                gen, run })],
            assumptions: vec!["bit positions below 12800"],
        },
        Prop {
            id: "P17",
            level: "exploration",
            families: vec![
                Box::new(Fam { name: "every-mask-size", quick: 3841, thorough: 3841, serial: false,
                    rule: "Every admissible number of usable bits with distances around the threshold (exhaustive in these two numbers).",
                    gen: gen_row, run: run_row }),
                Box::new(Fam { name: "pairs", quick: 15_000, thorough: 500_000, serial: false,
                    rule: "Random pairs with chosen usable and differing bits (biased to the limits), both argument orders, re-randomised masked-out bits, reflexivity. Non-trivial: enough usable bits.",
                    gen: gen_pair, run: run_pair }),
                Box::new(Fam { name: "generated", quick: 3000, thorough: 100_000, serial: false,
                    rule: "Codes from the generators: usable masks, similar codes match, independent ones do not.",
                    gen: gen_gen, run: run_gen }),
            ],
            assumptions: vec!["statistical statements about generated codes hold with overwhelming probability (more than 9 standard deviations)"],
        },
    ]
}
