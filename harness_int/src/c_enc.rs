//! P10: encodings of elements, vectors, shares and seeds.
use bytes::{Bytes, BytesMut};
use iris_mpc::prelude::{Aby3Share, Bit, RingImpl, Sharable, SpdzWiseShare, SpdzWiseVecShare, Swift3Share, VecShareTrait};
use iris_mpc::verif_hooks::p10 as hook;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use vengine::*;

fn rd<R: RingImpl>(r: &R) -> u128 {
    u128::from_sharetype(r.clone().upgrade_to_128())
}
fn mk<R: RingImpl>(v: u128) -> R {
    let bits: Vec<_> = (0..R::K).map(|i| Bit::new(v >> i & 1 == 1).to_sharetype()).collect();
    R::from_bits(&bits).unwrap()
}
fn wid(k: usize) -> usize {
    k.div_ceil(8)
}
const KS: [usize; 6] = [1, 8, 16, 32, 64, 128];
macro_rules! by_k {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k {
            1 => $f::<<Bit as Sharable>::Share>($($a),*),
            8 => $f::<<u8 as Sharable>::Share>($($a),*),
            16 => $f::<<u16 as Sharable>::Share>($($a),*),
            32 => $f::<<u32 as Sharable>::Share>($($a),*),
            64 => $f::<<u64 as Sharable>::Share>($($a),*),
            _ => $f::<<u128 as Sharable>::Share>($($a),*),
        }
    };
}

// ------------------------------------------------------------------------------------------------ elements

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ElCase {
    k: usize,
    v: u128,
    pre: Vec<u8>,
    post: Vec<u8>,
}
fn junk(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.usize(0, max);
    (0..n).map(|_| if s.bool() { s.below(256) as u8 } else { s.below(3) as u8 }).collect()
}
fn gen_el(s: &mut Src, i: u64) -> ElCase {
    let k = KS[(i % 6) as usize];
    ElCase { k, v: s.value(k), pre: junk(s, 5), post: junk(s, 5) }
}
fn el<R: RingImpl>(c: &ElCase) -> Check {
    let (w, x) = (wid(R::K), mk::<R>(c.v));
    let b = x.clone().to_bytes();
    ensure!(b.len() == w, "size", "{}-bit element encoded in {} bytes", R::K, b.len());
    for (n, r) in [("from_bytes", R::from_bytes(b.clone())), ("from_bytes_mut", R::from_bytes_mut(BytesMut::from(&b[..])))] {
        match r {
            Ok(y) => ensure!(rd(&y) == c.v && y == x, "roundtrip", "{n}: {:#x} came back as {:#x}", c.v, rd(&y)),
            Err(e) => return fail("roundtrip", format!("{n}: {:#x}: {e}", c.v)),
        }
    }
    let mut out = BytesMut::from(&c.pre[..]);
    x.add_to_bytes(&mut out);
    ensure!(out[..c.pre.len()] == c.pre[..] && out[c.pre.len()..] == b[..], "append", "add_to_bytes after {:?} gave {:?}, encoding is {:?}", c.pre, out, b);
    let mut inp = BytesMut::from(&b[..]);
    inp.extend_from_slice(&c.post);
    match R::take_from_bytes_mut(&mut inp) {
        Ok(y) => ensure!(rd(&y) == c.v && inp[..] == c.post[..], "take", "take: value {:#x} of {:#x}, rest {:?} of {:?}", rd(&y), c.v, inp, c.post),
        Err(e) => return fail("take", format!("take: {e}")),
    }
    let s = bincode::serialize(&x).map_err(|e| Fail { kind: "serde".into(), msg: e.to_string() })?;
    ensure!(s.len() == w, "size", "serialised element has {} bytes", s.len());
    match bincode::deserialize::<R>(&s) {
        Ok(y) => ensure!(rd(&y) == c.v, "serde", "serialisation of {:#x} came back as {:#x}", c.v, rd(&y)),
        Err(e) => return fail("serde", format!("{e}")),
    }
    Ok(Outcome::ok(c.v != 0).label(format!("k{}", R::K)).evals(5))
}
fn run_el(c: &ElCase) -> Check {
    by_k!(c.k, el, c)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawCase {
    k: usize,
    bytes: Vec<u8>,
    n: usize,
}
fn gen_raw(s: &mut Src, i: u64) -> RawCase {
    let k = KS[(i % 6) as usize];
    let w = wid(k);
    let n = s.usize(0, 5);
    let len = match s.below(6) {
        0 => s.usize(0, 2 * w + 2),
        1 => w,
        2 => w * n + s.usize(1, w.max(2)),
        3 => (w * n).saturating_sub(s.usize(1, w.max(2))),
        4 => s.usize(0, 40),
        _ => w * n,
    };
    let style = s.below(3);
    RawCase { k, bytes: (0..len).map(|_| match style { 0 => s.below(256) as u8, 1 => s.below(2) as u8, _ => (s.below(12) == 11) as u8 * 2 + s.below(2) as u8 }).collect(), n }
}
fn raw<R: RingImpl>(c: &RawCase) -> Check {
    let w = wid(R::K);
    let elem_ok = |b: &[u8]| b.len() == w && (R::K != 1 || b[0] <= 1);
    let ok = elem_ok(&c.bytes);
    for (n, r) in [("from_bytes", R::from_bytes(Bytes::from(c.bytes.clone()))), ("from_bytes_mut", R::from_bytes_mut(BytesMut::from(&c.bytes[..])))] {
        match r {
            Ok(y) => {
                ensure!(ok, "accepted", "{n} ({} bits) accepted {:?}", R::K, c.bytes);
                ensure!(y.to_bytes()[..] == c.bytes[..], "reencode", "{n}: decoding then encoding {:?} changed it", c.bytes);
            }
            Err(_) => ensure!(!ok, "refused", "{n} ({} bits) refused {:?}", R::K, c.bytes),
        }
    }
    let mut b = BytesMut::from(&c.bytes[..]);
    let ok = c.bytes.len() >= w && elem_ok(&c.bytes[..w]);
    match R::take_from_bytes_mut(&mut b) {
        Ok(y) => {
            ensure!(ok, "accepted", "take ({} bits) accepted {:?}", R::K, c.bytes);
            ensure!(y.to_bytes()[..] == c.bytes[..w] && b[..] == c.bytes[w..], "take", "take from {:?} left {:?}", c.bytes, b);
        }
        Err(_) => ensure!(!ok, "refused", "take ({} bits) refused {:?}", R::K, c.bytes),
    }
    let ok = c.bytes.len() == w * c.n && <[u8]>::chunks(&c.bytes, w).all(elem_ok);
    match hook::vec_from_bytes::<R>(BytesMut::from(&c.bytes[..]), c.n) {
        Ok(v) => {
            ensure!(ok, "accepted-vec", "vector of {} x {} bits decoded from {:?}", c.n, R::K, c.bytes);
            ensure!(v.len() == c.n && hook::slice_to_bytes(&v)[..] == c.bytes[..], "reencode-vec", "decoding then encoding {:?} changed it", c.bytes);
        }
        Err(_) => ensure!(!ok, "refused-vec", "vector of {} x {} bits refused {:?}", c.n, R::K, c.bytes),
    }
    match hook::iter_from_bytes::<R>(BytesMut::from(&c.bytes[..]), c.n) {
        Ok((l, v)) => {
            ensure!(ok, "accepted-iter", "iterator of {} x {} bits decoded from {:?}", c.n, R::K, c.bytes);
            ensure!(l == c.n && v.len() == c.n && hook::iter_to_bytes(&v)[..] == c.bytes[..], "reencode-iter", "decoding then encoding {:?} changed it (announced {l})", c.bytes);
        }
        Err(_) => ensure!(!ok, "refused-iter", "iterator of {} x {} bits refused {:?}", c.n, R::K, c.bytes),
    }
    match hook::bytes_to_seed(BytesMut::from(&c.bytes[..])) {
        Ok(s) => ensure!(c.bytes.len() == 32 && s[..] == c.bytes[..], "seed", "seed from {:?}", c.bytes),
        Err(_) => ensure!(c.bytes.len() != 32, "seed", "32-byte seed refused"),
    }
    Ok(Outcome::ok(c.bytes.len() != w).label(format!("k{}", R::K)).label(if ok { "valid" } else { "invalid" }).evals(6))
}
fn run_raw(c: &RawCase) -> Check {
    by_k!(c.k, raw, c)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VecCase {
    k: usize,
    v: Vec<u128>,
    /// Alterations of the encoding: truncate or extend by some bytes, expect another count, or break one byte.
    cut: usize,
    add: Vec<u8>,
    claim: usize,
    pos: usize,
    byte: u8,
}
fn gen_vec(s: &mut Src, i: u64) -> VecCase {
    let k = KS[(i % 6) as usize];
    let n = s.pick(&[0usize, 1, 2, 3, 7, 8, 9, 31, 64, 130, 1000]);
    let r = s.u64();
    let mut g = Rng64::new(r);
    let few = s.usize(0, n.min(4));
    let mut v: Vec<u128> = (0..few).map(|_| s.value(k)).collect();
    let m = if k >= 128 { u128::MAX } else { (1 << k) - 1 };
    for _ in few..n {
        v.push(g.u128() & m);
    }
    let mut add = junk(s, 17);
    if add.is_empty() {
        add.push(0);
    }
    VecCase { k, cut: s.usize(1, (wid(k) * n).max(1)), add, claim: s.usize(0, n + 3), pos: s.usize(0, n.max(1) - 1), byte: s.range(2, 255) as u8, v }
}
fn vect<R: RingImpl>(c: &VecCase) -> Check {
    let (w, n) = (wid(R::K), c.v.len());
    let v: Vec<R> = c.v.iter().map(|x| mk(*x)).collect();
    let b = hook::slice_to_bytes(&v);
    ensure!(b.len() == w * n, "size", "{n} x {} bits encoded in {} bytes", R::K, b.len());
    ensure!(hook::iter_to_bytes(&v) == b, "forms", "slice and iterator encodings differ");
    let mut cat = BytesMut::new();
    v.iter().for_each(|x| x.add_to_bytes(&mut cat));
    ensure!(cat[..] == b[..], "forms", "vector encoding is not the concatenation of the element encodings");
    let dec = |bytes: &[u8], n: usize| -> [Option<Vec<R>>; 2] {
        [hook::vec_from_bytes::<R>(BytesMut::from(bytes), n).ok(), hook::iter_from_bytes::<R>(BytesMut::from(bytes), n).ok().map(|x| x.1)]
    };
    for (j, d) in dec(&b, n).into_iter().enumerate() {
        match d {
            Some(d) => ensure!(d == v, "roundtrip", "form {j}: a vector of {n} x {} bits changed", R::K),
            None => return fail("roundtrip", format!("form {j}: valid encoding of {n} x {} bits refused", R::K)),
        }
    }
    let mut bad: Vec<(String, Vec<u8>, usize)> = vec![];
    if n > 0 {
        bad.push((format!("last {} bytes cut", c.cut), b[..b.len() - c.cut].to_vec(), n));
    }
    let mut e = b.to_vec();
    e.extend_from_slice(&c.add);
    bad.push((format!("{} bytes added", c.add.len()), e, n));
    if c.claim != n {
        bad.push((format!("decoded as {} elements", c.claim), b.to_vec(), c.claim));
    }
    if R::K == 1 && n > 0 {
        let mut e = b.to_vec();
        e[c.pos] = c.byte;
        bad.push((format!("byte {} of bit {}", c.byte, c.pos), e, n));
    }
    let evals = bad.len() as u64;
    for (what, bytes, n) in bad {
        for (j, d) in dec(&bytes, n).into_iter().enumerate() {
            ensure!(d.is_none(), "accepted-vec", "form {j}: {what}: accepted ({} bits)", R::K);
        }
    }
    Ok(Outcome::ok(n > 0).label(format!("k{}", R::K)).evals(3 + evals))
}
fn run_vec(c: &VecCase) -> Check {
    by_k!(c.k, vect, c)
}

// -------------------------------------------------------------------------------------------------- shares

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShareCase {
    t: usize,
    v: Vec<u128>,
    cut: usize,
    pos: usize,
    byte: u8,
}
const TYPES: usize = 11;
fn gen_share(s: &mut Src, i: u64) -> ShareCase {
    let n = s.usize(3, 12);
    ShareCase { t: (i % TYPES as u64) as usize, v: (0..n).map(|_| s.value(128)).collect(), cut: s.usize(1, 64), pos: s.usize(0, 2), byte: s.range(2, 255) as u8 }
}
fn round<S: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(name: &str, x: &S, size: usize, cut: usize, whole: bool) -> Result<Vec<u8>, Fail> {
    let b = bincode::serialize(x).map_err(|e| Fail { kind: format!("serde-{name}"), msg: e.to_string() })?;
    ensure!(b.len() == size, format!("size-{name}"), "{name}: {} bytes instead of {size}", b.len());
    match bincode::deserialize::<S>(&b) {
        Ok(y) => ensure!(&y == x, format!("roundtrip-{name}"), "{name}: {x:?} came back as {y:?}"),
        Err(e) => return fail(format!("roundtrip-{name}"), format!("{name}: {e}")),
    }
    if whole {
        let c = cut.min(b.len());
        ensure!(c == 0 || bincode::deserialize::<S>(&b[..b.len() - c]).is_err(), format!("accepted-{name}"), "{name}: truncated by {c} bytes and accepted");
    }
    Ok(b)
}
fn sh<T: Sharable>(c: &ShareCase) -> Check
where
    SpdzWiseShare<T>: PartialEq + std::fmt::Debug,
{
    let k = <T::Share as RingImpl>::K;
    let w = wid(k);
    let e = |v: u128| mk::<T::Share>(v);
    let a = Aby3Share::<T>::new(e(c.v[0]), e(c.v[1]));
    let b = round("aby3", &a, 2 * w, c.cut, true)?;
    let back: Aby3Share<T> = bincode::deserialize(&b).unwrap();
    let (x, y) = back.get_ab();
    let m = |k: usize, v: u128| if k >= 128 { v } else { v & ((1 << k) - 1) };
    ensure!(rd(&x) == m(k, c.v[0]) && rd(&y) == m(k, c.v[1]), "roundtrip-aby3", "components {:#x} {:#x} came back as {:#x} {:#x}", c.v[0], c.v[1], rd(&x), rd(&y));
    let s = Swift3Share::<T>::new(e(c.v[0]), e(c.v[1]), e(c.v[2]));
    let sb = round("swift3", &s, 3 * w, c.cut, true)?;
    let back: Swift3Share<T> = bincode::deserialize(&sb).unwrap();
    let (x, y, z) = back.get_abc();
    ensure!([rd(&x), rd(&y), rd(&z)] == [m(k, c.v[0]), m(k, c.v[1]), m(k, c.v[2])], "roundtrip-swift3", "components changed");
    if k == 1 {
        let mut bad = b.clone();
        bad[c.pos % 2] = c.byte;
        ensure!(bincode::deserialize::<Aby3Share<T>>(&bad).is_err(), "accepted-aby3", "a bit encoded as {} was accepted", c.byte);
        let mut bad = sb.clone();
        bad[c.pos] = c.byte;
        ensure!(bincode::deserialize::<Swift3Share<T>>(&bad).is_err(), "accepted-swift3", "a bit encoded as {} was accepted", c.byte);
    }
    let mut n = 4;
    let pairs: Vec<_> = c.v.chunks_exact(3).map(|t| SpdzWiseShare::<T>::new(Aby3Share::new(e(t[0]), e(t[1])), Aby3Share::new(e(t[1] ^ t[2]), e(t[2])))).collect();
    for p in &pairs {
        round("spdzwise", p, 4 * w, c.cut, true)?;
        n += 1;
    }
    let mut vs = <SpdzWiseVecShare<T> as VecShareTrait>::with_capacity(pairs.len());
    for p in &pairs {
        VecShareTrait::push(&mut vs, p.clone());
    }
    round("spdzwise-vec", &vs, 16 + 4 * w * pairs.len(), c.cut.min(4 * w), true)?;
    let many: Vec<Aby3Share<T>> = c.v.chunks_exact(2).map(|t| Aby3Share::new(e(t[0]), e(t[1]))).collect();
    round("aby3-vec", &many, 8 + 2 * w * many.len(), c.cut.min(2 * w), true)?;
    let many: Vec<Swift3Share<T>> = c.v.chunks_exact(3).map(|t| Swift3Share::new(e(t[0]), e(t[1]), e(t[2]))).collect();
    round("swift3-vec", &many, 8 + 3 * w * many.len(), c.cut.min(3 * w), true)?;
    Ok(Outcome::ok(true).label(std::any::type_name::<T>()).evals(n + 3))
}
fn run_share(c: &ShareCase) -> Check {
    match c.t {
        0 => sh::<Bit>(c),
        1 => sh::<u8>(c),
        2 => sh::<u16>(c),
        3 => sh::<u32>(c),
        4 => sh::<u64>(c),
        5 => sh::<u128>(c),
        6 => sh::<i8>(c),
        7 => sh::<i16>(c),
        8 => sh::<i32>(c),
        9 => sh::<i64>(c),
        _ => sh::<i128>(c),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P10",
        level: "exploration",
        families: vec![
            Box::new(Fam { name: "elements", quick: 300000, thorough: 6000000, serial: false,
                rule: "Boundary-biased element of each width: every encode/decode form, appending and taking with surrounding bytes, serialisation; round trip and exact size. Non-trivial: the value is not zero.",
                gen: gen_el, run: run_el }),
            Box::new(Fam { name: "bytes", quick: 600000, thorough: 12000000, serial: false,
                rule: "Byte strings of lengths around multiples of the width, random or nearly valid bits: each decoder (element, element from the front, vector, iterator, seed) accepts exactly the strings of the right length with valid bits, and re-encoding gives the same bytes. Non-trivial: not of the single-element length.",
                gen: gen_raw, run: run_raw }),
            Box::new(Fam { name: "vectors", quick: 60000, thorough: 1000000, serial: false,
                rule: "Vectors of up to 1000 elements: both encoders agree, both decoders return the vector, and truncated, extended, miscounted or invalid-bit encodings are refused. Non-trivial: not empty.",
                gen: gen_vec, run: run_vec }),
            Box::new(Fam { name: "shares", quick: 110000, thorough: 2000000, serial: false,
                rule: "Shares and share vectors of the three schemes over all types serialised and read back component by component; exact size; truncated and invalid-bit forms refused. All cases are non-trivial.",
                gen: gen_share, run: run_share }),
        ],
        assumptions: vec!["shares are serialised with bincode, as the crate does"],
    }]
}
