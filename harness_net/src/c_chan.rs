//! P18: channels deliver exactly the sent values, in order.
use crate::pipe::*;
use bytes::{Bytes, BytesMut};
use futures::{SinkExt, StreamExt};
use mpc_net::channel::{Channel, ChannelHandle};
use mpc_net::codecs::BincodeCodec;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::io;
use std::time::Duration;
use tokio_util::codec::{Decoder, Encoder, LengthDelimitedCodec};
use vengine::*;

/// A value, given by a length and a seed.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Blob {
    pub len: usize,
    pub seed: u64,
}
pub fn bytes_of(b: Blob) -> Vec<u8> {
    let mut r = Rng64::new(b.seed);
    let mut v = Vec::with_capacity(b.len + 8);
    while v.len() < b.len {
        v.extend(r.next().to_le_bytes());
    }
    v.truncate(b.len);
    v
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    a: u8,
    b: Vec<u16>,
    c: Option<Vec<u8>>,
    d: (i64, bool),
    e: Alt,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Alt {
    Nothing,
    One(u32),
    Two { x: u8, y: [u8; 3] },
}

pub trait Kind: 'static {
    type S: Send + std::fmt::Debug + 'static;
    type R: Send + std::fmt::Debug + 'static;
    type C: Decoder<Item = Self::R, Error = io::Error> + Encoder<Self::S, Error = io::Error> + Clone + Send + Unpin + 'static;
    fn codec() -> Self::C;
    fn mk(b: Blob) -> Self::S;
    /// Encoding of the value, made without the crate under test.
    fn payload(b: Blob) -> Vec<u8>;
    fn canon(r: &Self::R) -> Vec<u8>;
    /// Reference decoder: canonical encoding of the decoded value, and whether bytes were left over.
    fn reference(p: &[u8]) -> Option<(Vec<u8>, bool)>;
    /// Keeps mutated payloads clear of allocations between 16 MiB and the impossible.
    fn tame(p: &mut [u8]) {
        let _ = p;
    }
}
pub struct Raw;
impl Kind for Raw {
    type S = Bytes;
    type R = BytesMut;
    type C = LengthDelimitedCodec;
    fn codec() -> Self::C {
        LengthDelimitedCodec::new()
    }
    fn mk(b: Blob) -> Bytes {
        bytes_of(b).into()
    }
    fn payload(b: Blob) -> Vec<u8> {
        bytes_of(b)
    }
    fn canon(r: &BytesMut) -> Vec<u8> {
        r.to_vec()
    }
    fn reference(p: &[u8]) -> Option<(Vec<u8>, bool)> {
        Some((p.to_vec(), false))
    }
}
pub trait Val: Serialize + DeserializeOwned + Send + std::fmt::Debug + 'static {
    fn of(b: Blob) -> Self;
    fn tame(_p: &mut [u8]) {}
}
pub struct Bin<T>(std::marker::PhantomData<T>);
impl<T: Val + Unpin> Kind for Bin<T> {
    type S = T;
    type R = T;
    type C = BincodeCodec<T>;
    fn codec() -> Self::C {
        BincodeCodec::new()
    }
    fn mk(b: Blob) -> T {
        T::of(b)
    }
    fn payload(b: Blob) -> Vec<u8> {
        bincode::serialize(&T::of(b)).unwrap()
    }
    fn canon(r: &T) -> Vec<u8> {
        bincode::serialize(r).unwrap()
    }
    fn reference(p: &[u8]) -> Option<(Vec<u8>, bool)> {
        let v: T = bincode::deserialize(p).ok()?;
        let c = bincode::serialize(&v).unwrap();
        let left = c.len() < p.len();
        Some((c, left))
    }
    fn tame(p: &mut [u8]) {
        T::tame(p)
    }
}
impl Val for u64 {
    fn of(b: Blob) -> Self {
        b.seed
    }
}
impl Val for String {
    fn of(b: Blob) -> Self {
        bytes_of(b).iter().map(|x| if x % 17 == 0 { 'ß' } else { (32 + x % 90) as char }).collect()
    }
    fn tame(p: &mut [u8]) {
        if p.len() >= 8 {
            let l = u64::from_le_bytes(p[..8].try_into().unwrap());
            if l >= 1 << 24 {
                p[7] |= 0x80;
            }
        }
    }
}
impl Val for Vec<u8> {
    fn of(b: Blob) -> Self {
        bytes_of(b)
    }
}
impl Val for Rec {
    fn of(b: Blob) -> Self {
        let v = bytes_of(b);
        let n = v.len() / 2;
        Rec {
            a: b.seed as u8,
            b: v[..n].iter().map(|x| *x as u16 * 257).collect(),
            c: if b.seed & 1 == 1 { Some(v[n..].to_vec()) } else { None },
            d: (b.seed as i64, b.seed & 2 == 2),
            e: match b.seed >> 60 {
                0..=4 => Alt::Nothing,
                5..=9 => Alt::One(b.seed as u32),
                _ => Alt::Two { x: 1, y: [2, 3, b.seed as u8] },
            },
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum K {
    Raw,
    U64,
    Str,
    Vec,
    Rec,
}
macro_rules! by_kind {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k {
            K::Raw => $f::<Raw>($($a),*),
            K::U64 => $f::<Bin<u64>>($($a),*),
            K::Str => $f::<Bin<String>>($($a),*),
            K::Vec => $f::<Bin<Vec<u8>>>($($a),*),
            K::Rec => $f::<Bin<Rec>>($($a),*),
        }
    };
}
const KINDS: [K; 5] = [K::Raw, K::U64, K::Str, K::Vec, K::Rec];

/// Runs on a single-threaded runtime with a paused clock: if nothing can make progress, the limit passes at once.
fn sim<F: std::future::Future<Output = Result<T, Fail>>, T>(f: F) -> Result<T, Fail> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async move {
        match tokio::time::timeout(Duration::from_secs(100_000), f).await {
            Ok(r) => r,
            Err(_) => fail("stuck", "an operation waits forever"),
        }
    })
}

fn blob(s: &mut Src) -> Blob {
    let len = match s.below(10) {
        0 => 0,
        1..=5 => s.usize(0, 40),
        6 => s.usize(100, 300),
        7 => s.usize(1000, 9000),
        8 => s.pick(&[8191usize, 8192, 8193, 4095, 4096, 65535, 65536]),
        _ => s.usize(1, 70000),
    };
    Blob { len, seed: s.u64() }
}
fn small(s: &mut Src) -> Blob {
    Blob { len: s.usize(0, 30), seed: s.u64() }
}
fn frag(s: &mut Src, total: usize) -> Frag {
    let chunk = if total < 4000 { s.pick(&[1usize, 2, 3, 5, 17, 100, 10_000]) } else { s.pick(&[100usize, 1000, 4096, 100_000]) };
    Frag { seed: s.u64(), chunk, stall: s.pick(&[0u64, 2, 3, 8]), cap: s.pick(&[0usize, 1, 7, 64, 8192]) }
}
fn total(l: &[Act]) -> usize {
    l.iter().map(|a| if let Act::Send(b) | Act::Feed(b) = a { b.len + 60 } else { 0 }).sum()
}

// --------------------------------------------------------------------------------------------- sent = received

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Act {
    Send(Blob),
    Feed(Blob),
    Flush,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    kind: K,
    /// Both sides write and read at the same time over their own halves; else they take turns on whole channels.
    split: bool,
    acts: [Vec<Act>; 2],
    frag: [Frag; 2],
}
fn gen_frames(s: &mut Src, _i: u64) -> FCase {
    let kind = s.pick(&KINDS);
    let side = |s: &mut Src| -> Vec<Act> {
        let n = s.usize(0, 12);
        let mut v: Vec<Act> = (0..n)
            .map(|_| match s.below(6) {
                0 | 1 => Act::Feed(blob(s)),
                2 => Act::Flush,
                _ => Act::Send(blob(s)),
            })
            .collect();
        v.push(Act::Flush);
        v
    };
    let acts = [side(s), side(s)];
    let split = s.bool();
    let mut fr = [frag(s, total(&acts[0])), frag(s, total(&acts[1]))];
    if !split {
        // with both sides writing first, nobody reads while a limited pipe is full
        fr[0].cap = 0;
        fr[1].cap = 0;
    }
    if fr.iter().any(|f| f.cap > 0 && f.cap < 64) && total(&acts[0]) + total(&acts[1]) > 20_000 {
        fr[0].cap = 8192;
        fr[1].cap = 8192;
    }
    FCase { kind, split, acts, frag: fr }
}

fn sent(a: &[Act]) -> Vec<Blob> {
    a.iter().filter_map(|a| if let Act::Send(b) | Act::Feed(b) = a { Some(*b) } else { None }).collect()
}
fn io_fail<T>(what: &str, r: Result<T, io::Error>) -> Result<T, Fail> {
    r.map_err(|e| Fail { kind: "io".into(), msg: format!("{what}: {e}") })
}
async fn write_all<Kd: Kind, W: futures::Sink<Kd::S, Error = io::Error> + Unpin>(w: &mut W, acts: &[Act]) -> Result<(), Fail> {
    for a in acts {
        match a {
            Act::Send(b) => io_fail("send", w.send(Kd::mk(*b)).await)?,
            Act::Feed(b) => io_fail("feed", w.feed(Kd::mk(*b)).await)?,
            Act::Flush => io_fail("flush", w.flush().await)?,
        }
    }
    Ok(())
}
async fn read_all<Kd: Kind, R: futures::Stream<Item = Result<Kd::R, io::Error>> + Unpin>(r: &mut R, want: &[Blob]) -> Result<(), Fail> {
    for (i, b) in want.iter().enumerate() {
        match r.next().await {
            None => return fail("ended", format!("the stream ends after {i} of {} values", want.len())),
            Some(Err(e)) => return fail("io", format!("value {i}: {e}")),
            Some(Ok(v)) => ensure!(Kd::canon(&v) == Kd::payload(*b), "value", "value {i}: read {:.200?}, sent {b:?}", v),
        }
    }
    Ok(())
}
fn frames<Kd: Kind>(c: &FCase) -> Check {
    sim(async {
        let (w0, r0) = pipe(c.frag[0]);
        let (w1, r1) = pipe(c.frag[1]);
        let mut a = Channel::new::<Kd::S>(r1, w0, Kd::codec());
        let mut b = Channel::new::<Kd::S>(r0, w1, Kd::codec());
        let (s0, s1) = (sent(&c.acts[0]), sent(&c.acts[1]));
        if c.split {
            let ((mut aw, mut ar), (mut bw, mut br)) = (a.split(), b.split());
            futures::try_join!(
                write_all::<Kd, _>(&mut aw, &c.acts[0]),
                write_all::<Kd, _>(&mut bw, &c.acts[1]),
                read_all::<Kd, _>(&mut br, &s0),
                read_all::<Kd, _>(&mut ar, &s1)
            )?;
            // nothing may follow
            drop((aw, bw));
            let (x, y) = (br.next().await, ar.next().await);
            ensure!(x.is_none() && y.is_none(), "extra", "after all values: {x:?} {y:?}");
        } else {
            futures::try_join!(
                async {
                    write_all::<Kd, _>(&mut a, &c.acts[0]).await?;
                    read_all::<Kd, _>(&mut a, &s1).await
                },
                async {
                    write_all::<Kd, _>(&mut b, &c.acts[1]).await?;
                    read_all::<Kd, _>(&mut b, &s0).await
                }
            )?;
            let (x, y) = tokio::join!(a.close::<Kd::S>(), b.close::<Kd::S>());
            io_fail("close", x)?;
            io_fail("close", y)?;
        }
        let n = s0.len() + s1.len();
        Ok(Outcome::ok(n >= 2).evals(n as u64).label(format!("{:?}", c.kind)))
    })
}
fn run_frames(c: &FCase) -> Check {
    by_kind!(c.kind, frames, c)
}

// ------------------------------------------------------------------------------------------------ broken streams

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mangle {
    None,
    Cut(usize),
    Append(Vec<u8>),
    Flip(usize, u8),
    Replace(Vec<u8>),
    /// First eight bytes (the length of strings and vectors).
    Head(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BFrame {
    b: Blob,
    m: Mangle,
    /// Added to the length in the header.
    lie: i64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BCase {
    kind: K,
    frames: Vec<BFrame>,
    cut: Option<u64>,
    frag: Frag,
}
fn gen_broken(s: &mut Src, _i: u64) -> BCase {
    let kind = s.pick(&KINDS);
    let n = s.usize(1, 5);
    let bad = s.usize(0, n);
    let frames: Vec<BFrame> = (0..n)
        .map(|i| {
            let b = if s.one_in(6) { blob(s) } else { small(s) };
            let m = if i == bad {
                match s.below(6) {
                    0 => Mangle::None,
                    1 => Mangle::Cut(s.usize(1, 20)),
                    2 => {
                        let n = s.usize(1, 5);
                        Mangle::Append((0..n).map(|_| s.below(256) as u8).collect())
                    }
                    3 => Mangle::Flip(s.usize(0, 40), 1 << s.below(8)),
                    4 => {
                        let n = s.usize(0, 24);
                        Mangle::Replace((0..n).map(|_| s.below(256) as u8).collect())
                    }
                    _ => Mangle::Head(s.pick(&[0u64, 1, 2, 7, 100, 1 << 20, (1 << 24) - 1, 1 << 63, u64::MAX, u64::MAX - 7])),
                }
            } else {
                Mangle::None
            };
            let lie = if i == bad && s.one_in(3) { s.pick(&[1i64, 2, 4, -1, -2, 255, 8 << 20, (8 << 20) + 1, u32::MAX as i64]) } else { 0 };
            BFrame { b, m, lie }
        })
        .collect();
    let cut = if s.one_in(2) { Some(s.u64()) } else { None };
    let mut f = frag(s, 1000);
    f.cap = 0;
    BCase { kind, frames, cut, frag: f }
}
fn stream<Kd: Kind>(c: &BCase) -> Vec<u8> {
    let mut out = vec![];
    for f in &c.frames {
        let mut p = Kd::payload(f.b);
        match &f.m {
            Mangle::None => {}
            Mangle::Cut(n) => p.truncate(p.len().saturating_sub(*n)),
            Mangle::Append(v) => p.extend(v),
            Mangle::Flip(i, x) => {
                if !p.is_empty() {
                    let n = p.len();
                    p[i % n] ^= x
                }
            }
            Mangle::Replace(v) => p = v.clone(),
            Mangle::Head(h) => {
                let n = p.len().min(8);
                p[..n].copy_from_slice(&h.to_le_bytes()[..n])
            }
        }
        Kd::tame(&mut p);
        let l = (p.len() as i64 + f.lie).clamp(0, u32::MAX as i64) as u32;
        out.extend(l.to_be_bytes());
        out.extend(p);
    }
    if let Some(c) = c.cut {
        let n = c as usize % (out.len() + 1);
        out.truncate(n);
    }
    out
}
#[derive(Debug, PartialEq)]
enum Want {
    Value(Vec<u8>),
    /// Bytes left over inside a frame: an error is as good as the value.
    Either(Vec<u8>),
    Error,
    /// The stream stops right behind a header that announces a payload.
    HeaderOnly,
    End,
}
fn wanted<Kd: Kind>(mut s: &[u8]) -> Vec<Want> {
    let mut v = vec![];
    loop {
        if s.is_empty() {
            v.push(Want::End);
            return v;
        }
        if s.len() < 4 {
            v.push(Want::Error);
            return v;
        }
        let l = u32::from_be_bytes(s[..4].try_into().unwrap()) as usize;
        if l > 8 * 1024 * 1024 || s.len() - 4 < l {
            v.push(if s.len() == 4 && l <= 8 * 1024 * 1024 { Want::HeaderOnly } else { Want::Error });
            return v;
        }
        let mut p = s[4..4 + l].to_vec();
        // a shifted header can expose an untamed string length: such streams are left out
        let q = p.clone();
        Kd::tame(&mut p);
        if p != q {
            v.push(Want::Error);
            return v;
        }
        match Kd::reference(&p) {
            Some((c, false)) => v.push(Want::Value(c)),
            Some((c, true)) => v.push(Want::Either(c)),
            None => {
                v.push(Want::Error);
                return v;
            }
        }
        s = &s[4 + l..];
    }
}
fn broken<Kd: Kind>(c: &BCase) -> Check {
    let data = stream::<Kd>(c);
    {
        // see `tame`
        let mut s = &data[..];
        while s.len() >= 4 {
            let l = u32::from_be_bytes(s[..4].try_into().unwrap()) as usize;
            if s.len() - 4 < l {
                break;
            }
            let mut p = s[4..4 + l].to_vec();
            let q = p.clone();
            Kd::tame(&mut p);
            if p != q {
                return Ok(Outcome::ok(false).label("left out"));
            }
            s = &s[4 + l..];
        }
    }
    let want = wanted::<Kd>(&data);
    sim(async {
        use tokio::io::AsyncWriteExt;
        let (mut w, r) = pipe(c.frag);
        let (w2, _r2) = pipe(c.frag);
        let mut ch = Channel::new::<Kd::S>(r, w2, Kd::codec());
        let feed = async {
            let _ = w.write_all(&data).await;
            let _ = w.shutdown().await;
        };
        let read = async {
            for (i, x) in want.iter().enumerate() {
                let got = ch.next().await;
                match (x, got) {
                    (Want::Value(b), Some(Ok(v))) => ensure!(Kd::canon(&v) == *b, "value", "frame {i}: read {v:.200?}, expected {b:.200?}"),
                    (Want::Either(b), Some(Ok(v))) => ensure!(Kd::canon(&v) == *b, "value", "frame {i}: read {v:.200?}, expected {b:.200?} or an error"),
                    (Want::Either(_), Some(Err(_))) => return Ok(()),
                    (Want::Error | Want::HeaderOnly, Some(Err(_))) => return Ok(()),
                    (Want::HeaderOnly, None) => return fail("header-only", format!("frame {i} stops right behind its header and the stream just ends")),
                    (Want::End, None) => {}
                    (Want::Error, Some(Ok(v))) => return fail("accepted", format!("frame {i} is malformed or truncated and was read as {v:.200?}")),
                    (Want::Error, None) => return fail("silent", format!("frame {i} is malformed or truncated and the stream just ends")),
                    (x, got) => return fail("value", format!("frame {i}: got {got:.200?}, expected {x:.200?}")),
                }
            }
            Ok(())
        };
        let (_, r) = tokio::join!(feed, read);
        r?;
        let err = !matches!(want.last(), Some(Want::End)) || want.iter().any(|x| matches!(x, Want::Either(_)));
        Ok(Outcome::ok(err).evals(want.len() as u64).label(format!("{:?}", c.kind)).label(if err { "error" } else { "whole" }))
    })
}
fn run_broken(c: &BCase) -> Check {
    by_kind!(c.kind, broken, c)
}

// ------------------------------------------------------------------------------------------------ closing

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CSide {
    write: Vec<Blob>,
    flush: bool,
    read: usize,
    /// Bytes of a further frame that are written before the end.
    partial: usize,
    /// The side just goes away instead of closing.
    drop: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CCase {
    kind: K,
    sides: [CSide; 2],
    frag: Frag,
}
fn gen_close(s: &mut Src, _i: u64) -> CCase {
    let kind = s.pick(&KINDS);
    let side = |s: &mut Src| {
        let n = s.usize(0, 4);
        CSide {
            write: (0..n).map(|_| if s.one_in(8) { blob(s) } else { small(s) }).collect(),
            flush: s.bool(),
            read: s.usize(0, 4),
            partial: 0,
            drop: s.one_in(6),
        }
    };
    let mut sides = [side(s), side(s)];
    for i in 0..2 {
        let n = sides[1 - i].write.len();
        sides[i].read = if s.bool() { n } else { sides[i].read.min(n) };
    }
    for i in 0..2 {
        // an unflushed side that reads first could starve its peer
        if sides[i].read > 0 {
            sides[i].flush = true;
        }
        if sides[i].drop && !sides[i].flush {
            sides[i].flush = true;
        }
    }
    let mut f = frag(s, 100_000);
    f.cap = 0;
    CCase { kind, sides, frag: f }
}
fn close<Kd: Kind>(c: &CCase) -> Check {
    sim(async {
        let (w0, r0) = pipe(c.frag);
        let (w1, r1) = pipe(Frag { seed: c.frag.seed ^ 99, ..c.frag });
        let a = Channel::new::<Kd::S>(r1, w0, Kd::codec());
        let b = Channel::new::<Kd::S>(r0, w1, Kd::codec());
        async fn side<Kd: Kind>(mut ch: Channel<Reader, Writer, Kd::C>, me: &CSide, other: &CSide) -> Result<Option<Result<(), io::Error>>, Fail> {
            // a peer that leaves values unread, or just goes away, may be gone already
            let early = other.drop || other.read < me.write.len();
            for b in &me.write {
                match ch.feed(Kd::mk(*b)).await {
                    Err(_) if early => return Ok(None),
                    r => io_fail("feed", r)?,
                }
            }
            if me.flush {
                match futures::SinkExt::<Kd::S>::flush(&mut ch).await {
                    Err(_) if early => return Ok(None),
                    r => io_fail("flush", r)?,
                }
            }
            read_all::<Kd, _>(&mut ch, &other.write[..me.read]).await?;
            if me.drop {
                return Ok(None);
            }
            Ok(Some(ch.close::<Kd::S>().await))
        }
        let (x, y) = tokio::join!(side::<Kd>(a, &c.sides[0], &c.sides[1]), side::<Kd>(b, &c.sides[1], &c.sides[0]));
        for (i, r) in [x, y].into_iter().enumerate() {
            let left = c.sides[1 - i].write.len() - c.sides[i].read;
            match (r?, left) {
                (Some(Ok(())), n) if n > 0 => return fail("unreported", format!("side {i} closes without an error although {n} values were never read")),
                // the peer may be gone before this side has written its last values
                (Some(Err(e)), 0) if !c.sides[1 - i].drop && c.sides[1 - i].read == c.sides[i].write.len() => return fail("io", format!("side {i}: closing fails with nothing left over: {e}")),
                _ => {}
            }
        }
        let left = (0..2).any(|i| c.sides[1 - i].write.len() > c.sides[i].read);
        Ok(Outcome::ok(c.sides.iter().any(|s| !s.write.is_empty())).label(format!("{:?}", c.kind)).label(if left { "leftover" } else { "clean" }))
    })
}
fn run_close(c: &CCase) -> Check {
    by_kind!(c.kind, close, c)
}

/// One side closes; the peer has written whole frames and then part of one.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PCase {
    kind: K,
    whole: Vec<Blob>,
    last: Blob,
    keep: usize,
    frag: Frag,
}
fn gen_partial(s: &mut Src, _i: u64) -> PCase {
    let n = s.usize(0, 2);
    let mut f = frag(s, 100);
    f.cap = 0;
    PCase { kind: s.pick(&KINDS), whole: (0..n).map(|_| small(s)).collect(), last: small(s), keep: s.usize(0, 40), frag: f }
}
fn partial<Kd: Kind>(c: &PCase) -> Check {
    sim(async {
        use tokio::io::AsyncWriteExt;
        let (mut w, r) = pipe(c.frag);
        let (w2, _r2) = pipe(c.frag);
        let mut ch = Channel::new::<Kd::S>(r, w2, Kd::codec());
        let mut data = vec![];
        for b in &c.whole {
            let p = Kd::payload(*b);
            data.extend((p.len() as u32).to_be_bytes());
            data.extend(p);
        }
        let p = Kd::payload(c.last);
        let mut l = (p.len() as u32).to_be_bytes().to_vec();
        l.extend(p);
        let keep = c.keep % l.len();
        data.extend(&l[..keep]);
        let _ = w.write_all(&data).await;
        let _ = w.shutdown().await;
        read_all::<Kd, _>(&mut ch, &c.whole).await?;
        let r = ch.close::<Kd::S>().await;
        if keep == 0 {
            io_fail("close", r)?;
        } else {
            ensure!(r.is_err(), if keep == 4 { "header-only" } else { "unreported" }, "closing ignores {keep} bytes of an unfinished frame");
        }
        Ok(Outcome::ok(keep > 0).label(format!("{:?}", c.kind)))
    })
}
fn run_partial(c: &PCase) -> Check {
    by_kind!(c.kind, partial, c)
}

// ------------------------------------------------------------------------------------------------ large frames

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LCase {
    kind: K,
    len: usize,
    seed: u64,
}
fn gen_large(s: &mut Src, i: u64) -> LCase {
    let m = 8 * 1024 * 1024usize;
    let d = [0i64, 1, -1, 8, 100, 1 << 20, -8, -(1 << 20)][i as usize % 8];
    LCase { kind: if (i / 8) % 2 == 0 { K::Raw } else { K::Vec }, len: (m as i64 + d) as usize, seed: s.u64() }
}
fn large<Kd: Kind>(c: &LCase) -> Check {
    let m = 8 * 1024 * 1024usize;
    sim(async {
        let f = Frag { seed: c.seed, chunk: 1 << 20, stall: 5, cap: 0 };
        let (w0, r0) = pipe(f);
        let (w1, r1) = pipe(f);
        let mut a = Channel::new::<Kd::S>(r1, w0, Kd::codec());
        let mut b = Channel::new::<Kd::S>(r0, w1, Kd::codec());
        let big = Blob { len: c.len, seed: c.seed };
        let after = Blob { len: 10, seed: 5 };
        let size = Kd::payload(big).len();
        let r = a.send(Kd::mk(big)).await;
        let mut want = vec![];
        if size <= m {
            io_fail("send", r)?;
            want.push(big);
        } else {
            // the peer would refuse it: the sender must be told
            ensure!(r.is_err(), "oversized", "a value of {size} bytes is sent without an error");
        }
        io_fail("send", a.send(Kd::mk(after)).await)?;
        want.push(after);
        read_all::<Kd, _>(&mut b, &want).await?;
        let (x, y) = tokio::join!(a.close::<Kd::S>(), b.close::<Kd::S>());
        io_fail("close", x)?;
        io_fail("close", y)?;
        Ok(Outcome::ok(true).label(if size <= m { "fits" } else { "too large" }))
    })
}
fn run_large(c: &LCase) -> Check {
    by_kind!(c.kind, large, c)
}

// ------------------------------------------------------------------------------------------------ managed channels

#[derive(Clone, Debug, Serialize, Deserialize)]
enum MOp {
    Send { side: usize, b: Blob, keep: bool },
    Recv { side: usize, keep: bool },
    Yield,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MCase {
    kind: K,
    ops: Vec<MOp>,
    /// Order in which the answers are looked at.
    order: u64,
    frag: Frag,
}
fn gen_managed(s: &mut Src, _i: u64) -> MCase {
    let n = s.usize(1, 24);
    let mut open = [0i64; 2];
    let mut ops = vec![];
    for _ in 0..n {
        match s.below(5) {
            0 => ops.push(MOp::Yield),
            1 | 2 => {
                let side = s.usize(0, 1);
                open[1 - side] -= 1;
                ops.push(MOp::Send { side, b: if s.one_in(5) { blob(s) } else { small(s) }, keep: s.below(3) > 0 });
            }
            _ => {
                let side = s.usize(0, 1);
                // the queue of a handle holds eight requests
                if open[side] < 7 {
                    open[side] += 1;
                    ops.push(MOp::Recv { side, keep: s.below(6) > 0 });
                }
            }
        }
    }
    let mut f = frag(s, 100_000);
    f.cap = 0;
    MCase { kind: s.pick(&KINDS), ops, order: s.u64(), frag: f }
}
fn managed<Kd: Kind>(c: &MCase) -> Check {
    sim(async {
        let (w0, r0) = pipe(c.frag);
        let (w1, r1) = pipe(Frag { seed: c.frag.seed ^ 99, ..c.frag });
        let a = ChannelHandle::<Kd::S, Kd::R>::manage(Channel::new::<Kd::S>(r1, w0, Kd::codec()));
        let b = ChannelHandle::<Kd::S, Kd::R>::manage(Channel::new::<Kd::S>(r0, w1, Kd::codec()));
        let mut h = [a, b];
        let mut sent: [Vec<Blob>; 2] = [vec![], vec![]];
        let mut nrecv = [0usize; 2];
        let mut sends = vec![];
        let mut recvs = vec![];
        for op in &c.ops {
            match op {
                MOp::Yield => tokio::task::yield_now().await,
                MOp::Send { side, b, keep } => {
                    let r = h[*side].send(Kd::mk(*b)).await;
                    sent[*side].push(*b);
                    if *keep {
                        sends.push((*side, sent[*side].len() - 1, r));
                    }
                }
                MOp::Recv { side, keep } => {
                    let r = h[*side].recv().await;
                    if *keep {
                        recvs.push((*side, nrecv[*side], r));
                    }
                    nrecv[*side] += 1;
                }
            }
        }
        let mut r = Rng64::new(c.order);
        for i in (1..recvs.len()).rev() {
            recvs.swap(i, r.below(i as u64 + 1) as usize);
        }
        let nops = sends.len() + recvs.len();
        for (side, i, x) in sends {
            match x.await {
                Ok(Ok(())) => {}
                o => return fail("send", format!("sending value {i} of side {side}: {o:?}")),
            }
        }
        // requests beyond what was sent are answered when the peer goes away
        let (h0, h1) = { let [x, y] = h; (x, y) };
        drop(h0);
        drop(h1);
        let mut some = false;
        for (side, i, x) in recvs {
            let got = x.await;
            match (sent[1 - side].get(i), got) {
                (Some(b), Ok(Ok(v))) => {
                    some = true;
                    ensure!(Kd::canon(&v) == Kd::payload(*b), "value", "side {side}, request {i}: got {v:.200?}, sent {b:?}")
                }
                (Some(b), o) => return fail("lost", format!("side {side}, request {i}: {o:.200?} instead of {b:?}")),
                (None, Ok(Err(_))) => {}
                (None, o) => return fail("invented", format!("side {side}, request {i}: {o:.200?} although nothing more was sent")),
            }
        }
        Ok(Outcome::ok(some).evals(nops as u64).label(format!("{:?}", c.kind)))
    })
}
fn run_managed(c: &MCase) -> Check {
    by_kind!(c.kind, managed, c)
}

/// Blocking calls from several operating system threads.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TCase {
    kind: K,
    vals: [Vec<Blob>; 2],
    cap: usize,
    /// Requests a reader issues before it looks at the first answer.
    window: usize,
}
fn gen_blocking(s: &mut Src, _i: u64) -> TCase {
    let side = |s: &mut Src| {
        let n = s.usize(0, 20);
        (0..n).map(|_| if s.one_in(5) { blob(s) } else { small(s) }).collect()
    };
    TCase { kind: s.pick(&KINDS), vals: [side(s), side(s)], cap: s.pick(&[1usize, 16, 1000, 100_000]), window: s.usize(1, 8) }
}
fn blocking<Kd: Kind>(c: &TCase) -> Check {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let (done_s, done_r) = std::sync::mpsc::channel();
    let (h0, h1) = {
        let _g = rt.enter();
        let (x, y) = tokio::io::duplex(c.cap);
        let (rx, wx) = tokio::io::split(x);
        let (ry, wy) = tokio::io::split(y);
        (
            ChannelHandle::<Kd::S, Kd::R>::manage(Channel::new::<Kd::S>(rx, wx, Kd::codec())),
            ChannelHandle::<Kd::S, Kd::R>::manage(Channel::new::<Kd::S>(ry, wy, Kd::codec())),
        )
    };
    for (i, mut h) in [h0, h1].into_iter().enumerate() {
        let (out, inp) = (c.vals[i].clone(), c.vals[1 - i].clone());
        let window = c.window;
        let done = done_s.clone();
        std::thread::spawn(move || {
            let r: Result<(), Fail> = (|| {
                let mut pend = std::collections::VecDeque::new();
                let mut acks = vec![];
                let (mut o, mut asked, mut got) = (0, 0, 0);
                while o < out.len() || got < inp.len() {
                    while asked < inp.len() && pend.len() < window {
                        pend.push_back(h.blocking_recv());
                        asked += 1;
                    }
                    // keep at most a few values under way, so that a full pipe never blocks both sides
                    if o < out.len() {
                        acks.push(h.blocking_send(Kd::mk(out[o])));
                        o += 1;
                    }
                    if got < inp.len() && (o >= out.len() || got < o) {
                        match pend.pop_front().unwrap().blocking_recv() {
                            Ok(Ok(v)) => {
                                ensure!(Kd::canon(&v) == Kd::payload(inp[got]), "value", "side {i}: value {got} differs");
                                got += 1;
                            }
                            o => return fail("lost", format!("side {i}, value {got}: {o:.200?}")),
                        }
                    }
                }
                for (k, a) in acks.into_iter().enumerate() {
                    match a.blocking_recv() {
                        Ok(Ok(())) => {}
                        o => return fail("send", format!("side {i}, value {k}: {o:?}")),
                    }
                }
                Ok(())
            })();
            // the handle lives until both sides are done
            let _ = done.send((i, r, Box::new(h) as Box<dyn Send>));
        });
    }
    let mut keep = vec![];
    for _ in 0..2 {
        match done_r.recv_timeout(Duration::from_secs(120)) {
            Ok((_, r, h)) => {
                r?;
                keep.push(h)
            }
            Err(_) => {
                rt.shutdown_background();
                return fail("stuck", "blocking calls have not returned after 120 s");
            }
        }
    }
    rt.shutdown_background();
    let n = c.vals[0].len() + c.vals[1].len();
    Ok(Outcome::ok(n >= 2).evals(n as u64).label(format!("{:?}", c.kind)))
}
fn run_blocking(c: &TCase) -> Check {
    by_kind!(c.kind, blocking, c)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P18",
        level: "exploration",
        families: vec![
            Box::new(Fam { name: "frames", quick: 4000, thorough: 150_000, serial: false,
                rule: "Both ends of a channel (raw bytes, or bincode of integers, strings, byte vectors, a structure with vectors, options and an enum) send up to 12 values each through in-memory streams that split reads and writes at drawn places (down to single bytes), stall and fill up; sending by send, feed and flush; both directions at once on split halves, or in turn on whole channels closed at the end. The values read must be the values sent. Non-trivial: at least two values.",
                gen: gen_frames, run: run_frames }),
            Box::new(Fam { name: "broken-streams", quick: 8000, thorough: 300_000, serial: false,
                rule: "Streams of 1-5 frames, written by an independent encoder, of which one payload may be cut, extended, flipped or replaced, one header may lie, and the whole may be cut anywhere: the reader must return exactly the values an independent reference reads and then an error or, only at a frame boundary, the end. Non-trivial: the reference finds something malformed.",
                gen: gen_broken, run: run_broken }),
            Box::new(Fam { name: "closing", quick: 3000, thorough: 60_000, serial: false,
                rule: "Two ends write (flushed or not), read some of it and close or go away: unflushed values still arrive, closing reports values that were never read and succeeds if there are none. Non-trivial: some value is written.",
                gen: gen_close, run: run_close }),
            Box::new(Fam { name: "closing-partial", quick: 2000, thorough: 30_000, serial: false,
                rule: "A channel is closed after its peer wrote whole frames and a part of one: an error unless the part is empty. Non-trivial: the part is not empty.",
                gen: gen_partial, run: run_partial }),
            Box::new(Fam { name: "largest-frames", quick: 16, thorough: 32, serial: false,
                rule: "Values around the largest frame of 8 MiB: delivered, or refused at the sender, and the channel stays usable. Every case is non-trivial.",
                gen: gen_large, run: run_large }),
            Box::new(Fam { name: "managed", quick: 4000, thorough: 150_000, serial: false,
                rule: "Two managed handles: up to 24 sends and receive requests of both sides in drawn order, receipts and answers kept or dropped, answers looked at in a drawn order, requests before and after the data, then the handles go away: the n-th request gets the n-th value, requests beyond get an error. Non-trivial: some value is received.",
                gen: gen_managed, run: run_managed }),
            Box::new(Fam { name: "blocking", quick: 150, thorough: 5000, serial: false,
                rule: "The same handles through their blocking calls from two threads over streams of 1 byte to 100 kB capacity, up to 20 values each way with up to 8 requests outstanding. Non-trivial: at least two values.",
                gen: gen_blocking, run: run_blocking }),
        ],
        assumptions: vec![
            "a frame with bytes left over after its value may be read as that value or refused",
            "single-threaded schedules except in the blocking family, whose thread interleavings are the operating system's",
        ],
    }]
}
