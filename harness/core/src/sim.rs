//! Deterministic three-party simulator: in-memory FIFO links owned by the harness, parties polled by hand in
//! an order drawn from the schedule, fault injection, transcript recording and exact deadlock detection.

use bytes::{Bytes, BytesMut};
use iris_mpc::prelude::NetworkTrait;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io::{Error as IoError, ErrorKind};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use vengine::{mix, Rng64};

pub const N: usize = 3;

/// How the harness schedules parties and deliveries.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub seed: u64,
    /// 0: deliver at once, run each party as far as it can in id order; 1: uniformly random actions;
    /// 2: random strict priorities over parties and links (starvation); 3: mixture re-drawn over time.
    pub mode: u8,
    /// Link capacity in messages (0 = unbounded).
    pub cap: u8,
    /// Give control away after each send.
    pub yield_on_send: bool,
}
impl Sched {
    pub const PLAIN: Sched = Sched { seed: 0, mode: 0, cap: 0, yield_on_send: false };
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Alter {
    FlipBit(u32),
    /// Add a constant to the little piece of `width` bytes at element `elem` (big endian, as on the wire).
    AddElem { elem: u32, width: u8, delta: u64 },
    Truncate(u32),
    Extend(Vec<u8>),
    Zero,
    Random(u64),
    Replace(Vec<u8>),
    /// Replace by the previous message on the same link (if any, padded/cut to this length).
    ReplayPrev,
    /// Replace by the message before last of the sender to the *other* peer.
    CopyOther,
    /// Two elements of `width` bytes, `dist` apart (0: half the message): flip a bit of both, or add to one what is
    /// taken from the other.
    Two { elem: u32, dist: u32, width: u8, delta: u64, flip: bool },
    /// Add a big-endian number to the bytes at this offset.
    AddBytes { at: u32, num: Vec<u8> },
    /// The connection between the two parties is closed instead (both directions, for good).
    Close,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub from: usize,
    pub to: usize,
    pub idx: usize,
    pub alter: Alter,
}

/// A party that sends one message as late as it can: message `idx` from `from` to `to` is held back until nothing
/// else can happen. If by then message `learn` (from, index) to the sender is on its way, the sender alters the
/// message it holds back with what it has learned.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rush {
    pub from: usize,
    pub to: usize,
    pub idx: usize,
    pub learn: (usize, usize),
    pub alters: Vec<Alter>,
}

pub fn apply_alter(a: &Alter, data: &[u8], prev: Option<&[u8]>, other: Option<&[u8]>) -> Vec<u8> {
    let mut d = data.to_vec();
    match a {
        Alter::FlipBit(b) => {
            if !d.is_empty() {
                let i = *b as usize % (d.len() * 8);
                d[i / 8] ^= 1 << (i % 8);
            }
        }
        Alter::AddElem { elem, width, delta } => {
            let w = (*width as usize).max(1);
            if d.len() >= w {
                let n = d.len() / w;
                let e = (*elem as usize % n) * w;
                let mut v = 0u128;
                for i in 0..w {
                    v = (v << 8) | d[e + i] as u128;
                }
                v = v.wrapping_add(*delta as u128);
                for i in (0..w).rev() {
                    d[e + i] = v as u8;
                    v >>= 8;
                }
            }
        }
        Alter::Two { elem, dist, width, delta, flip } => {
            let w = (*width as usize).max(1);
            let n = d.len() / w;
            if n >= 2 {
                let dist = if *dist == 0 { n / 2 } else { 1 + *dist as usize % (n - 1) };
                let e = *elem as usize % n;
                let bit = (*delta % (8 * w as u64)) as u32;
                for (e, neg) in [(e, false), ((e + dist) % n, true)] {
                    let a = if *flip { Alter::FlipBit((e * w) as u32 * 8 + bit) } else {
                        let v = if neg { (*delta as u128).wrapping_neg() } else { *delta as u128 };
                        Alter::AddBytes { at: (e * w) as u32, num: v.to_be_bytes()[16 - w.min(16)..].to_vec() }
                    };
                    d = apply_alter(&a, &d, None, None);
                }
            }
        }
        Alter::AddBytes { at, num } => {
            let at = *at as usize;
            if at + num.len() <= d.len() {
                let mut c = 0u32;
                for i in (0..num.len()).rev() {
                    c += d[at + i] as u32 + num[i] as u32;
                    d[at + i] = c as u8;
                    c >>= 8;
                }
            }
        }
        Alter::Truncate(k) => {
            let keep = if d.is_empty() { 0 } else { *k as usize % d.len() };
            d.truncate(keep);
        }
        Alter::Extend(x) => d.extend_from_slice(x),
        Alter::Zero => d.iter_mut().for_each(|x| *x = 0),
        Alter::Random(s) => {
            let mut r = Rng64::new(*s);
            d.iter_mut().for_each(|x| *x = r.next() as u8);
        }
        Alter::Replace(x) => d = x.clone(),
        Alter::Close => {}
        Alter::ReplayPrev | Alter::CopyOther => {
            let src = if matches!(a, Alter::ReplayPrev) { prev } else { other };
            if let Some(p) = src {
                for (i, x) in d.iter_mut().enumerate() {
                    if i < p.len() {
                        *x = p[i];
                    }
                }
            }
        }
    }
    d
}

#[derive(Default)]
struct Link {
    inflight: VecDeque<Bytes>,
    ready: VecDeque<Bytes>,
    sent: usize,
    received: usize,
    closed: bool,
    cut: bool,
    last: Option<Vec<u8>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Block {
    Recv(usize),
    Send(usize),
    Yield,
    Barrier,
}

pub struct Hub {
    links: Vec<Link>, // from * 3 + to
    gone: [bool; N],
    blocked: [Vec<Block>; N],
    faults: Vec<Fault>,
    pub fault_hits: usize,
    /// (fault index that actually changed the bytes)
    pub fault_changed: usize,
    cap: usize,
    yield_on_send: bool,
    record: bool,
    /// Everything sent, in send order per link: (payload as delivered).
    pub transcript: Vec<Vec<Vec<u8>>>,
    /// Honest payload lengths per link, in order.
    pub lens: Vec<Vec<usize>>,
    /// Marks: per party, sent counters (to 0,1,2) at operation boundaries.
    pub marks: [Vec<[usize; N]>; N],
    pub bytes: usize,
    pub max_bytes: usize,
    barrier: [Option<Vec<u128>>; N],
    barrier_round: usize,
    kill: Option<(usize, usize)>, // (party, after n sends)
    sends: [usize; N],
    pub overflow: bool,
}

impl Hub {
    fn l(&mut self, from: usize, to: usize) -> &mut Link {
        &mut self.links[from * N + to]
    }
}

#[derive(Clone)]
pub struct SimNet {
    pub id: usize,
    pub hub: Rc<RefCell<Hub>>,
}

struct SendFut<'a> {
    net: &'a SimNet,
    to: usize,
    data: Option<Bytes>,
    yielded: bool,
}
impl Future for SendFut<'_> {
    type Output = Result<(), IoError>;
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = self.net.id;
        let to = self.to;
        let hubrc = self.net.hub.clone();
        let mut hub = hubrc.borrow_mut();
        if let Some(data) = self.data.clone() {
            if to >= N || to == me {
                return Poll::Ready(Err(IoError::new(ErrorKind::Other, "Invalid ID")));
            }
            if let Some((kp, n)) = hub.kill {
                if kp == me && hub.sends[me] >= n {
                    return Poll::Pending; // the executor removes the party after this poll
                }
            }
            let cap = hub.cap;
            let full = cap > 0 && hub.l(me, to).inflight.len() + hub.l(me, to).ready.len() >= cap;
            let idx = hub.l(me, to).sent;
            if hub.faults.iter().any(|f| f.from == me && f.to == to && f.idx == idx && f.alter == Alter::Close) {
                hub.fault_hits += 1;
                hub.fault_changed += 1;
                for (x, y) in [(me, to), (to, me)] {
                    hub.l(x, y).closed = true;
                    hub.l(x, y).cut = true;
                }
            }
            if hub.gone[to] || hub.l(me, to).cut {
                self.data = None;
                // the message is lost; count it as sent so that an unread message is noticed
                hub.l(me, to).sent += 1;
                hub.sends[me] += 1;
                return Poll::Ready(Err(IoError::new(ErrorKind::BrokenPipe, "peer is gone")));
            }
            if full {
                hub.blocked[me].push(Block::Send(to));
                return Poll::Pending;
            }
            self.data = None;
            let idx = hub.l(me, to).sent;
            let mut payload = data.to_vec();
            let prev = hub.l(me, to).last.clone();
            let other_to = N - me - to;
            let other = hub.l(me, other_to).last.clone();
            let mut hits = 0;
            let mut changed = 0;
            for f in &hub.faults {
                if f.from == me && f.to == to && f.idx == idx {
                    hits += 1;
                    let p2 = apply_alter(&f.alter, &payload, prev.as_deref(), other.as_deref());
                    if p2 != payload {
                        changed += 1;
                    }
                    payload = p2;
                }
            }
            hub.fault_hits += hits;
            hub.fault_changed += changed;
            hub.lens[me * N + to].push(data.len());
            hub.bytes += payload.len();
            if hub.bytes > hub.max_bytes {
                hub.overflow = true;
            }
            if hub.record {
                hub.transcript[me * N + to].push(payload.clone());
            }
            let l = hub.l(me, to);
            l.last = Some(data.to_vec());
            l.sent += 1;
            l.inflight.push_back(Bytes::from(payload));
            hub.sends[me] += 1;
        }
        if hub.yield_on_send && !self.yielded {
            self.yielded = true;
            hub.blocked[me].push(Block::Yield);
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
}

struct RecvFut<'a> {
    net: &'a SimNet,
    from: usize,
}
impl Future for RecvFut<'_> {
    type Output = Result<BytesMut, IoError>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = self.net.id;
        let from = self.from;
        if from >= N || from == me {
            return Poll::Ready(Err(IoError::new(ErrorKind::Other, "Invalid ID")));
        }
        let mut hub = self.net.hub.borrow_mut();
        let l = hub.l(from, me);
        if let Some(b) = l.ready.pop_front() {
            l.received += 1;
            return Poll::Ready(Ok(BytesMut::from(b.as_ref())));
        }
        if l.closed && l.inflight.is_empty() {
            return Poll::Ready(Err(IoError::new(ErrorKind::UnexpectedEof, "Receive failed")));
        }
        hub.blocked[me].push(Block::Recv(from));
        Poll::Pending
    }
}

impl SimNet {
    async fn tx(&self, to: usize, data: Bytes) -> Result<(), IoError> {
        SendFut { net: self, to, data: Some(data), yielded: false }.await
    }
    async fn rx(&self, from: usize) -> Result<BytesMut, IoError> {
        RecvFut { net: self, from }.await
    }
    pub fn mark(&self) {
        let mut h = self.hub.borrow_mut();
        let me = self.id;
        let m = [h.links[me * N].sent, h.links[me * N + 1].sent, h.links[me * N + 2].sent];
        h.marks[me].push(m);
    }
    /// Harness-only rendezvous: every party deposits words and gets those of all three.
    pub async fn exchange(&self, words: Vec<u128>) -> Option<[Vec<u128>; N]> {
        let me = self.id;
        let round = {
            let mut h = self.hub.borrow_mut();
            h.barrier[me] = Some(words);
            h.barrier_round
        };
        std::future::poll_fn(|_| {
            let mut h = self.hub.borrow_mut();
            if h.barrier_round != round || h.barrier.iter().all(|b| b.is_some()) {
                return Poll::Ready(());
            }
            if h.gone.iter().any(|g| *g) {
                return Poll::Ready(());
            }
            h.blocked[me].push(Block::Barrier);
            Poll::Pending
        })
        .await;
        let h = self.hub.borrow();
        if h.barrier.iter().all(|b| b.is_some()) {
            Some([h.barrier[0].clone().unwrap(), h.barrier[1].clone().unwrap(), h.barrier[2].clone().unwrap()])
        } else {
            None
        }
    }
}

impl NetworkTrait for SimNet {
    fn get_id(&self) -> usize {
        self.id
    }
    fn get_num_parties(&self) -> usize {
        N
    }
    fn print_connection_stats(&self, _out: &mut impl std::io::Write) -> Result<(), IoError> {
        Ok(())
    }
    async fn shutdown(self) -> Result<(), IoError> {
        Ok(())
    }
    async fn send(&mut self, id: usize, data: Bytes) -> Result<(), IoError> {
        self.tx(id, data).await
    }
    async fn send_next_id(&mut self, data: Bytes) -> Result<(), IoError> {
        self.tx((self.id + 1) % N, data).await
    }
    async fn send_prev_id(&mut self, data: Bytes) -> Result<(), IoError> {
        self.tx((self.id + 2) % N, data).await
    }
    async fn receive(&mut self, id: usize) -> Result<BytesMut, IoError> {
        self.rx(id).await
    }
    async fn receive_prev_id(&mut self) -> Result<BytesMut, IoError> {
        self.rx((self.id + 2) % N).await
    }
    async fn receive_next_id(&mut self) -> Result<BytesMut, IoError> {
        self.rx((self.id + 1) % N).await
    }
    async fn broadcast(&mut self, data: Bytes) -> Result<Vec<BytesMut>, IoError> {
        for to in 0..N {
            if to != self.id {
                self.tx(to, data.clone()).await?;
            }
        }
        let mut res = Vec::with_capacity(N);
        for from in 0..N {
            if from == self.id {
                res.push(BytesMut::from(data.as_ref()));
            } else {
                res.push(self.rx(from).await?);
            }
        }
        Ok(res)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum PartyEnd<R> {
    Done(R),
    Panic(String),
    Killed,
    /// Waiting for something that can no longer happen.
    Stuck(String),
}

#[derive(Clone, Debug, Default)]
pub struct SimCfg {
    pub faults: Vec<Fault>,
    pub record: bool,
    /// Drop party p after it has sent n messages.
    pub kill: Option<(usize, usize)>,
    /// Entropy seed of the three parties.
    pub entropy: u64,
    /// One seed per party instead.
    pub each: Option<[u64; 3]>,
    pub rush: Option<Rush>,
    pub max_bytes: usize,
}

pub struct SimResult<R> {
    pub ends: Vec<PartyEnd<R>>,
    pub transcript: Vec<Vec<Vec<u8>>>,
    pub lens: Vec<Vec<usize>>,
    pub marks: [Vec<[usize; N]>; N],
    pub fault_hits: usize,
    pub fault_changed: usize,
    /// The rushing party altered its message.
    pub rushed: bool,
    /// Messages sent but never received, per (from,to).
    pub stray: Vec<(usize, usize, usize)>,
    pub steps: u64,
    pub overflow: bool,
}

fn noop_waker() -> Waker {
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

pub type BoxFut<R> = Pin<Box<dyn Future<Output = R>>>;

pub fn run<R>(cfg: &SimCfg, sched: &Sched, mk: impl Fn(SimNet) -> BoxFut<R>) -> SimResult<R> {
    let hub = Rc::new(RefCell::new(Hub {
        links: (0..N * N).map(|_| Link::default()).collect(),
        gone: [false; N],
        blocked: Default::default(),
        faults: cfg.faults.clone(),
        fault_hits: 0,
        fault_changed: 0,
        cap: sched.cap as usize,
        yield_on_send: sched.yield_on_send,
        record: cfg.record,
        transcript: vec![vec![]; N * N],
        lens: vec![vec![]; N * N],
        marks: Default::default(),
        bytes: 0,
        max_bytes: if cfg.max_bytes == 0 { 1 << 30 } else { cfg.max_bytes },
        barrier: Default::default(),
        barrier_round: 0,
        kill: cfg.kill,
        sends: [0; N],
        overflow: false,
    }));
    let waker = noop_waker();
    let mut cx = Context::from_waker(&waker);
    let mut ent: Vec<u64> = (0..N as u64)
        .map(|i| match cfg.each {
            Some(e) => mix(e[i as usize] ^ mix(0x5151 + i)),
            None => mix(cfg.entropy ^ mix(0x5151 + i)),
        })
        .collect();
    let outer = getrandom::verif::swap(None);

    let mut futs: Vec<Option<BoxFut<R>>> = (0..N)
        .map(|id| {
            getrandom::verif::swap(Some(ent[id]));
            let f = mk(SimNet { id, hub: hub.clone() });
            ent[id] = getrandom::verif::swap(None).unwrap_or(ent[id]);
            Some(f)
        })
        .collect();
    let mut ends: Vec<Option<PartyEnd<R>>> = (0..N).map(|_| None).collect();
    let mut started = [false; N];
    let mut spurious = [0u32; N];

    let mut rng = Rng64::new(sched.seed ^ 0xabcd);
    let mut prio: Vec<u64> = (0..N + N * N).map(|_| rng.next()).collect();
    let mut steps = 0u64;
    let mut rush = cfg.rush.clone();
    let mut rushed = false;

    loop {
        // collect possible actions: 0..3 poll a party, 3.. deliver the head of a link
        let mut acts: Vec<usize> = Vec::with_capacity(12);
        {
            let mut h = hub.borrow_mut();
            let h = &mut *h;
            for p in 0..N {
                if futs[p].is_none() {
                    continue;
                }
                let can = !started[p]
                    || h.blocked[p].iter().any(|b| match b {
                        Block::Recv(f) => {
                            let l = &h.links[f * N + p];
                            !l.ready.is_empty() || (l.closed && l.inflight.is_empty())
                        }
                        Block::Send(t) => {
                            let l = &h.links[p * N + t];
                            h.gone[*t] || l.cut || l.inflight.len() + l.ready.len() < h.cap
                        }
                        Block::Yield => true,
                        Block::Barrier => {
                            h.barrier.iter().all(|b| b.is_some()) || h.gone.iter().any(|g| *g)
                        }
                    })
                    || (h.blocked[p].is_empty() && spurious[p] < 10_000);
                if can {
                    acts.push(p);
                }
            }
            for li in 0..N * N {
                let held = rush.as_ref().is_some_and(|r| {
                    let l = &h.links[li];
                    li == r.from * N + r.to && l.received + l.ready.len() == r.idx
                });
                if !h.links[li].inflight.is_empty() && !h.gone[li % N] && !held {
                    acts.push(N + li);
                }
            }
        }
        if acts.is_empty() {
            if let Some(r) = rush.take() {
                let mut h = hub.borrow_mut();
                let known = h.links[r.learn.0 * N + r.from].sent > r.learn.1;
                let l = &mut h.links[r.from * N + r.to];
                if known && l.received + l.ready.len() == r.idx {
                    if let Some(m) = l.inflight.pop_front() {
                        let mut d = m.to_vec();
                        for a in &r.alters {
                            d = apply_alter(a, &d, None, None);
                        }
                        rushed = d[..] != m[..];
                        l.inflight.push_front(Bytes::from(d));
                    }
                }
                continue;
            }
        }
        if acts.is_empty() {
            break;
        }
        steps += 1;
        let act = match sched.mode {
            0 => {
                // deliver first, then lowest runnable party
                *acts.iter().rev().find(|a| **a >= N).unwrap_or(&acts[0])
            }
            1 => acts[rng.below(acts.len() as u64) as usize],
            2 => *acts.iter().min_by_key(|a| prio[**a]).unwrap(),
            _ => {
                if rng.below(40) == 0 {
                    for p in prio.iter_mut() {
                        *p = rng.next();
                    }
                }
                if rng.below(4) == 0 {
                    acts[rng.below(acts.len() as u64) as usize]
                } else {
                    *acts.iter().min_by_key(|a| prio[**a]).unwrap()
                }
            }
        };
        if act >= N {
            let mut h = hub.borrow_mut();
            let li = act - N;
            if let Some(m) = h.links[li].inflight.pop_front() {
                h.links[li].ready.push_back(m);
            }
            continue;
        }
        let p = act;
        started[p] = true;
        {
            let mut h = hub.borrow_mut();
            if h.blocked[p].is_empty() {
                spurious[p] += 1;
            }
            h.blocked[p].clear();
        }
        getrandom::verif::swap(Some(ent[p]));
        let fut = futs[p].as_mut().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
        ent[p] = getrandom::verif::swap(None).unwrap_or(ent[p]);
        let mut over = match r {
            Ok(Poll::Pending) => None,
            Ok(Poll::Ready(v)) => Some(PartyEnd::Done(v)),
            Err(_) => Some(PartyEnd::Panic(vengine::take_panic())),
        };
        if over.is_none() {
            let h = hub.borrow();
            if let Some((kp, n)) = h.kill {
                if kp == p && h.sends[p] >= n {
                    over = Some(PartyEnd::Killed);
                }
            }
        }
        if let Some(e) = over {
            ends[p] = Some(e);
            let f = futs[p].take();
            let _ = catch_unwind(AssertUnwindSafe(|| drop(f)));
            let mut h = hub.borrow_mut();
            h.gone[p] = true;
            for t in 0..N {
                h.links[p * N + t].closed = true;
            }
        }
    }
    for p in 0..N {
        if ends[p].is_none() {
            let why = format!("{:?}", hub.borrow().blocked[p]);
            ends[p] = Some(PartyEnd::Stuck(why));
            let f = futs[p].take();
            let _ = catch_unwind(AssertUnwindSafe(|| drop(f)));
        }
    }
    getrandom::verif::swap(outer);
    let mut h = hub.borrow_mut();
    let mut stray = vec![];
    for f in 0..N {
        for t in 0..N {
            let l = &h.links[f * N + t];
            if l.sent != l.received {
                stray.push((f, t, l.sent - l.received));
            }
        }
    }
    SimResult {
        ends: ends.into_iter().map(|e| e.unwrap()).collect(),
        transcript: std::mem::take(&mut h.transcript),
        lens: std::mem::take(&mut h.lens),
        marks: std::mem::take(&mut h.marks),
        fault_hits: h.fault_hits,
        fault_changed: h.fault_changed,
        rushed,
        stray,
        steps,
        overflow: h.overflow,
    }
}
