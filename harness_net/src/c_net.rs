//! P19: networks connect the configured parties and route every message to its addressee.
use crate::c_chan::{bytes_of, Blob};
use bytes::Bytes;
use futures::{SinkExt, StreamExt};
use iris_mpc::prelude::{Aby3Network, NetworkTrait, PartyTestNetwork, TestNetwork3p};
use mpc_net::config::{NetworkConfig, NetworkParty};
use mpc_net::MpcNetworkHandler;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::net::SocketAddr;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Duration;
use vengine::*;

// ---------------------------------------------------------------------------------------------- configurations

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GCase {
    ids: Vec<usize>,
    my: usize,
}
fn gen_config(s: &mut Src, _i: u64) -> GCase {
    let n = s.usize(0, 6);
    let wide = s.one_in(3);
    let id = |s: &mut Src| if wide { s.pick(&[0usize, 1, 2, 3, 255, 256, 65536, 1 << 32, usize::MAX]) } else { s.usize(0, 4) };
    let mut ids: Vec<usize> = (0..n).map(|_| id(s)).collect();
    if s.bool() {
        // mostly distinct
        let mut seen = vec![];
        ids.retain(|x| {
            let new = !seen.contains(x);
            seen.push(*x);
            new
        });
    }
    let my = if !ids.is_empty() && s.below(4) > 0 { let k = s.usize(0, ids.len() - 1); ids[k] } else { id(s) };
    GCase { ids, my }
}
fn party(id: usize, k: usize) -> NetworkParty {
    let a: SocketAddr = ([127, 0, 0, 1], 1 + k as u16).into();
    NetworkParty { id, dns_name: "localhost".into(), bind_addr: a, public_addr: a, cert_path: PathBuf::from("/nonexistent/cert.der") }
}
fn run_config(c: &GCase) -> Check {
    let cfg = NetworkConfig {
        parties: c.ids.iter().enumerate().map(|(k, i)| party(*i, k)).collect(),
        my_id: c.my,
        key_path: PathBuf::from("/nonexistent/key.der"),
    };
    let dup = (0..c.ids.len()).any(|i| c.ids[..i].contains(&c.ids[i]));
    let missing = !c.ids.contains(&c.my);
    // identities are sent as 32-bit numbers
    let good = !dup && !missing && c.ids.iter().all(|x| *x < 1 << 32);
    let r = cfg.check_config();
    match (&r, good) {
        (Ok(()), false) => return fail("accepted", format!("ids {:?}, own id {}: accepted", c.ids, c.my)),
        (Err(e), true) => return fail("refused", format!("ids {:?}, own id {}: refused: {e}", c.ids, c.my)),
        _ => {}
    }
    // the entry points refuse it too, whatever is wrong with it (the certificates do not exist here)
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let text = |e: String| e;
    let e = rt.block_on(async { MpcNetworkHandler::establish(cfg.clone()).await.map(|_| ()).map_err(|e| text(format!("{e:?}"))) });
    ensure!(e.is_err(), "accepted", "establish accepts ids {:?}, own id {}", c.ids, c.my);
    let e = e.unwrap_err();
    if !good {
        ensure!(!e.contains("reading"), "late", "ids {:?}, own id {}: refused only when reading files: {e}", c.ids, c.my);
    }
    let e = rt.block_on(async { Aby3Network::new(cfg.clone()).await.map(|_| ()).map_err(|e| format!("{e:?}")) });
    ensure!(e.is_err(), "accepted", "Aby3Network accepts ids {:?}, own id {}", c.ids, c.my);
    let e = e.unwrap_err();
    let three = good && c.ids.len() == 3 && c.my <= 2;
    if !three {
        ensure!(!e.contains("reading"), "late", "ids {:?}, own id {}: Aby3Network refuses only when reading files: {e}", c.ids, c.my);
    }
    Ok(Outcome::ok(!c.ids.is_empty()).label(if three { "three" } else if good { "consistent" } else { "inconsistent" }))
}

// ------------------------------------------------------------------------------------------------- message histories

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Addr {
    Id(usize),
    Next,
    Prev,
}
impl Addr {
    fn of(self, me: usize) -> usize {
        match self {
            Addr::Id(i) => i,
            Addr::Next => (me + 1) % 3,
            Addr::Prev => (me + 2) % 3,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum NOp {
    Send { at: usize, to: Addr, b: Blob },
    Recv { at: usize, from: Addr },
    /// All three at once.
    Broadcast([Blob; 3]),
    /// No such peer (the party itself included).
    BadSend { at: usize, to: usize },
    BadRecv { at: usize, from: usize },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HCase {
    ops: Vec<NOp>,
    /// Milliseconds each party waits before it starts (real transport only).
    delay: [u64; 3],
    /// Order in which the parties are listed in the configuration.
    order: [usize; 3],
    /// The party that leaves first; the others' receives from it must then fail.
    leaver: usize,
}
fn msg(s: &mut Src, max: usize) -> Blob {
    let len = match s.below(8) {
        0 => 0,
        1..=4 => s.usize(0, 64),
        5 => s.usize(1000, 2000),
        _ => s.usize(0, max),
    };
    Blob { len, seed: s.u64() }
}
fn gen_ops(s: &mut Src, max: usize) -> Vec<NOp> {
    let n = s.usize(1, 24);
    let mut q = [0usize; 9];
    let mut bytes = 0usize;
    let mut ops = vec![];
    for _ in 0..n {
        match s.below(10) {
            0..=3 => {
                let at = s.usize(0, 2);
                let to = match s.below(3) {
                    0 => Addr::Next,
                    1 => Addr::Prev,
                    _ => Addr::Id((at + s.usize(1, 2)) % 3),
                };
                let b = msg(s, max);
                if bytes + b.len > 300_000 {
                    continue;
                }
                bytes += b.len;
                q[at * 3 + to.of(at)] += 1;
                ops.push(NOp::Send { at, to, b });
            }
            4..=7 => {
                let cand: Vec<usize> = (0..9).filter(|i| q[*i] > 0).collect();
                if cand.is_empty() {
                    continue;
                }
                let k = s.pick(&cand);
                q[k] -= 1;
                let (from, at) = (k / 3, k % 3);
                let a = if s.bool() {
                    Addr::Id(from)
                } else if from == (at + 1) % 3 {
                    Addr::Next
                } else {
                    Addr::Prev
                };
                ops.push(NOp::Recv { at, from: a });
            }
            8 => ops.push(NOp::Broadcast([msg(s, 2000), msg(s, 2000), msg(s, 2000)])),
            _ => {
                let at = s.usize(0, 2);
                let to = s.pick(&[at, 3, 4, 255, usize::MAX]);
                ops.push(if s.bool() { NOp::BadSend { at, to } } else { NOp::BadRecv { at, from: to } });
            }
        }
    }
    ops
}
fn gen_hist(s: &mut Src, _i: u64) -> HCase {
    let ops = gen_ops(s, 20_000);
    let mut order = [0, 1, 2];
    for i in (1..3).rev() {
        let j = s.usize(0, i);
        order.swap(i, j);
    }
    let late = s.one_in(3);
    let mut delay = [0u64; 3];
    for d in delay.iter_mut() {
        *d = if late { s.below(400) } else { s.below(5) };
    }
    HCase { ops, delay, order, leaver: s.usize(0, 2) }
}

type R<T> = Result<T, Fail>;
fn io<T>(what: &str, r: std::io::Result<T>) -> R<T> {
    r.map_err(|e| Fail { kind: "io".into(), msg: format!("{what}: {e}") })
}
async fn send<N: NetworkTrait>(n: &mut N, to: Addr, d: Bytes) -> std::io::Result<()> {
    match to {
        Addr::Id(i) => n.send(i, d).await,
        Addr::Next => n.send_next_id(d).await,
        Addr::Prev => n.send_prev_id(d).await,
    }
}
async fn recv<N: NetworkTrait>(n: &mut N, from: Addr) -> std::io::Result<Vec<u8>> {
    Ok(match from {
        Addr::Id(i) => n.receive(i).await?,
        Addr::Next => n.receive_next_id().await?,
        Addr::Prev => n.receive_prev_id().await?,
    }
    .to_vec())
}
fn same(what: String, got: &[u8], want: Blob) -> R<()> {
    let w = bytes_of(want);
    ensure!(got == &w[..], "value", "{what}: got {} bytes {:.60?}, expected {} bytes {:.60?}", got.len(), got, w.len(), w);
    Ok(())
}

/// The model is one queue per ordered pair of parties.
async fn play<N: NetworkTrait>(nets: &mut [N; 3], ops: &[NOp]) -> R<u64> {
    let mut q: Vec<VecDeque<Blob>> = vec![VecDeque::new(); 9];
    let mut evals = 0;
    for i in 0..3 {
        ensure!(nets[i].get_id() == i && nets[i].get_num_parties() == 3, "identity", "party {i} is called {} of {}", nets[i].get_id(), nets[i].get_num_parties());
    }
    for (k, op) in ops.iter().enumerate() {
        match op {
            NOp::Send { at, to, b } => {
                io(&format!("op {k} {op:?}"), send(&mut nets[*at], *to, bytes_of(*b).into()).await)?;
                q[at * 3 + to.of(*at)].push_back(*b);
            }
            NOp::Recv { at, from } => {
                let want = q[from.of(*at) * 3 + at].pop_front().ok_or(Fail { kind: "bad-case".into(), msg: "empty queue".into() })?;
                let got = io(&format!("op {k} {op:?}"), recv(&mut nets[*at], *from).await)?;
                same(format!("op {k}: party {at} receiving from {from:?}"), &got, want)?;
                evals += 1;
            }
            NOp::Broadcast(b) => {
                let [x, y, z] = nets;
                let (x, y, z) = tokio::join!(x.broadcast(bytes_of(b[0]).into()), y.broadcast(bytes_of(b[1]).into()), z.broadcast(bytes_of(b[2]).into()));
                for at in 0..3 {
                    for to in 0..3 {
                        if to != at {
                            q[at * 3 + to].push_back(b[at]);
                        }
                    }
                }
                for (at, r) in [x, y, z].into_iter().enumerate() {
                    let r = io(&format!("op {k}: broadcast"), r)?;
                    ensure!(r.len() == 3, "broadcast", "op {k}: broadcast returns {} messages", r.len());
                    for from in 0..3 {
                        let want = if from == at { b[at] } else { q[from * 3 + at].pop_front().unwrap() };
                        same(format!("op {k}: party {at}'s broadcast result {from}"), &r[from], want)?;
                        evals += 1;
                    }
                }
            }
            NOp::BadSend { at, to } => {
                ensure!(nets[*at].send(*to, Bytes::from_static(b"x")).await.is_err(), "accepted", "party {at} sends to {to}");
                evals += 1;
            }
            NOp::BadRecv { at, from } => {
                ensure!(nets[*at].receive(*from).await.is_err(), "accepted", "party {at} receives from {from}");
                evals += 1;
            }
        }
    }
    // drain
    for k in 0..9 {
        while let Some(want) = q[k].pop_front() {
            let (from, at) = (k / 3, k % 3);
            let got = io("draining", recv(&mut nets[at], Addr::Id(from)).await)?;
            same(format!("end: party {at} receiving from {from}"), &got, want)?;
            evals += 1;
        }
    }
    Ok(evals)
}

fn count(ops: &[NOp]) -> usize {
    ops.iter().filter(|o| matches!(o, NOp::Recv { .. } | NOp::Broadcast(_))).count()
}

fn run_memory(c: &HCase) -> Check {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        let f = async {
            let mut nets: [PartyTestNetwork; 3] = TestNetwork3p::new().get_party_networks();
            let e = play(&mut nets, &c.ops).await?;
            let [a, b, c_] = nets;
            let mut v = vec![a, b, c_];
            let gone = v.remove(c.leaver);
            io("shutdown", gone.shutdown().await)?;
            for n in v.iter_mut() {
                ensure!(n.receive(c.leaver).await.is_err(), "ghost", "a message from a party that left");
            }
            Ok(Outcome::ok(count(&c.ops) > 0).evals(e))
        };
        match tokio::time::timeout(Duration::from_secs(100_000), f).await {
            Ok(r) => r,
            Err(_) => fail("stuck", "a receive waits forever although the message was sent"),
        }
    })
}

// ------------------------------------------------------------------------------------------------- real transport

struct Cert {
    cert: PathBuf,
    key: PathBuf,
}
fn scratch() -> &'static PathBuf {
    static D: OnceLock<PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        let base = root().join("target_scratch");
        let _ = std::fs::create_dir_all(&base);
        // leftovers of earlier runs
        for e in std::fs::read_dir(&base).into_iter().flatten().flatten() {
            let old = e.metadata().and_then(|m| m.modified()).ok().and_then(|t| t.elapsed().ok()).map(|d| d.as_secs() > 7200).unwrap_or(false);
            if old && e.file_name().to_string_lossy().starts_with("net-") {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
        let d = base.join(format!("net-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        d
    })
}
/// Certificates of up to five parties; `alt` are other certificates for the same names.
fn certs() -> &'static Vec<Cert> {
    static C: OnceLock<Vec<Cert>> = OnceLock::new();
    C.get_or_init(|| {
        (0..6)
            .map(|i| {
                let c = rcgen::generate_simple_self_signed(vec!["localhost".to_string(), format!("party{}", i % 5)]).unwrap();
                let (cert, key) = (scratch().join(format!("cert{i}.der")), scratch().join(format!("key{i}.der")));
                std::fs::write(&cert, c.serialize_der().unwrap()).unwrap();
                std::fs::write(&key, c.serialize_private_key_der()).unwrap();
                Cert { cert, key }
            })
            .collect()
    })
}
/// Free ports outside the range the system hands out by itself.
fn ports(n: usize) -> Vec<u16> {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    static LOCK: Mutex<()> = Mutex::new(());
    let _g = LOCK.lock().unwrap();
    let mut v = vec![];
    for _ in 0..20_000 {
        let k = NEXT.fetch_add(1, Ordering::Relaxed) + std::process::id() as u64 * 37;
        let p = 12_000 + (k % 18_000) as u16;
        if std::net::UdpSocket::bind(("127.0.0.1", p)).is_ok() && !v.contains(&p) {
            v.push(p);
            if v.len() == n {
                return v;
            }
        }
    }
    panic!("no free ports");
}
fn config(ids: &[usize], order: &[usize], me: usize, ports: &[u16]) -> NetworkConfig {
    let parties = order
        .iter()
        .map(|&k| {
            let a: SocketAddr = ([127, 0, 0, 1], ports[k]).into();
            NetworkParty { id: ids[k], dns_name: if k % 2 == 0 { "localhost".into() } else { format!("party{k}") }, bind_addr: a, public_addr: a, cert_path: certs()[k].cert.clone() }
        })
        .collect();
    NetworkConfig { parties, my_id: ids[me], key_path: certs()[me].key.clone() }
}
/// Longest a case may take on the real transport; the cases take about a second.
const LIMIT: u64 = 150;
fn real<T>(f: impl std::future::Future<Output = R<T>>) -> R<T> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = rt.block_on(async move {
        match tokio::time::timeout(Duration::from_secs(LIMIT), f).await {
            Ok(r) => r,
            Err(_) => fail("stuck", format!("an operation has not returned after {LIMIT} s")),
        }
    });
    rt.shutdown_background();
    r
}
fn in_use(e: &str) -> bool {
    e.contains("AddrInUse") || e.contains("Address already in use")
}

async fn start3(c: &HCase) -> R<[Aby3Network; 3]> {
    loop {
        let ps = ports(3);
        let ids = [0usize, 1, 2];
        let one = |i: usize| {
            let cfg = config(&ids, &c.order, i, &ps);
            async move {
                tokio::time::sleep(Duration::from_millis(c.delay[i])).await;
                Aby3Network::new(cfg).await.map_err(|e| format!("{e:?}"))
            }
        };
        match tokio::try_join!(one(0), one(1), one(2)) {
            Ok((a, b, c)) => return Ok([a, b, c]),
            Err(e) if in_use(&e) => continue,
            Err(e) => return fail("connect", format!("connecting: {e}")),
        }
    }
}

fn run_real(c: &HCase) -> Check {
    real(async {
        let mut nets = start3(c).await?;
        let e = play(&mut nets, &c.ops).await?;
        let [a, b, c_] = nets;
        let mut v = vec![a, b, c_];
        let gone = v.remove(c.leaver);
        // the others notice that it left
        let (mut y, mut x) = (v.pop().unwrap(), v.pop().unwrap());
        let (g, r0, r1) = tokio::join!(gone.shutdown(), x.receive(c.leaver), y.receive(c.leaver));
        io("shutdown", g)?;
        ensure!(r0.is_err() && r1.is_err(), "ghost", "a message from a party that left");
        let (p, q) = tokio::join!(x.shutdown(), y.shutdown());
        io("shutdown", p)?;
        io("shutdown", q)?;
        Ok(Outcome::ok(count(&c.ops) > 0).evals(e))
    })
}

/// A party's last messages are followed by its shutdown at once.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WCase {
    msgs: Vec<(Addr, Blob)>,
    who: usize,
}
fn gen_last(s: &mut Src, _i: u64) -> WCase {
    let n = s.usize(1, 5);
    let who = s.usize(0, 2);
    WCase { msgs: (0..n).map(|_| (if s.bool() { Addr::Next } else { Addr::Prev }, msg(s, 40_000))).collect(), who }
}
fn run_last(c: &WCase) -> Check {
    real(async {
        let h = HCase { ops: vec![], delay: [0; 3], order: [0, 1, 2], leaver: 0 };
        let nets = start3(&h).await?;
        let mut v: Vec<Option<Aby3Network>> = nets.into_iter().map(Some).collect();
        let mut me = v[c.who].take().unwrap();
        let mut next = v[(c.who + 1) % 3].take().unwrap();
        let mut prev = v[(c.who + 2) % 3].take().unwrap();
        let go = async {
            for (a, b) in &c.msgs {
                io("send", send(&mut me, *a, bytes_of(*b).into()).await)?;
            }
            io("shutdown", me.shutdown().await)
        };
        async fn take(n: &mut Aby3Network, from: usize, want: Vec<Blob>) -> R<()> {
            for (i, b) in want.iter().enumerate() {
                match n.receive(from).await {
                    Ok(m) => same(format!("message {i}"), &m, *b)?,
                    Err(e) => return fail("lost", format!("message {i} of {} from a party that shut down after sending it: {e}", want.len())),
                }
            }
            Ok(())
        }
        let pick = |a: Addr| c.msgs.iter().filter(|m| m.0 == a).map(|m| m.1).collect::<Vec<_>>();
        let (x, y, z) = tokio::join!(go, take(&mut next, c.who, pick(Addr::Next)), take(&mut prev, c.who, pick(Addr::Prev)));
        x?;
        y?;
        z?;
        Ok(Outcome::ok(true).evals(c.msgs.len() as u64))
    })
}

// ------------------------------------------------------------------------------------------------- any number of parties

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ACase {
    ids: Vec<usize>,
    order: Vec<Vec<usize>>,
    delay: Vec<u64>,
    /// Kind of each set of channels: raw bytes or strings.
    sets: Vec<bool>,
    /// Messages: set, from, to, value.
    msgs: Vec<(usize, usize, usize, Blob)>,
}
fn gen_any(s: &mut Src, _i: u64) -> ACase {
    let n = s.weighted(&[0, 1, 3, 4, 2]);
    let mut ids: Vec<usize> = vec![];
    while ids.len() < n {
        let x = if s.bool() { s.usize(0, 6) } else { s.pick(&[0usize, 1, 255, 256, 257, 65535, 65536, 1 << 31, (1 << 32) - 1, 7, 12]) };
        if !ids.contains(&x) {
            ids.push(x);
        } else {
            let y = ids.iter().max().unwrap() % 1000 + 1;
            if !ids.contains(&y) {
                ids.push(y);
            }
        }
    }
    let order = (0..n)
        .map(|_| {
            let mut o: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                let j = s.usize(0, i);
                o.swap(i, j);
            }
            o
        })
        .collect();
    let late = s.one_in(3);
    let delay = (0..n).map(|_| if late { s.below(400) } else { s.below(5) }).collect();
    let k = s.usize(1, 3);
    let sets: Vec<bool> = (0..k).map(|_| s.bool()).collect();
    let m = s.usize(0, 20);
    let msgs = if n < 2 {
        vec![]
    } else {
        (0..m)
            .map(|_| {
                let from = s.usize(0, n - 1);
                let to = (from + s.usize(1, n - 1)) % n;
                (s.usize(0, k - 1), from, to, msg(s, 8000))
            })
            .collect()
    };
    ACase { ids, order, delay, sets, msgs }
}
fn text(b: Blob) -> String {
    bytes_of(b).iter().map(|x| (32 + x % 90) as char).collect()
}
fn run_any(c: &ACase) -> Check {
    let n = c.ids.len();
    real(async {
        let mut hs: Vec<MpcNetworkHandler> = loop {
            let ps = ports(n);
            let r = futures::future::try_join_all((0..n).map(|i| {
                let cfg = config(&c.ids, &c.order[i], i, &ps);
                async move {
                    tokio::time::sleep(Duration::from_millis(c.delay[i])).await;
                    MpcNetworkHandler::establish(cfg).await.map_err(|e| format!("{e:?}"))
                }
            }))
            .await;
            match r {
                Ok(v) => break v,
                Err(e) if in_use(&e) => continue,
                Err(e) => return fail("connect", format!("connecting: {e}")),
            }
        };
        let e = Outcome::ok(n >= 2 && !c.msgs.is_empty()).evals(c.msgs.len() as u64).label(format!("parties:{n}"));
        let done = futures::future::try_join_all(hs.iter_mut().enumerate().map(|(i, h)| async move {
            let mut raw = vec![];
            let mut txt = vec![];
            for kind in &c.sets {
                let keys: Vec<usize> = if *kind {
                    let m = io("channels", h.get_byte_channels().await)?;
                    let k = m.keys().copied().collect();
                    raw.push(Some(m));
                    txt.push(None);
                    k
                } else {
                    let m = io("channels", h.get_serde_bincode_channels::<String>().await)?;
                    let k = m.keys().copied().collect();
                    txt.push(Some(m));
                    raw.push(None);
                    k
                };
                let mut want: Vec<usize> = c.ids.iter().copied().filter(|x| *x != c.ids[i]).collect();
                let mut got = keys;
                want.sort();
                got.sort();
                ensure!(want == got, "peers", "party {} has channels to {got:?}, the others are {want:?}", c.ids[i]);
            }
            for (s, from, to, b) in &c.msgs {
                if *from == i {
                    if let Some(m) = &mut raw[*s] {
                        io("send", m.get_mut(&c.ids[*to]).unwrap().send(Bytes::from(bytes_of(*b))).await)?;
                    } else {
                        io("send", txt[*s].as_mut().unwrap().get_mut(&c.ids[*to]).unwrap().send(text(*b)).await)?;
                    }
                }
            }
            for (k, (s, from, to, b)) in c.msgs.iter().enumerate() {
                if *to == i {
                    let ok = if let Some(m) = &mut raw[*s] {
                        match m.get_mut(&c.ids[*from]).unwrap().next().await {
                            Some(Ok(v)) => v[..] == bytes_of(*b)[..],
                            o => return fail("lost", format!("message {k}: {:.100?}", o)),
                        }
                    } else {
                        match txt[*s].as_mut().unwrap().get_mut(&c.ids[*from]).unwrap().next().await {
                            Some(Ok(v)) => v == text(*b),
                            o => return fail("lost", format!("message {k}: {:.100?}", o)),
                        }
                    };
                    ensure!(ok, "value", "message {k}: party {} receives something else from {} in set {s}", c.ids[i], c.ids[*from]);
                }
            }
            // closing waits for the peer's end: all channels at once
            let mut closing: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = std::io::Result<()>>>>> = vec![];
            for m in raw.into_iter().flatten() {
                for (_, ch) in m {
                    closing.push(Box::pin(ch.close::<Bytes>()));
                }
            }
            for m in txt.into_iter().flatten() {
                for (_, ch) in m {
                    closing.push(Box::pin(ch.close::<String>()));
                }
            }
            for r in futures::future::join_all(closing).await {
                io("closing a channel", r)?;
            }
            for id in 0..3usize {
                let known = c.ids.contains(&id) && id != c.ids[i];
                ensure!(h.get_send_receive(id).is_ok() == known, "stats", "party {}: statistics about {id}", c.ids[i]);
            }
            let mut out = vec![];
            io("statistics", h.print_connection_stats(&mut out))?;
            for x in &c.ids {
                let there = String::from_utf8_lossy(&out).contains(&format!("Connection {x} "));
                ensure!(there == (*x != c.ids[i]), "stats", "party {}: statistics mention {x}: {there}", c.ids[i]);
            }
            Ok(())
        }))
        .await;
        done?;
        futures::future::join_all(hs.into_iter().map(|h| h.shutdown())).await;
        Ok(e)
    })
}

/// A server that holds another certificate than the configured one, or another name.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ICase {
    /// 0: other certificate and key; 1: other name expected; 2: key of another certificate.
    how: u8,
}
fn gen_imposter(_s: &mut Src, i: u64) -> ICase {
    ICase { how: (i % 3) as u8 }
}
fn run_imposter(c: &ICase) -> Check {
    real(async {
        loop {
            let ps = ports(2);
            let mut server = config(&[0, 1], &[0, 1], 0, &ps);
            let mut client = config(&[0, 1], &[0, 1], 1, &ps);
            match c.how {
                0 => {
                    server.parties[0].cert_path = certs()[5].cert.clone();
                    server.key_path = certs()[5].key.clone();
                }
                1 => client.parties[0].dns_name = "someone.else".into(),
                _ => server.key_path = certs()[3].key.clone(),
            }
            let s = async { MpcNetworkHandler::establish(server).await.map(|_| ()).map_err(|e| format!("{e:?}")) };
            let cl = async { MpcNetworkHandler::establish(client).await.map(|_| ()).map_err(|e| format!("{e:?}")) };
            // Whichever side notices first: nobody may end up with a connection.
            tokio::pin!(s, cl);
            let (a, b) = match futures::future::select(s, cl).await {
                futures::future::Either::Left((a, rest)) => (Some(a), tokio::time::timeout(Duration::from_secs(if c.how == 2 { 3 } else { 20 }), rest).await.ok()),
                futures::future::Either::Right((b, rest)) => (tokio::time::timeout(Duration::from_secs(3), rest).await.ok(), Some(b)),
            };
            if let Some(Err(e)) = &a {
                if in_use(e) {
                    continue;
                }
            }
            ensure!(a != Some(Ok(())), "imposter", "the server believes it is connected");
            ensure!(b != Some(Ok(())), "imposter", "the client connects to a server it is not configured for");
            return Ok(Outcome::ok(true).label(["other certificate", "other name", "foreign key"][c.how as usize]));
        }
    })
}

// ------------------------------------------------------------------------------------------------ misbehaving peers

/// The peer of the party under test speaks QUIC with the right certificates but departs from the introductions.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MCase {
    /// Identities, ascending; `me` is the index of the party under test, all others are played here.
    ids: Vec<usize>,
    me: usize,
    /// Index of the party that departs.
    bad: usize,
    how: Bad,
    /// Whether it departs when connecting (clients only) or when a set of channels is opened.
    late: bool,
    /// After that many good sets of channels.
    sets: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Bad {
    /// It introduces itself under another number.
    Id(u32),
    /// It sends only the first bytes of its number.
    Short(u8),
    /// It closes the connection instead.
    Close,
    /// It resets the stream.
    Reset,
}
fn gen_misbehaving(s: &mut Src, _i: u64) -> MCase {
    let mut ids: Vec<usize> = vec![];
    let n = s.usize(2, 3);
    while ids.len() < n {
        let x = s.pick(&[0usize, 1, 2, 3, 7, 255, 256, 65_536, u32::MAX as usize]);
        if !ids.contains(&x) {
            ids.push(x);
        }
    }
    ids.sort_unstable();
    let me = s.usize(0, n - 1);
    let bad = (me + s.usize(1, n - 1)) % n;
    let right = ids[bad];
    let how = match s.below(5) {
        0 => Bad::Short(s.below(4) as u8),
        1 => Bad::Close,
        2 => Bad::Reset,
        k => {
            // another party's number, the own one, or nobody's
            let x = if k == 3 { ids[s.usize(0, n - 1)] } else { s.pick(&[0usize, 1, 4, 6, 8, 257, 1 << 24, u32::MAX as usize - 1]) };
            Bad::Id(if x == right { (right as u32) ^ 1 } else { x as u32 })
        }
    };
    let late = bad < me || s.bool();
    MCase { ids, me, bad, how, late, sets: s.usize(0, 2) }
}
/// Writes an introduction; false if the connection is gone afterwards.
async fn introduce(conn: &quinn::Connection, st: &mut quinn::SendStream, id: usize, how: Option<Bad>) -> bool {
    let good = (id as u32).to_be_bytes();
    match how {
        None => drop(st.write_all(&good).await),
        Some(Bad::Id(x)) => drop(st.write_all(&x.to_be_bytes()).await),
        Some(Bad::Short(n)) => {
            let _ = st.write_all(&good[..n as usize]).await;
            let _ = st.finish().await;
        }
        Some(Bad::Close) => {
            conn.close(0u32.into(), b"");
            return false;
        }
        Some(Bad::Reset) => {
            let _ = st.write_all(&good[..2]).await;
            let _ = st.reset(0u32.into());
        }
    }
    true
}
fn peer_endpoint(server: Option<(usize, u16)>) -> Result<quinn::Endpoint, String> {
    let e = match server {
        None => quinn::Endpoint::client(([127, 0, 0, 1], 0).into()).map_err(|e| format!("{e:?}"))?,
        Some((k, port)) => {
            let cert = rustls::Certificate(std::fs::read(&certs()[k].cert).unwrap());
            let key = rustls::PrivateKey(std::fs::read(&certs()[k].key).unwrap());
            let cfg = quinn::ServerConfig::with_single_cert(vec![cert], key).unwrap();
            quinn::Endpoint::server(cfg, ([127, 0, 0, 1], port).into()).map_err(|e| format!("{e:?}"))?
        }
    };
    Ok(e)
}
fn client_config() -> quinn::ClientConfig {
    let mut roots = rustls::RootCertStore::empty();
    for c in certs().iter() {
        roots.add(&rustls::Certificate(std::fs::read(&c.cert).unwrap())).unwrap();
    }
    let crypto = rustls::ClientConfig::builder().with_safe_defaults().with_root_certificates(roots).with_no_client_auth();
    quinn::ClientConfig::new(std::sync::Arc::new(crypto))
}
/// One peer of the party under test; returns when `done` says so.
async fn play_peer(c: &MCase, k: usize, ps: &[u16], mut done: tokio::sync::watch::Receiver<bool>) -> Result<(), String> {
    let bad = (c.bad == k).then_some(c.how);
    let id = c.ids[k];
    let ep = peer_endpoint((k < c.me).then_some((k, ps[k])))?;
    let conn = if k < c.me {
        let conn = match ep.accept().await {
            Some(x) => x.await.map_err(|e| format!("{e:?}"))?,
            None => return Ok(()),
        };
        let mut u = conn.accept_uni().await.map_err(|e| format!("{e:?}"))?;
        let mut b = [0u8; 4];
        u.read_exact(&mut b).await.map_err(|e| format!("{e:?}"))?;
        if u32::from_be_bytes(b) as usize != c.ids[c.me] {
            return Err(format!("the party introduces itself as {b:?}"));
        }
        conn
    } else {
        let mut tries = 0;
        let conn = loop {
            // the party may not listen yet
            let a = ([127, 0, 0, 1], ps[c.me]).into();
            let name = if c.me % 2 == 0 { "localhost".to_string() } else { format!("party{}", c.me) };
            match ep.connect_with(client_config(), a, &name).map_err(|e| format!("{e:?}"))?.await {
                Ok(x) => break x,
                Err(_) if tries < 40 => {
                    tries += 1;
                    tokio::time::sleep(Duration::from_millis(50)).await;
                }
                Err(e) => return Err(format!("{e:?}")),
            }
        };
        let now = bad.filter(|_| !c.late);
        let mut u = match conn.open_uni().await {
            Ok(u) => u,
            Err(_) if c.bad != k => return Ok(()),
            Err(e) => return Err(format!("{e:?}")),
        };
        if !introduce(&conn, &mut u, id, now).await {
            return Ok(());
        }
        let _ = u.finish().await;
        conn
    };
    let sets = async {
        let mut keep = vec![];
        for i in 0.. {
            let now = bad.filter(|_| c.late && i == c.sets);
            let (mut tx, mut rx) = if k < c.me {
                match conn.accept_bi().await {
                    Ok(x) => x,
                    Err(_) => return,
                }
            } else {
                match conn.open_bi().await {
                    Ok(x) => x,
                    Err(_) => return,
                }
            };
            if !introduce(&conn, &mut tx, id, now).await {
                return;
            }
            let mut b = [0u8; 4];
            let _ = rx.read_exact(&mut b).await;
            keep.push((tx, rx));
        }
    };
    tokio::select! {
        _ = sets => {}
        _ = done.wait_for(|x| *x) => {}
    }
    let _ = done.wait_for(|x| *x).await;
    conn.close(0u32.into(), b"");
    Ok(())
}
fn run_misbehaving(c: &MCase) -> Check {
    real(async {
        loop {
            let ps = ports(c.ids.len());
            let order: Vec<usize> = (0..c.ids.len()).collect();
            let cfg = config(&c.ids, &order, c.me, &ps);
            let (say, done) = tokio::sync::watch::channel(false);
            let party = async {
                let r = async {
                    let mut h = MpcNetworkHandler::establish(cfg).await.map_err(|e| (true, format!("{e:?}")))?;
                    let mut keep = vec![];
                    for _ in 0..=c.sets {
                        keep.push(h.get_byte_channels().await.map_err(|e| (false, format!("{e:?}")))?);
                    }
                    let keys: Vec<_> = keep.iter().map(|m| m.keys().copied().collect::<Vec<_>>()).collect();
                    Ok::<_, (bool, String)>(keys)
                };
                // closing and resetting are noticed at once, nothing needs the idle timeout
                let r = tokio::time::timeout(Duration::from_secs(100), r).await;
                let _ = say.send(true);
                r
            };
            let peers = futures::future::join_all((0..c.ids.len()).filter(|k| *k != c.me).map(|k| {
                let done = done.clone();
                let ps = &ps;
                async move {
                    let mut end = done.clone();
                    tokio::select! {
                        r = play_peer(c, k, ps, done) => r,
                        _ = async { let _ = end.wait_for(|x| *x).await; tokio::time::sleep(Duration::from_secs(2)).await } => Ok(()),
                    }
                }
            }));
            let (r, p) = futures::future::join(party, peers).await;
            if p.iter().any(|x| matches!(x, Err(e) if in_use(e))) {
                continue;
            }
            match r {
                Err(_) => return fail("waits", format!("party {} waits for ever", c.ids[c.me])),
                Ok(Err((_, e))) if in_use(&e) => continue,
                Ok(Err((early, _))) => {
                    let what = format!("{:?}", c.how);
                    return Ok(Outcome::ok(true).label(format!("{} {}", if early { "connecting" } else { "channels" }, what.split('(').next().unwrap())));
                }
                Ok(Ok(keys)) => return fail("accepted", format!("party {} accepts it, channels to {keys:?}", c.ids[c.me])),
            }
        }
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P19",
        level: "exploration",
        families: vec![
            Box::new(Fam { name: "configurations", quick: 3000, thorough: 60_000, serial: false,
                rule: "Party lists of 0-6 identities (small, large, repeated) and an own identity: refused exactly when the own identity is missing or an identity is repeated, also by the entry points before they touch any file, and by the three-party network unless it is three parties of which this is 0, 1 or 2. Non-trivial: the list is not empty.",
                gen: gen_config, run: run_config }),
            Box::new(Fam { name: "in-memory", quick: 4000, thorough: 150_000, serial: false,
                rule: "Histories of up to 24 sends and receives by number, next and previous, broadcasts by all three, and calls with impossible numbers, on the in-memory network, against one queue per ordered pair of parties; then one party leaves. Non-trivial: something is received.",
                gen: gen_hist, run: run_memory }),
            Box::new(Fam { name: "three-parties", quick: 48, thorough: 1500, serial: false,
                rule: "The same histories on the real transport (loopback, fresh certificates), parties starting at different times with differently ordered configurations, against the same queues. Non-trivial: something is received.",
                gen: gen_hist, run: run_real }),
            Box::new(Fam { name: "last-messages", quick: 40, thorough: 1000, serial: false,
                rule: "One party sends up to 5 messages of up to 40 kB and shuts down at once: its peers still receive them. Every case is non-trivial.",
                gen: gen_last, run: run_last }),
            Box::new(Fam { name: "any-parties", quick: 40, thorough: 1200, serial: false,
                rule: "1-4 parties with drawn identities (up to 2^32-1), configuration orders and start times, 1-3 sets of raw or string channels, up to 20 messages over drawn sets and pairs: channels to exactly the other identities, every message at its addressee in order, clean closing, statistics about exactly the peers. Non-trivial: two parties and a message.",
                gen: gen_any, run: run_any }),
            Box::new(Fam { name: "misbehaving-peers", quick: 80, thorough: 2000, serial: false,
                rule: "Two or three parties with drawn identities; the peers of one of them speak QUIC with the configured certificates, and one departs from the introductions, when connecting or when the n-th set of channels is opened: another number (of another party, of the party itself, of nobody), an incomplete number, a closed connection, a reset stream. The party reports an error; it does not panic, wait for ever or hand out channels. Every case is non-trivial.",
                gen: gen_misbehaving, run: run_misbehaving }),
            Box::new(Fam { name: "imposters", quick: 6, thorough: 30, serial: false,
                rule: "A server with another certificate, another name or a foreign key: neither side is connected. Every case is non-trivial.",
                gen: gen_imposter, run: run_imposter }),
        ],
        assumptions: vec![
            "loopback does not lose packets; each step gets 150 s where about one is needed",
            "ports between 12000 and 30000 are free for the run (used ones are skipped)",
        ],
    }]
}
