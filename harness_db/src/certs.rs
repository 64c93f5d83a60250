//! gen_cert: what it writes serves to connect under every given name, and only those.
use crate::tools::{run, Dir, Env};
use bytes::Bytes;
use futures::{SinkExt, StreamExt};
use mpc_net::config::{NetworkConfig, NetworkParty};
use mpc_net::MpcNetworkHandler;
use serde::{Deserialize, Serialize};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;
use vengine::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// Names in the two parties' certificates, and the one they are addressed by (None: a name not listed).
    names: [Vec<usize>; 2],
    by: [Option<usize>; 2],
    /// Made by mpc-net's or iris-mpc's generator.
    net: [bool; 2],
}
const NAMES: [&str; 6] = ["localhost", "party0", "party1.example.com", "a-b.c", "xn--bcher-kva.example", "x"];
fn gen(s: &mut Src, _: u64) -> Case {
    let one = |s: &mut Src| {
        let n = s.usize(1, 4);
        (0..n).map(|_| s.usize(0, 5)).collect::<Vec<_>>()
    };
    let names = [one(s), one(s)];
    let by = [0, 1].map(|_| if s.one_in(5) { None } else { Some(s.usize(0, 3)) });
    Case { names, by, net: [s.bool(), s.bool()] }
}
fn ports() -> [u16; 2] {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let mut v = vec![];
    while v.len() < 2 {
        let k = NEXT.fetch_add(1, Ordering::Relaxed) + std::process::id() as u64 * 37;
        let p = 12_000 + (k % 18_000) as u16;
        if std::net::UdpSocket::bind(("127.0.0.1", p)).is_ok() {
            v.push(p);
        }
    }
    [v[0], v[1]]
}
fn go(c: &Case) -> Check {
    let d = Dir::new();
    for i in 0..2 {
        let mut a = vec!["-c".to_string(), format!("c{i}.der"), "-k".into(), format!("k{i}.der")];
        for n in &c.names[i] {
            a.extend(["-s".into(), NAMES[*n].into()]);
        }
        let r = run(if c.net[i] { "gen_cert_net" } else { "gen_cert" }, &d.0, &a, &Env { entropy: i as u64 + 1, ..Default::default() })?;
        ensure!(r.code == Some(0), "failed", "gen_cert {a:?} ends with {:?}: {:.300}", r.code, r.err);
    }
    let name = |i: usize| match c.by[i] {
        Some(k) => NAMES[c.names[i][k % c.names[i].len()]].to_string(),
        None => "another.name".to_string(),
    };
    // the party with the smaller id is one that connects; the certificate of the one connected to is checked
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let res = rt.block_on(async {
        loop {
            let ps = ports();
            let cfg = |me: usize| NetworkConfig {
                parties: (0..2)
                    .map(|i| {
                        let a: SocketAddr = ([127, 0, 0, 1], ps[i]).into();
                        NetworkParty { id: i, dns_name: name(i), bind_addr: a, public_addr: a, cert_path: d.0.join(format!("c{i}.der")) }
                    })
                    .collect(),
                my_id: me,
                key_path: d.0.join(format!("k{me}.der")),
            };
            let one = |me: usize| {
                let cfg = cfg(me);
                async move { MpcNetworkHandler::establish(cfg).await.map_err(|e| format!("{e:?}")) }
            };
            let both = async { tokio::try_join!(one(0), one(1)) };
            match tokio::time::timeout(Duration::from_secs(60), both).await {
                Err(_) => break Err("neither connected nor failed after 60 s".to_string()),
                Ok(Err(e)) if e.contains("AddrInUse") || e.contains("in use") => continue,
                Ok(Err(e)) => break Err(e),
                Ok(Ok((mut a, mut b))) => {
                    let talk = async {
                        let (ca, cb) = tokio::try_join!(a.get_byte_channels(), b.get_byte_channels()).map_err(|e| format!("{e}"))?;
                        let (mut ca, mut cb) = (ca, cb);
                        let (x, y) = (ca.get_mut(&1).ok_or("no channel")?, cb.get_mut(&0).ok_or("no channel")?);
                        x.send(Bytes::from_static(b"one")).await.map_err(|e| format!("{e}"))?;
                        let r = y.next().await.ok_or("end")?.map_err(|e| format!("{e}"))?;
                        if &r[..] != b"one" {
                            return Err("another message".to_string());
                        }
                        Ok(())
                    };
                    break talk.await;
                }
            }
        }
    });
    rt.shutdown_background();
    // party 0 is connected to by party 1 or the other way round: what is checked is that a listed name works; a name
    // that is not listed is refused if both are
    match (c.by[0], c.by[1]) {
        (Some(_), Some(_)) => {
            if let Err(e) = res {
                return fail("refused", format!("parties with certificates for {:?} addressed as {} and {}: {e}", c.names, name(0), name(1)));
            }
        }
        (None, None) => ensure!(res.is_err(), "accepted", "certificates for {:?} connect under {}", c.names, name(0)),
        _ => return Ok(Outcome::ok(true).label("one not listed")),
    }
    Ok(Outcome::ok(true).label(if c.by[0].is_some() { "listed" } else { "not listed" }))
}
pub fn family() -> Box<dyn Family> {
    Box::new(Fam { name: "certificates", quick: 100, thorough: 1500, serial: true,
        rule: "gen_cert with 1-4 names for each of two parties: the parties connect (QUIC on loopback) and exchange a message when addressed by any listed name, and do not when addressed by names not listed. Every case is non-trivial.",
        gen, run: go })
}
