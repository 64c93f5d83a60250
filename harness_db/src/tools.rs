use plain_reference::IrisCode;
use rusqlite::Connection;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};
use vengine::*;

pub const CODE: usize = 12800;
const BYTES: usize = CODE / 8;

// ------------------------------------------------------------------------------------------------ running tools

fn base() -> &'static PathBuf {
    static D: OnceLock<PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        let b = root().join("target_scratch");
        std::fs::create_dir_all(&b).unwrap();
        for e in std::fs::read_dir(&b).into_iter().flatten().flatten() {
            let old = e.metadata().and_then(|m| m.modified()).ok().and_then(|t| t.elapsed().ok()).map(|d| d.as_secs() > 7200).unwrap_or(false);
            if old && e.file_name().to_string_lossy().starts_with("db-") {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
        let d = b.join(format!("db-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        d
    })
}
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = base().join(format!("{}", N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
        // the last one out
        let _ = std::fs::remove_dir(base().as_path());
        let _ = std::fs::create_dir_all(base().as_path());
    }
}
fn shim() -> &'static PathBuf {
    static S: OnceLock<PathBuf> = OnceLock::new();
    S.get_or_init(|| {
        let (c, so) = (base().join("shim.c"), base().join("shim.so"));
        std::fs::write(&c, include_str!("shim.c")).unwrap();
        let st = ["gcc", "clang"].iter().any(|cc| {
            Command::new(cc).args(["-O1", "-shared", "-fPIC", "-D_LARGEFILE64_SOURCE", "-w", "-o"]).arg(&so).arg(&c).arg("-ldl").status().map(|s| s.success()).unwrap_or(false)
        });
        assert!(st, "the preloaded library does not compile");
        so
    })
}
pub struct Ran {
    /// Exit code; None: ended by a signal.
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}
#[derive(Clone, Debug, Default)]
pub struct Env {
    pub entropy: u64,
    pub crash: u64,
    pub part: bool,
    /// Each request for entropy is answered with the same bytes (the program's randomness can then be predicted).
    pub same: bool,
    pub count: Option<PathBuf>,
}
pub fn run(tool: &str, cwd: &Path, args: &[String], env: &Env) -> Result<Ran, Fail> {
    let exe = root().join("target_repo/tools").join(tool);
    let (o, e) = (cwd.join("stdout.txt"), cwd.join("stderr.txt"));
    let mut c = Command::new(exe);
    c.args(args).current_dir(cwd).env("LD_PRELOAD", shim()).env("VF_ENTROPY", env.entropy.to_string()).env_remove("RUST_BACKTRACE");
    c.env("VF_CRASH", if env.crash == 0 { u64::MAX / 2 } else { env.crash }.to_string());
    if !env.same {
        c.env("VF_STREAM", "1");
    }
    if env.part {
        c.env("VF_PART", "1");
    }
    if let Some(p) = &env.count {
        c.env("VF_COUNT", p);
    }
    c.stdin(Stdio::null()).stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap());
    let mut ch = c.spawn().unwrap();
    let t = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        if t.elapsed() > Duration::from_secs(120) {
            let _ = ch.kill();
            let _ = ch.wait();
            return fail("stuck", format!("{tool} {args:?} has not ended after 120 s"));
        }
        std::thread::sleep(Duration::from_millis(3));
    };
    let r = Ran { code: st.code(), out: std::fs::read_to_string(&o).unwrap_or_default(), err: std::fs::read_to_string(&e).unwrap_or_default() };
    let _ = std::fs::remove_file(o);
    let _ = std::fs::remove_file(e);
    Ok(r)
}
fn sql<T>(what: &str, r: rusqlite::Result<T>) -> Result<T, Fail> {
    r.map_err(|e| Fail { kind: "database".into(), msg: format!("{what}: {e}") })
}
fn s(x: impl ToString) -> String {
    x.to_string()
}

// ------------------------------------------------------------------------------------------------ shared databases

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mpc {
    Aby3,
    Swift3,
    Spdz,
}
impl Mpc {
    fn names(self) -> [&'static str; 3] {
        match self {
            Mpc::Aby3 => ["aby3", "Aby3", "ABY3"],
            Mpc::Swift3 => ["swift3", "Swift3", "SWIFT3"],
            Mpc::Spdz => ["spdzwise", "SpdzWise", "SPDZWISE"],
        }
    }
}
const FILES: [&str; 5] = ["db", "a b.sqlite", "x'y.db", "ü%20?#.db", "sub/codes.db"];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run {
    items: u32,
    seed: Option<u64>,
    entropy: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SCase {
    mpc: Mpc,
    name: usize,
    file: usize,
    runs: Vec<Run>,
    other: Mpc,
}
fn gen_run(s: &mut Src) -> Run {
    Run { items: s.weighted(&[1, 3, 3, 2, 1, 1]) as u32, seed: if s.bool() { Some(if s.bool() { s.u64() } else { s.below(4) }) } else { None }, entropy: s.u64() }
}
fn gen_shares(s: &mut Src, i: u64) -> SCase {
    let all = [Mpc::Aby3, Mpc::Swift3, Mpc::Spdz];
    let mpc = all[(i % 3) as usize];
    let n = s.weighted(&[0, 3, 2, 1]);
    SCase { mpc, name: s.usize(0, 2), file: s.usize(0, FILES.len() - 1), runs: (0..n).map(|_| gen_run(s)).collect(), other: s.pick(&all) }
}

/// One entry of a database: the plaintext and the components as numbers.
#[derive(Clone, Debug, PartialEq)]
struct Entry {
    code: Vec<u8>,
    mask: Vec<u8>,
    /// The stored columns, each with one number per code bit.
    cols: Vec<Vec<u128>>,
    raw: Vec<Vec<u8>>,
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Db {
    rows: Vec<Entry>,
    /// (key, its components)
    keys: Vec<(u64, [u64; 3])>,
}
/// A vector as bincode writes it: the number of elements, then the elements.
fn numbers(b: &[u8], width: usize) -> Result<Vec<u128>, Fail> {
    ensure!(b.len() >= 8, "blob", "a share blob of {} bytes", b.len());
    let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    ensure!(n == CODE, "blob", "a share blob of {n} elements");
    ensure!(b.len() == 8 + n * width, "blob", "a share blob of {} bytes for {n} elements of {width} bytes", b.len());
    Ok(b[8..].chunks(width).map(|c| c.iter().rev().fold(0u128, |a, x| a << 8 | *x as u128)).collect())
}
fn columns(m: Mpc) -> &'static [&'static str] {
    match m {
        Mpc::Aby3 => &["share_a", "share_b", "share_c"],
        Mpc::Swift3 => &["share_a", "share_b", "share_c", "share_d"],
        Mpc::Spdz => &["share_a", "share_b", "share_c", "mac_a", "mac_b", "mac_c"],
    }
}
fn read(file: &Path, m: Mpc) -> Result<Db, Fail> {
    let c = sql("open", Connection::open(file))?;
    let cols = columns(m);
    let width = if m == Mpc::Spdz { 8 } else { 2 };
    let mut st = sql("codes", c.prepare(&format!("SELECT code, mask, {} FROM iris_codes ORDER BY id", cols.join(", "))))?;
    let rows = sql("codes", st.query_map([], |r| (0..cols.len() + 2).map(|i| r.get::<_, Vec<u8>>(i)).collect::<Result<Vec<_>, _>>()))?;
    let mut db = Db::default();
    for r in rows {
        let mut r = sql("row", r)?;
        let raw = r.split_off(2);
        let cols = raw.iter().map(|b| numbers(b, width)).collect::<Result<Vec<_>, _>>()?;
        let mask = r.pop().unwrap();
        let code = r.pop().unwrap();
        ensure!(code.len() == BYTES && mask.len() == BYTES, "blob", "code of {} and mask of {} bytes", code.len(), mask.len());
        db.rows.push(Entry { code, mask, cols, raw });
    }
    if m == Mpc::Spdz {
        let mut st = sql("keys", c.prepare("SELECT key, share_a, share_b, share_c FROM mac_key ORDER BY id"))?;
        let rows = sql("keys", st.query_map([], |r| (0..4).map(|i| r.get::<_, Vec<u8>>(i)).collect::<Result<Vec<_>, _>>()))?;
        for r in rows {
            let r = sql("row", r)?;
            let mut v = vec![];
            for b in &r {
                ensure!(b.len() == 8, "blob", "a key or component of {} bytes", b.len());
                v.push(u64::from_le_bytes(b[..].try_into().unwrap()));
            }
            db.keys.push((v[0], [v[1], v[2], v[3]]));
        }
    }
    Ok(db)
}
fn bit(b: &[u8], i: usize) -> bool {
    b[i / 8] >> (i % 8) & 1 == 1
}
/// Every entry combines to its code, with matching tags.
fn check_rows(m: Mpc, rows: &[Entry], key: Option<u64>) -> Result<u64, Fail> {
    for (k, e) in rows.iter().enumerate() {
        for i in 0..CODE {
            let c = |j: usize| e.cols[j][i];
            let want = bit(&e.code, i) as u128;
            match m {
                Mpc::Aby3 => {
                    let v = (c(0) + c(1) + c(2)) as u16;
                    ensure!(v as u128 == want, "value", "{m:?}: bit {i} of entry {k} combines to {v}, the code has {want}");
                }
                Mpc::Swift3 => {
                    let v = (c(3) as u16).wrapping_sub(c(0) as u16).wrapping_sub(c(1) as u16).wrapping_sub(c(2) as u16);
                    ensure!(v as u128 == want, "value", "{m:?}: bit {i} of entry {k} combines to {v}, the code has {want}");
                }
                Mpc::Spdz => {
                    let v = (c(0) + c(1) + c(2)) as u64;
                    ensure!(v as u16 as u128 == want, "value", "{m:?}: bit {i} of entry {k} combines to {v}, the code has {want}");
                    let t = (c(3) + c(4) + c(5)) as u64;
                    let key = key.unwrap_or(0);
                    ensure!(t == key.wrapping_mul(v), "tag", "{m:?}: the tag of bit {i} of entry {k} is {t}, the key times the value {}", key.wrapping_mul(v));
                }
            }
        }
        // masks hide the code: no component is biased, none equals another
        let width = if m == Mpc::Spdz { 64 } else { 16 };
        for (j, col) in e.cols.iter().enumerate() {
            for b in 0..width {
                let ones = col.iter().filter(|x| *x >> b & 1 == 1).count() as f64;
                let d = (2.0 * ones - CODE as f64).abs();
                ensure!(d < 9.0 * (CODE as f64).sqrt(), "biased", "{m:?}: bit {b} of column {} of entry {k} is 1 in {ones} of {CODE} numbers", columns(m)[j]);
            }
            for other in 0..j {
                let same = (0..CODE).filter(|i| col[*i] == e.cols[other][*i]).count();
                ensure!(same < 100, "repeated", "{m:?}: columns {} and {} of entry {k} are the same in {same} places", columns(m)[j], columns(m)[other]);
            }
        }
        for l in 0..k {
            ensure!(rows[l].code != e.code, "repeated", "{m:?}: entries {l} and {k} have the same code");
            for (a, b) in rows[l].raw.iter().zip(&e.raw) {
                ensure!(a != b, "repeated", "{m:?}: entries {l} and {k} have the same shares");
            }
        }
    }
    Ok(rows.len() as u64 * CODE as u64)
}
fn create(m: Mpc, name: usize, dir: &Path, file: &str, r: &Run, env: &Env) -> Result<Ran, Fail> {
    let mut args = vec![s("-d"), s(file), s("-m"), s(m.names()[name]), s("-i"), s(r.items)];
    if let Some(x) = r.seed {
        args.extend([s("-s"), s(x)]);
    }
    run("create_sample_data", dir, &args, env)
}
fn ok(what: &str, r: &Ran) -> Result<(), Fail> {
    ensure!(r.code == Some(0), "failed", "{what} ends with {:?}: {}", r.code, r.err.chars().take(400).collect::<String>());
    Ok(())
}
fn run_shares(c: &SCase) -> Check {
    let d = Dir::new();
    let f = FILES[c.file];
    std::fs::create_dir_all(d.0.join("sub")).unwrap();
    let path = d.0.join(f);
    let mut evals = 0;
    let mut have = Db::default();
    let mut seen: Vec<(Run, Vec<Entry>)> = vec![];
    for (k, r) in c.runs.iter().enumerate() {
        let env = Env { entropy: r.entropy, ..Default::default() };
        ok("create_sample_data", &create(c.mpc, c.name, &d.0, f, r, &env)?)?;
        let db = read(&path, c.mpc)?;
        let n = have.rows.len();
        ensure!(db.rows.len() == n + r.items as usize, "count", "{:?}: run {k} with {} items leaves {} entries after {n}", c.mpc, r.items, db.rows.len());
        ensure!(db.rows[..n] == have.rows[..], "changed", "{:?}: run {k} changes earlier entries", c.mpc);
        let mut key = None;
        if c.mpc == Mpc::Spdz {
            // one key for the whole database: the parties tag and check all entries with it
            ensure!(db.keys.len() == 1, "keys", "{} keys after {} runs", db.keys.len(), k + 1);
            ensure!(k == 0 || db.keys == have.keys, "keys", "run {k} changes the key");
            let (v, p) = db.keys[0];
            ensure!(p.iter().fold(0u64, |a, x| a.wrapping_add(*x)) == v, "key", "the components {p:x?} do not combine to the key {v:x}");
            ensure!(p.iter().all(|x| *x != v && *x != 0) && v != 0, "key", "key {v:x}, components {p:x?}");
            key = Some(v);
        }
        evals += check_rows(c.mpc, &db.rows[n..], key)?;
        // the same seed gives the same data, whatever the system's randomness; otherwise the data differ
        for (o, rows) in &seen {
            let m = rows.len().min(r.items as usize);
            if m == 0 {
                continue;
            }
            let same = match (o.seed, r.seed) {
                (Some(a), Some(b)) => Some(a == b),
                (None, None) => Some(o.entropy == r.entropy),
                _ => None,
            };
            let eq = rows[0].code == db.rows[n].code;
            if let Some(same) = same {
                ensure!(eq == same, "seed", "{:?}: runs {o:?} and {r:?} give {} first codes", c.mpc, if eq { "the same" } else { "different" });
            }
        }
        seen.push((r.clone(), db.rows[n..].to_vec()));
        have = db;
    }
    // reproducible
    if let Some(r) = c.runs.iter().find(|r| r.seed.is_some() && r.items > 0) {
        let again = |file: &str, e: u64| {
            ok("create_sample_data", &create(c.mpc, 0, &d.0, file, r, &Env { entropy: e, ..Default::default() })?)?;
            read(&d.0.join(file), c.mpc)
        };
        let (a, b) = (again("r1", r.entropy)?, again("r2", mix(r.entropy))?);
        ensure!(a == b, "seed", "{:?}: two runs with seed {:?} write different data", c.mpc, r.seed);
    }
    // a run that cannot succeed says so and leaves the entries alone
    if c.other != c.mpc {
        let r = create(c.other, 0, &d.0, f, &Run { items: 2, seed: None, entropy: 5 }, &Env::default())?;
        let db = read(&path, c.mpc);
        let rejected = r.code != Some(0);
        if rejected {
            ensure!(db? .rows == have.rows, "changed", "a failed run for {:?} changes the entries of {:?}", c.other, c.mpc);
        } else {
            // a table of more columns cannot take fewer and the other way round
            return fail("accepted", format!("a run for {:?} adds to a database of {:?}", c.other, c.mpc));
        }
    }
    let r = run("create_sample_data", &d.0, &[s("-d"), s("fresh"), s("-m"), s(["aby", "", "swift", "spdz", "aby33"][c.file]), s("-i"), s(1)], &Env::default())?;
    ensure!(r.code.is_some_and(|x| x != 0), "accepted", "an unknown protocol is accepted");
    let n: u32 = c.runs.iter().map(|r| r.items).sum();
    Ok(Outcome::ok(n > 0).evals(evals).label(format!("{:?} items:{}", c.mpc, n.min(4))))
}

// ------------------------------------------------------------------------------------------------ interrupted runs

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KCase {
    /// None: the tool that writes plaintext codes.
    mpc: Option<Mpc>,
    before: u32,
    items: u32,
    at: u64,
    part: bool,
    entropy: u64,
}
fn gen_kill(s: &mut Src, i: u64) -> KCase {
    let mpc = [Some(Mpc::Aby3), Some(Mpc::Swift3), Some(Mpc::Spdz), None][(i % 4) as usize];
    KCase { mpc, before: s.below(3) as u32, items: s.range(1, 5) as u32, at: s.u64(), part: s.bool(), entropy: s.u64() }
}
fn make(c: &KCase, dir: &Path, items: u32, env: &Env) -> Result<Ran, Fail> {
    match c.mpc {
        Some(m) => create(m, 0, dir, "db", &Run { items, seed: None, entropy: 0 }, env),
        None => run("create_sample_data_plain", dir, &[s("-d"), s("db"), s("-i"), s(items)], env),
    }
}
/// The entries (plaintext only where there are no shares), or none where there is no table.
fn entries(c: &KCase, path: &Path) -> Result<(Vec<Entry>, Vec<(u64, [u64; 3])>), Fail> {
    let con = sql("open", Connection::open(path))?;
    let n: i64 = sql("tables", con.query_row("SELECT count(*) FROM sqlite_master WHERE name = 'iris_codes'", [], |r| r.get(0)))?;
    if n == 0 {
        return Ok((vec![], vec![]));
    }
    match c.mpc {
        Some(Mpc::Spdz) => {
            let n: i64 = sql("tables", con.query_row("SELECT count(*) FROM sqlite_master WHERE name = 'mac_key'", [], |r| r.get(0)))?;
            if n == 0 {
                return Ok((vec![], vec![]));
            }
            read(path, Mpc::Spdz).map(|d| (d.rows, d.keys))
        }
        Some(m) => read(path, m).map(|d| (d.rows, d.keys)),
        None => Ok((plain_rows(&con)?.into_iter().map(|(code, mask)| Entry { code, mask, cols: vec![], raw: vec![] }).collect(), vec![])),
    }
}
fn run_kill(c: &KCase) -> Check {
    let probe = Dir::new();
    let d = Dir::new();
    for x in [&probe, &d] {
        if c.before > 0 {
            ok("the tool", &make(c, &x.0, c.before, &Env { entropy: mix(c.entropy), ..Default::default() })?)?;
        }
    }
    let path = d.0.join("db");
    let old = if c.before > 0 { entries(c, &path)? } else { Default::default() };
    // how many writes a run makes
    let count = probe.0.join("count");
    ok("the tool", &make(c, &probe.0, c.items, &Env { entropy: c.entropy, count: Some(count.clone()), ..Default::default() })?)?;
    let n: u64 = std::fs::read_to_string(&count).ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    if n == 0 {
        return Ok(Outcome::ok(false).label("no writes seen"));
    }
    let at = 1 + c.at % n;
    let r = make(c, &d.0, c.items, &Env { entropy: c.entropy, crash: at, part: c.part, ..Default::default() })?;
    if r.code != Some(99) {
        return Ok(Outcome::ok(false).label("not interrupted"));
    }
    let what = format!("{:?} interrupted at write {at} of {n}", c.mpc);
    let check = |now: &(Vec<Entry>, Vec<(u64, [u64; 3])>)| -> Result<usize, Fail> {
        let o = old.0.len();
        ensure!(now.0.len() == o || now.0.len() == o + c.items as usize, "partial", "{what}: {} entries, {o} before, {} to add", now.0.len(), c.items);
        ensure!(now.0[..o] == old.0[..], "changed", "{what}: earlier entries changed");
        if let Some(m) = c.mpc {
            if now.0.len() > o {
                ensure!(m != Mpc::Spdz || now.1.len() == 1, "keys", "{what}: {} keys", now.1.len());
                check_rows(m, &now.0[o..], now.1.first().map(|k| k.0))?;
            }
            ensure!(now.1.len() <= 1 && now.1.starts_with(&old.1), "keys", "{what}: {} keys", now.1.len());
        }
        Ok(now.0.len())
    };
    let now = entries(c, &path)?;
    let have = check(&now)?;
    // and the next run works
    ok("the tool after an interruption", &make(c, &d.0, 1, &Env { entropy: mix(c.entropy ^ 9), ..Default::default() })?)?;
    let last = entries(c, &path)?;
    ensure!(last.0.len() == have + 1 && last.0[..have] == now.0[..], "after", "{what}: the next run leaves {} entries after {have}", last.0.len());
    if let Some(m) = c.mpc {
        ensure!(m != Mpc::Spdz || last.1.len() == 1 && last.1.starts_with(&now.1), "keys", "{what}: {} keys after the next run", last.1.len());
        check_rows(m, &last.0[have..], last.1.first().map(|k| k.0))?;
    }
    Ok(Outcome::ok(true).label(format!("{:?} {}", c.mpc, if have == old.0.len() { "none" } else { "all" })))
}

// ------------------------------------------------------------------------------------------------ plain tools

fn plain_rows(c: &Connection) -> Result<Vec<(Vec<u8>, Vec<u8>)>, Fail> {
    let mut st = sql("codes", c.prepare("SELECT code, mask FROM iris_codes ORDER BY id"))?;
    let rows = sql("codes", st.query_map([], |r| Ok((r.get::<_, Vec<u8>>(0)?, r.get::<_, Vec<u8>>(1)?))))?;
    rows.map(|r| sql("row", r)).collect()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PCase {
    runs: Vec<(u32, u64)>,
    /// Entropy of searches: for an altered first entry (true), for a random code (false).
    find: Vec<(bool, u64)>,
    file: usize,
}
fn gen_plain(s: &mut Src, _: u64) -> PCase {
    let n = s.usize(1, 3);
    let runs = (0..n).map(|_| (s.below(6) as u32, s.u64())).collect();
    PCase { runs, find: (0..s.usize(1, 3)).map(|_| (s.one_in(3) == false, s.u64())).collect(), file: s.usize(0, FILES.len() - 1) }
}
fn found(r: &Ran) -> Result<bool, Fail> {
    ok("find_match", r)?;
    match (r.out.contains("Found a match!"), r.out.contains("No match found")) {
        (true, false) => Ok(true),
        (false, true) => Ok(false),
        _ => fail("output", format!("find_match prints {:?}", r.out)),
    }
}
fn run_plain(c: &PCase) -> Check {
    let d = Dir::new();
    let f = FILES[c.file];
    std::fs::create_dir_all(d.0.join("sub")).unwrap();
    let mut have: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for (k, (items, e)) in c.runs.iter().enumerate() {
        // different runs have different randomness
        let env = Env { entropy: mix(e ^ k as u64), ..Default::default() };
        ok("create_sample_data_plain", &run("create_sample_data_plain", &d.0, &[s("-d"), s(f), s("-i"), s(items)], &env)?)?;
        let con = sql("open", Connection::open(d.0.join(f)))?;
        let now = plain_rows(&con)?;
        let n = have.len();
        ensure!(now.len() == n + *items as usize, "count", "run {k} with {items} items leaves {} entries after {n}", now.len());
        ensure!(now[..n] == have[..], "changed", "run {k} changes earlier entries");
        for (code, mask) in &now[n..] {
            ensure!(code.len() == BYTES && mask.len() == BYTES, "blob", "code of {} and mask of {} bytes", code.len(), mask.len());
            let ones = |b: &[u8]| b.iter().map(|x| x.count_ones()).sum::<u32>();
            ensure!(ones(code).abs_diff(6400) < 520, "biased", "a code with {} ones", ones(code));
            ensure!(ones(mask) > 10_000 && ones(mask) < CODE as u32, "mask", "a mask with {} ones", ones(mask));
        }
        have = now;
    }
    for i in 0..have.len() {
        for j in 0..i {
            ensure!(have[i] != have[j], "repeated", "entries {i} and {j} are the same");
        }
    }
    let mut evals = 0;
    if !have.is_empty() {
        for (m, e) in &c.find {
            let mut a = vec![s("-d"), s(f)];
            if *m {
                a.push(s("--should-match"));
            }
            let hit = found(&run("find_match", &d.0, &a, &Env { entropy: mix(*e ^ 1234), ..Default::default() })?)?;
            ensure!(hit == *m, "search", "find_match {} a match for {} in a database of {}", if hit { "finds" } else { "does not find" }, if *m { "an entry with noise" } else { "a random code" }, have.len());
            evals += 1;
        }
    }
    Ok(Outcome::ok(!have.is_empty()).evals(evals).label(format!("items:{}", have.len().min(6))))
}

/// A database around the code the search will be for.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FCase {
    /// (permille of differing bits, mask density in 1/16, replaces the id by)
    rows: Vec<(u64, u64, Option<i64>)>,
    seed: u64,
    entropy: u64,
}
fn gen_find(s: &mut Src, _: u64) -> FCase {
    let n = s.usize(0, 9);
    let hits = s.below(3);
    let rows = (0..n)
        .map(|_| {
            let near = if hits == 0 { false } else if hits == 1 { s.one_in(5) } else { s.bool() };
            let far = if near { s.pick(&[0u64, 1, 50, 200, 300, 325]) } else { s.pick(&[355u64, 360, 400, 500, 700, 1000]) };
            (far, s.range(13, 16), if s.one_in(4) { Some(s.below(100) as i64 - 20) } else { None })
        })
        .collect();
    FCase { rows, seed: s.u64(), entropy: s.u64() }
}
fn run_find(c: &FCase) -> Check {
    // the code the tool will draw
    let old = getrandom::verif::swap(Some(c.entropy));
    let q = IrisCode::random();
    getrandom::verif::swap(old);
    let (qc, qm) = (q.code.as_raw_slice().to_vec(), q.mask.as_raw_slice().to_vec());
    let d = Dir::new();
    let con = sql("open", Connection::open(d.0.join("db")))?;
    sql("create", con.execute("CREATE TABLE iris_codes (id INTEGER PRIMARY KEY, code BLOB NOT NULL, mask BLOB NOT NULL)", []))?;
    let mut r = Rng64::new(c.seed);
    let mut want = false;
    let mut used = vec![];
    let mut dists = vec![];
    for (pm, dens, id) in &c.rows {
        let mut mask = vec![0u8; BYTES];
        let mut code = qc.clone();
        for i in 0..CODE {
            if r.below(16) < *dens {
                mask[i / 8] |= 1 << (i % 8);
            }
        }
        // flip exactly this part of the bits both masks keep, and unrelated ones elsewhere
        let mut both: Vec<usize> = (0..CODE).filter(|i| bit(&mask, *i) && bit(&qm, *i)).collect();
        let n = both.len();
        let k = (n as u64 * pm / 1000) as usize;
        for i in 0..k {
            let j = i + r.below((n - i) as u64) as usize;
            both.swap(i, j);
            code[both[i] / 8] ^= 1 << (both[i] % 8);
        }
        for i in 0..CODE {
            if !(bit(&mask, i) && bit(&qm, i)) && r.next() & 1 == 1 {
                code[i / 8] ^= 1 << (i % 8);
            }
        }
        want |= (k as f64) < 0.34 * n as f64;
        dists.push(*pm);
        match id {
            Some(x) if !used.contains(x) => {
                used.push(*x);
                if con.execute("INSERT INTO iris_codes (id, code, mask) VALUES (?1, ?2, ?3)", rusqlite::params![x, code, mask]).is_err() {
                    sql("insert", con.execute("INSERT INTO iris_codes (code, mask) VALUES (?1, ?2)", rusqlite::params![code, mask]))?;
                }
            }
            _ => {
                sql("insert", con.execute("INSERT INTO iris_codes (code, mask) VALUES (?1, ?2)", rusqlite::params![code, mask]))?;
            }
        }
    }
    drop(con);
    let got = found(&run("find_match", &d.0, &[s("-d"), s("db")], &Env { entropy: c.entropy, same: true, ..Default::default() })?)?;
    ensure!(got == want, "search", "find_match {} a match; the entries differ from the code searched for in (permille) {dists:?}", if got { "finds" } else { "does not find" });
    Ok(Outcome::ok(!c.rows.is_empty()).evals(c.rows.len() as u64).label(format!("{} {}", if want { "match" } else { "no match" }, if c.rows.len() > 1 { "many" } else { "few" })))
}

pub fn prop() -> Prop {
    Prop {
        id: "P21",
        level: "exploration",
        families: vec![
            Box::new(Fam { name: "shared", quick: 60, thorough: 4000, serial: false,
                rule: "create_sample_data for each scheme, 1-3 runs of 0-5 items into one file, with and without seed, odd file names: number of entries, earlier entries untouched, every bit of every entry combines to the recorded code, one key is recorded, all tags match it and its components combine to it, components are balanced and not copies of one another; the same seed gives the same data under other system randomness, other seeds other data; a run for another scheme or an unknown one fails and leaves the entries alone. Non-trivial: some entry.",
                gen: gen_shares, run: run_shares }),
            Box::new(Fam { name: "interrupted", quick: 80, thorough: 5000, serial: false,
                rule: "The same tools ended at a drawn write, sync, truncation or unlink (before it or half-way through): the database then has none or all of the run's entries, all consistent with the recorded key, earlier entries untouched, and the next run works. Non-trivial: the run was interrupted.",
                gen: gen_kill, run: run_kill }),
            Box::new(Fam { name: "plain", quick: 60, thorough: 4000, serial: false,
                rule: "create_sample_data_plain, 1-3 runs of 0-5 items, then find_match: entries well-formed and counted, a noisy copy of an entry is found, a random code is not. Non-trivial: some entry.",
                gen: gen_plain, run: run_plain }),
            Box::new(Fam { name: "search", quick: 200, thorough: 15_000, serial: false,
                rule: "find_match on databases of 0-9 entries made around the code it will search for (known through controlled system randomness), at distances of 0-32.5% or 35.5-100% of the bits both masks keep, any bits elsewhere, any order and ids: a match is reported exactly if an entry is near. Non-trivial: some entry.",
                gen: gen_find, run: run_find }),
        ],
        assumptions: vec![
            "the tools are run as processes with the C library's getrandom/syscall and file writes interposed (LD_PRELOAD)",
            "an interrupted process, not a power failure: what was written before the interruption stays",
        ],
    }
}
