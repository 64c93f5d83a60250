//! P11: commitments.
use iris_mpc::prelude::{Bit, RingImpl, Sharable};
use iris_mpc::verif_hooks::p11::{CommitOpening, Commitment};
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use serde::{Deserialize, Serialize};
use vengine::*;

fn mk<R: RingImpl>(v: u128) -> R {
    let bits: Vec<_> = (0..R::K).map(|i| Bit::new(v >> i & 1 == 1).to_sharetype()).collect();
    R::from_bits(&bits).unwrap()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    /// value `at` (of those there are) plus a nonzero difference
    Value(u64, u128),
    Push(u128),
    Pop,
    Insert(u64, u128),
    Remove(u64),
    Swap(u64, u64),
    Clear,
    Rand(u8, u8),
    RandZero,
    Comm(u64, u8),
    CommCut(u64),
    CommPush(u8),
    CommEmpty,
    CommSwap(u64, u64),
    CommOther,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    k: usize,
    v: Vec<u128>,
    rand: u64,
    rand2: u64,
    edits: Vec<Edit>,
}
fn gen_edit(s: &mut Src, k: usize) -> Edit {
    match s.below(15) {
        0 | 1 => Edit::Value(s.u64(), match s.below(3) { 0 => 1, 1 => 1u128 << s.below(k as u64), _ => s.value(k) | 1 }),
        2 => Edit::Push(if s.bool() { 0 } else { s.value(k) }),
        3 => Edit::Pop,
        4 => Edit::Insert(s.u64(), if s.bool() { 0 } else { s.value(k) }),
        5 => Edit::Remove(s.u64()),
        6 => Edit::Swap(s.u64(), s.u64()),
        7 => Edit::Clear,
        8 | 9 => Edit::Rand(s.below(32) as u8, 1 << s.below(8)),
        10 => Edit::RandZero,
        11 => Edit::Comm(s.u64(), 1 << s.below(8)),
        12 => match s.below(4) { 0 => Edit::CommEmpty, 1 => Edit::CommPush(s.below(256) as u8), _ => Edit::CommCut(s.u64()) },
        13 => Edit::CommSwap(s.u64(), s.u64()),
        _ => Edit::CommOther,
    }
}
fn gen(s: &mut Src, i: u64) -> Case {
    let k = [1, 8, 16, 32, 64, 128][(i % 6) as usize];
    let n = match s.below(4) { 0 => s.usize(0, 2), 1 => 32, 2 => s.usize(0, 40), _ => s.pick(&[15usize, 16, 17, 48, 96, 111, 112, 127, 128, 129, 300]) };
    let v = (0..n).map(|_| s.value(k)).collect();
    let m = s.usize(1, 4);
    Case { k, v, rand: s.u64(), rand2: s.u64(), edits: (0..m).map(|_| gen_edit(s, k)).collect() }
}
fn go<R: RingImpl>(c: &Case) -> Check {
    let v: Vec<R> = c.v.iter().map(|x| mk(*x)).collect();
    let g = |seed: u64| ChaCha12Rng::seed_from_u64(seed);
    let cm = Commitment::commit(v.clone(), &mut g(c.rand));
    let (rand, comm) = (cm.rand, cm.comm.clone());
    ensure!(cm.values == v, "values", "the commitment holds other values than were committed to");
    let op = cm.open();
    ensure!(op.values == v && op.rand == rand, "opening", "the opening holds other values or randomness than were committed to");
    ensure!(op.verify(comm.clone()), "honest-refused", "an honest opening does not verify");
    let again = Commitment::commit_with_rand(v.clone(), rand);
    ensure!(again.comm == comm && again.rand == rand, "deterministic", "the same values and randomness give two commitments");
    ensure!(comm.len() == Commitment::<R>::get_comm_size() && rand.len() == Commitment::<R>::get_rand_size(), "size", "commitment of {} bytes, announced {}", comm.len(), Commitment::<R>::get_comm_size());
    let open = |values: Vec<R>, rand: [u8; 32]| CommitOpening { values, rand };
    let mut evals = 3;
    // the same values under other randomness
    if c.rand2 != c.rand {
        let o = Commitment::commit(v.clone(), &mut g(c.rand2));
        ensure!(o.comm != comm && o.rand != rand, "hiding", "two commitments to the same values under different randomness coincide");
        ensure!(!open(v.clone(), o.rand).verify(comm.clone()), "wrong-rand", "verifies with the randomness of another commitment");
        ensure!(!open(v.clone(), rand).verify(o.comm.clone()), "wrong-comm", "verifies against another commitment to the same values");
        ensure!(open(v.clone(), o.rand).verify(o.comm.clone()), "honest-refused", "an honest opening does not verify");
        evals += 4;
    }
    // drawn alterations, one after the other and each on its own
    let (mut av, mut ar, mut ac) = (v.clone(), rand, comm.clone());
    for e in &c.edits {
        let single = apply(e, &v, &rand, &comm, c);
        let changed = single != (v.clone(), rand, comm.clone());
        let ok = open(single.0, single.1).verify(single.2);
        ensure!(ok != changed, if changed { "accepted" } else { "honest-refused" }, "{e:?} (changing something: {changed}) gives {ok}");
        (av, ar, ac) = apply(e, &av, &ar, &ac, c);
        evals += 1;
    }
    let changed = (&av, &ar, &ac) != (&v, &rand, &comm);
    let ok = open(av, ar).verify(ac);
    ensure!(ok != changed, if changed { "accepted" } else { "honest-refused" }, "all of {:?} (changing something: {changed}) gives {ok}", c.edits);
    Ok(Outcome::ok(changed).label(format!("k{}", R::K)).evals(evals + 1))
}
fn apply<R: RingImpl>(e: &Edit, v: &[R], rand: &[u8; 32], comm: &[u8], c: &Case) -> (Vec<R>, [u8; 32], Vec<u8>) {
    let (mut v, mut r, mut m) = (v.to_vec(), *rand, comm.to_vec());
    let at = |i: u64, n: usize| (i % n.max(1) as u64) as usize;
    match e {
        Edit::Value(i, d) => {
            if let Some(x) = { let n = v.len(); v.get_mut(at(*i, n)) } {
                *x += mk::<R>(*d);
            }
        }
        Edit::Push(x) => v.push(mk(*x)),
        Edit::Pop => drop(v.pop()),
        Edit::Insert(i, x) => {
            let n = v.len() + 1;
            v.insert(at(*i, n), mk(*x))
        }
        Edit::Remove(i) => {
            if !v.is_empty() {
                let n = v.len();
                v.remove(at(*i, n));
            }
        }
        Edit::Swap(i, j) => {
            if !v.is_empty() {
                let n = v.len();
                v.swap(at(*i, n), at(*j, n))
            }
        }
        Edit::Clear => v.clear(),
        Edit::Rand(i, x) => r[*i as usize] ^= x,
        Edit::RandZero => r = [0; 32],
        Edit::Comm(i, x) => {
            if !m.is_empty() {
                let n = m.len();
                m[at(*i, n)] ^= x
            }
        }
        Edit::CommCut(i) => m.truncate(at(*i, comm.len())),
        Edit::CommPush(x) => m.push(*x),
        Edit::CommEmpty => m.clear(),
        Edit::CommSwap(i, j) => {
            if !m.is_empty() {
                let n = m.len();
                m.swap(at(*i, n), at(*j, n))
            }
        }
        Edit::CommOther => m = Commitment::commit(v.clone(), &mut ChaCha12Rng::seed_from_u64(c.rand2 ^ 1)).comm,
    }
    (v, r, m)
}
fn run(c: &Case) -> Check {
    match c.k {
        1 => go::<<Bit as Sharable>::Share>(c),
        8 => go::<<u8 as Sharable>::Share>(c),
        16 => go::<<u16 as Sharable>::Share>(c),
        32 => go::<<u32 as Sharable>::Share>(c),
        64 => go::<<u64 as Sharable>::Share>(c),
        _ => go::<<u128 as Sharable>::Share>(c),
    }
}

pub fn props() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut families: Vec<Box<dyn Family>> = vec![Box::new(Fam { name: "openings", quick: 400000, thorough: 8000000, serial: false,
        rule: "Values of each width (up to 300 entries) committed to; the honest opening verifies, and openings or commitment strings with one to four drawn alterations (values changed, added, removed, swapped; randomness; commitment bits, length, another commitment) verify exactly when nothing changed. Non-trivial: something changed.",
        gen, run })];
    #[cfg(feature = "sim")]
    families.extend(crate::s_commit::families());
    vec![Prop { id: "P11", level: "exploration", families, assumptions: vec!["no hash collisions", "one corrupt party in the protocol family"] }]
}
