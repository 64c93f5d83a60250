//! Uniform view of the four backends over every supported integer type, built only on the public API.

use crate::sim::SimNet;
use iris_mpc::prelude::*;
use plain_reference::IrisCodeArray;
use serde::{Deserialize, Serialize};

pub type Res<T> = Result<T, Error>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Be {
    Aby3,
    Mal,
    Spdz,
    Swift,
}
pub const BES: [Be; 4] = [Be::Aby3, Be::Mal, Be::Spdz, Be::Swift];
pub const MALICIOUS: [Be; 3] = [Be::Mal, Be::Spdz, Be::Swift];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ty {
    U16,
    U8,
    U32,
    U64,
    U128,
    I16,
    I32,
}
impl Ty {
    pub fn k(self) -> usize {
        match self {
            Ty::U8 => 8,
            Ty::U16 | Ty::I16 => 16,
            Ty::U32 | Ty::I32 => 32,
            Ty::U64 => 64,
            Ty::U128 => 128,
        }
    }
    pub fn mask(self) -> u128 {
        mask(self.k())
    }
}
pub fn mask(k: usize) -> u128 {
    if k >= 128 {
        u128::MAX
    } else {
        (1u128 << k) - 1
    }
}

/// Types each backend is instantiated with here (MalAby3 requires a verification ring 40 bits larger).
pub fn types(be: Be) -> &'static [Ty] {
    match be {
        Be::Aby3 => &[Ty::U16, Ty::U8, Ty::U32, Ty::U64, Ty::U128, Ty::I16],
        Be::Mal => &[Ty::U16, Ty::U8, Ty::U64, Ty::I16],
        Be::Spdz => &[Ty::U16, Ty::U8, Ty::U32, Ty::U64, Ty::I16],
        Be::Swift => &[Ty::U16, Ty::U8, Ty::U32, Ty::U64, Ty::U128, Ty::I16],
    }
}

#[allow(async_fn_in_trait)]
pub trait Glue: Sized + 'static {
    const BE: Be;
    const K: usize;
    /// Bits of the ring the value components live in (verification ring for SpdzWise).
    const UK: usize;
    type A: Clone + 'static;
    type B: Clone + 'static;
    fn new(net: SimNet) -> Self;
    async fn preprocess(&mut self) -> Res<()>;
    async fn precompute(&mut self, n: usize) -> Res<()>;
    fn set_mac_key_share(&mut self, one_times_key: Self::A);
    fn set_new_mac_key(&mut self);
    /// This party's key share (a, b); None where there is no key.
    fn key_share(&self) -> Option<(u128, u128)>;
    async fn finish(self) -> Res<()>;
    fn share(v: u128, key: u128, seed: u64) -> Vec<Self::A>;
    async fn input(&mut self, v: Option<u128>, who: usize) -> Res<Self::A>;
    async fn open(&mut self, a: Self::A) -> Res<u128>;
    async fn open_many(&mut self, a: Vec<Self::A>) -> Res<Vec<u128>>;
    async fn open_bit(&mut self, a: Self::B) -> Res<bool>;
    async fn open_bit_many(&mut self, a: Vec<Self::B>) -> Res<Vec<bool>>;
    fn add(&self, a: Self::A, b: Self::A) -> Self::A;
    fn sub(&self, a: Self::A, b: Self::A) -> Self::A;
    fn add_const(&self, a: Self::A, c: u128) -> Self::A;
    fn sub_const(&self, a: Self::A, c: u128) -> Self::A;
    fn mul_const(&self, a: Self::A, c: u128) -> Self::A;
    async fn mul(&mut self, a: Self::A, b: Self::A) -> Res<Self::A>;
    async fn dot(&mut self, a: Vec<Self::A>, b: Vec<Self::A>) -> Res<Self::A>;
    async fn dot_many(&mut self, a: Vec<Vec<Self::A>>, b: Vec<Vec<Self::A>>) -> Res<Vec<Self::A>>;
    async fn masked_dot_many(&mut self, a: Vec<Self::A>, b: Vec<Vec<Self::A>>, m: &[IrisCodeArray]) -> Res<Vec<Self::A>>;
    async fn msb(&mut self, a: Self::A) -> Res<Self::B>;
    async fn msb_many(&mut self, a: Vec<Self::A>) -> Res<Vec<Self::B>>;
    async fn or(&mut self, a: Self::B, b: Self::B) -> Res<Self::B>;
    async fn or_reduce(&mut self, a: Vec<Self::B>, chunk: usize) -> Res<Self::B>;
    async fn verify(&mut self) -> Res<()>;
    /// Components of an arithmetic share: ABY3 (a,b), Swift3 (a,b,c), SpdzWise (va,vb,ma,mb).
    fn comps(a: &Self::A) -> Vec<u128>;
    fn from_comps(c: &[u128]) -> Self::A;
    fn bcomps(b: &Self::B) -> Vec<bool>;
    fn from_bcomps(c: &[bool]) -> Self::B;

    /// The database query protocol over this backend.
    type I: 'static;
    fn iris_new(net: SimNet) -> Res<Self::I>;
    async fn iris_pre(i: &mut Self::I) -> Res<()>;
    fn iris_set_key(i: &mut Self::I, one_times_key: Self::A);
    fn iris_new_key(i: &mut Self::I);
    fn iris_key_share(i: &Self::I) -> Option<(u128, u128)>;
    async fn iris_verify(i: &mut Self::I) -> Res<()>;
    async fn iris_query(
        i: &mut Self::I,
        q: Vec<Self::A>,
        db: Vec<Vec<Self::A>>,
        mq: &IrisCodeArray,
        md: &[IrisCodeArray],
        chunk: usize,
    ) -> Res<bool>;
    async fn iris_finish(i: Self::I) -> Res<()>;
}

pub fn el<T: Sharable>(e: T::Share) -> u128
where
    T::Share: RingImpl,
{
    u128::from_sharetype(e.upgrade_to_128())
}
pub fn bit(e: <Bit as Sharable>::Share) -> bool {
    Bit::from_sharetype(e).convert()
}
pub fn mkbit(b: bool) -> <Bit as Sharable>::Share {
    Bit::new(b).to_sharetype()
}

#[macro_export]
macro_rules! common {
    ($t:ty, $u:ty, $p:ty, $a:ty, $b:ty) => {
        type A = $a;
        type B = $b;
        async fn preprocess(&mut self) -> Res<()> {
            <$p as MpcTrait<$t, $a, $b>>::preprocess(&mut self.0).await
        }
        async fn precompute(&mut self, n: usize) -> Res<()> {
            <$p as MpcTrait<$t, $a, $b>>::precompute_and_triples(&mut self.0, n).await
        }
        fn set_mac_key_share(&mut self, k: $a) {
            <$p as MpcTrait<$t, $a, $b>>::set_mac_key(&mut self.0, k)
        }
        fn set_new_mac_key(&mut self) {
            <$p as MpcTrait<$t, $a, $b>>::set_new_mac_key(&mut self.0)
        }
        async fn finish(self) -> Res<()> {
            <$p as MpcTrait<$t, $a, $b>>::finish(self.0).await
        }
        fn share(v: u128, key: u128, seed: u64) -> Vec<$a> {
            let mut rng = ChaCha12Rng::seed_from_u64(seed);
            <$p as MpcTrait<$t, $a, $b>>::share(v as $t, key as $u, &mut rng)
        }
        async fn input(&mut self, v: Option<u128>, who: usize) -> Res<$a> {
            <$p as MpcTrait<$t, $a, $b>>::input(&mut self.0, v.map(|x| x as $t), who).await
        }
        async fn open(&mut self, a: $a) -> Res<u128> {
            Ok(<$p as MpcTrait<$t, $a, $b>>::open(&mut self.0, a).await? as u128 & mask(Self::K))
        }
        async fn open_many(&mut self, a: Vec<$a>) -> Res<Vec<u128>> {
            let v = <$p as MpcTrait<$t, $a, $b>>::open_many(&mut self.0, Self::mkvec(a)).await?;
            Ok(v.into_iter().map(|x| x as u128 & mask(Self::K)).collect())
        }
        async fn open_bit(&mut self, a: $b) -> Res<bool> {
            <$p as MpcTrait<$t, $a, $b>>::open_bit(&mut self.0, a).await
        }
        async fn open_bit_many(&mut self, a: Vec<$b>) -> Res<Vec<bool>> {
            <$p as MpcTrait<$t, $a, $b>>::open_bit_many(&mut self.0, a).await
        }
        fn add(&self, a: $a, b: $a) -> $a {
            <$p as MpcTrait<$t, $a, $b>>::add(&self.0, a, b)
        }
        fn sub(&self, a: $a, b: $a) -> $a {
            <$p as MpcTrait<$t, $a, $b>>::sub(&self.0, a, b)
        }
        fn add_const(&self, a: $a, c: u128) -> $a {
            <$p as MpcTrait<$t, $a, $b>>::add_const(&self.0, a, c as $t)
        }
        fn sub_const(&self, a: $a, c: u128) -> $a {
            <$p as MpcTrait<$t, $a, $b>>::sub_const(&self.0, a, c as $t)
        }
        fn mul_const(&self, a: $a, c: u128) -> $a {
            <$p as MpcTrait<$t, $a, $b>>::mul_const(&self.0, a, c as $t)
        }
        async fn mul(&mut self, a: $a, b: $a) -> Res<$a> {
            <$p as MpcTrait<$t, $a, $b>>::mul(&mut self.0, a, b).await
        }
        async fn dot(&mut self, a: Vec<$a>, b: Vec<$a>) -> Res<$a> {
            <$p as MpcTrait<$t, $a, $b>>::dot(&mut self.0, Self::mkvec(a), Self::mkvec(b)).await
        }
        async fn dot_many(&mut self, a: Vec<Vec<$a>>, b: Vec<Vec<$a>>) -> Res<Vec<$a>> {
            let a: Vec<_> = a.into_iter().map(Self::mkvec).collect();
            let b: Vec<_> = b.into_iter().map(Self::mkvec).collect();
            <$p as MpcTrait<$t, $a, $b>>::dot_many(&mut self.0, &a, &b).await
        }
        async fn masked_dot_many(&mut self, a: Vec<$a>, b: Vec<Vec<$a>>, m: &[IrisCodeArray]) -> Res<Vec<$a>> {
            let a = Self::mkvec(a);
            let b: Vec<_> = b.into_iter().map(Self::mkvec).collect();
            <$p as MpcTrait<$t, $a, $b>>::masked_dot_many(&mut self.0, &a, &b, m).await
        }
        async fn msb(&mut self, a: $a) -> Res<$b> {
            <$p as MpcTrait<$t, $a, $b>>::get_msb(&mut self.0, a).await
        }
        async fn msb_many(&mut self, a: Vec<$a>) -> Res<Vec<$b>> {
            <$p as MpcTrait<$t, $a, $b>>::get_msb_many(&mut self.0, a).await
        }
        async fn or(&mut self, a: $b, b: $b) -> Res<$b> {
            <$p as MpcTrait<$t, $a, $b>>::binary_or(&mut self.0, a, b).await
        }
        async fn or_reduce(&mut self, a: Vec<$b>, chunk: usize) -> Res<$b> {
            <$p as MpcTrait<$t, $a, $b>>::reduce_binary_or(&mut self.0, a, chunk).await
        }
        async fn verify(&mut self) -> Res<()> {
            <$p as MpcTrait<$t, $a, $b>>::verify(&mut self.0).await
        }
        type I = IrisProtocol<$t, $a, $b, $p>;
        fn iris_new(net: SimNet) -> Res<Self::I> {
            IrisProtocol::new(<$p>::new(net))
        }
        async fn iris_pre(i: &mut Self::I) -> Res<()> {
            i.preprocessing().await
        }
        fn iris_set_key(i: &mut Self::I, k: $a) {
            i.set_mac_key(k)
        }
        fn iris_new_key(i: &mut Self::I) {
            i.set_new_mac_key()
        }
        async fn iris_verify(i: &mut Self::I) -> Res<()> {
            <$p as MpcTrait<$t, $a, $b>>::verify(i.get_mpc_mut()).await
        }
        async fn iris_query(i: &mut Self::I, q: Vec<$a>, db: Vec<Vec<$a>>, mq: &IrisCodeArray, md: &[IrisCodeArray], chunk: usize) -> Res<bool> {
            let q = Self::mkvec(q);
            let db: Vec<_> = db.into_iter().map(Self::mkvec).collect();
            i.iris_in_db(&q, &db, mq, md, chunk).await
        }
        async fn iris_finish(i: Self::I) -> Res<()> {
            i.finish().await
        }
    };
}

#[macro_export]
macro_rules! aby3_like {
    ($name:ident, $p:ty, $be:expr, $t:ty, $u:ty, $k:expr) => {
        pub struct $name(pub $p);
        impl $name {
            fn mkvec(v: Vec<Aby3Share<$t>>) -> Vec<Aby3Share<$t>> {
                v
            }
        }
        impl Glue for $name {
            const BE: Be = $be;
            const K: usize = $k;
            const UK: usize = $k;
            $crate::common!($t, $u, $p, Aby3Share<$t>, Aby3Share<Bit>);
            fn new(net: SimNet) -> Self {
                $name(<$p>::new(net))
            }
            fn key_share(&self) -> Option<(u128, u128)> {
                None
            }
            fn iris_key_share(_: &Self::I) -> Option<(u128, u128)> {
                None
            }
            fn comps(a: &Self::A) -> Vec<u128> {
                let (x, y) = a.clone().get_ab();
                vec![el::<$t>(x), el::<$t>(y)]
            }
            fn from_comps(c: &[u128]) -> Self::A {
                Aby3Share::new((c[0] as $t).to_sharetype(), (c[1] as $t).to_sharetype())
            }
            fn bcomps(b: &Self::B) -> Vec<bool> {
                let (x, y) = b.clone().get_ab();
                vec![bit(x), bit(y)]
            }
            fn from_bcomps(c: &[bool]) -> Self::B {
                Aby3Share::new(mkbit(c[0]), mkbit(c[1]))
            }
        }
    };
}
#[macro_export]
macro_rules! spdz {
    ($name:ident, $t:ty, $u:ty, $k:expr, $uk:expr) => {
        pub struct $name(pub SpdzWise<SimNet, $u>);
        impl $name {
            fn mkvec(v: Vec<SpdzWiseShare<$u>>) -> SpdzWiseVecShare<$u> {
                SpdzWiseVecShare::from_vec(v)
            }
        }
        impl Glue for $name {
            const BE: Be = Be::Spdz;
            const K: usize = $k;
            const UK: usize = $uk;
            $crate::common!($t, $u, SpdzWise<SimNet, $u>, SpdzWiseShare<$u>, Aby3Share<Bit>);
            fn new(net: SimNet) -> Self {
                $name(SpdzWise::<SimNet, $u>::new(net))
            }
            fn key_share(&self) -> Option<(u128, u128)> {
                let (x, y) = self.0.get_r().get_ab();
                Some((el::<$u>(x), el::<$u>(y)))
            }
            fn iris_key_share(i: &Self::I) -> Option<(u128, u128)> {
                let (x, y) = i.get_mpc_ref().get_r().get_ab();
                Some((el::<$u>(x), el::<$u>(y)))
            }
            fn comps(a: &Self::A) -> Vec<u128> {
                let (v, m) = a.clone().get();
                let (va, vb) = v.get_ab();
                let (ma, mb) = m.get_ab();
                vec![el::<$u>(va), el::<$u>(vb), el::<$u>(ma), el::<$u>(mb)]
            }
            fn from_comps(c: &[u128]) -> Self::A {
                SpdzWiseShare::new(
                    Aby3Share::new((c[0] as $u).to_sharetype(), (c[1] as $u).to_sharetype()),
                    Aby3Share::new((c[2] as $u).to_sharetype(), (c[3] as $u).to_sharetype()),
                )
            }
            fn bcomps(b: &Self::B) -> Vec<bool> {
                let (x, y) = b.clone().get_ab();
                vec![bit(x), bit(y)]
            }
            fn from_bcomps(c: &[bool]) -> Self::B {
                Aby3Share::new(mkbit(c[0]), mkbit(c[1]))
            }
        }
    };
}
#[macro_export]
macro_rules! swift {
    ($name:ident, $t:ty, $u:ty, $k:expr) => {
        pub struct $name(pub Swift3<SimNet, $t>);
        impl $name {
            fn mkvec(v: Vec<Swift3Share<$t>>) -> Vec<Swift3Share<$t>> {
                v
            }
        }
        impl Glue for $name {
            const BE: Be = Be::Swift;
            const K: usize = $k;
            const UK: usize = $k;
            $crate::common!($t, $u, Swift3<SimNet, $t>, Swift3Share<$t>, Swift3Share<Bit>);
            fn new(net: SimNet) -> Self {
                $name(Swift3::<SimNet, $t>::new(net))
            }
            fn key_share(&self) -> Option<(u128, u128)> {
                None
            }
            fn iris_key_share(_: &Self::I) -> Option<(u128, u128)> {
                None
            }
            fn comps(a: &Self::A) -> Vec<u128> {
                let (x, y, z) = a.clone().get_abc();
                vec![el::<$t>(x), el::<$t>(y), el::<$t>(z)]
            }
            fn from_comps(c: &[u128]) -> Self::A {
                Swift3Share::new((c[0] as $t).to_sharetype(), (c[1] as $t).to_sharetype(), (c[2] as $t).to_sharetype())
            }
            fn bcomps(b: &Self::B) -> Vec<bool> {
                let (x, y, z) = b.clone().get_abc();
                vec![bit(x), bit(y), bit(z)]
            }
            fn from_bcomps(c: &[bool]) -> Self::B {
                Swift3Share::new(mkbit(c[0]), mkbit(c[1]), mkbit(c[2]))
            }
        }
    };
}

pub fn err_kind(e: &Error) -> String {
    let d = format!("{e:?}");
    d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
