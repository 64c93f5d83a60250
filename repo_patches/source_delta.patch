From 905808355d7563b1e663300a22d41ba963d107bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 01/25] fix: allow the multiplication proofs over rings of 64
 bits and more

Poly::to_gf2p64 and Poly::from_u64 asserted T::K < 64, so verifying any
multiplication with Swift3 over u64 or u128 panicked. The coefficients are
reduced modulo 2 there; only the degree of the polynomial has to fit 64 bits.
---
 iris-mpc/src/dzkp/polynomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iris-mpc/src/dzkp/polynomial.rs b/iris-mpc/src/dzkp/polynomial.rs
index 21fde28..e9fcc7a 100644
--- a/iris-mpc/src/dzkp/polynomial.rs
+++ b/iris-mpc/src/dzkp/polynomial.rs
@@ -114,7 +114,8 @@ impl<T: RingImpl> Poly<T> {
 
     // Mod 2 reduction
     fn to_gf2p64(&self) -> GF2p64 {
-        assert!(T::K < 64);
+        // The coefficients are reduced mod 2, so only the degree is limited to 64 bits
+        assert!(self.coeffs.iter().skip(64).all(|c| c.is_zero()));
         let mut u64 = 0;
         for coeff in self.coeffs.iter().rev() {
             u64 <<= 1;
@@ -124,8 +125,7 @@ impl<T: RingImpl> Poly<T> {
     }
 
     fn from_u64(value: u64) -> Self {
-        assert!(T::K < 64);
-        let mut poly = Vec::with_capacity(T::K);
+        let mut poly = Vec::with_capacity(64);
 
         for i in 0..64 {
             let coeff = (value >> i) & 1 == 1;
-- 
2.43.0


From ccc1622051b15c535cee7431f58173241004e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 02/25] fix: compute the split mask of packed AND triples as
 unsigned

The mask literal was inferred as i128, so (1 << 127) - 1 overflowed (a panic
with overflow checks) whenever one bit was in the last register and a full
128-bit AND followed.
---
 iris-mpc/src/spdzwise/triples.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/iris-mpc/src/spdzwise/triples.rs b/iris-mpc/src/spdzwise/triples.rs
index c88b572..7fe32ff 100644
--- a/iris-mpc/src/spdzwise/triples.rs
+++ b/iris-mpc/src/spdzwise/triples.rs
@@ -1,6 +1,6 @@
 use crate::{
     prelude::{Aby3Share, Error, Sharable},
-    types::ring_element::RingImpl,
+    types::ring_element::{RingElement, RingImpl},
 };
 
 #[derive(Clone, Debug)]
@@ -118,9 +118,9 @@ impl Triples {
 
         a_.a <<= open as u32;
         a_.b <<= open as u32;
-        let mask = (1 << open) - 1;
-        a_.a |= aa.to_owned() & mask;
-        a_.b |= ab.to_owned() & mask;
+        let mask = RingElement((1u128 << open) - 1);
+        a_.a |= aa.to_owned() & &mask;
+        a_.b |= ab.to_owned() & &mask;
 
         aa >>= open as u32;
         ab >>= open as u32;
-- 
2.43.0


From 477e0c4f29fa21a85b0332ffc69496eac06c4781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 03/25] fix: implement the inverse of odd u128 ring elements

It was a todo!(), which every polynomial division over Z_2^128 reaches.
---
 iris-mpc/src/types/int_ring.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/iris-mpc/src/types/int_ring.rs b/iris-mpc/src/types/int_ring.rs
index 6f6e21c..a043ce9 100644
--- a/iris-mpc/src/types/int_ring.rs
+++ b/iris-mpc/src/types/int_ring.rs
@@ -427,7 +427,21 @@ impl IntRing2k for u128 {
     }
 
     fn inverse(&self) -> Result<Self, Error> {
-        todo!("Implement inverse for u128")
+        if 1 & self == 0 {
+            return Err(Error::NoInverseError);
+        }
+
+        // 2^128 does not fit the euclidean algorithm used for the smaller rings,
+        // so use Newton's iteration instead: x is correct mod 2^3 at the start and each
+        // step doubles the number of correct bits.
+        let mut inv = *self;
+        for _ in 0..6 {
+            let prod = u128::wrapping_mul(*self, inv);
+            inv = u128::wrapping_mul(inv, u128::wrapping_sub(2, prod));
+        }
+
+        debug_assert!(u128::wrapping_mul(inv, *self) == 1);
+        Ok(inv)
     }
 
     fn add_to_hash<D: Digest>(&self, hasher: &mut D) {
-- 
2.43.0


From 41d17704b9238ae3ea5e8edc050ffb7188b60cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 04/25] fix: refuse an invalid input id in Swift3 instead of
 panicking

The other protocols return Error::IdError.
---
 iris-mpc/src/swift3/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 3cbf2f1..62a89fb 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -2019,7 +2019,7 @@ where
                     unreachable!()
                 }
             }
-            _ => unreachable!(),
+            _ => return Err(Error::IdError(id)),
         };
 
         Ok(share)
-- 
2.43.0


From 152a92086ba9a25531c09c98531935cb344e5e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 05/25] fix: refuse mismatched inner lengths in Swift3 dot_many

They were silently truncated to the shorter vector; the other protocols return
Error::InvalidSizeError.
---
 iris-mpc/src/swift3/protocol.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 62a89fb..ac9a0ec 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -2252,6 +2252,10 @@ where
         let mut shares_e = Vec::with_capacity(len);
 
         for (a_, b_) in a.iter().cloned().zip(b.iter().cloned()) {
+            if a_.len() != b_.len() {
+                return Err(Error::InvalidSizeError);
+            }
+
             let mut d = Vec::with_capacity(len);
             let mut e = Vec::with_capacity(len);
 
-- 
2.43.0


From e4598586a41e3c76e483683cfa8f4a83f1597625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 06/25] fix: drop the Swift3 gates that a verification has
 accepted

verify() left every registered (and padded) gate in the proof objects, so each
later verification of the session proved all earlier gates again, padded once
more: a session's second database query cost a multiple of the first in time
and memory, without bound.
---
 iris-mpc/src/swift3/protocol.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index ac9a0ec..8288054 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -2301,14 +2301,17 @@ where
     async fn verify(&mut self) -> Result<(), Error> {
         if self.mul_proof.get_muls() != 0 {
             self.mul_verify().await?;
+            self.mul_proof = MulProof::default();
         }
 
         if self.and_proof.get_muls() != 0 {
             self.and_verify().await?;
+            self.and_proof = AndProof::default();
         }
 
         if self.dot_proof.get_muls() != 0 {
             self.dot_verify().await?;
+            self.dot_proof = DotProof::default();
         }
 
         Ok(())
-- 
2.43.0


From e587f868715635ed62b15faeb0ddca1754cb7db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 07/25] fix: compare the proof polynomials by value, not by
 stored length

The recomputed polynomial is shrunk by the reduction while the sum of the two
verifiers' parts keeps its length, so an honest proof was rejected whenever the
top coefficient happened to be zero (one in 2^K: often for small rings).
---
 iris-mpc/src/dzkp/dot_proof.rs | 2 +-
 iris-mpc/src/dzkp/mul_proof.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iris-mpc/src/dzkp/dot_proof.rs b/iris-mpc/src/dzkp/dot_proof.rs
index 537e078..6cea3a4 100644
--- a/iris-mpc/src/dzkp/dot_proof.rs
+++ b/iris-mpc/src/dzkp/dot_proof.rs
@@ -452,7 +452,7 @@ where
 
         let pr_ = Self::g(thetas, f1, self.dot_size) % &self.modulus;
 
-        if pr_ != (pr1 + pr2) {
+        if !(pr_ - (pr1 + pr2)).is_zero() {
             return Err(Error::DZKPVerifyError);
         }
 
diff --git a/iris-mpc/src/dzkp/mul_proof.rs b/iris-mpc/src/dzkp/mul_proof.rs
index 80d091a..ac72190 100644
--- a/iris-mpc/src/dzkp/mul_proof.rs
+++ b/iris-mpc/src/dzkp/mul_proof.rs
@@ -362,7 +362,7 @@ where
 
         let pr_ = Self::g(thetas, f1) % &self.modulus;
 
-        if pr_ != (pr1 + pr2) {
+        if !(pr_ - (pr1 + pr2)).is_zero() {
             return Err(Error::DZKPVerifyError);
         }
 
-- 
2.43.0


From 883da10cd742c81f94d5feb84e71c7195f73f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 08/25] fix: return a failed verification of a database query
 as an error

iris_in_db unwrapped it, so a party that detects cheating (or lacks triples)
panicked instead of returning Err.
---
 iris-mpc/src/iris/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index a62b616..07e100e 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -279,7 +279,7 @@ where
 
         let res = self.mpc.reduce_binary_or(bool_shares, chunk_size).await?;
 
-        self.mpc.verify().await.unwrap();
+        self.mpc.verify().await?;
         self.mpc.open_bit(res).await
     }
 }
-- 
2.43.0


From 91636a162d5ca42b16cd897e764d15fc45618542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 09/25] fix: count the AND triples of a database query as they
 are consumed

The budget counted bits, but each chunk's gates are padded to 128-bit registers,
gates pending from a refused query need triples too, and a verification consumes
at least 2^20: SpdzWise queries with many small chunks, or after other queries,
failed with NotEnoughTriplesError. Chunk sizes above the database size no longer
overflow either.
---
 iris-mpc/src/iris/protocol.rs     | 15 +++++++++------
 iris-mpc/src/spdzwise/protocol.rs |  6 +++++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index 07e100e..30df808 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -241,14 +241,17 @@ where
         self.compare_threshold_many(hwds, mask_lens).await
     }
 
-    pub(crate) fn msb_and_gates(&self, mut amount: usize, chunk_size: usize) -> usize {
+    pub(crate) fn msb_and_gates(&self, amount: usize, chunk_size: usize) -> usize {
         // packed kogge stone, i.e. full a2b: K (2 + 2 * (log_2(K)))
         // let logk = ceil_log2(T::Share::K);
         // amount * T::Share::K * (2 + 2 * logk)
 
         // ripple carry adder: 2 * K - 2
-        amount = (amount + chunk_size - 1) / chunk_size;
-        amount * chunk_size * (T::Share::K * 2 - 3)
+        // The gates of a chunk are packed into 128 bit registers
+        let chunk_size = chunk_size.min(amount).max(1);
+        let pad = |len: usize| (len + 127) / 128 * 128;
+        let padded = amount / chunk_size * pad(chunk_size) + pad(amount % chunk_size);
+        padded * (T::Share::K * 2 - 3)
     }
 
     pub async fn iris_in_db(
@@ -265,9 +268,9 @@ where
         }
 
         // Get enough and triples. So far only relevant for SpdzWise
-        // amount - 1 for or_reduce, but padded for chunk size + msb_extract
-        let num_and_triples = self.msb_and_gates(amount, chunk_size)
-            + ((amount + chunk_size - 2) / chunk_size) * chunk_size;
+        // msb_extract + or_reduce, both in 128 bit registers
+        let num_and_triples =
+            self.msb_and_gates(amount, chunk_size) + (amount + 127) / 128 * 128;
         self.mpc.precompute_and_triples(num_and_triples).await?;
 
         let mut bool_shares = Bshare::VecShare::with_capacity(amount);
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 731c3ed..2e16f78 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -752,7 +752,11 @@ where
     async fn precompute_and_triples(&mut self, amount: usize) -> Result<(), Error> {
         let ands = self.prec_triples.len();
         let amount = (amount + 127) / 128; // We allow precomputing as multiples of 128 bit
-        if ands <= amount {
+
+        // The gates which are not yet verified need triples as well, and a verification consumes
+        // at least 2^(20) triples
+        let amount = std::cmp::max(amount + self.triple_buffer.len(), 1usize << (20 - 7));
+        if ands < amount {
             // We have to precompute AND gates
             let prec_triples = self.generate_triples::<ChaCha12Rng>(amount - ands).await?;
             self.prec_triples.extend(prec_triples);
-- 
2.43.0


From d5af59e6d209cbf595e618f286d6ac59ceb6d9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:23 +0000
Subject: [PATCH 10/25] fix: do not overflow on huge chunk sizes in the
 malicious ABY3 OR reduction

---
 iris-mpc/src/aby3_mal/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iris-mpc/src/aby3_mal/protocol.rs b/iris-mpc/src/aby3_mal/protocol.rs
index aaca85a..6d5c7e0 100644
--- a/iris-mpc/src/aby3_mal/protocol.rs
+++ b/iris-mpc/src/aby3_mal/protocol.rs
@@ -1232,7 +1232,7 @@ where
         a: Vec<Share<Bit>>,
         chunk_size: usize,
     ) -> Result<Share<Bit>, Error> {
-        let chunk_size = chunk_size * 128;
+        let chunk_size = chunk_size.saturating_mul(128);
         utils::or_tree::<Bit, _, _>(self, a, chunk_size).await
     }
 
-- 
2.43.0


From 9c173c157b05fac1f7823d4290dd1164a854e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:44 +0000
Subject: [PATCH 11/25] fix: let both holders of the opened share vouch for it
 in SPDZ-wise openings

---
 iris-mpc/src/spdzwise/protocol.rs | 43 ++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 2e16f78..601ed05 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -873,31 +873,44 @@ where
     async fn open(&mut self, share: TShare<T>) -> Result<T, Error> {
         self.verifyqueue.push(share.to_owned());
         self.verify_macs().await?;
+        self.jmp_verify().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open(&mut self.aby3, share.get_value())
-        .await?;
+        // The MACs do not cover the message of the opening itself, so both holders of the missing
+        // share have to vouch for it
+        let (a, b) = share.get_value().get_ab();
+        let c = self
+            .jmp_send_receive::<T::VerificationShare>(b.to_owned(), a.to_owned())
+            .await?;
 
-        Ok(T::from_verificationshare(result))
+        self.jmp_verify().await?;
+        Ok(T::from_verificationshare(
+            T::VerificationShare::from_sharetype(c + &a + &b),
+        ))
     }
 
     async fn open_many(&mut self, shares: VecTShare<T>) -> Result<Vec<T>, Error> {
         self.verifyqueue.extend(shares.to_owned());
         self.verify_macs().await?;
+        self.jmp_verify().await?;
 
-        let result = <_ as MpcTrait<
-            T::VerificationShare,
-            Aby3Share<T::VerificationShare>,
-            Aby3Share<Bit>,
-        >>::open_many(&mut self.aby3, shares.get_values())
-        .await?;
+        let (shares_a, shares_b): (Vec<_>, Vec<_>) = shares
+            .get_values()
+            .into_iter()
+            .map(|share| share.get_ab())
+            .unzip();
 
-        let result = result
+        let shares_c = self
+            .jmp_send_receive_many::<T::VerificationShare>(&shares_b, &shares_a)
+            .await?;
+        self.jmp_verify().await?;
+
+        let result = shares_a
             .into_iter()
-            .map(|r| T::from_verificationshare(r))
+            .zip(shares_b)
+            .zip(shares_c)
+            .map(|((a, b), c)| {
+                T::from_verificationshare(T::VerificationShare::from_sharetype(c + &a + &b))
+            })
             .collect();
 
         Ok(result)
-- 
2.43.0


From 8c94c7322894e1263bdb6866b127e2fa288ddb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 12/25] fix: refuse invalid bits in received vectors instead of
 panicking

---
 iris-mpc/src/aby3/utils.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iris-mpc/src/aby3/utils.rs b/iris-mpc/src/aby3/utils.rs
index 8adac11..1073747 100644
--- a/iris-mpc/src/aby3/utils.rs
+++ b/iris-mpc/src/aby3/utils.rs
@@ -245,6 +245,14 @@ where
         return Err(Error::ConversionError);
     }
 
+    // Not every byte string is an element when K is not a multiple of eight
+    if T::K % 8 != 0 {
+        let mut elements = bytes.clone();
+        for _ in 0..n {
+            T::take_from_bytes_mut(&mut elements)?;
+        }
+    }
+
     Ok(RingBytesIter {
         bytes,
         _marker: std::marker::PhantomData,
-- 
2.43.0


From 570211732d4fd4998148f937c411ffbeb1b0c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 13/25] fix: complement of a Swift3 share complements the
 shared value

---
 iris-mpc/src/swift3/share.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iris-mpc/src/swift3/share.rs b/iris-mpc/src/swift3/share.rs
index bd52824..4221ab0 100644
--- a/iris-mpc/src/swift3/share.rs
+++ b/iris-mpc/src/swift3/share.rs
@@ -410,9 +410,10 @@ impl<T: Sharable> Not for Share<T> {
     type Output = Self;
 
     fn not(self) -> Self {
+        // Complementing all four components would cancel out
         Share {
-            a: !self.a,
-            b: !self.b,
+            a: self.a,
+            b: self.b,
             c: !self.c,
             sharetype: PhantomData,
         }
-- 
2.43.0


From 8ea6d353e3b4cc665329bb70903c1ba9e9c57554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:32 +0000
Subject: [PATCH 14/25] hook: access to crate-private items under cfg
 verif_hooks

---
 iris-mpc/src/lib.rs         |   9 +
 iris-mpc/src/verif_hooks.rs | 435 ++++++++++++++++++++++++++++++++++++
 2 files changed, 444 insertions(+)
 create mode 100644 iris-mpc/src/verif_hooks.rs

diff --git a/iris-mpc/src/lib.rs b/iris-mpc/src/lib.rs
index 752fb46..e109bb6 100644
--- a/iris-mpc/src/lib.rs
+++ b/iris-mpc/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub(crate) mod aby3;
 pub(crate) mod aby3_mal;
 pub(crate) mod commitment;
@@ -11,3 +13,10 @@ pub(crate) mod swift3;
 pub(crate) mod tests;
 pub(crate) mod traits;
 pub(crate) mod types;
+#[cfg(any(
+    verif_hooks = "p10",
+    verif_hooks = "p11",
+    verif_hooks = "p12",
+    verif_hooks = "p13"
+))]
+pub mod verif_hooks;
diff --git a/iris-mpc/src/verif_hooks.rs b/iris-mpc/src/verif_hooks.rs
new file mode 100644
index 0000000..9bb05ae
--- /dev/null
+++ b/iris-mpc/src/verif_hooks.rs
@@ -0,0 +1,435 @@
+//! Access to crate-private items for the verification harness. Compiled only with
+//! `--cfg verif_hooks="p10"` (or p11, p12, p13); not part of the library otherwise.
+#![allow(missing_docs)]
+
+#[cfg(verif_hooks = "p10")]
+pub mod p10 {
+    use crate::{aby3::utils, error::Error, types::ring_element::RingImpl};
+    use bytes::{Bytes, BytesMut};
+
+    pub fn slice_to_bytes<R: RingImpl>(v: &[R]) -> Bytes {
+        utils::ring_slice_to_bytes(v)
+    }
+    pub fn iter_to_bytes<R: RingImpl>(v: &[R]) -> Bytes {
+        utils::ring_iter_to_bytes(v.iter())
+    }
+    pub fn vec_from_bytes<R: RingImpl>(b: BytesMut, n: usize) -> Result<Vec<R>, Error> {
+        utils::ring_vec_from_bytes(b, n)
+    }
+    pub fn iter_from_bytes<R: RingImpl>(b: BytesMut, n: usize) -> Result<(usize, Vec<R>), Error> {
+        let it = utils::ring_iter_from_bytes(b, n)?;
+        Ok((it.len(), it.collect()))
+    }
+    pub fn bytes_to_seed(b: BytesMut) -> Result<[u8; 32], Error> {
+        utils::bytes_to_seed(b)
+    }
+}
+
+#[cfg(verif_hooks = "p11")]
+pub mod p11 {
+    pub use crate::commitment::{CommitOpening, Commitment};
+}
+
+#[cfg(verif_hooks = "p12")]
+pub mod p12 {
+    use crate::{
+        dzkp::{and_proof, dot_proof, gf2p64::GF2p64, mul_proof, polynomial::Poly},
+        error::Error,
+        types::ring_element::RingImpl,
+    };
+    use rand::{
+        distributions::{Distribution, Standard},
+        Rng, SeedableRng,
+    };
+    use rand_chacha::ChaCha12Rng;
+
+    type Seed = <ChaCha12Rng as SeedableRng>::Seed;
+
+    fn coins<T: RingImpl>(n: usize, d: usize, seed: u64) -> Vec<Poly<T>>
+    where
+        Standard: Distribution<T>,
+    {
+        let mut rng = ChaCha12Rng::seed_from_u64(seed);
+        (0..n).map(|_| Poly::random(d, &mut rng)).collect()
+    }
+
+    pub trait Party: Default {
+        type Gate;
+        type Params;
+        fn register(&mut self, gate: Self::Gate);
+        fn count(&self) -> usize;
+        fn params(&mut self) -> (usize, usize);
+        fn prove(&self, p: &Self::Params, seed: u64) -> (Seed, Vec<u8>);
+        fn setup(&self, l: usize, m: usize, theta: u64, beta: u64) -> Self::Params;
+        fn expand(&self, l: usize, m: usize, seed: Seed) -> Vec<u8>;
+        /// `prev`: the verifier of the previous party's proof; otherwise of the next party's.
+        fn check(&self, p: &Self::Params, prev: bool, proof: &[u8]) -> Result<Vec<u8>, Error>;
+        fn combine(&self, p: &Self::Params, prev: &[u8], next: &[u8]) -> Result<(), Error>;
+    }
+
+    fn de<T: for<'a> serde::Deserialize<'a>>(b: &[u8]) -> Result<T, Error> {
+        bincode::deserialize(b).map_err(|_| Error::SerializationError)
+    }
+
+    pub struct AndParams {
+        thetas: Vec<GF2p64>,
+        betas: Vec<GF2p64>,
+        r: GF2p64,
+        coords: Vec<GF2p64>,
+        polys: Vec<Poly<GF2p64>>,
+    }
+    pub struct And<T: RingImpl>(and_proof::AndProof, std::marker::PhantomData<T>);
+    impl<T: RingImpl> Default for And<T> {
+        fn default() -> Self {
+            Self(Default::default(), std::marker::PhantomData)
+        }
+    }
+    impl<T: RingImpl> Party for And<T> {
+        type Gate = [T; 8];
+        type Params = AndParams;
+        fn register(&mut self, gate: [T; 8]) {
+            let [a0, a1, b0, b1, r0, r1, s0, s1] = gate;
+            self.0.register_and(a0, a1, b0, b1, r0, r1, s0, s1);
+        }
+        fn count(&self) -> usize {
+            self.0.get_muls()
+        }
+        fn params(&mut self) -> (usize, usize) {
+            let (l, m) = self.0.calc_params();
+            self.0.set_parameters(l, m);
+            (l, m)
+        }
+        fn setup(&self, l: usize, m: usize, theta: u64, beta: u64) -> AndParams {
+            let mut rng = ChaCha12Rng::seed_from_u64(theta);
+            let thetas = (0..l).map(|_| GF2p64::random(&mut rng)).collect();
+            let mut rng = ChaCha12Rng::seed_from_u64(beta);
+            let betas = (0..m).map(|_| GF2p64::random(&mut rng)).collect();
+            let mut r = rng.gen::<u64>();
+            while r <= m as u64 {
+                r = rng.gen();
+            }
+            let coords = and_proof::AndProof::lagrange_points(m + 1);
+            let polys = Poly::<GF2p64>::lagrange_polys(&coords);
+            AndParams { thetas, betas, r: GF2p64::new(r), coords, polys }
+        }
+        fn prove(&self, p: &AndParams, seed: u64) -> (Seed, Vec<u8>) {
+            let mut rng = ChaCha12Rng::seed_from_u64(seed);
+            let (s, proof) = self.0.prove::<ChaCha12Rng>(&p.thetas, &p.polys, &mut rng);
+            (s, bincode::serialize(&proof).unwrap())
+        }
+        fn expand(&self, l: usize, m: usize, seed: Seed) -> Vec<u8> {
+            bincode::serialize(&and_proof::Proof::from_seed::<ChaCha12Rng>(seed, l, m)).unwrap()
+        }
+        fn check(&self, p: &AndParams, prev: bool, proof: &[u8]) -> Result<Vec<u8>, Error> {
+            let proof = de(proof)?;
+            let v = if prev {
+                self.0.verify_prev(&p.betas, &p.r, &p.polys, &p.coords, proof)?
+            } else {
+                self.0.verify_next(&p.betas, &p.r, &p.polys, &p.coords, proof)?
+            };
+            Ok(bincode::serialize(&v).unwrap())
+        }
+        fn combine(&self, p: &AndParams, prev: &[u8], next: &[u8]) -> Result<(), Error> {
+            self.0.combine_verifications(&p.thetas, de(prev)?, de(next)?)
+        }
+    }
+
+    pub struct PolyParams<T: RingImpl> {
+        thetas: Vec<Poly<T>>,
+        betas: Vec<Poly<T>>,
+        r: Poly<T>,
+        coords: Vec<Poly<T>>,
+        polys: Vec<Poly<Poly<T>>>,
+    }
+    fn poly_params<T: RingImpl>(
+        coords: Vec<Poly<T>>,
+        modulus: &Poly<T>,
+        d: usize,
+        (l, m): (usize, usize),
+        theta: u64,
+        beta: u64,
+    ) -> PolyParams<T>
+    where
+        Standard: Distribution<T>,
+    {
+        let polys = Poly::<Poly<T>>::lagrange_polys(&coords, modulus);
+        PolyParams {
+            thetas: coins(l, d, theta),
+            betas: coins(m, d, beta),
+            r: coins(1, d, beta ^ 0x5555_5555_5555).pop().unwrap(),
+            coords,
+            polys,
+        }
+    }
+
+    #[derive(Default)]
+    pub struct Mul<T: RingImpl>(mul_proof::MulProof<T>);
+    impl<T: RingImpl> Party for Mul<T>
+    where
+        Standard: Distribution<T>,
+    {
+        type Gate = [T; 8];
+        type Params = PolyParams<T>;
+        fn register(&mut self, gate: [T; 8]) {
+            let [a0, a1, b0, b1, r0, r1, s0, s1] = gate;
+            self.0.register_mul(a0, a1, b0, b1, r0, r1, s0, s1);
+        }
+        fn count(&self) -> usize {
+            self.0.get_muls()
+        }
+        fn params(&mut self) -> (usize, usize) {
+            let (l, m) = self.0.calc_params();
+            self.0.set_parameters(l, m);
+            (l, m)
+        }
+        fn setup(&self, l: usize, m: usize, theta: u64, beta: u64) -> PolyParams<T> {
+            let coords = mul_proof::MulProof::lagrange_points(m + 1);
+            poly_params(coords, self.0.get_modulus(), self.0.get_mod_d() - 1, (l, m), theta, beta)
+        }
+        fn prove(&self, p: &PolyParams<T>, seed: u64) -> (Seed, Vec<u8>) {
+            let mut rng = ChaCha12Rng::seed_from_u64(seed);
+            let (s, proof) = self.0.prove::<ChaCha12Rng>(&p.thetas, &p.polys, &mut rng);
+            (s, bincode::serialize(&proof).unwrap())
+        }
+        fn expand(&self, l: usize, m: usize, seed: Seed) -> Vec<u8> {
+            let d = self.0.get_mod_d() - 1;
+            bincode::serialize(&mul_proof::Proof::<T>::from_seed::<ChaCha12Rng>(seed, l, m, d)).unwrap()
+        }
+        fn check(&self, p: &PolyParams<T>, prev: bool, proof: &[u8]) -> Result<Vec<u8>, Error> {
+            let proof = de(proof)?;
+            let v = if prev {
+                self.0.verify_prev(&p.betas, &p.r, &p.polys, &p.coords, proof)?
+            } else {
+                self.0.verify_next(&p.betas, &p.r, &p.polys, &p.coords, proof)?
+            };
+            Ok(bincode::serialize(&v).unwrap())
+        }
+        fn combine(&self, p: &PolyParams<T>, prev: &[u8], next: &[u8]) -> Result<(), Error> {
+            self.0.combine_verifications(&p.thetas, de(prev)?, de(next)?)
+        }
+    }
+
+    #[derive(Default)]
+    pub struct Dot<T: RingImpl>(dot_proof::DotProof<T>);
+    impl<T: RingImpl> Party for Dot<T>
+    where
+        Standard: Distribution<T>,
+    {
+        type Gate = ([Vec<T>; 4], [T; 4]);
+        type Params = PolyParams<T>;
+        fn register(&mut self, gate: Self::Gate) {
+            let ([a0, a1, b0, b1], [r0, r1, s0, s1]) = gate;
+            self.0.register_dot(a0, a1, b0, b1, r0, r1, s0, s1);
+        }
+        fn count(&self) -> usize {
+            self.0.get_muls()
+        }
+        fn params(&mut self) -> (usize, usize) {
+            let (l, m) = self.0.calc_params();
+            self.0.set_parameters(l, m);
+            (l, m)
+        }
+        fn setup(&self, l: usize, m: usize, theta: u64, beta: u64) -> PolyParams<T> {
+            let coords = dot_proof::DotProof::lagrange_points(m + 1);
+            poly_params(coords, self.0.get_modulus(), self.0.get_mod_d() - 1, (l, m), theta, beta)
+        }
+        fn prove(&self, p: &PolyParams<T>, seed: u64) -> (Seed, Vec<u8>) {
+            let mut rng = ChaCha12Rng::seed_from_u64(seed);
+            let (s, proof) = self.0.prove::<ChaCha12Rng>(&p.thetas, &p.polys, &mut rng);
+            (s, bincode::serialize(&proof).unwrap())
+        }
+        fn expand(&self, l: usize, m: usize, seed: Seed) -> Vec<u8> {
+            let (d, dot) = (self.0.get_mod_d() - 1, self.0.get_dot());
+            bincode::serialize(&dot_proof::Proof::<T>::from_seed::<ChaCha12Rng>(seed, l, m, d, dot)).unwrap()
+        }
+        fn check(&self, p: &PolyParams<T>, prev: bool, proof: &[u8]) -> Result<Vec<u8>, Error> {
+            let proof = de(proof)?;
+            let v = if prev {
+                self.0.verify_prev(&p.betas, &p.r, &p.polys, &p.coords, proof)?
+            } else {
+                self.0.verify_next(&p.betas, &p.r, &p.polys, &p.coords, proof)?
+            };
+            Ok(bincode::serialize(&v).unwrap())
+        }
+        fn combine(&self, p: &PolyParams<T>, prev: &[u8], next: &[u8]) -> Result<(), Error> {
+            self.0.combine_verifications(&p.thetas, de(prev)?, de(next)?)
+        }
+    }
+}
+
+#[cfg(verif_hooks = "p13")]
+pub mod p13 {
+    use crate::{
+        dzkp::{gf2p64::GF2p64, irreducible_polys::IrreduciblePolys, polynomial::Poly},
+        error::Error,
+        types::ring_element::RingImpl,
+    };
+    use num_traits::{One, Zero};
+
+    fn p<T: RingImpl>(v: &[T]) -> Poly<T> {
+        Poly::from_vec(v.to_vec())
+    }
+    fn pp<T: RingImpl>(v: &[Vec<T>]) -> Poly<Poly<T>> {
+        Poly::from_vec(v.iter().map(|x| p(x)).collect())
+    }
+    fn unpp<T: RingImpl>(v: Poly<Poly<T>>) -> Vec<Vec<T>> {
+        v.coeffs.into_iter().map(|x| x.coeffs).collect()
+    }
+
+    /// Every form of the four ring operations, by name.
+    pub fn poly_ops<T: RingImpl>(a: &[T], b: &[T], s: &T) -> Vec<(&'static str, Vec<T>)> {
+        let mut out = vec![
+            ("add", p(a) + p(b)),
+            ("add_ref", p(a) + &p(b)),
+            ("sub", p(a) - p(b)),
+            ("sub_ref", p(a) - &p(b)),
+            ("mul", p(a) * p(b)),
+            ("mul_ref", p(a) * &p(b)),
+            ("add_scalar", p(a) + s.to_owned()),
+            ("add_scalar_ref", p(a) + s),
+            ("sub_scalar", p(a) - s.to_owned()),
+            ("sub_scalar_ref", p(a) - s),
+            ("mul_scalar", p(a) * s.to_owned()),
+            ("mul_scalar_ref", p(a) * s),
+            ("neg", -p(a)),
+            ("one", Poly::one()),
+            ("zero", Poly::zero()),
+            ("lift", Poly::lift(s.to_owned())),
+        ];
+        macro_rules! asg {
+            ($n:literal, $op:tt, $rhs:expr) => {{
+                let mut x = p(a);
+                x $op $rhs;
+                out.push(($n, x));
+            }};
+        }
+        asg!("add_assign", +=, p(b));
+        asg!("add_assign_ref", +=, &p(b));
+        asg!("sub_assign", -=, p(b));
+        asg!("sub_assign_ref", -=, &p(b));
+        asg!("mul_assign", *=, p(b));
+        asg!("mul_assign_ref", *=, &p(b));
+        asg!("add_assign_scalar", +=, s.to_owned());
+        asg!("add_assign_scalar_ref", +=, s);
+        asg!("sub_assign_scalar", -=, s.to_owned());
+        asg!("sub_assign_scalar_ref", -=, s);
+        asg!("mul_assign_scalar", *=, s.to_owned());
+        asg!("mul_assign_scalar_ref", *=, s);
+        let mut x = p(a);
+        x.shrink();
+        out.push(("shrink", x));
+        out.into_iter().map(|(n, x)| (n, x.coeffs)).collect()
+    }
+    pub fn poly_facts<T: RingImpl>(a: &[T]) -> (usize, bool, bool) {
+        (p(a).degree(), p(a).is_zero(), p(a).is_one())
+    }
+    pub fn poly_eval<T: RingImpl>(a: &[T], x: &T) -> T {
+        p(a).evaluate(x)
+    }
+    pub fn poly_divide<T: RingImpl>(a: &[T], b: &[T]) -> Result<(Vec<T>, Vec<T>), Error> {
+        let (q, r) = p(a).long_division(&p(b))?;
+        Ok((q.coeffs, r.coeffs))
+    }
+    pub fn poly_rem<T: RingImpl>(a: &[T], b: &[T]) -> (Vec<T>, Vec<T>) {
+        ((p(a) % p(b)).coeffs, (p(a) % &p(b)).coeffs)
+    }
+    pub fn poly_inverse<T: RingImpl>(a: &[T], modulus: &[T]) -> Vec<T> {
+        p(a).mod_inverse(&p(modulus)).coeffs
+    }
+    pub fn poly_native_inverse<T: RingImpl>(a: &[T]) -> Vec<T> {
+        p(a).native_mod_inverse().coeffs
+    }
+    pub fn native_modulus<T: RingImpl>() -> Vec<T> {
+        Poly::<T>::get_native_mod().coeffs
+    }
+    pub fn modulus<T: RingImpl>(d: usize) -> Vec<T> {
+        IrreduciblePolys::get::<T>(d).coeffs
+    }
+    /// Lagrange polynomials (native modulus when none is given).
+    pub fn lagrange<T: RingImpl>(xs: &[Vec<T>], modulus: Option<&[T]>) -> Vec<Vec<Vec<T>>> {
+        let xs: Vec<Poly<T>> = xs.iter().map(|x| p(x)).collect();
+        let polys = match modulus {
+            Some(m) => Poly::<Poly<T>>::lagrange_polys(&xs, &p(m)),
+            None => Poly::<Poly<T>>::native_lagrange_polys(&xs),
+        };
+        polys.into_iter().map(unpp).collect()
+    }
+    pub fn interpolate<T: RingImpl>(ys: &[Vec<T>], lagrange: &[Vec<Vec<T>>]) -> Vec<Vec<T>> {
+        let ys: Vec<Poly<T>> = ys.iter().map(|x| p(x)).collect();
+        let polys: Vec<Poly<Poly<T>>> = lagrange.iter().map(|x| pp(x)).collect();
+        unpp(Poly::interpolate(&ys, &polys))
+    }
+    pub fn eval_poly_at<T: RingImpl>(f: &[Vec<T>], x: &[T]) -> Vec<T> {
+        pp(f).evaluate(&p(x)).coeffs
+    }
+    pub fn reduce_coeffs<T: RingImpl>(f: &[Vec<T>], modulus: &[T]) -> Vec<Vec<T>> {
+        let mut f = pp(f);
+        f.reduce_coeffs(&p(modulus));
+        unpp(f)
+    }
+
+    /// Every form of the field operations, by name.
+    pub fn gf_ops(a: u64, b: u64) -> Vec<(&'static str, u64)> {
+        let (x, y) = (GF2p64::new(a), GF2p64::new(b));
+        let mut out = vec![
+            ("add", x + y),
+            ("add_ref", x + &y),
+            ("sub", x - y),
+            ("sub_ref", x - &y),
+            ("mul", x * y),
+            ("mul_ref", x * &y),
+            ("neg", -x),
+            ("zero", GF2p64::zero()),
+            ("one", GF2p64::one()),
+            ("default", GF2p64::default()),
+            ("lift0", GF2p64::lift(false)),
+            ("lift1", GF2p64::lift(true)),
+        ];
+        macro_rules! asg {
+            ($n:literal, $op:tt, $rhs:expr) => {{
+                let mut z = x;
+                z $op $rhs;
+                out.push(($n, z));
+            }};
+        }
+        asg!("add_assign", +=, y);
+        asg!("add_assign_ref", +=, &y);
+        asg!("sub_assign", -=, y);
+        asg!("sub_assign_ref", -=, &y);
+        asg!("mul_assign", *=, y);
+        asg!("mul_assign_ref", *=, &y);
+        out.into_iter().map(|(n, z)| (n, z.get())).collect()
+    }
+    pub fn gf_facts(a: u64) -> (bool, bool) {
+        (GF2p64::new(a).is_zero(), GF2p64::new(a).is_one())
+    }
+    pub fn gf_inverse(a: u64) -> u64 {
+        GF2p64::new(a).inverse().get()
+    }
+    pub fn gf_inv_mod(a: u64, modulus: u64) -> u64 {
+        GF2p64::new(a).inv_mod(GF2p64::new(modulus)).get()
+    }
+    pub fn gf_bincode(a: u64) -> (Vec<u8>, Result<u64, String>) {
+        let b = bincode::serialize(&GF2p64::new(a)).unwrap();
+        let r = bincode::deserialize::<GF2p64>(&b).map(|x| x.get()).map_err(|e| e.to_string());
+        (b, r)
+    }
+    pub fn gf_modulus() -> Vec<bool> {
+        GF2p64::MODULUS.to_vec()
+    }
+    pub fn gf_interpolate(xs: &[u64], ys: &[u64]) -> Vec<u64> {
+        let xs: Vec<GF2p64> = xs.iter().map(|x| GF2p64::new(*x)).collect();
+        let ys: Vec<GF2p64> = ys.iter().map(|x| GF2p64::new(*x)).collect();
+        let polys = Poly::<GF2p64>::lagrange_polys(&xs);
+        Poly::interpolate(&ys, &polys).coeffs.into_iter().map(|x| x.get()).collect()
+    }
+    pub fn gf_eval(coeffs: &[u64], x: u64) -> u64 {
+        Poly::from_vec(coeffs.iter().map(|c| GF2p64::new(*c)).collect())
+            .evaluate(&GF2p64::new(x))
+            .get()
+    }
+    pub fn gf_poly_mul(a: &[u64], b: &[u64]) -> Vec<u64> {
+        let f = |v: &[u64]| Poly::from_vec(v.iter().map(|c| GF2p64::new(*c)).collect());
+        (f(a) * &f(b)).coeffs.into_iter().map(|x| x.get()).collect()
+    }
+}
-- 
2.43.0


From a6d50ecb83cf7d0c76cf1301d106497c07136325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 15/25] fix: the constant polynomial one is recognised as one

---
 iris-mpc/src/dzkp/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iris-mpc/src/dzkp/polynomial.rs b/iris-mpc/src/dzkp/polynomial.rs
index e9fcc7a..395c2c7 100644
--- a/iris-mpc/src/dzkp/polynomial.rs
+++ b/iris-mpc/src/dzkp/polynomial.rs
@@ -597,7 +597,7 @@ impl<T: PolyTrait> One for Poly<T> {
     }
 
     fn is_one(&self) -> bool {
-        self.degree() == 1 && self.leading_coeff().is_one()
+        !self.coeffs.is_empty() && self.degree() == 0 && self.leading_coeff().is_one()
     }
 }
 
-- 
2.43.0


From af25d0380d9b8557f0dc3f4ecd157765ff5d39d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 16/25] fix: polynomial division by a divisor with leading zero
 coefficients

---
 iris-mpc/src/dzkp/polynomial.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/iris-mpc/src/dzkp/polynomial.rs b/iris-mpc/src/dzkp/polynomial.rs
index 395c2c7..6827d0b 100644
--- a/iris-mpc/src/dzkp/polynomial.rs
+++ b/iris-mpc/src/dzkp/polynomial.rs
@@ -91,19 +91,21 @@ impl<T: PolyTrait> Poly<T> {
 impl<T: RingImpl> Poly<T> {
     pub fn long_division(&self, other: &Self) -> Result<(Self, Self), Error> {
         let mut dividend = self.coeffs.clone();
-        let degree = if dividend.len() >= other.coeffs.len() {
-            dividend.len() - other.coeffs.len() + 1
+        let inv = other.leading_coeff().inverse()?;
+        // leading zeros are not part of the divisor
+        let divisor = &other.coeffs[..=other.degree()];
+
+        let degree = if dividend.len() >= divisor.len() {
+            dividend.len() - divisor.len() + 1
         } else {
             1
         };
         let mut quotient = vec![T::default(); degree];
 
-        let inv = other.leading_coeff().inverse()?;
-
-        while dividend.len() >= other.coeffs.len() {
-            let monomial = dividend.len() - other.coeffs.len();
+        while dividend.len() >= divisor.len() {
+            let monomial = dividend.len() - divisor.len();
             let coeff = dividend.pop().expect("size is not 0") * &inv;
-            for (i, c) in other.coeffs.iter().enumerate().take(other.coeffs.len() - 1) {
+            for (i, c) in divisor.iter().enumerate().take(divisor.len() - 1) {
                 dividend[monomial + i] -= c.to_owned() * &coeff;
             }
             quotient[monomial] = coeff.to_owned();
-- 
2.43.0


From 5e4d788a6a2c41eb66941f42cd5b1bfcbc275499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:14 +0000
Subject: [PATCH 17/25] fix: refuse empty OR reductions and a chunk size of
 zero instead of panicking

---
 iris-mpc/src/aby3/utils.rs    | 3 +++
 iris-mpc/src/iris/protocol.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/iris-mpc/src/aby3/utils.rs b/iris-mpc/src/aby3/utils.rs
index 1073747..1eaa068 100644
--- a/iris-mpc/src/aby3/utils.rs
+++ b/iris-mpc/src/aby3/utils.rs
@@ -327,6 +327,9 @@ where
         + 'static,
 {
     let mut num = inputs.len();
+    if num == 0 || chunk_size == 0 {
+        return Err(Error::InvalidSizeError);
+    }
 
     while num > 1 {
         let mod_ = num & 1;
diff --git a/iris-mpc/src/iris/protocol.rs b/iris-mpc/src/iris/protocol.rs
index 30df808..c50c10d 100644
--- a/iris-mpc/src/iris/protocol.rs
+++ b/iris-mpc/src/iris/protocol.rs
@@ -263,7 +263,7 @@ where
         chunk_size: usize,
     ) -> Result<bool, Error> {
         let amount = db.len();
-        if (amount != mask_db.len()) || (amount == 0) {
+        if (amount != mask_db.len()) || (amount == 0) || (chunk_size == 0) {
             return Err(Error::InvalidSizeError);
         }
 
-- 
2.43.0


From 7e008d6cce9daf4ebb7b8fdc595ecfdebd648577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:37 +0000
Subject: [PATCH 18/25] fix: refuse mismatched masks and code lengths in
 masked_dot_many

---
 iris-mpc/src/aby3/protocol.rs     | 2 +-
 iris-mpc/src/spdzwise/protocol.rs | 5 ++++-
 iris-mpc/src/traits/mpc_trait.rs  | 4 ++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/iris-mpc/src/aby3/protocol.rs b/iris-mpc/src/aby3/protocol.rs
index ec7dd9a..a0ac50e 100644
--- a/iris-mpc/src/aby3/protocol.rs
+++ b/iris-mpc/src/aby3/protocol.rs
@@ -471,7 +471,7 @@ where
         b: &[Vec<Share<T>>],
         masks: &[IrisCodeArray],
     ) -> Result<Vec<Share<T>>, Error> {
-        if a.len() != IrisCodeArray::IRIS_CODE_SIZE {
+        if a.len() != IrisCodeArray::IRIS_CODE_SIZE || b.len() != masks.len() {
             return Err(Error::InvalidSizeError);
         }
 
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 601ed05..2e27d42 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -1168,7 +1168,10 @@ where
         masks: &[IrisCodeArray],
     ) -> Result<Vec<TShare<T>>, Error> {
         let len = b.len();
-        if a.len() != IrisCodeArray::IRIS_CODE_SIZE {
+        if a.len() != IrisCodeArray::IRIS_CODE_SIZE || len != masks.len() {
+            return Err(Error::InvalidSizeError);
+        }
+        if b.iter().any(|b_| b_.len() != a.len()) {
             return Err(Error::InvalidSizeError);
         }
 
diff --git a/iris-mpc/src/traits/mpc_trait.rs b/iris-mpc/src/traits/mpc_trait.rs
index d5fff1c..f49706e 100644
--- a/iris-mpc/src/traits/mpc_trait.rs
+++ b/iris-mpc/src/traits/mpc_trait.rs
@@ -54,6 +54,10 @@ pub trait MpcTrait<T: Sharable, Ashare: ShareTrait, Bshare: ShareTrait> {
         b: &[Ashare::VecShare],
         masks: &[IrisCodeArray],
     ) -> Result<Vec<Ashare>, Error> {
+        if b.len() != masks.len() {
+            return Err(Error::InvalidSizeError);
+        }
+
         let mut a_vec = Vec::with_capacity(b.len());
         let mut b_vec = Vec::with_capacity(b.len());
 
-- 
2.43.0


From 857c73297c03afaf6815679589ecfb03649a4fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 19/25] fix: bincode codec reports a frame with an oversized
 length as an error

Decoding through a reader made bincode allocate the claimed length of a
string before reading it, which panics for huge lengths. Decoding from the
slice bounds the length by the frame.
---
 mpc-net/src/codecs.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mpc-net/src/codecs.rs b/mpc-net/src/codecs.rs
index b520389..3d6f030 100644
--- a/mpc-net/src/codecs.rs
+++ b/mpc-net/src/codecs.rs
@@ -1,6 +1,6 @@
 use std::io;
 
-use bytes::{Buf, BufMut, BytesMut};
+use bytes::{BufMut, BytesMut};
 use serde::{de::DeserializeOwned, Serialize};
 use tokio_util::codec::{Decoder, Encoder, LengthDelimitedCodec};
 
@@ -62,9 +62,7 @@ where
             None => return Ok(None),
         };
 
-        let reader = buf.reader();
-
-        let result = bincode::deserialize_from::<_, M>(reader).map_err(|e| {
+        let result = bincode::deserialize::<M>(&buf).map_err(|e| {
             io::Error::new(
                 io::ErrorKind::Other,
                 format!("Failed to deserialize message with bincode: {}", e),
-- 
2.43.0


From 846a205d1469be719ec373c4fbeb228afa0f594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 20/25] fix: get_custom_channels does not underflow in a
 one-party network

---
 mpc-net/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc-net/src/lib.rs b/mpc-net/src/lib.rs
index 8f6ead8..b144a1c 100644
--- a/mpc-net/src/lib.rs
+++ b/mpc-net/src/lib.rs
@@ -194,7 +194,7 @@ impl MpcNetworkHandler {
         &mut self,
         codec: C,
     ) -> std::io::Result<HashMap<usize, Channel<RecvStream, SendStream, C>>> {
-        let mut channels = HashMap::with_capacity(self.connections.len() - 1);
+        let mut channels = HashMap::with_capacity(self.connections.len());
         for (&id, conn) in &mut self.connections {
             if id < self.my_id {
                 // we are the client, so we are the receiver
-- 
2.43.0


From 16a3152c155139fd8df0220314eccb7c5904b27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:25 +0000
Subject: [PATCH 21/25] fix: Aby3Network::shutdown delivers the last messages

Closing the QUIC connections discards data that is still queued or not yet
acknowledged, so messages sent just before a shutdown were lost. Wait for the
write halves to finish first (bounded by the idle timeout).
---
 iris-mpc/src/aby3/network.rs | 12 ++++++++++--
 mpc-net/src/channel.rs       | 18 +++++++++++++++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/iris-mpc/src/aby3/network.rs b/iris-mpc/src/aby3/network.rs
index cda2e8b..c82f4dd 100644
--- a/iris-mpc/src/aby3/network.rs
+++ b/iris-mpc/src/aby3/network.rs
@@ -1,4 +1,5 @@
 use std::io;
+use std::time::Duration;
 
 use super::id::PartyID;
 use crate::error::Error;
@@ -8,6 +9,9 @@ use mpc_net::channel::ChannelHandle;
 use mpc_net::config::NetworkConfig;
 use mpc_net::MpcNetworkHandler;
 
+/// How long a shutdown waits for the peers to get the last messages.
+const SHUTDOWN_TIMEOUT: Duration = Duration::from_secs(60);
+
 pub struct Aby3Network {
     handler: MpcNetworkHandler,
     id: PartyID,
@@ -162,8 +166,12 @@ impl NetworkTrait for Aby3Network {
             handler,
             ..
         } = self;
-        drop(channel_recv);
-        drop(channel_send);
+
+        // Closing the connections discards what is still on its way, so get rid of it first
+        let _ = tokio::time::timeout(SHUTDOWN_TIMEOUT, async {
+            tokio::join!(channel_send.shutdown(), channel_recv.shutdown())
+        })
+        .await;
 
         handler.shutdown().await;
         Ok(())
diff --git a/mpc-net/src/channel.rs b/mpc-net/src/channel.rs
index 32c6862..64d20bb 100644
--- a/mpc-net/src/channel.rs
+++ b/mpc-net/src/channel.rs
@@ -7,6 +7,7 @@ use std::{
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt},
     sync::{mpsc, oneshot},
+    task::JoinHandle,
 };
 use tokio_util::codec::{Decoder, Encoder, FramedRead, FramedWrite, LengthDelimitedCodec};
 
@@ -129,6 +130,7 @@ struct ReadJob<MRecv> {
 pub struct ChannelHandle<MSend, MRecv> {
     write_job_queue: mpsc::Sender<WriteJob<MSend>>,
     read_job_queue: mpsc::Sender<ReadJob<MRecv>>,
+    write_task: JoinHandle<Result<(), io::Error>>,
 }
 
 impl<MSend, MRecv> ChannelHandle<MSend, MRecv>
@@ -165,7 +167,7 @@ where
                 }
             }
         });
-        tokio::spawn(async move {
+        let write_task = tokio::spawn(async move {
             while let Some(write_job) = write_recv.recv().await {
                 let write_result = write.send(write_job.data).await;
                 // we don't really care if the receiver for a write job is gone, as this is a common case
@@ -177,14 +179,28 @@ where
                     }
                 }
             }
+            write.close().await
         });
 
         ChannelHandle {
             write_job_queue: write_send,
             read_job_queue: read_send,
+            write_task,
         }
     }
 
+    /// Close the sending direction, after waiting for everything that was sent so far.
+    pub async fn shutdown(self) -> Result<(), io::Error> {
+        let Self {
+            write_job_queue,
+            read_job_queue,
+            write_task,
+        } = self;
+        drop(write_job_queue);
+        drop(read_job_queue);
+        write_task.await.map_err(io::Error::from)?
+    }
+
     pub async fn send(&mut self, data: MSend) -> oneshot::Receiver<Result<(), io::Error>> {
         let (ret, recv) = oneshot::channel();
         let job = WriteJob { data, ret };
-- 
2.43.0


From 325261348a069df73895e1d914bffba2f68a9ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:54 +0000
Subject: [PATCH 22/25] fix: reveal coins of MalAby3 and SpdzWise only after
 all messages have arrived

---
 iris-mpc/src/aby3_mal/protocol.rs | 8 ++++++++
 iris-mpc/src/spdzwise/protocol.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/iris-mpc/src/aby3_mal/protocol.rs b/iris-mpc/src/aby3_mal/protocol.rs
index 6d5c7e0..9b4d439 100644
--- a/iris-mpc/src/aby3_mal/protocol.rs
+++ b/iris-mpc/src/aby3_mal/protocol.rs
@@ -124,6 +124,14 @@ impl<N: NetworkTrait> MalAby3<N> {
         Standard: Distribution<R::Seed>,
         R::Seed: AsRef<[u8]>,
     {
+        // The coin must not be revealed to a party whose messages so far have not arrived yet, it
+        // could choose them depending on the coin. The previous party sends this only after it has
+        // received the messages of the next party.
+        let ready = utils::send_and_receive(&mut self.network, Bytes::new()).await?;
+        if !ready.is_empty() {
+            return Err(Error::InvalidMessageSize);
+        }
+
         let (mut seed1, seed2) = self.prf.gen_rands::<R::Seed>();
 
         let seed3 = self
diff --git a/iris-mpc/src/spdzwise/protocol.rs b/iris-mpc/src/spdzwise/protocol.rs
index 2e27d42..f7393d5 100644
--- a/iris-mpc/src/spdzwise/protocol.rs
+++ b/iris-mpc/src/spdzwise/protocol.rs
@@ -250,6 +250,14 @@ where
         Standard: Distribution<R::Seed>,
         R::Seed: AsRef<[u8]>,
     {
+        // The coin must not be revealed to a party whose messages so far have not arrived yet, it
+        // could choose them depending on the coin. The previous party sends this only after it has
+        // received the messages of the next party.
+        let ready = utils::send_and_receive(&mut self.aby3.network, Bytes::new()).await?;
+        if !ready.is_empty() {
+            return Err(Error::InvalidMessageSize);
+        }
+
         let (mut seed1, seed2) = self.aby3.prf.gen_rands::<R::Seed>();
 
         let seed3 = self
-- 
2.43.0


From 7951b57427eed99672472cfe9488e7b8a930b326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 23/25] fix: toss the coefficients of Swift3's proofs after the
 gates

---
 iris-mpc/src/swift3/protocol.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/iris-mpc/src/swift3/protocol.rs b/iris-mpc/src/swift3/protocol.rs
index 8288054..a26b668 100644
--- a/iris-mpc/src/swift3/protocol.rs
+++ b/iris-mpc/src/swift3/protocol.rs
@@ -640,11 +640,12 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        // coin the thetas, they must not be known before the gates are computed
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_and_dzkp::<ChaCha12Rng>(l, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.and_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
@@ -722,11 +723,12 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        // coin the thetas, they must not be known before the gates are computed
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_mul_dzkp::<ChaCha12Rng>(l, d, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.mul_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
@@ -805,11 +807,12 @@ where
 
         tracing::trace!("Finished lagrange interpolation");
 
-        let seed = self.prf.gen_p::<<ChaCha12Rng as SeedableRng>::Seed>();
-        let mut theta_rng = ChaCha12Rng::from_seed(seed);
+        // coin the thetas, they must not be known before the gates are computed
+        let mut prover_rng = ChaCha12Rng::from_entropy();
+        let mut theta_rng =
+            ChaCha12Rng::from_seed(self.coin::<ChaCha12Rng>(&mut prover_rng).await?);
         let thetas = Self::get_rands_for_mul_dzkp::<ChaCha12Rng>(l, d, &mut theta_rng);
 
-        let mut prover_rng = ChaCha12Rng::from_entropy();
         let (seed, proof) = self.dot_proof.prove::<ChaCha12Rng>(
             &thetas[self.network.get_id()],
             &lagrange_polys,
-- 
2.43.0


From 6d09175a783b5fae05c54ccf354daac49732cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:38 +0000
Subject: [PATCH 24/25] fix: tag all entries of a SpdzWise sample database with
 one key

---
 iris-mpc/src/bin/create_sample_data.rs | 36 ++++++++++++++++----------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/iris-mpc/src/bin/create_sample_data.rs b/iris-mpc/src/bin/create_sample_data.rs
index 6d64deb..637d232 100644
--- a/iris-mpc/src/bin/create_sample_data.rs
+++ b/iris-mpc/src/bin/create_sample_data.rs
@@ -6,7 +6,7 @@ use iris_mpc::prelude::{Aby3, Aby3Network, MpcTrait, SpdzWise, Swift3, Swift3Net
 use plain_reference::IrisCode;
 use rand::{Rng, SeedableRng};
 use rand_chacha::ChaCha12Rng;
-use rusqlite::Connection;
+use rusqlite::{Connection, OptionalExtension};
 
 #[derive(Parser)]
 #[command(author, version, about, long_about = None)]
@@ -213,21 +213,31 @@ fn create_spdzwise_db(opts: Opts) -> Result<()> {
         let code = IrisCode::random_rng(&mut rng);
         codes.push(code);
     }
-    // Insert the mac key into the database
+    // Insert the mac key into the database, unless the database already has one:
+    // all entries of a database are tagged with the same key
     let transaction = conn.transaction()?;
-    let mut stmt = transaction
-        .prepare("INSERT INTO mac_key (key, share_a, share_b, share_c) VALUES (?1, ?2, ?3, ?4)")?;
-
     let shares = Aby3::<Aby3Network>::share(mac_key, 0, &mut rng);
 
-    let mac_key_ = bincode::serialize(&mac_key)?;
-    let data_a = bincode::serialize(&shares[0].to_owned().get_a())?;
-    let data_b = bincode::serialize(&shares[1].to_owned().get_a())?;
-    let data_c = bincode::serialize(&shares[2].to_owned().get_a())?;
-
-    stmt.execute([&mac_key_, &data_a, &data_b, &data_c])?;
-
-    drop(stmt);
+    let recorded_key = transaction
+        .query_row("SELECT key FROM mac_key", [], |row| {
+            row.get::<_, Vec<u8>>(0)
+        })
+        .optional()?;
+    let mac_key = match recorded_key {
+        Some(key) => bincode::deserialize(&key)?,
+        None => {
+            let mac_key_ = bincode::serialize(&mac_key)?;
+            let data_a = bincode::serialize(&shares[0].to_owned().get_a())?;
+            let data_b = bincode::serialize(&shares[1].to_owned().get_a())?;
+            let data_c = bincode::serialize(&shares[2].to_owned().get_a())?;
+
+            transaction.execute(
+                "INSERT INTO mac_key (key, share_a, share_b, share_c) VALUES (?1, ?2, ?3, ?4)",
+                [&mac_key_, &data_a, &data_b, &data_c],
+            )?;
+            mac_key
+        }
+    };
     transaction.commit()?;
 
     // Insert the codes into the database
-- 
2.43.0


From 89292069b591891df7a3742664c8e93b16d41e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:15 +0000
Subject: [PATCH 25/25] fix: report peers that introduce themselves wrongly
 instead of panicking, refuse identities over 32 bits

---
 mpc-net/src/config.rs |  4 ++++
 mpc-net/src/lib.rs    | 42 +++++++++++++++++++++++++++++++-----------
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/mpc-net/src/config.rs b/mpc-net/src/config.rs
index fc0bc52..5b5306d 100644
--- a/mpc-net/src/config.rs
+++ b/mpc-net/src/config.rs
@@ -39,6 +39,10 @@ impl NetworkConfig {
         if ids.len() != self.parties.len() {
             return Err(eyre::eyre!("duplicate party ids found"));
         }
+        // 3. check that all ids fit into the messages that introduce the parties
+        if let Some(id) = ids.iter().find(|id| u32::try_from(**id).is_err()) {
+            return Err(eyre::eyre!("party id {} is too large", id));
+        }
         Ok(())
     }
 }
diff --git a/mpc-net/src/lib.rs b/mpc-net/src/lib.rs
index b144a1c..7e79013 100644
--- a/mpc-net/src/lib.rs
+++ b/mpc-net/src/lib.rs
@@ -32,6 +32,17 @@ pub struct MpcNetworkHandler {
     my_id: usize,
 }
 
+/// Checks the id a party sends over a new stream.
+fn check_id(their_id: u32, expected: usize) -> io::Result<()> {
+    if usize::try_from(their_id) != Ok(expected) {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!("party {} sent the id {}", expected, their_id),
+        ));
+    }
+    Ok(())
+}
+
 impl MpcNetworkHandler {
     pub async fn establish(config: NetworkConfig) -> Result<Self, Report> {
         config.check_config()?;
@@ -86,6 +97,14 @@ impl MpcNetworkHandler {
 
         let mut connections = BTreeMap::new();
 
+        // the parties that connect to us
+        let client_ids: Vec<usize> = config
+            .parties
+            .iter()
+            .map(|p| p.id)
+            .filter(|&id| id > config.my_id)
+            .collect();
+
         for party in config.parties {
             if party.id == config.my_id {
                 // skip self
@@ -126,13 +145,16 @@ impl MpcNetworkHandler {
                         conn.remote_address(),
                     );
                     let mut uni = conn.accept_uni().await?;
-                    let other_party_id = uni.read_u32().await?;
-                    assert!(connections
-                        .insert(
-                            usize::try_from(other_party_id).expect("u32 fits into usize"),
-                            conn
-                        )
-                        .is_none());
+                    let other_party_id = usize::try_from(uni.read_u32().await?)?;
+                    if !client_ids.contains(&other_party_id)
+                        || connections.contains_key(&other_party_id)
+                    {
+                        return Err(eyre::eyre!(
+                            "unexpected connection from a party with id {}",
+                            other_party_id
+                        ));
+                    }
+                    connections.insert(other_party_id, conn);
                 } else {
                     return Err(eyre::eyre!(
                         "server endpoint did not accept a connection from party {}",
@@ -200,15 +222,13 @@ impl MpcNetworkHandler {
                 // we are the client, so we are the receiver
                 let (mut send_stream, mut recv_stream) = conn.open_bi().await?;
                 send_stream.write_u32(self.my_id as u32).await?;
-                let their_id = recv_stream.read_u32().await?;
-                assert!(their_id == id as u32);
+                check_id(recv_stream.read_u32().await?, id)?;
                 let conn = Channel::new(recv_stream, send_stream, codec.clone());
                 assert!(channels.insert(id, conn).is_none());
             } else {
                 // we are the server, so we are the sender
                 let (mut send_stream, mut recv_stream) = conn.accept_bi().await?;
-                let their_id = recv_stream.read_u32().await?;
-                assert!(their_id == id as u32);
+                check_id(recv_stream.read_u32().await?, id)?;
                 send_stream.write_u32(self.my_id as u32).await?;
                 let conn = Channel::new(recv_stream, send_stream, codec.clone());
                 assert!(channels.insert(id, conn).is_none());
-- 
2.43.0

