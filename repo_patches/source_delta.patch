From 1a369cc26cbff417ae03ed249859b03f5c489b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 01/27] sim: cfg(rmath_portable) selects the non-x86
 implementations on x86

Off by default; lets the verification harness run the portable random
sources and arithmetic kernels on this host.
---
 src/bigint/mod.rs |  6 +++---
 src/rand/mod.rs   | 24 ++++++++++++------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/bigint/mod.rs b/src/bigint/mod.rs
index d0c0896..d29e51e 100644
--- a/src/bigint/mod.rs
+++ b/src/bigint/mod.rs
@@ -16,13 +16,13 @@ mod nat_macro;
 mod nat;
 mod nat_err;
 
-#[cfg(rmath_avx2 = "support")]
+#[cfg(all(not(rmath_portable), rmath_avx2 = "support"))]
 mod nat_avx2;
 
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(not(rmath_portable), any(target_arch = "x86", target_arch = "x86_64")))]
 mod nat_amd64;
 
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64", rmath_avx2 = "support")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64", rmath_avx2 = "support"))))]
 mod nat_generic;
 
 pub use nat::Nat;
diff --git a/src/rand/mod.rs b/src/rand/mod.rs
index 5b838c5..ff45b31 100644
--- a/src/rand/mod.rs
+++ b/src/rand/mod.rs
@@ -142,34 +142,34 @@ mod lagged_fibonacci_rand;
 pub use lagged_fibonacci_rand::LaggedFibonacciRand;
 iter_impl!(LaggedFibonacciRand, u32, usize, u64);
 
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64"))))]
 mod default_seed;
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64"))))]
 pub use default_seed::DefaultSeed;
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(not(rmath_portable), any(target_arch = "x86", target_arch = "x86_64")))]
 mod default_seed_amd64;
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(not(rmath_portable), any(target_arch = "x86", target_arch = "x86_64")))]
 pub use default_seed_amd64::DefaultSeed;
 
 
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64"))))]
 mod default_rand;
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64"))))]
 pub use default_rand::DefaultRand;
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(not(rmath_portable), any(target_arch = "x86", target_arch = "x86_64")))]
 mod default_rand_amd64;
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(not(rmath_portable), any(target_arch = "x86", target_arch = "x86_64")))]
 pub use default_rand_amd64::DefaultRand;
 iter_impl!(DefaultRand, u32, usize, u64);
 
 
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64"))))]
 mod crypto_rand;
-#[cfg(not(any(target_arch = "x86", target_arch = "x86_64")))]
+#[cfg(any(rmath_portable, not(any(target_arch = "x86", target_arch = "x86_64"))))]
 pub use crypto_rand::CryptoRand;
 
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(not(rmath_portable), any(target_arch = "x86", target_arch = "x86_64")))]
 mod crypto_rand_amd64;
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+#[cfg(all(not(rmath_portable), any(target_arch = "x86", target_arch = "x86_64")))]
 pub use crypto_rand_amd64::CryptoRand;
 iter_impl!(CryptoRand, u32, usize, u64);
-- 
2.43.0


From 74a4c7537598dec7d27054558ad8aa096a7c6ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:43 +0000
Subject: [PATCH 02/27] sim: cfg(rmath_sim) routes rdrand/rdseed through a
 simulated processor

Off by default; the intrinsics are used unchanged without the flag.
---
 src/rand/default_rand_amd64.rs |  7 ++--
 src/rand/default_seed_amd64.rs |  7 ++--
 src/rand/mod.rs                |  3 ++
 src/rand/sim_hw.rs             | 58 ++++++++++++++++++++++++++++++++++
 4 files changed, 71 insertions(+), 4 deletions(-)
 create mode 100644 src/rand/sim_hw.rs

diff --git a/src/rand/default_rand_amd64.rs b/src/rand/default_rand_amd64.rs
index 370c5c7..67e99af 100644
--- a/src/rand/default_rand_amd64.rs
+++ b/src/rand/default_rand_amd64.rs
@@ -1,10 +1,13 @@
 use crate::rand::{Source, Seed, RandError, RandErrKind, Result, PrimitiveType};
 
-#[cfg(target_arch = "x86_64")]
+#[cfg(all(not(rmath_sim), target_arch = "x86_64"))]
 use std::arch::x86_64 as march;
 
-#[cfg(target_arch = "x86")]
+#[cfg(all(not(rmath_sim), target_arch = "x86"))]
 use std::arch::x86 as march;
+
+#[cfg(rmath_sim)]
+use crate::rand::sim_hw as march;
 use std::marker::PhantomData;
 
 #[derive(Clone)]
diff --git a/src/rand/default_seed_amd64.rs b/src/rand/default_seed_amd64.rs
index 45cecb4..31fb253 100644
--- a/src/rand/default_seed_amd64.rs
+++ b/src/rand/default_seed_amd64.rs
@@ -2,11 +2,14 @@
 
 use crate::rand::{Seed, RandError, RandErrKind, Result, PrimitiveType};
 
-#[cfg(target_arch = "x86_64")]
+#[cfg(all(not(rmath_sim), target_arch = "x86_64"))]
 use std::arch::x86_64 as march;
 
-#[cfg(target_arch = "x86")]
+#[cfg(all(not(rmath_sim), target_arch = "x86"))]
 use std::arch::x86 as march;
+
+#[cfg(rmath_sim)]
+use crate::rand::sim_hw as march;
 use std::marker::PhantomData;
 
 #[derive(Clone)]
diff --git a/src/rand/mod.rs b/src/rand/mod.rs
index ff45b31..4251a20 100644
--- a/src/rand/mod.rs
+++ b/src/rand/mod.rs
@@ -123,6 +123,9 @@ pub trait IterSource<T: PrimitiveType>: Source<T> {
         where Self: std::marker::Sized;
 }
 
+#[cfg(rmath_sim)]
+pub mod sim_hw;
+
 #[macro_use]
 mod iter;
 pub use iter::Iter;
diff --git a/src/rand/sim_hw.rs b/src/rand/sim_hw.rs
new file mode 100644
index 0000000..5f0522c
--- /dev/null
+++ b/src/rand/sim_hw.rs
@@ -0,0 +1,58 @@
+//! Simulated entropy instructions, compiled only with `--cfg rmath_sim`.
+//!
+//! The functions have the names and signatures of the `core::arch` intrinsics they stand in for. They
+//! forward to the processor model installed for the current thread, and to the real instruction if
+//! there is none.
+use std::cell::RefCell;
+
+#[cfg(target_arch = "x86_64")]
+use std::arch::x86_64 as real;
+
+#[cfg(target_arch = "x86")]
+use std::arch::x86 as real;
+
+#[derive(Copy, Clone, Debug, Eq, PartialEq)]
+pub enum Insn {
+    Rdrand32,
+    Rdrand64,
+    Rdseed32,
+    Rdseed64,
+}
+
+/// returns the carry flag and the content of the destination register
+pub type Processor = Box<dyn FnMut(Insn) -> (bool, u64)>;
+
+thread_local! {
+    static PROCESSOR: RefCell<Option<Processor>> = RefCell::new(None);
+}
+
+/// install the processor model of the current thread
+pub fn install(p: Option<Processor>) {
+    PROCESSOR.with(|x| *x.borrow_mut() = p);
+}
+
+fn step(insn: Insn) -> Option<(bool, u64)> {
+    PROCESSOR.with(|x| x.borrow_mut().as_mut().map(|p| p(insn)))
+}
+
+macro_rules! step_impl {
+    ($Name: ident, $Type0: ty, $Insn: ident, $Feature: literal) => {
+        #[target_feature(enable = $Feature)]
+        pub(super) unsafe fn $Name(out: &mut $Type0) -> i32 {
+            match step(Insn::$Insn) {
+                Some((cf, x)) => {
+                    *out = x as $Type0;
+                    cf as i32
+                },
+                None => real::$Name(out),
+            }
+        }
+    };
+}
+
+step_impl!(_rdrand32_step, u32, Rdrand32, "rdrand");
+step_impl!(_rdseed32_step, u32, Rdseed32, "rdseed");
+#[cfg(target_arch = "x86_64")]
+step_impl!(_rdrand64_step, u64, Rdrand64, "rdrand");
+#[cfg(target_arch = "x86_64")]
+step_impl!(_rdseed64_step, u64, Rdseed64, "rdseed");
-- 
2.43.0


From cdc6352354c071ae396ef9aca2b8b73028d08329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:25 +0000
Subject: [PATCH 03/27] fix: compute the linear congruential recurrence without
 wrapping before the modulus

---
 src/rand/linear_congruential_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/linear_congruential_rand.rs b/src/rand/linear_congruential_rand.rs
index b4c67e0..832778c 100644
--- a/src/rand/linear_congruential_rand.rs
+++ b/src/rand/linear_congruential_rand.rs
@@ -34,7 +34,7 @@ macro_rules! lcr_calc {
     ($Type0: ty) => {
         impl Source<$Type0> for LinearCongruentialRand<$Type0> {
             fn gen(&mut self) -> Result<$Type0> {
-                let tmp = (((self.a).overflowing_mul(self.x).0).overflowing_add(self.c)).0 % self.m;
+                let tmp = ((self.a as u128 * self.x as u128 + self.c as u128) % (self.m as u128)) as $Type0;
                 self.x = tmp;
                 Ok(tmp)
             }
-- 
2.43.0


From 6aee513abcb16ceb3d0d76f7f7cf32f17e19b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 04/27] fix: the s and t tempering steps of the Mersenne
 Twister are left shifts

---
 src/rand/mersenne_twister_rand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 1ffc1b4..3126059 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -156,8 +156,8 @@ macro_rules! mtr_impl {
                 }
                 let mut z = self.state[self.idx as usize];
                 z ^= (z >> self.tempering_u) & self.tempering_d;
-                z ^= (z >> self.tempering_s) & self.tempering_b;
-                z ^= (z >> self.tempering_t) & self.tempering_c;
+                z ^= (z << self.tempering_s) & self.tempering_b;
+                z ^= (z << self.tempering_t) & self.tempering_c;
                 z ^= z >> self.shift_l;
                 
                 self.idx += 1;
-- 
2.43.0


From a2ea8d5c479361634ad64038ec991838e3963c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 05/27] fix: refuse every zero tempering parameter of the
 Mersenne Twister, as documented

---
 src/rand/mersenne_twister_rand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 3126059..363f653 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -45,8 +45,8 @@ impl<T> MersenneTwisterRand<T>
     pub fn new<Sd: Seed<T>>(sd: &Sd, w: T, n: T, m: T, r: T, a: T,
                             u_d: (T, T), s_b: (T, T), t_c: (T, T), l: T, f: T) -> Result<Self> {
         if w == T::default() || m == T::default() || r == T::default() || a == T::default() || 
-            u_d == (T::default(), T::default()) || s_b == (T::default(), T::default()) ||
-            t_c == (T::default(), T::default()) || l == T::default() || f == T::default() {
+            u_d.0 == T::default() || u_d.1 == T::default() || s_b.0 == T::default() || s_b.1 == T::default() ||
+            t_c.0 == T::default() || t_c.1 == T::default() || l == T::default() || f == T::default() {
             Err(RandError::new(RandErrKind::InvalidRngPara, format!("all parameters cannot be the {:?}", T::default())))
         } else if  m > n {
             Err(RandError::new(RandErrKind::InvalidRngPara, "m must be satisfy the relation: m <= n"))
-- 
2.43.0


From 700ed787f3936d6c42d735c0bd52d0728bcf489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 06/27] fix: subtract-with-carry comparison overflowed for a
 full-width word

---
 src/rand/lagged_fibonacci_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/lagged_fibonacci_rand.rs b/src/rand/lagged_fibonacci_rand.rs
index 02e9a21..5116bb0 100644
--- a/src/rand/lagged_fibonacci_rand.rs
+++ b/src/rand/lagged_fibonacci_rand.rs
@@ -99,7 +99,7 @@ macro_rules! lfr_impl {
                 let ps = if self.idx < self.short_lag {(self.long_lag + self.idx) - self.short_lag} else {self.idx - self.short_lag} as usize;
                 let idx = self.idx as usize;
                 let carry = self.carry;
-                let xi = if self.state[ps] >= (self.state[idx] + self.carry) {
+                let xi = if self.state[ps] > self.state[idx] || (self.state[ps] == self.state[idx] && carry == 0) {
                     self.carry = 0;
                     (self.state[ps].overflowing_sub(self.state[idx]).0).overflowing_sub(carry).0
                 } else {
-- 
2.43.0


From 3f48d9326636b7d3b30d2d9128d324f2bac08731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:12 +0000
Subject: [PATCH 07/27] fix: a cloned kernel random source must not replay the
 original's pending bytes

---
 src/os/linux/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/os/linux/mod.rs b/src/os/linux/mod.rs
index a263141..f6eb89d 100644
--- a/src/os/linux/mod.rs
+++ b/src/os/linux/mod.rs
@@ -21,11 +21,17 @@ extern "C" {
     fn syscall(num: c_long, ...) -> c_long;
 }
 
-#[derive(Clone)]
 pub struct BCrypt {
     buf: VecDeque<u8>,
 }
 
+impl Clone for BCrypt {
+    /// the bytes that have not been delivered yet stay with the original
+    fn clone(&self) -> Self {
+        Self::new()
+    }
+}
+
 impl BCrypt {
     pub fn new() -> Self {
         Self {
-- 
2.43.0


From f52695edb7cf9d895a9aca8c3cdad819ba54ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:13 +0000
Subject: [PATCH 08/27] fix: a random natural number must not keep leading zero
 words

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 4527ef1..06d8589 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -839,6 +839,7 @@ impl Nat {
                 None => {},
             }
 
+            n.trim_head_zero();
             if &*n< self {
                 break;
             }
-- 
2.43.0


From f54264453afd2ce5327b84bb3667346c00b523ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:13 +0000
Subject: [PATCH 09/27] fix: Miller-Rabin must not use 0 as the base, it
 rejects primes

---
 src/bigint/nat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 06d8589..0e9d917 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -902,7 +902,9 @@ impl Nat {
         let mut buf = Nat::with_capacity(self.num());
         
         for _ in 0..s {
-            self.random_inner(&mut a, rng);
+            // the base must belong to [1, self-1], the base 0 declares every number to be composite
+            n_m1.random_inner(&mut a, rng);
+            a.add_inner_basic(&1);
             let mut tmp = a.exp(&u, self);
             if tmp.miller_rabin_witness(self, t, &n_m1, &mut buf) {
                 return false;
-- 
2.43.0


From 3a336d838f8fec3e2567f679339908f64b55e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:13 +0000
Subject: [PATCH 10/27] fix: generate_prime must not panic or shorten the
 candidate when the source fails

---
 src/bigint/nat.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 0e9d917..cf0a9fb 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -1973,8 +1973,12 @@ impl Nat {
         let mut p = Nat::with_capacity(len);
         loop {
             p.as_mut_vec().clear();
-            for x in rng.iter_mut().take(len) {
-                p.as_mut_vec().push(x);
+            let mut itr = rng.iter_mut();
+            while p.num() < len {
+                match itr.next() {
+                    Some(x) => p.as_mut_vec().push(x),
+                    None => itr.clear_error(),
+                }
             }
             
             // 清除大于bits_len的位;
-- 
2.43.0


From 6dc97989ccbf1752fef58a0c619f2c69d9d9c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:13 +0000
Subject: [PATCH 11/27] fix: a remainder by a modulus that shares the storage
 never ended

---
 src/bigint/nat.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index cf0a9fb..f642dd6 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -557,6 +557,12 @@ impl Nat {
     pub(super) fn rem_inner(&mut self, rhs: &Self) {
         assert_ne!(rhs, &0u32, "The modulus must not be 0");
 
+        if self.nat.as_ptr() == rhs.nat.as_ptr() {
+            self.clear();
+            self.as_mut_vec().push(0);
+            return;
+        }
+
         if self.partial_cmp_inner(rhs) == Ordering::Less {
             return;
         }
-- 
2.43.0


From 955c1dfff21a0c059f3162395aacb25e90ecbee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:13 +0000
Subject: [PATCH 12/27] fix: right shift by a multiple of the word size or with
 a vanishing top word

---
 src/bigint/nat.rs | 34 +++++++---------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index f642dd6..9f4e42a 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -467,36 +467,16 @@ impl Nat {
             return;
         }
 
-        let lhs = self.clone();
-        let mut pre = 0;
+        v.drain(..num);
         if nom > 0 {
-            let mask_h: u32 = ((1 << nom) - 1) << nom_c;
-            let mask_l: u32 = (1 << nom_c) - 1;
-            let mut itr = lhs.iter().skip(num);
-            match itr.next() { 
-                Some(x) => pre = *x >> nom,
-                None => {},
-            };
-            v.iter_mut().zip(itr).for_each(|(a, &b)| {
-                let r = b.rotate_right(nom);
-                *a = (r & mask_h) | pre;
-                pre = r & mask_l;
+            let mut pre = 0;
+            v.iter_mut().rev().for_each(|a| {
+                let tmp = *a << nom_c;
+                *a = (*a >> nom) | pre;
+                pre = tmp;
             });
         }
-        v.truncate(v.len() - num);
-        if pre > 0 {
-            match v.last_mut() {
-                Some(x) => *x = pre,
-                _ => {},
-            };
-        } else {
-            if nom > 0 && num == 0 {
-                v.pop();
-                if v.len() == 0 {
-                    v.push(0);
-                }
-            }
-        }
+        Self::trim_head_zero_(v);
     }
     
     #[inline]
-- 
2.43.0


From f9f5b6fba1073bc057ec58861b36b5528425d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:13 +0000
Subject: [PATCH 13/27] fix: subtracting a word left a leading zero word

---
 src/bigint/nat_amd64.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat_amd64.rs b/src/bigint/nat_amd64.rs
index 76200b2..c5a2b3c 100644
--- a/src/bigint/nat_amd64.rs
+++ b/src/bigint/nat_amd64.rs
@@ -92,6 +92,7 @@ impl Nat {
     pub(super) fn sub_inner_basic(&mut self, rhs: &u32) {
         if self.num() > 1 {
             unsafe {self.sub_inner_basic_by_sbb(*rhs)};
+            self.trim_head_zero();
         } else {
             match self.as_mut_vec().last_mut() {
                 Some(x) => {
-- 
2.43.0


From ea2eb3f6e3f4e1637ccaf986456ba4d3d81a8070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:13 +0000
Subject: [PATCH 14/27] fix: multiplying by a word left a leading zero word

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 9f4e42a..cf111c4 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -621,6 +621,7 @@ impl Nat {
         } else {
             self.as_mut_vec().push(pre as u32);
         }
+        self.trim_head_zero();
     }
     
     pub(super) fn div_inner_basic(&mut self, rhs: &u32) {
-- 
2.43.0


From 6f64ca37d9f214fee7caae150c44c213aa3d67d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:13 +0000
Subject: [PATCH 15/27] fix: shifting 0 to the left left leading zero words

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index cf111c4..0211ca5 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -453,6 +453,7 @@ impl Nat {
             v.resize(v.len() + num, 0);
             v.rotate_right(num);
         }
+        Self::trim_head_zero_(v);
     }
 
     pub(super) fn shr_inner(&mut self, rhs: &usize) {
-- 
2.43.0


From 90ea933a64dd7c66b94fe30fcd4d889bbcba9920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:33 +0000
Subject: [PATCH 16/27] fix: a remainder of 0 must not be negative

---
 src/bigint/bigint.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 2b19192..1b7480a 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -465,6 +465,9 @@ impl BigInt {
     fn rem_inner(&mut self, rhs: Self) {
         assert_ne!(rhs.nat, 0u32, "the modulus can't be the 0");
         self.nat %= rhs.nat;
+        if self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn bitand_inner(&mut self, rhs: Self) {
-- 
2.43.0


From eb3d63ab350780e4b09234d54dd2a4c0c13bb08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:33 +0000
Subject: [PATCH 17/27] fix: a quotient of 0 must not be negative

---
 src/bigint/bigint.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 1b7480a..d95aa69 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -451,6 +451,9 @@ impl BigInt {
             },
         };
         self.nat /= rhs.nat;
+        if self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn mul_inner(&mut self, rhs: Self) {
-- 
2.43.0


From 58a87e0893cbe909157fbebb16fa3c67dd2c33d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:33 +0000
Subject: [PATCH 18/27] fix: the bitwise or of a natural and a negative integer
 took the operands in the wrong order

---
 src/bigint/bigint.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index d95aa69..eef3463 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -516,16 +516,14 @@ impl BigInt {
                 self.sign = Natural;
             }
         } else {
-            let rhs1 = if self.sign == Negative {
-                let rhs1 = self.nat.clone() - 1u32;
-                self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
-                rhs1
+            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(((y-1) &^ x) + 1)
+            let nat = if self.sign == Negative {
+                (self.nat.clone() - 1u32).and_not(rhs.nat)
             } else {
-                rhs.nat - 1u32
+                (rhs.nat - 1u32).and_not(self.nat.clone())
             };
-            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(^((y-1) &^ x) + 1)
-            self.nat.and_not_assign(rhs1);
+            self.nat.clear();
+            self.nat.as_mut_vec().extend(nat.iter());
             self.nat += 1u32;
             self.sign = if self.nat.is_nan() {Natural} else {Negative};
         }
-- 
2.43.0


From 2651e5bed9a4cfcfce71e85791fdf16de8518a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:33 +0000
Subject: [PATCH 19/27] fix: and_not of two negative integers took the operands
 in the wrong order

---
 src/bigint/bigint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index eef3463..468c64b 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -541,9 +541,9 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) &^ (-y) == ^(x-1) &^ ^(y-1) == ^(x-1) & (y-1) == (y-1) &^ (x-1)
-                self.nat -= 1u32;
-                let rhs1 = rhs.nat - 1u32;
-                self.nat.and_not_assign(rhs1);
+                let nat = (rhs.nat - 1u32).and_not(self.nat.clone() - 1u32);
+                self.nat.clear();
+                self.nat.as_mut_vec().extend(nat.iter());
                 self.sign = Natural;
             } else {
                 // x &^ y == x &^ y
-- 
2.43.0


From 09c64715d92cbfb4ed8e1db5f8fc025da1d5a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:33 +0000
Subject: [PATCH 20/27] fix: bit operations in place on negative integers read
 a right operand that shares the storage too late

---
 src/bigint/bigint.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 468c64b..3c58fab 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -477,8 +477,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) & (-y) == ^(x-1) & ^(y-1) == ^((x-1) | (y-1)) == -(((x-1) | (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat |= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural } else {Negative};
@@ -489,9 +489,9 @@ impl BigInt {
             }
         } else {
             let rhs1 = if self.sign == Negative {
-                let rhs1 = self.nat.clone() - 1u32;
+                let (rhs1, lhs1) = (self.nat.clone() - 1u32, rhs.nat.deep_clone());
                 self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
+                self.nat.as_mut_vec().extend(lhs1.iter());
                 rhs1
             } else {
                 rhs.nat - 1u32
@@ -505,8 +505,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) | (-y) == ^(x-1) | ^(y-1) == ^((x-1) & (y-1)) == -(((x-1) & (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat &= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural} else {Negative};
@@ -552,8 +552,9 @@ impl BigInt {
         } else {
             if self.sign == Negative {
                 // (-x) &^ y == ^(x-1) &^ y == ^(x-1) & ^y == ^((x-1) | y) == -(((x-1) | y) + 1)
+                let rhs1 = rhs.nat.deep_clone();
                 self.nat -= 1u32;
-                self.nat |= rhs.nat;
+                self.nat |= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural} else {Negative};
             } else {
@@ -576,8 +577,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) ^ (-y) == ^(x-1) ^ ^(y-1) == (x-1) ^ (y-1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat ^= rhs1;
                 self.sign = Natural;
             } else {
@@ -587,9 +588,9 @@ impl BigInt {
             }
         } else {
             let rhs1 = if self.sign == Negative {
-                let rhs1 = self.nat.clone() - 1u32;
+                let (rhs1, lhs1) = (self.nat.clone() - 1u32, rhs.nat.deep_clone());
                 self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
+                self.nat.as_mut_vec().extend(lhs1.iter());
                 rhs1
             } else {
                 rhs.nat - 1u32
-- 
2.43.0


From 4de26129b1edf91ea5a516b4d6f4e7d5da4c58f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:34 +0000
Subject: [PATCH 21/27] fix: set_mant_exp lost the mantissa when the argument
 shares the storage

---
 src/bigint/float.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index ebbe717..18b3307 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -245,8 +245,9 @@ impl Float {
         self.neg = mant.neg;
         self.prec = mant.prec;
         self.exp = mant.exp;
+        let m = mant.mant.deep_clone();
         self.mant.clear();
-        self.mant.as_mut_vec().extend(mant.mant.iter());
+        self.mant.as_mut_vec().extend(m.iter());
         
         if self.form.is_finite() {
             self.set_exp_and_round(self.exp.saturating_add(exp), 0);
-- 
2.43.0


From 513f1d9879d948b5e4e8e6305bca9904fb60cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:25 +0000
Subject: [PATCH 22/27] fix: exponentiation of 0 or 1 overflowed a shift when
 the top word of the exponent is 1

---
 src/bigint/nat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 0211ca5..9e51e98 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -1796,7 +1796,7 @@ impl Nat {
 
         let mut v = *b.as_vec().last().unwrap();
         let shift = v.leading_zeros() + 1;
-        v <<= shift;
+        v = v.checked_shl(shift).unwrap_or(0);
         let mask = 1u32 << (32 - 1);
         let w = 32 - shift;
         
-- 
2.43.0


From dfb8ab056c557b21909953e59d4967b61d7bdb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:19 +0000
Subject: [PATCH 23/27] fix: gcd overflowed the stack on long numbers (one
 frame per division step)

---
 src/bigint/bigint.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 3c58fab..60b76da 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -283,12 +283,21 @@ impl BigInt {
         if rhs == 0u32 {
             (lhs, BigInt::from(1), BigInt::from(0))
         } else {
-            let rem = lhs.clone() % rhs.clone();
-            let mut div = lhs / rhs.clone();
-            let (d_p, mut x_p, y_p) = BigInt::gcd_extend(rhs, rem);
-            div.mul_inner(y_p.clone());
-            x_p.sub_inner(div);
-            (d_p, y_p, x_p)
+            // iterative: the number of division steps grows with the length of the numbers, the stack must not
+            let (a, b) = (lhs.clone(), rhs.clone());
+            let (mut d, mut rem) = (lhs, rhs);
+            let (mut x, mut x_n) = (BigInt::from(1), BigInt::from(0));
+            while rem != 0u32 {
+                let div = d.clone() / rem.clone();
+                let rem_n = d % rem.clone();
+                d = rem;
+                rem = rem_n;
+                let t = x - div * x_n.clone();
+                x = x_n;
+                x_n = t;
+            }
+            let y = (d.clone() - a * x.clone()) / b;
+            (d, x, y)
         }
     }
 
-- 
2.43.0


From 360311721f5c9b04870c3156fe0518ed0e11bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:31 +0000
Subject: [PATCH 24/27] fix: the sign of the base is applied twice in exp with
 a negative exponent

---
 src/bigint/bigint.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 60b76da..e41416f 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -660,7 +660,7 @@ impl BigInt {
             return BigInt::nan();
         }
         
-        let mut xwords = self.nat.clone();
+        let (mut xwords, mut is_lhs_neg) = (self.nat.clone(), self.is_negative());
         if b.is_negative() {
             if n == &0u32 {
                 return BigInt::from(1u32);
@@ -672,13 +672,15 @@ impl BigInt {
                 return inv;
             }
             
+            // the inverse is already reduced to [0, |n|), it carries no sign
             xwords = inv.nat.clone();
+            is_lhs_neg = false;
         }
         
         let ywords = b.nat.clone();
         let mwords = n.nat.clone();
         let mut e = xwords.exp(&ywords, &mwords);
-        let is_neg = if !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && self.is_negative() && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
+        let is_neg = if !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && is_lhs_neg && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
             && (ywords.as_vec()[0] & 1 == 1) {
             true
         } else {
-- 
2.43.0


From 3e5f2e834069518857abcf901db5d94b20c10d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:20 +0000
Subject: [PATCH 25/27] fix: Rat::to_f32 of zero panicked

---
 src/bigint/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 4d1cd0a..7cd555b 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -163,7 +163,7 @@ impl Rat {
         let (emin, _emax) = (1 - ebias, ebias);
         
         if a == 0u32 {
-            (0f32, true);
+            return (0f32, true);
         }
         
         let (alen, blen) = (a.bits_len() as isize, b.bits_len() as isize);
-- 
2.43.0


From 469242e75cfaff2dfac101c4dc157025d4f238c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:20 +0000
Subject: [PATCH 26/27] fix: Rat::to_f32 and to_f64 called an underflow to zero
 exact

---
 src/bigint/rat.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 7cd555b..d6155d5 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -226,7 +226,8 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1) as f32;
-        if f.is_infinite() {
+        // a number that is not zero is not exactly the zero it underflows to
+        if f.is_infinite() || f == 0.0 {
             (f, false)
         } else {
             (f, exact)
@@ -313,7 +314,8 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1);
-        if f.is_infinite() {
+        // a number that is not zero is not exactly the zero it underflows to
+        if f.is_infinite() || f == 0.0 {
             (f, false)
         } else {
             (f, exact)
-- 
2.43.0


From 74d98c6c5e42a263fa4061f7e28af22f4b82c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:20 +0000
Subject: [PATCH 27/27] fix: Rat::from_f64 divided by the power of two it
 should multiply with from 2^53 on

---
 src/bigint/rat.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index d6155d5..bc37f71 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -99,8 +99,11 @@ impl Rat {
             let mut a= BigInt::from(mantissa);
             a.sign = BISign::from(f < 0f64);
             let mut b = BigInt::from(1u32);
-            let s = if shift > 0 {shift as usize} else {(-shift) as usize};
-            b.nat.shl_inner(&s);
+            if shift > 0 {
+                b.nat.shl_inner(&(shift as usize));
+            } else {
+                a.nat.shl_inner(&((-shift) as usize));
+            }
             
             let mut z = Rat {a, b};
             z.norm();
-- 
2.43.0

