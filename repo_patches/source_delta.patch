From 6737b057b96c68e3ca385a301a999c11b3f1f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:02 +0000
Subject: [PATCH 01/42] fix: trim leading zero limbs after subtracting a word
 from a Nat

---
 src/bigint/nat_amd64.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat_amd64.rs b/src/bigint/nat_amd64.rs
index 76200b2..6eb0799 100644
--- a/src/bigint/nat_amd64.rs
+++ b/src/bigint/nat_amd64.rs
@@ -112,6 +112,7 @@ impl Nat {
             c = march::_subborrow_u32(c, *x, rhs, x);
             rhs = 0;
         });
+        self.trim_head_zero();
     }
     
     
-- 
2.43.0


From 480555be27eb537d9144fabcf11e18cfb291d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:02 +0000
Subject: [PATCH 02/42] fix: trim leading zero limbs after multiplying a Nat by
 a word

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 4527ef1..65fc09c 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -635,6 +635,7 @@ impl Nat {
         } else {
             self.as_mut_vec().push(pre as u32);
         }
+        self.trim_head_zero();
     }
     
     pub(super) fn div_inner_basic(&mut self, rhs: &u32) {
-- 
2.43.0


From 5937544f809273dcc376bcdb36959a36c0874f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:02 +0000
Subject: [PATCH 03/42] fix: shifting a zero Nat left by 32 or more stays zero

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 65fc09c..c154fca 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -453,6 +453,7 @@ impl Nat {
             v.resize(v.len() + num, 0);
             v.rotate_right(num);
         }
+        self.trim_head_zero();
     }
 
     pub(super) fn shr_inner(&mut self, rhs: &usize) {
-- 
2.43.0


From 81e3041c7270336d8bd140d2294493be35dd8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:02 +0000
Subject: [PATCH 04/42] fix: Nat right shift by 32 or more bits dropped the
 wrong limbs

---
 src/bigint/nat.rs | 35 ++++++++---------------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index c154fca..b005499 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -468,36 +468,17 @@ impl Nat {
             return;
         }
 
-        let lhs = self.clone();
-        let mut pre = 0;
+        // drop the low limbs first, then move the remaining bits down
+        v.drain(..num);
         if nom > 0 {
-            let mask_h: u32 = ((1 << nom) - 1) << nom_c;
-            let mask_l: u32 = (1 << nom_c) - 1;
-            let mut itr = lhs.iter().skip(num);
-            match itr.next() { 
-                Some(x) => pre = *x >> nom,
-                None => {},
-            };
-            v.iter_mut().zip(itr).for_each(|(a, &b)| {
-                let r = b.rotate_right(nom);
-                *a = (r & mask_h) | pre;
-                pre = r & mask_l;
+            let mut pre = 0;
+            v.iter_mut().rev().for_each(|a| {
+                let tmp = *a;
+                *a = (tmp >> nom) | pre;
+                pre = tmp << nom_c;
             });
         }
-        v.truncate(v.len() - num);
-        if pre > 0 {
-            match v.last_mut() {
-                Some(x) => *x = pre,
-                _ => {},
-            };
-        } else {
-            if nom > 0 && num == 0 {
-                v.pop();
-                if v.len() == 0 {
-                    v.push(0);
-                }
-            }
-        }
+        self.trim_head_zero();
     }
     
     #[inline]
-- 
2.43.0


From 1ec5d59d1980a67c20fdc18c5542e83b2c88a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:02 +0000
Subject: [PATCH 05/42] fix: Nat and_not propagates NaN of the right operand

---
 src/bigint/nat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index b005499..ace3700 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -251,6 +251,11 @@ impl Nat {
     }
     
     pub fn and_not_assign(&mut self, rhs: Nat) {
+        if self.is_nan() || rhs.is_nan() {
+            self.clear();
+            return;
+        }
+        
         self.iter_mut().zip(rhs.iter()).for_each(|(x, &y) | {
             *x = (*x) & (!y);
         });
-- 
2.43.0


From 9fd457240b1006b47a3b00f21f16efaa8db39b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:02 +0000
Subject: [PATCH 06/42] fix: Nat %= with a clone of itself

---
 src/bigint/nat.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index ace3700..3f98a6b 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -544,6 +544,12 @@ impl Nat {
     pub(super) fn rem_inner(&mut self, rhs: &Self) {
         assert_ne!(rhs, &0u32, "The modulus must not be 0");
 
+        if self.nat.as_ptr() == rhs.nat.as_ptr() {
+            self.clear();
+            self.as_mut_vec().push(0);
+            return;
+        }
+
         if self.partial_cmp_inner(rhs) == Ordering::Less {
             return;
         }
-- 
2.43.0


From 4153cc36ba3805984dfab25f2859615f137773f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:02 +0000
Subject: [PATCH 07/42] fix: Nat exp overflowed a shift when the top limb of
 the exponent is 1

---
 src/bigint/nat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 3f98a6b..e451221 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -1799,7 +1799,7 @@ impl Nat {
 
         let mut v = *b.as_vec().last().unwrap();
         let shift = v.leading_zeros() + 1;
-        v <<= shift;
+        v = v.checked_shl(shift).unwrap_or(0);
         let mask = 1u32 << (32 - 1);
         let w = 32 - shift;
         
-- 
2.43.0


From 725a03a0fc549300ee2a58160d94386473c3e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:02 +0000
Subject: [PATCH 08/42] fix: Nat random result may have leading zero limbs

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index e451221..63e78b7 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -832,6 +832,7 @@ impl Nat {
                 Some(x) => *x &= mask,
                 None => {},
             }
+            n.trim_head_zero();
 
             if &*n< self {
                 break;
-- 
2.43.0


From eaa769d4cc8e44876cb2b4549a50427472d396ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 09/42] fix: BigInt quotient and remainder could be negative
 zero

---
 src/bigint/bigint.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 2b19192..3ae1688 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -451,6 +451,9 @@ impl BigInt {
             },
         };
         self.nat /= rhs.nat;
+        if self.is_nan() || self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn mul_inner(&mut self, rhs: Self) {
@@ -465,6 +468,9 @@ impl BigInt {
     fn rem_inner(&mut self, rhs: Self) {
         assert_ne!(rhs.nat, 0u32, "the modulus can't be the 0");
         self.nat %= rhs.nat;
+        if self.is_nan() || self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn bitand_inner(&mut self, rhs: Self) {
-- 
2.43.0


From 646bdce95e06ca4aea7eef383d97b098c6e4f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 10/42] fix: BigInt or of operands with different signs

---
 src/bigint/bigint.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 3ae1688..0e9b34e 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -524,8 +524,10 @@ impl BigInt {
             } else {
                 rhs.nat - 1u32
             };
-            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(^((y-1) &^ x) + 1)
-            self.nat.and_not_assign(rhs1);
+            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(((y-1) &^ x) + 1)
+            let res = rhs1.and_not(self.nat.clone());
+            self.nat.clear();
+            self.nat.as_mut_vec().extend(res.iter());
             self.nat += 1u32;
             self.sign = if self.nat.is_nan() {Natural} else {Negative};
         }
-- 
2.43.0


From 183120f0da333d2ac3d6359d4da19bcb5f7e69ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 11/42] fix: BigInt and_not of two negative operands

---
 src/bigint/bigint.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 0e9b34e..a0850ca 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -545,9 +545,10 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) &^ (-y) == ^(x-1) &^ ^(y-1) == ^(x-1) & (y-1) == (y-1) &^ (x-1)
-                self.nat -= 1u32;
-                let rhs1 = rhs.nat - 1u32;
-                self.nat.and_not_assign(rhs1);
+                let lhs1 = self.nat.clone() - 1u32;
+                let res = (rhs.nat - 1u32).and_not(lhs1);
+                self.nat.clear();
+                self.nat.as_mut_vec().extend(res.iter());
                 self.sign = Natural;
             } else {
                 // x &^ y == x &^ y
-- 
2.43.0


From 4fcbf160d692aa9a8297cfa44ccdb5aea912d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 12/42] fix: BigInt binary formatting without # printed the
 prefix

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index a0850ca..8480b62 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -1067,7 +1067,7 @@ bigint_fmt_impl!(
     (LowerHex, "{:#x}", "{:x}"),
     (UpperHex, "{:#X}", "{:X}"),
     (Debug, "{:#?}", "{:?}"),
-    (Binary, "{:#b}", "{:#b}")
+    (Binary, "{:#b}", "{:b}")
 );
 
 impl AsRef<Nat> for BigInt {
-- 
2.43.0


From 4d84027335d8eef8ec7dd06d5bcb894ea364f455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 13/42] fix: BigInt assigning bitwise operators with an operand
 sharing their storage

---
 src/bigint/bigint.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 8480b62..c8de436 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -477,8 +477,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) & (-y) == ^(x-1) & ^(y-1) == ^((x-1) | (y-1)) == -(((x-1) | (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat |= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural } else {Negative};
@@ -490,8 +490,9 @@ impl BigInt {
         } else {
             let rhs1 = if self.sign == Negative {
                 let rhs1 = self.nat.clone() - 1u32;
+                let rhs0 = rhs.nat.deep_clone();
                 self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
+                self.nat.as_mut_vec().extend(rhs0.iter());
                 rhs1
             } else {
                 rhs.nat - 1u32
@@ -505,8 +506,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) | (-y) == ^(x-1) | ^(y-1) == ^((x-1) & (y-1)) == -(((x-1) & (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat &= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural} else {Negative};
@@ -518,8 +519,9 @@ impl BigInt {
         } else {
             let rhs1 = if self.sign == Negative {
                 let rhs1 = self.nat.clone() - 1u32;
+                let rhs0 = rhs.nat.deep_clone();
                 self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
+                self.nat.as_mut_vec().extend(rhs0.iter());
                 rhs1
             } else {
                 rhs.nat - 1u32
@@ -557,8 +559,9 @@ impl BigInt {
         } else {
             if self.sign == Negative {
                 // (-x) &^ y == ^(x-1) &^ y == ^(x-1) & ^y == ^((x-1) | y) == -(((x-1) | y) + 1)
+                let rhs0 = rhs.nat.deep_clone();
                 self.nat -= 1u32;
-                self.nat |= rhs.nat;
+                self.nat |= rhs0;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural} else {Negative};
             } else {
@@ -581,8 +584,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) ^ (-y) == ^(x-1) ^ ^(y-1) == (x-1) ^ (y-1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat ^= rhs1;
                 self.sign = Natural;
             } else {
@@ -593,8 +596,9 @@ impl BigInt {
         } else {
             let rhs1 = if self.sign == Negative {
                 let rhs1 = self.nat.clone() - 1u32;
+                let rhs0 = rhs.nat.deep_clone();
                 self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
+                self.nat.as_mut_vec().extend(rhs0.iter());
                 rhs1
             } else {
                 rhs.nat - 1u32
-- 
2.43.0


From 47510495059fd1f8b67659f451ed8668fe0a79db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 14/42] fix: BigInt mul_range overflowed for i64::MIN and wide
 ranges

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index c8de436..07f87c0 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -624,7 +624,7 @@ impl BigInt {
             BigInt::from(0u32)
         } else {
             let (is_neg, a, b) = if a < 0 {
-                (((b - a) & 1) == 0, (-b as u64), (-a as u64))
+                ((b.wrapping_sub(a) & 1) == 0, b.wrapping_neg() as u64, a.wrapping_neg() as u64)
             } else {
                 (false, a as u64, b as u64)
             };
-- 
2.43.0


From 30165330e427d2ae4c866f014ace30e3973018ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 15/42] fix: BigInt is_set_bit of negative powers of two at
 their top bit

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 07f87c0..e6aaa3d 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -704,7 +704,7 @@ impl BigInt {
     pub fn is_set_bit(&self, i: usize) -> Option<bool> {
         if self.sign == Negative {
             let t = self.nat.clone() - 1u32;
-            t.is_set_bit(i).map(|b| {!b})
+            self.nat.is_set_bit(i).map(|_| t.is_set_bit(i) != Some(true))
         } else {
             self.nat.is_set_bit(i)
         }
-- 
2.43.0


From 5edad992a380c0328e75372f79aeca2f6cc912fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 16/42] fix: BigInt exp negated twice for a negative base and
 exponent

---
 src/bigint/bigint.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index e6aaa3d..c13b39c 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -660,6 +660,7 @@ impl BigInt {
         }
         
         let mut xwords = self.nat.clone();
+        let mut is_base_neg = self.is_negative();
         if b.is_negative() {
             if n == &0u32 {
                 return BigInt::from(1u32);
@@ -671,13 +672,15 @@ impl BigInt {
                 return inv;
             }
             
+            // the inverse is already the natural residue
             xwords = inv.nat.clone();
+            is_base_neg = false;
         }
         
         let ywords = b.nat.clone();
         let mwords = n.nat.clone();
         let mut e = xwords.exp(&ywords, &mwords);
-        let is_neg = if !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && self.is_negative() && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
+        let is_neg = if !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && is_base_neg && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
             && (ywords.as_vec()[0] & 1 == 1) {
             true
         } else {
-- 
2.43.0


From f6dc3608df102ad68e0614dd20ba8131bffb4dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:06 +0000
Subject: [PATCH 17/42] fix: parsing a radix prefix without digits gave NaN
 instead of an error

---
 src/bigint/nat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 63e78b7..b788f52 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -2096,6 +2096,9 @@ impl FromStr for Nat {
         let s = s.trim();
         let (i, base) = Self::check_base(s)?;
         let s = &s[i..];
+        if s.is_empty() {
+            return Err(NatError::new(BeginWithIllegalChar, "no digit after the radix prefix"));
+        }
         
         match base {
             2 => Self::from_bin_str(s),
-- 
2.43.0


From 15acf0feb342da8537195fe63294c38d3b1926fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 18/42] fix: Miller-Rabin rejected primes when the random base
 was 0

---
 src/bigint/nat.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index b788f52..330f31f 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -897,6 +897,10 @@ impl Nat {
         
         for _ in 0..s {
             self.random_inner(&mut a, rng);
+            // 0 says nothing about the primality
+            while a == 0u32 {
+                self.random_inner(&mut a, rng);
+            }
             let mut tmp = a.exp(&u, self);
             if tmp.miller_rabin_witness(self, t, &n_m1, &mut buf) {
                 return false;
-- 
2.43.0


From 07347ee3de990a3357c2ff14523ecf1cfd008652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 19/42] fix: generate_prime panicked or used too few words when
 the random source reports an error

---
 src/bigint/nat.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 330f31f..51e8899 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -1969,8 +1969,12 @@ impl Nat {
         let mut p = Nat::with_capacity(len);
         loop {
             p.as_mut_vec().clear();
-            for x in rng.iter_mut().take(len) {
-                p.as_mut_vec().push(x);
+            let mut itr = rng.iter_mut();
+            while p.as_vec().len() < len {
+                match itr.next() {
+                    Some(x) => p.as_mut_vec().push(x),
+                    None => itr.clear_error(),
+                }
             }
             
             // 清除大于bits_len的位;
-- 
2.43.0


From ac33e9aaff74b97a8fb43c3a6cd7adeebe7398d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:17 +0000
Subject: [PATCH 20/42] fix: BigInt binomial overflowed for n = i64::MAX and k
 = 0 or n

---
 src/bigint/bigint.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index c13b39c..a406c77 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -642,6 +642,9 @@ impl BigInt {
         if (n >> 1) < k && k <= n {
             k = n - k;
         }
+        if k == 0 {
+            return BigInt::from(1u32);
+        }
         
         let mut a = Self::mul_range(n-k+1, n);
         let b = Self::mul_range(1, k);
-- 
2.43.0


From 3827044f7fc41c5aaca1e8c2bda4746a01a9a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:34 +0000
Subject: [PATCH 21/42] fix: Rat from_frac overflowed for isize::MIN

---
 src/bigint/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 4d1cd0a..4f1d2de 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -47,8 +47,8 @@ impl Rat {
             Err(RatError::new(RatErrKind::DenominatorIsZero, ""))
         } else {
             let mut z = Rat {
-                a: if denominator < 0 {BigInt::from(-numerator)} else {BigInt::from(numerator)},
-                b: BigInt::from(denominator.abs()),
+                a: if denominator < 0 {-BigInt::from(numerator)} else {BigInt::from(numerator)},
+                b: BigInt::from(denominator).abs(),
             };
             z.norm();
             Ok(z)
-- 
2.43.0


From ed4d065c09c44b3ac50b207deaffa816aa14bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:34 +0000
Subject: [PATCH 22/42] fix: Rat from_frac_bigint took a NaN denominator for 1

---
 src/bigint/rat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 4f1d2de..adde7bc 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -58,6 +58,8 @@ impl Rat {
     pub fn from_frac_bigint(numerator: &BigInt, denominator: &BigInt) -> Result<Rat, RatError> {
         if denominator.nat == 0u32 {
             Err(RatError::new(RatErrKind::DenominatorIsZero, ""))
+        } else if numerator.is_nan() || denominator.is_nan() {
+            Ok(Self::nan())
         } else {
             let mut z = Rat {
                 a: if denominator.sign == Negative {BigInt::from(-numerator.clone())} else {BigInt::from(numerator.deep_clone())},
-- 
2.43.0


From 5ae4fad8f940f50b4b6d246a36fc2aea6c3e01d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:34 +0000
Subject: [PATCH 23/42] fix: Rat from_f64 of numbers from 2^53 on

---
 src/bigint/rat.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index adde7bc..bf048d6 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -101,8 +101,11 @@ impl Rat {
             let mut a= BigInt::from(mantissa);
             a.sign = BISign::from(f < 0f64);
             let mut b = BigInt::from(1u32);
-            let s = if shift > 0 {shift as usize} else {(-shift) as usize};
-            b.nat.shl_inner(&s);
+            if shift > 0 {
+                b.nat.shl_inner(&(shift as usize));
+            } else {
+                a.nat.shl_inner(&((-shift) as usize));
+            }
             
             let mut z = Rat {a, b};
             z.norm();
-- 
2.43.0


From f2f06eeba0bd9864e7f854ed03576d81f3f1dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:34 +0000
Subject: [PATCH 24/42] fix: Rat to_f32 of zero panicked

---
 src/bigint/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index bf048d6..6d616ca 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -168,7 +168,7 @@ impl Rat {
         let (emin, _emax) = (1 - ebias, ebias);
         
         if a == 0u32 {
-            (0f32, true);
+            return (0f32, true);
         }
         
         let (alen, blen) = (a.bits_len() as isize, b.bits_len() as isize);
-- 
2.43.0


From 94ffc1e22b6d1aea3151470017fe076a3cd64c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:34 +0000
Subject: [PATCH 25/42] fix: Rat to_f32 and to_f64 reported an underflow to
 zero as exact

---
 src/bigint/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 6d616ca..186599a 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -231,7 +231,7 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1) as f32;
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0.0 {
             (f, false)
         } else {
             (f, exact)
@@ -318,7 +318,7 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1);
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0.0 {
             (f, false)
         } else {
             (f, exact)
-- 
2.43.0


From bf1a35c43be2c5f56aa148ee1954a6ba2566cf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:34 +0000
Subject: [PATCH 26/42] fix: Rat zero kept its denominator, even a negative one

---
 src/bigint/rat.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 186599a..fdb11b6 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -338,6 +338,10 @@ impl Rat {
             t = false;
         }
         
+        if self.a.nat == 0u32 {
+            self.b = BigInt::from(1u32);
+        }
+        
         if t {
             let neg = self.a.sign;
             self.a.sign = Natural;
-- 
2.43.0


From 3ec9a180eb2be17c203802e1fcc35a54e2e9ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:34 +0000
Subject: [PATCH 27/42] fix: Rat parsing did not reduce the fraction

---
 src/bigint/rat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index fdb11b6..705c9de 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -732,7 +732,9 @@ impl FromStr for Rat {
             } else {
                 a.sign = BISign::from(a.sign != b.sign);
                 b.sign = Natural;
-                Ok(Rat {a, b})
+                let mut z = Rat {a, b};
+                z.norm();
+                Ok(z)
             }
         }
     }
-- 
2.43.0


From b23c3e20521b376f50a3bb6064ba617dcbc1d573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:48 +0000
Subject: [PATCH 28/42] fix: Float from i64::MIN overflowed

---
 src/bigint/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index ebbe717..9f51fbe 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -317,7 +317,7 @@ impl Float {
     }
     
     fn set_i64(&mut self, x: i64) {
-        self.set_bits(x < 0, x.abs() as u64)
+        self.set_bits(x < 0, x.wrapping_abs() as u64)
     }
     
     fn set_f64(&mut self, x: f64) {
-- 
2.43.0


From 94c85265ede8f58646945de66785d1ae7993b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 29/42] fix: Float division dropped the low quotient words

---
 src/bigint/float.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 9f51fbe..3f86e26 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -549,9 +549,10 @@ impl Float {
         // compute adjusted x.mant such that we get enough result precision
         let d = n - (self.mant.as_vec().len() as isize) + (y.mant.as_vec().len() as isize);
         let xadj = if d > 0 {
-            let tmp = self.mant.deep_clone();
-            tmp.as_mut_vec().resize(((self.mant.as_vec().len() as isize) + d) as usize, 0);
-            tmp
+            // append the zero words below the least significant one
+            let mut words = vec![0u32; d as usize];
+            words.extend(self.mant.iter());
+            Nat::from(words)
         } else {
             self.mant.clone()
         };
-- 
2.43.0


From 3560c6cf19af7de9968ecf9df19178eb327169c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 30/42] fix: Float infinity divided by a finite number was NaN

---
 src/bigint/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 3f86e26..dd34578 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -592,7 +592,7 @@ impl Float {
             self.uquo(y)
         } else {
             self.acc = Accuracy::Exact;
-            if (self.form.is_zero() && y.form.is_zero()) || (self.form.is_infinite() && self.form.is_infinite()) {
+            if (self.form.is_zero() && y.form.is_zero()) || (self.form.is_infinite() && y.form.is_infinite()) {
                 self.form = Form::Nan;
                 self.neg = Natural;
                 // panic!("division of zero by zero or infinity by infinity");
-- 
2.43.0


From cf03dcb947482507acca2937c3a3b5377bca3eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 31/42] fix: Float sums and differences took precision and mode
 of the larger operand

---
 src/bigint/float.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index dd34578..082d839 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -999,6 +999,8 @@ impl Float {
                 } else {
                     let mut tmp = y.deep_clone();
                     tmp.neg = !self.neg;
+                    tmp.prec = self.prec;
+                    tmp.mode = self.mode;
                     tmp.usub(&*self);
                     *self = tmp;
                 }
@@ -1081,6 +1083,8 @@ impl Float {
                 } else {
                     let mut tmp = y.deep_clone();
                     tmp.neg = !self.neg;
+                    tmp.prec = self.prec;
+                    tmp.mode = self.mode;
                     tmp.usub(&*self);
                     *self = tmp;
                 }
-- 
2.43.0


From 9224bdb5be2f0abbdcd05936cde1d54c28d8e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 32/42] fix: Float 0 - y and x - Inf had the sign of the right
 operand

---
 src/bigint/float.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 082d839..223c148 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1112,7 +1112,9 @@ impl Float {
         } else {
             // ±0 - y
             // x - ±Inf
-            self.set_float(y);
+            let mut tmp = y.deep_clone();
+            tmp.neg = !y.neg;
+            self.set_float(&tmp);
         }
     }
     
-- 
2.43.0


From c858ea848418d2042018aa56afd1c35f262b2741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 33/42] fix: Float additions with a zero or infinite operand
 kept a stale accuracy or sign

---
 src/bigint/float.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 223c148..988a8fd 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1017,9 +1017,15 @@ impl Float {
             self.form = Form::Nan;
             self.neg = BISign::from(false);
             // panic!("addition of infinities with opposite signs");
+        } else if self.form.is_zero() && y.form.is_zero() {
+            // ±0 + ±0
+            self.acc = Accuracy::Exact;
+            // -0 + -0 == -0
+            self.neg = BISign::from(self.neg == Negative && y.neg == Negative);
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf + y
             // x + ±0
+            self.acc = Accuracy::Exact;
         } else {
             // ±0 + y
             // x + ±Inf
@@ -1109,6 +1115,7 @@ impl Float {
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf - y
             // x - ±0
+            self.acc = Accuracy::Exact;
         } else {
             // ±0 - y
             // x - ±Inf
-- 
2.43.0


From 1275c04259eb299440f1345dd4b86d1be58c6e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 34/42] fix: Float to_f32 and to_f64 just below the smallest
 denormal

---
 src/bigint/float.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 988a8fd..0bb96f7 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -740,9 +740,9 @@ impl Float {
                 // We handle p == 0 explicitly because it's easy and because
                 // Float.round doesn't support rounding to 0 bits of precision.
                     if self.neg == Negative {
-                        return (-f32::MIN_POSITIVE, Accuracy::Below);
+                        return (-f32::from_bits(1), Accuracy::Below);
                     } else {
-                        return (f32::MIN_POSITIVE, Accuracy::Above);
+                        return (f32::from_bits(1), Accuracy::Above);
                     }
                 }
             }
@@ -851,9 +851,9 @@ impl Float {
                     // We handle p == 0 explicitly because it's easy and because
                     // Float.round doesn't support rounding to 0 bits of precision.
                     if self.neg == Negative {
-                        return (f64::MIN_POSITIVE, Accuracy::Below);
+                        return (-f64::from_bits(1), Accuracy::Below);
                     } else {
-                        return (f64::MIN_POSITIVE, Accuracy::Above);
+                        return (f64::from_bits(1), Accuracy::Above);
                     }
                 }
             }
-- 
2.43.0


From de368ca620d00e78d9f7db79db36c85c458a6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 35/42] fix: Float from Rat ignored the precision of the
 denominator

---
 src/bigint/float.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 0bb96f7..6ab412e 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -529,6 +529,8 @@ impl Float {
                 if self.prec == 0 {
                     self.prec = std::cmp::max(a.prec, b.prec);
                 }
+                a.prec = self.prec;
+                a.mode = self.mode;
                 a /= b;
                 *self = a;
             },
-- 
2.43.0


From b71558cf3b047e074d3eba672d3b85c18a53eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 36/42] fix: Float formatting dropped digits of numbers with
 inner zeros

---
 src/bigint/decimal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/decimal.rs b/src/bigint/decimal.rs
index df6cd12..982ce6b 100644
--- a/src/bigint/decimal.rs
+++ b/src/bigint/decimal.rs
@@ -53,6 +53,8 @@ impl Decimal {
             for c in s.chars().rev() {
                 if c == '0' {
                     n -= 1;
+                } else {
+                    break;
                 }
             }
             s.chars().take(n).for_each(|c| {z.mant.push(c);});
-- 
2.43.0


From 6b5fbcf9d80a5e6ea2305f1d8ca170e5a204b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 37/42] fix: Float display of numbers below 1 panicked and of
 large numbers lost digits

---
 src/bigint/float_fmt.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 8909785..4c8de70 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -40,7 +40,6 @@ impl Float {
         }
         
         let mut decimal = Decimal::new(&self.mant, self.exp - (self.mant.bits_len() as isize));
-        decimal.round(1 + prec);
         match fmt_char {
             'e' | 'E' => {
                 decimal.round( 1 + prec);
@@ -102,7 +101,10 @@ impl Float {
         
         if prec > 0 {
             buf.push('.');
-            (0..prec).for_each(|i| {buf.push(d[(d.exp as usize) + i]);});
+            (0..prec).for_each(|i| {
+                let idx = d.exp + (i as isize);
+                buf.push(if idx < 0 {'0'} else {d[idx as usize]});
+            });
         }
     }
 }
-- 
2.43.0


From 46569f80f434e35d8d15cad12b54d0bfcd9ef631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 38/42] fix: Float parsing of leading zeros and of exponents of
 0 or more

---
 src/bigint/float_fmt.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 4c8de70..eb1a9b6 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -214,6 +214,12 @@ impl FromStr for Float {
             None => (s, 0),
         };
         
+        let (neg, s, dot_idx) = match s.as_bytes().first() {
+            Some(b'-') => (true, &s[1..], dot_idx.map(|idx| idx - 1)),
+            Some(b'+') => (false, &s[1..], dot_idx.map(|idx| idx - 1)),
+            _ => (false, s, dot_idx),
+        };
+        
         let (mut buf_nu, mut buf_de) = (String::with_capacity(s.len()), String::with_capacity(s.len()));
         let exp = match dot_idx {
             Some(idx) => {
@@ -227,15 +233,21 @@ impl FromStr for Float {
             }
         };
         
+        if buf_nu.is_empty() || !buf_nu.bytes().all(|c| c.is_ascii_digit()) {
+            return Err(FloatError::new(FloatErrKind::ParseStringWrong, "invalid digits"));
+        }
+        
+        buf_de.push('1');
         if exp < 0 {
-            buf_de.push('1');
             buf_de.push_str("0".repeat((-exp) as usize).as_str());
         } else {
             buf_nu.push_str("0".repeat(exp as usize).as_str());
         }
         
-        let numerator = match BigInt::from_str(buf_nu.as_str()) {
-            Ok(n) => n,
+        // leading zeros do not mark octal digits here
+        let digits = buf_nu.trim_start_matches('0');
+        let numerator = match BigInt::from_str(if digits.is_empty() {"0"} else {digits}) {
+            Ok(n) => if neg {-n} else {n},
             Err(e) => {
                 return Err(FloatError::new(FloatErrKind::ParseStringWrong, e));
             }
-- 
2.43.0


From d680f66046f0672e321fedf0f60725c4fb5fe0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:28 +0000
Subject: [PATCH 39/42] fix: linear congruential generator overflowed before
 taking the modulus

---
 src/rand/linear_congruential_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/linear_congruential_rand.rs b/src/rand/linear_congruential_rand.rs
index b4c67e0..7629b0f 100644
--- a/src/rand/linear_congruential_rand.rs
+++ b/src/rand/linear_congruential_rand.rs
@@ -34,7 +34,7 @@ macro_rules! lcr_calc {
     ($Type0: ty) => {
         impl Source<$Type0> for LinearCongruentialRand<$Type0> {
             fn gen(&mut self) -> Result<$Type0> {
-                let tmp = (((self.a).overflowing_mul(self.x).0).overflowing_add(self.c)).0 % self.m;
+                let tmp = (((self.a as u128) * (self.x as u128) + (self.c as u128)) % (self.m as u128)) as $Type0;
                 self.x = tmp;
                 Ok(tmp)
             }
-- 
2.43.0


From d3e3b24f76147a1e9b41b01cc57369902669e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:28 +0000
Subject: [PATCH 40/42] fix: Mersenne twister tempering shifted right instead
 of left

---
 src/rand/mersenne_twister_rand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 1ffc1b4..3126059 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -156,8 +156,8 @@ macro_rules! mtr_impl {
                 }
                 let mut z = self.state[self.idx as usize];
                 z ^= (z >> self.tempering_u) & self.tempering_d;
-                z ^= (z >> self.tempering_s) & self.tempering_b;
-                z ^= (z >> self.tempering_t) & self.tempering_c;
+                z ^= (z << self.tempering_s) & self.tempering_b;
+                z ^= (z << self.tempering_t) & self.tempering_c;
                 z ^= z >> self.shift_l;
                 
                 self.idx += 1;
-- 
2.43.0


From b1bd087d34c88662d5875eb888e72bad410b8f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:28 +0000
Subject: [PATCH 41/42] fix: lagged Fibonacci generator overflowed for words of
 the full width

---
 src/rand/lagged_fibonacci_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/lagged_fibonacci_rand.rs b/src/rand/lagged_fibonacci_rand.rs
index 02e9a21..8f11f9b 100644
--- a/src/rand/lagged_fibonacci_rand.rs
+++ b/src/rand/lagged_fibonacci_rand.rs
@@ -99,7 +99,7 @@ macro_rules! lfr_impl {
                 let ps = if self.idx < self.short_lag {(self.long_lag + self.idx) - self.short_lag} else {self.idx - self.short_lag} as usize;
                 let idx = self.idx as usize;
                 let carry = self.carry;
-                let xi = if self.state[ps] >= (self.state[idx] + self.carry) {
+                let xi = if self.state[idx].checked_add(carry).map_or(false, |y| self.state[ps] >= y) {
                     self.carry = 0;
                     (self.state[ps].overflowing_sub(self.state[idx]).0).overflowing_sub(carry).0
                 } else {
-- 
2.43.0


From 0dbe6640b2c65f5914cc2fac5198bffe2561b8e1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 42/42] fix: extended gcd overflowed the stack for long
 operands

---
 src/bigint/bigint.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index a406c77..c245983 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -280,16 +280,21 @@ impl BigInt {
     }
     
     fn gcd_extend(lhs: BigInt, rhs: BigInt) -> (BigInt, BigInt, BigInt) {
-        if rhs == 0u32 {
-            (lhs, BigInt::from(1), BigInt::from(0))
-        } else {
-            let rem = lhs.clone() % rhs.clone();
-            let mut div = lhs / rhs.clone();
-            let (d_p, mut x_p, y_p) = BigInt::gcd_extend(rhs, rem);
-            div.mul_inner(y_p.clone());
-            x_p.sub_inner(div);
-            (d_p, y_p, x_p)
+        // a loop, because the number of division steps grows with the length of the operands
+        let (mut r0, mut r1) = (lhs, rhs);
+        let (mut x0, mut x1) = (BigInt::from(1), BigInt::from(0));
+        let (mut y0, mut y1) = (BigInt::from(0), BigInt::from(1));
+        while r1 != 0u32 {
+            let div = r0.clone() / r1.clone();
+            let rem = r0 % r1.clone();
+            x0.sub_inner(div.clone() * x1.clone());
+            y0.sub_inner(div * y1.clone());
+            std::mem::swap(&mut x0, &mut x1);
+            std::mem::swap(&mut y0, &mut y1);
+            r0 = r1;
+            r1 = rem;
         }
+        (r0, x0, y0)
     }
 
     /// <<算法导论>>  
-- 
2.43.0

