From b2ab933581be2620eab711c04562ec0018e8c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 01/12] fix: negation returned its operand instead of the
 additive inverse

---
 src/field/mod_e221_3.rs   | 4 ++--
 src/field/mod_e222_117.rs | 4 ++--
 src/field/mod_e251_9.rs   | 4 ++--
 src/field/mod_e255_19.rs  | 4 ++--
 src/field/mod_e382_105.rs | 4 ++--
 src/field/mod_e383_187.rs | 4 ++--
 src/field/mod_e414_17.rs  | 4 ++--
 src/field/mod_e511_187.rs | 4 ++--
 src/field/mod_e521_1.rs   | 4 ++--
 9 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 240f852..12a7c9c 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -155,9 +155,9 @@ impl Neg for Mod_e221_3 {
     type Output = Mod_e221_3;
 
     fn neg(self) -> Mod_e221_3 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 20b568d..1dae49f 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -134,9 +134,9 @@ impl Neg for Mod_e222_117 {
     type Output = Mod_e222_117;
 
     fn neg(self) -> Mod_e222_117 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 1fef865..c7f5ac4 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -146,9 +146,9 @@ impl Neg for Mod_e251_9 {
     type Output = Mod_e251_9;
 
     fn neg(self) -> Mod_e251_9 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 9859fef..4441758 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -166,9 +166,9 @@ impl Neg for Mod_e255_19 {
     type Output = Mod_e255_19;
 
     fn neg(self) -> Mod_e255_19 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index f962198..5f86022 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -146,9 +146,9 @@ impl Neg for Mod_e382_105 {
     type Output = Mod_e382_105;
 
     fn neg(self) -> Mod_e382_105 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 1cb9823..d25e030 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -195,9 +195,9 @@ impl Neg for Mod_e383_187 {
     type Output = Mod_e383_187;
 
     fn neg(self) -> Mod_e383_187 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 038c529..a17d976 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -145,9 +145,9 @@ impl Neg for Mod_e414_17 {
     type Output = Mod_e414_17;
 
     fn neg(self) -> Mod_e414_17 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index e434408..1e62729 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -183,9 +183,9 @@ impl Neg for Mod_e511_187 {
     type Output = Mod_e511_187;
 
     fn neg(self) -> Mod_e511_187 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 146eeee..5b1b3a8 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -152,9 +152,9 @@ impl Neg for Mod_e521_1 {
     type Output = Mod_e521_1;
 
     fn neg(self) -> Mod_e521_1 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
-- 
2.43.0


From 20a3be32d96cd920e91f26c1a9842f743e3d8834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:18 +0000
Subject: [PATCH 02/12] fix: subtraction added the subtrahend's stored carry
 instead of subtracting it

---
 src/field/mod_e221_3.rs   | 2 +-
 src/field/mod_e222_117.rs | 2 +-
 src/field/mod_e251_9.rs   | 2 +-
 src/field/mod_e255_19.rs  | 2 +-
 src/field/mod_e382_105.rs | 2 +-
 src/field/mod_e383_187.rs | 2 +-
 src/field/mod_e414_17.rs  | 2 +-
 src/field/mod_e511_187.rs | 2 +-
 src/field/mod_e521_1.rs   | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 12a7c9c..b1a25ce 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e221_3> for Mod_e221_3 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 1dae49f..80a2b35 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -325,7 +325,7 @@ impl<'b> SubAssign<&'b Mod_e222_117> for Mod_e222_117 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x0000ffffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index c7f5ac4..9ec897e 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -344,7 +344,7 @@ impl<'b> SubAssign<&'b Mod_e251_9> for Mod_e251_9 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x0000000007ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 4441758..c52e6f3 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e255_19> for Mod_e255_19 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x000000007fffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index 5f86022..b04ce03 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -358,7 +358,7 @@ impl<'b> SubAssign<&'b Mod_e382_105> for Mod_e382_105 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00003fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index d25e030..6c3b524 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -407,7 +407,7 @@ impl<'b> SubAssign<&'b Mod_e383_187> for Mod_e383_187 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index a17d976..a0f42f2 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e414_17> for Mod_e414_17 {
         let b6 = rhs.0[6];
         let b7 = rhs.0[7] & 0x00000000003fffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index 1e62729..b4246ba 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -416,7 +416,7 @@ impl<'b> SubAssign<&'b Mod_e511_187> for Mod_e511_187 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x0000000001ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 5b1b3a8..e6155e5 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -385,7 +385,7 @@ impl<'b> SubAssign<&'b Mod_e521_1> for Mod_e521_1 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x00000007ffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
-- 
2.43.0


From 291e0a7c035c69bbcf4bfb791c21dd798ad20938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 03/12] fix: small multiplication mod 2^521 - 1 propagated
 carries from the wrong digits

---
 src/field/mod_e521_1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index e6155e5..64743db 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -2719,11 +2719,11 @@ impl PrimeField for Mod_e521_1 {
         let d5 = (m9 >> 27) + m10 + ((m11 & 0x07ffffff) << 27) + c4;
         let c5 = d5 >> 54;
         let d6 = (m11 >> 27) + m12 + ((m13 & 0x07ffffff) << 27) + c5;
-        let c6 = d5 >> 54;
+        let c6 = d6 >> 54;
         let d7 = (m13 >> 27) + m14 + ((m15 & 0x07ffffff) << 27) + c6;
-        let c7 = d6 >> 54;
+        let c7 = d7 >> 54;
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
-        let c8 = d7 >> 54;
+        let c8 = d8 >> 54;
         let d9 = (m17 >> 27) + m18 + (m19 << 27) + c8;
 
         self.0[0] = d0 & 0x003fffffffffffff;
-- 
2.43.0


From 7f5973372d2b233b5768c764f1c89ea69f93301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:32 +0000
Subject: [PATCH 04/12] fix: small multiplication counted the stored carry
 twice and lost its high bits

---
 src/field/mod_e221_3.rs   | 22 +++++++++++++--------
 src/field/mod_e222_117.rs | 22 +++++++++++++--------
 src/field/mod_e251_9.rs   | 21 +++++++++++++-------
 src/field/mod_e255_19.rs  | 25 +++++++++++++++---------
 src/field/mod_e382_105.rs | 31 +++++++++++++++++++-----------
 src/field/mod_e383_187.rs | 31 +++++++++++++++++++-----------
 src/field/mod_e414_17.rs  | 30 +++++++++++++++++++----------
 src/field/mod_e511_187.rs | 36 +++++++++++++++++++++++------------
 src/field/mod_e521_1.rs   | 40 +++++++++++++++++++++++++--------------
 9 files changed, 168 insertions(+), 90 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index b1a25ce..60c1c36 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -1321,19 +1321,25 @@ impl PrimeField for Mod_e221_3 {
         let m6 = a6 * b;
         let m7 = a7 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x1fffffff) << 29);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
-
-        self.0[0] = d0 & 0x03ffffffffffffff;
-        self.0[1] = d1 & 0x03ffffffffffffff;
-        self.0[2] = d2 & 0x03ffffffffffffff;
-        self.0[3] = d3;
+        let d3 = (m5 >> 29) + m6 + ((m7 & 0x0003ffff) << 29) + c2;
+
+        // Fold the carry-out of the top digit back in
+        let cin = (m7 >> 18) + (d3 >> 47);
+        let e0 = (d0 & 0x03ffffffffffffff) + (cin * C_VAL);
+        let e1 = (d1 & 0x03ffffffffffffff) + (e0 >> 58);
+        let e2 = (d2 & 0x03ffffffffffffff) + (e1 >> 58);
+        let e3 = (d3 & 0x00007fffffffffff) + (e2 >> 58);
+
+        self.0[0] = e0 & 0x03ffffffffffffff;
+        self.0[1] = e1 & 0x03ffffffffffffff;
+        self.0[2] = e2 & 0x03ffffffffffffff;
+        self.0[3] = e3;
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 80a2b35..9a4bbdb 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -1354,19 +1354,25 @@ impl PrimeField for Mod_e222_117 {
         let m6 = a6 * b;
         let m7 = a7 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x1fffffff) << 29);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
-
-        self.0[0] = d0 & 0x03ffffffffffffff;
-        self.0[1] = d1 & 0x03ffffffffffffff;
-        self.0[2] = d2 & 0x03ffffffffffffff;
-        self.0[3] = d3;
+        let d3 = (m5 >> 29) + m6 + ((m7 & 0x0007ffff) << 29) + c2;
+
+        // Fold the carry-out of the top digit back in
+        let cin = (m7 >> 19) + (d3 >> 48);
+        let e0 = (d0 & 0x03ffffffffffffff) + (cin * C_VAL);
+        let e1 = (d1 & 0x03ffffffffffffff) + (e0 >> 58);
+        let e2 = (d2 & 0x03ffffffffffffff) + (e1 >> 58);
+        let e3 = (d3 & 0x0000ffffffffffff) + (e2 >> 58);
+
+        self.0[0] = e0 & 0x03ffffffffffffff;
+        self.0[1] = e1 & 0x03ffffffffffffff;
+        self.0[2] = e2 & 0x03ffffffffffffff;
+        self.0[3] = e3;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e222_117 {
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 9ec897e..ba5394d 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -1409,8 +1409,7 @@ impl PrimeField for Mod_e251_9 {
         let m7 = a7 * b;
         let m8 = a8 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1420,11 +1419,19 @@ impl PrimeField for Mod_e251_9 {
         let c3 = d3 >> 56;
         let d4 = (m7 >> 28) + m8 + c3;
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4;
+        // Fold the carry-out of the top digit back in
+        let cin = d4 >> 27;
+        let e0 = (d0 & 0x00ffffffffffffff) + (cin * C_VAL);
+        let e1 = (d1 & 0x00ffffffffffffff) + (e0 >> 56);
+        let e2 = (d2 & 0x00ffffffffffffff) + (e1 >> 56);
+        let e3 = (d3 & 0x00ffffffffffffff) + (e2 >> 56);
+        let e4 = (d4 & 0x0000000007ffffff) + (e3 >> 56);
+
+        self.0[0] = e0 & 0x00ffffffffffffff;
+        self.0[1] = e1 & 0x00ffffffffffffff;
+        self.0[2] = e2 & 0x00ffffffffffffff;
+        self.0[3] = e3 & 0x00ffffffffffffff;
+        self.0[4] = e4;
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index c52e6f3..b3a299e 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -1506,8 +1506,7 @@ impl PrimeField for Mod_e255_19 {
         let m8 = a8 * b;
         let m9 = a9 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1515,13 +1514,21 @@ impl PrimeField for Mod_e255_19 {
         let c2 = d2 >> 56;
         let d3 = (m5 >> 28) + m6 + ((m7 & 0x0fffffff) << 28) + c2;
         let c3 = d3 >> 56;
-        let d4 = (m7 >> 28) + m8 + (m9 << 28) + c3;
-
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4;
+        let d4 = (m7 >> 28) + m8 + ((m9 & 0x00000007) << 28) + c3;
+
+        // Fold the carry-out of the top digit back in
+        let cin = (m9 >> 3) + (d4 >> 31);
+        let e0 = (d0 & 0x00ffffffffffffff) + (cin * C_VAL);
+        let e1 = (d1 & 0x00ffffffffffffff) + (e0 >> 56);
+        let e2 = (d2 & 0x00ffffffffffffff) + (e1 >> 56);
+        let e3 = (d3 & 0x00ffffffffffffff) + (e2 >> 56);
+        let e4 = (d4 & 0x000000007fffffff) + (e3 >> 56);
+
+        self.0[0] = e0 & 0x00ffffffffffffff;
+        self.0[1] = e1 & 0x00ffffffffffffff;
+        self.0[2] = e2 & 0x00ffffffffffffff;
+        self.0[3] = e3 & 0x00ffffffffffffff;
+        self.0[4] = e4;
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index b04ce03..e85338f 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1939,8 +1939,7 @@ impl PrimeField for Mod_e382_105 {
         let m12 = a12 * b;
         let m13 = a13 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1952,15 +1951,25 @@ impl PrimeField for Mod_e382_105 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
-
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4 & 0x00ffffffffffffff;
-        self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6;
+        let d6 = (m11 >> 28) + m12 + ((m13 & 0x0003ffff) << 28) + c5;
+
+        // Fold the carry-out of the top digit back in
+        let cin = (m13 >> 18) + (d6 >> 46);
+        let e0 = (d0 & 0x00ffffffffffffff) + (cin * C_VAL);
+        let e1 = (d1 & 0x00ffffffffffffff) + (e0 >> 56);
+        let e2 = (d2 & 0x00ffffffffffffff) + (e1 >> 56);
+        let e3 = (d3 & 0x00ffffffffffffff) + (e2 >> 56);
+        let e4 = (d4 & 0x00ffffffffffffff) + (e3 >> 56);
+        let e5 = (d5 & 0x00ffffffffffffff) + (e4 >> 56);
+        let e6 = (d6 & 0x00003fffffffffff) + (e5 >> 56);
+
+        self.0[0] = e0 & 0x00ffffffffffffff;
+        self.0[1] = e1 & 0x00ffffffffffffff;
+        self.0[2] = e2 & 0x00ffffffffffffff;
+        self.0[3] = e3 & 0x00ffffffffffffff;
+        self.0[4] = e4 & 0x00ffffffffffffff;
+        self.0[5] = e5 & 0x00ffffffffffffff;
+        self.0[6] = e6;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e382_105 {
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 6c3b524..cb03930 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -2061,8 +2061,7 @@ impl PrimeField for Mod_e383_187 {
         let m12 = a12 * b;
         let m13 = a13 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -2074,15 +2073,25 @@ impl PrimeField for Mod_e383_187 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
-
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4 & 0x00ffffffffffffff;
-        self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6;
+        let d6 = (m11 >> 28) + m12 + ((m13 & 0x0007ffff) << 28) + c5;
+
+        // Fold the carry-out of the top digit back in
+        let cin = (m13 >> 19) + (d6 >> 47);
+        let e0 = (d0 & 0x00ffffffffffffff) + (cin * C_VAL);
+        let e1 = (d1 & 0x00ffffffffffffff) + (e0 >> 56);
+        let e2 = (d2 & 0x00ffffffffffffff) + (e1 >> 56);
+        let e3 = (d3 & 0x00ffffffffffffff) + (e2 >> 56);
+        let e4 = (d4 & 0x00ffffffffffffff) + (e3 >> 56);
+        let e5 = (d5 & 0x00ffffffffffffff) + (e4 >> 56);
+        let e6 = (d6 & 0x00007fffffffffff) + (e5 >> 56);
+
+        self.0[0] = e0 & 0x00ffffffffffffff;
+        self.0[1] = e1 & 0x00ffffffffffffff;
+        self.0[2] = e2 & 0x00ffffffffffffff;
+        self.0[3] = e3 & 0x00ffffffffffffff;
+        self.0[4] = e4 & 0x00ffffffffffffff;
+        self.0[5] = e5 & 0x00ffffffffffffff;
+        self.0[6] = e6;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e383_187 {
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index a0f42f2..9613d5e 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -2046,8 +2046,7 @@ impl PrimeField for Mod_e414_17 {
         let m13 = a13 * b;
         let m14 = a14 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -2063,14 +2062,25 @@ impl PrimeField for Mod_e414_17 {
         let c6 = d6 >> 56;
         let d7 = (m13 >> 28) + m14 + c6;
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4 & 0x00ffffffffffffff;
-        self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6 & 0x00ffffffffffffff;
-        self.0[7] = d7;
+        // Fold the carry-out of the top digit back in
+        let cin = d7 >> 22;
+        let e0 = (d0 & 0x00ffffffffffffff) + (cin * C_VAL);
+        let e1 = (d1 & 0x00ffffffffffffff) + (e0 >> 56);
+        let e2 = (d2 & 0x00ffffffffffffff) + (e1 >> 56);
+        let e3 = (d3 & 0x00ffffffffffffff) + (e2 >> 56);
+        let e4 = (d4 & 0x00ffffffffffffff) + (e3 >> 56);
+        let e5 = (d5 & 0x00ffffffffffffff) + (e4 >> 56);
+        let e6 = (d6 & 0x00ffffffffffffff) + (e5 >> 56);
+        let e7 = (d7 & 0x00000000003fffff) + (e6 >> 56);
+
+        self.0[0] = e0 & 0x00ffffffffffffff;
+        self.0[1] = e1 & 0x00ffffffffffffff;
+        self.0[2] = e2 & 0x00ffffffffffffff;
+        self.0[3] = e3 & 0x00ffffffffffffff;
+        self.0[4] = e4 & 0x00ffffffffffffff;
+        self.0[5] = e5 & 0x00ffffffffffffff;
+        self.0[6] = e6 & 0x00ffffffffffffff;
+        self.0[7] = e7;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e414_17 {
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index b4246ba..eb47075 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -2669,8 +2669,7 @@ impl PrimeField for Mod_e511_187 {
         let m17 = a17 * b;
         let m18 = a18 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x07ffffff) << 27);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
         let c1 = d1 >> 54;
@@ -2690,16 +2689,29 @@ impl PrimeField for Mod_e511_187 {
         let c8 = d8 >> 54;
         let d9 = (m17 >> 27) + m18 + c8;
 
-        self.0[0] = d0 & 0x003fffffffffffff;
-        self.0[1] = d1 & 0x003fffffffffffff;
-        self.0[2] = d2 & 0x003fffffffffffff;
-        self.0[3] = d3 & 0x003fffffffffffff;
-        self.0[4] = d4 & 0x003fffffffffffff;
-        self.0[5] = d5 & 0x003fffffffffffff;
-        self.0[6] = d6 & 0x003fffffffffffff;
-        self.0[7] = d7 & 0x003fffffffffffff;
-        self.0[8] = d8 & 0x003fffffffffffff;
-        self.0[9] = d9;
+        // Fold the carry-out of the top digit back in
+        let cin = d9 >> 25;
+        let e0 = (d0 & 0x003fffffffffffff) + (cin * C_VAL);
+        let e1 = (d1 & 0x003fffffffffffff) + (e0 >> 54);
+        let e2 = (d2 & 0x003fffffffffffff) + (e1 >> 54);
+        let e3 = (d3 & 0x003fffffffffffff) + (e2 >> 54);
+        let e4 = (d4 & 0x003fffffffffffff) + (e3 >> 54);
+        let e5 = (d5 & 0x003fffffffffffff) + (e4 >> 54);
+        let e6 = (d6 & 0x003fffffffffffff) + (e5 >> 54);
+        let e7 = (d7 & 0x003fffffffffffff) + (e6 >> 54);
+        let e8 = (d8 & 0x003fffffffffffff) + (e7 >> 54);
+        let e9 = (d9 & 0x0000000001ffffff) + (e8 >> 54);
+
+        self.0[0] = e0 & 0x003fffffffffffff;
+        self.0[1] = e1 & 0x003fffffffffffff;
+        self.0[2] = e2 & 0x003fffffffffffff;
+        self.0[3] = e3 & 0x003fffffffffffff;
+        self.0[4] = e4 & 0x003fffffffffffff;
+        self.0[5] = e5 & 0x003fffffffffffff;
+        self.0[6] = e6 & 0x003fffffffffffff;
+        self.0[7] = e7 & 0x003fffffffffffff;
+        self.0[8] = e8 & 0x003fffffffffffff;
+        self.0[9] = e9;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e511_187 {
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 64743db..67057fb 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -2705,8 +2705,7 @@ impl PrimeField for Mod_e521_1 {
         let m18 = a18 * b;
         let m19 = a19 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x07ffffff) << 27);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
         let c1 = d1 >> 54;
@@ -2724,18 +2723,31 @@ impl PrimeField for Mod_e521_1 {
         let c7 = d7 >> 54;
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
         let c8 = d8 >> 54;
-        let d9 = (m17 >> 27) + m18 + (m19 << 27) + c8;
-
-        self.0[0] = d0 & 0x003fffffffffffff;
-        self.0[1] = d1 & 0x003fffffffffffff;
-        self.0[2] = d2 & 0x003fffffffffffff;
-        self.0[3] = d3 & 0x003fffffffffffff;
-        self.0[4] = d4 & 0x003fffffffffffff;
-        self.0[5] = d5 & 0x003fffffffffffff;
-        self.0[6] = d6 & 0x003fffffffffffff;
-        self.0[7] = d7 & 0x003fffffffffffff;
-        self.0[8] = d8 & 0x003fffffffffffff;
-        self.0[9] = d9;
+        let d9 = (m17 >> 27) + m18 + ((m19 & 0x000000ff) << 27) + c8;
+
+        // Fold the carry-out of the top digit back in
+        let cin = (m19 >> 8) + (d9 >> 35);
+        let e0 = (d0 & 0x003fffffffffffff) + (cin * C_VAL);
+        let e1 = (d1 & 0x003fffffffffffff) + (e0 >> 54);
+        let e2 = (d2 & 0x003fffffffffffff) + (e1 >> 54);
+        let e3 = (d3 & 0x003fffffffffffff) + (e2 >> 54);
+        let e4 = (d4 & 0x003fffffffffffff) + (e3 >> 54);
+        let e5 = (d5 & 0x003fffffffffffff) + (e4 >> 54);
+        let e6 = (d6 & 0x003fffffffffffff) + (e5 >> 54);
+        let e7 = (d7 & 0x003fffffffffffff) + (e6 >> 54);
+        let e8 = (d8 & 0x003fffffffffffff) + (e7 >> 54);
+        let e9 = (d9 & 0x00000007ffffffff) + (e8 >> 54);
+
+        self.0[0] = e0 & 0x003fffffffffffff;
+        self.0[1] = e1 & 0x003fffffffffffff;
+        self.0[2] = e2 & 0x003fffffffffffff;
+        self.0[3] = e3 & 0x003fffffffffffff;
+        self.0[4] = e4 & 0x003fffffffffffff;
+        self.0[5] = e5 & 0x003fffffffffffff;
+        self.0[6] = e6 & 0x003fffffffffffff;
+        self.0[7] = e7 & 0x003fffffffffffff;
+        self.0[8] = e8 & 0x003fffffffffffff;
+        self.0[9] = e9;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e521_1 {
-- 
2.43.0


From 335e06ee75b278e254ab783fa4a5fdc454183a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 05/12] fix: normalization left a negative residue when the
 folded value was in [-c, -1]

---
 src/field/mod_e221_3.rs   | 2 ++
 src/field/mod_e222_117.rs | 2 ++
 src/field/mod_e251_9.rs   | 2 ++
 src/field/mod_e255_19.rs  | 2 ++
 src/field/mod_e382_105.rs | 2 ++
 src/field/mod_e383_187.rs | 2 ++
 src/field/mod_e414_17.rs  | 2 ++
 src/field/mod_e511_187.rs | 2 ++
 src/field/mod_e521_1.rs   | 2 ++
 9 files changed, 18 insertions(+)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 60c1c36..dbae26a 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -846,6 +846,8 @@ impl Pack for Mod_e221_3 {
 
 impl Normalize for Mod_e221_3 {
     fn normalize(&mut self) {
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 9a4bbdb..ec3b6bf 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -843,6 +843,8 @@ impl Pack for Mod_e222_117 {
 
 impl Normalize for Mod_e222_117 {
     fn normalize(&mut self) {
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index ba5394d..b81c0be 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -883,6 +883,8 @@ impl Pack for Mod_e251_9 {
 
 impl Normalize for Mod_e251_9 {
     fn normalize(&mut self) {
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index b3a299e..168c853 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -935,6 +935,8 @@ impl Pack for Mod_e255_19 {
 
 impl Normalize for Mod_e255_19 {
     fn normalize(&mut self) {
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index e85338f..c5f6e56 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1146,6 +1146,8 @@ impl Pack for Mod_e382_105 {
 
 impl Normalize for Mod_e382_105 {
     fn normalize(&mut self) {
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index cb03930..5fd5ea0 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -1229,6 +1229,8 @@ impl Pack for Mod_e383_187 {
 
 impl Normalize for Mod_e383_187 {
     fn normalize(&mut self) {
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 9613d5e..ac745ea 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -1211,6 +1211,8 @@ impl Pack for Mod_e414_17 {
 
 impl Normalize for Mod_e414_17 {
     fn normalize(&mut self) {
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index eb47075..a8b8895 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -1543,6 +1543,8 @@ impl Pack for Mod_e511_187 {
 
 impl Normalize for Mod_e511_187 {
     fn normalize(&mut self) {
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 67057fb..d020aa5 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -1573,6 +1573,8 @@ impl Pack for Mod_e521_1 {
 
 impl Normalize for Mod_e521_1 {
     fn normalize(&mut self) {
+        *self += &MODULUS;
+
         let plusone = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusone.carry_out() as i32);
         *self -= &offset;
-- 
2.43.0


From d2a763f91f2a9b7ea3c2bebc49dd0ec277fb3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 06/12] fix: extended coordinates of the identity point had T =
 1 instead of 0

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 7168500..0faa6cd 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -92,7 +92,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             x: C::Scalar::zero(),
             y: C::Scalar::one(),
             z: C::Scalar::one(),
-            t: C::Scalar::one()
+            t: C::Scalar::zero()
         }
     }
 
-- 
2.43.0


From fff5c3bdae41fc2d79e92ae17e753003a414d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 07/12] fix: extended coordinates of an initialized point had T
 = 1 instead of x * y

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 0faa6cd..58d681c 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -100,7 +100,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         self.x = x;
         self.y = y;
         self.z = C::Scalar::one();
-        self.t = C::Scalar::one();
+        self.t = x * y;
     }
 
     fn scalar_mult(&mut self, rhs: &mut Self::Scalar) {
-- 
2.43.0


From 023fea4419f3cd76500d495650e4dbe35f1e0a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 08/12] fix: scalar multiplication ladder selected its
 registers by the complemented bit

---
 src/curve/edwards.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 58d681c..302dfc2 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -130,9 +130,9 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             r0 += r1;
             r1 = r0;
 
-            // d0 = bit ? r0 : r1
-            d0.normalized_bitand(&tmask);
-            d1.normalized_bitand(&fmask);
+            // d0 = bit ? r1 : r0
+            d0.normalized_bitand(&fmask);
+            d1.normalized_bitand(&tmask);
             d0.normalized_bitor(&d1);
 
             // d0 *= 2
@@ -141,14 +141,14 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             // d1 = d0
             d1 = d0;
 
-            // r0 = bit ? d0 : r0
-            r0.normalized_bitand(&fmask);
-            d0.normalized_bitand(&tmask);
+            // r0 = bit ? r0 : d0
+            r0.normalized_bitand(&tmask);
+            d0.normalized_bitand(&fmask);
             r0.normalized_bitor(&d0);
 
-            // r1 = bit ? r1 : d1
-            r1.normalized_bitand(&tmask);
-            d1.normalized_bitand(&fmask);
+            // r1 = bit ? d1 : r1
+            r1.normalized_bitand(&fmask);
+            d1.normalized_bitand(&tmask);
             r1.normalized_bitor(&d1);
         }
 
-- 
2.43.0


From c9171195f0cae37cef9b6c41ae1fb05d7f554193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 09/12] fix: point tripling computed its G term with the wrong
 sign

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 302dfc2..f561d3b 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -193,7 +193,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         let yb = yy * b;
         let aa = ap * (yy - xx);
         let f = aa - yb;
-        let g = aa - xb;
+        let g = aa + xb;
         let xe = self.x * (yb + aa);
         let yh = self.y * (xb - aa);
         let zf = self.z * f;
-- 
2.43.0


From 3fa4bbc15e862e928194ef59d8f3f7c1c3dd6e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 10/12] verif hook: accessor for extended point coordinates
 (cfg verif_hooks)

---
 src/curve/edwards.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index f561d3b..8d47434 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -84,6 +84,15 @@ impl<C: EdwardsCurve> EdwardsExtended<C> {
     }
 }
 
+#[cfg(verif_hooks)]
+impl<C: EdwardsCurve> EdwardsExtended<C> {
+    /// Verification hook: the extended coordinates (X, Y, Z, T).
+    pub fn verif_coords(&self) ->
+        (C::Scalar, C::Scalar, C::Scalar, C::Scalar) {
+        (self.x, self.y, self.z, self.t)
+    }
+}
+
 impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
     type Scalar = C::Scalar;
 
-- 
2.43.0


From 35f47a60a1857547ae6ab05f7ba41ad2b778e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 11/12] fix: multiplication mod 2^251 - 9 dropped the sign of a
 negative product

---
 src/field/mod_e251_9.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index b81c0be..62b4e87 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -657,7 +657,7 @@ impl<'b> MulAssign<&'b Mod_e251_9> for Mod_e251_9 {
                    ((d7 & 0x0000000007ffffff) << 29);
         let h3_0 = ((d7 & 0x00ffffffffffffff) >> 27) |
                    ((d8 & 0x0000000007ffffff) << 29);
-        let h4_0 = (d8 & 0x00ffffffffffffff) >> 27;
+        let h4_0 = d8 >> 27;
 
         // Multiply by C
         let hc0_0 = h0_0 * C_VAL;
-- 
2.43.0


From 5218caf724ae15dfbf9eca908144f349e591c0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 12/12] fix: multiplication mod 2^222 - 117 dropped the sign of
 a negative product

---
 src/field/mod_e222_117.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index ec3b6bf..068822a 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -629,7 +629,7 @@ impl<'b> MulAssign<&'b Mod_e222_117> for Mod_e222_117 {
                     ((hc5_0 & 0x1fffffff) << 29) + hmk1_0;
         let hmk2_0 = hm2_0 >> 58;
         let hm3_0 = (hc5_0 >> 29) + hc6_0 +
-                    ((hc7_0 & 0x1fffffff) << 29) + hmk2_0;
+                    (hc7_0 << 29) + hmk2_0;
 
         // Add h and l.
         let kin_0 = hm3_0 >> 48;
-- 
2.43.0

