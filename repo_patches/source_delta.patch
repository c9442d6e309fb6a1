From dfa00c509ab60a51ab915b62ac7fcaf7b46ddc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 01/11] fix: Roman 90,000 and 900,000 use the subtractive pairs
 XC and CM

They were written with overlined LC and DM, which read as 50,000 and 500,000.
---
 README.md                  | 4 ++--
 src/.crate-docs.md         | 4 ++--
 src/additive.rs            | 8 ++++----
 src/previews/RomanLower.md | 2 +-
 src/previews/RomanUpper.md | 2 +-
 src/previews/index.md      | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/README.md b/README.md
index 3a2726a..13a5c87 100644
--- a/README.md
+++ b/README.md
@@ -55,8 +55,8 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`Decimal`](https://khonsulabs.github.io/nominals/main/nominals/struct.Decimal.html): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.LetterLower.html): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.LetterUpper.html): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanLower.html): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanUpper.html): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanLower.html): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanUpper.html): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.CircledNumber.html): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.DoubleCircledNumber.html): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianLower.html): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
diff --git a/src/.crate-docs.md b/src/.crate-docs.md
index 11b184b..dc71517 100644
--- a/src/.crate-docs.md
+++ b/src/.crate-docs.md
@@ -53,8 +53,8 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`Decimal`](Decimal): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`](LetterLower): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`](LetterUpper): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`](RomanLower): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`](RomanUpper): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`](RomanLower): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`](RomanUpper): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`](CircledNumber): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](DoubleCircledNumber): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](ArmenianLower): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
diff --git a/src/additive.rs b/src/additive.rs
index 175f076..247df8c 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -87,11 +87,11 @@ where
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         AdditiveSet::new([
             ("m̅", 1_000_000),
-            ("d̅m̅", 900_000),
+            ("c̅m̅", 900_000),
             ("d̅", 500_000),
             ("c̅d̅", 400_000),
             ("c̅", 100_000),
-            ("l̅c̅", 90_000),
+            ("x̅c̅", 90_000),
             ("l̅", 50_000),
             ("x̅l̅", 40_000),
             ("x̅", 10_000),
@@ -139,11 +139,11 @@ where
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         AdditiveSet::new([
             ("M̅", 1_000_000),
-            ("D̅M̅", 900_000),
+            ("C̅M̅", 900_000),
             ("D̅", 500_000),
             ("C̅D̅", 400_000),
             ("C̅", 100_000),
-            ("L̅C̅", 90_000),
+            ("X̅C̅", 90_000),
             ("L̅", 50_000),
             ("X̅L̅", 40_000),
             ("X̅", 10_000),
diff --git a/src/previews/RomanLower.md b/src/previews/RomanLower.md
index 5a2d439..a933ab8 100644
--- a/src/previews/RomanLower.md
+++ b/src/previews/RomanLower.md
@@ -17,6 +17,6 @@
 | 4000    | i̅v̅           |
 | 4001    | i̅v̅i          |
 | …       | …            |
-| 999999  | d̅m̅l̅c̅i̅x̅cmxcix |
+| 999999  | c̅m̅x̅c̅i̅x̅cmxcix |
 | 1000000 | m̅            |
 | 1000001 | m̅i           |
diff --git a/src/previews/RomanUpper.md b/src/previews/RomanUpper.md
index 78f1f66..70be120 100644
--- a/src/previews/RomanUpper.md
+++ b/src/previews/RomanUpper.md
@@ -17,6 +17,6 @@
 | 4000    | I̅V̅           |
 | 4001    | I̅V̅I          |
 | …       | …            |
-| 999999  | D̅M̅L̅C̅I̅X̅CMXCIX |
+| 999999  | C̅M̅X̅C̅I̅X̅CMXCIX |
 | 1000000 | M̅            |
 | 1000001 | M̅I           |
diff --git a/src/previews/index.md b/src/previews/index.md
index ba2d42e..655e1c9 100644
--- a/src/previews/index.md
+++ b/src/previews/index.md
@@ -1,8 +1,8 @@
 - [`Decimal`]($NominalSystemDocPrefix$Decimal$NominalSystemDocSuffix$): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`]($NominalSystemDocPrefix$LetterLower$NominalSystemDocSuffix$): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`]($NominalSystemDocPrefix$LetterUpper$NominalSystemDocSuffix$): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`]($NominalSystemDocPrefix$RomanLower$NominalSystemDocSuffix$): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`]($NominalSystemDocPrefix$RomanUpper$NominalSystemDocSuffix$): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`]($NominalSystemDocPrefix$RomanLower$NominalSystemDocSuffix$): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`]($NominalSystemDocPrefix$RomanUpper$NominalSystemDocSuffix$): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`]($NominalSystemDocPrefix$CircledNumber$NominalSystemDocSuffix$): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`]($NominalSystemDocPrefix$DoubleCircledNumber$NominalSystemDocSuffix$): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`]($NominalSystemDocPrefix$ArmenianLower$NominalSystemDocSuffix$): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- 
2.43.0


From f660f1b137d9c2055cdaa645d21850cfc8072b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 02/11] fix: remove the stray space from the uppercase Armenian
 symbol for 1

---
 README.md             | 2 +-
 src/.crate-docs.md    | 2 +-
 src/additive.rs       | 2 +-
 src/previews/index.md | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index 13a5c87..1e1eaad 100644
--- a/README.md
+++ b/README.md
@@ -60,7 +60,7 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`CircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.CircledNumber.html): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.DoubleCircledNumber.html): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianLower.html): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- [`ArmenianUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianUpper.html): Ա ‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ 
+- [`ArmenianUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianUpper.html): Ա‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ
 - [`Bengali`](https://khonsulabs.github.io/nominals/main/nominals/struct.Bengali.html): ০‎ ১‎ ২‎ ৩‎ ৪‎ …‎ ৯‎ ১০‎ ১১‎ ১২‎ …‎ ৯৯‎ ১০০‎ ১০১‎ ১০২
 - [`Cambodian`](https://khonsulabs.github.io/nominals/main/nominals/struct.Cambodian.html): ០‎ ១‎ ២‎ ៣‎ ៤‎ …‎ ៩‎ ១០‎ ១១‎ ១២‎ …‎ ៩៩‎ ១០០‎ ១០១‎ ១០២
 - [`SimplifiedChineseInformal`](https://khonsulabs.github.io/nominals/main/nominals/struct.SimplifiedChineseInformal.html): 零‎ 一‎ 二‎ …‎ 九‎ 十‎ 十一‎ …‎ 十九‎ 二十‎ 二十一‎ …‎ 九十九‎ 一百‎ 一百零一
diff --git a/src/.crate-docs.md b/src/.crate-docs.md
index dc71517..1380073 100644
--- a/src/.crate-docs.md
+++ b/src/.crate-docs.md
@@ -58,7 +58,7 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`CircledNumber`](CircledNumber): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](DoubleCircledNumber): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](ArmenianLower): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- [`ArmenianUpper`](ArmenianUpper): Ա ‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ 
+- [`ArmenianUpper`](ArmenianUpper): Ա‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ
 - [`Bengali`](Bengali): ০‎ ১‎ ২‎ ৩‎ ৪‎ …‎ ৯‎ ১০‎ ১১‎ ১২‎ …‎ ৯৯‎ ১০০‎ ১০১‎ ১০২
 - [`Cambodian`](Cambodian): ០‎ ១‎ ២‎ ៣‎ ៤‎ …‎ ៩‎ ១០‎ ១១‎ ១២‎ …‎ ៩៩‎ ១០០‎ ១០១‎ ១០២
 - [`SimplifiedChineseInformal`](SimplifiedChineseInformal): 零‎ 一‎ 二‎ …‎ 九‎ 十‎ 十一‎ …‎ 十九‎ 二十‎ 二十一‎ …‎ 九十九‎ 一百‎ 一百零一
diff --git a/src/additive.rs b/src/additive.rs
index 247df8c..50533f7 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -242,7 +242,7 @@ where
             ("Դ", 4),
             ("Գ", 3),
             ("Բ", 2),
-            ("Ա ", 1),
+            ("Ա", 1),
         ])
         .try_format_nominal(nominal)
     }
diff --git a/src/previews/index.md b/src/previews/index.md
index 655e1c9..c2104a7 100644
--- a/src/previews/index.md
+++ b/src/previews/index.md
@@ -6,7 +6,7 @@
 - [`CircledNumber`]($NominalSystemDocPrefix$CircledNumber$NominalSystemDocSuffix$): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`]($NominalSystemDocPrefix$DoubleCircledNumber$NominalSystemDocSuffix$): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`]($NominalSystemDocPrefix$ArmenianLower$NominalSystemDocSuffix$): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- [`ArmenianUpper`]($NominalSystemDocPrefix$ArmenianUpper$NominalSystemDocSuffix$): Ա ‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ 
+- [`ArmenianUpper`]($NominalSystemDocPrefix$ArmenianUpper$NominalSystemDocSuffix$): Ա‎ Բ‎ Գ‎ …‎ Թ‎ Ժ‎ ԺԱ‎ ԺԲ‎ …‎ ՂԹ‎ Ճ‎ ՃԱ
 - [`Bengali`]($NominalSystemDocPrefix$Bengali$NominalSystemDocSuffix$): ০‎ ১‎ ২‎ ৩‎ ৪‎ …‎ ৯‎ ১০‎ ১১‎ ১২‎ …‎ ৯৯‎ ১০০‎ ১০১‎ ১০২
 - [`Cambodian`]($NominalSystemDocPrefix$Cambodian$NominalSystemDocSuffix$): ០‎ ១‎ ២‎ ៣‎ ៤‎ …‎ ៩‎ ១០‎ ១១‎ ១២‎ …‎ ៩៩‎ ១០០‎ ១០១‎ ១០២
 - [`SimplifiedChineseInformal`]($NominalSystemDocPrefix$SimplifiedChineseInformal$NominalSystemDocSuffix$): 零‎ 一‎ 二‎ …‎ 九‎ 十‎ 十一‎ …‎ 十九‎ 二十‎ 二十一‎ …‎ 九十九‎ 一百‎ 一百零一
-- 
2.43.0


From f6132a829fd92bc0b48787953904fcc4149fa10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 03/11] fix: AdditiveSet reports values its symbols cannot
 reach

A set without a symbol for 1 could return the label of a smaller number.
---
 src/additive.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/additive.rs b/src/additive.rs
index 50533f7..75d9b54 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -61,7 +61,11 @@ where
             }
         }
 
-        Ok(formatted)
+        if remaining.is_zero() {
+            Ok(formatted)
+        } else {
+            Err(Error::OutOfBounds(nominal))
+        }
     }
 }
 
-- 
2.43.0


From 96bf90733dd2368420038a91d61ea0d0fd75de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 04/11] fix: keep fixed collections fixed in OneBased and
 Restrict

Fixed collections lost their fallback behind either adaptor. The range check of a
fixed collection with a zero digit now also ignores zero_based(), as documented.
---
 src/digital.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 38cba9c..ba09c6d 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -75,6 +75,10 @@ where
 {
     type Fallback = T::Fallback;
 
+    fn fixed(&self) -> bool {
+        self.0.fixed()
+    }
+
     fn has_zero_digit(&self) -> bool {
         self.0.has_zero_digit()
     }
@@ -486,6 +490,10 @@ where
 {
     type Fallback = T::Fallback;
 
+    fn fixed(&self) -> bool {
+        self.0.fixed()
+    }
+
     fn has_zero_digit(&self) -> bool {
         self.0.has_zero_digit()
     }
@@ -563,7 +571,7 @@ where
             return Ok(NominalString::from(self.digit(nominal.as_usize())));
         };
         if self.fixed()
-            && (if self.zero_based() {
+            && (if self.has_zero_digit() || self.zero_based() {
                 nominal >= count
             } else {
                 nominal > count
-- 
2.43.0


From 67badc8ec78ec92cc3a9f89530ec49a07512e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 05/11] fix: Restrict never claims more digits than its
 collection has

Formatting with a larger count panicked with an index out of bounds.
---
 src/digital.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index ba09c6d..74882f8 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -503,7 +503,7 @@ where
     }
 
     fn len(&self) -> usize {
-        self.1
+        self.1.min(self.0.len())
     }
 
     fn digit(&self, index: usize) -> char {
-- 
2.43.0


From 4d184f7777a71a7591e4c4f913666d1b9b78b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 06/11] fix: one-based collections larger than the nominal type
 start at 1

With a u8 and more than 255 digits, counting started at 0 instead.
---
 src/digital.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 74882f8..757f0ab 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -568,7 +568,12 @@ where
 {
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         let Ok(mut count) = T::try_from(self.len()) else {
-            return Ok(NominalString::from(self.digit(nominal.as_usize())));
+            // There are more digits than values of `T`, so one digit is enough.
+            let mut index = nominal.as_usize();
+            if !self.has_zero_digit() && !self.zero_based() {
+                index = index.checked_sub(1).ok_or(Error::NoZeroSymbol)?;
+            }
+            return Ok(NominalString::from(self.digit(index)));
         };
         if self.fixed()
             && (if self.has_zero_digit() || self.zero_based() {
-- 
2.43.0


From d70b34d72f8e274f7e14c58d1eb8bd4d25f0610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 07/11] fix: digit collections without enough digits report
 OutOfBounds

An empty collection divided by zero, and a lone zero digit looped forever for any
value but zero.
---
 src/digital.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/digital.rs b/src/digital.rs
index 757f0ab..210d378 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -591,6 +591,12 @@ where
         }
 
         let one = T::from(1_u8);
+        if count.is_zero() || (count == one && self.has_zero_digit() && !nominal.is_zero()) {
+            // Without digits nothing can be represented, and with only a zero
+            // digit nothing but zero.
+            return Err(Error::OutOfBounds(nominal));
+        }
+
         let mut formatted = NominalString::new_reverse();
 
         let mut remaining = nominal;
-- 
2.43.0


From f36330020abafb34cc66794cf5a5d8a80bf7b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 08/11] fix: symbols too long for the stack report OutOfMemory
 without alloc

EnumeratedSet and the zero symbol of AdditiveSet panicked instead.
---
 src/additive.rs   | 3 ++-
 src/enumerated.rs | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/additive.rs b/src/additive.rs
index 75d9b54..c82875e 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -41,7 +41,8 @@ where
         let mut remaining = nominal;
         if remaining.is_zero() {
             return if let Some(zero) = self.zero {
-                Ok(NominalString::from(zero))
+                formatted.try_push_str(zero).with_nominal(nominal)?;
+                Ok(formatted)
             } else {
                 Err(Error::NoZeroSymbol)
             };
diff --git a/src/enumerated.rs b/src/enumerated.rs
index c638bb3..2c11fd5 100644
--- a/src/enumerated.rs
+++ b/src/enumerated.rs
@@ -1,4 +1,4 @@
-use crate::{Error, Nominal, NominalString, NominalSystem};
+use crate::{Error, Nominal, NominalString, NominalSystem, WithNominal};
 
 /// A set of enumerated symbols that form a [`NominalSystem`].
 pub struct EnumeratedSet<const N: usize, const HAS_ZERO: bool> {
@@ -35,7 +35,9 @@ where
         if !HAS_ZERO && nominal.is_zero() {
             Err(Error::NoZeroSymbol)
         } else if let Some(&symbol) = self.symbols.get(n - usize::from(!HAS_ZERO)) {
-            Ok(symbol.into())
+            let mut formatted = NominalString::new();
+            formatted.try_push_str(symbol).with_nominal(nominal)?;
+            Ok(formatted)
         } else {
             Err(Error::OutOfBounds(nominal))
         }
-- 
2.43.0


From bbbc8addedea66fd1acf3cfacb30ed5fbfcb0ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 09/11] fix: forward format_nominal through Box, Rc and Arc

A system overriding format_nominal lost its override behind a trait object.
---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bd5f15d..dc41af7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,6 +60,10 @@ impl<T> NominalSystem<T> for alloc::boxed::Box<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
@@ -70,6 +74,10 @@ impl<T> NominalSystem<T> for alloc::rc::Rc<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
@@ -80,6 +88,10 @@ impl<T> NominalSystem<T> for alloc::sync::Arc<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
-- 
2.43.0


From b9bfbd6385d2e6ec05b5d89e2e9b048dc6ef2ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 10/11] fix: voice skipped ranks in Chinese numerals
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

100001000 was formatted as 一亿一千 instead of 一亿零一千.
---
 src/chinese.rs | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/chinese.rs b/src/chinese.rs
index bb07b80..9bc17e4 100644
--- a/src/chinese.rs
+++ b/src/chinese.rs
@@ -250,7 +250,7 @@ impl ChineseScale {
             characters,
             large_characters,
             nominal,
-            true,
+            None,
             &mut false,
         )
     }
@@ -260,7 +260,7 @@ impl ChineseScale {
         characters: &[char; 14],
         large_characters: &[char; 11],
         nominal: T,
-        no_prefix: bool,
+        preceded: Option<T>,
         last_char_is_zero: &mut bool,
     ) -> Result<NominalString, ChineseFormatError>
     where
@@ -272,7 +272,7 @@ impl ChineseScale {
             characters,
             large_characters,
             nominal,
-            no_prefix,
+            preceded,
             last_char_is_zero,
         )
     }
@@ -283,7 +283,7 @@ impl ChineseScale {
         characters: &[char; 14],
         large_characters: &[char; 11],
         nominal: T,
-        no_prefix: bool,
+        preceded: Option<T>,
         last_char_is_zero: &mut bool,
     ) -> Result<NominalString, ChineseFormatError>
     where
@@ -296,22 +296,32 @@ impl ChineseScale {
                 characters,
                 large_characters,
                 nominal,
-                no_prefix,
+                preceded,
                 last_char_is_zero,
             )
         } else {
-            format_chinese_inner::<T, FORMAL>(characters, nominal, no_prefix, last_char_is_zero)
-                .map_err(ChineseFormatError::from)
+            format_chinese_inner::<T, FORMAL>(
+                characters,
+                nominal,
+                preceded.is_none(),
+                last_char_is_zero,
+            )
+            .map_err(ChineseFormatError::from)
         }
     }
 
+    /// Formats `nominal` using the scales of `rank` and below.
+    ///
+    /// `preceded` is `None` if nothing has been written before `nominal`.
+    /// Otherwise, it is the exclusive upper limit of the values that can be
+    /// written at this location.
     fn format_scaled_rank<T, const FORMAL: bool, const N: usize>(
         rank: usize,
         scales: [Option<T>; N],
         characters: &[char; 14],
         large_characters: &[char; 11],
         nominal: T,
-        no_prefix: bool,
+        preceded: Option<T>,
         last_char_is_zero: &mut bool,
     ) -> Result<NominalString, ChineseFormatError>
     where
@@ -324,7 +334,7 @@ impl ChineseScale {
                 characters,
                 large_characters,
                 nominal,
-                no_prefix,
+                preceded,
                 last_char_is_zero,
             );
         };
@@ -351,7 +361,7 @@ impl ChineseScale {
                 characters,
                 large_characters,
                 rank_value,
-                no_prefix,
+                preceded.map(|limit| limit / scale),
                 last_char_is_zero,
             )?;
             if !rank_formatted.is_empty() {
@@ -363,13 +373,25 @@ impl ChineseScale {
         if remaining.is_zero() {
             Ok(formatted)
         } else {
+            if rank_value.is_zero()
+                && !*last_char_is_zero
+                && matches!(preceded, Some(limit) if limit > scale)
+            {
+                // This rank is skipped between two non-zero ranks.
+                formatted.try_push(characters[0])?;
+                *last_char_is_zero = true;
+            }
             let remaining = Self::format_next_scaled_rank::<T, FORMAL, N>(
                 rank,
                 scales,
                 characters,
                 large_characters,
                 remaining,
-                formatted.is_empty() && no_prefix,
+                match preceded {
+                    Some(limit) => Some(limit.min(scale)),
+                    None if formatted.is_empty() => None,
+                    None => Some(scale),
+                },
                 last_char_is_zero,
             )?;
             formatted.try_push_str(&remaining)?;
-- 
2.43.0


From 9a368315a0b32d9a3a7550cb07ad7839aaea5970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 11/11] fix: voice zeros at the end of a Chinese rank's
 coefficient
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

With the mid scale 1000010000000 was formatted as 一万亿一千万 instead of
一万亿零一千万.
---
 src/chinese.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/chinese.rs b/src/chinese.rs
index 9bc17e4..be0a72f 100644
--- a/src/chinese.rs
+++ b/src/chinese.rs
@@ -373,11 +373,14 @@ impl ChineseScale {
         if remaining.is_zero() {
             Ok(formatted)
         } else {
-            if rank_value.is_zero()
-                && !*last_char_is_zero
-                && matches!(preceded, Some(limit) if limit > scale)
-            {
+            let skipped = if rank_value.is_zero() {
                 // This rank is skipped between two non-zero ranks.
+                matches!(preceded, Some(limit) if limit > scale)
+            } else {
+                // The lowest four digits of this rank are skipped.
+                matches!(scales[0], Some(group) if (rank_value % group).is_zero())
+            };
+            if skipped && !*last_char_is_zero {
                 formatted.try_push(characters[0])?;
                 *last_char_is_zero = true;
             }
-- 
2.43.0

