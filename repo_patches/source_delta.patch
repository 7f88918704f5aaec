From cc4bf1e90a388639c042fc27267630a76170794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 01/27] fix: refuse truncated or multi-byte text in CESR codes
 instead of panicking

---
 src/core/counter/mod.rs |  9 ++++-----
 src/core/indexer/mod.rs |  8 ++++----
 src/core/matter/mod.rs  |  8 ++++----
 src/core/util.rs        | 11 +++++++++++
 4 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/core/counter/mod.rs b/src/core/counter/mod.rs
index 34edbfb..f00366b 100644
--- a/src/core/counter/mod.rs
+++ b/src/core/counter/mod.rs
@@ -217,8 +217,7 @@ impl Counter {
             return err!(Error::EmptyMaterial("empty qb64".to_string()));
         }
 
-        // we validated there will be a char here, above.
-        let first = &qb64[..2];
+        let first = util::b64_slice(qb64, 0, 2)?;
 
         let hs = tables::hardage(first)? as usize;
         if qb64.len() < hs {
@@ -228,8 +227,8 @@ impl Counter {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        // bounds already checked, but a multi-byte character may straddle them
+        let hard = util::b64_slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -240,7 +239,7 @@ impl Counter {
             )));
         }
 
-        let count_b64 = &qb64[szg.hs as usize..cs as usize];
+        let count_b64 = util::b64_slice(qb64, szg.hs as usize, cs as usize)?;
         let count = util::b64_to_u64(count_b64)? as u32;
 
         self.code = hard.to_string();
diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 8510ae6..295d4d1 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -393,7 +393,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        let hard = &qb64[..hs];
+        let hard = util::b64_slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
 
         // both hard + soft code size
@@ -407,8 +407,8 @@ pub trait Indexer: Default {
             )));
         }
 
-        let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
-        let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
+        let index = util::b64_to_u32(util::b64_slice(qb64, hs, hs + ms as usize)?)?;
+        let odx = util::b64_slice(qb64, hs + ms as usize, hs + (ms + szg.os) as usize)?;
 
         let mut ondex: Option<u32> = None;
         if CurrentSigCodex::has_code(hard) {
@@ -457,7 +457,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        let qb64 = &qb64[..fs as usize];
+        let qb64 = util::b64_slice(qb64, 0, fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 09022ad..7e82875 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -333,8 +333,8 @@ pub trait Matter: Default {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        // bounds already checked, but a multi-byte character may straddle them
+        let hard = util::b64_slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -353,7 +353,7 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
-            let soft = &qb64[szg.hs as usize..cs as usize];
+            let soft = util::b64_slice(qb64, szg.hs as usize, cs as usize)?;
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
         } else {
@@ -367,7 +367,7 @@ pub trait Matter: Default {
             )));
         }
 
-        let trim = &qb64[..fs as usize];
+        let trim = util::b64_slice(qb64, 0, fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
diff --git a/src/core/util.rs b/src/core/util.rs
index 0ac0b2e..dbddb40 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -142,6 +142,17 @@ pub fn b64_index_to_char(i: u8) -> Result<char> {
     })
 }
 
+/// Slices qualified base64 text, refusing bounds which are out of range or inside a character.
+pub fn b64_slice(qb64: &str, start: usize, end: usize) -> Result<&str> {
+    match qb64.get(start..end) {
+        Some(s) => Ok(s),
+        None => err!(Error::ParseQb64(format!(
+            "cannot slice text: size = {}, start = {start}, end = {end}",
+            qb64.len()
+        ))),
+    }
+}
+
 pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
-- 
2.43.0


From 9c904cab68b4811ccfe4682d3a58ca3be4c5a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 02/27] fix: refuse '=' padding and missing lead bytes when
 decoding material

---
 src/core/indexer/mod.rs |  8 +++++++-
 src/core/matter/mod.rs  | 23 +++++++++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 295d4d1..00dd4fc 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -466,7 +466,10 @@ pub trait Indexer: Default {
             buf.push_str(&qb64[(cs as usize)..]);
 
             let mut paw = Vec::<u8>::new();
-            base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            base64::engine::general_purpose::URL_SAFE.decode_vec(&buf, &mut paw)?;
+            if paw.len() * 4 != buf.len() * 3 {
+                return err!(Error::ParseQb64("unexpected base64 padding characters".to_string()));
+            }
 
             let mut pi: i32 = 0;
             for b in &paw[..ps as usize] {
@@ -482,6 +485,9 @@ pub trait Indexer: Default {
             let buf = &qb64[cs as usize..];
             let mut paw = Vec::<u8>::new();
             base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            if paw.len() * 4 != buf.len() * 3 {
+                return err!(Error::ParseQb64("unexpected base64 padding characters".to_string()));
+            }
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 7e82875..54b0667 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -377,7 +377,12 @@ pub trait Matter: Default {
             // decode base to leave pre-padded raw
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE.decode_vec(&buf, &mut paw)?;
+            let canonical = paw.len() * 4 == buf.len() * 3;
             buf.zeroize();
+            if !canonical {
+                paw.zeroize();
+                return err!(Error::ParseQb64("unexpected base64 padding characters".to_string()));
+            }
 
             let mut pi: i32 = 0;
             // readInt
@@ -395,6 +400,17 @@ pub trait Matter: Default {
         } else {
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
+            if paw.len() * 4 != (trim.len() - cs as usize) * 3 {
+                paw.zeroize();
+                return err!(Error::ParseQb64("unexpected base64 padding characters".to_string()));
+            }
+            if paw.len() < szg.ls as usize {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for lead bytes: size = {}, ls = {}",
+                    paw.len(),
+                    szg.ls
+                )));
+            }
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
@@ -470,6 +486,13 @@ pub trait Matter: Default {
             )));
         }
 
+        if bfs < bcs + szg.ls {
+            return err!(Error::Shortage(format!(
+                "insufficient material for lead bytes: bfs = {bfs}, bcs = {bcs}, ls = {}",
+                szg.ls
+            )));
+        }
+
         let mut trim = qb2[..bfs as usize].to_vec();
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
-- 
2.43.0


From b49fd1b1adbeb174c0f0f549c4ebecb28cf8f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 03/27] fix: refuse unknown variable length codes instead of
 panicking or building them

---
 src/core/matter/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 54b0667..91d8c0e 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -48,6 +48,9 @@ pub trait Matter: Default {
             return err!(Error::EmptyMaterial("empty code".to_string()));
         }
 
+        // refuse unknown codes, variable length ones included
+        tables::sizage(code)?;
+
         let mut size: u32 = 0;
         // this unwrap can stay since we have validated that code is not empty, above
         let first = code.chars().next().unwrap();
-- 
2.43.0


From 7ef0b734747bde00e72a148e4c3dca30db19de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 04/27] fix: check index and ondex against their own field
 sizes in Indexer binary form

---
 src/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 00dd4fc..e9cbc4f 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -292,13 +292,13 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
         }
 
-        if szg.os == 1 && ondex > 64_u32.pow(szg.os) - 1 {
+        if szg.os > 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{}' and code = '{code}'.",
                 szg.os
-- 
2.43.0


From b99b29104f53515bbee500274e27b01cf153d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 05/27] fix: refuse an ondex differing from the index when the
 code cannot carry it

---
 src/core/indexer/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index e9cbc4f..2222459 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -102,7 +102,9 @@ pub trait Indexer: Default {
                 // when not provided make ondex match index
                 ondex = Some(index);
             }
-        } else if let Some(o) = ondex {
+        }
+
+        if let Some(o) = ondex {
             if o != index && szg.os == 0 {
                 return err!(Error::InvalidVarIndex(format!(
                     "Non matching ondex '{o}' and index '{index}' for code = '{code}'."
-- 
2.43.0


From f03e7bcf5331bb185cb1b96634f5d83a689ce1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 06/27] fix: handle the lead bytes of indexed material like the
 text and binary forms do

---
 src/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 2222459..36b12d0 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -132,7 +132,7 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        let rize = (fs - cs) * 3 / 4;
+        let rize = (fs - cs) * 3 / 4 - szg.ls;
         if raw.len() < rize as usize {
             return err!(Error::Shortage(format!(
                 "insufficient raw material: raw size = '{}', rize = '{rize}'",
@@ -504,7 +504,7 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
         self.set_code(hard);
-- 
2.43.0


From 2b00e027eaef5937090b69064651f171ffa216ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 07/27] fix: check the code of material decoded by Number,
 Prefixer and Salter

---
 src/core/number.rs   | 4 +++-
 src/core/prefixer.rs | 4 +++-
 src/core/salter.rs   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/number.rs b/src/core/number.rs
index 497efcc..6ec998a 100644
--- a/src/core/number.rs
+++ b/src/core/number.rs
@@ -87,7 +87,9 @@ impl Number {
         } else {
             let code = code.unwrap_or(tables::Codex::Short);
             validate_code(code)?;
-            Matter::new(Some(code), raw, qb64b, qb64, qb2)?
+            let number: Number = Matter::new(Some(code), raw, qb64b, qb64, qb2)?;
+            validate_code(&number.code())?;
+            number
         };
 
         Ok(number)
diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 228cef4..dc74b3d 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -266,7 +266,9 @@ impl Prefixer {
             || qb2.is_some()
         {
             validate_code(code.unwrap_or(matter::Codex::Ed25519N))?;
-            Matter::new(code, raw, qb64b, qb64, qb2)?
+            let prefixer: Prefixer = Matter::new(code, raw, qb64b, qb64, qb2)?;
+            validate_code(&prefixer.code())?;
+            prefixer
         } else {
             let ked = if let Some(ked) = ked {
                 if code.is_none() && !ked.to_map()?.contains_key(Ids::i) {
diff --git a/src/core/salter.rs b/src/core/salter.rs
index 5ccd084..9eb5e90 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -51,7 +51,9 @@ impl Salter {
                 raw.zeroize();
                 matter
             } else {
-                Matter::new(Some(code), raw, qb64b, qb64, qb2)?
+                let salter: Self = Matter::new(Some(code), raw, qb64b, qb64, qb2)?;
+                validate_code(&salter.code())?;
+                salter
             };
 
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
-- 
2.43.0


From e8ef0765e37855ca17fddc23cb1fd52ad4318cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 08/27] fix: accept JSON integers above i64::MAX and floats
 written without a point

---
 src/data.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index b96be4d..7b5e027 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -16,7 +16,8 @@ pub type Object = IndexMap<String, Value>;
 #[derive(Debug, PartialEq, Clone)]
 pub struct Number {
     f: f64,
-    i: i64,
+    // wide enough for every integer JSON parsing yields (i64 and u64)
+    i: i128,
     float: bool,
 }
 
@@ -28,7 +29,13 @@ impl From<f64> for Number {
 
 impl From<i64> for Number {
     fn from(i: i64) -> Self {
-        Self { f: 0.0, i, float: false }
+        Self { f: 0.0, i: i as i128, float: false }
+    }
+}
+
+impl From<u64> for Number {
+    fn from(i: u64) -> Self {
+        Self { f: 0.0, i: i as i128, float: false }
     }
 }
 
@@ -67,7 +74,9 @@ impl Value {
                     ));
                 }
 
-                Ok(number.i)
+                i64::try_from(number.i).map_err(|_| {
+                    CESRError::Conversion("integer out of range".to_string()).into()
+                })
             }
             _ => err!(CESRError::Conversion("cannot convert to integer".to_string())),
         }
@@ -110,7 +119,7 @@ impl Value {
                 if n.float {
                     json!(n.f).to_string()
                 } else {
-                    json!(n.i).to_string()
+                    n.i.to_string()
                 }
             }
             Self::String(s) => json!(s).to_string(),
@@ -284,10 +293,13 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
+                } else if let Some(u) = n.as_u64() {
+                    Self::Number(Number::from(u))
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    // always some unless the arbitrary_precision feature of serde_json is on
+                    Self::Number(Number::from(n.as_f64().unwrap_or(f64::NAN)))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
@@ -338,7 +350,9 @@ impl TryFrom<&Value> for i64 {
         match v {
             Value::Number(n) => {
                 if !n.float {
-                    Ok(n.i)
+                    i64::try_from(n.i).map_err(|_| {
+                        CESRError::Conversion("integer out of range".to_string()).into()
+                    })
                 } else {
                     Ok(n.f as i64)
                 }
-- 
2.43.0


From fe436168458048b82560a885731a034d4f1f49d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 09/27] fix: judge empty next keys, backers and anchors alike
 in non-transferable prefix derivation and verification

---
 src/core/prefixer.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index dc74b3d..e8c778a 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -52,6 +52,17 @@ fn validate_code(code: &str) -> Result<()> {
     Ok(())
 }
 
+// 'n', 'b' and 'a' are lists in events, though an empty 'n' may also be an empty string
+fn is_empty(value: &Value) -> bool {
+    match value {
+        Value::Null => true,
+        Value::String(string) => string.is_empty(),
+        Value::Array(array) => array.is_empty(),
+        Value::Object(map) => map.is_empty(),
+        _ => false,
+    }
+}
+
 fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
@@ -110,17 +121,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
@@ -193,14 +204,9 @@ fn verify_nontransferable(ked: &Value, pre: &str, prefixed: bool) -> Result<bool
         return Ok(false);
     }
 
-    let label = Ids::n;
-    if map.contains_key(label) {
-        if ked[label].to_vec().is_ok() && !ked[label].to_vec()?.is_empty() {
-            return Ok(false);
-        }
-
-        // unsure if 'n' can be a single key. if it can't we can simplify all this
-        if ked[label].to_string().is_ok() && !ked[label].to_string()?.is_empty() {
+    // the same fields that must be empty for derivation
+    for label in [Ids::n, Ids::b, Ids::a] {
+        if map.contains_key(label) && !is_empty(&ked[label]) {
             return Ok(false);
         }
     }
-- 
2.43.0


From 3b261c8866e7a2485deb3a2faa4a54b8d28b536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 10/27] fix: refuse prefix derivation and verification of
 documents without an ilk instead of panicking

---
 src/core/prefixer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index e8c778a..2a06ac8 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -63,11 +63,18 @@ fn is_empty(value: &Value) -> bool {
     }
 }
 
+fn ilk(ked: &Value) -> Result<String> {
+    let label = Ids::t;
+    match ked.to_map()?.get(label) {
+        Some(ilk) => ilk.to_string(),
+        None => err!(Error::Value(format!("missing ilk field labelled={label}"))),
+    }
+}
+
 fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
-    let label = Ids::t;
-    let ilk = ked[label].to_string()?;
+    let ilk = ilk(ked)?;
     if !ILKS.contains(&ilk.as_str()) {
         return err!(Error::Value(format!("non-incepting ilk {ilk} found for prefix derivation")));
     }
@@ -337,8 +344,7 @@ impl Prefixer {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
         let prefixed = prefixed.unwrap_or(false);
-        let label = Ids::t;
-        let ilk = ked[label].to_string()?;
+        let ilk = ilk(ked)?;
         if !ILKS.contains(&ilk.as_str()) {
             return err!(Error::Value(format!(
                 "non-incepting ilk {ilk} found for prefix verification"
-- 
2.43.0


From 257cee13b9a84e691289f3be36322ed76358ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 11/27] fix: sum threshold weights exactly and refuse zero
 denominators

---
 src/core/tholder.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 822fc29..7330bf9 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -9,7 +9,7 @@ use crate::{
 };
 
 use lazy_static::lazy_static;
-use num_rational::Rational32;
+use num_rational::BigRational;
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Tholder {
@@ -26,13 +26,18 @@ impl Default for Tholder {
     }
 }
 
-fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
+// weights are summed exactly, and a common denominator soon outgrows machine integers
+fn rational(numer: i32, denom: i32) -> BigRational {
+    BigRational::new(numer.into(), denom.into())
+}
+
+fn values_to_rationals(value: &Value) -> Result<Vec<Vec<BigRational>>> {
     let threshold = value.to_vec()?;
     let separator = "/";
-    let mut clauses: Vec<Vec<Rational32>> = Vec::new();
+    let mut clauses: Vec<Vec<BigRational>> = Vec::new();
 
     for _clause in threshold {
-        let mut clause: Vec<Rational32> = Vec::new();
+        let mut clause: Vec<BigRational> = Vec::new();
         let _clause = _clause.to_vec()?;
         for weight in _clause {
             let weight = weight.to_string()?;
@@ -40,9 +45,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
             if parts.len() != 2 {
                 // must be 0 or 1
                 if parts[0] == "0" {
-                    clause.push(Rational32::new(0, 1));
+                    clause.push(rational(0, 1));
                 } else if parts[0] == "1" {
-                    clause.push(Rational32::new(1, 1));
+                    clause.push(rational(1, 1));
                 } else {
                     return err!(Error::Value("integral weight must be 0 or 1".to_string()));
                 }
@@ -52,23 +57,26 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 if numer < 0 || denom < 0 {
                     return err!(Error::Value("negative weights do not make sense".to_string()));
                 }
+                if denom == 0 {
+                    return err!(Error::Value(format!("weight {numer}/{denom} divides by zero")));
+                }
                 if numer > denom {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
-                clause.push(Rational32::new(numer, denom));
+                clause.push(rational(numer, denom));
             }
         }
         clauses.push(clause);
     }
 
     for clause in &*clauses {
-        let mut sum = Rational32::new(0, 1);
+        let mut sum = rational(0, 1);
 
         for weight in clause {
             sum += weight;
         }
 
-        if sum < Rational32::new(1, 1) {
+        if sum < rational(1, 1) {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -79,12 +87,12 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     Ok(clauses)
 }
 
-fn rationals_to_bext(clauses: &Vec<Vec<Rational32>>) -> String {
+fn rationals_to_bext(clauses: &Vec<Vec<BigRational>>) -> String {
     let mut envelope: Vec<String> = Vec::new();
     for clause in clauses {
         let mut text_clause: Vec<String> = Vec::new();
         for weight in clause {
-            if *weight.denom() == 1 {
+            if weight.is_integer() {
                 text_clause.push(format!("{n}", n = weight.numer()));
             } else {
                 text_clause.push(format!("{n}s{d}", n = weight.numer(), d = weight.denom()));
@@ -215,7 +223,7 @@ impl Tholder {
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
         lazy_static! {
-            static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
+            static ref RATIONAL_ONE: BigRational = rational(1, 1);
         }
 
         let mut indices = indices.to_vec();
@@ -231,7 +239,7 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = Rational32::new(0, 1);
+            let mut cw = rational(0, 1);
             for weight in clause {
                 if sats[wio] {
                     cw += weight;
@@ -370,7 +378,7 @@ impl Tholder {
         for clause in threshold {
             let mut inner: Vec<Value> = Vec::new();
             for weight in clause {
-                if *weight.denom() == 1 {
+                if weight.is_integer() {
                     inner.push(dat!(&format!("{n}", n = weight.numer())));
                 } else {
                     inner.push(dat!(&weight.to_string()));
-- 
2.43.0


From bb03cb0d0050383a0a383a0b7f0ce8e71cf88e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 12/27] fix: refuse empty threshold structures and weights with
 more than one slash

---
 src/core/tholder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 7330bf9..e7ee9bf 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -36,13 +36,20 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<BigRational>>> {
     let separator = "/";
     let mut clauses: Vec<Vec<BigRational>> = Vec::new();
 
+    // nothing would be required to satisfy it
+    if threshold.is_empty() {
+        return err!(Error::Value("empty weight list".to_string()));
+    }
+
     for _clause in threshold {
         let mut clause: Vec<BigRational> = Vec::new();
         let _clause = _clause.to_vec()?;
         for weight in _clause {
             let weight = weight.to_string()?;
             let parts: Vec<&str> = weight.split(separator).collect();
-            if parts.len() != 2 {
+            if parts.len() > 2 {
+                return err!(Error::Value(format!("invalid weight {weight}")));
+            } else if parts.len() == 1 {
                 // must be 0 or 1
                 if parts[0] == "0" {
                     clause.push(rational(0, 1));
-- 
2.43.0


From a548ca78ab71048c630e74ab707da7c50bb76769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 13/27] fix: ignore indices outside the key list when weighing
 a threshold

---
 src/core/tholder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index e7ee9bf..03b45b4 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -239,7 +239,10 @@ impl Tholder {
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
-            sats[index as usize] = true
+            // an index outside the key list contributes no weight
+            if let Some(sat) = sats.get_mut(index as usize) {
+                *sat = true;
+            }
         }
 
         let clauses = values_to_rationals(&self.thold())?;
-- 
2.43.0


From fdf4a08f27bae3a6ac359480deebed3178c91ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 14/27] fix: refuse truncated threshold material instead of
 panicking

---
 src/core/tholder.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 03b45b4..a664eab 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -3,6 +3,7 @@ use crate::{
         bexter::{tables as bexter, Bext, Bexter},
         matter::{tables as matter, Matter},
         number::{tables as number, Number},
+        util,
     },
     data::{dat, Array, Value},
     error::{err, Error, Result},
@@ -283,8 +284,12 @@ impl Tholder {
 
         let limen = String::from_utf8(limen.to_vec())?;
 
-        let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let hs = match limen.chars().next() {
+            Some(c) => matter::hardage(c)? as usize,
+            // unreachable - limen is not empty
+            None => return err!(Error::EmptyMaterial("empty limen".to_string())),
+        };
+        let code = util::b64_slice(&limen, 0, hs)?;
 
         if number::Codex::has_code(code) {
             let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
-- 
2.43.0


From 7eb60acb4d350508ce1bac147935a6c460bbbd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 15/27] fix: refuse events whose stated size exceeds the data
 instead of panicking

---
 src/core/common.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index 5a688bf..f257294 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -226,6 +226,13 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     if let Some(size) = size {
         match kind {
             Serialage::JSON => {
+                if raw.len() < size as usize {
+                    return err!(Error::Value(format!(
+                        "need more bytes than {bytes}, stated size = {size}",
+                        bytes = raw.len()
+                    )));
+                }
+
                 let v: serde_json::Value =
                     serde_json::from_str(&String::from_utf8(raw[..(size as usize)].to_vec())?)?;
                 Ok(Value::from(&v))
-- 
2.43.0


From 71a7c297446d773b9c79a9bcb2060f905232e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 16/27] fix: report missing fields and non-map documents as
 errors instead of panicking

---
 src/core/creder.rs |  6 +++---
 src/core/sadder.rs |  6 +++---
 src/core/saider.rs |  6 ++++--
 src/core/serder.rs |  6 +++---
 src/data.rs        | 10 ++++++++++
 5 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/core/creder.rs b/src/core/creder.rs
index 33b7962..6dc31f4 100644
--- a/src/core/creder.rs
+++ b/src/core/creder.rs
@@ -55,15 +55,15 @@ impl Creder {
     }
 
     pub fn issuer(&self) -> Result<String> {
-        self.ked()[Ids::i].to_string()
+        self.ked.get(Ids::i)?.to_string()
     }
 
     pub fn schema(&self) -> Result<String> {
-        self.ked()[Ids::s].to_string()
+        self.ked.get(Ids::s)?.to_string()
     }
 
     pub fn subject(&self) -> Value {
-        self.ked()[Ids::a].clone()
+        self.ked.get(Ids::a).cloned().unwrap_or(Value::Null)
     }
 
     pub fn status(&self) -> Result<Option<String>> {
diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 5ad2cc4..395c33b 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -114,7 +114,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.get(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -144,7 +144,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.get(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -174,7 +174,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.get(Ids::d)?.to_string()?),
             None,
         )?);
 
diff --git a/src/core/saider.rs b/src/core/saider.rs
index 1818b21..f3e22e4 100644
--- a/src/core/saider.rs
+++ b/src/core/saider.rs
@@ -61,7 +61,7 @@ fn derive(
     validate_code(code)?;
 
     let szg = matter::sizage(code)?;
-    let mut sad = sad.clone();
+    let mut sad = dat!(&sad.to_map()?);
 
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
 
@@ -233,7 +233,9 @@ impl Saider {
             return Ok(false);
         }
 
-        if prefixed && sad[label].to_string()? != self.qb64()? {
+        if prefixed
+            && sad.get(label).and_then(|said| said.to_string()).ok() != Some(self.qb64()?)
+        {
             return Ok(false);
         }
 
diff --git a/src/core/serder.rs b/src/core/serder.rs
index 8286e72..7cf4b26 100644
--- a/src/core/serder.rs
+++ b/src/core/serder.rs
@@ -133,7 +133,7 @@ impl Serder {
     pub fn sner(&self) -> Result<Number> {
         let label = Ids::s;
 
-        Number::new(None, Some(&self.ked[label].to_string()?), None, None, None, None, None)
+        Number::new(None, Some(&self.ked.get(label)?.to_string()?), None, None, None, None, None)
     }
 
     pub fn sn(&self) -> Result<u128> {
@@ -173,7 +173,7 @@ impl Serder {
 
     pub fn pre(&self) -> Result<String> {
         let label = Ids::i;
-        self.ked[label].to_string()
+        self.ked.get(label)?.to_string()
     }
 
     pub fn preb(&self) -> Result<Vec<u8>> {
@@ -184,7 +184,7 @@ impl Serder {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::rot, Ilkage::dip, Ilkage::drt];
 
         let label = Ids::t;
-        let ilk = self.ked[label].to_string()?;
+        let ilk = self.ked.get(label)?.to_string()?;
 
         Ok(ILKS.contains(&ilk.as_str()))
     }
diff --git a/src/data.rs b/src/data.rs
index 7b5e027..8c9c2a2 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -111,6 +111,16 @@ impl Value {
         }
     }
 
+    pub(crate) fn get(&self, label: &str) -> Result<&Value> {
+        match self {
+            Self::Object(map) => match map.get(label) {
+                Some(value) => Ok(value),
+                None => err!(CESRError::Value(format!("missing field labelled={label}"))),
+            },
+            _ => err!(CESRError::Conversion("cannot convert to map".to_string())),
+        }
+    }
+
     pub fn to_json(&self) -> Result<String> {
         Ok(match self {
             Self::Null => "null".to_string(),
-- 
2.43.0


From 1c900f611c530c6ddba422e4ca8a683ce63e8875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 17/27] fix: cut pretty printed events at a character, not in
 the middle of one

---
 src/core/sadder.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 395c33b..c5f4d44 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -200,10 +200,9 @@ pub trait Sadder: Default + Clone {
         match serde_json::to_string_pretty(&v) {
             Ok(s) => {
                 let size = size.unwrap_or(1024);
-                if s.len() > size {
-                    Ok(s[..size].to_string())
-                } else {
-                    Ok(s)
+                match s.char_indices().nth(size) {
+                    Some((end, _)) => Ok(s[..end].to_string()),
+                    None => Ok(s),
                 }
             }
             // pretty sure this is unreachable unless we borked .to_json()
-- 
2.43.0


From 7d90c117765b4017c775cf9e96591b86cebe3285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 18/27] fix: sniff events whatever bytes follow them

---
 src/core/common.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index f257294..a3da894 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -2,7 +2,7 @@ use crate::data::{dat, Value};
 use crate::error::{err, Error, Result};
 
 use lazy_static::lazy_static;
-use regex::Regex;
+use regex::{bytes::Regex as BytesRegex, Regex};
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct SizeifyResult {
@@ -261,6 +261,7 @@ pub(crate) fn dumps(ked: &Value, kind: Option<&str>) -> Result<Vec<u8>> {
 pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
     lazy_static! {
         static ref REVER: Regex = Regex::new(REVER_STRING).unwrap();
+        static ref REVER_BYTES: BytesRegex = BytesRegex::new(REVER_STRING).unwrap();
     };
 
     if raw.len() < MINIMUM_SNIFF_SIZE {
@@ -270,8 +271,8 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let raw = &String::from_utf8(raw.to_vec())?;
-    let start = match REVER.shortest_match(raw) {
+    // what follows the event (attachments, in the binary domain too) need not be text
+    let start = match REVER_BYTES.shortest_match(raw) {
         Some(m) => m - VERSION_FULL_SIZE,
         None => return err!(Error::Value(format!("invalid version string in raw = {raw:?}"))),
     };
@@ -282,7 +283,7 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let vs = &raw[start..(start + VERSION_FULL_SIZE)];
+    let vs = std::str::from_utf8(&raw[start..(start + VERSION_FULL_SIZE)])?;
 
     let ident = REVER.replace_all(vs, "$ident").to_string();
     let major = u8::from_str_radix(&REVER.replace_all(vs, "$major"), 16)?;
-- 
2.43.0


From 91b2bfbe1db9e0cc07f8f10d58fc7a1893779e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 19/27] fix: refuse documents whose first version string is not
 in the version field

---
 src/core/common.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index a3da894..b4e9849 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -191,6 +191,11 @@ pub fn sizeify(ked: &Value, kind: Option<&str>) -> Result<SizeifyResult> {
     let mut ked = ked.clone();
     ked["v"] = dat!(&vs);
 
+    // the version string found first must be the one in the version field
+    if dumps(&ked, Some(&kind))? != raw {
+        return err!(Error::Value(format!("misplaced version string in raw = {raw:?}")));
+    }
+
     Ok(SizeifyResult { raw, ident: result.ident, kind, ked, version: result.version })
 }
 
-- 
2.43.0


From 89bb4267876c56e2a3bbac70271742552ab26095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 20/27] fix: strip exactly the leading components of a path

---
 src/core/pather.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 0cd679d..5b8b347 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -134,22 +134,13 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
-        let mut path = self.path()?.to_vec()?;
+        let root_path = root.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
 
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
-        if root_path.len() > path.len() {
-            return Ok(self.clone());
-        }
-
-        root_path.reverse();
-        for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
+        match path.strip_prefix(root_path.as_slice()) {
+            Some(path) => Pather::new_with_path(&dat!(path)),
+            None => Ok(self.clone()),
         }
-
-        Pather::new_with_path(&dat!(path.as_slice()))
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-- 
2.43.0


From 5c55a6d5449d06fb85450c03118f8bf83e475001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 21/27] fix: refuse datetimes of the wrong length instead of
 truncating them

---
 src/core/dater.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/dater.rs b/src/core/dater.rs
index 81d8ddd..f9893e2 100644
--- a/src/core/dater.rs
+++ b/src/core/dater.rs
@@ -14,6 +14,9 @@ impl Default for Dater {
     }
 }
 
+// length of an iso 8601 datetime with microseconds and offset
+const DATE_TIME_SIZE: usize = 32;
+
 fn validate_code(code: &str) -> Result<()> {
     if code != matter::Codex::DateTime {
         return err!(Error::UnexpectedCode(code.to_string()));
@@ -53,6 +56,12 @@ impl Dater {
 
         let dater: Self = if raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() {
             let b64 = if let Some(dts) = dts { iso_8601_to_b64(dts) } else { now_as_b64() };
+
+            // anything longer would be truncated silently
+            if b64.len() != DATE_TIME_SIZE {
+                return err!(Error::Value(format!("invalid date time {b64}")));
+            }
+
             let qb64 = format!("{}{}", matter::Codex::DateTime, &b64);
             Matter::new(code, raw, qb64b, Some(&qb64), qb2)?
         } else {
-- 
2.43.0


From 773b7ad33224e443f1ea7768eb90ffc727cdaa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 22/27] fix: leave no unwiped copies of seeds and salts in
 released memory

---
 src/core/matter/mod.rs |  6 +++---
 src/core/salter.rs     | 11 ++++-------
 src/core/signer.rs     | 17 +++++++++--------
 src/core/util.rs       |  3 +++
 4 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 91d8c0e..b475c06 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -129,10 +129,10 @@ pub trait Matter: Default {
     where
         Self: Sized,
     {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = std::str::from_utf8(qb64b)?;
 
         let mut matter = Self::default();
-        matter.exfil(&qb64)?;
+        matter.exfil(qb64)?;
         Ok(matter)
     }
 
@@ -150,7 +150,7 @@ pub trait Matter: Default {
     }
 
     fn qb64b(&self) -> Result<Vec<u8>> {
-        Ok(self.qb64()?.as_bytes().to_vec())
+        Ok(self.qb64()?.into_bytes())
     }
 
     fn qb2(&self) -> Result<Vec<u8>> {
diff --git a/src/core/salter.rs b/src/core/salter.rs
index 9eb5e90..7f2cdbb 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -1,4 +1,4 @@
-use zeroize::{Zeroize, ZeroizeOnDrop};
+use zeroize::{Zeroize, ZeroizeOnDrop, Zeroizing};
 
 use crate::{
     core::{
@@ -93,7 +93,7 @@ impl Salter {
         let path = path.unwrap_or("");
         let size = size.unwrap_or(32);
 
-        let seed = salt::stretch(path.as_bytes(), &self.raw(), size, tier)?;
+        let seed = salt::stretch(path.as_bytes(), &self.raw, size, tier)?;
 
         Ok(seed)
     }
@@ -116,12 +116,9 @@ impl Salter {
         let temp = temp.unwrap_or(false);
 
         let size = matter::raw_size(code)?;
-        let mut seed = self.stretch(Some(size as usize), Some(path), tier, Some(temp))?;
+        let seed = Zeroizing::new(self.stretch(Some(size as usize), Some(path), tier, Some(temp))?);
 
-        let signer = Signer::new(Some(transferable), Some(code), Some(&seed), None, None, None)?;
-        seed.zeroize();
-
-        Ok(signer)
+        Signer::new(Some(transferable), Some(code), Some(&seed), None, None, None)
     }
 
     #[allow(clippy::too_many_arguments)]
diff --git a/src/core/signer.rs b/src/core/signer.rs
index ce44db3..d6abb88 100644
--- a/src/core/signer.rs
+++ b/src/core/signer.rs
@@ -1,4 +1,4 @@
-use zeroize::{Zeroize, ZeroizeOnDrop};
+use zeroize::{ZeroizeOnDrop, Zeroizing};
 
 use crate::core::{
     cigar::Cigar,
@@ -105,10 +105,11 @@ impl Signer {
         let mut signer: Signer = if qb64b.is_none() && qb64.is_none() && qb2.is_none() {
             let code = code.unwrap_or(matter::Codex::Ed25519_Seed);
             validate_code(code)?;
-            let mut raw = if let Some(raw) = raw { raw.to_vec() } else { sign::generate(code)? };
-            let matter = Matter::new(Some(code), Some(&raw), None, None, None)?;
-            raw.zeroize();
-            matter
+            let raw = Zeroizing::new(match raw {
+                Some(raw) => raw.to_vec(),
+                None => sign::generate(code)?,
+            });
+            Matter::new(Some(code), Some(&raw), None, None, None)?
         } else {
             let signer: Self = Matter::new(code, raw, qb64b, qb64, qb2)?;
             validate_code(&signer.code())?;
@@ -151,7 +152,7 @@ impl Signer {
             _ => return err!(Error::UnexpectedCode(self.code())),
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code(), &self.raw, ser)?;
         Cigar::new(Some(&self.verfer()), Some(code), Some(&sig), None, None, None)
     }
 
@@ -203,7 +204,7 @@ impl Signer {
             (code, Some(ondex))
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code(), &self.raw, ser)?;
         Siger::new(
             Some(&self.verfer()),
             Some(index),
@@ -221,7 +222,7 @@ impl Signer {
     }
 
     fn derive_and_assign_verfer(&mut self, transferable: bool) -> Result<()> {
-        self.verfer = derive_verfer(&self.code(), &self.raw(), transferable)?;
+        self.verfer = derive_verfer(&self.code(), &self.raw, transferable)?;
         Ok(())
     }
 }
diff --git a/src/core/util.rs b/src/core/util.rs
index dbddb40..122cb18 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -267,6 +267,9 @@ pub fn nab_sextets(binary: &[u8], count: usize) -> Result<Vec<u8>> {
         return err!(Error::TooSmall(n - binary.len()));
     }
 
+    // no more than is asked for: what follows may be secret
+    let binary = &binary[..n];
+
     let bps = 3 - (binary.len() % 3);
     let mut padded = vec![0; binary.len() + bps];
     padded[..binary.len()].copy_from_slice(binary);
-- 
2.43.0


From 58fa9728d57d5dff490fe0f5dc7c08d6eb128fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 23/27] fix: keep the high half of 128-bit integers in the
 bindings

---
 wasm/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/util.rs b/wasm/src/util.rs
index 5e76457..f7d1490 100644
--- a/wasm/src/util.rs
+++ b/wasm/src/util.rs
@@ -15,7 +15,7 @@ impl From<u128> for U128Wrapper {
 
 impl From<U128Wrapper> for u128 {
     fn from(val: U128Wrapper) -> Self {
-        u128::from(val.high) | u128::from(val.low)
+        (u128::from(val.high) << 64) | u128::from(val.low)
     }
 }
 
-- 
2.43.0


From 8704bd2540811fc54d18c5aa0cff3ff43d6ee076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 24/27] fix: return the event from the bindings instead of
 panicking

---
 wasm/src/primitives/serder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/primitives/serder.rs b/wasm/src/primitives/serder.rs
index c85d597..039db97 100644
--- a/wasm/src/primitives/serder.rs
+++ b/wasm/src/primitives/serder.rs
@@ -111,7 +111,7 @@ impl SerderWrapper {
     }
 
     pub fn ked(&self) -> ValueWrapper {
-        let value = self.0.ked().to_string().expect("unable unwrap value");
+        let value = self.0.ked().to_json().expect("unable unwrap value");
         ValueWrapper(value)
     }
 
-- 
2.43.0


From 845a2cbe31f0a6a432aca8a7b767655f1c94a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 25/27] fix: return the saidified document from the bindings
 instead of panicking

---
 wasm/src/primitives/saider.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/wasm/src/primitives/saider.rs b/wasm/src/primitives/saider.rs
index be57d62..98ec015 100644
--- a/wasm/src/primitives/saider.rs
+++ b/wasm/src/primitives/saider.rs
@@ -78,10 +78,8 @@ impl SaiderWrapper {
             ignore,
         )
         .as_js()?;
-        Ok(SaidifyRet {
-            saider: SaiderWrapper(ret.0),
-            value: ret.1.to_string().expect("unable unwrap value"),
-        })
+        let value = ret.1.to_json().as_js()?;
+        Ok(SaidifyRet { saider: SaiderWrapper(ret.0), value })
     }
 
     pub fn verify(
-- 
2.43.0


From 11a9599204c04fa5b9c880eaf06cf724fc53588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 26/27] fix: refuse Base64 counts that do not fit 32 bits
 instead of wrapping

---
 src/core/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/util.rs b/src/core/util.rs
index 122cb18..bdf2ec0 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -157,6 +157,9 @@ pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
     for c in b64.chars() {
+        if out >> 26 != 0 {
+            return err!(Error::Conversion(format!("value too large: b64 = '{b64}'")));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u32);
     }
 
-- 
2.43.0


From 24eb31e4de926d1ad4499df797bd3635905a24fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:18 +0000
Subject: [PATCH 27/27] fix: refuse signed digits in numbers, sequence numbers
 and thresholds

---
 src/core/number.rs  | 7 +++++--
 src/core/seqner.rs  | 7 +++++--
 src/core/tholder.rs | 6 +++---
 src/core/util.rs    | 9 +++++++++
 4 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/core/number.rs b/src/core/number.rs
index 6ec998a..661c381 100644
--- a/src/core/number.rs
+++ b/src/core/number.rs
@@ -1,4 +1,7 @@
-use crate::core::matter::{tables as matter, Matter};
+use crate::core::{
+    matter::{tables as matter, Matter},
+    util,
+};
 use crate::error::{err, Error, Result};
 
 #[derive(Debug, Clone, PartialEq)]
@@ -58,7 +61,7 @@ impl Number {
                 if numh.is_empty() {
                     0
                 } else {
-                    u128::from_str_radix(numh, 16)?
+                    u128::from_str_radix(util::unsigned(numh)?, 16)?
                 }
             } else {
                 0
diff --git a/src/core/seqner.rs b/src/core/seqner.rs
index 45f0e47..3efd48f 100644
--- a/src/core/seqner.rs
+++ b/src/core/seqner.rs
@@ -1,4 +1,7 @@
-use crate::core::matter::{tables as matter, Matter};
+use crate::core::{
+    matter::{tables as matter, Matter},
+    util,
+};
 use crate::error::{err, Error, Result};
 
 #[derive(Debug, Clone, PartialEq)]
@@ -40,7 +43,7 @@ impl Seqner {
                 let sn = if let Some(sn) = sn {
                     sn
                 } else if let Some(snh) = snh {
-                    u128::from_str_radix(snh, 16)?
+                    u128::from_str_radix(util::unsigned(snh)?, 16)?
                 } else {
                     0_u128
                 };
diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index a664eab..4bca796 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -60,8 +60,8 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<BigRational>>> {
                     return err!(Error::Value("integral weight must be 0 or 1".to_string()));
                 }
             } else {
-                let numer = parts[0].parse::<i32>()?;
-                let denom = parts[1].parse::<i32>()?;
+                let numer = util::unsigned(parts[0])?.parse::<i32>()?;
+                let denom = util::unsigned(parts[1])?.parse::<i32>()?;
                 if numer < 0 || denom < 0 {
                     return err!(Error::Value("negative weights do not make sense".to_string()));
                 }
@@ -333,7 +333,7 @@ impl Tholder {
                 let v: serde_json::Value = serde_json::from_str(&s)?;
                 sith = Value::from(&v);
             } else {
-                let thold = i64::from_str_radix(&s, 16)?;
+                let thold = i64::from_str_radix(util::unsigned(&s)?, 16)?;
                 self.process_unweighted(thold)?;
                 return Ok(());
             }
diff --git a/src/core/util.rs b/src/core/util.rs
index bdf2ec0..361a666 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -153,6 +153,15 @@ pub fn b64_slice(qb64: &str, start: usize, end: usize) -> Result<&str> {
     }
 }
 
+/// Refuses signs, which integer parsing in the standard library lets through.
+pub fn unsigned(digits: &str) -> Result<&str> {
+    if digits.starts_with(['+', '-']) {
+        return err!(Error::Value(format!("unexpected sign in number = '{digits}'")));
+    }
+
+    Ok(digits)
+}
+
 pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
-- 
2.43.0

