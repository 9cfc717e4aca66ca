From fde24ce0f3ae8942c108634fe72b971b25670e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 01/16] fix: refuse padded, short-lead and non-ASCII primitives
 instead of panicking or accepting them

---
 src/core/matter/mod.rs | 50 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 09022ad..7a582f4 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -52,6 +52,13 @@ pub trait Matter: Default {
         // this unwrap can stay since we have validated that code is not empty, above
         let first = code.chars().next().unwrap();
 
+        // variable length codes are sliced below, by hard size
+        if (tables::SMALL_VRZ_DEX.contains(&first) || tables::LARGE_VRZ_DEX.contains(&first))
+            && code.get(..tables::hardage(first)? as usize).is_none()
+        {
+            return err!(Error::InvalidCodeSize(format!("malformed code: code = '{code}'")));
+        }
+
         let mut code = code.to_string();
         let rize =
             if tables::SMALL_VRZ_DEX.contains(&first) || tables::LARGE_VRZ_DEX.contains(&first) {
@@ -333,8 +340,10 @@ pub trait Matter: Default {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = match qb64.get(..hs) {
+            Some(hard) => hard,
+            None => return err!(Error::ParseQb64("non-ascii hard part of code".to_string())),
+        };
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -353,7 +362,10 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
-            let soft = &qb64[szg.hs as usize..cs as usize];
+            let soft = match qb64.get(szg.hs as usize..cs as usize) {
+                Some(soft) => soft,
+                None => return err!(Error::ParseQb64("non-ascii soft part of code".to_string())),
+            };
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
         } else {
@@ -367,7 +379,10 @@ pub trait Matter: Default {
             )));
         }
 
-        let trim = &qb64[..fs as usize];
+        let trim = match qb64.get(..fs as usize) {
+            Some(trim) if trim.is_ascii() => trim,
+            _ => return err!(Error::ParseQb64("non-ascii material".to_string())),
+        };
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
@@ -377,8 +392,15 @@ pub trait Matter: Default {
             // decode base to leave pre-padded raw
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE.decode_vec(&buf, &mut paw)?;
+            let full = buf.len() * 3 / 4;
             buf.zeroize();
 
+            // qualified material has no room for base64 padding characters
+            if paw.len() != full {
+                paw.zeroize();
+                return err!(Error::ParseQb64("unexpected base64 padding".to_string()));
+            }
+
             let mut pi: i32 = 0;
             // readInt
             for b in &paw[..ps as usize] {
@@ -396,6 +418,19 @@ pub trait Matter: Default {
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
 
+            // qualified material has no room for base64 padding characters
+            if paw.len() != (trim.len() - cs as usize) * 3 / 4 {
+                return err!(Error::ParseQb64("unexpected base64 padding".to_string()));
+            }
+
+            if paw.len() < szg.ls as usize {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for lead: size = {}, ls = {}",
+                    paw.len(),
+                    szg.ls
+                )));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
@@ -470,6 +505,13 @@ pub trait Matter: Default {
             )));
         }
 
+        if bfs < bcs + szg.ls {
+            return err!(Error::Shortage(format!(
+                "insufficient material for lead: bfs = {bfs}, bcs = {bcs}, ls = {}",
+                szg.ls
+            )));
+        }
+
         let mut trim = qb2[..bfs as usize].to_vec();
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
-- 
2.43.0


From 658264aae126191f609daebd82e1b7b653a53180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 02/16] fix: bound the indexed signature other index by its own
 width and refuse padded or non-ASCII material

---
 src/core/indexer/mod.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 8510ae6..398b61b 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -130,7 +130,7 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        let rize = (fs - cs) * 3 / 4;
+        let rize = (fs - cs) * 3 / 4 - szg.ls;
         if raw.len() < rize as usize {
             return err!(Error::Shortage(format!(
                 "insufficient raw material: raw size = '{}', rize = '{rize}'",
@@ -292,13 +292,13 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
         }
 
-        if szg.os == 1 && ondex > 64_u32.pow(szg.os) - 1 {
+        if szg.os > 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{}' and code = '{code}'.",
                 szg.os
@@ -393,7 +393,10 @@ pub trait Indexer: Default {
             )));
         }
 
-        let hard = &qb64[..hs];
+        let hard = match qb64.get(..hs) {
+            Some(hard) => hard,
+            None => return err!(Error::ParseQb64("non-ascii hard part of code".to_owned())),
+        };
         let szg = tables::sizage(hard)?;
 
         // both hard + soft code size
@@ -407,6 +410,10 @@ pub trait Indexer: Default {
             )));
         }
 
+        if !qb64.as_bytes()[..cs as usize].is_ascii() {
+            return err!(Error::ParseQb64("non-ascii code".to_owned()));
+        }
+
         let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
         let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
 
@@ -457,7 +464,10 @@ pub trait Indexer: Default {
             )));
         }
 
-        let qb64 = &qb64[..fs as usize];
+        let qb64 = match qb64.get(..fs as usize) {
+            Some(qb64) => qb64,
+            None => return err!(Error::ParseQb64("non-ascii material".to_owned())),
+        };
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
@@ -466,7 +476,12 @@ pub trait Indexer: Default {
             buf.push_str(&qb64[(cs as usize)..]);
 
             let mut paw = Vec::<u8>::new();
-            base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            base64::engine::general_purpose::URL_SAFE.decode_vec(&buf, &mut paw)?;
+
+            // qualified material has no room for base64 padding characters
+            if paw.len() != buf.len() * 3 / 4 {
+                return err!(Error::ParseQb64("unexpected base64 padding".to_owned()));
+            }
 
             let mut pi: i32 = 0;
             for b in &paw[..ps as usize] {
@@ -483,6 +498,11 @@ pub trait Indexer: Default {
             let mut paw = Vec::<u8>::new();
             base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
 
+            // qualified material has no room for base64 padding characters
+            if paw.len() != buf.len() * 3 / 4 {
+                return err!(Error::ParseQb64("unexpected base64 padding".to_owned()));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
@@ -496,7 +516,7 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
         self.set_code(hard);
-- 
2.43.0


From c943f445624f65ac452116e9007bc8a70f1434c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 03/16] fix: refuse truncated or non-ASCII counters instead of
 panicking

---
 src/core/counter/mod.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/core/counter/mod.rs b/src/core/counter/mod.rs
index 34edbfb..dd860d6 100644
--- a/src/core/counter/mod.rs
+++ b/src/core/counter/mod.rs
@@ -217,8 +217,15 @@ impl Counter {
             return err!(Error::EmptyMaterial("empty qb64".to_string()));
         }
 
-        // we validated there will be a char here, above.
-        let first = &qb64[..2];
+        let first = match qb64.get(..2) {
+            Some(first) => first,
+            None => {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for code selector: qb64 size = {}",
+                    qb64.len()
+                )))
+            }
+        };
 
         let hs = tables::hardage(first)? as usize;
         if qb64.len() < hs {
@@ -228,8 +235,10 @@ impl Counter {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = match qb64.get(..hs) {
+            Some(hard) => hard,
+            None => return err!(Error::ParseQb64("non-ascii hard part of code".to_string())),
+        };
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -240,7 +249,10 @@ impl Counter {
             )));
         }
 
-        let count_b64 = &qb64[szg.hs as usize..cs as usize];
+        let count_b64 = match qb64.get(szg.hs as usize..cs as usize) {
+            Some(count_b64) => count_b64,
+            None => return err!(Error::ParseQb64("non-ascii soft part of code".to_string())),
+        };
         let count = util::b64_to_u64(count_b64)? as u32;
 
         self.code = hard.to_string();
-- 
2.43.0


From 895fc455b106f137d8e31b53294e3c6596ba6a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 04/16] fix: refuse base64 values that do not fit instead of
 silently wrapping

---
 src/core/util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/util.rs b/src/core/util.rs
index 0ac0b2e..c206b8e 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -146,6 +146,9 @@ pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
     for c in b64.chars() {
+        if out > u32::MAX >> 6 {
+            return err!(Error::Conversion(format!("base64 value too large: b64 = '{b64}'")));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u32);
     }
 
@@ -156,6 +159,9 @@ pub fn b64_to_u64(b64: &str) -> Result<u64> {
     let mut out: u64 = 0;
 
     for c in b64.chars() {
+        if out > u64::MAX >> 6 {
+            return err!(Error::Conversion(format!("base64 value too large: b64 = '{b64}'")));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u64);
     }
 
-- 
2.43.0


From 2ec41ee02a5932f64fa7b3112b6f19b9ceca68e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 05/16] fix: read a primitive from bytes without requiring the
 rest of the stream to be text

---
 src/core/counter/mod.rs |  4 ++--
 src/core/indexer/mod.rs |  4 ++--
 src/core/matter/mod.rs  |  4 ++--
 src/core/util.rs        | 13 +++++++++++++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/core/counter/mod.rs b/src/core/counter/mod.rs
index dd860d6..5afcbd4 100644
--- a/src/core/counter/mod.rs
+++ b/src/core/counter/mod.rs
@@ -138,10 +138,10 @@ impl Counter {
     }
 
     pub fn new_with_qb64b(qb64b: &[u8]) -> Result<Self> {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = util::leading_text(qb64b)?;
 
         let mut counter: Counter = Default::default();
-        counter.exfil(&qb64)?;
+        counter.exfil(qb64)?;
         Ok(counter)
     }
 
diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 398b61b..417e925 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -160,10 +160,10 @@ pub trait Indexer: Default {
     where
         Self: Sized,
     {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = util::leading_text(qb64b)?;
 
         let mut i: Self = Self::default();
-        i.exfil(&qb64)?;
+        i.exfil(qb64)?;
         Ok(i)
     }
 
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 7a582f4..803261f 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -133,10 +133,10 @@ pub trait Matter: Default {
     where
         Self: Sized,
     {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
+        let qb64 = util::leading_text(qb64b)?;
 
         let mut matter = Self::default();
-        matter.exfil(&qb64)?;
+        matter.exfil(qb64)?;
         Ok(matter)
     }
 
diff --git a/src/core/util.rs b/src/core/util.rs
index c206b8e..5c58dab 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -218,6 +218,16 @@ pub fn u64_to_b64(n: u64, length: usize) -> Result<String> {
     Ok(out)
 }
 
+/// The leading part of some bytes which is text. A primitive in the text domain may be followed by
+/// anything at all, so the trailing bytes of a stream are not its concern.
+pub(crate) fn leading_text(bytes: &[u8]) -> Result<&str> {
+    match std::str::from_utf8(bytes) {
+        Ok(text) => Ok(text),
+        Err(e) if e.valid_up_to() > 0 => Ok(std::str::from_utf8(&bytes[..e.valid_up_to()])?),
+        Err(e) => Err(e.into()),
+    }
+}
+
 pub fn code_b2_to_b64(b2: &[u8], length: usize) -> Result<String> {
     if length == 0 {
         return Ok("".to_string());
@@ -262,6 +272,9 @@ pub fn nab_sextets(binary: &[u8], count: usize) -> Result<Vec<u8>> {
         return err!(Error::TooSmall(n - binary.len()));
     }
 
+    // only the leading bytes carry the requested sextets
+    let binary = &binary[..n];
+
     let bps = 3 - (binary.len() % 3);
     let mut padded = vec![0; binary.len() + bps];
     padded[..binary.len()].copy_from_slice(binary);
-- 
2.43.0


From f0adcaf1997574c26d9311d2de8b84488c6f43a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 06/16] fix: refuse truncated messages instead of panicking and
 ignore what follows a message

---
 src/core/common.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index 5a688bf..9fd5fb6 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -1,3 +1,4 @@
+use crate::core::util;
 use crate::data::{dat, Value};
 use crate::error::{err, Error, Result};
 
@@ -224,10 +225,20 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     let kind = kind.unwrap_or(Serialage::JSON);
 
     if let Some(size) = size {
+        let raw = match raw.get(..(size as usize)) {
+            Some(raw) => raw,
+            None => {
+                return err!(Error::Shortage(format!(
+                    "need more bytes: raw size = {}, size = {size}",
+                    raw.len()
+                )))
+            }
+        };
+
         match kind {
             Serialage::JSON => {
                 let v: serde_json::Value =
-                    serde_json::from_str(&String::from_utf8(raw[..(size as usize)].to_vec())?)?;
+                    serde_json::from_str(&String::from_utf8(raw.to_vec())?)?;
                 Ok(Value::from(&v))
             }
             _ => err!(Error::Validation(format!("invalid serialization kind {kind}"))),
@@ -263,7 +274,8 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let raw = &String::from_utf8(raw.to_vec())?;
+    // the version string must be found near the start, whatever follows the message is irrelevant
+    let raw = util::leading_text(&raw[..MINIMUM_SNIFF_SIZE])?;
     let start = match REVER.shortest_match(raw) {
         Some(m) => m - VERSION_FULL_SIZE,
         None => return err!(Error::Value(format!("invalid version string in raw = {raw:?}"))),
-- 
2.43.0


From 9d04f018c0c63214509ece8f3ecedad58d7a6c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 07/16] fix: report missing fields of messages, credentials and
 identifiers instead of panicking

---
 src/core/common.rs   |  3 +--
 src/core/creder.rs   |  6 +++---
 src/core/prefixer.rs |  4 ++--
 src/core/sadder.rs   |  6 +++---
 src/core/saider.rs   |  4 ++--
 src/core/serder.rs   |  6 +++---
 src/data.rs          | 11 +++++++++++
 7 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index 9fd5fb6..cb3bb08 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -237,8 +237,7 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
 
         match kind {
             Serialage::JSON => {
-                let v: serde_json::Value =
-                    serde_json::from_str(&String::from_utf8(raw.to_vec())?)?;
+                let v: serde_json::Value = serde_json::from_str(&String::from_utf8(raw.to_vec())?)?;
                 Ok(Value::from(&v))
             }
             _ => err!(Error::Validation(format!("invalid serialization kind {kind}"))),
diff --git a/src/core/creder.rs b/src/core/creder.rs
index 33b7962..67159f1 100644
--- a/src/core/creder.rs
+++ b/src/core/creder.rs
@@ -55,15 +55,15 @@ impl Creder {
     }
 
     pub fn issuer(&self) -> Result<String> {
-        self.ked()[Ids::i].to_string()
+        self.ked.field(Ids::i)?.to_string()
     }
 
     pub fn schema(&self) -> Result<String> {
-        self.ked()[Ids::s].to_string()
+        self.ked.field(Ids::s)?.to_string()
     }
 
     pub fn subject(&self) -> Value {
-        self.ked()[Ids::a].clone()
+        self.ked.field(Ids::a).cloned().unwrap_or(Value::Null)
     }
 
     pub fn status(&self) -> Result<Option<String>> {
diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 228cef4..764850c 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -56,7 +56,7 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
     let label = Ids::t;
-    let ilk = ked[label].to_string()?;
+    let ilk = ked.field(label)?.to_string()?;
     if !ILKS.contains(&ilk.as_str()) {
         return err!(Error::Value(format!("non-incepting ilk {ilk} found for prefix derivation")));
     }
@@ -330,7 +330,7 @@ impl Prefixer {
 
         let prefixed = prefixed.unwrap_or(false);
         let label = Ids::t;
-        let ilk = ked[label].to_string()?;
+        let ilk = ked.field(label)?.to_string()?;
         if !ILKS.contains(&ilk.as_str()) {
             return err!(Error::Value(format!(
                 "non-incepting ilk {ilk} found for prefix verification"
diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 5ad2cc4..2d2ea30 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -114,7 +114,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -144,7 +144,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -174,7 +174,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
diff --git a/src/core/saider.rs b/src/core/saider.rs
index 1818b21..7c7365c 100644
--- a/src/core/saider.rs
+++ b/src/core/saider.rs
@@ -61,7 +61,7 @@ fn derive(
     validate_code(code)?;
 
     let szg = matter::sizage(code)?;
-    let mut sad = sad.clone();
+    let mut sad = Value::Object(sad.to_map()?);
 
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
 
@@ -233,7 +233,7 @@ impl Saider {
             return Ok(false);
         }
 
-        if prefixed && sad[label].to_string()? != self.qb64()? {
+        if prefixed && sad.field(label)?.to_string()? != self.qb64()? {
             return Ok(false);
         }
 
diff --git a/src/core/serder.rs b/src/core/serder.rs
index 8286e72..c627b71 100644
--- a/src/core/serder.rs
+++ b/src/core/serder.rs
@@ -133,7 +133,7 @@ impl Serder {
     pub fn sner(&self) -> Result<Number> {
         let label = Ids::s;
 
-        Number::new(None, Some(&self.ked[label].to_string()?), None, None, None, None, None)
+        Number::new(None, Some(&self.ked.field(label)?.to_string()?), None, None, None, None, None)
     }
 
     pub fn sn(&self) -> Result<u128> {
@@ -173,7 +173,7 @@ impl Serder {
 
     pub fn pre(&self) -> Result<String> {
         let label = Ids::i;
-        self.ked[label].to_string()
+        self.ked.field(label)?.to_string()
     }
 
     pub fn preb(&self) -> Result<Vec<u8>> {
@@ -184,7 +184,7 @@ impl Serder {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::rot, Ilkage::dip, Ilkage::drt];
 
         let label = Ids::t;
-        let ilk = self.ked[label].to_string()?;
+        let ilk = self.ked.field(label)?.to_string()?;
 
         Ok(ILKS.contains(&ilk.as_str()))
     }
diff --git a/src/data.rs b/src/data.rs
index b96be4d..948d845 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -102,6 +102,17 @@ impl Value {
         }
     }
 
+    /// Looks up a field which may be missing, or asked of something which has no fields at all.
+    pub(crate) fn field(&self, label: &str) -> Result<&Value> {
+        match self {
+            Self::Object(map) => match map.get(label) {
+                Some(value) => Ok(value),
+                None => err!(CESRError::Value(format!("missing field: label = '{label}'"))),
+            },
+            _ => err!(CESRError::Conversion("cannot look up a field of a non-map".to_string())),
+        }
+    }
+
     pub fn to_json(&self) -> Result<String> {
         Ok(match self {
             Self::Null => "null".to_string(),
-- 
2.43.0


From b80fa871ab20ec392594e708bb59365bf18f36cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 08/16] fix: keep large integers and exponent floats of JSON
 documents instead of panicking

---
 src/data.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 948d845..29679ce 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -16,7 +16,7 @@ pub type Object = IndexMap<String, Value>;
 #[derive(Debug, PartialEq, Clone)]
 pub struct Number {
     f: f64,
-    i: i64,
+    i: i128,
     float: bool,
 }
 
@@ -28,7 +28,13 @@ impl From<f64> for Number {
 
 impl From<i64> for Number {
     fn from(i: i64) -> Self {
-        Self { f: 0.0, i, float: false }
+        Self { f: 0.0, i: i as i128, float: false }
+    }
+}
+
+impl From<u64> for Number {
+    fn from(i: u64) -> Self {
+        Self { f: 0.0, i: i as i128, float: false }
     }
 }
 
@@ -67,7 +73,7 @@ impl Value {
                     ));
                 }
 
-                Ok(number.i)
+                Ok(i64::try_from(number.i)?)
             }
             _ => err!(CESRError::Conversion("cannot convert to integer".to_string())),
         }
@@ -121,7 +127,7 @@ impl Value {
                 if n.float {
                     json!(n.f).to_string()
                 } else {
-                    json!(n.i).to_string()
+                    n.i.to_string()
                 }
             }
             Self::String(s) => json!(s).to_string(),
@@ -295,10 +301,13 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
+                } else if let Some(i) = n.as_u64() {
+                    Self::Number(Number::from(i))
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    // numbers are 64 bit integers or floats, this cannot be missing
+                    Self::Number(Number::from(n.as_f64().unwrap_or(f64::NAN)))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
@@ -349,7 +358,7 @@ impl TryFrom<&Value> for i64 {
         match v {
             Value::Number(n) => {
                 if !n.float {
-                    Ok(n.i)
+                    Ok(i64::try_from(n.i)?)
                 } else {
                     Ok(n.f as i64)
                 }
-- 
2.43.0


From 88701b70a8c1cdec125d08392885fa39ee190705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 09/16] fix: evaluate signing thresholds exactly and refuse
 malformed ones instead of panicking

---
 src/core/tholder.rs | 94 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 72 insertions(+), 22 deletions(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 822fc29..529886a 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -3,12 +3,12 @@ use crate::{
         bexter::{tables as bexter, Bext, Bexter},
         matter::{tables as matter, Matter},
         number::{tables as number, Number},
+        util,
     },
     data::{dat, Array, Value},
     error::{err, Error, Result},
 };
 
-use lazy_static::lazy_static;
 use num_rational::Rational32;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -31,6 +31,10 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     let separator = "/";
     let mut clauses: Vec<Vec<Rational32>> = Vec::new();
 
+    if threshold.is_empty() {
+        return err!(Error::Value("empty weight list".to_string()));
+    }
+
     for _clause in threshold {
         let mut clause: Vec<Rational32> = Vec::new();
         let _clause = _clause.to_vec()?;
@@ -39,9 +43,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
             let parts: Vec<&str> = weight.split(separator).collect();
             if parts.len() != 2 {
                 // must be 0 or 1
-                if parts[0] == "0" {
+                if weight == "0" {
                     clause.push(Rational32::new(0, 1));
-                } else if parts[0] == "1" {
+                } else if weight == "1" {
                     clause.push(Rational32::new(1, 1));
                 } else {
                     return err!(Error::Value("integral weight must be 0 or 1".to_string()));
@@ -52,6 +56,11 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 if numer < 0 || denom < 0 {
                     return err!(Error::Value("negative weights do not make sense".to_string()));
                 }
+                if denom == 0 {
+                    return err!(Error::Value(
+                        "weights cannot have a zero denominator".to_string()
+                    ));
+                }
                 if numer > denom {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
@@ -62,13 +71,10 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     }
 
     for clause in &*clauses {
-        let mut sum = Rational32::new(0, 1);
+        let one = common_denominator(clause)?;
+        let sum: u128 = clause.iter().map(|weight| scale(weight, one)).sum();
 
-        for weight in clause {
-            sum += weight;
-        }
-
-        if sum < Rational32::new(1, 1) {
+        if sum < one {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -79,6 +85,37 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     Ok(clauses)
 }
 
+/// The least common denominator of the weights of a clause, so that they can be summed exactly.
+fn common_denominator(clause: &[Rational32]) -> Result<u128> {
+    let mut common: u128 = 1;
+
+    for weight in clause {
+        let denom = *weight.denom() as u128;
+        let (mut a, mut b) = (common, denom);
+        while b != 0 {
+            (a, b) = (b, a % b);
+        }
+
+        common = match common.checked_mul(denom / a) {
+            Some(common) => common,
+            None => {
+                return err!(Error::Value("weights have no usable common denominator".to_string()))
+            }
+        };
+    }
+
+    // no weight exceeds one, thus the weights of the clause sum to at most its length
+    if common.checked_mul(clause.len() as u128).is_none() {
+        return err!(Error::Value("weights have no usable common denominator".to_string()));
+    }
+
+    Ok(common)
+}
+
+fn scale(weight: &Rational32, common: u128) -> u128 {
+    *weight.numer() as u128 * (common / *weight.denom() as u128)
+}
+
 fn rationals_to_bext(clauses: &Vec<Vec<Rational32>>) -> String {
     let mut envelope: Vec<String> = Vec::new();
     for clause in clauses {
@@ -206,6 +243,10 @@ impl Tholder {
     fn satisfy_numeric(&self, indices: &[u32]) -> Result<bool> {
         let thold = self.thold().to_i64()?;
 
+        let mut indices = indices.to_vec();
+        indices.sort();
+        indices.dedup();
+
         if thold > 0 && indices.len() >= thold as usize {
             return Ok(true);
         }
@@ -214,31 +255,32 @@ impl Tholder {
     }
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
-        lazy_static! {
-            static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
-        }
-
         let mut indices = indices.to_vec();
         indices.sort();
         indices.dedup();
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
-            sats[index as usize] = true
+            match sats.get_mut(index as usize) {
+                Some(sat) => *sat = true,
+                // there is no such key
+                None => return Ok(false),
+            }
         }
 
         let clauses = values_to_rationals(&self.thold())?;
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = Rational32::new(0, 1);
-            for weight in clause {
+            let one = common_denominator(&clause)?;
+            let mut cw: u128 = 0;
+            for weight in &clause {
                 if sats[wio] {
-                    cw += weight;
+                    cw += scale(weight, one);
                 }
                 wio += 1;
             }
-            if cw < *RATIONAL_ONE {
+            if cw < one {
                 return Ok(false);
             }
         }
@@ -263,17 +305,25 @@ impl Tholder {
             return Ok(());
         }
 
-        let limen = String::from_utf8(limen.to_vec())?;
+        let limen = util::leading_text(limen)?;
 
         let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let code = match limen.get(..hs) {
+            Some(code) => code,
+            None => {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for hard part of code: limen size = {}, hs = {hs}",
+                    limen.len()
+                )))
+            }
+        };
 
         if number::Codex::has_code(code) {
-            let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
+            let number = Number::new(None, None, None, None, None, Some(limen), None)?;
             let thold = i64::try_from(number.num()?)?;
             self.process_unweighted(thold)?;
         } else if bexter::Codex::has_code(code) {
-            let bexter = Bexter::new(None, None, None, None, Some(&limen), None)?;
+            let bexter = Bexter::new(None, None, None, None, Some(limen), None)?;
             let t = bexter.bext()?.replace('s', "/");
             let clauses: Vec<&str> = t.split('a').collect();
             let mut oclauses: Array = Vec::new();
-- 
2.43.0


From b949c073bd1a7422603417d05e11378b24f1b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 10/16] fix: refuse numbers, salts and prefixes parsed from the
 codes of other primitives

---
 src/core/number.rs   | 3 +++
 src/core/prefixer.rs | 4 +++-
 src/core/salter.rs   | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/number.rs b/src/core/number.rs
index 497efcc..a82b354 100644
--- a/src/core/number.rs
+++ b/src/core/number.rs
@@ -90,6 +90,9 @@ impl Number {
             Matter::new(Some(code), raw, qb64b, qb64, qb2)?
         };
 
+        // a parsed code must also be one of ours
+        validate_code(&number.code())?;
+
         Ok(number)
     }
 
diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 764850c..8a4d5f4 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -266,7 +266,9 @@ impl Prefixer {
             || qb2.is_some()
         {
             validate_code(code.unwrap_or(matter::Codex::Ed25519N))?;
-            Matter::new(code, raw, qb64b, qb64, qb2)?
+            let prefixer: Prefixer = Matter::new(code, raw, qb64b, qb64, qb2)?;
+            validate_code(&prefixer.code())?;
+            prefixer
         } else {
             let ked = if let Some(ked) = ked {
                 if code.is_none() && !ked.to_map()?.contains_key(Ids::i) {
diff --git a/src/core/salter.rs b/src/core/salter.rs
index 5ccd084..8362cbd 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -54,6 +54,9 @@ impl Salter {
                 Matter::new(Some(code), raw, qb64b, qb64, qb2)?
             };
 
+        // a parsed code must also be the one for salts
+        validate_code(&salter.code())?;
+
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
         Ok(salter)
     }
-- 
2.43.0


From c297db41213255a8edb18e00a840a53015fea5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 11/16] fix: strip a path of a root it does not share without
 panicking

---
 src/core/pather.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 0cd679d..93e804e 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -134,19 +134,19 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
+        let root_path = root.path()?.to_vec()?;
         let mut path = self.path()?.to_vec()?;
 
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
         if root_path.len() > path.len() {
             return Ok(self.clone());
         }
 
-        root_path.reverse();
         for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
+            match path.iter().position(|e| *e == p) {
+                Some(i) => path.remove(i),
+                // not our root
+                None => return Ok(self.clone()),
+            };
         }
 
         Pather::new_with_path(&dat!(path.as_slice()))
-- 
2.43.0


From 9f635ea4dd6045788b2d642111c84ee65fa1f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 12/16] fix: pretty print messages without cutting a character
 in half

---
 src/core/sadder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 2d2ea30..eca591b 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -201,7 +201,12 @@ pub trait Sadder: Default + Clone {
             Ok(s) => {
                 let size = size.unwrap_or(1024);
                 if s.len() > size {
-                    Ok(s[..size].to_string())
+                    // do not cut a character in half
+                    let mut end = size;
+                    while !s.is_char_boundary(end) {
+                        end -= 1;
+                    }
+                    Ok(s[..end].to_string())
                 } else {
                     Ok(s)
                 }
-- 
2.43.0


From 61f0ba96b34d85ea7187cc65c7ab05f7af52180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 13/16] fix: derive non-transferable prefixes of events with
 empty lists

---
 src/core/prefixer.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 8a4d5f4..9368134 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -85,6 +85,14 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     }
 }
 
+/// A field may be absent, or be emptied as either a string or a list.
+fn is_empty(value: &Value) -> Result<bool> {
+    match value {
+        Value::Array(array) => Ok(array.is_empty()),
+        _ => Ok(value.to_string()?.is_empty()),
+    }
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -110,17 +118,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
-- 
2.43.0


From adb5779684d3fb8e370618171ec3d24fd68722b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 14/16] fix: refuse datetimes which do not fit instead of
 truncating them

---
 src/core/dater.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/dater.rs b/src/core/dater.rs
index 81d8ddd..67024f4 100644
--- a/src/core/dater.rs
+++ b/src/core/dater.rs
@@ -53,6 +53,10 @@ impl Dater {
 
         let dater: Self = if raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() {
             let b64 = if let Some(dts) = dts { iso_8601_to_b64(dts) } else { now_as_b64() };
+            let szg = matter::sizage(matter::Codex::DateTime)?;
+            if b64.len() != (szg.fs - szg.hs) as usize {
+                return err!(Error::Value(format!("malformed datetime: dts = '{b64}'")));
+            }
             let qb64 = format!("{}{}", matter::Codex::DateTime, &b64);
             Matter::new(code, raw, qb64b, Some(&qb64), qb2)?
         } else {
-- 
2.43.0


From f7130809dfa303006ea154d89f918ae8e444da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 15/16] fix: wipe temporary copies of secrets, also when the
 call that made them fails

---
 src/core/matter/mod.rs | 47 +++++++++++++++---------------------------
 src/core/salter.rs     | 20 +++++++-----------
 src/core/signer.rs     | 18 +++++++++-------
 3 files changed, 35 insertions(+), 50 deletions(-)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 803261f..f68dc75 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -1,5 +1,5 @@
 use base64::{engine::general_purpose as b64_engine, Engine};
-use zeroize::{Zeroize, Zeroizing};
+use zeroize::Zeroizing;
 
 use crate::core::util;
 use crate::error::{err, Error, Result};
@@ -154,7 +154,7 @@ pub trait Matter: Default {
     }
 
     fn qb64b(&self) -> Result<Vec<u8>> {
-        Ok(self.qb64()?.as_bytes().to_vec())
+        Ok(self.qb64()?.into_bytes())
     }
 
     fn qb2(&self) -> Result<Vec<u8>> {
@@ -191,7 +191,7 @@ pub trait Matter: Default {
     fn infil(&self) -> Result<String> {
         let code = &self.code();
         let size = self.size();
-        let mut raw = self.raw();
+        let raw = Zeroizing::new(self.raw());
 
         let ps = (3 - raw.len() % 3) % 3;
         let szg = tables::sizage(code)?;
@@ -225,7 +225,6 @@ pub trait Matter: Default {
 
             let mut buffer = Zeroizing::new(vec![0u8; raw.len() + szg.ls as usize]);
             buffer[szg.ls as usize..].clone_from_slice(&raw);
-            raw.zeroize();
 
             let mut b64_vec = Zeroizing::new(vec![0u8; buffer.len() * 4 / 3]);
             b64_engine::URL_SAFE.encode_slice(&buffer, &mut b64_vec)?;
@@ -244,7 +243,6 @@ pub trait Matter: Default {
 
             let mut buffer = Zeroizing::new(vec![0u8; raw.len() + ps]);
             buffer[ps..].clone_from_slice(&raw);
-            raw.zeroize();
 
             let mut b64_vec = Zeroizing::new(vec![0u8; buffer.len() * 4 / 3]);
             b64_engine::URL_SAFE.encode_slice(&buffer, &mut b64_vec)?;
@@ -256,7 +254,7 @@ pub trait Matter: Default {
     fn binfil(&self) -> Result<Vec<u8>> {
         let code = &self.code();
         let size = self.size();
-        let mut raw = self.raw();
+        let raw = Zeroizing::new(self.raw());
 
         let szg = tables::sizage(code)?;
         let cs = szg.hs + szg.ss;
@@ -307,7 +305,7 @@ pub trait Matter: Default {
             return err!(Error::InvalidCodeSize(format!("unsupported code size: cs = {cs}",)));
         };
 
-        let mut buffer = vec![0u8; raw.len() + (szg.ls + n) as usize];
+        let mut buffer = Zeroizing::new(vec![0u8; raw.len() + (szg.ls + n) as usize]);
         // code + pad + raw
         buffer[..(n as usize)].copy_from_slice(&full[(full.len() - n as usize)..full.len()]);
         buffer[((n + szg.ls) as usize)..].copy_from_slice(&raw);
@@ -320,8 +318,7 @@ pub trait Matter: Default {
             )));
         }
 
-        raw.zeroize();
-        Ok(buffer)
+        Ok(std::mem::take(&mut *buffer))
     }
 
     fn exfil(&mut self, qb64: &str) -> Result<()> {
@@ -386,18 +383,15 @@ pub trait Matter: Default {
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
-        let mut raw = if ps != 0 {
-            let mut buf = "A".repeat(ps as usize) + &trim[(cs as usize)..];
+        let raw = if ps != 0 {
+            let buf = Zeroizing::new("A".repeat(ps as usize) + &trim[(cs as usize)..]);
 
             // decode base to leave pre-padded raw
-            let mut paw = Vec::<u8>::new();
-            b64_engine::URL_SAFE.decode_vec(&buf, &mut paw)?;
-            let full = buf.len() * 3 / 4;
-            buf.zeroize();
+            let mut paw = Zeroizing::new(Vec::<u8>::new());
+            b64_engine::URL_SAFE.decode_vec(buf.as_bytes(), &mut paw)?;
 
             // qualified material has no room for base64 padding characters
-            if paw.len() != full {
-                paw.zeroize();
+            if paw.len() != buf.len() * 3 / 4 {
                 return err!(Error::ParseQb64("unexpected base64 padding".to_string()));
             }
 
@@ -411,11 +405,9 @@ pub trait Matter: Default {
                 return err!(Error::Prepad());
             }
 
-            let raw = paw[ps as usize..].to_vec();
-            paw.zeroize();
-            raw
+            Zeroizing::new(paw[ps as usize..].to_vec())
         } else {
-            let mut paw = Vec::<u8>::new();
+            let mut paw = Zeroizing::new(Vec::<u8>::new());
             b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
 
             // qualified material has no room for base64 padding characters
@@ -442,15 +434,12 @@ pub trait Matter: Default {
                     _ => return err!(Error::NonZeroedLeadBytes()),
                 }
             }
-            let raw = paw[szg.ls as usize..].to_vec();
-            paw.zeroize();
-            raw
+            Zeroizing::new(paw[szg.ls as usize..].to_vec())
         };
 
         self.set_code(hard);
         self.set_size(size);
         self.set_raw(&raw);
-        raw.zeroize();
 
         Ok(())
     }
@@ -512,7 +501,7 @@ pub trait Matter: Default {
             )));
         }
 
-        let mut trim = qb2[..bfs as usize].to_vec();
+        let trim = &qb2[..bfs as usize];
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
         if ps != 0 {
@@ -533,19 +522,17 @@ pub trait Matter: Default {
             }
         }
 
-        let mut raw = trim[(bcs + szg.ls) as usize..].to_vec();
+        let raw = &trim[(bcs + szg.ls) as usize..];
         if raw.len() != (trim.len() - bcs as usize) - szg.ls as usize {
             // unreachable. rust prevents this by the definition of `raw` above.
             return err!(Error::Conversion(format!(
                 "improperly qualified material: qb2 = {qb2:?}",
             )));
         }
-        trim.zeroize();
 
         self.set_code(&hard);
         self.set_size(size);
-        self.set_raw(&raw);
-        raw.zeroize();
+        self.set_raw(raw);
 
         Ok(())
     }
diff --git a/src/core/salter.rs b/src/core/salter.rs
index 8362cbd..5a3e0dc 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -1,4 +1,4 @@
-use zeroize::{Zeroize, ZeroizeOnDrop};
+use zeroize::{ZeroizeOnDrop, Zeroizing};
 
 use crate::{
     core::{
@@ -45,11 +45,9 @@ impl Salter {
 
         let mut salter: Self =
             if raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() {
-                let mut raw = [0_u8; SALTER_SEED_BYTES];
-                csprng::fill_bytes(&mut raw);
-                let matter = Matter::new(Some(code), Some(&raw), None, None, None)?;
-                raw.zeroize();
-                matter
+                let mut raw = Zeroizing::new([0_u8; SALTER_SEED_BYTES]);
+                csprng::fill_bytes(&mut raw[..]);
+                Matter::new(Some(code), Some(&raw[..]), None, None, None)?
             } else {
                 Matter::new(Some(code), raw, qb64b, qb64, qb2)?
             };
@@ -94,7 +92,7 @@ impl Salter {
         let path = path.unwrap_or("");
         let size = size.unwrap_or(32);
 
-        let seed = salt::stretch(path.as_bytes(), &self.raw(), size, tier)?;
+        let seed = salt::stretch(path.as_bytes(), &self.raw, size, tier)?;
 
         Ok(seed)
     }
@@ -117,12 +115,10 @@ impl Salter {
         let temp = temp.unwrap_or(false);
 
         let size = matter::raw_size(code)?;
-        let mut seed = self.stretch(Some(size as usize), Some(path), tier, Some(temp))?;
+        let seed =
+            Zeroizing::new(self.stretch(Some(size as usize), Some(path), tier, Some(temp))?);
 
-        let signer = Signer::new(Some(transferable), Some(code), Some(&seed), None, None, None)?;
-        seed.zeroize();
-
-        Ok(signer)
+        Signer::new(Some(transferable), Some(code), Some(&seed), None, None, None)
     }
 
     #[allow(clippy::too_many_arguments)]
diff --git a/src/core/signer.rs b/src/core/signer.rs
index ce44db3..2972012 100644
--- a/src/core/signer.rs
+++ b/src/core/signer.rs
@@ -1,4 +1,4 @@
-use zeroize::{Zeroize, ZeroizeOnDrop};
+use zeroize::{ZeroizeOnDrop, Zeroizing};
 
 use crate::core::{
     cigar::Cigar,
@@ -105,10 +105,12 @@ impl Signer {
         let mut signer: Signer = if qb64b.is_none() && qb64.is_none() && qb2.is_none() {
             let code = code.unwrap_or(matter::Codex::Ed25519_Seed);
             validate_code(code)?;
-            let mut raw = if let Some(raw) = raw { raw.to_vec() } else { sign::generate(code)? };
-            let matter = Matter::new(Some(code), Some(&raw), None, None, None)?;
-            raw.zeroize();
-            matter
+            let raw = Zeroizing::new(if let Some(raw) = raw {
+                raw.to_vec()
+            } else {
+                sign::generate(code)?
+            });
+            Matter::new(Some(code), Some(&raw), None, None, None)?
         } else {
             let signer: Self = Matter::new(code, raw, qb64b, qb64, qb2)?;
             validate_code(&signer.code())?;
@@ -151,7 +153,7 @@ impl Signer {
             _ => return err!(Error::UnexpectedCode(self.code())),
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code(), &self.raw, ser)?;
         Cigar::new(Some(&self.verfer()), Some(code), Some(&sig), None, None, None)
     }
 
@@ -203,7 +205,7 @@ impl Signer {
             (code, Some(ondex))
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code(), &self.raw, ser)?;
         Siger::new(
             Some(&self.verfer()),
             Some(index),
@@ -221,7 +223,7 @@ impl Signer {
     }
 
     fn derive_and_assign_verfer(&mut self, transferable: bool) -> Result<()> {
-        self.verfer = derive_verfer(&self.code(), &self.raw(), transferable)?;
+        self.verfer = derive_verfer(&self.code(), &self.raw, transferable)?;
         Ok(())
     }
 }
-- 
2.43.0


From 1329f8c25a9575f39aaa0ab073f7b608edc72917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 16/16] fix: refuse an other index that the code of an indexed
 signature cannot hold

---
 src/core/indexer/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 417e925..b9761d0 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -97,12 +97,13 @@ pub trait Indexer: Default {
             )));
         }
 
-        if BothSigCodex::has_code(code) {
-            if ondex.is_none() {
-                // when not provided make ondex match index
-                ondex = Some(index);
-            }
-        } else if let Some(o) = ondex {
+        if BothSigCodex::has_code(code) && ondex.is_none() {
+            // when not provided make ondex match index
+            ondex = Some(index);
+        }
+
+        if let Some(o) = ondex {
+            // a code without room for the other index cannot keep one that differs
             if o != index && szg.os == 0 {
                 return err!(Error::InvalidVarIndex(format!(
                     "Non matching ondex '{o}' and index '{index}' for code = '{code}'."
-- 
2.43.0

