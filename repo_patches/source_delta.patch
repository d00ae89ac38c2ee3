From e2a8f11a59d8f1f8ef21b773b0c8f566fcac4381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 01/49] fix: reject huge binary string length instead of
 overflowing

---
 src/serde_bin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 335c217..5f3b25a 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -254,11 +254,11 @@ impl SerBin for String {
 impl DeBin for String {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<String, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        if *o + len > d.len() {
+        if len > d.len().saturating_sub(*o) {
             return Err(DeBinErr {
                 o: *o,
                 msg: DeBinErrReason::Length {
-                    expected_length: 1,
+                    expected_length: len,
                     actual_length: d.len(),
                 },
             });
-- 
2.43.0


From b666731e34bb16aed8e25c4894fbd2b1ee1ce9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 02/49] fix: do not trust the binary length prefix when
 reserving capacity

---
 src/serde_bin.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 5f3b25a..01ca009 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -280,6 +280,14 @@ impl DeBin for String {
     }
 }
 
+/// Capacity to reserve up front for `len` items claimed by the input.
+///
+/// The length prefix is untrusted, so never reserve more memory than the
+/// amount of input that is left; the collection still grows on demand.
+fn bounded_capacity<T>(len: usize, remaining: usize) -> usize {
+    len.min(remaining / core::mem::size_of::<T>().max(1))
+}
+
 impl<T> SerBin for Vec<T>
 where
     T: SerBin,
@@ -299,7 +307,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Vec<T>, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(bounded_capacity::<T>(len, d.len().saturating_sub(*o)));
         for _ in 0..len {
             out.push(DeBin::de_bin(o, d)?)
         }
@@ -355,7 +363,10 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = std::collections::HashSet::with_capacity(len);
+        let mut out = std::collections::HashSet::with_capacity(bounded_capacity::<T>(
+            len,
+            d.len().saturating_sub(*o),
+        ));
         for _ in 0..len {
             out.insert(DeBin::de_bin(o, d)?);
         }
@@ -602,7 +613,10 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut h = std::collections::HashMap::with_capacity(len);
+        let mut h = std::collections::HashMap::with_capacity(bounded_capacity::<(K, V)>(
+            len,
+            d.len().saturating_sub(*o),
+        ));
         for _ in 0..len {
             let k = DeBin::de_bin(o, d)?;
             let v = DeBin::de_bin(o, d)?;
-- 
2.43.0


From 224378c9908d69f14814214e89cbe1fb31302f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 03/49] fix: reject out of range Duration and SystemTime
 instead of panicking

---
 src/serde_bin.rs  | 14 ++++++++++++--
 src/serde_json.rs | 10 +++++++---
 src/serde_ron.rs  | 10 +++++++---
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 01ca009..60983ae 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -697,7 +697,12 @@ impl DeBin for Duration {
                 ),
             });
         }
-        Ok(Duration::new(secs, nanos))
+        Duration::from_secs(secs)
+            .checked_add(Duration::from_nanos(nanos as u64))
+            .ok_or_else(|| DeBinErr {
+                o: *o,
+                msg: DeBinErrReason::Range("Duration out of range".to_owned()),
+            })
     }
 }
 
@@ -713,7 +718,12 @@ impl SerBin for std::time::SystemTime {
 impl DeBin for std::time::SystemTime {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<std::time::SystemTime, DeBinErr> {
         match DeBin::de_bin(o, d)? {
-            Some(duration) => Ok(std::time::SystemTime::UNIX_EPOCH + duration),
+            Some(duration) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(duration)
+                .ok_or_else(|| DeBinErr {
+                    o: *o,
+                    msg: DeBinErrReason::Range("SystemTime out of range".to_owned()),
+                }),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
diff --git a/src/serde_json.rs b/src/serde_json.rs
index 4faaaea..92043ca 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1352,12 +1352,14 @@ impl DeJson for Duration {
         s.curly_close(i)?;
 
         let secs = sec.ok_or_else(|| s.err_parse("Duration must have secs field"))?;
-        let nanos = nanos.unwrap_or(0);
+        let nanos: u32 = nanos.unwrap_or(0);
 
         if nanos > 1_000_000_000 {
             Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
         } else {
-            Ok(Duration::new(secs, nanos))
+            Duration::from_secs(secs)
+                .checked_add(Duration::from_nanos(nanos as u64))
+                .ok_or_else(|| s.err_range("Duration out of range"))
         }
     }
 }
@@ -1375,7 +1377,9 @@ impl SerJson for std::time::SystemTime {
 impl DeJson for std::time::SystemTime {
     fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<std::time::SystemTime, DeJsonErr> {
         match DeJson::de_json(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime out of range")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index d04df66..74718d1 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1349,12 +1349,14 @@ impl DeRon for Duration {
         s.curly_close(i)?;
 
         let secs = sec.ok_or_else(|| s.err_parse("Duration must have secs field"))?;
-        let nanos = nanos.unwrap_or(0);
+        let nanos: u32 = nanos.unwrap_or(0);
 
         if nanos > 1_000_000_000 {
             Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
         } else {
-            Ok(Duration::new(secs, nanos))
+            Duration::from_secs(secs)
+                .checked_add(Duration::from_nanos(nanos as u64))
+                .ok_or_else(|| s.err_range("Duration out of range"))
         }
     }
 }
@@ -1372,7 +1374,9 @@ impl SerRon for std::time::SystemTime {
 impl DeRon for std::time::SystemTime {
     fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<std::time::SystemTime, DeRonErr> {
         match DeRon::de_ron(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime out of range")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
-- 
2.43.0


From c744f1bf50dd46665befa9fc7eca91601dd90f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 04/49] fix: range check unsigned JSON and RON literals for
 signed integers

---
 src/serde_json.rs | 8 ++++----
 src/serde_ron.rs  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 92043ca..d7a8f68 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -412,10 +412,10 @@ impl DeJsonState {
             return Ok(value);
         }
         if let DeJsonTok::U64(value) = self.tok {
-            if value as i64 > max {
-                return Err(self.err_range(&format!("{}>{}", value, max)));
-            }
-            return Ok(value as i64);
+            return match i64::try_from(value) {
+                Ok(value) if value <= max => Ok(value),
+                _ => Err(self.err_range(&format!("{}>{}", value, max))),
+            };
         }
         Err(self.err_token("signed integer"))
     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 74718d1..8d017a1 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -393,10 +393,10 @@ impl DeRonState {
             return Ok(value);
         }
         if let DeRonTok::U64(value) = self.tok {
-            if value as i64 > max {
-                return Err(self.err_range(&format!("{}>{}", value, max)));
-            }
-            return Ok(value as i64);
+            return match i64::try_from(value) {
+                Ok(value) if value <= max => Ok(value),
+                _ => Err(self.err_range(&format!("{}>{}", value, max))),
+            };
         }
         Err(self.err_token("signed integer"))
     }
-- 
2.43.0


From dc429c46040f883f6f0460b5c3e86135291be76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 05/49] fix: report malformed values of unknown JSON keys
 instead of panicking or hanging

---
 src/serde_json.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index d7a8f68..396e74f 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -303,6 +303,10 @@ impl DeJsonState {
                         open_brackets -= 1;
                     }
 
+                    if let DeJsonTok::Eof = self.tok {
+                        return Err(self.err_token("closing bracket"));
+                    }
+
                     self.next_tok(i)?;
 
                     if open_brackets == 0 {
@@ -311,7 +315,7 @@ impl DeJsonState {
                 }
                 Ok(())
             }
-            _ => unimplemented!("{:?}", self.tok),
+            _ => Err(self.err_token("value")),
         }
     }
 
-- 
2.43.0


From 8d7b2ca5de47a87a77c6224da3f0c11d8c753f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 06/49] fix: serialize empty slices and arrays to JSON and RON
 without underflow

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 396e74f..e80c978 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1031,7 +1031,7 @@ where
 {
     fn ser_json(&self, d: usize, s: &mut SerJsonState) {
         s.out.push('[');
-        let last = self.len() - 1;
+        let last = self.len().saturating_sub(1);
         for (index, item) in self.iter().enumerate() {
             item.ser_json(d + 1, s);
             if index != last {
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 8d017a1..97a360b 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1017,7 +1017,7 @@ where
 {
     fn ser_ron(&self, d: usize, s: &mut SerRonState) {
         s.out.push('(');
-        let last = self.len() - 1;
+        let last = self.len().saturating_sub(1);
         for (index, item) in self.iter().enumerate() {
             item.ser_ron(d + 1, s);
             if index != last {
-- 
2.43.0


From 9240668928f5c0474a05e5200acacdb3318b132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 07/49] fix: stop the RON tokenizer after a char literal

---
 src/serde_ron.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 97a360b..55856d9 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -603,6 +603,7 @@ impl DeRonState {
                     }
                     self.next(i);
                     self.tok = DeRonTok::Char(chr);
+                    return Ok(());
                 }
                 '"' => {
                     self.strbuf.truncate(0);
-- 
2.43.0


From 4f0fa42226ca89f9a98025a7f36819a732f13932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 08/49] fix: accept an explicit plus sign in JSON and RON
 exponents

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index e80c978..b05ce79 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -549,7 +549,7 @@ impl DeJsonState {
                     is_float = true;
                     self.numbuf.push(self.cur);
                     self.next(i);
-                    if self.cur == '-' {
+                    if self.cur == '-' || self.cur == '+' {
                         self.numbuf.push(self.cur);
                         self.next(i);
                     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 55856d9..f80bfc1 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -537,7 +537,7 @@ impl DeRonState {
                         is_float = true;
                         self.numbuf.push(self.cur);
                         self.next(i);
-                        if self.cur == '-' {
+                        if self.cur == '-' || self.cur == '+' {
                             self.numbuf.push(self.cur);
                             self.next(i);
                         }
-- 
2.43.0


From 145c9664853d1fa7a9af196c9838f7fe05571343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 09/49] fix: round JSON and RON numbers to f32 only once

---
 src/serde_json.rs | 6 ++++--
 src/serde_ron.rs  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index b05ce79..f6610d1 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -756,9 +756,11 @@ macro_rules! impl_ser_de_json_float {
         impl DeJson for $ty {
             fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<$ty, DeJsonErr> {
                 //s.is_prefix(p, i) ?;
-                let val = s.as_f64()?;
+                s.as_f64()?;
+                // parse the digits again as `$ty` to avoid rounding twice
+                let val: $ty = s.numbuf.parse().map_err(|_| s.err_parse("number"))?;
                 s.next_tok(i)?;
-                return Ok(val as $ty);
+                return Ok(val);
             }
         }
     };
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index f80bfc1..058dc20 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -756,9 +756,11 @@ macro_rules! impl_ser_de_ron_float {
         impl DeRon for $ty {
             fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<$ty, DeRonErr> {
                 //s.is_prefix(p, i) ?;
-                let val = s.as_f64()?;
+                s.as_f64()?;
+                // parse the digits again as `$ty` to avoid rounding twice
+                let val: $ty = s.numbuf.parse().map_err(|_| s.err_parse("number"))?;
                 s.next_tok(i)?;
-                return Ok(val as $ty);
+                return Ok(val);
             }
         }
     };
-- 
2.43.0


From 3ca79f75efc75af50048ffdee0218e636156e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 10/49] fix: accept JSON and RON integers beyond 64 bits as
 floating point values

---
 src/serde_json.rs | 8 +++++---
 src/serde_ron.rs  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index f6610d1..6c3d66a 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -570,12 +570,14 @@ impl DeJsonState {
                         if let Ok(num) = self.numbuf.parse() {
                             self.tok = DeJsonTok::I64(num);
                             return Ok(());
-                        } else {
-                            return Err(self.err_parse("number"));
                         }
+                    } else if let Ok(num) = self.numbuf.parse() {
+                        self.tok = DeJsonTok::U64(num);
+                        return Ok(());
                     }
+                    // not representable as an integer, keep it as a float
                     if let Ok(num) = self.numbuf.parse() {
-                        self.tok = DeJsonTok::U64(num);
+                        self.tok = DeJsonTok::F64(num);
                         Ok(())
                     } else {
                         Err(self.err_parse("number"))
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 058dc20..6c5e030 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -558,12 +558,14 @@ impl DeRonState {
                             if let Ok(num) = self.numbuf.parse() {
                                 self.tok = DeRonTok::I64(num);
                                 return Ok(());
-                            } else {
-                                return Err(self.err_parse("number"));
                             }
+                        } else if let Ok(num) = self.numbuf.parse() {
+                            self.tok = DeRonTok::U64(num);
+                            return Ok(());
                         }
+                        // not representable as an integer, keep it as a float
                         if let Ok(num) = self.numbuf.parse() {
-                            self.tok = DeRonTok::U64(num);
+                            self.tok = DeRonTok::F64(num);
                             return Ok(());
                         } else {
                             return Err(self.err_parse("number"));
-- 
2.43.0


From 03a8a4735c6a0ec879b303ff40910df704ef1c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 11/49] fix: do not take /*/ for a complete comment in JSON and
 RON

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 6c3d66a..919463a 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -471,7 +471,7 @@ impl DeJsonState {
                     return self.next_tok(i);
                 }
                 '*' => {
-                    let mut last = self.cur;
+                    let mut last = '\0';
                     loop {
                         self.next(i);
                         if self.cur == '\0' {
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 6c5e030..a72fb0f 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -496,6 +496,7 @@ impl DeRonState {
                         }
                     } else if self.cur == '*' {
                         // multline comment
+                        self.next(i);
                         let mut last_star = false;
                         while self.cur != '\0' {
                             if self.cur == '/' && last_star {
-- 
2.43.0


From f6d487610da13fe9377fcc5b91d9bac72e98cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 12/49] fix: skip JSON comments in a loop instead of recursing

---
 src/serde_json.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 919463a..9801638 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -454,21 +454,23 @@ impl DeJsonState {
     }
 
     pub fn next_tok(&mut self, i: &mut Chars) -> Result<(), DeJsonErr> {
-        while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
-            self.next(i);
-        }
-        if self.cur == '\0' {
-            self.tok = DeJsonTok::Eof;
-            return Ok(());
-        }
-        if self.cur == '/' {
+        loop {
+            while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
+                self.next(i);
+            }
+            if self.cur == '\0' {
+                self.tok = DeJsonTok::Eof;
+                return Ok(());
+            }
+            if self.cur != '/' {
+                break;
+            }
             self.next(i);
             match self.cur {
                 '/' => {
                     while self.cur != '\n' && self.cur != '\0' {
                         self.next(i);
                     }
-                    return self.next_tok(i);
                 }
                 '*' => {
                     let mut last = '\0';
@@ -483,7 +485,6 @@ impl DeJsonState {
                         }
                         last = self.cur;
                     }
-                    return self.next_tok(i);
                 }
                 _ => {
                     return Err(self.err_token("CommentOpen"));
-- 
2.43.0


From ef0f5f69c39c4c0353530dd234b08ba0c7605a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 13/49] fix: count columns in RON and TOML error positions

---
 src/serde_ron.rs | 2 +-
 src/toml.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index a72fb0f..29aa5c3 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -197,7 +197,7 @@ impl DeRonState {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
diff --git a/src/toml.rs b/src/toml.rs
index 73b70a9..565589f 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -393,7 +393,7 @@ impl TomlParser {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
-- 
2.43.0


From 378a5b1ccbf69d5eeb70a70e2d80279f12f640e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 14/49] fix: write JSON enum variant fields like struct fields

A trailing None left a dangling comma, and rename, skip and
serialize_none_as_null were honoured on deserialization only.
---
 derive/src/serde_json.rs | 90 +++++++++++++++++-----------------------
 derive/src/shared.rs     |  7 ++++
 2 files changed, 45 insertions(+), 52 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 24cc119..5e21fe7 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -1,9 +1,9 @@
 use alloc::format;
 use alloc::string::{String, ToString};
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 use crate::parse::{Category, Type};
-use crate::shared::{enum_bounds_strings, struct_bounds_strings};
+use crate::shared::{enum_bounds_strings, struct_bounds_strings, variant_binding};
 use crate::{
     parse::{Enum, Field, Struct},
     shared,
@@ -39,15 +39,19 @@ fn ser_proxy_guard(fieldname: &str, field: &Field) -> String {
     }
 }
 
-pub fn derive_ser_json_struct(struct_: &Struct, crate_name: &str) -> TokenStream {
+/// Code writing the named `fields` of a struct or of an enum variant, where
+/// `access` turns a field name into an expression for the field.
+fn ser_json_named(
+    fields: &[Field],
+    container_null_on_none: bool,
+    access: impl Fn(&str) -> String,
+) -> String {
     let mut s = String::new();
-    let (generic_w_bounds, generic_no_bounds) =
-        struct_bounds_strings(struct_, "SerJson", crate_name);
 
     l!(s, "let mut first_field_was_serialized = false;");
 
-    if !struct_.fields.is_empty() {
-        for field in struct_.fields.iter() {
+    if !fields.is_empty() {
+        for field in fields.iter() {
             let struct_fieldname = field.field_name.clone().unwrap();
             let json_fieldname =
                 shared::attrs_rename(&field.attributes).unwrap_or_else(|| struct_fieldname.clone());
@@ -55,14 +59,13 @@ pub fn derive_ser_json_struct(struct_: &Struct, crate_name: &str) -> TokenStream
             if skip {
                 continue;
             }
-            let proxied_field = ser_proxy_guard(&format!("self.{struct_fieldname}"), field);
+            let proxied_field = ser_proxy_guard(&access(&struct_fieldname), field);
 
             if field.ty.base() == "Option" {
                 let proxy_attr = crate::shared::attrs_proxy(&field.attributes);
-                let struct_null_on_none = shared::attrs_serialize_none_as_null(&struct_.attributes);
                 let field_null_on_none = shared::attrs_serialize_none_as_null(&field.attributes);
                 let null_on_none =
-                    (field_null_on_none || struct_null_on_none) && proxy_attr.is_none();
+                    (field_null_on_none || container_null_on_none) && proxy_attr.is_none();
                 let field_header = &format!(
                     "if first_field_was_serialized {{
                                                  s.conl();
@@ -105,6 +108,19 @@ pub fn derive_ser_json_struct(struct_: &Struct, crate_name: &str) -> TokenStream
         }
     }
 
+    s
+}
+
+pub fn derive_ser_json_struct(struct_: &Struct, crate_name: &str) -> TokenStream {
+    let (generic_w_bounds, generic_no_bounds) =
+        struct_bounds_strings(struct_, "SerJson", crate_name);
+
+    let s = ser_json_named(
+        &struct_.fields,
+        shared::attrs_serialize_none_as_null(&struct_.attributes),
+        |name| format!("self.{name}"),
+    );
+
     format!(
         "
         impl{} {}::SerJson for {}{} {{
@@ -324,48 +340,18 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 ident: Category::AnonymousStruct { contents },
                 ..
             } => {
-                let mut items = String::new();
-                let mut field_names = vec![];
-                let last = contents.fields.len().saturating_sub(1);
-                for (index, field) in contents.fields.iter().enumerate() {
-                    if let Some(name) = &&field.field_name {
-                        let proxied_field = ser_proxy_guard(name, field);
-                        if index == last {
-                            if field.ty.base() == "Option" {
-                                l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                )
-                            } else {
-                                l!(
-                                    items,
-                                    "s.field(d+1, \"{}\");{}.ser_json(d+1, s);",
-                                    name,
-                                    proxied_field
-                                )
-                            }
-                        } else if field.ty.base() == "Option" {
-                            l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                );
-                        } else {
-                            l!(
-                                items,
-                                "s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();",
-                                name,
-                                proxied_field
-                            );
-                        }
-                        field_names.push(name.clone());
-                    }
-                }
+                // bind the fields to names which can't clash with `s` and `d`
+                let field_names = contents
+                    .fields
+                    .iter()
+                    .filter_map(|field| field.field_name.as_ref())
+                    .map(|name| format!("{name}: {}", variant_binding(name)))
+                    .collect::<Vec<_>>();
+                let items = ser_json_named(
+                    &contents.fields,
+                    shared::attrs_serialize_none_as_null(&enum_.attributes),
+                    |name| format!("(*{})", variant_binding(name)),
+                );
                 l!(
                     r,
                     "Self::{} {{ {} }} => {{
diff --git a/derive/src/shared.rs b/derive/src/shared.rs
index a8bfc6c..baf90f8 100644
--- a/derive/src/shared.rs
+++ b/derive/src/shared.rs
@@ -90,6 +90,13 @@ pub fn attrs_crate(attributes: &[crate::parse::Attribute]) -> Option<&str> {
     })
 }
 
+/// Name to bind the field `name` of an enum variant to in a generated pattern.
+///
+/// Must not clash with the parameters of the generated function.
+pub(crate) fn variant_binding(name: &str) -> String {
+    format!("_{}", name.trim_start_matches("r#"))
+}
+
 pub(crate) fn struct_bounds_strings(
     struct_: &Struct,
     bound_name: &str,
-- 
2.43.0


From 11fcb79c5e900234fb00c7cfffd1783cc5a95c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 15/49] fix: honour rename and skip when writing RON enum
 variant fields

---
 derive/src/serde_ron.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 29c4050..fafbd62 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -351,7 +351,13 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 let mut inner = String::new();
                 for field in contents.fields.iter() {
                     let name = field.field_name.as_ref().unwrap();
-                    names.push(name.clone());
+                    let binding = shared::variant_binding(name);
+                    names.push(format!("{name}: {binding}"));
+                    if attrs_skip(&field.attributes) {
+                        continue;
+                    }
+                    let ron_fieldname =
+                        shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
                     if field.ty.base() == "Option" {
                         l!(
                             inner,
@@ -360,9 +366,9 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                                 {}.ser_ron(d+1, s);
                                 s.conl();
                             }}",
-                            name.as_str(),
-                            name.as_str(),
-                            name.as_str()
+                            binding,
+                            ron_fieldname,
+                            binding
                         )
                     } else {
                         l!(
@@ -370,8 +376,8 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             "s.field(d+1, \"{}\");
                             {}.ser_ron(d+1, s);
                             s.conl();",
-                            name,
-                            name
+                            ron_fieldname,
+                            binding
                         )
                     }
                 }
-- 
2.43.0


From 9e7a49990c273400c14748c4756ea8bfc1d7b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 16/49] fix: let binary enum variants have a field named s

---
 derive/src/serde_bin.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index f2b1a8e..93f9947 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -3,7 +3,7 @@ use alloc::string::String;
 
 use crate::{
     parse::{Category, Enum, Struct, Type},
-    shared::{attrs_skip, enum_bounds_strings, struct_bounds_strings},
+    shared::{attrs_skip, enum_bounds_strings, struct_bounds_strings, variant_binding},
 };
 
 use proc_macro::TokenStream;
@@ -266,21 +266,15 @@ pub fn derive_ser_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 l!(r, "Self::{} {{", ident);
                 for f in contents.fields.iter() {
-                    l!(
-                        r,
-                        "{}, ",
-                        f.field_name.as_ref().expect("field must be named")
-                    )
+                    let name = f.field_name.as_ref().expect("field must be named");
+                    l!(r, "{}: {}, ", name, variant_binding(name))
                 }
 
                 l!(r, "} => {");
                 l!(r, "{}.ser_bin(s);", lit);
                 for f in contents.fields.iter() {
-                    l!(
-                        r,
-                        "{}.ser_bin(s);",
-                        f.field_name.as_ref().expect("field must be named")
-                    )
+                    let name = f.field_name.as_ref().expect("field must be named");
+                    l!(r, "{}.ser_bin(s);", variant_binding(name))
                 }
                 l!(r, "}")
             }
-- 
2.43.0


From d00ca5a53f0fe3bc6d6d447f460d03b0e17e20a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 17/49] fix: keep container attributes of enums

---
 derive/src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index f7ed622..9ef9fb7 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1523,7 +1523,8 @@ pub fn parse_data(input: TokenStream) -> Data {
             res = Data::Struct(struct_);
         }
         "enum" => {
-            let enum_ = next_enum(&mut source);
+            let mut enum_ = next_enum(&mut source);
+            enum_.attributes = attributes;
             res = Data::Enum(enum_);
         }
         "union" => unimplemented!("Unions are not supported"),
-- 
2.43.0


From 15439f397e606c827cb1f27c03f86aa9bb76999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 18/49] fix: report the offset of an unknown binary enum
 discriminant

---
 derive/src/serde_bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index 93f9947..a350c70 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -366,7 +366,7 @@ pub fn derive_de_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 let id: u16 = {}::DeBin::de_bin(o,d)?;
                 Ok(match id {{
                     {}
-                    unknown => return ::core::result::Result::Err({}::DeBinErr{{o: 0, msg: {}::DeBinErrReason::UnknownDiscriminant(unknown as isize)}})
+                    unknown => return ::core::result::Result::Err({}::DeBinErr{{o: *o - 2, msg: {}::DeBinErrReason::UnknownDiscriminant(unknown as isize)}})
                 }})
             }}
         }}",
-- 
2.43.0


From d10a1ffda971eb54b984cf58afedaa85da5f8859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 19/49] fix: escape renamed JSON keys and variant labels

---
 src/serde_json.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 9801638..e0df0ab 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -26,16 +26,12 @@ impl SerJsonState {
 
     pub fn field(&mut self, d: usize, field: &str) {
         self.indent(d);
-        self.out.push('"');
-        self.out.push_str(field);
-        self.out.push('"');
+        field.ser_json(d, self);
         self.out.push(':');
     }
 
     pub fn label(&mut self, label: &str) {
-        self.out.push('"');
-        self.out.push_str(label);
-        self.out.push('"');
+        label.ser_json(0, self);
     }
 
     pub fn conl(&mut self) {
-- 
2.43.0


From 9536b6c327407a195a3711c6466868ac967c2fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 20/49] fix: ignore unknown JSON keys of structs without fields

---
 derive/src/serde_json.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 5e21fe7..15d40d9 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -259,6 +259,8 @@ pub fn derive_de_json_named(
         // );
         l!(r, "_ => {s.next_colon(i)?; s.whole_field(i)?; }");
         l!(r, "}");
+    } else {
+        l!(r, "s.next_colon(i)?; s.whole_field(i)?;");
     }
     l!(r, "s.eat_comma_curly(i) ?;");
     l!(r, "}");
@@ -606,7 +608,15 @@ pub fn derive_de_json_struct_unnamed(struct_: &Struct, crate_name: &str) -> Toke
 
     // no fields - was encoded as {}
     let body = if struct_.fields.is_empty() {
-        "s.curly_open(i)?;let r = Self;s.curly_close(i)?;".to_string()
+        "s.curly_open(i)?;
+         while s.next_str().is_some() {
+             s.next_colon(i)?;
+             s.whole_field(i)?;
+             s.eat_comma_curly(i)?;
+         }
+         let r = Self {};
+         s.curly_close(i)?;"
+            .to_string()
     }
     // if it was transparent newtype struct - skip "container"
     // and just deserialize content
-- 
2.43.0


From 25e6eec3003f7a7cd556c53043216f4674abaf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 21/49] fix: support unit structs and skipped tuple struct
 fields in RON

---
 derive/src/serde_ron.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index fafbd62..e6e9e55 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -104,7 +104,7 @@ pub fn derive_ser_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Toke
     let (generic_w_bounds, generic_no_bounds) =
         struct_bounds_strings(struct_, "SerRon", crate_name);
 
-    let last = struct_.fields.len() - 1;
+    let last = struct_.fields.len().saturating_sub(1);
     for (n, _field) in struct_
         .fields
         .iter()
@@ -295,7 +295,12 @@ pub fn derive_de_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
     let mut body = String::new();
     let (generic_w_bounds, generic_no_bounds) = struct_bounds_strings(struct_, "DeRon", crate_name);
 
-    for _ in &struct_.fields {
+    for (n, field) in struct_.fields.iter().enumerate() {
+        l!(body, "{}: ", n);
+        if attrs_skip(&field.attributes) {
+            l!(body, "Default::default(),");
+            continue;
+        }
         l!(
             body,
             "{{
@@ -311,7 +316,7 @@ pub fn derive_de_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
         impl{} {}::DeRon for {}{} {{
             fn de_ron(s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self,{}::DeRonErr> {{
                 s.paren_open(i)?;
-                let r = Self({});
+                let r = Self {{ {} }};
                 s.paren_close(i)?;
                 ::core::result::Result::Ok(r)
             }}
-- 
2.43.0


From 1d6b536c81c005c10b8b225a92462052e0644e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 22/49] fix: match JSON unit variants before reading the next
 token

---
 derive/src/serde_json.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 15d40d9..2e15d53 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -517,11 +517,13 @@ pub fn derive_de_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
         r.push_str(&format!(
             "
                     {}::DeJsonTok::Str => {{
-                        let _ = s.string(i)?;
-                        ::core::result::Result::Ok(match s.strbuf.as_ref() {{
+                        let r = match s.strbuf.as_ref() {{
                             {}
                             _ => return ::core::result::Result::Err(s.err_enum(&s.strbuf))
-                        }})
+                        }};
+                        // only now, the next token may be a string as well
+                        let _ = s.string(i)?;
+                        ::core::result::Result::Ok(r)
                     }},",
             crate_name, r_units,
         ))
-- 
2.43.0


From 5f092d7a13847b98131c61131145e11a4f83d96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 23/49] fix: remember the RON variant name before reading the
 next token

---
 derive/src/serde_ron.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index e6e9e55..586318b 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -512,11 +512,12 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
     format! ("
         impl{} {}::DeRon for {}{} {{
             fn de_ron(s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self,{}::DeRonErr> {{
-                // we are expecting an identifier
+                // we are expecting an identifier, the next token may be one as well
+                let variant = s.identbuf.clone();
                 s.ident(i)?;
-                ::core::result::Result::Ok(match s.identbuf.as_ref() {{
+                ::core::result::Result::Ok(match variant.as_str() {{
                     {}
-                    _ => return ::core::result::Result::Err(s.err_enum(&s.identbuf))
+                    _ => return ::core::result::Result::Err(s.err_enum(&variant))
                 }})
             }}
         }}", generic_w_bounds, crate_name, enum_.name, generic_no_bounds, crate_name, crate_name, body).parse().unwrap()
-- 
2.43.0


From 44f5d1432d8f70fab3872fc956f6afbda52ee4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 24/49] fix: allow a RON default for optional strings

---
 derive/src/serde_ron.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 586318b..815d9bc 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -161,9 +161,16 @@ pub fn derive_de_ron_named(
         let field_attr_default_with = shared::attrs_default_with(&field.attributes);
         let default_val = if let Some(v) = field_attr_default {
             if let Some(mut val) = v {
-                if field.ty.base() == "String" {
+                if field.ty.base() == "String"
+                    || field
+                        .ty
+                        .wraps
+                        .as_ref()
+                        .is_some_and(|wrapped| wrapped.iter().any(|ty| ty.base() == "String"))
+                {
                     val = format!("\"{}\".to_string()", val)
-                } else if field.ty.base() == "Option" {
+                }
+                if field.ty.base() == "Option" {
                     val = format!("Some({})", val);
                 }
                 Some(val)
-- 
2.43.0


From c39b669106b236cdd153ace3c2a3f552850bb296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 25/49] fix: report a TOML array of tables reusing a key
 instead of panicking

---
 src/toml.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 565589f..662f1b6 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -224,7 +224,9 @@ struct Out {
     active_array_element: Option<(String, usize)>,
 }
 impl Out {
-    fn start_array(&mut self, key: &str) {
+    /// Start a new element of the array of tables `key`, returns false if
+    /// `key` already is something else.
+    fn start_array(&mut self, key: &str) -> bool {
         if !self.out.contains_key(key) {
             self.out.insert(key.to_string(), Toml::Array(vec![]));
         }
@@ -235,10 +237,11 @@ impl Out {
                 array.push(BTreeMap::new());
                 n
             }
-            _ => unreachable!(),
+            _ => return false,
         };
 
         self.active_array_element = Some((key.to_string(), n));
+        true
     }
 
     fn out(&mut self) -> &mut BTreeMap<String, Toml> {
@@ -316,7 +319,9 @@ impl TomlParser {
                         if tok != TomlTok::BlockClose {
                             return Err(self.err_token(tok));
                         }
-                        out.start_array(&key);
+                        if !out.start_array(&key) {
+                            return Err(self.err_parse("array of tables, key already in use"));
+                        }
                         local_scope.clear();
                     }
                     _ => return Err(self.err_token(tok)),
-- 
2.43.0


From 933315a0895081ccf2f8efeab4e3a53fb3cf9764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 26/49] fix: reject unterminated TOML arrays

---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 662f1b6..01dbfd0 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -348,7 +348,7 @@ impl TomlParser {
                 let mut vals = Vec::new();
                 loop {
                     let tok = self.next_tok(i)?;
-                    if tok == TomlTok::BlockClose || tok == TomlTok::Eof {
+                    if tok == TomlTok::BlockClose {
                         break;
                     }
                     if tok != TomlTok::Comma {
-- 
2.43.0


From b9d1cdbb6fabc532d8747f2a5f77e5704785b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 27/49] fix: let a comma or comment follow TOML booleans, inf
 and nan

---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 01dbfd0..7bd5f39 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -37,7 +37,7 @@ macro_rules! ident_chars {
 /// Pattern matching a character that can terminate a valid ident.
 macro_rules! ident_term_chars {
     () => {
-        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']'
+        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']' | ',' | '#'
     };
 }
 
-- 
2.43.0


From 4d7fe94c836b87a901af46801c092b42b3053c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 28/49] fix: leave the active TOML array element at the next
 table header

---
 src/toml.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index 7bd5f39..dbe53cb 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -244,6 +244,18 @@ impl Out {
         true
     }
 
+    /// Start the table `key`, which ends the active array element unless the
+    /// table is a sub-table of it.
+    fn start_table(&mut self, key: &str) {
+        let is_sub_table = self.active_array_element.as_ref().is_some_and(|(array, _)| {
+            key.strip_prefix(array.as_str())
+                .is_some_and(|rest| rest.starts_with('.'))
+        });
+        if !is_sub_table {
+            self.active_array_element = None;
+        }
+    }
+
     fn out(&mut self) -> &mut BTreeMap<String, Toml> {
         if let Some((table, n)) = self.active_array_element.clone() {
             match self.out.get_mut(&table).unwrap() {
@@ -297,6 +309,7 @@ impl TomlParser {
                         if tok != TomlTok::BlockClose {
                             return Err(self.err_token(tok));
                         }
+                        out.start_table(local_scope);
                     }
                     TomlTok::BlockOpen => {
                         let tok = self.next_tok(i)?;
-- 
2.43.0


From 462e2a894fcb40a1e9da9c48ea3b4e67cbe4885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 29/49] fix: parse empty and multi-line TOML strings up to
 their closing quotes

---
 src/toml.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index dbe53cb..8c3d614 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -477,22 +477,39 @@ impl TomlParser {
                         braces += 1;
                         self.next(i);
                     }
+                    if braces == 2 {
+                        // just two quotes, the empty string
+                        return Ok(TomlTok::Str(val));
+                    }
                     let escaped_string = braces == 3;
+                    if escaped_string {
+                        // a newline immediately following the opening quotes is trimmed
+                        if self.cur == '\r' {
+                            self.next(i);
+                            if self.cur != '\n' {
+                                val.push('\r');
+                            }
+                        }
+                        if self.cur == '\n' {
+                            self.next(i);
+                        }
+                    }
                     loop {
                         match self.cur {
                             '"' if !escaped_string => break,
                             '"' if escaped_string => {
-                                let mut tmp = String::new();
                                 let mut braces = 0;
-                                while self.cur == '"' {
-                                    tmp.push('"');
+                                while self.cur == '"' && braces < 5 {
                                     braces += 1;
                                     self.next(i);
                                 }
-                                if braces == 3 {
-                                    break;
+                                if braces >= 3 {
+                                    // up to two quotes may precede the closing ones
+                                    val.push_str(&"\"\""[..braces - 3]);
+                                    return Ok(TomlTok::Str(val));
                                 }
-                                val.push_str(&tmp);
+                                val.push_str(&"\"\""[..braces]);
+                                continue;
                             }
                             '\\' => {
                                 self.next(i);
-- 
2.43.0


From 37634780e54d1d526a8e0e51d077da0c655e9231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 30/49] fix: decode escape sequences in TOML strings

---
 src/toml.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index 8c3d614..541b33b 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -513,6 +513,26 @@ impl TomlParser {
                             }
                             '\\' => {
                                 self.next(i);
+                                match self.cur {
+                                    'b' => val.push('\u{8}'),
+                                    't' => val.push('\t'),
+                                    'n' => val.push('\n'),
+                                    'f' => val.push('\u{c}'),
+                                    'r' => val.push('\r'),
+                                    'u' => val.push(self.unicode_escape(i, 4)?),
+                                    'U' => val.push(self.unicode_escape(i, 8)?),
+                                    '\n' | '\r' | '\t' | ' ' if escaped_string => {
+                                        // line continuation
+                                        while matches!(self.cur, '\n' | '\r' | '\t' | ' ') {
+                                            self.next(i);
+                                        }
+                                        continue;
+                                    }
+                                    '\0' => return Err(self.err_parse("string")),
+                                    _ => val.push(self.cur),
+                                }
+                                self.next(i);
+                                continue;
                             }
                             '\0' => return Err(self.err_parse("string")),
                             _ => {}
@@ -529,6 +549,19 @@ impl TomlParser {
         }
     }
 
+    /// Parse the hex digits of a unicode escape, stops at the last one.
+    fn unicode_escape(&mut self, i: &mut Chars, digits: usize) -> Result<char, TomlErr> {
+        let mut code = 0;
+        for _ in 0..digits {
+            self.next(i);
+            match self.cur.to_digit(16) {
+                Some(digit) => code = code << 4 | digit,
+                None => return Err(self.err_parse("string")),
+            }
+        }
+        char::from_u32(code).ok_or_else(|| self.err_parse("string"))
+    }
+
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
         while matches!(self.cur, ident_chars!()) {
-- 
2.43.0


From 57c0f315e91920fe0dbb703b798540f7fc04da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 31/49] fix: parse dotted TOML keys in a loop instead of
 recursing

---
 src/toml.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 541b33b..e892d3f 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -564,17 +564,11 @@ impl TomlParser {
 
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
-        while matches!(self.cur, ident_chars!()) {
+        while matches!(self.cur, ident_chars!() | '.') {
             start.push(self.cur);
             self.next(i);
         }
 
-        if self.cur == '.' {
-            start.push(self.cur);
-            self.next(i);
-            return self.parse_ident(i, start); // recursion here could be a problem
-        }
-
         if matches!(self.cur, ident_term_chars!()) {
             return Ok(match start.as_ref() {
                 "true" => TomlTok::Bool(true),
-- 
2.43.0


From fc063894b9bb9555b0d5889122266ce37b959c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 32/49] fix: keep TOML keys which look like numbers as they are
 spelled

---
 src/toml.rs | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index e892d3f..124c834 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -53,6 +53,8 @@ macro_rules! ident_term_chars {
 #[non_exhaustive]
 pub struct TomlParser {
     cur: char,
+    /// Source text of the last number, which may be a key as well.
+    raw: String,
     line: usize,
     col: usize,
 }
@@ -321,7 +323,7 @@ impl TomlParser {
                             | TomlTok::Bool(_)
                             | TomlTok::Nan(_)
                             | TomlTok::Inf(_)
-                            | TomlTok::Date(_) => tok.into(),
+                            | TomlTok::Date(_) => self.key(tok),
                             _ => return Err(self.err_token(tok)),
                         };
                         let tok = self.next_tok(i)?;
@@ -348,12 +350,23 @@ impl TomlParser {
             | TomlTok::Bool(_)
             | TomlTok::Nan(_)
             | TomlTok::Inf(_)
-            | TomlTok::Date(_) => self.parse_key_value(local_scope, tok.into(), i, out.out())?,
+            | TomlTok::Date(_) => {
+                let key = self.key(tok);
+                self.parse_key_value(local_scope, key, i, out.out())?
+            }
             _ => return Err(self.err_token(tok)),
         }
         Ok(true)
     }
 
+    /// The key spelled by the token which was just read.
+    fn key(&self, tok: TomlTok) -> String {
+        match tok {
+            TomlTok::U64(_) | TomlTok::I64(_) | TomlTok::F64(_) => self.raw.clone(),
+            tok => tok.into(),
+        }
+    }
+
     #[allow(clippy::wrong_self_convention)]
     fn to_val(&mut self, tok: TomlTok, i: &mut Chars) -> Result<Toml, TomlErr> {
         match tok {
@@ -468,7 +481,18 @@ impl TomlParser {
                         self.next(i);
                     }
                 }
-                '+' | '-' | '0'..='9' => return self.parse_num(i),
+                '+' | '-' | '0'..='9' => {
+                    let first = self.cur;
+                    let rest = i.as_str();
+                    let tok = self.parse_num(i)?;
+                    let read = &rest[..rest.len() - i.as_str().len()];
+                    let read = read.strip_suffix(self.cur).unwrap_or(read);
+                    self.raw = format!("{first}{read}");
+                    return Ok(match tok {
+                        TomlTok::Ident(_) => TomlTok::Ident(self.raw.clone()),
+                        tok => tok,
+                    });
+                }
                 '"' => {
                     let mut val = String::new();
                     self.next(i);
@@ -644,6 +668,9 @@ impl TomlParser {
                     }
                     self.next(i);
                 }
+                if matches!(self.cur, ident_chars!() | '.') {
+                    return self.parse_ident(i, num);
+                }
                 if let Ok(num) = num.parse() {
                     return Ok(TomlTok::F64(num));
                 }
@@ -657,6 +684,9 @@ impl TomlParser {
                     num.push(self.cur);
                     self.next(i);
                 }
+                if matches!(self.cur, ident_chars!() | '.') {
+                    return self.parse_ident(i, num);
+                }
                 return Ok(TomlTok::Date(num));
                 // TODO rework this
             }
@@ -667,6 +697,7 @@ impl TomlParser {
         match (negative, num.parse()) {
             (true, Ok(n)) => Ok(TomlTok::I64(n)),
             (false, Ok(n)) => Ok(TomlTok::U64(n as u64)),
+            _ if matches!(self.cur, ident_term_chars!()) => Ok(TomlTok::Ident(num)),
             _ => Err(self.err_parse("tokenizer")),
         }
     }
-- 
2.43.0


From eecd75a50addce79e007824176d596266e3eb216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 33/49] fix: accept every key as a TOML table name

---
 src/toml.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 124c834..1f2ba33 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -305,8 +305,16 @@ impl TomlParser {
                 // we should expect an ident or a string
                 let tok = self.next_tok(i)?;
                 match tok {
-                    TomlTok::Str(key) | TomlTok::Ident(key) => {
-                        *local_scope = key;
+                    TomlTok::Str(_)
+                    | TomlTok::Ident(_)
+                    | TomlTok::U64(_)
+                    | TomlTok::I64(_)
+                    | TomlTok::F64(_)
+                    | TomlTok::Bool(_)
+                    | TomlTok::Nan(_)
+                    | TomlTok::Inf(_)
+                    | TomlTok::Date(_) => {
+                        *local_scope = self.key(tok);
                         let tok = self.next_tok(i)?;
                         if tok != TomlTok::BlockClose {
                             return Err(self.err_token(tok));
@@ -316,7 +324,7 @@ impl TomlParser {
                     TomlTok::BlockOpen => {
                         let tok = self.next_tok(i)?;
                         let key = match tok {
-                            TomlTok::Ident(key) => key,
+                            TomlTok::Str(key) | TomlTok::Ident(key) => key,
                             TomlTok::U64(_)
                             | TomlTok::I64(_)
                             | TomlTok::F64(_)
-- 
2.43.0


From 4b770c0a08e657a90bcc35d0099ccf6556da3cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 34/49] fix: do not mask the error of a JSON or RON tuple item

---
 src/serde_json.rs | 4 ++--
 src/serde_ron.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index e0df0ab..571ec7f 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1100,9 +1100,9 @@ fn de_json_comma_block<T>(s: &mut DeJsonState, i: &mut Chars) -> Result<T, DeJso
 where
     T: DeJson,
 {
-    let t = DeJson::de_json(s, i);
+    let t = DeJson::de_json(s, i)?;
     s.eat_comma_block(i)?;
-    t
+    Ok(t)
 }
 
 impl<A, B> SerJson for (A, B)
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 29aa5c3..546a2d4 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1091,9 +1091,9 @@ fn de_ron_comma_paren<T>(s: &mut DeRonState, i: &mut Chars) -> Result<T, DeRonEr
 where
     T: DeRon,
 {
-    let t = DeRon::de_ron(s, i);
+    let t = DeRon::de_ron(s, i)?;
     s.eat_comma_paren(i)?;
-    t
+    Ok(t)
 }
 
 impl SerRon for () {
-- 
2.43.0


From 310db3f65440025687872d8333e78719da5849b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 35/49] fix: keep TOML keys which look like dates as they are
 spelled

---
 src/toml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 1f2ba33..3a121e4 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -370,7 +370,9 @@ impl TomlParser {
     /// The key spelled by the token which was just read.
     fn key(&self, tok: TomlTok) -> String {
         match tok {
-            TomlTok::U64(_) | TomlTok::I64(_) | TomlTok::F64(_) => self.raw.clone(),
+            TomlTok::U64(_) | TomlTok::I64(_) | TomlTok::F64(_) | TomlTok::Date(_) => {
+                self.raw.clone()
+            }
             tok => tok.into(),
         }
     }
-- 
2.43.0


From decb1800f5e8a5a281ccff0a7677eb83eb41ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 36/49] fix: accept dotted TOML keys of digits and underscores

---
 src/toml.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index 3a121e4..3ed76d6 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -684,6 +684,10 @@ impl TomlParser {
                 if let Ok(num) = num.parse() {
                     return Ok(TomlTok::F64(num));
                 }
+                if matches!(self.cur, ident_term_chars!()) {
+                    // no number, but a dotted key
+                    return Ok(TomlTok::Ident(num));
+                }
                 return Err(self.err_parse("number"));
             }
             '-' => {
-- 
2.43.0


From 7b1c6f1a94c91b687c411da71dbfdac9972157ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 37/49] fix: derive for public tuple struct fields of tuple
 types

---
 derive/src/parse.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 9ef9fb7..fe083af 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -470,9 +470,9 @@ pub fn next_visibility_modifier(
         if format!("{}", ident) == "pub" {
             source.next();
 
-            // skip (crate) and alike
+            // skip (crate) and alike, but not the tuple type of a tuple struct field
             if let Some(TokenTree::Group(group)) = source.peek() {
-                if group.delimiter() == Delimiter::Parenthesis {
+                if group.delimiter() == Delimiter::Parenthesis && is_restriction(group) {
                     next_group(source);
                 }
             }
@@ -483,6 +483,16 @@ pub fn next_visibility_modifier(
     None
 }
 
+fn is_restriction(group: &Group) -> bool {
+    let mut tokens = group.stream().into_iter();
+    let first = tokens.next().map(|x| x.to_string());
+    match first.as_deref() {
+        Some("in") => true,
+        Some("crate" | "self" | "super") => tokens.next().is_none(),
+        _ => false,
+    }
+}
+
 pub fn next_punct(source: &mut Peekable<impl Iterator<Item = TokenTree>>) -> Option<String> {
     if let Some(TokenTree::Punct(punct)) = source.peek() {
         let punct = format!("{}", punct);
-- 
2.43.0


From 0180f56b8e51e4f3086df6944a2e15194f74a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:31 +0000
Subject: [PATCH 38/49] fix: derive for enums with discriminants of several
 tokens

---
 derive/src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index fe083af..5fb15d4 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1234,7 +1234,10 @@ fn next_enum<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         }
 
         if next_exact_punct(&mut body, "=").is_some() {
-            body.next();
+            // skip the discriminant, which can be any expression
+            while body.peek().is_some_and(|x| x.to_string() != ",") {
+                body.next();
+            }
             let _maybe_coma = next_exact_punct(&mut body, ",");
             continue;
         }
-- 
2.43.0


From 46be6b049a4f0b331fb81fe1f55101520fb18906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:31 +0000
Subject: [PATCH 39/49] fix: derive for tuple variants which are empty or end
 with a comma

---
 derive/src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 5fb15d4..0755bf1 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -660,7 +660,10 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
     ) -> Option<Type> {
         let mut wraps = vec![];
         let mut path = "(".to_owned();
-        while let Some(next_ty) = next_type(source) {
+        while next_eof(source).is_none() {
+            let Some(next_ty) = next_type(source) else {
+                break;
+            };
             wraps.push(next_ty.clone());
             path.push_str(&next_ty.full().to_string());
             if next_exact_punct(source, ",").is_none() {
-- 
2.43.0


From eddaba0fdcdcb14da60c632fdcf0139701101e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 40/49] fix: derive for array lengths which are expressions

---
 derive/src/parse.rs | 48 +++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 0755bf1..a2bf7f5 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -6,7 +6,6 @@
 
 use alloc::collections::BTreeSet;
 use core::iter::Peekable;
-use core::num::IntErrorKind;
 
 use alloc::borrow::ToOwned;
 use alloc::boxed::Box;
@@ -622,37 +621,26 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
             });
         };
 
-        //need to cover both the const generic and literal case
-        let len = source.peek().unwrap().to_string();
-        match len.parse::<usize>() {
-            Ok(val) => Some(Type {
-                ident: Category::Array {
-                    content_type: Box::new(next.clone()),
-                    len: Some(ConstValType::Value(val as isize)),
-                },
-                wraps: Some(vec![next]),
-                ref_type: None,
-                as_other: None,
-            }),
-            Err(err) if err.kind() == &IntErrorKind::Zero => Some(Type {
-                ident: Category::Array {
-                    content_type: Box::new(next.clone()),
-                    len: Some(ConstValType::Value(0)),
-                },
-                wraps: Some(vec![next]),
-                ref_type: None,
-                as_other: None,
-            }),
-            _ => Some(Type {
-                ident: Category::Array {
-                    content_type: Box::new(next.clone()),
-                    len: Some(ConstValType::Named(Box::new(next_type(source).unwrap()))),
-                },
-                wraps: Some(vec![next]),
+        // a literal, or any other constant expression as it is spelled
+        let len = source.collect::<TokenStream>().to_string();
+        let len = match len.parse::<usize>() {
+            Ok(val) => ConstValType::Value(val as isize),
+            Err(_) => ConstValType::Named(Box::new(Type {
+                ident: Category::Named { path: len },
+                wraps: None,
                 ref_type: None,
                 as_other: None,
-            }),
-        }
+            })),
+        };
+        Some(Type {
+            ident: Category::Array {
+                content_type: Box::new(next.clone()),
+                len: Some(len),
+            },
+            wraps: Some(vec![next]),
+            ref_type: None,
+            as_other: None,
+        })
     }
 
     pub fn next_tuple<T: Iterator<Item = TokenTree> + Clone>(
-- 
2.43.0


From 5773a4bad784633451fb914393febdfe91da70d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:54 +0000
Subject: [PATCH 41/49] fix: derive for types and bounds whose paths start with
 ::

---
 derive/src/parse.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index a2bf7f5..450bdcd 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -13,7 +13,7 @@ use alloc::string::{String, ToString};
 use alloc::vec::Vec;
 use alloc::{format, vec};
 
-use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
+use proc_macro::{Delimiter, Group, Spacing, TokenStream, TokenTree};
 
 #[derive(Debug, Clone)]
 pub struct Attribute {
@@ -924,7 +924,11 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
 
     // read a path like a::b::c::d
     let mut ty = next_ident(source).unwrap_or_default();
-    while let Some(TokenTree::Punct(_)) = source.peek() {
+    while let Some(TokenTree::Punct(punct)) = source.peek() {
+        // the colon of a bound can be followed by a path which starts with ::
+        if punct.spacing() == Spacing::Alone {
+            break;
+        }
         let mut tmp = source.clone();
         let (Some(_), Some(_)) = (
             next_exact_punct(&mut tmp, ":"),
@@ -935,6 +939,10 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         drop(tmp);
         let _ = (source.next(), source.next()); //skip the colons
 
+        // the generic arguments can be separated by :: as well
+        if matches!(source.peek(), Some(TokenTree::Punct(punct)) if punct.as_char() == '<') {
+            break;
+        }
         let next_ident = next_ident(source).expect("Expecting next path part after ::");
         ty.push_str(&format!("::{}", next_ident));
     }
@@ -1030,10 +1038,7 @@ fn next_attribute<T: Iterator<Item = TokenTree>>(
     source: &mut Peekable<T>,
 ) -> Option<Option<Vec<Attribute>>> {
     // all attributes, even doc-comments, starts with "#"
-    let next_attr_punct = next_punct(source);
-    let Some("#") = next_attr_punct.as_deref() else {
-        return None;
-    };
+    next_exact_punct(source, "#")?;
 
     let mut attr_group = next_group(source)
         .expect("Expecting attribute body")
-- 
2.43.0


From 309b100f1d7f924bfb71cb64a5cabff4c73bb5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:55 +0000
Subject: [PATCH 42/49] fix: derive for tuple structs with where clauses

---
 derive/src/parse.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 450bdcd..c65c287 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1166,7 +1166,7 @@ fn next_fields<T: Iterator<Item = TokenTree> + Clone>(
 
 fn next_struct<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) -> Struct {
     let struct_name = next_ident(source);
-    let generics = get_all_bounds(source);
+    let mut generics = get_all_bounds(source);
     let group = next_group(source);
     // unit struct
     if group.is_none() {
@@ -1195,6 +1195,9 @@ fn next_struct<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>)
     let fields = next_fields(&mut body, named);
 
     if !named {
+        // the "where" clause of a tuple struct follows its fields
+        let mut already = generics.iter().map(Generic::full).collect();
+        where_bounds(source, &mut generics, &mut already);
         next_exact_punct(source, ";").expect("Expected ; on the end of tuple struct");
     }
 
@@ -1372,7 +1375,7 @@ fn next_generic<T: Iterator<Item = TokenTree> + Clone>(
             })
         }
         TokenTree::Punct(punct) => match punct.as_char() {
-            '>' => None,
+            '>' | ';' => None,
             '\'' => {
                 let ty = next_lifetime(source).expect("must be lifetime after \' mark");
                 let mut bounds = vec![];
@@ -1446,10 +1449,20 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
 
     let _ = next_exact_punct(source, ">").expect("Need closing generic bracket");
 
-    // "where" generics + bounds
+    where_bounds(source, &mut ret, &mut already);
+
+    ret
+}
+
+/// "where" generics + bounds
+fn where_bounds<T: Iterator<Item = TokenTree> + Clone>(
+    source: &mut Peekable<T>,
+    ret: &mut Vec<Generic>,
+    already: &mut BTreeSet<String>,
+) {
     if let Some(content) = source.peek() {
         if content.to_string() != "where" {
-            return ret;
+            return;
         } else {
             source.next();
         }
@@ -1506,8 +1519,6 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
             };
         }
     }
-
-    ret
 }
 
 pub fn parse_data(input: TokenStream) -> Data {
-- 
2.43.0


From 3f861af1e45b86e898ba1d512c5732ad91eadb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:13 +0000
Subject: [PATCH 43/49] fix: derive DeBin for tuple structs with skipped fields

---
 derive/src/serde_bin.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index a350c70..28e145c 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -195,12 +195,13 @@ pub fn derive_de_bin_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
         }
     }
 
-    for field in struct_.fields.iter().filter(|f| attrs_skip(&f.attributes)) {
-        l!(
-            body,
-            "{}: Default::default(),",
-            field.field_name.as_ref().unwrap()
-        );
+    for (n, _) in struct_
+        .fields
+        .iter()
+        .enumerate()
+        .filter(|(_, f)| attrs_skip(&f.attributes))
+    {
+        l!(body, "{}: Default::default(),", n);
     }
 
     format!(
-- 
2.43.0


From a78e8dfb2e0f72a8e9274f12314454f09b663b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:51 +0000
Subject: [PATCH 44/49] fix: derive for declarations made of macro parameters

---
 derive/src/parse.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index c65c287..0cffd98 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1521,8 +1521,25 @@ fn where_bounds<T: Iterator<Item = TokenTree> + Clone>(
     }
 }
 
+/// Replaces the invisible groups around the parameters of macros with their content.
+fn ungrouped(input: TokenStream) -> TokenStream {
+    input
+        .into_iter()
+        .flat_map(|token| match token {
+            TokenTree::Group(group) if group.delimiter() == Delimiter::None => {
+                ungrouped(group.stream())
+            }
+            TokenTree::Group(group) => {
+                let content = ungrouped(group.stream());
+                TokenTree::Group(Group::new(group.delimiter(), content)).into()
+            }
+            token => token.into(),
+        })
+        .collect()
+}
+
 pub fn parse_data(input: TokenStream) -> Data {
-    let mut source = input.into_iter().peekable();
+    let mut source = ungrouped(input).into_iter().peekable();
 
     let attributes = next_attributes_list(&mut source);
 
-- 
2.43.0


From 7f0616d033b10eb24bc09568910610d7e3c2846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:07 +0000
Subject: [PATCH 45/49] fix: derive for tuple variants without fields

---
 derive/src/serde_json.rs | 3 +--
 derive/src/serde_ron.rs  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 2e15d53..b1bfe85 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -377,11 +377,10 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let mut names = Vec::new();
                 let mut inner = String::new();
-                let last = contents.len() - 1;
                 for (index, _) in contents.iter().enumerate() {
                     let field_name = format!("f{}", index);
                     names.push(field_name.clone());
-                    if index != last {
+                    if index + 1 != contents.len() {
                         l!(inner, "{}.ser_json(d, s); s.out.push(',');", field_name);
                     } else {
                         l!(inner, "{}.ser_json(d, s);", field_name);
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 815d9bc..c40cd39 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -413,11 +413,10 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let mut names = Vec::new();
                 let mut inner = String::new();
-                let last = contents.len() - 1;
                 for (index, _) in &mut contents.iter().enumerate() {
                     let name = format!("f{}", index);
                     l!(inner, "{}.ser_ron(d, s);", name);
-                    if index != last {
+                    if index + 1 != contents.len() {
                         l!(inner, "s.out.push_str(\",\");")
                     }
                     names.push(name);
-- 
2.43.0


From bc2590e113408a039a7ef713368e07da6a8a56fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 46/49] fix: derive DeRon for structs whose fields are all
 skipped

---
 derive/src/serde_ron.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index c40cd39..b7526d2 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -232,7 +232,7 @@ pub fn derive_de_ron_named(
             );
         }
         format!(
-            "match s.identbuf.as_ref() {{
+            "match s.identbuf.as_str() {{
                 {}
                 _ => return ::core::result::Result::Err(s.err_exp(&s.identbuf))
             }}",
-- 
2.43.0


From cf4a48d6c1029d23eeb69a5dbbf7d966403c6b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:51 +0000
Subject: [PATCH 47/49] fix: reject a binary usize or count which does not fit
 the usize of the machine

---
 src/serde_bin.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 60983ae..68d8731 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -188,8 +188,13 @@ impl DeBin for usize {
             }
         };
 
+        // `usize` may be narrower than the 8 bytes it is written with
+        let m = usize::try_from(m).map_err(|_| DeBinErr {
+            o: *o,
+            msg: DeBinErrReason::Range("usize out of range".to_owned()),
+        })?;
         *o += l;
-        Ok(m as usize)
+        Ok(m)
     }
 }
 
-- 
2.43.0


From ab153d1b5d81645ef94d7c990526dda435ec9b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:51 +0000
Subject: [PATCH 48/49] fix: reject a usize in JSON or RON which does not fit
 the usize of the machine

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 571ec7f..a9f1a16 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -765,7 +765,7 @@ macro_rules! impl_ser_de_json_float {
     };
 }
 
-impl_ser_de_json_unsigned!(usize, u64::MAX);
+impl_ser_de_json_unsigned!(usize, usize::MAX);
 impl_ser_de_json_unsigned!(u64, u64::MAX);
 impl_ser_de_json_unsigned!(u32, u32::MAX);
 impl_ser_de_json_unsigned!(u16, u16::MAX);
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 546a2d4..3208ac6 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -769,7 +769,7 @@ macro_rules! impl_ser_de_ron_float {
     };
 }
 
-impl_ser_de_ron_unsigned!(usize, u64::MAX);
+impl_ser_de_ron_unsigned!(usize, usize::MAX);
 impl_ser_de_ron_unsigned!(u64, u64::MAX);
 impl_ser_de_ron_unsigned!(u32, u32::MAX);
 impl_ser_de_ron_unsigned!(u16, u16::MAX);
-- 
2.43.0


From 98c68316422a4c88092efb95e3687c07960e70dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:21 +0000
Subject: [PATCH 49/49] fix: name a missing renamed key as it stands in
 documents

---
 derive/src/serde_json.rs | 2 +-
 derive/src/serde_ron.rs  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index b1bfe85..f4b0bbf 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -221,7 +221,7 @@ pub fn derive_de_json_named(
             } else {
                 unwraps.push(format!(
                     "{}.map(|t| {}).ok_or_else(|| s.err_nf(\"{}\"))?",
-                    localvar, proxified_t, struct_fieldname
+                    localvar, proxified_t, json_fieldname
                 ));
             }
             matches.push((json_fieldname.clone(), localvar.clone()));
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index b7526d2..fe8bb58 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -194,7 +194,8 @@ pub fn derive_de_ron_named(
             Some(def) => format!("{}.unwrap_or_else(|| {})", localvar, def),
             None => format!(
                 "{}.ok_or_else(|| s.err_nf(\"{}\"))?",
-                localvar, struct_fieldname
+                localvar,
+                ron_fieldname.as_ref().unwrap_or(&struct_fieldname)
             ),
         });
 
-- 
2.43.0

