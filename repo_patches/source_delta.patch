From e9748f0e5b5a1554f1b5ede04e4e670c33d2fc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 01/17] fix: don't panic on empty, short or non-ASCII sentence
 types

---
 src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bcf5f6e..66553da 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -196,8 +196,8 @@ impl NmeaParser {
 
         // Recognize GNSS system by talker ID.
         let nav_system = {
-            if &sentence_type[0..1] == "$" {
-                match &sentence_type[1..3] {
+            if sentence_type.starts_with('$') {
+                match sentence_type.get(1..3).unwrap_or("") {
                     "GN" => Some(gnss::NavigationSystem::Combination),
                     "GP" => Some(gnss::NavigationSystem::Gps),
                     "GL" => Some(gnss::NavigationSystem::Glonass),
@@ -214,14 +214,16 @@ impl NmeaParser {
         if nav_system != None {
             // Shorten the GNSS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("${}", &sentence_type[3..6]);
+                if let Some(code) = sentence_type.get(3..6) {
+                    sentence_type = format!("${}", code);
+                }
             }
         }
 
         // Recognize AIS station
         let station = {
-            if &sentence_type[0..1] == "!" {
-                match &sentence_type[1..3] {
+            if sentence_type.starts_with('!') {
+                match sentence_type.get(1..3).unwrap_or("") {
                     "AB" => Some(ais::Station::BaseStation),
                     "AD" => Some(ais::Station::DependentAisBaseStation),
                     "AI" => Some(ais::Station::MobileStation),
@@ -239,7 +241,9 @@ impl NmeaParser {
         if station != None {
             // Shorten the AIS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("!{}", &sentence_type[3..6]);
+                if let Some(code) = sentence_type.get(3..6) {
+                    sentence_type = format!("!{}", code);
+                }
             }
         }
 
-- 
2.43.0


From be6eacef3a84236ceda77ae63b43fb5035d94ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 02/17] fix: reject characters outside the AIS payload armoring
 alphabet instead of panicking

---
 src/util.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index bbbb3b1..30de9d7 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -28,10 +28,11 @@ pub fn make_fragment_key(sentence_type: &String, message_id: u64, fragment_count
 pub fn parse_payload(payload: &String) -> Result<BitVec, String> {   
     let mut bv = BitVec::<LocalBits, usize>::with_capacity(payload.len() * 6); // or Lsb0 or Msb0 ?
     for c in payload.chars() {
-        let mut ci = (c as u8) - 48;
-        if ci > 40 {
-            ci -= 8;
-        }
+        let ci = match c {
+            '0'..='W' => { (c as u8) - 48 },
+            '`'..='w' => { (c as u8) - 56 },
+            _ => { return Err(format!("Invalid payload character: {}", c)); }
+        };
 
         // Pick bits
         for i in 0..6 {
-- 
2.43.0


From a8203ff8b030d969abc9f6fb9d580eca90a528ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 03/17] fix: return an error for short or out-of-range HHMMSS
 fields instead of panicking

---
 src/util.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 30de9d7..c92f6ce 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -136,10 +136,13 @@ pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) ->
 
 /// Parse time field of format HHMMSS and convert it to DateTime<Utc> using the current time.
 pub fn parse_hhmmss(hhmmss: &str, now: DateTime<Utc>) -> Result<DateTime<Utc>, String> {
-    if let Some(hour) = hhmmss[0..2].parse::<u32>().ok() {
-        if let Some(minute) = hhmmss[2..4].parse::<u32>().ok() {
-            if let Some(second) = hhmmss[4..6].parse::<u32>().ok() {
-                return Ok(Utc.ymd(now.year(), now.month(), now.day()).and_hms(hour, minute, second))
+    if let Some(hour) = hhmmss.get(0..2).unwrap_or("").parse::<u32>().ok() {
+        if let Some(minute) = hhmmss.get(2..4).unwrap_or("").parse::<u32>().ok() {
+            if let Some(second) = hhmmss.get(4..6).unwrap_or("").parse::<u32>().ok() {
+                if let Some(time) = Utc.ymd(now.year(), now.month(), now.day())
+                                       .and_hms_opt(hour, minute, second) {
+                    return Ok(time);
+                }
             }
         }
     }
-- 
2.43.0


From 493678ea22a279b50e619b7402cbe0d49a5e0de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 04/17] fix: return an error for impossible RMC dates and times
 instead of panicking

---
 src/util.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index c92f6ce..7861098 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -158,8 +158,11 @@ pub fn parse_yymmdd_hhmmss(yymmdd: &str, hhmmss: &str) -> Result<DateTime<Utc>,
                 if let Some(hour) = pick_s2(hhmmss, 0).parse::<u32>().ok() {
                     if let Some(minute) = pick_s2(hhmmss, 2).parse::<u32>().ok() {
                         if let Some(second) = pick_s2(hhmmss, 4).parse::<u32>().ok() {
-                            return Ok(Utc.ymd(century + year, month, day)
-                                         .and_hms(hour, minute, second))
+                            if let Some(time) = Utc.ymd_opt(century + year, month, day)
+                                                   .and_hms_opt(hour, minute, second)
+                                                   .single() {
+                                return Ok(time);
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 943eaeae53ef28b9e0cceb61efe6f84a80338ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 05/17] fix: report an unavailable base station timestamp as
 None instead of panicking

---
 src/ais/vdm_t4.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ais/vdm_t4.rs b/src/ais/vdm_t4.rs
index 2d0748f..84fe01d 100644
--- a/src/ais/vdm_t4.rs
+++ b/src/ais/vdm_t4.rs
@@ -82,12 +82,13 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 8, 30) as u32
         },
         timestamp: {
-            Some(Utc.ymd(pick_u64(&bv, 38, 14) as i32, 
+            Utc.ymd_opt(pick_u64(&bv, 38, 14) as i32, 
                         pick_u64(&bv, 52, 4) as u32, 
                         pick_u64(&bv, 56, 5) as u32)
-                    .and_hms(pick_u64(&bv, 61, 5) as u32, 
-                             pick_u64(&bv, 66, 6) as u32, 
-                             pick_u64(&bv, 72, 6) as u32))
+                    .and_hms_opt(pick_u64(&bv, 61, 5) as u32, 
+                                 pick_u64(&bv, 66, 6) as u32, 
+                                 pick_u64(&bv, 72, 6) as u32)
+                    .single()
         },        
         high_position_accuracy: {
             pick_u64(&bv, 78, 1) != 0
-- 
2.43.0


From d976c15343ff28e2b53a904c75fd2d8f7186c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 06/17] fix: report an impossible ETA as None instead of
 panicking, and roll a past ETA over to the next year

---
 src/util.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 7861098..aca336a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -108,16 +108,17 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     if day == 0    { day = now.day(); }
     if hour == 24  { hour = 23; minute = 59; second = 59; }
     if minute == 60  { minute = 59; second = 59; }
-    if second == 60  { second = 59; }
+    if second >= 60  { second = 59; }
     
     // This and next year
-    let this_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
-    let next_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
+    let this_year_eta = NaiveDate::from_ymd_opt(now.year(), month, day)
+                            .and_then(|date| date.and_hms_opt(hour, minute, second));
+    let next_year_eta = NaiveDate::from_ymd_opt(now.year() + 1, month, day)
+                            .and_then(|date| date.and_hms_opt(hour, minute, second));
 
-    if now <= this_year_eta {
-        Some(DateTime::<Utc>::from_utc(this_year_eta, Utc))
-    } else {
-        Some(DateTime::<Utc>::from_utc(next_year_eta, Utc))
+    match this_year_eta {
+        Some(eta) if now <= eta => Some(DateTime::<Utc>::from_utc(eta, Utc)),
+        _ => next_year_eta.map(|eta| DateTime::<Utc>::from_utc(eta, Utc)),
     }
 }
 
-- 
2.43.0


From ce32793e75f36625fe09127ae40551c3757168e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 07/17] fix: recognize the not-available ETA regardless of the
 draught bits following it

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index aca336a..cecde25 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -100,7 +100,7 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     let mut minute = pick_u64(bv, index + 4 + 5 + 5, 6) as u32;
     let mut second = pick_u64(bv, index + 4 + 5 + 5 + 6, 6) as u32;
     
-    if month == 0 && day == 0 && hour == 24 && minute == 60 && second == 60 {
+    if month == 0 && day == 0 && hour == 24 && minute == 60 {
         return None;
     }
     
-- 
2.43.0


From 5c73442ec85a66af6638f1c4521c321e082f515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 08/17] fix: don't overflow when a GSV sentence claims
 4294967295 parts

---
 src/gnss/gsv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gnss/gsv.rs b/src/gnss/gsv.rs
index efdc429..924be0f 100644
--- a/src/gnss/gsv.rs
+++ b/src/gnss/gsv.rs
@@ -48,7 +48,7 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
     store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());
 
     let mut found_count = 0;
-    for i in 1..(msg_count + 1) {
+    for i in 1..=msg_count {
         if store.contains_key(make_gsv_key(msg_type, msg_count, i)) {
             found_count += 1;
         }
@@ -56,7 +56,7 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
 
     if found_count == msg_count {
         let mut v = Vec::new();
-        for i in 1..(msg_count + 1) {
+        for i in 1..=msg_count {
             if let Some(sentence) = store.pull_string(make_gsv_key(msg_type, msg_count, i)) {
                 let split: Vec<&str> = sentence.split(',').collect();
                 for j in 0..4 {
-- 
2.43.0


From 1ba76e8e775492925ea1eee2785670c7d0e8d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 09/17] fix: decode ship types 8x as tanker and 9x as other

---
 src/ais/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index bc0b8aa..e9140ba 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -452,10 +452,10 @@ impl ShipType {
                 ShipType::Cargo
             },
             80 | 81 | 82 | 83 | 84 | 85 | 86 | 87 | 88 | 89 => {
-                ShipType::Cargo
+                ShipType::Tanker
             },
             90 | 91 | 92 | 93 | 94 | 95 | 96 | 97 | 98 | 99 => {
-                ShipType::Cargo
+                ShipType::Other
             },
             _ => {
                 warn!("Unexpected ship and cargo type: {}", raw);
-- 
2.43.0


From 3b0814134f89c267b5d7fddf0725e9aea7137219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 10/17] fix: mark type 5 static data as class A

---
 src/ais/vdm_t5.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t5.rs b/src/ais/vdm_t5.rs
index 37fb814..c1b24e9 100644
--- a/src/ais/vdm_t5.rs
+++ b/src/ais/vdm_t5.rs
@@ -20,7 +20,7 @@ use super::*;
 pub fn handle(bv: &BitVec, _station: Station, own_vessel: bool) -> Result<ParsedSentence, ParseError> {
     return Ok(ParsedSentence::VesselStaticData(VesselStaticData{
         own_vessel:              own_vessel,
-        ais_type:                AisClass::ClassB,
+        ais_type:                AisClass::ClassA,
         mmsi:                    pick_u64(&bv, 8, 30) as u32,
         ais_version_indicator:   pick_u64(&bv, 38, 2) as u8,
         imo_number: {
-- 
2.43.0


From 5f109f0157d268becc1fdfcee9b39dd6396f1d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 11/17] fix: decode special manoeuvre indicator 1 as not
 engaged

---
 src/ais/vdm_t1t2t3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index 8a68569..aa66a56 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -119,7 +119,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             let raw = pick_u64(&bv, 143, 2);
             match raw {
                 0 => { None },
-                1 => { Some(true) },
+                1 => { Some(false) },
                 2 => { Some(true) },
                 _ => {
                     warn!("Unrecognized Maneuver Indicator value: {}", raw);
-- 
2.43.0


From 41476793989cdf04fcb8b32564c9649ce35543e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 12/17] fix: compute the rate of turn as (ROT_AIS / 4.733)^2

---
 src/ais/vdm_t1t2t3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index aa66a56..7b00227 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -38,9 +38,9 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         rot: {
             let raw = pick_i64(&bv, 42, 8);
             if -126 <= raw && raw < 0 {
-                Some(-((-raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some(-(-raw as f64 / 4.733).powi(2))
             } else if 0 <= raw && raw <= 126 {
-                Some(((raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some((raw as f64 / 4.733).powi(2))
             } else {
                 None
             }
-- 
2.43.0


From 2eeb793dc48a1d250d0bbf7cfa9fe2feaa27023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 13/17] fix: read the class B flags and RAIM flag of type 18
 from their own bits

---
 src/ais/vdm_t18.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ais/vdm_t18.rs b/src/ais/vdm_t18.rs
index 3201a2b..8feaeea 100644
--- a/src/ais/vdm_t18.rs
+++ b/src/ais/vdm_t18.rs
@@ -76,12 +76,12 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         class_b_unit_flag: { 
             None 
         },
-        class_b_display:    Some(pick_u64(&bv, 141, 1) != 0),
-        class_b_dsc:        Some(pick_u64(&bv, 142, 1) != 0),
-        class_b_band_flag:  Some(pick_u64(&bv, 143, 1) != 0),
-        class_b_msg22_flag: Some(pick_u64(&bv, 144, 1) != 0),
-        class_b_mode_flag:  Some(pick_u64(&bv, 145, 1) != 0),
-        raim_flag:          pick_u64(&bv, 141, 1) != 0,
+        class_b_display:    Some(pick_u64(&bv, 142, 1) != 0),
+        class_b_dsc:        Some(pick_u64(&bv, 143, 1) != 0),
+        class_b_band_flag:  Some(pick_u64(&bv, 144, 1) != 0),
+        class_b_msg22_flag: Some(pick_u64(&bv, 145, 1) != 0),
+        class_b_mode_flag:  Some(pick_u64(&bv, 146, 1) != 0),
+        raim_flag:          pick_u64(&bv, 147, 1) != 0,
         class_b_css_flag: {
             None
         },
-- 
2.43.0


From 86fcc154f29254791498b650883900e18a53ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 14/17] fix: read the off-position indicator of type 21 from
 bit 259

---
 src/ais/vdm_t21.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t21.rs b/src/ais/vdm_t21.rs
index ddcb097..f1f1054 100644
--- a/src/ais/vdm_t21.rs
+++ b/src/ais/vdm_t21.rs
@@ -347,7 +347,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 253, 6) as u8
         },
         off_position_indicator: {
-            pick_u64(&bv, 243, 1) != 0
+            pick_u64(&bv, 259, 1) != 0
         },
         regional: {
             pick_u64(&bv, 260, 8) as u8
-- 
2.43.0


From d2fd0f2fd4b7adb0c4bc308c211de15f086639c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 15/17] fix: read 20 characters as the type 24 part A vessel
 name

---
 src/ais/vdm_t24.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index 23a4bfd..d3f47a5 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -47,7 +47,7 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         },
         name: {
             if part_a {
-                let raw = pick_string(&bv, 40, 120);
+                let raw = pick_string(&bv, 40, 20);
                 match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
             } else {
                 None
-- 
2.43.0


From ffb39e120a001b61b4a062e5946779ba8f7d2337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 16/17] fix: recognize the simulator FAA mode

---
 src/gnss/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gnss/mod.rs b/src/gnss/mod.rs
index 0e6959e..bf2bad5 100644
--- a/src/gnss/mod.rs
+++ b/src/gnss/mod.rs
@@ -110,6 +110,7 @@ impl FaaMode {
             "D" => Ok(FaaMode::Differential),
             "E" => Ok(FaaMode::Estimated),
             "N" => Ok(FaaMode::NotValid),
+            "S" => Ok(FaaMode::Simulator),
             _ => { Err(format!("Unrecognized FAA information value: {}", val)) }
         }
     }
-- 
2.43.0


From ec2845b12f883af4a7acead1909c6914a82d8a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:09 +0000
Subject: [PATCH 17/17] fix: show the simulator FAA mode as S, the letter it is
 read from

---
 src/gnss/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gnss/mod.rs b/src/gnss/mod.rs
index bf2bad5..e4ab990 100644
--- a/src/gnss/mod.rs
+++ b/src/gnss/mod.rs
@@ -123,7 +123,7 @@ impl std::fmt::Display for FaaMode {
             FaaMode::Differential => { write!(f, "D") }
             FaaMode::Estimated => { write!(f, "E") }
             FaaMode::NotValid => { write!(f, "N") }
-            _ => { write!(f, "?") }
+            FaaMode::Simulator => { write!(f, "S") }
         }
         
     }
-- 
2.43.0

