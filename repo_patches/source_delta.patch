From 2bd5343dd7132369c732c5c8509b5744fac0a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 01/25] fix: reject short or non-ASCII sentence headers instead
 of panicking

---
 src/lib.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bcf5f6e..53d9d43 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -196,8 +196,8 @@ impl NmeaParser {
 
         // Recognize GNSS system by talker ID.
         let nav_system = {
-            if &sentence_type[0..1] == "$" {
-                match &sentence_type[1..3] {
+            if sentence_type.starts_with("$") {
+                match sentence_type.get(1..3).unwrap_or("") {
                     "GN" => Some(gnss::NavigationSystem::Combination),
                     "GP" => Some(gnss::NavigationSystem::Gps),
                     "GL" => Some(gnss::NavigationSystem::Glonass),
@@ -214,14 +214,20 @@ impl NmeaParser {
         if nav_system != None {
             // Shorten the GNSS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("${}", &sentence_type[3..6]);
+                match sentence_type.get(3..6) {
+                    Some(s) => { sentence_type = format!("${}", s); },
+                    None => {
+                        return Err(ParseError::InvalidSentence(
+                                   format!("Invalid NMEA sentence type: {}", sentence_type)));
+                    }
+                }
             }
         }
 
         // Recognize AIS station
         let station = {
-            if &sentence_type[0..1] == "!" {
-                match &sentence_type[1..3] {
+            if sentence_type.starts_with("!") {
+                match sentence_type.get(1..3).unwrap_or("") {
                     "AB" => Some(ais::Station::BaseStation),
                     "AD" => Some(ais::Station::DependentAisBaseStation),
                     "AI" => Some(ais::Station::MobileStation),
@@ -239,7 +245,13 @@ impl NmeaParser {
         if station != None {
             // Shorten the AIS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("!{}", &sentence_type[3..6]);
+                match sentence_type.get(3..6) {
+                    Some(s) => { sentence_type = format!("!{}", s); },
+                    None => {
+                        return Err(ParseError::InvalidSentence(
+                                   format!("Invalid NMEA sentence type: {}", sentence_type)));
+                    }
+                }
             }
         }
 
-- 
2.43.0


From f42b046af27fea1faa6a7039fac898cf4966804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 02/25] fix: reject AIS payloads containing characters outside
 the armouring alphabet

---
 src/lib.rs  | 6 +++---
 src/util.rs | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 53d9d43..8421f35 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -396,7 +396,7 @@ impl NmeaParser {
                 // Try parse the payload
                 let mut bv: Option<BitVec> = None;
                 if fragment_count == 1 {
-                    bv = parse_payload(&payload_string).ok();
+                    bv = Some(parse_payload(&payload_string)?);
                 } else if fragment_count == 2 {
                     if let Some(msg_id) = message_id {
                         let key1 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 
@@ -407,7 +407,7 @@ impl NmeaParser {
                             if let Some(p) = self.pull_string(key2.into()) {
                                 let mut payload_string_combined = payload_string;
                                 payload_string_combined.push_str(p.as_str());
-                                bv = parse_payload(&payload_string_combined). ok();
+                                bv = Some(parse_payload(&payload_string_combined)?);
                             } else {
                                 self.push_string(key1.into(), payload_string);
                             }
@@ -415,7 +415,7 @@ impl NmeaParser {
                             if let Some(p) = self.pull_string(key1.into()) {
                                 let mut payload_string_combined = p.clone();
                                 payload_string_combined.push_str(payload_string.as_str());
-                                bv = parse_payload(&payload_string_combined).ok();
+                                bv = Some(parse_payload(&payload_string_combined)?);
                             } else {
                                 self.push_string(key2.into(), payload_string);
                             }
diff --git a/src/util.rs b/src/util.rs
index bbbb3b1..3dc3db2 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -28,7 +28,10 @@ pub fn make_fragment_key(sentence_type: &String, message_id: u64, fragment_count
 pub fn parse_payload(payload: &String) -> Result<BitVec, String> {   
     let mut bv = BitVec::<LocalBits, usize>::with_capacity(payload.len() * 6); // or Lsb0 or Msb0 ?
     for c in payload.chars() {
-        let mut ci = (c as u8) - 48;
+        let mut ci = match c {
+            '0'..='W' | '`'..='w' => (c as u8) - 48,
+            _ => { return Err(format!("Illegal character in AIS payload: {}", payload)); }
+        };
         if ci > 40 {
             ci -= 8;
         }
-- 
2.43.0


From fbc6724f6431cf6bf0b55b50ed2b381e6e9efdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 03/25] fix: calculate the checksum over bytes, not truncated
 characters

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8421f35..acde6d9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -175,8 +175,8 @@ impl NmeaParser {
                 (sentence.to_string(), "".to_string())
             }
         };
-        for c in sentence.as_str().chars().skip(1) {
-            checksum = checksum ^ (c as u8);
+        for c in sentence.as_str().bytes().skip(1) {
+            checksum = checksum ^ c;
         }
         let checksum_hex_calculated = format!("{:02X?}", checksum);
         if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {
-- 
2.43.0


From 4728edd81bbfabc532f9444bae75f85d469869a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 04/25] fix: reject GNSS times that are malformed or do not
 exist instead of panicking

---
 src/util.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 3dc3db2..c315ffd 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -138,10 +138,13 @@ pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) ->
 
 /// Parse time field of format HHMMSS and convert it to DateTime<Utc> using the current time.
 pub fn parse_hhmmss(hhmmss: &str, now: DateTime<Utc>) -> Result<DateTime<Utc>, String> {
-    if let Some(hour) = hhmmss[0..2].parse::<u32>().ok() {
-        if let Some(minute) = hhmmss[2..4].parse::<u32>().ok() {
-            if let Some(second) = hhmmss[4..6].parse::<u32>().ok() {
-                return Ok(Utc.ymd(now.year(), now.month(), now.day()).and_hms(hour, minute, second))
+    if let Some(hour) = pick_d2(hhmmss, 0) {
+        if let Some(minute) = pick_d2(hhmmss, 2) {
+            if let Some(second) = pick_d2(hhmmss, 4) {
+                if let Some(time) = Utc.ymd(now.year(), now.month(), now.day())
+                                       .and_hms_opt(hour, minute, second) {
+                    return Ok(time);
+                }
             }
         }
     }
@@ -169,6 +172,12 @@ pub fn parse_yymmdd_hhmmss(yymmdd: &str, hhmmss: &str) -> Result<DateTime<Utc>,
     return Err(format!("Invalid date format: {}", yymmdd));
 }
 
+/// Pick two-digit number from the given string.
+fn pick_d2(s: &str, i: usize) -> Option<u32> {
+    let d2 = s.get(i..(i + 2))?;
+    if d2.bytes().all(|b| b.is_ascii_digit()) { d2.parse().ok() } else { None }
+}
+
 /// A simple helper to pick a substring of length two from the given string.
 fn pick_s2(s: &str, i: usize) -> String {
     s.chars().skip(i).take(2).collect()
-- 
2.43.0


From f495852facc7603989e5348465e72a3f765a14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 05/25] fix: reject RMC dates and times that are malformed or
 do not exist instead of panicking

---
 src/util.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index c315ffd..3f3518e 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -154,14 +154,17 @@ pub fn parse_hhmmss(hhmmss: &str, now: DateTime<Utc>) -> Result<DateTime<Utc>, S
 /// Parse time fields of formats YYMMDD and HHMMSS and convert them to DateTime<Utc>.
 pub fn parse_yymmdd_hhmmss(yymmdd: &str, hhmmss: &str) -> Result<DateTime<Utc>, String> {
     let century = (Utc::now().year() / 100) * 100;
-    if let Some(day) = pick_s2(yymmdd, 0).parse::<u32>().ok() {
-        if let Some(month) = pick_s2(yymmdd, 2).parse::<u32>().ok() {
-            if let Some(year) = pick_s2(yymmdd, 4).parse::<i32>().ok() {
-                if let Some(hour) = pick_s2(hhmmss, 0).parse::<u32>().ok() {
-                    if let Some(minute) = pick_s2(hhmmss, 2).parse::<u32>().ok() {
-                        if let Some(second) = pick_s2(hhmmss, 4).parse::<u32>().ok() {
-                            return Ok(Utc.ymd(century + year, month, day)
-                                         .and_hms(hour, minute, second))
+    if let Some(day) = pick_d2(yymmdd, 0) {
+        if let Some(month) = pick_d2(yymmdd, 2) {
+            if let Some(year) = pick_d2(yymmdd, 4) {
+                if let Some(hour) = pick_d2(hhmmss, 0) {
+                    if let Some(minute) = pick_d2(hhmmss, 2) {
+                        if let Some(second) = pick_d2(hhmmss, 4) {
+                            if let Some(time) = Utc.ymd_opt(century + year as i32, month, day)
+                                                   .and_hms_opt(hour, minute, second)
+                                                   .single() {
+                                return Ok(time);
+                            }
                         }
                     }
                 }
@@ -178,11 +181,6 @@ fn pick_d2(s: &str, i: usize) -> Option<u32> {
     if d2.bytes().all(|b| b.is_ascii_digit()) { d2.parse().ok() } else { None }
 }
 
-/// A simple helper to pick a substring of length two from the given string.
-fn pick_s2(s: &str, i: usize) -> String {
-    s.chars().skip(i).take(2).collect()
-}
-
 /// Parse latitude from two string.
 /// lat_string = DDMM.MMM representing latitude
 /// hemisphere = N for north, S for south
-- 
2.43.0


From c7c2b284aa5654d00737ad963db4090a4afadec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 06/25] fix: report no timestamp for impossible base station
 times instead of panicking

---
 src/ais/vdm_t4.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ais/vdm_t4.rs b/src/ais/vdm_t4.rs
index 2d0748f..9bf9468 100644
--- a/src/ais/vdm_t4.rs
+++ b/src/ais/vdm_t4.rs
@@ -82,12 +82,13 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 8, 30) as u32
         },
         timestamp: {
-            Some(Utc.ymd(pick_u64(&bv, 38, 14) as i32, 
+            Utc.ymd_opt(pick_u64(&bv, 38, 14) as i32, 
                         pick_u64(&bv, 52, 4) as u32, 
                         pick_u64(&bv, 56, 5) as u32)
-                    .and_hms(pick_u64(&bv, 61, 5) as u32, 
+                    .and_hms_opt(pick_u64(&bv, 61, 5) as u32, 
                              pick_u64(&bv, 66, 6) as u32, 
-                             pick_u64(&bv, 72, 6) as u32))
+                             pick_u64(&bv, 72, 6) as u32)
+                    .single()
         },        
         high_position_accuracy: {
             pick_u64(&bv, 78, 1) != 0
-- 
2.43.0


From b714c13e36b4953a98b9ad138474a85f1a14ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:27 +0000
Subject: [PATCH 07/25] fix: move passed ETAs to next year and report none for
 impossible or unavailable ones

---
 src/util.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 3f3518e..d90ab7d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -102,7 +102,7 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     let mut minute = pick_u64(bv, index + 4 + 5 + 5, 6) as u32;
     let mut second = pick_u64(bv, index + 4 + 5 + 5 + 6, 6) as u32;
     
-    if month == 0 && day == 0 && hour == 24 && minute == 60 && second == 60 {
+    if month == 0 && day == 0 && hour == 24 && minute == 60 {
         return None;
     }
     
@@ -110,16 +110,17 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     if day == 0    { day = now.day(); }
     if hour == 24  { hour = 23; minute = 59; second = 59; }
     if minute == 60  { minute = 59; second = 59; }
-    if second == 60  { second = 59; }
+    if second >= 60  { second = 59; }
     
     // This and next year
-    let this_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
-    let next_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
+    let this_year_eta = NaiveDate::from_ymd_opt(now.year(), month, day)
+                                  .and_then(|d| d.and_hms_opt(hour, minute, second));
+    let next_year_eta = NaiveDate::from_ymd_opt(now.year() + 1, month, day)
+                                  .and_then(|d| d.and_hms_opt(hour, minute, second));
 
-    if now <= this_year_eta {
-        Some(DateTime::<Utc>::from_utc(this_year_eta, Utc))
-    } else {
-        Some(DateTime::<Utc>::from_utc(next_year_eta, Utc))
+    match this_year_eta {
+        Some(eta) if now <= eta => { Some(DateTime::<Utc>::from_utc(eta, Utc)) },
+        _ => { next_year_eta.map(|eta| DateTime::<Utc>::from_utc(eta, Utc)) }
     }
 }
 
-- 
2.43.0


From ab66b6056289b535e7992e8eae55bfd8a6147b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:28 +0000
Subject: [PATCH 08/25] fix: reject GSV sentences whose number or count is
 missing or out of range

---
 src/gnss/gsv.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gnss/gsv.rs b/src/gnss/gsv.rs
index efdc429..e23a782 100644
--- a/src/gnss/gsv.rs
+++ b/src/gnss/gsv.rs
@@ -45,10 +45,13 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
     let msg_type = split.get(0).unwrap_or(&"");
     let msg_count = pick_number_field(&split, 1)?.unwrap_or(0);
     let msg_num = pick_number_field(&split, 2)?.unwrap_or(0);
+    if msg_num < 1 || msg_num > msg_count {
+        return Err(format!("Invalid GSV sentence number: {}/{}", msg_num, msg_count).into());
+    }
     store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());
 
     let mut found_count = 0;
-    for i in 1..(msg_count + 1) {
+    for i in 1..=msg_count {
         if store.contains_key(make_gsv_key(msg_type, msg_count, i)) {
             found_count += 1;
         }
@@ -56,7 +59,7 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
 
     if found_count == msg_count {
         let mut v = Vec::new();
-        for i in 1..(msg_count + 1) {
+        for i in 1..=msg_count {
             if let Some(sentence) = store.pull_string(make_gsv_key(msg_type, msg_count, i)) {
                 let split: Vec<&str> = sentence.split(',').collect();
                 for j in 0..4 {
@@ -80,7 +83,7 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
 }    
 
 /// Make key for store
-fn make_gsv_key(sentence_type: &str, msg_count: u32, msg_num: u32) -> String {
+fn make_gsv_key(sentence_type: &str, msg_count: u8, msg_num: u8) -> String {
     format!("{},{},{}", sentence_type, msg_count, msg_num)
 }
 
-- 
2.43.0


From 83b3e44b1fc167dad383d4cdb7bc5bd9e89e88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 09/25] fix: report type 5 as AIS class A

---
 src/ais/vdm_t5.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t5.rs b/src/ais/vdm_t5.rs
index 37fb814..c1b24e9 100644
--- a/src/ais/vdm_t5.rs
+++ b/src/ais/vdm_t5.rs
@@ -20,7 +20,7 @@ use super::*;
 pub fn handle(bv: &BitVec, _station: Station, own_vessel: bool) -> Result<ParsedSentence, ParseError> {
     return Ok(ParsedSentence::VesselStaticData(VesselStaticData{
         own_vessel:              own_vessel,
-        ais_type:                AisClass::ClassB,
+        ais_type:                AisClass::ClassA,
         mmsi:                    pick_u64(&bv, 8, 30) as u32,
         ais_version_indicator:   pick_u64(&bv, 38, 2) as u8,
         imo_number: {
-- 
2.43.0


From 2fe43d820cb243744969ced91e14bff450bb99b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 10/25] fix: read type 18 flags from their own bits

---
 src/ais/vdm_t18.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/ais/vdm_t18.rs b/src/ais/vdm_t18.rs
index 3201a2b..76c0254 100644
--- a/src/ais/vdm_t18.rs
+++ b/src/ais/vdm_t18.rs
@@ -73,18 +73,14 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
                 }
             },
         timestamp_seconds: pick_u64(&bv, 133, 6) as u8,
-        class_b_unit_flag: { 
-            None 
-        },
-        class_b_display:    Some(pick_u64(&bv, 141, 1) != 0),
-        class_b_dsc:        Some(pick_u64(&bv, 142, 1) != 0),
-        class_b_band_flag:  Some(pick_u64(&bv, 143, 1) != 0),
-        class_b_msg22_flag: Some(pick_u64(&bv, 144, 1) != 0),
-        class_b_mode_flag:  Some(pick_u64(&bv, 145, 1) != 0),
-        raim_flag:          pick_u64(&bv, 141, 1) != 0,
-        class_b_css_flag: {
-            None
-        },
+        class_b_unit_flag:  Some(pick_u64(&bv, 141, 1) != 0),
+        class_b_display:    Some(pick_u64(&bv, 142, 1) != 0),
+        class_b_dsc:        Some(pick_u64(&bv, 143, 1) != 0),
+        class_b_band_flag:  Some(pick_u64(&bv, 144, 1) != 0),
+        class_b_msg22_flag: Some(pick_u64(&bv, 145, 1) != 0),
+        class_b_mode_flag:  Some(pick_u64(&bv, 146, 1) != 0),
+        raim_flag:          pick_u64(&bv, 147, 1) != 0,
+        class_b_css_flag:   Some(pick_u64(&bv, 148, 1) != 0),
         radio_status:            Some(pick_u64(&bv, 149, 19) as u32),
         nav_status:              NavigationStatus::NotDefined,
         rot:                     None,
-- 
2.43.0


From bcce145bcf71d6606a7a0dd0b5a12140d4b3ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 11/25] fix: read type 21 off-position indicator from its own
 bit

---
 src/ais/vdm_t21.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t21.rs b/src/ais/vdm_t21.rs
index ddcb097..f1f1054 100644
--- a/src/ais/vdm_t21.rs
+++ b/src/ais/vdm_t21.rs
@@ -347,7 +347,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 253, 6) as u8
         },
         off_position_indicator: {
-            pick_u64(&bv, 243, 1) != 0
+            pick_u64(&bv, 259, 1) != 0
         },
         regional: {
             pick_u64(&bv, 260, 8) as u8
-- 
2.43.0


From 035df2f508d645ad2044e390f577ea46d5ec43eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 12/25] fix: keep blanks between type 21 name and its extension

---
 src/ais/vdm_t21.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ais/vdm_t21.rs b/src/ais/vdm_t21.rs
index f1f1054..8565420 100644
--- a/src/ais/vdm_t21.rs
+++ b/src/ais/vdm_t21.rs
@@ -306,7 +306,12 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         },
         name: {
             let mut s = pick_string(&bv, 43, 20);
-            s.push_str(&pick_string(&bv, 272, 14));
+            let extension = pick_string(&bv, 272, 14);
+            if extension != "" && (0..20).all(|i| pick_u64(&bv, 43 + i * 6, 6) != 0) {
+                // The name fills its field, restore the trailing blanks
+                s = format!("{:20}", s);
+            }
+            s.push_str(&extension);
             s
         },
         high_position_accuracy: {
-- 
2.43.0


From 2ab124616edb491a001c98a2a1e76d526a1df502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 13/25] fix: scale rate of turn from the raw value

---
 src/ais/vdm_t1t2t3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index 8a68569..b81b281 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -38,9 +38,9 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         rot: {
             let raw = pick_i64(&bv, 42, 8);
             if -126 <= raw && raw < 0 {
-                Some(-((-raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some(-((-raw as f64) / 4.733).powi(2))
             } else if 0 <= raw && raw <= 126 {
-                Some(((raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some(((raw as f64) / 4.733).powi(2))
             } else {
                 None
             }
-- 
2.43.0


From d63712ecc3e1e2640fe0a47971b97092e5e3685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 14/25] fix: report manoeuvre indicator 1 as not engaged in
 special manoeuvre

---
 src/ais/vdm_t1t2t3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index b81b281..f684b85 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -119,7 +119,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             let raw = pick_u64(&bv, 143, 2);
             match raw {
                 0 => { None },
-                1 => { Some(true) },
+                1 => { Some(false) },
                 2 => { Some(true) },
                 _ => {
                     warn!("Unrecognized Maneuver Indicator value: {}", raw);
-- 
2.43.0


From 2b1a7c367afdad41786efe2f4a6892ee28d41180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 15/25] fix: map ship types 8x to tanker and 9x to other

---
 src/ais/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index bc0b8aa..e9140ba 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -452,10 +452,10 @@ impl ShipType {
                 ShipType::Cargo
             },
             80 | 81 | 82 | 83 | 84 | 85 | 86 | 87 | 88 | 89 => {
-                ShipType::Cargo
+                ShipType::Tanker
             },
             90 | 91 | 92 | 93 | 94 | 95 | 96 | 97 | 98 | 99 => {
-                ShipType::Cargo
+                ShipType::Other
             },
             _ => {
                 warn!("Unexpected ship and cargo type: {}", raw);
-- 
2.43.0


From 5b5f0a4b132207f78be96c6d143b9b4b06dc91e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 16/25] fix: limit type 24 name to its 20 characters

---
 src/ais/vdm_t24.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index 23a4bfd..d3f47a5 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -47,7 +47,7 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         },
         name: {
             if part_a {
-                let raw = pick_string(&bv, 40, 120);
+                let raw = pick_string(&bv, 40, 20);
                 match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
             } else {
                 None
-- 
2.43.0


From 38109ba401305516ef771df6c4883083097dbf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 17/25] fix: do not combine a type 24 part with a repetition of
 itself

---
 src/ais/vdm_t24.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index d3f47a5..acf7ad1 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -131,6 +131,11 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
 
     // Check whether we can return a complete or incomplete response
     if let Some(vsd2) = store.pull_vsd(vsd.mmsi) {
+        if vsd2.equipment_vendor_id.is_some() == part_b {
+            // The same part again, replace the stored one
+            store.push_vsd(vsd.mmsi, vsd);
+            return Ok(ParsedSentence::Incomplete);
+        }
         Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?))
     } else {
         store.push_vsd(vsd.mmsi, vsd);
-- 
2.43.0


From c6c92d5fdb4112566e79bcf7f8f57107db0df469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 18/25] fix: map MIDs of North Korea, Reunion and DR Congo to
 their own country codes

---
 src/ais/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index e9140ba..fe57c1d 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -802,7 +802,7 @@ impl VesselStaticData {
             440 => Some("KR"), // Korea
             441 => Some("KR"), // Korea
             443 => Some("PS"), // Palestine, State of
-            445 => Some("KR"), // Korea
+            445 => Some("KP"), // Democratic People's Republic of Korea
             447 => Some("KW"), // Kuwait
             450 => Some("LB"), // Lebanon
             451 => Some("KG"), // Kyrgyzstan
@@ -905,7 +905,7 @@ impl VesselStaticData {
             656 => Some("NE"), // Niger
             657 => Some("NG"), // Nigeria
             659 => Some("NA"), // Namibia
-            660 => Some("TF"), // French Southern Territories
+            660 => Some("RE"), // Reunion
             661 => Some("RW"), // Rwanda
             662 => Some("SD"), // Sudan
             663 => Some("SN"), // Senegal
@@ -920,7 +920,7 @@ impl VesselStaticData {
             672 => Some("TN"), // Tunisia
             674 => Some("TZ"), // Tanzania, United Republic of
             675 => Some("UG"), // Uganda
-            676 => Some("CG"), // Congo
+            676 => Some("CD"), // Democratic Republic of the Congo
             677 => Some("TZ"), // Tanzania, United Republic of
             678 => Some("ZM"), // Zambia
             679 => Some("ZW"), // Zimbabwe
-- 
2.43.0


From 4d89e8bac6d9735adb0b36dfaf889a3a10288809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 19/25] fix: recognize FAA mode S

---
 src/gnss/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gnss/mod.rs b/src/gnss/mod.rs
index 0e6959e..e4ab990 100644
--- a/src/gnss/mod.rs
+++ b/src/gnss/mod.rs
@@ -110,6 +110,7 @@ impl FaaMode {
             "D" => Ok(FaaMode::Differential),
             "E" => Ok(FaaMode::Estimated),
             "N" => Ok(FaaMode::NotValid),
+            "S" => Ok(FaaMode::Simulator),
             _ => { Err(format!("Unrecognized FAA information value: {}", val)) }
         }
     }
@@ -122,7 +123,7 @@ impl std::fmt::Display for FaaMode {
             FaaMode::Differential => { write!(f, "D") }
             FaaMode::Estimated => { write!(f, "E") }
             FaaMode::NotValid => { write!(f, "N") }
-            _ => { write!(f, "?") }
+            FaaMode::Simulator => { write!(f, "S") }
         }
         
     }
-- 
2.43.0


From 07a0903e8d8762b32adf4c034da19c724955b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 20/25] fix: reject number fields that are not finite

---
 src/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index d90ab7d..9f59d12 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -129,6 +129,10 @@ pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) ->
     let s = split.get(num).unwrap_or(&"");
     if *s != "" {
         match s.parse::<T>() {
+            // Floats accept also values such as NaN, inf and 1e999
+            Ok(_) if s.parse::<f64>().map_or(false, |f| !f.is_finite()) => {
+                Err(format!("Failed to parse field {}: {}", num, s))
+            },
             Ok(p)   => { Ok(Some(p)) }, 
             Err(_e) => { Err(format!("Failed to parse field {}: {}", num, s)) }
         }
-- 
2.43.0


From 26187f583402789305c5310eba98e412dd75d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 21/25] fix: reject latitudes and longitudes followed by other
 characters

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 9f59d12..c6c12bb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -192,7 +192,7 @@ fn pick_d2(s: &str, i: usize) -> Option<u32> {
 pub fn parse_latitude_ddmm_mmm(lat_string: &str, hemisphere: &str) -> Result<Option<f64>, String> {
     // DDMM.MMM
     if lat_string != "" {
-        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\.[0-9]+)").unwrap();
+        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\.[0-9]+)$").unwrap();
         if let Some(caps) = re.captures(lat_string) {
             let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
             let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
@@ -212,7 +212,7 @@ pub fn parse_latitude_ddmm_mmm(lat_string: &str, hemisphere: &str) -> Result<Opt
 pub fn parse_longitude_dddmm_mmm(lon_string: &str, eastwest: &str) -> Result<Option<f64>, String> {
     // DDDMM.MMM
     if lon_string != "" {
-        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\.[0-9]+)").unwrap();
+        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\.[0-9]+)$").unwrap();
         if let Some(caps) = re.captures(lon_string) {
             let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
             let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
-- 
2.43.0


From f1235382fcca35f1996c6e6988e5c14130c13a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 22/25] fix: do not combine AIS fragments of different talkers

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index acde6d9..94ba04c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -399,9 +399,10 @@ impl NmeaParser {
                     bv = Some(parse_payload(&payload_string)?);
                 } else if fragment_count == 2 {
                     if let Some(msg_id) = message_id {
-                        let key1 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 
+                        let header = sentence.split(",").next().unwrap_or("").to_string();
+                        let key1 = make_fragment_key(&header, msg_id, fragment_count, 
                                                      1, radio_channel_code.unwrap_or(""));
-                        let key2 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 
+                        let key2 = make_fragment_key(&header, msg_id, fragment_count, 
                                                      2, radio_channel_code.unwrap_or(""));
                         if fragment_number == 1 {
                             if let Some(p) = self.pull_string(key2.into()) {
-- 
2.43.0


From c770633dff8e9804e2ea1fbfd87e39c49d09c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 23/25] fix: read type 27 GNSS position status from its own bit

---
 src/ais/vdm_t27.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t27.rs b/src/ais/vdm_t27.rs
index 6f219f1..ba1791a 100644
--- a/src/ais/vdm_t27.rs
+++ b/src/ais/vdm_t27.rs
@@ -79,7 +79,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         heading_true:               None,
         timestamp_seconds:          0,
         positioning_system_meta:    None,
-        current_gnss_position:      Some(pick_u64(&bv, 62, 1) == 0),
+        current_gnss_position:      Some(pick_u64(&bv, 94, 1) == 0),
         special_manoeuvre:          None,
         raim_flag:                  pick_u64(&bv, 39, 1) != 0,
         class_b_unit_flag:          None,
-- 
2.43.0


From fd9c2d8fbce7c151e108b236e07f6597c97433e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:59 +0000
Subject: [PATCH 24/25] fix: make the MID table generator keep North Korea,
 Reunion and DR Congo apart

---
 mid-to-iso3166.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mid-to-iso3166.py b/mid-to-iso3166.py
index fa1c100..1155471 100755
--- a/mid-to-iso3166.py
+++ b/mid-to-iso3166.py
@@ -581,7 +581,6 @@ MID = MID \
          .replace("France - Saint Paul and Amsterdam Islands", "French Southern Territories") \
          .replace("France - Kerguelen Islands", "French Southern Territories") \
          .replace("France - Crozet Archipelago", "French Southern Territories") \
-         .replace("France - Reunion", "French Southern Territories") \
          .replace("France - Adelie Land", "French Southern Territories") \
          .replace("France - ", "") \
          .replace("Australia - ", "") \
@@ -601,11 +600,9 @@ MID = MID \
                   "Saint Helena, Ascension and Tristan da Cunha") \
          .replace("United Kingdom of Great Britain and Northern Ireland - ", "") \
          .replace("Argentine Republic", "Argentina") \
-         .replace("Democratic Republic of the Congo", "Congo") \
          .replace("Togolese Republic", "Togo") \
          .replace("Gabonese Republic", "Gabon") \
          .replace("Kyrgyz Republic", "Kyrgyzstan") \
-         .replace("Democratic People's Republic of Korea", "Korea") \
          .replace("State of Palestine", "Palestine, State of") \
          .replace("Czech Republic", "Czechia") \
          .replace("Slovak Republic", "Slovakia") \
@@ -615,9 +612,13 @@ MID = MID \
          .replace("North Macedonia", "Republic of North Macedonia")
          
 ISO_3166 = ISO_3166.replace("Virgin Islands (U.S.)", "United States Virgin Islands") \
-                   .replace("Virgin Islands (British)", "British Virgin Islands") 
+                   .replace("Virgin Islands (British)", "British Virgin Islands") \
+                   .replace("Congo (the Democratic Republic of the)", 
+                            "Democratic Republic of the Congo") \
+                   .replace("Korea (the Democratic People's Republic of)", 
+                            "Democratic People's Republic of Korea")
 ISO_3166 = re.sub(r'( \(.*?\))', "", ISO_3166)
-ISO_3166 += "\nFrance - Reunion  RE ZZZ 000"
+ISO_3166 += "\nReunion  RE ZZZ 000"
 ISO_3166 += "\nVatican City State  VA ZZZ 000"
 
 # Parse ISO-3166 mapping
-- 
2.43.0


From 0f6a68f72487a129a852b4063ee72ebfcd4e83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:47 +0000
Subject: [PATCH 25/25] fix: report no timestamp for GNSS times and dates
 followed by other characters

---
 src/util.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index c6c12bb..b2b08c6 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -145,7 +145,7 @@ pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) ->
 pub fn parse_hhmmss(hhmmss: &str, now: DateTime<Utc>) -> Result<DateTime<Utc>, String> {
     if let Some(hour) = pick_d2(hhmmss, 0) {
         if let Some(minute) = pick_d2(hhmmss, 2) {
-            if let Some(second) = pick_d2(hhmmss, 4) {
+            if let Some(second) = pick_last_d2(hhmmss, 4, true) {
                 if let Some(time) = Utc.ymd(now.year(), now.month(), now.day())
                                        .and_hms_opt(hour, minute, second) {
                     return Ok(time);
@@ -161,10 +161,10 @@ pub fn parse_yymmdd_hhmmss(yymmdd: &str, hhmmss: &str) -> Result<DateTime<Utc>,
     let century = (Utc::now().year() / 100) * 100;
     if let Some(day) = pick_d2(yymmdd, 0) {
         if let Some(month) = pick_d2(yymmdd, 2) {
-            if let Some(year) = pick_d2(yymmdd, 4) {
+            if let Some(year) = pick_last_d2(yymmdd, 4, false) {
                 if let Some(hour) = pick_d2(hhmmss, 0) {
                     if let Some(minute) = pick_d2(hhmmss, 2) {
-                        if let Some(second) = pick_d2(hhmmss, 4) {
+                        if let Some(second) = pick_last_d2(hhmmss, 4, true) {
                             if let Some(time) = Utc.ymd_opt(century + year as i32, month, day)
                                                    .and_hms_opt(hour, minute, second)
                                                    .single() {
@@ -186,6 +186,17 @@ fn pick_d2(s: &str, i: usize) -> Option<u32> {
     if d2.bytes().all(|b| b.is_ascii_digit()) { d2.parse().ok() } else { None }
 }
 
+/// Pick two-digit number from the end of the given string, where it may have a fraction.
+fn pick_last_d2(s: &str, i: usize, fraction: bool) -> Option<u32> {
+    let d2 = pick_d2(s, i)?;
+    let rest = &s[(i + 2)..];
+    if rest == "" || fraction && rest.starts_with('.') && rest.bytes().skip(1).all(|b| b.is_ascii_digit()) {
+        Some(d2)
+    } else {
+        None
+    }
+}
+
 /// Parse latitude from two string.
 /// lat_string = DDMM.MMM representing latitude
 /// hemisphere = N for north, S for south
-- 
2.43.0

