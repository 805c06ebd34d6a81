//! GNSS sentence generator with the values each sentence must yield.
use crate::civil;
use crate::nmea::*;
use crate::obs::{e, V};
use crate::rng::Rng;
use crate::tables::*;

pub struct GExp { pub name: &'static str, pub want: V, pub prop: &'static str }
pub struct Gnss {
    pub ty: &'static str,
    pub talker: String,
    pub body: String,
    pub exps: Vec<GExp>,
    /// Why the sentence must be rejected as invalid, and by which property.
    pub invalid: Option<(&'static str, String)>,
}
pub const TYPES: [&str; 5] = ["GGA", "RMC", "GSA", "VTG", "GLL"];
pub fn kind_name(ty: &str) -> &'static str { match ty { "GGA" => "Gga", "RMC" => "Rmc", "GSA" => "Gsa", "VTG" => "Vtg", "GSV" => "Gsv", _ => "Gll" } }

/// How often each family of fields is malformed, in percent.
#[derive(Clone, Copy, Default)]
pub struct Mix { pub bad_pos: u64, pub bad_num: u64, pub bad_time: u64, pub empty: u64, pub cut: u64 }

struct B<'a> { r: &'a mut Rng, f: Vec<String>, exps: Vec<GExp>, invalid: Option<(&'static str, String)>, mix: Mix, now: i64 }

pub fn digits(r: &mut Rng, n: usize) -> String { (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect() }

/// Decimal text and its value.
pub fn decimal(r: &mut Rng) -> (String, f64) {
    let ip = match r.below(7) { 0 => "0".into(), 1 => "00".into(), 2 => r.below(10).to_string(), 3 => r.below(400).to_string(),
        4 => format!("{:03}", r.below(360)), 5 => r.below(100_000).to_string(), _ => r.below(100).to_string() };
    let t: String = match r.below(4) {
        0 => ip,
        1 => { let k = 1 + r.idx(9); format!("{}.{}", ip, digits(r, k)) }
        _ => { let k = 1 + r.idx(3); format!("{}.{}", ip, digits(r, k)) }
    };
    let t = if r.chance(1, 5) { format!("-{}", t) } else { t };
    let v = t.parse::<f64>().expect("decimal");
    (t, v)
}
pub const BAD_NUM: &[&str] = &["abc", "1.2.3", "--1", "1-", "0x10", "1_0", "N", "1..2", "-", ".", "1 2", "12a", "a12", "\u{ff11}", "1\u{e9}", "#"];
pub const BAD_LAT: &[&str] = &["1234", "1234.", "123.45", "12.3456", "abcd.ef", "-123.45", "1234.5x", "1234.5 ", " 1234.5", "12345.67", "1a34.5", "12 4.5",
    "1234,5", "1234.5.6", "+234.5", "1234.-5", "12345", "x", "1234.5e1", "\u{ff11}234.5", "1234.5\u{e9}", "1234.\u{661}", "1234.5N", "0x34.5", "nan", "inf", ".", "1", "12", "123"];
pub const BAD_LON: &[&str] = &["12345", "12345.", "1234.56", "123.456", "abcde.fg", "-1234.56", "12345.6x", "12345.6 ", " 12345.6", "123456.78", "1a345.6", "12 45.6",
    "12345.6.7", "+2345.6", "12345.-6", "x", "12345.6e1", "\u{ff11}2345.6", "12345.6\u{e9}", "12345.\u{661}", "12345.6E", "0x345.6", "nan", "inf", ".", "1", "1234"];
pub const BAD_TIME: &[&str] = &["1", "12", "123", "1234", "12345", "abcdef", "240000", "126000", "120060", "999999", "12:34:56", "-12345", "+1+2+3", "1 2 3 ", "a23456",
    "12345a", "1a3456", "\u{ff11}\u{ff12}\u{ff13}\u{ff14}\u{ff15}\u{ff16}", "12345\u{e9}", "1\u{e9}345", "\u{e9}", "236000", "235961", "235999", "250000", "  ", ".123456", "12.3456", "126100", "240001",
    "1234567", "123456x", "123456 ", "123456.5x", "123456..5", "123456.-5", "123456:7", "123456\u{e9}", "123456.\u{661}", "12345600", "123456Z", "123456+1", "123456.5.5", "1234.56"];
pub const BAD_DATE: &[&str] = &["1", "12", "0101", "01012", "320121", "000121", "010021", "011321", "310421", "300221", "310621", "310921", "311121", "abcdef",
    "01-121", "+1+1+1", "\u{ff11}10121", "0101\u{e9}", "999999", "450199", "00", "1.1.21", "01 121", "0101211", "010121x", "01012021", "010121 ", "010121.5", "010121.", "010121\u{e9}", "0101-21"];

impl<'a> B<'a> {
    fn raw(&mut self, t: impl Into<String>) { self.f.push(t.into()); }
    fn exp(&mut self, name: &'static str, want: V, prop: &'static str) { self.exps.push(GExp { name, want, prop }); }
    fn bad(&mut self, prop: &'static str, t: &str) { if self.invalid.is_none() { self.invalid = Some((prop, t.to_string())); } self.raw(t); }
    fn empty(&mut self) -> bool { let p = self.mix.empty; self.r.chance(p, 100) }
    fn num(&mut self, name: &'static str, strict: bool) {
        if self.empty() { self.raw(""); self.exp(name, V::None, "C20"); return; }
        if self.r.chance(self.mix.bad_num, 100) {
            let t = *self.r.pick(BAD_NUM);
            if strict { self.bad("C20", t) } else { self.raw(t); self.exp(name, V::None, "C20"); }
            return;
        }
        let (t, v) = decimal(self.r);
        self.raw(t);
        self.exp(name, V::F(v), "C20");
    }
    fn int(&mut self, name: &'static str, max: u64, width: usize) {
        if self.empty() { self.raw(""); self.exp(name, V::None, "C20"); return; }
        if self.r.chance(self.mix.bad_num, 100) { let t = *self.r.pick(&["abc", "-1", "1.5", "0x1", "1 ", "", "x", "99999999", "--"]); if !t.is_empty() { return self.bad("C20", t); } }
        let v = match self.r.below(4) { 0 => self.r.below(13), 1 => max, _ => self.r.below(max + 1) };
        let t = if self.r.coin() { format!("{:01$}", v, width) } else { v.to_string() };
        self.raw(t);
        self.exp(name, V::I(v as i64), "C20");
    }
    fn coord(&mut self, lat: bool) {
        let (name, acc) = if lat { ("latitude", "latitude()") } else { ("longitude", "longitude()") };
        if self.empty() {
            self.raw("");
            let h = *self.r.pick(&["", "N", "S", "E", "W"]);
            self.raw(h);
            self.exp(name, V::None, "C19");
            self.exp(acc, V::None, "C19");
            return;
        }
        if self.r.chance(self.mix.bad_pos, 100) {
            let t = *self.r.pick(if lat { BAD_LAT } else { BAD_LON });
            // ',' splits the field, so such text is not one malformed field
            if !t.contains(',') {
                self.bad("C19", t);
                let h = *self.r.pick(if lat { &["N", "S"] } else { &["E", "W"] });
                return self.raw(h);
            }
        }
        let dmax = if lat { 90 } else { 180 };
        let d = match self.r.below(4) { 0 => *self.r.pick(&[0, 1, 9, 10, 89, dmax - 1, dmax, 99.min(dmax), 100.min(dmax)]), _ => self.r.below(dmax) };
        let mi = if d == dmax { 0 } else { match self.r.below(3) { 0 => *self.r.pick(&[0, 1, 30, 59]), _ => self.r.below(60) } };
        let nd = match self.r.below(4) { 0 => 1, 1 => 1 + self.r.idx(20), 2 if self.r.chance(1, 20) => 20 + self.r.idx(400), _ => 1 + self.r.idx(7) };
        let fr: String = if d == dmax { "0".repeat(nd) } else if self.r.chance(1, 8) { "9".repeat(nd) } else { digits(self.r, nd) };
        let val = d as f64 + (mi as f64 + format!("0.{}", fr).parse::<f64>().expect("fraction")) / 60.0;
        let h = *self.r.pick(if lat { &["N", "S"] } else { &["E", "W"] });
        let val = if h == "S" || h == "W" { -val } else { val };
        let t = if lat { format!("{:02}{:02}.{}", d, mi, fr) } else { format!("{:03}{:02}.{}", d, mi, fr) };
        self.raw(t);
        self.raw(h);
        self.exp(name, V::F(val), "C19");
        self.exp(acc, V::F(val), "C19");
    }
    /// Field text and seconds of day.
    fn time(&mut self) -> (String, Option<i64>) {
        if self.empty() { return (String::new(), None); }
        if self.r.chance(self.mix.bad_time, 100) { return (self.r.pick(BAD_TIME).to_string(), None); }
        let s = match self.r.below(5) { 0 => *self.r.pick(&[0, 1, 59, 60, 3599, 3600, 86399, 43200, 86340]), _ => self.r.below(86400) } as i64;
        let mut t = format!("{:02}{:02}{:02}", s / 3600, s / 60 % 60, s % 60);
        if self.r.coin() { let k = 1 + self.r.idx(4); t = format!("{}.{}", t, digits(self.r, k)); }
        (t, Some(s))
    }
}
fn ts(x: Option<i64>) -> V { x.map_or(V::None, |t| V::T(t, 0)) }

pub fn sentence(r: &mut Rng, ty: &'static str, now: i64, mix: Mix) -> Gnss {
    let talker = nav_talker(r);
    let mut b = B { r, f: vec![format!("${}{}", talker, ty)], exps: vec![], invalid: None, mix, now };
    let today = b.now.div_euclid(86400) * 86400;
    match ty {
        "GGA" => {
            let (t, s) = b.time();
            b.raw(t);
            b.exp("timestamp", ts(s.map(|s| today + s)), "C17");
            b.coord(true);
            b.coord(false);
            if b.empty() { b.raw(""); b.exp("quality", e("Invalid"), "C25"); }
            else if b.r.chance(mix.bad_num, 100) { let t = *b.r.pick(&["x", "-1", "1.0", "A"]); b.bad("C20", t) }
            else {
                let q = if b.r.chance(1, 6) { b.r.below(256) } else { b.r.below(10) };
                b.raw(q.to_string());
                b.exp("quality", e(GGA_QUALITY.get(q as usize).copied().unwrap_or("Invalid")), "C25");
            }
            b.int("satellite_count", 255, 2);
            b.num("hdop", true);
            b.num("altitude", true);
            unit(&mut b);
            b.num("geoid_separation", true);
            unit(&mut b);
            b.num("age_of_dgps", true);
            b.int("ref_station_id", 65535, 4);
        }
        "RMC" => {
            let (t, s) = b.time();
            b.raw(t);
            if b.empty() { b.raw(""); b.exp("status_active", V::None, "C20"); }
            else if b.r.chance(mix.bad_num, 100) { let t = *b.r.pick(&["X", "a", "AA", "1", " "]); b.bad("C20", t) }
            else { let a = b.r.coin(); b.raw(if a { "A" } else { "V" }); b.exp("status_active", V::B(a), "C20"); }
            b.coord(true);
            b.coord(false);
            b.num("sog_knots", true);
            b.num("bearing", true);
            let cent = civil::split(b.now).0.div_euclid(100) * 100;
            let (dt, dv) = if b.empty() { (String::new(), None) }
                else if b.r.chance(mix.bad_time, 100) { (b.r.pick(BAD_DATE).to_string(), None) }
                else {
                    let y = match b.r.below(3) { 0 => *b.r.pick(&[0, 1, 4, 19, 20, 69, 70, 99]), _ => b.r.below(100) } as i64;
                    let mo = 1 + b.r.below(12) as i64;
                    let d = match b.r.below(3) { 0 => 1, 1 => *b.r.pick(&[28, 29, 30, 31]), _ => 1 + b.r.below(28) as i64 };
                    (format!("{:02}{:02}{:02}", d, mo, y), civil::epoch(cent + y, mo, d, 0, 0, 0))
                };
            b.raw(dt);
            // rejected texts such as 300221 depend on the year; "dv" already says whether the date exists
            b.exp("timestamp", ts(match (dv, s) { (Some(d), Some(s)) => Some(d + s), _ => None }), "C17");
            if b.empty() { b.raw(""); let side = *b.r.pick(&["", "E", "W"]); b.raw(side); b.exp("variation", V::None, "C20"); }
            else if b.r.chance(mix.bad_num, 100) {
                if b.r.coin() { let t = *b.r.pick(BAD_NUM); b.bad("C20", t); b.raw("E"); }
                else { let (t, _) = decimal(b.r); b.raw(t); let t = *b.r.pick(&["N", "e", "w", "X", "EW", ""]); b.bad("C20", t); }
            } else {
                let (t, v) = decimal(b.r);
                let w = b.r.coin();
                b.raw(t);
                b.raw(if w { "W" } else { "E" });
                b.exp("variation", V::F(if w { -v } else { v }), "C20");
            }
            if b.r.chance(1, 3) { let m = *b.r.pick(&["A", "D", "E", "N", "S", ""]); b.raw(m); if b.r.coin() { b.raw("V"); } }
        }
        "GSA" => {
            match b.r.below(100) {
                x if x < mix.empty => { b.raw(""); b.exp("mode1_automatic", V::None, "C20"); }
                x if x < mix.empty + mix.bad_num => { let t = *b.r.pick(&["X", "a", "m", "MA", "1"]); b.bad("C20", t) }
                _ => { let a = b.r.coin(); b.raw(if a { "A" } else { "M" }); b.exp("mode1_automatic", V::B(a), "C20"); }
            }
            match b.r.below(100) {
                x if x < mix.empty => { b.raw(""); b.exp("mode2_3d", V::None, "C25"); }
                x if x < mix.empty + mix.bad_num => { let t = *b.r.pick(&["0", "4", "9", "3D", "A", "11"]); b.bad("C20", t) }
                _ => { let k = b.r.idx(3); b.raw((k + 1).to_string()); b.exp("mode2_3d", e(["NotAvailable", "Fix2D", "Fix3D"][k]), "C25"); }
            }
            let mut l = vec![];
            let fill = b.r.below(13);
            for i in 0..12 {
                let gap = mix.empty > 0 && b.r.chance(1, 8);
                if i >= fill || gap { b.raw(""); }
                else if b.r.chance(mix.bad_num, 400) { let t = *b.r.pick(&["x", "-1", "1.5", "999"]); b.bad("C20", t) }
                else { let p = if b.r.chance(1, 6) { b.r.below(256) } else { 1 + b.r.below(99) }; let t = if b.r.coin() { format!("{:02}", p) } else { p.to_string() }; b.raw(t); l.push(p as i64); }
            }
            b.exp("prn_numbers", V::L(l), "C20");
            b.num("pdop", true);
            b.num("hdop", true);
            b.num("vdop", true);
            if b.r.chance(1, 6) { b.raw("1"); }
        }
        "VTG" => {
            for (n, u) in [("cog_true", "T"), ("cog_magnetic", "M"), ("sog_knots", "N"), ("sog_kph", "K")] {
                b.num(n, false);
                let u = if b.r.chance(1, 8) { "" } else { u };
                b.raw(u);
            }
            faa(&mut b);
        }
        _ => {
            b.coord(true);
            b.coord(false);
            let (t, s) = b.time();
            b.raw(t);
            b.exp("timestamp", ts(s.map(|s| today + s)), "C17");
            match b.r.below(3) { 0 => { b.raw(""); b.exp("data_valid", V::None, "C20") } 1 => { b.raw("A"); b.exp("data_valid", V::B(true), "C20") } _ => { b.raw("V"); b.exp("data_valid", V::B(false), "C20") } }
            faa(&mut b);
        }
    }
    let B { mut f, mut exps, invalid, .. } = b;
    // a shortened sentence lacks its trailing fields; only sentences without malformed fields are shortened
    if invalid.is_none() && r.chance(mix.cut, 100) {
        let k = 1 + r.idx(f.len() - 1);
        let full = f.len();
        f.truncate(k);
        if k < full { exps = shortened(ty, &f, exps); }
        if k == 1 { f.push(String::new()); }
    } else if r.chance(1, 10) && !(ty == "VTG" && f.len() < 10) {
        // later editions of the standard append fields
        for _ in 0..1 + r.idx(4) { f.push(r.pick(&["", "A", "V", "1", "0.5", "x", "12"]).to_string()); }
    }
    exps.push(GExp { name: "source", want: e(nav_of(&talker)), prop: "C12" });
    Gnss { ty, talker, body: f.join(","), exps, invalid }
}
fn unit(b: &mut B) { let u = if b.r.chance(1, 8) { *b.r.pick(&["", "m", "F", "9"]) } else { "M" }; b.raw(u); }
fn faa(b: &mut B) {
    let t = match b.r.below(8) { 0 => "", 1 => "X", 2 => "a", 3 => "AA", _ => FAA[b.r.idx(5)].0 };
    b.raw(t);
    b.exp("faa_mode", FAA.iter().find(|x| x.0 == t).map_or(V::None, |x| e(x.1)), "C25");
}
/// First and last field position each result value is taken from.
pub fn columns(ty: &str, name: &str) -> (usize, usize) {
    match (ty, name) {
        ("GGA", "timestamp") => (1, 1), ("GGA", "latitude" | "latitude()") => (2, 3), ("GGA", "longitude" | "longitude()") => (4, 5), ("GGA", "quality") => (6, 6),
        ("GGA", "satellite_count") => (7, 7), ("GGA", "hdop") => (8, 8), ("GGA", "altitude") => (9, 9), ("GGA", "geoid_separation") => (11, 11),
        ("GGA", "age_of_dgps") => (13, 13), ("GGA", "ref_station_id") => (14, 14),
        ("RMC", "timestamp") => (1, 9), ("RMC", "status_active") => (2, 2), ("RMC", "latitude" | "latitude()") => (3, 4), ("RMC", "longitude" | "longitude()") => (5, 6),
        ("RMC", "sog_knots") => (7, 7), ("RMC", "bearing") => (8, 8), ("RMC", "variation") => (10, 11),
        ("GSA", "mode1_automatic") => (1, 1), ("GSA", "mode2_3d") => (2, 2), ("GSA", "prn_numbers") => (3, 14), ("GSA", "pdop") => (15, 15), ("GSA", "hdop") => (16, 16), ("GSA", "vdop") => (17, 17),
        ("VTG", "cog_true") => (1, 1), ("VTG", "cog_magnetic") => (3, 3), ("VTG", "sog_knots") => (5, 5), ("VTG", "sog_kph") => (7, 7), ("VTG", "faa_mode") => (9, 9),
        ("GLL", "latitude" | "latitude()") => (1, 2), ("GLL", "longitude" | "longitude()") => (3, 4), ("GLL", "timestamp") => (5, 5), ("GLL", "data_valid") => (6, 6), ("GLL", "faa_mode") => (7, 7),
        _ => (0, 0),
    }
}
fn shortened(ty: &str, f: &[String], exps: Vec<GExp>) -> Vec<GExp> {
    exps.into_iter().filter_map(|mut x| {
        let (a, z) = columns(ty, x.name);
        if f.len() > z { return Some(x); }
        if x.name == "prn_numbers" { x.want = V::L((3..f.len().min(15)).filter_map(|i| f[i].parse().ok()).collect()); return Some(x); }
        if f.len() <= a || x.name == "timestamp" || f[a].is_empty() {
            x.want = if x.name == "quality" { e("Invalid") } else { V::None };
            return Some(x);
        }
        None // cut between a number and its hemisphere: not decided here
    }).collect()
}
/// True when the cut fell between a variation and its side (then the sentence is invalid, not decided here).
pub fn dangling(g: &Gnss) -> bool { g.ty == "RMC" && { let n = g.body.split(',').count(); n == 11 && !g.body.ends_with(',') } }

// ---- GSV ----------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Sat { pub prn: Option<u64>, pub el: Option<u64>, pub az: Option<u64>, pub snr: Option<u64> }
pub struct GsvGroup { pub talker: String, pub parts: Vec<String>, pub sats: Vec<Sat> }
/// Sentences 1..=n of a group and the satellites they list, in order.
pub fn gsv(r: &mut Rng, talker: &str, n: usize) -> GsvGroup {
    let mut g = GsvGroup { talker: talker.into(), parts: vec![], sats: vec![] };
    let total = match r.below(4) { 0 => String::new(), _ => format!("{:02}", r.below(n as u64 * 4 + 1)) };
    for k in 1..=n {
        let slots = if r.chance(2, 3) { 4 } else { r.idx(5) };
        let mut b = match r.below(12) { 0 => format!("${}GSV,{:02},{:02},{}", talker, n, k, total), _ => format!("${}GSV,{},{},{}", talker, n, k, total) };
        for _ in 0..slots {
            let s = Sat {
                prn: if r.chance(1, 12) { None } else { Some(if r.chance(1, 6) { *r.pick(&[0u64, 255, 128, 200]) } else { 1 + r.below(99) }) },
                el: if r.chance(1, 8) { None } else { Some(if r.chance(1, 8) { r.below(256) } else { r.below(91) }) },
                az: if r.chance(1, 8) { None } else { Some(if r.chance(1, 8) { r.below(65536) } else { r.below(360) }) },
                snr: if r.chance(1, 4) { None } else { Some(if r.chance(1, 8) { r.below(256) } else { r.below(100) }) },
            };
            let z = r.coin();
            let t = |x: Option<u64>, w: usize| x.map_or(String::new(), |v| if z { format!("{:01$}", v, w) } else { v.to_string() });
            b.push_str(&format!(",{},{},{},{}", t(s.prn, 2), t(s.el, 2), t(s.az, 3), t(s.snr, 2)));
            if s.prn.is_some() { g.sats.push(s); }
        }
        // a receiver may leave out trailing empty fields, and a newer one names the signal after four satellites
        if slots == 4 && r.chance(1, 12) { b.push_str(&format!(",{:X}", r.below(16))); if r.chance(1, 4) { for _ in 0..1 + r.idx(6) { b.push(','); } } }
        else if r.chance(1, 6) { while b.ends_with(',') && b.matches(',').count() > 3 { b.pop(); } }
        g.parts.push(if r.chance(7, 8) { frame(&b) } else { b });
    }
    g
}
pub fn gsv_expect(talker: &str, sats: &[Sat]) -> Vec<(&'static str, V)> {
    let o = |x: Option<u64>| x.map_or(V::None, |v| V::I(v as i64));
    let mut v = vec![("len", V::I(sats.len() as i64))];
    for s in sats {
        v.push(("source", e(nav_of(talker))));
        v.push(("prn_number", o(s.prn)));
        v.push(("elevation", o(s.el)));
        v.push(("azimuth", o(s.az)));
        v.push(("snr", o(s.snr)));
    }
    v
}
