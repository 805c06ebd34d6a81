//! Reference decoder for the supported AIS messages, written from the message layouts in
//! ITU-R M.1371, and a generator of messages with chosen field values.
use crate::civil;
use crate::nmea::{station_of, Bits};
use crate::obs::{e, V};
use crate::rng::Rng;
use crate::tables::*;

/// Expected value of one result field, with the properties it belongs to. `legacy` is a value the
/// crate is known to give instead, accepted only where the known-findings file lists the key.
pub struct Exp { pub name: &'static str, pub want: V, pub props: &'static [&'static str], pub legacy: Option<(V, &'static str)> }
pub struct Ctx<'a> { pub talker: &'a str, pub own: bool, pub now: i64 }

fn x(name: &'static str, want: V, props: &'static [&'static str]) -> Exp { Exp { name, want, props, legacy: None } }

pub fn text_opt(s: String) -> V { let t = s.trim_end_matches(' '); if t.is_empty() { V::None } else { V::S(t.into()) } }
fn flag(b: &Bits, o: usize) -> V { V::B(b.u(o, 1) == 1) }
fn na(raw: u64, code: u64, k: f64) -> V { if raw == code { V::None } else { V::F(raw as f64 / k) } }
fn coord(raw: i64, code: i64, k: f64) -> V { if raw == code { V::None } else { V::F(raw as f64 / k) } }
const LAT_NA: i64 = 91 * 600_000;
const LON_NA: i64 = 181 * 600_000;

fn pos(v: &mut Vec<Exp>, b: &Bits, lon: usize, lat: usize) {
    for n in ["latitude", "latitude()"] { v.push(x(n, coord(b.s(lat, 27), LAT_NA, 6e5), &["C13"])); }
    for n in ["longitude", "longitude()"] { v.push(x(n, coord(b.s(lon, 28), LON_NA, 6e5), &["C13"])); }
}
fn dims(v: &mut Vec<Exp>, b: &Bits, o: usize) {
    v.push(x("dimension_to_bow", V::I(b.u(o, 9) as i64), &["C15"]));
    v.push(x("dimension_to_stern", V::I(b.u(o + 9, 9) as i64), &["C15"]));
    v.push(x("dimension_to_port", V::I(b.u(o + 18, 6) as i64), &["C15"]));
    v.push(x("dimension_to_starboard", V::I(b.u(o + 24, 6) as i64), &["C15"]));
}
fn num(v: &mut Vec<Exp>, name: &'static str, b: &Bits, o: usize, n: usize) { v.push(x(name, V::I(b.u(o, n) as i64), &["C16"])); }
fn meta(sec: u64) -> V { match sec { 60 => V::None, 61 => e("ManualInputMode"), 62 => e("DeadReckoningMode"), 63 => e("Inoperative"), _ => e("Operative") } }

/// Result kind and field values expected for a complete message (type 24 excepted).
pub fn decode(b: &Bits, c: &Ctx) -> Option<(&'static str, Vec<Exp>)> {
    let ty = b.u(0, 6);
    let mut v = vec![x("own_vessel", V::B(c.own), &["C12"])];
    if ty != 5 { v.push(x("station", e(station_of(c.talker)), &["C12"])); }
    if ty != 10 { num(&mut v, "mmsi", b, 8, 30); }
    let kind = match ty {
        1..=3 | 18 | 27 => {
            v.push(x("ais_type", e(if ty == 18 { "ClassB" } else { "ClassA" }), &["C12"]));
            "VesselDynamicData"
        }
        4 => "BaseStationReport",
        5 => "VesselStaticData",
        6 => "BinaryAddressedMessage",
        9 => "StandardSarAircraftPositionReport",
        10 => "UtcDateInquiry",
        21 => "AidToNavigationReport",
        _ => return None,
    };
    match ty {
        1..=3 => {
            v.push(x("nav_status", e(NAV_STATUS[b.u(38, 4) as usize]), &["C25"]));
            let r = b.s(42, 8);
            let q = r as f64 / 4.733;
            v.push(x("rot", if r.abs() <= 126 { V::F(q * q * (r.signum() as f64)) } else { V::None }, &["C14"]));
            v.push(x("rot_direction", if r == -128 { V::None } else { V::I(if r < -1 { -1 } else if r > 1 { 1 } else { 0 }) }, &["C14"]));
            v.push(x("sog_knots", na(b.u(50, 10), 1023, 10.0), &["C14"]));
            v.push(x("high_position_accuracy", flag(b, 60), &["C16"]));
            pos(&mut v, b, 61, 89);
            v.push(x("cog", na(b.u(116, 12), 3600, 10.0), &["C14"]));
            v.push(x("heading_true", na(b.u(128, 9), 511, 1.0), &["C14"]));
            num(&mut v, "timestamp_seconds", b, 137, 6);
            v.push(x("positioning_system_meta", meta(b.u(137, 6)), &["C16"]));
            v.push(x("special_manoeuvre", match b.u(143, 2) { 1 => V::B(false), 2 => V::B(true), _ => V::None }, &["C14"]));
            v.push(x("raim_flag", flag(b, 148), &["C16"]));
            num(&mut v, "radio_status", b, 149, 19);
            for n in ["current_gnss_position", "class_b_unit_flag", "class_b_display", "class_b_dsc", "class_b_band_flag",
                      "class_b_msg22_flag", "class_b_mode_flag", "class_b_css_flag"] { v.push(x(n, V::None, &["C16"])); }
        }
        18 => {
            v.push(x("sog_knots", na(b.u(46, 10), 1023, 10.0), &["C14"]));
            v.push(x("high_position_accuracy", flag(b, 56), &["C16"]));
            pos(&mut v, b, 57, 85);
            v.push(x("cog", na(b.u(112, 12), 3600, 10.0), &["C14"]));
            v.push(x("heading_true", na(b.u(124, 9), 511, 1.0), &["C14"]));
            num(&mut v, "timestamp_seconds", b, 133, 6);
            for (n, o) in [("class_b_unit_flag", 141), ("class_b_display", 142), ("class_b_dsc", 143), ("class_b_band_flag", 144),
                           ("class_b_msg22_flag", 145), ("class_b_mode_flag", 146), ("raim_flag", 147), ("class_b_css_flag", 148)] {
                v.push(x(n, flag(b, o), &["C16"]));
            }
            num(&mut v, "radio_status", b, 149, 19);
            v.push(x("rot", V::None, &["C14"]));
            v.push(x("rot_direction", V::None, &["C14"]));
            v.push(x("special_manoeuvre", V::None, &["C14"]));
            v.push(x("nav_status", e("NotDefined"), &["C25"]));
            v.push(x("current_gnss_position", V::None, &["C16"]));
        }
        27 => {
            v.push(x("high_position_accuracy", flag(b, 38), &["C16"]));
            v.push(x("raim_flag", flag(b, 39), &["C16"]));
            v.push(x("nav_status", e(NAV_STATUS[b.u(40, 4) as usize]), &["C25"]));
            let leg = |raw: i64| if raw == 181_000 { V::None } else { V::F(raw as f64 / 600.0) };
            for n in ["latitude", "latitude()"] {
                v.push(Exp { legacy: Some((leg(b.s(44, 18)), "t27-latitude")), ..x(n, coord(b.s(62, 17), 91 * 600, 600.0), &["C13"]) });
            }
            for n in ["longitude", "longitude()"] {
                v.push(Exp { legacy: Some((leg(b.s(62, 17)), "t27-longitude")), ..x(n, coord(b.s(44, 18), 181 * 600, 600.0), &["C13"]) });
            }
            v.push(Exp { legacy: Some((na(b.u(62, 6), 63, 1.0), "t27-sog")), ..x("sog_knots", na(b.u(79, 6), 63, 1.0), &["C14"]) });
            v.push(Exp { legacy: Some((na(b.u(62, 17), 91_000, 10.0), "t27-cog")), ..x("cog", na(b.u(85, 9), 511, 1.0), &["C14"]) });
            v.push(x("current_gnss_position", V::B(b.u(94, 1) == 0), &["C16"]));
            for n in ["rot", "rot_direction", "heading_true", "special_manoeuvre"] { v.push(x(n, V::None, &["C14"])); }
            for n in ["radio_status", "positioning_system_meta", "class_b_unit_flag", "class_b_display", "class_b_dsc", "class_b_band_flag",
                      "class_b_msg22_flag", "class_b_mode_flag", "class_b_css_flag"] { v.push(x(n, V::None, &["C16"])); }
        }
        4 => {
            let t = civil::epoch(b.u(38, 14) as i64, b.u(52, 4) as i64, b.u(56, 5) as i64, b.u(61, 5) as i64, b.u(66, 6) as i64, b.u(72, 6) as i64);
            // a base station sends year 0 for "not available": with a date in it, both readings are accepted
            if b.u(38, 14) != 0 || t.is_none() { v.push(x("timestamp", t.map_or(V::None, |s| V::T(s, 0)), &["C17"])); }
            v.push(x("high_position_accuracy", flag(b, 78), &["C16"]));
            pos(&mut v, b, 79, 107);
            v.push(x("position_fix_type", if b.u(134, 4) == 0 { V::None } else { e(epfd(b.u(134, 4))) }, &["C25"]));
            v.push(x("raim_flag", flag(b, 148), &["C16"]));
            num(&mut v, "radio_status", b, 149, 19);
        }
        5 => {
            v.push(x("ais_type", e("ClassA"), &["C12"]));
            num(&mut v, "ais_version_indicator", b, 38, 2);
            v.push(x("imo_number", if b.u(40, 30) == 0 { V::None } else { V::I(b.u(40, 30) as i64) }, &["C15"]));
            v.push(x("call_sign", text_opt(b.text(70, 7)), &["C15"]));
            v.push(x("name", text_opt(b.text(112, 20)), &["C15"]));
            v.push(x("ship_type", e(ship_type(b.u(232, 8))), &["C25"]));
            v.push(x("cargo_type", e(cargo_type(b.u(232, 8))), &["C25"]));
            dims(&mut v, b, 240);
            v.push(x("position_fix_type", if b.u(270, 4) == 0 { V::None } else { e(epfd(b.u(270, 4))) }, &["C15", "C25"]));
            v.push(eta(b, 274, c.now));
            v.push(x("draught10", V::I(b.u(294, 8) as i64), &["C15"]));
            v.push(x("destination", text_opt(b.text(302, 20)), &["C15"]));
            for n in ["equipment_vendor_id", "equipment_model", "equipment_serial_number", "mothership_mmsi"] { v.push(x(n, V::None, &["C15"])); }
        }
        6 => {
            num(&mut v, "sequence_number", b, 38, 2);
            num(&mut v, "destination_mmsi", b, 40, 30);
            v.push(x("retransmit_flag", flag(b, 70), &["C16"]));
            num(&mut v, "dac", b, 72, 10);
            num(&mut v, "fid", b, 82, 6);
        }
        9 => {
            let i = |raw: u64, code: u64| if raw == code { V::None } else { V::I(raw as i64) };
            v.push(x("altitude", i(b.u(38, 12), 4095), &["C14"]));
            v.push(x("sog_knots", i(b.u(50, 10), 1023), &["C14"]));
            v.push(x("high_position_accuracy", flag(b, 60), &["C16"]));
            pos(&mut v, b, 61, 89);
            v.push(x("cog", na(b.u(116, 12), 3600, 10.0), &["C14"]));
            num(&mut v, "timestamp_seconds", b, 128, 6);
            num(&mut v, "regional", b, 134, 8);
            v.push(x("dte", V::B(b.u(142, 1) == 0), &["C16"]));
            v.push(x("assigned", flag(b, 146), &["C16"]));
            v.push(x("raim_flag", flag(b, 147), &["C16"]));
            num(&mut v, "radio_status", b, 148, 20);
        }
        10 => {
            num(&mut v, "source_mmsi", b, 8, 30);
            num(&mut v, "destination_mmsi", b, 40, 30);
        }
        21 => {
            v.push(x("aid_type", e(AID_TYPE[b.u(38, 5) as usize]), &["C25"]));
            if let Some(n) = aid_name(b) { v.push(x("name", V::S(n), &["C15"])); }
            v.push(x("high_position_accuracy", flag(b, 163), &["C16"]));
            pos(&mut v, b, 164, 192);
            dims(&mut v, b, 219);
            v.push(x("position_fix_type", e(epfd(b.u(249, 4))), &["C15", "C25"]));
            num(&mut v, "timestamp_seconds", b, 253, 6);
            v.push(x("off_position_indicator", flag(b, 259), &["C16"]));
            num(&mut v, "regional", b, 260, 8);
            v.push(x("raim_flag", flag(b, 268), &["C16"]));
            v.push(x("virtual_aid_flag", flag(b, 269), &["C16"]));
            v.push(x("assigned_mode_flag", flag(b, 270), &["C16"]));
        }
        _ => return None,
    }
    Some((kind, v))
}

/// 20 characters of name followed by the extension. A name cut short behind blanks and yet extended is
/// left open: whether those blanks are trailing is a matter of reading.
fn aid_name(b: &Bits) -> Option<String> {
    let (n, x) = (b.text(43, 20), b.text(272, 14));
    if n.len() < 20 && n.ends_with(' ') && !x.trim_end_matches(' ').is_empty() { return None; }
    Some(format!("{}{}", n, x).trim_end_matches(' ').to_string())
}

/// Next occurrence of month/day/hour/minute; `None` when nothing is available or the date is impossible.
pub fn eta_time(mo: i64, d: i64, h: i64, mi: i64, sec: i64, now: i64) -> Option<i64> {
    if mo == 0 && d == 0 && h == 24 && mi == 60 { return None; }
    let (y, m0, d0, ..) = civil::split(now);
    let mo = if mo == 0 { m0 } else { mo };
    let d = if d == 0 { d0 } else { d };
    let (h, mi, s) = if h == 24 { (23, 59, 59) } else if mi == 60 { (h, 59, 59) } else { (h, mi, sec.min(59)) };
    match civil::epoch(y, mo, d, h, mi, s) {
        Some(t) if t > now || t == now && crate::rt::nanos(now) == 0 => Some(t),
        _ => civil::epoch(y + 1, mo, d, h, mi, s),
    }
}
fn eta(b: &Bits, o: usize, now: i64) -> Exp {
    let g = |sec: i64| eta_time(b.u(o, 4) as i64, b.u(o + 4, 5) as i64, b.u(o + 9, 5) as i64, b.u(o + 14, 6) as i64, sec, now)
        .map_or(V::None, |t| V::T(t, 0));
    Exp { legacy: Some((g(b.u(o + 20, 6) as i64), "t5-eta-seconds")), ..x("eta", g(0), &["C18"]) }
}

/// Fields of a type 24 report from its part A and part B messages.
pub fn decode24(a: &Bits, b: &Bits) -> Vec<Exp> {
    let mut v = vec![x("ais_type", e("ClassB"), &["C12"])];
    num(&mut v, "mmsi", b, 8, 30);
    num(&mut v, "ais_version_indicator", &Bits::zeros(2), 0, 2);
    v.push(x("name", text_opt(a.text(40, 20)), &["C09", "C15"]));
    v.push(x("ship_type", e(ship_type(b.u(40, 8))), &["C09", "C25"]));
    v.push(x("cargo_type", e(cargo_type(b.u(40, 8))), &["C09", "C25"]));
    v.push(x("equipment_vendor_id", V::S(b.text(48, 3).trim_end_matches(' ').into()), &["C09", "C15"]));
    v.push(x("equipment_model", V::I(b.u(66, 4) as i64), &["C09", "C15"]));
    v.push(x("equipment_serial_number", V::I(b.u(70, 20) as i64), &["C09", "C15"]));
    v.push(x("call_sign", text_opt(b.text(90, 7)), &["C09", "C15"]));
    for (n, o, l) in [("dimension_to_bow", 132, 9), ("dimension_to_stern", 141, 9), ("dimension_to_port", 150, 6),
                      ("dimension_to_starboard", 156, 6), ("mothership_mmsi", 132, 30)] {
        v.push(x(n, V::I(b.u(o, l) as i64), &["C09", "C15"]));
    }
    for n in ["imo_number", "position_fix_type", "draught10", "destination"] { v.push(x(n, V::None, &["C15"])); }
    v.push(x("eta", V::None, &["C18"]));
    v
}

// ---- generator ----------------------------------------------------------------------------------
/// Shape of a field as the generator sees it.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum F { U, S, Text, Month, Day, Hour, Min, Year, Ship }
pub struct Field { pub o: usize, pub n: usize, pub f: F, pub props: &'static [&'static str] }
macro_rules! fields { ($($o:literal $n:literal $f:ident [$($p:literal)*]),* $(,)?) => { vec![$(Field { o: $o, n: $n, f: F::$f, props: &[$($p),*] }),*] } }

pub const TYPES: [u64; 11] = [1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27];
/// Number of bits up to the end of the last field.
pub fn layout_len(ty: u64) -> usize { match ty { 5 => 424, 6 => 88, 10 => 72, 21 => 356, 27 => 96, _ => 168 } }
pub fn fields(ty: u64) -> Vec<Field> {
    match ty {
        1..=3 => fields![8 30 U ["C16"], 38 4 U ["C25"], 42 8 S ["C14"], 50 10 U ["C14"], 60 1 U ["C16"], 61 28 S ["C13"], 89 27 S ["C13"],
            116 12 U ["C14"], 128 9 U ["C14"], 137 6 U ["C16"], 143 2 U ["C14"], 148 1 U ["C16"], 149 19 U ["C16"]],
        4 => fields![8 30 U ["C16"], 38 14 Year ["C17"], 52 4 Month ["C17"], 56 5 Day ["C17"], 61 5 Hour ["C17"], 66 6 Min ["C17"], 72 6 Min ["C17"],
            78 1 U ["C16"], 79 28 S ["C13"], 107 27 S ["C13"], 134 4 U ["C25"], 148 1 U ["C16"], 149 19 U ["C16"]],
        5 => fields![8 30 U ["C16"], 38 2 U ["C16"], 40 30 U ["C15"], 70 42 Text ["C15"], 112 120 Text ["C15"], 232 8 Ship ["C25"], 240 9 U ["C15"],
            249 9 U ["C15"], 258 6 U ["C15"], 264 6 U ["C15"], 270 4 U ["C15" "C25"], 274 4 Month ["C18"], 278 5 Day ["C18"], 283 5 Hour ["C18"],
            288 6 Min ["C18"], 294 8 U ["C15"], 302 120 Text ["C15"]],
        6 => fields![8 30 U ["C16"], 38 2 U ["C16"], 40 30 U ["C16"], 70 1 U ["C16"], 72 10 U ["C16"], 82 6 U ["C16"]],
        9 => fields![8 30 U ["C16"], 38 12 U ["C14"], 50 10 U ["C14"], 60 1 U ["C16"], 61 28 S ["C13"], 89 27 S ["C13"], 116 12 U ["C14"], 128 6 U ["C16"],
            134 8 U ["C16"], 142 1 U ["C16"], 146 1 U ["C16"], 147 1 U ["C16"], 148 20 U ["C16"]],
        10 => fields![8 30 U ["C16"], 40 30 U ["C16"]],
        18 => fields![8 30 U ["C16"], 46 10 U ["C14"], 56 1 U ["C16"], 57 28 S ["C13"], 85 27 S ["C13"], 112 12 U ["C14"], 124 9 U ["C14"], 133 6 U ["C16"],
            141 8 U ["C16"], 149 19 U ["C16"]],
        21 => fields![8 30 U ["C16"], 38 5 U ["C25"], 43 120 Text ["C15"], 163 1 U ["C16"], 164 28 S ["C13"], 192 27 S ["C13"], 219 9 U ["C15"], 228 9 U ["C15"],
            237 6 U ["C15"], 243 6 U ["C15"], 249 4 U ["C15" "C25"], 253 6 U ["C16"], 259 1 U ["C16"], 260 8 U ["C16"], 268 1 U ["C16"], 269 1 U ["C16"],
            270 1 U ["C16"], 272 84 Text ["C15"]],
        27 => fields![8 30 U ["C16"], 38 1 U ["C16"], 39 1 U ["C16"], 40 4 U ["C25"], 44 18 S ["C13"], 62 17 S ["C13"], 79 6 U ["C14"], 85 9 U ["C14"], 94 1 U ["C16"]],
        _ => vec![],
    }
}
pub fn fields24(b: bool) -> Vec<Field> {
    if b {
        fields![40 8 Ship ["C09" "C25"], 48 18 Text ["C09" "C15"], 66 4 U ["C09" "C15"], 70 20 U ["C09" "C15"], 90 42 Text ["C09" "C15"],
            132 9 U ["C09" "C15"], 141 9 U ["C09" "C15"], 150 6 U ["C09" "C15"], 156 6 U ["C09" "C15"]]
    } else { fields![40 120 Text ["C09" "C15"]] }
}

/// Interesting raw values for an n-bit field.
pub fn raw(r: &mut Rng, n: usize, f: F, consts: &[u64]) -> u64 {
    let m = if n >= 64 { u64::MAX } else { (1 << n) - 1 };
    match f {
        F::Month if r.chance(3, 4) => return r.below(14),
        F::Day if r.chance(3, 4) => return *r.pick(&[0, 1, 15, 28, 29, 30, 31]),
        F::Hour if r.chance(3, 4) => return r.below(26),
        F::Min if r.chance(3, 4) => return *r.pick(&[0, 1, 30, 58, 59, 60, 61, 63]),
        F::Year if r.chance(3, 4) => return if r.coin() { 1990 + r.below(120) } else { *r.pick(&[0, 1, 4, 1900, 1970, 2000, 2038, 2100, 2400, 9999, 10000, 16383]) },
        F::Ship if r.chance(1, 2) => return r.below(102),
        _ => {}
    }
    let deg = [180i64, -180, 90, -90, 181, 91, -181, -91, 0, 1, -1, 60, 45];
    (match r.below(10) {
        0 => *r.pick(&[0, 1, 2, m, m - m / 2, m / 2, m.wrapping_sub(1), m / 2 + 2, m / 2 - m / 4]),
        1 => 1 << r.below(n as u64),
        2 => m ^ (1 << r.below(n as u64)),
        3 => (r.range(-130, 130)) as u64,
        4 if n >= 16 => {
            let k = if n <= 18 { *r.pick(&[600i64, 1000]) } else { 600_000 };
            (*r.pick(&deg) * k + r.range(-2, 2)) as u64
        }
        5 | 6 if !consts.is_empty() => r.pick(consts).wrapping_add(r.range(-1, 1) as u64),
        7 => r.next() >> r.below(64),
        _ => r.next(),
    }) & m
}
pub fn text(r: &mut Rng, n: usize) -> String {
    let any = |r: &mut Rng| { let c = r.below(64) as u8; (if c < 32 { c + 64 } else { c }) as char };
    let word = |r: &mut Rng, k: usize| -> String { (0..k).map(|_| *r.pick(&['A', 'B', 'Z', '0', '9', '-', '.', 'Q', 'X', '?', '_', '[', ']', '\\', '^', '!', '"', '#'])).collect() };
    let mut s: String = match r.below(9) {
        0 => String::new(),
        1 => (0..n).map(|_| any(r)).collect(),
        2 => { let k = r.idx(n + 1); word(r, k) }
        3 => word(r, n),
        4 => { let k = r.idx(n); format!("{}{}", word(r, k), " ".repeat(n - k)) }
        5 => { let k = r.idx(n); format!("{}@{}", word(r, k), word(r, n)) }
        6 => { let k = r.idx(n); format!("{} {}", word(r, k), word(r, n)) }
        7 => { let k = r.idx(n); format!("{} @{}", word(r, k), word(r, n)) }
        _ => { let k = r.idx(n + 1); format!("{}{}", " ".repeat(k), word(r, n)) }
    };
    s.truncate(n);
    s
}
pub fn put(b: &mut Bits, r: &mut Rng, f: &Field, consts: &[u64]) {
    if f.f == F::Text {
        if r.chance(3, 4) { let t = text(r, f.n / 6); b.set_text(f.o, f.n / 6, &t); }
        else { for i in 0..f.n / 6 { let v = r.below(64); b.set(f.o + 6 * i, 6, v); } }
    } else { let v = raw(r, f.n, f.f, consts); b.set(f.o, f.n, v); }
}
/// A message of type `ty`; fields of `focus` usually get interesting values, others sometimes do.
pub fn message(r: &mut Rng, ty: u64, focus: &str, consts: &[u64]) -> Bits {
    let mut b = match r.below(6) { 0 => Bits::zeros(layout_len(ty)), 1 => Bits(vec![1; layout_len(ty)]), _ => Bits::random(r, layout_len(ty)) };
    b.set(0, 6, ty);
    for f in fields(ty) {
        let p = if f.props.contains(&focus) { 3 } else { 1 };
        if r.chance(p, 5) { put(&mut b, r, &f, consts); }
    }
    b
}
pub fn half24(r: &mut Rng, part: u64, mmsi: u64, consts: &[u64]) -> Bits {
    let mut b = if r.chance(1, 6) { Bits::zeros(168) } else { Bits::random(r, 168) };
    for f in fields24(part == 1) { if r.chance(2, 3) { put(&mut b, r, &f, consts); } }
    b.set(0, 6, 24);
    b.set(8, 30, mmsi);
    b.set(38, 2, part);
    b
}
