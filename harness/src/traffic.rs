//! Random receiver traffic drawn from small pools of identifiers, so that parts collide, repeat,
//! get lost and overtake each other.
use crate::gns;
use crate::nmea::*;
use crate::refdec;
use crate::rng::Rng;
use crate::rt::DEFAULT_NOW;

#[derive(Clone)]
pub struct Pool {
    pub talkers: Vec<String>,
    pub kinds: Vec<&'static str>,
    pub ids: Vec<String>,
    pub chans: Vec<&'static str>,
    pub gsv: Vec<(String, usize)>,
    pub mmsis: Vec<u64>,
}
pub const IDS: &[&str] = &["0", "1", "2", "3", "9", "10", "11", "12", "21", "100", "256", "257", "65536", "65537", "4294967296", "4294967297", "18446744073709551615"];
pub const CHANS: &[&str] = &["A", "B", "", "1", "2", "AB", "a", "C", "CHANNEL 2088 AT 162.025 MHZ SIMPLEX"];
pub const MMSIS: &[u64] = &[0, 1, 2, 211_000_000, 211_000_001, 211_000_256, 211_065_536, 227_777_216, 982_113_334, 1_073_741_823, 65_536, 65_537, 16_777_216, 536_870_912, 73_741_823, 1_000_000_000, 1_000_000_001, 211_000];

impl Pool {
    /// A few identifiers of every sort, close to each other.
    pub fn small(r: &mut Rng) -> Pool {
        let mut ids: Vec<String> = (0..1 + r.idx(3)).map(|_| r.pick(IDS).to_string()).collect();
        ids.dedup();
        Pool {
            talkers: (0..1 + r.idx(2)).map(|_| ais_talker(r)).collect(),
            kinds: if r.coin() { vec!["VDM"] } else { vec!["VDM", "VDO"] },
            ids,
            chans: (0..1 + r.idx(2)).map(|_| *r.pick(CHANS)).collect(),
            gsv: (0..1 + r.idx(3)).map(|_| (nav_talker(r), 1 + r.idx(4))).collect(),
            mmsis: (0..1 + r.idx(3)).map(|_| *r.pick(MMSIS)).collect(),
        }
    }
}

fn fr(r: &mut Rng, b: String) -> String { if r.chance(9, 10) { frame(&b) } else { b } }

/// Payload of a random supported message; type 24 halves use the pool's MMSIs.
pub fn payload(r: &mut Rng, p: &Pool, with24: bool) -> (String, usize) {
    let b = if with24 && r.chance(1, 6) { let (part, m) = (r.below(2), *r.pick(&p.mmsis)); refdec::half24(r, part, m, &[]) }
        else { let ty = *r.pick(&refdec::TYPES); refdec::message(r, ty, "", &[]) };
    (b.armor(), b.fill())
}
/// Splits a payload into two parts at a random character (either part may be empty).
pub fn split(r: &mut Rng, s: &str) -> (String, String) {
    let k = match r.below(6) { 0 => 0, 1 => s.len(), 2 => 1.min(s.len()), _ => r.idx(s.len() + 1) };
    (s[..k].into(), s[k..].into())
}

/// Sentences complete in themselves.
pub fn self_contained(r: &mut Rng, p: &Pool) -> String {
    match r.below(3) {
        0 => {
            let ty = *r.pick(&gns::TYPES);
            let g = gns::sentence(r, ty, DEFAULT_NOW, gns::Mix { bad_num: 1, empty: 10, ..Default::default() });
            fr(r, g.body)
        }
        1 => {
            // same identifiers as multi-part traffic, but complete
            let (pl, f) = payload(r, p, false);
            let id = if r.coin() { r.pick(&p.ids).clone() } else { String::new() };
            let num = if r.chance(1, 10) { r.below(4) as u32 } else { 1 };
            let b = vdm(r.pick::<String>(&p.talkers), *r.pick::<&str>(&p.kinds), 1, num, &id, *r.pick::<&str>(&p.chans), &pl, f);
            fr(r, b)
        }
        _ => { let ty = *r.pick(&refdec::TYPES); let b = refdec::message(r, ty, "", &[]); wrap(r, &b).0 }
    }
}
/// One part of a two-part AIS message with identifiers from the pool.
pub fn part(r: &mut Rng, p: &Pool) -> String {
    let (pl, f) = payload(r, p, true);
    let (a, b) = split(r, &pl);
    let first = r.coin();
    let s = vdm(r.pick::<String>(&p.talkers), *r.pick::<&str>(&p.kinds), 2, if first { 1 } else { 2 }, r.pick::<String>(&p.ids), *r.pick::<&str>(&p.chans), if first { &a } else { &b }, if first { 0 } else { f });
    fr(r, s)
}
/// One sentence of a GSV group of the pool.
pub fn gsv_part(r: &mut Rng, p: &Pool) -> String {
    let (t, n) = r.pick(&p.gsv).clone();
    let g = gns::gsv(r, &t, n);
    g.parts[r.idx(n)].clone()
}
/// One type 24 half of one of the pool's MMSIs, as a single sentence.
pub fn half(r: &mut Rng, p: &Pool) -> String {
    let (part, m) = (r.below(2), *r.pick(&p.mmsis));
    let b = refdec::half24(r, part, m, &[]);
    wrap(r, &b).0
}
/// A sentence that leaves or may leave something pending.
pub fn stateful(r: &mut Rng, p: &Pool) -> String {
    match r.below(3) { 0 => part(r, p), 1 => gsv_part(r, p), _ => half(r, p) }
}
/// A sentence the parser must answer with an error and that completes nothing.
pub fn rejected(r: &mut Rng, p: &Pool, like: &[String]) -> (String, &'static str) {
    let k = r.below(12);
    rejected_of(r, p, like, k)
}
pub fn rejected_of(r: &mut Rng, p: &Pool, like: &[String], kind: u64) -> (String, &'static str) {
    match kind {
        0 | 1 | 2 => {
            // a damaged copy of a sentence of this history (or of a new one)
            let s = if !like.is_empty() && r.chance(3, 4) { r.pick(like).clone() } else { stateful(r, p) };
            let body = s.split('*').next().unwrap_or("").to_string();
            let good = xor(&body);
            if r.coin() || body.len() < 12 { (format!("{}*{:02X}", body, good ^ (1 + r.below(255) as u8)), "wrong checksum") }
            else {
                // one payload character altered, checksum kept
                let mut v: Vec<char> = body.chars().collect();
                let i = 1 + r.idx(v.len() - 1);
                let c = loop { let c = (33 + r.below(94) as u8) as char; if c != v[i] && c != '*' { break c; } };
                v[i] = c;
                let t: String = v.into_iter().collect();
                let sum = if xor(&t) == good { good ^ 1 } else { good };
                (format!("{}*{:02X}", t, sum), "altered character")
            }
        }
        3 => {
            let (t, n) = r.pick(&p.gsv).clone();
            let g = gns::gsv(r, &t, n);
            let tail = g.parts[0].split('*').next().unwrap_or("").splitn(4, ',').nth(3).unwrap_or("").to_string();
            let k = match r.below(6) { 0 => "0".into(), 1 => (n + 1).to_string(), 2 => (n as u64 + 1 + r.below(300)).to_string(), 3 => "x".into(), 4 => "-1".into(), _ => "".to_string() };
            (frame(&format!("${}GSV,{},{},{}", t, n, k, tail)), "GSV number outside its group")
        }
        4 => {
            let (t, _) = r.pick(&p.gsv).clone();
            let c = *r.pick(&["0", "", "x", "-2", "1.5"]);
            (frame(&format!("${}GSV,{},1,04,01,40,083,46", t, c)), "GSV without a usable count")
        }
        5 => { let (k, m) = (2 + r.below(2), *r.pick(&p.mmsis)); let b = refdec::half24(r, k, m, &[]); (wrap(r, &b).0, "type 24 with part number 2 or 3") }
        6 => {
            let mut b = Bits::random(r, 168);
            let ty = *r.pick(&[0u64, 7, 8, 11, 12, 13, 14, 15, 16, 17, 19, 20, 22, 23, 25, 26, 28, 40, 63]);
            b.set(0, 6, ty);
            b.set(8, 30, *r.pick(&p.mmsis));
            (wrap(r, &b).0, "unsupported AIS message type")
        }
        7 => {
            let (mut pl, f) = payload(r, p, true);
            // some longer than any message
            if r.chance(1, 3) { let k = r.idx(400); pl.push_str(&Bits::random(r, 6 * k).armor()); }
            let mut v: Vec<char> = pl.chars().collect();
            let i = r.idx(v.len());
            v[i] = *r.pick(&['X', 'Z', '_', '!', ' ', 'x', '~', '/', '\u{7f}', '\u{e9}', '\u{130}', '\u{4e30}']);
            let b = vdm(r.pick::<String>(&p.talkers), *r.pick::<&str>(&p.kinds), 1, 1, "", *r.pick::<&str>(&p.chans), &v.into_iter().collect::<String>(), f);
            (frame(&b), "illegal payload character")
        }
        8 => {
            let (pl, f) = payload(r, p, true);
            let (c, n) = *r.pick(&[("x", "1"), ("2", ""), ("", "1"), ("2", "y"), ("2", "-1"), ("2.0", "1")]);
            let b = format!("!{}{},{},{},{},{},{},{}", r.pick(&p.talkers), r.pick(&p.kinds), c, n, r.pick(&p.ids), r.pick(&p.chans), pl, f);
            (frame(&b), "unreadable part count or number")
        }
        9 => (frame(&format!("$GPGGA,101010,1x34.5,N,02500.0,E,1,08,1.0,5,M,,M,,")), "malformed position"),
        10 => { let t = two_letters(r); (frame(&format!("${}{},1,2,3", t, r.pick(&["ZDA", "HDT", "XTE", "ABC", "TXT"]))), "unsupported sentence") }
        _ => (r.pick(&["", "garbage", "$GPGGA", "!AIVDM", "$", "!", "\u{e9}", "!AI", "$GP,", "AIVDM", "\r\n", "  "]).to_string(), "not a sentence"),
    }
}
/// A sentence with fields altered, left out or added, or characters damaged; its checksum made good or left out.
pub fn altered(r: &mut Rng, s: &str) -> String {
    let body = s.split('*').next().unwrap_or("").to_string();
    let mut f: Vec<String> = body.split(',').map(String::from).collect();
    for _ in 0..1 + r.idx(2) {
        let k = r.idx(f.len());
        match r.below(9) {
            8 if body.starts_with('!') && f.len() > 5 => { let n = f[5].chars().count(); let m = if r.coin() { n } else { n.min(22) }; let c = r.idx(m + 1); f[5] = f[5].chars().take(c).collect(); }
            0 | 1 => f.truncate(1 + r.idx(f.len())),
            2 => { f.remove(k); if f.is_empty() { f.push(String::new()); } }
            3 => f.insert(k, r.pick(&["", "0", "1", "x"]).to_string()),
            4 => f[k] = String::new(),
            5 => f[k] = r.pick(&["0", "1", "2", "3", "255", "256", "-1", "x", "1.5", "+1", " 1", "01", "99999999999999999999", "A", "\u{e9}"]).to_string(),
            6 => { let mut c: Vec<char> = f[k].chars().collect(); if !c.is_empty() { let i = r.idx(c.len()); c[i] = (33 + r.below(94) as u8) as char; } f[k] = c.into_iter().filter(|c| *c != ',' && *c != '*').collect(); }
            _ => for _ in 0..1 + r.idx(6) { f.push(r.pick(&["", "0", "7", "x"]).to_string()); },
        }
    }
    let t = f.join(",");
    if t.contains('*') || r.chance(1, 4) { t.replace('*', "") } else { frame(&t) }
}
/// An AIS part the parser cannot use.
pub fn unusable(r: &mut Rng, p: &Pool) -> (String, &'static str) {
    let k = r.below(5);
    unusable_of(r, p, k)
}
pub fn unusable_of(r: &mut Rng, p: &Pool, kind: u64) -> (String, &'static str) {
    let (pl, f) = payload(r, p, true);
    let (a, b) = split(r, &pl);
    let id = r.pick(&p.ids).clone();
    let (c, n, id, pl, why) = match kind {
        0 => (2, 0, id, a, "part 0 of 2"),
        1 => (2, 3 + r.below(253) as u32, id, b, "part above 2 of 2"),
        2 => (2, 1 + r.below(2) as u32, String::new(), a, "message id missing"),
        3 if r.coin() => { let i = r.pick(&[format!(" {}", id), format!("{} ", id), format!("{}x", id), format!("{}.0", id), format!("-{}", id), format!("0x{}", id), format!("2844674407370955161{}", id)]).clone(); (2, 1 + r.below(2) as u32, i, b, "message id unreadable") }
        3 => (2, 1 + r.below(2) as u32, r.pick(&["x", "-1", "1.0", " "]).to_string(), b, "message id unreadable"),
        _ => (*r.pick(&[0, 3, 4, 5, 9, 255]), r.below(5) as u32, id, pl, "part count other than 1 or 2"),
    };
    let s = vdm(r.pick::<String>(&p.talkers), *r.pick::<&str>(&p.kinds), c, n, &id, *r.pick::<&str>(&p.chans), &pl, f);
    (fr(r, s), why)
}
/// Any traffic at all.
pub fn any(r: &mut Rng, p: &Pool, past: &[String]) -> String {
    match r.below(10) {
        0..=4 => stateful(r, p),
        5..=6 => self_contained(r, p),
        7 => rejected(r, p, past).0,
        8 => unusable(r, p).0,
        _ => if past.is_empty() { stateful(r, p) } else { r.pick(past).clone() },
    }
}
/// Almost the sentence `s`: one field after the first three differs, the checksum fits again.
pub fn twist(r: &mut Rng, s: &str) -> String {
    let body = s.split('*').next().unwrap_or("");
    let mut f: Vec<String> = body.split(',').map(String::from).collect();
    if f.len() < 5 { return s.to_string(); }
    let ais = body.starts_with('!');
    let hemi: Vec<usize> = (1..f.len()).filter(|i| matches!(f[*i].as_str(), "N" | "S" | "E" | "W")).collect();
    if !ais && !hemi.is_empty() && r.coin() {
        let k = *r.pick(&hemi);
        f[k] = match f[k].as_str() { "N" => "S", "S" => "N", "E" => "W", _ => "E" }.into();
        return frame(&f.join(","));
    }
    let k = if ais { 4 + r.idx(2.min(f.len() - 4)) } else if body.contains("GSV") { 3 + r.idx(f.len() - 3) } else { 1 + r.idx(f.len() - 1) };
    if ais && k == 4 { f[4] = r.pick(CHANS).to_string(); return frame(&f.join(",")); }
    let mut v: Vec<char> = f[k].chars().collect();
    if v.len() > 1 {
        let i = 1 + r.idx(v.len() - 1);
        v[i] = if v[i].is_ascii_digit() { (b'0' + r.below(10) as u8) as char } else if ais { armor_char(r.below(64) as u8) } else { v[i] };
        f[k] = v.into_iter().collect();
    } else if f[k].len() == 1 && f[k].as_bytes()[0].is_ascii_digit() { f[k] = r.below(10).to_string(); }
    frame(&f.join(","))
}
