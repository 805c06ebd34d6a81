//! Totality, checksums, classification, countries, and the sanitizer workload.
use super::ais::{clock, compare, hist};
use super::n;
use crate::gns::{self, Mix};
use crate::mon::{cfg, hash, Hist, Mon};
use crate::nmea::*;
use crate::obs::{e, flatten, get};
use crate::refdec;
use crate::rng::Rng;
use crate::rt::{self, call, once, Kind, Out, DEFAULT_NOW};
use crate::tables::mid_table;
use crate::traffic::{self, Pool};
use nmea_parser::{LatLon, NmeaParser, ParsedSentence};

// ---- hostile text -------------------------------------------------------------------------------
const HEADS: &[&str] = &["$GPGGA", "$GPRMC", "$GPGSA", "$GPGSV", "$GPVTG", "$GPGLL", "!AIVDM", "!AIVDO", "!ABVDM", "$GNGGA", "$QZGSV", "$", "!", "$G", "$GP", "$GPG", "$GPGG", "$GPGGAX", "$GPGGAXX", "!A", "!AI",
    "!AIV", "!AIVD", "!AIVDMX", "", "GPGGA", "AIVDM", "$\u{e9}GGA", "$G\u{e9}GA", "$GP\u{e9}A", "$GPG\u{e9}", "\u{e9}", "!\u{4e2d}VDM", "!A\u{4e2d}DM", "!AI\u{4e2d}", "$\u{1f600}A", "$PGRME", "$GPALM", "$GPHDT", "$GPTRF",
    "$GPSTN", "$GPVBW", "$GPXTC", "$GPXTE", "$GPZDA", "$GPBOD", "$GPRMA", "$GPTXT", "$\u{0}\u{0}\u{0}\u{0}\u{0}", "\\s:1*00\\!AIVDM", "$$$$$$", "!!!!!!", "$AIVDM", "!GPGGA", "$\u{301}\u{301}", "\u{feff}$GPGGA", "$gpgga"];
const TOKENS: &[&str] = &["", "", "0", "1", "2", "3", "4", "9", "00", "01", "-1", "+1", "-0", "255", "256", "65535", "65536", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999999",
    "1e999", "-1e999", "NaN", "inf", "-inf", ".", "..", "-", "+", "1.", ".1", "1.5", "-1.5", "A", "V", "N", "S", "E", "W", "M", "T", "K", "D", "X", " ", "\t", "\u{e9}", "\u{130}", "\u{1f600}", "\u{0}", "\u{7f}", "\u{661}\u{662}",
    "000000", "101010", "235959", "240000", "236060", "999999", "1", "12345", "1234", "123", "12", "\u{e9}2345", "1\u{e9}345", "12345\u{e9}", "12\u{e9}5", "290220", "290221", "310421", "000000", "320199", "010100", "010121", "-10121", "1010.5", "101010.999", "101010.",
    "6000.5", "06000.5", "9000.0", "18000.0", "9999.9999", "99999.9999", "0000.0", "00000.0", "6000", "60", "6", "6000.", "-6000.5", "\u{ff16}000.5", "6000.\u{ff15}", "1234.5x", "15M67FC000G?ufbE`FepT@3n00Sa", "H42O55i18tMET00000000000000",
    "55?MbV02;H;s<HtKR20EHE:0@T4@Dn2222222216L961O5Gf0NSQEp6ClRp8", "w", "0", "`", "W", "X", "~", "!", "/", "402u=TiuaA000r5UJ`H4`?7000S:", "E", "1", "B52K>;h00Fc>jpUlNV@ikwpUoP06", "K8VSqb9LdU28WP8<"];

fn noise(r: &mut Rng) -> String {
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 => r.idx(6), 3 => r.idx(400), _ => r.idx(40) };
    let mode = r.below(5);
    (0..n).map(|_| match mode {
        0 => (r.below(128) as u8) as char,
        1 => *r.pick(&['$', '!', ',', '*', '.', '-', 'G', 'P', 'A', 'I', 'V', 'D', 'M', '0', '1', '9', 'N', 'E', '\u{e9}', '\r', '\n', ' ']),
        2 => char::from_u32(r.below(0x3000) as u32).unwrap_or('x'),
        3 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('y'),
        _ => *r.pick(&[',', '*', '$', '!', '0']),
    }).collect()
}
fn grammar(r: &mut Rng) -> String {
    let h = if r.chance(3, 4) { r.pick(&HEADS[..9]).to_string() } else if r.chance(3, 4) { r.pick(HEADS).to_string() } else { noise(r).chars().take(8).collect() };
    let mut f = vec![h];
    let k = match r.below(6) { 0 => r.idx(3), 1 => r.idx(60), _ => 5 + r.idx(15) };
    let vdm = f[0].contains("VD");
    for i in 0..k {
        f.push(match (vdm, i) {
            (true, 0) if r.chance(4, 5) => r.pick(&["1", "1", "2", "0", "3", "255"]).to_string(),
            (true, 1) if r.chance(4, 5) => r.pick(&["1", "2", "0", "3", "255"]).to_string(),
            (true, 2) if r.chance(4, 5) => r.pick(&["", "1", "2", "18446744073709551615"]).to_string(),
            (true, 4) if r.chance(4, 5) => {
                let len = match r.below(4) { 0 => r.idx(8), 1 => 28, 2 => r.idx(90), _ => 20 + r.idx(50) };
                let mut b = Bits::random(r, 6 * len.max(1));
                if r.chance(3, 4) { b.set(0, 6, r.below(30)); }
                if r.chance(1, 4) { for i in 38..b.0.len() { b.0[i] = 1; } }
                if len == 0 { String::new() } else { b.armor() }
            }
            _ => r.pick(TOKENS).to_string(),
        });
    }
    f.join(",")
}
pub fn valid(r: &mut Rng, pool: &Pool) -> String {
    match r.below(4) {
        0 => { let ty = *r.pick(&gns::TYPES); gns::sentence(r, ty, DEFAULT_NOW, Mix { bad_pos: 5, bad_num: 5, bad_time: 20, empty: 10, cut: 10 }).body }
        1 => traffic::stateful(r, pool),
        2 => { let ty = *r.pick(&refdec::TYPES); let scope = *r.pick::<&str>(&["C13", "C14", "C15", "C17", "C18"]); let b = refdec::message(r, ty, scope, &[]); wrap(r, &b).0 }
        _ => traffic::self_contained(r, pool),
    }
}
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.idx(4) {
        let at = r.idx(v.len() + 1);
        match r.below(11) {
            0 => v.truncate(at),
            1 => { v.drain(..at.min(v.len())); }
            2 if at < v.len() => { v.remove(at); }
            3 => v.insert(at, *r.pick(&['\u{e9}', '\u{130}', '\u{1f600}', '\u{0}', ',', '*', '$', '!', '0', '9', '-', '.', '\u{661}', ' '])),
            4 if at < v.len() => v[at] = char::from_u32(r.below(128) as u32).unwrap_or('0'),
            5 if at < v.len() => v[at] = *r.pick(&['\u{e9}', '\u{10ffff}', '\u{7ff}', '\u{800}', '\u{157}']),
            6 if at < v.len() => { let e = (at + r.idx(12)).min(v.len()); let part: Vec<char> = v[at..e].to_vec(); let k = r.idx(v.len()); v.splice(k..k, part); }
            7 | 8 => {
                // a whole field replaced
                let t: String = v.iter().collect();
                let mut f: Vec<String> = t.split(',').map(String::from).collect();
                let k = r.idx(f.len());
                f[k] = r.pick(TOKENS).to_string();
                v = f.join(",").chars().collect();
            }
            9 => {
                let t: String = v.iter().collect();
                let mut f: Vec<&str> = t.split(',').collect();
                let k = r.idx(f.len());
                if r.coin() { f.remove(k); } else { let x = f[k]; f.insert(k, x); }
                v = f.join(",").chars().collect();
            }
            _ => if at < v.len() && v[at].is_ascii_digit() { v[at] = *r.pick(&['9', '0', '-', '.', 'e']) },
        }
    }
    let t: String = v.into_iter().collect();
    if r.chance(3, 5) { match t.rfind('*') { Some(i) => frame(&t[..i]), None => t } } else { t }
}
/// Everything a user can do with an outcome.
fn exercise(o: &Out) -> Result<usize, String> {
    rt::guarded(|| {
        let mut n = 0;
        match o {
            Out::Ok(p) => {
                n += format!("{:?} {:#?}", p, p).len();
                let (_, f) = flatten(p);
                n += f.len();
                match p {
                    ParsedSentence::VesselDynamicData(x) => {
                        n += format!("{} {} {:?} {:?}", x.station, x.ais_type, x.nav_status, x.positioning_system_meta.map(|y| y.to_string())).len();
                        n += (LatLon::latitude(x).is_some() as usize) + (LatLon::longitude(x).is_some() as usize);
                    }
                    ParsedSentence::VesselStaticData(x) => {
                        n += x.country().map_or(0, |c| c.len());
                        n += format!("{} {} {} {:?}", x.ais_type, x.ship_type, x.cargo_type, x.position_fix_type.map(|y| y.to_string())).len();
                        n += x.eta.map_or(0, |t| t.to_string().len() + t.to_rfc3339().len());
                    }
                    ParsedSentence::BaseStationReport(x) => n += format!("{} {:?} {:?}", x.station, x.position_fix_type.map(|y| y.to_string()), x.timestamp.map(|y| y.to_string())).len(),
                    ParsedSentence::AidToNavigationReport(x) => n += format!("{} {} {:?}", x.station, x.aid_type, x.position_fix_type.map(|y| y.to_string())).len(),
                    ParsedSentence::Gga(x) => n += format!("{} {} {:?}", x.source, x.quality, x.timestamp.map(|t| t.to_string())).len(),
                    ParsedSentence::Rmc(x) => n += format!("{} {:?}", x.source, x.timestamp.map(|t| t.to_string())).len(),
                    ParsedSentence::Gsa(x) => n += format!("{} {:?}", x.source, x.mode2_3d.map(|t| t.to_string())).len(),
                    ParsedSentence::Gsv(v) => for x in v { n += format!("{} {}", x.source, x.prn_number).len() },
                    ParsedSentence::Vtg(x) => n += format!("{} {:?}", x.source, x.faa_mode.map(|t| t.to_string())).len(),
                    ParsedSentence::Gll(x) => n += format!("{} {:?}", x.source, x.faa_mode.map(|t| t.to_string())).len(),
                    _ => {}
                }
                let c = p.clone();
                n += (c == *p) as usize;
            }
            Out::Err(k, m) => {
                use nmea_parser::ParseError as E;
                let e = match k { Kind::Unsupported => E::UnsupportedSentenceType(m.clone()), Kind::Corrupted => E::CorruptedSentence(m.clone()), Kind::Invalid => E::InvalidSentence(m.clone()) };
                n += e.to_string().len() + format!("{:?}", e).len();
            }
            Out::Panic(_) => {}
        }
        n
    })
}

// ---- C01 ----------------------------------------------------------------------------------------
fn hostile(r: &mut Rng, pool: &Pool, past: &[String], corpus: &[String]) -> (String, &'static str) {
    match r.below(12) {
        0 => (noise(r), "noise"),
        1 | 2 => { let s = grammar(r); (if r.coin() { frame(&s) } else { s }, "grammar") }
        3 | 4 => { let s = valid(r, pool); (mutate(r, &s), "mutated") }
        5 if !corpus.is_empty() => { let s = r.pick(corpus).clone(); (mutate(r, &s), "mutated from the corpus") }
        6 if !past.is_empty() => { let s = r.pick(past).clone(); (mutate(r, &s), "mutated from this history") }
        7 => (traffic::rejected(r, pool, past).0, "rejected"),
        8 => (traffic::unusable(r, pool).0, "unusable"),
        9 => (traffic::any(r, pool, past), "traffic"),
        10 => { let s = valid(r, pool); let b = s.split('*').next().unwrap_or("").to_string(); let k = r.idx(b.chars().count() + 1); let t: String = b.chars().take(k).collect(); (frame(&t), "truncated") }
        _ => (valid(r, pool), "valid"),
    }
}
fn history(r: &mut Rng, m: &mut Mon, len: usize, corpus: &mut Vec<String>) -> bool {
    let pool = Pool::small(r);
    let mut p = NmeaParser::new();
    let mut h: Hist = vec![];
    let mut past: Vec<String> = vec![];
    for _ in 0..len {
        let now = if r.chance(1, 3) { clock(r) } else { DEFAULT_NOW };
        let (s, what) = hostile(r, &pool, &past, corpus);
        rt::set_now(now);
        let f0 = rt::fresh_edges();
        let o = call(&mut p, &s);
        h.push((now, s.clone()));
        m.case(hash(&s), !s.is_empty());
        m.count(what, 1);
        m.count(match &o { Out::Ok(ParsedSentence::Incomplete) => "outcome incomplete", Out::Ok(_) => "outcome result", Out::Err(Kind::Unsupported, _) => "outcome unsupported", Out::Err(Kind::Corrupted, _) => "outcome corrupted", Out::Err(..) => "outcome invalid", _ => "outcome panic" }, 1);
        if let Out::Panic(e) = &o { m.violation(format!("panic: {}", e), &h); rt::set_now(DEFAULT_NOW); return false; }
        if let Err(e) = exercise(&o) { m.violation(format!("panic while using {}: {}", o.brief(), e), &h); rt::set_now(DEFAULT_NOW); return false; }
        if rt::fresh_edges() > f0 && corpus.len() < 4000 { corpus.push(s.clone()); m.count("inputs that reached new edges", 1); }
        past.push(s);
    }
    rt::set_now(DEFAULT_NOW);
    m.sample(|| h.iter().take(4).map(|x| format!("{:?}", x.1)).collect::<Vec<_>>().join(" | "));
    true
}
pub fn c01(m: &mut Mon) {
    m.rule = "noise, grammar-generated, truncated and mutated sentences in histories of 1 to 30 calls under a changing clock, mutation corpus steered by newly executed edges; every outcome is formatted and its accessors \
called; distinct by sentence; non-trivial = not empty".into();
    let chunks = n(1_600, 60_000);
    m.parallel("c01", chunks, |r, m, _| {
        let mut corpus = vec![];
        for _ in 0..20 { let len = 1 + r.idx(30); if !history(r, m, len, &mut corpus) { return; } }
    });
    // every prefix and every one-character deletion or replacement of a sentence of each kind
    m.parallel("c01-edits", n(160, 4_000), |r, m, _| {
        let pool = Pool::small(r);
        let s = valid(r, &pool);
        let v: Vec<char> = s.chars().collect();
        let mut p = NmeaParser::new();
        for i in 0..=v.len() {
            let mut cands: Vec<String> = vec![v[..i].iter().collect(), v[i..].iter().collect()];
            if i < v.len() {
                for c in ['\u{e9}', '9', '-', ' ', 'X'] { let mut w = v.clone(); w[i] = c; cands.push(w.into_iter().collect()); }
                let mut w = v.clone();
                w.remove(i);
                cands.push(w.into_iter().collect());
            }
            for c in cands {
                for t in [frame(c.split('*').next().unwrap_or("")), c] {
                    let o = call(&mut p, &t);
                    m.case(hash(&t), !t.is_empty());
                    m.count("one-character edits and prefixes", 1);
                    if o.is_panic() { m.violation(o.brief(), &hist(DEFAULT_NOW, &[&t])); return; }
                    if let Err(e) = exercise(&o) { m.violation(format!("panic while using {}: {}", o.brief(), e), &hist(DEFAULT_NOW, &[&t])); return; }
                }
            }
        }
    });
    // parts with any text as payload, channel or id, then the part that completes them
    m.parallel("c01-parts", n(4_000, 100_000), |r, m, _| {
        let pool = Pool::small(r);
        let mut p = NmeaParser::new();
        let mut h: Hist = vec![];
        let text = |r: &mut Rng| -> String {
            let most = *r.pick(&[3usize, 30, 100, 300]);
            let (len, kind) = (r.idx(most), r.below(5));
            (0..len).map(|_| match kind {
                0 => armor_char(r.below(64) as u8),
                1 => *r.pick(&['\u{e9}', '\u{20ac}', '\u{1f600}', '\u{4e30}']),
                2 => if r.chance(1, 20) { *r.pick(&['\u{e9}', '\u{20ac}', '\u{1f600}']) } else { armor_char(r.below(64) as u8) },
                3 => char::from_u32(r.below(0x3000) as u32).filter(|c| *c != ',' && *c != '*').unwrap_or('\u{e9}'),
                _ => armor_char(r.below(2) as u8),
            }).collect()
        };
        for _ in 0..4 {
            let (t, k) = (r.pick::<String>(&pool.talkers).clone(), *r.pick::<&str>(&pool.kinds));
            let id = if r.chance(1, 3) { r.next().to_string() } else { r.pick::<String>(&pool.ids).clone() };
            let ch = match r.below(4) { 0 => text(r), 1 => String::new(), _ => r.pick(&pool.chans).to_string() };
            let (a, b) = (text(r), text(r));
            let mut v = vec![vdm(&t, k, 2, 1, &id, &ch, &a, 0), vdm(&t, k, 2, 2, &id, &ch, &b, 0)];
            if r.coin() { v.reverse(); }
            if r.chance(1, 4) { let x = v[0].clone(); v.insert(0, x); }
            for x in v {
                let x = if r.coin() { frame(&x) } else { x };
                let o = call(&mut p, &x);
                m.case(hash(&x), true);
                h.push((DEFAULT_NOW, x));
                if o.is_panic() { m.violation(o.brief(), &h); return; }
                if let Err(e) = exercise(&o) { m.violation(format!("panic while using {}: {}", o.brief(), e), &h); return; }
            }
        }
        m.count("parts of any text", 8);
    });
    // every token in every field of every head
    m.parallel("c01-tokens", (HEADS.len() * TOKENS.len()) as u64, |r, m, i| {
        let (hd, t) = (HEADS[i as usize / TOKENS.len()], TOKENS[i as usize % TOKENS.len()]);
        for k in 1..20 {
            let mut f: Vec<&str> = vec![hd];
            for j in 1..20 { f.push(if j == k { t } else if hd.contains("VD") { ["1", "1", "", "A", "15M67FC000G?ufbE`FepT@3n00Sa", "0"].get(j - 1).copied().unwrap_or("") } else { "" }); }
            f.truncate(k + 1 + r.idx(20));
            let s = f.join(",");
            let o = once(&s);
            m.case(hash(&s), true);
            m.count("tokens in fields", 1);
            if o.is_panic() { m.violation(o.brief(), &hist(DEFAULT_NOW, &[&s])); return; }
            if let Err(e) = exercise(&o) { m.violation(format!("panic while using {}: {}", o.brief(), e), &hist(DEFAULT_NOW, &[&s])); return; }
        }
    });
    // all date and time digits
    m.parallel("c01-dates", n(20_000, 400_000), |r, m, _| {
        let now = clock(r);
        rt::set_now(now);
        let (t, d) = (format!("{:02}{:02}{:02}", r.below(100), r.below(100), r.below(100)), format!("{:02}{:02}{:02}", r.below(40), r.below(20), r.below(100)));
        let s = match r.below(3) { 0 => format!("$GPGGA,{},,,,,,,,,,,,", t), 1 => format!("$GPGLL,,,,,{},A", t), _ => format!("$GPRMC,{},A,,,,,,,{},,", t, d) };
        let o = once(&s);
        m.case(hash(&s), true);
        if o.is_panic() { m.violation(o.brief(), &hist(now, &[&s])); }
        for ty in [4u64, 5] {
            let mut b = refdec::message(r, ty, "", &[]);
            for f in refdec::fields(ty) { if f.props.contains(&"C17") || f.props.contains(&"C18") { let v = r.next(); b.set(f.o, f.n, v); } }
            let s = wrap(r, &b).0;
            let o = once(&s);
            m.case(hash(&s), true);
            if o.is_panic() { m.violation(o.brief(), &hist(now, &[&s])); }
            if let Err(e) = exercise(&o) { m.violation(format!("panic while using {}: {}", o.brief(), e), &hist(now, &[&s])); }
        }
        m.count("random dates and times", 3);
        rt::set_now(DEFAULT_NOW);
    });
    c01_complete(m, "c01-complete", n(3, 60));
    c01_decoded(m, "c01-decoded", n(4_000, 120_000));
    // long sentences
    c01_many(m);
    m.parallel("c01-long", n(200, 4_000), |r, m, i| {
        let pool = Pool::small(r);
        let s = if r.coin() { valid(r, &pool) } else { grammar(r) };
        let mut f: Vec<String> = s.split(',').map(String::from).collect();
        let k = r.idx(f.len());
        let len = if i % 60 == 7 { 1_500_000 } else { [100, 1_000, 10_000, 70_000][r.idx(4)] };
        f[k] = (0..len).map(|_| *r.pick(&['0', '1', '9', 'A', 'w', '.', '\u{e9}'])).collect::<String>();
        if r.coin() { let c = *r.pick(&["9", "0", "1.", "A", "w"]); f[k] = c.repeat(len); }
        huge(r, m, f.join(","));
    });
    // every column of every kind in turn, continued at the end without changing its kind
    m.parallel("c01-columns", 11 * 20 * 2, |r, m, i| {
        let (k, col, far) = (i as usize / 2 % 11, 1 + i as usize / 22, i % 2 == 1);
        let mut f: Vec<String> = if k < 6 { gns::sentence(r, ["GGA", "RMC", "GSA", "VTG", "GLL", "GGA"][k], DEFAULT_NOW, Mix::default()).body.split(',').map(String::from).collect() }
            else { (match k { 6 => "$GPGSV,1,1,01,40,083,46,22,02,17,308,41,03,04,05,06".to_string(), 7 => { let (t, b) = (*r.pick(&refdec::TYPES), 0); let x = refdec::message(r, t, "", &[]); vdm("AI", "VDM", 1, 1, "", "A", &x.armor(), b) } 8 => vdm("AI", "VDM", 2, 1, "1", "A", "15M67FC000G?ufbE", 0), 9 => vdm("AI", "VDM", 2, 2, "1", "A", "15M67FC000G?ufbE", 0), _ => "$GPZDA,1,2,3".into() }).split(',').map(String::from).collect() };
        if col >= f.len() { return; }
        let len = if far { 1_300_000 } else { *r.pick(&[25usize, 45, 90, 400, 5_000]) };
        let c = match r.below(4) { 0 => "0", 1 => "9", 2 => "1", _ => "w0" };
        f[col].push_str(&c.repeat(len));
        huge(r, m, f.join(","));
    });
    // more fields than any sentence has
    m.parallel("c01-fields", 10 * n(12, 60), |r, m, i| {
        let pool = Pool::small(r);
        let s = match i % 10 { 0 => gns::sentence(r, "GGA", DEFAULT_NOW, Mix::default()).body, 1 => gns::sentence(r, "RMC", DEFAULT_NOW, Mix::default()).body, 2 => gns::sentence(r, "GSA", DEFAULT_NOW, Mix::default()).body,
            3 => gns::sentence(r, "VTG", DEFAULT_NOW, Mix::default()).body, 4 => gns::sentence(r, "GLL", DEFAULT_NOW, Mix::default()).body, 5 => traffic::gsv_part(r, &pool), 6 => "$GPGSV,1,1,01,40,083,46,22".into(),
            7 => traffic::part(r, &pool), 8 => grammar(r), _ => traffic::half(r, &pool) };
        let mut s = s.split('*').next().unwrap_or("").to_string();
        let want = match r.below(6) { 0 => 250 + r.idx(12), 1 => 100 + r.idx(60), 2 => 65_530 + r.idx(12), 3 => 32_760 + r.idx(12), 4 => r.idx(3_000), _ => if i % 20 < 10 { 600_000 } else { 300 } };
        let t = *r.pick(&["", "", "0", "1", "9", "A", "x", "99"]);
        for _ in s.matches(',').count()..want { s.push(','); s.push_str(t); }
        m.max("most fields", s.matches(',').count() as u64);
        huge(r, m, s);
    });
}
/// A sentence of unusual size, with and without checksum.
fn huge(r: &mut Rng, m: &mut Mon, s: String) {
    let mut p = NmeaParser::new();
    for s in [&s, &frame(&s)] {
        let o = call(&mut p, s);
        m.case(hash(s), true);
        m.max("longest sentence", s.len() as u64);
        m.count("sentences of unusual size", 1);
        if o.is_panic() { m.violation(o.brief(), &hist(DEFAULT_NOW, &[s])); return; }
        if let Err(e) = exercise(&o) { m.violation(format!("panic while using {}: {}", o.brief(), e), &hist(DEFAULT_NOW, &[s])); return; }
    }
    let _ = r;
}

/// Messages of several sentences that are really completed: satellite groups of every size and two-part
/// messages of every length, well formed and with damaged tails.
fn c01_complete(m: &mut Mon, label: &str, rounds: u64) {
    m.parallel(label, 255 * rounds, |r, m, i| {
        let mut p = NmeaParser::new();
        let mut h: Hist = vec![];
        let size = 1 + (i % 255) as usize;
        let t = nav_talker(r);
        let mut parts = gns::gsv(r, &t, size).parts;
        match r.below(4) { 0 => parts.reverse(), 1 => r.shuffle(&mut parts), _ => {} }
        if r.coin() {
            for x in parts.iter_mut() {
                if r.chance(1, 3) {
                    let b = x.split('*').next().unwrap_or("");
                    let mut f: Vec<String> = b.split(',').map(String::from).collect();
                    let k = 3 + r.idx(f.len().max(4) - 3);
                    match r.below(3) { 0 => f.truncate(k), 1 => if k < f.len() { f[k] = r.pick(TOKENS).to_string() }, _ => for _ in 0..r.idx(40) { f.push(r.pick(TOKENS).to_string()) } }
                    *x = frame(&f.join(","));
                }
            }
        }
        if r.chance(1, 4) { let k = r.idx(parts.len()); let x = parts[k].clone(); parts.insert(k, x); }
        // a two-part message around it
        let talker = ais_talker(r);
        let len = match r.below(5) { 0 => r.idx(30), 1 => 60 + r.idx(400), 2 => r.idx(20_000), _ => 20 + r.idx(60) };
        let pl: String = if r.chance(3, 4) { let ty = *r.pick(&refdec::TYPES); let mut b = refdec::message(r, ty, "C15", &[]).armor(); while b.len() < len { b.push(*r.pick(&['w', '0', '5', 'a'])) } b } else { (0..len).map(|_| *r.pick(&['w', '0', 'W', '`', '1', '5', '\u{e9}', 'X'])).collect() };
        let v: Vec<char> = pl.chars().collect();
        let k = r.idx(v.len() + 1);
        let (a, b): (String, String) = (v[..k].iter().collect(), v[k..].iter().collect());
        let mut two = vec![vdm(&talker, "VDM", 2, 1, "7", "A", &a, 0), vdm(&talker, "VDM", 2, 2, "7", "A", &b, 2)];
        if r.coin() { two.reverse() }
        let second = two.pop().unwrap();
        parts.insert(0, two.pop().unwrap());
        parts.push(second);
        for s in &parts {
            let o = call(&mut p, s);
            h.push((DEFAULT_NOW, s.clone()));
            m.case(hash(s), true);
            m.count(if o.is_incomplete() { "parts of completed messages" } else if o.is_err() { "messages completed: error" } else { "messages completed: result" }, 1);
            if o.is_panic() { m.violation(o.brief(), &h); return; }
            if let Err(e) = exercise(&o) { m.violation(format!("panic while using {}: {}", o.brief(), e), &h); return; }
        }
        m.max("largest group completed", size as u64);
    });
}

/// Well-formed messages of every kind with boundary values, single, in two parts and in halves.
fn c01_decoded(m: &mut Mon, label: &str, rounds: u64) {
    let consts = super::ais::harvest(m);
    m.parallel(label, rounds, |r, m, i| {
        let mut p = NmeaParser::new();
        let mut h: Hist = vec![];
        rt::set_now(clock(r));
        for k in 0..24u64 {
            let v: Vec<String> = match k {
                0..=11 => {
                    let mut b = refdec::message(r, refdec::TYPES[k as usize % 11], ["C15", "C13", "C14", "C16", ""][(i + k) as usize % 5], &consts);
                    super::ais::cut_short(r, &mut b);
                    if r.chance(3, 4) { vec![wrap(r, &b).0] } else { let pl = b.armor(); let c = r.idx(pl.len() + 1); vec![frame(&vdm("AI", "VDM", 2, 1, "4", "B", &pl[..c], 0)), frame(&vdm("AI", "VDM", 2, 2, "4", "B", &pl[c..], b.fill()))] }
                }
                12..=17 => {
                    let mm = *r.pick(traffic::MMSIS);
                    let (mut a, mut b) = (refdec::half24(r, 0, mm, &consts), refdec::half24(r, 1, mm, &consts));
                    if r.chance(1, 8) { super::ais::cut_short(r, &mut a); super::ais::cut_short(r, &mut b); }
                    let mut v = vec![wrap(r, &a).0, wrap(r, &b).0];
                    if r.coin() { v.reverse(); }
                    v
                }
                18..=22 => { let mix = Mix { bad_num: r.below(3), empty: r.below(30), ..Default::default() }; vec![frame(&gns::sentence(r, gns::TYPES[k as usize - 18], rt::now(), mix).body)] }
                _ => { let (t, c) = (nav_talker(r), 1 + r.idx(4)); gns::gsv(r, &t, c).parts }
            };
            for s in v {
                let o = call(&mut p, &s);
                h.push((rt::now(), s.clone()));
                m.case(hash(&s), true);
                m.count(if o.is_incomplete() { "well-formed: incomplete" } else if o.is_err() { "well-formed: error" } else { "well-formed: result" }, 1);
                if o.is_panic() { m.violation(o.brief(), &h); return; }
                if let Err(e) = exercise(&o) { m.violation(format!("panic while using {}: {}", o.brief(), e), &h); return; }
            }
        }
    });
}

/// Counters and tables inside the parser: tens of thousands of pending messages, and of copies of one.
fn c01_many(m: &mut Mon) {
    m.parallel("c01-many", 8, |r, m, i| {
        let total = n(18_000, 300_000).max(70_000);
        let mut p = NmeaParser::new();
        let fixed = gns::gsv(r, "GP", 255).parts;
        let pl = refdec::message(r, 5, "", &[]).armor();
        let mut h: Hist = vec![];
        for j in 0..total {
            let s = match i % 8 {
                0 => vdm("AI", "VDM", 2, 1 + (j & 1) as u32, &(2 * j).to_string(), "A", &pl[..40], 0),
                1 => { let b = refdec::half24(r, j & 1, j * 7919 % (1 << 30), &[]); vdm("AI", "VDM", 1, 1, "", "A", &b.armor(), 0) }
                2 => fixed[(j % 254) as usize].clone(),
                3 => { let t = format!("{}{}", (b'A' + (j % 26) as u8) as char, (b'A' + (j / 26 % 26) as u8) as char); format!("${}GSV,{},{},04,01,40,083,46", t, 2 + j / 676 % 254, 1 + r.below(2)) }
                4 => vdm("AI", "VDM", 2, 1, "1", "A", &pl[..40], 0),
                5 => vdm("AI", "VDM", 2, (j % 256) as u32, &(j / 256).to_string(), "A", "15", 0),
                6 => { let b = refdec::half24(r, 0, 5, &[]); vdm("AI", "VDM", 1, 1, "", "A", &b.armor(), 0) }
                _ => vdm("AI", "VDM", 1, 1, "", "A", &pl, 0),
            };
            let o = call(&mut p, &s);
            if h.len() < 300 { h.push((DEFAULT_NOW, s.clone())); }
            m.count("calls in histories of tens of thousands", 1);
            if o.is_panic() { h.push((DEFAULT_NOW, s)); m.violation(format!("call {}: {}", j, o.brief()), &h); return; }
        }
        m.max("longest history", total);
        m.case(hash(&(i, &h)), true);
    });
}

// ---- C02 ----------------------------------------------------------------------------------------
fn c02_check(m: &mut Mon, s: &str) -> bool {
    let o = once(s);
    let h = hist(DEFAULT_NOW, &[s]);
    m.case(hash(s), true);
    if o.is_panic() { m.violation(o.brief(), &h); return false; }
    let (body, sum) = match s.rfind('*') { Some(i) => (&s[..i], &s[i + 1..]), None => (s, "") };
    // without a start character the checksum has no defined extent
    if !body.starts_with(|c: char| c.is_ascii()) { return true; }
    let right = format!("{:02X}", if body.is_empty() { 0 } else { xor(body) });
    if sum.is_empty() || sum == right {
        // processed: as with any other acceptable ending
        if o.kind() == Some(Kind::Corrupted) { m.violation(format!("checksum {:?} answered {}", sum, o.brief()), &h); return false; }
        let mut alt = vec![format!("{}*", body), format!("{}*{}", body, right)];
        if !body.contains('*') { alt.push(body.to_string()); }
        for a in alt {
            let b = once(&a);
            if !b.same(&o) { m.violation(format!("{:?} gives {}, {:?} gives {}", s, o.brief(), a, b.brief()), &hist(DEFAULT_NOW, &[s, &a])); return false; }
        }
        m.count(if sum.is_empty() { "no or empty checksum" } else { "matching checksums" }, 1);
    } else {
        m.count("wrong checksums", 1);
        if o.kind() != Some(Kind::Corrupted) { m.violation(format!("checksum {:?} instead of {} answered {}", sum, right, o.brief()), &h); return false; }
    }
    true
}
pub fn c02(m: &mut Mon) {
    m.rule = "sentences of all kinds with every checksum byte, near-miss spellings, and bodies corrupted by one to three characters under an unchanged checksum; expected from the XOR of bytes; distinct by sentence".into();
    let pool = |r: &mut Rng| Pool::small(r);
    let body = |r: &mut Rng, p: &Pool| -> String {
        let s = match r.below(10) { 0 => grammar(r), 1 => { let s = valid(r, p); mutate(r, &s) } 2 => noise(r), _ => valid(r, p) };
        match s.rfind('*') { Some(i) if r.chance(9, 10) => s[..i].to_string(), _ => s }
    };
    m.parallel("c02-all", n(60, 3_000), |r, m, _| {
        let p = pool(r);
        let b = body(r, &p);
        for c in 0..256u32 { if !c02_check(m, &format!("{}*{:02X}", b, c)) { return; } }
    });
    // long sentences: every byte counts
    m.parallel("c02-long", n(300, 6_000), |r, m, _| {
        let p = pool(r);
        let mut b = body(r, &p);
        let most = *r.pick(&[100usize, 300, 1_100, 5_000, 70_000]);
        let len = r.idx(most);
        let wide = r.chance(1, 4);
        let text: String = (0..len).map(|_| match r.below(20) { 0 => ',', 1 if wide => '\u{20ac}', _ => { let c = (33 + r.below(94) as u8) as char; if c == '*' { '+' } else { c } } }).collect();
        if !b.contains(',') || r.coin() { b.push(','); }
        b.push_str(&text);
        let good = xor(&b);
        let other = good ^ (1 << r.below(8));
        for s in [format!("{}*{:02X}", b, good), format!("{}*{:02X}", b, other)] { if !c02_check(m, &s) { return; } }
        // one byte altered near the end
        let mut v: Vec<char> = b.chars().collect();
        let k = v.len() - 1 - r.idx(v.len().min(50) - 1);
        v[k] = if v[k] == 'q' { 'r' } else { 'q' };
        let t: String = v.into_iter().collect();
        if !c02_check(m, &format!("{}*{:02X}", t, good)) { return; }
        m.count("long sentences", 1);
    });
    m.parallel("c02", n(30_000, 1_500_000), |r, m, _| {
        let p = pool(r);
        let b = body(r, &p);
        let x = if b.is_empty() { 0 } else { xor(&b) };
        let good = format!("{:02X}", x);
        let sum = match r.below(22) {
            0 => good.to_lowercase(),
            1 => format!("{:X}", x),
            2 => format!("{} ", good),
            3 => format!(" {}", good),
            4 => format!("0{}", good),
            5 => format!("{}0", good),
            6 => format!("+{}", good),
            7 => format!("0x{}", good),
            8 => format!("{}\r\n", good),
            9 => format!("{:02X}", x.rotate_left(4)),
            10 => format!("{:02X}", x ^ (1 << r.below(8))),
            11 => format!("{:02X}", r.below(256)),
            12 => format!("{}{}", good, good),
            13 => good.chars().rev().collect(),
            14 => (*r.pick(&["GG", "ZZ", "\u{e9}", "\u{ff14}1", "0", "-1", "  ", "\r\n", "\n", "\0"])).to_string(),
            15 => format!("{:02X}", !x),
            16 => { let mut g = good.clone().into_bytes(); let k = r.idx(2); g[k] = b"0123456789abcdefG"[r.idx(17)]; String::from_utf8(g).unwrap_or_default() }
            17 => format!("{},{}", good, r.below(10)),
            18 => String::new(),
            // the XOR with the start character, or without the last one: off-by-one readings
            19 => format!("{:02X}", x ^ b.bytes().next().unwrap_or(0)),
            20 => format!("{:02X}", x ^ b.bytes().last().unwrap_or(0)),
            _ => good.clone(),
        };
        if !c02_check(m, &format!("{}*{}", b, sum)) { return; }
        if r.coin() && !c02_check(m, &b) { return; }
        // corrupted in transit, checksum kept
        let mut v: Vec<char> = b.chars().collect();
        if v.is_empty() { return; }
        for _ in 0..1 + r.idx(3) {
            let i = r.idx(v.len());
            match r.below(6) {
                0 => v[i] = char::from_u32(v[i] as u32 ^ (1 << r.below(7))).unwrap_or('?'),
                1 => v[i] = char::from_u32(r.below(128) as u32).unwrap_or('?'),
                2 => { let j = r.idx(v.len()); v.swap(i, j) }
                3 => v[i] = *r.pick(&['\u{e9}', '\u{130}', '\u{20ac}', '\u{1f600}', '\u{80}', '\u{141}', '\u{7141}']),
                4 if v.len() > 1 => { v.remove(i); }
                _ => v.insert(i, *r.pick(&['0', 'A', ',', '*', '\u{e9}'])),
            }
        }
        let t: String = v.into_iter().collect();
        m.count("corrupted bodies", 1);
        m.sample(|| format!("{:?}", t));
        c02_check(m, &format!("{}*{}", t, good));
    });
}

// ---- C12 ----------------------------------------------------------------------------------------
fn gnss_source(m: &mut Mon, s: &str, ty: &str, talker: &str) -> bool {
    let o = once(s);
    let h = hist(DEFAULT_NOW, &[s]);
    m.case(hash(s), true);
    let p = match &o { Out::Ok(p) => p, _ => { m.violation(format!("{} sentence of talker {} answered {}", ty, talker, o.brief()), &h); return false; } };
    let (k, f) = flatten(p);
    let want = e(nav_of(talker));
    if k != gns::kind_name(ty) || get(&f, "source").map_or(true, |v| *v != want) { m.violation(format!("{} sentence of talker {} gives {}, expected source {:?}", ty, talker, o.brief(), want), &h); return false; }
    true
}
pub fn c12(m: &mut Mon) {
    m.rule = "all 676 two-letter talkers with every supported sentence type, all 17576 three-letter sentence types with both start characters, all 64 AIS message types, VDM and VDO, and text that is no sentence; \
compared with the classification tables; distinct by sentence".into();
    let bodies = [("GGA", ",101010,6000.5,N,02500.5,E,1,08,1.0,5.0,M,1.0,M,,"), ("RMC", ",101010,A,6000.5,N,02500.5,E,1.0,1.0,010121,,"), ("GSA", ",A,3,01,02,,,,,,,,,,,1.0,1.0,1.0"),
        ("GSV", ",1,1,01,01,40,083,46"), ("VTG", ",1.0,T,1.0,M,1.0,N,1.0,K,A"), ("GLL", ",6000.5,N,02500.5,E,101010,A,A")];
    m.parallel("c12-talkers", 676 * 8, |r, m, i| {
        let t = format!("{}{}", (b'A' + (i / 8 / 26) as u8) as char, (b'A' + (i / 8 % 26) as u8) as char);
        match i % 8 {
            k @ 0..=5 => {
                let (ty, b) = bodies[k as usize];
                if !gnss_source(m, &frame(&format!("${}{}{}", t, ty, b)), ty, &t) { return; }
                // a random sentence of the type
                if ty != "GSV" {
                    let g = gns::sentence(r, ty, DEFAULT_NOW, Mix { empty: 10, ..Default::default() });
                    let b = format!("${}{}", t, &g.body[3..]);
                    if !gnss_source(m, &b, ty, &t) { return; }
                } else {
                    let g = gns::gsv(r, &t, 1);
                    let o = once(&g.parts[0]);
                    let ok = match &o { Out::Ok(p) => { let (k, f) = flatten(p); k == "Gsv" && f.iter().all(|x| x.0 != "source" || x.1 == e(nav_of(&t))) } _ => false };
                    if !ok { m.violation(format!("GSV of talker {} gives {}", t, o.brief()), &hist(DEFAULT_NOW, &[&g.parts[0]])); return; }
                }
                m.count("GNSS talkers and types", 1);
            }
            k => {
                let kd = if k == 6 { "VDM" } else { "VDO" };
                let ty = *r.pick(&refdec::TYPES);
                for ty in [ty, 5] {
                    let b = refdec::message(r, ty, "", &[]);
                    let s = frame(&vdm(&t, kd, 1, 1, "", "A", &b.armor(), b.fill()));
                    ais_class(m, &b, &s, &t, k == 7);
                }
                m.count("AIS talkers and kinds", 1);
            }
        }
    });
    m.parallel("c12-messages", 64 * n(40, 2_000), |r, m, i| {
        let ty = i % 64;
        let (t, kd) = (ais_talker(r), kind(r));
        let own = kd == "VDO";
        if refdec::TYPES.contains(&ty) {
            let b = refdec::message(r, ty, "", &[]);
            let s = frame(&vdm(&t, kd, 1, 1, "", "B", &b.armor(), b.fill()));
            if !ais_class(m, &b, &s, &t, own) { return; }
            // the same in two parts
            let pl = b.armor();
            let c = r.idx(pl.len());
            let (x, y) = (frame(&vdm(&t, kd, 2, 1, "4", "B", &pl[..c], 0)), frame(&vdm(&t, kd, 2, 2, "4", "B", &pl[c..], 0)));
            let mut p = NmeaParser::new();
            call(&mut p, &x);
            let o = call(&mut p, &y);
            let (k, exps) = refdec::decode(&b, &refdec::Ctx { talker: &t, own, now: DEFAULT_NOW }).expect("supported");
            compare(m, &o, k, &exps, |x| x.props.contains(&"C12"), &hist(DEFAULT_NOW, &[&x, &y]));
            m.count("supported AIS types", 1);
        } else if ty == 24 {
            let mm = r.below(1 << 30);
            let (a, b) = (refdec::half24(r, 0, mm, &[]), refdec::half24(r, 1, mm, &[]));
            let mut v = [&a, &b].map(|x| frame(&vdm(&t, kd, 1, 1, "", "A", &x.armor(), 0)));
            if r.coin() { v.reverse(); }
            let mut p = NmeaParser::new();
            call(&mut p, &v[0]);
            let o = call(&mut p, &v[1]);
            let mut exps = refdec::decode24(&a, &b);
            exps.push(refdec::Exp { name: "own_vessel", want: crate::obs::V::B(own), props: &["C12"], legacy: None });
            m.case(hash(&v), true);
            compare(m, &o, "VesselStaticData", &exps, |x| x.props.contains(&"C12"), &hist(DEFAULT_NOW, &[&v[0], &v[1]]));
            m.count("type 24 pairs", 1);
        } else {
            let bits = [168, 72, 424][r.idx(3)];
            let mut b = Bits::random(r, bits);
            b.set(0, 6, ty);
            let s = frame(&vdm(&t, kd, 1, 1, "", "A", &b.armor(), b.fill()));
            let o = once(&s);
            m.case(hash(&s), true);
            m.count("unsupported AIS types", 1);
            if o.kind() != Some(Kind::Unsupported) { m.violation(format!("AIS type {} answered {}", ty, o.brief()), &hist(DEFAULT_NOW, &[&s])); }
        }
    });
    m.parallel("c12-types", 17_576 * 2, |r, m, i| {
        let ty: String = [i / 2 / 676, i / 2 / 26 % 26, i / 2 % 26].iter().map(|x| (b'A' + *x as u8) as char).collect();
        let dollar = i % 2 == 0;
        let sup = if dollar { ["GGA", "RMC", "GSA", "GSV", "VTG", "GLL"].contains(&ty.as_str()) } else { ty == "VDM" || ty == "VDO" };
        if sup { return; }
        let t = if r.coin() { nav_talker(r) } else { ais_talker(r) };
        let tail = bodies.iter().map(|b| b.1).chain([",1,1,,A,15M67FC000G?ufbE`FepT@3n00Sa,0", ",2,1,1,A,15M67F,0", ","]).nth(r.idx(9)).unwrap();
        let s = frame(&format!("{}{}{}{}", if dollar { '$' } else { '!' }, t, ty, tail));
        let o = once(&s);
        m.case(hash(&s), true);
        m.count("unsupported sentence types", 1);
        if o.kind() != Some(Kind::Unsupported) { m.violation(format!("sentence type {} answered {}", &s[..6], o.brief()), &hist(DEFAULT_NOW, &[&s])); }
    });
    // types that merely begin with, end with or contain a supported one, in other letters or of other lengths
    m.parallel("c12-lengths", n(30_000, 600_000), |r, m, _| {
        let dollar = r.coin();
        let base = if dollar { *r.pick(&["GGA", "RMC", "GSA", "GSV", "VTG", "GLL"]) } else { *r.pick(&["VDM", "VDO"]) };
        let t = if r.coin() { if dollar { "GP".to_string() } else { "AI".to_string() } } else if dollar { nav_talker(r) } else { ais_talker(r) };
        let mut ty: Vec<char> = base.chars().collect();
        let letter = |r: &mut Rng| match r.below(4) { 0 => (b'0' + r.below(10) as u8) as char, 1 => (b'a' + r.below(26) as u8) as char, _ => (b'A' + r.below(26) as u8) as char };
        for _ in 0..1 + r.idx(2) {
            match r.below(6) {
                0 | 1 => { let c = letter(r); ty.push(c); }
                2 => { let c = letter(r); ty.insert(0, c); }
                3 => { let k = r.idx(ty.len()); ty[k] = letter(r); }
                4 => { let k = r.idx(ty.len()); ty[k] = ty[k].to_ascii_lowercase(); }
                _ => { let w: Vec<char> = ty.clone(); ty.extend(w); }
            }
        }
        let ty: String = ty.into_iter().collect();
        if ty == base || (dollar && ["GGA", "RMC", "GSA", "GSV", "VTG", "GLL"].contains(&ty.as_str())) || (!dollar && ["VDM", "VDO"].contains(&ty.as_str())) { return; }
        let tail = if dollar { bodies.iter().find(|b| b.0 == base).unwrap().1 } else { ",1,1,,A,15M67FC000G?ufbE`FepT@3n00Sa,0" };
        let b = format!("{}{}{}{}", if dollar { '$' } else { '!' }, t, ty, tail);
        let s = if r.coin() { frame(&b) } else { b };
        let o = once(&s);
        m.case(hash(&s), true);
        m.count("variants of supported sentence types", 1);
        if o.kind() != Some(Kind::Unsupported) { m.violation(format!("sentence type {} answered {}", ty, o.brief()), &hist(DEFAULT_NOW, &[&s])); }
    });
    // talkers of other letters and digits are not the ones listed
    m.parallel("c12-odd-talkers", n(6_000, 200_000), |r, m, i| {
        let named = if i % 2 == 0 { r.pick(NAV_TALKERS).0 } else { r.pick(AIS_TALKERS).0 };
        let t: String = match r.below(3) {
            0 => named.to_lowercase(),
            1 => { let mut c: Vec<char> = named.chars().collect(); let k = r.idx(2); c[k] = match r.below(3) { 0 => c[k].to_ascii_lowercase(), 1 => (b'0' + r.below(10) as u8) as char, _ => (b'a' + r.below(26) as u8) as char }; c.into_iter().collect() }
            _ => (0..2).map(|_| *r.pick(&['a', 'g', 'p', 'i', 'b', 'G', 'A', 'P', '0', '1', '9', '-', ' ', '_'])).collect(),
        };
        if i % 2 == 0 {
            let (ty, b) = bodies[[0, 1, 2, 4, 5][r.idx(5)]];
            if !gnss_source(m, &frame(&format!("${}{}{}", t, ty, b)), ty, &t) { return; }
        } else {
            let kd = kind(r);
            let ty = *r.pick(&refdec::TYPES);
            let b = refdec::message(r, ty, "", &[]);
            if !ais_class(m, &b, &frame(&vdm(&t, kd, 1, 1, "", "A", &b.armor(), b.fill())), &t, kd == "VDO") { return; }
        }
        m.count("talkers in other letters", 1);
    });
    // a supported type behind another start character, or behind text
    m.parallel("c12-starts", n(4_000, 100_000), |r, m, _| {
        let pool = Pool::small(r);
        let s = valid(r, &pool);
        let b = s.split('*').next().unwrap_or("").to_string();
        let b = match r.below(3) {
            0 => format!("{}{}", if b.starts_with('$') { '!' } else { '$' }, &b[1..]),
            1 => format!("{}{}", *r.pick(&['G', '\\', '#', ' ', '%', '0', '\n', 'A', '/', '"', '#']), &b[1..]),
            _ => format!("{}{}", r.pick(&["x", " ", "$", "!", "\\s:a*00\\", "\u{feff}"]), b),
        };
        let o = once(&b);
        m.case(hash(&b), true);
        m.count("supported types behind another start", 1);
        if !o.is_err() || o.kind() == Some(Kind::Corrupted) && !b.contains('*') { m.violation(format!("{:?} answered {}", b, o.brief()), &hist(DEFAULT_NOW, &[&b])); }
    });
    // the six characters before the first comma, edited
    m.parallel("c12-headers", n(30_000, 800_000), |r, m, _| {
        let pool = Pool::small(r);
        let s = loop { let s = valid(r, &pool); if s.starts_with(['$', '!']) && s.find(',') == Some(6) { break s; } };
        let body = s.split('*').next().unwrap_or("").to_string();
        let mut hd: Vec<char> = body[..6].chars().collect();
        for _ in 0..1 + r.idx(4) {
            let c = match r.below(6) {
                0 => *r.pick(&[' ', '\t', '\r', '\n', '\0', '\u{a0}', '\u{3000}', '\u{feff}', '\u{e9}', '\u{ff04}', '\u{1f6a2}', '\u{7f}']),
                1 => *r.pick(&['$', '!', '#', '-', '.', '/', '\\', '_', '"']),
                2 => (b'0' + r.below(10) as u8) as char,
                3 => (b'a' + r.below(26) as u8) as char,
                _ => (b'A' + r.below(26) as u8) as char,
            };
            let k = r.idx(hd.len() + 1);
            match r.below(5) {
                0 => hd.insert(k.min(hd.len()), c),
                1 => hd.insert(0, c),
                2 if !hd.is_empty() => { hd.remove(k.min(hd.len() - 1)); }
                3 if hd.len() > 1 => { let a = r.idx(hd.len()); let b = r.idx(hd.len()); hd.swap(a, b); }
                _ if !hd.is_empty() => { let k = k.min(hd.len() - 1); hd[k] = c; }
                _ => hd.push(c),
            }
        }
        // (a talker may be two letters or one of two bytes)
        let text: String = hd.iter().collect();
        let (ty, bytes) = (text.get(3..).unwrap_or(""), text.len());
        let known = (hd.len() == 6 || bytes == 6) && match hd[0] { '$' => ["GGA", "RMC", "GSA", "GSV", "VTG", "GLL"].contains(&ty), '!' => ty == "VDM" || ty == "VDO", _ => false };
        if known { return; }
        let hd = text.as_str();
        let b = format!("{}{}", hd, &body[6..]);
        let s = if r.coin() || !hd.is_ascii() { b } else { frame(&b) };
        let o = once(&s);
        m.case(hash(&s), true);
        m.count("edited headers rejected", 1);
        if !o.is_err() || o.kind() == Some(Kind::Corrupted) && !s.contains('*') { m.violation(format!("{:?} answered {}", s, o.brief()), &hist(DEFAULT_NOW, &[&s])); }
    });
    m.parallel("c12-text", n(8_000, 300_000), |r, m, _| {
        // no field separator: not a sentence
        let pool = Pool::small(r);
        let s: String = match r.below(3) { 0 => noise(r), 1 => { let s = valid(r, &pool); s.replace(',', if r.coin() { "" } else { " " }) } _ => r.pick(HEADS).to_string() };
        let s = s.replace(',', "").replace('*', "");
        // (the extent of a checksum is only clear after an ASCII start character)
        let s = if r.coin() || !s.starts_with(|c: char| c.is_ascii()) { s } else { frame(&s) };
        if s.starts_with('*') { return; }
        let o = once(&s);
        m.case(hash(&s), !s.is_empty());
        m.count("text without a field", 1);
        if o.kind() != Some(Kind::Invalid) { m.violation(format!("text answered {}", o.brief()), &hist(DEFAULT_NOW, &[&s])); return; }
        // a field, but no start character or no room for talker and type
        let w = match r.below(3) { 0 => { let h: String = noise(r).chars().filter(|c| !"$!*,".contains(*c)).take(6).collect(); format!("{}{}", h, bodies[r.idx(6)].1) }
            1 => { let s = valid(r, &pool); let b = s.split('*').next().unwrap_or("").to_string(); b.chars().skip(1).collect() }
            _ => { let k = r.idx(6); format!("{}{}", if r.coin() { &"$GPGGA"[..k] } else { &"!AIVDM"[..k] }, bodies[r.idx(6)].1) } };
        if w.starts_with('$') && w.find(',') == Some(6) || w.starts_with('!') && w.find(',') == Some(6) { return; }
        let o = once(&w);
        m.case(hash(&w), true);
        m.count("text without a sentence type", 1);
        if !o.is_err() || o.kind() == Some(Kind::Corrupted) { m.violation(format!("text answered {}", o.brief()), &hist(DEFAULT_NOW, &[&w])); }
    });
}
fn ais_class(m: &mut Mon, b: &Bits, s: &str, talker: &str, own: bool) -> bool {
    let o = once(s);
    m.case(hash(s), true);
    m.sample(|| format!("{} -> {}", s, o.brief()));
    let (k, exps) = refdec::decode(b, &refdec::Ctx { talker, own, now: DEFAULT_NOW }).expect("supported");
    compare(m, &o, k, &exps, |x| x.props.contains(&"C12"), &hist(DEFAULT_NOW, &[s]))
}

// ---- C22 ----------------------------------------------------------------------------------------
pub fn c22(m: &mut Mon) {
    let full = cfg().thorough || cfg().scale >= 1.0;
    m.rule = if full { "every 32-bit MMSI value, in blocks that share their three leading digits (including values above nine digits); compared with the ITU assignment table; distinct counts leading digits and sampled values" } else { "sampled MMSIs" }.into();
    let t = mid_table();
    let check = |m: &mut Mon, v: &mut nmea_parser::ais::VesselStaticData, mm: u32, want: &[&str]| -> bool {
        v.mmsi = mm;
        let got = v.country();
        let ok = match got { None => want.is_empty(), Some(c) => want.contains(&c) };
        if !ok { m.violation(format!("country of MMSI {} is {:?}, ITU says {:?}", mm, got, want), &vec![]); }
        ok
    };
    let none: Vec<&str> = vec![];
    // one block per million: the table entry is the same for all of them
    m.parallel("c22", 4_295, |r, m, i| {
        let want = t.get(i as usize).unwrap_or(&none);
        let mut v = nmea_parser::ais::VesselStaticData::default();
        let lo = i as u32 * 1_000_000;
        let hi = (i * 1_000_000 + 999_999).min(u32::MAX as u64) as u32;
        let g = rt::guarded(|| {
            let mut mm = lo;
            loop {
                if !check(m, &mut v, mm, want) { return false; }
                if full { if mm >= hi { break; } mm += 1; } else { let s = 1 + r.below(2000) as u32; if mm as u64 + s as u64 > hi as u64 { break; } mm += s; }
            }
            true
        });
        m.case(i, true);
        m.count("MMSI values", (hi - lo) as u64 + 1);
        if !want.is_empty() { m.count("assigned country digits", 1); }
        if let Err(e) = g { m.violation(format!("panic for an MMSI from {}: {}", lo, e), &vec![]); }
    });
    // whatever else the vessel's data says
    m.parallel("c22-others", n(20_000, 300_000), |r, m, _| {
        let mm = match r.below(3) { 0 => r.next() as u32, _ => { let low = if r.coin() { r.below(1_000_000) } else { *r.pick(&[0u64, 1, 999_999, 999_998, 500_000]) }; ((200 + r.below(800)) * 1_000_000 + low) as u32 } };
        let odd = ["", "UNKNOWN", "FINLAND", "TEST", "@@@@@@@", "?", "0", "NONE", "PILOT"];
        let ty = *r.pick(&[5u64, 24]);
        let mut b = if ty == 5 { refdec::message(r, 5, "", &[]) } else { let part = r.below(2); refdec::half24(r, part, mm as u64 & 0x3fff_ffff, &[]) };
        if r.chance(1, 4) { let k = b.0.len(); b = Bits::random(r, k); b.set(0, 6, ty); if ty == 24 { b.set(38, 2, 0); } }
        let s = wrap(r, &b).0;
        let mut p = NmeaParser::new();
        let mut v = match call(&mut p, &s) { Out::Ok(ParsedSentence::VesselStaticData(x)) => x, _ => nmea_parser::ais::VesselStaticData::default() };
        if r.coin() { v.name = Some(r.pick(&odd).to_string()); }
        if r.coin() { v.call_sign = Some(r.pick(&odd).to_string()); }
        if r.coin() { v.destination = Some(r.pick(&odd).to_string()); }
        if r.coin() { v.own_vessel = r.coin(); }
        if r.coin() { v.imo_number = Some(if r.coin() { r.next() as u32 } else { *r.pick(&[0u32, 1, 999_999, 9_999_999, 0x3fff_ffff, u32::MAX]) }); }
        if r.coin() { v.mothership_mmsi = Some(r.next() as u32); }
        let want = t.get((mm / 1_000_000) as usize).unwrap_or(&none);
        m.case(mm as u64, true);
        m.count("countries with varied other fields", 1);
        match rt::guarded(|| check(m, &mut v, mm, want)) { Err(e) => m.violation(format!("panic for the MMSI {}: {}", mm, e), &vec![]), Ok(_) => {} }
    });
    // and as part of real results
    m.parallel("c22-messages", n(20_000, 500_000), |r, m, _| {
        let mm = match r.below(3) { 0 => r.below(1 << 30), _ => (200 + r.below(800)) * 1_000_000 + r.below(1_000_000) };
        let mut b = refdec::message(r, 5, "", &[]);
        b.set(8, 30, mm);
        let s = wrap(r, &b).0;
        let o = once(&s);
        m.case(hash(&s), true);
        m.count("countries of parsed messages", 1);
        let mm = mm & ((1 << 30) - 1);
        let want = t.get((mm / 1_000_000) as usize).unwrap_or(&none);
        match &o {
            Out::Ok(ParsedSentence::VesselStaticData(x)) => { let c = x.country(); if !c.map_or(want.is_empty(), |c| want.contains(&c)) { m.violation(format!("country of MMSI {} is {:?}, ITU says {:?}", mm, c, want), &hist(DEFAULT_NOW, &[&s])) } }
            _ => m.violation(format!("type 5 answered {}", o.brief()), &hist(DEFAULT_NOW, &[&s])),
        }
    });
    if full { m.exhaustive = Some(true); }
}

// ---- C24 ----------------------------------------------------------------------------------------
pub fn c24(m: &mut Mon) {
    m.rule = "hostile and ordinary histories of 1 to 40 calls, parsers created and dropped, results formatted, cloned and dropped, under AddressSanitizer and LeakSanitizer and (fewer) in Miri; the sanitizers decide; \
distinct by sentence; non-trivial = not empty".into();
    m.parallel("c24", n(1_200, 40_000), |r, m, _| {
        let mut corpus = vec![];
        for _ in 0..4 { let len = 1 + r.idx(40); history(r, m, len, &mut corpus); }
    });
    c01_complete(m, "c24-complete", n(1, 20));
    c01_decoded(m, "c24-decoded", n(500, 20_000));
    // panics are C01's matter
    m.viols.clear();
}
/// Each kind of sentence a few times, short: for the interpreter.
pub fn c24_small(m: &mut Mon) {
    m.rule = "every message type, short and illegal payloads, groups and hostile text, interpreted".into();
    let mut r = Rng::new(cfg().seed);
    let pool = Pool::small(&mut r);
    let mut p = NmeaParser::new();
    let run = |m: &mut Mon, p: &mut NmeaParser, s: &str| { let o = call(p, s); m.case(hash(s), true); m.count("sentences interpreted", 1); let _ = exercise(&o); };
    let rounds = n(1, 6);
    for _ in 0..rounds {
        for ty in refdec::TYPES {
            let b = refdec::message(&mut r, ty, "C15", &[]);
            let pl = b.armor();
            let k = r.idx(pl.len());
            run(m, &mut p, &frame(&vdm("AI", "VDM", 1, 1, "", "A", &pl, b.fill())));
            run(m, &mut p, &vdm("AI", "VDM", 1, 1, "", "A", &pl[..k], 0));
            run(m, &mut p, &vdm("AI", "VDO", 2, 1, "1", "B", &pl[..k], 0));
            run(m, &mut p, &vdm("AI", "VDO", 2, 2, "1", "B", &pl[k..], 0));
        }
        for _ in 0..3 { for s in [traffic::half(&mut r, &pool), traffic::half(&mut r, &pool), traffic::gsv_part(&mut r, &pool), traffic::unusable(&mut r, &pool).0, traffic::rejected(&mut r, &pool, &[]).0] { run(m, &mut p, &s); } }
        for s in gns::gsv(&mut r, "GP", 3).parts { run(m, &mut p, &s); }
        for ty in gns::TYPES {
            // position fields compile a regular expression, which an interpreter does slowly: once per round
            let g = gns::sentence(&mut r, ty, DEFAULT_NOW, Mix { empty: if ty == "GGA" { 0 } else { 100 }, ..Default::default() });
            run(m, &mut p, &frame(&g.body));
        }
        for s in ["!AIVDM,1,1,,A,,0", "!AIVDM,1,1,,A,\u{130}5M,0", "$", "!", "", "\u{e9},", "$\u{e9}GGA,", "$GPGSV,0,0", "$GPGSV,4294967295,1,,", "!AIVDM,1,1,,A,15M*\u{e9}"] { run(m, &mut p, s); }
        for _ in 0..12 { let (s, _) = hostile(&mut r, &pool, &[], &[]); if !s.contains("GGA") && !s.contains("RMC") && !s.contains("GLL") { run(m, &mut p, &s); } }
    }
    drop(p);
}
