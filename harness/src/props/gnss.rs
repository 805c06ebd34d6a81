//! Monitors of GNSS sentences.
use super::ais::{clock, hist};
use super::n;
use crate::civil;
use crate::gns::{self, Gnss, Mix};
use crate::mon::{hash, Hist, Mon};
use crate::nmea::*;
use crate::obs::{flatten, get, V};
use crate::refdec;
use crate::rng::Rng;
use crate::rt::{self, call, once, Kind, Out, DEFAULT_NOW};
use nmea_parser::NmeaParser;

fn flat_matches(m: &mut Mon, o: &Out, kind: &str, want: &[(&'static str, V)], h: &Hist) -> bool {
    let p = match o { Out::Ok(p) => p, _ => { m.violation(format!("expected {}, got {}", kind, o.brief()), h); return false; } };
    let (k, f) = flatten(p);
    if k != kind || f.len() != want.len() || f.iter().zip(want).any(|(a, b)| a.0 != b.0 || a.1 != b.1) {
        m.violation(format!("got {}, expected {} {:?}", o.brief(), kind, want), h);
        return false;
    }
    true
}

/// One GNSS sentence under the clock `now`; checks what belongs to `prop`.
pub fn check(r: &mut Rng, m: &mut Mon, g: &Gnss, now: i64, prop: &str) -> bool {
    if gns::dangling(g) { return true; }
    let s = if r.chance(7, 8) { frame(&g.body) } else { g.body.clone() };
    let (o, h) = super::session(r, m, &s, now);
    m.sample(|| format!("{} -> {}", s, o.brief()));
    if let Some((p, t)) = &g.invalid {
        if *p != prop { return true; }
        m.case(hash(&s), true);
        m.count("malformed fields rejected", 1);
        if o.kind() != Some(Kind::Invalid) { m.violation(format!("field {:?} answered {}", t, o.brief()), &h); return false; }
        return true;
    }
    m.case(hash(&s), true);
    let p = match &o { Out::Ok(p) => p, _ => { m.violation(format!("expected {}, got {}", gns::kind_name(g.ty), o.brief()), &h); return false; } };
    let (k, f) = flatten(p);
    if k != gns::kind_name(g.ty) { m.violation(format!("expected {}, got {}", gns::kind_name(g.ty), o.brief()), &h); return false; }
    for x in g.exps.iter().filter(|x| x.prop == prop || prop == "C20" && x.prop == "C25") {
        match get(&f, x.name) {
            Some(v) if *v == x.want => m.count(if *v == V::None { "absent values" } else { "values compared" }, 1),
            v => { m.violation(format!("{} is {:?}, the sentence says {:?}", x.name, v, x.want), &h); return false; }
        }
    }
    m.count(&format!("{} sentences", g.ty), 1);
    true
}

// ---- C08 ----------------------------------------------------------------------------------------
pub fn c08(m: &mut Mon) {
    m.rule = "GSV groups of all sizes with random satellites and empty fields in random order, on parsers with other groups pending; the delivered list is compared with the transmitted one; \
distinct by group and order".into();
    m.parallel("c08", n(30_000, 1_500_000), |r, m, i| {
        let talker = nav_talker(r);
        let size = if i % 400 == 0 { 1 + r.idx(255) } else if i % 20 == 0 { 1 + r.idx(30) } else { 1 + r.idx(9) };
        let g = gns::gsv(r, &talker, size);
        let mut p = NmeaParser::new();
        let mut h: Hist = vec![];
        // another group pending
        if r.chance(1, 3) {
            let k = 2 + r.idx(8);
            let o = gns::gsv(r, &talker, if k == size { k + 1 } else { k });
            let s = r.pick(&o.parts).clone();
            call(&mut p, &s);
            h.push((DEFAULT_NOW, s));
        }
        let mut order: Vec<usize> = (0..size).collect();
        match r.below(4) { 0 => {} 1 => order.reverse(), 2 => { let k = r.idx(size); order.rotate_left(k) } _ => r.shuffle(&mut order) }
        let busy = r.chance(1, 3);
        let mut pool = crate::traffic::Pool::small(r);
        pool.gsv = vec![(talker.clone(), if size == 7 { 8 } else { 7 }), (if talker == "GP" { "GL".into() } else { "GP".into() }, size)];
        rt::set_now(clock(r));
        for rounds in 0..1 + r.idx(3) {
            let g = if rounds == 0 { gns::GsvGroup { talker: g.talker.clone(), parts: g.parts.clone(), sats: g.sats.clone() } } else { gns::gsv(r, &talker, size) };
            for (j, &k) in order.iter().enumerate() {
                if busy {
                    // repeats, other traffic, and sentences outside this group
                    let s = match r.below(5) {
                        0 if j > 0 => { let s = g.parts[order[r.idx(j)]].clone(); m.count("repeated sentences", 1); s }
                        1 => crate::traffic::any(r, &pool, &[]),
                        2 => { let k = *r.pick(&[0, size + 1, size + 2, 256, 65_536]); let x = gns::gsv(r, &talker, 1); let t = x.parts[0].split('*').next().unwrap_or("").splitn(4, ',').nth(3).unwrap_or("").to_string(); if k > size || k == 0 { frame(&format!("${}GSV,{},{},{}", talker, size, k, t)) } else { String::new() } }
                        3 => { let b = g.parts[k].split('*').next().unwrap_or("").to_string(); format!("{}*{:02X}", b, xor(&b) ^ (1 + r.below(255) as u8)) }
                        _ => String::new(),
                    };
                    if !s.is_empty() {
                        rt::pass(r);
                        let o = call(&mut p, &s);
                        h.push((rt::now(), s));
                        if o.is_panic() { m.violation(o.brief(), &h); return; }
                        m.count("sentences in between", 1);
                    }
                }
                rt::pass(r);
                let o = call(&mut p, &g.parts[k]);
                h.push((rt::now(), g.parts[k].clone()));
                if j + 1 < size {
                    if !o.is_incomplete() { m.violation(format!("sentence {} of {} answered {}", j + 1, size, o.brief()), &h); return; }
                } else if !flat_matches(m, &o, "Gsv", &gns::gsv_expect(&g.talker, &g.sats), &h) { return; }
            }
            m.count("groups delivered", 1);
            m.count("satellites compared", g.sats.len() as u64);
            m.max("largest group", size as u64);
        }
        m.case(hash(&(&g.parts, &order)), true);
        m.sample(|| h.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" | "));
        // numbers outside the group, and missing ones
        let tail = ",04,01,40,083,46,02,17,308,41,12,07,344,39,14,22,228,45";
        let c = 1 + r.below(9);
        let (a, b) = match r.below(9) {
            0 => (c.to_string(), "0".to_string()),
            1 => (c.to_string(), (c + 1).to_string()),
            2 => (c.to_string(), (c + 1 + r.below(200)).to_string()),
            3 => (c.to_string(), r.pick(&[256, 257, 65536 + c, 65537, 4_294_967_296, 4_294_967_297, u64::MAX]).to_string()),
            4 => ("".into(), "1".into()),
            5 => (c.to_string(), "".into()),
            6 => ("0".into(), r.below(2).to_string()),
            7 => ((*r.pick(&["x", "-1", "1.0", " 1", "99999999999"])).into(), "1".into()),
            _ => (c.to_string(), (*r.pick(&["x", "-1", "1.0", " 1", "1 "])).into()),
        };
        let s = match r.below(12) { 0 => frame(&format!("${}GSV,{}", talker, a)), _ => frame(&format!("${}GSV,{},{}{}", talker, a, b, tail)) };
        let o = call(&mut p, &s);
        h.push((DEFAULT_NOW, s));
        m.count("sentences outside a group rejected", 1);
        if o.kind() != Some(Kind::Invalid) { m.violation(format!("GSV sentence {:?} of {:?} answered {}", b, a, o.brief()), &h); }
    });
    // every size once, forwards and backwards
    m.parallel("c08-sizes", 255 * 2, |r, m, i| {
        let size = 1 + (i / 2) as usize;
        let g = gns::gsv(r, "GP", size);
        let mut p = NmeaParser::new();
        for j in 0..size {
            let k = if i % 2 == 0 { j } else { size - 1 - j };
            let o = call(&mut p, &g.parts[k]);
            let h = hist(DEFAULT_NOW, &[&g.parts[k]]);
            if j + 1 < size { if !o.is_incomplete() { m.violation(format!("sentence {} of {} answered {}", j + 1, size, o.brief()), &h); return; } }
            else if !flat_matches(m, &o, "Gsv", &gns::gsv_expect("GP", &g.sats), &h) { return; }
        }
        m.case(hash(&g.parts), true);
    });
}

// ---- C17 ----------------------------------------------------------------------------------------
pub fn c17(m: &mut Mon) {
    m.rule = "GGA, GLL, RMC and type 4 times, valid, malformed, impossible or missing, under a virtual clock over 140 years; compared with a civil-calendar oracle; distinct by clock and sentence".into();
    m.parallel("c17", n(60_000, 3_000_000), |r, m, i| {
        let now = clock(r);
        if i % 4 == 3 {
            let mut b = refdec::message(r, 4, "C17", &[]);
            if r.coin() {
                let t = civil::days(r.range(1, 9999), 1 + r.below(12) as i64, 1) * 86400 + r.below(31 * 86400) as i64;
                let (y, mo, d, h, mi, s) = civil::split(t);
                for (o, l, v) in [(38, 14, y), (52, 4, mo), (56, 5, d), (61, 5, h), (66, 6, mi), (72, 6, s)] { b.set(o, l, v as u64); }
            }
            let (s, talker, own) = wrap(r, &b);
            rt::set_now(now);
            let o = once(&s);
            rt::set_now(DEFAULT_NOW);
            let (kind, exps) = refdec::decode(&b, &refdec::Ctx { talker: &talker, own, now }).expect("type 4");
            m.case(hash(&s), true);
            m.count(if exps.iter().any(|x| x.name == "timestamp" && x.want == V::None) { "type 4 without a time" } else { "type 4 with a time" }, 1);
            super::ais::compare(m, &o, kind, &exps, |x| x.props.contains(&"C17"), &hist(now, &[&s]));
            return;
        }
        let ty = ["GGA", "GLL", "RMC"][i as usize % 4];
        let g = gns::sentence(r, ty, now, Mix { bad_time: 25, empty: 8, cut: 3, ..Default::default() });
        if !check(r, m, &g, now, "C17") { return; }
        // without a valid time the rest is as if the time were missing
        let none = g.exps.iter().any(|x| x.name == "timestamp" && x.want == V::None);
        m.count(if none { "without a time" } else { "with a time" }, 1);
        if none && !gns::dangling(&g) {
            let mut f: Vec<String> = g.body.split(',').map(String::from).collect();
            for k in match ty { "GGA" => vec![1], "GLL" => vec![5], _ => vec![1, 9] } { if k < f.len() { f[k].clear(); } }
            rt::set_now(now);
            let (a, b) = (once(&g.body), once(&f.join(",")));
            rt::set_now(DEFAULT_NOW);
            if !a.same(&b) { m.violation(format!("with an unusable time {}, without one {}", a.brief(), b.brief()), &hist(now, &[&g.body, &f.join(",")])); }
        }
    });
    // one or two edits of a well-formed time or date, judged by the form alone
    m.parallel("c17-edits", n(12_000, 600_000), |r, m, i| {
        let now = clock(r);
        let date = i % 4 == 3;
        let s = r.below(86_400) as i64;
        let (mut d, mut mo, mut y) = (1 + r.below(28) as i64, 1 + r.below(12) as i64, r.below(100) as i64);
        let mut t: Vec<char> = if date { format!("{:02}{:02}{:02}", d, mo, y) } else { format!("{:02}{:02}{:02}", s / 3600, s / 60 % 60, s % 60) }.chars().collect();
        if !date && r.coin() { t.push('.'); let k = 1 + r.idx(5); t.extend(gns::digits(r, k).chars()); }
        for _ in 0..if r.chance(1, 5) { 2 } else { 1 } {
            let c = match r.below(5) {
                0 => char::from_u32(r.below(128) as u32).unwrap_or('x'),
                1 => *r.pick(&['\n', '\r', '\t', '\0', ' ', '+', '-', 'e', '.', ':', '/', '_', 'Z']),
                2 => *r.pick(&['\u{660}', '\u{665}', '\u{966}', '\u{ff10}', '\u{ff19}', '\u{b2}', '\u{ff0e}', '\u{a0}', '\u{e9}']),
                _ => (b'0' + r.below(10) as u8) as char,
            };
            let k = if r.chance(1, 3) { t.len() - r.idx(3).min(t.len()) } else { r.idx(t.len() + 1) };
            match r.below(4) { 0 if k < t.len() => { t.remove(k); } 1 | 2 if k < t.len() => t[k] = c, _ => t.insert(k, c) }
        }
        let t: String = t.into_iter().collect();
        if t.is_empty() || t.contains(|c| c == ',' || c == '*') { return; }
        let six = t.len() >= 6 && t.as_bytes()[..6].iter().all(|b| b.is_ascii_digit());
        let rest = if six { &t[6..] } else { "" };
        // a point without decimals may be taken either way
        if rest == "." { return; }
        let form = six && (rest.is_empty() || !date && rest.starts_with('.') && rest.bytes().skip(1).all(|b| b.is_ascii_digit()));
        let two = |k: usize| t[k..k + 2].parse::<i64>().unwrap_or(99);
        let (yy, mm, dd, _, _, _) = civil::split(now);
        let (mut h, mut mi, mut sec) = (10, 20, 30);
        if form { if date { d = two(0); mo = two(2); y = two(4); } else { h = two(0); mi = two(2); sec = two(4); } }
        let cent = yy.div_euclid(100) * 100;
        let (body, want) = match i % 4 {
            0 => (format!("$GPGGA,{},6000.0,N,02500.0,E,1,08,1.0,5.0,M,1.0,M,,", t), civil::epoch(yy, mm, dd, h, mi, sec)),
            1 => (format!("$GPGLL,6000.0,N,02500.0,E,{},A,A", t), civil::epoch(yy, mm, dd, h, mi, sec)),
            2 => (format!("$GPRMC,{},A,6000.0,N,02500.0,E,0.0,0.0,{:02}{:02}{:02},,", t, d, mo, y), civil::epoch(cent + y, mo, d, h, mi, sec)),
            _ => (format!("$GPRMC,102030,A,6000.0,N,02500.0,E,0.0,0.0,{},,", t), civil::epoch(cent + y, mo, d, h, mi, sec)),
        };
        let want = if form { want.map_or(V::None, |x| V::T(x, 0)) } else { V::None };
        rt::set_now(now);
        let o = once(&body);
        rt::set_now(DEFAULT_NOW);
        m.case(hash(&(&body, now)), true);
        m.count(if form { "edited times and dates still well-formed" } else { "edited times and dates not well-formed" }, 1);
        let f = match &o { Out::Ok(p) => flatten(p).1, _ => vec![] };
        let pos = V::F(60.0);
        if get(&f, "timestamp") != Some(&want) || get(&f, "latitude") != Some(&pos) { m.violation(format!("{:?} gives {}, expected {:?}", t, o.brief(), want), &hist(now, &[&body])); }
    });
    // every second of a day, and every day of a century, in turn
    m.parallel("c17-seconds", 86_400 / if crate::mon::cfg().thorough { 1 } else { 8 }, |r, m, i| {
        let s = if crate::mon::cfg().thorough { i as i64 } else { (i * 8 + r.below(8)) as i64 };
        let now = clock(r);
        let t = format!("{:02}{:02}{:02}", s / 3600, s / 60 % 60, s % 60);
        let day = r.range(0, 36524);
        let (y, mo, d) = civil::civil(civil::days(2000, 1, 1) + day);
        let cent = civil::split(now).0.div_euclid(100) * 100;
        let body = format!("$GPRMC,{},A,6000.0,N,02500.0,E,0.0,0.0,{:02}{:02}{:02},,", t, d, mo, y % 100);
        let want = civil::epoch(cent + y % 100, mo, d, s / 3600, s / 60 % 60, s % 60);
        rt::set_now(now);
        let o = once(&body);
        rt::set_now(DEFAULT_NOW);
        m.case(hash(&(&body, now)), true);
        m.count("RMC days and seconds in turn", 1);
        let got = match &o { Out::Ok(p) => get(&flatten(p).1, "timestamp").cloned(), _ => None };
        if got != Some(want.map_or(V::None, |t| V::T(t, 0))) { m.violation(format!("{} instead of {:?}", o.brief(), want), &hist(now, &[&body])); }
    });
}

// ---- C19 ----------------------------------------------------------------------------------------
pub fn c19(m: &mut Mon) {
    m.rule = "positions of GGA, RMC and GLL with 1 to 20 fraction digits, all hemispheres, empty and malformed; compared with the decimal value; distinct by sentence".into();
    m.parallel("c19", n(24_000, 1_500_000), |r, m, i| {
        let ty = ["GGA", "RMC", "GLL"][i as usize % 3];
        let bad = if r.chance(1, 4) { 30 } else { 0 };
        let g = gns::sentence(r, ty, DEFAULT_NOW, Mix { bad_pos: bad, empty: 6, cut: 4, ..Default::default() });
        check(r, m, &g, DEFAULT_NOW, "C19");
    });
    // every whole degree and minute
    let step = if crate::mon::cfg().thorough { 1 } else { 7 };
    m.parallel("c19-grid", 180 * 60 / step, |r, m, i| {
        let i = i * step + r.below(step);
        let (d, mi) = (i / 60, i % 60);
        let (la, fr) = (d % 90, r.below(1000));
        let (ns, ew) = (*r.pick(&["N", "S"]), *r.pick(&["E", "W"]));
        let s = frame(&format!("$GPGLL,{:02}{:02}.{:03},{},{:03}{:02}.{:03},{},101010,A,A", la, mi, fr, ns, d, mi, fr, ew));
        let o = once(&s);
        let val = |d: u64, neg: bool| V::F((d as f64 + (mi as f64 + fr as f64 / 1000.0) / 60.0) * if neg { -1.0 } else { 1.0 });
        let f = match &o { Out::Ok(p) => flatten(p).1, _ => vec![] };
        m.case(hash(&s), true);
        m.count("degree and minute grid", 1);
        if get(&f, "latitude") != Some(&val(la, ns == "S")) || get(&f, "longitude") != Some(&val(d, ew == "W")) { m.violation(format!("position misread: {}", o.brief()), &hist(DEFAULT_NOW, &[&s])); }
    });
    for (l, lat) in [(gns::BAD_LAT, true), (gns::BAD_LON, false)] {
        m.parallel("c19-bad", (l.len() * 6) as u64, |_, m, i| {
            let t = l[i as usize / 6];
            if t.contains(',') { return; }
            let (ty, neg) = (["GGA", "RMC", "GLL"][i as usize % 3], i % 6 > 2);
            let (a, b, c, d) = if lat { (t, if neg { "S" } else { "N" }, "02500.5", "E") } else { ("6000.5", "N", t, if neg { "W" } else { "E" }) };
            let s = frame(&match ty {
                "GGA" => format!("$GPGGA,101010,{},{},{},{},1,08,1.0,5.0,M,1.0,M,,", a, b, c, d),
                "RMC" => format!("$GPRMC,101010,A,{},{},{},{},1.0,1.0,010121,,", a, b, c, d),
                _ => format!("$GPGLL,{},{},{},{},101010,A,A", a, b, c, d),
            });
            let o = once(&s);
            m.case(hash(&s), true);
            m.count("malformed fields rejected", 1);
            if o.kind() != Some(Kind::Invalid) { m.violation(format!("position text {:?} answered {}", t, o.brief()), &hist(DEFAULT_NOW, &[&s])); }
        });
    }
    // zero and other plain positions, with every status and quality a sentence can claim
    m.parallel("c19-plain", n(6_000, 60_000), |r, m, i| {
        let k = [1, 2, 3, 4, 5, 6, 8][r.idx(7)];
        let pick = |r: &mut Rng, degs: &[u64]| (*r.pick(degs), *r.pick(&[0u64, 0, 30, 59]), if r.chance(3, 4) { 0u64 } else { 10u64.pow(k) - 1 });
        let ((a, am, af), (o, om, of)) = (pick(r, &[0, 0, 1, 89, 90]), pick(r, &[0, 0, 1, 90, 179, 180]));
        let (ns, ew) = (*r.pick(&["N", "S"]), *r.pick(&["E", "W"]));
        let w = k as usize;
        let pos = format!("{:02}{:02}.{:0w$},{},{:03}{:02}.{:0w$},{}", a, am, af, ns, o, om, of, ew, w = w);
        let t = *r.pick(&["000000", "000000.00", "101010", "", "235959.99"]);
        let st = *r.pick(&["A", "V", ""]);
        let s = frame(&match i % 3 {
            0 => format!("$GPGGA,{},{},{},{},{},0.0,M,0.0,M,,{}", t, pos, r.pick(&["0", "1", "2", "3", "4", "5", "6", "7", "8", ""]), r.pick(&["00", "0", "99", ""]), r.pick(&["", "0.0", "99.99"]), r.pick(&["", "0000"])),
            1 => format!("$GPRMC,{},{},{},{},{},{},,{}", t, st, pos, r.pick(&["", "0.0", "000.0"]), r.pick(&["", "0.0", "360.0"]), r.pick(&["010100", "", "000000", "311299"]), r.pick(&["", "N", "A", "E,N"])),
            _ => format!("$GPGLL,{},{},{},{}", pos, t, st, r.pick(&["A", "N", "D", "E", "S", ""])),
        });
        let out = once(&s);
        let f = match &out { Out::Ok(p) => flatten(p).1, _ => vec![] };
        let val = |d: u64, mi: u64, fr: u64, neg: bool| V::F((d as f64 + (mi as f64 + fr as f64 / 10f64.powi(k as i32)) / 60.0) * if neg { -1.0 } else { 1.0 });
        m.case(hash(&s), true);
        m.count("plain positions under every status", 1);
        if get(&f, "latitude") != Some(&val(a, am, af, ns == "S")) || get(&f, "longitude") != Some(&val(o, om, of, ew == "W")) { m.violation(format!("position misread: {}", out.brief()), &hist(DEFAULT_NOW, &[&s])) }
    });
    // any single edit of a well-formed field, judged by the form alone
    m.parallel("c19-edits", n(14_000, 900_000), |r, m, i| {
        let lat = r.coin();
        let deg = if lat { 2 } else { 3 };
        let most = *r.pick(&[3, 6, 6, 6, 6, 6, 6, 60, 300, 1200]);
        let digits = 1 + r.idx(most);
        let mut t: Vec<char> = (0..deg + 2).map(|_| (b'0' + r.below(10) as u8) as char).collect();
        t.push('.');
        for _ in 0..digits { t.push((b'0' + r.below(10) as u8) as char); }
        for _ in 0..if r.chance(1, 5) { 2 } else { 1 } {
            let c = match r.below(6) {
                0 => char::from_u32(r.below(128) as u32).unwrap_or('x'),
                1 => *r.pick(&['\n', '\r', '\t', '\0', '\u{b}', ' ', '+', '-', 'e', 'E', '.', ':', '\'', '/', '_']),
                2 => *r.pick(&['\u{660}', '\u{665}', '\u{6f3}', '\u{966}', '\u{ff10}', '\u{ff19}', '\u{1d7ce}', '\u{b2}', '\u{2460}', '\u{ff0e}', '\u{66b}', '\u{a0}', '\u{2028}', '\u{feff}']),
                3 => char::from_u32(0x80 + r.below(0x2000) as u32).unwrap_or('é'),
                _ => (b'0' + r.below(10) as u8) as char,
            };
            let k = if r.chance(1, 3) { t.len() - r.idx(3).min(t.len()) } else { r.idx(t.len() + 1) };
            match r.below(4) {
                0 if k < t.len() => { t.remove(k); }
                1 if k < t.len() => t[k] = c,
                2 => { let line: Vec<char> = vec![*r.pick(&['\n', '\r'])]; if r.coin() { let mut x: Vec<char> = "zz".chars().collect(); x.extend(line); x.extend(t); t = x; } else { t.extend(line); if r.coin() { t.push(c) } } }
                _ => t.insert(k, c),
            }
        }
        if t.iter().any(|c| *c == ',' || *c == '*') || t.is_empty() { return; }
        let text: String = t.iter().collect();
        let digit = |c: &char| c.is_ascii_digit();
        let form = t.len() >= deg + 4 && t[..deg + 2].iter().all(digit) && t[deg + 2] == '.' && t[deg + 3..].iter().all(digit);
        // without decimals the form is open
        if t.iter().all(digit) || (t.last() == Some(&'.') && t[..t.len() - 1].iter().all(digit)) { return; }
        let neg = r.coin();
        let (a, b, c, d) = if lat { (&text[..], if neg { "S" } else { "N" }, "02500.5", "E") } else { ("6000.5", "N", &text[..], if neg { "W" } else { "E" }) };
        let s = match i % 3 {
            0 => format!("$GPGGA,101010,{},{},{},{},1,08,1.0,5.0,M,1.0,M,,", a, b, c, d),
            1 => format!("$GPRMC,101010,A,{},{},{},{},1.0,1.0,010121,,", a, b, c, d),
            _ => format!("$GPGLL,{},{},{},{},101010,A,A", a, b, c, d),
        };
        let o = once(&s);
        m.case(hash(&s), true);
        if !form {
            m.count("edited fields without the form", 1);
            if o.kind() != Some(Kind::Invalid) { m.violation(format!("position text {:?} answered {}", text, o.brief()), &hist(DEFAULT_NOW, &[&s])); }
            return;
        }
        m.count("edited fields with the form", 1);
        let want = (text[..deg].parse::<f64>().unwrap() + text[deg..].parse::<f64>().unwrap() / 60.0) * if neg { -1.0 } else { 1.0 };
        let f = match &o { Out::Ok(p) => flatten(p).1, _ => vec![] };
        let name = if lat { "latitude" } else { "longitude" };
        if get(&f, name) != Some(&V::F(want)) { m.violation(format!("{} text {:?} answered {}", name, text, o.brief()), &hist(DEFAULT_NOW, &[&s])); }
    });
}

// ---- C20 ----------------------------------------------------------------------------------------
pub fn c20(m: &mut Mon) {
    m.rule = "all other fields of GGA, RMC, GSA, VTG and GLL: random values, empty, malformed, and sentences cut short; compared with the transmitted values; distinct by sentence".into();
    m.parallel("c20", n(45_000, 2_500_000), |r, m, i| {
        let ty = gns::TYPES[i as usize % 5];
        let mix = match r.below(4) { 0 => Mix { bad_num: 12, empty: 5, ..Default::default() }, 1 => Mix { empty: 40, cut: 50, ..Default::default() }, 2 => Mix { cut: 60, ..Default::default() }, _ => Mix { empty: 10, ..Default::default() } };
        let g = gns::sentence(r, ty, DEFAULT_NOW, mix);
        check(r, m, &g, DEFAULT_NOW, "C20");
    });
}

// ---- C21 ----------------------------------------------------------------------------------------
fn finite(m: &mut Mon, o: &Out, h: &Hist) -> bool {
    if let Out::Ok(p) = o {
        for (name, v) in flatten(p).1 {
            if let V::F(x) = v {
                m.count("floating-point values seen", 1);
                if !x.is_finite() { m.violation(format!("{} is {}", name, x), h); return false; }
            }
        }
    }
    if o.is_panic() { m.violation(o.brief(), h); return false; }
    true
}
pub fn c21(m: &mut Mon) {
    m.rule = "numeric fields holding words, huge exponents, hundreds of digits and ordinary numbers, and AIS messages with extreme raw values; every floating-point value of every result is tested; \
distinct by sentence".into();
    m.parallel("c21", n(40_000, 2_000_000), |r, m, i| {
        if i % 4 == 3 {
            let ty = *r.pick(&refdec::TYPES);
            let foc = *r.pick(&["C13", "C14"]);
            let b = refdec::message(r, ty, foc, &[]);
            let s = wrap(r, &b).0;
            let o = once(&s);
            m.case(hash(&s), true);
            finite(m, &o, &hist(DEFAULT_NOW, &[&s]));
            return;
        }
        let ty = gns::TYPES[i as usize % 5];
        let g = gns::sentence(r, ty, DEFAULT_NOW, Mix { empty: 5, ..Default::default() });
        let mut f: Vec<String> = g.body.split(',').map(String::from).collect();
        for _ in 0..1 + r.idx(3) {
            let k = 1 + r.idx(f.len() - 1);
            f[k] = match r.below(24) {
                0 => "nan".into(), 1 => "NaN".into(), 2 => "inf".into(), 3 => "-inf".into(), 4 => "Infinity".into(), 5 => "+INF".into(), 6 => "-NaN".into(),
                7 => format!("1e{}", 300 + r.below(1000)), 8 => format!("-{}e{}", r.below(100), 300 + r.below(20)), 9 => "9".repeat(300 + r.idx(400)),
                10 => format!("-{}.5", "9".repeat(305 + r.idx(10))), 11 => format!("1e-{}", 300 + r.below(1000)), 12 => format!("0.{}e400", "0".repeat(r.idx(200))),
                13 => format!("{}.{}", r.pick(&["9999", "99999", "0000", "18000"]), "9".repeat(1 + r.idx(400))), 20 => format!("99999.{}", "9".repeat(1 + r.idx(400))), 14 => "1.7976931348623159e308".into(),
                // finite, but not after any scaling, and values to divide by
                15 => format!("{}1.{}e308", if r.coin() { "-" } else { "" }, r.below(8)),
                16 => format!("{}{}e{}", if r.coin() { "-" } else { "" }, 1 + r.below(9), 290 + r.below(18)),
                17 => format!("{}{}", r.below(2), "0".repeat(300 + r.idx(8))),
                18 => format!("{}0.0", if r.coin() { "-" } else { "" }),
                19 => format!("{}e-{}", 1 + r.below(9), 290 + r.below(40)),
                _ => String::new(),
            };
        }
        // values at odds with each other: one field enormous, some of the others empty or zero
        if r.chance(1, 3) { for x in f.iter_mut().skip(1) { if r.chance(1, 3) && x.bytes().any(|c| c.is_ascii_digit()) && x.len() < 300 && !x.contains('e') { *x = r.pick(&["", "", "0", "0.0"]).to_string(); } } }
        let s = frame(&f.join(","));
        let o = once(&s);
        m.case(hash(&s), true);
        m.count(if o.is_err() { "rejected" } else { "accepted" }, 1);
        m.sample(|| format!("{} -> {}", s, o.brief()));
        finite(m, &o, &hist(DEFAULT_NOW, &[&s]));
    });
    // every field of every type with every word
    let words = ["nan", "NaN", "NAN", "inf", "INF", "-inf", "+inf", "infinity", "Infinity", "-Infinity", "1e309", "-1e309", "1e999", "9e400", "1.7e308", "-1.7e308", "9e307", "1e-320", "0", "-0", "1e99999999999", "-nan", "+nan"];
    m.parallel("c21-words", (5 * 18 * words.len()) as u64, |r, m, i| {
        let (ty, w) = (gns::TYPES[i as usize % 5], words[i as usize / 5 % words.len()]);
        let k = 1 + i as usize / 5 / words.len();
        let g = gns::sentence(r, ty, DEFAULT_NOW, Mix::default());
        let mut f: Vec<String> = g.body.split(',').map(String::from).collect();
        if k >= f.len() { return; }
        f[k] = w.into();
        // the tail may make the sentence invalid for other reasons; keep it plain
        let s = f.join(",");
        let o = once(&s);
        m.case(hash(&s), true);
        finite(m, &o, &hist(DEFAULT_NOW, &[&s]));
    });
}
