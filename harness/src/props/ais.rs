//! Monitors of the AIS payload: every field against the reference decoder.
use super::n;
use crate::gns;
use crate::mon::{cfg, hash, Hist, Mon};
use crate::nmea::*;
use crate::obs::{e, flatten, get, Flat, V};
use crate::refdec::{self, decode, decode24, half24, layout_len, message, Ctx, Exp};
use crate::rng::Rng;
use crate::rt::{self, call, once, Kind, Out, DEFAULT_NOW};
use crate::tables::*;
use crate::traffic::{self, Pool};
use nmea_parser::{ais, gnss, NmeaParser, ParsedSentence};

pub fn hist(now: i64, v: &[&str]) -> Hist { v.iter().map(|s| (now, s.to_string())).collect() }

/// Compares the values `keep` selects; false after reporting a violation.
pub fn compare(m: &mut Mon, o: &Out, kind: &str, exps: &[Exp], keep: impl Fn(&Exp) -> bool, h: &Hist) -> bool {
    let p = match o { Out::Ok(p) => p, _ => { m.violation(format!("expected {}, got {}", kind, o.brief()), h); return false; } };
    let (k, flat): (&str, Flat) = flatten(p);
    if k != kind { m.violation(format!("expected {}, got {}", kind, o.brief()), h); return false; }
    for x in exps.iter().filter(|x| keep(x)) {
        let got = match get(&flat, x.name) { Some(g) => g, None => continue };
        if *got == x.want { m.count("field values compared", 1); continue; }
        if let Some((v, key)) = &x.legacy { if got == v && m.known(key) { continue; } }
        m.violation(format!("{} is {:?}, the message says {:?}", x.name, got, x.want), h);
        return false;
    }
    true
}

/// Constants the crate compares its own values with, seen while it decodes ordinary messages.
pub fn harvest(m: &mut Mon) -> Vec<u64> {
    let mut r = Rng::new(cfg().seed);
    rt::set_now(DEFAULT_NOW);
    rt::record_constants(true);
    for i in 0..6000u64 {
        let b = if i % 12 == 11 { half24(&mut r, i / 12 & 1, i % 5, &[]) } else { message(&mut r, refdec::TYPES[i as usize % 12], "", &[]) };
        let s = wrap(&mut r, &b).0;
        let _ = once(&s);
    }
    rt::record_constants(false);
    let v = rt::recorded_constants();
    m.count("constants harvested from comparisons", v.len() as u64);
    v
}

fn one(r: &mut Rng, m: &mut Mon, b: &Bits, now: i64) -> bool {
    let (s, talker, own) = wrap(r, b);
    let (o, h) = super::session(r, m, &s, now);
    let prop = cfg().prop.as_str();
    let (kind, exps) = match decode(b, &Ctx { talker: &talker, own, now }) { Some(x) => x, None => return true };
    m.case(hash(&s), true);
    m.count(match b.u(0, 6) { 1..=3 => "messages of types 1-3", 4 => "messages of type 4", 5 => "messages of type 5", 6 => "messages of type 6", 9 => "messages of type 9",
        10 => "messages of type 10", 18 => "messages of type 18", 21 => "messages of type 21", _ => "messages of type 27" }, 1);
    m.sample(|| format!("{} -> {}", s, o.brief()));
    compare(m, &o, kind, &exps, |x| x.props.contains(&prop), &h)
}
fn pair(r: &mut Rng, m: &mut Mon, a: &Bits, b: &Bits) -> bool {
    let (sa, sb) = (wrap(r, a).0, wrap(r, b).0);
    let mut p = NmeaParser::new();
    let (x, y) = if r.coin() { (&sa, &sb) } else { (&sb, &sa) };
    let o = call(&mut p, x);
    if !o.is_incomplete() { m.violation(format!("first half answered {}", o.brief()), &hist(DEFAULT_NOW, &[x])); return false; }
    let o = call(&mut p, y);
    m.case(hash(&(x, y)), true);
    m.count("type 24 pairs", 1);
    let prop = cfg().prop.as_str();
    compare(m, &o, "VesselStaticData", &decode24(a, b), |x| x.props.contains(&prop), &hist(DEFAULT_NOW, &[x, y]))
}

/// Now and then the payload ends early; the bits it lacks are read as zero.
pub fn cut_short(r: &mut Rng, b: &mut Bits) {
    if b.0.len() > 48 && r.chance(1, 12) { let k = 6 * (7 + r.idx(b.0.len() / 6 - 7)); b.0.truncate(k); }
}
// ---- C13-C16 ------------------------------------------------------------------------------------
pub fn fields(m: &mut Mon) {
    let prop = cfg().prop.clone();
    m.rule = format!("every field of {} in every message type that carries it is compared with a reference decoder; fields up to 12 bits take all their values on zero, one \
and random backgrounds, wider ones boundary values, single bits, random values and constants harvested from the comparisons the crate executes; distinct by sentence", prop);
    let consts = harvest(m);
    sweep(m, &prop);
    let has = |ty: u64| refdec::fields(ty).iter().any(|f| f.props.contains(&prop.as_str()));
    let types: Vec<u64> = refdec::TYPES.iter().cloned().filter(|t| has(*t)).collect();
    let p24 = ["C15", "C16", "C25"].contains(&prop.as_str());
    m.parallel("fields", n(260_000, 12_000_000), |r, m, i| {
        if p24 && i % 8 == 7 {
            let mm = if r.chance(1, 3) { *r.pick(crate::traffic::MMSIS) } else { r.below(1 << 30) };
            let (mut a, mut b) = (half24(r, 0, mm, &consts), half24(r, 1, mm, &consts));
            cut_short(r, &mut a);
            cut_short(r, &mut b);
            pair(r, m, &a, &b);
        } else {
            let ty = *r.pick(&types);
            let mut b = message(r, ty, &prop, &consts);
            // often another report of one of a few ships
            if r.coin() { let mm = 230_000_000 + i / 64 % 97 * 1000 + r.below(3); b.set(8, 30, mm); }
            cut_short(r, &mut b);
            one(r, m, &b, DEFAULT_NOW);
        }
    });
}
/// All values of the small fields.
fn sweep(m: &mut Mon, prop: &str) {
    let mut jobs: Vec<(u64, usize, usize)> = vec![];
    for ty in refdec::TYPES { for f in refdec::fields(ty) { if f.n <= 12 && f.props.contains(&prop) { jobs.push((ty, f.o, f.n)); } } }
    for b in [false, true] { for f in refdec::fields24(b) { if f.n <= 12 && f.props.contains(&prop) { jobs.push((100 + b as u64, f.o, f.n)); } } }
    let cases: Vec<(u64, usize, usize, u64)> = jobs.iter().flat_map(|(ty, o, nb)| (0..1u64 << nb).map(|v| (*ty, *o, *nb, v)).collect::<Vec<_>>()).collect();
    let reps = if cfg().thorough { 40 } else { 4 };
    m.parallel("sweep", cases.len() as u64, |r, m, i| {
        let (ty, o, nb, v) = cases[i as usize];
        for k in 0..reps {
            if ty >= 100 {
                let mm = r.below(1 << 30);
                let (mut a, mut b) = (half24(r, 0, mm, &[]), half24(r, 1, mm, &[]));
                if ty == 101 { b.set(o, nb, v) } else { a.set(o, nb, v) }
                if !pair(r, m, &a, &b) { return; }
            } else {
                let mut b = match k { 0 => Bits::zeros(layout_len(ty)), 1 => Bits(vec![1; layout_len(ty)]), _ => Bits::random(r, layout_len(ty)) };
                b.set(0, 6, ty);
                b.set(o, nb, v);
                if !one(r, m, &b, DEFAULT_NOW) { return; }
            }
        }
        m.count("small-field values swept", 1);
    });
}

// ---- C09 ----------------------------------------------------------------------------------------
pub fn c09(m: &mut Mon) {
    m.rule = "type 24 halves of few and many MMSIs in both orders with repeats, losses and part numbers 2 and 3 mixed in; deliveries compared with a per-MMSI model and the reference decoder; \
non-trivial = at least one delivery".into();
    let consts = harvest(m);
    m.parallel("c09", n(30_000, 1_200_000), |r, m, i| {
        let mut p = NmeaParser::new();
        let pool = Pool::small(r);
        rt::set_now(clock(r));
        let nm = if i % 50 == 0 { 200 } else { 1 + r.idx(4) };
        let mmsis: Vec<u64> = (0..nm).map(|_| if r.chance(1, 2) { *r.pick(crate::traffic::MMSIS) } else { r.below(1 << 30) }).collect();
        let mut pend: std::collections::HashMap<u64, Bits> = Default::default();
        let mut h: Hist = vec![];
        let mut delivered = 0;
        for _ in 0..if nm > 100 { 600 } else { 2 + r.idx(10) } {
            let mm = *r.pick(&mmsis);
            let part = if r.chance(1, 12) { 2 + r.below(2) } else { r.below(2) };
            // the same half again, word for word, or a new one
            let b = match pend.get(&mm) { Some(x) if r.chance(1, 3) && part == x.u(38, 2) => x.clone(), _ => { let mut b = half24(r, part, mm, &consts); cut_short(r, &mut b); b } };
            rt::pass(r);
            if r.chance(1, 5) {
                // other traffic of all sorts, some of it about the same ships
                let s = match r.below(4) {
                    0 => { let ty = *r.pick(&refdec::TYPES); let mut x = message(r, ty, "", &[]); x.set(8, 30, mm); wrap(r, &x).0 }
                    1 => traffic::gsv_part(r, &pool),
                    2 => { let ty = *r.pick(&refdec::TYPES); let x = message(r, ty, "", &[]).armor(); frame(&vdm("AI", "VDM", 2, 1 + r.below(2) as u32, "8", "A", &x[..x.len() / 2], 0)) }
                    _ => traffic::self_contained(r, &pool),
                };
                let o = call(&mut p, &s);
                h.push((rt::now(), s));
                if o.is_panic() { m.violation(o.brief(), &h); return; }
                m.count("unrelated sentences in between", 1);
            }
            let mut s = wrap(r, &b).0;
            if r.chance(1, 8) {
                // the half itself in two sentences
                let pl = b.armor();
                let c = r.idx(pl.len());
                let mut v = [frame(&vdm("AI", "VDM", 2, 1, "7", "B", &pl[..c], 0)), frame(&vdm("AI", "VDM", 2, 2, "7", "B", &pl[c..], b.fill()))];
                if r.coin() { v.reverse(); }
                let o = call(&mut p, &v[0]);
                h.push((rt::now(), v[0].clone()));
                if !o.is_incomplete() { m.violation(format!("first part of a half answered {}", o.brief()), &h); return; }
                s = v[1].clone();
                m.count("halves in two sentences", 1);
            }
            let o = call(&mut p, &s);
            h.push((rt::now(), s));
            if part >= 2 {
                if o.kind() != Some(Kind::Invalid) { m.violation(format!("part number {} answered {}", part, o.brief()), &h); return; }
                m.count("part numbers 2 and 3 rejected", 1);
                continue;
            }
            match pend.remove(&mm) {
                Some(x) if x.u(38, 2) != part => {
                    let (a, bb) = if part == 0 { (&b, &x) } else { (&x, &b) };
                    let mut exps = decode24(a, bb);
                    for x in exps.iter_mut() { if x.name == "mmsi" || x.name == "ais_type" { x.props = &["C09"]; } }
                    if !compare(m, &o, "VesselStaticData", &exps, |x| x.props.contains(&"C09"), &h) { return; }
                    m.count(if part == 0 { "delivered by part A" } else { "delivered by part B" }, 1);
                    delivered += 1;
                }
                old => {
                    if !o.is_incomplete() { m.violation(format!("lone half answered {}", o.brief()), &h); return; }
                    m.count(if old.is_some() { "repeated half incomplete" } else { "first half incomplete" }, 1);
                    pend.insert(mm, b);
                }
            }
        }
        m.case(hash(&h), delivered > 0);
        m.sample(|| h.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" | "));
    });
}

// ---- C11 ----------------------------------------------------------------------------------------
/// Outcome of a payload as one sentence; a type 24 half is followed by the matching other half.
fn outcome(pl: &str, other: &Option<String>) -> (Out, Option<Out>, Vec<String>) {
    // the payload alone says what is in it, whatever number stands behind it
    let s = vdm("AI", "VDM", 1, 1, "", "A", pl, pl.len() % 6);
    let s = frame(match pl.len() % 11 { 0 => s[..s.len() - 1].to_string(), 1 => s[..s.len() - 2].to_string(), _ => s }.as_str());
    let mut p = NmeaParser::new();
    let a = call(&mut p, &s);
    let mut v = vec![s];
    let b = other.as_ref().map(|x| { v.push(x.clone()); call(&mut p, x) });
    (a, b, v)
}
fn eq2(a: &(Out, Option<Out>, Vec<String>), b: &(Out, Option<Out>, Vec<String>)) -> bool {
    a.0.same(&b.0) && match (&a.1, &b.1) { (Some(x), Some(y)) => x.same(y), (None, None) => true, _ => false }
}
pub fn c11(m: &mut Mon) {
    m.rule = "payload strings of every length: all 64 characters in every position against the reference decoder, truncated against zero-filled, over-long against exact, \
and every illegal character in every position; distinct by payload".into();
    let consts = harvest(m);
    let gen = |r: &mut Rng, i: u64| -> (Bits, Option<String>) {
        if i % 12 == 11 {
            let (part, mm) = (r.below(2), r.below(1 << 30));
            let (b, o) = (half24(r, part, mm, &consts), half24(r, 1 - part, mm, &[]));
            let pl = o.armor();
            (b, Some(frame(&vdm("AI", "VDM", 1, 1, "", "A", &pl, 0))))
        } else { (message(r, refdec::TYPES[i as usize % 12], "C15", &consts), None) }
    };
    // every character in every position
    let mut jobs = vec![];
    for ty in refdec::TYPES { for pos in 1..layout_len(ty).div_ceil(6) { for c in 0..64u8 { jobs.push((ty, pos, c)); } } }
    m.parallel("c11-chars", jobs.len() as u64, |r, m, i| {
        let (ty, pos, c) = jobs[i as usize];
        for _ in 0..if cfg().thorough { 20 } else { 2 } {
            let mut b = message(r, ty, "", &consts);
            b.set(pos * 6, 6, c as u64);
            b.set(0, 6, ty);
            let (s, talker, own) = wrap(r, &b);
            let o = once(&s);
            let (kind, exps) = decode(&b, &Ctx { talker: &talker, own, now: DEFAULT_NOW }).expect("supported");
            let raw = |x: &Exp| x.legacy.is_none() && matches!(x.want, V::I(_) | V::S(_) | V::B(_)) && x.name != "special_manoeuvre" && x.name != "rot_direction" && x.name != "own_vessel";
            m.case(hash(&s), true);
            if !compare(m, &o, kind, &exps, raw, &hist(DEFAULT_NOW, &[&s])) { return; }
        }
        m.count("character positions checked", 1);
    });
    m.parallel("c11-length", n(40_000, 1_500_000), |r, m, i| {
        let (b, other) = gen(r, i);
        let pl = b.armor();
        let full = outcome(&pl, &other);
        let bad = |m: &mut Mon, what: &str, a: &(Out, Option<Out>, Vec<String>), b: &(Out, Option<Out>, Vec<String>)| {
            let h: Vec<&str> = a.2.iter().map(|s| s.as_str()).collect();
            m.violation(format!("{}: {} {} instead of {} {}", what, a.0.brief(), a.1.as_ref().map_or(String::new(), |x| x.brief()), b.0.brief(), b.1.as_ref().map_or(String::new(), |x| x.brief())), &hist(DEFAULT_NOW, &h));
        };
        // truncated: missing bits read as zero
        let cuts: Vec<usize> = if i % 40 == 0 { (0..=pl.len()).collect() } else { vec![r.idx(pl.len() + 1)] };
        for k in cuts {
            let short = &pl[..k];
            let a = outcome(short, &other);
            let padded = format!("{}{}", short, "0".repeat(pl.len() + r.idx(8) - k));
            let z = outcome(&padded, &other);
            m.case(hash(short), true);
            m.count("truncated payloads", 1);
            if !eq2(&a, &z) || a.0.is_panic() { return bad(m, "truncated payload", &a, &z); }
            if k >= 7 && other.is_none() {
                // and the values themselves
                let mut zb = Bits(b.0[..(6 * k).min(b.0.len())].to_vec());
                zb.0.resize(layout_len(b.u(0, 6)), 0);
                if let Some((kind, exps)) = decode(&zb, &Ctx { talker: "AI", own: false, now: DEFAULT_NOW }) {
                    let h = hist(DEFAULT_NOW, &[&a.2[0]]);
                    if !compare(m, &a.0, kind, &exps, |x| x.legacy.is_none() && matches!(x.want, V::I(_) | V::S(_)) && x.name != "rot_direction", &h) { return; }
                }
            }
        }
        // over-long: bits after the last field change nothing
        let extra: String = (0..if i % 97 == 5 { 1 + r.idx(30_000) } else { match r.below(8) { 0 => 1, 1 => 200, 2 => 1000, _ => 1 + r.idx(60) } }).map(|_| armor_char(r.below(64) as u8)).collect();
        let mut exact = b.clone();
        let end = layout_len(b.u(0, 6)).div_ceil(6) * 6;
        exact.0.resize(end, 0);
        // fill bits of the last character belong to no field either
        let mut noisy = exact.clone();
        for j in b.0.len()..end { noisy.0[j] = r.below(2) as u8; }
        let (x, y) = (outcome(&exact.armor(), &other), outcome(&format!("{}{}", noisy.armor(), extra), &other));
        m.count("over-long payloads", 1);
        if !eq2(&x, &y) || !eq2(&x, &full) { return bad(m, "surplus bits", &y, &full); }
        // illegal characters
        let mut v: Vec<char> = if r.chance(1, 4) { format!("{}{}", pl, extra).chars().collect() } else { pl.chars().collect() };
        let c = loop {
            let c = match r.below(3) {
                0 => char::from_u32(r.below(128) as u32).unwrap_or('X'),
                1 => *r.pick(&['X', '_', '/', 'x', ' ', '[', '^', '\u{7f}', '\u{80}', '\u{b0}', '\u{e9}', '\u{130}', '\u{131}', '\u{157}', '\u{160}', '\u{177}', '\u{1031}', '\u{10030}', '\u{0}', '\n']),
                _ => char::from_u32(*r.pick(&[128u64, 256, 512, 65536]) as u32 + r.below(256) as u32).unwrap_or('\u{130}'),
            };
            let legal = ('0'..='W').contains(&c) || ('`'..='w').contains(&c);
            if !legal && c != ',' && c != '*' { break c; }
        };
        let at = r.idx(v.len() + 1);
        if r.coin() && at < v.len() { v[at] = c } else { v.insert(at, c) }
        let o = outcome(&v.into_iter().collect::<String>(), &None);
        m.count("payloads with an illegal character", 1);
        if o.0.kind() != Some(Kind::Invalid) { m.violation(format!("payload with {:?} answered {}", c, o.0.brief()), &hist(DEFAULT_NOW, &[&o.2[0]])); }
        m.sample(|| o.2[0].clone());
    });
}

// ---- C18 ----------------------------------------------------------------------------------------
/// A current time; years, months and days with something special about them come often.
pub fn clock(r: &mut Rng) -> i64 {
    let y = match r.below(3) { 0 => *r.pick(&[2000, 2020, 2021, 2023, 2024, 2025, 2028, 2095, 2096, 2099, 2100, 2103, 2104, 1999, 1972]), _ => 1971 + r.below(140) as i64 };
    let (mo, d) = match r.below(6) { 0 => (12, 31), 1 => (1, 1), 2 => (2, 28 + (crate::civil::leap(y) && r.coin()) as i64), 3 => (3, 1),
        _ => { let mo = 1 + r.below(12) as i64; (mo, if r.chance(1, 4) { crate::civil::month_len(y, mo) } else { 1 + r.below(28) as i64 }) } };
    let s = match r.below(4) { 0 => 0, 1 => 86399, 2 => r.below(1440) as i64 * 60 + *r.pick(&[0, 59]), _ => r.below(86400) as i64 };
    crate::civil::days(y, mo, d) * 86400 + s
}
pub fn c18(m: &mut Mon) {
    m.rule = "ETA components of type 5 messages under a virtual clock that visits year turns, month ends and leap days, often within a minute of the ETA; compared with a civil-calendar oracle; \
distinct by clock and components".into();
    m.parallel("c18", n(120_000, 8_000_000), |r, m, _| {
        let now = clock(r);
        let mut b = message(r, 5, "C18", &[]);
        match r.below(4) {
            0 => {
                // within a few minutes of now
                let (_, mo, d, h, mi, _) = crate::civil::split(now + 60 * r.range(-2, 2));
                for (o, l, v) in [(274, 4, mo), (278, 5, d), (283, 5, h), (288, 6, mi)] { if r.chance(9, 10) { b.set(o, l, v as u64); } }
            }
            1 => {
                // an existing day
                let (_, mo, d, h, mi, _) = crate::civil::split(now + r.range(0, 366 * 86400));
                for (o, l, v) in [(274, 4, mo), (278, 5, d), (283, 5, h), (288, 6, mi)] { b.set(o, l, v as u64); }
            }
            2 => for (o, l, v) in [(274, 4, 0), (278, 5, 0), (283, 5, 24), (288, 6, 60)] { if r.chance(2, 3) { b.set(o, l, v); } },
            _ => {}
        }
        if r.chance(2, 3) { b.set(294, 6, *r.pick(&[0, 0, 0, 59, 60, 63])); }
        let (s, talker, own) = wrap(r, &b);
        let (o, h) = super::session(r, m, &s, now);
        let (kind, exps) = decode(&b, &Ctx { talker: &talker, own, now }).expect("type 5");
        m.case(hash(&(now, b.u(274, 26))), true);
        let want = &exps.iter().find(|x| x.name == "eta").unwrap().want;
        m.count(match want { V::None => "ETA absent", V::T(t, _) if crate::civil::split(*t).0 == crate::civil::split(now).0 => "ETA this year", _ => "ETA next year" }, 1);
        m.sample(|| format!("now={} {} -> {:?}", now, s, want));
        compare(m, &o, kind, &exps, |x| x.props.contains(&"C18"), &h);
    });
    // every month, day, hour and minute value at a few fixed times
    let nows: Vec<i64> = [(2021, 6, 15, 10, 30), (2024, 2, 29, 0, 0), (2023, 12, 31, 23, 59), (2024, 1, 1, 0, 0), (2023, 2, 28, 12, 0)].iter()
        .map(|(y, a, d, h, mi)| crate::civil::epoch(*y, *a, *d, *h, *mi, 0).unwrap()).collect();
    m.parallel("c18-grid", 16 * 32 * nows.len() as u64, |r, m, i| {
        let (now, d, mo) = (nows[i as usize / 512], i % 32, i % 512 / 32);
        rt::set_now(now);
        let mut b = message(r, 5, "", &[]);
        b.set(294, 6, 0);
        let step = if cfg().thorough { 1 } else { 7 };
        for h in 0..32 { for mi in (i % step..64).step_by(step as usize) {
            for (o, l, v) in [(274, 4, mo), (278, 5, d), (283, 5, h), (288, 6, mi)] { b.set(o, l, v); }
            let s = frame(&vdm("AI", "VDM", 1, 1, "", "A", &b.armor(), 2));
            let o = once(&s);
            let (kind, exps) = decode(&b, &Ctx { talker: "AI", own: false, now }).expect("type 5");
            m.case(hash(&(now, b.u(274, 26))), true);
            if !compare(m, &o, kind, &exps, |x| x.name == "eta", &hist(now, &[&s])) { return; }
        } }
        m.count("month/day combinations on the grid", 1);
    });
}

// ---- C25 ----------------------------------------------------------------------------------------
pub fn c25(m: &mut Mon) {
    fields(m);
    m.rule = format!("{}; plus all GGA quality numbers, GSA modes and FAA letters in sentences, and every public code constructor on all arguments", m.rule);
    let v = |m: &mut Mon, what: String, got: V, want: &str| { m.case(hash(&what), true); if got != e(want) { m.violation(format!("{} is {:?}, expected {}", what, got, want), &vec![]); } };
    use crate::obs::ToV;
    for x in 0..=255u8 {
        let raw = x as u64;
        v(m, format!("ShipType::new({})", x), ais::ShipType::new(x).v(), ship_type(raw));
        v(m, format!("CargoType::new({})", x), ais::CargoType::new(x).v(), cargo_type(raw));
        v(m, format!("PositionFixType::new({})", x), ais::PositionFixType::new(x).v(), epfd(raw));
        v(m, format!("NavigationStatus::new({})", x), ais::NavigationStatus::new(x).v(), NAV_STATUS.get(x as usize).copied().unwrap_or("NotDefined"));
    }
    for x in 0..32u32 { let _ = x; }
    for a in 0..=255u8 {
        let c = (a as char).to_string();
        for t in [c.clone(), format!("{}A", c), format!("{} ", c), String::new()] {
            let want = FAA.iter().find(|x| x.0 == t).map(|x| x.1);
            let got = gnss::FaaMode::new(&t).ok().map(|x| x.v());
            m.case(hash(&("faa", &t)), true);
            if got != want.map(e) { m.violation(format!("FaaMode::new({:?}) is {:?}, expected {:?}", t, got, want), &vec![]); }
        }
    }
    m.parallel("c25-gnss", n(40_000, 2_000_000), |r, m, i| {
        let ty = ["GGA", "GSA", "VTG", "GLL"][i as usize % 4];
        let g = gns::sentence(r, ty, DEFAULT_NOW, gns::Mix { empty: 5, cut: if i % 3 == 0 { 60 } else { 0 }, ..Default::default() });
        super::gnss::check(r, m, &g, DEFAULT_NOW, "C25");
    });
    // what the codes display as
    m.parallel("c25-display", n(6_000, 200_000), |r, m, i| {
        let s = match i % 4 {
            0 => gns::sentence(r, ["GGA", "RMC", "GSA", "VTG", "GLL"][i as usize / 4 % 5], DEFAULT_NOW, Default::default()).body,
            1 => { let t = nav_talker(r); gns::gsv(r, &t, 1).parts[0].clone() }
            k => { let ty = if k == 2 { [1u64, 5, 21, 4, 18, 27, 9][i as usize / 4 % 7] } else { [5u64, 21][i as usize / 4 % 2] }; let b = message(r, ty, "C25", &[]); wrap(r, &b).0 }
        };
        let o = once(&s);
        m.case(hash(&s), true);
        if let Out::Ok(p) = &o {
            for (ty, v, t) in crate::obs::displayed(p) {
                m.count("displayed codes", 1);
                if !names(ty, &v, &t) { m.violation(format!("{}::{} displays as {:?}", ty, v, t), &hist(DEFAULT_NOW, &[&s])); return; }
            }
        }
    });
    for x in 0..=255u8 {
        for (ty, v, t) in [("ShipType", format!("{:?}", ais::ShipType::new(x)), ais::ShipType::new(x).to_string()), ("CargoType", format!("{:?}", ais::CargoType::new(x)), ais::CargoType::new(x).to_string()),
            ("PositionFixType", format!("{:?}", ais::PositionFixType::new(x)), ais::PositionFixType::new(x).to_string()), ("GgaQualityIndicator", format!("{:?}", gnss::GgaQualityIndicator::new(x)), gnss::GgaQualityIndicator::new(x).to_string())] {
            m.count("displayed codes", 1);
            if !names(ty, &v, &t) { m.violation(format!("{}::{} displays as {:?}", ty, v, t), &vec![]); return; }
        }
    }
    // all quality numbers
    for q in 0..256usize {
        let s = frame(&format!("$GPGGA,101010,6001.5,N,02500.5,E,{},08,1.0,5.0,M,1.0,M,,", q));
        let o = once(&s);
        let want = GGA_QUALITY.get(q).copied().unwrap_or("Invalid");
        m.case(hash(&s), true);
        match &o { Out::Ok(ParsedSentence::Gga(g)) if g.quality.v() == e(want) => m.count("GGA quality numbers", 1), _ => m.violation(format!("quality {} gives {}, expected {}", q, o.brief(), want), &hist(DEFAULT_NOW, &[&s])) }
    }
}
