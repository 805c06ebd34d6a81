//! Monitors over histories: differential runs of the real parser and a sequential reassembly model.
use super::n;
use crate::gns;
use crate::mon::{cfg, hash, Hist, Mon};
use crate::nmea::*;
use crate::pristine;
use crate::refdec;
use crate::rng::Rng;
use crate::rt::{self, call, once, Kind, Out, DEFAULT_NOW};
use crate::traffic::{self, Pool};
use nmea_parser::NmeaParser;
use std::collections::HashMap;

fn h(v: &[String]) -> Hist { v.iter().map(|s| (DEFAULT_NOW, s.clone())).collect() }
fn joined(v: &Hist) -> String { v.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(" | ") }
/// Time passes, and the sentence that comes next is noted.
fn note(all: &mut Hist, s: &str) { all.push((rt::now(), s.to_string())); }

// ---- C03: rejected and unusable sentences leave no trace ----------------------------------------
pub fn c03(m: &mut Mon) {
    m.rule = "random histories over few identifiers are run twice, with and without rejected or unusable sentences inserted; \
non-trivial = at least one insertion while a multi-sentence message was pending; later outcomes must be equal".into();
    m.parallel("c03", n(14_000, 500_000), |r, m, _| {
        let pool = Pool::small(r);
        let (mut p, mut q) = (NmeaParser::new(), NmeaParser::new());
        let (mut past, mut all): (Vec<String>, Hist) = (vec![], vec![]);
        rt::set_now(super::ais::clock(r));
        let mut pending = false;
        let mut hit = false;
        for _ in 0..6 + r.idx(24) {
            if r.chance(1, 2) {
                let k = if r.chance(1, 12) { 1 + r.idx(40) } else { 1 };
                for _ in 0..k {
                    let rej = r.chance(2, 3);
                    let (s, why) = if rej { traffic::rejected(r, &pool, &past) } else { traffic::unusable(r, &pool) };
                    rt::pass(r);
                    let o = call(&mut p, &s);
                    note(&mut all, &s);
                    let ok = if rej { o.is_err() } else { o.is_err() || o.is_incomplete() };
                    if !ok { m.violation(format!("{} was answered {}", why, o.brief()), &all); return; }
                    m.count(why, 1);
                    hit |= pending;
                }
            }
            let s = if !past.is_empty() && r.chance(1, 8) { r.pick(&past).clone() } else if r.chance(1, 6) { traffic::self_contained(r, &pool) } else { traffic::stateful(r, &pool) };
            let (a, b) = (call(&mut p, &s), call(&mut q, &s));
            note(&mut all, &s);
            past.push(s);
            if !a.same(&b) {
                m.violation(format!("with rejected sentences inserted the last call gave {}, without them {}", a.brief(), b.brief()), &all);
                return;
            }
            m.count(if a.is_incomplete() { "later outcome incomplete" } else if a.is_err() { "later outcome error" } else { "later outcome delivered" }, 1);
            pending |= a.is_incomplete();
        }
        m.case(hash(&all), hit);
        m.sample(|| joined(&all));
    });
    // whatever the parser itself rejects, in traffic with altered, shortened and garbled fields
    m.parallel("c03-observed", n(14_000, 500_000), |r, m, _| {
        let pool = Pool::small(r);
        let (mut p, mut q) = (NmeaParser::new(), NmeaParser::new());
        let (mut past, mut all): (Vec<String>, Hist) = (vec![], vec![]);
        let mut seen: std::collections::HashSet<(String, u64, u64)> = Default::default();
        rt::set_now(super::ais::clock(r));
        let mut left_out = 0;
        for _ in 0..8 + r.idx(30) {
            let mut s = if !past.is_empty() && r.chance(1, 6) { r.pick(&past).clone() } else if r.chance(1, 8) { traffic::self_contained(r, &pool) } else { traffic::stateful(r, &pool) };
            if r.coin() { s = traffic::altered(r, &s); }
            let a = call(&mut p, &s);
            note(&mut all, &s);
            let last = may_be_last(&s, &mut seen);
            if a.is_panic() { m.violation(a.brief(), &all); return; }
            if a.is_err() && !last { left_out += 1; continue; }
            let b = call(&mut q, &s);
            past.push(s);
            if !a.same(&b) {
                m.violation(format!("the last call gave {}; without the {} rejected sentences before it {}", a.brief(), left_out, b.brief()), &all);
                return;
            }
        }
        m.count("rejected sentences left out", left_out);
        m.case(hash(&all), left_out > 0);
    });
    deep(m, "c03-deep", &|r, pool, past, _| if r.coin() { traffic::rejected(r, pool, past).0 } else { traffic::unusable(r, pool).0 });
    // many rejected sentences at once, far beyond any plausible table size
    m.parallel("c03-flood", n(8, 64), |r, m, i| {
        let pool = Pool::small(r);
        let (mut p, mut q) = (NmeaParser::new(), NmeaParser::new());
        let pend: Vec<String> = (0..8).map(|k| match k { 0 => traffic::half(r, &pool), 1 => traffic::part(r, &pool), 2 => traffic::gsv_part(r, &pool), _ => traffic::stateful(r, &pool) }).collect();
        for s in &pend { call(&mut p, s); call(&mut q, s); }
        // every second flood is of one kind only
        let only = (i / 2) % 17;
        for j in 0..if i == 1 { 140_000u32 } else { 4_000 } {
            let mut wide = pool.clone();
            wide.ids = vec![j.to_string()];
            wide.mmsis = vec![j as u64 * 7919];
            wide.gsv = vec![(two_letters(r), 2 + r.idx(200))];
            let k = if i % 2 == 0 { only } else { r.below(17) };
            let (s, why) = if k < 12 { traffic::rejected_of(r, &wide, &pend, k) } else { traffic::unusable_of(r, &wide, k - 12) };
            let o = call(&mut p, &s);
            if !(o.is_err() || o.is_incomplete()) { m.violation(format!("{} was answered {}", why, o.brief()), &h(&[s])); return; }
        }
        let mut tail = vec![];
        for _ in 0..30 {
            let s = if r.chance(1, 3) { r.pick(&pend).clone() } else { traffic::stateful(r, &pool) };
            let (a, b) = (call(&mut p, &s), call(&mut q, &s));
            tail.push(s);
            if !a.same(&b) { m.violation(format!("after 4000 rejected sentences: {} instead of {}", a.brief(), b.brief()), &h(&[pend.clone(), tail].concat())); return; }
        }
        m.case(hash(&tail), true);
        m.count("floods of 4000 rejected sentences", 1);
    });
}

/// Carries a value to another thread whether or not its type allows that; C23 reports when it does not.
struct Carried<T>(T);
unsafe impl<T> Send for Carried<T> {}
impl<T> Carried<T> { fn take(self) -> T { self.0 } }
struct Movable<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
impl<T: Send> Movable<T> { const YES: bool = true; }
#[allow(dead_code)]
trait NotMovable { const YES: bool = false; }
impl<T> NotMovable for Movable<T> {}
/// Whether this sentence may be the last missing part of some message.
fn may_be_last(s: &str, seen: &mut std::collections::HashSet<(String, u64, u64)>) -> bool {
    let body = match s.rfind('*') { Some(i) => &s[..i], None => s };
    let f: Vec<&str> = body.split(',').collect();
    let num = |k: usize| f.get(k).and_then(|t| t.trim().parse::<u64>().ok());
    if body.starts_with('!') {
        if num(1) == Some(1) {
            // a type 24 half that can be read
            let bits = match f.get(5).and_then(|p| Bits::from_armor(p)) { Some(b) => b, None => return false };
            let (half, mmsi) = (bits.u(38, 2), bits.u(8, 30));
            if bits.u(0, 6) != 24 || half > 1 { return false; }
            seen.insert(("24".to_string(), mmsi, half));
            return seen.contains(&("24".to_string(), mmsi, 1 - half));
        }
        let k = match (num(1), num(2), num(3)) { (Some(2), Some(k), Some(_)) if k == 1 || k == 2 => k, _ => return false };
        let id = (format!("{} {}", f[0], f.get(4).unwrap_or(&"")), num(3).unwrap_or(0));
        seen.insert((id.0.clone(), id.1, k));
        return seen.contains(&(id.0, id.1, 3 - k));
    }
    let (c, k) = match (num(1), num(2)) { (Some(c), Some(k)) if body.starts_with('$') && f[0].len() >= 6 && f[0].contains("GSV") => (c, k), _ => return false };
    seen.insert((f[0].to_string(), c, k));
    c < 256 && k >= 1 && k <= c && (1..=c).all(|j| seen.contains(&(f[0].to_string(), c, j)))
}
/// Many messages pending, then inserted sentences, then the messages completed: the same as without them.
fn deep(m: &mut Mon, name: &str, insert: &(dyn Fn(&mut Rng, &Pool, &[String], u64) -> String + Sync)) {
    m.parallel(name, n(24, 400), |r, m, i| {
        let groups = [3u64, 17, 40, 70, 130, 260, 520, 1_030, 2_100, 4_200, 9_000, 70][i as usize % 12];
        let what = r.below(4);
        let (mut p, mut q) = (NmeaParser::new(), NmeaParser::new());
        let (mut first, mut last) = (vec![], vec![]);
        let (t, ch) = (ais_talker(r), *r.pick(traffic::CHANS));
        for j in 0..groups {
            let k = if what == 3 { j % 3 } else { what };
            let mut v = match k {
                0 => group(r, &Key::Ais(t.clone(), "VDM", (100 + j).to_string(), ch.into())),
                1 => { let g = format!("{}{}", (b'A' + (j % 26) as u8) as char, (b'A' + (j / 26 % 26) as u8) as char); gns::gsv(r, &g, 2 + (j / 676) as usize).parts }
                _ => group(r, &Key::S24(200_000_000 + j)),
            };
            if v.len() < 2 { continue; }
            last.push(v.pop().unwrap());
            first.append(&mut v);
        }
        rt::set_now(super::ais::clock(r));
        for s in &first { call(&mut p, s); call(&mut q, s); }
        let mut pool = Pool::small(r);
        pool.ids = vec!["100".into(), "101".into(), "7".into()];
        pool.mmsis = vec![200_000_000, 200_000_001, 123_456_789];
        pool.chans = vec![ch];
        pool.talkers = vec![t.clone()];
        let mut ins = vec![];
        for _ in 0..*r.pick(&[1usize, 5, 40, 300]) {
            let s = insert(r, &pool, &first, i);
            rt::pass(r);
            let o = call(&mut p, &s);
            ins.push(s);
            if o.is_panic() { m.violation(o.brief(), &h(&ins)); return; }
            m.count("sentences inserted while many messages were pending", 1);
        }
        r.shuffle(&mut last);
        for s in &last {
            let (a, b) = (call(&mut p, s), call(&mut q, s));
            if !a.same(&b) || a.is_panic() {
                let mut all: Hist = h(&first);
                all.extend(h(&ins));
                all.extend(h(&[s.clone()]));
                m.violation(format!("with {} messages pending and {} sentences inserted: {}; without them: {}", last.len(), ins.len(), a.brief(), b.brief()), &all);
                return;
            }
            m.count(if a.is_incomplete() { "pending traffic: incomplete" } else if a.is_err() { "pending traffic: error" } else { "pending traffic: delivered" }, 1);
        }
        m.max("messages pending at once", last.len() as u64);
        m.case(hash(&(&ins, &last)), true);
    });
}

// ---- C04: split equals unsplit ------------------------------------------------------------------
pub fn c04(m: &mut Mon) {
    m.rule = "a random payload split at every or a random character, delivered in both orders with unrelated traffic in between, on parsers with a \
random past; compared with the unsplit sentence on a parser with the same past; distinct by payload, split, order, id, channel".into();
    m.parallel("c04", n(22_000, 900_000), |r, m, i| {
        let b = match i % 12 {
            11 => { let (part, mmsi) = (r.below(2), *r.pick(traffic::MMSIS)); refdec::half24(r, part, mmsi, &[]) }
            k => refdec::message(r, refdec::TYPES[k as usize], "", &[]),
        };
        let mut pl = b.armor();
        match r.below(8) { 0 => pl.truncate(1 + r.idx(pl.len())), 1 => for _ in 0..r.idx(60) { pl.push(armor_char(r.below(64) as u8)) }, _ => {} }
        if r.chance(1, 30) { // a type the parser does not support
            let ty = *r.pick(&[7u64, 8, 19, 25]);
            let mut z = Bits::random(r, 120);
            z.set(0, 6, ty);
            pl = z.armor();
        }
        if r.chance(1, 40) { let k = if r.coin() { 900 } else { 6000 }; for _ in 0..100 + r.idx(k) { pl.push(armor_char(r.below(64) as u8)) } }
        if r.chance(1, if pl.len() > 150 { 2 } else { 40 }) { pl.insert(r.idx(pl.len()), 'X'); }
        // characters that no payload has, often at an end: an error unsplit as well as split
        if r.chance(1, 20) {
            let c = *r.pick(&[' ', ' ', '\t', '\r', '\n', '\0', '\u{a0}', '\u{e9}', '_', 'Z', '!', '$', '\\', '\'', '"']);
            let k = match r.below(4) { 0 => 0, 1 | 2 => pl.len(), _ => r.idx(pl.len() + 1) };
            for _ in 0..1 + r.idx(3) { pl.insert(k, c); }
        }
        let (t, k) = (ais_talker(r), kind(r));
        let id = if r.coin() { r.below(10).to_string() } else { r.pick(traffic::IDS).to_string() };
        let chan = *r.pick(traffic::CHANS);
        let fill = b.fill();
        let cuts: Vec<usize> = if i % 37 == 0 && pl.len() < 150 { (0..=pl.len()).collect() } else { vec![match r.below(8) { 0 => 0, 1 => pl.len(), 2 => 1, _ => r.idx(pl.len() + 1) }] };
        // a past shared by both parsers, leaving nothing under the identifiers used here
        let mut pool = Pool::small(r);
        pool.ids.retain(|x| *x != id);
        pool.ids.push("77".into());
        if b.u(0, 6) == 24 { let mm = b.u(8, 30); pool.mmsis.retain(|x| *x != mm); if pool.mmsis.is_empty() { pool.mmsis.push(123_456_789); } }
        let past: Vec<String> = (0..r.idx(6)).map(|_| traffic::any(r, &pool, &[])).collect();
        let other: Vec<String> = (0..match r.below(6) { 0 => 30, 1 => 5, 2 => 1, _ => 0 }).map(|_| traffic::any(r, &pool, &[])).collect();
        for mut cut in cuts {
            while !pl.is_char_boundary(cut) { cut -= 1; }
            // the same fill text, however odd, ends the unsplit sentence and the second part
            let tail = if r.chance(1, 6) { *r.pick(&["", ",6", ",7", ",9", ",12", ",255", ",x", ",-1", ",0,", ",0,1,2"]) } else { "," };
            let end = |s: String| if tail == "," { s } else { format!("{}{}", &s[..s.rfind(',').unwrap()], tail) };
            let whole = frame(&end(vdm(&t, k, 1, 1, "", chan, &pl, fill)));
            let p1 = frame(&vdm(&t, k, 2, 1, &id, chan, &pl[..cut], if r.chance(1, 8) { r.idx(6) } else { 0 }));
            let p2 = frame(&end(vdm(&t, k, 2, 2, &id, chan, &pl[cut..], fill)));
            let rev = r.coin();
            let (first, second) = if rev { (&p2, &p1) } else { (&p1, &p2) };
            let (mut p, mut q) = (NmeaParser::new(), NmeaParser::new());
            let mut hist: Hist = vec![];
            rt::set_now(super::ais::clock(r));
            for s in &past { call(&mut p, s); call(&mut q, s); note(&mut hist, s); }
            let a = call(&mut p, first);
            note(&mut hist, first);
            rt::pass(r);
            if !a.is_incomplete() { m.violation(format!("first part to arrive answered {}", a.brief()), &hist); return; }
            for s in &other { rt::pass(r); call(&mut p, s); call(&mut q, s); note(&mut hist, s); }
            rt::pass(r);
            let (a, w) = (call(&mut p, second), call(&mut q, &whole));
            note(&mut hist, second);
            if !a.same(&w) { m.violation(format!("completed message gave {}; unsplit sentence {} gives {}", a.brief(), whole, w.brief()), &hist); return; }
            m.case(hash(&(&pl, cut, rev, &id, chan)), true);
            m.count(if a.is_err() { "completed: error" } else if a.is_incomplete() { "completed: half of a type 24 report" } else { "completed: message" }, 1);
            m.count(if rev { "second part first" } else { "first part first" }, 1);
            m.count("unrelated sentences in between", other.len() as u64);
            m.sample(|| joined(&hist));
            // what follows must not tell the two apart either
            for s in past.iter().chain(other.iter()).take(4) {
                let (a, b) = (call(&mut p, s), call(&mut q, s));
                note(&mut hist, s);
                if !a.same(&b) { m.violation(format!("after completion {} instead of {}", a.brief(), b.brief()), &hist); return; }
            }
        }
    });
    // first part waits behind thousands of unrelated sentences and pending messages
    m.parallel("c04-deep", n(8, 60), |r, m, i| {
        let b = refdec::message(r, refdec::TYPES[i as usize % 11], "", &[]);
        let pl = b.armor();
        let cut = r.idx(pl.len());
        let (t, k, chan) = (ais_talker(r), kind(r), *r.pick(traffic::CHANS));
        let whole = frame(&vdm(&t, k, 1, 1, "", chan, &pl, b.fill()));
        let mut parts = [frame(&vdm(&t, k, 2, 1, "5", chan, &pl[..cut], 0)), frame(&vdm(&t, k, 2, 2, "5", chan, &pl[cut..], b.fill()))];
        if r.coin() { parts.reverse(); }
        let mut p = NmeaParser::new();
        let depth = match i { 5 => 70_000, 9 => 140_000, _ => 1500 + 500 * i };
        if !call(&mut p, &parts[0]).is_incomplete() { m.violation("first part not incomplete".into(), &h(&parts[..1])); return; }
        for j in 0..depth {
            let s = match r.below(4) {
                0 => frame(&vdm(&t, k, 2, 1, &(1000 + j).to_string(), chan, "15", 0)),
                1 => { let b = refdec::half24(r, j & 1, 300_000_000 + j, &[]); wrap(r, &b).0 }
                2 => { let g = gns::gsv(r, "GP", 2 + (j % 200) as usize); g.parts[0].clone() }
                _ => { let ty = *r.pick(&refdec::TYPES); let b = refdec::message(r, ty, "", &[]); wrap(r, &b).0 }
            };
            call(&mut p, &s);
        }
        let (a, w) = (call(&mut p, &parts[1]), once(&whole));
        m.case(hash(&(&pl, cut)), true);
        m.max("sentences between the two parts", depth);
        if !a.same(&w) { m.violation(format!("after {} unrelated sentences: {} instead of {}", depth, a.brief(), w.brief()), &h(&parts)); }
    });
}

// ---- C05: groups do not mix ---------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Key { Ais(String, &'static str, String, String), Gsv(String, usize), S24(u64) }

/// The parts of a new message under this key, in order.
fn parts_of(r: &mut Rng, k: &Key) -> Vec<String> {
    match k {
        Key::Ais(t, kd, id, ch) => {
            let ty = *r.pick(&refdec::TYPES);
            let b = refdec::message(r, ty, "", &[]);
            let pl = b.armor();
            let c = if r.chance(1, 8) { 0 } else { r.idx(pl.len()) };
            vec![frame(&vdm(t, kd, 2, 1, id, ch, &pl[..c], 0)), frame(&vdm(t, kd, 2, 2, id, ch, &pl[c..], b.fill()))]
        }
        Key::Gsv(t, c) => gns::gsv(r, t, *c).parts,
        Key::S24(mm) => {
            let (a, b) = (refdec::half24(r, 0, *mm, &[]), refdec::half24(r, 1, *mm, &[]));
            vec![wrap(r, &a).0, wrap(r, &b).0]
        }
    }
}
fn group(r: &mut Rng, k: &Key) -> Vec<String> {
    let mut parts = parts_of(r, k);
    r.shuffle(&mut parts);
    if r.chance(1, 5) { parts.pop(); } // a lost part: stays pending to the end
    if r.chance(1, 5) && !parts.is_empty() { let d = r.pick(&parts).clone(); let at = r.idx(parts.len() + 1); parts.insert(at, d); }
    parts
}
pub fn c05(m: &mut Mon) {
    m.rule = "2 to 40 (and, separately, thousands of) groups whose identifying fields differ in at least one component, interleaved at random, each \
compared with its outcomes on a parser of its own; non-trivial = at least two groups overlapped".into();
    m.parallel("c05", n(9_000, 350_000), |r, m, _| {
        let most = if r.chance(1, 6) { 40 } else { 6 };
        let want = 2 + r.idx(most);
        let base = {
            let ch = r.pick(traffic::CHANS).to_string();
            (ais_talker(r), kind(r), r.pick(traffic::IDS).to_string(), ch, nav_talker(r), 1 + r.idx(9), *r.pick(traffic::MMSIS))
        };
        let mut keys: Vec<Key> = vec![];
        let mut tries = 0;
        while keys.len() < want && tries < 400 {
            tries += 1;
            // vary one or two components of a common base so that keys are near misses of each other
            let k = match r.below(3) {
                0 => {
                    let (mut t, mut kd, mut id, mut ch) = (base.0.clone(), base.1, base.2.clone(), base.3.clone());
                    for _ in 0..1 + r.idx(2) {
                        match r.below(4) {
                            0 => t = if r.chance(1, 4) { let (a, b) = (t.to_lowercase(), t.to_uppercase()); r.pick(&[a.clone(), b.clone(), a[..1].to_string() + &b[1..], b[..1].to_string() + &a[1..], format!("{}1", &b[..1])]).clone() } else { ais_talker(r) },
                            1 => kd = if kd == "VDM" { "VDO" } else { "VDM" },
                            2 => id = match r.below(5) { 0 | 1 => r.pick(traffic::IDS).to_string(), 2 => r.below(20).to_string(), _ => near(r, id.parse().unwrap_or(0), u64::MAX).to_string() },
                            _ => ch = if r.chance(1, 5) { r.pick(&[format!(" {}", ch), format!("{} ", ch), ch.to_lowercase(), format!("{}\t", ch), format!("{0}{0}", ch)]).clone() } else { r.pick(traffic::CHANS).to_string() },
                        }
                    }
                    // text that would run together in a careless key
                    if r.chance(1, 6) { id = format!("{}{}", id.chars().take(6).collect::<String>(), r.below(3)); }
                    if r.chance(1, 8) { ch = format!("{}{}", r.below(3), ch); }
                    // the id is a number: 07 and 7 are the same
                    let id = id.parse::<u64>().map_or(id, |x| x.to_string());
                    Key::Ais(t, kd, id, ch)
                }
                1 => Key::Gsv(match r.below(8) { 0..=3 => base.4.clone(), 4 => base.4.to_lowercase(), _ => nav_talker(r) }, match r.below(5) { 0 => base.5, 1 => 10 + r.idx(20), _ => 1 + r.idx(9) }),
                _ => {
                    let mm = match r.below(5) { 0 => base.6, 1 => base.6 ^ (1 << r.below(30)), 2 => (base.6 + 1) & 0x3fff_ffff, 3 => near(r, base.6, (1 << 30) - 1), _ => *r.pick(traffic::MMSIS) };
                    Key::S24(mm)
                }
            };
            if !keys.contains(&k) { keys.push(k); }
        }
        overlap(r, m, &keys);
    });
    // group sizes and sentence numbers that read the same when written together: 11 and 1, 1 and 11
    m.parallel("c05-gsv-counts", 15 * n(4, 200), |r, m, i| {
        let c = 11 + i as usize % 15;
        let t = nav_talker(r);
        let mut keys = vec![Key::Gsv(t.clone(), c)];
        for d in 0..10 { if 10 * c + d < 256 { keys.push(Key::Gsv(t.clone(), 10 * c + d)); } }
        while keys.len() > 4 { let k = 1 + r.idx(keys.len() - 1); keys.swap_remove(k); }
        overlap(r, m, &keys);
    });
    m.parallel("c05-deep", n(4, 48), |r, m, i| {
        let nkeys = match i % 12 { 3 | 7 => 20_000, 10 => 140_000, 11 => 200_000, _ => 3_000 };
        let (t, ch, g) = (ais_talker(r), r.pick(traffic::CHANS).to_string(), nav_talker(r));
        let (start, step) = (*r.pick(&[0u64, 1_000, 200_000_000]), *r.pick(&[1u64, 256, 65_536, 7919]));
        let keys: Vec<Key> = (0..nkeys as u64).map(|j| match if i % 12 == 11 { 0 } else { (i + j) % 3 } {
            0 => Key::Ais(t.clone(), "VDM", (start + j * step).to_string(), ch.clone()),
            1 if j < 750 => Key::Gsv(if j % 2 == 0 { g.clone() } else { format!("{}{}", (b'A' + (j / 2 % 26) as u8) as char, (b'A' + (j / 52) as u8) as char) }, 2 + (j % 8) as usize),
            _ => Key::S24((start + j * step) % (1 << 30)),
        }).collect();
        let mut uniq = keys.clone();
        uniq.sort_by_key(|k| hash(k));
        uniq.dedup();
        overlap(r, m, &uniq);
        m.max("groups in flight at once", uniq.len() as u64);
    });
}
/// A number that a careless key takes for `x`: the same modulo a power of two or ten, or written with one digit more or less.
fn near(r: &mut Rng, x: u64, max: u64) -> u64 {
    let y = match r.below(5) {
        0 => x.wrapping_add(1 << r.below(64)),
        1 => x.wrapping_sub(1 << r.below(64)),
        2 => x.wrapping_add(10u64.pow(r.below(20) as u32)),
        3 => x.wrapping_sub(10u64.pow(r.below(20) as u32)),
        _ => match r.below(3) { 0 => x.wrapping_mul(10).wrapping_add(r.below(10)), 1 => x / 10, _ => !x },
    };
    if max == u64::MAX || y <= max { y } else { y & max }
}
fn overlap(r: &mut Rng, m: &mut Mon, keys: &[Key]) {
    let gs: Vec<Vec<String>> = keys.iter().map(|k| group(r, k)).collect();
    let mut order: Vec<usize> = gs.iter().enumerate().flat_map(|(i, g)| std::iter::repeat(i).take(g.len())).collect();
    if r.chance(2, 3) { r.shuffle(&mut order); } else {
        // all first parts, then the rest: everything pending at once
        let mut seen = vec![false; gs.len()];
        let (mut a, mut b) = (vec![], vec![]);
        for i in order { if seen[i] { b.push(i) } else { seen[i] = true; a.push(i) } }
        r.shuffle(&mut b);
        a.extend(b);
        order = a;
    }
    let mut p = NmeaParser::new();
    let mut pos = vec![0; gs.len()];
    let mut hist: Hist = vec![];
    let mut got: Vec<Vec<(i64, Out)>> = gs.iter().map(|_| vec![]).collect();
    rt::set_now(super::ais::clock(r));
    let (mut open, mut maxopen) = (0i64, 0i64);
    for i in order {
        let s = &gs[i][pos[i]];
        rt::pass(r);
        let o = call(&mut p, s);
        if hist.len() < 3000 { note(&mut hist, s); }
        if pos[i] == 0 && gs[i].len() > 1 { open += 1; }
        pos[i] += 1;
        if pos[i] == gs[i].len() && gs[i].len() > 1 { open -= 1; }
        maxopen = maxopen.max(open);
        m.count(if o.is_incomplete() { "outcome incomplete" } else if o.is_err() { "outcome error" } else { "outcome delivered" }, 1);
        got[i].push((rt::now(), o));
    }
    for (i, g) in gs.iter().enumerate() {
        let mut p = NmeaParser::new();
        for (j, s) in g.iter().enumerate() {
            let (now, o) = &got[i][j];
            rt::set_now(*now);
            let w = call(&mut p, s);
            if !o.same(&w) || o.is_panic() {
                m.violation(format!("group {:?} part {} ({}): {} among other groups, {} alone", keys[i], j, s, o.brief(), w.brief()), &hist);
                return;
            }
        }
    }
    m.max("groups overlapping", maxopen as u64);
    m.case(hash(&hist), maxopen >= 2);
    m.sample(|| joined(&hist));
}

// ---- C06: sequential reassembly model -----------------------------------------------------------
#[derive(Default)]
struct Model {
    ais: HashMap<(String, &'static str, String, String), (u32, String)>,
    gsv: HashMap<(String, usize), HashMap<usize, String>>,
    s24: HashMap<u64, (u64, String)>,
}
enum Want { Incomplete, Whole(String), GroupOf(Vec<String>), Pair(String, String) }
impl Model {
    fn half(&mut self, mm: u64, part: u64, s: String) -> Want {
        match self.s24.remove(&mm) {
            Some((p, o)) if p != part => Want::Pair(o, s),
            _ => { self.s24.insert(mm, (part, s)); Want::Incomplete }
        }
    }
}
pub fn c06(m: &mut Mon) {
    m.rule = "random part sequences (loss, repetition, reordering, reuse of identifiers) over one to three identifiers; every outcome is compared with a \
sequential reassembly model whose delivered messages are decoded by a fresh parser; non-trivial = a delivery after a repeated or replaced part".into();
    m.parallel("c06", n(16_000, 600_000), |r, m, _| {
        let pool = Pool::small(r);
        let mut md = Model::default();
        let mut p = NmeaParser::new();
        let mut hist: Hist = vec![];
        rt::set_now(super::ais::clock(r));
        // a small stock of sentences per identifier, drawn from again and again
        let nt = *r.pick(&[1usize, 1, 2]);
        let mut pool = pool;
        if r.chance(1, 8) { let k = *r.pick(&[5usize, 9, 10, 11, 12, 13, 25]); pool.gsv[0].1 = k; }
        let sel = r.below(7);
        let gsvs: Vec<(String, usize, Vec<String>)> = pool.gsv.iter().flat_map(|(t, c)| (0..nt).map(|_| (t.clone(), *c)).collect::<Vec<_>>()).map(|(t, c)| { let g = gns::gsv(r, &t, c); (t, c, g.parts) }).collect();
        let pls: Vec<(String, usize, Option<(u64, u64)>)> = (0..1 + r.idx(3)).map(|_| {
            if r.chance(1, 4) { let (pt, mm) = (r.below(2), *r.pick(&pool.mmsis)); let b = refdec::half24(r, pt, mm, &[]); (b.armor(), b.fill(), Some((mm, pt))) }
            else if r.chance(1, 5) {
                // completes, but to an error: an illegal character or an unsupported type
                let mut b = Bits::random(r, 168);
                b.set(0, 6, *r.pick(&[1u64, 8, 19, 63]));
                let mut t = b.armor();
                if b.u(0, 6) == 1 { let k = r.idx(28); t.replace_range(k..k + 1, "X"); }
                (t, 0, None)
            }
            else { let ty = *r.pick(&refdec::TYPES); let b = refdec::message(r, ty, "", &[]); (b.armor(), b.fill(), None) }
        }).collect();
        let halves: Vec<(u64, u64, String)> = pool.mmsis.iter().flat_map(|mm| (0..4).map(|i| (*mm, i & 1)).collect::<Vec<_>>()).map(|(mm, pt)| { let b = refdec::half24(r, pt, mm, &[]); (mm, pt, wrap(r, &b).0) }).collect();
        let (mut replaced, mut nontrivial) = (false, false);
        let len = if r.chance(1, 20) { 300 } else { 4 + r.idx(36) };
        for _ in 0..len {
            let what = match sel { 0 | 1 => 0, 2 | 3 => 1, 4 | 5 => 2, _ => r.below(3) };
            if r.chance(1, 10) {
                // traffic that has no part in it
                for _ in 0..1 + r.idx(3) {
                    let s = match r.below(3) { 0 => traffic::self_contained(r, &pool), 1 => traffic::unusable(r, &pool).0, _ => traffic::rejected(r, &pool, &[]).0 };
                    if s.contains("GSV,") && !s.contains('*') { continue; }
                    let o = call(&mut p, &s);
                    note(&mut hist, &s);
                    if o.is_panic() { m.violation(o.brief(), &hist); return; }
                    m.count("unrelated sentences in between", 1);
                }
            }
            let (s, want) = match what {
                0 => {
                    let (pl, fill, half) = r.pick(&pls).clone();
                    let num = 1 + r.below(2) as u32;
                    // split in the middle, so that any first part fits any second part of the same payload
                    // (payloads are ASCII), sometimes elsewhere, so that parts are empty, tiny or do not fit
                    let c = match r.below(8) { 0 => 0, 1 => pl.len(), 2 => 1, 3 => pl.len() - 1, 4 => r.idx(pl.len()), _ => pl.len() / 2 };
                    let txt = if num == 1 { &pl[..c] } else { &pl[c..] };
                    let (t, k, id, ch) = (r.pick(&pool.talkers).clone(), *r.pick(&pool.kinds), r.pick(&pool.ids).clone(), r.pick(&pool.chans).to_string());
                    let s = frame(&vdm(&t, k, 2, num, &id, &ch, txt, fill));
                    let key = (t.clone(), k, id, ch.clone());
                    let w = match md.ais.remove(&key) {
                        Some((n0, other)) if n0 != num => {
                            let full = if num == 1 { format!("{}{}", txt, other) } else { format!("{}{}", other, txt) };
                            let whole = vdm(&t, k, 1, 1, "", &ch, &full, fill);
                            let _ = half;
                            match type24(&full) { Some((mm, pt)) if pt < 2 => md.half(mm, pt, whole), _ => Want::Whole(whole) }
                        }
                        old => { replaced |= old.is_some(); md.ais.insert(key, (num, txt.to_string())); Want::Incomplete }
                    };
                    (s, w)
                }
                1 => {
                    let (t, c, parts) = r.pick(&gsvs).clone();
                    let k = r.idx(c);
                    let e = md.gsv.entry((t.clone(), c)).or_default();
                    replaced |= e.insert(k, parts[k].clone()).is_some();
                    let w = if e.len() == c { let e = md.gsv.remove(&(t, c)).unwrap(); Want::GroupOf((0..c).map(|i| e[&i].clone()).collect()) } else { Want::Incomplete };
                    (parts[k].clone(), w)
                }
                _ => {
                    let (mm, pt, s) = r.pick(&halves).clone();
                    let w = md.half(mm, pt, s.clone());
                    if matches!(w, Want::Incomplete) { replaced = true; }
                    (s, w)
                }
            };
            rt::pass(r);
            let o = call(&mut p, &s);
            note(&mut hist, &s);
            let ok = match &want {
                Want::Incomplete => o.is_incomplete(),
                Want::Whole(w) => { let x = once(w); !x.is_incomplete() && o.same(&x) }
                Want::GroupOf(l) => { let mut q = NmeaParser::new(); let mut x = None; for s in l { x = Some(call(&mut q, s)); } let x = x.unwrap(); !x.is_incomplete() && !x.is_err() && o.same(&x) }
                Want::Pair(a, b) => { let mut q = NmeaParser::new(); call(&mut q, a); let x = call(&mut q, b); !x.is_incomplete() && !x.is_err() && o.same(&x) }
            };
            if !ok || o.is_panic() {
                let w = match &want { Want::Incomplete => "incomplete".into(), Want::Whole(w) => format!("the message {}", w), Want::GroupOf(l) => format!("the group {:?}", l), Want::Pair(a, b) => format!("the pair {} {}", a, b) };
                m.violation(format!("answered {}, the model expects {}", o.brief(), w), &hist);
                return;
            }
            match want { Want::Incomplete => m.count("incomplete", 1), Want::Whole(_) => { m.count("delivered AIS", 1); nontrivial |= replaced } Want::GroupOf(_) => { m.count("delivered GSV", 1); nontrivial |= replaced } Want::Pair(..) => { m.count("delivered type 24", 1); nontrivial |= replaced } }
        }
        m.case(hash(&hist), nontrivial);
        m.sample(|| joined(&hist));
    });
    c06_repeats(m);
}
/// The same pending part again and again, past the range of any small counter, then the last part.
fn c06_repeats(m: &mut Mon) {
    let times = [254u64, 255, 256, 257, 1_000, 65_535, 65_537];
    m.parallel("c06-repeats", (times.len() * 3) as u64, |r, m, i| {
        let (k, t) = (i % 3, times[i as usize / 3]);
        let (talker, ch) = (ais_talker(r), *r.pick(traffic::CHANS));
        let parts = match k {
            0 => { let b = refdec::message(r, 5, "", &[]); let pl = b.armor(); let c = r.idx(pl.len()); vec![frame(&vdm(&talker, "VDM", 2, 1, "3", ch, &pl[..c], 0)), frame(&vdm(&talker, "VDM", 2, 2, "3", ch, &pl[c..], 2))] }
            1 => gns::gsv(r, "GP", 3).parts,
            _ => { let (a, b) = (refdec::half24(r, 0, 230_000_001, &[]), refdec::half24(r, 1, 230_000_001, &[])); vec![vdm("AI", "VDM", 1, 1, "", ch, &a.armor(), 0), vdm("AI", "VDM", 1, 1, "", ch, &b.armor(), 0)] }
        };
        let mut want = { let mut q = NmeaParser::new(); parts.iter().map(|s| call(&mut q, s)).collect::<Vec<_>>() };
        let want = want.pop().unwrap();
        let mut p = NmeaParser::new();
        let mut order: Vec<usize> = (0..parts.len()).collect();
        r.shuffle(&mut order);
        for round in 0..2 {
            for (j, x) in order.iter().enumerate() {
                let last = j + 1 == order.len();
                for c in 0..if last { 1 } else { t } {
                    let o = call(&mut p, &parts[*x]);
                    if !(if last { o.same(&want) } else { o.is_incomplete() }) {
                        m.violation(format!("copy {} of part {} in round {} answered {}", c + 1, x + 1, round, o.brief()), &h(&parts));
                        return;
                    }
                }
            }
            m.count("messages delivered after many repetitions", 1);
        }
        m.max("copies of one part", t);
        m.case(hash(&parts), true);
    });
    // many deliveries under one identity
    m.parallel("c06-often", 3, |r, m, i| {
        let mut p = NmeaParser::new();
        for j in 0..n(20_000, 300_000) {
            let parts = match i {
                0 => { let b = refdec::message(r, 18, "", &[]); let pl = b.armor(); let c = r.idx(pl.len()); vec![vdm("AI", "VDM", 2, 1, "3", "A", &pl[..c], 0), vdm("AI", "VDM", 2, 2, "3", "A", &pl[c..], 2)] }
                1 => gns::gsv(r, "GP", 2).parts,
                _ => { let (a, b) = (refdec::half24(r, 0, 230_000_001, &[]), refdec::half24(r, 1, 230_000_001, &[])); vec![wrap(r, &a).0, wrap(r, &b).0] }
            };
            let k = r.idx(2);
            let a = call(&mut p, &parts[k]);
            let b = call(&mut p, &parts[1 - k]);
            m.count("deliveries one after another under one identity", 1);
            let w = { let mut q = NmeaParser::new(); call(&mut q, &parts[k]); call(&mut q, &parts[1 - k]) };
            if !a.is_incomplete() || !b.same(&w) || b.is_incomplete() { m.violation(format!("delivery {}: {} then {}, alone {}", j, a.brief(), b.brief(), w.brief()), &h(&parts)); return; }
            m.case(hash(&parts), true);
        }
    });
}
/// MMSI and part number when the payload is a type 24 message.
fn type24(pl: &str) -> Option<(u64, u64)> {
    if pl.contains('X') { return None; }
    let mut b = Bits(vec![]);
    for c in pl.chars() { let v = c as u8 - 48; let v = if v > 40 { v - 8 } else { v }; for i in 0..6 { b.0.push(v >> (5 - i) & 1); } }
    if b.u(0, 6) == 24 { Some((b.u(8, 30), b.u(38, 2))) } else { None }
}

// ---- C07: self-contained sentences --------------------------------------------------------------
pub fn c07(m: &mut Mon) {
    m.rule = "self-contained sentences inserted at random points of random histories; each must give what a new parser gives, and the rest of the history \
must go on as without it; non-trivial = something was pending".into();
    m.parallel("c07", n(14_000, 500_000), |r, m, i| {
        let pool = Pool::small(r);
        let (mut p, mut q) = (NmeaParser::new(), NmeaParser::new());
        let (mut past, mut all): (Vec<String>, Hist) = (vec![], vec![]);
        let (mut solo, fresh): (Vec<String>, bool) = (vec![], i % 15 == 0);
        rt::set_now(super::ais::clock(r));
        let (mut pending, mut hit) = (false, false);
        for _ in 0..6 + r.idx(26) {
            for _ in 0..r.idx(3) {
                // often a near copy of an earlier one
                let s = if !solo.is_empty() && r.chance(1, 3) { let x = r.pick(&solo).clone(); if r.chance(3, 4) { traffic::twist(r, &x) } else { x } } else { traffic::self_contained(r, &pool) };
                solo.push(s.clone());
                rt::pass(r);
                let (a, f) = (call(&mut p, &s), once(&s));
                note(&mut all, &s);
                if fresh {
                    if let Some(w) = pristine::outcomes(&all[all.len() - 1..]) {
                        m.count("self-contained, compared with a new process", 1);
                        if w[0] != pristine::render(&a) { m.violation(format!("{} after this history, {} in a new process", a.brief(), w[0]), &all); return; }
                    }
                }
                if !a.same(&f) || a.is_panic() || a.is_incomplete() { m.violation(format!("{} after this history, {} from a new parser", a.brief(), f.brief()), &all); return; }
                m.count(if a.is_err() { "self-contained: error" } else { "self-contained: result" }, 1);
                hit |= pending;
            }
            let s = traffic::any(r, &pool, &past);
            let (a, b) = (call(&mut p, &s), call(&mut q, &s));
            note(&mut all, &s);
            past.push(s);
            if !a.same(&b) { m.violation(format!("with self-contained sentences inserted: {}; without: {}", a.brief(), b.brief()), &all); return; }
            m.count(if a.is_incomplete() { "pending traffic: incomplete" } else if a.is_err() { "pending traffic: error" } else { "pending traffic: delivered" }, 1);
            pending |= a.is_incomplete();
        }
        m.case(hash(&all), hit);
        m.sample(|| joined(&all));
    });
    deep(m, "c07-deep", &|r, pool, _, i| if i / 12 % 2 == 0 { traffic::self_contained(r, pool) } else { one_kind(r, pool, i) });
    // hundreds of sentences of one kind while one message of every kind is pending
    m.parallel("c07-one-kind", n(60, 600), |r, m, i| {
        let pool = Pool::small(r);
        let (t, ch) = (ais_talker(r), *r.pick(traffic::CHANS));
        let keys = [Key::Ais(t, "VDM", r.pick(traffic::IDS).to_string(), ch.to_string()), Key::Gsv(nav_talker(r), 2 + r.idx(3)), Key::S24(*r.pick(&pool.mmsis))];
        let (mut p, mut q) = (NmeaParser::new(), NmeaParser::new());
        rt::set_now(super::ais::clock(r));
        let (mut last, mut hist): (Vec<String>, Vec<String>) = (vec![], vec![]);
        for k in &keys {
            let v = parts_of(r, k);
            for s in &v[..v.len() - 1] { call(&mut p, s); call(&mut q, s); hist.push(s.clone()); }
            last.push(v[v.len() - 1].clone());
        }
        let many = if i == 7 { 140_000 } else { *r.pick(&[20usize, 70, 140, 270, 530, 1_100]) };
        for _ in 0..many {
            let k = if i == 7 { r.below(100) } else { i };
            let s = one_kind(r, &pool, k);
            rt::pass(r);
            let o = call(&mut p, &s);
            let f = once(&s);
            if hist.len() < 3_000 { hist.push(s); }
            if !o.same(&f) || o.is_panic() || o.is_incomplete() { m.violation(format!("{} from the parser, {} from a new one", o.brief(), f.brief()), &h(&hist)); return; }
            m.count("sentences of one kind", 1);
        }
        r.shuffle(&mut last);
        for s in &last {
            let (a, b) = (call(&mut p, s), call(&mut q, s));
            hist.push(s.clone());
            if !a.same(&b) || a.is_panic() || a.is_incomplete() { m.violation(format!("{}, without the sentences in between {}", a.brief(), b.brief()), &h(&hist)); return; }
        }
        m.case(hash(&hist), true);
    });
    // long-lived parser: thousands of sentences, one type after another for one ship
    m.parallel("c07-long", n(16, 120), |r, m, i| {
        let pool = Pool::small(r);
        let mut p = NmeaParser::new();
        let mut all: Hist = vec![];
        rt::set_now(super::ais::clock(r));
        let mmsi = *r.pick(&pool.mmsis);
        for j in 0..2500u64 {
            let s = match r.below(4) {
                0 => traffic::stateful(r, &pool),
                1 => {
                    // same ship, slowly changing report, as real receivers see it
                    let ty = refdec::TYPES[((i + j / 7) % 11) as usize];
                    let mut b = refdec::message(r, ty, "", &[]);
                    b.set(8, 30, mmsi);
                    wrap(r, &b).0
                }
                _ => traffic::self_contained(r, &pool),
            };
            let single = !(s.contains("GSV,") || s.contains(",2,1,") || s.contains(",2,2,") || is_half(&s));
            rt::pass(r);
            let a = call(&mut p, &s);
            note(&mut all, &s);
            if single {
                let f = once(&all.last().unwrap().1);
                if !a.same(&f) || a.is_incomplete() { m.violation(format!("{} after {} sentences, {} from a new parser", a.brief(), j, f.brief()), &all); return; }
                m.count("self-contained in a long history", 1);
            }
        }
        m.case(hash(&all), true);
    });
}
/// A self-contained sentence of the kind number `k`.
fn one_kind(r: &mut Rng, p: &Pool, k: u64) -> String {
    let (a, b) = (gns::TYPES.len() as u64, refdec::TYPES.len() as u64);
    let k = k % (a + 2 * b);
    if k < a { return frame(&gns::sentence(r, gns::TYPES[k as usize], DEFAULT_NOW, gns::Mix { bad_num: 1, empty: 10, ..Default::default() }).body); }
    let bits = refdec::message(r, refdec::TYPES[(k.wrapping_sub(a) % b) as usize], "", &[]);
    let id = if k >= a + b { r.pick(&p.ids).clone() } else { String::new() };
    frame(&vdm(r.pick::<String>(&p.talkers), *r.pick::<&str>(&p.kinds), 1, 1, &id, *r.pick::<&str>(&p.chans), &bits.armor(), bits.fill()))
}
fn is_half(s: &str) -> bool { s.starts_with('!') && s.split(',').nth(5).and_then(|p| p.chars().next()) == Some('H') }

// ---- C23: determinism and isolation -------------------------------------------------------------
pub fn c23(m: &mut Mon) {
    m.rule = "one script per parser, several parsers; outcomes of a parser alone are the reference; then all scripts run interleaved in one thread, in \
concurrent threads, and with the parser moved to a new thread between calls; non-trivial = at least two parsers shared identifiers".into();
    let rounds = n(700, 12_000);
    // runs its own threads, so only few rounds at a time
    if !Movable::<NmeaParser>::YES || !Movable::<nmea_parser::ParsedSentence>::YES || !Movable::<nmea_parser::ParseError>::YES {
        m.violation("a parser or a result cannot be moved to another thread (its type is not Send)".to_string(), &h(&["$GPGLL,6000.5,N,02500.5,E,101010,A,A".to_string()]));
    }
    m.count("types that can be moved to another thread", 3);
    m.parallel("c23", rounds, |r, m, _| {
        let pool = Pool::small(r);
        let np = 2 + r.idx(5);
        let mut said: Vec<String> = vec![];
        let scripts: Vec<Hist> = (0..np).map(|_| {
            let mut past = vec![];
            let mut now = super::ais::clock(r);
            for _ in 0..5 + r.idx(25) {
                let s = if !said.is_empty() && r.chance(1, 5) { let x = r.pick(&said).clone(); traffic::twist(r, &x) } else { traffic::any(r, &pool, &past) };
                said.push(s.clone());
                past.push(s);
            }
            past.into_iter().map(|s| { if r.chance(1, 4) { now += r.below(90_000) as i64 } (now, s) }).collect()
        }).collect();
        let call = |p: &mut NmeaParser, x: &(i64, String)| { rt::set_now(x.0); call(p, &x.1) };
        let alone: Vec<Vec<Out>> = scripts.iter().map(|s| { let mut p = NmeaParser::new(); s.iter().map(|x| call(&mut p, x)).collect() }).collect();
        let again: Vec<Vec<Out>> = scripts.iter().map(|s| { let mut p = NmeaParser::new(); s.iter().map(|x| call(&mut p, x)).collect() }).collect();
        let cmp = |m: &mut Mon, how: &str, got: &[Vec<Out>]| -> bool {
            for i in 0..np {
                for j in 0..scripts[i].len() {
                    if !got[i][j].same(&alone[i][j]) || got[i][j].is_panic() {
                        m.violation(format!("{}: call {} of parser {} gave {}, alone {}", how, j, i, got[i][j].brief(), alone[i][j].brief()), &scripts[i]);
                        return false;
                    }
                }
            }
            m.count(how, got.iter().map(|x| x.len() as u64).sum());
            true
        };
        if !cmp(m, "calls repeated on a second new parser", &again) { return; }
        // in a process where nothing was parsed before
        if cfg().aux_out.is_none() {
            for (i, sc) in scripts.iter().enumerate() {
                if let Some(w) = pristine::outcomes(sc) {
                    for j in 0..sc.len() {
                        if w[j] != pristine::render(&alone[i][j]) { m.violation(format!("call {} of a new parser gave {}, in a new process {}", j, alone[i][j].brief(), w[j]), &sc[..=j].to_vec()); return; }
                    }
                    m.count("calls compared with a new process", sc.len() as u64);
                }
            }
        }
        // interleaved in one thread
        let mut ps: Vec<NmeaParser> = (0..np).map(|_| NmeaParser::new()).collect();
        let mut order: Vec<usize> = (0..np).flat_map(|i| std::iter::repeat(i).take(scripts[i].len())).collect();
        r.shuffle(&mut order);
        let mut got: Vec<Vec<Out>> = vec![vec![]; np];
        for &i in &order { let j = got[i].len(); let o = call(&mut ps[i], &scripts[i][j]); got[i].push(o); }
        if !cmp(m, "calls interleaved in one thread", &got) { return; }
        // concurrent threads, each with its own clock reading
        let got: Vec<Vec<Out>> = std::thread::scope(|s| {
            let hs: Vec<_> = scripts.iter().map(|sc| s.spawn(move || { let mut p = NmeaParser::new(); Carried(sc.iter().map(|x| call(&mut p, x)).collect::<Vec<_>>()) })).collect();
            hs.into_iter().map(|x| x.join().unwrap().take()).collect()
        });
        if !cmp(m, "calls in concurrent threads", &got) { return; }
        // moved to another thread between calls
        let k = r.idx(np);
        let mut p = NmeaParser::new();
        let mut one = vec![];
        for sn in &scripts[k] {
            let c = Carried(p);
            let (q, o) = std::thread::scope(|s| s.spawn(move || { let mut p = c.take(); let o = call(&mut p, sn); Carried((p, o)) }).join().unwrap()).take();
            p = q;
            one.push(o);
        }
        let mut full = alone.clone();
        full[k] = one;
        if !cmp(m, "calls with the parser moved between threads", &full) { return; }
        m.case(hash(&scripts), true);
        m.sample(|| format!("{} parsers, first script: {}", np, joined(&scripts[0])));
    });
    let _ = Kind::Invalid;
}
