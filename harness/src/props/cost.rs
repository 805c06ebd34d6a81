//! Monitors of retained memory and of work per call.
use super::n;
use crate::gns;
use crate::mon::{hash, Hist, Mon};
use crate::nmea::*;
use crate::refdec;
use crate::rng::Rng;
use crate::rt::{self, call, Out, DEFAULT_NOW};
use crate::traffic::{self, Pool};
use nmea_parser::NmeaParser;

// ---- C10 ----------------------------------------------------------------------------------------
/// A parser whose retained heap is known: what its calls allocated and did not free.
struct Meter { p: NmeaParser, retained: i64 }
impl Meter {
    fn new() -> Meter { Meter { p: NmeaParser::new(), retained: 0 } }
    fn call(&mut self, s: &str) -> Out {
        rt::set_current(s);
        let a = rt::live_bytes();
        let r = rt::guarded(|| self.p.parse_sentence(s));
        // the outcome belongs to the caller: reduce it to its kind and drop it before measuring
        let o = match &r {
            Err(_) => 2,
            Ok(Ok(nmea_parser::ParsedSentence::Incomplete)) => 0,
            Ok(Ok(_)) => 1,
            Ok(Err(_)) => 3,
        };
        drop(r);
        self.retained += rt::live_bytes() - a;
        match o { 0 => Out::Ok(nmea_parser::ParsedSentence::Incomplete), 1 => Out::Ok(nmea_parser::ParsedSentence::Gsv(vec![])), 2 => Out::Panic("panic".into()), _ => Out::Err(rt::Kind::Invalid, String::new()) }
    }
}
const SCENARIOS: [&str; 13] = ["two-part AIS messages", "GSV groups", "type 24 pairs", "self-contained sentences", "rejected sentences", "unusable parts",
    "repeats of one pending part", "repeats of pending GSV sentences", "repeats of a pending type 24 half", "everything mixed", "waves of pending messages", "damaged copies of pending parts", "sentences with a text of their own in one field"];

/// Sentences that leave nothing new pending.
fn burst(r: &mut Rng, kind: usize, j: u64, fixed: &[String]) -> Vec<String> {
    let wide = |r: &mut Rng| {
        let mut p = Pool::small(r);
        p.ids = vec![if r.coin() { j.to_string() } else { r.next().to_string() }];
        p.mmsis = vec![r.below(1 << 30)];
        let t = two_letters(r);
        p.gsv = vec![(t, 2 + r.idx(254))];
        if r.coin() { p.talkers = vec![two_letters(r)]; }
        p
    };
    let kind = if kind == 9 { r.idx(9) } else { kind };
    match kind {
        0 => {
            let p = wide(r);
            let (mut pl, f) = loop { let x = traffic::payload(r, &p, false); if !x.0.starts_with('H') { break x; } };
            if r.chance(1, 8) { let most = *r.pick(&[60usize, 300, 1500]); for _ in 0..r.idx(most) { pl.push(armor_char(r.below(64) as u8)); } }
            // completes, but to an error
            if r.chance(1, 8) { let k = r.idx(pl.len() + 1); pl.insert(k, *r.pick(&['X', '!', ' ', 'Z'])); }
            let (a, b) = traffic::split(r, &pl);
            let (t, k, ch) = (r.pick(&p.talkers).clone(), *r.pick(&p.kinds), *r.pick(&p.chans));
            let mut v = vec![frame(&vdm(&t, k, 2, 1, &p.ids[0], ch, &a, 0)), frame(&vdm(&t, k, 2, 2, &p.ids[0], ch, &b, f))];
            if r.coin() { v.reverse(); }
            if r.chance(1, 4) { v.insert(0, v[0].clone()); }
            v
        }
        1 => {
            let t = if r.coin() { two_letters(r) } else { nav_talker(r) };
            let most = if r.chance(1, 10) { 40 } else { 9 };
            let size = 1 + r.idx(most);
            let mut v = gns::gsv(r, &t, size).parts;
            r.shuffle(&mut v);
            if r.chance(1, 4) { let x = v[0].clone(); v.insert(0, x); }
            v
        }
        2 => {
            let mm = r.below(1 << 30);
            let (a, b) = (refdec::half24(r, 0, mm, &[]), refdec::half24(r, 1, mm, &[]));
            let mut v = vec![wrap(r, &a).0, wrap(r, &b).0];
            if r.coin() { v.reverse(); }
            if r.chance(1, 4) { v.insert(0, v[0].clone()); }
            v
        }
        3 => { let p = wide(r); vec![traffic::self_contained(r, &p)] }
        4 => { let p = wide(r); vec![traffic::rejected(r, &p, &[]).0] }
        5 => { let p = wide(r); vec![traffic::unusable(r, &p).0] }
        6..=8 => { let k = kind - 6; vec![fixed[2 * k + r.idx(2)].clone()] }
        12 => if r.chance(1, 4) { own_channel(r, j) } else { vec![own_text(r, j)] },
        _ => { let p = wide(r); vec![traffic::rejected(r, &p, fixed).0] }
    }
}
/// A sentence that cannot leave anything pending, with a text in it that no other sentence has.
fn own_text(r: &mut Rng, j: u64) -> String {
    let word = match r.below(4) { 0 => format!("z{:x}", r.next()), 1 => format!("{}q", j), 2 => format!("-{:x}.{}y", r.next(), j), _ => format!("é{}", r.next()) };
    let p = Pool::small(r);
    match r.below(11) {
        // a part with an unreadable count or number
        0 | 1 => {
            let (pl, _) = traffic::payload(r, &p, false);
            let b = vdm("AI", kind_(r), 2, 1, "3", "A", &pl, 0);
            let mut f: Vec<&str> = b.split(',').collect();
            f[1 + r.idx(2)] = &word;
            frame(&f.join(","))
        }
        2 => {
            let b = gns::gsv(r, "GP", 3).parts[0].clone();
            let mut f: Vec<&str> = b.split('*').next().unwrap_or("").split(',').collect();
            f[1 + r.idx(2)] = &word;
            frame(&f.join(","))
        }
        3 => {
            let (mut pl, _) = traffic::payload(r, &p, true);
            for _ in 0..r.idx(60) { pl.push(armor_char(r.below(64) as u8)) }
            pl.push_str(&word);
            frame(&vdm("AI", kind_(r), 1, 1, "", "A", &format!("{}é", pl), 0))
        }
        4 => { let h = r.pick(&["$GP", "!AI", "$", "!", "", "$GPGGA", "!AIVDM"]).to_string(); frame(&format!("{}{},{},A", h, word.to_uppercase(), word)) }
        // a message of one part with the text in any of its fields but the counts, or as its checksum
        8 | 9 => {
            let (pl, fb) = traffic::payload(r, &p, false);
            let b = vdm(&ais_talker(r), kind_(r), 1, 1, "", "A", &pl, fb);
            let mut f: Vec<&str> = b.split(',').collect();
            let k = 3 + r.idx(5);
            if k == 5 { return format!("{}*{}", b, word); }
            if k < f.len() { f[k] = &word; } else { f.push(&word); }
            frame(&f.join(","))
        }
        5 => { let (pl, f) = traffic::payload(r, &p, true); format!("{}{:02X}", vdm("AI", "VDM", 1, 1, &word, "A", &pl, f) + "*", r.below(256)) }
        _ => {
            // a GNSS sentence with any field replaced
            let s = loop { let s = traffic::self_contained(r, &p); if s.starts_with('$') && !s.contains("GSV") { break s; } };
            let mut f: Vec<&str> = s.split('*').next().unwrap_or("").split(',').collect();
            let k = 1 + r.idx(f.len().max(2) - 1);
            if k < f.len() { f[k] = &word; } else { f.push(&word); }
            frame(&f.join(","))
        }
    }
}
/// A two-part message, completed, on a channel or with trailing fields that no other message has.
fn own_channel(r: &mut Rng, j: u64) -> Vec<String> {
    let word = match r.below(3) { 0 => format!("z{:x}", r.next()), 1 => j.to_string(), _ => format!("{}é{}", j, r.next()) };
    let p = Pool::small(r);
    let (pl, f) = loop { let x = traffic::payload(r, &p, false); if !x.0.starts_with('H') { break x; } };
    let (a, b) = traffic::split(r, &pl);
    let ch = if r.coin() { word.as_str() } else { "B" };
    let end = if r.coin() { format!(",{}", word) } else { String::new() };
    let mut v = vec![frame(&(vdm("AI", "VDM", 2, 1, "3", ch, &a, 0) + &end)), frame(&(vdm("AI", "VDM", 2, 2, "3", ch, &b, f) + &end))];
    if r.coin() { v.reverse(); }
    v
}
/// The same sentence with further fields after its last, new text every time; damage stays damage.
fn longer(r: &mut Rng, s: String) -> String {
    let body = s.split('*').next().unwrap_or("").to_string();
    if body.len() < 7 || !body.contains(',') || s != frame(&body) { return s; }
    let mut b = body;
    // four satellites take twenty fields
    if b.contains("GSV,") { while b.matches(',').count() < 19 { b.push(','); } }
    for _ in 0..r.idx(24) { b.push_str(&match r.below(4) { 0 => String::new(), 1 => format!(",{:x}", r.next()), _ => format!(",{}", r.below(100_000)) }); }
    frame(&b)
}
pub fn c10(m: &mut Mon) {
    m.rule = "heap retained by a parser (allocated in its calls and not freed), over long streams of completed, self-contained, rejected, unusable and repeated traffic with ever-changing \
identifiers; growth after warm-up must stay below 6 KB; and per pending message below a small multiple of its size".into();
    let reps = n(6, 40);
    m.parallel("c10", SCENARIOS.len() as u64 * reps, |r, m, i| {
        let kind = i as usize % SCENARIOS.len();
        let mut p = Meter::new();
        // the pending parts that are repeated: two versions each, same identity, no completion
        let fixed: Vec<String> = {
            let b = refdec::message(r, 5, "", &[]);
            let pl = b.armor();
            let num = 1 + r.below(2) as u32;
            let (t, k, id, ch) = (ais_talker(r), kind_(r), r.pick(traffic::IDS).to_string(), *r.pick(traffic::CHANS));
            let mut v = vec![frame(&vdm(&t, k, 2, num, &id, ch, &pl[..30], 0)), frame(&vdm(&t, k, 2, num, &id, ch, &pl[10..50], 0))];
            let (a, b) = (gns::gsv(r, "GP", 3), gns::gsv(r, "GP", 3));
            let j = r.idx(3);
            v.push(a.parts[j].clone());
            // the second version sometimes ends early
            let k = 3 + r.idx(6);
            v.push(if r.chance(1, 3) { frame(&b.parts[j].split('*').next().unwrap_or("").split(',').take(k).collect::<Vec<_>>().join(",")) } else { b.parts[j].clone() });
            let (part, mm) = (r.below(2), r.below(1 << 30));
            for _ in 0..2 { let h = refdec::half24(r, part, mm, &[]); v.push(wrap(r, &h).0); }
            v
        };
        for s in &fixed { p.call(s); }
        let (warm, total) = (1200u64, n(5_000, 40_000));
        let mut base = 0;
        let mut last: Hist = vec![];
        if kind == 10 {
            // everything pending at once, then completed; the next wave may not retain more
            let mut peak = 0;
            for wave in 0..14u64 {
                let mut late = vec![];
                let mut bytes = 0;
                for j in 0..400u64 {
                    // no two messages of a wave share their identity, and all waves have the same size
                    let mut v = if j % 3 == 1 {
                        let t = format!("{}{}", (b'A' + (j / 26) as u8) as char, (b'A' + (j % 26) as u8) as char);
                        let mut v = gns::gsv(r, &t, 2 + (j % 29) as usize).parts;
                        r.shuffle(&mut v);
                        v
                    } else { burst(r, (j % 3) as usize, wave * 1000 + j, &fixed) };
                    if v.len() < 2 { continue; }
                    v.dedup();
                    let l = v.pop().unwrap();
                    bytes += v.iter().map(|s| s.len() as i64).sum::<i64>();
                    for s in &v { p.call(s); }
                    late.push(l);
                }
                let held = p.retained;
                m.max("bytes retained per byte of pending sentences, x100", (held * 100 / bytes.max(1)) as u64);
                if held > 16 * bytes + 200_000 { m.violation(format!("{} bytes retained for {} bytes of pending sentences", held, bytes), &vec![]); return; }
                r.shuffle(&mut late);
                for s in &late { p.call(s); }
                if wave == 1 { peak = p.retained; }
                m.count("calls", 900);
            }
            // a table may double once more, a leak goes on growing
            m.max("bytes retained after fourteen waves over two, x100", (p.retained * 100 / peak.max(1)) as u64);
            if p.retained > peak * 5 / 2 + 24_000 { m.violation(format!("{} bytes retained after fourteen waves, {} after two", p.retained, peak), &vec![]); return; }
            m.case(hash(&(i, "waves")), true);
            return;
        }
        for j in 0..total {
            if j == warm { base = p.retained; }
            let extra = kind < 10 && r.chance(1, 3);
            for s in burst(r, kind, j, &fixed) {
                let s = if extra { longer(r, s) } else { s };
                let o = p.call(&s);
                if o.is_panic() { m.violation("panic".into(), &vec![(DEFAULT_NOW, s)]); return; }
                m.count("calls", 1);
                if last.len() < 4000 { last.push((DEFAULT_NOW, s)); }
            }
            if j > warm && p.retained > base + 6_144 {
                m.violation(format!("{}: {} bytes retained after {} messages, {} after {}", SCENARIOS[kind], p.retained, j, base, warm), &last);
                return;
            }
        }
        m.max("growth in bytes after warm-up", (p.retained - base).max(0) as u64);
        m.count(SCENARIOS[kind], 1);
        m.case(hash(&(i, &last)), true);
        m.sample(|| format!("{}: {} bytes after {} messages, {} after {}", SCENARIOS[kind], p.retained, total, base, warm));
    });
}
fn kind_(r: &mut Rng) -> &'static str { crate::nmea::kind(r) }

// ---- C26 ----------------------------------------------------------------------------------------
// Generous linear bounds, some five times what the unchanged crate needs.
const EDGE_BASE: u64 = 120_000;
const EDGE_PER_BYTE: u64 = 700;
const BYTE_BASE: u64 = 4_000_000;
const BYTE_PER_BYTE: u64 = 400;
fn within(m: &mut Mon, what: &str, o: &Out, s: &str, pending: usize) -> bool {
    let (bytes, edges) = rt::last_cost();
    let size = (s.len() + pending) as u64;
    m.count("calls measured", 1);
    if o.is_panic() { m.violation(o.brief(), &vec![(DEFAULT_NOW, s.into())]); return false; }
    if size < 400 {
        m.max("edges in one call up to 400 bytes", edges);
        m.max("bytes allocated in one call up to 400 bytes", bytes);
    } else {
        m.max("edges per byte in longer calls, x100", edges * 100 / size);
        m.max("bytes allocated per byte in longer calls, x100", bytes * 100 / size);
    }
    if edges > EDGE_BASE + EDGE_PER_BYTE * size || bytes > BYTE_BASE + BYTE_PER_BYTE * size {
        m.violation(format!("{}: {} edges and {} bytes for {} bytes of input and completed parts", what, edges, bytes, size), &vec![(DEFAULT_NOW, s.into())]);
        return false;
    }
    true
}
#[cfg(not(miri))]
fn cpu() -> f64 {
    #[repr(C)]
    struct T { s: i64, n: i64 }
    extern "C" { fn syscall(n: i64, ...) -> i64; }
    let mut t = T { s: 0, n: 0 };
    unsafe { syscall(228, 3i64, &mut t as *mut T) };
    t.s as f64 + t.n as f64 * 1e-9
}
#[cfg(miri)]
fn cpu() -> f64 { 0.0 }

/// A long sentence of the given kind.
fn long(r: &mut Rng, kind: u64, len: usize) -> String {
    let pl = |r: &mut Rng, n: usize| -> String { let ty = *r.pick(&refdec::TYPES); let mut b = Bits::random(r, 6 * n.max(1)); b.set(0, 6, ty); b.armor() };
    match kind {
        0 => { let p = pl(r, len); vdm("AI", "VDM", 1, 1, "", "A", &p, 0) }
        1 => { let ty = *r.pick(&gns::TYPES); format!("$GP{},{}", ty, ",".repeat(len)) }
        2 => { let ty = *r.pick(&gns::TYPES); format!("$GP{},{}", ty, gns::digits(r, len)) }
        3 => format!("$GPGGA,101010,{:02}{:02}.{},N,02500.5,E,1,08,1.0,5.0,M,1.0,M,,", 10, 10, gns::digits(r, len)),
        4 => format!("$GPGSV,1,1,04,{}", "01,40,083,46,".repeat(len / 13)),
        5 => format!("!AIVDM,1,1,,{},15,0", "A".repeat(len)),
        6 => "*".repeat(len),
        7 => format!("${}", "G".repeat(len)),
        8 => format!("$GPGLL,{}", "a,".repeat(len / 2)),
        9 => format!("!AIVDM,2,1,{},A,15,0", gns::digits(r, len)),
        10 => format!("{},", "\u{e9}".repeat(len / 2)),
        11 => format!("$GPRMC,{}.5,A,6000.5,N,02500.5,E,{},1.0,{},,", gns::digits(r, 6), gns::digits(r, len / 2), gns::digits(r, len / 2)),
        12 => format!("$GPGSA,A,3,{}", "01,".repeat(len / 3)),
        13 => format!("$GPVTG,{}", "1.5,T,".repeat(len / 6)),
        // very many fields where few are expected
        14 => { let p = pl(r, 28); format!("!AIVDM,1,1,,A,{},0{}", p, ",".repeat(len)) }
        15 => { let p = pl(r, 28); format!("!AIVDM,2,1,3,A,{},0{}", p, ",x".repeat(len / 2)) }
        16 => format!("$GPGSV,1,1,04,01,40,083,46{}", ",".repeat(len)),
        17 => { let ty = *r.pick(&gns::TYPES); format!("{}{}", gns::sentence(r, ty, DEFAULT_NOW, gns::Mix::default()).body, ",7".repeat(len / 2)) }
        // long where a field is usually one character, or two
        18 => { let k = 1 + r.idx(6); let mut f = vec!["!AIVDM".to_string(), "1".into(), "1".into(), "".into(), "A".into(), pl(r, 28), "0".into()]; f[k] = (0..len).map(|_| (b'0' + r.below(70) as u8) as char).filter(|c| *c != ',' && *c != '*').collect(); f.join(",") }
        19 => { let p = pl(r, 28); format!("!AIVDM,1,1,,A,{},0*{}", p, "0".repeat(len)) }
        20 => { let p = pl(r, 28); format!("!AIVDM,1,1,,A,{},0{}", p, "*".repeat(len)) }
        _ => { let ty = *r.pick(&gns::TYPES); let mut f: Vec<String> = gns::sentence(r, ty, DEFAULT_NOW, gns::Mix::default()).body.split(',').map(String::from).collect(); let k = 1 + r.idx(f.len() - 1); f[k] = if r.coin() { gns::digits(r, len) } else { "N".repeat(len) }; f.join(",") }
    }
}
const LONG: u64 = 22;
pub fn c26(m: &mut Mon) {
    m.rule = "edges executed in the crate and bytes allocated, per call, against a linear bound in the size of the sentence and the message it completes, over extreme counts and lengths; and \
average work of the same calls with nothing and with thousands of unrelated messages pending or past".into();
    // every number a sentence can carry
    let nums: Vec<String> = ["0", "1", "2", "3", "9", "99", "127", "128", "200", "254", "255", "256", "257", "1000", "65535", "65536", "65537", "1000000", "16777216", "99999999", "2147483647", "2147483648", "4294967294",
        "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "99999999999999999999", "1e9", "-1", "0x7fffffff", "1e308", "0.00000001"].iter().map(|s| s.to_string()).collect();
    m.parallel("c26-numbers", n(20_000, 800_000), |r, m, _| {
        let pool = Pool::small(r);
        let mut p = NmeaParser::new();
        for _ in 0..1 + r.idx(6) {
            let mut s = if r.coin() { traffic::stateful(r, &pool) } else { traffic::self_contained(r, &pool) };
            if let Some(i) = s.find('*') { s.truncate(i); }
            let mut f: Vec<String> = s.split(',').map(String::from).collect();
            for _ in 0..1 + r.idx(3) { let most = if r.coin() { 3 } else { 20 }; let k = 1 + r.idx((f.len() - 1).min(most)); f[k] = r.pick(&nums).clone(); }
            let s = f.join(",");
            let o = call(&mut p, &s);
            m.case(hash(&s), true);
            m.sample(|| format!("{}: {:?} (bytes, edges)", s, rt::last_cost()));
            if !within(m, "numbers", &o, &s, 1000) { return; }
        }
    });
    m.parallel("c26-counts", 300, |r, m, i| {
        let c = if i < 257 { i.to_string() } else { r.pick(&nums).clone() };
        let mut p = NmeaParser::new();
        for k in [c.clone(), "1".into(), "2".into(), "0".into()] {
            for s in [format!("$GPGSV,{},{},04,01,40,083,46", c, k), format!("!AIVDM,{},{},1,A,15M,0", c, k), format!("!AIVDM,{},{},{},A,15M,0", c, k, c)] {
                let o = call(&mut p, &s);
                m.case(hash(&s), true);
                if !within(m, "counts", &o, &s, 600) { return; }
            }
        }
    });
    // long sentences
    m.parallel("c26-long", LONG * n(4, 40), |r, m, i| {
        let base = [300, 3_000, 30_000, 150_000][(i / LONG) as usize % 4];
        let n = base + r.idx(base);
        let s = long(r, i % LONG, n);
        let mut p = NmeaParser::new();
        let o = call(&mut p, &s);
        m.case(hash(&s), true);
        within(m, "long sentence", &o, &s, 0);
    });
    // the same in processor time, where the work is not in the crate's own code: quadratic against linear
    m.parallel("c26-time", LONG, |r, m, i| {
        let lens = [10_000usize, 200_000, 3_000_000, 12_000_000];
        let bounds = [("", 0.0), ("CPU time at 200 kB over 10 kB, x10", 120.0), ("CPU time at 3 MB over 200 kB, x10", 90.0), ("CPU time at 12 MB over 3 MB, x10", 10.0)];
        let measure = |m: &mut Mon, s: &String| -> Option<f64> {
            let mut p = NmeaParser::new();
            let t = cpu();
            let o = call(&mut p, s);
            let d = cpu() - t;
            if within(m, "long sentence", &o, s, 0) { Some(d) } else { None }
        };
        let mut best: Vec<(f64, String)> = vec![];
        for (k, len) in lens.iter().enumerate() {
            let mut now = (f64::MAX, String::new());
            for _ in 0..[3, 3, 2, 1][k] {
                let s = long(r, i, *len);
                let d = match measure(m, &s) { Some(d) => d, None => return };
                if d < now.0 { now = (d, s); }
            }
            best.push(now);
            if k == 0 { continue; }
            let (name, bound) = bounds[k];
            // measured again before it counts: another process may have been in the way
            for _ in 0..2 {
                if best[k].0 <= 0.5 || best[k].0 / best[k - 1].0.max(1e-6) <= bound { break; }
                if best[k].0 > 60.0 { break; }
                for j in [k - 1, k] {
                    let d = match measure(m, &best[j].1) { Some(d) => d, None => return };
                    best[j].0 = best[j].0.min(d);
                }
            }
            let times = best[k].0 / best[k - 1].0.max(1e-6);
            m.max(name, (times * 10.0) as u64);
            m.max("longest CPU time of one call, ms", (best[k].0 * 1e3) as u64);
            if best[k].0 > 0.5 && times > bound {
                m.violation(format!("a sentence of {} bytes takes {:.3} s, one of {} bytes {:.6} s", lens[k], best[k].0, lens[k - 1], best[k - 1].0), &vec![(DEFAULT_NOW, best[k].1.clone())]);
                return;
            }
        }
        m.case(hash(&i), true);
    });
    // two parts, long
    m.parallel("c26-parts", n(40, 400), |r, m, i| {
        let (la, lb) = ([1usize, 500, 60_000][i as usize % 3], [1usize, 500, 60_000][i as usize / 3 % 3]);
        let mut b = Bits::random(r, 6 * (la + lb));
        let ty = *r.pick(&refdec::TYPES);
        b.set(0, 6, ty);
        let pl = b.armor();
        let mut v = [vdm("AI", "VDM", 2, 1, "1", "A", &pl[..la], 0), vdm("AI", "VDM", 2, 2, "1", "A", &pl[la..], 0)];
        if r.coin() { v.reverse(); }
        let mut p = NmeaParser::new();
        let o = call(&mut p, &v[0]);
        if !within(m, "first part", &o, &v[0], 0) { return; }
        let o = call(&mut p, &v[1]);
        m.case(hash(&pl), true);
        within(m, "second part", &o, &v[1], v[0].len());
    });
    // large GSV groups: a sentence that completes nothing must not cost what the group holds
    m.parallel("c26-gsv", n(10, 100), |r, m, i| {
        let size = [255usize, 100, 9][i as usize % 3];
        let pad = [0usize, 3000][i as usize / 3 % 2];
        let mut p = NmeaParser::new();
        let mut sum = 0;
        let mut order: Vec<usize> = (1..=size).collect();
        r.shuffle(&mut order);
        for (j, k) in order.iter().enumerate() {
            let s = format!("$GPGSV,{},{},04,01,40,083,46,02,17,308,41,{}", size, k, ",".repeat(pad));
            let o = call(&mut p, &s);
            if !within(m, "GSV sentence", &o, &s, if j + 1 == size { sum } else { 0 }) { return; }
            sum += s.len();
            if j + 2 == size {
                let t = format!("$GPGSV,{},{},04", size, k);
                for _ in 0..5 { let o = call(&mut p, &t); if !within(m, "repeated GSV sentence", &o, &t, 0) { return; } }
            }
        }
        m.case(hash(&order), true);
    });
    // unrelated pending and past traffic
    m.parallel("c26-load", n(8, 24), |r, m, i| {
        let mut probes: Vec<Vec<String>> = vec![];
        for _ in 0..60 {
            probes.push({ let b = refdec::message(r, 5, "", &[]); let pl = b.armor(); let c = r.idx(pl.len()); vec![frame(&vdm("AI", "VDM", 2, 1, "3", "A", &pl[..c], 0)), frame(&vdm("AI", "VDM", 2, 2, "3", "A", &pl[c..], 2))] });
            probes.push(gns::gsv(r, "GP", 3).parts);
            let (a, b) = (refdec::half24(r, 0, 230_000_001, &[]), refdec::half24(r, 1, 230_000_001, &[]));
            probes.push(vec![wrap(r, &a).0, wrap(r, &b).0]);
            let ty = *r.pick(&refdec::TYPES);
            let b = refdec::message(r, ty, "", &[]);
            probes.push(vec![wrap(r, &b).0]);
            let ty = *r.pick(&gns::TYPES);
            probes.push(vec![frame(&gns::sentence(r, ty, DEFAULT_NOW, gns::Mix::default()).body)]);
            let pool = Pool { talkers: vec!["AI".into()], kinds: vec!["VDM"], ids: vec!["3".into()], chans: vec!["A"], gsv: vec![("GP".into(), 3)], mmsis: vec![230_000_001] };
            probes.push(vec![traffic::rejected(r, &pool, &[]).0]);
            probes.push({ let k = 900 + r.idx(500); let c = 420 + r.idx(k - 420); let pl = Bits::random(r, 6 * k).armor(); vec![frame(&vdm("AI", "VDM", 2, 1, "3", "A", &pl[..c], 0)), frame(&vdm("AI", "VDM", 2, 2, "3", "A", &pl[c..], 2))] });
        }
        const KINDS: usize = 7;
        // what waits is long in some runs
        let body = if i / 4 % 2 == 1 { "15M".repeat(160 + r.idx(80)) } else { "55MwmP0".to_string() };
        // totals per kind of probe: (bytes, edges)
        let measure = |p: &mut NmeaParser| -> Vec<(u64, u64)> {
            let mut t = vec![(0, 0); KINDS];
            for (j, v) in probes.iter().enumerate() { for s in v { call(p, s); let (b, e) = rt::last_cost(); t[j % KINDS].0 += b; t[j % KINDS].1 += e; } }
            t
        };
        let mut p = NmeaParser::new();
        measure(&mut p);
        let idle = measure(&mut NmeaParser::new());
        // load: a little over a power of two, so that no table grows during the measurement
        let load = if i / 8 % 3 == 2 { 58_000 } else { [7_300u64, 14_700, 29_100][(i + i / 8) as usize % 3] };
        let mut p = NmeaParser::new();
        for j in 0..load {
            let s = match (i / 2 % 4, j % 3) {
                (0, _) | (3, 0) => frame(&vdm("AI", "VDM", 2, 1, &(100 + j).to_string(), "A", &body, 0)),
                (1, _) | (3, 1) => { let b = refdec::half24(r, j & 1, 300_000_000 + j, &[]); frame(&vdm("AI", "VDM", 1, 1, "", "A", &b.armor(), 0)) }
                // past traffic, nothing pending
                (2, _) => { let ty = *r.pick(&refdec::TYPES); let b = refdec::message(r, ty, "", &[]); wrap(r, &b).0 }
                _ => format!("${}{}GSV,{},1,04,01,40,083,46", (b'A' + (j % 26) as u8) as char, (b'A' + (j / 26 % 26) as u8) as char, 2 + j / 676 % 250),
            };
            call(&mut p, &s);
        }
        measure(&mut p);
        let busy = measure(&mut p);
        m.case(hash(&(i, load)), true);
        for k in 0..KINDS {
            let q = |a: u64, b: u64| a as f64 / b.max(1) as f64;
            m.max("work under load over idle work, x100", (q(busy[k].1, idle[k].1).max(q(busy[k].0, idle[k].0)) * 100.0) as u64);
            if busy[k].1 > 2 * idle[k].1 + 60_000 || busy[k].0 > 2 * idle[k].0 + 300_000 {
                let what = ["two-part AIS", "GSV group", "type 24 pair", "single AIS", "GNSS", "rejected", "long two-part AIS"][k];
                let h: Hist = probes[k].iter().map(|s| (DEFAULT_NOW, s.clone())).collect();
                m.violation(format!("{} under {} unrelated sentences: {} edges and {} bytes, idle {} and {}", what, load, busy[k].1, busy[k].0, idle[k].1, idle[k].0), &h);
                return;
            }
        }
    });
}
