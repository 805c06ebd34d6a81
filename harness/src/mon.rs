//! Observation log of one check: what was evaluated, what was seen, what went wrong.
use crate::rng::Rng;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::OnceLock;

pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub dir: String,
    pub known: HashMap<(String, String), String>,
    pub aux_out: Option<String>,
    pub aux_in: Vec<String>,
    pub scale: f64,
    pub started: std::time::Instant,
}
pub static CFG: OnceLock<Cfg> = OnceLock::new();
pub fn cfg() -> &'static Cfg { CFG.get().expect("configured") }

/// One history: the clock reading and the sentence of every call.
pub type Hist = Vec<(i64, String)>;

pub struct Viol { pub msg: String, pub hist: Hist }

static STOP: AtomicU64 = AtomicU64::new(0);

#[derive(Default)]
pub struct Mon {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub findings: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub rule: String,
    pub exhaustive: Option<bool>,
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Mon {
    /// Counts one evaluated case; `key` identifies it, `nontrivial` says whether it exercised the property.
    pub fn case(&mut self, key: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 3_000_000 { self.distinct.insert(key); }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 || (self.samples.len() < 12 && self.evals.is_power_of_two()) { self.samples.push(f()); }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        match self.counters.get_mut(name) { Some(c) => *c += n, None => { self.counters.insert(name.into(), n); } }
    }
    pub fn max(&mut self, name: &str, v: u64) {
        match self.maxima.get_mut(name) { Some(c) => if v > *c { *c = v }, None => { self.maxima.insert(name.into(), v); } }
    }
    pub fn violation(&mut self, msg: String, hist: &[(i64, String)]) {
        STOP.fetch_add(1, Ordering::Relaxed);
        if self.viols.len() < 3 { self.viols.push(Viol { msg, hist: hist.to_vec() }); }
    }
    /// True when the deviation `key` is a listed finding of this property (and then counts it).
    pub fn known(&mut self, key: &str) -> bool {
        let c = cfg();
        if c.known.contains_key(&(c.prop.clone(), key.to_string())) {
            *self.findings.entry(key.to_string()).or_insert(0) += 1;
            true
        } else { false }
    }
    fn merge(&mut self, o: Mon) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for s in o.samples { if self.samples.len() < 12 { self.samples.push(s); } }
        self.viols.extend(o.viols);
        for (k, v) in o.findings { *self.findings.entry(k).or_insert(0) += v; }
        for (k, v) in o.counters { *self.counters.entry(k).or_insert(0) += v; }
        for (k, v) in o.maxima { self.max(&k, v); }
    }
    /// Runs `f` for every index below `n` on all threads; each index has its own generator, so the
    /// cases do not depend on scheduling. Stops early after a few violations.
    pub fn parallel(&mut self, label: &str, n: u64, f: impl Fn(&mut Rng, &mut Mon, u64) + Sync) {
        let c = cfg();
        let next = AtomicUsize::new(0);
        let chunk = (n / (c.threads as u64 * 16)).clamp(1, 512) as usize;
        let base = c.seed ^ hash(&(c.prop.as_str(), label));
        let parts: Vec<Mon> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..c.threads).map(|_| {
                let (next, f) = (&next, &f);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    let mut m = Mon::default();
                    loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed) as u64;
                        if a >= n || STOP.load(Ordering::Relaxed) > 4 { break; }
                        for i in a..(a + chunk as u64).min(n) {
                            let mut r = Rng::new(base.wrapping_add(i.wrapping_mul(0x9E37_79B9_7F4A_7C15)));
                            crate::rt::reset_clocks();
                            // an outcome no correct parser gives, such as text that is not UTF-8, can make the evaluation itself panic
                            if let Err(e) = crate::rt::guarded(|| f(&mut r, &mut m, i)) {
                                m.violation(format!("{} case {}: an outcome could not be evaluated: {}", label, i, e), &[(crate::rt::now(), crate::rt::current())]);
                            }
                        }
                    }
                    m
                }).expect("thread")
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| { eprintln!("harness thread failed"); std::process::exit(3) })).collect()
        });
        for p in parts { self.merge(p); }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str, n: usize) -> String {
    if s.chars().count() > n { s.chars().take(n).collect::<String>() + "..." } else { s.into() }
}

fn write_replay(i: usize, v: &Viol) -> String {
    let c = cfg();
    let d = format!("{}/replays/{}", c.dir, c.prop);
    let _ = std::fs::create_dir_all(&d);
    let path = format!("{}/{}-{}.txt", d, if c.aux_out.is_some() { "aux" } else { "main" }, i);
    let mut t = format!("# property {} seed {}\n# {}\n", c.prop, c.seed, v.msg.replace('\n', " "));
    for (now, s) in &v.hist { t.push_str(&format!("{} {}\n", now, s.escape_default())); }
    let _ = std::fs::write(&path, t);
    path
}

fn report(v: &Viol, i: usize) {
    let c = cfg();
    let path = write_replay(i, v);
    println!("  {}", clip(&v.msg.replace('\n', " "), 1200));
    for (now, s) in v.hist.iter().rev().take(8).rev() { println!("    now={} {}", now, clip(&format!("{:?}", s), 300)); }
    println!("VIOLATION property={} replay={}", c.prop, path);
}

/// A violation that cannot be unwound from (a call that does not return).
pub fn fatal_violation(msg: &str, sentence: &str) -> ! {
    report(&Viol { msg: msg.into(), hist: vec![(crate::rt::now(), sentence.into())] }, 99);
    let mut m = Mon::default();
    m.rule = "run ended by a call that did not return".into();
    m.evals = 1;
    write_evidence(&m, 1);
    std::process::exit(1)
}

pub fn coverage_json(m: &Mon) -> String {
    let mut f: Vec<String> = vec![
        format!("\"evaluations\": {}", m.evals),
        format!("\"distinct_nontrivial\": {}", m.distinct.len()),
        format!("\"rule\": {}", esc(&m.rule)),
        format!("\"samples\": [{}]", m.samples.iter().map(|s| esc(&clip(s, 600))).collect::<Vec<_>>().join(", ")),
    ];
    if let Some(x) = m.exhaustive { f.push(format!("\"exhaustive\": {}", x)); }
    if crate::rt::edges_total() > 0 {
        f.push(format!("\"edges_of_crate\": {}, \"edges_executed\": {}", crate::rt::edges_total(), crate::rt::edges_covered()));
    }
    f.push(format!("\"observed\": {{{}}}", m.counters.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")));
    f.push(format!("\"maxima\": {{{}}}", m.maxima.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")));
    f.push(format!("\"known_findings_seen\": {{{}}}", m.findings.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")));
    let aux: Vec<String> = cfg().aux_in.iter().filter_map(|a| {
        let (n, p) = a.split_once('=')?;
        let t = std::fs::read_to_string(p).ok()?;
        Some(format!("{}: {}", esc(n), t.trim()))
    }).collect();
    if !aux.is_empty() { f.push(format!("\"other_builds\": {{{}}}", aux.join(", "))); }
    format!("{{{}}}", f.join(", "))
}

fn write_evidence(m: &Mon, viols: usize) {
    let c = cfg();
    if let Some(p) = &c.aux_out {
        let _ = std::fs::write(p, coverage_json(m));
        return;
    }
    let t = format!(
        "{{\n\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"exploration\",\n\"coverage\": {},\n\"assumptions\": [\"the workload generators reach the behaviour at fault\", \"the harness oracle states the property correctly\"],\n\"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        c.prop, if c.thorough { "thorough" } else { "quick" }, c.seed, coverage_json(m), c.started.elapsed().as_secs_f64(), viols);
    let _ = std::fs::create_dir_all(format!("{}/evidence", c.dir));
    let _ = std::fs::write(format!("{}/evidence/{}.json", c.dir, c.prop), t);
}

pub fn finish(mut m: Mon) -> i32 {
    let c = cfg();
    let logged = crate::rt::LOG_RECORDS.load(std::sync::atomic::Ordering::Relaxed);
    if logged > 0 {
        m.count("log lines formatted", logged);
        m.count("log bytes formatted", crate::rt::LOG_BYTES.load(std::sync::atomic::Ordering::Relaxed));
    }
    for (i, v) in m.viols.iter().enumerate().take(3) { report(v, i); }
    for (k, n) in &m.findings {
        println!("KNOWN-FINDING: property={} {} (key {}, seen {} times)", c.prop, c.known[&(c.prop.clone(), k.clone())], k, n);
    }
    write_evidence(&m, m.viols.len());
    println!("{}: {} evaluations, {} distinct non-trivial, {} violations, {}/{} edges, {:.1} s",
        c.prop, m.evals, m.distinct.len(), m.viols.len(), crate::rt::edges_covered(), crate::rt::edges_total(), c.started.elapsed().as_secs_f64());
    if m.viols.is_empty() { 0 } else { 1 }
}
