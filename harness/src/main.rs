//! Runtime monitors for nmea-parser: `vp-monitor --prop C05 [--dir DIR] ...`.
mod civil;
mod gns;
mod mon;
mod nmea;
mod obs;
mod pristine;
mod props;
mod refdec;
mod rng;
mod rt;
mod tables;
mod traffic;

use mon::{Cfg, Mon, CFG};

fn main() {
    let mut a = std::env::args().skip(1);
    let (mut prop, mut dir, mut aux_out, mut aux_in, mut scale, mut small, mut replay, mut serve) = (String::new(), ".".to_string(), None, vec![], 1.0, false, None, false);
    let mut threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    while let Some(k) = a.next() {
        let mut v = || a.next().unwrap_or_else(|| { eprintln!("{} needs a value", k); std::process::exit(2) });
        match k.as_str() {
            "--prop" => prop = v(),
            "--dir" => dir = v(),
            "--aux-out" => aux_out = Some(v()),
            "--aux-in" => aux_in.push(v()),
            "--scale" => scale = v().parse().unwrap_or(1.0),
            "--threads" => threads = v().parse().unwrap_or(1),
            "--small" => small = true,
            "--serve" => serve = true,
            "--replay" => replay = Some(v()),
            _ => { eprintln!("unknown argument {}", k); std::process::exit(2) }
        }
    }
    rt::install_panic_hook();
    // results are in UTC wherever the receiver stands
    std::env::set_var("TZ", if std::env::var("VERIF_SEED").map_or(true, |s| s.ends_with(['1', '3', '5', '7', '9'])) { "XXX-13:45" } else { "XXX11:30" });
    if serve { pristine::serve() } // no logger there: whether anyone listens to the log must not change a result
    rt::install_logger();
    if let Some(f) = replay { return replay_file(&f); }
    let mut known = std::collections::HashMap::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", dir)) {
        for l in t.lines() {
            // finding: property=C13 key=t27-latitude <what fails>
            if let Some(x) = l.strip_prefix("finding: property=") {
                let mut w = x.splitn(3, ' ');
                if let (Some(p), Some(k), Some(t)) = (w.next(), w.next().and_then(|k| k.strip_prefix("key=")), w.next()) { known.insert((p.to_string(), k.to_string()), t.to_string()); }
            }
        }
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let _ = CFG.set(Cfg { prop: prop.clone(), seed, thorough, threads, dir, known, aux_out, aux_in, scale, started: std::time::Instant::now() });
    let mut m = Mon::default();
    if small { props::total::c24_small(&mut m); }
    else if !props::run(&prop, &mut m) { eprintln!("unknown property {}", prop); std::process::exit(2); }
    if m.evals == 0 { eprintln!("nothing was observed"); std::process::exit(3); }
    std::process::exit(mon::finish(m));
}

/// Feeds a recorded history to a new parser and prints every outcome.
fn replay_file(f: &str) {
    let t = match std::fs::read_to_string(f) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", f, e); std::process::exit(2) } };
    let mut p = nmea_parser::NmeaParser::new();
    for l in t.lines().filter(|l| !l.starts_with('#')) {
        let (now, s) = l.split_once(' ').unwrap_or((l, ""));
        let s = unescape(s);
        rt::set_now(now.parse().unwrap_or(rt::DEFAULT_NOW));
        println!("{} {:?}\n    {}", now, s, rt::call(&mut p, &s).brief());
    }
}
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' { o.push(c); continue; }
        match it.next() {
            Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some('t') => o.push('\t'),
            Some('u') => { it.next(); let h: String = it.by_ref().take_while(|c| *c != '}').collect(); o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?')); }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}
