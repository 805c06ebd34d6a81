pub mod ais;
pub mod cost;
pub mod gnss;
pub mod history;
pub mod total;

use crate::mon::{Hist, Mon};
use crate::rng::Rng;
use crate::rt::{self, Out};
use nmea_parser::NmeaParser;
use std::cell::RefCell;

thread_local! { static SESSION: RefCell<Option<(NmeaParser, Hist)>> = const { RefCell::new(None) }; }
/// One sentence at one time, on a new parser or on one that has seen the cases before it.
pub fn session(r: &mut Rng, m: &mut Mon, s: &str, now: i64) -> (Out, Hist) {
    rt::set_now(now);
    let x = if r.chance(2, 5) { (rt::once(s), vec![(now, s.to_string())]) } else {
        SESSION.with(|c| {
            let mut c = c.borrow_mut();
            if c.as_ref().map_or(true, |x| x.1.len() >= 24) { *c = Some((NmeaParser::new(), vec![])); }
            let (p, h) = c.as_mut().unwrap();
            let o = rt::call(p, s);
            h.push((now, s.to_string()));
            if h.len() > 1 { m.count("cases on a parser with a past", 1); }
            (o, h.clone())
        })
    };
    rt::set_now(rt::DEFAULT_NOW);
    x
}

pub fn run(prop: &str, m: &mut Mon) -> bool {
    match prop {
        "C01" => total::c01(m),
        "C02" => total::c02(m),
        "C03" => history::c03(m),
        "C04" => history::c04(m),
        "C05" => history::c05(m),
        "C06" => history::c06(m),
        "C07" => history::c07(m),
        "C08" => gnss::c08(m),
        "C09" => ais::c09(m),
        "C10" => cost::c10(m),
        "C11" => ais::c11(m),
        "C12" => total::c12(m),
        "C13" | "C14" | "C15" | "C16" => ais::fields(m),
        "C17" => gnss::c17(m),
        "C18" => ais::c18(m),
        "C19" => gnss::c19(m),
        "C20" => gnss::c20(m),
        "C21" => gnss::c21(m),
        "C22" => total::c22(m),
        "C23" => history::c23(m),
        "C24" => total::c24(m),
        "C25" => ais::c25(m),
        "C26" => cost::c26(m),
        _ => return false,
    }
    true
}
/// Iterations: `q` in the quick tier, `t` in the thorough one.
pub fn n(q: u64, t: u64) -> u64 {
    let c = crate::mon::cfg();
    (((if c.thorough { t } else { q }) as f64) * c.scale).ceil() as u64
}
