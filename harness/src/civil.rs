//! Proleptic Gregorian calendar, independent of the date library the parser uses.
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
pub fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
pub fn leap(y: i64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub fn month_len(y: i64, m: i64) -> i64 {
    match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 4 | 6 | 9 | 11 => 30, 2 => if leap(y) { 29 } else { 28 }, _ => 0 }
}
/// Seconds since the epoch, or None when the date or time does not exist.
pub fn epoch(y: i64, m: i64, d: i64, h: i64, mi: i64, s: i64) -> Option<i64> {
    if !(1..=12).contains(&m) || d < 1 || d > month_len(y, m) { return None; }
    if !(0..24).contains(&h) || !(0..60).contains(&mi) || !(0..60).contains(&s) { return None; }
    Some(days(y, m, d) * 86400 + h * 3600 + mi * 60 + s)
}
pub fn split(t: i64) -> (i64, i64, i64, i64, i64, i64) {
    let dd = t.div_euclid(86400);
    let r = t.rem_euclid(86400);
    let (y, m, d) = civil(dd);
    (y, m, d, r / 3600, r / 60 % 60, r % 60)
}
