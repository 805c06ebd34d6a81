//! Sentence and payload construction, written from the NMEA 0183 / ITU-R M.1371 formats.
use crate::rng::Rng;

/// XOR of the bytes after the start character.
pub fn xor(body: &str) -> u8 {
    let n = body.chars().next().map_or(0, |c| c.len_utf8());
    body.as_bytes()[n..].iter().fold(0, |a, b| a ^ b)
}
pub fn frame(body: &str) -> String { format!("{}*{:02X}", body, xor(body)) }

#[derive(Clone, PartialEq, Debug)]
pub struct Bits(pub Vec<u8>);
impl Bits {
    pub fn zeros(n: usize) -> Bits { Bits(vec![0; n]) }
    pub fn random(r: &mut Rng, n: usize) -> Bits {
        let mut v = Vec::with_capacity(n);
        let mut w = 0;
        for i in 0..n { if i % 64 == 0 { w = r.next(); } v.push((w & 1) as u8); w >>= 1; }
        Bits(v)
    }
    pub fn set(&mut self, off: usize, len: usize, val: u64) {
        for i in 0..len { if off + i < self.0.len() { self.0[off + i] = (val >> (len - 1 - i) & 1) as u8; } }
    }
    /// The bits of payload text, if every character is a payload character.
    pub fn from_armor(t: &str) -> Option<Bits> {
        let mut v = Vec::new();
        for c in t.bytes() {
            let x = match c { b'0'..=b'W' => c - 48, b'`'..=b'w' => c - 56, _ => return None };
            for i in (0..6).rev() { v.push(x >> i & 1); }
        }
        Some(Bits(v))
    }
    /// Unsigned value; bits beyond the end are zero.
    pub fn u(&self, off: usize, len: usize) -> u64 {
        (off..off + len).fold(0, |a, i| a << 1 | self.0.get(i).copied().unwrap_or(0) as u64)
    }
    /// Two's complement value.
    pub fn s(&self, off: usize, len: usize) -> i64 {
        let u = self.u(off, len) as i64;
        if u >> (len - 1) & 1 == 1 { u - (1i64 << len) } else { u }
    }
    /// Six-bit text cut at the first '@', trailing blanks kept.
    pub fn text(&self, off: usize, n: usize) -> String {
        let mut s = String::new();
        for i in 0..n {
            let c = self.u(off + 6 * i, 6) as u8;
            if c == 0 { break; }
            s.push(if c < 32 { (c + 64) as char } else { c as char });
        }
        s
    }
    pub fn set_text(&mut self, off: usize, n: usize, t: &str) {
        let mut it = t.bytes();
        for i in 0..n {
            let c = it.next().unwrap_or(b'@');
            self.set(off + 6 * i, 6, if c >= 64 { c - 64 } else { c } as u64);
        }
    }
    pub fn armor(&self) -> String {
        self.0.chunks(6).map(|ch| {
            let v = (0..6).fold(0u8, |a, i| a << 1 | ch.get(i).copied().unwrap_or(0));
            (if v < 40 { v + 48 } else { v + 56 }) as char
        }).collect()
    }
    pub fn fill(&self) -> usize { (6 - self.0.len() % 6) % 6 }
}
/// The 64 legal payload characters in value order.
pub fn armor_char(v: u8) -> char { (if v < 40 { v + 48 } else { v + 56 }) as char }

pub const AIS_TALKERS: &[(&str, &str)] = &[
    ("AB", "BaseStation"), ("AD", "DependentAisBaseStation"), ("AI", "MobileStation"), ("AN", "AidToNavigationStation"),
    ("AR", "AisReceivingStation"), ("AS", "LimitedBaseStation"), ("AT", "AisTransmittingStation"), ("AX", "RepeaterStation"),
];
pub const NAV_TALKERS: &[(&str, &str)] = &[
    ("GN", "Combination"), ("GP", "Gps"), ("GL", "Glonass"), ("GA", "Galileo"), ("BD", "Beidou"), ("GI", "Navic"), ("QZ", "Qzss"),
];
pub fn station_of(t: &str) -> &'static str { AIS_TALKERS.iter().find(|x| x.0 == t).map_or("Other", |x| x.1) }
pub fn nav_of(t: &str) -> &'static str { NAV_TALKERS.iter().find(|x| x.0 == t).map_or("Other", |x| x.1) }
pub fn two_letters(r: &mut Rng) -> String {
    (0..2).map(|_| (b'A' + r.below(26) as u8) as char).collect()
}
pub fn ais_talker(r: &mut Rng) -> String {
    if r.chance(4, 5) { r.pick(AIS_TALKERS).0.into() } else if r.coin() { r.pick(&["BS", "SA", "GP", "AA", "AZ", "BA", "XX"]).to_string() } else { two_letters(r) }
}
pub fn nav_talker(r: &mut Rng) -> String {
    if r.chance(4, 5) { r.pick(NAV_TALKERS).0.into() } else if r.coin() { r.pick(&["GB", "GQ", "II", "IN", "AI", "PG", "LG", "PQ", "QG"]).to_string() } else { two_letters(r) }
}
pub fn kind(r: &mut Rng) -> &'static str { if r.chance(1, 4) { "VDO" } else { "VDM" } }

/// A complete AIS sentence body (without checksum).
pub fn vdm(talker: &str, kind: &str, count: u32, num: u32, id: &str, chan: &str, payload: &str, fill: usize) -> String {
    format!("!{}{},{},{},{},{},{},{}", talker, kind, count, num, id, chan, payload, fill)
}
/// A single-part AIS sentence with random envelope.
pub fn wrap(r: &mut Rng, bits: &Bits) -> (String, String, bool) {
    let (t, k) = (ais_talker(r), kind(r));
    let chan = *r.pick(&["A", "B", "A", "B", "", "1", "2", "C", "D"]);
    let id = if r.chance(1, 8) { r.below(10).to_string() } else { String::new() };
    let b = vdm(&t, k, 1, 1, &id, chan, &bits.armor(), bits.fill());
    (if r.chance(7, 8) { frame(&b) } else { b }, t, k == "VDO")
}
