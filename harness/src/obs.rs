//! Flattens a result into named, comparable values.
use nmea_parser::*;

#[derive(Clone, Debug)]
pub enum V { None, I(i64), F(f64), B(bool), S(String), E(String), T(i64, u32), L(Vec<i64>) }
impl PartialEq for V {
    /// Floats compare up to rounding (the property fixes the value, not the order of operations).
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::None, V::None) => true,
            (V::I(a), V::I(b)) => a == b,
            (V::F(a), V::F(b)) => (a - b).abs() <= 1e-9 * (1.0 + a.abs().min(b.abs())),
            (V::B(a), V::B(b)) => a == b,
            (V::S(a), V::S(b)) | (V::E(a), V::E(b)) => a == b,
            (V::T(a, x), V::T(b, y)) => a == b && x == y,
            (V::L(a), V::L(b)) => a == b,
            _ => false,
        }
    }
}
pub fn e(s: &str) -> V { V::E(s.into()) }
pub fn opt<T>(o: Option<T>, f: impl Fn(T) -> V) -> V { o.map_or(V::None, f) }

pub trait ToV { fn v(&self) -> V; }
macro_rules! ints { ($($t:ty),*) => { $(impl ToV for $t { fn v(&self) -> V { V::I(*self as i64) } })* } }
ints!(u8, u16, u32, i8);
impl ToV for f64 { fn v(&self) -> V { V::F(*self) } }
impl ToV for bool { fn v(&self) -> V { V::B(*self) } }
impl ToV for String { fn v(&self) -> V { V::S(self.clone()) } }
macro_rules! enums { ($($t:ty),*) => { $(impl ToV for $t { fn v(&self) -> V { V::E(format!("{:?}", self)) } })* } }
enums!(ais::Station, ais::AisClass, ais::NavigationStatus, ais::PositioningSystemMeta, ais::ShipType, ais::CargoType,
    ais::PositionFixType, ais::NavAidType, gnss::NavigationSystem, gnss::FaaMode, gnss::GgaQualityIndicator, gnss::GsaFixMode);
impl<T: ToV> ToV for Option<T> { fn v(&self) -> V { self.as_ref().map_or(V::None, |x| x.v()) } }

pub type Flat = Vec<(&'static str, V)>;
macro_rules! flat { ($x:expr; $($f:ident)*) => { vec![$((stringify!($f), $x.$f.v())),*] } }
macro_rules! time { ($v:expr, $n:expr, $t:expr) => { $v.push(($n, $t.map_or(V::None, |t| V::T(t.timestamp(), t.timestamp_subsec_nanos())))) } }
macro_rules! pos { ($v:expr, $x:expr) => {{
    $v.push(("latitude()", LatLon::latitude($x).v()));
    $v.push(("longitude()", LatLon::longitude($x).v()));
}} }

pub fn flatten(p: &ParsedSentence) -> (&'static str, Flat) {
    use ParsedSentence as P;
    match p {
        P::Incomplete => ("Incomplete", vec![]),
        P::VesselDynamicData(x) => {
            let mut v = flat!(x; own_vessel station ais_type mmsi nav_status rot rot_direction sog_knots high_position_accuracy
                latitude longitude cog heading_true timestamp_seconds positioning_system_meta current_gnss_position
                special_manoeuvre raim_flag class_b_unit_flag class_b_display class_b_dsc class_b_band_flag
                class_b_msg22_flag class_b_mode_flag class_b_css_flag radio_status);
            pos!(v, x);
            ("VesselDynamicData", v)
        }
        P::VesselStaticData(x) => {
            let mut v = flat!(x; own_vessel ais_type mmsi ais_version_indicator imo_number call_sign name ship_type cargo_type
                equipment_vendor_id equipment_model equipment_serial_number dimension_to_bow dimension_to_stern
                dimension_to_port dimension_to_starboard position_fix_type draught10 destination mothership_mmsi);
            time!(v, "eta", x.eta);
            ("VesselStaticData", v)
        }
        P::BaseStationReport(x) => {
            let mut v = flat!(x; own_vessel station mmsi high_position_accuracy latitude longitude position_fix_type raim_flag radio_status);
            time!(v, "timestamp", x.timestamp);
            pos!(v, x);
            ("BaseStationReport", v)
        }
        P::BinaryAddressedMessage(x) => {
            let mut v = flat!(x; own_vessel station mmsi sequence_number destination_mmsi retransmit_flag dac fid);
            pos!(v, x);
            ("BinaryAddressedMessage", v)
        }
        P::StandardSarAircraftPositionReport(x) => {
            let mut v = flat!(x; own_vessel station mmsi altitude sog_knots high_position_accuracy latitude longitude cog
                timestamp_seconds regional dte assigned raim_flag radio_status);
            pos!(v, x);
            ("StandardSarAircraftPositionReport", v)
        }
        P::UtcDateInquiry(x) => ("UtcDateInquiry", flat!(x; own_vessel station source_mmsi destination_mmsi)),
        P::AidToNavigationReport(x) => {
            let mut v = flat!(x; own_vessel station mmsi aid_type name latitude longitude dimension_to_bow dimension_to_stern
                dimension_to_port dimension_to_starboard position_fix_type timestamp_seconds off_position_indicator regional
                raim_flag virtual_aid_flag assigned_mode_flag);
            // the accuracy field of this result is private; its Debug form shows it after the name,
            // which may itself contain any text, so look at the part behind the last occurrence
            let d = format!("{:?}", x);
            let acc = d.rfind("high_position_accuracy: ").map(|i| d[i + 24..].starts_with("true"));
            v.push(("high_position_accuracy", acc.map_or(V::None, V::B)));
            pos!(v, x);
            ("AidToNavigationReport", v)
        }
        P::Gga(x) => {
            let mut v = flat!(x; source latitude longitude quality satellite_count hdop altitude geoid_separation age_of_dgps ref_station_id);
            time!(v, "timestamp", x.timestamp);
            pos!(v, x);
            ("Gga", v)
        }
        P::Rmc(x) => {
            let mut v = flat!(x; source status_active latitude longitude sog_knots bearing variation);
            time!(v, "timestamp", x.timestamp);
            pos!(v, x);
            ("Rmc", v)
        }
        P::Gsa(x) => {
            let mut v = flat!(x; source mode1_automatic mode2_3d pdop hdop vdop);
            v.push(("prn_numbers", V::L(x.prn_numbers.iter().map(|p| *p as i64).collect())));
            ("Gsa", v)
        }
        P::Gsv(s) => {
            let mut v: Flat = vec![("len", V::I(s.len() as i64))];
            for x in s {
                v.push(("source", x.source.v()));
                v.push(("prn_number", x.prn_number.v()));
                v.push(("elevation", x.elevation.v()));
                v.push(("azimuth", x.azimuth.v()));
                v.push(("snr", x.snr.v()));
            }
            ("Gsv", v)
        }
        P::Vtg(x) => ("Vtg", flat!(x; source cog_true cog_magnetic sog_knots sog_kph faa_mode)),
        P::Gll(x) => {
            let mut v = flat!(x; source latitude longitude data_valid faa_mode);
            time!(v, "timestamp", x.timestamp);
            pos!(v, x);
            ("Gll", v)
        }
        #[allow(unreachable_patterns)]
        _ => ("Unknown", vec![]),
    }
}

/// Every displayable code of a result: type, variant, displayed text.
pub fn displayed(p: &ParsedSentence) -> Vec<(&'static str, String, String)> {
    use ParsedSentence as P;
    let mut v = vec![];
    macro_rules! d { ($($t:literal $x:expr),*) => {{ $(v.push(($t, format!("{:?}", $x), $x.to_string()));)* }} }
    match p {
        P::VesselDynamicData(x) => {
            d!("Station" x.station, "AisClass" x.ais_type);
            if let Some(y) = &x.positioning_system_meta { d!("PositioningSystemMeta" y); }
        }
        P::VesselStaticData(x) => {
            d!("AisClass" x.ais_type, "ShipType" x.ship_type, "CargoType" x.cargo_type);
            if let Some(y) = &x.position_fix_type { d!("PositionFixType" y); }
        }
        P::BaseStationReport(x) => {
            d!("Station" x.station);
            if let Some(y) = &x.position_fix_type { d!("PositionFixType" y); }
        }
        P::AidToNavigationReport(x) => {
            d!("Station" x.station, "NavAidType" x.aid_type);
            if let Some(y) = &x.position_fix_type { d!("PositionFixType" y); }
        }
        P::Gga(x) => d!("NavigationSystem" x.source, "GgaQualityIndicator" x.quality),
        P::Gsa(x) => {
            d!("NavigationSystem" x.source);
            if let Some(y) = &x.mode2_3d { d!("GsaFixMode" y); }
        }
        P::Rmc(x) => d!("NavigationSystem" x.source),
        P::Vtg(x) => {
            d!("NavigationSystem" x.source);
            if let Some(y) = &x.faa_mode { d!("FaaMode" y); }
        }
        P::Gll(x) => {
            d!("NavigationSystem" x.source);
            if let Some(y) = &x.faa_mode { d!("FaaMode" y); }
        }
        P::Gsv(x) => if let Some(y) = x.first() { d!("NavigationSystem" y.source); },
        _ => {}
    }
    v
}
pub fn get<'a>(f: &'a Flat, name: &str) -> Option<&'a V> { f.iter().find(|x| x.0 == name).map(|x| &x.1) }
