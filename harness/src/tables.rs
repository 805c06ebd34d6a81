//! Code tables, written from ITU-R M.1371, NMEA 0183 and the ITU MID list.
pub const NAV_STATUS: [&str; 16] = ["UnderWayUsingEngine", "AtAnchor", "NotUnderCommand", "RestrictedManoeuverability",
    "ConstrainedByDraught", "Moored", "Aground", "EngagedInFishing", "UnderWaySailing", "Reserved9", "Reserved10",
    "Reserved11", "Reserved12", "Reserved13", "AisSartIsActive", "NotDefined"];
pub fn epfd(raw: u64) -> &'static str {
    ["Undefined", "GPS", "GLONASS", "GPSGLONASS", "LoranC", "Chayka", "IntegratedNavigationSystem", "Surveyed", "Galileo"]
        .get(raw as usize).copied().unwrap_or("Undefined")
}
pub fn ship_type(raw: u64) -> &'static str {
    match raw / 10 {
        1 => "Reserved1",
        2 => "WingInGround",
        3 => ["Fishing", "Towing", "TowingLong", "DredgingOrUnderwaterOps", "DivingOps", "MilitaryOps", "Sailing",
              "PleasureCraft", "Reserved38", "Reserved39"][(raw % 10) as usize],
        4 => "HighSpeedCraft",
        5 => ["Pilot", "SearchAndRescue", "Tug", "PortTender", "AntiPollutionEquipment", "LawEnforcement", "SpareLocal56",
              "SpareLocal57", "MedicalTransport", "Noncombatant"][(raw % 10) as usize],
        6 => "Passenger",
        7 => "Cargo",
        8 => "Tanker",
        9 => "Other",
        _ => "NotAvailable",
    }
}
pub fn cargo_type(raw: u64) -> &'static str {
    match raw / 10 {
        1 | 2 | 4 | 6 | 7 | 8 | 9 => ["Undefined", "HazardousCategoryA", "HazardousCategoryB", "HazardousCategoryC",
            "HazardousCategoryD", "Reserved5", "Reserved6", "Reserved7", "Reserved8", "Reserved9"][(raw % 10) as usize],
        _ => "Undefined",
    }
}
pub const AID_TYPE: [&str; 32] = ["NotSpecified", "ReferencePoint", "Racon", "FixedStructure", "Reserved4",
    "LightWithoutSectors", "LightWithSectors", "LeadingLightFront", "LeadingLightRear", "BeaconCardinalNorth",
    "BeaconCardinalEast", "BeaconCardinalSouth", "BeaconCardinalWest", "BeaconLateralPort", "BeaconLateralStarboard",
    "BeaconLateralPreferredChannelPort", "BeaconLateralPreferredChannelStarboard", "BeaconIsolatedDanger",
    "BeaconSafeWater", "BeaconSpecialMark", "CardinalMarkNorth", "CardinalMarkEast", "CardinalMarkSouth",
    "CardinalMarkWest", "PortHandMark", "StarboardHandMark", "PreferredChannelPort", "PreferredChannelStarboard",
    "IsolatedDanger", "SafeWater", "SpecialMark", "LightVessel"];
pub const GGA_QUALITY: [&str; 9] = ["Invalid", "GpsFix", "DGpsFix", "PpsFix", "RealTimeKinematic",
    "RealTimeKinematicFloat", "DeadReckoning", "ManualInputMode", "SimulationMode"];
pub const FAA: [(&str, &str); 5] = [("A", "Autonomous"), ("D", "Differential"), ("E", "Estimated"), ("N", "NotValid"), ("S", "Simulator")];

/// ITU maritime identification digits -> ISO 3166 codes that name the administration.
pub const MID: &str = "201AL 202AD 203AT 204PT 205BE 206BY 207BG 208VA 209CY 210CY 211DE 212CY 213GE 214MD 215MT 216AM \
218DE 219DK 220DK 224ES 225ES 226FR 227FR 228FR 229MT 230FI 231FO 232GB 233GB 234GB 235GB 236GI 237GR 238HR 239GR 240GR \
241GR 242MA 243HU 244NL 245NL 246NL 247IT 248MT 249MT 250IE 251IS 252LI 253LU 254MC 255PT 256MT 257NO 258NO 259NO 261PL \
262ME 263PT 264RO 265SE 266SE 267SK 268SM 269CH 270CZ 271TR 272UA 273RU 274MK 275LV 276EE 277LT 278SI 279RS 301AI 303US \
304AG 305AG 306BQ|CW|SX 307AW 308BS 309BS 310BM 311BS 312BZ 314BB 316CA 319KY 321CR 323CU 325DM 327DO 329GP 330GD 331GL 332GT \
334HN 336HT 338US 339JM 341KN 343LC 345MX 347MQ 348MS 350NI 351PA 352PA 353PA 354PA 355PA 356PA 357PA 358PR 359SV 361PM \
362TT 364TC 366US 367US 368US 369US 370PA 371PA 372PA 373PA 374PA 375VC 376VC 377VC 378VG 379VI 401AF 403SA 405BD 408BH \
410BT 412CN 413CN 414CN 416TW 417LK 419IN 422IR 423AZ 425IQ 428IL 431JP 432JP 434TM 436KZ 437UZ 438JO 440KR 441KR 443PS \
445KP 447KW 450LB 451KG 453MO 455MV 457MN 459NP 461OM 463PK 466QA 468SY 470AE 471AE 472TJ 473YE 475YE 477HK 478BA 501TF \
503AU 506MM 508BN 510FM 511PW 512NZ 514KH 515KH 516CX 518CK 520FJ 523CC 525ID 529KI 531LA 533MY 536MP 538MH 540NC 542NU \
544NR 546PF 548PH 550TL 553PG 555PN 557SB 559AS 561WS 563SG 564SG 565SG 566SG 567TH 570TO 572TV 574VN 576VU 577VU 578WF \
601ZA 603AO 605DZ 607TF 608SH 609BI 610BJ 611BW 612CF 613CM 615CG 616KM 617CV 618TF 619CI 620KM 621DJ 622EG 624ET 625ER \
626GA 627GH 629GM 630GW 631GQ 632GN 633BF 634KE 635TF 636LR 637LR 638SS 642LY 644LS 645MU 647MG 649ML 650MZ 654MR 655MW \
656NE 657NG 659NA 660RE 661RW 662SD 663SN 664SC 665SH 666SO 667SL 668ST 669SZ 670TD 671TG 672TN 674TZ 675UG 676CD 677TZ \
678ZM 679ZW 701AR 710BR 720BO 725CL 730CO 735EC 740FK 745GF 750GY 755PY 760PE 765SR 770UY 775VE";
/// Codes accepted per three-digit prefix; empty when unassigned.
pub fn mid_table() -> Vec<Vec<&'static str>> {
    let mut t = vec![vec![]; 1000];
    for w in MID.split_whitespace() { t[w[..3].parse::<usize>().unwrap()] = w[3..].split('|').collect(); }
    t
}
/// Displayed texts by type and variant; compared without case, blanks and punctuation.
pub const DISPLAY: &[(&str, &[(&str, &str)])] = &[
    ("GsaFixMode", &[("NotAvailable", "no available"), ("Fix2D", "2D fix"), ("Fix3D", "3D fix")]),
    ("NavigationSystem", &[("Combination", "combination"), ("Gps", "GPS"), ("Glonass", "GLONASS"), ("Galileo", "Galileo"), ("Beidou", "BeiDou"), ("Navic", "Navic"), ("Qzss", "QZSS"), ("Other", "other")]),
    ("FaaMode", &[("Autonomous", "A"), ("Differential", "D"), ("Estimated", "E"), ("NotValid", "N"), ("Simulator", "S")]),
    ("GgaQualityIndicator", &[("Invalid", "invalid"), ("GpsFix", "GPS fix"), ("DGpsFix", "DGPS fix"), ("PpsFix", "PPS fix"), ("RealTimeKinematic", "Real-Time Kinematic"), ("RealTimeKinematicFloat", "Real-Time Kinematic (floating point)"), ("DeadReckoning", "dead reckoning"), ("ManualInputMode", "manual input mode"), ("SimulationMode", "simulation mode")]),
    ("Station", &[("BaseStation", "base station"), ("DependentAisBaseStation", "dependent AIS base station"), ("MobileStation", "mobile station"), ("AidToNavigationStation", "aid to navigation station"), ("AisReceivingStation", "ais receiving station"), ("LimitedBaseStation", "limited base station"), ("AisTransmittingStation", "AIS transmitting station"), ("RepeaterStation", "repeater station"), ("Other", "other")]),
    ("AisClass", &[("Unknown", "unknown"), ("ClassA", "Class A"), ("ClassB", "Class B")]),
    ("PositioningSystemMeta", &[("Operative", "operative"), ("ManualInputMode", "manual input mode"), ("DeadReckoningMode", "dead reckoning mode"), ("Inoperative", "inoperative")]),
    ("ShipType", &[("NotAvailable", "(not available)"), ("Reserved1", "(reserved)"), ("WingInGround", "wing in ground"), ("Fishing", "fishing"), ("Towing", "towing"), ("TowingLong", "towing, long"), ("DredgingOrUnderwaterOps", "dredging or underwater ops"), ("DivingOps", "diving ops"), ("MilitaryOps", "military ops"), ("Sailing", "sailing"), ("PleasureCraft", "pleasure craft"), ("Reserved38", "(reserved)"), ("Reserved39", "(reserved)"), ("HighSpeedCraft", "high-speed craft"), ("Pilot", "pilot"), ("SearchAndRescue", "search and rescue"), ("Tug", "tug"), ("PortTender", "port tender"), ("AntiPollutionEquipment", "anti-pollution equipment"), ("LawEnforcement", "law enforcement"), ("SpareLocal56", "(local)"), ("SpareLocal57", "(local)"), ("MedicalTransport", "medical transport"), ("Noncombatant", "noncombatant"), ("Passenger", "passenger"), ("Cargo", "cargo"), ("Tanker", "tanker"), ("Other", "other")]),
    ("CargoType", &[("Undefined", "undefined"), ("HazardousCategoryA", "hazardous category A"), ("HazardousCategoryB", "hazardous category B"), ("HazardousCategoryC", "hazardous category C"), ("HazardousCategoryD", "hazardous category D"), ("Reserved5", "(reserved)"), ("Reserved6", "(reserved)"), ("Reserved7", "(reserved)"), ("Reserved8", "(reserved)"), ("Reserved9", "(reserved)")]),
    ("PositionFixType", &[("Undefined", "undefined"), ("GPS", "GPS"), ("GLONASS", "GLONASS"), ("GPSGLONASS", "GPS/GLONASS"), ("LoranC", "Loran-C"), ("Chayka", "Chayka"), ("IntegratedNavigationSystem", "integrated navigation system"), ("Surveyed", "surveyed"), ("Galileo", "Galileo")]),
    ("NavAidType", &[("NotSpecified", "not specified"), ("ReferencePoint", "reference point"), ("Racon", "RACON"), ("FixedStructure", "FixedStructure"), ("Reserved4", "(reserved)"), ("LightWithoutSectors", "light without sectors"), ("LightWithSectors", "light with sectors"), ("LeadingLightFront", "leading light front"), ("LeadingLightRear", "leading light rear"), ("BeaconCardinalNorth", "cardinal beacon, north"), ("BeaconCardinalEast", "cardinal beacon, east"), ("BeaconCardinalSouth", "cardinal beacon, south"), ("BeaconCardinalWest", "cardinal beacon, west"), ("BeaconLateralPort", "lateral beacon, port side"), ("BeaconLateralStarboard", "lateral beacon, starboard side"), ("BeaconLateralPreferredChannelPort", "lateral beacon, preferred channel, port side"), ("BeaconLateralPreferredChannelStarboard", "lateral beacon, preferred channel, starboard side"), ("BeaconIsolatedDanger", "isolated danger beacon"), ("BeaconSafeWater", "safe water"), ("BeaconSpecialMark", "special mark"), ("CardinalMarkNorth", "cardinal mark, north"), ("CardinalMarkEast", "cardinal mark, east"), ("CardinalMarkSouth", "cardinal mark, south"), ("CardinalMarkWest", "cardinal mark, west"), ("PortHandMark", "port hand mark"), ("StarboardHandMark", "starboard hand mark"), ("PreferredChannelPort", "preferred channel, port side"), ("PreferredChannelStarboard", "preferred channel, starboard side"), ("IsolatedDanger", "isolated danger"), ("SafeWater", "safe water"), ("SpecialMark", "special mark"), ("LightVessel", "light vessel")]),
];

/// Whether the text names the variant of the type.
pub fn names(ty: &str, variant: &str, text: &str) -> bool {
    let plain = |s: &str| s.chars().filter(|c| c.is_alphanumeric()).flat_map(|c| c.to_lowercase()).collect::<String>();
    if (ty, variant, plain(text).as_str()) == ("GsaFixMode", "NotAvailable", "notavailable") { return true; }
    DISPLAY.iter().find(|x| x.0 == ty).and_then(|x| x.1.iter().find(|y| y.0 == variant)).is_some_and(|y| plain(y.1) == plain(text))
}
