//! Prints what the crate shows for every value of its enumerations: `<type> <Debug>\t<Display>`.
use nmea_parser::{ais::*, gnss::*, ParseError};

const LONG: &str = "a long message, such as one which quotes a whole sentence: !AIVDM,1,1,,A,38Id705000rRVJhE7cl9n;160000,0 and then some more text, well beyond any width a message may be cut at, as in $GPGGA,123519,4807.038,N,01131.324,E,1,08,0.9,545.4,M,46.9,M,,*47";

/// What is shown, if the format options make no difference.
fn show<T: std::fmt::Display>(x: &T) -> String {
    let s = format!("{}", x);
    for t in [format!("{:.2}", x), format!("{:40}", x), format!("{:#}", x), format!("{:+}", x), format!("{:>50.1}", x)] {
        if s != t { return t; }
    }
    s
}

fn main() {
    for x in [AisClass::ClassA, AisClass::ClassB, AisClass::Unknown] { println!("{} {:?}\t{}", "AisClass", x, show(&x)); }
    for x in [CargoType::HazardousCategoryA, CargoType::HazardousCategoryB, CargoType::HazardousCategoryC, CargoType::HazardousCategoryD, CargoType::Reserved5, CargoType::Reserved6, CargoType::Reserved7, CargoType::Reserved8, CargoType::Reserved9, CargoType::Undefined] { println!("{} {:?}\t{}", "CargoType", x, show(&x)); }
    for x in [FaaMode::Autonomous, FaaMode::Differential, FaaMode::Estimated, FaaMode::NotValid, FaaMode::Simulator] { println!("{} {:?}\t{}", "FaaMode", x, show(&x)); }
    for x in [GgaQualityIndicator::DGpsFix, GgaQualityIndicator::DeadReckoning, GgaQualityIndicator::GpsFix, GgaQualityIndicator::Invalid, GgaQualityIndicator::ManualInputMode, GgaQualityIndicator::PpsFix, GgaQualityIndicator::RealTimeKinematic, GgaQualityIndicator::RealTimeKinematicFloat, GgaQualityIndicator::SimulationMode] { println!("{} {:?}\t{}", "GgaQualityIndicator", x, show(&x)); }
    for x in [GsaFixMode::Fix2D, GsaFixMode::Fix3D, GsaFixMode::NotAvailable] { println!("{} {:?}\t{}", "GsaFixMode", x, show(&x)); }
    for x in [NavAidType::BeaconCardinalEast, NavAidType::BeaconCardinalNorth, NavAidType::BeaconCardinalSouth, NavAidType::BeaconCardinalWest, NavAidType::BeaconIsolatedDanger, NavAidType::BeaconLateralPort, NavAidType::BeaconLateralPreferredChannelPort, NavAidType::BeaconLateralPreferredChannelStarboard, NavAidType::BeaconLateralStarboard, NavAidType::BeaconSafeWater, NavAidType::BeaconSpecialMark, NavAidType::CardinalMarkEast, NavAidType::CardinalMarkNorth, NavAidType::CardinalMarkSouth, NavAidType::CardinalMarkWest, NavAidType::FixedStructure, NavAidType::IsolatedDanger, NavAidType::LeadingLightFront, NavAidType::LeadingLightRear, NavAidType::LightVessel, NavAidType::LightWithSectors, NavAidType::LightWithoutSectors, NavAidType::NotSpecified, NavAidType::PortHandMark, NavAidType::PreferredChannelPort, NavAidType::PreferredChannelStarboard, NavAidType::Racon, NavAidType::ReferencePoint, NavAidType::Reserved4, NavAidType::SafeWater, NavAidType::SpecialMark, NavAidType::StarboardHandMark] { println!("{} {:?}\t{}", "NavAidType", x, show(&x)); }
    for x in [NavigationSystem::Beidou, NavigationSystem::Combination, NavigationSystem::Galileo, NavigationSystem::Glonass, NavigationSystem::Gps, NavigationSystem::Navic, NavigationSystem::Other, NavigationSystem::Qzss] { println!("{} {:?}\t{}", "NavigationSystem", x, show(&x)); }
    for x in [PositionFixType::Chayka, PositionFixType::GLONASS, PositionFixType::GPS, PositionFixType::GPSGLONASS, PositionFixType::Galileo, PositionFixType::IntegratedNavigationSystem, PositionFixType::LoranC, PositionFixType::Surveyed, PositionFixType::Undefined] { println!("{} {:?}\t{}", "PositionFixType", x, show(&x)); }
    for x in [PositioningSystemMeta::DeadReckoningMode, PositioningSystemMeta::Inoperative, PositioningSystemMeta::ManualInputMode, PositioningSystemMeta::Operative] { println!("{} {:?}\t{}", "PositioningSystemMeta", x, show(&x)); }
    for x in [ShipType::AntiPollutionEquipment, ShipType::Cargo, ShipType::DivingOps, ShipType::DredgingOrUnderwaterOps, ShipType::Fishing, ShipType::HighSpeedCraft, ShipType::LawEnforcement, ShipType::MedicalTransport, ShipType::MilitaryOps, ShipType::Noncombatant, ShipType::NotAvailable, ShipType::Other, ShipType::Passenger, ShipType::Pilot, ShipType::PleasureCraft, ShipType::PortTender, ShipType::Reserved1, ShipType::Reserved38, ShipType::Reserved39, ShipType::Sailing, ShipType::SearchAndRescue, ShipType::SpareLocal56, ShipType::SpareLocal57, ShipType::Tanker, ShipType::Towing, ShipType::TowingLong, ShipType::Tug, ShipType::WingInGround] { println!("{} {:?}\t{}", "ShipType", x, show(&x)); }
    for x in [Station::AidToNavigationStation, Station::AisReceivingStation, Station::AisTransmittingStation, Station::BaseStation, Station::DependentAisBaseStation, Station::LimitedBaseStation, Station::MobileStation, Station::Other, Station::RepeaterStation] { println!("{} {:?}\t{}", "Station", x, show(&x)); }
    println!("default Station\t{:?}", Station::default());
    println!("default AisClass\t{:?}", AisClass::default());
    println!("default NavigationStatus\t{:?}", NavigationStatus::default());
    println!("default ShipType\t{:?}", ShipType::default());
    println!("default CargoType\t{:?}", CargoType::default());
    println!("default NavAidType\t{:?}", NavAidType::default());
    for s in ["", "a message", "\u{20ac}", " ", " x", "x ", "x\r\n", "\t", "\"q\" \\", "UPPER lower", "{}", "checksum", "unsupported", "x\u{a0}", "\0", LONG] {
        for (n, e) in [("U", ParseError::UnsupportedSentenceType(s.to_string())), ("C", ParseError::CorruptedSentence(s.to_string())), ("I", ParseError::InvalidSentence(s.to_string()))] {
            println!("error {} {:?}\t{:?}", n, s, e.to_string());
        }
        println!("from {:?}\t{:?}", s, ParseError::from(s.to_string()));
    }
}
