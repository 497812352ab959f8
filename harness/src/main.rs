//! Runs the real crate on the sentences it is given on stdin, one command per line:
//!   N            a new parser
//!   S <hex>      parse the sentence (UTF-8, hex encoded) with the current parser
//! One line per S: `R <unix ms before> <unix ms after> <Debug of the result>`, followed for records by
//! ` \x1f lat <Debug> lon <Debug>` and ` \x1f country <Debug>`, or `P <panic message>`.
use nmea_parser::{LatLon, NmeaParser, ParsedSentence as PS};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn now() -> u128 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis()
}

fn ll<T: LatLon>(x: &T) -> String {
    format!(" \x1flat {:?} \x1flon {:?}", x.latitude(), x.longitude())
}

fn extra(r: &PS) -> String {
    match r {
        PS::VesselDynamicData(x) => ll(x),
        PS::BaseStationReport(x) => ll(x),
        PS::BinaryAddressedMessage(x) => ll(x),
        PS::StandardSarAircraftPositionReport(x) => ll(x),
        PS::AidToNavigationReport(x) => ll(x),
        PS::Gga(x) => ll(x),
        PS::Rmc(x) => ll(x),
        PS::Gll(x) => ll(x),
        PS::VesselStaticData(x) => format!("\x1fcountry {:?}", x.country()),
        _ => String::new(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    let mut p = NmeaParser::new();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line == "N" { p = NmeaParser::new(); continue; }
        if line == "F" { out.flush().unwrap(); continue; }
        let hex = match line.strip_prefix("S ") { Some(h) => h, None => continue };
        let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        let s = match String::from_utf8(bytes) { Ok(s) => s, Err(_) => { writeln!(out, "U").unwrap(); continue; } };
        let t0 = now();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let r = p.parse_sentence(&s);
            let x = match &r { Ok(x) => extra(x), Err(_) => String::new() };
            format!("{:?}{}", r, x)
        }));
        let t1 = now();
        match r {
            Ok(x) => writeln!(out, "R {} {} {}", t0, t1, x).unwrap(),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                writeln!(out, "P {:?}", m).unwrap();
                p = NmeaParser::new();
            }
        }
    }
}
