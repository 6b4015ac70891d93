//! The properties.
use crate::engine::*;
use crate::gen;

mod p01;
mod p03;
mod p04;
mod p06;
mod p07;
mod p08;
mod p12;
mod p14;
mod p20;
mod p22;
mod p23;
mod p24;
mod p26;
mod p27;
mod p28;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(p01::P01),
        Box::new(p01::P02),
        Box::new(p03::P03),
        Box::new(p04::P04),
        Box::new(p04::P05),
        Box::new(p06::P06),
        Box::new(p06::P18),
        Box::new(p07::P07),
        Box::new(p07::P16),
        Box::new(p07::P17),
        Box::new(p08::P08),
        Box::new(p08::P09),
        Box::new(p08::P10),
        Box::new(p08::P11),
        Box::new(p12::P12),
        Box::new(p12::P13),
        Box::new(p04::P19),
        Box::new(p20::P20),
        Box::new(p04::P21),
        Box::new(p22::P22),
        Box::new(p23::P23),
        Box::new(p24::P24),
        Box::new(p24::P25),
        Box::new(p26::P26),
        Box::new(p27::P27),
        Box::new(p28::P28),
        Box::new(p14::P14),
        Box::new(p01::P15),
    ]
}

/// Printable form of an input.
pub fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => {
            let t: String = s.chars().take(600).collect();
            let more = s.chars().count().saturating_sub(600);
            if more > 0 {
                format!("{t:?} (+{more} characters)")
            } else {
                format!("{t:?}")
            }
        }
        Err(_) => {
            let h: String = b.iter().take(300).map(|x| format!("{x:02x}")).collect();
            format!("bytes {h}{}", if b.len() > 300 { "..." } else { "" })
        }
    }
}

pub fn short(s: &str) -> String {
    let t: String = s.chars().take(1200).collect();
    if t.len() < s.len() {
        t + " ..."
    } else {
        t
    }
}

/// An arbitrary byte input: mostly YAML-like text in UTF-8, otherwise UTF-16
/// or damaged bytes.
pub fn bytes(rng: &mut Rng) -> Vec<u8> {
    let mut s = Src::record(rng);
    gen::bytes(&mut s)
}
