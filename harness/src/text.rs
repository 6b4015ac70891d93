//! Independent model of the character stream: encoding detection, decoding,
//! validity and positions. Written from the YAML 1.1 character rules; shares
//! no code with the library or the reference.
use crate::model::Mk;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Enc {
    Utf8,
    Le,
    Be,
}

impl Enc {
    /// value reported in the STREAM-START event
    pub fn code(self) -> u8 {
        match self {
            Enc::Utf8 => 1,
            Enc::Le => 2,
            Enc::Be => 3,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BadWhat {
    /// malformed byte sequence
    Malformed,
    /// sequence cut off by the end of the input
    Truncated,
    /// character outside the YAML character set
    Control(u32),
    /// 0xFF/0xFE first byte without a byte order mark
    Bom,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Bad {
    pub what: BadWhat,
    /// byte offset of the offending unit
    pub offset: usize,
}

#[derive(Clone, Debug)]
pub struct Decoded {
    pub enc: Enc,
    pub chars: Vec<char>,
    pub bad: Option<Bad>,
}

pub fn allowed(c: u32) -> bool {
    matches!(c, 0x09 | 0x0a | 0x0d | 0x85)
        || (0x20..=0x7e).contains(&c)
        || (0xa0..=0xd7ff).contains(&c)
        || (0xe000..=0xfffd).contains(&c)
        || (0x10000..=0x10ffff).contains(&c)
}

pub fn decode(b: &[u8]) -> Decoded {
    let (enc, start) = match b {
        [0xff, 0xfe, ..] => (Enc::Le, 2),
        [0xfe, 0xff, ..] => (Enc::Be, 2),
        [0xef, 0xbb, 0xbf, ..] => (Enc::Utf8, 3),
        [0xff, ..] | [0xfe, ..] => {
            return Decoded {
                enc: Enc::Utf8,
                chars: vec![],
                bad: Some(Bad {
                    what: BadWhat::Bom,
                    offset: 0,
                }),
            }
        }
        _ => (Enc::Utf8, 0),
    };
    decode_from(b, enc, start)
}

/// Decode in a given encoding; a byte order mark is a character.
pub fn decode_as(b: &[u8], enc: Enc) -> Decoded {
    decode_from(b, enc, 0)
}

fn decode_from(b: &[u8], enc: Enc, start: usize) -> Decoded {
    let mut d = Decoded {
        enc,
        chars: vec![],
        bad: None,
    };
    let mut i = start;
    while i < b.len() {
        let r = match enc {
            Enc::Utf8 => utf8(&b[i..]),
            Enc::Le => utf16(&b[i..], false),
            Enc::Be => utf16(&b[i..], true),
        };
        let what = match r {
            Ok((c, n)) => {
                if allowed(c) {
                    d.chars.push(char::from_u32(c).expect("scalar value"));
                    i += n;
                    continue;
                }
                BadWhat::Control(c)
            }
            Err(w) => w,
        };
        d.bad = Some(Bad { what, offset: i });
        return d;
    }
    d
}

fn utf8(b: &[u8]) -> Result<(u32, usize), BadWhat> {
    let f = b[0] as u32;
    let (n, init, min) = match f {
        0..=0x7f => return Ok((f, 1)),
        0xc0..=0xdf => (2, f & 0x1f, 0x80),
        0xe0..=0xef => (3, f & 0x0f, 0x800),
        0xf0..=0xf7 => (4, f & 0x07, 0x10000),
        _ => return Err(BadWhat::Malformed),
    };
    let mut v = init;
    for k in 1..n {
        match b.get(k) {
            None => return Err(BadWhat::Truncated),
            Some(x) if x & 0xc0 == 0x80 => v = v << 6 | (*x as u32 & 0x3f),
            Some(_) => return Err(BadWhat::Malformed),
        }
    }
    if v < min || (0xd800..=0xdfff).contains(&v) || v > 0x10ffff {
        return Err(BadWhat::Malformed);
    }
    Ok((v, n))
}

fn utf16(b: &[u8], be: bool) -> Result<(u32, usize), BadWhat> {
    let unit = |k: usize| -> Option<u32> {
        let (x, y) = (*b.get(k)?, *b.get(k + 1)?);
        Some(if be {
            (x as u32) << 8 | y as u32
        } else {
            (y as u32) << 8 | x as u32
        })
    };
    let a = unit(0).ok_or(BadWhat::Truncated)?;
    match a {
        0xdc00..=0xdfff => Err(BadWhat::Malformed),
        0xd800..=0xdbff => {
            let c = unit(2).ok_or(BadWhat::Truncated)?;
            if !(0xdc00..=0xdfff).contains(&c) {
                return Err(BadWhat::Malformed);
            }
            Ok((0x10000 + ((a - 0xd800) << 10) + (c - 0xdc00), 4))
        }
        _ => Ok((a, 2)),
    }
}

/// Marks of every character position of a text (one more than characters).
pub fn positions(chars: &[char]) -> Vec<Mk> {
    let mut v = Vec::with_capacity(chars.len() + 1);
    let (mut l, mut c) = (0, 0);
    for (i, ch) in chars.iter().enumerate() {
        v.push(Mk {
            i: i as u64,
            l,
            c,
        });
        let brk = match ch {
            '\r' => chars.get(i + 1) != Some(&'\n'),
            '\n' | '\u{85}' | '\u{2028}' | '\u{2029}' => true,
            _ => false,
        };
        if brk {
            l += 1;
            c = 0;
        } else {
            c += 1;
        }
    }
    v.push(Mk {
        i: chars.len() as u64,
        l,
        c,
    });
    v
}

/// libyaml copies the octets of %XX escapes into a C string: escapes that
/// spell NUL or do not spell UTF-8 have no meaning it could agree on.
pub fn odd_escapes(chars: &[char]) -> bool {
    let mut i = 0;
    let hex = |c: Option<&char>| c.and_then(|c| c.to_digit(16));
    while i < chars.len() {
        if chars[i] != '%' {
            i += 1;
            continue;
        }
        let mut run = vec![];
        while chars.get(i) == Some(&'%') {
            match (hex(chars.get(i + 1)), hex(chars.get(i + 2))) {
                (Some(a), Some(b)) => {
                    run.push((a * 16 + b) as u8);
                    i += 3;
                }
                _ => {
                    i += 1;
                    break;
                }
            }
        }
        if run.contains(&0) || std::str::from_utf8(&run).is_err() {
            return true;
        }
    }
    false
}
