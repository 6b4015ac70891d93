//! Event-sequence and document generators.
use crate::engine::Src;
use crate::gen;
use crate::model::*;

pub fn cfg(s: &mut Src) -> EmCfg {
    EmCfg {
        canonical: s.chance(1, 6),
        indent: if s.chance(1, 2) {
            None
        } else {
            Some(*s.pick(&[2, 3, 4, 5, 8, 9, 1, 0, 10, -1, 6, 7, i32::MAX, i32::MIN]))
        },
        width: if s.chance(1, 2) {
            None
        } else {
            Some(if s.chance(1, 20) {
                s.pick(gen::LENGTHS).wrapping_sub(s.below(3)) as i32 * s.range(1, 3) as i32
            } else {
                *s.pick(&[80, 10, 20, 5, 0, 1, -1, -2, 40, 4, 12, 100, 18, i32::MAX, i32::MIN])
            })
        },
        unicode: s.chance(1, 2),
        brk: s.below(4) as u8,
        enc: 0,
    }
}

fn anchor(s: &mut Src, wild: bool) -> Option<Bs> {
    if !s.chance(1, 6) {
        return None;
    }
    if wild && s.chance(1, 8) {
        return Some(s.pick(&["", "a b", "é", "a!", "*", "a\n", "a.b", " "]).to_owned().into());
    }
    Some(s.pick(&["a", "b", "c", "id001", "x-1_Y", "0"]).to_owned().into())
}

pub const TAGS: &[&str] = &[
    "!", "!a", "!a-b", "tag:yaml.org,2002:str", "tag:yaml.org,2002:int", "tag:yaml.org,2002:seq",
    "tag:yaml.org,2002:map", "tag:x,y", "x", "tag:e,2000:foo/bar", "!e!x", "!a b", "!é", "é", "t%41",
    "tag:yaml.org,2002:", "!!", "a,b", "[x]", "!a,b", "tag:e,2000:", "~x", "a{b}", "中", "😀x", "a#b",
    "!<a>", "q!r", "tag:é,é", "*'();:@&=+$,/?#[]",
];

fn tag(s: &mut Src, wild: bool) -> Option<Bs> {
    if !s.chance(1, 5) {
        return None;
    }
    if wild && s.chance(1, 10) {
        return Some("".into());
    }
    Some(s.pick(TAGS).to_owned().into())
}

/// A node as events, with style and tag choices that may or may not be
/// representable.
fn node(s: &mut Src, out: &mut Vec<Ev>, depth: usize, wild: bool) {
    let k = if depth == 0 { s.below(6) } else { s.below(10) };
    match k {
        0..=4 => scalar(s, out, wild),
        5 => out.push(Ev::Alias(
            if wild && s.chance(1, 10) {
                s.pick(&["", "a b", "é", "-", "!"]).to_owned().into()
            } else {
                s.pick(&["a", "b", "c", "id001"]).to_owned().into()
            },
        )),
        6 | 7 => {
            let (a, t) = (anchor(s, wild), tag(s, wild));
            let implicit = if t.is_none() { !wild || !s.chance(1, 20) } else { s.chance(1, 4) };
            out.push(Ev::SeqStart {
                anchor: a,
                tag: t,
                implicit,
                style: s.below(3) as u8,
            });
            for _ in 0..s.below(4) {
                node(s, out, depth - 1, wild);
            }
            out.push(Ev::SeqEnd);
        }
        _ => {
            let (a, t) = (anchor(s, wild), tag(s, wild));
            let implicit = if t.is_none() { !wild || !s.chance(1, 20) } else { s.chance(1, 4) };
            out.push(Ev::MapStart {
                anchor: a,
                tag: t,
                implicit,
                style: s.below(3) as u8,
            });
            for _ in 0..s.below(4) {
                node(s, out, depth - 1, wild);
                node(s, out, depth - 1, wild);
            }
            out.push(Ev::MapEnd);
        }
    }
}

fn scalar(s: &mut Src, out: &mut Vec<Ev>, wild: bool) {
    let (a, t) = (anchor(s, wild), tag(s, wild));
    let (pi, qi) = if t.is_none() {
        if wild && s.chance(1, 20) {
            (false, false)
        } else {
            *s.pick(&[(true, true), (true, false), (false, true)])
        }
    } else {
        *s.pick(&[(false, false), (true, true), (true, false), (false, true)])
    };
    let value = gen::value(s);
    out.push(Ev::Scalar {
        anchor: a,
        tag: t,
        value: value.into(),
        pi,
        qi,
        style: s.below(6) as u8,
    });
}

fn doc_start(s: &mut Src, wild: bool) -> Ev {
    let ver = if s.chance(1, 6) {
        Some(if wild {
            *s.pick(&[(1, 1), (1, 2), (1, 3), (2, 0), (1, 0), (-1, 1)])
        } else {
            *s.pick(&[(1, 1), (1, 2)])
        })
    } else {
        None
    };
    let mut tags: Vec<(Bs, Bs)> = vec![];
    if s.chance(1, 5) {
        for _ in 0..s.range(1, 3) {
            let h = if wild && s.chance(1, 6) {
                *s.pick(&["", "a", "!a", "!é!", "! !", "a!"])
            } else {
                *s.pick(&["!", "!!", "!a!", "!e!", "!b-c!"])
            };
            let p = if wild && s.chance(1, 6) {
                ""
            } else {
                *s.pick(&["tag:e,2000:", "!", "!x-", "tag:yaml.org,2002:", "x", "é", "a b", "tag:x,", "!é", "t%41", "[q],"])
            };
            if wild || !tags.iter().any(|t| t.0 == h.into()) {
                tags.push((h.into(), p.into()));
            }
        }
    }
    Ev::DocStart {
        ver,
        tags,
        implicit: !s.chance(1, 3),
    }
}

/// A grammatical event sequence. `wild` also produces invalid names, tags
/// and flags.
pub fn events(s: &mut Src, wild: bool) -> Vec<Ev> {
    let long = s.chance(1, 400);
    let mut v = sequence(s, wild);
    if long {
        stretch(s, &mut v);
    }
    v
}

fn sequence(s: &mut Src, wild: bool) -> Vec<Ev> {
    let mut v = vec![Ev::StreamStart(0)];
    let docs = match s.below(6) {
        0 => 0,
        1..=3 => 1,
        4 => 2,
        _ => s.range(1, 4),
    };
    for _ in 0..docs {
        v.push(doc_start(s, wild));
        let d = s.below(5);
        node(s, &mut v, d, wild);
        v.push(Ev::DocEnd(!s.chance(1, 3)));
    }
    v.push(Ev::StreamEnd);
    v
}

/// Make the names in an event sequence long: each gets the same long
/// beginning and keeps its end.
pub fn stretch(s: &mut Src, v: &mut [Ev]) {
    let n = *s.pick(gen::LENGTHS) - s.below(3);
    let what = s.below(5);
    let a = "a".repeat(n);
    let put = |x: &mut Bs, at: usize, with: &str| {
        let mut t = x.s().expect("text").to_owned();
        if t.len() >= at {
            t.insert_str(at, with);
            *x = t.into();
        }
    };
    for e in v {
        match e {
            Ev::DocStart { tags, .. } => {
                for (h, p) in tags {
                    if what == 1 && h.s().map_or(false, |h| h.len() > 2) {
                        put(h, 1, &a);
                    }
                    if what == 2 {
                        let at = p.s().map_or(0, |p| p.chars().next().map_or(0, |c| c.len_utf8()));
                        put(p, at, &a);
                    }
                }
            }
            Ev::Alias(x) if what == 0 && !x.s().map_or(true, str::is_empty) => put(x, 0, &a),
            Ev::Scalar { anchor, tag, value, .. } => {
                if let (0, Some(x)) = (what, anchor) {
                    if !x.s().map_or(true, str::is_empty) {
                        put(x, 0, &a);
                    }
                }
                if let (2 | 3, Some(t)) = (what, tag) {
                    stretch_tag(t, &a, what == 2);
                }
                if what == 4 && value.s().map_or(false, |v| v.starts_with(|c: char| c.is_ascii_alphanumeric())) {
                    put(value, 0, &a);
                }
            }
            Ev::SeqStart { anchor, tag, .. } | Ev::MapStart { anchor, tag, .. } => {
                if let (0, Some(x)) = (what, anchor) {
                    if !x.s().map_or(true, str::is_empty) {
                        put(x, 0, &a);
                    }
                }
                if let (2 | 3, Some(t)) = (what, tag) {
                    stretch_tag(t, &a, what == 2);
                }
            }
            _ => {}
        }
    }
}

/// At the place where prefixes are stretched, or at the end.
fn stretch_tag(t: &mut Bs, a: &str, front: bool) {
    let x = t.s().expect("text").to_owned();
    let at = if front { x.chars().next().map_or(0, |c| c.len_utf8()) } else { x.len() };
    if !x.is_empty() && x != "!" {
        *t = format!("{}{a}{}", &x[..at], &x[at..]).into();
    }
}

/// Break the grammar of an event sequence.
pub fn disorder(s: &mut Src, v: &mut Vec<Ev>) {
    for _ in 0..s.range(1, 3) {
        let n = v.len();
        if n == 0 {
            return;
        }
        let i = s.below(n);
        match s.below(5) {
            0 => {
                v.remove(i);
            }
            1 => {
                let e = v[i].clone();
                let j = s.below(n + 1);
                v.insert(j, e);
            }
            2 => {
                let j = s.below(n);
                v.swap(i, j);
            }
            3 => v.truncate(i),
            _ => {
                let e = match s.below(8) {
                    0 => Ev::StreamStart(0),
                    1 => Ev::StreamEnd,
                    2 => Ev::SeqEnd,
                    3 => Ev::MapEnd,
                    4 => Ev::DocEnd(true),
                    5 => doc_start(s, true),
                    6 => Ev::Alias("a".into()),
                    _ => {
                        let mut o = vec![];
                        scalar(s, &mut o, true);
                        o.pop().unwrap()
                    }
                };
                v.insert(i, e);
            }
        }
    }
}

/// Output that crosses the emitter's 16 KiB buffer with something interesting
/// close to the boundary.
pub fn big(s: &mut Src) -> Vec<Ev> {
    if s.chance(1, 3) {
        return huge(s);
    }
    let mut v = vec![
        Ev::StreamStart(0),
        Ev::DocStart {
            ver: None,
            tags: vec![],
            implicit: true,
        },
        Ev::SeqStart {
            anchor: None,
            tag: None,
            implicit: true,
            style: s.below(3) as u8,
        },
    ];
    let push = |v: &mut Vec<Ev>, value: String, style: u8| {
        v.push(Ev::Scalar {
            anchor: None,
            tag: None,
            value: value.into(),
            pi: true,
            qi: true,
            style,
        })
    };
    for _ in 0..s.range(1, 3) {
        // pad to just before a multiple of the buffer size; escapes and
        // indentation grow the output, so several kinds of padding are used
        let (pad, per) = *s.pick(&[("x", 1usize), ("é", 2), ("é", 4), ("中", 3), ("😀", 4), ("x y ", 4), ("a\n", 2), ("😀", 10)]);
        let base = 16384usize * s.range(1, 2);
        let n = (base - s.below(48)) / per;
        let st = s.below(6) as u8;
        push(&mut v, pad.repeat(n.max(1)), st);
        for _ in 0..s.below(12) {
            let val = gen::value(s);
            let st = s.below(6) as u8;
            if s.chance(1, 6) {
                v.push(Ev::Scalar {
                    anchor: Some("a".repeat(s.range(1, 40)).into()),
                    tag: Some(format!("tag:e,2000:{}", "é".repeat(s.below(20))).into()),
                    value: val.into(),
                    pi: false,
                    qi: false,
                    style: st,
                });
            } else {
                push(&mut v, val, st);
            }
        }
    }
    v.push(Ev::SeqEnd);
    v.push(Ev::DocEnd(true));
    v.push(Ev::StreamEnd);
    v
}

/// One dimension is large: nesting, items, lengths of names, directives,
/// documents.
pub fn huge(s: &mut Src) -> Vec<Ev> {
    let around = |s: &mut Src| s.pick(&[128usize, 128, 256, 256, 512, 1000, 1024]) - 3 + s.below(7);
    let mut v = vec![Ev::StreamStart(0)];
    let open = |s: &mut Src, tags: Vec<(Bs, Bs)>| {
        let implicit = !s.chance(1, 3);
        Ev::DocStart { ver: None, tags, implicit }
    };
    let seq = |st: u8| Ev::SeqStart { anchor: None, tag: None, implicit: true, style: st };
    let map = |st: u8| Ev::MapStart { anchor: None, tag: None, implicit: true, style: st };
    let word = |anchor: Option<Bs>, tag: Option<Bs>, value: String, style: u8| Ev::Scalar {
        anchor,
        pi: tag.is_none(),
        qi: tag.is_none(),
        tag,
        value: value.into(),
        style,
    };
    let plain = |v: &str| word(None, None, v.into(), 1);
    let n = around(s);
    match s.below(7) {
        0 => {
            v.push(open(s, vec![]));
            // collections in each other; block style indents every line
            let (kind, st) = (s.below(4), s.below(3) as u8);
            let n = if st == 2 { n } else { n.min(300) };
            let mut ends = vec![];
            for i in 0..n {
                match kind {
                    0 => {
                        v.push(seq(st));
                        ends.push(vec![Ev::SeqEnd]);
                    }
                    1 => {
                        v.push(map(st));
                        v.push(plain("k"));
                        ends.push(vec![Ev::MapEnd]);
                    }
                    2 => {
                        // as keys
                        v.push(map(st));
                        ends.push(vec![plain("v"), Ev::MapEnd]);
                    }
                    _ => {
                        v.push(seq(if i % 2 == 0 { st } else { 2 }));
                        v.push(plain("a"));
                        ends.push(vec![plain("b"), Ev::SeqEnd]);
                    }
                }
            }
            let val = gen::value(s);
            let st = s.below(6) as u8;
            v.push(word(None, None, val, st));
            for e in ends.into_iter().rev() {
                v.extend(e);
            }
            v.push(Ev::DocEnd(true));
        }
        1 | 2 => {
            v.push(open(s, vec![]));
            let st = s.below(3) as u8;
            let m = s.chance(1, 2);
            v.push(if m { map(st) } else { seq(st) });
            for i in 0..n {
                if m {
                    v.push(plain(&format!("k{i}")));
                }
                match i % 5 {
                    3 => v.push(Ev::Alias(format!("a{}", i - 1).into())),
                    _ => v.push(word(Some(format!("a{i}").into()), None, format!("v {i}"), 0)),
                }
            }
            v.push(if m { Ev::MapEnd } else { Ev::SeqEnd });
            v.push(Ev::DocEnd(true));
        }
        3 => {
            // names
            v.push(open(s, vec![(format!("!{}!", "h".repeat(n)).into(), format!("tag:{},", "p".repeat(n)).into())]));
            v.push(map(s.below(3) as u8));
            for _ in 0..s.range(1, 3) {
                let k = s.range(1, 140);
                let a = if s.chance(1, 2) { Some("a".repeat(k).into()) } else { None };
                let t = match s.below(4) {
                    0 => Some(format!("tag:{},x", "p".repeat(n)).into()),
                    1 => Some(format!("tag:yaml.org,2002:{}", "t".repeat(k)).into()),
                    2 => Some(format!("!{}", "é".repeat(k)).into()),
                    _ => None,
                };
                let l = *s.pick(&[1usize, 60, 100, 125, 126, 127, 128, 129, 130]) + s.below(3);
                v.push(word(a, t, "k".repeat(l), s.below(4) as u8));
                v.push(plain("v"));
            }
            v.push(Ev::MapEnd);
            v.push(Ev::DocEnd(true));
        }
        4 => {
            // directives
            let tags = (0..n).map(|i| (format!("!{i}!").into(), format!("tag:{i},").into())).collect();
            v.push(open(s, tags));
            v.push(seq(s.below(3) as u8));
            for _ in 0..s.range(1, 4) {
                let t = format!("tag:{},x", s.below(n + 1));
                v.push(word(None, Some(t.into()), "b".into(), 0));
            }
            v.push(Ev::SeqEnd);
            v.push(Ev::DocEnd(true));
        }
        5 => {
            // documents
            for _ in 0..n {
                v.push(open(s, vec![]));
                let val = if s.chance(1, 20) { gen::value(s) } else { "a".into() };
                v.push(word(None, None, val, s.below(6) as u8));
                v.push(Ev::DocEnd(!s.chance(1, 3)));
            }
        }
        _ => {
            // a scalar of many lines or words
            v.push(open(s, vec![]));
            let l = *s.pick(&["a\n", "\n", " ", "a ", "\u{85}", "é\n\n", " a\n", "\n b", "'", "\"", "\\", "\u{feff}"]);
            v.push(seq(s.below(3) as u8));
            let st = s.below(6) as u8;
            let n = if s.chance(1, 3) { s.range(2, 80) * n } else { n };
            v.push(word(None, None, format!("{}{}{}", s.pick(&["", "x", " ", "\n"]), l.repeat(n), s.pick(&["", "y", " ", "\n", "\n\n"])), st));
            v.push(plain("z"));
            v.push(Ev::SeqEnd);
            v.push(Ev::DocEnd(true));
        }
    }
    v.push(Ev::StreamEnd);
    v
}
