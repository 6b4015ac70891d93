//! P26: the public values — events, tokens, marks, directives, errors — hold,
//! compare, copy and convert as what they are.
use super::p12::KINDS;
use super::*;
use crate::model::*;
use crate::{evgen, sut};
use libyaml_safer as y;
use std::error::Error as _;

pub struct P26;

enum Case {
    /// two events through the constructors; what was changed in the second
    Events(Ev, Ev, &'static str),
    /// two texts, scanned and parsed
    Texts(Vec<u8>, Vec<u8>),
    /// an error of this kind and message from the reader
    Io(u8, String, Vec<u8>),
}

fn string(s: &mut Src) -> Bs {
    match s.below(8) {
        0 => "".into(),
        1 => "x".repeat(s.range(1, 300)).into(),
        2 => "a\0b".into(),
        3 => "\u{feff}".into(),
        _ => gen::value(s).into(),
    }
}

fn opt(s: &mut Src) -> Option<Bs> {
    s.chance(1, 2).then(|| string(s))
}

/// Any event at all, sensible or not.
fn event(s: &mut Src) -> Ev {
    match s.below(10) {
        0 => Ev::StreamStart(s.below(4) as u8),
        1 => [Ev::StreamEnd, Ev::SeqEnd, Ev::MapEnd][s.below(3)].clone(),
        2 | 3 => Ev::DocStart {
            ver: s.chance(1, 2).then(|| (*s.pick(&[1, 0, -1, 2, 255, 256, i32::MAX, i32::MIN]), *s.pick(&[1, 2, 0, -7, i32::MAX]))),
            tags: (0..s.below(4)).map(|_| (string(s), string(s))).collect(),
            implicit: s.chance(1, 2),
        },
        4 => Ev::DocEnd(s.chance(1, 2)),
        5 => Ev::Alias(string(s)),
        6 => Ev::SeqStart { anchor: opt(s), tag: opt(s), implicit: s.chance(1, 2), style: s.below(3) as u8 },
        7 => Ev::MapStart { anchor: opt(s), tag: opt(s), implicit: s.chance(1, 2), style: s.below(3) as u8 },
        _ => Ev::Scalar {
            anchor: opt(s),
            tag: opt(s),
            value: string(s),
            pi: s.chance(1, 2),
            qi: s.chance(1, 2),
            style: s.below(6) as u8,
        },
    }
}

fn other_string(s: &mut Src, v: &mut Bs) {
    let mut t = v.s().unwrap_or("").to_string();
    match s.below(5) {
        0 => t.push(' '),
        1 => t.insert(0, 'x'),
        2 if !t.is_empty() => {
            t.pop();
        }
        3 if t.chars().any(|c| c.is_lowercase() && c.to_uppercase().count() == 1) => {
            // one letter in the other case
            let i = t.char_indices().find(|(_, c)| c.is_lowercase() && c.to_uppercase().count() == 1).unwrap();
            let u: String = i.1.to_uppercase().collect();
            t.replace_range(i.0..i.0 + i.1.len_utf8(), &u);
        }
        4 if !t.is_empty() => {
            // another last character
            let c = t.pop().unwrap();
            t.push(if c == 'q' { 'r' } else { 'q' });
        }
        _ => t.push('\0'),
    }
    *v = t.into();
}

fn other_opt(s: &mut Src, v: &mut Option<Bs>) {
    match v {
        Some(_) if s.chance(1, 2) => *v = None,
        Some(x) => other_string(s, x),
        None => *v = Some(if s.chance(1, 2) { "".into() } else { "a".into() }),
    }
}

/// Change one thing; its name.
fn other(s: &mut Src, e: &mut Ev) -> &'static str {
    let step = |x: &mut u8, n: u8, s: &mut Src| *x = (*x + s.range(1, n as usize - 1) as u8) % n;
    match e {
        Ev::StreamStart(x) => {
            step(x, 4, s);
            "encoding"
        }
        Ev::DocEnd(x) => {
            *x = !*x;
            "implicit"
        }
        Ev::Alias(x) => {
            other_string(s, x);
            "alias"
        }
        Ev::DocStart { ver, tags, implicit } => match s.below(4) {
            0 => {
                *implicit = !*implicit;
                "implicit"
            }
            1 => {
                match ver {
                    Some(v) if s.chance(1, 3) => v.0 = v.0.wrapping_add(1),
                    Some(v) if s.chance(1, 2) => v.1 = v.1.wrapping_sub(1),
                    Some(_) => *ver = None,
                    None => *ver = Some((0, 0)),
                }
                "version"
            }
            2 if !tags.is_empty() => {
                let i = s.below(tags.len());
                match s.below(3) {
                    0 => other_string(s, &mut tags[i].0),
                    1 => other_string(s, &mut tags[i].1),
                    _ => {
                        tags.remove(i);
                    }
                }
                "tag directive"
            }
            _ => {
                tags.push(("!".into(), "!".into()));
                "tag directive"
            }
        },
        Ev::Scalar { anchor, tag, value, pi, qi, style } => match s.below(6) {
            0 => {
                other_opt(s, anchor);
                "anchor"
            }
            1 => {
                other_opt(s, tag);
                "tag"
            }
            2 => {
                other_string(s, value);
                "value"
            }
            3 => {
                *pi = !*pi;
                "implicit"
            }
            4 => {
                *qi = !*qi;
                "implicit"
            }
            _ => {
                step(style, 6, s);
                "style"
            }
        },
        Ev::SeqStart { anchor, tag, implicit, style } | Ev::MapStart { anchor, tag, implicit, style } => match s.below(4) {
            0 => {
                other_opt(s, anchor);
                "anchor"
            }
            1 => {
                other_opt(s, tag);
                "tag"
            }
            2 => {
                *implicit = !*implicit;
                "implicit"
            }
            _ => {
                step(style, 3, s);
                "style"
            }
        },
        x => {
            *x = match x {
                Ev::SeqEnd => Ev::MapEnd,
                Ev::MapEnd => Ev::StreamEnd,
                _ => Ev::SeqEnd,
            };
            "kind"
        }
    }
}

fn case(s: &mut Src) -> Case {
    match s.below(8) {
        0..=3 => {
            let a = event(s);
            let mut b = a.clone();
            let what = match s.below(8) {
                0 => "nothing",
                1 => {
                    b = event(s);
                    "everything"
                }
                _ => other(s, &mut b),
            };
            Case::Events(a, b, what)
        }
        4..=6 => {
            let a = if s.chance(1, 3) {
                let e = evgen::events(s, false);
                sut::emit(&evgen::cfg(s), &e, true).bytes
            } else if s.chance(1, 2) {
                gen::yaml(s).into_bytes()
            } else {
                gen::loose(s).into_bytes()
            };
            let mut b = a.clone();
            if !s.chance(1, 6) && !b.is_empty() {
                let i = s.below(b.len());
                match s.below(4) {
                    0 => b[i] = b' ' + s.below(95) as u8,
                    1 => b.insert(i, *s.pick(b" \nax'\"-:")),
                    2 => {
                        b.remove(i);
                    }
                    _ => {
                        b.insert(0, *s.pick(b"\n "));
                    }
                }
            }
            Case::Texts(a, b)
        }
        _ => {
            let k = s.below(256) as u8;
            let m = gen::value(s);
            let n = s.below(40);
            Case::Io(k, m, gen::yaml(s).into_bytes().into_iter().take(n).collect())
        }
    }
}

/// An I/O error with a payload, of a kind alone, or of the operating system.
fn io_err(k: u8, m: &str) -> std::io::Error {
    let kind = KINDS[k as usize % KINDS.len()];
    match k / 64 {
        0 | 1 => std::io::Error::new(kind, m.to_string()),
        2 => kind.into(),
        _ => std::io::Error::from_raw_os_error(5 + k as i32 % 64),
    }
}

/// Fails once everything is read.
struct Failing<'a>(&'a [u8], u8, &'a str);
impl std::io::Read for Failing<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() {
            return Err(io_err(self.1, self.2));
        }
        std::io::Read::read(&mut self.0, b)
    }
}

fn is_mark(m: y::Mark, what: &str) -> Verdict {
    let want = format!("line {} column {}", m.line + 1, m.column + 1);
    if m.to_string() != want {
        return Err(format!("mark {:?} of {what} is displayed as {:?}", sut::mk(m), m.to_string()));
    }
    let copy = m;
    if copy != m {
        return Err(format!("a copy of the mark {:?} differs", sut::mk(m)));
    }
    // a mark may be anywhere
    let h = fnv(&[m.index.to_le_bytes(), m.line.to_le_bytes(), m.column.to_le_bytes()].concat());
    if h % 64 != 0 {
        return Ok(());
    }
    let k = [1, 7, 8, 12, 15, 16, 24, 31, 32, 33, 48, 62][(h / 64 % 12) as usize];
    for (line, column, index) in [(1 << k, 0, 0), (0, 1 << k, 0), (0, 0, 1 << k), ((1 << k) - 1, (1 << k) - 1, 0)] {
        let mut far = m;
        far.line = m.line ^ line;
        far.column = m.column ^ column;
        far.index = m.index ^ index;
        let want = format!("line {} column {}", far.line + 1, far.column + 1);
        if far.to_string() != want {
            return Err(format!("mark {:?} is displayed as {:?}", sut::mk(far), far.to_string()));
        }
        if (far == m) != (sut::mk(far) == sut::mk(m)) {
            return Err(format!("the marks {:?} and {:?} are wrongly equal", sut::mk(far), sut::mk(m)));
        }
    }
    Ok(())
}

/// A copy of a document, or of a part of one, is as its original, whichever
/// way it is made, and stays so when the original changes.
fn copies(d: &mut y::Document) -> Verdict {
    let was = sut::doc(d);
    let copy = d.clone();
    let mut over = y::Document::new(None, &[], true, false);
    let _ = over.add_scalar(None, "x", y::ScalarStyle::Plain);
    over.clone_from(d);
    let mut parts = y::Document::new(d.version_directive, &d.tag_directives.clone(), d.start_implicit, d.end_implicit);
    parts.start_mark = d.start_mark;
    parts.end_mark = d.end_mark;
    for n in &d.nodes {
        let mut m = y::Node::default();
        m.tag.clone_from(&n.tag);
        m.start_mark = n.start_mark;
        m.end_mark = n.end_mark;
        m.data = n.data.clone();
        parts.nodes.push(if parts.nodes.len() % 2 == 0 { n.clone() } else { m });
    }
    for (c, what) in [(&copy, "copy"), (&over, "copy over another"), (&parts, "copy node by node")] {
        let c = sut::doc(c);
        if c != was {
            return Err(format!("{what} of {was:?} is {c:?}"));
        }
    }
    if let Some(n) = d.nodes.last_mut() {
        n.tag = Some("changed".into());
        n.data = y::NodeData::default();
    }
    d.tag_directives.clear();
    let c = sut::doc(&copy);
    if c != was {
        return Err(format!("copy of {was:?} changes with it to {c:?}"));
    }
    *d = copy;
    Ok(())
}

/// Everything an error says, in one way or another, agrees.
fn whole(e: y::Error) -> Verdict {
    let n = sut::err(&e);
    let kind = e.kind();
    if e.source().is_some() != (n.kind == Kind::Io) {
        return Err(format!("source of {n:?}"));
    }
    let name = kind.to_string();
    let want = match n.kind {
        Kind::Reader => "Reader",
        Kind::Scanner => "Scanner",
        Kind::Parser => "Parser",
        Kind::Composer => "Composer",
        Kind::Emitter => "Emitter",
        Kind::Io => "I/O",
    };
    if name != want || !n.display.starts_with(&format!("{want} error: ")) {
        return Err(format!("kind {:?} displayed as {name:?}, error as {:?}", n.kind, n.display));
    }
    if matches!(n.kind, Kind::Scanner | Kind::Parser | Kind::Composer) {
        let at = |m: &Option<Mk>| m.as_ref().map_or("nowhere".into(), |m| format!("line {} column {}", m.l + 1, m.c + 1));
        let mut want = format!("{want} error: {}: {}", at(&n.pmark), n.problem);
        if let Some(c) = &n.context {
            want += &format!(" {c} ({})", at(&n.cmark));
        }
        if n.display != want {
            return Err(format!("displayed as {:?}, not {want:?}", n.display));
        }
        if n.context.as_deref() == Some("") || n.problem.is_empty() {
            return Err(format!("an empty text: {n:?}"));
        }
    }
    if kind == y::ErrorKind::Io {
        return Ok(());
    }
    match std::io::Error::try_from(e) {
        Ok(io) => Err(format!("{} became the I/O error {io:?}", n.display)),
        Err(e) if sut::err(&e) != n => Err(format!("{n:?} came back as {:?}", sut::err(&e))),
        Err(_) => Ok(()),
    }
}

impl Prop for P26 {
    fn id(&self) -> &'static str {
        "P26"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = two events built by the constructors that differ in one thing, or two texts that differ in one place, scanned and parsed, or a failing read; contents, equality, copies, display and conversions are compared with a plain model; non-trivial = two events, or at least four tokens, or an I/O error; distinct by content"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (1_500_000, 20),
            Tier::Thorough => (60_000_000, 30),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        let mut s = Src::record(rng);
        case(&mut s);
        s.into_tape()
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        match case(&mut Src::replay(tape)) {
            Case::Events(a, b, what) => {
                ctx.nontrivial = true;
                ctx.key = Some(fnv(format!("{a:?}{b:?}").as_bytes()));
                ctx.class(&format!("events that differ in: {what}"));
                let (x, z) = (sut::build(&a), sut::build(&b));
                for (m, e) in [(&a, &x), (&b, &z)] {
                    let got = sut::evm(e);
                    if got.ev != *m {
                        return Err(format!("built {m:?}, got {:?}", got.ev));
                    }
                    if got.s != Mk::default() || got.e != Mk::default() || e.start_mark != y::Mark::default() {
                        return Err(format!("built {m:?} with the marks {:?} {:?}", got.s, got.e));
                    }
                    is_mark(e.start_mark, "an event")?;
                    if *e != sut::build(m) || e.data != sut::build(m).data {
                        return Err(format!("{m:?} built twice is not equal"));
                    }
                    if format!("{e:?}").is_empty() {
                        return Err("empty debug output".into());
                    }
                }
                let same = a == b;
                if (x == z) != same || (z == x) != same || (x.data == z.data) != same || (x != z) == same {
                    return Err(format!("{a:?} and {b:?} compare as {}", if same { "different" } else { "equal" }));
                }
                if let (y::EventData::DocumentStart { version_directive: v, tag_directives: t, .. }, Ev::DocStart { ver, tags, .. }) =
                    (&x.data, &a)
                {
                    if let (Some(v), Some(w)) = (v, ver) {
                        let c = *v;
                        if c != *v || (c.major, c.minor) != *w {
                            return Err(format!("a copy of the version {w:?} differs"));
                        }
                    }
                    let c = t.clone();
                    if c != *t || c.iter().zip(tags).any(|(c, m)| (c.handle.as_str(), c.prefix.as_str()) != (m.0.s().unwrap(), m.1.s().unwrap())) {
                        return Err(format!("a copy of the tag directives {tags:?} differs"));
                    }
                }
                // an event is data and marks
                let mut moved = sut::build(&a);
                moved.end_mark.column += 1;
                if moved == x || moved.data != x.data {
                    return Err("an event elsewhere compares as equal".into());
                }
                Ok(())
            }
            Case::Texts(a, b) => {
                ctx.key = Some(fnv(&a) ^ fnv(&b).rotate_left(1));
                ctx.class("texts");
                let toks = |t: &[u8]| {
                    let mut t = t;
                    let mut s = y::Scanner::new();
                    s.set_input_string(&mut t);
                    let mut v = vec![];
                    let mut e = None;
                    for x in s {
                        match x {
                            Ok(x) => v.push(x),
                            Err(x) => e = Some(x),
                        }
                    }
                    (v, e)
                };
                let evs = |t: &[u8]| {
                    let mut t = t;
                    let mut s = y::Parser::new();
                    s.set_input_string(&mut t);
                    let mut v = vec![];
                    let mut e = None;
                    for x in s {
                        match x {
                            Ok(x) => v.push(x),
                            Err(x) => e = Some(x),
                        }
                    }
                    (v, e)
                };
                let ((t1, e1), (t2, e2)) = (toks(&a), toks(&b));
                ctx.nontrivial = t1.len() >= 4;
                let mut m = (0, 0);
                for (x, z) in t1.iter().zip(&t2) {
                    is_mark(x.start_mark, "a token")?;
                    is_mark(x.end_mark, "a token")?;
                    let (p, q) = (sut::tok(x), sut::tok(z));
                    if (x == z) != (p == q) || (x.data == z.data) != (p.t == q.t) {
                        return Err(format!("tokens {p:?} and {q:?} compare wrongly"));
                    }
                    if p == q {
                        m.0 += 1
                    } else {
                        m.1 += 1
                    }
                }
                ctx.class(if m.1 == 0 { "all tokens equal" } else if m.0 > 1 { "some tokens differ" } else { "most tokens differ" });
                for e in [e1, e2].into_iter().flatten() {
                    ctx.class("error of the scanner");
                    whole(e)?;
                }
                let ((t1, e1), (t2, e2)) = (evs(&a), evs(&b));
                for (x, z) in t1.iter().zip(&t2) {
                    is_mark(x.start_mark, "an event")?;
                    is_mark(x.end_mark, "an event")?;
                    let (p, q) = (sut::evm(x), sut::evm(z));
                    if (x == z) != (p == q) || (x.data == z.data) != (p.ev == q.ev) {
                        return Err(format!("events {p:?} and {q:?} compare wrongly"));
                    }
                }
                for x in &t1 {
                    // a parsed event is data like a built one
                    let m = sut::ev_of(&x.data);
                    if sut::build(&m).data != x.data {
                        return Err(format!("{m:?} parsed and built compare as different"));
                    }
                }
                for e in [e1, e2].into_iter().flatten() {
                    ctx.class("error of the parser");
                    whole(e)?;
                }
                let mut t = &a[..];
                let mut p = y::Parser::new();
                p.set_input_string(&mut t);
                loop {
                    match y::Document::load(&mut p) {
                        Ok(mut d) => {
                            is_mark(d.start_mark, "a document")?;
                            is_mark(d.end_mark, "a document")?;
                            copies(&mut d)?;
                            if d.get_root_node().is_none() {
                                break;
                            }
                        }
                        Err(e) => {
                            if e.kind() == y::ErrorKind::Composer {
                                ctx.class("error of the loader");
                            }
                            whole(e)?;
                            break;
                        }
                    }
                }
                Ok(())
            }
            Case::Io(k, m, t) => {
                ctx.nontrivial = true;
                ctx.class("I/O error");
                ctx.key = Some(fnv(&t) ^ fnv(m.as_bytes()).rotate_left(k as u32));
                let io = |e: &std::io::Error| -> Verdict {
                    let w = io_err(k, &m);
                    let inner = |e: &std::io::Error| e.get_ref().map(|x| x.to_string());
                    if (e.kind(), e.raw_os_error(), inner(e)) != (w.kind(), w.raw_os_error(), inner(&w)) {
                        return Err(format!("the error came out as {e:?}"));
                    }
                    Ok(())
                };
                let whole = |e: y::Error| -> Verdict {
                    if e.to_string() != format!("I/O error: {}", io_err(k, &m)) || e.kind() != y::ErrorKind::Io {
                        return Err(format!("displayed as {:?}", e.to_string()));
                    }
                    if e.problem_mark().is_some() || e.context_mark().is_some() || e.context().is_some() {
                        return Err("an I/O error has no place".into());
                    }
                    let s = e.source().ok_or("no source")?;
                    io(s.downcast_ref().ok_or("the source is not an I/O error")?)?;
                    whole(y::Error::from(io_err(k, &m)))?;
                    io(&std::io::Error::try_from(e).map_err(|e| format!("not converted: {e}"))?)
                };
                whole(y::Error::from(io_err(k, &m)))?;
                let mut p = y::Parser::new();
                p.set_input(std::io::BufReader::new(Failing(&t, k, &m)));
                loop {
                    match p.parse() {
                        Ok(e) if matches!(e.data, y::EventData::StreamEnd) => {
                            return Err("the failing read was not reported".into());
                        }
                        Ok(_) => {}
                        // the text itself may be wrong first
                        Err(e) if e.kind() != y::ErrorKind::Io => return self::whole(e),
                        Err(e) => return whole(e),
                    }
                }
            }
        }
    }
    fn describe(&self, tape: &[u8]) -> String {
        match case(&mut Src::replay(tape)) {
            Case::Events(a, b, w) => format!("[events, {w}] {a:?} and {b:?}"),
            Case::Texts(a, b) => format!("[texts] {} and {}", show(&a), show(&b)),
            Case::Io(k, m, t) => format!("[I/O] {:?} after {}", io_err(k, &m), show(&t)),
        }
    }
}
