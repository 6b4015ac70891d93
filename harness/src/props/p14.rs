//! P14: token and event streams are well formed and their marks are true.
//! Judged by an automaton, a position map built from an independent decoder,
//! and what the text under each token must look like.
use super::p01;
use super::*;
use crate::model::*;
use crate::{sut, text};

/// The text, and for each byte offset of its UTF-8 form that starts a
/// character (or ends the text) its line and column.
struct Map {
    text: String,
    at: Vec<Option<(u64, u64)>>,
}

impl Map {
    fn new(chars: &[char]) -> Map {
        let text: String = chars.iter().collect();
        let pos = text::positions(chars);
        let mut at = vec![None; text.len() + 1];
        let mut b = 0;
        for (k, p) in pos.iter().enumerate() {
            at[b] = Some((p.l, p.c));
            b += chars.get(k).map_or(0, |c| c.len_utf8());
        }
        Map { text, at }
    }

    fn true_mark(&self, m: &Mk) -> bool {
        match self.at.get(m.i as usize) {
            Some(Some((l, c))) => {
                (*l, *c) == (m.l, m.c)
                    // the end of the stream counts as the start of a line
                    || (m.i as usize == self.text.len() && *c > 0 && (l + 1, 0) == (m.l, m.c))
            }
            _ => false,
        }
    }

    fn mark(&self, m: &Mk) -> Result<(), String> {
        if self.true_mark(m) {
            return Ok(());
        }
        Err(match self.at.get(m.i as usize) {
            Some(Some((l, c))) => format!("mark {m:?} is not true: offset {} is line {l}, column {c}", m.i),
            Some(None) => format!("mark {m:?} lies inside a character"),
            None => format!("mark {m:?} lies beyond the input of {} bytes", self.text.len()),
        })
    }

    fn span(&self, s: &Mk, e: &Mk) -> &str {
        &self.text[s.i as usize..e.i as usize]
    }
}

fn is_break(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}')
}

fn words(t: &str) -> Vec<&str> {
    t.split(|c| c == ' ' || c == '\t' || is_break(c)).filter(|w| !w.is_empty()).collect()
}

/// What is between tokens: blanks, breaks, comments and byte order marks.
fn filler(t: &str, before: Option<&Tok>) -> bool {
    // A comment starts after a blank, a break or an indicator; at the start
    // of a gap the token before ended by itself.
    let _ = before;
    let mut comment = false;
    for c in t.chars() {
        if is_break(c) {
            comment = false;
        } else if comment {
        } else if c == '#' {
            comment = true;
        } else if !matches!(c, ' ' | '\t' | '\u{feff}') {
            return false;
        }
    }
    true
}

fn looks(t: &Tok, span: &str) -> Result<(), String> {
    let want = |w: &str| if span == w { Ok(()) } else { Err(format!("covers {span:?} instead of {w:?}")) };
    let starts = |w: &str| if span.starts_with(w) { Ok(()) } else { Err(format!("covers {span:?}, which does not start with {w:?}")) };
    match t {
        Tok::StreamStart(_) | Tok::StreamEnd | Tok::BlockSeqStart | Tok::BlockMapStart | Tok::BlockEnd => {
            // implied by what follows or by the indentation
            if span.is_empty() || (matches!(t, Tok::BlockSeqStart | Tok::BlockMapStart) && matches!(span, "-" | "?" | ":")) {
                Ok(())
            } else {
                Err(format!("covers {span:?}"))
            }
        }
        Tok::Version(a, b) => {
            starts("%YAML")?;
            let w = words(span);
            let ok = w.len() == 2
                && w[1].split_once('.').map_or(false, |(x, y)| x.parse() == Ok(*a) && y.parse() == Ok(*b));
            if ok {
                Ok(())
            } else {
                Err(format!("covers {span:?}"))
            }
        }
        Tok::TagDir(h, p) => {
            starts("%TAG")?;
            let w = words(span);
            if w.len() != 3 || Some(w[1]) != h.s() || (!w[2].contains('%') && Some(w[2]) != p.s()) {
                return Err(format!("covers {span:?}"));
            }
            Ok(())
        }
        Tok::DocStart => want("---"),
        Tok::DocEnd => want("..."),
        Tok::FlowSeqStart => want("["),
        Tok::FlowSeqEnd => want("]"),
        Tok::FlowMapStart => want("{"),
        Tok::FlowMapEnd => want("}"),
        Tok::BlockEntry => {
            if span.is_empty() || span == "-" {
                Ok(())
            } else {
                Err(format!("covers {span:?}"))
            }
        }
        Tok::FlowEntry => want(","),
        Tok::Key => {
            if span.is_empty() || span == "?" {
                Ok(())
            } else {
                Err(format!("covers {span:?}"))
            }
        }
        Tok::Value => want(":"),
        Tok::Alias(n) => want(&format!("*{}", n.s().unwrap_or("?"))),
        Tok::Anchor(n) => want(&format!("&{}", n.s().unwrap_or("?"))),
        Tok::Tag(h, x) => {
            let (h, x) = (h.s().unwrap_or("?"), x.s().unwrap_or("?"));
            if span.contains('%') {
                return starts("!");
            }
            // "!<" x ">" and "!" come without a handle
            let verbatim = h.is_empty() && span == format!("!<{x}>");
            if verbatim || span == format!("{h}{x}") {
                Ok(())
            } else {
                Err(format!("covers {span:?}"))
            }
        }
        Tok::Scalar(v, style) => {
            let v = v.s().unwrap_or("?");
            let one_line = !span.chars().any(is_break);
            let inner = |q: char| -> Result<&str, String> {
                if span.len() >= 2 && span.starts_with(q) && span.ends_with(q) {
                    Ok(&span[1..span.len() - 1])
                } else {
                    Err(format!("covers {span:?}, which is not enclosed in {q}"))
                }
            };
            let same = |x: &str| {
                let ok = if one_line { x == v } else { words(x) == words(v) };
                if ok {
                    Ok(())
                } else {
                    Err(format!("has the value {v:?} but covers {span:?}"))
                }
            };
            match style {
                1 => {
                    if span.is_empty() {
                        return Err("is an empty plain scalar".into());
                    }
                    same(span)
                }
                2 => same(&inner('\'')?.replace("''", "'")),
                3 => {
                    let x = inner('"')?;
                    if x.contains('\\') {
                        return Ok(());
                    }
                    same(x)
                }
                4 | 5 => {
                    starts(if *style == 4 { "|" } else { ">" })?;
                    let body = span.find(is_break).map_or("", |i| &span[i..]);
                    if words(body) == words(v) {
                        Ok(())
                    } else {
                        Err(format!("has the value {v:?} but covers {span:?}"))
                    }
                }
                _ => Err(format!("has style {style}")),
            }
        }
        Tok::None => Err("is no token".into()),
    }
}

fn check_tokens(m: &Map, toks: &[TokM], err: Option<&ErrN>) -> Verdict {
    let mut depth = 0usize;
    let mut flow = 0usize;
    let mut last = Mk::default();
    let mut end = Mk::default();
    let mut ended = false;
    let mut before: Option<&Tok> = None;
    for (k, t) in toks.iter().enumerate() {
        let at = || format!("token {k} {t:?}: ");
        if ended {
            return Err(at() + "comes after STREAM-END");
        }
        if (k == 0) != matches!(t.t, Tok::StreamStart(_)) {
            return Err(at() + "the first token, and only the first, is STREAM-START");
        }
        for x in [&t.s, &t.e] {
            m.mark(x).map_err(|e| at() + &e)?;
        }
        if t.s > t.e {
            return Err(at() + "starts after its end");
        }
        if t.s < last {
            return Err(at() + &format!("starts before the start of the token before it, {last:?}"));
        }
        if t.s.i < end.i {
            return Err(at() + &format!("starts before the end of the token before it, {end:?}"));
        }
        last = t.s;
        let gap = &m.text[end.i as usize..t.s.i as usize];
        if !filler(gap, before) {
            return Err(at() + &format!("{gap:?} before it was skipped"));
        }
        // An implied start shares the position of the indicator.
        if !matches!(t.t, Tok::BlockSeqStart | Tok::BlockMapStart) {
            end = t.e;
        }
        looks(&t.t, m.span(&t.s, &t.e)).map_err(|e| at() + &e)?;
        match t.t {
            Tok::BlockSeqStart | Tok::BlockMapStart | Tok::BlockEnd if flow > 0 => {
                return Err(at() + "inside a flow collection");
            }
            Tok::BlockSeqStart | Tok::BlockMapStart => depth += 1,
            Tok::BlockEnd => {
                if depth == 0 {
                    return Err(at() + "closes nothing");
                }
                depth -= 1;
            }
            Tok::FlowSeqStart | Tok::FlowMapStart => flow += 1,
            Tok::FlowSeqEnd | Tok::FlowMapEnd => flow = flow.saturating_sub(1),
            Tok::StreamEnd | Tok::DocStart | Tok::DocEnd | Tok::Version(..) | Tok::TagDir(..)
                if depth > 0 && flow == 0 =>
            {
                return Err(at() + &format!("with {depth} block collections open"));
            }
            _ => {}
        }
        ended = matches!(t.t, Tok::StreamEnd);
        before = Some(&t.t);
    }
    if err.is_none() {
        if !ended {
            return Err("the token stream does not end with STREAM-END".into());
        }
        if end.i as usize != m.text.len() {
            return Err(format!("STREAM-END at {end:?}, before the end of the input"));
        }
    } else if ended {
        return Err("an error after STREAM-END".into());
    }
    Ok(())
}

/// Grammar of events.
pub struct Automaton {
    st: u8,
    /// (is a mapping, is waiting for a value)
    stack: Vec<(bool, bool)>,
    first: bool,
}

impl Automaton {
    pub fn new() -> Self {
        Automaton {
            st: 0,
            stack: vec![],
            first: true,
        }
    }
    pub fn step(&mut self, e: &Ev) -> bool {
        let node = |s: &mut Self| {
            if let Some(t) = s.stack.last_mut() {
                t.1 = t.0 && !t.1;
            } else {
                s.st = 3;
            }
        };
        match (self.st, e) {
            (0, Ev::StreamStart(_)) => self.st = 1,
            (1, Ev::StreamEnd) => self.st = 4,
            (1, Ev::DocStart { implicit, .. }) => {
                if *implicit && !self.first {
                    return false;
                }
                self.first = false;
                self.st = 2;
            }
            (2, Ev::Alias(_) | Ev::Scalar { .. }) => node(self),
            (2, Ev::SeqStart { .. }) => self.stack.push((false, false)),
            (2, Ev::MapStart { .. }) => self.stack.push((true, false)),
            (2, Ev::SeqEnd) if self.stack.last().map_or(false, |t| !t.0) => {
                self.stack.pop();
                node(self)
            }
            (2, Ev::MapEnd) if self.stack.last() == Some(&(true, false)) => {
                self.stack.pop();
                node(self)
            }
            (3, Ev::DocEnd(_)) => self.st = 1,
            _ => return false,
        }
        true
    }
    pub fn done(&self) -> bool {
        self.st == 4
    }
}

fn name_ok(n: &Bs) -> bool {
    n.s().map_or(false, |s| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-'))
}

fn check_events(m: &Map, evs: &[EvM], err: Option<&ErrN>) -> Verdict {
    let mut a = Automaton::new();
    let mut last = Mk::default();
    let mut open: Vec<Mk> = vec![];
    let mut doc = Mk::default();
    for (k, e) in evs.iter().enumerate() {
        let at = || format!("event {k} {e:?}: ");
        if !a.step(&e.ev) {
            return Err(at() + "cannot come here");
        }
        for x in [&e.s, &e.e] {
            m.mark(x).map_err(|e| at() + &e)?;
        }
        if e.s > e.e {
            return Err(at() + "starts after its end");
        }
        if e.s < last {
            return Err(at() + &format!("starts before the event before it, {last:?}"));
        }
        last = e.s;
        let props = |anchor: &Option<Bs>, tag: &Option<Bs>| -> Verdict {
            if anchor.as_ref().map_or(false, |n| !name_ok(n)) {
                return Err(at() + "has an invalid anchor");
            }
            if tag.as_ref().map_or(false, |t| t.0.is_empty()) {
                return Err(at() + "has an empty tag");
            }
            Ok(())
        };
        match &e.ev {
            Ev::Alias(n) => {
                if !name_ok(n) {
                    return Err(at() + "has an invalid name");
                }
                if m.span(&e.s, &e.e) != format!("*{}", n.s().unwrap_or("?")) {
                    return Err(at() + &format!("covers {:?}", m.span(&e.s, &e.e)));
                }
            }
            Ev::Scalar { anchor, tag, value, pi, qi, style } => {
                props(anchor, tag)?;
                if tag.is_none() && !pi && !qi || tag.as_ref().map_or(false, |t| t.0 != b"!") && (*pi || *qi) {
                    return Err(at() + "has flags that do not fit its tag");
                }
                if anchor.is_none() && tag.is_none() {
                    let span = m.span(&e.s, &e.e);
                    if *style == 1 && words(span) != words(value.s().unwrap_or("?")) {
                        return Err(at() + &format!("covers {span:?}"));
                    }
                }
            }
            Ev::SeqStart { anchor, tag, implicit, .. } | Ev::MapStart { anchor, tag, implicit, .. } => {
                props(anchor, tag)?;
                if tag.is_none() && !implicit {
                    return Err(at() + "has neither a tag nor the implicit flag");
                }
                let (seq, flow) = match &e.ev {
                    Ev::SeqStart { style, .. } => (true, *style == 2),
                    Ev::MapStart { style, .. } => (false, *style == 2),
                    _ => unreachable!(),
                };
                if anchor.is_none() && tag.is_none() {
                    let span = m.span(&e.s, &e.e);
                    let ok = match (flow, seq) {
                        // a single pair has no brace of its own
                        (true, false) => matches!(span, "{" | "" | "?"),
                        (true, true) => span == "[",
                        (false, _) => matches!(span, "" | "-" | "?" | ":"),
                    };
                    if !ok {
                        return Err(at() + &format!("covers {span:?}"));
                    }
                }
                open.push(e.s);
            }
            Ev::SeqEnd | Ev::MapEnd => {
                let s = open.pop().unwrap_or_default();
                if e.e < s {
                    return Err(at() + "ends before its start");
                }
            }
            Ev::DocStart { tags, ver, .. } => {
                for (i, (h, _)) in tags.iter().enumerate() {
                    if tags[..i].iter().any(|x| x.0 == *h) {
                        return Err(at() + "declares a handle twice");
                    }
                }
                if ver.map_or(false, |v| v != (1, 1) && v != (1, 2)) {
                    return Err(at() + "has an unsupported version");
                }
                doc = e.s;
            }
            Ev::DocEnd(implicit) => {
                if e.e < doc {
                    return Err(at() + "ends before its start");
                }
                let span = m.span(&e.s, &e.e);
                if span != if *implicit { "" } else { "..." } {
                    return Err(at() + &format!("covers {span:?}"));
                }
            }
            _ => {}
        }
    }
    if err.is_none() != a.done() {
        return Err("the event stream is not complete".into());
    }
    Ok(())
}

fn check_error(m: &Map, x: &ErrN) -> Verdict {
    for k in [&x.pmark, &x.cmark].into_iter().flatten() {
        m.mark(k).map_err(|e| format!("error {:?}: {e}", x.display))?;
    }
    if let (Some(p), Some(c)) = (&x.pmark, &x.cmark) {
        if c > p {
            return Err(format!("error {:?}: its context lies after the problem", x.display));
        }
    }
    Ok(())
}

pub struct P14;
impl Prop for P14 {
    fn id(&self) -> &'static str {
        "P14"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Text(0)
    }
    fn rule(&self) -> &'static str {
        "case = one byte input; first every sequence of up to 4 of 26 structural symbols, then generated YAML-like text (valid, corrupted, soup, limit-seeking; UTF-8/UTF-16), and mutations of inputs that reached new code; non-trivial = at least one token besides the stream's; distinct by input"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (3_000_000, 40),
            Tier::Thorough => (90_000_000, 50),
        }
    }
    fn enumerated(&self, t: Tier) -> u64 {
        gen::enum_count(if t == Tier::Quick { 4 } else { 5 })
    }
    fn gen(&self, rng: &mut Rng, i: u64, tier: Tier) -> Vec<u8> {
        p01::gen_text(rng, i, self.enumerated(tier))
    }
    fn fixed(&self) -> Vec<Vec<u8>> {
        p01::regressions()
    }
    fn check(&self, case: &[u8], ctx: &mut Ctx) -> Verdict {
        let d = text::decode(case);
        let m = Map::new(&d.chars);
        let (toks, terr) = sut::tokens(case);
        p01::classify_tokens(&toks, ctx);
        ctx.nontrivial = toks.len() >= 3;
        let reader = |e: &Option<ErrN>| e.as_ref().map_or(false, |e| e.kind == Kind::Reader);
        if d.bad.is_some() && !reader(&terr) && terr.is_none() {
            ctx.class("malformed input accepted (judged by P10)");
            return Ok(());
        }
        check_tokens(&m, &toks, terr.as_ref())?;
        let (evs, eerr) = sut::events(case);
        check_events(&m, &evs, eerr.as_ref())?;
        // no scalar or alias is lost or made up between the two
        let leaf_t = toks.iter().filter_map(|t| match &t.t {
            Tok::Scalar(v, st) => Some((v, *st, t.e)),
            Tok::Alias(n) => Some((n, 9, t.e)),
            _ => None,
        });
        let mut leaf_e = evs.iter().filter_map(|e| match &e.ev {
            Ev::Scalar { value, style, .. } if *style != 1 || !value.0.is_empty() => Some((value, *style, e.e)),
            Ev::Alias(n) => Some((n, 9, e.e)),
            _ => None,
        });
        for (k, x) in leaf_t.enumerate() {
            match leaf_e.next() {
                Some(y) if x == y => {}
                None if eerr.is_some() => break,
                y => return Err(format!("scalar or alias {k} is {x:?} as a token and {y:?} as an event")),
            }
        }
        if let Some(y) = leaf_e.next() {
            return Err(format!("{y:?} is an event but no token"));
        }
        for x in [&terr, &eerr].into_iter().flatten() {
            if x.kind == Kind::Reader {
                ctx.class("reader error");
            } else {
                ctx.class("error");
                check_error(&m, x)?;
            }
        }
        Ok(())
    }
    fn describe(&self, case: &[u8]) -> String {
        show(case)
    }
}
