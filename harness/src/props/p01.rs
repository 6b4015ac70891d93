//! P01 tokens, P02 events, P15 error reports: differential against the
//! reference translation of libyaml, over arbitrary byte inputs.
use super::*;
use crate::diff::{self, ErrCmp};
use crate::model::*;
use crate::{reference, sut};

pub fn gen_text(rng: &mut Rng, i: u64, enumerated: u64) -> Vec<u8> {
    if i < enumerated {
        gen::enum_text(i).into_bytes()
    } else {
        bytes(rng)
    }
}

pub const REGRESSIONS: &[&[u8]] = &[
    b"a: b\n",
    b"!!,",
    b"[!a,]",
    b"! #",
    b"--- |",
    b"|\n a",
    b"\"\\",
    b"",
    b"\xef\xbb\xbf",
    b"\xff\xfe",
    b"\xff\xfea\0:\0 \0b\0\n\0",
    b"\xfe\xff\0a\0:\0 \0b\0\n",
    b"!%C3%A9 x",
    b"!%C3 x",
    b"[a: b]",
    b"[? a : b, c: d]",
    b"a:\n- b\nc: d\n",
    b"\xef\xbc\x81",
    b"\xef",
    b"\xe2\x98",
    b"&a !t\n\x01",
];

pub fn regressions() -> Vec<Vec<u8>> {
    REGRESSIONS.iter().map(|x| x.to_vec()).collect()
}

pub fn classify_tokens(v: &[TokM], ctx: &mut Ctx) {
    let mut seen = [false; 24];
    for t in v {
        let (k, name) = match &t.t {
            Tok::StreamStart(2) | Tok::StreamStart(3) => (0, "utf-16 input"),
            Tok::Version(..) => (1, "%YAML"),
            Tok::TagDir(..) => (2, "%TAG"),
            Tok::DocStart => (3, "---"),
            Tok::DocEnd => (4, "..."),
            Tok::BlockSeqStart => (5, "block sequence"),
            Tok::BlockMapStart => (6, "block mapping"),
            Tok::FlowSeqStart => (7, "flow sequence"),
            Tok::FlowMapStart => (8, "flow mapping"),
            Tok::Alias(_) => (9, "alias"),
            Tok::Anchor(_) => (10, "anchor"),
            Tok::Tag(..) => (11, "tag"),
            Tok::Scalar(_, 1) => (12, "plain"),
            Tok::Scalar(_, 2) => (13, "single quoted"),
            Tok::Scalar(_, 3) => (14, "double quoted"),
            Tok::Scalar(_, 4) => (15, "literal"),
            Tok::Scalar(_, 5) => (16, "folded"),
            _ => continue,
        };
        if !seen[k] {
            seen[k] = true;
            ctx.class(name);
        }
    }
}

pub struct P01;
impl Prop for P01 {
    fn id(&self) -> &'static str {
        "P01"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Text(0)
    }
    fn rule(&self) -> &'static str {
        "case = one byte input; first every sequence of up to 4 (thorough: 5) of 26 structural symbols, then generated YAML-like text (valid, corrupted, soup, limit-seeking; UTF-8/UTF-16), and mutations of inputs that reached new code; non-trivial = both scanners produced at least one token between STREAM-START and STREAM-END; distinct by input"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (3_000_000, 40),
            Tier::Thorough => (60_000_000, 50),
        }
    }
    fn enumerated(&self, t: Tier) -> u64 {
        gen::enum_count(if t == Tier::Quick { 4 } else { 5 })
    }
    fn gen(&self, rng: &mut Rng, i: u64, tier: Tier) -> Vec<u8> {
        gen_text(rng, i, self.enumerated(tier))
    }
    fn fixed(&self) -> Vec<Vec<u8>> {
        regressions()
    }
    fn check(&self, case: &[u8], ctx: &mut Ctx) -> Verdict {
        let ab = diff::about(case);
        let a = sut::tokens(case);
        if ab.odd {
            ctx.class("skipped: %XX escapes without a meaning in libyaml");
            return Ok(());
        }
        let b = reference::tokens(case);
        classify_tokens(&a.0, ctx);
        if a.1.is_some() {
            ctx.class("error");
        }
        ctx.nontrivial = a.0.len() >= 3;
        diff::diff(&a, &b, ErrCmp::Kind, ab.malformed)
    }
    fn describe(&self, case: &[u8]) -> String {
        show(case)
    }
}

pub struct P02;
impl Prop for P02 {
    fn id(&self) -> &'static str {
        "P02"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Text(0)
    }
    fn rule(&self) -> &'static str {
        "case = one byte input; first every sequence of up to 4 (thorough: 5) of 26 structural symbols, then generated YAML-like text (valid, corrupted, soup, limit-seeking; UTF-8/UTF-16), and mutations of inputs that reached new code; non-trivial = the parser produced at least one node event; distinct by input"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (3_000_000, 40),
            Tier::Thorough => (60_000_000, 50),
        }
    }
    fn enumerated(&self, t: Tier) -> u64 {
        gen::enum_count(if t == Tier::Quick { 4 } else { 5 })
    }
    fn gen(&self, rng: &mut Rng, i: u64, tier: Tier) -> Vec<u8> {
        gen_text(rng, i, self.enumerated(tier))
    }
    fn fixed(&self) -> Vec<Vec<u8>> {
        regressions()
    }
    fn check(&self, case: &[u8], ctx: &mut Ctx) -> Verdict {
        let ab = diff::about(case);
        let a = sut::events(case);
        if ab.odd {
            ctx.class("skipped: %XX escapes without a meaning in libyaml");
            return Ok(());
        }
        let b = reference::events(case);
        classify_events(&a.0, ctx);
        if a.1.is_some() {
            ctx.class("error");
        }
        ctx.nontrivial = a.0.iter().any(|e| is_node(&e.ev));
        diff::diff(&a, &b, ErrCmp::Kind, ab.malformed)
    }
    fn describe(&self, case: &[u8]) -> String {
        show(case)
    }
}

pub fn is_node(e: &Ev) -> bool {
    matches!(
        e,
        Ev::Alias(_) | Ev::Scalar { .. } | Ev::SeqStart { .. } | Ev::MapStart { .. }
    )
}

pub fn classify_events(v: &[EvM], ctx: &mut Ctx) {
    let mut seen = [false; 24];
    let mut docs = 0;
    for e in v {
        let (k, name) = match &e.ev {
            Ev::DocStart { ver, tags, .. } => {
                docs += 1;
                if docs == 2 {
                    ctx.class("several documents");
                }
                if ver.is_some() {
                    (0, "%YAML")
                } else if !tags.is_empty() {
                    (1, "%TAG")
                } else {
                    continue;
                }
            }
            Ev::Alias(_) => (2, "alias"),
            Ev::Scalar { anchor: Some(_), .. } => (3, "anchor"),
            Ev::Scalar { tag: Some(_), .. }
            | Ev::SeqStart { tag: Some(_), .. }
            | Ev::MapStart { tag: Some(_), .. } => (4, "tag"),
            Ev::Scalar { style: 1, value, .. } if value.0.is_empty() => (5, "empty plain"),
            Ev::Scalar { style: 1, .. } => (6, "plain"),
            Ev::Scalar { style: 2, .. } => (7, "single quoted"),
            Ev::Scalar { style: 3, .. } => (8, "double quoted"),
            Ev::Scalar { style: 4, .. } => (9, "literal"),
            Ev::Scalar { style: 5, .. } => (10, "folded"),
            Ev::SeqStart { style: 1, .. } => (11, "block sequence"),
            Ev::SeqStart { style: 2, .. } => (12, "flow sequence"),
            Ev::MapStart { style: 1, .. } => (13, "block mapping"),
            Ev::MapStart { style: 2, .. } => (14, "flow mapping"),
            _ => continue,
        };
        if !seen[k] {
            seen[k] = true;
            ctx.class(name);
        }
    }
}

pub struct P15;
impl Prop for P15 {
    fn id(&self) -> &'static str {
        "P15"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Text(0)
    }
    fn rule(&self) -> &'static str {
        "case = one byte input, generated as for the event property but weighted to corrupted text; scanned, parsed and loaded; non-trivial = at least one of the three ended in an error; distinct by input"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (2_000_000, 50),
            Tier::Thorough => (40_000_000, 60),
        }
    }
    fn enumerated(&self, t: Tier) -> u64 {
        gen::enum_count(if t == Tier::Quick { 4 } else { 5 })
    }
    fn gen(&self, rng: &mut Rng, i: u64, tier: Tier) -> Vec<u8> {
        if i < self.enumerated(tier) {
            return gen::enum_text(i).into_bytes();
        }
        let mut s = Src::record(rng);
        if s.chance(1, 3) {
            return gen::bytes(&mut s);
        }
        let mut t = gen::loose(&mut s);
        gen::corrupt(&mut s, &mut t);
        t.into_bytes()
    }
    fn fixed(&self) -> Vec<Vec<u8>> {
        regressions()
    }
    fn check(&self, case: &[u8], ctx: &mut Ctx) -> Verdict {
        let ab = diff::about(case);
        let rs = [
            ("scan", sut::tokens(case).1, reference::tokens(case).1),
            ("parse", sut::events(case).1, reference::events(case).1),
            ("load", sut::docs(case).1, reference::docs(case).1),
        ];
        if ab.odd {
            ctx.class("skipped: %XX escapes without a meaning in libyaml");
            return Ok(());
        }
        for (what, a, b) in &rs {
            let (a, b) = match (a, b) {
                (None, None) => continue,
                (Some(a), Some(b)) => (a, b),
                (a, b) => {
                    return Err(format!(
                        "{what}: error {:?} vs libyaml {:?}",
                        a.as_ref().map(|e| &e.display),
                        b.as_ref().map(|e| &e.problem)
                    ))
                }
            };
            ctx.nontrivial = true;
            ctx.class(&format!("{what}: {:?} error", a.kind));
            ctx.class(&format!("problem {:?}", a.problem));
            if ab.malformed && (a.kind == Kind::Reader || b.kind == Kind::Reader) {
                // how far the reader looks ahead is not part of the contract
            } else if let Some(d) = diff::err_diff(a, b, ErrCmp::Full) {
                return Err(format!("{what}: {d}"));
            }
            display(a).map_err(|m| format!("{what}: {m}"))?;
        }
        Ok(())
    }
    fn describe(&self, case: &[u8]) -> String {
        show(case)
    }
}

/// The rendered message names the kind and shows 1-based positions.
fn display(e: &ErrN) -> Verdict {
    let m = |m: Mk| format!("line {} column {}", m.l + 1, m.c + 1);
    let want = match e.kind {
        Kind::Reader => return if e.display.starts_with(&format!("Reader error: {}", e.problem)) {
            Ok(())
        } else {
            Err(format!("display {:?}", e.display))
        },
        Kind::Scanner | Kind::Parser | Kind::Composer => {
            let k = format!("{:?}", e.kind);
            let pm = e.pmark.ok_or("no problem mark")?;
            match (&e.context, e.cmark) {
                (None, None) => format!("{k} error: {}: {}", m(pm), e.problem),
                (Some(c), Some(cm)) => {
                    format!("{k} error: {}: {} {} ({})", m(pm), e.problem, c, m(cm))
                }
                _ => return Err("context and context mark disagree".into()),
            }
        }
        k => return Err(format!("unexpected error kind {k:?}")),
    };
    if e.display != want {
        return Err(format!("display {:?}, expected {want:?}", e.display));
    }
    Ok(())
}
