//! Conversions between the library under test and the neutral model.
use crate::model::*;
use libyaml_safer as y;
use std::io::{BufRead, Write};

pub fn mk(m: y::Mark) -> Mk {
    Mk {
        i: m.index,
        l: m.line,
        c: m.column,
    }
}

pub fn enc_of(e: y::Encoding) -> u8 {
    match e {
        y::Encoding::Any => 0,
        y::Encoding::Utf8 => 1,
        y::Encoding::Utf16Le => 2,
        y::Encoding::Utf16Be => 3,
        _ => 9,
    }
}
pub fn enc_to(e: u8) -> y::Encoding {
    match e {
        0 => y::Encoding::Any,
        1 => y::Encoding::Utf8,
        2 => y::Encoding::Utf16Le,
        _ => y::Encoding::Utf16Be,
    }
}
pub fn brk_to(b: u8) -> y::Break {
    match b {
        0 => y::Break::Any,
        1 => y::Break::Cr,
        2 => y::Break::Ln,
        _ => y::Break::CrLn,
    }
}
pub fn sstyle_of(s: y::ScalarStyle) -> u8 {
    match s {
        y::ScalarStyle::Any => 0,
        y::ScalarStyle::Plain => 1,
        y::ScalarStyle::SingleQuoted => 2,
        y::ScalarStyle::DoubleQuoted => 3,
        y::ScalarStyle::Literal => 4,
        y::ScalarStyle::Folded => 5,
        _ => 9,
    }
}
pub fn sstyle_to(s: u8) -> y::ScalarStyle {
    match s {
        0 => y::ScalarStyle::Any,
        1 => y::ScalarStyle::Plain,
        2 => y::ScalarStyle::SingleQuoted,
        3 => y::ScalarStyle::DoubleQuoted,
        4 => y::ScalarStyle::Literal,
        _ => y::ScalarStyle::Folded,
    }
}
pub fn qstyle_of(s: y::SequenceStyle) -> u8 {
    match s {
        y::SequenceStyle::Any => 0,
        y::SequenceStyle::Block => 1,
        y::SequenceStyle::Flow => 2,
        _ => 9,
    }
}
pub fn qstyle_to(s: u8) -> y::SequenceStyle {
    match s {
        0 => y::SequenceStyle::Any,
        1 => y::SequenceStyle::Block,
        _ => y::SequenceStyle::Flow,
    }
}
pub fn mstyle_of(s: y::MappingStyle) -> u8 {
    match s {
        y::MappingStyle::Any => 0,
        y::MappingStyle::Block => 1,
        y::MappingStyle::Flow => 2,
        _ => 9,
    }
}
pub fn mstyle_to(s: u8) -> y::MappingStyle {
    match s {
        0 => y::MappingStyle::Any,
        1 => y::MappingStyle::Block,
        _ => y::MappingStyle::Flow,
    }
}

pub fn kind_of(k: y::ErrorKind) -> Kind {
    match k {
        y::ErrorKind::Reader => Kind::Reader,
        y::ErrorKind::Scanner => Kind::Scanner,
        y::ErrorKind::Parser => Kind::Parser,
        y::ErrorKind::Composer => Kind::Composer,
        y::ErrorKind::Emitter => Kind::Emitter,
        y::ErrorKind::Io => Kind::Io,
    }
}

pub fn err(e: &y::Error) -> ErrN {
    ErrN {
        kind: kind_of(e.kind()),
        problem: e.problem().to_string(),
        pmark: e.problem_mark().map(mk),
        context: e.context().map(|s| s.to_string()),
        cmark: e.context_mark().map(mk),
        display: e.to_string(),
        offset: 0,
        value: 0,
    }
}

fn b(s: &str) -> Bs {
    Bs::from(s)
}
fn ob(s: &Option<String>) -> Option<Bs> {
    s.as_deref().map(b)
}

pub fn tok(t: &y::Token) -> TokM {
    use y::TokenData as D;
    let k = match &t.data {
        D::StreamStart { encoding } => Tok::StreamStart(enc_of(*encoding)),
        D::StreamEnd => Tok::StreamEnd,
        D::VersionDirective { major, minor } => Tok::Version(*major, *minor),
        D::TagDirective { handle, prefix } => Tok::TagDir(b(handle), b(prefix)),
        D::DocumentStart => Tok::DocStart,
        D::DocumentEnd => Tok::DocEnd,
        D::BlockSequenceStart => Tok::BlockSeqStart,
        D::BlockMappingStart => Tok::BlockMapStart,
        D::BlockEnd => Tok::BlockEnd,
        D::FlowSequenceStart => Tok::FlowSeqStart,
        D::FlowSequenceEnd => Tok::FlowSeqEnd,
        D::FlowMappingStart => Tok::FlowMapStart,
        D::FlowMappingEnd => Tok::FlowMapEnd,
        D::BlockEntry => Tok::BlockEntry,
        D::FlowEntry => Tok::FlowEntry,
        D::Key => Tok::Key,
        D::Value => Tok::Value,
        D::Alias { value } => Tok::Alias(b(value)),
        D::Anchor { value } => Tok::Anchor(b(value)),
        D::Tag { handle, suffix } => Tok::Tag(b(handle), b(suffix)),
        D::Scalar { value, style } => Tok::Scalar(b(value), sstyle_of(*style)),
    };
    TokM {
        t: k,
        s: mk(t.start_mark),
        e: mk(t.end_mark),
    }
}

fn tags_of(t: &[y::TagDirective]) -> Vec<(Bs, Bs)> {
    t.iter().map(|t| (b(&t.handle), b(&t.prefix))).collect()
}

pub fn ev_of(d: &y::EventData) -> Ev {
    use y::EventData as D;
    match d {
        D::StreamStart { encoding } => Ev::StreamStart(enc_of(*encoding)),
        D::StreamEnd => Ev::StreamEnd,
        D::DocumentStart {
            version_directive,
            tag_directives,
            implicit,
        } => Ev::DocStart {
            ver: version_directive.map(|v| (v.major, v.minor)),
            tags: tags_of(tag_directives),
            implicit: *implicit,
        },
        D::DocumentEnd { implicit } => Ev::DocEnd(*implicit),
        D::Alias { anchor } => Ev::Alias(b(anchor)),
        D::Scalar {
            anchor,
            tag,
            value,
            plain_implicit,
            quoted_implicit,
            style,
        } => Ev::Scalar {
            anchor: ob(anchor),
            tag: ob(tag),
            value: b(value),
            pi: *plain_implicit,
            qi: *quoted_implicit,
            style: sstyle_of(*style),
        },
        D::SequenceStart {
            anchor,
            tag,
            implicit,
            style,
        } => Ev::SeqStart {
            anchor: ob(anchor),
            tag: ob(tag),
            implicit: *implicit,
            style: qstyle_of(*style),
        },
        D::SequenceEnd => Ev::SeqEnd,
        D::MappingStart {
            anchor,
            tag,
            implicit,
            style,
        } => Ev::MapStart {
            anchor: ob(anchor),
            tag: ob(tag),
            implicit: *implicit,
            style: mstyle_of(*style),
        },
        D::MappingEnd => Ev::MapEnd,
    }
}

pub fn evm(e: &y::Event) -> EvM {
    EvM {
        ev: ev_of(&e.data),
        s: mk(e.start_mark),
        e: mk(e.end_mark),
    }
}

/// `VersionDirective` and `TagDirective` have no public constructors; obtain
/// values the way an application has to, from a parsed document.
fn directive_seed() -> (y::VersionDirective, y::TagDirective) {
    let mut input: &[u8] = b"%YAML 1.1\n%TAG !a! tag:b,\n---\nx\n";
    let mut p = y::Parser::new();
    p.set_input_string(&mut input);
    for e in p {
        if let y::EventData::DocumentStart {
            version_directive,
            tag_directives,
            ..
        } = e.expect("directive seed").data
        {
            return (
                version_directive.expect("directive seed"),
                tag_directives.into_iter().next().expect("directive seed"),
            );
        }
    }
    panic!("directive seed")
}
thread_local! {
    static SEED: (y::VersionDirective, y::TagDirective) = directive_seed();
}
pub fn version(v: (i32, i32)) -> y::VersionDirective {
    SEED.with(|s| {
        let mut d = s.0;
        d.major = v.0;
        d.minor = v.1;
        d
    })
}
pub fn tagdir(t: &(Bs, Bs)) -> y::TagDirective {
    SEED.with(|s| {
        let mut d = s.1.clone();
        d.handle = t.0.s().unwrap().to_string();
        d.prefix = t.1.s().unwrap().to_string();
        d
    })
}

fn os(s: &Option<Bs>) -> Option<&str> {
    s.as_ref().map(|s| s.s().expect("utf8"))
}

/// Build an event through the public constructors.
pub fn build(ev: &Ev) -> y::Event {
    match ev {
        Ev::StreamStart(e) => y::Event::stream_start(enc_to(*e)),
        Ev::StreamEnd => y::Event::stream_end(),
        Ev::DocStart {
            ver,
            tags,
            implicit,
        } => {
            let t: Vec<_> = tags.iter().map(tagdir).collect();
            y::Event::document_start(ver.map(version), &t, *implicit)
        }
        Ev::DocEnd(i) => y::Event::document_end(*i),
        Ev::Alias(a) => y::Event::alias(a.s().unwrap()),
        Ev::Scalar {
            anchor,
            tag,
            value,
            pi,
            qi,
            style,
        } => y::Event::scalar(
            os(anchor),
            os(tag),
            value.s().unwrap(),
            *pi,
            *qi,
            sstyle_to(*style),
        ),
        Ev::SeqStart {
            anchor,
            tag,
            implicit,
            style,
        } => y::Event::sequence_start(os(anchor), os(tag), *implicit, qstyle_to(*style)),
        Ev::SeqEnd => y::Event::sequence_end(),
        Ev::MapStart {
            anchor,
            tag,
            implicit,
            style,
        } => y::Event::mapping_start(os(anchor), os(tag), *implicit, mstyle_to(*style)),
        Ev::MapEnd => y::Event::mapping_end(),
        Ev::None => panic!("no event"),
    }
}

pub fn doc(d: &y::Document) -> DocN {
    let nodes = d
        .nodes
        .iter()
        .map(|n| NodeN {
            k: match &n.data {
                y::NodeData::NoNode => NodeK::None,
                y::NodeData::Scalar { value, style } => {
                    NodeK::Scalar(b(value), sstyle_of(*style))
                }
                y::NodeData::Sequence { items, style } => {
                    NodeK::Seq(items.clone(), qstyle_of(*style))
                }
                y::NodeData::Mapping { pairs, style } => NodeK::Map(
                    pairs.iter().map(|p| (p.key, p.value)).collect(),
                    mstyle_of(*style),
                ),
            },
            tag: ob(&n.tag),
            s: mk(n.start_mark),
            e: mk(n.end_mark),
        })
        .collect();
    DocN {
        nodes,
        ver: d.version_directive.map(|v| (v.major, v.minor)),
        tags: tags_of(&d.tag_directives),
        start_implicit: d.start_implicit,
        end_implicit: d.end_implicit,
        s: mk(d.start_mark),
        e: mk(d.end_mark),
    }
}

/// Upper bound on the number of items any stream may produce; far above what
/// the grammar permits, so reaching it means the stream does not end.
pub fn cap(len: usize) -> usize {
    len * 6 + 64
}

pub const RUNAWAY: &str = "RUNAWAY: stream does not end";

pub fn runaway() -> ErrN {
    ErrN {
        kind: Kind::Io,
        problem: RUNAWAY.into(),
        pmark: None,
        context: None,
        cmark: None,
        display: RUNAWAY.into(),
        offset: 0,
        value: 0,
    }
}

pub fn tokens_from<R: BufRead>(s: &mut y::Scanner<R>, cap: usize) -> (Vec<TokM>, Option<ErrN>) {
    let mut v = vec![];
    loop {
        if v.len() > cap {
            return (v, Some(runaway()));
        }
        match s.scan() {
            Ok(t) => {
                let t = tok(&t);
                let end = t.t == Tok::StreamEnd;
                v.push(t);
                if end {
                    return (v, None);
                }
            }
            Err(e) => return (v, Some(err(&e))),
        }
    }
}

pub fn tokens(input: &[u8]) -> (Vec<TokM>, Option<ErrN>) {
    let mut s = y::Scanner::new();
    s.set_input(input);
    tokens_from(&mut s, cap(input.len()))
}

pub fn events_from<R: BufRead>(p: &mut y::Parser<R>, cap: usize) -> (Vec<EvM>, Option<ErrN>) {
    let mut v = vec![];
    loop {
        if v.len() > cap {
            return (v, Some(runaway()));
        }
        match p.parse() {
            Ok(t) => {
                let t = evm(&t);
                let end = t.ev == Ev::StreamEnd;
                v.push(t);
                if end {
                    return (v, None);
                }
            }
            Err(e) => return (v, Some(err(&e))),
        }
    }
}

pub fn events(input: &[u8]) -> (Vec<EvM>, Option<ErrN>) {
    let mut p = y::Parser::new();
    p.set_input(input);
    events_from(&mut p, cap(input.len()))
}

pub fn docs_from<R: BufRead>(p: &mut y::Parser<R>, cap: usize) -> (Vec<DocN>, Option<ErrN>) {
    let mut v = vec![];
    loop {
        if v.len() > cap {
            return (v, Some(runaway()));
        }
        match y::Document::load(p) {
            Ok(d) => {
                if d.nodes.is_empty() {
                    return (v, None);
                }
                v.push(doc(&d));
            }
            Err(e) => return (v, Some(err(&e))),
        }
    }
}

pub fn docs(input: &[u8]) -> (Vec<DocN>, Option<ErrN>) {
    let mut p = y::Parser::new();
    p.set_input(input);
    docs_from(&mut p, cap(input.len()))
}

pub fn configure(em: &mut y::Emitter, cfg: &EmCfg) {
    if cfg.enc != 0 {
        em.set_encoding(enc_to(cfg.enc));
    }
    em.set_canonical(cfg.canonical);
    if let Some(i) = cfg.indent {
        em.set_indent(i);
    }
    if let Some(w) = cfg.width {
        em.set_width(w);
    }
    em.set_unicode(cfg.unicode);
    em.set_break(brk_to(cfg.brk));
}

pub fn change(em: &mut y::Emitter, l: &Later) {
    match l.which {
        0 => em.set_canonical(l.value != 0),
        1 => em.set_indent(l.value),
        2 => em.set_width(l.value),
        3 => em.set_unicode(l.value != 0),
        _ => em.set_break(brk_to(l.value as u8)),
    }
}

pub fn emit_to(
    w: &mut dyn Write,
    cfg: &EmCfg,
    events: &[Ev],
    final_flush: bool,
) -> Option<(usize, ErrN)> {
    emit_changing_to(w, cfg, &[], events, final_flush)
}

fn emit_changing_to(
    w: &mut dyn Write,
    cfg: &EmCfg,
    later: &[Later],
    events: &[Ev],
    final_flush: bool,
) -> Option<(usize, ErrN)> {
    let mut em = y::Emitter::new();
    em.set_output(w);
    configure(&mut em, cfg);
    for (i, ev) in events.iter().enumerate() {
        for l in later.iter().filter(|l| l.at == i) {
            change(&mut em, l);
        }
        // the calls that stand for the two events of the stream, now and then
        let calls = events.len() % 3 == 0;
        let r = match ev {
            Ev::StreamStart(0) if calls && i == 0 => em.open(),
            Ev::StreamEnd if calls && i + 1 == events.len() && events[0] == Ev::StreamStart(0) => em.close(),
            _ => em.emit(build(ev)),
        };
        if let Err(e) = r {
            let e = err(&e);
            if final_flush && e.kind == Kind::Emitter {
                // what was accepted is still to be delivered
                let _ = em.flush();
            }
            return Some((i, e));
        }
    }
    if final_flush {
        if let Err(e) = em.flush() {
            return Some((events.len(), err(&e)));
        }
    }
    None
}

pub fn emit(cfg: &EmCfg, events: &[Ev], final_flush: bool) -> EmitOut {
    emit_changing(cfg, &[], events, final_flush)
}

/// As `emit`, with settings changed on the way.
pub fn emit_changing(cfg: &EmCfg, later: &[Later], events: &[Ev], final_flush: bool) -> EmitOut {
    let mut out = Vec::new();
    let err = emit_changing_to(&mut out, cfg, later, events, final_flush);
    EmitOut { bytes: out, err }
}
