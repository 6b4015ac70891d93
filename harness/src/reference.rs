//! Safe wrapper around the reference implementation (unsafe-libyaml, the
//! mechanical translation of libyaml that the library under test was ported
//! from).
use crate::model::*;
use std::ffi::c_void;
use std::mem::MaybeUninit;
use std::ptr;
use unsafe_libyaml::*;

unsafe fn cs(p: *const u8) -> Bs {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    Bs(std::slice::from_raw_parts(p, n).to_vec())
}
unsafe fn ocs(p: *const u8) -> Option<Bs> {
    if p.is_null() {
        None
    } else {
        Some(cs(p))
    }
}
unsafe fn bs(p: *const u8, n: u64) -> Bs {
    Bs(std::slice::from_raw_parts(p, n as usize).to_vec())
}
unsafe fn rs(p: *const i8) -> String {
    if p.is_null() {
        return String::new();
    }
    String::from_utf8_lossy(&cs(p.cast()).0).into_owned()
}
fn mk(m: yaml_mark_t) -> Mk {
    Mk {
        i: m.index,
        l: m.line,
        c: m.column,
    }
}

unsafe fn parser_err(p: &yaml_parser_t) -> ErrN {
    let kind = match p.error {
        YAML_READER_ERROR => Kind::Reader,
        YAML_SCANNER_ERROR => Kind::Scanner,
        YAML_PARSER_ERROR => Kind::Parser,
        YAML_COMPOSER_ERROR => Kind::Composer,
        e => panic!("reference: unexpected error {e:?}"),
    };
    let problem = rs(p.problem);
    let context = rs(p.context);
    if kind == Kind::Reader {
        return ErrN {
            kind,
            problem,
            pmark: None,
            context: None,
            cmark: None,
            display: String::new(),
            offset: p.problem_offset,
            value: p.problem_value as i64,
        };
    }
    ErrN {
        kind,
        problem,
        pmark: Some(mk(p.problem_mark)),
        cmark: if context.is_empty() {
            None
        } else {
            Some(mk(p.context_mark))
        },
        context: if context.is_empty() { None } else { Some(context) },
        display: String::new(),
        offset: 0,
        value: 0,
    }
}

pub struct RefParser<'a> {
    p: Box<MaybeUninit<yaml_parser_t>>,
    feed: Option<Box<Feed>>,
    _in: std::marker::PhantomData<&'a [u8]>,
}

pub struct Feed {
    data: Vec<u8>,
    pos: usize,
    chunk: usize,
}

unsafe fn feed_read(d: *mut c_void, buf: *mut u8, size: u64, read: *mut u64) -> i32 {
    let f = &mut *(d as *mut Feed);
    let n = (f.data.len() - f.pos).min(size as usize).min(f.chunk);
    ptr::copy_nonoverlapping(f.data.as_ptr().add(f.pos), buf, n);
    f.pos += n;
    *read = n as u64;
    1
}

impl<'a> RefParser<'a> {
    pub fn new(input: &'a [u8], enc: u8) -> Self {
        unsafe {
            let mut p = Box::new(MaybeUninit::<yaml_parser_t>::uninit());
            assert!(yaml_parser_initialize(p.as_mut_ptr()).ok);
            yaml_parser_set_input_string(p.as_mut_ptr(), input.as_ptr(), input.len() as u64);
            if enc != 0 {
                yaml_parser_set_encoding(p.as_mut_ptr(), encoding(enc));
            }
            RefParser {
                p,
                feed: None,
                _in: std::marker::PhantomData,
            }
        }
    }
    /// Feed the input in pieces of at most `chunk` bytes.
    pub fn chunked(input: &[u8], enc: u8, chunk: usize) -> RefParser<'static> {
        unsafe {
            let mut p = Box::new(MaybeUninit::<yaml_parser_t>::uninit());
            assert!(yaml_parser_initialize(p.as_mut_ptr()).ok);
            let mut feed = Box::new(Feed {
                data: input.to_vec(),
                pos: 0,
                chunk,
            });
            yaml_parser_set_input(p.as_mut_ptr(), feed_read, (&mut *feed as *mut Feed).cast());
            if enc != 0 {
                yaml_parser_set_encoding(p.as_mut_ptr(), encoding(enc));
            }
            RefParser {
                p,
                feed: Some(feed),
                _in: std::marker::PhantomData,
            }
        }
    }
    pub fn scan(&mut self) -> Result<TokM, ErrN> {
        unsafe {
            let _ = &self.feed;
            let p = self.p.as_mut_ptr();
            let mut t = MaybeUninit::<yaml_token_t>::zeroed();
            if !yaml_parser_scan(p, t.as_mut_ptr()).ok {
                return Err(parser_err(&*p));
            }
            let r = conv_token(&*t.as_ptr());
            yaml_token_delete(t.as_mut_ptr());
            Ok(r)
        }
    }
    pub fn parse(&mut self) -> Result<EvM, ErrN> {
        unsafe {
            let p = self.p.as_mut_ptr();
            let mut e = MaybeUninit::<yaml_event_t>::zeroed();
            if !yaml_parser_parse(p, e.as_mut_ptr()).ok {
                return Err(parser_err(&*p));
            }
            let r = conv_event(&*e.as_ptr());
            yaml_event_delete(e.as_mut_ptr());
            Ok(r)
        }
    }
    pub fn load(&mut self) -> Result<DocN, ErrN> {
        unsafe {
            let p = self.p.as_mut_ptr();
            let mut d = MaybeUninit::<yaml_document_t>::zeroed();
            if !yaml_parser_load(p, d.as_mut_ptr()).ok {
                return Err(parser_err(&*p));
            }
            let r = conv_doc(&*d.as_ptr());
            yaml_document_delete(d.as_mut_ptr());
            Ok(r)
        }
    }
}

impl Drop for RefParser<'_> {
    fn drop(&mut self) {
        unsafe { yaml_parser_delete(self.p.as_mut_ptr()) }
    }
}

fn encoding(e: u8) -> yaml_encoding_t {
    match e {
        0 => YAML_ANY_ENCODING,
        1 => YAML_UTF8_ENCODING,
        2 => YAML_UTF16LE_ENCODING,
        _ => YAML_UTF16BE_ENCODING,
    }
}

unsafe fn conv_token(t: &yaml_token_t) -> TokM {
    let d = &t.data;
    let tok = match t.type_ {
        YAML_NO_TOKEN => Tok::None,
        YAML_STREAM_START_TOKEN => Tok::StreamStart(d.stream_start.encoding as u8),
        YAML_STREAM_END_TOKEN => Tok::StreamEnd,
        YAML_VERSION_DIRECTIVE_TOKEN => {
            Tok::Version(d.version_directive.major, d.version_directive.minor)
        }
        YAML_TAG_DIRECTIVE_TOKEN => {
            Tok::TagDir(cs(d.tag_directive.handle), cs(d.tag_directive.prefix))
        }
        YAML_DOCUMENT_START_TOKEN => Tok::DocStart,
        YAML_DOCUMENT_END_TOKEN => Tok::DocEnd,
        YAML_BLOCK_SEQUENCE_START_TOKEN => Tok::BlockSeqStart,
        YAML_BLOCK_MAPPING_START_TOKEN => Tok::BlockMapStart,
        YAML_BLOCK_END_TOKEN => Tok::BlockEnd,
        YAML_FLOW_SEQUENCE_START_TOKEN => Tok::FlowSeqStart,
        YAML_FLOW_SEQUENCE_END_TOKEN => Tok::FlowSeqEnd,
        YAML_FLOW_MAPPING_START_TOKEN => Tok::FlowMapStart,
        YAML_FLOW_MAPPING_END_TOKEN => Tok::FlowMapEnd,
        YAML_BLOCK_ENTRY_TOKEN => Tok::BlockEntry,
        YAML_FLOW_ENTRY_TOKEN => Tok::FlowEntry,
        YAML_KEY_TOKEN => Tok::Key,
        YAML_VALUE_TOKEN => Tok::Value,
        YAML_ALIAS_TOKEN => Tok::Alias(cs(d.alias.value)),
        YAML_ANCHOR_TOKEN => Tok::Anchor(cs(d.anchor.value)),
        YAML_TAG_TOKEN => Tok::Tag(cs(d.tag.handle), cs(d.tag.suffix)),
        YAML_SCALAR_TOKEN => Tok::Scalar(
            bs(d.scalar.value, d.scalar.length),
            d.scalar.style as u8,
        ),
        _ => panic!("reference: unknown token"),
    };
    TokM {
        t: tok,
        s: mk(t.start_mark),
        e: mk(t.end_mark),
    }
}

unsafe fn conv_tags(
    start: *mut yaml_tag_directive_t,
    end: *mut yaml_tag_directive_t,
) -> Vec<(Bs, Bs)> {
    let mut v = vec![];
    let mut p = start;
    while p != end {
        v.push((cs((*p).handle), cs((*p).prefix)));
        p = p.add(1);
    }
    v
}

unsafe fn conv_ver(p: *mut yaml_version_directive_t) -> Option<(i32, i32)> {
    if p.is_null() {
        None
    } else {
        Some(((*p).major, (*p).minor))
    }
}

unsafe fn conv_event(e: &yaml_event_t) -> EvM {
    let d = &e.data;
    let ev = match e.type_ {
        YAML_NO_EVENT => Ev::None,
        YAML_STREAM_START_EVENT => Ev::StreamStart(d.stream_start.encoding as u8),
        YAML_STREAM_END_EVENT => Ev::StreamEnd,
        YAML_DOCUMENT_START_EVENT => Ev::DocStart {
            ver: conv_ver(d.document_start.version_directive),
            tags: conv_tags(
                d.document_start.tag_directives.start,
                d.document_start.tag_directives.end,
            ),
            implicit: d.document_start.implicit,
        },
        YAML_DOCUMENT_END_EVENT => Ev::DocEnd(d.document_end.implicit),
        YAML_ALIAS_EVENT => Ev::Alias(cs(d.alias.anchor)),
        YAML_SCALAR_EVENT => Ev::Scalar {
            anchor: ocs(d.scalar.anchor),
            tag: ocs(d.scalar.tag),
            value: bs(d.scalar.value, d.scalar.length),
            pi: d.scalar.plain_implicit,
            qi: d.scalar.quoted_implicit,
            style: d.scalar.style as u8,
        },
        YAML_SEQUENCE_START_EVENT => Ev::SeqStart {
            anchor: ocs(d.sequence_start.anchor),
            tag: ocs(d.sequence_start.tag),
            implicit: d.sequence_start.implicit,
            style: d.sequence_start.style as u8,
        },
        YAML_SEQUENCE_END_EVENT => Ev::SeqEnd,
        YAML_MAPPING_START_EVENT => Ev::MapStart {
            anchor: ocs(d.mapping_start.anchor),
            tag: ocs(d.mapping_start.tag),
            implicit: d.mapping_start.implicit,
            style: d.mapping_start.style as u8,
        },
        YAML_MAPPING_END_EVENT => Ev::MapEnd,
        _ => panic!("reference: unknown event"),
    };
    EvM {
        ev,
        s: mk(e.start_mark),
        e: mk(e.end_mark),
    }
}

unsafe fn conv_doc(d: &yaml_document_t) -> DocN {
    let mut nodes = vec![];
    let mut p = d.nodes.start;
    while p != d.nodes.top {
        let n = &*p;
        let k = match n.type_ {
            YAML_SCALAR_NODE => NodeK::Scalar(
                bs(n.data.scalar.value, n.data.scalar.length),
                n.data.scalar.style as u8,
            ),
            YAML_SEQUENCE_NODE => {
                let mut v = vec![];
                let mut q = n.data.sequence.items.start;
                while q != n.data.sequence.items.top {
                    v.push(*q);
                    q = q.add(1);
                }
                NodeK::Seq(v, n.data.sequence.style as u8)
            }
            YAML_MAPPING_NODE => {
                let mut v = vec![];
                let mut q = n.data.mapping.pairs.start;
                while q != n.data.mapping.pairs.top {
                    v.push(((*q).key, (*q).value));
                    q = q.add(1);
                }
                NodeK::Map(v, n.data.mapping.style as u8)
            }
            _ => NodeK::None,
        };
        nodes.push(NodeN {
            k,
            tag: ocs(n.tag),
            s: mk(n.start_mark),
            e: mk(n.end_mark),
        });
        p = p.add(1);
    }
    DocN {
        nodes,
        ver: conv_ver(d.version_directive),
        tags: conv_tags(d.tag_directives.start, d.tag_directives.end),
        start_implicit: d.start_implicit,
        end_implicit: d.end_implicit,
        s: mk(d.start_mark),
        e: mk(d.end_mark),
    }
}

/// All tokens up to STREAM-END or the first error.
pub fn tokens(input: &[u8]) -> (Vec<TokM>, Option<ErrN>) {
    let mut p = RefParser::new(input, 0);
    let mut v = vec![];
    loop {
        match p.scan() {
            Ok(t) => {
                let end = t.t == Tok::StreamEnd;
                v.push(t);
                if end {
                    return (v, None);
                }
            }
            Err(e) => return (v, Some(e)),
        }
    }
}

pub fn events(input: &[u8]) -> (Vec<EvM>, Option<ErrN>) {
    events_from(RefParser::new(input, 0))
}

pub fn events_from(mut p: RefParser) -> (Vec<EvM>, Option<ErrN>) {
    let mut v = vec![];
    loop {
        match p.parse() {
            Ok(t) => {
                let end = t.ev == Ev::StreamEnd;
                v.push(t);
                if end {
                    return (v, None);
                }
            }
            Err(e) => return (v, Some(e)),
        }
    }
}

/// Documents up to the end of the stream (not including the final empty
/// document) or the first error.
pub fn docs(input: &[u8]) -> (Vec<DocN>, Option<ErrN>) {
    let mut p = RefParser::new(input, 0);
    let mut v = vec![];
    loop {
        match p.load() {
            Ok(d) => {
                if d.nodes.is_empty() {
                    return (v, None);
                }
                v.push(d);
            }
            Err(e) => return (v, Some(e)),
        }
    }
}

unsafe fn write_vec(data: *mut c_void, buffer: *mut u8, size: u64) -> i32 {
    let v = &mut *(data as *mut Vec<u8>);
    v.extend_from_slice(std::slice::from_raw_parts(buffer, size as usize));
    1
}

struct Z(Vec<u8>);
fn z(b: &Bs) -> Z {
    let mut v = b.0.clone();
    v.push(0);
    Z(v)
}
fn oz(b: &Option<Bs>) -> Option<Z> {
    b.as_ref().map(z)
}
fn pz(b: &Option<Z>) -> *const u8 {
    b.as_ref().map_or(ptr::null(), |z| z.0.as_ptr())
}

fn sstyle(s: u8) -> yaml_scalar_style_t {
    match s {
        0 => YAML_ANY_SCALAR_STYLE,
        1 => YAML_PLAIN_SCALAR_STYLE,
        2 => YAML_SINGLE_QUOTED_SCALAR_STYLE,
        3 => YAML_DOUBLE_QUOTED_SCALAR_STYLE,
        4 => YAML_LITERAL_SCALAR_STYLE,
        _ => YAML_FOLDED_SCALAR_STYLE,
    }
}

/// Build the reference event. Returns None when libyaml's own constructor
/// refuses the values.
unsafe fn build(ev: &Ev, out: *mut yaml_event_t) -> bool {
    match ev {
        Ev::StreamStart(e) => yaml_stream_start_event_initialize(out, encoding(*e)).ok,
        Ev::StreamEnd => yaml_stream_end_event_initialize(out).ok,
        Ev::DocStart {
            ver,
            tags,
            implicit,
        } => {
            let mut v: yaml_version_directive_t = std::mem::zeroed();
            let vp = match ver {
                Some((a, b)) => {
                    v.major = *a;
                    v.minor = *b;
                    &mut v as *mut _
                }
                None => ptr::null_mut(),
            };
            let keep: Vec<(Z, Z)> = tags.iter().map(|(a, b)| (z(a), z(b))).collect();
            let mut raw: Vec<yaml_tag_directive_t> = keep
                .iter()
                .map(|(a, b)| {
                    let mut t: yaml_tag_directive_t = std::mem::zeroed();
                    t.handle = a.0.as_ptr() as *mut u8;
                    t.prefix = b.0.as_ptr() as *mut u8;
                    t
                })
                .collect();
            let (s, e) = if raw.is_empty() {
                (ptr::null_mut(), ptr::null_mut())
            } else {
                let s = raw.as_mut_ptr();
                (s, s.add(raw.len()))
            };
            yaml_document_start_event_initialize(out, vp, s, e, *implicit).ok
        }
        Ev::DocEnd(i) => yaml_document_end_event_initialize(out, *i).ok,
        Ev::Alias(a) => {
            let a = z(a);
            yaml_alias_event_initialize(out, a.0.as_ptr()).ok
        }
        Ev::Scalar {
            anchor,
            tag,
            value,
            pi,
            qi,
            style,
        } => {
            let (a, t) = (oz(anchor), oz(tag));
            let val = z(value);
            yaml_scalar_event_initialize(
                out,
                pz(&a),
                pz(&t),
                val.0.as_ptr(),
                value.0.len() as i32,
                *pi,
                *qi,
                sstyle(*style),
            )
            .ok
        }
        Ev::SeqStart {
            anchor,
            tag,
            implicit,
            style,
        } => {
            let (a, t) = (oz(anchor), oz(tag));
            let st = match style {
                0 => YAML_ANY_SEQUENCE_STYLE,
                1 => YAML_BLOCK_SEQUENCE_STYLE,
                _ => YAML_FLOW_SEQUENCE_STYLE,
            };
            yaml_sequence_start_event_initialize(out, pz(&a), pz(&t), *implicit, st).ok
        }
        Ev::SeqEnd => yaml_sequence_end_event_initialize(out).ok,
        Ev::MapStart {
            anchor,
            tag,
            implicit,
            style,
        } => {
            let (a, t) = (oz(anchor), oz(tag));
            let st = match style {
                0 => YAML_ANY_MAPPING_STYLE,
                1 => YAML_BLOCK_MAPPING_STYLE,
                _ => YAML_FLOW_MAPPING_STYLE,
            };
            yaml_mapping_start_event_initialize(out, pz(&a), pz(&t), *implicit, st).ok
        }
        Ev::MapEnd => yaml_mapping_end_event_initialize(out).ok,
        Ev::None => false,
    }
}

/// Emit the events, stopping at the first failure. With `final_flush` the
/// buffer is flushed at the end, also after a failure.
pub fn emit(cfg: &EmCfg, later: &[Later], events: &[Ev], final_flush: bool) -> EmitOut {
    let brk = |b: u8| match b {
        0 => yaml_break_t::YAML_ANY_BREAK,
        1 => yaml_break_t::YAML_CR_BREAK,
        2 => yaml_break_t::YAML_LN_BREAK,
        _ => yaml_break_t::YAML_CRLN_BREAK,
    };
    unsafe {
        let mut out: Box<Vec<u8>> = Box::default();
        let mut em = Box::new(MaybeUninit::<yaml_emitter_t>::uninit());
        let em = em.as_mut_ptr();
        assert!(yaml_emitter_initialize(em).ok);
        yaml_emitter_set_output(em, write_vec, (&mut *out as *mut Vec<u8>).cast());
        if cfg.enc != 0 {
            yaml_emitter_set_encoding(em, encoding(cfg.enc));
        }
        yaml_emitter_set_canonical(em, cfg.canonical);
        if let Some(i) = cfg.indent {
            yaml_emitter_set_indent(em, i);
        }
        if let Some(w) = cfg.width {
            yaml_emitter_set_width(em, w);
        }
        yaml_emitter_set_unicode(em, cfg.unicode);
        yaml_emitter_set_break(em, brk(cfg.brk));
        let mut err = None;
        for (i, ev) in events.iter().enumerate() {
            for l in later.iter().filter(|l| l.at == i) {
                match l.which {
                    0 => yaml_emitter_set_canonical(em, l.value != 0),
                    1 => yaml_emitter_set_indent(em, l.value),
                    2 => yaml_emitter_set_width(em, l.value),
                    3 => yaml_emitter_set_unicode(em, l.value != 0),
                    _ => yaml_emitter_set_break(em, brk(l.value as u8)),
                }
            }
            let mut e = MaybeUninit::<yaml_event_t>::zeroed();
            assert!(build(ev, e.as_mut_ptr()), "reference refused event {ev:?}");
            if !yaml_emitter_emit(em, e.as_mut_ptr()).ok {
                let problem = rs((&*em).problem);
                let kind = match (&*em).error {
                    YAML_EMITTER_ERROR => Kind::Emitter,
                    YAML_WRITER_ERROR => Kind::Io,
                    e => panic!("reference emitter error {e:?}"),
                };
                err = Some((
                    i,
                    ErrN {
                        kind,
                        problem,
                        pmark: None,
                        context: None,
                        cmark: None,
                        display: String::new(),
                        offset: 0,
                        value: 0,
                    },
                ));
                break;
            }
        }
        if final_flush && matches!(events.first(), Some(Ev::StreamStart(_))) {
            let _ = yaml_emitter_flush(em);
        }
        yaml_emitter_delete(em);
        EmitOut { bytes: *out, err }
    }
}
