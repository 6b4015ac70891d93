//! Output side: P12 writer faults, P13 output encodings.
use super::p04::classify;
use super::*;
use crate::evgen;
use crate::model::*;
use crate::sut;
use libyaml_safer as y;
use std::cell::Cell;
use std::io::{self, Write};
use std::rc::Rc;

/// Error kinds a writer or reader may report; Interrupted is not a failure.
pub const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::WriteZero,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::NotFound,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::Unsupported,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::NetworkUnreachable,
    io::ErrorKind::NetworkDown,
    io::ErrorKind::NotADirectory,
    io::ErrorKind::IsADirectory,
    io::ErrorKind::DirectoryNotEmpty,
    io::ErrorKind::ReadOnlyFilesystem,
    io::ErrorKind::StaleNetworkFileHandle,
    io::ErrorKind::StorageFull,
    io::ErrorKind::NotSeekable,
    io::ErrorKind::FileTooLarge,
    io::ErrorKind::ResourceBusy,
    io::ErrorKind::Deadlock,
    io::ErrorKind::QuotaExceeded,
];

#[derive(Debug)]
struct Payload(u64);
impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected fault {}", self.0)
    }
}
impl std::error::Error for Payload {}

pub fn io_error(kind: io::ErrorKind, id: u64) -> io::Error {
    io::Error::new(kind, Payload(id))
}

/// The library error has to be the injected one, in every way one can ask.
pub fn is_injected(e: y::Error, kind: io::ErrorKind, id: u64) -> Verdict {
    use std::error::Error as _;
    let want = format!("I/O error: injected fault {id}");
    if e.kind() != y::ErrorKind::Io {
        return Err(format!("error kind {:?} ({e}) instead of the I/O error", e.kind()));
    }
    if e.to_string() != want {
        return Err(format!("displayed as {:?}, expected {want:?}", e.to_string()));
    }
    if e.problem_mark().is_some() || e.context().is_some() || e.context_mark().is_some() {
        return Err("I/O error with a position or context".into());
    }
    match e.source().and_then(|s| s.downcast_ref::<io::Error>()) {
        Some(s) if s.kind() == kind => {}
        s => return Err(format!("source() is {s:?}")),
    }
    match io::Error::try_from(e) {
        Ok(i) => {
            let p = i.get_ref().and_then(|r| r.downcast_ref::<Payload>()).map(|p| p.0);
            if i.kind() != kind || p != Some(id) {
                return Err(format!("converted to {i:?}"));
            }
        }
        Err(e) => return Err(format!("cannot be converted to io::Error: {e}")),
    }
    Ok(())
}

/// A writer that accepts up to `chunk` bytes per call, reports Interrupted on
/// some calls, and fails for good once `limit` bytes were accepted.
struct W {
    got: Vec<u8>,
    chunk: usize,
    limit: usize,
    kind: io::ErrorKind,
    zero: bool,
    intr: u32,
    calls: u32,
    /// shared, to be seen while an emitter holds the writer
    failed: Rc<Cell<bool>>,
    /// fails once only
    once: bool,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.chunk).min(self.limit - self.got.len());
        if n == 0 && !b.is_empty() {
            self.failed.set(true);
            let at = self.limit as u64;
            if self.once {
                self.limit = usize::MAX;
            }
            if self.zero {
                return Ok(0);
            }
            return Err(io_error(self.kind, at));
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Case {
    cfg: EmCfg,
    ev: Vec<Ev>,
    chunk: usize,
    intr: u32,
    kind: io::ErrorKind,
    zero: bool,
    /// fault positions to try; None: all of them
    at: Option<usize>,
    flushes: bool,
}

fn case(s: &mut Src) -> Case {
    let mut cfg = evgen::cfg(s);
    cfg.enc = s.below(4) as u8;
    let big = s.chance(1, 60);
    let chunk = *s.pick(&[usize::MAX, 1, 2, 3, 7, 100, 4096]);
    let intr = *s.pick(&[0u32, 2, 3, 5, 0, 0]);
    let kind = *s.pick(KINDS);
    let zero = s.chance(1, 8);
    let all = s.chance(1, 3);
    let pos = s.below(1 << 20);
    let flushes = s.chance(1, 3);
    let mut ev = if big { evgen::big(s) } else { evgen::events(s, false) };
    if !big && s.chance(1, 60) {
        // Fill the output buffer up to shortly before the events that follow,
        // so that a write happens in the middle of any of them.
        let n = s.below(220);
        let nth = s.below(3);
        let scalars = ev.iter_mut().filter_map(|e| match e {
            Ev::Scalar { value, .. } => Some(value),
            _ => None,
        });
        if let Some(value) = scalars.take(nth + 1).last() {
            *value = "a".repeat(16384 - 6 - n).into();
        }
    }
    Case {
        cfg,
        ev,
        chunk,
        intr,
        kind,
        zero,
        at: if all && !big { None } else { Some(pos) },
        flushes,
    }
}

/// The call that failed, or a call that reported success although the writer
/// failed in it.
type Failed = Result<Option<(usize, y::Error)>, String>;

/// Drives an emitter; returns the first failing call.
fn drive(w: &mut W, c: &Case) -> Failed {
    let failed = w.failed.clone();
    let mut em = y::Emitter::new();
    em.set_output(w);
    sut::configure(&mut em, &c.cfg);
    let quiet = |i: usize, what: &str| {
        if failed.get() {
            return Err(format!("{what} {i} reported success although the writer failed in it"));
        }
        Ok(())
    };
    for (i, e) in c.ev.iter().enumerate() {
        if let Err(x) = em.emit(sut::build(e)) {
            return Ok(Some((i, x)));
        }
        quiet(i, "event")?;
        if c.flushes {
            if let Err(x) = em.flush() {
                return Ok(Some((i, x)));
            }
            quiet(i, "flush after event")?;
        }
    }
    let r = em.flush().err().map(|x| (c.ev.len(), x));
    if r.is_none() {
        quiet(c.ev.len(), "last flush, call")?;
    }
    Ok(r)
}

fn writer(c: &Case, limit: usize) -> W {
    W {
        got: vec![],
        chunk: c.chunk,
        limit,
        kind: c.kind,
        zero: c.zero,
        intr: c.intr,
        calls: 0,
        failed: Rc::default(),
        once: false,
    }
}

/// A writer that fails once and works from then on, and a call of flush after
/// the call that failed: when it reports success, all text is there. (Text may
/// be there twice; nothing is said about that.)
fn again(c: &Case, at: usize, full: &[u8], ctx: &mut Ctx) -> Verdict {
    let mut w = writer(c, at);
    w.once = true;
    let mut ends = None;
    {
        let mut em = y::Emitter::new();
        em.set_output(&mut w);
        sut::configure(&mut em, &c.cfg);
        for (i, e) in c.ev.iter().enumerate() {
            if let Err(x) = em.emit(sut::build(e)) {
                if !matches!(e, Ev::DocEnd(_) | Ev::StreamEnd) {
                    // interrupted in the middle of its work
                    return Ok(());
                }
                ends = Some((i, format!("{x}")));
            } else if c.flushes {
                if let Err(x) = em.flush() {
                    ends = Some((i, format!("{x}")));
                }
            }
            if ends.is_some() {
                break;
            }
        }
        if ends.is_none() {
            if let Err(x) = em.flush() {
                ends = Some((c.ev.len() - 1, format!("{x}")));
            }
        }
        if ends.is_none() || em.flush().is_err() {
            return Ok(());
        }
    }
    let (i, x) = ends.expect("set");
    ctx.class("flushed again after an error");
    // what a writer that works has got by then
    let mut want = vec![];
    {
        let mut em = y::Emitter::new();
        em.set_output(&mut want);
        sut::configure(&mut em, &c.cfg);
        for e in &c.ev[..=i] {
            em.emit(sut::build(e)).map_err(|e| e.to_string())?;
        }
        em.flush().map_err(|e| e.to_string())?;
    }
    if want.len() < at || !full.starts_with(&want) || !w.got.ends_with(&want[at..]) {
        return Err(format!(
            "call {i} failed ({x}) after {at} bytes, then flush reported success, but {} was written of {}",
            show(&w.got),
            show(&want)
        ));
    }
    Ok(())
}

/// Every call is made although earlier ones failed; none panics, and a writer
/// that keeps failing gets nothing more.
fn goes_on(c: &Case, at: usize, full: &[u8], once: bool) -> Verdict {
    let mut w = writer(c, at);
    w.once = once;
    {
        let mut em = y::Emitter::new();
        em.set_output(&mut w);
        sut::configure(&mut em, &c.cfg);
        for e in &c.ev {
            let _ = em.emit(sut::build(e));
            if c.flushes {
                let _ = em.flush();
            }
        }
        let _ = em.flush();
    }
    if !once && w.got != full[..at] {
        return Err(format!("fault after {at} bytes, further calls: written {}", show(&w.got)));
    }
    let mut w = writer(c, at);
    w.once = once;
    {
        let mut r = full;
        let mut p = y::Parser::new();
        p.set_input(&mut r);
        let mut em = y::Emitter::new();
        em.set_output(&mut w);
        sut::configure(&mut em, &c.cfg);
        let _ = em.open();
        while let Ok(d) = y::Document::load(&mut p) {
            if d.nodes.is_empty() {
                break;
            }
            let _ = d.dump(&mut em);
            if c.flushes {
                let _ = em.flush();
            }
        }
        let _ = em.close();
        let _ = em.flush();
    }
    Ok(())
}

/// Opens, dumps every document of a text, closes; returns the first error.
fn dump_all(w: &mut W, c: &Case, text: &[u8], open: bool) -> Failed {
    let failed = w.failed.clone();
    let mut r = text;
    let mut p = y::Parser::new();
    p.set_input(&mut r);
    let mut em = y::Emitter::new();
    em.set_output(w);
    sut::configure(&mut em, &c.cfg);
    let quiet = |i: usize, what: &str| {
        if failed.get() {
            return Err(format!("{what} {i} reported success although the writer failed in it"));
        }
        Ok(())
    };
    let mut k = 0;
    if open {
        if let Err(x) = em.open() {
            return Ok(Some((k, x)));
        }
        quiet(k, "open")?;
    }
    loop {
        k += 1;
        let Ok(d) = y::Document::load(&mut p) else { break };
        if d.nodes.is_empty() {
            break;
        }
        if let Err(x) = d.dump(&mut em) {
            return Ok(Some((k, x)));
        }
        quiet(k, "dump of document")?;
        if c.flushes {
            if let Err(x) = em.flush() {
                return Ok(Some((k, x)));
            }
            quiet(k, "flush after document")?;
        }
    }
    if k == 1 && !open {
        return Ok(None);
    }
    if let Err(x) = em.close() {
        return Ok(Some((k + 1, x)));
    }
    quiet(k + 1, "close, call")?;
    Ok(None)
}

/// The same through documents.
fn dumped(c: &Case, text: &[u8], ctx: &mut Ctx) -> Verdict {
    let open = c.chunk != 3;
    let mut w = writer(c, usize::MAX);
    if dump_all(&mut w, c, text, open)?.is_some() {
        // refused for other reasons, which are the business of P06
        return Ok(());
    }
    let full = w.got;
    if full.is_empty() {
        return Ok(());
    }
    let p = c.at.unwrap_or(text.len() / 2) % full.len();
    ctx.evals += 1;
    ctx.class("dumped documents");
    let mut w = writer(c, p);
    let Some((i, e)) = dump_all(&mut w, c, text, open)? else {
        return Err(format!("documents: no call failed although the writer failed after {p} of {} bytes", full.len()));
    };
    if !w.failed.get() {
        return Err(format!("documents: call {i} failed before the writer did: {e}"));
    }
    if c.zero {
        if !matches!(io::Error::try_from(e), Ok(e) if e.kind() == io::ErrorKind::WriteZero) {
            return Err("documents: zero-length write reported as something else".into());
        }
    } else {
        is_injected(e, c.kind, p as u64).map_err(|m| format!("documents: fault after {p} bytes: {m}"))?;
    }
    if w.got != full[..p] {
        return Err(format!("documents: fault after {p} bytes, written: {}", show(&w.got)));
    }
    Ok(())
}

pub struct P12;
impl Prop for P12 {
    fn id(&self) -> &'static str {
        "P12"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = event sequence, settings and a writer: bytes accepted per call, calls answered with Interrupted, and a fault (error kind or zero-length write) after n accepted bytes, n drawn at random or every n up to the output length (one evaluation each); non-trivial = a fault struck inside the output; distinct by output and writer"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (300_000, 20),
            Tier::Thorough => (20_000_000, 30),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        let mut s = Src::record(rng);
        case(&mut s);
        s.into_tape()
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let c = case(&mut Src::replay(tape));
        let full = {
            let o = sut::emit(&c.cfg, &c.ev, true);
            if o.err.is_some() {
                // refusals are another property's business
                ctx.class("refused by the emitter");
                return Ok(());
            }
            o.bytes
        };
        ctx.heavy = full.len() > 8000;
        ctx.key = Some(fnv(&full) ^ fnv(&tape[..tape.len().min(16)]));
        classify(&c.cfg, &c.ev, ctx);
        // no fault: short writes and interruptions change nothing
        let mut w = writer(&c, usize::MAX);
        if let Some((i, e)) = drive(&mut w, &c)? {
            return Err(format!("call {i} failed without a fault: {e}"));
        }
        if w.got != full {
            return Err(format!("writer accepting {} bytes at a time got {} instead of {}", c.chunk, show(&w.got), show(&full)));
        }
        if full.is_empty() {
            return Ok(());
        }
        let (a, b) = match c.at {
            Some(p) => {
                let p = p % full.len();
                (p, p + 1)
            }
            None => (0, full.len().min(400)),
        };
        dumped(&c, &full, ctx)?;
        goes_on(&c, a, &full, false)?;
        goes_on(&c, a, &full, true)?;
        for at in a..b {
            ctx.evals += 1;
            ctx.nontrivial = true;
            ctx.class(if c.zero { "zero-length write" } else { "write error" });
            let mut w = writer(&c, at);
            match drive(&mut w, &c)? {
                None => {
                    return Err(format!(
                        "no call failed although the writer failed after {at} of {} bytes",
                        full.len()
                    ))
                }
                Some((i, e)) => {
                    if !w.failed.get() {
                        return Err(format!("call {i} failed before the writer did: {e}"));
                    }
                    if c.zero {
                        if e.kind() != y::ErrorKind::Io {
                            return Err(format!("zero-length write reported as {e}"));
                        }
                        match io::Error::try_from(e) {
                            Ok(e) if e.kind() == io::ErrorKind::WriteZero => {}
                            e => return Err(format!("zero-length write reported as {e:?}")),
                        }
                    } else {
                        is_injected(e, c.kind, at as u64).map_err(|m| format!("fault after {at} bytes: {m}"))?;
                    }
                    if w.got != full[..at] {
                        return Err(format!("fault after {at} bytes, written: {}", show(&w.got)));
                    }
                }
            }
            if full.len() < 1000 && (c.at.is_some() || at % 8 == 0) {
                again(&c, at, &full, ctx)?;
            }
        }
        Ok(())
    }
    fn describe(&self, tape: &[u8]) -> String {
        let c = case(&mut Src::replay(tape));
        short(&format!(
            "chunk {} interrupted every {} fault {:?} zero {} at {:?} flushes {} {:?} {:?}",
            c.chunk, c.intr, c.kind, c.zero, c.at, c.flushes, c.cfg, c.ev
        ))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the run stops at the first failed call; what an emitter does when it is used after a write error is not judged".into()]
    }
}

// ------------------------------------------------------------------ P13

/// UTF-16 with a byte order mark, from the UTF-8 output.
fn transcode(utf8: &[u8], enc: u8) -> Option<Vec<u8>> {
    let t = std::str::from_utf8(utf8).ok()?;
    if enc < 2 {
        return Some(utf8.to_vec());
    }
    Some(gen::to_utf16(&format!("\u{feff}{t}"), enc == 3))
}

struct Enc {
    cfg: EmCfg,
    ev: Vec<Ev>,
    by_event: u8,
    by_setter: u8,
    flush: u8,
    string: bool,
}

fn enc_case(s: &mut Src) -> Enc {
    let cfg = evgen::cfg(s);
    let by_event = s.below(4) as u8;
    let by_setter = s.below(4) as u8;
    let flush = s.below(3) as u8;
    let string = s.chance(1, 4);
    let ev = if s.chance(1, 100) { evgen::big(s) } else { evgen::events(s, false) };
    Enc {
        cfg,
        ev,
        by_event,
        by_setter,
        flush,
        string,
    }
}

pub struct P13;
impl Prop for P13 {
    fn id(&self) -> &'static str {
        "P13"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = event sequence, settings, an encoding asked for by the setter and/or the STREAM-START event, extra flushes, and the kind of output; compared with an independent transcoding of the plain UTF-8 output; non-trivial = at least one node event; distinct by output bytes"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (1_500_000, 30),
            Tier::Thorough => (60_000_000, 40),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        let mut s = Src::record(rng);
        enc_case(&mut s);
        s.into_tape()
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let c = enc_case(&mut Src::replay(tape));
        let plain = sut::emit(&c.cfg, &c.ev, true);
        if plain.err.is_some() {
            ctx.class("refused by the emitter");
            return Ok(());
        }
        classify(&c.cfg, &c.ev, ctx);
        ctx.nontrivial = c.ev.len() > 4;
        ctx.heavy = plain.bytes.len() > 8000;
        if ctx.heavy {
            ctx.class("output over 8000 bytes");
        }
        // set_output_string() settles the encoding itself
        let string = c.string && c.by_setter < 2;
        let enc = if string {
            1
        } else if c.by_setter != 0 {
            c.by_setter
        } else if c.by_event != 0 {
            c.by_event
        } else {
            1
        };
        ctx.class(["", "UTF-8", "UTF-16LE", "UTF-16BE"][enc as usize]);
        if string {
            ctx.class("string output");
        }
        let want = transcode(&plain.bytes, enc).ok_or("UTF-8 output is not UTF-8")?;
        let mut out = if string { b"left over".to_vec() } else { vec![] };
        // (bytes seen when a document ended, after the flush that follows)
        {
            let mut em = y::Emitter::new();
            let mut cfg = c.cfg;
            if string {
                em.set_output_string(&mut out);
                cfg.enc = 0;
            } else {
                em.set_output(&mut out);
                cfg.enc = c.by_setter;
            }
            sut::configure(&mut em, &cfg);
            for (i, e) in c.ev.iter().enumerate() {
                let e = match e {
                    Ev::StreamStart(_) => Ev::StreamStart(c.by_event),
                    e => e.clone(),
                };
                em.emit(sut::build(&e)).map_err(|x| format!("event {i} refused: {x}"))?;
                if c.flush == 1 || c.flush == 2 && i % 3 == 0 {
                    ctx.class("extra flush");
                    em.flush().map_err(|x| format!("flush failed: {x}"))?;
                }
            }
            if c.flush != 2 {
                em.flush().map_err(|x| format!("flush failed: {x}"))?;
            }
        }
        ctx.key = Some(fnv(&out) ^ c.flush as u64);
        if out != want {
            let n = out.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "encoding {enc}: output differs from the transcoded UTF-8 output at byte {n} of {}/{}: {} vs {}",
                out.len(),
                want.len(),
                show(&out[n.saturating_sub(8).min(out.len())..]),
                show(&want[n.saturating_sub(8).min(want.len())..])
            ));
        }
        delivered(&c, &plain.bytes)
    }
    fn describe(&self, tape: &[u8]) -> String {
        let c = enc_case(&mut Src::replay(tape));
        short(&format!(
            "event encoding {} setter {} flush {} string {} {:?} {:?}",
            c.by_event, c.by_setter, c.flush, c.string, c.cfg, c.ev
        ))
    }
}

#[derive(Clone, Default)]
struct Shared(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Every document is handed to the writer when it ends.
fn delivered(c: &Enc, plain: &[u8]) -> Verdict {
    let sh = Shared::default();
    let mut w = sh.clone();
    let mut em = y::Emitter::new();
    em.set_output(&mut w);
    sut::configure(&mut em, &c.cfg);
    for e in &c.ev {
        let ends = matches!(e, Ev::DocEnd(_) | Ev::StreamEnd);
        em.emit(sut::build(e)).map_err(|x| x.to_string())?;
        if ends {
            let n = sh.0.borrow().len();
            em.flush().map_err(|x| x.to_string())?;
            if sh.0.borrow().len() != n {
                return Err(format!("{e:?} left {} bytes unwritten", sh.0.borrow().len() - n));
            }
        }
    }
    if *sh.0.borrow() != plain {
        return Err("output depends on when it is flushed".into());
    }
    Ok(())
}
