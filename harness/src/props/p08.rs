//! Input side: P08 chunking, P09 encodings, P10 malformed input, P11 reader
//! faults.
use super::p12::{io_error, is_injected, KINDS};
use super::*;
use crate::model::*;
use crate::sut;
use crate::text::{self, BadWhat, Enc};
use libyaml_safer as y;
use std::io::{self, BufRead, Read};

pub const NCFG: usize = 6;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Api {
    Scan,
    Parse,
    Load,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Item {
    T(TokM),
    E(EvM),
    D(DocN),
}

pub struct Run {
    pub items: Vec<Item>,
    pub err: Option<ErrN>,
    pub raw: Option<y::Error>,
}

/// Encoding of the stream as far as the items are concerned.
fn no_enc(i: Item) -> (Item, Option<u8>) {
    match i {
        Item::T(TokM { t: Tok::StreamStart(e), s, e: x }) => (
            Item::T(TokM {
                t: Tok::StreamStart(0),
                s,
                e: x,
            }),
            Some(e),
        ),
        Item::E(EvM { ev: Ev::StreamStart(e), s, e: x }) => (
            Item::E(EvM {
                ev: Ev::StreamStart(0),
                s,
                e: x,
            }),
            Some(e),
        ),
        i => (i, None),
    }
}

/// Run an interface to the end; the reported encoding is split off.
pub fn run<R: BufRead>(api: Api, r: R, enc: Option<Enc>, len: usize) -> (Run, Option<u8>) {
    let cap = sut::cap(len);
    if api == Api::Scan {
        let mut s = y::Scanner::new();
        s.set_input(r);
        if let Some(e) = enc {
            s.set_encoding(sut::enc_to(e.code()));
        }
        on_scanner(&mut s, cap)
    } else {
        let mut p = y::Parser::new();
        p.set_input(r);
        if let Some(e) = enc {
            p.set_encoding(sut::enc_to(e.code()));
        }
        on_parser(api, &mut p, cap)
    }
}

fn finish(all: Vec<Item>, raw: Option<y::Error>) -> (Run, Option<u8>) {
    let mut code = None;
    let items = all
        .into_iter()
        .map(|i| {
            let (i, c) = no_enc(i);
            code = c.or(code);
            i
        })
        .collect();
    (
        Run {
            items,
            err: raw.as_ref().map(sut::err),
            raw,
        },
        code,
    )
}

pub fn on_scanner<R: BufRead>(s: &mut y::Scanner<R>, cap: usize) -> (Run, Option<u8>) {
    let mut items = vec![];
    loop {
        match s.scan() {
            Ok(t) => {
                let t = sut::tok(&t);
                let end = t.t == Tok::StreamEnd;
                items.push(Item::T(t));
                if end {
                    return finish(items, None);
                }
            }
            Err(e) => return finish(items, Some(e)),
        }
        assert_cap(&items, cap);
    }
}

pub fn on_parser<R: BufRead>(api: Api, p: &mut y::Parser<R>, cap: usize) -> (Run, Option<u8>) {
    let mut items = vec![];
    loop {
        if api == Api::Load {
            match y::Document::load(p) {
                Ok(d) if d.nodes.is_empty() => return finish(items, None),
                Ok(d) => items.push(Item::D(sut::doc(&d))),
                Err(e) => return finish(items, Some(e)),
            }
        } else {
            match p.parse() {
                Ok(t) => {
                    let t = sut::evm(&t);
                    let end = t.ev == Ev::StreamEnd;
                    items.push(Item::E(t));
                    if end {
                        return finish(items, None);
                    }
                }
                Err(e) => return finish(items, Some(e)),
            }
        }
        assert_cap(&items, cap);
    }
}

pub fn assert_cap(v: &[Item], cap: usize) {
    if v.len() > cap {
        std::panic::panic_any(crate::engine::Runaway);
    }
}

/// A reader that hands out the data in chunks.
pub struct Chunks<'a> {
    data: &'a [u8],
    pos: usize,
    end: usize,
    plan: u8,
    step: u64,
    intr: u32,
    calls: u32,
    /// fail once this many bytes were handed out
    pub fail: Option<(usize, io::ErrorKind)>,
    eof: bool,
    /// what comes after the end of the input was reported once
    after: &'static [u8],
}

impl<'a> Chunks<'a> {
    pub fn new(data: &'a [u8], plan: u8, intr: u32) -> Self {
        Chunks {
            data,
            pos: 0,
            end: 0,
            plan,
            step: plan as u64,
            intr,
            calls: 0,
            fail: None,
            eof: false,
            after: b"",
        }
    }
    fn size(&mut self) -> usize {
        match self.plan {
            0 => 1,
            1 => 2,
            2 => 3,
            3 => 4,
            4 => 5,
            5 => 7,
            6 => 16,
            7 => 64,
            8 => 4096,
            9 => usize::MAX,
            _ => {
                self.step = self.step.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                if self.plan >= 208 {
                    // as large as buffers are, or nearly
                    let r = (self.step >> 33) as usize;
                    return gen::LENGTHS[r % gen::LENGTHS.len()] - 3 + (r >> 8) % 5;
                }
                1 + (self.step >> 33) as usize % (2 + self.plan as usize % 16)
            }
        }
    }
}

impl BufRead for Chunks<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.calls += 1;
        if self.intr > 1 && self.calls % self.intr == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.eof {
            return Ok(self.after);
        }
        if self.pos == self.end {
            let limit = self.fail.map_or(self.data.len(), |f| f.0);
            if self.pos >= limit {
                if let Some((at, kind)) = self.fail {
                    return Err(io_error(kind, at as u64));
                }
                self.eof = true;
                return Ok(&[]);
            }
            let n = self.size();
            self.end = self.pos.saturating_add(n).min(limit);
        }
        Ok(&self.data[self.pos..self.end])
    }
    fn consume(&mut self, n: usize) {
        if !self.eof {
            self.pos += n;
            assert!(self.pos <= self.end, "consumed more than was handed out");
        }
    }
}
impl Read for Chunks<'_> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(out.len());
            out[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

pub struct Cfg {
    pub api: Api,
    pub enc: Option<Enc>,
    pub plan: u8,
    pub intr: u32,
    /// read through std's BufReader of this capacity
    pub buffered: Option<usize>,
    pub after: bool,
    pub pos: usize,
    pub kind: io::ErrorKind,
}

impl std::fmt::Debug for Cfg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "{:?}, encoding {:?}, chunk plan {}, interrupted every {}, BufReader {:?}, data after EOF {}, fault position {} {:?}",
            self.api, self.enc, self.plan, self.intr, self.buffered, self.after, self.pos, self.kind
        )
    }
}

pub fn cfg(c: &[u8]) -> Cfg {
    let g = |i: usize| c.get(i).copied().unwrap_or(0);
    Cfg {
        api: [Api::Parse, Api::Scan, Api::Load][g(0) as usize % 3],
        enc: match g(0) / 3 % 16 {
            13 => Some(Enc::Utf8),
            14 => Some(Enc::Le),
            15 => Some(Enc::Be),
            _ => None,
        },
        plan: if g(1) < 160 { g(1) % 10 } else { g(1) },
        intr: match g(2) % 8 {
            4 => 2,
            5 => 3,
            6 => 4,
            7 => 7,
            _ => 0,
        },
        buffered: match g(2) / 8 % 8 {
            4 if g(2) / 64 == 0 => Some(8192),
            5 => Some(1),
            6 => Some(3),
            7 => Some(1 + g(2) as usize / 64 * 8),
            _ => None,
        },
        after: g(3) % 8 == 7,
        pos: g(4) as usize | (g(5) as usize) << 8,
        kind: KINDS[(g(3) / 8) as usize % KINDS.len()],
    }
}

pub fn run_cfg(c: &Cfg, input: &[u8], fail: Option<usize>) -> (Run, Option<u8>) {
    let mut r = Chunks::new(input, c.plan, c.intr);
    r.fail = fail.map(|f| (f, c.kind));
    if c.after {
        r.after = b"- [extra\n";
    }
    match c.buffered {
        Some(n) => run(c.api, io::BufReader::with_capacity(n, r), c.enc, input.len()),
        None => run(c.api, r, c.enc, input.len()),
    }
}

pub fn split(case: &[u8]) -> (&[u8], &[u8]) {
    case.split_at(case.len().min(NCFG))
}

fn decode(c: &Cfg, input: &[u8]) -> text::Decoded {
    match c.enc {
        Some(e) => text::decode_as(input, e),
        None => text::decode(input),
    }
}

/// The run over the characters themselves.
fn on_chars(c: &Cfg, chars: &[char]) -> Run {
    let s: String = chars.iter().collect();
    run(c.api, s.as_bytes(), Some(Enc::Utf8), s.len()).0
}

pub fn gen_cfg(rng: &mut Rng, text: Vec<u8>) -> Vec<u8> {
    let mut v: Vec<u8> = (0..NCFG).map(|_| (rng.next() >> 17) as u8).collect();
    v.extend(text);
    v
}

pub fn prefix(what: &str, got: &[Item], whole: &[Item]) -> Verdict {
    for (i, x) in got.iter().enumerate() {
        if whole.get(i) != Some(x) {
            return Err(format!("{what}: item {i} is {x:?}, expected {:?}", whole.get(i)));
        }
    }
    Ok(())
}

pub fn same(what: &str, a: &Run, b: &Run) -> Verdict {
    prefix(what, &a.items, &b.items)?;
    if a.err != b.err {
        let d = |r: &Run| r.err.as_ref().map(|e| e.display.clone());
        return Err(format!("{what}: ended with {:?}, expected {:?}", d(a), d(b)));
    }
    if a.items.len() != b.items.len() {
        return Err(format!("{what}: {} items, expected {}", a.items.len(), b.items.len()));
    }
    Ok(())
}

fn class_cfg(c: &Cfg, ctx: &mut Ctx) {
    ctx.class(&format!("{:?}", c.api));
    if c.plan == 0 {
        ctx.class("one byte at a time");
    }
    if c.intr > 0 {
        ctx.class("with interruptions");
    }
    if c.buffered.is_some() {
        ctx.class("through BufReader");
    }
}

pub fn reader_gen(rng: &mut Rng, damaged: usize) -> Vec<u8> {
    let t = {
        let mut s = Src::record(rng);
        if s.chance(damaged, 10) {
            let t = gen::yaml(&mut s);
            let mut b = gen::bytes_enc(&mut s, &t);
            damage(&mut s, &mut b);
            b
        } else if s.chance(1, 150) {
            // long, of characters of several bytes
            let mut t = String::from(*s.pick(&["- ", "", "# ", "'", "k: |\n  "]));
            let end = if t == "'" { "'\n" } else { "\n" };
            for _ in 0..s.range(1, 3) {
                let n = *s.pick(gen::LENGTHS) - s.below(3);
                t.push_str(&s.pick(&["x", "é", "☺", "😀", "aé", "a☺b", "😀☺é", "x\n  "]).repeat(n));
            }
            t.push_str(end);
            gen::bytes_enc(&mut s, &t)
        } else if s.chance(1, 2) {
            let t = gen::yaml(&mut s);
            gen::bytes_enc(&mut s, &t)
        } else {
            gen::bytes(&mut s)
        }
    };
    gen_cfg(rng, t)
}

/// Byte sequences around the edges of what UTF-8, UTF-16 and the YAML
/// character set allow.
const ODD: &[&[u8]] = &[
    b"\x00", b"\x08", b"\x0b", b"\x1f", b"\x7f", b"\xc2\x80", b"\xc2\x84", b"\xc2\x85", b"\xc2\x86",
    b"\xc2\x9f", b"\xc2\xa0", b"\xc0\x80", b"\xc1\xbf", b"\xdf\xbf", b"\xe0\xa0\x80", b"\xe0\x9f\xbf",
    b"\xed\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xee\x80\x80", b"\xef\xbf\xbd",
    b"\xef\xbf\xbe", b"\xef\xbf\xbf", b"\xef\xbb\xbf", b"\xf0\x90\x80\x80", b"\xf0\x8f\xbf\xbf",
    b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf7\xbf\xbf\xbf", b"\xf8\x88\x80\x80\x80",
    b"\xff", b"\xfe", b"\x80", b"\xbf", b"\xc3", b"\xe2\x98", b"\xe2", b"\xf0\x9f\x98", b"\xf0\x9f", b"\xf0",
    b"\xe2\x28\xa1", b"\xc3\x28", b"\xf0\x28\x8c\xbc",
    b"\x00\xd8", b"\xd8\x00", b"\x00\xdc", b"\xdc\x00", b"\xff\xd7", b"\xd7\xff", b"\x3d\xd8\x00\xde",
    b"\xd8\x3d\xde\x00", b"\x00\xd8\x00\xd8", b"\xff\xff", b"\xfe\xff", b"\xff\xfe", b"\xfd\xff", b"\xff\xfd",
    b"\x7f\x00", b"\x00\x7f", b"\x00\x00", b"\x85\x00", b"\x00\x85", b"\x9f\x00", b"\x00\x9f",
];

fn damage(s: &mut Src, b: &mut Vec<u8>) {
    for _ in 0..s.range(1, 2) {
        let n = b.len();
        let i = if n == 0 { 0 } else { s.below(n.min(60000)) };
        match s.below(6) {
            0 => b.truncate(i),
            1 if n > 0 => b[i] = s.byte(),
            2 if n > 0 => {
                b.remove(i);
            }
            3 => b.extend_from_slice(s.pick(ODD)),
            _ => {
                let o = s.pick(ODD).to_vec();
                b.splice(i..i, o);
            }
        }
    }
}

// ------------------------------------------------------------------ P08

pub struct P08;
impl Prop for P08 {
    fn id(&self) -> &'static str {
        "P08"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Text(NCFG)
    }
    fn rule(&self) -> &'static str {
        "case = reader behaviour (chunk sizes, interruptions, BufReader capacity, data after the end of input) plus an input; scanned, parsed or loaded and compared with reading the same bytes from one slice; non-trivial = the input takes more than one chunk and yields at least one node or token; distinct by case"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (2_000_000, 40),
            Tier::Thorough => (50_000_000, 50),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        reader_gen(rng, 1)
    }
    fn check(&self, case: &[u8], ctx: &mut Ctx) -> Verdict {
        let (c, input) = split(case);
        let c = cfg(c);
        class_cfg(&c, ctx);
        let a = run_cfg(&c, input, None);
        let d = decode(&c, input);
        ctx.class(match d.enc {
            Enc::Utf8 => "UTF-8",
            Enc::Le => "UTF-16LE",
            Enc::Be => "UTF-16BE",
        });
        ctx.nontrivial = input.len() > 1 && c.plan != 9 && a.0.items.len() > if c.api == Api::Load { 0 } else { 2 };
        if d.bad.is_none() {
            let b = run(c.api, input, c.enc, input.len());
            same("in chunks", &a.0, &b.0)?;
            if a.1 != b.1 {
                return Err(format!("encoding {:?}, in one piece {:?}", a.1, b.1));
            }
            if c.api != Api::Load && !a.0.items.is_empty() && a.1 != Some(d.enc.code()) {
                return Err(format!("encoding reported as {:?}, it is {:?}", a.1, d.enc));
            }
            Ok(())
        } else {
            ctx.class("malformed input");
            cut_off("in chunks", &c, &a.0, &d.chars, None)?;
            let b = run(c.api, input, c.enc, input.len());
            cut_off("in one piece", &c, &b.0, &d.chars, None)
        }
    }
    fn describe(&self, case: &[u8]) -> String {
        let (c, input) = split(case);
        format!("{:?}: {}", cfg(c), show(input))
    }
}

/// Only `chars` could be read, after which reading failed. What was delivered
/// has to be what those characters say, and the run has to end with the
/// failure, or with an error that is already in the characters.
fn cut_off(what: &str, c: &Cfg, a: &Run, chars: &[char], whole: Option<&Run>) -> Verdict {
    let e = match &a.err {
        Some(e) => e,
        None => return Err(format!("{what}: the stream ended regularly although reading failed")),
    };
    let p = on_chars(c, chars);
    prefix(what, &a.items, &p.items)?;
    if e.kind != Kind::Reader && e.kind != Kind::Io {
        same(what, a, &p)?;
        if let Some(w) = whole {
            same(what, a, w)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P09

pub struct P09;
impl Prop for P09 {
    fn id(&self) -> &'static str {
        "P09"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Text(NCFG)
    }
    fn rule(&self) -> &'static str {
        "case = reader behaviour plus a text of allowed characters; read as UTF-8 with and without BOM, UTF-16LE and UTF-16BE with BOM, and in all three encodings without BOM where the encoding is set by the caller (7 readings, one evaluation each); non-trivial = at least one token or event besides the stream's; distinct by text and interface"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (700_000, 40),
            Tier::Thorough => (30_000_000, 50),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        let t = {
            let mut s = Src::record(rng);
            let mut t = gen::yaml(&mut s);
            if s.chance(1, 2) {
                // sprinkle characters of every width
                for _ in 0..s.range(1, 4) {
                    let cs = ['é', '中', '😀', '\u{2028}', '\u{85}', '\u{feff}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{fffd}'];
                    let n = t.chars().count();
                    let at = s.below(n.min(60000) + 1);
                    let c = *s.pick(&cs);
                    t = t.chars().take(at).chain([c]).chain(t.chars().skip(at)).collect();
                }
            }
            t.into_bytes()
        };
        gen_cfg(rng, t)
    }
    fn check(&self, case: &[u8], ctx: &mut Ctx) -> Verdict {
        let (c, input) = split(case);
        let c = cfg(c);
        let t: String = String::from_utf8_lossy(input)
            .chars()
            .filter(|c| text::allowed(*c as u32))
            .collect();
        let t = t.trim_start_matches('\u{feff}');
        ctx.key = Some(fnv(t.as_bytes()) ^ c.api as u64);
        let base = on_chars(&c, &t.chars().collect::<Vec<_>>());
        ctx.nontrivial = base.items.len() > if c.api == Api::Load { 0 } else { 2 };
        if t.chars().any(|c| c as u32 > 0xffff) {
            ctx.class("surrogate pairs");
        }
        if !t.is_ascii() {
            ctx.class("non-ASCII");
        }
        class_cfg(&c, ctx);
        let le = gen::to_utf16(t, false);
        let be = gen::to_utf16(t, true);
        let with = |bom: &[u8], b: &[u8]| -> Vec<u8> { bom.iter().chain(b).copied().collect() };
        let readings: [(&str, Vec<u8>, Option<Enc>, u8); 7] = [
            ("UTF-8", t.as_bytes().to_vec(), None, 1),
            ("UTF-8 with BOM", with(b"\xef\xbb\xbf", t.as_bytes()), None, 1),
            ("UTF-16LE with BOM", with(b"\xff\xfe", &le), None, 2),
            ("UTF-16BE with BOM", with(b"\xfe\xff", &be), None, 3),
            ("UTF-8 by setting", t.as_bytes().to_vec(), Some(Enc::Utf8), 1),
            ("UTF-16LE by setting", le.clone(), Some(Enc::Le), 2),
            ("UTF-16BE by setting", be.clone(), Some(Enc::Be), 3),
        ];
        for (what, b, enc, code) in &readings {
            ctx.evals += 1;
            let mut r = Chunks::new(b, c.plan, c.intr);
            if c.after {
                r.after = b"- [extra\n";
            }
            let (got, reported) = run(c.api, r, *enc, b.len());
            same(what, &got, &base)?;
            if c.api != Api::Load && !got.items.is_empty() && reported != Some(*code) {
                return Err(format!("{what}: encoding reported as {reported:?}"));
            }
        }
        Ok(())
    }
    fn describe(&self, case: &[u8]) -> String {
        let (c, input) = split(case);
        format!("{:?}: {}", cfg(c), show(input))
    }
}

// ------------------------------------------------------------------ P10

pub struct P10;
impl Prop for P10 {
    fn id(&self) -> &'static str {
        "P10"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Text(NCFG)
    }
    fn rule(&self) -> &'static str {
        "case = reader behaviour plus an input, mostly damaged (bytes around the limits of UTF-8, UTF-16 and the YAML character set inserted, removed, cut off); judged by an independent decoder; non-trivial = the decoder finds the input malformed; distinct by case"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (2_500_000, 30),
            Tier::Thorough => (70_000_000, 40),
        }
    }
    fn gen(&self, rng: &mut Rng, i: u64, _t: Tier) -> Vec<u8> {
        if i < 4 * 65536 {
            // every pair of leading bytes, and every UTF-16 code unit
            let (a, b) = ((i >> 8) as u8, i as u8);
            let t = match i / 65536 {
                0 => vec![a, b, b'a'],
                1 => vec![0xff, 0xfe, a, b],
                2 => vec![0xfe, 0xff, a, b],
                _ => vec![b'a', a, b, 0x80, 0x80, b'\n'],
            };
            return gen_cfg(rng, t);
        }
        reader_gen(rng, 8)
    }
    fn enumerated(&self, _t: Tier) -> u64 {
        4 * 65536
    }
    fn check(&self, case: &[u8], ctx: &mut Ctx) -> Verdict {
        let (c, input) = split(case);
        let c = cfg(c);
        let d = decode(&c, input);
        let (a, _) = run_cfg(&c, input, None);
        let bad = match d.bad {
            None => {
                ctx.class("well-formed");
                return match &a.err {
                    Some(e) if matches!(e.kind, Kind::Reader | Kind::Io) => {
                        Err(format!("well-formed input rejected: {}", e.display))
                    }
                    _ => Ok(()),
                };
            }
            Some(b) => b,
        };
        ctx.nontrivial = true;
        ctx.class(match (bad.what, d.enc) {
            (BadWhat::Malformed, Enc::Utf8) => "malformed UTF-8",
            (BadWhat::Malformed, _) => "malformed UTF-16",
            (BadWhat::Truncated, Enc::Utf8) => "truncated UTF-8",
            (BadWhat::Truncated, _) => "truncated UTF-16",
            (BadWhat::Control(_), _) => "control character",
            (BadWhat::Bom, _) => "byte order mark",
        });
        cut_off("malformed input", &c, &a, &d.chars, None)?;
        let e = a.err.as_ref().expect("error");
        if e.kind != Kind::Reader {
            if e.kind == Kind::Io {
                return Err(format!("malformed input reported as {}", e.display));
            }
            ctx.class("other error before the damage");
            return Ok(());
        }
        // position and nature of the damage
        let (problems, value): (&[&str], Option<i64>) = match (bad.what, d.enc) {
            (BadWhat::Control(c), _) => (&["control characters are not allowed"], Some(c as i64)),
            (BadWhat::Bom, _) => (&["invalid byte order marker"], None),
            // Fewer bytes than the first one promises: both are right.
            (_, Enc::Utf8) if bad.what != BadWhat::Truncated && short_tail(&input[bad.offset..]) => {
                (&["invalid UTF-8", "incomplete UTF-8 octet sequence"], None)
            }
            (BadWhat::Malformed, Enc::Utf8) => (&["invalid UTF-8"], None),
            // Cut off, but no continuation could have made it right.
            (BadWhat::Truncated, Enc::Utf8) if hopeless(&input[bad.offset..]) => {
                (&["invalid UTF-8", "incomplete UTF-8 octet sequence"], None)
            }
            (BadWhat::Truncated, Enc::Utf8) => (&["incomplete UTF-8 octet sequence"], None),
            (BadWhat::Malformed, _) if input.len() - bad.offset < 4 => {
                (&["invalid UTF-16", "incomplete UTF-16 surrogate pair"], None)
            }
            (BadWhat::Malformed, _) => (&["invalid UTF-16"], None),
            (BadWhat::Truncated, _) => (&["incomplete UTF-16 character", "incomplete UTF-16 surrogate pair"], None),
        };
        if !problems.contains(&&e.problem[..]) {
            return Err(format!("reported as {:?}, expected {problems:?} ({bad:?})", e.display));
        }
        let tail = e.display.rsplit_once("(offset ").map(|x| x.1).unwrap_or("");
        let mut it = tail.trim_end_matches(')').split(", value ");
        let off: Option<usize> = it.next().and_then(|x| x.parse().ok());
        let val: Option<i64> = it.next().and_then(|x| x.parse().ok());
        if off != Some(bad.offset) {
            return Err(format!("{:?}: the damage is at offset {}", e.display, bad.offset));
        }
        if value.is_some() && val != value {
            return Err(format!("{:?}: the character is {value:?}", e.display));
        }
        Ok(())
    }
    fn describe(&self, case: &[u8]) -> String {
        let (c, input) = split(case);
        format!("{:?}: {}", cfg(c), show(input))
    }
}

fn hopeless(b: &[u8]) -> bool {
    std::str::from_utf8(b).err().map_or(false, |e| e.error_len().is_some())
}

fn short_tail(b: &[u8]) -> bool {
    let w = match b[0] {
        0xc0..=0xdf => 2,
        0xe0..=0xef => 3,
        0xf0..=0xf7 => 4,
        _ => 1,
    };
    b.len() < w
}

// ------------------------------------------------------------------ P11

pub struct P11;
impl Prop for P11 {
    fn id(&self) -> &'static str {
        "P11"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Text(NCFG)
    }
    fn rule(&self) -> &'static str {
        "case = reader behaviour plus an input and a read error after n bytes (n drawn at random, or every n for inputs of up to 24 bytes, one evaluation each); non-trivial = the read error reached the caller; distinct by case"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (2_000_000, 40),
            Tier::Thorough => (50_000_000, 50),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        reader_gen(rng, 1)
    }
    fn check(&self, case: &[u8], ctx: &mut Ctx) -> Verdict {
        let (c, input) = split(case);
        let c = cfg(c);
        class_cfg(&c, ctx);
        let whole = run(c.api, input, c.enc, input.len()).0;
        let all = decode(&c, input);
        let n = input.len();
        let range = if n <= 24 { 0..n + 1 } else { c.pos % (n + 1)..c.pos % (n + 1) + 1 };
        for at in range {
            ctx.evals += 1;
            let (a, _) = run_cfg(&c, input, Some(at));
            let d = decode(&c, &input[..at]);
            // A cut character is the reader's problem only if the input ends
            // there, which it does not.
            let w = if all.bad.is_none() { Some(&whole) } else { None };
            cut_off(&format!("read error after {at} bytes"), &c, &a, &d.chars, w)?;
            let e = a.err.as_ref().expect("error");
            match e.kind {
                Kind::Io => {
                    ctx.nontrivial = true;
                    ctx.class("I/O error reported");
                    is_injected(a.raw.expect("error"), c.kind, at as u64)
                        .map_err(|m| format!("read error after {at} bytes: {m}"))?;
                }
                Kind::Reader => match d.bad {
                    Some(b) if b.what != BadWhat::Truncated && b.what != BadWhat::Bom => ctx.class("malformed before the fault"),
                    Some(b) if b.what == BadWhat::Truncated && d.enc == Enc::Utf8 && hopeless(&input[b.offset..at]) => {
                        ctx.class("malformed before the fault")
                    }
                    Some(b) if b.what == BadWhat::Bom && at >= 2 => ctx.class("malformed before the fault"),
                    _ => return Err(format!("read error after {at} bytes reported as {}", e.display)),
                },
                _ => {
                    ctx.class("other error before the fault");
                    if io::Error::try_from(a.raw.expect("error")).is_ok() {
                        return Err(format!("{} converts to io::Error", e.display));
                    }
                }
            }
        }
        Ok(())
    }
    fn describe(&self, case: &[u8]) -> String {
        let (c, input) = split(case);
        format!("{:?}: {}", cfg(c), show(input))
    }
}

/// Items and error as a comparable run.
pub fn strip(items: Vec<Item>, err: Option<ErrN>) -> Run {
    let (mut r, _) = finish(items, None);
    r.err = err;
    r
}
