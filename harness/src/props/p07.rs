//! P07 nothing panics, hangs or runs away; P16 errors are final and reset
//! means new; P17 iterators.
use super::p08::{self, Api, Chunks, Cfg, Item, NCFG};
use super::p12::{io_error, KINDS};
use super::*;
use crate::evgen;
use crate::model::*;
use crate::sut;
use libyaml_safer as y;
use std::io::{self, Write};

fn reader<'a>(c: &Cfg, input: &'a [u8], fail: bool) -> Chunks<'a> {
    let mut r = Chunks::new(input, c.plan, c.intr);
    if fail {
        r.fail = Some((c.pos % (input.len() + 1), c.kind));
    }
    r
}

// ------------------------------------------------------------------ P07

const NESTS: &[(&str, &str)] = &[
    ("[", "]"),
    ("{", "}"),
    ("[{a: ", "}]"),
    ("- ", ""),
    ("? ", ""),
    ("[? ", "]"),
    ("{? ", "}"),
    ("-\n", ""),
    ("a:\n", ""),
    ("[a, ", "]"),
    ("&a [", "]"),
    ("!t {a: ", "}"),
];

fn hostile(s: &mut Src) -> Vec<u8> {
    match s.below(12) {
        0 => {
            let n = s.below(64);
            (0..n).map(|_| s.byte()).collect()
        }
        1 => {
            // nesting of every kind, closed or not
            let n = match s.below(3000) {
                0 => 2000 + s.below(1000),
                1..=4 => 500 + s.below(100),
                5..=60 => 100 + s.below(20),
                _ => 5 + s.below(30),
            };
            let (a, b) = *s.pick(NESTS);
            let mut o = a.repeat(n);
            if s.chance(2, 3) {
                o.push('x');
            }
            if s.chance(2, 3) {
                o.push_str(&b.repeat(n.saturating_sub(s.below(3))));
            }
            o.into_bytes()
        }
        2 => {
            // cut a valid text anywhere
            let mut t = gen::yaml(s);
            let n = t.chars().count();
            let k = s.below(n.min(60000) + 1);
            t = t.chars().take(k).collect();
            if s.chance(1, 3) {
                let g = gen::yaml(s);
                t.push_str(&g);
            }
            t.into_bytes()
        }
        3 => {
            let t = gen::soup(s, 30);
            gen::bytes_enc(s, &t)
        }
        4 => {
            // one construct, repeated
            let p = gen::soup(s, 4);
            let n = *s.pick(&[3usize, 3, 3, 10, 20, 50]);
            p.repeat(n).into_bytes()
        }
        5 => gen::graph(s).into_bytes(),
        _ => gen::bytes(s),
    }
}

fn settings(c: &[u8]) -> EmCfg {
    let mut t = c.to_vec();
    t.reverse();
    let mut e = evgen::cfg(&mut Src::replay(&t));
    e.enc = c[0] % 4;
    e
}

pub struct P07;
impl Prop for P07 {
    fn id(&self) -> &'static str {
        "P07"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Text(NCFG)
    }
    fn rule(&self) -> &'static str {
        "case = reader behaviour, emitter settings and an arbitrary byte input (random, damaged, cut off, deeply nested, repeated, generated); scanned, parsed, loaded, each continued past its end, events and documents written back, with a read fault in a quarter of the cases; non-trivial = input of at least 2 bytes; distinct by case"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (900_000, 50),
            Tier::Thorough => (40_000_000, 60),
        }
    }
    fn gen(&self, rng: &mut Rng, i: u64, tier: Tier) -> Vec<u8> {
        if i < self.enumerated(tier) {
            return p08::gen_cfg(rng, gen::enum_text(i).into_bytes());
        }
        let t = hostile(&mut Src::record(rng));
        p08::gen_cfg(rng, t)
    }
    fn enumerated(&self, t: Tier) -> u64 {
        gen::enum_count(if t == Tier::Quick { 3 } else { 4 })
    }
    fn fixed(&self) -> Vec<Vec<u8>> {
        super::p01::regressions()
            .into_iter()
            .flat_map(|t| {
                [[0u8; NCFG], [1, 9, 0, 0, 0, 0]].map(|c| {
                    let mut v = c.to_vec();
                    v.extend(&t);
                    v
                })
            })
            .chain(NESTS.iter().map(|(a, b)| {
                let mut v = vec![0u8; NCFG];
                let n = if a.len() == 1 { 3000 } else { 1000 };
                v.extend(format!("{}x{}", a.repeat(n), b.repeat(n)).bytes());
                v
            }))
            .collect()
    }
    fn check(&self, case: &[u8], ctx: &mut Ctx) -> Verdict {
        // Nothing may use the call stack in proportion to the nesting.
        if p08::split(case).1.len() < 900 {
            return hostile_case(case, ctx);
        }
        std::thread::scope(|scope| {
            let r = std::thread::Builder::new()
                .stack_size(256 << 10)
                .spawn_scoped(scope, || hostile_case(case, ctx))
                .expect("thread")
                .join();
            r.unwrap_or_else(|e| std::panic::resume_unwind(e))
        })
    }
    fn describe(&self, case: &[u8]) -> String {
        let (c, input) = p08::split(case);
        format!("{:?}: {}", p08::cfg(c), show(input))
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "memory is limited to 3 GB and a single case to the CPU limit given in run.py".into(),
            "inputs of 900 bytes and more run with a stack of 256 KB".into(),
        ]
    }
}

fn hostile_case(case: &[u8], ctx: &mut Ctx) -> Verdict {
    let (cb, input) = p08::split(case);
    let c = p08::cfg(cb);
    let mut cb = cb.to_vec();
    cb.resize(NCFG, 0);
    ctx.nontrivial = input.len() > 1;
    ctx.heavy = input.len() > 3000;
    if ctx.heavy {
        ctx.class("input over 3000 bytes");
    }
    let fail = cb[3] % 4 == 3;
    if fail {
        ctx.class("with a read fault");
    }
    let cap = sut::cap(input.len());
    // tokens, and past the end
    let mut s = y::Scanner::new();
    s.set_input(reader(&c, input, fail));
    if let Some(e) = c.enc {
        s.set_encoding(sut::enc_to(e.code()));
    }
    let (r, _) = p08::on_scanner(&mut s, cap);
    ctx.class(if r.err.is_some() { "scan error" } else { "scanned" });
    for _ in 0..3 {
        let s = &mut s;
        let _ = s.scan();
        let _ = s.next();
    }
    // events, written back as they come
    let mut p = y::Parser::new();
    p.set_input(reader(&c, input, fail));
    if let Some(e) = c.enc {
        p.set_encoding(sut::enc_to(e.code()));
    }
    let set = settings(&cb);
    let mut out = vec![];
    {
        let mut em = y::Emitter::new();
        em.set_output(&mut out);
        sut::configure(&mut em, &set);
        let mut refused = false;
        let mut n = 0;
        loop {
            n += 1;
            if n > cap {
                return Err("the event stream does not end".into());
            }
            match p.parse() {
                Ok(e) => {
                    let end = e.data == y::EventData::StreamEnd;
                    refused |= em.emit(e).is_err();
                    if n % 7 == 6 {
                        refused |= em.flush().is_err();
                    }
                    if end {
                        break;
                    }
                }
                Err(_) => {
                    ctx.class("parse error");
                    break;
                }
            }
        }
        if refused {
            ctx.class("an event was refused");
        }
        for _ in 0..3 {
            let _ = p.parse();
            let _ = p.next();
            let _ = y::Document::load(&mut p);
        }
        let _ = em.emit(y::Event::stream_end());
    }
    // Escapes, indentation and line breaks multiply the input, by a
    // bounded factor and the nesting depth.
    let depth = 2 + input.iter().filter(|b| b"[{-?:".contains(b)).count().min(3000);
    if out.len() > (input.len() + 16) * 64 * depth {
        return Err(format!("{} bytes of output for {} bytes of input", out.len(), input.len()));
    }
    // documents, dumped again
    let mut p = y::Parser::new();
    p.set_input(reader(&c, input, fail));
    if let Some(e) = c.enc {
        p.set_encoding(sut::enc_to(e.code()));
    }
    let mut out = vec![];
    let mut em = y::Emitter::new();
    em.set_output(&mut out);
    sut::configure(&mut em, &set);
    let mut n = 0;
    let mut opened = false;
    loop {
        n += 1;
        if n > cap {
            return Err("the document stream does not end".into());
        }
        match y::Document::load(&mut p) {
            Ok(d) if d.nodes.is_empty() => break,
            Ok(d) => {
                opened = true;
                if d.dump(&mut em).is_err() {
                    ctx.class("dump refused");
                }
            }
            Err(_) => {
                ctx.class("load error");
                break;
            }
        }
    }
    for _ in 0..3 {
        let _ = y::Document::load(&mut p);
        let _ = p.parse();
    }
    if opened {
        let _ = em.close();
    }
    Ok(())
}

// ------------------------------------------------------------------ P16

struct Again {
    api: Api,
    emitter: bool,
    a: Vec<u8>,
    b: Vec<u8>,
    plan: u8,
    intr: u32,
    stop: usize,
    fail: Option<(usize, io::ErrorKind)>,
    enc_a: u8,
    ca: EmCfg,
    cb: EmCfg,
    ea: Vec<Ev>,
    eb: Vec<Ev>,
    fail_out: Option<usize>,
}

fn again(s: &mut Src) -> Again {
    let emitter = s.chance(1, 3);
    let api = *s.pick(&[Api::Scan, Api::Parse, Api::Load]);
    let plan = *s.pick(&[9u8, 0, 1, 5, 7]);
    let intr = *s.pick(&[0u32, 0, 0, 3]);
    let stop = if s.chance(1, 2) { usize::MAX } else { s.below(30) };
    let mut o = Again {
        api,
        emitter,
        a: vec![],
        b: vec![],
        plan,
        intr,
        stop,
        fail: None,
        enc_a: if s.chance(1, 8) { s.below(4) as u8 } else { 0 },
        ca: EmCfg::default(),
        cb: EmCfg::default(),
        ea: vec![],
        eb: vec![],
        fail_out: None,
    };
    if emitter {
        o.ca = evgen::cfg(s);
        o.ca.enc = s.below(4) as u8;
        o.cb = if s.chance(1, 2) { EmCfg::default() } else { evgen::cfg(s) };
        o.cb.enc = s.below(4) as u8;
        if s.chance(1, 6) {
            o.fail_out = Some(s.below(100));
        }
        let wild = s.chance(1, 3);
        o.ea = evgen::events(s, wild);
        if wild && s.chance(1, 2) {
            evgen::disorder(s, &mut o.ea);
        }
        o.eb = evgen::events(s, false);
        if o.fail_out.is_some() && s.chance(1, 2) {
            // Fill the output buffer up to shortly before the events that
            // follow, so that the write fails in the middle of any of them.
            let n = s.below(220);
            let nth = s.below(3);
            let scalars = o.ea.iter_mut().filter_map(|e| match e {
                Ev::Scalar { value, .. } => Some(value),
                _ => None,
            });
            if let Some(value) = scalars.take(nth + 1).last() {
                *value = "a".repeat(16384 - 6 - n).into();
            }
        }
    } else {
        let text = |s: &mut Src| -> Vec<u8> {
            match s.below(4) {
                0 => gen::graph(s).into_bytes(),
                1 => {
                    let mut t = gen::loose(s);
                    gen::corrupt(s, &mut t);
                    t.into_bytes()
                }
                2 => gen::bytes(s),
                _ => {
                    let t = gen::loose(s);
                    gen::bytes_enc(s, &t)
                }
            }
        };
        o.a = text(s);
        o.b = text(s);
        if s.chance(1, 6) {
            let n = s.below(o.a.len().min(60000) + 1);
            o.fail = Some((n, *s.pick(KINDS)));
        }
    }
    o
}

struct Limited(Vec<u8>, usize);
impl Write for Limited {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0.len() + b.len() > self.1 {
            return Err(io_error(io::ErrorKind::Other, 1));
        }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Again {
    fn reader<'a>(&self, d: &'a [u8], fail: bool) -> Chunks<'a> {
        let mut r = Chunks::new(d, self.plan, self.intr);
        if fail {
            r.fail = self.fail;
        }
        r
    }

    fn input(&self, ctx: &mut Ctx) -> Verdict {
        let fresh = p08::run(self.api, self.reader(&self.b, false), None, self.b.len());
        ctx.key = Some(fnv(&self.a) ^ fnv(&self.b).rotate_left(7) ^ self.stop as u64);
        let capa = sut::cap(self.a.len());
        let capb = sut::cap(self.b.len());
        if self.api == Api::Scan {
            let mut s = y::Scanner::new();
            s.set_input(self.reader(&self.a, true));
            if self.enc_a > 0 {
                s.set_encoding(sut::enc_to(self.enc_a));
            }
            let s = &mut s;
            let mut n = 0;
            let mut over: Option<&str> = None;
            while n < self.stop {
                n += 1;
                if n > capa {
                    return Err("the token stream does not end".into());
                }
                match s.scan() {
                    Err(_) => over = Some("error"),
                    Ok(t) if t.data == y::TokenData::StreamEnd => over = Some("end of stream"),
                    Ok(_) => continue,
                }
                break;
            }
            if let Some(w) = over {
                ctx.class(w);
                for _ in 0..4 {
                    match s.scan() {
                        Ok(t) if t.data == y::TokenData::StreamEnd => {}
                        x => return Err(format!("after the {w}, scan() returned {x:?}")),
                    }
                    if let Some(x) = s.next() {
                        return Err(format!("after the {w}, next() returned {x:?}"));
                    }
                }
            } else {
                ctx.class("abandoned half-way");
            }
            s.reset();
            s.set_input(self.reader(&self.b, false));
            let again = p08::on_scanner(s, capb);
            p08::same("scanner after reset", &again.0, &fresh.0)?;
            if again.1 != fresh.1 {
                return Err(format!("after reset, encoding {:?} instead of {:?}", again.1, fresh.1));
            }
            return Ok(());
        }
        let mut p = y::Parser::new();
        p.set_input(self.reader(&self.a, true));
        if self.enc_a > 0 {
            p.set_encoding(sut::enc_to(self.enc_a));
        }
        let mut n = 0;
        let mut over: Option<&str> = None;
        while n < self.stop {
            n += 1;
            if n > capa {
                return Err("the stream does not end".into());
            }
            if self.api == Api::Load {
                match y::Document::load(&mut p) {
                    Err(_) => over = Some("error"),
                    Ok(d) if d.nodes.is_empty() => over = Some("end of stream"),
                    Ok(_) => continue,
                }
            } else {
                match p.parse() {
                    Err(_) => over = Some("error"),
                    Ok(e) if e.data == y::EventData::StreamEnd => over = Some("end of stream"),
                    Ok(_) => continue,
                }
            }
            break;
        }
        if let Some(w) = over {
            ctx.class(w);
            for k in 0..4 {
                if k % 2 == 0 || self.api == Api::Parse {
                    match p.parse() {
                        Ok(e) if e.data == y::EventData::StreamEnd => {}
                        x => return Err(format!("after the {w}, parse() returned {x:?}")),
                    }
                }
                match y::Document::load(&mut p) {
                    Ok(d) if d.nodes.is_empty() => {}
                    x => return Err(format!("after the {w}, load() returned {x:?}")),
                }
                if let Some(x) = p.next() {
                    return Err(format!("after the {w}, next() returned {x:?}"));
                }
            }
        } else {
            ctx.class("abandoned half-way");
        }
        p.reset();
        p.set_input(self.reader(&self.b, false));
        let again = p08::on_parser(self.api, &mut p, capb);
        p08::same("parser after reset", &again.0, &fresh.0)?;
        if again.1 != fresh.1 {
            return Err(format!("after reset, encoding {:?} instead of {:?}", again.1, fresh.1));
        }
        Ok(())
    }

    fn output(&self, ctx: &mut Ctx) -> Verdict {
        let fresh = sut::emit(&self.cb, &self.eb, true);
        if fresh.err.is_some() {
            ctx.class("refused by the emitter");
            return Ok(());
        }
        ctx.key = Some(fnv(&fresh.bytes) ^ fnv(format!("{:?}", self.ea).as_bytes()) ^ self.stop as u64);
        let mut wa = Limited(vec![], self.fail_out.unwrap_or(usize::MAX));
        let mut wb = vec![];
        {
            let mut em = y::Emitter::default();
            em.set_output(&mut wa);
            sut::configure(&mut em, &self.ca);
            let mut failed: Option<(y::ErrorKind, String)> = None;
            for (i, e) in self.ea.iter().enumerate() {
                if i >= self.stop {
                    break;
                }
                let r = em.emit(sut::build(e));
                match (&failed, r) {
                    (None, Err(e)) => {
                        ctx.class("an event was refused");
                        failed = Some((e.kind(), e.to_string()));
                    }
                    (Some((y::ErrorKind::Emitter, m)), r) => {
                        // What precedes the refusal may be written again each
                        // time, until it is passed on to a writer that fails.
                        if self.fail_out.is_some() && matches!(&r, Err(e) if e.kind() == y::ErrorKind::Io) {
                            failed = r.err().map(|e| (e.kind(), e.to_string()));
                            continue;
                        }
                        let x = r.err().map(|e| e.to_string());
                        if x.as_ref() != Some(m) {
                            return Err(format!("refused with {m:?}, then the next event gave {x:?}"));
                        }
                    }
                    _ => {}
                }
            }
            em.reset();
            em.set_output(&mut wb);
            sut::configure(&mut em, &self.cb);
            for (i, e) in self.eb.iter().enumerate() {
                em.emit(sut::build(e)).map_err(|x| format!("after reset, event {i} is refused: {x}"))?;
            }
            em.flush().map_err(|x| format!("after reset, flush fails: {x}"))?;
        }
        if wb != fresh.bytes {
            return Err(format!("after reset, wrote {} instead of {}", show(&wb), show(&fresh.bytes)));
        }
        Ok(())
    }
}

pub struct P16;
impl Prop for P16 {
    fn id(&self) -> &'static str {
        "P16"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = a history: one object (scanner, parser, loader or emitter) used on a first stream to its end, its error (syntax, encoding, read or write fault) or abandoned after n calls, called again, then reset and used on a second stream, compared with a new object; non-trivial = at least one call on the first stream; distinct by both streams and the length of the history"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (1_500_000, 30),
            Tier::Thorough => (60_000_000, 40),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        let mut s = Src::record(rng);
        again(&mut s);
        s.into_tape()
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let a = again(&mut Src::replay(tape));
        ctx.nontrivial = a.stop > 0;
        if a.emitter {
            ctx.class("emitter");
            a.output(ctx)
        } else {
            ctx.class(&format!("{:?}", a.api));
            a.input(ctx)
        }
    }
    fn describe(&self, tape: &[u8]) -> String {
        let a = again(&mut Src::replay(tape));
        short(&if a.emitter {
            format!("emitter {:?}, {} calls of {:?}, writer fault {:?}; then {:?} {:?}", a.ca, a.stop, a.ea, a.fail_out, a.cb, a.eb)
        } else {
            format!(
                "{:?} chunk plan {} {} calls on {} (encoding {}, fault {:?}); then {}",
                a.api,
                a.plan,
                a.stop,
                show(&a.a),
                a.enc_a,
                a.fail,
                show(&a.b)
            )
        })
    }
}

// ------------------------------------------------------------------ P17

pub struct P17;
impl Prop for P17 {
    fn id(&self) -> &'static str {
        "P17"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Text(NCFG)
    }
    fn rule(&self) -> &'static str {
        "case = reader behaviour plus an input; the scanner's and the parser's iterator compared with the call loop, including a switch from calls to iteration after n items, string input, and further next() calls; non-trivial = at least one item besides the stream's; distinct by case"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (1_500_000, 40),
            Tier::Thorough => (60_000_000, 50),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        p08::reader_gen(rng, 1)
    }
    fn check(&self, case: &[u8], ctx: &mut Ctx) -> Verdict {
        let (cb, input) = p08::split(case);
        let c = p08::cfg(cb);
        let fail = cb.get(3).map_or(false, |b| b % 4 == 3);
        let cap = sut::cap(input.len());
        let switch = c.pos % 23;
        let str_ok = input.len();
        // scanner
        let call = {
            let mut s = y::Scanner::new();
            s.set_input(reader(&c, input, fail));
            p08::on_scanner(&mut s, cap).0
        };
        let mut s = y::Scanner::default();
        s.set_input(reader(&c, input, fail));
        let mut items = vec![];
        let mut err = None;
        {
            let s = &mut s;
            let mut n = 0;
            while let Some(x) = if n < switch { Some(s.scan()) } else { s.next() } {
                n += 1;
                if err.is_some() {
                    return Err("the scanner's iterator went on after an error".into());
                }
                match x {
                    Ok(t) => {
                        let t = sut::tok(&t);
                        let end = t.t == Tok::StreamEnd;
                        items.push(Item::T(t));
                        if end && n < switch {
                            break;
                        }
                    }
                    Err(e) => {
                        err = Some(sut::err(&e));
                        if n < switch {
                            break;
                        }
                    }
                }
                p08::assert_cap(&items, cap);
            }
            for _ in 0..3 {
                if let Some(x) = s.next() {
                    return Err(format!("the scanner's iterator went on after its end: {x:?}"));
                }
            }
        }
        let run = p08::strip(items, err);
        p08::same("the scanner's iterator", &run, &call)?;
        // parser
        let call = {
            let mut p = y::Parser::new();
            p.set_input(reader(&c, input, fail));
            p08::on_parser(Api::Parse, &mut p, cap).0
        };
        ctx.nontrivial = call.items.len() > 2;
        if call.err.is_some() {
            ctx.class("ends in an error");
        } else {
            ctx.class("ends regularly");
        }
        let mut p = y::Parser::default();
        p.set_input(reader(&c, input, fail));
        let mut items = vec![];
        let mut err = None;
        let mut n = 0;
        while n < switch {
            n += 1;
            match p.parse() {
                Ok(e) => {
                    let end = e.data == y::EventData::StreamEnd;
                    items.push(Item::E(sut::evm(&e)));
                    if end {
                        break;
                    }
                }
                Err(e) => {
                    err = Some(sut::err(&e));
                    break;
                }
            }
        }
        if switch > 0 {
            ctx.class("switched from calls to iteration");
        }
        for x in p.by_ref() {
            if err.is_some() {
                return Err("the parser's iterator went on after an error".into());
            }
            match x {
                Ok(e) => items.push(Item::E(sut::evm(&e))),
                Err(e) => err = Some(sut::err(&e)),
            }
            p08::assert_cap(&items, cap);
        }
        for _ in 0..3 {
            if let Some(x) = p.next() {
                return Err(format!("the parser's iterator went on after its end: {x:?}"));
            }
        }
        let run = p08::strip(items, err);
        p08::same("the parser's iterator", &run, &call)?;
        // the other ways of an iterator
        if c.plan % 4 == 0 {
            ctx.class("nth, size_hint, count");
            let all = call.items.len() + call.err.is_some() as usize;
            let mut p = y::Parser::default();
            p.set_input(reader(&c, input, fail));
            let (lo, hi) = p.size_hint();
            if lo > all || hi.map_or(false, |h| h < all) {
                return Err(format!("size_hint() gives {lo}, {hi:?} before {all} items"));
            }
            let got = match p.nth(switch) {
                Some(Ok(e)) => match p08::strip(vec![Item::E(sut::evm(&e))], None).items.pop() {
                    Some(Item::E(e)) => Some(Ok(e)),
                    _ => None,
                },
                Some(Err(e)) => Some(Err(sut::err(&e).display)),
                None => None,
            };
            let want = match call.items.get(switch) {
                Some(Item::E(e)) => Some(Ok(e.clone())),
                None if switch < all => call.err.as_ref().map(|e| Err(e.display.clone())),
                _ => None,
            };
            if got != want {
                return Err(format!("nth({switch}) gives {got:?}, not {want:?}"));
            }
            let rest = p.count();
            if rest != all.saturating_sub(switch + 1) {
                return Err(format!("after nth({switch}) of {all} items there are {rest} more"));
            }
        }
        // string input
        if !fail && c.plan % 2 == 1 && str_ok > 0 {
            ctx.class("string input");
            let whole = p08::run(Api::Parse, input, None, input.len()).0;
            let mut sl = input;
            let mut p = y::Parser::new();
            p.set_input_string(&mut sl);
            p08::same("string input", &p08::on_parser(Api::Parse, &mut p, cap).0, &whole)?;
            let whole = p08::run(Api::Scan, input, None, input.len()).0;
            let mut sl = input;
            let mut s = y::Scanner::new();
            s.set_input_string(&mut sl);
            p08::same("string input", &p08::on_scanner(&mut s, cap).0, &whole)?;
        }
        Ok(())
    }
    fn describe(&self, case: &[u8]) -> String {
        let (c, input) = p08::split(case);
        format!("{:?}: {}", p08::cfg(c), show(input))
    }
}
