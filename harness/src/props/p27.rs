//! P27: the cost of a text of n repetitions is about n times that of one, and
//! what is streamed is not kept.
use super::*;
use crate::evgen;
use crate::model::*;
use crate::sut;
use libyaml_safer as y;
use std::io::{BufRead, Write};

/// CPU time of this thread in seconds.
fn cpu() -> f64 {
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(clock: i32, ts: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.0 as f64 + t.1 as f64 * 1e-9
}

/// A text that is `head`, then `unit` again and again, then `tail`.
#[derive(Clone, Debug)]
struct Shape {
    head: String,
    unit: String,
    tail: String,
    /// every repetition stands for itself: nothing has to be kept
    apart: bool,
}

/// A node that fits on a line.
fn small(s: &mut Src, flow: bool) -> String {
    let v = *s.pick(&[
        "a", "word", "'it''s'", "\"x\\ty\\u00e9\"", "1", "~", "\"\"", "''", "é", "a b c", "!!str x", "!t y", "-1", "a:b",
        "a#b", "! z", "!<tag:x,y> v", "x-y", "[]", "{}", "[a, b]", "{k: v}", "[[[x]]]", "{? a : b}", "{a, b: }", "[k: v]",
        "!a%41b c", "😀", "\"\\x41\\\\\"", "a, b",
    ]);
    if flow && v == "a, b" {
        return "a".into();
    }
    v.to_string()
}

fn shape(s: &mut Src) -> Shape {
    let lb = *s.pick(&["\n", "\n", "\n", "\r\n", "\r"]);
    let of = |head: &str, unit: &str, tail: &str, apart: bool| Shape {
        head: head.replace('\n', lb),
        unit: unit.replace('\n', lb),
        tail: tail.replace('\n', lb),
        apart,
    };
    let n = s.range(1, 3);
    let many = |s: &mut Src, f: &mut dyn FnMut(&mut Src) -> String| -> String { (0..n).map(|_| f(s)).collect() };
    match s.below(13) {
        0 => {
            let u = many(s, &mut |s| format!("- {}\n", small(s, false)));
            of("", &u, "", true)
        }
        1 => {
            let u = many(s, &mut |s| format!("{}: {}\n", s.pick(&["k", "key word", "'q'", "\"d\"", "? e\n", "!!str t"]), small(s, false)));
            of("", &u, "", true)
        }
        2 => {
            let nl = *s.pick(&["", "\n", "\n  ", " # c\n"]);
            let u = many(s, &mut |s| format!("{},{nl} ", small(s, true)));
            of("[ ", &u, "]\n", true)
        }
        3 => {
            let nl = *s.pick(&["", "\n", "\n  "]);
            let u = many(s, &mut |s| format!("{}: {},{nl} ", s.pick(&["k", "'q'", "\"d\"", "? e", ""]), small(s, true)));
            of("{ ", &u, "}\n", true)
        }
        4 => {
            let u = many(s, &mut |s| format!("{}{}\n{}", s.pick(&["--- ", "---\n", "--- # c\n"]), small(s, false), s.pick(&["", "...\n"])));
            of("", &u, "", true)
        }
        5 => {
            let u = *s.pick(&["--- !a!x y\n...\n", "%TAG !a! tag:x,\n--- !a!x y\n...\n", "%YAML 1.1\n--- y\n...\n", "--- |\n a\n\n", "--- >\n a\n b\n"]);
            of(if u.starts_with("---") && u.contains("!a!") { "%TAG !a! x\n" } else { "" }, u, "", false)
        }
        6 => {
            // (kept as one scalar)
            let u = *s.pick(&["word ", "w", "word\n  ", "a\n\n ", "é ", "a:b ", "a#b", "\t x", "x     ", "\u{a0}", "-", "😀"]);
            let head = *s.pick(&["", "- ", "k: ", "[", "- - "]);
            of(head, &format!("{u}{}", if u.ends_with('-') { "x" } else { "" }), if head == "[" { "]" } else { "" }, false)
        }
        7 => {
            let u = *s.pick(&["word ", "it''s ", "a\n\n b", "\n", " ", "''", "x", "é\n  "]);
            of(*s.pick(&["'", "- '", "k: '", "? '"]), u, "'\n", false)
        }
        8 => {
            let u = *s.pick(&["word ", "\\t", "\\u00e9x", "a\n\n b", "\n", " ", "\\\n  ", "\\\\", "\\x41", "x", "\\U0001F600", "\\  "]);
            of(*s.pick(&["\"", "- \"", "k: \"", "? \""]), u, "\"\n", false)
        }
        9 => {
            let h = *s.pick(&["|", ">", "|+", ">-", "|2", ">+"]);
            let u = *s.pick(&[" word\n", " a b\n\n", "\n", "  more\n x\n", " \n", " x\u{85}", " a", "   \n"]);
            let h = h.trim_end_matches('2');
            of(&format!("- {h}\n x\n "), &u[..], "\n", false)
        }
        10 => {
            let u = *s.pick(&["# comment\n", "\n", "  \n", "# \n\n", "   # c\n", "\t# c\n", "#\n"]);
            let head = *s.pick(&["", "a: b\n", "- x\n"]);
            // (blank lines may turn out to belong to the plain scalar before)
            of(head, u, "", head.is_empty() || u.contains('#'))
        }
        11 => {
            // tokens of one line
            let u = *s.pick(&["x", " ", "é", "\t", "# "]);
            let (h, t) = *s.pick(&[("#", "\na: b\n"), ("a # ", "\n"), ("a ", "#\n"), ("&a", " x\n"), ("!t", " x\n"), ("!<t", "> x\n")]);
            let u = if h.contains('#') || h == "a " { u } else { "x" };
            let u = if h == "a " { " " } else { u };
            of(h, u, t, false)
        }
        _ => {
            let u = *s.pick(&["!t%41", "%C3%A9", "%41"]);
            of("!t", &u.replace('!', ""), " x\n", false)
        }
    }
}

struct Case {
    shape: Shape,
    api: u8,
    chunk: usize,
    enc: u8,
    cfg: EmCfg,
}

fn case(s: &mut Src) -> Case {
    let shape = shape(s);
    let api = s.below(5) as u8;
    let chunk = *s.pick(&[4096usize, 512, 8192, 1, 3, 64, usize::MAX]);
    let enc = *s.pick(&[0u8, 0, 0, 1, 2]);
    let mut cfg = evgen::cfg(s);
    cfg.enc = 0;
    Case { shape, api, chunk, enc, cfg }
}

struct Reader<'a>(&'a [u8], usize);
impl std::io::Read for Reader<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
impl BufRead for Reader<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        Ok(&self.0[..self.1.min(self.0.len())])
    }
    fn consume(&mut self, n: usize) {
        self.0 = &self.0[n..];
    }
}

struct Sink(u64);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

const NAMES: [&str; 5] = ["scan", "parse", "load", "parse and emit", "load and dump"];

impl Case {
    fn text(&self, size: usize) -> Vec<u8> {
        let n = (size / self.shape.unit.len()).max(1);
        let mut t = self.shape.head.clone();
        for _ in 0..n {
            t.push_str(&self.shape.unit);
        }
        t.push_str(&self.shape.tail);
        match self.enc {
            0 => t.into_bytes(),
            e => {
                let mut v = vec![];
                for u in std::iter::once(0xfeff).chain(t.encode_utf16()) {
                    v.extend(if e == 1 { u.to_le_bytes() } else { u.to_be_bytes() });
                }
                v
            }
        }
    }

    /// Work through the text until it ends or `until` has come; returns the
    /// number of items, and the error.
    fn work(&self, text: &[u8], until: f64) -> (u64, Option<String>) {
        let r = Reader(text, self.chunk);
        let mut n = 0;
        let late = |n: u64| n % 64 == 0 && cpu() > until;
        if self.api == 0 {
            let mut s = y::Scanner::new();
            s.set_input(r);
            loop {
                match y::Scanner::scan(&mut s) {
                    Ok(t) => {
                        n += 1;
                        if t.data == y::TokenData::StreamEnd || late(n) {
                            return (n, None);
                        }
                    }
                    Err(e) => return (n, Some(e.to_string())),
                }
            }
        }
        let mut p = y::Parser::new();
        p.set_input(r);
        let mut sink = Sink(0);
        let mut em = y::Emitter::new();
        em.set_output(&mut sink);
        sut::configure(&mut em, &self.cfg);
        loop {
            if self.api == 2 || self.api == 4 {
                match y::Document::load(&mut p) {
                    Ok(d) => {
                        if d.nodes.is_empty() || late(n) {
                            return (n, None);
                        }
                        n += 1 + d.nodes.len() as u64;
                        if self.api == 4 {
                            if let Err(e) = d.dump(&mut em) {
                                return (n, Some(e.to_string()));
                            }
                        }
                    }
                    Err(e) => return (n, Some(e.to_string())),
                }
                continue;
            }
            match p.parse() {
                Ok(e) => {
                    n += 1;
                    let end = e.data == y::EventData::StreamEnd;
                    if self.api == 3 {
                        if let Err(e) = em.emit(e) {
                            return (n, Some(e.to_string()));
                        }
                    }
                    if end || late(n) {
                        return (n, None);
                    }
                }
                Err(e) => return (n, Some(e.to_string())),
            }
        }
    }

    fn measure(&self, text: &[u8], times: usize, limit: f64) -> (f64, isize) {
        let mut best = f64::MAX;
        let mut peak = 0;
        for _ in 0..times {
            let live = crate::alloc::start();
            let t = cpu();
            let _ = std::hint::black_box(self.work(text, t + limit));
            best = best.min(cpu() - t);
            peak = crate::alloc::peak() - live;
        }
        (best, peak)
    }
}

const SIZES: [usize; 4] = [16 << 10, 128 << 10, 256 << 10, 1 << 20];
/// how many times as expensive as in proportion counts as out of proportion
const FACTOR: f64 = 5.0;
/// memory that may come on top when the text is longer
const SLACK: isize = 64 << 10;

pub struct P27;
impl Prop for P27 {
    fn id(&self) -> &'static str {
        "P27"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = a text made of a generated unit repeated to 16 KiB, 128 KiB and 1 MiB (entries, pairs, documents, words and escapes inside scalars, comments, blank lines), an entry point, read size, encoding and emitter settings; CPU time and peak heap memory compared between the sizes; non-trivial = every size gives more items or a longer scalar without an error; distinct by unit, entry point, encoding and read size"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (800, 0),
            Tier::Thorough => (30_000, 0),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        let mut s = Src::record(rng);
        case(&mut s);
        s.into_tape()
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let c = case(&mut Src::replay(tape));
        ctx.heavy = true;
        ctx.class(NAMES[c.api as usize]);
        let small = c.text(SIZES[0]);
        let (_, err) = c.work(&small, f64::MAX);
        ctx.class(if err.is_some() { "ends in an error" } else { "ends regularly" });
        ctx.nontrivial = err.is_none();
        ctx.key = Some(fnv(format!("{:?}{}{}{}", c.shape, c.api, c.enc, c.chunk).as_bytes()));
        let (mut base, _) = c.measure(&small, 4, f64::MAX);
        let mut memory = 0;
        for size in &SIZES[1..] {
            let text = c.text(*size);
            let ratio = text.len() as f64 / small.len() as f64;
            let bound = |base: f64| base * ratio * FACTOR + 0.05;
            let (mut t, peak) = c.measure(&text, 1, 11.0 * bound(base));
            let mut tries = 0;
            while t > bound(base) {
                // (no disturbance makes it ten times as long)
                if tries == 3 || t > 10.0 * bound(base) {
                    return Err(format!(
                        "{}: {} bytes take {:.1} ms of CPU time, {} bytes {:.1} ms ({:.0} times as long for {ratio:.0} times the text)",
                        NAMES[c.api as usize],
                        small.len(),
                        base * 1e3,
                        text.len(),
                        t * 1e3,
                        t / base
                    ));
                }
                tries += 1;
                base = base.max(c.measure(&small, 4, f64::MAX).0);
                t = t.min(c.measure(&text, 1, 11.0 * bound(base)).0);
            }
            if c.shape.apart && c.chunk <= 8192 && matches!(c.api, 0 | 1 | 3) && err.is_none() {
                ctx.class("memory compared");
                if *size == SIZES[3] && peak > memory + SLACK {
                    return Err(format!(
                        "{}: {} bytes take {memory} bytes of memory, {} bytes {peak}",
                        NAMES[c.api as usize],
                        SIZES[2],
                        text.len(),
                    ));
                }
                memory = peak;
            }
        }
        Ok(())
    }
    fn describe(&self, tape: &[u8]) -> String {
        let c = case(&mut Src::replay(tape));
        format!(
            "{} {:?} repeated, reads of {}, encoding {}, {:?}",
            NAMES[c.api as usize], c.shape, c.chunk, c.enc, c.cfg
        )
    }
}
