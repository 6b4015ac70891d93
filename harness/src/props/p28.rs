//! P28: objects in use at the same time do not affect each other.
use super::*;
use crate::evgen;
use crate::model::*;
use crate::sut;
use libyaml_safer as y;
use std::cell::{Cell, RefCell};
use std::io::{BufRead, Read, Write};
use std::rc::Rc;
use std::sync::{Arc, Barrier};

/// One object: what it does, how many calls are made of it at most, and after
/// how many bytes its reader or writer fails.
#[derive(Clone, Debug)]
struct Job {
    what: What,
    steps: usize,
    fault: usize,
}

#[derive(Clone, Debug)]
enum What {
    Scan(Vec<u8>, usize),
    Parse(Vec<u8>, usize),
    Load(Vec<u8>, usize),
    Emit(Vec<Ev>, EmCfg),
    Dump(Vec<u8>, EmCfg),
    /// parse, and emit what was parsed
    Pipe(Vec<u8>, usize, EmCfg),
}

struct Case {
    jobs: Vec<Job>,
    threads: bool,
    schedule: Vec<u8>,
}

fn job(s: &mut Src, last: Option<&Job>) -> Job {
    // the same again, with itself for company
    if let Some(j) = last {
        if s.chance(1, 6) {
            return j.clone();
        }
    }
    let text = |s: &mut Src| match s.below(6) {
        0 => gen::bytes(s),
        1 => gen::limits(s).into_bytes(),
        2 | 3 => gen::graph(s).into_bytes(),
        _ => {
            let t = gen::yaml(s);
            gen::bytes_enc(s, &t)
        }
    };
    let chunk = |s: &mut Src| *s.pick(&[1usize, 2, 3, 7, 64, 4096]);
    let steps = match s.below(4) {
        0 => s.range(1, 40),
        _ => 1 << 20,
    };
    let fault = match s.below(5) {
        0 => s.below(300),
        _ => usize::MAX,
    };
    let what = match s.below(7) {
        0 => What::Scan(text(s), chunk(s)),
        1 => What::Parse(text(s), chunk(s)),
        2 => What::Load(text(s), chunk(s)),
        3 | 4 => {
            let c = evgen::cfg(s);
            let wild = s.chance(1, 4);
            What::Emit(evgen::events(s, wild), c)
        }
        5 => {
            let c = evgen::cfg(s);
            What::Dump(gen::graph(s).into_bytes(), c)
        }
        _ => {
            let c = evgen::cfg(s);
            What::Pipe(text(s), chunk(s), c)
        }
    };
    Job { what, steps, fault }
}

fn case(s: &mut Src) -> Case {
    let n = s.range(2, 4);
    let mut jobs: Vec<Job> = vec![];
    for _ in 0..n {
        let j = job(s, jobs.last());
        jobs.push(j);
    }
    let threads = s.chance(1, 6);
    let k = s.range(4, 200);
    let schedule = (0..k).map(|_| s.byte()).collect();
    Case { jobs, threads, schedule }
}

// ------------------------------------------------------------------ schedule

enum At {
    Before(Job),
    Open(Box<dyn Run>, usize),
    Away,
}
type Slot = (At, Vec<String>);

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static SLOTS: RefCell<Vec<Slot>> = const { RefCell::new(vec![]) };
    static SCHEDULE: RefCell<(Vec<u8>, usize)> = const { RefCell::new((vec![], 0)) };
    /// steps taken inside a read or write of another object
    static INSIDE: Cell<u64> = const { Cell::new(0) };
}

fn choice() -> usize {
    SCHEDULE.with(|s| {
        let s = &mut *s.borrow_mut();
        s.1 += 1;
        s.0[(s.1 * 7 + s.1 / s.0.len()) % s.0.len()] as usize
    })
}

/// One step of object `i`, unless it is in the middle of one or has ended.
fn step(i: usize) -> bool {
    let (mut r, left) = match SLOTS.with(|s| std::mem::replace(&mut s.borrow_mut()[i].0, At::Away)) {
        At::Before(j) => (start(&j), j.steps),
        At::Open(r, left) => (r, left),
        At::Away => return false,
    };
    let o = if left == 0 { None } else { r.step() };
    match o {
        Some(o) => SLOTS.with(|s| {
            let s = &mut s.borrow_mut()[i];
            s.1.push(o);
            s.0 = At::Open(r, left - 1);
        }),
        None => r.stop(),
    }
    true
}

/// A reader or writer is called: the others may get on in the meantime.
fn hook() {
    if !ACTIVE.get() || DEPTH.get() >= 3 {
        return;
    }
    let c = choice();
    if c % 3 == 0 {
        return;
    }
    DEPTH.set(DEPTH.get() + 1);
    let n = SLOTS.with(|s| s.borrow().len());
    for k in 0..c % 4 {
        if step((c / 4 + k) % n) {
            INSIDE.set(INSIDE.get() + 1);
        }
    }
    DEPTH.set(DEPTH.get() - 1);
}

/// Text, position, bytes for each read, bytes until it fails.
struct Reader(Vec<u8>, usize, usize, usize);
fn fault() -> std::io::Error {
    std::io::Error::other("no more of this")
}
impl Read for Reader {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let rest = self.fill_buf()?;
        let n = rest.len().min(b.len());
        b[..n].copy_from_slice(&rest[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Reader {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        hook();
        let e = self.0.len().min(self.1 + self.2).min(self.3);
        if e == self.3 && self.1 == e {
            return Err(fault());
        }
        Ok(&self.0[self.1..e])
    }
    fn consume(&mut self, n: usize) {
        self.1 += n;
    }
}

struct Sink(Rc<RefCell<Vec<u8>>>, usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        hook();
        let mut o = self.0.borrow_mut();
        let n = b.len().min(self.1 - o.len().min(self.1));
        if n == 0 && !b.is_empty() {
            return Err(fault());
        }
        o.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------------- runs

trait Run {
    /// One call of the library; what came of it, or nothing at the end.
    fn step(&mut self) -> Option<String>;
    /// No more calls are made, apart from resetting it.
    fn stop(&mut self);
}

struct Scans(y::Scanner<Reader>, usize);
impl Run for Scans {
    fn stop(&mut self) {
        self.0.reset();
    }
    fn step(&mut self) -> Option<String> {
        self.1 = self.1.checked_sub(1)?;
        match y::Scanner::scan(&mut self.0) {
            Ok(t) => {
                if t.data == y::TokenData::StreamEnd {
                    self.1 = 0;
                }
                Some(format!("{:?}", sut::tok(&t)))
            }
            Err(e) => {
                self.1 = 0;
                Some(format!("{e:?} {e}"))
            }
        }
    }
}

struct Parses(y::Parser<Reader>, usize);
impl Run for Parses {
    fn stop(&mut self) {
        self.0.reset();
    }
    fn step(&mut self) -> Option<String> {
        self.1 = self.1.checked_sub(1)?;
        match self.0.parse() {
            Ok(t) => {
                if t.data == y::EventData::StreamEnd {
                    self.1 = 0;
                }
                Some(format!("{:?}", sut::evm(&t)))
            }
            Err(e) => {
                self.1 = 0;
                Some(format!("{e:?} {e}"))
            }
        }
    }
}

struct Loads(y::Parser<Reader>, usize, Option<y::Document>);
impl Run for Loads {
    fn stop(&mut self) {
        self.0.reset();
    }
    fn step(&mut self) -> Option<String> {
        self.1 = self.1.checked_sub(1)?;
        // the document of the step before, which was kept
        let before = self.2.take().map(|d| sut::doc(&d));
        match y::Document::load(&mut self.0) {
            Ok(d) => {
                let o = format!("{before:?} {:?}", sut::doc(&d));
                if d.nodes.is_empty() {
                    self.1 = 0;
                }
                self.2 = Some(d);
                Some(o)
            }
            Err(e) => {
                self.1 = 0;
                Some(format!("{before:?} {e:?} {e}"))
            }
        }
    }
}

enum Source {
    Events(std::vec::IntoIter<Ev>),
    Docs(std::vec::IntoIter<y::Document>),
    Parser(y::Parser<Reader>, usize),
}

struct Writes {
    em: Option<y::Emitter<'static>>,
    sink: *mut Sink,
    out: Rc<RefCell<Vec<u8>>>,
    seen: usize,
    from: Source,
    ended: bool,
}
impl Writes {
    fn new(cfg: &EmCfg, from: Source, fault: usize) -> Writes {
        let out = Rc::new(RefCell::new(vec![]));
        let sink = Box::into_raw(Box::new(Sink(out.clone(), fault)));
        let mut em = y::Emitter::new();
        // SAFETY: freed after the emitter, in `drop`.
        em.set_output(unsafe { &mut *sink });
        sut::configure(&mut em, cfg);
        Writes { em: Some(em), sink, out, seen: 0, from, ended: false }
    }
}
impl Drop for Writes {
    fn drop(&mut self) {
        self.em = None;
        // SAFETY: made by `Box::into_raw` in `new`; the emitter is gone.
        drop(unsafe { Box::from_raw(self.sink) });
    }
}
impl Run for Writes {
    fn stop(&mut self) {
        self.em.as_mut().unwrap().reset();
    }
    fn step(&mut self) -> Option<String> {
        if self.ended {
            return None;
        }
        let em = self.em.as_mut().unwrap();
        let r = match &mut self.from {
            Source::Events(v) => em.emit(sut::build(&v.next()?)),
            Source::Docs(v) => match v.next() {
                Some(d) => d.dump(em),
                None => return None,
            },
            Source::Parser(p, left) => {
                *left = left.checked_sub(1)?;
                match p.parse() {
                    Ok(e) => {
                        self.ended = e.data == y::EventData::StreamEnd;
                        em.emit(e)
                    }
                    Err(e) => Err(e),
                }
            }
        };
        self.ended |= r.is_err();
        let o = self.out.borrow();
        let o = match r {
            Ok(()) => format!("{:?}", Bs(o[self.seen..].to_vec())),
            Err(e) => format!("{:?} {e:?} {e}", Bs(o[self.seen..].to_vec())),
        };
        self.seen = self.out.borrow().len();
        Some(o)
    }
}

fn start(j: &Job) -> Box<dyn Run> {
    let f = j.fault;
    let reader = |t: &Vec<u8>, c: usize| Reader(t.clone(), 0, c, f);
    let parser = |t: &Vec<u8>, c: usize| {
        let mut p = y::Parser::new();
        p.set_input(reader(t, c));
        p
    };
    match &j.what {
        What::Scan(t, c) => {
            let mut s = y::Scanner::new();
            s.set_input(reader(t, *c));
            Box::new(Scans(s, sut::cap(t.len())))
        }
        What::Parse(t, c) => Box::new(Parses(parser(t, *c), sut::cap(t.len()))),
        What::Load(t, c) => Box::new(Loads(parser(t, *c), sut::cap(t.len()), None)),
        What::Emit(v, c) => Box::new(Writes::new(c, Source::Events(v.clone().into_iter()), f)),
        What::Pipe(t, n, c) => Box::new(Writes::new(c, Source::Parser(parser(t, *n), sut::cap(t.len())), f)),
        What::Dump(t, c) => {
            let mut p = y::Parser::new();
            p.set_input(Reader(t.clone(), 0, 4096, usize::MAX));
            let mut v = vec![];
            for _ in 0..sut::cap(t.len()) {
                match y::Document::load(&mut p) {
                    Ok(d) => {
                        let end = d.nodes.is_empty();
                        v.push(d);
                        if end {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
            Box::new(Writes::new(c, Source::Docs(v.into_iter()), f))
        }
    }
}

/// Everything object `j` gives when it is alone.
fn alone(j: &Job) -> Vec<String> {
    let mut r = start(j);
    let v = std::iter::from_fn(|| r.step()).take(j.steps).collect();
    r.stop();
    v
}

fn together(c: &Case) -> Vec<Vec<String>> {
    ACTIVE.set(false);
    DEPTH.set(0);
    INSIDE.set(0);
    let slots: Vec<Slot> = c.jobs.iter().map(|j| (At::Before(j.clone()), vec![])).collect();
    let n = slots.len();
    SLOTS.with(|s| *s.borrow_mut() = slots);
    SCHEDULE.with(|s| *s.borrow_mut() = (c.schedule.clone(), 0));
    ACTIVE.set(true);
    loop {
        let i = choice() % n;
        // (whoever is next in line, if that one is through)
        if !(0..n).any(|k| step((i + k) % n)) {
            break;
        }
    }
    ACTIVE.set(false);
    SLOTS.with(|s| std::mem::take(&mut *s.borrow_mut())).into_iter().map(|s| s.1).collect()
}

fn in_threads(c: &Case) -> Vec<Vec<String>> {
    ACTIVE.set(false);
    let b = Arc::new(Barrier::new(c.jobs.len()));
    let h: Vec<_> = c
        .jobs
        .iter()
        .map(|j| {
            let (b, j) = (b.clone(), j.clone());
            std::thread::spawn(move || {
                b.wait();
                let first = alone(&j);
                for _ in 0..3 {
                    let again = alone(&j);
                    if again != first {
                        return again;
                    }
                }
                first
            })
        })
        .collect();
    let mut out = vec![];
    let mut panic = None;
    for h in h {
        match h.join() {
            Ok(v) => out.push(v),
            Err(p) => panic = Some(p),
        }
    }
    if let Some(p) = panic {
        std::panic::resume_unwind(p);
    }
    out
}

pub struct P28;
impl Prop for P28 {
    fn id(&self) -> &'static str {
        "P28"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = two to four objects (scanner, parser, loader, emitter, dumper, parser into emitter) with generated inputs, event sequences, settings, faults and numbers of calls, and a schedule: calls interleaved on one thread, also from inside the readers and writers of the others, or all at once on threads of their own; compared with each alone; non-trivial = at least two objects take three steps or more, and, on one thread, one steps inside a call of another; distinct by case"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (120_000, 0),
            Tier::Thorough => (1_500_000, 0),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        let mut s = Src::record(rng);
        case(&mut s);
        s.into_tape()
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let c = case(&mut Src::replay(tape));
        ACTIVE.set(false);
        let want: Vec<_> = c.jobs.iter().map(alone).collect();
        let got = if c.threads { in_threads(&c) } else { together(&c) };
        ctx.class(if c.threads { "threads" } else { "one thread" });
        for (j, w) in c.jobs.iter().zip(&want) {
            ctx.class(match j.what {
                What::Scan(..) => "scanner",
                What::Parse(..) => "parser",
                What::Load(..) => "loader",
                What::Emit(..) => "emitter",
                What::Dump(..) => "dumper",
                What::Pipe(..) => "parser into emitter",
            });
            let _ = w;
        }
        ctx.nontrivial = want.iter().filter(|w| w.len() >= 3).count() >= 2 && (c.threads || INSIDE.get() > 0);
        for (i, (w, g)) in want.iter().zip(&got).enumerate() {
            if w != g {
                let k = w.iter().zip(g).take_while(|(a, b)| a == b).count();
                return Err(format!(
                    "object {i} gives at step {k} among the others {}, alone {}",
                    short(g.get(k).map_or("nothing", |s| s)),
                    short(w.get(k).map_or("nothing", |s| s)),
                ));
            }
        }
        Ok(())
    }
    fn describe(&self, tape: &[u8]) -> String {
        let c = case(&mut Src::replay(tape));
        let text = |j: &Job| -> String {
            let a = match &j.what {
    
                What::Scan(t, n) => format!("scan {} in reads of {n}", show(t)),
                What::Parse(t, n) => format!("parse {} in reads of {n}", show(t)),
                What::Load(t, n) => format!("load {} in reads of {n}", show(t)),
                What::Emit(v, c) => format!("emit {} with {c:?}", short(&format!("{v:?}"))),
                What::Dump(t, c) => format!("load and dump {} with {c:?}", show(t)),
                What::Pipe(t, n, c) => format!("parse {} in reads of {n} and emit with {c:?}", show(t)),
            };
            let steps = if j.steps < 100 { format!(", {} calls", j.steps) } else { String::new() };
            let fault = if j.fault < 1000 { format!(", a fault after {} bytes", j.fault) } else { String::new() };
            a + &steps + &fault
        };
        let jobs: Vec<_> = c.jobs.iter().map(text).collect();
        format!("{}: {}", if c.threads { "on threads" } else { "interleaved" }, jobs.join(" | "))
    }
}
