//! Property engine: deterministic case generation, coverage feedback,
//! shrinking, replay files and result files.
//!
//! A *case* is a byte string. Text properties use `[cfg bytes][input bytes]`,
//! structured properties use a *choice tape* that the property decodes with
//! [`Src`]. Everything a case does is a function of its bytes, so a saved case
//! is a replay file.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

// ---------------------------------------------------------------- choice source

/// Source of choices: replays a tape; past its end, either draws fresh random
/// choices (generation) or yields zeros (replay/shrinking).
pub struct Src<'a> {
    tape: Vec<u8>,
    pos: usize,
    rng: Option<&'a mut Rng>,
}

impl<'a> Src<'a> {
    pub fn replay(tape: &[u8]) -> Src<'static> {
        Src {
            tape: tape.to_vec(),
            pos: 0,
            rng: None,
        }
    }
    pub fn record(rng: &'a mut Rng) -> Src<'a> {
        Src {
            tape: vec![],
            pos: 0,
            rng: Some(rng),
        }
    }
    pub fn into_tape(mut self) -> Vec<u8> {
        self.tape.truncate(self.pos.max(1));
        self.tape
    }
    pub fn byte(&mut self) -> u8 {
        let b = if self.pos < self.tape.len() {
            self.tape[self.pos]
        } else if let Some(r) = &mut self.rng {
            let b = (r.next() >> 24) as u8;
            self.tape.push(b);
            b
        } else {
            0
        };
        self.pos += 1;
        b
    }
    pub fn exhausted(&self) -> bool {
        self.rng.is_none() && self.pos >= self.tape.len()
    }
    /// 0..n ; 0 is the simplest choice
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if n <= 256 {
            let b = self.byte() as usize;
            // keep small values stable under shrinking
            if b < n {
                b
            } else {
                b % n
            }
        } else if n <= 65536 {
            let v = self.byte() as usize | (self.byte() as usize) << 8;
            v % n
        } else {
            let mut v = 0usize;
            for i in 0..4 {
                v |= (self.byte() as usize) << (8 * i);
            }
            v % n
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        &v[self.below(v.len())]
    }
}

// ---------------------------------------------------------------- property interface

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CaseKind {
    /// first n bytes are configuration, the rest is free-form input
    Text(usize),
    Tape,
}

/// What a single case reports.
#[derive(Default)]
pub struct Ctx {
    pub classes: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub evals: u64,
    /// key identifying the semantic content of the case, for distinctness
    pub key: Option<u64>,
    /// too expensive to keep as a base for mutation
    pub heavy: bool,
}

impl Ctx {
    pub fn class(&mut self, s: &str) {
        if let Some(c) = self.classes.get_mut(s) {
            *c += 1;
        } else {
            self.classes.insert(s.to_string(), 1);
        }
    }
}

pub type Verdict = Result<(), String>;

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn kind(&self) -> CaseKind;
    /// rule by which a case counts as non-trivial
    fn rule(&self) -> &'static str;
    /// (cases per run, percentage produced by mutating retained cases)
    fn budget(&self, tier: Tier) -> (u64, u32);
    fn gen(&self, rng: &mut Rng, i: u64, tier: Tier) -> Vec<u8>;
    fn check(&self, case: &[u8], ctx: &mut Ctx) -> Verdict;
    fn describe(&self, case: &[u8]) -> String;
    /// share of the generated cases that are an enumeration (reported only)
    fn enumerated(&self, _tier: Tier) -> u64 {
        0
    }
    /// fixed cases run before anything generated
    fn fixed(&self) -> Vec<Vec<u8>> {
        vec![]
    }
    /// longest case mutation may produce
    fn max_len(&self) -> usize {
        4096
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
}

// ---------------------------------------------------------------- coverage counters

mod cov {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static START: AtomicUsize = AtomicUsize::new(0);
    static STOP: AtomicUsize = AtomicUsize::new(0);
    pub static REGIONS: std::sync::Mutex<Vec<(usize, usize)>> = std::sync::Mutex::new(Vec::new());

    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
        START.store(start as usize, Ordering::Relaxed);
        STOP.store(stop as usize, Ordering::Relaxed);
        if let Ok(mut r) = REGIONS.lock() {
            let e = (start as usize, stop as usize);
            if start != stop && !r.contains(&e) {
                r.push(e);
            }
        }
    }
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}
}

struct Coverage {
    regions: Vec<(usize, usize)>,
    virgin: Vec<u8>,
}

fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

impl Coverage {
    fn new() -> Self {
        let regions = cov::REGIONS.lock().unwrap().clone();
        let n = regions.iter().map(|(a, b)| b - a).sum();
        Coverage {
            regions,
            virgin: vec![0; n],
        }
    }
    fn reset(&self) {
        for &(a, b) in &self.regions {
            // SAFETY: region registered by the coverage runtime, single thread
            unsafe { std::ptr::write_bytes(a as *mut u8, 0, b - a) }
        }
    }
    /// merge; true when something new was covered
    fn merge(&mut self) -> bool {
        let mut new = false;
        let mut o = 0;
        for &(a, b) in &self.regions {
            let s = unsafe { std::slice::from_raw_parts(a as *const u8, b - a) };
            let mut i = 0;
            while i < s.len() {
                if i + 8 <= s.len() && s[i..i + 8] == [0; 8] {
                    i += 8;
                    continue;
                }
                let e = (i + 8).min(s.len());
                while i < e {
                    if s[i] != 0 {
                        let bk = bucket(s[i]);
                        if self.virgin[o + i] & bk == 0 {
                            self.virgin[o + i] |= bk;
                            new = true;
                        }
                    }
                    i += 1;
                }
            }
            o += s.len();
        }
        new
    }
    fn edges(&self) -> u64 {
        self.virgin.iter().filter(|v| **v != 0).count() as u64
    }
}

// ---------------------------------------------------------------- panics

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((loc, msg));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .take()
        .unwrap_or_default()
}

/// Panic payload: the library produced more items than any input permits.
pub struct Runaway;

pub enum RunResult {
    Held,
    Violated(String),
    /// the harness itself failed
    Broken(String),
}

pub fn run_case(p: &dyn Prop, case: &[u8], ctx: &mut Ctx) -> RunResult {
    match catch_unwind(AssertUnwindSafe(|| p.check(case, ctx))) {
        Ok(Ok(())) => RunResult::Held,
        Ok(Err(m)) => RunResult::Violated(m),
        Err(p) if p.is::<Runaway>() => {
            take_panic();
            RunResult::Violated("the stream does not end".into())
        }
        Err(_) => {
            let (loc, msg) = take_panic();
            // Panics raised in the harness's own sources are harness errors.
            if loc.starts_with("src/") || loc.contains("/verif/") {
                RunResult::Broken(format!("harness panic at {loc}: {msg}"))
            } else {
                RunResult::Violated(format!("panic at {loc}: {msg}"))
            }
        }
    }
}

// ---------------------------------------------------------------- shrinking

fn fails(p: &dyn Prop, case: &[u8]) -> Option<String> {
    let mut c = Ctx::default();
    match run_case(p, case, &mut c) {
        RunResult::Violated(m) => Some(m),
        _ => None,
    }
}

pub fn shrink(p: &dyn Prop, case: &[u8], msg: String) -> (Vec<u8>, String) {
    let mut best = case.to_vec();
    let mut bmsg = msg;
    let mut evals = 0usize;
    let limit = 6000usize.min(200_000_000 / (case.len() + 1)).max(300);
    let fixed = match p.kind() {
        CaseKind::Text(n) => n,
        CaseKind::Tape => 0,
    };
    let begun = std::time::Instant::now();
    let attempt = |cand: &[u8], best: &mut Vec<u8>, bmsg: &mut String, evals: &mut usize| {
        if begun.elapsed().as_secs() > 45 {
            *evals = limit;
        }
        if *evals >= limit || cand == &best[..] {
            return false;
        }
        *evals += 1;
        TICK.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if let Some(m) = fails(p, cand) {
            *best = cand.to_vec();
            *bmsg = m;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len().saturating_sub(fixed) / 2).max(1);
        loop {
            let mut i = fixed;
            while i < best.len() {
                let e = (i + size).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[e..]);
                if !attempt(&c, &mut best, &mut bmsg, &mut evals) {
                    i += size.max(1);
                }
                if evals >= limit {
                    break;
                }
            }
            if size == 1 || evals >= limit {
                break;
            }
            size /= 2;
        }
        // simplify bytes
        match p.kind() {
            CaseKind::Text(n) => {
                for i in 0..best.len() {
                    let opts: &[u8] = if i < n {
                        &[0, 1]
                    } else {
                        &[b'a', b' ', b'\n', b'-']
                    };
                    for &o in opts {
                        if i < best.len() && best[i] != o && (i < n || rank(o) < rank(best[i])) {
                            let mut c = best.clone();
                            c[i] = o;
                            if attempt(&c, &mut best, &mut bmsg, &mut evals) {
                                break;
                            }
                        }
                    }
                }
            }
            CaseKind::Tape => {
                for i in 0..best.len() {
                    if best[i] == 0 {
                        continue;
                    }
                    let v = best[i];
                    for o in [0, 1, v / 2, v.wrapping_sub(1)] {
                        if i < best.len() && o < best[i] {
                            let mut c = best.clone();
                            c[i] = o;
                            if attempt(&c, &mut best, &mut bmsg, &mut evals) {
                                break;
                            }
                        }
                    }
                }
            }
        }
        if best == before || evals >= limit {
            break;
        }
    }
    (best, bmsg)
}

fn rank(b: u8) -> u8 {
    match b {
        b'a' => 0,
        b' ' => 1,
        b'\n' => 2,
        b'-' => 3,
        b'a'..=b'z' => 4,
        0x20..=0x7e => 5,
        _ => 6,
    }
}

// ---------------------------------------------------------------- mutation

const DICT: &[&str] = &[
    "- ", "? ", ": ", ":", ",", "[", "]", "{", "}", "&a ", "*a", "!", "!!str ", "!a!b ", "!<x> ",
    "|", ">", "|-", "|+", ">1", "'", "''", "\"", "\\", "\\x41", "\\u263A", "\\U0001F600", "\\\n",
    "#", " #", "%YAML 1.1\n", "%YAML 1.2\n", "%TAG ! tag:x,\n", "%TAG !a! !b-\n", "---", "--- ",
    "---\n", "...", "...\n", "\n", "\n\n", "\r\n", "\r", " ", "  ", "\t", "\u{85}", "\u{2028}",
    "\u{2029}", "\u{feff}", "é", "\u{1f600}", "@", "`", "~", "%41", "%C3%A9", "key: value\n",
    "- a\n", "[a, b]", "{a: b}", "\n  ", "\n ", "\n- ", "\n? ", "\n: ", "a", "x: |\n  y\n",
];

pub fn mutate(rng: &mut Rng, kind: CaseKind, base: &[u8], other: &[u8], max: usize) -> Vec<u8> {
    let mut c = base.to_vec();
    let fixed = match kind {
        CaseKind::Text(n) => n.min(c.len()),
        CaseKind::Tape => 0,
    };
    let n = 1 + rng.below(4);
    for _ in 0..n {
        let len = c.len();
        let body = len - fixed;
        let pos = |rng: &mut Rng| fixed + rng.below(body + 1);
        match rng.below(12) {
            0 if body > 0 => {
                let i = fixed + rng.below(body);
                c[i] = rng.next() as u8;
            }
            1 if body > 0 => {
                let i = fixed + rng.below(body);
                c[i] = c[i].wrapping_add(if rng.chance(1, 2) { 1 } else { 255 });
            }
            2 | 3 if body > 0 => {
                let i = fixed + rng.below(body);
                let e = (i + 1 + rng.below(8)).min(len);
                c.drain(i..e);
            }
            4 if body > 0 => {
                let i = fixed + rng.below(body);
                let e = (i + 1 + rng.below(16)).min(len);
                let piece = c[i..e].to_vec();
                let at = fixed + rng.below(body + 1);
                c.splice(at..at, piece);
            }
            5 | 6 => {
                let at = pos(rng);
                if kind == CaseKind::Tape {
                    let piece: Vec<u8> = (0..1 + rng.below(4)).map(|_| rng.next() as u8).collect();
                    c.splice(at..at, piece);
                } else {
                    let d = DICT[rng.below(DICT.len())].as_bytes().to_vec();
                    c.splice(at..at, d);
                }
            }
            7 if other.len() > fixed => {
                let o = &other[fixed..];
                let i = rng.below(o.len());
                let e = (i + 1 + rng.below(40)).min(o.len());
                let at = pos(rng);
                if rng.chance(1, 2) {
                    let piece = o[i..e].to_vec();
                    c.splice(at..at, piece);
                } else {
                    c.truncate(at);
                    c.extend_from_slice(&o[i..]);
                }
            }
            8 if kind != CaseKind::Tape => {
                // indent a line differently
                let nl: Vec<usize> = (fixed..len).filter(|&i| c[i] == b'\n').collect();
                if !nl.is_empty() {
                    let at = nl[rng.below(nl.len())] + 1;
                    if rng.chance(1, 2) {
                        c.insert(at, b' ');
                    } else if at < c.len() && c[at] == b' ' {
                        c.remove(at);
                    }
                }
            }
            9 if fixed > 0 => {
                let i = rng.below(fixed);
                c[i] = rng.next() as u8;
            }
            10 if body > 0 => {
                let at = fixed + rng.below(body);
                c.truncate(at.max(fixed));
            }
            11 if kind != CaseKind::Tape && body > 0 => {
                let set = b"-:?,[]{}#&*!|>'\"%@`\\ \n\t.0a\r~";
                let i = fixed + rng.below(body);
                c[i] = set[rng.below(set.len())];
            }
            _ => {
                let at = pos(rng);
                let set = b"-:?,[]{}#&*!|>'\"%@`\\ \n\t.0a\r~";
                let b = if kind == CaseKind::Tape {
                    rng.next() as u8
                } else {
                    set[rng.below(set.len())]
                };
                c.insert(at, b);
            }
        }
    }
    if c.len() > max {
        c.truncate(max.max(fixed));
    }
    // Edits of valid text should mostly stay valid text, or every campaign
    // ends up exploring the decoder.
    if fixed < c.len()
        && matches!(kind, CaseKind::Text(_))
        && std::str::from_utf8(&base[fixed.min(base.len())..]).is_ok()
        && std::str::from_utf8(&c[fixed..]).is_err()
        && rng.chance(14, 15)
    {
        let mut o = c[..fixed].to_vec();
        let mut rest = &c[fixed..];
        while !rest.is_empty() {
            match std::str::from_utf8(rest) {
                Ok(_) => {
                    o.extend_from_slice(rest);
                    break;
                }
                Err(e) => {
                    o.extend_from_slice(&rest[..e.valid_up_to()]);
                    rest = &rest[e.valid_up_to() + e.error_len().unwrap_or(rest.len() - e.valid_up_to())..];
                }
            }
        }
        c = o;
    }
    c
}

// ---------------------------------------------------------------- worker

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}

pub static SHRINKING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// cases started; watched for hangs
pub static TICK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub fresh: u64,
    pub mutated: u64,
    pub nontrivial: u64,
    pub hashes: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(Vec<u8>, String)>,
    pub broken: Option<String>,
    pub corpus: u64,
    pub edges: u64,
}

pub struct Job<'a> {
    pub prop: &'a dyn Prop,
    pub tier: Tier,
    pub seed: u64,
    pub worker: u64,
    pub workers: u64,
    pub scale: f64,
    pub seeds: Vec<Vec<u8>>,
    /// file the case about to run is written to (crash attribution)
    pub trace: Option<std::path::PathBuf>,
    pub known: Vec<String>,
}

pub fn is_known(known: &[String], msg: &str) -> Option<String> {
    known.iter().find(|k| msg.contains(k.as_str())).cloned()
}

pub fn work(job: &Job) -> Report {
    use std::os::unix::fs::FileExt;
    let p = job.prop;
    let mut rep = Report::default();
    let (total, mut_pct) = p.budget(job.tier);
    let total = (total as f64 * job.scale) as u64;
    let mine = total / job.workers
        + if job.worker < total % job.workers { 1 } else { 0 };
    let mut rng = Rng::new(
        job.seed
            .wrapping_mul(0x1000_0001_B3)
            .wrapping_add(fnv(p.id().as_bytes()))
            .wrapping_add(job.worker.wrapping_mul(0xD6E8_FEB8_6659_FD93)),
    );
    let mut cov = Coverage::new();
    let mut corpus: Vec<Vec<u8>> = vec![];
    let trace = job
        .trace
        .as_ref()
        .map(|t| std::fs::File::create(t).expect("trace file"));
    let mut queue: Vec<Vec<u8>> = vec![];
    if job.worker == 0 {
        queue.extend(p.fixed());
    }
    // every worker sees its share of the seed corpus
    for (i, s) in job.seeds.iter().enumerate() {
        if i as u64 % job.workers == job.worker {
            queue.push(s.clone());
        }
    }
    queue.reverse();
    // A loaded machine must not turn a check into one without an answer.
    let begun = std::time::Instant::now();
    let mut i = 0u64;
    let mut samples_by_class: BTreeMap<String, u32> = BTreeMap::new();
    loop {
        let (case, from_queue) = if let Some(c) = queue.pop() {
            (c, true)
        } else {
            if i >= mine || (job.tier == Tier::Quick && begun.elapsed().as_secs() > 600) {
                break;
            }
            i += 1;
            if !corpus.is_empty() && rng.chance(mut_pct as usize, 100) {
                rep.mutated += 1;
                // favour recent entries
                let n = corpus.len();
                let a = if rng.chance(1, 3) {
                    n - 1 - rng.below(n.min(16))
                } else {
                    rng.below(n)
                };
                let b = rng.below(n);
                let (x, y) = (corpus[a].clone(), corpus[b].clone());
                (mutate(&mut rng, p.kind(), &x, &y, p.max_len()), false)
            } else {
                let g = rep.fresh;
                rep.fresh += 1;
                (p.gen(&mut rng, g * job.workers + job.worker, job.tier), false)
            }
        };
        TICK.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if let Some(t) = &trace {
            let mut buf = (case.len() as u64).to_le_bytes().to_vec();
            buf.extend_from_slice(&case);
            let _ = t.write_all_at(&buf, 0);
        }
        let mut ctx = Ctx {
            evals: 1,
            ..Ctx::default()
        };
        cov.reset();
        let r = run_case(p, &case, &mut ctx);
        let new = cov.merge();
        rep.evals += ctx.evals;
        let heavy = ctx.heavy;
        match r {
            RunResult::Held => {}
            RunResult::Violated(m) => {
                SHRINKING.store(true, std::sync::atomic::Ordering::Relaxed);
                let (c, m2) = shrink(p, &case, m.clone());
                SHRINKING.store(false, std::sync::atomic::Ordering::Relaxed);
                if let Some(k) = is_known(&job.known, &m2) {
                    ctx.class(&format!("known-finding {k}"));
                } else {
                    rep.violations.push((c, m2));
                    break;
                }
            }
            RunResult::Broken(m) => {
                rep.broken = Some(format!("{m}\ncase: {}", p.describe(&case)));
                break;
            }
        }
        if ctx.nontrivial {
            rep.nontrivial += 1;
            let key = ctx.key.unwrap_or_else(|| fnv(&case));
            if rep.hashes.insert(key) && case.len() < 400 {
                // keep a few samples spread over classes
                for (k, _) in &ctx.classes {
                    let n = samples_by_class.entry(k.clone()).or_insert(0);
                    if *n < 1 && rep.samples.len() < 12 && i > 20 {
                        *n += 1;
                        rep.samples.push(format!("[{k}] {}", p.describe(&case)));
                        break;
                    }
                }
            }
        }
        for (k, n) in ctx.classes {
            *rep.classes.entry(k).or_insert(0) += n;
        }
        if heavy {
            // not a base for mutation
        } else if new && case.len() <= p.max_len() {
            corpus.push(case);
        } else if from_queue && corpus.len() < 4096 {
            corpus.push(case);
        }
    }
    rep.corpus = corpus.len() as u64;
    rep.edges = cov.edges();
    if let Ok(d) = std::env::var("HARNESS_DUMP_CORPUS") {
        for c in &corpus {
            let _ = std::fs::write(format!("{d}/{:016x}", fnv(c)), c);
        }
    }
    rep
}
