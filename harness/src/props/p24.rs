//! P24, P25: the repository's two programs, run as programs.
use super::*;
use crate::model::*;
use crate::{evgen, rt, sut};
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

fn scratch() -> &'static Path {
    static P: OnceLock<PathBuf> = OnceLock::new();
    P.get_or_init(|| {
        let base = std::env::var_os("VERIF_TMP").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("programs-{}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        p
    })
}

fn program(name: &str) -> PathBuf {
    let exe = std::env::current_exe().expect("own path");
    exe.parent().unwrap().parent().unwrap().join("programs/release").join(name)
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: String,
}

/// Run a program on the files, inside the scratch directory, with nothing on
/// standard input.
fn run(name: &str, files: &[PathBuf]) -> Ran {
    let mut c = Command::new(program(name));
    c.args(files).current_dir(scratch()).stdin(Stdio::null()).env_remove("RUST_BACKTRACE");
    unsafe {
        c.pre_exec(|| {
            setrlimit(0, &[20, 25]); // seconds of CPU time
            Ok(())
        });
    }
    let o = c.output().unwrap_or_else(|e| panic!("harness: cannot run {name}: {e}"));
    Ran {
        code: o.status.code(),
        signal: o.status.signal(),
        out: o.stdout,
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}

fn file(i: usize, name: &str, bytes: &[u8]) -> PathBuf {
    let p = scratch().join(format!("{i}{name}"));
    std::fs::File::create(&p).and_then(|mut f| f.write_all(bytes)).expect("scratch file");
    p
}

fn ended(r: &Ran, want: i32) -> Verdict {
    if let Some(s) = r.signal {
        return Err(format!("the program was killed by signal {s}: {}", short(&r.err)));
    }
    if r.code != Some(want) {
        return Err(format!("exit code {:?} instead of {want}; stderr: {:?}", r.code, short(&r.err)));
    }
    Ok(())
}

// ------------------------------------------------------------------ notation

fn props(o: &mut Vec<u8>, anchor: &Option<Bs>, tag: &Option<Bs>) {
    if let Some(a) = anchor {
        o.extend(b" &");
        o.extend(&a.0);
    }
    if let Some(t) = tag {
        o.extend(b" <");
        o.extend(&t.0);
        o.push(b'>');
    }
}

/// The line of an event in the notation of the YAML test suite.
fn line(e: &Ev) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    match e {
        Ev::StreamStart(_) => o.extend(b"+STR"),
        Ev::StreamEnd => o.extend(b"-STR"),
        Ev::DocStart { implicit, .. } => o.extend(if *implicit { &b"+DOC"[..] } else { b"+DOC ---" }),
        Ev::DocEnd(i) => o.extend(if *i { &b"-DOC"[..] } else { b"-DOC ..." }),
        Ev::SeqStart { anchor, tag, .. } => {
            o.extend(b"+SEQ");
            props(&mut o, anchor, tag);
        }
        Ev::SeqEnd => o.extend(b"-SEQ"),
        Ev::MapStart { anchor, tag, .. } => {
            o.extend(b"+MAP");
            props(&mut o, anchor, tag);
        }
        Ev::MapEnd => o.extend(b"-MAP"),
        Ev::Alias(a) => {
            o.extend(b"=ALI *");
            o.extend(&a.0);
        }
        Ev::Scalar { anchor, tag, value, style, .. } => {
            o.extend(b"=VAL");
            props(&mut o, anchor, tag);
            o.push(b' ');
            o.push(b"?:'\"|>"[*style as usize]);
            for b in &value.0 {
                match b {
                    b'\\' => o.extend(b"\\\\"),
                    0 => o.extend(b"\\0"),
                    8 => o.extend(b"\\b"),
                    9 => o.extend(b"\\t"),
                    10 => o.extend(b"\\n"),
                    13 => o.extend(b"\\r"),
                    b => o.push(*b),
                }
            }
        }
        Ev::None => {}
    }
    o.push(b'\n');
    o
}

/// Read the notation back. Whether a scalar may be read as plain or quoted
/// follows from its tag and style.
fn unline(l: &str) -> Result<Ev, String> {
    let bad = || format!("line {l:?} is not in the notation");
    let (head, rest) = l.split_at(l.char_indices().nth(4).map_or(l.len(), |x| x.0));
    let mut rest = rest;
    let mut anchor = None;
    let mut tag = None;
    if let Some(r) = rest.strip_prefix(" &") {
        let n = r.find(' ').unwrap_or(r.len());
        anchor = Some(Bs::from(&r[..n]));
        rest = &r[n..];
    }
    if let Some(r) = rest.strip_prefix(" <") {
        // a tag cannot be told from what follows by its characters alone
        let n = if head == "=VAL" {
            ["> :", "> '", "> \"", "> |", "> >"].iter().filter_map(|p| r.find(p)).min()
        } else {
            r.strip_suffix('>').map(|x| x.len())
        };
        let n = n.ok_or_else(bad)?;
        tag = Some(Bs::from(&r[..n]));
        rest = &r[n + 1..];
    }
    let none = anchor.is_none() && tag.is_none();
    Ok(match (head, rest) {
        ("+STR", "") if none => Ev::StreamStart(0),
        ("-STR", "") if none => Ev::StreamEnd,
        ("+DOC", "" | " ---") if none => Ev::DocStart { ver: None, tags: vec![], implicit: rest.is_empty() },
        ("-DOC", "" | " ...") if none => Ev::DocEnd(rest.is_empty()),
        ("+SEQ", "") => Ev::SeqStart { implicit: tag.is_none(), anchor, tag, style: 1 },
        ("+MAP", "") => Ev::MapStart { implicit: tag.is_none(), anchor, tag, style: 1 },
        ("-SEQ", "") if none => Ev::SeqEnd,
        ("-MAP", "") if none => Ev::MapEnd,
        ("=ALI", r) if none => Ev::Alias(r.strip_prefix(" *").ok_or_else(bad)?.into()),
        ("=VAL", r) => {
            let mut cs = r.strip_prefix(' ').ok_or_else(bad)?.chars();
            let style = cs.next().and_then(|c| ":'\"|>".find(c)).ok_or_else(bad)? as u8 + 1;
            let mut v = String::new();
            while let Some(c) = cs.next() {
                v.push(if c != '\\' {
                    c
                } else {
                    match cs.next() {
                        Some('\\') => '\\',
                        Some('0') => '\0',
                        Some('b') => '\x08',
                        Some('n') => '\n',
                        Some('r') => '\r',
                        Some('t') => '\t',
                        _ => return Err(bad()),
                    }
                });
            }
            let bang = tag.as_ref().map_or(false, |t| t.s() == Some("!"));
            Ev::Scalar {
                pi: tag.is_none() && style == 1 || bang,
                qi: tag.is_none() && style != 1,
                anchor,
                tag,
                value: v.into(),
                style,
            }
        }
        _ => return Err(bad()),
    })
}

fn unnotation(out: &[u8]) -> Result<Vec<Ev>, String> {
    let s = std::str::from_utf8(out).map_err(|_| "the printed events are not UTF-8".to_string())?;
    let s = s.strip_suffix('\n').ok_or("the last line is not ended")?;
    s.split('\n').map(unline).collect()
}

fn rec(rng: &mut Rng, f: impl Fn(&mut Src)) -> Vec<u8> {
    let mut s = Src::record(rng);
    f(&mut s);
    s.into_tape()
}

// ------------------------------------------------------------------ P24

pub struct P24;

enum Input {
    Bytes(Vec<u8>),
    Missing,
}

fn inputs(s: &mut Src) -> Vec<Input> {
    if s.chance(1, 200) {
        return vec![];
    }
    let n = *s.pick(&[1, 1, 1, 2, 3]);
    (0..n)
        .map(|_| match s.below(24) {
            0 => Input::Missing,
            1..=3 => Input::Bytes(gen::bytes(s)),
            4 => {
                // more than one buffer of output or input
                let mut t = String::new();
                let k = s.range(1, 4);
                for _ in 0..k {
                    let w = gen::word(s);
                    t.push_str(&format!("- {}\n", w.replace('\n', " ").repeat(s.range(1, 900))));
                }
                Input::Bytes(t.into_bytes())
            }
            5 | 6 => {
                // every value, in a form that carries it
                let v = gen::value(s);
                let e = [
                    Ev::StreamStart(0),
                    Ev::DocStart { ver: None, tags: vec![], implicit: true },
                    Ev::Scalar { anchor: None, tag: None, value: v.into(), pi: true, qi: true, style: s.below(6) as u8 },
                    Ev::DocEnd(true),
                    Ev::StreamEnd,
                ];
                Input::Bytes(sut::emit(&EmCfg::default(), &e, true).bytes)
            }
            7..=9 => {
                let e = evgen::events(s, false);
                Input::Bytes(sut::emit(&EmCfg { unicode: s.chance(1, 2), ..EmCfg::default() }, &e, true).bytes)
            }
            10..=13 => Input::Bytes(gen::loose(s).into_bytes()),
            _ => Input::Bytes(gen::yaml(s).into_bytes()),
        })
        .collect()
}

impl Prop for P24 {
    fn id(&self) -> &'static str {
        "P24"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = up to three files given to run-parser-test-suite, run as a program; what it prints, its messages and its exit code are compared with the events and the error the library gives for each file, and what it prints is read back by an independent reader of the notation; non-trivial = at least one node event printed; distinct by the files' bytes"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (60_000, 20),
            Tier::Thorough => (2_500_000, 30),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        rec(rng, |s| {
            inputs(s);
        })
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let c = inputs(&mut Src::replay(tape));
        if c.is_empty() {
            ctx.class("no arguments");
            let r = run("run-parser-test-suite", &[]);
            ended(&r, 1)?;
            if !r.out.is_empty() || !r.err.contains("run-parser-test-suite") {
                return Err(format!("without arguments: stdout {} stderr {:?}", show(&r.out), r.err));
            }
            return Ok(());
        }
        let mut paths = vec![];
        let mut want: Vec<u8> = vec![];
        // what has to be printed at least: how far a text is read ahead
        // decides how many events precede an error of the reader
        let mut least = None;
        let mut evs: Vec<Ev> = vec![];
        let mut message: Option<String> = None;
        let mut missing = false;
        let mut done = false;
        let mut key = vec![];
        for (i, f) in c.iter().enumerate() {
            let b = match f {
                Input::Missing => {
                    paths.push(scratch().join("nothing here"));
                    if !done {
                        ctx.class("file that does not exist");
                        missing = true;
                        done = true;
                    }
                    continue;
                }
                Input::Bytes(b) => b,
            };
            key.extend(b);
            key.push(255);
            paths.push(file(i, " in.yaml", b));
            if done {
                ctx.class("file after a failure");
                continue;
            }
            let (mut e, mut err) = sut::events(b);
            if err.as_ref().map_or(false, |e| e.kind == Kind::Reader) {
                let mut p = libyaml_safer::Parser::new();
                p.set_input(std::io::BufReader::new(&b[..]));
                let (e2, err2) = sut::events_from(&mut p, sut::cap(b.len()));
                let n = e.len().min(e2.len());
                least = Some(want.len() + e[..n].iter().map(|x| line(&x.ev).len()).sum::<usize>());
                if e2.len() > n {
                    (e, err) = (e2, err2);
                }
            }
            for x in e {
                want.extend(line(&x.ev));
                ctx.nontrivial |= matches!(x.ev, Ev::Scalar { .. } | Ev::SeqStart { .. } | Ev::MapStart { .. } | Ev::Alias(_));
                evs.push(x.ev);
            }
            if let Some(e) = err {
                ctx.class("invalid file");
                message = Some(format!("Parse error: {}\n", e.display));
                done = true;
            } else {
                ctx.class("valid file");
            }
        }
        ctx.key = Some(fnv(&key));
        ctx.class(match want.len() {
            0..=1023 => "output below 1 KiB",
            1024..=8191 => "output below 8 KiB",
            _ => "output of 8 KiB or more",
        });
        let r = run("run-parser-test-suite", &paths);
        if missing {
            if r.code == Some(0) || r.code.is_none() {
                return Err(format!("a file that does not exist: exit code {:?}", r.code));
            }
        } else {
            ended(&r, message.is_some() as i32)?;
            if r.err != message.clone().unwrap_or_default() {
                return Err(format!("stderr is {:?}, not {:?}", short(&r.err), message));
            }
        }
        let enough = least.map_or(false, |l| r.out.len() >= l && want.starts_with(&r.out) && r.out.last().map_or(true, |b| *b == b'\n'));
        if r.out != want && !enough {
            let d = r.out.iter().zip(&want).take_while(|x| x.0 == x.1).count();
            let f = want[..d].iter().rposition(|b| *b == b'\n').map_or(0, |x| x + 1);
            return Err(format!(
                "printed {} instead of {}, from byte {f}",
                show(&r.out[f..]),
                show(&want[f..])
            ));
        }
        // the notation says it all
        if !want.is_empty() && r.out == want && evs.iter().all(|e| !odd_tag(e)) {
            let got = unnotation(&r.out)?;
            for (a, b) in evs.iter().zip(&got) {
                let same = match (a, b) {
                    (Ev::StreamStart(_), Ev::StreamStart(_)) => true,
                    (Ev::DocStart { implicit: x, .. }, Ev::DocStart { implicit: y, .. }) => x == y,
                    (Ev::SeqStart { anchor: a, tag: t, .. }, Ev::SeqStart { anchor: b, tag: u, .. }) => a == b && t == u,
                    (Ev::MapStart { anchor: a, tag: t, .. }, Ev::MapStart { anchor: b, tag: u, .. }) => a == b && t == u,
                    // whether it is implicit is not printed
                    (
                        Ev::Scalar { anchor: a, tag: t, value: v, style: s, .. },
                        Ev::Scalar { anchor: b, tag: u, value: w, style: r, .. },
                    ) => (a, t, v, s) == (b, u, w, r),
                    (a, b) => a == b,
                };
                if !same {
                    return Err(format!("{a:?} was printed as {b:?}"));
                }
            }
            if evs.len() != got.len() {
                return Err(format!("{} events, {} lines", evs.len(), got.len()));
            }
        }
        Ok(())
    }
    fn describe(&self, tape: &[u8]) -> String {
        let c = inputs(&mut Src::replay(tape));
        let f: Vec<String> = c
            .iter()
            .map(|i| match i {
                Input::Missing => "(no such file)".to_string(),
                Input::Bytes(b) => show(b),
            })
            .collect();
        format!("[{} files] run-parser-test-suite {}", c.len(), f.join(" "))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the events and errors of the library are right (P02, P15)".into()]
    }
}

/// A tag that the notation cannot carry: it is written between < and > in a
/// line as it is.
fn odd_tag(e: &Ev) -> bool {
    match e {
        Ev::Scalar { tag: Some(t), .. } | Ev::SeqStart { tag: Some(t), .. } | Ev::MapStart { tag: Some(t), .. } => {
            t.s().map_or(true, |s| s.contains(|c: char| c == ' ' || c.is_control()))
        }
        _ => false,
    }
}

// ------------------------------------------------------------------ P25

pub struct P25;

struct Job2 {
    /// events, and their text
    files: Vec<(Vec<Ev>, Vec<u8>)>,
    /// the last file holds a sequence the emitter may refuse
    wild: bool,
    /// line put into the last file
    junk: Option<String>,
}

/// Bring the events into what the notation can say.
fn notable(s: &mut Src, e: &mut [Ev]) {
    let tag = |t: &mut Option<Bs>| {
        if let Some(x) = t {
            let v: String = x.s().unwrap_or("t").chars().filter(|c| *c != ' ' && !c.is_control()).collect();
            *x = if v.is_empty() { "t".into() } else { v.into() };
        }
    };
    for e in e {
        match e {
            Ev::StreamStart(x) => *x = 1,
            Ev::DocStart { ver, tags, .. } => {
                *ver = None;
                tags.clear();
            }
            Ev::Scalar { anchor, tag: t, style, pi, qi, value, .. } => {
                tag(t);
                if let Some(a) = anchor {
                    if a.0.is_empty() || a.0.iter().any(|b| *b == b' ' || *b == b'\n') {
                        *anchor = None;
                    }
                }
                if s.chance(1, 8) {
                    // what looks like part of the notation
                    *value = s
                        .pick(&[
                            "&a", "a &b", "x&y", "<a>", "a <b> c", "a<b>c", "*a", "a *b", ":", " :", "'", "\"", "|", ">", " |a", " >a",
                            "a :b", "a 'b", "& <!> :x", "=VAL :a", "\\", "\\n", "\\\\n", "a\\", "--- ", " ...", "-STR", "\u{85}", "\r\n",
                            "\u{feff}", "\u{b}", "+DOC", "a\n+SEQ\n", " & ", "<", ">", "> :",
                        ])
                        .to_owned()
                        .into();
                }
                if *style == 0 {
                    *style = s.range(1, 5) as u8;
                }
                *pi = t.is_none();
                *qi = t.is_none();
            }
            Ev::SeqStart { anchor, tag: t, implicit, style } | Ev::MapStart { anchor, tag: t, implicit, style } => {
                tag(t);
                if let Some(a) = anchor {
                    if a.0.is_empty() || a.0.iter().any(|b| *b == b' ' || *b == b'\n') {
                        *anchor = None;
                    }
                }
                *implicit = false;
                *style = 1;
            }
            Ev::Alias(a) => {
                if a.0.is_empty() || a.0.iter().any(|b| *b == b' ' || *b == b'\n') {
                    *a = "a".into();
                }
            }
            _ => {}
        }
    }
}

fn job(s: &mut Src) -> Option<Job2> {
    if s.chance(1, 300) {
        return None;
    }
    let wild = s.chance(1, 5);
    let junk = (!wild && s.chance(1, 12)).then(|| {
        s.pick(&["", "STR", "=XXX :a", "+", "#", " +STR", "-", "=VA", "é", "+str", "-MAQ", "+SE"]).to_string()
    });
    let n = *s.pick(&[1, 1, 1, 2, 3]);
    let mut files = vec![];
    for i in 0..n {
        let mut e = if s.chance(1, 30) { evgen::big(s) } else { evgen::events(s, wild && i + 1 == n) };
        notable(s, &mut e);
        if wild && i + 1 == n && s.chance(2, 3) {
            evgen::disorder(s, &mut e);
            notable(s, &mut e);
        }
        if !(wild && i + 1 == n) {
            rt::sanitize(&mut e, false);
        }
        let mut lines: Vec<Vec<u8>> = e.iter().map(line).collect();
        if i + 1 == n {
            if let Some(j) = &junk {
                let at = s.below(lines.len() + 1);
                lines.insert(at, format!("{j}\n").into_bytes());
                e.truncate(at);
            }
        }
        let mut text = lines.concat();
        if s.chance(1, 8) && text.last() == Some(&b'\n') && junk.is_none() {
            text.pop();
        }
        files.push((e, text));
    }
    Some(Job2 { files, wild, junk })
}

impl Prop for P25 {
    fn id(&self) -> &'static str {
        "P25"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = up to three files of event lines given to run-emitter-test-suite, run as a program; what it writes is compared with what the emitter gives for the events of the lines, and is given to run-parser-test-suite, whose lines have to be the same events again; one case in five has a refused sequence, one in fifteen a line that is no event; non-trivial = at least one node event; distinct by the files' bytes"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (40_000, 20),
            Tier::Thorough => (1_500_000, 30),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        rec(rng, |s| {
            job(s);
        })
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let c = match job(&mut Src::replay(tape)) {
            None => {
                ctx.class("no arguments");
                let r = run("run-emitter-test-suite", &[]);
                ended(&r, 1)?;
                if !r.out.is_empty() || !r.err.contains("run-emitter-test-suite") {
                    return Err(format!("without arguments: stdout {} stderr {:?}", show(&r.out), r.err));
                }
                return Ok(());
            }
            Some(c) => c,
        };
        let cfg = EmCfg::default();
        let mut paths = vec![];
        let mut want = vec![];
        let mut outs = vec![];
        let mut message = None;
        let mut key = vec![];
        for (i, (e, t)) in c.files.iter().enumerate() {
            key.extend(t);
            key.push(255);
            paths.push(file(i, " test.event", t));
            let o = sut::emit(&cfg, e, false);
            want.extend(&o.bytes);
            ctx.nontrivial |= e.len() > 4;
            match o.err {
                Some((_, e)) => {
                    if !c.wild {
                        return Err(format!("the emitter refuses {e:?}"));
                    }
                    ctx.class("refused");
                    message = Some(format!("{}\n", e.display));
                }
                None => outs.push(o.bytes),
            }
        }
        if let (None, Some(j)) = (&message, &c.junk) {
            ctx.class("not an event");
            message = Some(j.clone());
        }
        ctx.key = Some(fnv(&key));
        let r = run("run-emitter-test-suite", &paths);
        ended(&r, message.is_some() as i32)?;
        match &message {
            Some(m) if c.junk.is_some() => {
                if r.err.is_empty() || !r.err.contains(m.as_str()) {
                    return Err(format!("stderr is {:?} for the line {m:?}", short(&r.err)));
                }
            }
            m => {
                if r.err != m.clone().unwrap_or_default() {
                    return Err(format!("stderr is {:?}, not {m:?}", short(&r.err)));
                }
            }
        }
        if r.out != want {
            let d = r.out.iter().zip(&want).take_while(|x| x.0 == x.1).count();
            let f = want[..d].iter().rposition(|b| *b == b'\n').map_or(0, |x| x + 1);
            return Err(format!("wrote {} instead of {}, from byte {f}", show(&r.out[f..]), show(&want[f..])));
        }
        if message.is_some() || c.wild {
            return Ok(());
        }
        ctx.class("there and back");
        let back: Vec<PathBuf> = outs.iter().enumerate().map(|(i, o)| file(i, " out.yaml", o)).collect();
        let r = run("run-parser-test-suite", &back);
        ended(&r, 0)?;
        let got = unnotation(&r.out)?;
        let sent: Vec<Ev> = c.files.iter().flat_map(|f| f.0.iter().cloned()).collect();
        rt::same_content(&sent, &got, false)
    }
    fn describe(&self, tape: &[u8]) -> String {
        match job(&mut Src::replay(tape)) {
            None => "[0 files] run-emitter-test-suite".into(),
            Some(c) => {
                let f: Vec<String> = c.files.iter().map(|f| show(&f.1)).collect();
                format!("[{} files] run-emitter-test-suite {}", f.len(), f.join(" "))
            }
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the emitter of the library is right (P04)".into(),
            "tags with blanks or control characters cannot be said in the notation and are not generated".into(),
        ]
    }
}
