//! P22: documents of a stream do not influence each other, and layout outside
//! the content changes nothing but positions. Metamorphic relations between
//! inputs built from the same parts.
use super::p20;
use super::*;
use crate::model::*;
use crate::{sut, text};

/// One part of a stream: text that ends with a line break.
fn part(s: &mut Src) -> String {
    let mut t = match if s.chance(1, 200) { 8 } else { s.below(8) } {
        8 => gen::limits(s),
        0..=3 => p20::stream(s).o,
        4 => gen::graph(s),
        5 => {
            let mut t = gen::loose(s);
            if s.chance(1, 2) {
                gen::corrupt(s, &mut t);
            }
            t
        }
        6 => gen::soup(s, 10),
        _ => gen::loose(s),
    };
    // Characters that are no text are judged by P10.
    t.retain(|c| text::allowed(c as u32) && c != '\u{feff}');
    // A carriage return at the end would join with a line feed put after it.
    if t.ends_with('\r') {
        t.push('\n');
    }
    if !t.ends_with(['\n', '\r', '\u{85}', '\u{2028}', '\u{2029}']) {
        t.push('\n');
    }
    t
}

fn lines_of(t: &str) -> u64 {
    let cs: Vec<char> = t.chars().collect();
    text::positions(&cs).last().map_or(0, |m| m.l)
}

#[derive(Clone, PartialEq, Debug)]
struct Seen {
    toks: Vec<TokM>,
    terr: Option<ErrN>,
    evs: Vec<EvM>,
    eerr: Option<ErrN>,
    docs: Vec<DocN>,
    derr: Option<ErrN>,
}

fn read(t: &str) -> Seen {
    let (toks, terr) = sut::tokens(t.as_bytes());
    let (evs, eerr) = sut::events(t.as_bytes());
    let (docs, derr) = sut::docs(t.as_bytes());
    Seen { toks, terr, evs, eerr, docs, derr }
}

fn valid(x: &Seen) -> bool {
    x.terr.is_none() && x.eerr.is_none() && x.derr.is_none()
}

/// Apply a change to every position.
fn moved(x: &Seen, f: &dyn Fn(Mk) -> Mk) -> Seen {
    let mut y = x.clone();
    for t in &mut y.toks {
        t.s = f(t.s);
        t.e = f(t.e);
    }
    for t in &mut y.evs {
        t.s = f(t.s);
        t.e = f(t.e);
    }
    for d in &mut y.docs {
        d.s = f(d.s);
        d.e = f(d.e);
        for n in &mut d.nodes {
            n.s = f(n.s);
            n.e = f(n.e);
        }
    }
    for e in [&mut y.terr, &mut y.eerr, &mut y.derr].into_iter().flatten() {
        e.pmark = e.pmark.map(f);
        e.cmark = e.cmark.map(f);
        e.display.clear();
    }
    y
}

fn list<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Verdict {
    for k in 0..got.len().max(want.len()) {
        if got.get(k) != want.get(k) {
            return Err(format!("{what} {k} is {:?} instead of {:?}", got.get(k), want.get(k)));
        }
    }
    Ok(())
}

fn same(how: &str, got: &Seen, want: &Seen) -> Verdict {
    let f = || {
        list("token", &got.toks, &want.toks)?;
        list("event", &got.evs, &want.evs)?;
        list("document", &got.docs, &want.docs)?;
        for (w, a, b) in [("scanner", &got.terr, &want.terr), ("parser", &got.eerr, &want.eerr), ("loader", &got.derr, &want.derr)] {
            if a != b {
                return Err(format!("the {w}'s error is {a:?} instead of {b:?}"));
            }
        }
        Ok(())
    };
    f().map_err(|e: String| format!("{how}: {e}"))
}

fn no_marks(x: &Seen) -> Seen {
    moved(x, &|_| Mk::default())
}

struct Case {
    kind: usize,
    a: String,
    b: String,
    c: String,
    at: usize,
    brk: usize,
}

fn case_of(s: &mut Src) -> Case {
    let kind = s.below(6);
    let mut a = part(s);
    let mut b = if kind == 0 { part(s) } else { String::new() };
    if kind == 0 && s.chance(1, 3) {
        // refer to what only the first part defines
        if s.chance(1, 100) {
            // among many things
            let n = *s.pick(&gen::LENGTHS[..13]) - s.below(3);
            a = (0..n).map(|k| format!("- &a{k} b\n")).collect();
            b.truncate(0);
        }
        b = format!("--- {}{b}", s.pick(&["*a0 ", "*n0 ", "!e!x ", "!x-1!y ", "[*a0 , *n0 ] ", "!a ", "!!b ", "*A-0 "]));
    }
    let mut c = String::new();
    if kind != 0 {
        for _ in 0..s.range(1, 3) {
            let top = !c.contains('#');
            match s.below(6) {
                0 => {}
                // a byte order mark may begin any line (not directly after a
                // plain scalar, which would go on with it)
                5 if !top => c.push_str(s.pick(&["\u{feff}", "\u{feff}# c", "\u{feff}  # c"])),
                5 => c.push_str("# b"),
                1 => c.push_str(&" ".repeat(s.range(1, 5))),
                2 => c.push_str(s.pick(&["# c", "#", "# - a: [", "#é☺\t'\""])),
                3 => c.push_str(s.pick(&["   # x", " #", "      # \"y"])),
                _ => c.push_str("# c"),
            }
            if s.chance(1, 150) {
                let n = *s.pick(gen::LENGTHS) - s.below(3);
                let x = match c.rsplit(['\n', '\u{85}', '\u{2028}']).next().is_some_and(|l| l.contains('#')) {
                    false => " ",
                    true => s.pick(&["x", " ", "é", "# "]),
                };
                c.push_str(&x.repeat(n));
            }
            c.push_str(s.pick(&["\n", "\n", "\n", "\r\n", "\u{85}", "\u{2028}"]));
        }
    }
    if kind != 0 && s.chance(1, 250) {
        // (as many lines)
        let n = *s.pick(gen::LENGTHS) - s.below(3);
        c.push_str(&s.pick(&["\n", " \n", "# c\n"]).repeat(n.min(4100)));
    }
    Case {
        kind,
        a,
        b,
        c,
        at: s.below(60),
        brk: s.below(3),
    }
}

/// Documents of one part followed by those of another.
fn concat(c: &Case, ctx: &mut Ctx) -> Verdict {
    let a = read(&c.a);
    if !valid(&a) || a.docs.is_empty() {
        ctx.class("skipped: first part is not a valid stream of documents");
        return Ok(());
    }
    // The second part has to begin with a marker or a directive.
    let b0 = read(&c.b);
    let starts = b0.toks.iter().find(|t| !matches!(t.t, Tok::StreamStart(_)));
    let mut b = c.b.clone();
    if !matches!(starts.map(|t| &t.t), Some(Tok::DocStart | Tok::Version(..) | Tok::TagDir(..))) {
        b.insert_str(0, "---\n");
    }
    let b0 = read(&b);
    ctx.class(if valid(&b0) { "documents followed by documents" } else { "documents followed by an error" });
    // The first part is ended by a marker, or by the "---" of the second.
    let open = c.at % 2 == 0 && b.starts_with("---");
    if open {
        ctx.class("ended by the next document");
    }
    let joint = if open { c.a.clone() } else { format!("{}...\n", c.a) };
    let head = read(&joint);
    if !valid(&head) {
        return Err(format!("valid alone, but not with a document end marker after it: {:?}", head.eerr.or(head.terr)));
    }
    let whole = read(&format!("{joint}{b}"));
    let (di, dl) = (joint.len() as u64, lines_of(&joint));
    let shift = |m: Mk| Mk { i: m.i + di, l: m.l + dl, c: m.c };
    let tail = moved(&b0, &shift);
    let mut want = moved(&head, &|m| m);
    // everything of the first but the end of its stream, then everything of
    // the second but the start of its stream
    let cut = |v: &mut Vec<TokM>| {
        if matches!(v.last(), Some(TokM { t: Tok::StreamEnd, .. })) {
            v.pop();
        }
    };
    cut(&mut want.toks);
    want.toks.extend(tail.toks.into_iter().skip(1));
    want.evs.pop();
    want.evs.extend(tail.evs.into_iter().skip(1));
    want.docs.extend(tail.docs);
    want.terr = tail.terr;
    want.eerr = tail.eerr;
    want.derr = tail.derr;
    let whole = moved(&whole, &|m| m);
    // The scanner never looks back.
    same("after other documents", &whole, &want)?;
    // and the end marker is all that the first part gained
    let mut x = no_marks(&head);
    let y = no_marks(&a);
    if let (Some(Ev::DocEnd(p)), Some(Ev::DocEnd(q))) = (
        x.evs.iter_mut().rev().nth(1).map(|e| &mut e.ev),
        y.evs.iter().rev().nth(1).map(|e| &e.ev),
    ) {
        *p = *q;
    }
    if let (Some(p), Some(q)) = (x.docs.last_mut(), y.docs.last()) {
        p.end_implicit = q.end_implicit;
    }
    list("event", &x.evs, &y.evs).map_err(|e| format!("with a document end marker: {e}"))?;
    list("document", &x.docs, &y.docs).map_err(|e| format!("with a document end marker: {e}"))
}

/// Comments and blank lines before everything.
fn prefix(c: &Case, ctx: &mut Ctx) -> Verdict {
    ctx.class("layout before the stream");
    let a = read(&c.a);
    let (di, dl) = (c.c.len() as u64, lines_of(&c.c));
    let mut want = moved(&a, &|m| Mk { i: m.i + di, l: m.l + dl, c: m.c });
    want.toks[0].s = Mk::default();
    want.toks[0].e = Mk::default();
    want.evs[0].s = Mk::default();
    want.evs[0].e = Mk::default();
    let got = moved(&read(&format!("{}{}", c.c, c.a)), &|m| m);
    same("with comments or blank lines in front", &got, &want)
}

/// Another kind of line break.
fn breaks(c: &Case, ctx: &mut Ctx) -> Verdict {
    let t: String = c.a.chars().filter(|c| *c != '\r').collect();
    let (w, how) = [("\r\n", "CR LF"), ("\r", "CR"), ("\u{85}", "NEL")][c.brk];
    ctx.class(how);
    let u = t.replace('\n', w);
    // byte offsets of the one in the other
    let mut map = vec![0u64; t.len() + 1];
    let mut k = 0;
    for (i, ch) in t.char_indices() {
        map[i] = k;
        k += if ch == '\n' { w.len() } else { ch.len_utf8() } as u64;
    }
    map[t.len()] = k;
    let want = moved(&read(&t), &|m| Mk { i: map.get(m.i as usize).copied().unwrap_or(u64::MAX), l: m.l, c: m.c });
    let got = moved(&read(&u), &|m| m);
    same(&format!("with {how} as line break"), &got, &want)
}

/// Lines inserted where a token begins a line or the stream ends.
fn inside(c: &Case, ctx: &mut Ctx) -> Verdict {
    let a = read(&c.a);
    if !valid(&a) {
        ctx.class("skipped: not a valid stream");
        return Ok(());
    }
    // starts of lines that lie in no token and do not follow a block scalar
    let chars: Vec<char> = c.a.chars().collect();
    let pos = text::positions(&chars);
    let mut starts = vec![];
    let mut b = 0u64;
    for (k, p) in pos.iter().enumerate() {
        // (a line feed put after a carriage return would be part of it)
        if p.c == 0 && p.l > 0 && chars[k - 1] != '\r' {
            let inner = a.toks.iter().any(|t| t.s.i < b && b < t.e.i);
            let before = a.toks.iter().rev().find(|t| t.e.i <= b && t.e > t.s);
            let block = matches!(before, Some(TokM { t: Tok::Scalar(_, 4 | 5), .. }));
            // A tab may separate tokens in a line but not begin one, unless the
            // scalar before it skipped it.
            let tab = chars[k..].iter().take_while(|c| matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}')).any(|c| *c == '\t');
            if !inner && !block && !tab {
                starts.push((b, p.l));
            }
        }
        b += chars.get(k).map_or(0, |c| c.len_utf8() as u64);
    }
    if starts.is_empty() {
        ctx.class("skipped: no place for a line");
        return Ok(());
    }
    ctx.class("layout between tokens");
    let (at, line) = starts[c.at % starts.len()];
    let (di, dl) = (c.c.len() as u64, lines_of(&c.c));
    let mut u = c.a.clone();
    u.insert_str(at as usize, &c.c);
    let want = moved(&a, &|m| {
        if m.i > at || (m.i == at && m.l >= line) {
            Mk { i: m.i + di, l: m.l + dl, c: m.c }
        } else {
            m
        }
    });
    let got = moved(&read(&u), &|m| m);
    same(&format!("with lines inserted at offset {at}"), &got, &want)
}

/// Something after everything.
fn suffix(c: &Case, ctx: &mut Ctx) -> Verdict {
    let a = read(&c.a);
    if !valid(&a) {
        ctx.class("skipped: not a valid stream");
        return Ok(());
    }
    let last = a.toks.iter().rev().find(|t| t.e > t.s);
    let what = if matches!(last, Some(TokM { t: Tok::Scalar(_, 4 | 5), .. })) { "# c\n" } else { &c.c };
    ctx.class("layout after the stream");
    let got = no_marks(&read(&format!("{}{what}", c.a)));
    same("with comments or blank lines at the end", &got, &no_marks(&a))
}

/// A marker in front of a document that has none, and a byte order mark.
fn marker(c: &Case, ctx: &mut Ctx) -> Verdict {
    let a = read(&c.a);
    let mut want = a.clone();
    let u = if c.brk == 0 {
        ctx.class("byte order mark");
        format!("\u{feff}{}", c.a)
    } else {
        let first = a.evs.get(1).map(|e| &e.ev);
        let second = a.toks.get(1).map(|t| &t.t);
        if !matches!(first, Some(Ev::DocStart { implicit: true, .. })) || matches!(second, Some(Tok::DocEnd)) {
            ctx.class("skipped: begins with a marker");
            return Ok(());
        }
        ctx.class("document marker");
        if let Some(Ev::DocStart { implicit, .. }) = want.evs.get_mut(1).map(|e| &mut e.ev) {
            *implicit = false;
        }
        if let Some(d) = want.docs.get_mut(0) {
            d.start_implicit = false;
        }
        want.toks.insert(1, TokM { t: Tok::DocStart, s: Mk::default(), e: Mk::default() });
        format!("---\n{}", c.a)
    };
    let got = read(&u);
    if c.brk == 0 {
        return same("with a byte order mark", &got, &a);
    }
    same("with a document marker in front", &no_marks(&got), &no_marks(&want))
}

pub struct P22;
impl Prop for P22 {
    fn id(&self) -> &'static str {
        "P22"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = a generated stream (valid or not) and one change: other documents in front, comments or blank lines before, between or after tokens, another line break, a byte order mark, a document marker; tokens, events, documents and errors compared with those of the unchanged stream, positions moved accordingly; non-trivial = the comparison was made on a stream with a node; distinct by both texts and the change"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (1_000_000, 30),
            Tier::Thorough => (25_000_000, 40),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        let mut s = Src::record(rng);
        case_of(&mut s);
        s.into_tape()
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let c = case_of(&mut Src::replay(tape));
        ctx.key = Some(fnv(c.a.as_bytes()) ^ fnv(c.b.as_bytes()).rotate_left(9) ^ fnv(c.c.as_bytes()).rotate_left(21) ^ (c.kind * 60 + c.at) as u64);
        ctx.heavy = c.a.len() + c.b.len() > 6000;
        let r = match c.kind {
            0 => concat(&c, ctx),
            1 => prefix(&c, ctx),
            2 => breaks(&c, ctx),
            3 => inside(&c, ctx),
            4 => suffix(&c, ctx),
            _ => marker(&c, ctx),
        };
        ctx.nontrivial = c.a.len() > 2 && !ctx.classes.keys().any(|k| k.starts_with("skipped"));
        r
    }
    fn describe(&self, tape: &[u8]) -> String {
        let c = case_of(&mut Src::replay(tape));
        format!(
            "{} of {}; other part {}; layout {}; place {}; {}",
            ["concatenation", "prefix", "line breaks", "insertion", "suffix", "marker"][c.kind],
            show(c.a.as_bytes()),
            show(c.b.as_bytes()),
            show(c.c.as_bytes()),
            c.at,
            c.brk
        )
    }
}
