//! Emitter properties: P04 bytes equal libyaml's, P05 round trip, P12 output
//! faults, P13 output encodings, P19 rejection, P21 settings.
use super::*;
use crate::evgen;
use crate::model::*;
use crate::{reference, rt, sut};

fn show_ev(c: &EmCfg, e: &[Ev]) -> String {
    short(&format!("{c:?} {e:?}"))
}

fn case(s: &mut Src, wild: bool, big_den: usize) -> (EmCfg, Vec<Ev>) {
    let c = evgen::cfg(s);
    let e = if big_den > 0 && s.chance(1, big_den) {
        evgen::big(s)
    } else {
        evgen::events(s, wild)
    };
    (c, e)
}

/// Settings changed while the events are emitted.
fn changes(s: &mut Src, events: usize) -> Vec<Later> {
    if !s.chance(1, 4) {
        return vec![];
    }
    (0..s.range(1, 4))
        .map(|_| {
            let at = s.below(events.max(1));
            let which = s.below(5) as u8;
            let value = match which {
                1 => *s.pick(&[2, 4, 9, 3, 5, 10, 1, 0, -1, 8]),
                2 => *s.pick(&[80, 20, 10, 5, 40, 1, 0, -1, 4, i32::MAX, i32::MIN, 260, 33_000, 66_000]),
                4 => s.below(4) as i32,
                _ => s.below(2) as i32,
            };
            Later { at, which, value }
        })
        .collect()
}

fn rec(rng: &mut Rng, f: impl FnOnce(&mut Src)) -> Vec<u8> {
    let mut s = Src::record(rng);
    f(&mut s);
    s.into_tape()
}

pub fn classify(c: &EmCfg, e: &[Ev], ctx: &mut Ctx) {
    if c.canonical {
        ctx.class("canonical");
    }
    if c.width.is_some() {
        ctx.class("width set");
    }
    if c.indent.is_some() {
        ctx.class("indent set");
    }
    if c.unicode {
        ctx.class("unicode");
    }
    let mut seen = [false; 16];
    let mut docs = 0;
    for ev in e {
        let (k, n) = match ev {
            Ev::DocStart { ver, tags, .. } => {
                docs += 1;
                if docs == 2 {
                    ctx.class("several documents");
                }
                if ver.is_some() || !tags.is_empty() {
                    (0, "directives")
                } else {
                    continue;
                }
            }
            Ev::Alias(_) => (1, "alias"),
            Ev::Scalar { tag: Some(_), .. } => (2, "tagged scalar"),
            Ev::SeqStart { tag: Some(_), .. } | Ev::MapStart { tag: Some(_), .. } => (3, "tagged collection"),
            Ev::Scalar { value, .. } if value.0.contains(&b'\n') => (4, "multi-line scalar"),
            Ev::Scalar { value, .. } if !value.0.is_ascii() => (5, "non-ASCII scalar"),
            Ev::Scalar { value, .. } if value.0.len() > 80 => (6, "long scalar"),
            Ev::Scalar { anchor: Some(_), .. } => (7, "anchor"),
            Ev::SeqStart { .. } => (8, "sequence"),
            Ev::MapStart { .. } => (9, "mapping"),
            _ => continue,
        };
        if !seen[k] {
            seen[k] = true;
            ctx.class(n);
        }
    }
}

/// Same bytes, and the same event refused, as the reference.
fn same_as_reference(c: &EmCfg, later: &[Later], e: &[Ev], ctx: &mut Ctx, full_err: bool) -> Verdict {
    // libyaml's final flush asserts when nothing was ever emitted
    let fl = matches!(e.first(), Some(Ev::StreamStart(_)));
    let a = sut::emit_changing(c, later, e, fl);
    let b = reference::emit(c, later, e, fl);
    if !later.is_empty() {
        ctx.class("settings changed on the way");
    }
    ctx.heavy = a.bytes.len() > 8000;
    if ctx.heavy {
        ctx.class("output over 8000 bytes");
    }
    ctx.key = Some(fnv(&a.bytes) ^ fnv(format!("{c:?}{}", e.len()).as_bytes()));
    let ae = a.err.as_ref().map(|x| (x.0, x.1.kind, if full_err { &x.1.problem[..] } else { "" }));
    let be = b.err.as_ref().map(|x| (x.0, x.1.kind, if full_err { &x.1.problem[..] } else { "" }));
    if ae != be {
        return Err(format!("emit failed with {ae:?}, libyaml with {be:?} (event index, kind, problem)"));
    }
    if let Some((_, x)) = &a.err {
        ctx.class(&format!("refused: {}", x.problem));
        if x.display != format!("Emitter error: {}", x.problem) {
            return Err(format!("error displayed as {:?}", x.display));
        }
    }
    let n = a.bytes.iter().zip(&b.bytes).take_while(|(x, y)| x == y).count();
    // What the refused event itself leaves behind is nobody's business, nor,
    // where nothing may be flushed, is how much was buffered.
    let prefix = a.err.is_some() && (n == a.bytes.len() || n == b.bytes.len());
    if a.bytes != b.bytes && !prefix {
        let win = |v: &[u8]| show(&v[n.saturating_sub(40).min(v.len())..(n + 60).min(v.len())]);
        return Err(format!(
            "output differs from libyaml at byte {n} of {}/{}: {} vs {}",
            a.bytes.len(),
            b.bytes.len(),
            win(&a.bytes),
            win(&b.bytes)
        ));
    }
    Ok(())
}

fn p04_case(s: &mut Src) -> (EmCfg, Vec<Later>, Vec<Ev>) {
    let (c, e) = case(s, false, 600);
    let l = changes(s, e.len());
    (c, l, e)
}

pub struct P04;
impl Prop for P04 {
    fn id(&self) -> &'static str {
        "P04"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = emitter settings, also some changed between the events, plus a generated well-formed event sequence (or an output longer than 16 KiB); compared byte for byte with libyaml; non-trivial = at least one node event was written; distinct by settings and output bytes"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (2_500_000, 30),
            Tier::Thorough => (70_000_000, 40),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        rec(rng, |s| {
            p04_case(s);
        })
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let (c, l, e) = p04_case(&mut Src::replay(tape));
        classify(&c, &e, ctx);
        ctx.nontrivial = e.len() > 4;
        same_as_reference(&c, &l, &e, ctx, false)
    }
    fn describe(&self, tape: &[u8]) -> String {
        let (c, l, e) = p04_case(&mut Src::replay(tape));
        format!("{l:?} {}", show_ev(&c, &e))
    }
}

fn wild_case(s: &mut Src) -> (EmCfg, Vec<Ev>) {
    let c = evgen::cfg(s);
    let mut e = if s.chance(1, 3000) { evgen::big(s) } else { evgen::events(s, true) };
    if s.chance(1, 2) {
        evgen::disorder(s, &mut e);
    }
    (c, e)
}

pub struct P19;
impl Prop for P19 {
    fn id(&self) -> &'static str {
        "P19"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = emitter settings plus an event sequence with ill-formed names, tags, directives or flags, or with events dropped, duplicated, swapped or inserted; refusal point and message compared with libyaml; non-trivial = an event was refused; distinct by settings and output bytes"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (2_500_000, 30),
            Tier::Thorough => (70_000_000, 40),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        rec(rng, |s| {
            wild_case(s);
        })
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let (c, e) = wild_case(&mut Src::replay(tape));
        let r = same_as_reference(&c, &[], &e, ctx, true);
        ctx.nontrivial = ctx.classes.keys().any(|k| k.starts_with("refused"));
        ctx.key = ctx.key.map(|k| k ^ fnv(format!("{e:?}").as_bytes()));
        if r.is_err() || !ctx.nontrivial {
            if r.is_ok() && ill_formed(&e) {
                // The emitter looks at most three events ahead.
                let mut e2 = e.clone();
                e2.extend(std::iter::repeat(Ev::StreamEnd).take(4));
                if sut::emit(&c, &e2, false).err.is_none() {
                    return Err("an ill-formed event sequence was accepted".into());
                }
            }
            return r;
        }
        // Going on after a refusal must not panic.
        let mut out = vec![];
        {
            let mut em = libyaml_safer::Emitter::new();
            em.set_output(&mut out);
            sut::configure(&mut em, &c);
            let mut first: Option<String> = None;
            for ev in &e {
                let x = em.emit(sut::build(ev)).err().map(|x| x.to_string());
                if first.is_some() && x != first {
                    return Err(format!("refused with {first:?}, then the next event gave {x:?}"));
                }
                first = x;
            }
        }
        Ok(())
    }
    fn describe(&self, tape: &[u8]) -> String {
        let (c, e) = wild_case(&mut Src::replay(tape));
        show_ev(&c, &e)
    }
}

/// Independent grammar check: stream and document framing, balanced
/// collections, complete pairs. (Trailing truncation is not an error.)
fn ill_formed(e: &[Ev]) -> bool {
    #[derive(PartialEq)]
    enum S {
        Start,
        Docs,
        Root,
        DocEnd,
        Done,
    }
    let mut st = S::Start;
    // true: mapping expecting a value
    let mut stack: Vec<(bool, bool)> = vec![];
    // An event is only looked at once the emitter has seen a few events past
    // it, so only sequences that end regularly are judged.
    if e.last() != Some(&Ev::StreamEnd) {
        return false;
    }
    for ev in e {
        match (&st, ev) {
            (S::Start, Ev::StreamStart(_)) => st = S::Docs,
            (S::Docs, Ev::DocStart { .. }) => st = S::Root,
            (S::Docs, Ev::StreamEnd) => st = S::Done,
            (S::DocEnd, Ev::DocEnd(_)) => st = S::Docs,
            (S::Root, Ev::Alias(_) | Ev::Scalar { .. } | Ev::SeqStart { .. } | Ev::MapStart { .. }) => {
                if let Some(t) = stack.last_mut() {
                    t.1 = t.0 && !t.1;
                }
                match ev {
                    Ev::SeqStart { .. } => stack.push((false, false)),
                    Ev::MapStart { .. } => stack.push((true, false)),
                    _ => {}
                }
                if stack.is_empty() {
                    st = S::DocEnd;
                }
            }
            (S::Root, Ev::SeqEnd) if stack.last().map_or(false, |t| !t.0) => {
                stack.pop();
                if stack.is_empty() {
                    st = S::DocEnd;
                }
            }
            (S::Root, Ev::MapEnd) if stack.last().map_or(false, |t| t.0 && !t.1) => {
                stack.pop();
                if stack.is_empty() {
                    st = S::DocEnd;
                }
            }
            _ => return true,
        }
    }
    false
}

/// Emit, read back, compare.
fn round_trip(c: &EmCfg, e: &[Ev], ctx: &mut Ctx) -> Result<Vec<EvM>, String> {
    let a = sut::emit(c, e, true);
    ctx.key = Some(fnv(&a.bytes) ^ fnv(format!("{c:?}").as_bytes()));
    ctx.heavy = a.bytes.len() > 8000;
    if let Some((i, x)) = &a.err {
        return Err(format!("event {i} refused: {}", x.display));
    }
    let (got, err) = sut::events(&a.bytes);
    if let Some(x) = err {
        return Err(format!("output {} does not parse: {}", show(&a.bytes), x.display));
    }
    let g: Vec<Ev> = got.iter().map(|x| x.ev.clone()).collect();
    rt::same_content(e, &g, c.canonical).map_err(|m| format!("{m}; output {}", show(&a.bytes)))?;
    Ok(got)
}

fn tame_case(s: &mut Src) -> (EmCfg, Vec<Ev>) {
    let mut c = evgen::cfg(s);
    c.enc = s.below(4) as u8;
    let e = if s.chance(1, 1500) { evgen::big(s) } else { evgen::events(s, false) };
    (c, e)
}

pub struct P05;
impl Prop for P05 {
    fn id(&self) -> &'static str {
        "P05"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = emitter settings plus a well-formed event sequence, generated or obtained by parsing generated text; emitted, parsed back and compared; non-trivial = at least one node event; distinct by settings and output bytes"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (2_500_000, 30),
            Tier::Thorough => (40_000_000, 40),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        rec(rng, |s| {
            rt_case(s);
        })
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let (c, e) = rt_case(&mut Src::replay(tape));
        if e.is_empty() {
            ctx.class("text that does not parse");
            return Ok(());
        }
        let mut e = e;
        if rt::sanitize(&mut e, c.width.map_or(false, |w| w < 0)) {
            ctx.class("adjusted to libyaml's re-readable domain");
        }
        classify(&c, &e, ctx);
        ctx.nontrivial = e.len() > 4;
        round_trip(&c, &e, ctx).map(|_| ())
    }
    fn describe(&self, tape: &[u8]) -> String {
        let (c, e) = rt_case(&mut Src::replay(tape));
        show_ev(&c, &e)
    }
}

fn rt_case(s: &mut Src) -> (EmCfg, Vec<Ev>) {
    if s.chance(1, 3) {
        let mut c = evgen::cfg(s);
        c.enc = s.below(4) as u8;
        let t = if s.chance(1, 2) { gen::loose(s) } else { gen::yaml(s) };
        let (e, err) = sut::events(t.as_bytes());
        if err.is_some() {
            return (c, vec![]);
        }
        (c, e.into_iter().map(|e| e.ev).map(|e| if let Ev::StreamStart(_) = e { Ev::StreamStart(0) } else { e }).collect())
    } else {
        tame_case(s)
    }
}

// ------------------------------------------------------------------ P21

#[derive(Clone, Copy, PartialEq)]
enum Pos {
    Root,
    Item,
    Key,
    Value,
}

/// (position, inside a flow collection as written) of every node event.
fn positions(e: &[EvM]) -> Vec<Option<(Pos, bool)>> {
    let mut stack: Vec<(bool, bool, bool)> = vec![]; // (map, expecting value, flow)
    e.iter()
        .map(|m| match &m.ev {
            Ev::Alias(_) | Ev::Scalar { .. } | Ev::SeqStart { .. } | Ev::MapStart { .. } => {
                let flow = stack.last().map_or(false, |t| t.2);
                let p = match stack.last_mut() {
                    None => Pos::Root,
                    Some((false, _, _)) => Pos::Item,
                    Some(t) => {
                        t.1 = !t.1;
                        if t.1 {
                            Pos::Key
                        } else {
                            Pos::Value
                        }
                    }
                };
                match &m.ev {
                    Ev::SeqStart { style, .. } => stack.push((false, false, flow || *style == 2)),
                    Ev::MapStart { style, .. } => stack.push((true, false, flow || *style == 2)),
                    _ => {}
                }
                Some((p, flow))
            }
            Ev::SeqEnd | Ev::MapEnd => {
                stack.pop();
                None
            }
            _ => None,
        })
        .collect()
}

fn settings_case(s: &mut Src) -> (EmCfg, Vec<Ev>, bool) {
    let words = s.chance(1, 4);
    let mut c = evgen::cfg(s);
    if !words {
        let e = if s.chance(1, 2000) { evgen::big(s) } else { evgen::events(s, false) };
        return (c, e, false);
    }
    // plain words, to see where lines are folded
    c.canonical = false;
    let long = s.chance(1, 60);
    if long && s.chance(2, 3) {
        c.width = Some((*s.pick(&[130usize, 258, 1026, 4098, 16386, 32770, 65538]) - s.below(5)) as i32 * s.range(1, 2) as i32);
    }
    let mut e = vec![
        Ev::StreamStart(0),
        Ev::DocStart { ver: None, tags: vec![], implicit: true },
    ];
    let k = s.below(3);
    match k {
        1 => e.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: 1 }),
        2 => e.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: 1 }),
        _ => {}
    }
    let n = if k == 0 { 1 } else { s.range(1, 3) };
    for i in 0..n {
        if k == 2 {
            e.push(Ev::Scalar { anchor: None, tag: None, value: format!("k{i}").into(), pi: true, qi: true, style: 1 });
        }
        let style = *s.pick(&[1u8, 2, 3, 5, 0]);
        let nw = s.range(1, 40);
        let v: Vec<String> = (0..nw).map(|_| gen::word(s)).collect();
        let mut v = v.join(" ");
        if long {
            let n = (c.width.unwrap_or(0).clamp(80, 70_000) as usize * s.range(1, 3)) / v.len().max(1) + 1;
            v = vec![v; n].join(" ");
        }
        e.push(Ev::Scalar { anchor: None, tag: None, value: v.into(), pi: true, qi: true, style });
    }
    match k {
        1 => e.push(Ev::SeqEnd),
        2 => e.push(Ev::MapEnd),
        _ => {}
    }
    e.push(Ev::DocEnd(true));
    e.push(Ev::StreamEnd);
    (c, e, true)
}

fn eff_indent(c: &EmCfg) -> u64 {
    match c.indent {
        Some(i) if (2..=9).contains(&i) => i as u64,
        _ => 2,
    }
}
fn eff_width(c: &EmCfg) -> u64 {
    // unset and 0 both mean the default
    let w = c.width.unwrap_or(0);
    if w < 0 {
        return u64::MAX;
    }
    if w as u64 <= eff_indent(c) * 2 {
        80
    } else {
        w as u64
    }
}

fn settings(c: &EmCfg, e: &[Ev], words: bool, ctx: &mut Ctx) -> Verdict {
    let a = sut::emit(c, e, true);
    if let Some((i, x)) = &a.err {
        return Err(format!("event {i} refused: {}", x.display));
    }
    let text = String::from_utf8(a.bytes.clone()).map_err(|_| "output is not UTF-8".to_string())?;
    let fail = |m: String| Err(format!("{m}; output {}", show(text.as_bytes())));
    if !c.unicode {
        if let Some(x) = text.chars().find(|x| !x.is_ascii()) {
            return fail(format!("non-ASCII character {x:?} although unicode output is off"));
        }
    }
    let (mut cr, mut ln, mut crln) = (0, 0, 0);
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'\r' if b.get(i + 1) == Some(&b'\n') => {
                crln += 1;
                i += 1;
            }
            b'\r' => cr += 1,
            b'\n' => ln += 1,
            _ => {}
        }
        i += 1;
    }
    let bad = match c.brk {
        1 => ln + crln,
        3 => cr + ln,
        _ => cr + crln,
    };
    if bad > 0 {
        return fail(format!("line breaks other than the chosen one: {cr} CR, {ln} LF, {crln} CR LF"));
    }
    let got = round_trip(c, e, ctx)?;
    if c.canonical {
        // every key is introduced by its indicator
        for t in sut::tokens(text.as_bytes()).0 {
            if t.t == Tok::Key && t.s == t.e {
                return fail(format!("canonical output with a key without indicator at offset {}", t.s.i));
            }
        }
    }
    let pos = positions(&got);
    let ind = eff_indent(c);
    let mut collections_empty = vec![false; got.len()];
    for i in 0..got.len().saturating_sub(1) {
        collections_empty[i] = matches!(
            (&got[i].ev, &got[i + 1].ev),
            (Ev::SeqStart { .. }, Ev::SeqEnd) | (Ev::MapStart { .. }, Ev::MapEnd)
        );
    }
    for (i, (sent, read)) in e.iter().zip(&got).enumerate() {
        match (sent, &read.ev) {
            (Ev::DocStart { .. }, Ev::DocStart { implicit, .. }) if c.canonical && *implicit => {
                return fail("canonical output without an explicit document start".into());
            }
            (Ev::Scalar { style, value, pi, qi, tag, .. }, Ev::Scalar { style: s2, .. }) => {
                let (p, flow) = pos[i].expect("node");
                if c.canonical && *s2 != 3 {
                    return fail(format!("event {i}: canonical output with scalar style {s2}"));
                }
                if *style == 3 && *s2 != 3 {
                    return fail(format!("event {i}: double-quoted style not honoured ({s2})"));
                }
                if c.canonical {
                    continue;
                }
                let v = value.s().expect("utf8");
                let simple = !v.is_empty() && v.bytes().all(|b| b.is_ascii_lowercase());
                if simple && *pi && *style <= 1 && *s2 != 1 {
                    return fail(format!("event {i}: plain style not honoured for {v:?} ({s2})"));
                }
                let _ = (qi, tag);
                if simple && *style == 2 && *s2 != 2 {
                    return fail(format!("event {i}: single-quoted style not honoured for {v:?} ({s2})"));
                }
                let block_text = !v.is_empty()
                    && v.split('\n').all(|l| {
                        l.is_empty()
                            || l.bytes().all(|b| (0x20..0x7f).contains(&b))
                                && !l.starts_with(' ')
                                && !l.ends_with(' ')
                    })
                    && !v.starts_with('\n');
                if block_text && *style >= 4 && !flow && p != Pos::Key && s2 != style {
                    return fail(format!("event {i}: block scalar style {style} not honoured for {v:?} ({s2})"));
                }
                if c.unicode && !v.is_empty() && v.chars().all(|x| matches!(x, '\u{a1}'..='\u{2fff}' | '中') && !matches!(x, '\u{2028}' | '\u{2029}')) && !text.contains(v) && v.chars().count() < 5 {
                    return fail(format!("event {i}: {v:?} escaped although unicode output is on"));
                }
            }
            (Ev::SeqStart { style, .. }, Ev::SeqStart { style: s2, .. })
            | (Ev::MapStart { style, .. }, Ev::MapStart { style: s2, .. }) => {
                let (_, flow) = pos[i].expect("node");
                let want_flow = c.canonical || *style == 2 || flow || collections_empty[i];
                if want_flow != (*s2 == 2) {
                    return fail(format!("event {i}: collection style {style} written as {s2}"));
                }
                // without properties, a block collection starts at its first
                // indicator or key
                if *s2 == 1 && no_props(&read.ev) {
                    ctx.class("indentation checked");
                    if read.s.c % ind != 0 {
                        return fail(format!("event {i}: block collection at column {}, indent {ind}", read.s.c));
                    }
                }
            }
            _ => {}
        }
    }
    if words {
        ctx.class("folding checked");
        let w = eff_width(c);
        let lines: Vec<&str> = text.split(|x| x == '\n' || x == '\r').filter(|l| !l.is_empty()).collect();
        for (i, l) in lines.iter().enumerate() {
            let body = l.trim_start_matches(|x| x == ' ' || x == '-');
            let key = body.find(": ").map_or(0, |k| k + 2);
            let off = l.len() - body.len() + key;
            if let Some(k) = l[off..].rfind(' ') {
                if (off + k) as u64 > w {
                    return fail(format!("line {i} goes on past width {w}"));
                }
            }
            // continued on the next line: the next line does not start an entry
            let cont = lines.get(i + 1).map_or(false, |n| {
                let first = n.trim_start();
                !(n.starts_with("- ") || n.starts_with('k') && first.contains(": ") || n.starts_with("k"))
            });
            let head = l.ends_with('>') || l.ends_with(">-") || l.ends_with(">+");
            if cont && !head && l.len() as u64 <= w {
                return fail(format!("line {i} is folded before width {w}"));
            }
        }
    }
    Ok(())
}

fn no_props(e: &Ev) -> bool {
    match e {
        Ev::SeqStart { anchor, tag, .. } | Ev::MapStart { anchor, tag, .. } => anchor.is_none() && tag.is_none(),
        _ => false,
    }
}

/// Two documents, and the settings changed between them: the first is written
/// as under the first settings, the second as under the others.
fn changed_case(s: &mut Src) -> Option<(EmCfg, EmCfg, Vec<Ev>, usize)> {
    let mut c = evgen::cfg(s);
    c.enc = s.below(4) as u8;
    let mut e = evgen::events(s, false);
    let mut d = EmCfg { enc: c.enc, ..c };
    for _ in 0..s.range(1, 3) {
        match s.below(5) {
            0 => d.canonical = !d.canonical,
            1 => d.indent = Some(s.range(2, 9) as i32),
            2 => d.width = Some(*s.pick(&[20, 30, 80, 200, 1000])),
            3 => d.unicode = !d.unicode,
            _ => d.brk = s.range(1, 3) as u8,
        }
    }
    let ends: Vec<usize> = (0..e.len()).filter(|i| matches!(e[*i], Ev::DocEnd(_))).collect();
    if ends.len() < 2 {
        return None;
    }
    let k = ends[s.below(ends.len() - 1)];
    // an explicit end leaves nothing of the first document open
    e[k] = Ev::DocEnd(false);
    Some((c, d, e, k + 1))
}

fn changed(c: &EmCfg, d: &EmCfg, e: &[Ev], k: usize, ctx: &mut Ctx) -> Verdict {
    let mut later = vec![];
    if c.canonical != d.canonical {
        later.push(Later { at: k, which: 0, value: d.canonical as i32 });
    }
    if c.indent != d.indent {
        later.push(Later { at: k, which: 1, value: d.indent.unwrap_or(2) });
    }
    if c.width != d.width {
        later.push(Later { at: k, which: 2, value: d.width.unwrap_or(80) });
    }
    if c.unicode != d.unicode {
        later.push(Later { at: k, which: 3, value: d.unicode as i32 });
    }
    if c.brk != d.brk {
        later.push(Later { at: k, which: 4, value: d.brk as i32 });
    }
    let width = if c.width == d.width { eff_width(c) } else { d.width.map_or(80, |w| w as u64) };
    if width != eff_width(d) {
        // the default width is only chosen at the start of the stream
        return Ok(());
    }
    let outputs = [
        sut::emit_changing(c, &later, e, true),
        sut::emit(c, &e[..k], true),
        sut::emit(d, &e[..k], true),
        sut::emit(d, e, true),
    ];
    for o in &outputs {
        if let Some((i, x)) = &o.err {
            return Err(format!("event {i} refused: {}", x.display));
        }
    }
    let [got, first, skip, all] = outputs.map(|o| o.bytes);
    ctx.key = Some(fnv(&got) ^ fnv(format!("{c:?}{d:?}").as_bytes()));
    ctx.nontrivial = true;
    ctx.class("settings changed between documents");
    let mut want = first.clone();
    want.extend(&all[skip.len()..]);
    if got != want {
        return Err(format!(
            "settings {c:?} changed to {d:?} before event {k}: written {}, expected {}",
            show(&got),
            show(&want)
        ));
    }
    Ok(())
}

pub struct P21;
impl Prop for P21 {
    fn id(&self) -> &'static str {
        "P21"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = emitter settings plus a well-formed event sequence (a quarter: sequences of plain words, to observe line folding; a quarter: settings changed between two documents); the output is inspected for ASCII-ness, line breaks, styles, indentation and folding, and read back; non-trivial = at least one node event; distinct by settings and output bytes"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (1_500_000, 30),
            Tier::Thorough => (40_000_000, 40),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        rec(rng, |s| {
            if s.chance(1, 4) {
                changed_case(s);
            } else {
                settings_case(s);
            }
        })
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let mut s = Src::replay(tape);
        if s.chance(1, 4) {
            let Some((c, d, e, k)) = changed_case(&mut s) else {
                return Ok(());
            };
            return changed(&c, &d, &e, k, ctx);
        }
        let (c, mut e, words) = settings_case(&mut s);
        rt::sanitize(&mut e, c.width.map_or(false, |w| w < 0));
        classify(&c, &e, ctx);
        ctx.nontrivial = e.len() > 4;
        settings(&c, &e, words, ctx)
    }
    fn describe(&self, tape: &[u8]) -> String {
        let mut s = Src::replay(tape);
        if s.chance(1, 4) {
            return format!("{:?}", changed_case(&mut s));
        }
        let (c, e, _) = settings_case(&mut s);
        show_ev(&c, &e)
    }
}
