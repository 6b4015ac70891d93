//! P23: tags and directives against an independent resolver. Texts are
//! generated together with what their directives declare and what each tag
//! has to become, or with the error that has to be reported.
use super::*;
use crate::model::*;
use crate::sut;

#[derive(Clone, Debug, PartialEq)]
struct Bad {
    kind: Kind,
    problem: &'static str,
    /// offset of the mark, where it is known
    at: Option<u64>,
}

struct W {
    o: String,
    /// what has to be read, up to `bad`
    ev: Vec<Ev>,
    bad: Option<Bad>,
    /// tags and directives in the order they are written
    toks: Vec<Tok>,
    /// declared in this document
    declared: Vec<(String, String)>,
    /// tags of the nodes of this document, defaults applied
    node_tags: Vec<String>,
    docs: Vec<(Option<(i32, i32)>, Vec<(Bs, Bs)>, Vec<String>)>,
    /// 0 everything valid, 1 errors the parser finds, 2 errors the scanner finds
    mode: usize,
    names: usize,
    left: usize,
    seen: Vec<&'static str>,
    /// what handles and suffixes begin with
    stem: String,
    /// how many directives a document may have
    many: usize,
}

const HANDLES: &[&str] = &["!e!", "!ee!", "!E!", "!e-1!", "!_!", "!0!", "!e_!", "!-!", "!tag!"];
const PLAIN: &[char] = &['a', 'b', 'Z', '0', '9', '-', '_'];
const MARKS: &[char] = &[';', '/', '?', ':', '@', '&', '=', '+', '$', '.', '!', '~', '*', '\'', '(', ')'];
const INNER: &[char] = &[',', '[', ']'];
const OTHER: &[char] = &[
    '%', '#', ' ', '<', '>', '{', '}', '|', '^', '"', '\\', '`', '\u{7f}', '\n', '\t', 'é', '\u{80}', '\u{7ff}', '\u{800}', '中',
    '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{feff}', '\u{10000}', '☺', '\u{10ffff}', ',', '[', ']',
];

fn escaped(s: &mut Src, c: char, out: &mut String) {
    let mut b = [0; 4];
    for x in c.encode_utf8(&mut b).bytes() {
        for d in [x >> 4, x & 15] {
            let d = char::from_digit(d as u32, 16).unwrap();
            out.push(if s.chance(1, 2) { d.to_ascii_uppercase() } else { d });
        }
        let n = out.len();
        out.insert(n - 2, '%');
    }
}

/// Characters of a tag: what is written and what it means.
fn uri(s: &mut Src, inner: bool, stem: &str) -> (String, String) {
    let (mut w, mut v) = (stem.to_string(), stem.to_string());
    for _ in 0..match s.below(12) {
        0 => s.range(6, 20),
        1..=3 => 1,
        _ => s.range(1, 5),
    } {
        let (c, literal) = match s.below(8) {
            0..=3 => (*s.pick(PLAIN), true),
            4 | 5 => (*s.pick(MARKS), true),
            6 if inner => (*s.pick(INNER), true),
            _ => (*s.pick(OTHER), false),
        };
        v.push(c);
        if literal && !s.chance(1, 8) {
            w.push(c);
        } else {
            escaped(s, c, &mut w);
        }
    }
    (w, v)
}

fn default_prefix(h: &str) -> Option<&'static str> {
    match h {
        "!" => Some("!"),
        "!!" => Some("tag:yaml.org,2002:"),
        _ => None,
    }
}

impl W {
    fn see(&mut self, s: &'static str) {
        self.seen.push(s);
    }

    fn push(&mut self, e: Ev) {
        if self.bad.is_none() {
            self.ev.push(e);
        }
    }

    fn fail(&mut self, kind: Kind, problem: &'static str, at: Option<usize>) {
        if self.bad.is_none() {
            self.bad = Some(Bad { kind, problem, at: at.map(|x| x as u64) });
            self.see(problem);
        }
    }

    /// What a suffix begins with; nothing in a key, which is limited in length.
    fn stem(&mut self, s: &mut Src, key: bool) -> String {
        if key || self.stem.is_empty() || s.chance(1, 2) {
            return String::new();
        }
        self.see("long suffix or prefix");
        self.stem.clone()
    }

    fn handle(&mut self, s: &mut Src) -> String {
        match self.stem.is_empty() || s.chance(1, 4) {
            true => s.pick(HANDLES).to_string(),
            false => {
                self.see("long handle");
                format!("!{}{}!", self.stem, s.pick(&["", "0", "1", "2", "3", "-", "00"]))
            }
        }
    }

    fn gap(&mut self, s: &mut Src) {
        let g = s.pick(&[" ", " ", " ", "  ", "\t", " \t "]);
        self.o.push_str(g);
    }

    fn eol(&mut self, s: &mut Src) {
        let g = s.pick(&["\n", "\n", "\n", "\n", " \n", " # c\n", "\r\n", "\t# %TAG ! x\n", "\r", "\u{2028}"]);
        // no tab right after an indicator
        let fresh = self.o.ends_with("- ") || self.o.ends_with(": ");
        self.o.push_str(if fresh && g.starts_with('\t') { " # c\n" } else { g });
    }

    /// Write a tag; its meaning, or none if that is an error.
    fn tag(&mut self, s: &mut Src, key: bool) -> Option<String> {
        let at = self.o.len();
        if self.mode == 2 && self.bad.is_none() && s.chance(1, 6) {
            let (t, p) = *s.pick(&[
                ("!!", "did not find expected tag URI"),
                ("!e!", "did not find expected tag URI"),
                ("!<>", "did not find expected tag URI"),
                ("!<a", "did not find the expected '>'"),
                ("!<a b>", "did not find the expected '>'"),
                ("!<a>b", "did not find expected whitespace or line break"),
                ("!a%", "did not find URI escaped octet"),
                ("!a%4", "did not find URI escaped octet"),
                ("!a%4g", "did not find URI escaped octet"),
                ("!!%zz", "did not find URI escaped octet"),
                ("!<%c3a>", "did not find URI escaped octet"),
                ("!a%c3b", "did not find URI escaped octet"),
                ("!%80", "found an incorrect leading UTF-8 octet"),
                ("!!b%BF", "found an incorrect leading UTF-8 octet"),
                ("!e!%f8%88%80%80%80", "found an incorrect leading UTF-8 octet"),
                ("!<%ff>", "found an incorrect leading UTF-8 octet"),
                ("!%c3%28", "found an incorrect trailing UTF-8 octet"),
                ("!!%e2%98%41", "found an incorrect trailing UTF-8 octet"),
                ("!<%f0%9f%c0%80>", "found an incorrect trailing UTF-8 octet"),
                ("!%c0%80", "found an incorrect trailing UTF-8 octet"),
                ("!!a%ed%a0%80", "found an incorrect trailing UTF-8 octet"),
                ("!<%f4%90%80%80>", "found an incorrect trailing UTF-8 octet"),
                ("!a\"b", "did not find expected whitespace or line break"),
                ("!a#b", "did not find expected whitespace or line break"),
                ("!a{b", "did not find expected whitespace or line break"),
                ("!\u{e9}", "did not find expected whitespace or line break"),
                ("!!\u{e9}", "did not find expected tag URI"),
            ]);
            // only what the list says is wrong may be wrong
            self.o.push_str(t);
            self.fail(Kind::Scanner, p, None);
            return Some(String::new());
        }
        match s.below(9) {
            0 => {
                self.o.push('!');
                self.toks.push(Tok::Tag("".into(), "!".into()));
                self.see("non-specific tag");
                return Some("!".to_string());
            }
            1 => {
                let stem = self.stem(s, key);
                let (mut w, mut v) = uri(s, true, &stem);
                if s.chance(1, 8) {
                    (w, v) = ("!".to_string(), "!".to_string());
                }
                self.o.push_str(&format!("!<{w}>"));
                self.toks.push(Tok::Tag("".into(), v.as_str().into()));
                self.see("verbatim tag");
                return Some(v);
            }
            _ => {}
        }
        let h = match s.below(6) {
            0 => "!".to_string(),
            1 => "!!".to_string(),
            2 if self.mode == 1 && !key => self.handle(s),
            _ => match self.declared.len() {
                0 => s.pick(&["!", "!!"]).to_string(),
                n => {
                    let h = self.declared[s.below(n)].0.clone();
                    // (a key is limited in length)
                    if key && h.len() > 20 { "!!".to_string() } else { h }
                }
            },
        };
        let stem = self.stem(s, key);
        let (mut w, v) = uri(s, false, &stem);
        if h == "!" {
            // What looks like a handle of its own would be one.
            let k = w.find(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == '_'));
            if let Some(k) = k {
                if w[k..].starts_with('!') {
                    w.replace_range(k..k + 1, "%21");
                }
            }
            // ... and what begins like a verbatim tag is one ('<' is escaped)
        }
        self.o.push_str(&h);
        self.o.push_str(&w);
        self.toks.push(Tok::Tag(h.as_str().into(), v.as_str().into()));
        let prefix = match self.declared.iter().find(|x| x.0 == h).map(|x| x.1.clone()) {
            Some(x) => {
                self.see(if default_prefix(&h).is_some() { "redefined default handle" } else { "declared handle" });
                x
            }
            None => match default_prefix(&h) {
                Some(p) => {
                    self.see(if h == "!" { "primary handle" } else { "secondary handle" });
                    p.to_string()
                }
                None => {
                    self.fail(Kind::Parser, "found undefined tag handle", Some(at));
                    return None;
                }
            },
        };
        Some(format!("{prefix}{v}"))
    }

    /// Properties of a node, each followed by a gap.
    fn props(&mut self, s: &mut Src, likely: bool) -> (Option<Bs>, Option<Bs>, bool) {
        let (mut a, mut t) = (None, None);
        let with_tag = s.chance(if likely { 3 } else { 1 }, 4);
        let with_anchor = s.chance(1, 6);
        let anchor_first = s.chance(1, 2);
        for k in 0..2 {
            if (k == 0) == anchor_first {
                if with_anchor {
                    self.names += 1;
                    let n = format!("n{}", self.names);
                    self.o.push_str(&format!("&{n}"));
                    a = Some(n.into());
                    self.gap(s);
                }
            } else if with_tag {
                t = self.tag(s, !likely).map(Bs::from);
                self.gap(s);
            }
        }
        (a, t, with_tag || with_anchor)
    }

    fn noted(&mut self, t: &Option<Bs>, kind: &str) {
        if self.bad.is_none() {
            self.node_tags.push(match t.as_ref().and_then(|t| t.s()) {
                Some(x) if x != "!" => x.to_string(),
                _ => format!("tag:yaml.org,2002:{kind}"),
            });
        }
    }

    fn scalar(&mut self, a: Option<Bs>, t: Option<Bs>, value: &str, style: u8, empty: bool) {
        self.noted(&t, "str");
        let bang = t.as_ref().is_some_and(|t| t.s() == Some("!"));
        let pi = if empty { t.is_none() } else { style == 1 && t.is_none() || bang };
        let qi = style != 1 && t.is_none() && !pi;
        self.push(Ev::Scalar { anchor: a, tag: t, value: value.into(), pi, qi, style });
    }

    fn leaf(&mut self, s: &mut Src, a: Option<Bs>, t: Option<Bs>, key: bool) {
        let n = self.left % 10;
        let (text, value, style) = match s.below(6) {
            0 => (format!("'v{n}!x'"), format!("v{n}!x"), 2),
            1 => (format!("\"v{n}\\x21y\""), format!("v{n}!y"), 3),
            2 => (format!("v!{n}"), format!("v!{n}"), 1),
            3 if !key => (String::new(), String::new(), 1),
            _ => (format!("v{n}"), format!("v{n}"), 1),
        };
        self.o.push_str(&text);
        self.scalar(a, t, &value, style, text.is_empty());
    }

    fn flow(&mut self, s: &mut Src, depth: usize) {
        self.left = self.left.saturating_sub(1);
        let (a, t, p) = self.props(s, true);
        match if depth == 0 || self.left == 0 { 0 } else { s.below(5) } {
            0..=2 => {
                if !p {
                    // an entry has to have something
                    self.o.push('w');
                    self.scalar(a, t, "w", 1, false);
                } else {
                    self.leaf(s, a, t, false);
                }
            }
            k => self.flow_coll(s, a, t, k == 3, depth - 1),
        }
    }

    fn flow_coll(&mut self, s: &mut Src, a: Option<Bs>, t: Option<Bs>, seq: bool, depth: usize) {
        self.noted(&t, if seq { "seq" } else { "map" });
        let implicit = t.is_none();
        self.o.push(if seq { '[' } else { '{' });
        self.push(if seq {
            Ev::SeqStart { anchor: a, tag: t, implicit, style: 2 }
        } else {
            Ev::MapStart { anchor: a, tag: t, implicit, style: 2 }
        });
        for k in 0..s.below(4) {
            if k > 0 {
                self.o.push_str(", ");
            }
            if !seq {
                let (a, t, _) = self.props(s, false);
                self.leaf(s, a, t, true);
                self.o.push_str(" : ");
            }
            self.flow(s, depth);
        }
        self.o.push_str(if seq { " ]" } else { " }" });
        self.push(if seq { Ev::SeqEnd } else { Ev::MapEnd });
    }

    /// A node in block context: the text so far ends with the indicator that
    /// introduces it and a space. Ends with a line break.
    fn block(&mut self, s: &mut Src, indent: usize, depth: usize) {
        self.left = self.left.saturating_sub(1);
        let (a, t, p) = self.props(s, true);
        match if depth == 0 || self.left == 0 { s.below(4) } else { s.below(9) } {
            0 | 1 => {
                self.leaf(s, a, t, false);
                self.eol(s);
            }
            2 => {
                let n = self.left % 10;
                let lit = s.chance(1, 2);
                self.o.push_str(if lit { "|-\n" } else { ">-\n" });
                self.o.push_str(&" ".repeat(indent + 1));
                self.o.push_str(&format!("!t{n} %TAG\n"));
                self.scalar(a, t, &format!("!t{n} %TAG"), if lit { 4 } else { 5 }, false);
            }
            3 | 4 => {
                let seq = s.chance(1, 2);
                self.flow_coll(s, a, t, seq, depth.saturating_sub(1));
                self.eol(s);
            }
            k => {
                let seq = k < 7;
                self.noted(&t, if seq { "seq" } else { "map" });
                let implicit = t.is_none();
                let _ = p;
                self.eol(s);
                self.push(if seq {
                    Ev::SeqStart { anchor: a, tag: t, implicit, style: 1 }
                } else {
                    Ev::MapStart { anchor: a, tag: t, implicit, style: 1 }
                });
                for _ in 0..s.range(1, 3) {
                    self.o.push_str(&" ".repeat(indent));
                    if seq {
                        self.o.push_str("- ");
                    } else {
                        let (a, t, _) = self.props(s, false);
                        self.leaf(s, a, t, true);
                        self.o.push_str(": ");
                    }
                    self.block(s, indent + 2, depth - 1);
                }
                self.push(if seq { Ev::SeqEnd } else { Ev::MapEnd });
            }
        }
    }

    fn directives(&mut self, s: &mut Src) -> Option<(i32, i32)> {
        let mut ver = None;
        let many = self.many > 0 && s.chance(1, 2);
        for k in 0..match s.below(4) {
            _ if many => self.many,
            0 => 1,
            1 => s.range(2, 6),
            _ => s.range(1, 3),
        } {
            let at = self.o.len();
            if self.mode == 2 && self.bad.is_none() && s.chance(1, 10) {
                let (t, p) = *s.pick(&[
                    ("%FOO bar", "found unknown directive name"),
                    ("%yaml 1.1", "found unknown directive name"),
                    ("%TAGS ! x", "found unknown directive name"),
                    ("% TAG ! x", "could not find expected directive name"),
                    ("%TAG: ! x", "found unexpected non-alphabetical character"),
                    ("%YAML", "did not find expected version number"),
                    ("%YAML 1", "did not find expected digit or '.' character"),
                    ("%YAML 1.", "did not find expected version number"),
                    ("%YAML .1", "did not find expected version number"),
                    ("%YAML 1,1", "did not find expected digit or '.' character"),
                    ("%YAML 1.1234567890", "found extremely long version number"),
                    ("%YAML 1.1 x", "did not find expected comment or line break"),
                    ("%YAML 1.1x", "did not find expected comment or line break"),
                    ("%TAG", "did not find expected '!'"),
                    ("%TAG e x", "did not find expected '!'"),
                    ("%TAG !e x", "did not find expected '!'"),
                    ("%TAG !e.f! x", "did not find expected '!'"),
                    ("%TAG !e!x y", "did not find expected whitespace"),
                    ("%TAG !!! x", "did not find expected whitespace"),
                    ("%TAG !e!", "did not find expected whitespace"),
                    ("%TAG !e! ", "did not find expected tag URI"),
                    ("%TAG !e! {", "did not find expected tag URI"),
                    ("%TAG !e! x\"", "did not find expected whitespace or line break"),
                    ("%TAG !e! x y", "did not find expected comment or line break"),
                    ("%TAG !e! x%4", "did not find URI escaped octet"),
                    ("%TAG !e! %c3%41", "found an incorrect trailing UTF-8 octet"),
                    ("%TAG !e! %bf", "found an incorrect leading UTF-8 octet"),
                    ("%TAG !e! %e0%80%80", "found an incorrect trailing UTF-8 octet"),
                    ("%TAG !! x%ed%bf%bf", "found an incorrect trailing UTF-8 octet"),
                ]);
                self.o.push_str(t);
                self.o.push('\n');
                self.fail(Kind::Scanner, p, None);
                continue;
            }
            if s.chance(1, 3) {
                if ver.is_some() && self.mode != 1 {
                    continue;
                }
                let (t, v) = *s.pick(&[
                    ("1.1", (1, 1)),
                    ("1.2", (1, 2)),
                    ("1.1", (1, 1)),
                    ("1.2", (1, 2)),
                    ("01.1", (1, 1)),
                    ("1.02", (1, 2)),
                    ("000000001.000000002", (1, 2)),
                    // not supported
                    ("1.0", (1, 0)),
                    ("1.3", (1, 3)),
                    ("2.1", (2, 1)),
                    ("0.1", (0, 1)),
                    ("1.10", (1, 10)),
                    ("1.21", (1, 21)),
                    ("11.1", (11, 1)),
                    ("999999999.2", (999999999, 2)),
                    ("1.999999999", (1, 999999999)),
                    ("2.2", (2, 2)),
                    ("3.1", (3, 1)),
                ]);
                let supported = v == (1, 1) || v == (1, 2);
                if !supported && self.mode != 1 {
                    continue;
                }
                self.o.push_str("%YAML");
                self.gap(s);
                self.o.push_str(t);
                self.toks.push(Tok::Version(v.0, v.1));
                if ver.is_some() {
                    self.fail(Kind::Parser, "found duplicate %YAML directive", Some(at));
                } else if !supported {
                    self.fail(Kind::Parser, "found incompatible YAML document", Some(at));
                }
                ver = Some(v);
                self.see("%YAML");
            } else {
                let h = match s.below(5) {
                    _ if many && k % 8 > 0 => format!("!h{k}!"),
                    0 => "!".to_string(),
                    1 => "!!".to_string(),
                    _ => self.handle(s),
                };
                let again = self.declared.iter().any(|x| x.0 == h);
                if again && self.mode != 1 {
                    continue;
                }
                let (w, v) = match s.below(3) {
                    0 => {
                        let stem = self.stem(s, false);
                        uri(s, true, &stem)
                    }
                    _ => {
                        let p = s.pick(&["!", "tag:e.org,2000:", "!!", "tag:yaml.org,2002:", "!e!", "!e-", "x"]);
                        (p.to_string(), p.to_string())
                    }
                };
                self.o.push_str("%TAG");
                self.gap(s);
                self.o.push_str(&h);
                self.gap(s);
                self.o.push_str(&w);
                self.toks.push(Tok::TagDir(h.as_str().into(), v.as_str().into()));
                if again {
                    self.fail(Kind::Parser, "found duplicate %TAG directive", Some(at));
                } else {
                    self.declared.push((h, v));
                }
                self.see("%TAG");
            }
            self.eol(s);
            if s.chance(1, 12) {
                self.o.push_str(s.pick(&["\n", "# c\n", "   # %YAML 1.1\n"]));
            }
        }
        ver
    }

    fn document(&mut self, s: &mut Src, first: bool, ended: bool) -> bool {
        self.declared.clear();
        self.node_tags.clear();
        let mut ver = None;
        if (first || ended) && s.chance(2, 3) {
            ver = self.directives(s);
        }
        let tags: Vec<(Bs, Bs)> = self.declared.iter().map(|(h, p)| (h.as_str().into(), p.as_str().into())).collect();
        let written = ver.is_some() || !tags.is_empty();
        let implicit = first && !written && self.bad.is_none() && s.chance(1, 4);
        self.push(Ev::DocStart { ver, tags: tags.clone(), implicit });
        let depth = s.below(4);
        if implicit {
            // a node that is not empty
            if s.chance(1, 2) {
                self.o.push_str("- ");
                self.noted(&None, "seq");
                self.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: 1 });
                self.block(s, 2, depth);
                self.push(Ev::SeqEnd);
            } else {
                let (a, t, _) = self.props(s, true);
                self.leaf(s, a, t, true);
                self.eol(s);
            }
        } else {
            self.o.push_str("--- ");
            self.block(s, 0, depth);
        }
        let end = s.chance(2, 3);
        if end {
            self.o.push_str("...");
            self.eol(s);
        }
        self.push(Ev::DocEnd(!end));
        if self.bad.is_none() {
            let n = std::mem::take(&mut self.node_tags);
            self.docs.push((ver, tags, n));
        }
        end
    }
}

fn stream(s: &mut Src) -> W {
    let mut w = W {
        o: String::new(),
        ev: vec![Ev::StreamStart(1)],
        bad: None,
        toks: vec![],
        declared: vec![],
        node_tags: vec![],
        docs: vec![],
        mode: match s.below(8) {
            0..=3 => 0,
            4 | 5 => 1,
            _ => 2,
        },
        names: 0,
        left: 16,
        seen: vec![],
        stem: String::new(),
        many: 0,
    };
    match s.below(250) {
        0..=2 => {
            let n = *s.pick(gen::LENGTHS) - s.below(3);
            w.stem = s.pick(&["a", "-", "Z_"]).repeat(n);
        }
        3 => w.many = *s.pick(&gen::LENGTHS[..11]),
        _ => {}
    }
    let n = match s.below(4) {
        0 => 1,
        1 => 2,
        _ => s.range(2, 4),
    };
    let mut ended = false;
    for i in 0..n {
        ended = w.document(s, i == 0, ended);
    }
    w.push(Ev::StreamEnd);
    w
}

pub struct P23;
impl Prop for P23 {
    fn id(&self) -> &'static str {
        "P23"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = a stream of documents with generated %YAML and %TAG directives and nodes tagged by every kind of tag, made together with what has to be read, or the error that has to be reported and where; events, loaded documents and tokens must be exactly those; non-trivial = some tag or directive written; distinct by text"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (1_600_000, 30),
            Tier::Thorough => (40_000_000, 40),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        let mut s = Src::record(rng);
        stream(&mut s);
        s.into_tape()
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let w = stream(&mut Src::replay(tape));
        for k in &w.seen {
            ctx.class(k);
        }
        let text = w.o.as_bytes();
        ctx.key = Some(fnv(text));
        ctx.nontrivial = !w.toks.is_empty() || w.bad.is_some();
        let (got, err) = sut::events(text);
        // Where the scanner rejects the text, how far it has looked ahead of
        // the parser is its own affair.
        let early = w.bad.as_ref().is_some_and(|b| b.kind == Kind::Scanner);
        for (k, want) in w.ev.iter().enumerate() {
            match got.get(k) {
                Some(g) if g.ev == *want => {}
                Some(g) => return Err(format!("event {k} is {:?}, written was {want:?}", g.ev)),
                None if early => break,
                None => {
                    return Err(format!(
                        "event {k}, {want:?}, is missing: {}",
                        err.map_or("end of the stream".into(), |e| e.display)
                    ))
                }
            }
        }
        if got.len() > w.ev.len() {
            return Err(format!("more events than written: {:?}", got[w.ev.len()].ev));
        }
        let judge = |who: &str, err: &Option<ErrN>| match (&w.bad, err) {
            (None, None) => Ok(()),
            (None, Some(e)) => Err(format!("the {who} rejects it: {}", e.display)),
            (Some(b), None) => Err(format!("the {who} does not report {:?}", b.problem)),
            (Some(b), Some(e)) => {
                if e.kind != b.kind || e.problem != b.problem {
                    return Err(format!("the {who} reports {:?} instead of {:?}", e.display, b.problem));
                }
                let at = e.pmark.map(|m| m.i);
                if b.at.is_some() && at != b.at {
                    return Err(format!("the {who} reports {:?} at {at:?} instead of {:?}", e.problem, b.at));
                }
                Ok(())
            }
        };
        judge("parser", &err)?;
        let (docs, err) = sut::docs(text);
        judge("loader", &err)?;
        for (k, want) in w.docs.iter().enumerate() {
            let Some(d) = docs.get(k) else {
                if early {
                    break;
                }
                return Err(format!("document {k} is missing"));
            };
            if d.ver != want.0 || d.tags != want.1 {
                return Err(format!("document {k} has directives {:?} {:?} instead of {:?} {:?}", d.ver, d.tags, want.0, want.1));
            }
            let have: Vec<String> = d.nodes.iter().map(|n| n.tag.as_ref().and_then(|t| t.s()).unwrap_or("").to_string()).collect();
            if have != want.2 {
                return Err(format!("document {k} has tags {have:?} instead of {:?}", want.2));
            }
        }
        if docs.len() > w.docs.len() {
            return Err("more documents than written".into());
        }
        if !early {
            let (toks, err) = sut::tokens(text);
            if let Some(e) = err {
                return Err(format!("the scanner rejects it: {}", e.display));
            }
            let mut want = w.toks.iter();
            for t in toks.iter().map(|t| &t.t) {
                if matches!(t, Tok::Tag(..) | Tok::TagDir(..) | Tok::Version(..)) {
                    let x = want.next();
                    if x != Some(t) {
                        return Err(format!("token {t:?} instead of {x:?}"));
                    }
                }
            }
            if let Some(x) = want.next() {
                return Err(format!("token {x:?} is missing"));
            }
        }
        Ok(())
    }
    fn describe(&self, tape: &[u8]) -> String {
        let w = stream(&mut Src::replay(tape));
        format!("{} ({})", show(w.o.as_bytes()), w.bad.map_or("valid".to_string(), |b| format!("must report {:?}", b.problem)))
    }
}
