//! P20: an independent renderer. A document is generated together with one of
//! the many ways to write it; reading the text must give exactly the document.
//! The renderer follows the rules of YAML 1.1 (within what libyaml supports)
//! and knows nothing about how the library reads.
use super::*;
use crate::model::*;
use crate::sut;

#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    /// at the start of a line, nothing written
    Line,
    /// after "---"
    Marker,
    /// after "-"
    Dash,
    /// after the ":" of a simple key
    Colon,
    /// after "?"
    Quest,
    /// after the ":" of an explicit key
    Value,
}

pub struct W {
    pub o: String,
    pub ev: Vec<Ev>,
    names: Vec<String>,
    handles: Vec<(String, String)>,
    brk: u8,
    left: usize,
    /// content column of the block scalar that was just written
    after_block: Option<usize>,
    /// the final line break may be left out
    droppable: bool,
    seen: Vec<&'static str>,
    /// what is written in a large amount or size in this text, how large, and
    /// how many times more
    grow: &'static str,
    size: usize,
    times: usize,
}

/// What may be large. In implicit keys nothing is: they are limited.
const GROWTH: &[&str] = &[
    "comment", "filler", "breaks", "blanks", "anchor", "items", "pairs", "word", "block run", "block lines", "block line",
    "block indent", "indent", "documents", "directives", "handle", "prefix", "depth",
];

const SAFE_FIRST: &[char] = &['a', 'b', 'z', 'K', '0', '7', '_', '/', '+', '=', '<', '(', '^', '$', ';', '~', 'é', '中', '😀'];
const INNER: &[char] = &[
    'a', 'c', 'x', 'Y', '1', '9', '-', '_', '.', '/', '+', '=', '<', '(', '^', '$', ';', '~', '"', '\'', '!', '%', '@',
    '&', '*', '|', '>', '`', '\\', 'é', '☺', '😀', '\u{a0}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{10ffff}',
];

impl W {
    fn see(&mut self, k: &'static str) {
        if !self.seen.contains(&k) {
            self.seen.push(k);
        }
    }
    /// `Some(size)` if it is this that is to be large.
    fn large(&mut self, s: &mut Src, what: &'static str) -> Option<usize> {
        if self.grow != what || self.times == 0 || !s.chance(2, 3) {
            return None;
        }
        self.times -= 1;
        self.see("large");
        Some(self.size)
    }
    fn col(&self) -> usize {
        self.o.chars().rev().take_while(|c| *c != '\n' && *c != '\r' && *c != '\u{85}').count()
    }
    fn br(&mut self, s: &mut Src) {
        let b = match self.brk {
            0 => "\n",
            1 => "\r\n",
            2 => "\r",
            _ => *s.pick(&["\n", "\r\n", "\n", "\u{85}"]),
        };
        // CR LF is one break
        if b == "\n" && self.o.ends_with('\r') {
            self.o.push_str("\r\n");
        } else {
            self.o.push_str(b);
        }
    }
    fn sp(&mut self, n: usize) {
        for _ in 0..n {
            self.o.push(' ');
        }
    }
    fn comment(&mut self, s: &mut Src) {
        self.see("comment");
        self.o.push_str(s.pick(&["# c", "#", "#- a", "# k: v", "#'", "# [", "# é", "#\t\"", "#%", "# --- "]));
        if let Some(k) = self.large(s, "comment") {
            let c = s.pick(&["x", " ", "#", "é", "- ", "☺"]);
            self.o.push_str(&c.repeat(k));
        }
    }
    /// End a line in block context. `content`: something other than an
    /// indicator precedes, so that a tab may follow.
    fn eol(&mut self, s: &mut Src, content: bool) {
        match s.below(10) {
            0 => {
                self.o.push_str(if content && s.chance(1, 3) { "\t" } else { " " });
                self.comment(s);
            }
            1 => self.o.push_str(if content && s.chance(1, 3) { " \t" } else { "  " }),
            _ => {}
        }
        self.br(s);
        self.droppable = true;
        self.after_block = None;
    }
    /// Lines that mean nothing.
    fn filler(&mut self, s: &mut Src) {
        let after = self.after_block;
        let mut more = self.large(s, "filler").unwrap_or(0).min(4100);
        while more > 0 || s.chance(1, 8) {
            more = more.saturating_sub(1);
            match after {
                Some(m) => {
                    let n = s.below(m);
                    self.sp(n);
                    self.comment(s);
                }
                None => {
                    let n = s.below(7);
                    self.sp(n);
                    if s.chance(1, 2) {
                        self.comment(s);
                    }
                }
            }
            self.br(s);
            self.droppable = false;
            self.see("filler line");
        }
    }

    // ------------------------------------------------------------ properties

    fn anchor(&mut self, s: &mut Src, single: bool) -> String {
        let p = match if single { None } else { self.large(s, "anchor") } {
            Some(k) => "a".repeat(k),
            None => s.pick(&["a", "A-", "n_", "0", "-", "_"]).to_string(),
        };
        let n = format!("{p}{}", self.names.len());
        self.names.push(n.clone());
        n
    }

    fn tag(&mut self, s: &mut Src, single: bool) -> (String, String) {
        match s.below(if self.handles.is_empty() { 4 } else { 6 }) {
            0 => {
                let x = *s.pick(&["str", "int", "seq", "map", "x"]);
                let p = self.handles.iter().find(|h| h.0 == "!!").map_or("tag:yaml.org,2002:", |h| &h.1);
                (format!("!!{x}"), format!("{p}{x}"))
            }
            1 | 2 => {
                let (w, x) = *s.pick(&[("foo", "foo"), ("a.b/c", "a.b/c"), ("x%41y", "xAy"), ("%c3%A9", "é"), ("t-1_", "t-1_")]);
                let p = self.handles.iter().find(|h| h.0 == "!").map_or("!", |h| &h.1);
                (format!("!{w}"), format!("{p}{x}"))
            }
            3 => {
                let x = *s.pick(&["tag:e,1:x", "!loc", "tag:yaml.org,2002:str", "u:v[1],w"]);
                (format!("!<{x}>"), x.to_string())
            }
            _ => {
                let (h, p) = s.pick(&self.handles).clone();
                if single && h.len() > 20 {
                    let x = *s.pick(&["s", "t/u", "v"]);
                    return (format!("!<{x}>"), x.to_string());
                }
                let x = *s.pick(&["s", "t/u", "v"]);
                (format!("{h}{x}"), format!("{p}{x}"))
            }
        }
    }

    /// Choose properties; returns their text.
    fn props(&mut self, s: &mut Src, single: bool) -> (Vec<String>, Option<Bs>, Option<Bs>) {
        if !s.chance(1, 5) {
            return (vec![], None, None);
        }
        let k = s.below(5);
        let mut v = vec![];
        let mut tag = None;
        let mut anchor = None;
        if k != 0 {
            let (w, r) = self.tag(s, single);
            v.push(w);
            tag = Some(Bs::from(r));
            self.see("tag");
        }
        if k != 1 {
            let a = self.anchor(s, single);
            v.push(format!("&{a}"));
            anchor = Some(Bs::from(a));
            self.see("anchor");
        }
        if k == 4 {
            v.reverse();
        }
        (v, anchor, tag)
    }

    fn scalar_ev(&mut self, anchor: Option<Bs>, tag: Option<Bs>, value: String, style: u8) {
        let none = tag.is_none();
        self.see(match style {
            1 => "plain",
            2 => "single quoted",
            3 => "double quoted",
            4 => "literal",
            _ => "folded",
        });
        self.ev.push(Ev::Scalar {
            anchor,
            tag,
            value: value.into(),
            pi: none && style == 1,
            qi: none && style != 1,
            style,
        });
    }

    fn empty(&mut self, anchor: Option<Bs>, tag: Option<Bs>) {
        self.see("empty node");
        self.scalar_ev(anchor, tag, String::new(), 1);
    }

    // ------------------------------------------------------------ flow scalars

    fn plain_word(&mut self, s: &mut Src, first: bool, flow: bool) -> String {
        let mut w = String::new();
        if first {
            match s.below(12) {
                0 => {
                    w.push(*s.pick(if flow { &['-', '-'] } else { &['-', '?', ':'][..] }));
                    w.push(*s.pick(&['a', '1', 'é']));
                }
                1 => {
                    w.push('.');
                    w.push('5');
                }
                _ => w.push(*s.pick(SAFE_FIRST)),
            }
        } else if s.chance(1, 10) {
            w.push_str(s.pick(&["-", "!", "&", "*x", "|", ">-", "'", "\"", "%", "@", "-a", "=", "<<", "`"]));
            return w;
        } else {
            w.push(*s.pick(INNER));
        }
        for _ in 0..s.below(6) {
            match s.below(16) {
                0 => {
                    w.push(':');
                    w.push(*s.pick(&['a', '0']));
                }
                1 => w.push('#'),
                2 if !flow => w.push(*s.pick(&[',', '[', ']', '{', '}', '?'])),
                _ => w.push(*s.pick(INNER)),
            }
        }
        w
    }

    /// A line break inside a flow scalar or between flow tokens, with blanks
    /// around it that do not count, and `more` further breaks.
    fn fold(&mut self, s: &mut Src, n: i32, more: usize, tabs: bool) {
        self.see("line folding");
        let blank = |w: &mut Self, s: &mut Src| {
            if s.chance(1, 6) {
                w.o.push_str(if tabs && s.chance(1, 3) { "\t" } else { " " });
            }
        };
        blank(self, s);
        for _ in 0..more {
            self.br(s);
            blank(self, s);
        }
        if self.o.ends_with(' ') && more > 0 && !tabs {
            // fine: blanks on an empty line
        }
        self.br(s);
        let k = (n + 1).max(0) as usize + s.below(3);
        self.sp(k);
        if tabs && k > 0 && s.chance(1, 12) {
            self.o.push('\t');
        }
    }

    fn plain(&mut self, s: &mut Src, n: i32, single: bool, flow: bool) -> String {
        let mut v = self.plain_word(s, true, flow);
        if let Some(k) = if single { None } else { self.large(s, "word") } {
            v.push_str(&s.pick(&["x", "é", "☺", "a-", "z!", "y'", "\"d"]).repeat(k));
        }
        self.o.push_str(&v.clone());
        for _ in 0..s.below(4) {
            match s.below(if single { 3 } else { 5 }) {
                0 | 1 => {
                    let w = self.plain_word(s, false, flow);
                    v.push(' ');
                    v.push_str(&w);
                    self.o.push(' ');
                    self.o.push_str(&w);
                }
                2 => {
                    let k = match if single { None } else { self.large(s, "blanks") } {
                        Some(k) => k,
                        None => s.range(2, 3),
                    };
                    let w = self.plain_word(s, false, flow);
                    v.push_str(&" ".repeat(k));
                    v.push_str(&w);
                    self.sp(k);
                    self.o.push_str(&w);
                }
                x => {
                    let more = match self.large(s, "breaks") {
                        Some(k) => k,
                        None if x == 3 => 0,
                        None => s.range(1, 3),
                    };
                    self.fold(s, n, more, false);
                    let w = self.plain_word(s, true, flow);
                    v.push_str(&if more == 0 { " ".to_string() } else { "\n".repeat(more) });
                    v.push_str(&w);
                    self.o.push_str(&w);
                }
            }
        }
        v
    }

    fn quoted(&mut self, s: &mut Src, n: i32, single_line: bool, double: bool) -> String {
        let q = if double { '"' } else { '\'' };
        // Continuation lines are indented by at least one column, so that no
        // line looks like a document marker.
        let n = n.max(0);
        let mut v = String::new();
        self.o.push(q);
        // whether the last thing written is a blank or the opening quote is
        // irrelevant to blanks; whether it is a raw blank matters to folds
        let mut blank = false;
        let mut folded = false;
        for _ in 0..s.below(6) {
            match s.below(10) {
                0 | 1 if !blank && !folded => {
                    let k = match if single_line { None } else { self.large(s, "blanks") } {
                        Some(k) => k,
                        None => s.range(1, 2),
                    };
                    let x = if s.chance(1, 6) { "\t".to_string() } else { " ".repeat(k) };
                    v.push_str(&x);
                    self.o.push_str(&x);
                    blank = true;
                    continue;
                }
                2 if !single_line && !blank && !folded => {
                    let more = match self.large(s, "breaks") {
                        Some(k) => k,
                        None if s.chance(1, 2) => 0,
                        None => s.range(1, 3),
                    };
                    self.fold(s, n, more, true);
                    v.push_str(&if more == 0 { " ".to_string() } else { "\n".repeat(more) });
                    folded = true;
                    continue;
                }
                3 if double && !single_line => {
                    self.see("escaped line break");
                    self.o.push('\\');
                    self.br(s);
                    let k = n as usize + 1 + s.below(3);
                    self.sp(k);
                    // a blank must not follow
                    blank = true;
                    folded = true;
                    continue;
                }
                4 if double => {
                    self.see("escape");
                    let (w, x) = *s.pick(&[
                        ("\\0", '\0'), ("\\a", '\x07'), ("\\b", '\x08'), ("\\t", '\t'), ("\\\t", '\t'), ("\\n", '\n'),
                        ("\\v", '\x0b'), ("\\f", '\x0c'), ("\\r", '\r'), ("\\e", '\x1b'), ("\\ ", ' '), ("\\\"", '"'),
                        ("\\/", '/'), ("\\\\", '\\'), ("\\N", '\u{85}'), ("\\_", '\u{a0}'), ("\\L", '\u{2028}'),
                        ("\\P", '\u{2029}'), ("\\x41", 'A'), ("\\xe9", 'é'), ("\\xFf", 'ÿ'), ("\\u263A", '☺'),
                        ("\\uD7ff", '\u{d7ff}'), ("\\ue000", '\u{e000}'), ("\\uFFFF", '\u{ffff}'), ("\\uFEFF", '\u{feff}'),
                        ("\\U0001F600", '😀'), ("\\U0010ffff", '\u{10ffff}'), ("\\U00000041", 'A'), ("\\x00", '\0'), ("\\x7f", '\x7f'),
                    ]);
                    self.o.push_str(w);
                    v.push(x);
                }
                5 => {
                    if double {
                        self.o.push('\'');
                        v.push('\'');
                    } else {
                        self.o.push_str("''");
                        v.push('\'');
                    }
                }
                6 => {
                    let c = *s.pick(&['#', ':', '-', '?', ',', '[', ']', '{', '}', '&', '*', '!', '|', '>', '%', '@', '`']);
                    self.o.push(c);
                    v.push(c);
                    if !double && s.chance(1, 4) {
                        self.o.push('"');
                        v.push('"');
                    }
                    if !double && s.chance(1, 4) {
                        self.o.push('\\');
                        v.push('\\');
                    }
                }
                _ => {
                    if let Some(k) = if single_line { None } else { self.large(s, "word") } {
                        let x = s.pick(&["x", "é", "☺", "a-", "z!"]).repeat(k);
                        self.o.push_str(&x);
                        v.push_str(&x);
                    }
                    for _ in 0..s.range(1, 4) {
                        let c = *s.pick(INNER);
                        if c == '\'' || c == '"' || c == '\\' {
                            continue;
                        }
                        self.o.push(c);
                        v.push(c);
                    }
                    if !self.o.ends_with(|c: char| !c.is_whitespace()) {
                        continue;
                    }
                }
            }
            // After a folded line break comes content, whatever it was.
            blank = self.o.ends_with(' ') && !self.o.ends_with("\\ ") || self.o.ends_with('\t') && !self.o.ends_with("\\\t");
            folded = false;
        }
        if self.o.ends_with('-') || self.o.ends_with('.') {
            // nothing special: lines are indented
        }
        self.o.push(q);
        v
    }

    fn flow_scalar(&mut self, s: &mut Src, n: i32, single: bool, flow: bool, anchor: Option<Bs>, tag: Option<Bs>) {
        match s.below(4) {
            0 | 1 => {
                let v = self.plain(s, n, single, flow);
                self.scalar_ev(anchor, tag, v, 1);
            }
            2 => {
                let v = self.quoted(s, n, single, false);
                self.scalar_ev(anchor, tag, v, 2);
            }
            _ => {
                let v = self.quoted(s, n, single, true);
                self.scalar_ev(anchor, tag, v, 3);
            }
        }
    }

    // ------------------------------------------------------------ flow collections

    /// Optional space between tokens of a flow collection.
    fn ws(&mut self, s: &mut Src, n: i32, single: bool, need: bool) {
        match s.below(14) {
            0 if !single => self.fold(s, n.max(0), 0, false),
            1 if !single => {
                self.o.push(' ');
                self.comment(s);
                self.fold_after_comment(s, n);
            }
            2 if !single => {
                let k = s.range(1, 2);
                self.fold(s, n.max(0), k, false);
            }
            3 => self.o.push_str("  "),
            4 => self.o.push('\t'),
            5..=8 => {
                if need {
                    self.o.push(' ')
                }
            }
            _ => self.o.push(' '),
        }
    }

    fn fold_after_comment(&mut self, s: &mut Src, n: i32) {
        self.br(s);
        let k = n.max(0) as usize + 1 + s.below(3);
        self.sp(k);
    }

    fn flow_props(&mut self, s: &mut Src, n: i32, single: bool) -> (bool, Option<Bs>, Option<Bs>) {
        let (v, a, t) = self.props(s, single);
        for p in &v {
            self.o.push_str(p);
            self.ws(s, n, single, true);
        }
        (!v.is_empty(), a, t)
    }

    /// Returns whether ':' may follow directly.
    fn flow_node(&mut self, s: &mut Src, n: i32, single: bool, flow: bool, depth: usize) -> bool {
        self.left = self.left.saturating_sub(1);
        if !self.names.is_empty() && s.chance(1, 8) {
            let a = s.pick(&self.names).clone();
            if !single || a.len() < 30 {
                self.see("alias");
                self.o.push_str(&format!("*{a} "));
                self.ev.push(Ev::Alias(a.into()));
                return false;
            }
        }
        let (_, a, t) = self.flow_props(s, n, single);
        let k = if depth == 0 || self.left == 0 { 0 } else { s.below(6) };
        match k {
            0..=3 => {
                self.flow_scalar(s, n, single, flow, a, t);
                !matches!(self.ev.last(), Some(Ev::Scalar { style: 1, .. }))
            }
            4 => {
                self.flow_seq(s, n, single, depth, a, t);
                true
            }
            _ => {
                self.flow_map(s, n, single, depth, a, t);
                true
            }
        }
    }

    fn flow_seq(&mut self, s: &mut Src, n: i32, single: bool, depth: usize, anchor: Option<Bs>, tag: Option<Bs>) {
        self.see("flow sequence");
        self.ev.push(Ev::SeqStart { implicit: tag.is_none(), anchor, tag, style: 2 });
        self.o.push('[');
        let k = match if single || self.o.len() > 100000 { None } else { self.large(s, "items") } {
            Some(k) => k.min(4100),
            None => s.below(4),
        };
        for i in 0..k {
            self.ws(s, n, single, false);
            match s.below(8) {
                0 => {
                    self.see("single pair");
                    self.ev.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: 2 });
                    let adj = self.flow_node(s, n, true, true, depth - 1);
                    self.after_key(s, n, single, adj, depth - 1);
                    self.ev.push(Ev::MapEnd);
                }
                1 => {
                    self.see("single pair");
                    self.ev.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: 2 });
                    self.explicit_pair(s, n, single, depth - 1, false);
                    self.ev.push(Ev::MapEnd);
                }
                2 => {
                    // properties without content
                    let (v, a, t) = self.props(s, single);
                    if v.is_empty() {
                        self.flow_node(s, n, single, true, depth - 1);
                    } else {
                        for p in v {
                            self.o.push_str(&p);
                            self.o.push(' ');
                        }
                        self.empty(a, t);
                    }
                }
                _ => {
                    self.flow_node(s, n, single, true, depth - 1);
                }
            }
            self.ws(s, n, single, false);
            if i + 1 < k || s.chance(1, 5) {
                self.o.push(',');
            }
        }
        self.ws(s, n, single, false);
        self.o.push(']');
        self.ev.push(Ev::SeqEnd);
    }

    /// ":" and the value, after a simple key.
    fn after_key(&mut self, s: &mut Src, n: i32, single: bool, adjacent: bool, depth: usize) {
        if s.chance(1, 4) {
            self.o.push(' ');
        }
        self.o.push(':');
        if s.chance(1, 8) {
            // empty value
            self.o.push(' ');
            self.empty(None, None);
            return;
        }
        if adjacent && s.chance(1, 3) {
            self.see("adjacent value");
        } else {
            self.ws(s, n, single, true);
        }
        self.flow_node(s, n, single, true, depth);
    }

    fn explicit_pair(&mut self, s: &mut Src, n: i32, single: bool, depth: usize, empty_key: bool) {
        self.see("explicit key");
        self.o.push('?');
        self.ws(s, n, single, true);
        // libyaml loses the value of "[? : v]"
        if empty_key && s.chance(1, 6) {
            self.empty(None, None);
        } else {
            self.flow_node(s, n, single, true, depth);
            self.ws(s, n, single, true);
        }
        if s.chance(1, 4) {
            self.empty(None, None);
            return;
        }
        self.o.push(':');
        if s.chance(1, 6) {
            self.o.push(' ');
            self.empty(None, None);
        } else {
            self.ws(s, n, single, true);
            self.flow_node(s, n, single, true, depth);
        }
    }

    fn flow_map(&mut self, s: &mut Src, n: i32, single: bool, depth: usize, anchor: Option<Bs>, tag: Option<Bs>) {
        self.see("flow mapping");
        self.ev.push(Ev::MapStart { implicit: tag.is_none(), anchor, tag, style: 2 });
        self.o.push('{');
        let k = match if single || self.o.len() > 100000 { None } else { self.large(s, "pairs") } {
            Some(k) => k.min(4100),
            None => s.below(4),
        };
        for i in 0..k {
            self.ws(s, n, single, false);
            match s.below(8) {
                0 => self.explicit_pair(s, n, single, depth - 1, true),
                1 => {
                    // key only
                    self.flow_node(s, n, single, true, depth - 1);
                    self.empty(None, None);
                }
                _ => {
                    let adj = self.flow_node(s, n, true, true, depth - 1);
                    self.after_key(s, n, single, adj, depth - 1);
                }
            }
            self.ws(s, n, single, false);
            if i + 1 < k || s.chance(1, 5) {
                self.o.push(',');
            }
        }
        self.ws(s, n, single, false);
        self.o.push('}');
        self.ev.push(Ev::MapEnd);
    }

    // ------------------------------------------------------------ block scalars

    fn block_scalar(&mut self, s: &mut Src, n: i32, anchor: Option<Bs>, tag: Option<Bs>) {
        let literal = s.chance(1, 2);
        let base = n.max(0) as usize;
        let m = base + 1 + match self.large(s, "block indent") {
            Some(k) => k.min(1100),
            None if s.chance(1, 12) => s.below(9),
            None => s.below(4),
        };
        // content lines, separated by runs of line breaks
        let count = match self.large(s, "block lines") {
            Some(k) => k.min(4100),
            None => s.below(5),
        };
        let mut lines: Vec<(usize, String)> = vec![];
        for i in 0..count {
            let run = match (i, s.below(6)) {
                (0, 0) => s.range(1, 2),
                (0, _) => 0,
                (_, 0) => s.range(2, 3),
                _ => 1,
            };
            let run = match self.large(s, "block run") {
                Some(k) => k.max(2),
                None => run,
            };
            let mut l = String::new();
            match s.below(10) {
                0 => l.push_str(*s.pick(&[" ", "  ", "\t", " \t"])),
                1 => l.push_str(*s.pick(&["# c", "- a", "k: v", "---", "...", "%YAML 1.1", "'", "\"x", "[", "&a", "!t", "? "])),
                _ => {}
            }
            if l.trim() == "" && (l.is_empty() || s.chance(3, 4)) {
                let k = s.range(1, 3);
                for j in 0..k {
                    if j > 0 {
                        l.push_str(if s.chance(1, 8) { "  " } else { " " });
                    }
                    for _ in 0..s.range(1, 5) {
                        l.push(*s.pick(INNER));
                    }
                }
                if s.chance(1, 12) {
                    l.push(*s.pick(&[' ', '\t']));
                }
            }
            if let Some(k) = self.large(s, "block line") {
                l.push('y');
                l.push_str(&s.pick(&["x", "é", "☺", "a-", "# ", "z  "]).repeat(k));
                l.push('w');
            }
            lines.push((run, l));
        }
        let tail = if let Some(k) = self.large(s, "block run") {
            k.max(2)
        } else if count == 0 {
            if s.chance(1, 2) { 0 } else { s.range(1, 3) }
        } else {
            *s.pick(&[0usize, 1, 1, 1, 2, 3])
        };
        let blankish = |l: &str| l.starts_with(' ') || l.starts_with('\t');
        let chomp = if count == 0 {
            if tail > 0 { "+" } else { *s.pick(&["", "-", "+"]) }
        } else {
            match tail {
                0 => "-",
                1 => *s.pick(&["", "", "+"]),
                _ => "+",
            }
        };
        let hint = lines.first().map_or(false, |l| blankish(&l.1)) || s.chance(1, 5);
        let hint = hint && m - base <= 9;
        if !hint && lines.first().map_or(false, |l| blankish(&l.1)) {
            // more than nine columns cannot be announced
            lines[0].1.insert(0, 'q');
        }
        self.see(if literal { "literal" } else { "folded" });
        self.o.push(if literal { '|' } else { '>' });
        let h = if hint { format!("{}", m - base) } else { String::new() };
        if hint {
            self.see("indentation indicator");
        }
        if s.chance(1, 2) {
            self.o.push_str(&format!("{h}{chomp}"));
        } else {
            self.o.push_str(&format!("{chomp}{h}"));
        }
        self.eol(s, true);
        let mut v = String::new();
        let mut prev_normal = false;
        let pad = |w: &mut Self, s: &mut Src| {
            if s.chance(1, 4) {
                let k = s.below(m + 1);
                w.sp(k);
            }
        };
        for (i, (run, l)) in lines.iter().enumerate() {
            let normal = !blankish(l);
            v.push_str(&"\n".repeat(*run));
            // the break of the line before has been written already
            let mut breaks = *run - if i > 0 { 1 } else { 0 };
            if !literal && i > 0 && normal && prev_normal {
                breaks += 1;
            }
            for _ in 0..breaks {
                pad(self, s);
                self.br(s);
            }
            v.push_str(l);
            self.sp(m);
            // fold single spaces
            let cs: Vec<char> = l.chars().collect();
            for (k, c) in cs.iter().enumerate() {
                let inside = k > 0 && k + 1 < cs.len();
                let foldable = inside && *c == ' ' && !literal && normal
                    && !matches!(cs[k - 1], ' ' | '\t') && !matches!(cs[k + 1], ' ' | '\t');
                if foldable && s.chance(1, 3) {
                    self.see("line folding");
                    self.br(s);
                    self.sp(m);
                } else {
                    self.o.push(*c);
                }
            }
            self.br(s);
            prev_normal = normal;
        }
        v.push_str(&"\n".repeat(tail));
        let extra = if chomp == "+" {
            tail - if count > 0 { 1 } else { 0 }
        } else if s.chance(1, 6) {
            s.range(1, 2)
        } else {
            0
        };
        for _ in 0..extra {
            // With nothing before them, blank lines decide about the
            // indentation, but there is no content they could hide.
            pad(self, s);
            self.br(s);
        }
        self.droppable = chomp == "-" && extra == 0 && count > 0;
        self.after_block = Some(if count == 0 && !hint { base + 1 } else { m });
        self.scalar_ev(anchor, tag, v, if literal { 4 } else { 5 });
    }

    // ------------------------------------------------------------ block nodes

    /// From the indicator to the content, on this line or on the next.
    fn sep(&mut self, s: &mut Src, n: i32, at: At, content: bool) {
        if at == At::Line && !content {
            let k = s.below(3) * s.below(2);
            self.sp(k);
            return;
        }
        if s.chance(1, 10) {
            self.eol(s, content);
            self.filler(s);
            let k = (n + 1).max(0) as usize + s.below(3);
            self.sp(k);
            self.see("content on the next line");
        } else {
            let k = if s.chance(1, 8) { 2 } else { 1 };
            self.sp(k);
        }
    }

    fn block_node(&mut self, s: &mut Src, n: i32, at: At, depth: usize) {
        self.left = self.left.saturating_sub(1);
        let k = if depth == 0 || self.left == 0 { s.below(8) } else { s.below(16) };
        match k {
            0 if at != At::Line => {
                let (v, a, t) = self.props(s, false);
                for p in &v {
                    self.o.push(' ');
                    self.o.push_str(p);
                }
                self.empty(a, t);
                self.eol(s, !v.is_empty());
            }
            1 if !self.names.is_empty() => {
                self.sep(s, n, at, false);
                let a = s.pick(&self.names).clone();
                self.see("alias");
                self.o.push_str(&format!("*{a}"));
                self.ev.push(Ev::Alias(a.into()));
                self.eol(s, true);
            }
            2 | 3 => {
                let (a, t) = self.head(s, n, at);
                self.block_scalar(s, n, a, t);
            }
            4 => {
                let (a, t) = self.head(s, n, at);
                let d = depth.min(2) + 1;
                if s.chance(1, 2) {
                    self.flow_seq(s, n, false, d, a, t);
                } else {
                    self.flow_map(s, n, false, d, a, t);
                }
                self.eol(s, true);
            }
            8..=11 => self.block_seq(s, n, at, depth),
            12..=15 => self.block_map(s, n, at, depth),
            _ => {
                let (a, t) = self.head(s, n, at);
                self.flow_scalar(s, n, false, false, a, t);
                self.eol(s, true);
            }
        }
    }

    /// Separation and properties before content in flow style.
    fn head(&mut self, s: &mut Src, n: i32, at: At) -> (Option<Bs>, Option<Bs>) {
        self.sep(s, n, at, false);
        let (v, a, t) = self.props(s, false);
        for p in &v {
            self.o.push_str(p);
            self.sep(s, n, at, true);
        }
        (a, t)
    }

    /// Properties of a block collection and the line breaks before its first
    /// entry; None if the collection starts on this line. Returns the column.
    fn open(&mut self, s: &mut Src, n: i32, at: At, seq: bool) -> (bool, usize, Option<Bs>, Option<Bs>) {
        let compact = matches!(at, At::Dash | At::Quest | At::Value);
        if compact && s.chance(2, 3) {
            let k = if s.chance(1, 6) { s.range(2, 4) } else { 1 };
            self.sp(k);
            self.see("compact collection");
            return (true, self.col(), None, None);
        }
        let (v, a, t) = self.props(s, false);
        for (i, p) in v.iter().enumerate() {
            if at != At::Line || i > 0 {
                self.sp(1);
            }
            self.o.push_str(p);
        }
        if at != At::Line || !v.is_empty() {
            self.eol(s, !v.is_empty());
        }
        self.filler(s);
        let least = (n + 1).max(0) as usize;
        let m = if seq && matches!(at, At::Colon | At::Quest | At::Value) && s.chance(1, 2) {
            self.see("sequence at the column of its mapping");
            n as usize
        } else {
            least + match self.large(s, "indent") {
                Some(k) => k.min(1100),
                None if s.chance(1, 2) => 0,
                None => s.below(4),
            }
        };
        (false, m, a, t)
    }

    fn block_seq(&mut self, s: &mut Src, n: i32, at: At, depth: usize) {
        let (here, m, anchor, tag) = self.open(s, n, at, true);
        self.see("block sequence");
        self.ev.push(Ev::SeqStart { implicit: tag.is_none(), anchor, tag, style: 1 });
        let k = match self.large(s, "items") {
            Some(k) => k.min(4100),
            None => s.range(1, 3),
        };
        for i in 0..k {
            if i > 0 {
                self.filler(s);
            }
            if i > 0 || !here {
                self.sp(m);
            }
            self.o.push('-');
            self.block_node(s, m as i32, At::Dash, depth - 1);
        }
        self.ev.push(Ev::SeqEnd);
    }

    fn block_map(&mut self, s: &mut Src, n: i32, at: At, depth: usize) {
        let (here, m, anchor, tag) = self.open(s, n, at, false);
        self.see("block mapping");
        self.ev.push(Ev::MapStart { implicit: tag.is_none(), anchor, tag, style: 1 });
        let k = match self.large(s, "pairs") {
            Some(k) => k.min(4100),
            None => s.range(1, 3),
        };
        for i in 0..k {
            if i > 0 {
                self.filler(s);
            }
            if i > 0 || !here {
                self.sp(m);
            }
            if s.chance(1, 6) {
                self.see("explicit key");
                self.o.push('?');
                self.block_node(s, m as i32, At::Quest, depth - 1);
                if s.chance(3, 4) {
                    self.filler(s);
                    self.sp(m);
                    self.o.push(':');
                    self.block_node(s, m as i32, At::Value, depth - 1);
                } else {
                    self.empty(None, None);
                }
            } else {
                let d = if s.chance(1, 8) { 2 } else { 0 };
                self.flow_node(s, m as i32, true, false, d);
                if s.chance(1, 6) {
                    self.sp(1);
                }
                self.o.push(':');
                self.block_node(s, m as i32, At::Colon, depth - 1);
            }
        }
        self.ev.push(Ev::MapEnd);
    }

    // ------------------------------------------------------------ documents

    fn document(&mut self, s: &mut Src, first: bool, ended: bool) -> bool {
        self.names.clear();
        self.handles.clear();
        self.filler(s);
        let mut ver = None;
        let mut tags = vec![];
        if (first || ended) && s.chance(1, 6) {
            let mut text = vec![];
            if s.chance(1, 2) {
                let v = if s.chance(1, 2) { (1, 1) } else { (1, 2) };
                text.push(format!("%YAML{}{}.{}", s.pick(&[" ", "  ", "\t"]), v.0, v.1));
                ver = Some(v);
                self.see("%YAML");
            }
            let many = self.large(s, "directives").map(|k| k.min(600));
            for i in 0..many.unwrap_or_else(|| s.below(3)) {
                let h = match self.large(s, "handle") {
                    _ if many.is_some() => format!("!h{i}!"),
                    Some(k) => format!("!{}{i}!", "h".repeat(k)),
                    None => s.pick(&["!", "!!", "!e!", "!x-1!"]).to_string(),
                };
                if self.handles.iter().any(|x| x.0 == h) {
                    continue;
                }
                let (w, p) = *s.pick(&[("tag:e,1:", "tag:e,1:"), ("!p-", "!p-"), ("!", "!"), ("a%42c", "aBc"), ("x[1],", "x[1],")]);
                let end = match self.large(s, "prefix") {
                    Some(k) => "/p".repeat(k),
                    None => String::new(),
                };
                let (w, p) = (format!("{w}{end}"), format!("{p}{end}"));
                text.push(format!("%TAG {h} {w}"));
                self.handles.push((h, p));
                self.see("%TAG");
            }
            if s.chance(1, 2) {
                text.reverse();
                self.handles.reverse();
            }
            for t in text {
                self.o.push_str(&t);
                self.eol(s, true);
                self.filler(s);
            }
            tags = self.handles.clone();
        }
        let implicit = first && ver.is_none() && tags.is_empty() && s.chance(1, 2);
        self.ev.push(Ev::DocStart {
            ver,
            tags: tags.into_iter().map(|(h, p)| (h.into(), p.into())).collect(),
            implicit,
        });
        let depth = match self.large(s, "depth") {
            Some(k) => s.range(4, k.min(200)),
            None => s.range(0, 4),
        };
        if implicit {
            self.block_node(s, -1, At::Line, depth);
        } else {
            self.o.push_str("---");
            self.block_node(s, -1, At::Marker, depth);
        }
        self.filler(s);
        let explicit = s.chance(1, 5);
        if explicit {
            self.o.push_str("...");
            self.eol(s, true);
            self.see("...");
        }
        self.ev.push(Ev::DocEnd(!explicit));
        explicit
    }
}

pub fn stream(s: &mut Src) -> W {
    let mut w = W {
        o: String::new(),
        ev: vec![Ev::StreamStart(1)],
        names: vec![],
        handles: vec![],
        brk: match s.below(12) {
            0 => 1,
            1 => 2,
            2 => 3,
            _ => 0,
        },
        left: 24,
        after_block: None,
        droppable: false,
        seen: vec![],
        grow: "",
        size: 0,
        times: 0,
    };
    if s.chance(1, 250) {
        w.grow = s.pick(GROWTH);
        w.times = s.range(1, 2);
        let few = matches!(w.grow, "documents" | "items" | "pairs" | "depth");
        w.size = *s.pick(if few { &gen::LENGTHS[..14] } else { gen::LENGTHS }) - s.below(3);
        if w.grow == "depth" {
            w.left = w.size;
        }
    }
    let n = match s.below(6) {
        _ if w.grow == "documents" => w.size.min(1100),
        0 => s.range(2, 4),
        1 => 2,
        _ => 1,
    };
    let mut ended = false;
    for i in 0..n {
        ended = w.document(s, i == 0, ended);
    }
    if w.droppable && s.chance(1, 5) {
        // the last line need not be terminated
        w.see("no final line break");
        if w.o.ends_with("\r\n") {
            w.o.pop();
        }
        w.o.pop();
    }
    w.ev.push(Ev::StreamEnd);
    w
}

pub struct P20;
impl Prop for P20 {
    fn id(&self) -> &'static str {
        "P20"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = a stream of documents generated together with one way of writing it (block and flow styles, all scalar styles, folding, escapes, properties, directives, comments, line breaks); the events read must be exactly those of the stream, and every document must load; non-trivial = at least two nodes; distinct by text"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (1_600_000, 30),
            Tier::Thorough => (40_000_000, 40),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        let mut s = Src::record(rng);
        stream(&mut s);
        s.into_tape()
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let w = stream(&mut Src::replay(tape));
        for k in &w.seen {
            ctx.class(k);
        }
        let text = w.o.as_bytes();
        ctx.key = Some(fnv(text));
        let nodes = w.ev.iter().filter(|e| super::p01::is_node(e)).count();
        ctx.nontrivial = nodes > 1;
        let (got, err) = sut::events(text);
        for (k, want) in w.ev.iter().enumerate() {
            match got.get(k) {
                Some(g) if g.ev == *want => {}
                Some(g) => return Err(format!("event {k} is {:?}, written was {want:?}", g.ev)),
                None => {
                    return Err(format!(
                        "event {k}, {want:?}, is missing: {}",
                        err.map_or("end of the stream".into(), |e| e.display)
                    ))
                }
            }
        }
        if got.len() > w.ev.len() {
            return Err(format!("more events than written: {:?}", got[w.ev.len()].ev));
        }
        let (docs, err) = sut::docs(text);
        if let Some(e) = err {
            return Err(format!("does not load: {}", e.display));
        }
        let real = w.ev.iter().filter(|e| super::p01::is_node(e) && !matches!(e, Ev::Alias(_))).count();
        let loaded: usize = docs.iter().map(|d| d.nodes.len()).sum();
        if real != loaded {
            return Err(format!("{loaded} nodes loaded instead of {real}"));
        }
        Ok(())
    }
    fn describe(&self, tape: &[u8]) -> String {
        show(stream(&mut Src::replay(tape)).o.as_bytes())
    }
}
