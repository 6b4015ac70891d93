//! Input generators shared by the properties.
use crate::engine::Src;


/// Characters grouped by how the scanner and the emitter treat them.
pub fn ch(s: &mut Src) -> char {
    match s.below(26) {
        0..=9 => (b'a' + s.below(26) as u8) as char,
        10 => (b'0' + s.below(10) as u8) as char,
        11..=12 => ' ',
        13..=15 => {
            let set = b"-?:,[]{}#&*!|>'\"%@`\\~./_+=<()^$;";
            *s.pick(set) as char
        }
        16 => '\n',
        17 => *s.pick(&['\t', '\r', '\u{85}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{a0}']),
        18 => *s.pick(&['é', 'ß', '\u{7ff}', '\u{80}', '\u{9f}', '\u{a1}']),
        19 => *s.pick(&['☺', '\u{800}', '中', '\u{d7ff}', '\u{e000}', '\u{fffd}', '！']),
        20 => *s.pick(&['😀', '\u{10000}', '\u{10ffff}', '\u{1f4a9}']),
        21 => *s.pick(&['\0', '\x07', '\x08', '\x0b', '\x0c', '\x1b', '\x7f', '\x01', '\x1f', '\u{fffe}', '\u{ffff}']),
        // any character, all lengths alike; or one next to a power of two
        24 => {
            let k = s.range(4, 20) as u32;
            let v = (1u32 << k) + s.below(1 << k) as u32;
            char::from_u32(v).unwrap_or('\u{d7fe}')
        }
        25 => {
            let k = s.range(5, 20) as u32;
            let v = (1u32 << k) + s.below(4) as u32;
            char::from_u32(v - 2).unwrap_or('\u{e001}')
        }
        _ => (0x20 + s.below(0x5f) as u8) as char,
    }
}

/// A scalar value. Small shapes first; occasionally long.
pub fn value(s: &mut Src) -> String {
    match s.below(16) {
        0 => String::new(),
        1..=4 => word(s),
        5 => {
            let n = s.range(1, 4);
            (0..n).map(|_| word(s)).collect::<Vec<_>>().join(" ")
        }
        6 => lines(s),
        7 => s
            .pick(&[
                "---", "...", "--- a", "... a", "-", "?", ":", "- a", "a: b", "a #b", "#a", "~",
                "null", "true", " a", "a ", "\ta", "a\t", "\n", "\na", "a\n", "a\n\n", "\n\n",
                " \n", "a\n b", "a \nb", "'", "\"", "''", "a'b", "%a", "@a", "`a", "&a", "*a",
                "!a", "|a", ">a", "[a", "a]", "{a", "a}", ",a", "a,b", "a:b", "a: ", "a:", ":a",
                "?a", "-a", "\\", "\u{feff}", "\u{feff}a", "a\u{85}b", "a\u{2028}b", "\u{2029}",
                "\r", "a\rb", "a\r\nb", "a\0b", "\x07", "\u{a0}", "=", "<<", "a?b", "a? b",
                "? a", "1.0", "0x1F", "---\n", "a\n---\nb", "a\n...\n", "é", "😀",
            ])
            .to_string(),
        8 => {
            // long words to drive folding
            let n = s.range(1, 30);
            (0..n)
                .map(|_| {
                    let k = s.range(1, 14);
                    (0..k).map(|_| (b'a' + s.below(26) as u8) as char).collect::<String>()
                })
                .collect::<Vec<_>>()
                .join(if s.chance(1, 8) { "  " } else { " " })
        }
        9 => {
            let n = *s.pick(&[100usize, 118, 120, 126, 127, 128, 129, 130, 200]);
            let c = *s.pick(&['x', 'é', '中', '😀', ' ', ':']);
            std::iter::repeat(c).take(n).collect()
        }
        _ => {
            let n = s.range(1, 12);
            (0..n).map(|_| ch(s)).collect()
        }
    }
}

pub fn word(s: &mut Src) -> String {
    let n = s.range(1, 6);
    (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect()
}

pub fn lines(s: &mut Src) -> String {
    let n = s.range(1, 6);
    let mut o = String::new();
    for _ in 0..n {
        match s.below(8) {
            0 => {}
            1 => o.push_str(&format!("{}{}", " ".repeat(s.range(1, 3)), word(s))),
            2 => o.push_str(&format!("\t{}", word(s))),
            3 => o.push_str(&format!("{} ", word(s))),
            4 => o.push_str(&format!("{} {} {}", word(s), word(s), word(s))),
            _ => o.push_str(&word(s)),
        }
        o.push(match s.below(24) {
            0 => '\r',
            1 => '\u{85}',
            2 => '\u{2028}',
            _ => '\n',
        });
    }
    if s.chance(1, 2) {
        o.pop();
    }
    o
}

// ------------------------------------------------------------------ YAML text

const PIECES: &[&str] = &[
    "- ", "-", "? ", "?", ": ", ":", ", ", ",", "[", "]", "{", "}", "&a ", "&b", "*a", "*a ", "! ",
    "!", "!!str ", "!!map ", "!a!b ", "!a", "!<x> ", "!<tag:y,2:z>", "!e!%41%C3%A9 ", "|", ">", "|-", "|+", ">1", "|2-", ">+1", "|9",
    "'", "''", "\"", "\\", "\\n", "\\x41", "\\u263A", "\\U0001F600", "\\\n", "\\ ", "\\N", "\\_",
    "#", " #", " # c\n", "%YAML 1.1\n", "%YAML 1.2\n", "%YAML 2.0\n", "%TAG ! tag:x,\n",
    "%TAG !a! !b-\n", "%TAG !! tag:q,2:\n", "%FOO bar\n", "---", "--- ", "---\n", "...", "...\n", "\n", "\n\n", "\r\n", "\r",
    " ", "  ", "   ", "\t", "\u{85}", "\u{2028}", "\u{feff}", "é", "\u{1f600}", "@", "`", "~", "a", "b",
    "key", "x y", "a: b", "a: ", "b:\n", "- a\n", "[a, b]", "{a: b}", "{a, b: c}", "[a: b]", "'q'", "\"q\"", "'a b': ", "\"k\":v",
    "a\n", "  a\n", "\n  ", "\n ", "\n- ", "\n? ", "\n: ", "\n    ", "\n  - ", "\n-", "|\n  t\n",
    ">\n  t\n  u\n", ">\n  t\n\n   u\n  v\n", "|+\n  t\n\n", "0", "1.5", "<<: *a", "=", ".",
];

pub fn soup(s: &mut Src, max: usize) -> String {
    let n = s.range(1, max);
    let mut o = String::new();
    for _ in 0..n {
        match s.below(12) {
            0 => o.push(ch(s)),
            1 => {
                o.push('\n');
                for _ in 0..s.below(6) {
                    o.push(' ');
                }
            }
            _ => o.push_str(s.pick(PIECES)),
        }
    }
    o
}

/// Loosely valid block/flow text with arbitrary scalars; unlike `render` it
/// does not know what the text means.
pub fn loose(s: &mut Src) -> String {
    let mut o = String::new();
    let ndocs = 1 + s.below(4) / 3 * s.range(0, 2);
    for d in 0..ndocs {
        if s.chance(1, 6) {
            for _ in 0..s.range(1, 2) {
                o.push_str(s.pick(&[
                    "%YAML 1.1\n",
                    "%YAML 1.2\n",
                    "%TAG ! tag:x,\n",
                    "%TAG !a! tag:y,2:\n",
                    "%TAG !! !z\n",
                    "%TAG !a! !b # c\n",
                    "%YAML 1.1 # c\n",
                    "%FOO x y\n",
                    "# c\n",
                ]));
            }
            o.push_str("---");
            o.push_str(s.pick(&["\n", " ", " # c\n", "\r\n"]));
        } else if d > 0 || s.chance(1, 5) {
            o.push_str(s.pick(&["---\n", "--- ", "--- # c\n"]));
        }
        block(s, &mut o, 0, 3, false);
        if s.chance(1, 6) {
            o.push_str(s.pick(&["...\n", "... # c\n", "...\n...\n", "\n\n", "...", "# c\n"]));
        }
    }
    o
}

fn props(s: &mut Src, o: &mut String) {
    if s.chance(1, 5) {
        let a = format!("&{} ", s.pick(&["a", "b", "c", "a1", "x-y_z"]));
        let t = s
            .pick(&[
                "! ", "!!str ", "!!seq ", "!!map ", "!a ", "!a!b ", "!<tag:z> ", "!<!b> ", "!e%21 ",
                "!a!%41%c3%a9 ", "!a/b.c;d ", "!!int ",
            ])
            .to_string();
        match s.below(4) {
            0 => o.push_str(&a),
            1 => o.push_str(&t),
            2 => o.push_str(&(a + &t)),
            _ => o.push_str(&(t + &a)),
        }
    }
}

fn eol(s: &mut Src, o: &mut String) {
    if s.chance(1, 8) {
        o.push_str(s.pick(&[" # c", "  ", "\t", " #", "\t# x: y"]));
    }
    match s.below(20) {
        0 => o.push_str("\r\n"),
        1 => o.push_str("\n\n"),
        2 => o.push_str("\n# c\n"),
        3 => o.push_str("\n  # c\n"),
        4 => o.push_str(s.pick(&["\r", "\u{85}", "\u{2028}", "\u{2029}"])),
        _ => o.push('\n'),
    }
}

fn flow_scalar(s: &mut Src, o: &mut String, ind: usize, multi: bool) {
    let brk = |s: &mut Src, o: &mut String| {
        o.push_str(s.pick(&["\n", "\n", "\n\n", "\r\n", "\n\n\n", " \n", "\t\n", "\u{85}", "\u{2028}"]));
        for _ in 0..ind + s.below(3) {
            o.push(' ');
        }
        if s.chance(1, 8) {
            o.push('\t');
        }
    };
    match s.below(6) {
        0..=2 => {
            let n = s.range(1, 4);
            for i in 0..n {
                if i > 0 {
                    if multi && s.chance(1, 4) {
                        brk(s, o);
                    } else {
                        o.push_str(s.pick(&[" ", "  ", "\t", " #", ":", "#", "-", "?", ", ", "/"]));
                    }
                }
                o.push_str(&word(s));
            }
        }
        3 => {
            o.push('\'');
            let n = s.below(5);
            for _ in 0..n {
                match s.below(8) {
                    0 => o.push_str("''"),
                    1 if multi => brk(s, o),
                    2 => o.push(' '),
                    3 => o.push(ch(s)),
                    _ => o.push_str(&word(s)),
                }
            }
            o.push('\'');
        }
        4 => {
            o.push('"');
            let n = s.below(6);
            for _ in 0..n {
                match s.below(10) {
                    0 => o.push_str(s.pick(&[
                        "\\0", "\\a", "\\b", "\\t", "\\\t", "\\n", "\\v", "\\f", "\\r", "\\e",
                        "\\ ", "\\\"", "\\/", "\\\\", "\\N", "\\_", "\\L", "\\P", "\\'",
                    ])),
                    1 => o.push_str(s.pick(&[
                        "\\x41", "\\xe9", "\\u0041", "\\u00E9", "\\u263a", "\\uFFFF", "\\uD7FF",
                        "\\U00010000", "\\U0010FFFF", "\\U0001F600", "\\uD800", "\\U00110000",
                        "\\xG1", "\\u12", "\\z",
                    ])),
                    2 if multi => {
                        o.push('\\');
                        brk(s, o);
                    }
                    3 if multi => brk(s, o),
                    4 => o.push(ch(s)),
                    5 => o.push(' '),
                    _ => o.push_str(&word(s)),
                }
            }
            o.push('"');
        }
        _ => o.push_str(s.pick(&["1", "~", "null", "true", "a:b", "a#b", "-1", "?a", ":a", "-a", "*a", "*b", "*x", "a\"b", "a'b", ".5", "=", "<<"])),
    }
}

fn flow(s: &mut Src, o: &mut String, ind: usize, depth: usize) {
    props(s, o);
    let ws = |s: &mut Src, o: &mut String| match s.below(12) {
        0 => o.push_str("  "),
        1 => {
            o.push('\n');
            o.push_str(&" ".repeat(ind));
        }
        2 => o.push_str(&format!(" # c\n{}", " ".repeat(ind))),
        3 => {}
        4 => o.push('\t'),
        _ => o.push(' '),
    };
    match if depth == 0 { 0 } else { s.below(4) } {
        0 | 1 => flow_scalar(s, o, ind, true),
        2 => {
            o.push('[');
            let n = s.below(4);
            for i in 0..n {
                ws(s, o);
                match s.below(8) {
                    0 => {
                        flow(s, o, ind, depth - 1);
                        o.push_str(": ");
                        flow(s, o, ind, depth - 1);
                    }
                    1 => {
                        o.push_str("? ");
                        flow(s, o, ind, depth - 1);
                        if s.chance(1, 2) {
                            o.push_str(" : ");
                            flow(s, o, ind, depth - 1);
                        }
                    }
                    2 => o.push_str(": v"),
                    _ => flow(s, o, ind, depth - 1),
                }
                if i + 1 < n || s.chance(1, 5) {
                    o.push(',');
                }
            }
            ws(s, o);
            o.push(']');
        }
        _ => {
            o.push('{');
            let n = s.below(4);
            for i in 0..n {
                ws(s, o);
                match s.below(8) {
                    0 => flow(s, o, ind, depth - 1),
                    1 => {
                        o.push_str("? ");
                        flow(s, o, ind, depth - 1);
                        if s.chance(1, 2) {
                            o.push_str(" : ");
                            flow(s, o, ind, depth - 1);
                        }
                    }
                    2 => {
                        o.push_str(": ");
                        flow(s, o, ind, depth - 1);
                    }
                    3 => o.push_str("\"k\":v"),
                    _ => {
                        flow(s, o, ind, depth - 1);
                        o.push_str(s.pick(&[": ", ": ", ":\n    ", " : ", ":"]));
                        flow(s, o, ind, depth - 1);
                    }
                }
                if i + 1 < n || s.chance(1, 5) {
                    o.push(',');
                }
            }
            ws(s, o);
            o.push('}');
        }
    }
}

fn block_scalar(s: &mut Src, o: &mut String, ind: usize) {
    o.push_str(s.pick(&["|", ">"]));
    let extra = s.below(3) + 1;
    let hint = s.chance(1, 3);
    let chomp = *s.pick(&["", "-", "+"]);
    if hint {
        let d = format!("{}", if s.chance(1, 6) { s.range(0, 9) } else { extra });
        if s.chance(1, 2) {
            o.push_str(&d);
            o.push_str(chomp);
        } else {
            o.push_str(chomp);
            o.push_str(&d);
        }
    } else {
        o.push_str(chomp);
    }
    if s.chance(1, 6) {
        o.push_str(s.pick(&[" # c", "  ", "\t", " #"]));
    }
    o.push_str(s.pick(&["\n", "\n", "\n", "\r\n", "\n\n"]));
    let n = s.below(5);
    for i in 0..n {
        match s.below(8) {
            0 => {}
            1 => o.push_str(&" ".repeat(s.below(ind + extra + 1))),
            2 => {
                o.push_str(&" ".repeat(ind + extra + s.range(1, 2)));
                o.push_str(&word(s));
            }
            3 => {
                o.push_str(&" ".repeat(ind + extra));
                o.push('\t');
                o.push_str(&word(s));
            }
            4 => {
                o.push_str(&" ".repeat(ind + extra));
                for _ in 0..s.range(1, 6) {
                    let c = ch(s);
                    o.push(c);
                }
            }
            _ => {
                o.push_str(&" ".repeat(ind + extra));
                o.push_str(&word(s));
                if s.chance(1, 3) {
                    o.push(' ');
                    o.push_str(&word(s));
                }
                if s.chance(1, 8) {
                    o.push(' ');
                }
            }
        }
        if i + 1 < n || !s.chance(1, 8) {
            o.push_str(match s.below(14) {
                0 => "\r\n",
                1 => "\u{85}",
                2 => "\u{2028}",
                3 => "\r",
                _ => "\n",
            });
        }
    }
}

/// `mid`: cursor is in the middle of a line.
fn block(s: &mut Src, o: &mut String, ind: usize, depth: usize, mid: bool) {
    let kind = if depth == 0 { s.below(5) } else { s.below(12) };
    match kind {
        0..=2 => {
            props(s, o);
            flow_scalar(s, o, ind + 1, true);
            eol(s, o);
        }
        3 => {
            props(s, o);
            block_scalar(s, o, ind);
        }
        4 => {
            props(s, o);
            flow(s, o, ind + 1, 2);
            eol(s, o);
        }
        5..=7 => {
            let mut ni = ind;
            if mid && !s.chance(1, 3) {
                props(s, o);
                eol(s, o);
            } else if mid {
                // compact
                let col = o.rsplit('\n').next().unwrap_or("").chars().count();
                ni = col;
            }
            let n = s.range(1, 3);
            for i in 0..n {
                if i > 0 || !mid || ni == ind {
                    o.push_str(&" ".repeat(ni));
                }
                o.push('-');
                if s.chance(1, 10) {
                    eol(s, o);
                } else {
                    o.push_str(s.pick(&[" ", " ", " ", "  ", "\t"]));
                    let step = s.range(1, 3);
                    block(s, o, ni + step, depth - 1, true);
                }
            }
        }
        _ => {
            let mut ni = ind;
            if mid && !s.chance(1, 3) {
                props(s, o);
                eol(s, o);
            } else if mid {
                let col = o.rsplit('\n').next().unwrap_or("").chars().count();
                ni = col;
            }
            let n = s.range(1, 3);
            for i in 0..n {
                if i > 0 || !mid || ni == ind {
                    o.push_str(&" ".repeat(ni));
                }
                if s.chance(1, 8) {
                    o.push_str("? ");
                    block(s, o, ni + 2, depth - 1, true);
                    if s.chance(3, 4) {
                        o.push_str(&" ".repeat(ni));
                        o.push_str(": ");
                        block(s, o, ni + 2, depth - 1, true);
                    }
                } else {
                    props(s, o);
                    if s.chance(1, 10) {
                        flow(s, o, ni + 1, 1);
                    } else {
                        flow_scalar(s, o, ni + 1, s.exhausted());
                    }
                    o.push(':');
                    if s.chance(1, 8) {
                        eol(s, o);
                    } else {
                        o.push_str(s.pick(&[" ", " ", " ", "  ", "\t"]));
                        let step = s.below(4);
                        block(s, o, ni + step, depth - 1, true);
                    }
                }
            }
        }
    }
}

/// Inputs aimed at limits: simple-key distance, buffer sizes, depth, digits.
pub fn limits(s: &mut Src) -> String {
    if s.chance(1, 30) {
        return huge(s);
    }
    match s.below(14) {
        0 => {
            // simple key length limit (1024)
            let n = 1015 + s.below(20);
            let q = *s.pick(&["", "'", "\""]);
            let pre = *s.pick(&["", "- ", "[", "{", "? ", "&a ", "!t "]);
            let post = match pre {
                "[" => "]",
                "{" => "}",
                _ => "",
            };
            let c = *s.pick(&["x", "é", "x", "中"]);
            format!("{pre}{q}{}{q}: v{post}\n", c.repeat(n / c.len().max(1) * if s.chance(1, 2) { c.len() } else { 1 }))
        }
        1 => {
            let n = 1015 + s.below(20);
            let pre = *s.pick(&["", "- ", "{", "[", "a: ", "? "]);
            format!("{pre}[{}]: v\n", "a,".repeat(n / 2))
        }
        2 => {
            let n = *s.pick(&[4090usize, 8185, 16370, 16380, 32760, 49140, 65530]) + s.below(16);
            let c = *s.pick(&["x", "é", "中", "😀", "x y ", "'' "]);
            let q = *s.pick(&["", "'", "\"", "|\n ", "# ", ">\n "]);
            let e = match q {
                "'" => "'",
                "\"" => "\"",
                _ => "",
            };
            let c = if q != "'" && c == "'' " { "x" } else { c };
            let m = n / c.len();
            format!("{q}{}{}{e}\nb: c\n", "y".repeat(n - m * c.len()), c.repeat(m))
        }
        3 => {
            let n = s.range(2, 60);
            let mut o = String::new();
            for _ in 0..n {
                o.push_str(s.pick(&["[", "{", "[", "{a: ", "[a, ", "- "]));
            }
            if s.chance(1, 2) {
                let closers: String = o
                    .chars()
                    .rev()
                    .filter_map(|c| match c {
                        '[' => Some(']'),
                        '{' => Some('}'),
                        _ => None,
                    })
                    .collect();
                o.push_str(&closers);
            }
            o
        }
        4 => {
            let n = s.range(2, 60);
            let mut o = String::new();
            for i in 0..n {
                o.push_str(&" ".repeat(i));
                o.push_str(s.pick(&["a:\n", "-\n", "? \n", "- a:\n"]));
            }
            o
        }
        5 => {
            let a = "123456789012"[..s.range(1, 12)].to_string();
            let b = "098765432109"[..s.range(1, 12)].to_string();
            format!("%YAML {a}.{b}\n--- x\n")
        }
        6 => {
            // percent escapes in tags
            let n = s.range(1, 5);
            let mut o = String::from(*s.pick(&["!", "!!", "!<", "!a!"]));
            for _ in 0..n {
                if s.chance(1, 5) {
                    o.push('x');
                }
                o.push_str(s.pick(&[
                    "%41", "%C3%A9", "%e2%98%ba", "%F0%9F%98%80", "%C3", "%A9", "%FF", "%c3%41",
                    "%", "%4", "%4g", "%00", "%ED%A0%80", "%20", "%21", "%C0%80", "%F4%90%80%80", "%0A", "%E2%98",
                ]));
            }
            o.push_str(s.pick(&[" x", "> x", ">", "", " ", "\n", ", "]));
            let pre = *s.pick(&["", "%TAG !a! tag:x,\n--- ", "[", "- "]);
            format!("{pre}{o}")
        }
        7 => {
            let h = *s.pick(&["!", "!!", "!a!", "!a", "a", "!a-b!", "!é!", ""]);
            let p = *s.pick(&["tag:x,2:", "!", "!b-", "", "%41", "a b", "é", "tag:%C3%A9", "x#y", "x,y[z]"]);
            format!("%TAG {h} {p}\n---\n- !a!x y\n- !!z w\n- !q v\n- ! u\n")
        }
        8 => {
            // block scalar headers
            let mut o = String::from(*s.pick(&["|", ">", "a: |", "- >", "- - |", "a:\n - >"]));
            o.push_str(s.pick(&["", "1", "2", "9", "0", "10", "-", "+", "1-", "-1", "+2", "2+", "-+", "--", "a", " a", "#", " #x"]));
            o.push_str(s.pick(&["\n", "\r\n", "\r", "", " \n", "\t\n"]));
            for _ in 0..s.below(6) {
                o.push_str(&" ".repeat(s.below(5)));
                o.push_str(s.pick(&["", "a", "b c", "\td", "# e", "- f", "g: h", "...", "---"]));
                o.push_str(s.pick(&["\n", "\n", "\r\n", "\r", "\u{85}", "\u{2028}", ""]));
            }
            o
        }
        9 => {
            // escapes at the end of input
            let mut o = String::from(*s.pick(&["\"", "a: \"", "[\"", "'", "- '"]));
            for _ in 0..s.below(4) {
                o.push_str(s.pick(&["a", "\\", "\\n", "\\x", "\\x4", "\\u123", "\\U0001F60", "\\\r", "\\\r\n", "\\\u{85}", "''", "\n", "---", "\n---", "\n--- ", "\n...", "\t", " "]));
            }
            o
        }
        10 => {
            // document markers and BOMs in unusual places
            let mut o = String::new();
            for _ in 0..s.range(1, 8) {
                o.push_str(s.pick(&["---", "...", "\n", " ", "\u{feff}", "a", "# c\n", "%YAML 1.1\n", "\r\n", "--- |\n", "--- >\n a\n", "--- \"a\"", "---\t", "...\u{85}", "- ", "a: b\n", "'x'\n"]));
            }
            o
        }
        11 => {
            // keys split over lines, tabs, indentation
            let mut o = String::new();
            for _ in 0..s.range(1, 8) {
                o.push_str(s.pick(&["a", "a\nb", "\ta", " ", "\t", ": ", ":\n", "? ", "- ", "\n", "\n ", "\n  ", "'a\nb'", "\"a\n b\"", ":\t", "-\t", "?\t", "&x", "*x ", "!t "]));
            }
            o
        }
        12 => {
            let n = s.range(1, 40);
            let mut o = String::new();
            for i in 0..n {
                o.push_str(&format!("- &a{i} {}\n", s.pick(&["x", "[*a0]", "{k: *a0}", "*a0", "!!str y"])));
            }
            o
        }
        _ => {
            // wide documents
            let n = s.range(10, 300);
            let p = *s.pick(&["- a\n", "a: b\n", "---\n", "- [a, {b: c}]\n", "# c\n", "\n", "a\n", "? a\n", "---\n...\n"]);
            p.repeat(n)
        }
    }
}

/// Numbers around those where a narrower integer or a fixed limit would give
/// out.
fn around(s: &mut Src, at: &[usize]) -> usize {
    s.pick(at) - 3 + s.below(7)
}
const BYTE: &[usize] = &[128, 256, 256, 512, 1000, 1024];
/// Lengths of names and lines, up to those where a buffer of the usual size is
/// full.
pub const LENGTHS: &[usize] = &[10, 18, 26, 34, 50, 66, 102, 130, 202, 258, 514, 1002, 1026, 4098, 8194, 16386, 65538];
const WORD: &[usize] = &[128, 256, 1000, 1024, 4096, 32768, 32768, 65536, 65536];

/// How many tokens an entry of `huge` has, about.
fn sut_tokens(entry: &str) -> usize {
    entry.split(|c: char| c.is_whitespace()).filter(|w| !w.is_empty()).count() * 2
}

/// Inputs of which one dimension is large: columns, lines, nesting, numbers
/// of items, anchors, directives, documents.
fn huge(s: &mut Src) -> String {
    let mut o = String::new();
    let tail = *s.pick(&["b: c\n", "- c\n", "&z !t 'c': *z\n", "[d, {e: f}]\n", "? g\n", "|\n  h\n", "# i\nj\n", "\"k\nl\": m\n", "", "]\n", ": n"]);
    match s.below(11) {
        0 => {
            // a wide column
            let n = around(s, WORD);
            let w = s.pick(&[" ", " ", "x", "é", "😀", "\t", "'' ", "[], "]);
            let n = n / w.chars().count();
            let (pre, post) = *s.pick(&[("-", "- a"), ("a:\n", "b: c"), ("{a: ", "b}"), ("'", "': d"), ("? ", ": x"), ("# ", ""), ("- &", " b"), ("- !", " b"), ("|\n ", "\n c"), (">\n ", " d\n e"), ("[", "a]: b")]);
            let q = if w.trim().is_empty() || s.chance(1, 2) { pre } else { "- " };
            o.push_str(q);
            o.push_str(&w.repeat(n));
            o.push_str(post);
            o.push('\n');
            if s.chance(1, 2) {
                o.push_str(&" ".repeat(n + s.below(3)));
            }
        }
        1 => {
            // flow collections in each other
            let n = around(s, BYTE);
            let (a, b) = *s.pick(&[("[", "]"), ("{a: ", "}"), ("[x, ", "]"), ("{", "}"), ("[? ", "]"), ("&a [", "]"), ("[{b: ", "}]")]);
            o.push_str(&a.repeat(n));
            if s.chance(1, 2) {
                o.push('x');
            }
            o.push_str(&b.repeat(n + s.below(3) - 1));
            o.push('\n');
        }
        2 => {
            // block collections in each other
            let n = around(s, BYTE).min(if s.chance(1, 4) { 1100 } else { 300 });
            match s.below(4) {
                0 => o.push_str(&"- ".repeat(n)),
                1 => o.push_str(&"? ".repeat(n)),
                2 => o.push_str(&"- ? ".repeat(n / 2)),
                _ => {
                    for i in 0..n {
                        o.push_str(&" ".repeat(i));
                        o.push_str("a:\n");
                    }
                    o.push_str(&" ".repeat(n));
                }
            }
            o.push_str("x\n");
        }
        3 => {
            // many lines
            let n = around(s, WORD);
            let l = s.pick(&["\n", "\r\n", "#\n", "\u{85}", "\u{2028}", " \n"]);
            let pre = *s.pick(&["", "a", "- |\n b\n", "- |+\n b\n", "'a", "- >\n c\n", "- ", "%TAG ! !\n"]);
            o.push_str(pre);
            o.push_str(&l.repeat(n));
            if pre == "'a" {
                o.push_str("'\n");
            }
        }
        4 => {
            // many entries, before the last of which a key is found
            let n = if s.chance(1, 5) { around(s, WORD) } else { around(s, BYTE) * s.range(1, 3) };
            let (a, b, c) = *s.pick(&[("[", "a, ", "]"), ("- a\n", "- a\n", ""), ("{", "a: b, ", "}"), ("{", "a, ", "}"), ("[", "[], ", "]"), ("a: b\n", "? a\n", "")]);
            o.push_str(a);
            o.push_str(&b.repeat(n));
            o.push_str(c);
            if c == "]" && s.chance(1, 2) {
                o.push_str(": x");
            }
            o.push('\n');
        }
        5 => {
            // anchors
            let n = around(s, BYTE);
            for i in 0..n {
                o.push_str(&format!("- &{i} {i}\n"));
            }
            for _ in 0..s.range(1, 4) {
                o.push_str(&format!("- *{}\n", s.below(n + 1)));
            }
        }
        6 => {
            // directives
            let n = around(s, BYTE);
            for i in 0..n {
                o.push_str(&format!("%TAG !{i}! tag:{i},\n"));
            }
            if s.chance(1, 4) {
                o.push_str(&format!("%TAG !{}! !\n", s.below(n + 1)));
            }
            o.push_str("---\n");
            for _ in 0..s.range(1, 4) {
                o.push_str(&format!("- !{}!a b\n", s.below(n + 1)));
            }
        }
        7 => {
            // documents
            let n = around(s, BYTE);
            let d = s.pick(&["--- a\n", "a\n...\n", "--- &a b\n", "%TAG !e! !\n--- !e!x y\n...\n", "---\n- a\n", "--- |\n b\n"]);
            o.push_str(&d.repeat(n));
            o.push_str(s.pick(&["", "--- ", "--- *a\n", "--- !e!x y\n"]));
        }
        8 => {
            // long names, alike but for their ends
            let n = *s.pick(LENGTHS) - s.below(3);
            let p = s.pick(&["a", "a", "-", "b_"]).repeat(n);
            let (h, q) = if s.chance(1, 2) { (&p[..], "q") } else { ("h", &p[..]) };
            if s.chance(1, 2) {
                o.push_str(&format!("%TAG !{h}1! tag:{q}1,\n%TAG !{h}2! tag:{q}2,\n"));
                if s.chance(1, 4) {
                    o.push_str(&format!("%TAG !{h}{}! x\n", s.below(4)));
                }
                o.push_str("---\n");
            }
            for _ in 0..s.range(2, 8) {
                let i = s.below(4);
                o.push_str(s.pick(&["- ", "- ", "- ", "  ", "? "]));
                match s.below(8) {
                    0..=2 => o.push_str(&format!("&{p}{i} x{i}")),
                    3..=4 => o.push_str(&format!("*{p}{i}")),
                    5 => o.push_str(&format!("!{h}{i}!{q}{i} y")),
                    6 => o.push_str(&format!("{p}{i}: z")),
                    _ => o.push_str(&format!("{{\"{p}{i}\": !<{q}{i}> z}}")),
                }
                o.push('\n');
            }
        }
        9 => {
            // a stream of many tokens, with a key to be found late
            let entry = *s.pick(&["- [a, b]\n", "- {a: b}\n", "- a: b\n", "---\na: b\n", "- &a b\n", "- [a: b]\n", "- ? a\n  : b\n"]);
            let per = sut_tokens(entry);
            let n = around(s, &[256, 1024, 32768, 65536]) / per + s.below(3);
            o.push_str(&entry.repeat(n));
            o.push_str(if entry.starts_with("---") { "--- " } else { "- " });
            o.push_str(s.pick(&["c: d\n", "[e]: f\n", "? g\n", "'h' : i\n", "{j: k}\n"]));
        }
        _ => {
            // one long token
            let n = around(s, WORD);
            let (a, b, c) = *s.pick(&[("&", "a", " b"), ("!", "a", " b"), ("!<", "%41", "> b"), ("%TAG !a! ", "b", "\n--- !a!c d"), ("%FOO ", "b", "\n---"), ("!", "a", "!b c"), ("*", "a", " "), ("\"", "\\x41", "\""), ("\"", "\\\n", "\""), ("'", "''", "'"), ("%YAML 1.", "0", "1\n---"), ("|", "-", "\n a"), (">", "1", "\n a")]);
            let n = if s.chance(1, 3) { n } else { n.min(1100) };
            o.push_str(a);
            o.push_str(&b.repeat(n));
            o.push_str(c);
            o.push('\n');
        }
    }
    if s.chance(2, 3) {
        o.push_str(tail);
    }
    o
}

/// Free-form YAML-ish text.
pub fn yaml(s: &mut Src) -> String {
    match s.below(16) {
        0..=6 => loose(s),
        7..=8 => {
            let mut t = loose(s);
            corrupt(s, &mut t);
            t
        }
        9..=12 => soup(s, 24),
        13..=14 => limits(s),
        _ => {
            let mut t = limits(s);
            corrupt(s, &mut t);
            t
        }
    }
}

pub fn corrupt(s: &mut Src, t: &mut String) {
    let mut v: Vec<char> = t.chars().collect();
    for _ in 0..s.range(1, 3) {
        let n = v.len();
        let i = if n == 0 { 0 } else { s.below(n.min(60000)) };
        match s.below(5) {
            0 if n > 0 => {
                v.remove(i);
            }
            1 => {
                let c = ch(s);
                v.insert(i, c);
            }
            2 => {
                let p: Vec<char> = s.pick(PIECES).chars().collect();
                v.splice(i..i, p);
            }
            3 if n > 0 => v.truncate(i),
            _ if n > 0 => {
                let c = ch(s);
                v[i] = c;
            }
            _ => {}
        }
    }
    *t = v.into_iter().collect();
}

// ------------------------------------------------------------------ encodings

pub fn to_utf16(t: &str, be: bool) -> Vec<u8> {
    let mut o = vec![];
    for u in t.encode_utf16() {
        o.extend_from_slice(&if be { u.to_be_bytes() } else { u.to_le_bytes() });
    }
    o
}


/// Arbitrary bytes: mostly YAML-like text in some encoding, sometimes damaged.
pub fn bytes(s: &mut Src) -> Vec<u8> {
    let t = yaml(s);
    match s.below(40) {
        0 | 1 => {
            let be = s.chance(1, 2);
            let mut o = if be { vec![0xfe, 0xff] } else { vec![0xff, 0xfe] };
            o.extend(to_utf16(&t, be));
            o
        }
        2 => {
            let mut o = vec![0xef, 0xbb, 0xbf];
            o.extend_from_slice(t.as_bytes());
            o
        }
        3 => {
            // damage some bytes
            let mut o = bytes_enc(s, &t);
            for _ in 0..s.range(1, 3) {
                let n = o.len();
                if n == 0 {
                    break;
                }
                let i = s.below(n.min(60000));
                match s.below(3) {
                    0 => o[i] = s.byte(),
                    1 => {
                        o.remove(i);
                    }
                    _ => {
                        let b = *s.pick(&[0xc3u8, 0xff, 0xfe, 0xef, 0xe2, 0xf0, 0x80, 0xd8, 0xdc, 0, 0xed, 0xa0]);
                        o.insert(i, b)
                    }
                }
            }
            o
        }
        _ => t.into_bytes(),
    }
}

pub fn bytes_enc(s: &mut Src, t: &str) -> Vec<u8> {
    match s.below(5) {
        0 => {
            let mut o = vec![0xff, 0xfe];
            o.extend(to_utf16(t, false));
            o
        }
        1 => {
            let mut o = vec![0xfe, 0xff];
            o.extend(to_utf16(t, true));
            o
        }
        2 => {
            let mut o = vec![0xef, 0xbb, 0xbf];
            o.extend_from_slice(t.as_bytes());
            o
        }
        _ => t.as_bytes().to_vec(),
    }
}

// ------------------------------------------------------------------ enumeration

/// Pieces whose short sequences are enumerated exhaustively.
pub const SYMBOLS: &[&str] = &[
    "a", " ", "\n", "- ", "-", "? ", ": ", ":", ",", "[", "]", "{", "}", "&a ", "*a ", "!t ", "|",
    ">", "'", "\"", "#", "---", "...", "%", "\n ", "\n  ",
];

/// Number of sequences of up to `len` symbols.
pub fn enum_count(len: u32) -> u64 {
    (1..=len).map(|k| (SYMBOLS.len() as u64).pow(k)).sum()
}

/// The i-th sequence in order of length.
pub fn enum_text(mut i: u64) -> String {
    let n = SYMBOLS.len() as u64;
    let mut len = 1;
    while i >= n.pow(len) {
        i -= n.pow(len);
        len += 1;
    }
    let mut o = String::new();
    for _ in 0..len {
        o.push_str(SYMBOLS[(i % n) as usize]);
        i /= n;
    }
    o
}

// ------------------------------------------------------------------ graphs

/// Text with many anchors and aliases, most of them resolvable.
pub fn graph(s: &mut Src) -> String {
    let long = if s.chance(1, 60) { Some(*s.pick(&LENGTHS[..14]) - s.below(3)) } else { None };
    let o = graph_of(s);
    match long {
        // names that are long, and alike but for their ends
        Some(n) => {
            let p = "n".repeat(n);
            o.replace("&n", &format!("&{p}")).replace("*n", &format!("*{p}"))
        }
        None => o,
    }
}

fn graph_of(s: &mut Src) -> String {
    let mut o = String::new();
    let nd = match s.below(5) {
        0 => 2,
        1 => s.range(1, 4),
        _ => 1,
    };
    for d in 0..nd {
        if d > 0 || s.chance(1, 5) {
            if s.chance(1, 8) {
                o.push_str(s.pick(&["%YAML 1.1\n", "%TAG !e! tag:e,\n", "%TAG ! tag:x,\n"]));
            }
            o.push_str("--- ");
        }
        let mut names = vec![];
        let keep = s.chance(1, 6);
        let depth = s.range(1, 4);
        gflow(s, &mut o, &mut names, depth, keep);
        o.push('\n');
        if s.chance(1, 6) {
            o.push_str("...\n");
        }
    }
    o
}

fn gprops(s: &mut Src, o: &mut String, names: &mut Vec<usize>, dup: bool) {
    let tag = s.chance(1, 6);
    let anchor = s.chance(2, 5);
    let t = if tag { *s.pick(&["! ", "!t ", "!!str ", "!!seq ", "!!map ", "!<x> ", "!e!y "]) } else { "" };
    if anchor {
        let n = if dup && s.chance(1, 4) {
            s.below(names.len().max(1))
        } else {
            names.iter().max().map_or(0, |m| m + 1)
        };
        names.push(n);
        if s.chance(1, 2) {
            o.push_str(&format!("&n{n} {t}"));
        } else {
            o.push_str(&format!("{t}&n{n} "));
        }
    } else {
        o.push_str(t);
    }
}

fn gflow(s: &mut Src, o: &mut String, names: &mut Vec<usize>, depth: usize, dup: bool) {
    let k = if depth == 0 { s.below(4) } else { s.below(9) };
    match k {
        0 | 1 => {
            gprops(s, o, names, dup);
            o.push_str(s.pick(&["a", "b c", "'q'", "\"d\"", "1", "''", "~"]));
        }
        2 | 3 => {
            if names.is_empty() || s.chance(1, 40) {
                o.push_str(s.pick(&["x", "*zz ", "y", "z"]));
            } else {
                let n = *s.pick(&names.clone());
                o.push_str(&format!("*n{n} "));
            }
        }
        4..=6 => {
            gprops(s, o, names, dup);
            o.push('[');
            for i in 0..s.below(5) {
                if i > 0 {
                    o.push_str(", ");
                }
                if s.chance(1, 10) {
                    gflow(s, o, names, depth - 1, dup);
                    o.push_str(" : ");
                }
                gflow(s, o, names, depth - 1, dup);
            }
            o.push(']');
        }
        _ => {
            gprops(s, o, names, dup);
            o.push('{');
            for i in 0..s.below(5) {
                if i > 0 {
                    o.push_str(", ");
                }
                gflow(s, o, names, depth - 1, dup);
                if !s.chance(1, 8) {
                    o.push_str(" : ");
                    gflow(s, o, names, depth - 1, dup);
                }
            }
            o.push('}');
        }
    }
}
