#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
use libyaml_safer::*;
use std::io::{BufRead, Read, Write};

fn m(m: Mark) -> String {
    format!("{}:{}({})", m.line, m.column, m.index)
}
/// Tokens with marks; an error ends the list.
fn toks_from<R: BufRead>(r: R) -> Vec<String> {
    let mut s = Scanner::new();
    s.set_input(r);
    let mut v = vec![];
    loop {
        match Scanner::scan(&mut s) {
            Ok(t) => {
                v.push(format!("{:?} {}-{}", t.data, m(t.start_mark), m(t.end_mark)));
                if matches!(t.data, TokenData::StreamEnd) {
                    return v;
                }
            }
            Err(e) => {
                v.push(format!("ERROR {e}"));
                return v;
            }
        }
    }
}
fn toks(b: &[u8]) -> Vec<String> {
    toks_from(b)
}
fn events<R: BufRead>(p: &mut Parser<R>) -> Vec<Result<Event>> {
    let mut v = vec![];
    loop {
        let r = p.parse();
        let stop = match &r {
            Ok(e) => matches!(e.data, EventData::StreamEnd),
            Err(_) => true,
        };
        v.push(r);
        if stop {
            return v;
        }
    }
}
/// Events with marks; an error ends the list.
fn evs_from<R: BufRead>(r: R) -> Vec<String> {
    let mut p = Parser::new();
    p.set_input(r);
    show(&events(&mut p))
}
fn show(v: &[Result<Event>]) -> Vec<String> {
    v.iter()
        .map(|r| match r {
            Ok(e) => format!("{:?} {}-{}", e.data, m(e.start_mark), m(e.end_mark)),
            Err(e) => format!("ERROR {e}"),
        })
        .collect()
}
fn evs(b: &[u8]) -> Vec<String> {
    evs_from(b)
}
/// The values of all scalars; an error ends the list.
fn vals_from<R: BufRead>(r: R) -> Vec<String> {
    let mut p = Parser::new();
    p.set_input(r);
    let mut v = vec![];
    for r in events(&mut p) {
        match r {
            Ok(e) => {
                if let EventData::Scalar { value, .. } = e.data {
                    v.push(value)
                }
            }
            Err(e) => v.push(format!("ERROR {e}")),
        }
    }
    v
}
fn vals(b: &[u8]) -> Vec<String> {
    vals_from(b)
}
/// Tags of all scalars.
fn tags(b: &[u8]) -> Vec<String> {
    let mut p = Parser::new();
    p.set_input(b);
    let mut v = vec![];
    for r in events(&mut p) {
        match r {
            Ok(e) => {
                if let EventData::Scalar { tag, .. } = e.data {
                    v.push(tag.unwrap_or_else(|| "-".into()))
                }
            }
            Err(e) => v.push(format!("ERROR {e}")),
        }
    }
    v
}
fn docs(b: &[u8]) -> Vec<Result<Document>> {
    let mut p = Parser::new();
    p.set_input(b);
    let mut v = vec![];
    loop {
        let r = Document::load(&mut p);
        let stop = match &r {
            Ok(d) => d.nodes.is_empty(),
            Err(_) => true,
        };
        v.push(r);
        if stop {
            return v;
        }
    }
}
fn scalar(v: &str, style: ScalarStyle) -> Event {
    Event::scalar(None, None, v, true, true, style)
}
fn plain(v: &str) -> Event {
    scalar(v, ScalarStyle::Plain)
}
/// One document around the given events.
fn doc(content: Vec<Event>) -> Vec<Event> {
    let mut v = vec![
        Event::stream_start(Encoding::Utf8),
        Event::document_start(None, &[], true),
    ];
    v.extend(content);
    v.push(Event::document_end(true));
    v.push(Event::stream_end());
    v
}
fn emit(set: impl Fn(&mut Emitter), evs: Vec<Event>) -> std::result::Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let mut e = Emitter::new();
    set(&mut e);
    e.set_output(&mut out);
    for ev in evs {
        e.emit(ev).map_err(|e| e.to_string())?;
    }
    e.flush().map_err(|e| e.to_string())?;
    drop(e);
    Ok(out)
}
fn emits(set: impl Fn(&mut Emitter), evs: Vec<Event>) -> String {
    String::from_utf8(emit(set, evs).unwrap()).unwrap()
}
/// The scalar values that come back after emitting.
fn back(set: impl Fn(&mut Emitter), evs: Vec<Event>) -> Vec<String> {
    vals(&emit(set, evs).unwrap())
}
/// A reader that hands out at most `n` bytes at a time.
struct Chunks<'a>(&'a [u8], usize);
impl Read for Chunks<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0.len()).min(self.1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
impl BufRead for Chunks<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        Ok(&self.0[..self.0.len().min(self.1)])
    }
    fn consume(&mut self, n: usize) {
        self.0 = &self.0[n..];
    }
}
/// A reader that fails once its bytes are used up.
struct Fails<'a>(&'a [u8], std::io::ErrorKind);
impl Fails<'_> {
    fn err(&self) -> std::io::Error {
        std::io::Error::new(self.1, "the fault")
    }
}
impl Read for Fails<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() {
            return Err(self.err());
        }
        let n = b.len().min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
impl BufRead for Fails<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.0.is_empty() {
            return Err(self.err());
        }
        Ok(self.0)
    }
    fn consume(&mut self, n: usize) {
        self.0 = &self.0[n..];
    }
}
fn utf16(s: &str, be: bool, bom: bool) -> Vec<u8> {
    let mut v = vec![];
    let t: String = if bom { format!("\u{feff}{s}") } else { s.into() };
    for u in t.encode_utf16() {
        v.extend(if be { u.to_be_bytes() } else { u.to_le_bytes() });
    }
    v
}
/// Run one of the programs on files with these contents; (status, stdout, stderr).
fn program(name: &str, files: &[&str]) -> (bool, String, String) {
    let dir = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
    let mut c = std::process::Command::new(dir.join(name));
    for (i, f) in files.iter().enumerate() {
        let p = dir.join(format!("in{i}"));
        std::fs::write(&p, f).unwrap();
        c.arg(p);
    }
    let o = c.output().unwrap();
    let s = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
    (o.status.success(), s(o.stdout), s(o.stderr))
}
