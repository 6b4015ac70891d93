//! Implementation-neutral representation of everything the two libraries
//! produce and consume.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord, Hash)]
pub struct Mk {
    pub i: u64,
    pub l: u64,
    pub c: u64,
}

/// Byte string that is printed as text.
#[derive(Clone, PartialEq, Eq, Default, PartialOrd, Ord, Hash)]
pub struct Bs(pub Vec<u8>);

impl Bs {
    pub fn s(&self) -> Option<&str> {
        std::str::from_utf8(&self.0).ok()
    }
    pub fn is_utf8(&self) -> bool {
        self.s().is_some()
    }
}
impl From<&str> for Bs {
    fn from(s: &str) -> Self {
        Bs(s.as_bytes().to_vec())
    }
}
impl From<String> for Bs {
    fn from(s: String) -> Self {
        Bs(s.into_bytes())
    }
}
impl std::fmt::Debug for Bs {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.s() {
            Some(s) => write!(f, "{s:?}"),
            None => write!(f, "bytes{:?}", self.0),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tok {
    StreamStart(u8),
    StreamEnd,
    Version(i32, i32),
    TagDir(Bs, Bs),
    DocStart,
    DocEnd,
    BlockSeqStart,
    BlockMapStart,
    BlockEnd,
    FlowSeqStart,
    FlowSeqEnd,
    FlowMapStart,
    FlowMapEnd,
    BlockEntry,
    FlowEntry,
    Key,
    Value,
    Alias(Bs),
    Anchor(Bs),
    Tag(Bs, Bs),
    Scalar(Bs, u8),
    /// libyaml's "no token" after an error or the end of the stream
    None,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct TokM {
    pub t: Tok,
    pub s: Mk,
    pub e: Mk,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ev {
    StreamStart(u8),
    StreamEnd,
    DocStart {
        ver: Option<(i32, i32)>,
        tags: Vec<(Bs, Bs)>,
        implicit: bool,
    },
    DocEnd(bool),
    Alias(Bs),
    Scalar {
        anchor: Option<Bs>,
        tag: Option<Bs>,
        value: Bs,
        pi: bool,
        qi: bool,
        style: u8,
    },
    SeqStart {
        anchor: Option<Bs>,
        tag: Option<Bs>,
        implicit: bool,
        style: u8,
    },
    SeqEnd,
    MapStart {
        anchor: Option<Bs>,
        tag: Option<Bs>,
        implicit: bool,
        style: u8,
    },
    MapEnd,
    None,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct EvM {
    pub ev: Ev,
    pub s: Mk,
    pub e: Mk,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Kind {
    Reader,
    Scanner,
    Parser,
    Composer,
    Emitter,
    Io,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ErrN {
    pub kind: Kind,
    pub problem: String,
    pub pmark: Option<Mk>,
    pub context: Option<String>,
    pub cmark: Option<Mk>,
    /// display string (library under test) or empty (reference)
    pub display: String,
    /// reference only: offset/value of reader errors
    pub offset: u64,
    pub value: i64,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum NodeK {
    Scalar(Bs, u8),
    Seq(Vec<i32>, u8),
    Map(Vec<(i32, i32)>, u8),
    None,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct NodeN {
    pub k: NodeK,
    pub tag: Option<Bs>,
    pub s: Mk,
    pub e: Mk,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct DocN {
    pub nodes: Vec<NodeN>,
    pub ver: Option<(i32, i32)>,
    pub tags: Vec<(Bs, Bs)>,
    pub start_implicit: bool,
    pub end_implicit: bool,
    pub s: Mk,
    pub e: Mk,
}

/// Emitter settings.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct EmCfg {
    pub canonical: bool,
    pub indent: Option<i32>,
    pub width: Option<i32>,
    pub unicode: bool,
    /// 0 any, 1 cr, 2 ln, 3 crln
    pub brk: u8,
    /// 0 any (=utf8), 1 utf8, 2 utf16le, 3 utf16be
    pub enc: u8,
}

/// A setting changed while the emitter is in use: which (0 canonical,
/// 1 indent, 2 width, 3 unicode, 4 break), and to what.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Later {
    /// index of the event before which it is changed
    pub at: usize,
    pub which: u8,
    pub value: i32,
}

impl Default for EmCfg {
    fn default() -> Self {
        EmCfg {
            canonical: false,
            indent: None,
            width: None,
            unicode: false,
            brk: 0,
            enc: 0,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct EmitOut {
    /// everything that reached the writer
    pub bytes: Vec<u8>,
    /// index of the event whose emit() failed, with the error
    pub err: Option<(usize, ErrN)>,
}
