//! P03: document loading against an independent composer over the reference
//! event stream, and against libyaml's own loader.
use super::*;
use crate::diff::{self, ErrCmp};
use crate::model::*;
use crate::{reference, sut};

pub const STR: &str = "tag:yaml.org,2002:str";
pub const SEQ: &str = "tag:yaml.org,2002:seq";
pub const MAP: &str = "tag:yaml.org,2002:map";

/// Composer model. Documents up to the first error; `None` in the error slot
/// when the stream ends regularly.
pub fn compose(evs: &[EvM], end: Option<&ErrN>) -> (Vec<DocN>, Option<(Kind, &'static str, Option<Mk>, Option<Mk>)>) {
    let mut docs = vec![];
    let mut cur: Option<DocN> = None;
    let mut names: Vec<(Bs, i32, Mk)> = vec![];
    let mut stack: Vec<i32> = vec![];
    let tagof = |t: &Option<Bs>, d: &str| match t {
        Some(t) if t.s() != Some("!") => Some(t.clone()),
        _ => Some(Bs::from(d)),
    };
    fn attach(d: &mut DocN, stack: &[i32], idx: i32) {
        if let Some(&p) = stack.last() {
            match &mut d.nodes[p as usize - 1].k {
                NodeK::Seq(v, _) => v.push(idx),
                NodeK::Map(v, _) => match v.last_mut() {
                    Some(l) if l.1 == 0 => l.1 = idx,
                    _ => v.push((idx, 0)),
                },
                _ => unreachable!(),
            }
        }
    }
    for e in evs {
        let node = match &e.ev {
            Ev::DocStart { ver, tags, implicit } => {
                cur = Some(DocN {
                    nodes: vec![],
                    ver: *ver,
                    tags: tags.clone(),
                    start_implicit: *implicit,
                    end_implicit: false,
                    s: e.s,
                    e: Mk::default(),
                });
                names.clear();
                stack.clear();
                continue;
            }
            Ev::DocEnd(i) => {
                let mut d = cur.take().expect("document");
                d.end_implicit = *i;
                d.e = e.e;
                docs.push(d);
                continue;
            }
            Ev::SeqEnd | Ev::MapEnd => {
                let p = stack.pop().expect("open collection");
                cur.as_mut().expect("document").nodes[p as usize - 1].e = e.e;
                continue;
            }
            Ev::Alias(a) => {
                match names.iter().find(|n| n.0 == *a) {
                    Some(n) => attach(cur.as_mut().expect("document"), &stack, n.1),
                    None => {
                        return (docs, Some((Kind::Composer, "found undefined alias", Some(e.s), None)))
                    }
                }
                continue;
            }
            Ev::Scalar { anchor, tag, value, style, .. } => {
                (NodeK::Scalar(value.clone(), *style), anchor, tagof(tag, STR), false)
            }
            Ev::SeqStart { anchor, tag, style, .. } => {
                (NodeK::Seq(vec![], *style), anchor, tagof(tag, SEQ), true)
            }
            Ev::MapStart { anchor, tag, style, .. } => {
                (NodeK::Map(vec![], *style), anchor, tagof(tag, MAP), true)
            }
            _ => continue,
        };
        let d = cur.as_mut().expect("document");
        d.nodes.push(NodeN {
            k: node.0,
            tag: node.2,
            s: e.s,
            e: e.e,
        });
        let idx = d.nodes.len() as i32;
        if let Some(a) = node.1 {
            if let Some(n) = names.iter().find(|n| n.0 == *a) {
                return (
                    docs,
                    Some((Kind::Composer, "second occurrence", Some(e.s), Some(n.2))),
                );
            }
            names.push((a.clone(), idx, e.s));
        }
        attach(d, &stack, idx);
        if node.3 {
            stack.push(idx);
        }
    }
    (docs, end.map(|e| (e.kind, "", None, None)))
}

/// A document of many nodes, with anchors early and late.
fn many_nodes(s: &mut Src) -> String {
    let n = *s.pick(&[130usize, 260, 1000, 4000, 33_000, 66_000]);
    let flow = s.chance(1, 2);
    let map = s.chance(1, 2);
    let mut t = String::new();
    let mut put = |x: &str, last: bool| {
        let line = match (flow, map) {
            (true, true) => format!("k: {x}, "),
            (true, false) => format!("{x}, "),
            (false, true) => format!("k: {x}\n"),
            (false, false) => format!("- {x}\n"),
        };
        t.push_str(&line);
        if last {
            t.push_str(if !flow {
                ""
            } else if map {
                "}"
            } else {
                "]"
            });
        }
    };
    let open = match (flow, map) {
        (true, true) => "{",
        (true, false) => "[",
        _ => "",
    };
    put("&one 1", false);
    let late = s.below(n);
    for i in 0..n {
        if i == late {
            put("*one", false);
        }
        put("x", false);
    }
    for x in ["&two [a, b]", "*one", "*two", "&three {k: v}", "[*two, *three]", "*three", "y"] {
        put(x, x == "y");
    }
    format!("{open}{t}")
}

pub struct P03;
impl Prop for P03 {
    fn id(&self) -> &'static str {
        "P03"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Text(0)
    }
    fn rule(&self) -> &'static str {
        "case = one byte input (YAML-like text rich in anchors, aliases and several documents); loaded to the end of the stream; non-trivial = at least one non-empty document was loaded; distinct by input"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (2_500_000, 40),
            Tier::Thorough => (50_000_000, 50),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        let mut s = Src::record(rng);
        if s.chance(1, 4000) {
            return many_nodes(&mut s).into_bytes();
        }
        match s.below(4) {
            0 => gen::bytes(&mut s),
            _ => gen::graph(&mut s).into_bytes(),
        }
    }
    fn fixed(&self) -> Vec<Vec<u8>> {
        let mut v = super::p01::regressions();
        for t in ["&a [*a]", "&a {*a: *a}", "- &a x\n- *a\n- &a y\n", "*a", "--- &a x\n--- *a\n", "? &a a\n: *a\n", "! a", "! [! {}]"] {
            v.push(t.as_bytes().to_vec());
        }
        v
    }
    fn check(&self, case: &[u8], ctx: &mut Ctx) -> Verdict {
        let ab = diff::about(case);
        let a = sut::docs(case);
        if ab.odd {
            ctx.class("skipped: %XX escapes without a meaning in libyaml");
            return Ok(());
        }
        let ev = reference::events(case);
        let (docs, end) = compose(&ev.0, ev.1.as_ref());
        ctx.nontrivial = !a.0.is_empty();
        for d in &a.0 {
            if d.nodes.iter().any(|n| matches!(&n.k, NodeK::Seq(..) | NodeK::Map(..))) {
                ctx.class("collection");
            }
            if d.nodes.len() > 1000 {
                ctx.class("thousands of nodes");
                ctx.heavy = true;
            }
            if shared(d) {
                ctx.class("shared node");
            }
            if cyclic(d) {
                ctx.class("cycle");
            }
        }
        if a.0.len() > 1 {
            ctx.class("several documents");
        }
        if let Some(e) = &a.1 {
            ctx.class(&format!("{:?} error {}", e.kind, if e.kind == Kind::Composer { &e.problem } else { "" }));
        }
        let n = a.0.len().min(docs.len());
        for i in 0..n {
            if a.0[i] != docs[i] {
                return Err(format!(
                    "document {i}: {}\nbut its events compose to {}",
                    short(&format!("{:?}", a.0[i])),
                    short(&format!("{:?}", docs[i]))
                ));
            }
        }
        let reader = a.1.as_ref().map_or(false, |e| e.kind == Kind::Reader)
            || end.as_ref().map_or(false, |e| e.0 == Kind::Reader);
        if ab.malformed && a.1.is_some() && end.is_some() && reader {
            return Ok(());
        }
        if a.0.len() != docs.len() {
            return Err(format!("{} documents, expected {}; error {:?}", a.0.len(), docs.len(), a.1.as_ref().map(|e| &e.display)));
        }
        match (&a.1, end) {
            (None, None) => {}
            (Some(x), Some((k, problem, pm, cm))) => {
                if x.kind != k {
                    return Err(format!("error {} but expected a {k:?} error", x.display));
                }
                if k == Kind::Composer && (x.problem != problem || x.pmark != pm || x.cmark != cm) {
                    return Err(format!("error {} but expected {problem} at {pm:?} / {cm:?}", x.display));
                }
            }
            (x, y) => return Err(format!("error {:?}, expected {:?}", x.as_ref().map(|e| &e.display), y)),
        }
        let b = reference::docs(case);
        diff::diff(&a, &b, ErrCmp::Kind, ab.malformed)
    }
    fn describe(&self, case: &[u8]) -> String {
        show(case)
    }
}

pub fn refs(d: &DocN) -> Vec<u32> {
    let mut c = vec![0; d.nodes.len() + 1];
    for n in &d.nodes {
        match &n.k {
            NodeK::Seq(v, _) => v.iter().for_each(|i| c[*i as usize] += 1),
            NodeK::Map(v, _) => v.iter().for_each(|(a, b)| {
                c[*a as usize] += 1;
                c[*b as usize] += 1
            }),
            _ => {}
        }
    }
    c
}
pub fn shared(d: &DocN) -> bool {
    refs(d).iter().any(|c| *c > 1)
}
pub fn cyclic(d: &DocN) -> bool {
    // a node that refers to itself or an earlier collection containing it;
    // loader indices grow in document order, so a reference to a smaller or
    // equal index from inside is enough to be interesting
    d.nodes.iter().enumerate().any(|(i, n)| match &n.k {
        NodeK::Seq(v, _) => v.iter().any(|x| *x as usize <= i + 1),
        NodeK::Map(v, _) => v.iter().any(|(a, b)| *a as usize <= i + 1 || *b as usize <= i + 1),
        _ => false,
    })
}
