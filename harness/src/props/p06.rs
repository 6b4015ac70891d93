//! Documents: P06 dump and load, P18 the building interface.
use super::p03::{cyclic, shared, MAP, SEQ, STR};
use super::*;
use crate::evgen;
use crate::model::*;
use crate::{reference, rt, sut};
use libyaml_safer as y;

fn tag(s: &mut Src) -> Option<Bs> {
    if !s.chance(1, 4) {
        return None;
    }
    Some((*s.pick(evgen::TAGS)).into())
}

fn directives(s: &mut Src, d: &mut DocN) {
    if s.chance(1, 6) {
        d.ver = Some(*s.pick(&[(1, 1), (1, 2)]));
    }
    if s.chance(1, 5) {
        for _ in 0..s.range(1, 2) {
            let h: Bs = (*s.pick(&["!", "!!", "!a!", "!e!"])).into();
            let p: Bs = (*s.pick(&["tag:e,2000:", "!", "!x-", "tag:yaml.org,2002:", "x", "é"])).into();
            if !d.tags.iter().any(|t| t.0 == h) {
                d.tags.push((h, p));
            }
        }
    }
    d.start_implicit = !s.chance(1, 3);
    d.end_implicit = !s.chance(1, 3);
}

pub fn blank() -> DocN {
    DocN {
        nodes: vec![],
        ver: None,
        tags: vec![],
        start_implicit: true,
        end_implicit: true,
        s: Mk::default(),
        e: Mk::default(),
    }
}

fn new_node(k: NodeK, tag: Option<Bs>) -> NodeN {
    NodeN {
        k,
        tag,
        s: Mk::default(),
        e: Mk::default(),
    }
}

/// Many nodes: shared, nested, or in pairs.
fn large(s: &mut Src, d: &mut DocN) {
    let n = s.pick(&[128usize, 256, 1000, 1000, 1024]) - 3 + s.below(7);
    let (kind, st, share) = (s.below(3), s.below(3) as u8, s.chance(2, 3));
    let leaf = |i: usize| new_node(NodeK::Scalar(format!("v{i}").into(), 1), Some(STR.into()));
    let first = 2..(n as i32 + 2);
    match kind {
        0 => {
            let twice = if share { first.clone().rev().collect() } else { vec![] };
            d.nodes.push(new_node(NodeK::Seq(first.chain(twice).collect(), st), Some(SEQ.into())));
            d.nodes.extend((0..n).map(leaf));
        }
        1 => {
            let mut v: Vec<(i32, i32)> = first.clone().map(|i| (i, if i % 7 == 0 { 2 } else { i })).collect();
            if !share {
                v = first.step_by(2).map(|i| (i, (i + 1).min(n as i32 + 1))).collect();
            }
            d.nodes.push(new_node(NodeK::Map(v, st), Some(MAP.into())));
            d.nodes.extend((0..n).map(leaf));
        }
        _ => {
            // each collection holds the next one; lines are indented
            let n = n.min(260);
            let maps = s.chance(1, 2);
            for i in 0..n as i32 {
                let back = if share { 1 + i / 2 } else { n as i32 + 1 };
                d.nodes.push(if maps && i % 2 == 0 {
                    new_node(NodeK::Map(vec![(back, i + 2)], st), Some(MAP.into()))
                } else {
                    new_node(NodeK::Seq(vec![i + 2, back], st), Some(SEQ.into()))
                });
            }
            d.nodes.push(leaf(0));
        }
    }
}

/// A document graph; the model's own representation, not built yet.
fn document(s: &mut Src) -> DocN {
    let mut d = blank();
    directives(s, &mut d);
    if s.chance(1, 4000) {
        large(s, &mut d);
        return d;
    }
    let n = match s.below(8) {
        0 => 1,
        1..=4 => s.range(2, 6),
        5 | 6 => s.range(3, 14),
        _ => s.range(10, 40),
    };
    for i in 0..n {
        let k = if i == 0 && n > 1 { 1 + s.below(2) } else { *s.pick(&[0usize, 0, 0, 1, 2]) };
        let t = tag(s);
        let st = s.below(3) as u8;
        d.nodes.push(match k {
            0 => {
                let v = if s.chance(1, 2) { gen::word(s) } else { gen::value(s) };
                new_node(NodeK::Scalar(v.into(), s.below(6) as u8), t.or(Some(STR.into())))
            }
            1 => new_node(NodeK::Seq(vec![], st), t.or(Some(SEQ.into()))),
            _ => new_node(NodeK::Map(vec![], st), t.or(Some(MAP.into()))),
        });
    }
    let coll: Vec<usize> = (0..n).filter(|&i| !matches!(d.nodes[i].k, NodeK::Scalar(..))).collect();
    if coll.is_empty() {
        return d;
    }
    let link = |d: &mut DocN, p: usize, a: i32, b: i32| match &mut d.nodes[p].k {
        NodeK::Seq(v, _) => v.push(a),
        NodeK::Map(v, _) => v.push((a, b)),
        _ => {}
    };
    // mostly a tree, so that everything can be reached
    let shape = s.below(4);
    let mut i = 1;
    while i < n {
        let cands: Vec<usize> = coll.iter().copied().filter(|&c| c < i).collect();
        if cands.is_empty() {
            break;
        }
        let p = match shape {
            0 => *cands.last().unwrap(),
            1 => cands[0],
            _ => *s.pick(&cands),
        };
        if s.chance(1, 10) {
            i += 1;
            continue;
        }
        if matches!(d.nodes[p].k, NodeK::Map(..)) {
            let b = if i + 1 < n && s.chance(3, 4) { i + 2 } else { i + 1 };
            link(&mut d, p, i as i32 + 1, b as i32);
            i += if b == i + 2 { 2 } else { 1 };
        } else {
            link(&mut d, p, i as i32 + 1, 0);
            i += 1;
        }
    }
    // extra references: sharing and cycles
    let extra = if s.chance(1, 2) { s.below(6) } else { 0 };
    for _ in 0..extra {
        let p = *s.pick(&coll);
        let a = s.range(1, n) as i32;
        let b = s.range(1, n) as i32;
        link(&mut d, p, a, b);
    }
    d
}

pub fn build(d: &DocN) -> y::Document {
    let tags: Vec<_> = d.tags.iter().map(sut::tagdir).collect();
    let mut o = y::Document::new(d.ver.map(sut::version), &tags, d.start_implicit, d.end_implicit);
    for n in &d.nodes {
        let t = n.tag.as_ref().map(|t| t.s().unwrap());
        let _ = match &n.k {
            NodeK::Scalar(v, st) => o.add_scalar(t, v.s().unwrap(), sut::sstyle_to(*st)),
            NodeK::Seq(_, st) => o.add_sequence(t, sut::qstyle_to(*st)),
            NodeK::Map(_, st) => o.add_mapping(t, sut::mstyle_to(*st)),
            NodeK::None => unreachable!(),
        };
    }
    for (i, n) in d.nodes.iter().enumerate() {
        let id = i as i32 + 1;
        match &n.k {
            NodeK::Seq(v, _) => v.iter().for_each(|x| o.append_sequence_item(id, *x)),
            NodeK::Map(v, _) => v.iter().for_each(|p| o.yaml_document_append_mapping_pair(id, p.0, p.1)),
            _ => {}
        }
    }
    o
}

/// The events of a document: a depth-first walk, with an anchor on every node
/// referred to more than once, numbered in the order in which the second
/// references are met.
pub fn events_of(d: &DocN) -> Vec<Ev> {
    let n = d.nodes.len();
    let mut refs = vec![0u32; n + 1];
    let mut ids = vec![0u32; n + 1];
    let mut last = 0;
    fn kids(k: &NodeK) -> Vec<i32> {
        match k {
            NodeK::Seq(v, _) => v.clone(),
            NodeK::Map(v, _) => v.iter().flat_map(|p| [p.0, p.1]).collect(),
            _ => vec![],
        }
    }
    let mut stack = vec![vec![1i32]];
    while let Some(top) = stack.last_mut() {
        if top.is_empty() {
            stack.pop();
            continue;
        }
        let i = top.remove(0) as usize;
        refs[i] += 1;
        match refs[i] {
            1 => stack.push(kids(&d.nodes[i - 1].k)),
            2 => {
                last += 1;
                ids[i] = last;
            }
            _ => {}
        }
    }
    let mut out = vec![Ev::DocStart {
        ver: d.ver,
        tags: d.tags.clone(),
        implicit: d.start_implicit,
    }];
    let mut done = vec![false; n + 1];
    enum W {
        Node(i32),
        End(Ev),
    }
    let mut work = vec![W::Node(1)];
    while let Some(w) = work.pop() {
        let i = match w {
            W::End(e) => {
                out.push(e);
                continue;
            }
            W::Node(i) => i as usize,
        };
        let anchor = if ids[i] > 0 { Some(Bs::from(format!("id{:03}", ids[i]))) } else { None };
        if done[i] {
            out.push(Ev::Alias(anchor.expect("anchor")));
            continue;
        }
        done[i] = true;
        let node = &d.nodes[i - 1];
        let tag = node.tag.clone();
        let is = |t: &str| tag.as_ref().map_or(false, |x| x.s() == Some(t));
        match &node.k {
            NodeK::Scalar(v, st) => out.push(Ev::Scalar {
                anchor,
                pi: is(STR),
                qi: is(STR),
                tag,
                value: v.clone(),
                style: *st,
            }),
            NodeK::Seq(_, st) => {
                out.push(Ev::SeqStart {
                    anchor,
                    implicit: is(SEQ),
                    tag,
                    style: *st,
                });
                work.push(W::End(Ev::SeqEnd));
            }
            NodeK::Map(_, st) => {
                out.push(Ev::MapStart {
                    anchor,
                    implicit: is(MAP),
                    tag,
                    style: *st,
                });
                work.push(W::End(Ev::MapEnd));
            }
            NodeK::None => unreachable!(),
        }
        work.extend(kids(&node.k).into_iter().rev().map(W::Node));
    }
    out.push(Ev::DocEnd(d.end_implicit));
    out
}

/// What loading the dumped document has to give: reachable nodes in document
/// order; styles and marks are the emitter's and the scanner's business.
fn expected(d: &DocN) -> DocN {
    let mut num = vec![0i32; d.nodes.len() + 1];
    let mut order = vec![];
    let mut work = vec![1i32];
    while let Some(i) = work.pop() {
        if num[i as usize] != 0 {
            continue;
        }
        order.push(i);
        num[i as usize] = order.len() as i32;
        match &d.nodes[i as usize - 1].k {
            NodeK::Seq(v, _) => work.extend(v.iter().rev()),
            NodeK::Map(v, _) => v.iter().rev().for_each(|p| {
                work.push(p.1);
                work.push(p.0);
            }),
            _ => {}
        }
    }
    let mut o = d.clone();
    o.nodes = order
        .iter()
        .map(|i| {
            let mut n = d.nodes[*i as usize - 1].clone();
            let default = match &mut n.k {
                NodeK::Seq(v, _) => {
                    v.iter_mut().for_each(|x| *x = num[*x as usize]);
                    SEQ
                }
                NodeK::Map(v, _) => {
                    v.iter_mut().for_each(|x| *x = (num[x.0 as usize], num[x.1 as usize]));
                    MAP
                }
                _ => STR,
            };
            if n.tag.as_ref().map_or(true, |t| t.s() == Some("!")) {
                n.tag = Some(default.into());
            }
            n
        })
        .collect();
    o
}

fn strip(d: &DocN) -> DocN {
    let mut o = d.clone();
    o.s = Mk::default();
    o.e = Mk::default();
    o.start_implicit = true;
    o.end_implicit = true;
    for n in &mut o.nodes {
        n.s = Mk::default();
        n.e = Mk::default();
        match &mut n.k {
            NodeK::Scalar(_, st) | NodeK::Seq(_, st) | NodeK::Map(_, st) => *st = 0,
            NodeK::None => {}
        }
    }
    o
}

/// Into the domain in which libyaml's output can be read back.
fn sanitize(d: &mut DocN, unlimited: bool) -> bool {
    let mut ev = events_of(d);
    let before = ev.clone();
    rt::sanitize(&mut ev, unlimited);
    let changed = ev != before;
    // carry the changes over, node by node, in the same order
    let order = order_of(d);
    let mut it = order.into_iter();
    for e in &ev {
        match e {
            Ev::DocStart { tags, .. } => d.tags = tags.clone(),
            Ev::Scalar { tag, value, style, .. } => {
                let i = it.next().expect("node");
                d.nodes[i].tag = tag.clone();
                d.nodes[i].k = NodeK::Scalar(value.clone(), *style);
            }
            Ev::SeqStart { tag, .. } | Ev::MapStart { tag, .. } => {
                let i = it.next().expect("node");
                d.nodes[i].tag = tag.clone();
            }
            _ => {}
        }
    }
    changed
}
fn order_of(d: &DocN) -> Vec<usize> {
    let mut seen = vec![false; d.nodes.len() + 1];
    let mut order = vec![];
    let mut work = vec![1i32];
    while let Some(i) = work.pop() {
        if std::mem::replace(&mut seen[i as usize], true) {
            continue;
        }
        order.push(i as usize - 1);
        match &d.nodes[i as usize - 1].k {
            NodeK::Seq(v, _) => work.extend(v.iter().rev()),
            NodeK::Map(v, _) => v.iter().rev().for_each(|p| {
                work.push(p.1);
                work.push(p.0);
            }),
            _ => {}
        }
    }
    order
}

struct Case {
    cfg: EmCfg,
    docs: Vec<DocN>,
    /// text the documents come from
    text: Option<String>,
    open: bool,
    /// dump an empty document instead of calling close()
    close_by_empty: bool,
    raw: bool,
}

fn case(s: &mut Src) -> Case {
    let mut cfg = evgen::cfg(s);
    cfg.enc = if s.chance(1, 6) { s.below(4) as u8 } else { 0 };
    let open = s.chance(1, 3);
    let close_by_empty = s.chance(1, 4);
    let raw = s.chance(1, 4);
    let mut docs = vec![];
    let mut text = None;
    if s.chance(1, 3) {
        text = Some(if s.chance(2, 3) { gen::graph(s) } else { gen::loose(s) });
    } else {
        let n = if s.chance(1, 4) { s.range(1, 4) } else { 1 };
        for _ in 0..n {
            docs.push(document(s));
        }
    }
    Case {
        cfg,
        docs,
        text,
        open,
        close_by_empty,
        raw,
    }
}

fn dump(c: &Case, docs: Vec<y::Document>) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    {
        let mut em = y::Emitter::new();
        em.set_output(&mut out);
        sut::configure(&mut em, &c.cfg);
        if c.open {
            em.open().map_err(|e| format!("open failed: {e}"))?;
        }
        for (i, d) in docs.into_iter().enumerate() {
            d.dump(&mut em).map_err(|e| format!("dump of document {i} failed: {e}"))?;
        }
        if c.close_by_empty {
            y::Document::new(None, &[], true, true)
                .dump(&mut em)
                .map_err(|e| format!("dump of the empty document failed: {e}"))?;
        }
        em.close().map_err(|e| format!("close failed: {e}"))?;
    }
    Ok(out)
}

pub struct P06;
impl Prop for P06 {
    fn id(&self) -> &'static str {
        "P06"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = emitter settings plus one to four document graphs, built through the interface (trees with extra references, so shared nodes and cycles) or loaded from generated text; dumped to one stream, the bytes compared with libyaml's for the events of the graph, and loaded back; non-trivial = some document has a collection; distinct by output bytes"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (1_500_000, 30),
            Tier::Thorough => (60_000_000, 40),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        let mut s = Src::record(rng);
        case(&mut s);
        s.into_tape()
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        let mut c = case(&mut Src::replay(tape));
        let mut real = None;
        if let Some(t) = &c.text {
            let mut v = vec![];
            let mut p = y::Parser::new();
            p.set_input(t.as_bytes());
            loop {
                if v.len() > t.len() + 2 {
                    return Err("loading does not end".into());
                }
                match y::Document::load(&mut p) {
                    Ok(d) if d.nodes.is_empty() => break,
                    Ok(d) => v.push(d),
                    Err(_) => {
                        ctx.class("text that does not load");
                        return Ok(());
                    }
                }
            }
            c.docs = v.iter().map(sut::doc).collect();
            real = Some(v);
            ctx.class("loaded from text");
        }
        if !c.raw {
            let mut changed = false;
            for d in &mut c.docs {
                changed |= sanitize(d, c.cfg.width.map_or(false, |w| w < 0));
            }
            if changed {
                ctx.class("adjusted to libyaml's re-readable domain");
                real = None;
            }
        }
        for d in &c.docs {
            if d.nodes.len() > 1 {
                ctx.nontrivial = true;
            }
            if shared(d) {
                ctx.class("shared node");
            }
            if cyclic(d) {
                ctx.class("cycle");
            }
            if order_of(d).len() < d.nodes.len() {
                ctx.class("unreachable node");
            }
        }
        if c.docs.len() > 1 {
            ctx.class("several documents");
        }
        if c.docs.is_empty() && !c.open && !c.close_by_empty {
            return Ok(());
        }
        let built = real.unwrap_or_else(|| c.docs.iter().map(build).collect());
        let out = dump(&c, built)?;
        ctx.key = Some(fnv(&out));
        let mut ev = vec![Ev::StreamStart(0)];
        for d in &c.docs {
            ev.extend(events_of(d));
        }
        ev.push(Ev::StreamEnd);
        if c.cfg.enc < 2 {
            let want = reference::emit(&c.cfg, &[], &ev, true);
            if let Some((i, e)) = &want.err {
                return Err(format!("libyaml refuses event {i} of the document: {}", e.problem));
            }
            if want.bytes != out {
                return Err(format!("dumped as {} but its events are written as {}", show(&out), show(&want.bytes)));
            }
        }
        if c.raw {
            ctx.class("bytes only");
            return Ok(());
        }
        let (got, err) = sut::docs(&out);
        if let Some(e) = err {
            return Err(format!("output {} does not load: {}", show(&out), e.display));
        }
        if got.len() != c.docs.len() {
            return Err(format!("{} documents dumped, {} loaded; output {}", c.docs.len(), got.len(), show(&out)));
        }
        for (i, (d, g)) in c.docs.iter().zip(&got).enumerate() {
            let (e, g) = (strip(&expected(d)), strip(g));
            if e != g {
                return Err(format!("document {i}: dumped {e:?}\nloaded {g:?}\noutput {}", show(&out)));
            }
        }
        Ok(())
    }
    fn describe(&self, tape: &[u8]) -> String {
        let c = case(&mut Src::replay(tape));
        short(&match &c.text {
            Some(t) => format!("{:?} {}", c.cfg, show(t.as_bytes())),
            None => format!("{:?} {:?}", c.cfg, c.docs),
        })
    }
}

// ------------------------------------------------------------------ P18

fn index(s: &mut Src, n: usize) -> i32 {
    match s.below(10) {
        0 => 0,
        1 => -1,
        2 => n as i32 + 1,
        3 => i32::MAX,
        4 => i32::MIN,
        5 => -(s.below(n + 2) as i32),
        _ => s.range(1, n.max(1)) as i32,
    }
}

pub struct P18;
impl P18 {
    /// Runs the operations of a tape against the library and the model.
    fn run(tape: &[u8], mut ctx: Option<&mut Ctx>, log: Option<&mut Vec<String>>) -> Verdict {
        let mut s = Src::replay(tape);
        Self::ops(&mut s, &mut ctx, log)
    }
    fn ops(s: &mut Src, ctx: &mut Option<&mut Ctx>, mut log: Option<&mut Vec<String>>) -> Verdict {
        let mut m = blank();
        directives(s, &mut m);
        let tags: Vec<_> = m.tags.iter().map(sut::tagdir).collect();
        let mut d = y::Document::new(m.ver.map(sut::version), &tags, m.start_implicit, m.end_implicit);
        if let Some(l) = &mut log {
            l.push(format!("new({:?}, {:?}, {}, {})", m.ver, m.tags, m.start_implicit, m.end_implicit));
        }
        let mut n = s.range(1, 40);
        if s.chance(1, 3000) {
            // many nodes, in one collection or none
            let many = *s.pick(&[300usize, 1000, 5000, 20_000, 33_000, 66_000]);
            let into = s.below(3) as u8;
            n = 1 + many % 7;
            if let Some(l) = &mut log {
                l.push(format!("add {many} scalars, appended to node 1 of kind {into}"));
            }
            if let Some(c) = ctx {
                c.class("many nodes");
                c.heavy = true;
            }
            match into {
                0 => {
                    let _ = d.add_sequence(None, sut::qstyle_to(2));
                    m.nodes.push(new_node(NodeK::Seq(vec![], 2), Some(SEQ.into())));
                }
                1 => {
                    let _ = d.add_mapping(None, sut::mstyle_to(2));
                    m.nodes.push(new_node(NodeK::Map(vec![], 2), Some(MAP.into())));
                }
                _ => {}
            }
            for i in 0..many {
                let v = format!("v{i}");
                let id = d.add_scalar(None, &v, sut::sstyle_to(0));
                m.nodes.push(new_node(NodeK::Scalar(v.into(), 0), Some(STR.into())));
                if id != m.nodes.len() as i32 {
                    return Err(format!("scalar {i} got id {id}, expected {}", m.nodes.len()));
                }
                match &mut m.nodes[0].k {
                    NodeK::Seq(v, _) => {
                        d.append_sequence_item(1, id);
                        v.push(id);
                    }
                    NodeK::Map(v, _) => {
                        d.yaml_document_append_mapping_pair(1, id, id);
                        v.push((id, id));
                    }
                    _ => {}
                }
            }
        }
        for step in 0..n {
            let colls = |f: fn(&NodeK) -> bool| -> Vec<i32> {
                m.nodes.iter().enumerate().filter(|(_, n)| f(&n.k)).map(|(i, _)| i as i32 + 1).collect()
            };
            let op = s.below(10);
            let fail = |what: String| Err(format!("step {step}: {what}"));
            let mut added = None;
            match op {
                0..=3 => {
                    let k = s.below(3);
                    // (the empty tag is kept; the emitter refuses it)
                    let t = if s.chance(1, 30) { Some("".into()) } else { tag(s) };
                    let tr = t.as_ref().map(|t| t.s().unwrap());
                    let (k, id, def) = match k {
                        0 => {
                            let v = gen::value(s);
                            let st = s.below(6) as u8;
                            (NodeK::Scalar(v.clone().into(), st), d.add_scalar(tr, &v, sut::sstyle_to(st)), STR)
                        }
                        1 => {
                            let st = s.below(3) as u8;
                            (NodeK::Seq(vec![], st), d.add_sequence(tr, sut::qstyle_to(st)), SEQ)
                        }
                        _ => {
                            let st = s.below(3) as u8;
                            (NodeK::Map(vec![], st), d.add_mapping(tr, sut::mstyle_to(st)), MAP)
                        }
                    };
                    if let Some(l) = &mut log {
                        l.push(format!("add {k:?} tag {t:?}"));
                    }
                    m.nodes.push(new_node(k, t.clone().or(Some(def.into()))));
                    added = Some(id);
                }
                4 | 5 => {
                    let q = colls(|k| matches!(k, NodeK::Seq(..)));
                    if q.is_empty() {
                        continue;
                    }
                    let p = *s.pick(&q);
                    let i = s.range(1, m.nodes.len()) as i32;
                    if let Some(l) = &mut log {
                        l.push(format!("append item {i} to {p}"));
                    }
                    d.append_sequence_item(p, i);
                    if let NodeK::Seq(v, _) = &mut m.nodes[p as usize - 1].k {
                        v.push(i);
                    }
                }
                6 | 7 => {
                    let q = colls(|k| matches!(k, NodeK::Map(..)));
                    if q.is_empty() {
                        continue;
                    }
                    let p = *s.pick(&q);
                    let a = s.range(1, m.nodes.len()) as i32;
                    let b = s.range(1, m.nodes.len()) as i32;
                    if let Some(l) = &mut log {
                        l.push(format!("append pair {a} {b} to {p}"));
                    }
                    d.yaml_document_append_mapping_pair(p, a, b);
                    if let NodeK::Map(v, _) = &mut m.nodes[p as usize - 1].k {
                        v.push((a, b));
                    }
                }
                8 => {
                    let i = index(s, m.nodes.len());
                    if let Some(l) = &mut log {
                        l.push(format!("get {i}"));
                    }
                    let want = if i >= 1 && (i as i64) <= m.nodes.len() as i64 { Some(i as usize - 1) } else { None };
                    let a = d.get_node(i).map(|n| n as *const y::Node);
                    let b = d.get_node_mut(i).map(|n| n as *mut y::Node as *const y::Node);
                    let w = want.map(|w| &d.nodes[w] as *const y::Node);
                    if a != w || b != w {
                        return fail(format!("get_node({i}) with {} nodes", m.nodes.len()));
                    }
                    let r = d.get_root_node().map(|n| n as *mut y::Node as *const y::Node);
                    if r != d.nodes.first().map(|n| n as *const y::Node) {
                        return fail("get_root_node".into());
                    }
                }
                _ => {
                    let i = index(s, m.nodes.len());
                    let t: Bs = (*s.pick(evgen::TAGS)).into();
                    if let Some(l) = &mut log {
                        l.push(format!("set the tag of {i} to {t:?}"));
                    }
                    let n = d.get_node_mut(i);
                    let ok = i >= 1 && (i as i64) <= m.nodes.len() as i64;
                    if n.is_some() != ok {
                        return fail(format!("get_node_mut({i})"));
                    }
                    if let Some(n) = n {
                        n.tag = t.s().map(|t| t.to_string());
                        m.nodes[i as usize - 1].tag = Some(t);
                    }
                }
            }
            if let Some(id) = added {
                if id != m.nodes.len() as i32 {
                    return fail(format!("new node got id {id}, expected {}", m.nodes.len()));
                }
            }
            let copy = d.clone();
            let now = sut::doc(&d);
            if now != m {
                return fail(format!("document is {}\nexpected {}", short(&format!("{now:?}")), short(&format!("{m:?}"))));
            }
            if sut::doc(&copy) != m {
                return fail("the clone differs".into());
            }
        }
        if let Some(c) = ctx {
            c.nontrivial = m.nodes.len() > 1;
            c.key = Some(fnv(format!("{m:?}").as_bytes()));
            for n in &m.nodes {
                c.class(match &n.k {
                    NodeK::Scalar(..) => "scalar added",
                    NodeK::Seq(v, _) if v.is_empty() => "empty sequence",
                    NodeK::Seq(..) => "sequence with items",
                    NodeK::Map(v, _) if v.is_empty() => "empty mapping",
                    _ => "mapping with pairs",
                });
            }
        }
        // What was built is what is written.
        let empty = |n: &NodeN| n.tag.as_ref().map_or(false, |t| t.0.is_empty());
        if !m.nodes.is_empty() && m.tags.iter().all(|t| !t.1 .0.is_empty()) && !m.nodes.iter().any(empty) {
            let mut out = vec![];
            {
                let mut em = y::Emitter::new();
                em.set_output(&mut out);
                d.dump(&mut em).map_err(|e| format!("dump failed: {e}"))?;
                em.close().map_err(|e| format!("close failed: {e}"))?;
            }
            let mut ev = vec![Ev::StreamStart(0)];
            ev.extend(events_of(&m));
            ev.push(Ev::StreamEnd);
            let want = reference::emit(&EmCfg::default(), &[], &ev, true);
            if want.bytes != out {
                return Err(format!("written as {} instead of {}", show(&out), show(&want.bytes)));
            }
        }
        Ok(())
    }
}
impl Prop for P18 {
    fn id(&self) -> &'static str {
        "P18"
    }
    fn kind(&self) -> CaseKind {
        CaseKind::Tape
    }
    fn rule(&self) -> &'static str {
        "case = a history of up to 40 document-building calls (add, append, look-ups with valid and out-of-range ids, in-place edits), the whole document compared with a model after every call; non-trivial = at least two nodes were added; distinct by final document"
    }
    fn budget(&self, t: Tier) -> (u64, u32) {
        match t {
            Tier::Quick => (400_000, 20),
            Tier::Thorough => (20_000_000, 20),
        }
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _t: Tier) -> Vec<u8> {
        let n = 40 + rng.below(300);
        (0..n).map(|_| (rng.next() >> 20) as u8).collect()
    }
    fn check(&self, tape: &[u8], ctx: &mut Ctx) -> Verdict {
        Self::run(tape, Some(ctx), None)
    }
    fn describe(&self, tape: &[u8]) -> String {
        let mut l = vec![];
        let _ = Self::run(tape, None, Some(&mut l));
        short(&l.join("; "))
    }
}
