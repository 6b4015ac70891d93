//! Comparison of results with the reference, and the documented differences.
use crate::model::*;
use crate::text;

pub type Res<T> = (Vec<T>, Option<ErrN>);

/// The two libraries spell one message differently (so do C libyaml and its
/// mechanical translation).
fn norm(s: &str) -> String {
    s.replace("hexdecimal", "hexadecimal")
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum ErrCmp {
    Kind,
    Full,
}

pub fn err_diff(a: &ErrN, b: &ErrN, how: ErrCmp) -> Option<String> {
    if a.kind != b.kind {
        return Some(format!(
            "error kind {:?} ({}) vs libyaml {:?} ({})",
            a.kind, a.problem, b.kind, b.problem
        ));
    }
    if how == ErrCmp::Kind || a.kind == Kind::Reader {
        return None;
    }
    if norm(&a.problem) != norm(&b.problem) {
        return Some(format!("problem {:?} vs libyaml {:?}", a.problem, b.problem));
    }
    if a.context != b.context {
        return Some(format!("context {:?} vs libyaml {:?}", a.context, b.context));
    }
    if a.pmark != b.pmark {
        return Some(format!("problem mark {:?} vs libyaml {:?}", a.pmark, b.pmark));
    }
    if a.cmark != b.cmark {
        return Some(format!("context mark {:?} vs libyaml {:?}", a.cmark, b.cmark));
    }
    None
}

/// `a`: library under test, `b`: reference.
pub fn diff<T: PartialEq + std::fmt::Debug>(
    a: &Res<T>,
    b: &Res<T>,
    how: ErrCmp,
    malformed: bool,
) -> Result<(), String> {
    let n = a.0.len().min(b.0.len());
    for i in 0..n {
        if a.0[i] != b.0[i] {
            return Err(format!(
                "item {i}: {:?} but libyaml has {:?}",
                a.0[i], b.0[i]
            ));
        }
    }
    let reader = |e: &Option<ErrN>| e.as_ref().map_or(false, |e| e.kind == Kind::Reader);
    if malformed && a.1.is_some() && b.1.is_some() && (reader(&a.1) || reader(&b.1)) {
        // Malformed input is noticed when the chunk holding it is decoded;
        // how much was delivered before depends on the chunk size.
        return Ok(());
    }
    match (&a.1, &b.1) {
        (Some(x), Some(y)) => {
            if let Some(d) = err_diff(x, y, how) {
                return Err(d);
            }
        }
        (None, None) => {}
        (Some(x), None) => {
            return Err(format!(
                "error {} where libyaml has none (after {} items)",
                x.display,
                a.0.len()
            ))
        }
        (None, Some(y)) => {
            return Err(format!(
                "no error where libyaml has {:?} {:?}",
                y.kind, y.problem
            ))
        }
    }
    if a.0.len() != b.0.len() {
        return Err(format!(
            "{} items but libyaml has {}: next {:?}",
            a.0.len(),
            b.0.len(),
            a.0.get(n).or(b.0.get(n))
        ));
    }
    Ok(())
}

/// What the independent decoder says about an input.
pub struct About {
    pub malformed: bool,
    /// libyaml itself has no well-defined answer
    pub odd: bool,
}

pub fn about(input: &[u8]) -> About {
    let d = text::decode(input);
    About {
        malformed: d.bad.is_some(),
        odd: text::odd_escapes(&d.chars),
    }
}
