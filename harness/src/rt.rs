//! What an event stream must still say after being written and read back.
use crate::model::*;

/// Tags whose written form reads back as the same tag: libyaml writes ',',
/// '[' and ']' of a tag as they are although they end a shorthand.
pub fn tag_ok(t: &Bs) -> bool {
    t.s().map_or(false, |s| {
        !s.is_empty() && !s.contains(|c| matches!(c, ',' | '[' | ']' | '\0'))
    })
}

/// libyaml folds long lines of folded scalars even where they start with a
/// blank, which adds a line break to the value when it is read back.
fn refolded(value: &Bs, style: u8) -> bool {
    style == 5
        && value.s().map_or(true, |v| {
            v.split(|c| matches!(c, '\n' | '\u{2028}' | '\u{2029}'))
                .any(|l| l.starts_with(|c| c == ' ' || c == '\t'))
        })
}

/// Bring an event sequence into the domain in which libyaml's own output can
/// be read back: see the comments on the three helpers. Returns whether
/// anything had to be changed.
pub fn sanitize(evs: &mut [Ev], unlimited_width: bool) -> bool {
    let mut changed = false;
    let clean = |t: &Bs| -> Bs {
        let s: String = t
            .s()
            .unwrap_or("")
            .chars()
            .filter(|c| !matches!(c, ',' | '[' | ']' | '\0'))
            .collect();
        Bs::from(if s.is_empty() { "t".to_string() } else { s })
    };
    for i in 0..evs.len() {
        let after_implicit = i > 0
            && matches!(&evs[i - 1], Ev::DocStart { implicit: true, ver: None, tags } if tags.is_empty());
        match &mut evs[i] {
            Ev::Scalar { tag, value, style, anchor, pi, .. } => {
                if refolded(value, *style) && !unlimited_width {
                    *style = 4;
                    changed = true;
                }
                if let Some(t) = tag {
                    if !tag_ok(t) {
                        *t = clean(t);
                        changed = true;
                    }
                }
                // An empty plain root scalar without properties is written as
                // nothing at all, which is an empty stream unless `---` is
                // asked for.
                if after_implicit && anchor.is_none() && value.0.is_empty() && *pi && *style <= 1 {
                    *value = Bs::from("e");
                    changed = true;
                }
            }
            Ev::SeqStart { tag: Some(t), .. } | Ev::MapStart { tag: Some(t), .. } => {
                if !tag_ok(t) {
                    *t = clean(t);
                    changed = true;
                }
            }
            Ev::DocStart { tags, .. } => {
                for t in tags {
                    if !tag_ok(&t.1) {
                        t.1 = clean(&t.1);
                        changed = true;
                    }
                }
            }
            _ => {}
        }
    }
    changed
}

/// `sent` was emitted, `got` was read back.
pub fn same_content(sent: &[Ev], got: &[Ev], canonical: bool) -> Result<(), String> {
    if sent.len() != got.len() {
        return Err(format!("{} events written, {} read back: {got:?}", sent.len(), got.len()));
    }
    for (i, (a, b)) in sent.iter().zip(got).enumerate() {
        let ok = match (a, b) {
            (Ev::StreamStart(_), Ev::StreamStart(_)) => true,
            (Ev::StreamEnd, Ev::StreamEnd) => true,
            (
                Ev::DocStart { ver, tags, .. },
                Ev::DocStart { ver: v2, tags: t2, .. },
            ) => ver == v2 && tags == t2,
            (Ev::DocEnd(_), Ev::DocEnd(_)) => true,
            (Ev::Alias(x), Ev::Alias(y)) => x == y,
            (
                Ev::Scalar { anchor, tag, value, pi, qi, .. },
                Ev::Scalar { anchor: a2, tag: t2, value: v2, pi: p2, qi: q2, style: s2 },
            ) => {
                // The tag may be left out when the plain or the quoted form
                // implies it; otherwise it has to be there.
                let written = tag.as_ref().filter(|_| canonical || (!pi && !qi));
                let bang = t2.as_ref().map_or(false, |t| t.s() == Some("!"));
                let t2 = if bang { &None } else { t2 };
                let tag_ok = match written {
                    Some(t) if t.s() == Some("!") => bang || t2.is_none() && *p2,
                    Some(t) => t2.as_ref() == Some(t),
                    None => {
                        t2.is_none()
                            && ((*p2 && *pi) || (*q2 && *qi) || (canonical && tag.is_none() && (*pi || *qi)))
                    }
                };
                let plain_ok = *s2 != 1 || written.is_some() || *pi;
                anchor == a2 && value == v2 && tag_ok && plain_ok
            }
            (
                Ev::SeqStart { anchor, tag, implicit, .. },
                Ev::SeqStart { anchor: a2, tag: t2, .. },
            )
            | (
                Ev::MapStart { anchor, tag, implicit, .. },
                Ev::MapStart { anchor: a2, tag: t2, .. },
            ) => {
                let written = tag.as_ref().filter(|_| canonical || !implicit);
                anchor == a2 && written == t2.as_ref()
            }
            (Ev::SeqEnd, Ev::SeqEnd) | (Ev::MapEnd, Ev::MapEnd) => true,
            _ => false,
        };
        if !ok {
            return Err(format!("event {i}: wrote {a:?}, read back {b:?}"));
        }
    }
    Ok(())
}
