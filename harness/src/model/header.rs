//! The document header and attribute entries.

use std::sync::LazyLock;

use regex::Regex;

use super::{
    Group, World,
    lines::{Reg, span, trimmed},
    subs,
};
use crate::{engine::step, odoc::*};

/// The attribute entry that the region starts with, and where it ends.
pub fn entry(r: Reg<'_>, w: &World) -> Option<(OAttribute, usize)> {
    // A backslash at the end of a line continues the entry.
    let mut p = r;
    let next = loop {
        let l = p.norm();
        if !l.s.ends_with('\\') {
            break l.next;
        }
        p = p.from(l.next);
    };
    let all = &r.t[r.a..next];
    let all = all.strip_suffix('\n').unwrap_or(all);
    let all = all.strip_suffix('\r').unwrap_or(all).trim_end_matches(' ');
    let mut s = all.strip_prefix(':')?;
    let mut unset = s.starts_with('!');
    if unset {
        s = &s[1..];
    }
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    if !s.starts_with(word) {
        return None;
    }
    let n = s.find(|c| !(word(c) || c == '-')).unwrap_or(s.len());
    let name = &s[..n];
    let name_at = r.a + all.len() - s.len();
    s = &s[n..];
    if !unset && let Some(x) = s.strip_prefix('!') {
        unset = true;
        s = x;
    }
    let s = s.strip_prefix(':')?;
    // The value is offset from the name.
    if !s.is_empty() && !s.starts_with([' ', '\t']) {
        return None;
    }
    let end = r.a + all.len();
    let (value, raw) = if unset {
        (OVal::Unset, None)
    } else if s.is_empty() {
        (OVal::Set, None)
    } else {
        let raw = s.trim_start_matches([' ', '\t']);
        (
            OVal::Value(value_of(w, &joined(raw))),
            Some(span(r.t, end - raw.len(), end)),
        )
    };
    Some((
        OAttribute {
            name: name.to_owned(),
            name_span: span(r.t, name_at, name_at + n),
            raw,
            value,
            span: trimmed(r.t, r.a, next),
        },
        next,
    ))
}

/// An inline pass macro around the whole value chooses its substitutions.
fn value_of(w: &World, v: &str) -> String {
    static WHOLE: LazyLock<Regex> = LazyLock::new(|| {
        Regex::new(r"(?s)\Apass:([a-z]+(?:,[a-z-]+)*)?\[(.*)\]\z").expect("regex")
    });
    match WHOLE.captures(v) {
        Some(c) => {
            let g = c.get(1).and_then(|m| Group::named(None, m.as_str()));
            subs::apply(w, &g.unwrap_or(Group::None), &c[2], None)
        }
        None => subs::attributes(w, &subs::special(w, v)),
    }
}

/// The lines of a value in one; ` +` before the backslash keeps the line end.
fn joined(raw: &str) -> String {
    if !raw.contains('\n') {
        return raw.to_owned();
    }
    let lines: Vec<&str> = raw.lines().collect();
    let mut o = String::new();
    for (i, l) in lines.iter().enumerate() {
        let l = if i > 0 { l.trim_start_matches([' ', '\t']) } else { l };
        let l = l
            .trim_start_matches('\r')
            .trim_end_matches(' ')
            .trim_end_matches('\\')
            .trim_end_matches(' ');
        if i + 1 == lines.len() {
            o.push_str(l);
        } else if l == "+" || l.ends_with(" +") {
            o.push_str(l[..l.len() - 1].trim_end_matches(' '));
            o.push('\n');
        } else {
            o.push_str(l);
            o.push(' ');
        }
    }
    o
}

fn header_subs(w: &World, s: &str) -> String {
    subs::apply(w, &Group::Header, s, None)
}

/// Sets an attribute that the header implies, unless it is locked.
fn imply(w: &mut World, name: &str, v: &str) {
    let _ = w.env.assign(name, OVal::Value(v.to_owned()), true);
}

pub fn header<'t>(
    r: Reg<'t>,
    w: &mut World,
    warnings: &mut Vec<(String, OSpan)>,
) -> (OHeader, Reg<'t>) {
    let mut h = OHeader::default();
    let start = r.past_blank().a;
    let mut p = r;
    while !p.is_empty() {
        let l = p.norm();
        let here = span(r.t, l.at, l.end());
        if l.s.is_empty() {
            if h.title.is_some() {
                break;
            }
        } else if l.s.starts_with("//") && !l.s.starts_with("///") {
            h.comments.push(here);
        } else if l.s.starts_with(':')
            && let Some((a, next)) = entry(p, w)
        {
            if a.name.eq_ignore_ascii_case("author")
                && let Some(raw) = a.raw
                && let Some(x) = author(w, &joined(&r.t[raw.off..raw.off + raw.len]))
            {
                imply_parts(w, &x, "");
            }
            if let Err(n) = w.env.assign(&a.name, a.value.clone(), true) {
                warnings.push((format!("WarningType::AttributeValueIsLocked({n:?})"), a.span));
            }
            h.attrs.push(a);
            p = p.from(next);
            continue;
        } else if h.title.is_none() && l.s.starts_with("= ") {
            let title = l.s[2..].trim_start_matches([' ', '\t']);
            let text = header_subs(w, title);
            imply(w, "doctitle", &text);
            h.title = Some(text);
            h.title_src = Some(span(r.t, l.end() - title.len(), l.end()));
        } else if h.title.is_none() {
            break;
        } else if h.author_line.is_none() {
            let all: Vec<OAuthor> = l.s.strip_suffix(';').unwrap_or(l.s).split("; ").filter_map(|a| author(w, a)).collect();
            for (i, a) in all.iter().enumerate() {
                let suffix = if i == 0 {
                    String::new()
                } else {
                    format!("_{}", i + 1)
                };
                imply(w, &format!("author{suffix}"), &a.name);
                imply_parts(w, a, &suffix);
            }
            h.author_line = Some((here, all));
        } else if h.revision.is_none() {
            h.revision = Some(revision(w, l.s, here));
        } else {
            warnings.push(("WarningType::DocumentHeaderNotTerminated".to_owned(), here));
            break;
        }
        p = p.from(l.next);
    }
    h.span = trimmed(r.t, start, p.a);
    (h, p.past_blank())
}

fn imply_parts(w: &mut World, a: &OAuthor, suffix: &str) {
    let parts = [
        ("firstname", Some(&a.first)),
        ("middlename", a.middle.as_ref()),
        ("lastname", a.last.as_ref()),
        ("authorinitials", Some(&a.initials)),
        ("email", a.email.as_ref()),
    ];
    for (n, v) in parts {
        if let Some(v) = v {
            imply(w, &format!("{n}{suffix}"), v);
        }
    }
}

fn revision(
    w: &mut World,
    s: &str,
    here: OSpan,
) -> (OSpan, Option<String>, String, Option<String>) {
    let (left, remark) = match s.split_once(':') {
        Some((l, r)) => (l, Some(r.trim())),
        None => (s, None),
    };
    // (What a reference stands for may be a number.)
    let starts = |c: char| c.is_ascii_digit() || c == '{';
    let digits = |s: &str| s.trim().trim_start_matches(|c| !starts(c)).to_owned();
    let (number, date) = match left.split_once(',') {
        Some((n, d)) => (Some(digits(n)), d.trim()),
        None => {
            let l = left.trim();
            let numbered = l.strip_prefix('v').is_some_and(|x| x.starts_with(starts));
            if numbered {
                (Some(digits(l)), "")
            } else {
                (None, l)
            }
        }
    };
    let mut set = |name: &str, v: &str| {
        let v = header_subs(w, v);
        imply(w, name, &v);
        v
    };
    let number = number.map(|n| set("revnumber", &n));
    let date = set("revdate", date);
    (here, number, date, remark.map(|r| set("revremark", r)))
}

static AUTHOR: LazyLock<Regex> = LazyLock::new(|| {
    let word = r"[_\p{L}\p{N}&#;][_\p{L}\p{N}\-'.&#;]*";
    Regex::new(&format!(
        "^({word})(?: +({word}))?(?: +({word}))?(?: +<([^>]+)>)?$"
    ))
    .unwrap()
});

fn spaced(s: &str) -> String {
    s.replace('_', " ")
}

fn is_single_reference(s: &str) -> bool {
    s.trim().starts_with('{') && s.trim().ends_with('}') && s.matches('{').count() == 1
}

/// Attribute references, plus special characters if several of them bring some in.
fn author_subs(w: &World, s: &str) -> String {
    let t = subs::attributes(w, s);
    let angles = t.contains('<') && t.contains('>');
    let ampersand = t.contains('&') && !t.contains("&amp;");
    if s.matches('{').count() > 1 && (angles || ampersand) {
        subs::special(w, &t)
    } else {
        t
    }
}

pub fn author(w: &World, s: &str) -> Option<OAuthor> {
    step();
    let s = s.trim();
    if s.is_empty() {
        return None;
    }
    let whole = |s: String| OAuthor {
        name: spaced(&s),
        first: spaced(&s),
        middle: None,
        last: None,
        email: None,
        initials: String::new(),
    };
    let escaped = |s: String| {
        if s.contains('<') || s.contains('>') {
            subs::special(w, &s)
        } else {
            s
        }
    };
    let mut a = if is_single_reference(s) {
        whole(author_subs(w, s))
    } else if let Some(a) = parts(s) {
        // Only the address can contain references.
        OAuthor {
            email: a.email.map(|e| author_subs(w, &e)),
            ..a
        }
    } else if s.contains('{') {
        let t = author_subs(w, s);
        parts(&t).unwrap_or_else(|| whole(escaped(t)))
    } else {
        whole(escaped(s.to_owned()))
    };
    a.initials = [Some(&a.first), a.middle.as_ref(), a.last.as_ref()]
        .into_iter()
        .flatten()
        .filter_map(|n| n.chars().next())
        .collect();
    Some(a)
}

fn parts(s: &str) -> Option<OAuthor> {
    let c = AUTHOR.captures(s)?;
    let get = |i: usize| c.get(i).map(|m| spaced(m.as_str()));
    let (mut middle, mut last) = (get(2), get(3));
    if last.is_none() {
        last = middle.take();
    }
    Some(OAuthor {
        name: spaced(s.split('<').next().unwrap_or_default().trim()),
        first: get(1)?,
        middle,
        last,
        email: c.get(4).map(|m| m.as_str().to_owned()),
        initials: String::new(),
    })
}
