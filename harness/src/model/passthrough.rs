//! Text that is taken out before the substitutions and put back after them.

use std::sync::LazyLock;

use regex::{Captures, Regex};

use super::{Group, World, attrlist, render::Q, subs};
use crate::engine::step;

pub struct Pass {
    text: String,
    group: Group,
    quote: Option<Q>,
    attrs: Option<String>,
}

static MACRO: LazyLock<Regex> = LazyLock::new(|| {
    Regex::new(concat!(
        r"(?s)(?:(?P<esca>\\?)\[(?P<attrs>[^\[\]]+)\])?(?P<esc>\\{0,2})",
        r"(?:\+\+\+(?P<t3>.*?)\+\+\+|\+\+(?P<t2>.*?)\+\+|\$\$(?P<td>.*?)\$\$)",
        r"|(?P<escp>\\?)pass:(?P<subs>[a-z]+(?:,[a-z-]+)*)?\[(?P<text>|.*?[^\\])\]",
    ))
    .unwrap()
});

static PLUS: LazyLock<Regex> = LazyLock::new(|| {
    Regex::new(concat!(
        r"(?s)\b{start-half}(?:",
        r"\[(?P<a1>x-|[^\[\]]+ x-)\]`(?P<t1>\S(?:.*?\S)??)`",
        r"|\[(?P<a2>[^\[\]]+)\](?P<e2>\\{0,2})\+(?P<t2>\S(?:.*?\S)??)\+",
        r"|(?P<e3>\\)?\+(?P<t3>\S(?:.*?\S)??)\+",
        r")\b{end-half}",
    ))
    .unwrap()
});

fn keep(saved: &mut Vec<Pass>, p: Pass, o: &mut String) {
    o.push_str(&format!("\u{96}{}\u{97}", saved.len()));
    saved.push(p);
}

pub fn extract(t: &mut String) -> Vec<Pass> {
    let mut saved = vec![];
    if t.contains("++") || t.contains("$$") || t.contains("ss:") {
        *t = macros(t, &mut saved);
    }
    if t.contains('+') || t.contains("-]") {
        *t = plus(t, &mut saved);
    }
    saved
}

fn macros(t: &str, saved: &mut Vec<Pass>) -> String {
    let mut o = String::new();
    let mut from = 0;
    for c in MACRO.captures_iter(t) {
        step();
        let m = c.get(0).expect("match");
        o.push_str(&t[from..m.start()]);
        from = m.end();
        if let Some(text) = c.name("text") {
            if let Some(plain) = m.as_str().strip_prefix('\\') {
                o.push_str(plain);
            } else {
                let group = c
                    .name("subs")
                    .and_then(|s| Group::named(None, s.as_str()))
                    .unwrap_or(Group::None);
                let text = text.as_str().replace("\\]", "]");
                keep(
                    saved,
                    Pass {
                        text,
                        group,
                        quote: None,
                        attrs: None,
                    },
                    &mut o,
                );
            }
            continue;
        }
        let (mark, text) = ["t3", "t2", "td"]
            .iter()
            .zip(["+++", "++", "$$"])
            .find_map(|(n, m)| c.name(n).map(|t| (m, t.as_str())))
            .expect("one of them");
        let escapes = c["esc"].len();
        let listed = c.name("attrs").map(|a| a.as_str());
        let escaped_list = c.name("esca").is_some_and(|e| !e.is_empty());
        if escapes > 0 {
            if let Some(a) = listed {
                o.push_str(&format!("{}[{a}]", &c["esca"]));
            }
            if escapes == 2 {
                o.push('\\');
            }
            o.push_str(&format!("{mark}{text}{mark}"));
            continue;
        }
        let mut p = Pass {
            text: text.to_owned(),
            group: if mark == "+++" { Group::None } else { Group::Verbatim },
            quote: None,
            attrs: None,
        };
        if let Some(a) = listed {
            if escaped_list {
                o.push_str(&format!("[{a}]"));
            } else if mark == "++" && let Some(a) = compatible(a) {
                p.quote = Some(Q::Mono);
                p.group = Group::Normal;
                p.attrs = Some(a.to_owned());
            } else {
                p.quote = Some(Q::Unquoted);
                p.attrs = Some(a.to_owned());
            }
        }
        keep(saved, p, &mut o);
    }
    o.push_str(&t[from..]);
    o
}

/// An attribute list that asks for the behaviour of old.
fn compatible(a: &str) -> Option<&str> {
    if a == "x-" { Some("") } else { a.strip_suffix(" x-") }
}

fn plus(t: &str, saved: &mut Vec<Pass>) -> String {
    let mut o = String::new();
    let mut from = 0;
    for c in PLUS.captures_iter(t) {
        step();
        let m = c.get(0).expect("match");
        o.push_str(&t[from..m.start()]);
        from = m.end();
        one_plus(&c, saved, &mut o);
    }
    o.push_str(&t[from..]);
    o
}

fn one_plus(c: &Captures<'_>, saved: &mut Vec<Pass>, o: &mut String) {
    let all = &c[0];
    // The backslash may be for the attribute list.
    if o.ends_with('\\')
        && let Some(list) = c.name("a2")
        && c.name("e2").is_none_or(|e| e.is_empty())
    {
        o.pop();
        o.push_str(&format!("[{}]", list.as_str()));
        let text = c["t2"].to_owned();
        keep(saved, Pass { text, group: Group::Verbatim, quote: None, attrs: None }, o);
        return;
    }
    if o.ends_with(['\\', ':', ';']) {
        // Not here; maybe behind its first character.
        let n = all.chars().next().map_or(0, char::len_utf8);
        o.push_str(&all[..n]);
        let rest = plus(&all[n..], saved);
        o.push_str(&rest);
        return;
    }
    let get = |a: &str, b: &str| c.name(a).or(c.name(b)).map(|m| m.as_str());
    let listed = get("a1", "a2");
    let escapes = get("e2", "e3").map_or(0, str::len);
    let mark = if c.name("t1").is_some() { '`' } else { '+' };
    let text = c.name("t1").map(|m| m.as_str()).or(get("t2", "t3")).expect("text");
    if escapes > 0 {
        if let Some(a) = listed {
            o.push_str(&format!("[{a}]"));
        }
        if escapes == 2 {
            o.push('\\');
        }
        o.push_str(&format!("{mark}{text}{mark}"));
        return;
    }
    let mut p = Pass {
        text: text.to_owned(),
        group: Group::Verbatim,
        quote: None,
        attrs: None,
    };
    if let Some(a) = listed {
        if let Some(a) = compatible(a) {
            p.quote = Some(Q::Mono);
            p.attrs = Some(a.to_owned());
            if mark == '+' {
                p.group = Group::Normal;
            }
        } else {
            p.quote = Some(Q::Unquoted);
            p.attrs = Some(a.to_owned());
        }
    }
    keep(saved, p, o);
}

/// Puts back those below `n`.
pub fn restore(w: &World, saved: &[Pass], n: usize, t: &str) -> String {
    if saved.is_empty() {
        return t.to_owned();
    }
    let mut o = String::new();
    let mut rest = t;
    while let Some(i) = rest.find('\u{96}') {
        step();
        o.push_str(&rest[..i]);
        let after = &rest[i + '\u{96}'.len_utf8()..];
        let digits = after.len() - after.trim_start_matches(|c: char| c.is_numeric() && c.to_digit(10).is_some()).len();
        let end = after[digits..].strip_prefix('\u{97}');
        match (digits, end) {
            (1.., Some(e)) => {
                let k: usize = after[..digits].parse().unwrap_or_default();
                if k < n {
                    o.push_str(&restored(w, saved, k));
                } else {
                    o.push_str(&format!("(INTERNAL ERROR: Unresolved passthrough index {k})"));
                }
                rest = e;
            }
            _ => {
                o.push('\u{96}');
                rest = after;
            }
        }
    }
    o.push_str(rest);
    o
}

fn restored(w: &World, saved: &[Pass], k: usize) -> String {
    let p = &saved[k];
    let mut t = subs::apply(w, &p.group, &p.text, None);
    if let Some(q) = p.quote {
        let a = p.attrs.as_ref().map(|a| attrlist::parse(w, a, attrlist::At::Text).0);
        let mut o = String::new();
        w.quoted(q, false, a.as_ref(), &t, &mut o);
        t = o;
    }
    // It can only contain what was taken out before it.
    restore(w, saved, k, &t)
}
