//! Inline substitutions other than macros and passthroughs.

use super::{Group, Step, World, attrlist, is_word, macros, passthrough, render::*, word_at, word_before};
use crate::{engine::step, odoc::*};

impl Group {
    pub fn steps(&self) -> Vec<Step> {
        use Step::*;
        match self {
            Group::Normal => vec![
                SpecialCharacters,
                Quotes,
                AttributeReferences,
                CharacterReplacements,
                Macros,
                PostReplacement,
            ],
            Group::Header => vec![SpecialCharacters, AttributeReferences],
            Group::Verbatim => vec![SpecialCharacters],
            Group::Pass | Group::None => vec![],
            Group::Custom(s) => s.clone(),
        }
    }

    /// The group that a list of names (and changes to `base`) stands for; None if a
    /// name is unknown.
    pub fn named(base: Option<&Group>, list: &str) -> Option<Group> {
        let list = list.trim();
        match list {
            "none" => return Some(Group::None),
            "n" | "normal" => return Some(Group::Normal),
            "v" | "verbatim" => return Some(Group::Verbatim),
            _ => (),
        }
        let mut steps: Vec<Step> = vec![];
        for (i, item) in list.split(',').enumerate() {
            step();
            let item = item.trim();
            let group = match item {
                "none" => Some(Group::None),
                "n" | "normal" => Some(Group::Normal),
                "v" | "verbatim" => Some(Group::Verbatim),
                _ => None,
            };
            if let Some(g) = group {
                let new = g.steps().into_iter().filter(|s| !steps.contains(s));
                let new: Vec<_> = new.collect();
                steps.extend(new);
                continue;
            }
            let (name, op) = if let Some(n) = item.strip_prefix('+') {
                (n, '>')
            } else if let Some(n) = item.strip_suffix('+') {
                (n, '<')
            } else if let Some(n) = item.strip_prefix('-') {
                (n, '-')
            } else {
                (item, '=')
            };
            if i == 0
                && op != '='
                && let Some(b) = base
            {
                steps = b.steps();
            }
            let s = match name {
                "c" | "specialcharacters" | "specialchars" => Step::SpecialCharacters,
                "q" | "quotes" => Step::Quotes,
                "a" | "attributes" => Step::AttributeReferences,
                "r" | "replacements" => Step::CharacterReplacements,
                "m" | "macros" => Step::Macros,
                "p" | "post_replacements" => Step::PostReplacement,
                _ => return None,
            };
            match op {
                '<' => steps.insert(0, s),
                '-' => steps.retain(|x| *x != s),
                _ => steps.push(s),
            }
        }
        Some(Group::Custom(steps))
    }

    /// What the attribute list of a block makes of its default group.
    pub fn overridden(&self, a: Option<&OAttrlist>) -> Group {
        let Some(a) = a else {
            return self.clone();
        };
        let default = if a.style.as_deref() == Some("pass") {
            Group::None
        } else {
            self.clone()
        };
        attrlist::named(a, "subs")
            .and_then(|s| Group::named(Some(&default), s))
            .unwrap_or(default)
    }

    pub fn debug(&self) -> String {
        match self {
            Group::Custom(s) => format!("Custom({s:?})"),
            g => format!("{g:?}"),
        }
    }
}

pub fn apply(w: &World, g: &Group, text: &str, a: Option<&OAttrlist>) -> String {
    let steps = g.steps();
    let mut t = text.to_owned();
    let saved = if steps.contains(&Step::Macros) || *g == Group::Header {
        Some(passthrough::extract(&mut t))
    } else {
        None
    };
    for s in steps {
        step();
        t = match s {
            Step::SpecialCharacters => special(w, &t),
            Step::Quotes => quotes(w, &t),
            Step::AttributeReferences => attributes(w, &t),
            Step::CharacterReplacements => replacements(w, &t),
            Step::Macros => macros::apply(w, t),
            Step::PostReplacement => breaks(w, &t, a),
        };
    }
    match saved {
        Some(p) => passthrough::restore(w, &p, p.len(), &t),
        None => t,
    }
}

pub fn special(w: &World, t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        match c {
            '<' | '>' | '&' => w.special(c, &mut o),
            c => o.push(c),
        }
    }
    o
}

pub fn attributes(w: &World, t: &str) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < t.len() {
        let c = t[i..].chars().next().expect("char");
        let esc = c == '\\';
        let open = i + esc as usize;
        if let Some(rest) = t.get(open..).and_then(|r| r.strip_prefix('{'))
            && let Some(n) = rest.find('}')
            && is_reference_name(&rest[..n])
        {
            step();
            let end = open + n + 2;
            let name = rest[..n].to_lowercase();
            if !w.env.has(&name) {
                o.push_str(&t[i..end]);
            } else if esc {
                o.push_str(&t[i + 1..end]);
            } else if let OVal::Value(v) = w.env.value(&name) {
                o.push_str(&v);
            }
            i = end;
            continue;
        }
        o.push(c);
        i += c.len_utf8();
    }
    o
}

fn is_reference_name(n: &str) -> bool {
    n.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_')
        && n.chars()
            .all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-')
}

// ---------------------------------------------------------------- quotes

struct Mark {
    q: Q,
    constrained: bool,
    open: &'static str,
    close: &'static str,
}

const fn m(q: Q, constrained: bool, open: &'static str, close: &'static str) -> Mark {
    Mark {
        q,
        constrained,
        open,
        close,
    }
}

/// In the order in which they apply.
static MARKS: [Mark; 12] = [
    m(Q::Strong, false, "**", "**"),
    m(Q::Strong, true, "*", "*"),
    m(Q::Double, true, "\"`", "`\""),
    m(Q::Single, true, "'`", "`'"),
    m(Q::Mono, false, "``", "``"),
    m(Q::Mono, true, "`", "`"),
    m(Q::Em, false, "__", "__"),
    m(Q::Em, true, "_", "_"),
    m(Q::Mark, false, "##", "##"),
    m(Q::Mark, true, "#", "#"),
    m(Q::Sup, false, "^", "^"),
    m(Q::Sub, false, "~", "~"),
];

struct Hit {
    start: usize,
    end: usize,
    prefix: (usize, usize),
    attrs: Option<(usize, usize)>,
    body: (usize, usize),
}

/// An attribute list `[...]` without brackets inside, at `i`: its content and the end.
fn brackets(s: &str, i: usize) -> Option<((usize, usize), usize)> {
    let r = s[i..].strip_prefix('[')?;
    let n = r.find(['[', ']'])?;
    if n == 0 || !r[n..].starts_with(']') {
        return None;
    }
    Some(((i + 1, i + 1 + n), i + n + 2))
}

/// The body of a mark whose opening ends at `i`, and the end of the closing mark.
fn body(s: &str, i: usize, mk: &Mark) -> Option<((usize, usize), usize)> {
    let first = s[i..].chars().next()?;
    if mk.constrained && first.is_whitespace() {
        return None;
    }
    let mut j = i;
    for c in s[i..].chars() {
        if mk.q == Q::Sup || mk.q == Q::Sub {
            if c.is_whitespace() {
                return None;
            }
        }
        j += c.len_utf8();
        if s[j..].starts_with(mk.close) {
            let e = j + mk.close.len();
            if !mk.constrained || (!c.is_whitespace() && !word_at(s, e)) {
                return Some(((i, j), e));
            }
        }
    }
    None
}

fn find(s: &str, from: usize, mk: &Mark) -> Option<Hit> {
    let mut at = from;
    loop {
        let next = s[at..].chars().next();
        // Possible prefixes, as (length, is it there).
        let mut prefixes: Vec<usize> = vec![];
        if mk.constrained {
            if at == 0 {
                prefixes.push(0);
            }
            if let Some(c) = next
                && !is_word(c)
                && !matches!(c, '&' | ';' | ':' | '}')
                && !(mk.open == "`" && matches!(c, '"' | '\'' | '`'))
            {
                prefixes.push(c.len_utf8());
            }
        } else {
            if next == Some('\\') {
                prefixes.push(1);
            }
            prefixes.push(0);
        }
        for p in prefixes {
            let i = at + p;
            let mut tries = vec![];
            if let Some((a, e)) = brackets(s, i) {
                tries.push((Some(a), e));
            }
            tries.push((None, i));
            for (attrs, j) in tries {
                if s[j..].starts_with(mk.open)
                    && let Some((b, end)) = body(s, j + mk.open.len(), mk)
                {
                    return Some(Hit {
                        start: at,
                        end,
                        prefix: (at, i),
                        attrs,
                        body: b,
                    });
                }
            }
        }
        at += next?.len_utf8();
    }
}

pub fn quotes(w: &World, t: &str) -> String {
    if !t.contains(['*', '_', '`', '#', '^', '~']) {
        return t.to_owned();
    }
    let mut s = t.to_owned();
    for mk in &MARKS {
        let mut o = String::new();
        let mut from = 0;
        while let Some(h) = find(&s, from, mk) {
            step();
            o.push_str(&s[from..h.start]);
            let escaped = s[h.start..].starts_with('\\');
            if mk.open == "`" && s[h.end..].starts_with(['"', '\'', '`']) {
                // Not a mark after all: go on behind its first character.
                let skip = if escaped {
                    2
                } else {
                    s[h.start..].chars().next().map_or(1, char::len_utf8)
                };
                o.push_str(&s[h.start..h.start + skip]);
                from = h.start + skip;
                continue;
            }
            let inner = &s[h.body.0..h.body.1];
            if escaped {
                match h.attrs {
                    Some(a) if mk.constrained => {
                        o.push_str(&format!("[{}]", &s[a.0..a.1]));
                        w.quoted(mk.q, true, None, inner, &mut o);
                    }
                    _ => o.push_str(&s[h.start + 1..h.end]),
                }
            } else {
                let attrs = h.attrs.map(|a| attrlist::parse(w, &s[a.0..a.1], attrlist::At::Text).0);
                let q = if mk.q == Q::Mark && attrs.is_some() {
                    Q::Unquoted
                } else {
                    mk.q
                };
                o.push_str(&s[h.prefix.0..h.prefix.1]);
                w.quoted(q, mk.constrained, attrs.as_ref(), inner, &mut o);
            }
            from = h.end;
        }
        o.push_str(&s[from..]);
        s = o;
    }
    s
}

// ---------------------------------------------------------------- replacements

/// Length of the thing to replace at `i`, or None.
fn replaceable(s: &str, i: usize, r: R) -> Option<(usize, String)> {
    let t = &s[i..];
    let esc = t.starts_with('\\') as usize;
    let lit = |x: &str| t[esc..].starts_with(x).then_some((esc + x.len(), String::new()));
    match r {
        R::Copyright => lit("(C)"),
        R::Registered => lit("(R)"),
        R::Trademark => lit("(TM)"),
        R::Ellipsis => lit("..."),
        R::Right => lit("-&gt;"),
        R::RightDouble => lit("=&gt;"),
        R::Left => lit("&lt;-"),
        R::LeftDouble => lit("&lt;="),
        R::SpacedDash => {
            let p = if t.starts_with([' ', '\n', '\\']) && t[1..].starts_with("--") {
                1
            } else if i == 0 && t.starts_with("--") {
                0
            } else {
                return None;
            };
            match t[p + 2..].chars().next() {
                None => Some((p + 2, String::new())),
                Some(' ' | '\n') => Some((p + 3, String::new())),
                _ => None,
            }
        }
        R::Dash => {
            let c = t.chars().next().filter(|c| is_word(*c))?;
            let n = c.len_utf8();
            let esc = t[n..].starts_with('\\') as usize;
            let e = n + esc + 2;
            if !t[n + esc..].starts_with("--") {
                return None;
            }
            let after = &t[e..];
            (after.is_empty() || after.starts_with('\n') || word_at(t, e))
                .then(|| (e, c.to_string()))
        }
        R::Apostrophe => {
            if t[esc..].starts_with("`'") {
                Some((esc + 2, String::new()))
            } else {
                None
            }
        }
        R::Reference => {
            let b = t[esc..].strip_prefix("&amp;")?;
            let e = b.find(';')?;
            let name = &b[..e];
            is_character_reference(name).then(|| (esc + 5 + e + 1, name.to_owned()))
        }
    }
}

fn is_character_reference(n: &str) -> bool {
    if let Some(h) = n.strip_prefix("#x") {
        return (2..=5).contains(&h.len()) && h.chars().all(|c| c.is_ascii_hexdigit());
    }
    if let Some(d) = n.strip_prefix('#') {
        return (2..=6).contains(&d.len()) && d.chars().all(|c| c.is_ascii_digit());
    }
    let letters = n.trim_end_matches(|c: char| c.is_ascii_digit());
    letters.len() >= 2
        && n.len() - letters.len() <= 2
        && letters.chars().all(|c| c.is_ascii_alphabetic())
}

/// An apostrophe between a letter or digit and a letter.
fn word_apostrophe(s: &str, i: usize) -> Option<(usize, usize)> {
    let c = s[i..].chars().next()?;
    if !super::is_alnum(c) {
        return None;
    }
    let n = c.len_utf8();
    let esc = s[i + n..].starts_with('\\') as usize;
    s[i + n + esc..].starts_with('\'').then_some((n, n + esc + 1))
}

pub fn replacements(w: &World, t: &str) -> String {
    if !(t.contains(['&', '\''])
        || t.contains("--")
        || t.contains("...")
        || ["(C)", "(R)", "(T)", "(CM)", "(RM)", "(TM)"].iter().any(|x| t.contains(x)))
    {
        return t.to_owned();
    }
    let mut s = t.to_owned();
    let pass = |s: &mut String, f: &dyn Fn(&str, usize, &mut String) -> Option<usize>| {
        let mut o = String::new();
        let mut i = 0;
        while i < s.len() {
            match f(s, i, &mut o) {
                Some(n) => {
                    step();
                    i += n
                }
                None => {
                    let c = s[i..].chars().next().expect("char");
                    o.push(c);
                    i += c.len_utf8();
                }
            }
        }
        *s = o;
    };
    let order = [
        R::Copyright,
        R::Registered,
        R::Trademark,
        R::SpacedDash,
        R::Dash,
        R::Ellipsis,
        R::Apostrophe,
    ];
    let simple = |s: &str, i: usize, o: &mut String, r: R| {
        let (n, x) = replaceable(s, i, r)?;
        if s[i..i + n].contains('\\') {
            o.push_str(&s[i..i + n].replace('\\', ""));
        } else if r == R::Dash {
            o.push_str(&x);
            w.replacement(r, "", o);
        } else {
            w.replacement(r, &x, o);
        }
        Some(n)
    };
    for r in order {
        pass(&mut s, &|s, i, o| simple(s, i, o, r));
    }
    pass(&mut s, &|s, i, o| {
        let (n, e) = word_apostrophe(s, i)?;
        if !s[i + e..].starts_with(char::is_alphabetic) {
            o.push_str(&s[i..i + e]);
        } else if e > n + 1 {
            o.push_str(&s[i..i + n]);
            o.push('\'');
        } else {
            o.push_str(&s[i..i + n]);
            w.replacement(R::Apostrophe, "", o);
        }
        Some(e)
    });
    for r in [R::Right, R::RightDouble, R::Left, R::LeftDouble, R::Reference] {
        pass(&mut s, &|s, i, o| simple(s, i, o, r));
    }
    s
}

// ---------------------------------------------------------------- line breaks

fn breaks(w: &World, t: &str, a: Option<&OAttrlist>) -> String {
    if w.env.is_set("hardbreaks-option") || a.is_some_and(|a| attrlist::has_option(a, "hardbreaks"))
    {
        if !t.contains('\n') {
            return t.to_owned();
        }
        // A final line end does not start another line.
        let body = t.strip_suffix('\n').unwrap_or(t);
        let lines: Vec<&str> = body
            .split('\n')
            .map(|l| l.strip_suffix('\r').unwrap_or(l))
            .collect();
        let mut o = String::new();
        for (i, l) in lines.iter().enumerate() {
            if i + 1 < lines.len() {
                o.push_str(l.strip_suffix(" +").unwrap_or(l));
                w.line_break(&mut o);
                o.push('\n');
            } else {
                o.push_str(l);
            }
        }
        return o;
    }
    let mut o = String::new();
    for (i, l) in t.split('\n').enumerate() {
        if i > 0 {
            o.push('\n');
        }
        match l.strip_suffix(" +") {
            Some(x) => {
                o.push_str(x);
                w.line_break(&mut o);
            }
            None => o.push_str(l),
        }
    }
    o
}

#[allow(dead_code)]
fn boundary(s: &str, i: usize) -> bool {
    word_before(s, i) != word_at(s, i)
}
