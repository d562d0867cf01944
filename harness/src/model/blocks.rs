//! Blocks: which there are, what belongs to them, and what is said about them.

use super::{
    Catalog, Group, World, attrlist, catalog_of, env_of, header,
    lines::{Line, Reg, span, trimmed},
    preprocess::Pre,
    subs,
};
use crate::{
    engine::step,
    odoc::*,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ty {
    Normal,
    Appendix,
    Discrete,
}

struct P<'t, 'w> {
    t: &'t str,
    w: &'w mut World,
    cat: Catalog,
    warnings: Vec<(String, OSpan)>,
    top: Ty,
    numbers: [Vec<usize>; 2],
    levels: usize,
}

/// What precedes a block: title, anchor, attribute list.
#[derive(Default)]
struct Meta {
    title_src: Option<OSpan>,
    title: Option<String>,
    anchor: Option<OSpan>,
    reftext: Option<OSpan>,
    attrs: Option<OAttrlist>,
    /// Where all of it starts, and where the block proper does.
    start: usize,
    body: usize,
}

impl Meta {
    fn is_empty(&self) -> bool {
        self.title_src.is_none() && self.anchor.is_none() && self.attrs.is_none()
    }

    fn style(&self) -> Option<&str> {
        self.attrs.as_ref()?.style.as_deref()
    }

    fn is_discrete(&self) -> bool {
        matches!(self.style(), Some("discrete" | "float"))
    }
}

pub fn document(pre: Pre, w: &mut World, mask: u32) -> ODoc {
    let t = pre.text.as_str();
    let all = Reg {
        t,
        a: 0,
        e: t.len(),
    };
    let mut warnings = vec![];
    let (h, rest) = header::header(all, w, &mut warnings);
    let levels = w
        .env
        .text("sectnumlevels")
        .and_then(|s| s.parse().ok())
        .unwrap_or(3);
    let mut p = P {
        t,
        w,
        cat: Catalog::default(),
        warnings,
        top: Ty::Normal,
        numbers: [vec![], vec![]],
        levels,
    };
    let mut blocks = p.blocks(rest, |_, _| false).0;
    // What precedes the first section is the preamble.
    let first = blocks
        .iter()
        .position(|b| matches!(b.kind, OKind::Section { .. }));
    if let Some(n) = first
        && blocks[..n].iter().any(|b| !matches!(b.kind, OKind::Attr(_)))
    {
        let sections = blocks.split_off(n);
        let last = &blocks[n - 1].span;
        let s = span(t, rest.a, last.off + last.len);
        blocks = std::iter::once(block(OKind::Preamble, s, "preamble", "compound", blocks))
            .chain(sections)
            .collect();
    }
    let whole = trimmed(t, 0, t.len());
    let text = t[..whole.len].to_owned();
    let (catalog, reftexts) = catalog_of(&p.cat);
    let lines = if mask & SMAP != 0 {
        text.matches('\n').count() + 1
    } else {
        0
    };
    ODoc {
        span: whole,
        header: h,
        blocks,
        warnings: std::mem::take(&mut p.warnings),
        catalog_len: catalog.len(),
        catalog,
        reftexts,
        env: if mask & ENV != 0 { env_of(p.w) } else { vec![] },
        smap: (1..=lines)
            .map(|l| {
                Some(match pre.map.iter().rev().find(|m| m.0 <= l) {
                    Some(m) => (m.1.as_deref().map(str::to_owned), m.2 + l - m.0),
                    None => (None, l),
                })
            })
            .collect(),
        calls: pre.calls,
        text,
        full: t.to_owned(),
    }
}

fn block(
    kind: OKind,
    span: OSpan,
    context: &str,
    model: &'static str,
    children: Vec<OBlock>,
) -> OBlock {
    OBlock {
        kind,
        span,
        context: context.to_owned(),
        resolved: context.to_owned(),
        model,
        style: None,
        rendered: None,
        title_src: None,
        title: None,
        anchor: None,
        reftext: None,
        attrlist: None,
        id: None,
        roles: vec![],
        options: vec![],
        children,
    }
}

const CONTEXTS: &[&str] = &[
    "admonition",
    "audio",
    "colist",
    "dlist",
    "document",
    "example",
    "floating_title",
    "image",
    "list_item",
    "listing",
    "literal",
    "olist",
    "open",
    "page_break",
    "paragraph",
    "pass",
    "preamble",
    "quote",
    "section",
    "sidebar",
    "table",
    "table_cell",
    "thematic_break",
    "toc",
    "ulist",
    "verse",
    "video",
];

fn repeats(s: &str, c: char) -> bool {
    s.len() >= 4 && s.chars().all(|x| x == c)
}

/// Context, content model and default substitutions of a verbatim delimiter.
fn raw_delimiter(s: &str) -> Option<(&'static str, &'static str, Group)> {
    match s.chars().next()? {
        '/' if repeats(s, '/') => Some(("comment", "raw", Group::None)),
        '-' if repeats(s, '-') => Some(("listing", "verbatim", Group::Verbatim)),
        '.' if repeats(s, '.') => Some(("literal", "verbatim", Group::Verbatim)),
        '+' if repeats(s, '+') => Some(("pass", "raw", Group::Pass)),
        _ => None,
    }
}

fn compound_delimiter(s: &str) -> Option<&'static str> {
    match s.chars().next()? {
        '=' if repeats(s, '=') => Some("example"),
        '*' if repeats(s, '*') => Some("sidebar"),
        '_' if repeats(s, '_') => Some("quote"),
        '-' if s == "--" => Some("open"),
        _ => None,
    }
}

fn is_xml_name(s: &str) -> bool {
    let mut cs = s.chars();
    cs.next()
        .is_some_and(|c| c == ':' || c == '_' || (c != '\u{37e}' && c.is_alphabetic()))
        && cs.all(|c| {
            matches!(c, ':' | '_' | '.' | '-' | '\u{b7}') || (c != '\u{37e}' && c.is_alphanumeric())
        })
}

/// Where the closing line of a delimited block is, and where its search ended.
fn closing<'t>(r: Reg<'t>, delimiter: &str) -> (Option<Line<'t>>, usize) {
    let mut p = r;
    while !p.is_empty() {
        let l = p.norm();
        if l.s == delimiter {
            return (Some(l), l.next);
        }
        p = p.from(l.next);
    }
    (None, r.e)
}

/// Section marker: number of characters, and the title if there is white space.
fn heading<'t>(l: &Line<'t>) -> Option<(char, usize, Option<(usize, &'t str)>)> {
    let c = l.s.chars().next().filter(|c| *c == '=' || *c == '#')?;
    let rest = l.s.trim_start_matches(c);
    let title = rest.trim_start_matches([' ', '\t']);
    let spaced = title.len() < rest.len();
    Some((
        c,
        l.s.len() - rest.len(),
        spaced.then(|| (l.end() - title.len(), title)),
    ))
}

impl<'t> P<'t, '_> {
    fn warn(&mut self, what: impl Into<String>, at: OSpan) {
        self.warnings.push((format!("WarningType::{}", what.into()), at));
    }

    fn blocks(
        &mut self,
        r: Reg<'t>,
        mut stop: impl FnMut(&mut Self, Reg<'t>) -> bool,
    ) -> (Vec<OBlock>, usize) {
        let mut out = vec![];
        let mut p = r.past_blank();
        while !p.is_empty() && !stop(self, p) {
            step();
            let next = match self.block(p) {
                Some((b, next)) => {
                    out.push(b);
                    next
                }
                // White space that is not blank for a block: not a block either.
                None => p.line().next,
            };
            p = p.from(next).past_blank();
        }
        (out, p.a)
    }

    fn meta(&mut self, r: Reg<'t>, warnings: &mut Vec<(String, OSpan)>) -> Meta {
        let t = self.t;
        let mut m = Meta {
            start: r.a,
            ..Default::default()
        };
        let mut p = r;
        loop {
            let l = p.norm();
            if m.title_src.is_none()
                && let Some(title) = l.s.strip_prefix('.')
                && !(title.is_empty() || title.starts_with(['.', ' ', '\t']))
            {
                m.title_src = Some(span(t, l.at + 1, l.end()));
                p = p.from(l.next);
                continue;
            }
            if m.anchor.is_none()
                && let Some(a) = l.s.strip_prefix("[[").and_then(|a| a.strip_suffix("]]"))
            {
                let (from, to) = (l.at + 2, l.end() - 2);
                if a.is_empty() {
                    warnings.push((
                        "WarningType::EmptyBlockAnchorName".to_owned(),
                        span(t, from, to),
                    ));
                } else {
                    let id_end = match a.find(',') {
                        Some(c) if c + 1 < a.len() => from + c,
                        _ => to,
                    };
                    let id = span(t, from, id_end);
                    if is_xml_name(&t[from..id_end]) {
                        m.anchor = Some(id);
                        let text = t[id_end..to].strip_prefix(',').unwrap_or_default().trim_start_matches([' ', '\t']);
                        m.reftext = (!text.is_empty()).then(|| span(t, to - text.len(), to));
                        p = p.from(l.next);
                        continue;
                    }
                    warnings.push(("WarningType::InvalidBlockAnchorName".to_owned(), id));
                }
            }
            if m.attrs.is_none()
                && let Some(a) = l.s.strip_prefix('[').and_then(|a| a.strip_suffix(']'))
                && !a.starts_with([' ', '\t'])
                && !(a.starts_with('[') && a.ends_with(']'))
            {
                let (mut list, kinds) = attrlist::parse(self.w, a, attrlist::At::Block);
                list.span = span(t, l.at + 1, l.end() - 1);
                let at = list.span;
                warnings.extend(kinds.into_iter().map(|k| (k.to_owned(), at)));
                m.attrs = Some(list);
                p = p.from(l.next);
                continue;
            }
            break;
        }
        m.body = p.a;
        m.title = m
            .title_src
            .map(|s| subs::apply(self.w, &Group::Normal, &t[s.off..s.off + s.len], None));
        m
    }

    /// Completes a block with what precedes it.
    fn with(&mut self, mut b: OBlock, m: Meta) -> OBlock {
        b.style = m.style().map(str::to_owned);
        if let Some(s) = &b.style
            && CONTEXTS.contains(&s.as_str())
        {
            b.resolved = s.clone();
        }
        b.id = m
            .anchor
            .map(|a| self.t[a.off..a.off + a.len].to_owned())
            .or(m.attrs.as_ref().and_then(|a| a.id.clone()));
        if let Some(a) = &m.attrs {
            b.roles = a.roles.clone();
            b.options = a.options.clone();
        }
        b.title_src = m.title_src;
        b.title = m.title;
        b.anchor = m.anchor;
        b.reftext = m.reftext;
        b.attrlist = m.attrs;
        b
    }

    /// The same, and puts its ID into the catalog.
    fn finish(&mut self, b: OBlock, m: Meta) -> OBlock {
        let b = self.with(b, m);
        if let Some(id) = &b.id
            && !self.cat.register(id, b.title.as_deref(), "anchor")
        {
            self.warn(format!("DuplicateId({id:?})"), b.span);
        }
        b
    }

    fn block(&mut self, r: Reg<'t>) -> Option<(OBlock, usize)> {
        let first = r.line();
        if first.s.starts_with(':')
            && let Some((a, next)) = header::entry(r, self.w)
        {
            if let Err(n) = self.w.env.assign(&a.name, a.value.clone(), false) {
                self.warn(format!("AttributeValueIsLocked({n:?})"), a.span);
            }
            let s = a.span;
            return Some((block(OKind::Attr(a), s, "attribute", "empty", vec![]), next));
        }
        let mut warnings = vec![];
        let m = self.meta(r, &mut warnings);
        self.warnings.extend(warnings);
        let body = r.from(m.body);
        if m.style() != Some("literal") && !body.is_empty() {
            let l = body.norm();
            if let Some((context, model, group)) = raw_delimiter(l.s) {
                return Some(self.raw(body, l, m, context, model, group));
            }
            if let Some(context) = compound_delimiter(l.s) {
                return Some(self.compound(body, l, m, context));
            }
            if let Some(b) = self.media(&l, &m) {
                return Some((self.finish(b, m), l.next));
            }
            if let Some((level, title)) = self.section_heading(&l, body) {
                return Some(self.section(body, l, m, level, title));
            }
            let ty = match l.s {
                "'''" | "---" | "- - -" | "***" | "* * *" => Some("thematic"),
                "<<<" => Some("page"),
                _ => None,
            };
            if let Some(ty) = ty {
                let context = format!("{ty}_break");
                let s = trimmed(self.t, m.start, l.next);
                let b = block(OKind::Break { ty }, s, &context, "empty", vec![]);
                return Some((self.finish(b, m), l.next));
            }
        }
        if let Some((b, next)) = self.paragraph(body, &m) {
            return Some((self.finish(b, m), next));
        }
        if m.is_empty() {
            return None;
        }
        // Nothing for it to belong to, so it is text.
        self.warn(
            "MissingBlockAfterTitleOrAttributeList",
            span(self.t, r.a, r.e),
        );
        let m = Meta {
            start: r.a,
            body: r.a,
            ..Default::default()
        };
        let (b, next) = self.paragraph(r, &m)?;
        Some((self.finish(b, m), next))
    }

    fn raw(
        &mut self,
        body: Reg<'t>,
        l: Line<'t>,
        m: Meta,
        context: &'static str,
        model: &'static str,
        group: Group,
    ) -> (OBlock, usize) {
        let t = self.t;
        let line_end_off = |a: usize, e: usize| {
            let s = &t[a..e.max(a)];
            let n = s
                .strip_suffix("\r\n")
                .or(s.strip_suffix('\n'))
                .unwrap_or(s)
                .len();
            span(t, a, a + n)
        };
        let (close, next) = closing(body.from(l.next), l.s);
        // Without end, it ends with the last text.
        let (content, whole) = match close {
            Some(c) => (line_end_off(l.next, c.at), trimmed(t, m.start, next)),
            None => (trimmed(t, l.next, body.e), trimmed(t, m.start, body.e)),
        };
        let group = group.overridden(m.attrs.as_ref());
        if close.is_none() {
            self.warn("UnterminatedDelimitedBlock", span(t, l.at, l.end()));
        }
        let subs = group.debug();
        let text = t[content.off..content.off + content.len].replace("\r\n", "\n");
        let mut b = block(
            OKind::Raw { content, subs },
            whole,
            context,
            model,
            vec![],
        );
        b.rendered = Some(subs::apply(self.w, &group, &text, m.attrs.as_ref()));
        (self.finish(b, m), next)
    }

    fn compound(
        &mut self,
        body: Reg<'t>,
        l: Line<'t>,
        m: Meta,
        context: &'static str,
    ) -> (OBlock, usize) {
        let (close, next) = closing(body.from(l.next), l.s);
        let inside = Reg {
            t: self.t,
            a: l.next,
            e: close.map_or(body.e, |c| c.at),
        };
        if close.is_none() {
            self.warn("UnterminatedDelimitedBlock", span(self.t, l.at, l.end()));
        }
        let children = self.blocks(inside, |_, _| false).0;
        let end = close.map_or(body.e, |c| c.end());
        let s = trimmed(self.t, m.start, end);
        let b = block(OKind::Compound, s, context, "compound", children);
        (self.finish(b, m), next)
    }

    fn media(&mut self, l: &Line<'t>, m: &Meta) -> Option<OBlock> {
        let (name, rest) = l.s.split_once("::")?;
        let ty = *["image", "video", "audio"].iter().find(|n| **n == name)?;
        let (target, list) = rest.strip_suffix(']')?.split_once('[')?;
        if target.is_empty() {
            return None;
        }
        let from = l.at + name.len() + 2;
        let (mut attrs, kinds) = attrlist::parse(self.w, list, attrlist::At::Macro);
        attrs.span = span(self.t, l.end() - 1 - list.len(), l.end() - 1);
        for k in kinds {
            self.warnings.push((k.to_owned(), attrs.span));
        }
        let target = span(self.t, from, from + target.len());
        let s = trimmed(self.t, m.start, l.next);
        Some(block(OKind::Media { ty, target, attrs }, s, ty, "empty", vec![]))
    }

    /// Level and title of the section that the line starts.
    fn section_heading(&mut self, l: &Line<'t>, _: Reg<'t>) -> Option<(usize, (usize, &'t str))> {
        let (c, n, title) = heading(l)?;
        let here = span(self.t, l.at, l.end());
        if n == 1 {
            if c == '=' || title.is_some() {
                self.warn("Level0SectionHeadingNotSupported", here);
            }
            return None;
        }
        let title = title?;
        if n > 6 {
            self.warn(format!("SectionHeadingLevelExceedsMaximum({})", n - 1), here);
            return None;
        }
        Some((n - 1, title))
    }

    fn section(
        &mut self,
        body: Reg<'t>,
        l: Line<'t>,
        m: Meta,
        level: usize,
        (title_at, title): (usize, &'t str),
    ) -> (OBlock, usize) {
        let t = self.t;
        let discrete = m.is_discrete();
        let title_src = span(t, title_at, title_at + title.len());
        let outer = self.top;
        let ty = if discrete {
            Ty::Discrete
        } else {
            if level == 1 {
                self.top = if m.style() == Some("appendix") {
                    Ty::Appendix
                } else {
                    Ty::Normal
                };
            }
            self.top
        };
        let number = (!discrete && self.w.env.is_set("sectnums") && level <= self.levels)
            .then(|| self.number(level));
        let text = subs::apply(self.w, &Group::Normal, title, m.attrs.as_ref());
        let automatic = self.w.env.is_set("sectids");
        let base = self.proposed_id(&text);
        let rest = body.from(l.next);
        let (children, end) = if discrete {
            (vec![], rest.past_blank().a)
        } else {
            let mut recent = level;
            self.blocks(rest, |p, r| p.ends_section(r, level, &mut recent))
        };
        let s = trimmed(t, m.start, end);
        let reftext = m
            .attrs
            .as_ref()
            .and_then(|a| attrlist::named(a, "reftext"))
            .unwrap_or(&text)
            .to_owned();
        let heading = span(t, m.start, l.next);
        let b = block(
            OKind::Section {
                level,
                title_src,
                title: text,
                ty: match ty {
                    Ty::Normal => "normal",
                    Ty::Appendix => "appendix",
                    Ty::Discrete => "discrete",
                },
                number,
            },
            s,
            "section",
            "compound",
            children,
        );
        let mut b = self.with(b, m);
        match &b.id {
            Some(id) => {
                if !self.cat.register(id, Some(&reftext), "section") {
                    self.warn(format!("DuplicateId({id:?})"), heading);
                }
            }
            None if automatic => b.id = Some(self.cat.unique(&base, Some(&reftext), "section")),
            None => (),
        }
        if level == 1 && !discrete {
            self.top = outer;
        }
        (b, end)
    }

    fn number(&mut self, level: usize) -> (Vec<usize>, String) {
        let appendix = self.top == Ty::Appendix;
        let n = &mut self.numbers[appendix as usize];
        if n.len() >= level {
            n.truncate(level);
            n[level - 1] += 1;
        } else {
            n.resize(level, 1);
        }
        let shown: Vec<String> = n
            .iter()
            .enumerate()
            .map(|(i, x)| {
                if i == 0 && appendix {
                    char::from(b'A' + (*x - 1) as u8).to_string()
                } else {
                    x.to_string()
                }
            })
            .collect();
        (n.clone(), shown.join("."))
    }

    fn proposed_id(&self, title: &str) -> String {
        let prefix = self.w.env.text("idprefix").unwrap_or_default();
        let sep = self.w.env.text("idseparator").and_then(|s| s.chars().next());
        let title = title.to_lowercase();
        // Without markup, character references, and other characters.
        let mut kept = String::new();
        let mut rest = title.as_str();
        while let Some(c) = rest.chars().next() {
            let n = markup(rest);
            if n == 0 && (c == ' ' || c == '-' || c == '.' || super::is_word(c)) {
                kept.push(c);
            }
            rest = &rest[n.max(c.len_utf8())..];
        }
        let mut id = String::new();
        for c in kept.chars() {
            if matches!(c, ' ' | '-' | '.') {
                if let Some(s) = sep {
                    id.push(s);
                }
            } else {
                id.push(c);
            }
        }
        if let Some(s) = sep {
            // Never two in a row, none at the end, none at the start without prefix or
            // if the prefix ends in one.
            let mut o = String::new();
            for c in id.chars() {
                if !(c == s && o.ends_with(s)) {
                    o.push(c);
                }
            }
            if o.ends_with(s) {
                o.pop();
            }
            if (prefix.is_empty() || prefix.ends_with(s)) && o.starts_with(s) {
                o.remove(0);
            }
            id = o;
        }
        prefix + &id
    }

    /// Whether what starts here is a section at `level` or above.
    fn ends_section(&mut self, r: Reg<'t>, level: usize, recent: &mut usize) -> bool {
        let m = self.meta(r, &mut vec![]);
        let body = r.from(m.body);
        if m.is_discrete() || m.style() == Some("literal") || body.is_empty() {
            return false;
        }
        let l = body.norm();
        let Some((found, _)) = self.section_heading(&l, body) else {
            return false;
        };
        if found > *recent + 1 {
            let l = r.norm();
            self.warn(
                format!("SectionHeadingLevelSkipped({recent}, {found})"),
                span(self.t, l.at, l.end()),
            );
        }
        *recent = found;
        found <= level
    }

    fn paragraph(&mut self, r: Reg<'t>, m: &Meta) -> Option<(OBlock, usize)> {
        let indent = r.s().len() - r.s().trim_start_matches([' ', '\t']).len();
        let style = match m.style() {
            Some("normal") => "paragraph",
            Some("literal") => "literal",
            Some("listing") => "listing",
            Some("source") => "source",
            _ if indent > 0 => "literal",
            _ => "paragraph",
        };
        let mut lines: Vec<&str> = vec![];
        let mut p = r;
        while !p.is_empty() {
            let l = p.norm();
            if l.s.is_empty()
                || (!lines.is_empty()
                    && (l.s == "+"
                        || (l.s.starts_with('[') && l.s.ends_with(']'))
                        || raw_delimiter(l.s).is_some()
                        || compound_delimiter(l.s).is_some()))
            {
                break;
            }
            p = p.from(l.next);
            if l.s.starts_with("//") && !l.s.starts_with("///") {
                continue;
            }
            let own = l.s.trim_start_matches([' ', '\t']);
            let cut = if own.is_empty() {
                0
            } else {
                indent.min(l.s.len() - own.len())
            };
            lines.push(l.s[cut..].trim_end());
        }
        let content = trimmed(self.t, r.a, p.a);
        if content.len == 0 {
            return None;
        }
        let group = if style == "paragraph" {
            Group::Normal
        } else {
            Group::Verbatim
        };
        let group = group.overridden(m.attrs.as_ref());
        let text = subs::apply(self.w, &group, &lines.join("\n"), m.attrs.as_ref());
        let s = trimmed(self.t, m.start, p.past_blank().a);
        let mut b = block(
            OKind::Simple { style, content },
            s,
            "paragraph",
            "simple",
            vec![],
        );
        b.rendered = Some(text);
        Some((b, p.past_blank().a))
    }
}

/// Length of the markup or character reference at the start of (lowercased) `s`.
fn markup(s: &str) -> usize {
    if let Some(r) = s.strip_prefix('<') {
        return match r.find('>') {
            Some(n) if n > 0 => n + 2,
            // `<>` is not a tag, but something longer can start with it.
            Some(0) => r[1..].find('>').map_or(0, |n| n + 3),
            _ => 0,
        };
    }
    if let Some(r) = s.strip_prefix("&lt;")
        && let Some(n) = r.find('&')
        && r[n..].starts_with("&gt;")
    {
        return 4 + n + 4;
    }
    let Some(e) = s.strip_prefix('&').and_then(|r| r.find(';')) else {
        return 0;
    };
    let name = &s[1..e + 1];
    let fits = if let Some(h) = name.strip_prefix("#x") {
        (2..=4).contains(&h.len()) && h.chars().all(|c| c.is_ascii_digit() || ('a'..='f').contains(&c))
    } else if let Some(d) = name.strip_prefix('#') {
        (2..=5).contains(&d.len()) && d.chars().all(|c| c.is_ascii_digit())
    } else {
        let letters = name.trim_end_matches(|c: char| c.is_ascii_digit());
        letters.len() >= 2
            && name.len() - letters.len() <= 2
            && letters.chars().all(|c| c.is_ascii_lowercase())
    };
    if fits { e + 2 } else { 0 }
}
