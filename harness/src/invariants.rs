//! Checks of a result that need no model, only the definition.

use crate::odoc::*;

type R = Result<(), String>;

struct Walk<'a> {
    text: &'a str,
}

impl Walk<'_> {
    fn span(&self, what: &str, s: &OSpan) -> R {
        if s.off + s.len > self.text.len() {
            return Err(format!("{what}: {s:?} is outside of the document"));
        }
        if !self.text.is_char_boundary(s.off) {
            return Err(format!("{what}: {s:?} starts inside of a character"));
        }
        let (l, c) = at(self.text, s.off);
        if (l, c) != (s.line, s.col) {
            return Err(format!("{what}: {s:?} is at {l}:{c}"));
        }
        Ok(())
    }

    fn opt(&self, what: &str, s: &Option<OSpan>) -> R {
        s.as_ref().map_or(Ok(()), |s| self.span(what, s))
    }

    fn attribute(&self, a: &OAttribute) -> R {
        self.span("attribute name", &a.name_span)?;
        self.opt("attribute value", &a.raw)?;
        self.span("attribute", &a.span)
    }

    fn block(&self, b: &OBlock) -> R {
        self.span("block", &b.span)?;
        self.opt("title", &b.title_src)?;
        self.opt("anchor", &b.anchor)?;
        self.opt("reftext", &b.reftext)?;
        if let Some(a) = &b.attrlist {
            self.span("attribute list", &a.span)?;
        }
        match &b.kind {
            OKind::Simple { content, .. } | OKind::Raw { content, .. } => {
                self.span("content", content)?
            }
            OKind::Media { target, attrs, .. } => {
                self.span("target", target)?;
                self.span("macro attribute list", &attrs.span)?;
            }
            OKind::Section { title_src, .. } => self.span("section title", title_src)?,
            OKind::Attr(a) => self.attribute(a)?,
            OKind::Compound | OKind::Preamble | OKind::Break { .. } => (),
        }
        b.children.iter().try_for_each(|c| self.block(c))
    }
}

/// Lines and columns are those of the offsets.
pub fn positions(d: &ODoc) -> R {
    let w = Walk { text: &d.full };
    w.span("document", &d.span)?;
    w.span("header", &d.header.span)?;
    w.opt("document title", &d.header.title_src)?;
    d.header.attrs.iter().try_for_each(|a| w.attribute(a))?;
    if let Some(a) = &d.header.author_line {
        w.span("author line", &a.0)?;
    }
    if let Some(a) = &d.header.revision {
        w.span("revision line", &a.0)?;
    }
    for c in &d.header.comments {
        w.span("comment", c)?;
    }
    d.blocks.iter().try_for_each(|b| w.block(b))?;
    d.warnings.iter().try_for_each(|(k, s)| w.span(k, s))
}

fn siblings(v: &[OBlock], from: usize, to: usize) -> R {
    let mut at = from;
    for b in v {
        let e = b.span.off + b.span.len;
        if b.span.off < at || e > to {
            return Err(format!(
                "{} at {:?} is not between {at} and {to}",
                b.context, b.span
            ));
        }
        siblings(&b.children, b.span.off, e)?;
        at = e;
    }
    Ok(())
}

/// Blocks are in order, disjoint, inside of each other, and leave no line of the
/// body out.
pub fn partition(d: &ODoc) -> R {
    siblings(&d.blocks, d.header.span.off + d.header.span.len, d.full.len())?;
    let body = d.header.span.off + d.header.span.len;
    let mut pos = 0;
    for l in d.full.split_inclusive('\n') {
        let e = pos + l.len();
        let blank = l.trim().is_empty();
        if !blank
            && pos >= body
            && !d
                .blocks
                .iter()
                .any(|b| b.span.off < e && pos < b.span.off + b.span.len)
        {
            return Err(format!("line at {pos} ({l:?}) is in no block"));
        }
        pos = e;
    }
    Ok(())
}

fn each<'a>(v: &'a [OBlock], f: &mut dyn FnMut(&'a OBlock)) {
    for b in v {
        f(b);
        each(&b.children, f);
    }
}

/// IDs are unique but for those reported as duplicates, and the catalog knows
/// exactly these.
pub fn ids(d: &ODoc) -> R {
    let mut all = vec![];
    each(&d.blocks, &mut |b| all.extend(b.id.clone()));
    let n = all.len();
    all.sort();
    all.dedup();
    let duplicates = d
        .warnings
        .iter()
        .filter(|w| w.0.starts_with("WarningType::DuplicateId"))
        .count();
    if n != all.len() + duplicates {
        return Err(format!(
            "{n} IDs, {} different ones, {duplicates} reported",
            all.len()
        ));
    }
    if d.catalog_len != all.len() || d.catalog.len() != all.len() {
        return Err(format!(
            "{} different IDs, {} in the catalog, {} found there",
            all.len(),
            d.catalog_len,
            d.catalog.len()
        ));
    }
    Ok(())
}

/// Section numbers: children count up from their parent's number; every level on
/// its own.
pub fn levels(d: &ODoc) -> R {
    fn go(v: &[OBlock], above: usize) -> R {
        for b in v {
            let mut next = above;
            if let OKind::Section { level, ty, .. } = &b.kind {
                if *ty == "discrete" {
                    if !b.children.is_empty() {
                        return Err("discrete heading with contents".to_owned());
                    }
                } else {
                    if *level <= above {
                        return Err(format!("section of level {level} inside of level {above}"));
                    }
                    next = *level;
                }
            } else if !matches!(b.kind, OKind::Preamble) {
                // Sections in delimited blocks start anew.
                next = 0;
            }
            go(&b.children, next)?;
        }
        Ok(())
    }
    go(&d.blocks, 0)
}

/// With the tagged renderer: each special character of the (single) paragraph was
/// rendered once.
pub fn specials(d: &ODoc) -> R {
    let (mut got, mut source) = (String::new(), String::new());
    each(&d.blocks, &mut |b| {
        got.push_str(b.rendered.as_deref().unwrap_or_default());
        if let OKind::Simple { content, .. } | OKind::Raw { content, .. } = &b.kind {
            source.push_str(&d.full[content.off..content.off + content.len]);
        }
    });
    for (c, t) in [('<', '\u{e010}'), ('>', '\u{e011}'), ('&', '\u{e012}')] {
        let (a, b) = (source.matches(c).count(), got.matches(t).count());
        if a != b {
            return Err(format!("{a} times {c} in the source, rendered {b} times"));
        }
        if got.contains(c) {
            return Err(format!("{c} was not escaped: {got:?}"));
        }
    }
    Ok(())
}

/// HTML in which nothing but what the default renderer writes looks like a tag.
pub fn no_markup(d: &ODoc, source: &str) -> R {
    let mut bad = None;
    each(&d.blocks, &mut |b| {
        let t = b.rendered.as_deref().unwrap_or_default();
        let mut rest = t;
        while let Some(i) = rest.find('<') {
            let tag = &rest[i + 1..];
            let name: String = tag
                .trim_start_matches('/')
                .chars()
                .take_while(|c| c.is_ascii_alphanumeric())
                .collect();
            if !["strong", "em", "code", "mark", "span", "sup", "sub", "a", "br", "img", "i"]
                .contains(&name.as_str())
            {
                bad = Some(t.to_owned());
            }
            rest = tag;
        }
    });
    match bad {
        None => Ok(()),
        Some(t) => Err(format!("{source:?} gives markup: {t:?}")),
    }
}
