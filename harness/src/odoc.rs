//! Neutral description of a parse result. Both the implementation (see
//! `obs.rs`) and the reference model (see `model/`) are turned into this form,
//! and the two are compared facet by facet.

use std::fmt::Write;

/// Facets: every line of the dump belongs to at least one of these.
pub const SPAN: u32 = 1; // where things are in the source
pub const STRUCT: u32 = 2; // which blocks there are and how they nest
pub const TEXT: u32 = 4; // rendered text
pub const META: u32 = 8; // titles, anchors, attribute lists, ids, roles, options
pub const SECT: u32 = 16; // section levels, types, numbers
pub const WARN: u32 = 32; // the set of warnings
pub const CAT: u32 = 64; // the catalog
pub const HEAD: u32 = 128; // the document header
pub const ENV: u32 = 256; // document attributes once the parse is over
pub const SMAP: u32 = 512; // the source map
pub const INC: u32 = 1024; // calls of the include handler
pub const ALL: u32 = 2047;
/// Leaves out what a different kind of line end changes.
pub const NO_CR: u32 = 1 << 16;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct OSpan {
    pub off: usize,
    pub len: usize,
    pub line: usize,
    pub col: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OVal {
    Value(String),
    Set,
    Unset,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct OElemAttr {
    pub name: Option<String>,
    pub value: String,
    pub items: Vec<String>,
    pub style: Option<String>,
    pub id: Option<String>,
    pub roles: Vec<String>,
    pub options: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct OAttrlist {
    pub span: OSpan,
    pub anchor: Option<String>,
    pub attrs: Vec<OElemAttr>,
    pub id: Option<String>,
    pub roles: Vec<String>,
    pub options: Vec<String>,
    pub style: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OAttribute {
    pub name: String,
    pub name_span: OSpan,
    pub raw: Option<OSpan>,
    pub value: OVal,
    pub span: OSpan,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OKind {
    Simple {
        style: &'static str,
        content: OSpan,
    },
    Media {
        ty: &'static str,
        target: OSpan,
        attrs: OAttrlist,
    },
    Section {
        level: usize,
        title_src: OSpan,
        title: String,
        ty: &'static str,
        number: Option<(Vec<usize>, String)>,
    },
    Raw {
        content: OSpan,
        subs: String,
    },
    Compound,
    Preamble,
    Break {
        ty: &'static str,
    },
    Attr(OAttribute),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OBlock {
    pub kind: OKind,
    pub span: OSpan,
    pub context: String,
    pub resolved: String,
    pub model: &'static str,
    pub style: Option<String>,
    pub rendered: Option<String>,
    pub title_src: Option<OSpan>,
    pub title: Option<String>,
    pub anchor: Option<OSpan>,
    pub reftext: Option<OSpan>,
    pub attrlist: Option<OAttrlist>,
    pub id: Option<String>,
    pub roles: Vec<String>,
    pub options: Vec<String>,
    pub children: Vec<OBlock>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OAuthor {
    pub name: String,
    pub first: String,
    pub middle: Option<String>,
    pub last: Option<String>,
    pub email: Option<String>,
    pub initials: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct OHeader {
    pub title_src: Option<OSpan>,
    pub title: Option<String>,
    pub attrs: Vec<OAttribute>,
    pub author_line: Option<(OSpan, Vec<OAuthor>)>,
    pub revision: Option<(OSpan, Option<String>, String, Option<String>)>,
    pub comments: Vec<OSpan>,
    pub span: OSpan,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ODoc {
    pub span: OSpan,
    /// What the document's own span covers.
    pub text: String,
    /// The text with its trailing whitespace.
    pub full: String,
    pub header: OHeader,
    pub blocks: Vec<OBlock>,
    /// (kind, where)
    pub warnings: Vec<(String, OSpan)>,
    pub catalog_len: usize,
    /// id -> (reftext, type)
    pub catalog: Vec<(String, Option<(Option<String>, &'static str)>)>,
    pub reftexts: Vec<(String, Option<String>)>,
    /// name -> (has, is_set, value)
    pub env: Vec<(String, bool, bool, OVal)>,
    /// line -> (file, line)
    pub smap: Vec<Option<(Option<String>, usize)>>,
    /// calls of the include handler
    pub calls: Vec<String>,
}

struct D<'a> {
    o: String,
    m: u32,
    ind: usize,
    src: &'a str,
}

impl D<'_> {
    fn line(&mut self, facet: u32, label: &str, v: &str) {
        if self.m & facet != 0 {
            for _ in 0..self.ind {
                self.o.push(' ');
            }
            self.o.push_str(label);
            self.o.push_str(": ");
            for c in v.chars() {
                match c {
                    '\n' => self.o.push_str("\\n"),
                    '\r' if self.m & NO_CR != 0 => (),
                    '\r' => self.o.push_str("\\r"),
                    '\\' => self.o.push_str("\\\\"),
                    c => self.o.push(c),
                }
            }
            self.o.push('\n');
        }
    }

    fn span(&mut self, facet: u32, label: &str, s: &OSpan) {
        // The position is only part of the SPAN facet; what it covers is also part
        // of the other one.
        if self.m & facet != 0 {
            let t = self
                .src
                .get(s.off..s.off + s.len)
                .unwrap_or("<out of range>");
            let t = format!("`{t}`");
            self.line(facet, label, &t);
        }
        if self.m & SPAN != 0 {
            for _ in 0..self.ind {
                self.o.push(' ');
            }
            if self.m & NO_CR != 0 {
                let _ = writeln!(self.o, "{label} @ {}:{}", s.line, s.col);
            } else {
                let _ = writeln!(
                    self.o,
                    "{label} @ {}+{} {}:{}",
                    s.off, s.len, s.line, s.col
                );
            }
        }
    }

    fn ospan(&mut self, facet: u32, label: &str, s: &Option<OSpan>) {
        if let Some(s) = s {
            self.span(facet, label, s);
        }
    }

    fn opt(&mut self, facet: u32, label: &str, s: &Option<String>) {
        if let Some(s) = s {
            self.line(facet, label, s);
        }
    }

    fn list(&mut self, facet: u32, label: &str, s: &[String]) {
        if !s.is_empty() && self.m & facet != 0 {
            self.line(facet, label, &format!("{s:?}"));
        }
    }

    fn attrlist(&mut self, label: &str, a: &OAttrlist) {
        if self.m & (META | SPAN) == 0 {
            return;
        }
        self.span(0, label, &a.span);
        self.line(META, label, "");
        self.ind += 1;
        self.opt(META, "anchor", &a.anchor);
        self.opt(META, "id", &a.id);
        self.opt(META, "style", &a.style);
        self.list(META, "roles", &a.roles);
        self.list(META, "options", &a.options);
        for e in &a.attrs {
            self.line(META, e.name.as_deref().unwrap_or("#"), &e.value);
            self.ind += 1;
            self.list(META, "items", &e.items);
            self.opt(META, "style", &e.style);
            self.opt(META, "id", &e.id);
            self.list(META, "roles", &e.roles);
            self.list(META, "options", &e.options);
            self.ind -= 1;
        }
        self.ind -= 1;
    }

    fn attribute(&mut self, facet: u32, a: &OAttribute) {
        self.line(facet, "attribute", &a.name);
        self.ind += 1;
        self.span(0, "name", &a.name_span);
        self.ospan(facet, "raw", &a.raw);
        if self.m & (TEXT | facet) != 0 {
            self.line(TEXT | facet, "value", &format!("{:?}", a.value));
        }
        self.span(0, "entry", &a.span);
        self.ind -= 1;
    }

    fn block(&mut self, b: &OBlock) {
        self.line(STRUCT, "block", &b.context);
        self.ind += 1;
        self.span(0, "block", &b.span);
        if self.m & STRUCT != 0 {
            self.line(STRUCT, "resolved", &b.resolved);
            self.line(STRUCT, "model", b.model);
        }
        match &b.kind {
            OKind::Simple { style, content } => {
                self.line(STRUCT, "style", style);
                self.span(STRUCT, "content", content);
            }
            OKind::Media { ty, target, attrs } => {
                self.line(STRUCT, "media", ty);
                self.span(META, "target", target);
                self.attrlist("macro", attrs);
            }
            OKind::Section {
                level,
                title_src,
                title,
                ty,
                number,
            } => {
                self.line(SECT | STRUCT, "level", &level.to_string());
                self.line(SECT, "type", ty);
                self.span(SECT, "section title", title_src);
                self.line(SECT | TEXT, "section title", title);
                if let Some((c, s)) = number {
                    self.line(SECT, "number", &format!("{c:?} {s}"));
                }
            }
            OKind::Raw { content, subs } => {
                self.span(STRUCT, "content", content);
                self.line(STRUCT | TEXT, "subs", subs);
            }
            OKind::Compound | OKind::Preamble => (),
            OKind::Break { ty } => self.line(STRUCT, "break", ty),
            OKind::Attr(a) => self.attribute(STRUCT, a),
        }
        self.opt(TEXT, "rendered", &b.rendered);
        self.opt(META, "declared", &b.style);
        self.ospan(META, "title", &b.title_src);
        self.opt(META | TEXT, "title", &b.title);
        self.ospan(META, "anchor", &b.anchor);
        self.ospan(META, "reftext", &b.reftext);
        if let Some(a) = &b.attrlist {
            self.attrlist("attrlist", a);
        }
        self.opt(META | CAT, "id", &b.id);
        self.list(META, "roles", &b.roles);
        self.list(META, "options", &b.options);
        self.ind += 1;
        for c in &b.children {
            self.block(c);
        }
        self.ind -= 2;
    }
}

impl ODoc {
    /// Canonical text of the facets in `mask`.
    pub fn dump(&self, mask: u32) -> String {
        let mut d = D {
            o: String::with_capacity(512),
            m: mask,
            ind: 0,
            src: &self.full,
        };
        d.span(STRUCT, "document", &self.span);
        let h = &self.header;
        if mask & (HEAD | SPAN) != 0 {
            d.ind = 1;
            d.span(HEAD, "header", &h.span);
            d.ospan(HEAD, "doctitle", &h.title_src);
            d.opt(HEAD, "doctitle", &h.title);
            for a in &h.attrs {
                d.attribute(HEAD, a);
            }
            if let Some((s, v)) = &h.author_line {
                d.span(HEAD, "author line", s);
                for a in v {
                    d.line(HEAD, "author", &format!("{a:?}"));
                }
            }
            if let Some((s, n, dt, r)) = &h.revision {
                d.span(HEAD, "revision line", s);
                d.line(HEAD, "revision", &format!("{n:?} {dt:?} {r:?}"));
            }
            for c in &h.comments {
                d.span(HEAD, "comment", c);
            }
        }
        d.ind = 1;
        for b in &self.blocks {
            d.block(b);
        }
        d.ind = 0;
        if mask & WARN != 0 {
            let mut w: Vec<String> = self
                .warnings
                .iter()
                .map(|(k, s)| {
                    if mask & NO_CR != 0 {
                        format!("{k} @ {}:{}", s.line, s.col)
                    } else {
                        format!("{k} @ {}+{} {}:{}", s.off, s.len, s.line, s.col)
                    }
                })
                .collect();
            w.sort();
            w.dedup();
            for w in w {
                d.line(WARN, "warning", &w);
            }
        }
        if mask & CAT != 0 {
            d.line(CAT, "catalog", &self.catalog_len.to_string());
            for (id, e) in &self.catalog {
                d.line(CAT, " ref", &format!("{id} -> {e:?}"));
            }
            for (t, id) in &self.reftexts {
                d.line(CAT, " reftext", &format!("{t} -> {id:?}"));
            }
        }
        if mask & ENV != 0 {
            for (n, has, set, v) in &self.env {
                d.line(ENV, "env", &format!("{n} has={has} set={set} {v:?}"));
            }
        }
        if mask & SMAP != 0 {
            for (i, l) in self.smap.iter().enumerate() {
                d.line(SMAP, "line", &format!("{} -> {l:?}", i + 1));
            }
        }
        for c in &self.calls {
            d.line(INC, "include", c);
        }
        d.o
    }
}

/// Line and column of a byte offset, computed from the definition.
pub fn at(src: &str, off: usize) -> (usize, usize) {
    let before = &src[..off];
    let line = 1 + before.matches('\n').count();
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    (line, 1 + before[start..].chars().count())
}
