//! Runs the implementation on a case and turns what it returns into an `ODoc`.
//! Uses the public API only.

use std::{
    cell::{Cell, RefCell},
    rc::Rc,
};

use asciidoc_parser::{
    Document, HasSpan, Parser, Span,
    attributes::{Attrlist, ElementAttribute},
    blocks::{
        Block, BreakType, ContentModel, IsBlock, MediaType, SectionType, SimpleBlockStyle,
    },
    document::{Attribute, InterpretedValue, RefType},
    parser::{
        CharacterReplacementType, IconRenderParams, ImageRenderParams, IncludeFileHandler,
        InlineSubstitutionRenderer, LinkRenderParams, ModificationContext, QuoteScope, QuoteType,
        SpecialCharacter,
    },
};

use crate::{
    case::{Case, Cfg, Ctx, Rend},
    odoc::*,
};

#[derive(Debug)]
struct Files {
    files: Vec<(String, String)>,
    log: Rc<RefCell<Vec<String>>>,
}

impl IncludeFileHandler for Files {
    fn resolve_target<'src>(
        &self,
        source: Option<&str>,
        target: &str,
        attrlist: &Attrlist<'src>,
        parser: &Parser,
    ) -> Option<String> {
        self.log.borrow_mut().push(format!(
            "{source:?} {target:?} [{}] x={:?}",
            show_attrlist(&attrs(attrlist)),
            val(&parser.attribute_value("x"))
        ));
        self.files
            .iter()
            .find(|f| f.0 == target)
            .map(|f| f.1.clone())
    }
}

pub fn parser(cfg: &Cfg, files: &[(String, String)], log: &Rc<RefCell<Vec<String>>>) -> Parser {
    let mut p = Parser::default();
    for (n, v, c) in cfg.attrs {
        let c = match c {
            Ctx::ApiOnly => ModificationContext::ApiOnly,
            Ctx::Header => ModificationContext::ApiOrHeader,
            Ctx::Body => ModificationContext::ApiOrDocumentBody,
            Ctx::Any => ModificationContext::Anywhere,
        };
        p = match v {
            crate::case::V::S(s) => p.with_intrinsic_attribute(n, s, c),
            crate::case::V::Set => p.with_intrinsic_attribute_bool(n, true, c),
            crate::case::V::Unset => p.with_intrinsic_attribute_bool(n, false, c),
        };
    }
    if let Some(f) = cfg.primary {
        p = p.with_primary_file_name(f);
    }
    if cfg.handler {
        p = p.with_include_file_handler(Files {
            files: files.to_vec(),
            log: log.clone(),
        });
    }
    if let Some(c) = cfg.sep {
        p.path_resolver.file_separator = c;
    }
    match cfg.rend {
        Rend::Html => p,
        Rend::Tagged => p.with_inline_substitution_renderer(Tagged),
    }
}

/// Parses all the documents of the case with one parser.
pub fn run(case: &Case, mask: u32) -> Vec<ODoc> {
    BASE.with(|b| b.set(0));
    let log = Rc::new(RefCell::new(vec![]));
    let mut p = parser(case.cfg, &case.files, &log);
    case.docs
        .iter()
        .map(|t| {
            log.borrow_mut().clear();
            let d = p.parse(t);
            let mut o = observe(&d, &p, mask);
            if let Some(rest) = t.strip_prefix(&o.text)
                && rest.trim_end().is_empty()
            {
                o.full = t.clone();
            }
            o.calls = log.borrow().clone();
            o
        })
        .collect()
}

thread_local! {
    /// Where the text being observed is in memory (0: not known).
    static BASE: Cell<usize> = const { Cell::new(0) };
}

pub fn span(s: &Span<'_>) -> OSpan {
    let base = BASE.with(Cell::get);
    if base != 0 {
        assert_eq!(
            s.data().as_ptr() as usize,
            base + s.byte_offset(),
            "the text {:?} is not what is at offset {}",
            s.data(),
            s.byte_offset()
        );
    }
    OSpan {
        off: s.byte_offset(),
        len: s.data().len(),
        line: s.line(),
        col: s.col(),
    }
}

pub fn val(v: &InterpretedValue) -> OVal {
    match v {
        InterpretedValue::Value(s) => OVal::Value(s.clone()),
        InterpretedValue::Set => OVal::Set,
        InterpretedValue::Unset => OVal::Unset,
    }
}

fn strs(v: Vec<&str>) -> Vec<String> {
    v.into_iter().map(str::to_owned).collect()
}

pub fn elem<'a>(e: &'a ElementAttribute<'a>) -> OElemAttr {
    OElemAttr {
        name: e.name().map(str::to_owned),
        value: e.value().to_owned(),
        items: strs(e.shorthand_items()),
        style: e.block_style().map(str::to_owned),
        id: e.id().map(str::to_owned),
        roles: strs(e.roles()),
        options: strs(e.options()),
    }
}

/// The lookups of an attribute list agree with its attributes in order.
fn lookups(a: &Attrlist<'_>) {
    let same = |x: Option<&ElementAttribute<'_>>, y: Option<&ElementAttribute<'_>>| {
        x.map(std::ptr::from_ref).map(|p| p.addr()) == y.map(std::ptr::from_ref).map(|p| p.addr())
    };
    let all: Vec<_> = a.attributes().collect();
    let positional: Vec<_> = all.iter().filter(|e| e.name().is_none()).copied().collect();
    assert!(a.nth_attribute(0).is_none(), "there is no attribute 0");
    for n in 1..=positional.len() + 1 {
        let e = positional.get(n - 1).copied();
        assert!(same(a.nth_attribute(n), e), "attribute {n} is another one");
    }
    for name in all.iter().filter_map(|e| e.name()).chain(["alt", "width", "id"]) {
        let e = all.iter().find(|e| e.name() == Some(name)).copied();
        assert!(same(a.named_attribute(name), e), "attribute {name} is another one");
        for n in 0..3 {
            let e = e.or(a.nth_attribute(n));
            assert!(
                same(a.named_or_positional_attribute(name, n), e),
                "attribute {name} or {n} is another one"
            );
        }
    }
    let options = a.options();
    for o in ["", "o", "x", "inline"].into_iter().chain(options.iter().copied()) {
        assert_eq!(a.has_option(o), options.contains(&o), "has_option({o:?})");
    }
}

pub fn attrs(a: &Attrlist<'_>) -> OAttrlist {
    lookups(a);
    OAttrlist {
        span: span(&a.span()),
        anchor: a.anchor().map(str::to_owned),
        attrs: a.attributes().map(elem).collect(),
        id: a.id().map(str::to_owned),
        roles: strs(a.roles()),
        options: strs(a.options()),
        style: a.block_style().map(str::to_owned),
    }
}

fn attribute(a: &Attribute<'_>) -> OAttribute {
    OAttribute {
        name: a.name().data().to_owned(),
        name_span: span(a.name()),
        raw: a.raw_value().map(|s| span(&s)),
        value: val(a.value()),
        span: span(&a.span()),
    }
}

/// The ID of a block. Known finding (pinned by tests): `Block::id` doesn't know the
/// generated ID of a section, `SectionBlock::id` does.
fn id<'a>(b: &'a Block<'a>) -> Option<&'a str> {
    match b {
        Block::Section(s) => {
            let explicit = s.anchor().is_some() || s.attrlist().is_some_and(|a| a.id().is_some());
            assert!(
                b.id() == s.id() || b.id().is_none() && !explicit,
                "the ID of a section is {:?} or {:?}",
                b.id(),
                s.id()
            );
            s.id()
        }
        _ => b.id(),
    }
}

/// Known findings that aren't about one input: whether they are still there.
pub fn probe(name: &str) -> Option<bool> {
    match name {
        "block-id" => {
            let mut p = Parser::default();
            let d = p.parse("== A");
            let b = d.nested_blocks().next()?;
            let Block::Section(s) = b else { return None };
            Some(b.id() != s.id())
        }
        "link-title" => {
            let mut p = Parser::default();
            let d = p.parse("https://example.org[x,title=y]");
            let b = d.nested_blocks().next()?;
            Some(!b.rendered_content()?.contains("title"))
        }
        "attr-lines" => {
            let mut p = Parser::default();
            let d = p.parse("[.a]\n[.b]\nx");
            let b = d.nested_blocks().next()?;
            Some(!(b.roles().contains(&"a") && b.roles().contains(&"b")))
        }
        _ => None,
    }
}

fn block<'a>(b: &'a Block<'a>) -> OBlock {
    let kind = match b {
        Block::Simple(x) => OKind::Simple {
            style: match x.style() {
                SimpleBlockStyle::Paragraph => "paragraph",
                SimpleBlockStyle::Literal => "literal",
                SimpleBlockStyle::Listing => "listing",
                SimpleBlockStyle::Source => "source",
            },
            content: span(&x.content().original()),
        },
        Block::Media(x) => OKind::Media {
            ty: match x.type_() {
                MediaType::Image => "image",
                MediaType::Video => "video",
                MediaType::Audio => "audio",
            },
            target: span(x.target().expect("target")),
            attrs: attrs(x.macro_attrlist()),
        },
        Block::Section(x) => OKind::Section {
            level: x.level(),
            title_src: span(&x.section_title_source()),
            title: x.section_title().to_owned(),
            ty: match x.section_type() {
                SectionType::Normal => "normal",
                SectionType::Appendix => "appendix",
                SectionType::Discrete => "discrete",
            },
            number: x
                .section_number()
                .map(|n| (n.components().to_vec(), n.to_string())),
        },
        Block::RawDelimited(x) => OKind::Raw {
            content: span(&x.content().original()),
            subs: format!("{:?}", b.substitution_group()),
        },
        Block::CompoundDelimited(_) => OKind::Compound,
        Block::Preamble(_) => OKind::Preamble,
        Block::Break(x) => OKind::Break {
            ty: match x.type_() {
                BreakType::Thematic => "thematic",
                BreakType::Page => "page",
            },
        },
        Block::DocumentAttribute(x) => OKind::Attr(attribute(x)),
        _ => unreachable!("a block kind added since this was written"),
    };
    let options = strs(b.options());
    for o in options.iter().map(String::as_str).chain(["", "o", "x"]) {
        assert_eq!(b.has_option(o), options.iter().any(|p| p == o), "has_option({o:?})");
    }
    match b {
        Block::Simple(x) => assert_eq!(x.content().is_empty(), x.content().rendered().is_empty()),
        Block::RawDelimited(x) => {
            assert_eq!(x.content().is_empty(), x.content().rendered().is_empty());
            assert_eq!(b.rendered_content(), Some(x.content().rendered()));
        }
        _ => (),
    }
    OBlock {
        kind,
        span: span(&b.span()),
        context: b.raw_context().to_string(),
        resolved: b.resolved_context().to_string(),
        model: match b.content_model() {
            ContentModel::Compound => "compound",
            ContentModel::Simple => "simple",
            ContentModel::Verbatim => "verbatim",
            ContentModel::Raw => "raw",
            ContentModel::Empty => "empty",
            ContentModel::Table => "table",
        },
        style: b.declared_style().map(str::to_owned),
        rendered: b.rendered_content().map(str::to_owned),
        title_src: b.title_source().map(|s| span(&s)),
        title: b.title().map(str::to_owned),
        anchor: b.anchor().map(|s| span(&s)),
        reftext: b.anchor_reftext().map(|s| span(&s)),
        attrlist: b.attrlist().map(attrs),
        id: id(b).map(str::to_owned),
        roles: strs(b.roles()),
        options,
        children: b.nested_blocks().map(block).collect(),
    }
}

/// The document attributes whose final values are compared.
pub const ENV_NAMES: &[&str] = &[
    "a", "b", "c", "x", "y", "foo", "foo-bar", "empty", "sp", "deg", "plus", "toc", "sectids",
    "sectnums", "sectnumlevels", "idprefix", "idseparator", "example-caption", "iconsdir",
    "imagesdir", "author", "firstname", "middlename", "lastname", "email", "authorinitials",
    "authors", "authorcount", "author_1", "firstname_1", "author_2", "firstname_2",
    "middlename_2", "lastname_2", "email_2", "authorinitials_2", "author_3", "lastname_3",
    "revnumber", "revdate", "revremark", "hardbreaks", "hardbreaks-option", "doctitle", "icons",
    "A", "Foo", "Author",
];

pub fn observe(d: &Document<'static>, p: &Parser, mask: u32) -> ODoc {
    let start = d.span();
    let base = start.data().as_ptr() as usize - start.byte_offset();
    BASE.with(|b| b.set(base));
    let o = observe_parts(d, p, mask);
    BASE.with(|b| b.set(0));
    o
}

fn observe_parts(d: &Document<'static>, p: &Parser, mask: u32) -> ODoc {
    let h = d.header();
    assert_eq!(d.catalog().is_empty(), d.catalog().len() == 0);
    assert_eq!(
        (d.content_model(), &*d.raw_context(), d.title(), d.rendered_content()),
        (ContentModel::Compound, "document", None, None)
    );
    assert!(d.id().is_none() && d.attrlist().is_none() && d.title_source().is_none());
    // The catalog can only be asked about IDs one has: those of the blocks.
    let mut ids = vec![];
    fn collect<'a>(b: &'a Block<'a>, ids: &mut Vec<String>) {
        ids.extend(id(b).map(str::to_owned));
        b.nested_blocks().for_each(|b| collect(b, ids));
    }
    d.nested_blocks().for_each(|b| collect(b, &mut ids));
    ids.sort();
    ids.dedup();
    let catalog: Vec<_> = ids
        .into_iter()
        .filter_map(|id| {
            let e = d.catalog().get_ref(&id);
            assert_eq!(d.catalog().contains_id(&id), e.is_some(), "{id}");
            let e = e?;
            assert_eq!(id, e.id);
            Some((
                id,
                Some((
                    e.reftext.clone(),
                    match e.ref_type {
                        RefType::Anchor => "anchor",
                        RefType::Section => "section",
                        RefType::Bibliography => "bibliography",
                    },
                )),
            ))
        })
        .collect();
    assert_eq!(d.catalog().is_empty(), d.catalog().len() == 0);
    let mut reftexts: Vec<_> = catalog
        .iter()
        .filter_map(|c| c.1.as_ref().and_then(|e| e.0.clone()))
        .collect();
    reftexts.sort();
    reftexts.dedup();
    let text = d.span().data().to_owned();
    // The document span is trimmed at the end; the rest of the source can still be
    // part of other spans (for example, of an empty one at the end).
    let lines = if mask & SMAP != 0 {
        text.matches('\n').count() + 1
    } else {
        0
    };
    ODoc {
        span: span(&d.span()),
        full: text.clone(),
        text,
        header: OHeader {
            title_src: h.title_source().map(|s| span(&s)),
            title: h.title().map(str::to_owned),
            attrs: h.attributes().map(attribute).collect(),
            author_line: h.author_line().map(|a| {
                (
                    span(&a.span()),
                    a.authors()
                        .map(|a| OAuthor {
                            name: a.name().to_owned(),
                            first: a.firstname().to_owned(),
                            middle: a.middlename().map(str::to_owned),
                            last: a.lastname().map(str::to_owned),
                            email: a.email().map(str::to_owned),
                            initials: a.initials(),
                        })
                        .collect(),
                )
            }),
            revision: h.revision_line().map(|r| {
                (
                    span(&r.span()),
                    r.revnumber().map(str::to_owned),
                    r.revdate().to_owned(),
                    r.revremark().map(str::to_owned),
                )
            }),
            comments: h.comments().map(span).collect(),
            span: span(&h.span()),
        },
        blocks: d.nested_blocks().map(block).collect(),
        warnings: d
            .warnings()
            .map(|w| (format!("{:?}", w.warning), span(&w.source)))
            .collect(),
        catalog_len: d.catalog().len(),
        reftexts: reftexts
            .into_iter()
            .map(|t| {
                let id = d.catalog().resolve_id(&t);
                (t, id)
            })
            .collect(),
        catalog,
        env: if mask & ENV != 0 {
            ENV_NAMES
                .iter()
                .map(|n| {
                    (
                        n.to_string(),
                        p.has_attribute(n),
                        p.is_attribute_set(n),
                        val(&p.attribute_value(n)),
                    )
                })
                .collect()
        } else {
            vec![]
        },
        smap: (1..=lines)
            .map(|l| {
                d.source_map()
                    .original_file_and_line(l)
                    .map(|l| (l.0, l.1))
            })
            .collect(),
        calls: vec![],
    }
}

/// Canonical one-line form of an attribute list, used by the tagged renderer (here
/// and in the model).
pub fn show_attrlist(a: &OAttrlist) -> String {
    let mut o = String::new();
    for (i, e) in a.attrs.iter().enumerate() {
        if i > 0 {
            o.push('\u{e004}');
        }
        o.push_str(e.name.as_deref().unwrap_or("\u{e005}"));
        o.push('\u{e006}');
        o.push_str(&e.value);
    }
    if let Some(x) = &a.anchor {
        o.push('\u{e007}');
        o.push_str(x);
    }
    o
}

/// Renderer whose output shows every call with all its parameters, in private-use
/// characters that no substitution touches.
#[derive(Debug)]
struct Tagged;

pub fn tag(dest: &mut String, name: &str, params: &[&str]) {
    dest.push('\u{e000}');
    dest.push_str(name);
    for p in params {
        dest.push('\u{e002}');
        dest.push_str(p);
    }
    dest.push('\u{e001}');
}

impl InlineSubstitutionRenderer for Tagged {
    fn render_special_character(&self, t: SpecialCharacter, dest: &mut String) {
        tag(
            dest,
            match t {
                SpecialCharacter::Lt => "\u{e010}",
                SpecialCharacter::Gt => "\u{e011}",
                SpecialCharacter::Ampersand => "\u{e012}",
            },
            &[],
        )
    }

    fn render_quoted_substitition(
        &self,
        t: QuoteType,
        scope: QuoteScope,
        attrlist: Option<Attrlist<'_>>,
        id: Option<String>,
        body: &str,
        dest: &mut String,
    ) {
        let a = attrlist.map(|a| show_attrlist(&attrs(&a)));
        let name = match t {
            QuoteType::Strong => "\u{e020}",
            QuoteType::DoubleQuote => "\u{e021}",
            QuoteType::SingleQuote => "\u{e022}",
            QuoteType::Monospaced => "\u{e023}",
            QuoteType::Emphasis => "\u{e024}",
            QuoteType::Mark => "\u{e025}",
            QuoteType::Superscript => "\u{e026}",
            QuoteType::Subscript => "\u{e027}",
            QuoteType::Unquoted => "\u{e028}",
        };
        let scope = match scope {
            QuoteScope::Constrained => "\u{e030}",
            QuoteScope::Unconstrained => "\u{e031}",
        };
        tag(
            dest,
            name,
            &[
                scope,
                a.as_deref().unwrap_or("\u{e003}"),
                id.as_deref().unwrap_or("\u{e003}"),
                body,
            ],
        )
    }

    fn render_character_replacement(&self, t: CharacterReplacementType, dest: &mut String) {
        let x;
        let name = match t {
            CharacterReplacementType::Copyright => "\u{e040}",
            CharacterReplacementType::Registered => "\u{e041}",
            CharacterReplacementType::Trademark => "\u{e042}",
            CharacterReplacementType::EmDashSurroundedBySpaces => "\u{e043}",
            CharacterReplacementType::EmDashWithoutSpace => "\u{e044}",
            CharacterReplacementType::Ellipsis => "\u{e045}",
            CharacterReplacementType::SingleRightArrow => "\u{e046}",
            CharacterReplacementType::DoubleRightArrow => "\u{e047}",
            CharacterReplacementType::SingleLeftArrow => "\u{e048}",
            CharacterReplacementType::DoubleLeftArrow => "\u{e049}",
            CharacterReplacementType::TypographicApostrophe => "\u{e04a}",
            CharacterReplacementType::CharacterReference(n) => {
                x = n;
                tag(dest, "\u{e04b}", &[&x]);
                return;
            }
        };
        tag(dest, name, &[])
    }

    fn render_line_break(&self, dest: &mut String) {
        tag(dest, "\u{e050}", &[])
    }

    fn render_image(&self, p: &ImageRenderParams, dest: &mut String) {
        tag(
            dest,
            "\u{e051}",
            &[
                p.target,
                &p.alt,
                p.width.unwrap_or("\u{e003}"),
                p.height.unwrap_or("\u{e003}"),
                &show_attrlist(&attrs(p.attrlist)),
            ],
        )
    }

    fn image_uri(&self, target: &str, _: &Parser, key: Option<&str>) -> String {
        format!("{target}\u{e055}{key:?}")
    }

    fn render_icon(&self, p: &IconRenderParams, dest: &mut String) {
        tag(
            dest,
            "\u{e052}",
            &[
                p.target,
                &p.alt,
                p.size.unwrap_or("\u{e003}"),
                &show_attrlist(&attrs(p.attrlist)),
            ],
        )
    }

    fn render_link(&self, p: &LinkRenderParams, dest: &mut String) {
        tag(
            dest,
            "\u{e053}",
            &[
                &p.target,
                &p.link_text,
                &p.extra_roles.join("\u{e004}"),
                p.window.unwrap_or("\u{e003}"),
                &show_attrlist(&attrs(p.attrlist)),
            ],
        )
    }

    fn render_anchor(&self, id: &str, reftext: Option<String>, dest: &mut String) {
        tag(
            dest,
            "\u{e054}",
            &[id, reftext.as_deref().unwrap_or("\u{e003}")],
        )
    }
}
