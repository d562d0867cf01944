//! The properties: what is explored for each, and what is compared.

use std::cell::Cell;

use crate::{
    case::{Case, Cfg, Ctx, Rend, V},
    engine::*,
    invariants, model, obs,
    odoc::*,
};

// ------------------------------------------------------------ configurations

const B: Cfg = Cfg::BASE;

macro_rules! cfgs {
    ($($name:literal { $($k:ident : $v:expr),* })*) => {
        &[Cfg::BASE, $(Cfg { name: $name, $($k: $v,)* ..B }),*]
    };
}

static CFGS: &[Cfg] = cfgs! {
    "doc" {}
    "doctag" { rend: Rend::Tagged }
    "docinc" { handler: true }
    "tagged" { rend: Rend::Tagged }
    "inc" { handler: true }
    "incp" { handler: true, primary: Some("main.adoc") }
    "incx" { handler: true, attrs: &[("x", V::S("b"), Ctx::ApiOnly)] }
    "inc-head" { handler: true, attrs: &[("x", V::S("c"), Ctx::Header)] }
    "inc-body" { handler: true, attrs: &[("x", V::S("c"), Ctx::Body)] }
    "inc-unset" { handler: true, attrs: &[("x", V::Unset, Ctx::Header)] }
    "pri" { primary: Some("main.adoc") }
    "bs" { sep: Some('\\') }
    "hb" { attrs: &[("hardbreaks-option", V::Set, Ctx::Any)] }
    "hbt" { attrs: &[("hardbreaks-option", V::Set, Ctx::Any)], rend: Rend::Tagged }
    "font" { attrs: &[("icons", V::S("font"), Ctx::Any)] }
    "icons" { attrs: &[("icons", V::Set, Ctx::Any), ("icontype", V::S("svg"), Ctx::Any)] }
    "dirs" { attrs: &[
        ("imagesdir", V::S("i/m"), Ctx::Any),
        ("iconsdir", V::S("/ic"), Ctx::Any),
        ("icons", V::S("image"), Ctx::Any)
    ] }
    "url" { attrs: &[
        ("imagesdir", V::S("https://h/"), Ctx::Any),
        ("iconsdir", V::S(""), Ctx::Any),
        ("icons", V::S(""), Ctx::Any)
    ] }
    "up" { attrs: &[("imagesdir", V::S("../a/."), Ctx::Any)], sep: Some('\\') }
    "hide" { attrs: &[("hide-uri-scheme", V::Set, Ctx::Any)] }
    "attrs" { attrs: &[
        ("x", V::S("v"), Ctx::Any),
        ("y", V::S("<i>"), Ctx::Any),
        ("foo-bar", V::S("*s*"), Ctx::Any),
        ("c", V::Set, Ctx::Any),
        ("b", V::Unset, Ctx::Any)
    ] }
    "x-api" { attrs: &[("x", V::S("0"), Ctx::ApiOnly)] }
    "x-api-set" { attrs: &[("x", V::Set, Ctx::ApiOnly)] }
    "x-api-unset" { attrs: &[("x", V::Unset, Ctx::ApiOnly)] }
    "x-head" { attrs: &[("x", V::S("0"), Ctx::Header)] }
    "x-head-set" { attrs: &[("x", V::Set, Ctx::Header)] }
    "x-head-unset" { attrs: &[("x", V::Unset, Ctx::Header)] }
    "x-body" { attrs: &[("x", V::S("0"), Ctx::Body)] }
    "x-body-set" { attrs: &[("x", V::Set, Ctx::Body)] }
    "x-body-unset" { attrs: &[("x", V::Unset, Ctx::Body)] }
    "x-any" { attrs: &[("x", V::S("0"), Ctx::Any)] }
    "x-any-unset" { attrs: &[("X", V::Unset, Ctx::Any)] }
    "people" { attrs: &[
        ("author", V::S("Api A"), Ctx::ApiOnly),
        ("lastname", V::S("Api L"), Ctx::Body),
        ("email_2", V::S("Api E"), Ctx::Header),
        ("revdate", V::S("Api D"), Ctx::ApiOnly),
        ("revnumber", V::Unset, Ctx::Body),
        ("doctitle", V::S("Api T"), Ctx::ApiOnly)
    ] }
    "ids-off" { attrs: &[("sectids", V::Unset, Ctx::ApiOnly)] }
    "ids-odd" { attrs: &[
        ("idprefix", V::S(""), Ctx::ApiOnly),
        ("idseparator", V::S("-"), Ctx::ApiOnly)
    ] }
    "num" { attrs: &[("sectnums", V::Set, Ctx::Any)] }
    "num1" { attrs: &[("sectnums", V::Set, Ctx::ApiOnly), ("sectnumlevels", V::S("1"), Ctx::Any)] }
    "num5" { attrs: &[("sectnums", V::Set, Ctx::Any), ("sectnumlevels", V::S("5"), Ctx::Any)] }
    "num0" { attrs: &[("sectnums", V::Set, Ctx::Any), ("sectnumlevels", V::S("0"), Ctx::Any)] }
};

pub fn cfg(name: &str) -> Option<&'static Cfg> {
    CFGS.iter().find(|c| c.name == name)
}

pub fn c(names: &[&str]) -> Vec<&'static Cfg> {
    names
        .iter()
        .map(|n| cfg(n).unwrap_or_else(|| panic!("no cfg {n}")))
        .collect()
}

/// Those with at most one include directive: the expansion of a file that includes
/// itself twice is finite, but has two to the power of the depth limit lines.
fn once(v: Vec<String>) -> Vec<String> {
    v.into_iter()
        .filter(|s| s.matches("include::").count() < 2)
        .collect()
}

// ------------------------------------------------------------ checks

fn diff(a: &str, b: &str) -> String {
    let (la, lb): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    let n = la.iter().zip(&lb).take_while(|(x, y)| x == y).count();
    let show = |v: &[&str]| {
        v.iter()
            .skip(n.saturating_sub(3))
            .take(8)
            .map(|l| format!("    {l}\n"))
            .collect::<String>()
    };
    format!("got:\n{}expected:\n{}", show(&la), show(&lb))
}

fn dump(v: &[ODoc], mask: u32) -> String {
    v.iter().map(|d| d.dump(mask)).collect::<Vec<_>>().join("---\n")
}

fn outcome(hash_of: &str, execs: u64, fail: Option<String>) -> Outcome {
    Outcome {
        hash: hash(hash_of),
        execs,
        fail,
    }
}

/// Implementation and reference model agree.
fn compare(p: &Prop, case: &Case) -> Outcome {
    let mut got = obs::run(case, p.mask);
    compared(p, case, &mut got)
}

/// The implementation doesn't show the whitespace at the end of the text: where the
/// text has been preprocessed, take that of the model.
fn complete(got: &mut [ODoc], want: &[ODoc]) {
    for (g, w) in got.iter_mut().zip(want) {
        if w.full.starts_with(&g.text) {
            g.full = w.full.clone();
        }
    }
}

fn compared(p: &Prop, case: &Case, got: &mut [ODoc]) -> Outcome {
    let want = in_model(|| model::run(case, p.mask));
    complete(got, &want);
    let want = in_model(|| dump(&want, p.mask));
    let got = dump(got, p.mask);
    let fail = (got != want).then(|| diff(&got, &want));
    outcome(&got, case.docs.len() as u64, fail)
}

/// The same, and every document satisfies the invariants.
fn with(p: &Prop, case: &Case, f: &[&dyn Fn(&ODoc) -> Result<(), String>]) -> Outcome {
    let mut got = obs::run(case, p.mask);
    let o = compared(p, case, &mut got);
    for d in &got {
        step();
        for f in f {
            if let Err(m) = f(d) {
                return outcome("", case.docs.len() as u64, Some(m));
            }
        }
    }
    o
}

fn total(p: &Prop, case: &Case) -> Outcome {
    let got = obs::run(case, p.mask);
    step();
    outcome(&dump(&got, STRUCT | WARN), case.docs.len() as u64, None)
}

fn positions(p: &Prop, case: &Case) -> Outcome {
    with(p, case, &[&invariants::positions])
}

fn partition(p: &Prop, case: &Case) -> Outcome {
    with(p, case, &[&invariants::partition])
}

fn levels(p: &Prop, case: &Case) -> Outcome {
    with(p, case, &[&invariants::levels])
}

fn ids(p: &Prop, case: &Case) -> Outcome {
    with(p, case, &[&invariants::ids])
}

fn escaped(p: &Prop, case: &Case) -> Outcome {
    let src = case.docs[0].clone();
    if case.cfg.name.starts_with("doc") || src.contains("\n\n") && src.contains("pass:") {
        // The macro may be in an ordinary paragraph behind the verbatim one.
        with(p, case, &[])
    } else if case.cfg.rend == Rend::Tagged && case.cfg.attrs.is_empty() {
        with(p, case, &[&invariants::specials])
    } else if case.cfg.attrs.is_empty() {
        with(p, case, &[&|d| invariants::no_markup(d, &src)])
    } else {
        compare(p, case)
    }
}

/// A fresh parser gives the same again, and a used one what the model says.
fn deterministic(p: &Prop, case: &Case) -> Outcome {
    let mut a = obs::run(case, p.mask);
    let b = obs::run(case, p.mask);
    let (da, db) = (dump(&a, p.mask), dump(&b, p.mask));
    if da != db {
        return outcome("", 2, Some(format!("second run differs: {}", diff(&db, &da))));
    }
    let mut o = compared(p, case, &mut a);
    o.execs *= 2;
    o
}

/// The text with CRLF means the same.
fn crlf(p: &Prop, case: &Case) -> Outcome {
    let ends = |end: &str| {
        let text = |t: &str| {
            let lines: Vec<&str> = t.split('\n').collect();
            let last = lines.len() - 1;
            let mut o = String::new();
            for l in &lines[..last] {
                o.push_str(l.trim_end_matches('\r'));
                o.push_str(end);
            }
            o + lines[last]
        };
        Case {
            docs: case.docs.iter().map(|d| text(d)).collect(),
            files: case.files.iter().map(|f| (f.0.clone(), text(&f.1))).collect(),
            cfg: case.cfg,
        }
    };
    step();
    let mask = p.mask | NO_CR;
    let (case, other) = (ends("\n"), ends("\r\n"));
    let (mut a, mut b) = (obs::run(&case, mask), obs::run(&other, mask));
    if case.cfg.primary.is_some() || case.docs.iter().any(|d| d.contains("include::") || d.contains("if")) {
        complete(&mut a, &in_model(|| model::run(&case, mask)));
        complete(&mut b, &in_model(|| model::run(&other, mask)));
    }
    let (da, db) = (dump(&a, mask), dump(&b, mask));
    if da != db {
        return outcome("", 2, Some(format!("with CRLF instead of LF: {}", diff(&db, &da))));
    }
    let mut o = compared(p, &other, &mut b);
    o.execs += 1;
    o
}

/// A text with includes parses as the flattened text does.
fn flattened(p: &Prop, case: &Case) -> Outcome {
    let mut got = obs::run(case, p.mask);
    let mut o = compared(p, case, &mut got);
    let mask = STRUCT | TEXT | META | SECT | WARN | CAT | HEAD | SPAN;
    // (A line ending in CR CR LF loses one of them each time, and an escaped directive
    // is one the next time.)
    let escapes = |t: &String| t.contains("\\include::");
    if o.fail.is_none() && !case.docs.iter().chain(case.files.iter().map(|f| &f.1)).any(escapes) && case.docs.len() == 1 && !got[0].full.contains('\r') {
        let flat = Case {
            docs: vec![got[0].full.clone()],
            files: case.files.clone(),
            cfg: case.cfg,
        };
        let again = obs::run(&flat, mask);
        let (a, b) = (dump(&got, mask), dump(&again, mask));
        if a != b {
            o.fail = Some(format!("flattened text parses differently: {}", diff(&b, &a)));
        }
        o.execs += 1;
    }
    o
}

/// docs: target, optional start.
fn paths(_: &Prop, case: &Case) -> Outcome {
    let r = asciidoc_parser::parser::PathResolver {
        file_separator: case.cfg.sep.unwrap_or('/'),
    };
    let target = &case.docs[0];
    let start = case.docs.get(1).map(String::as_str);
    let got = (
        r.web_path(target, start),
        r.posixify(target),
        r.is_web_root(target),
    );
    let want = in_model(|| {
        let sep = r.file_separator;
        (
            model::path::web_path(target, start, sep),
            model::path::posix(target, sep),
            target.starts_with('/'),
        )
    });
    let fail = (got != want).then(|| format!("got {got:?}, expected {want:?}"));
    outcome(&format!("{got:?}"), 3, fail)
}

/// docs: two texts, each taken through all representations and conversions.
fn strings(_: &Prop, case: &Case) -> Outcome {
    use std::{
        borrow::{Borrow, Cow},
        hash::{BuildHasher, BuildHasherDefault, DefaultHasher},
    };

    use asciidoc_parser::strings::{CowStr, InlineStr};

    type H = BuildHasherDefault<DefaultHasher>;
    const CAPACITY: usize = 3 * size_of::<isize>() - 2;

    fn made(s: &str) -> Vec<(String, CowStr<'_>)> {
        let mut v: Vec<(String, CowStr<'_>)> = vec![
            ("from &str".into(), CowStr::from(s)),
            ("from String".into(), CowStr::from(s.to_owned())),
            ("from borrowed Cow".into(), CowStr::from(Cow::Borrowed(s))),
            ("from owned Cow".into(), CowStr::from(Cow::<str>::Owned(s.to_owned()))),
        ];
        if let Ok(i) = InlineStr::try_from(s) {
            v.push(("from InlineStr".into(), CowStr::Inlined(i)));
        }
        let mut cs = s.chars();
        if let (Some(c), None) = (cs.next(), cs.next()) {
            v.push(("from char".into(), CowStr::from(c)));
            v.push(("from Cow of char".into(), CowStr::from(Cow::<char>::Owned(c))));
            v.push(("from InlineStr of char".into(), CowStr::Inlined(InlineStr::from(c))));
        }
        v
    }

    let mut n = 0;
    let mut problem: Option<String> = None;
    let mut check = |what: &str, ok: bool| {
        n += 1;
        step();
        if !ok && problem.is_none() {
            problem = Some(what.to_owned());
        }
    };
    let h = H::default();
    for s in &case.docs {
        match InlineStr::try_from(s.as_str()) {
            Ok(i) => {
                check("stored inline beyond the capacity", s.len() <= CAPACITY);
                check("inline text", &*i == s.as_str() && i.as_ref() == s.as_str());
                check("inline display", format!("{i}") == *s);
                check("inline hash", h.hash_one(i) == h.hash_one(s.as_str()));
                let j = i;
                check("inline equality", i == j);
            }
            Err(_) => check("not stored inline within the capacity", s.len() > CAPACITY),
        }
        // All histories of conversions of up to three steps.
        let mut layer = made(s);
        for depth in 0..=3 {
            let mut next = vec![];
            for (how, x) in &layer {
                check(&format!("text {how}"), &**x == s.as_str());
                check(&format!("as_ref {how}"), AsRef::<str>::as_ref(x) == s);
                let b: &str = x.borrow();
                check(&format!("borrow {how}"), b == s);
                check(&format!("display {how}"), format!("{x}") == *s);
                check(&format!("debug {how}"), format!("{x:#?}") == format!("{s:?}"));
                check(&format!("hash {how}"), h.hash_one(x) == h.hash_one(s.as_str()));
                if depth < 3 {
                    next.push((format!("{how}, cloned"), x.clone()));
                    next.push((format!("{how}, into_string"), x.clone().into_string().into()));
                    let cow: Cow<'_, str> = x.clone().into();
                    check(&format!("Cow {how}"), cow == s.as_str());
                    next.push((format!("{how}, into Cow"), cow.into()));
                    if depth < 2 {
                        next.push((
                            format!("{how}, to_string"),
                            CowStr::from(x.to_string()),
                        ));
                    }
                }
            }
            layer = next;
        }
    }
    if let [s, t] = case.docs.as_slice() {
        for (how, x) in &made(s) {
            for (how2, y) in &made(t) {
                check(&format!("{how} == {how2}"), (x == y) == (s == t));
                check(&format!("{how2} == {how}"), (y == x) == (s == t));
                if let (CowStr::Inlined(x), CowStr::Inlined(y)) = (x, y) {
                    check("InlineStr ==", (x == y) == (s == t));
                }
            }
        }
    }
    outcome(&format!("{:?}", case.docs), n, problem)
}

// ------------------------------------------------------------ helpers for spaces

fn cat(parts: &[&[&'static str]]) -> Vec<&'static str> {
    parts.iter().flat_map(|p| p.iter().copied()).collect()
}

/// Lines of a body of all sorts.
const LINES: &[&str] = &[
    "a\n",
    " b\n",
    "\n",
    "// c\n",
    "----\n",
    "====\n",
    "--\n",
    "== S\n",
    "=== T\n",
    "[x]\n",
    ".t\n",
    "[[i]]\n",
    ":y: v\n",
    "image::x[]\n",
    "'''\n",
];
const MORE_LINES: &[&str] = &[
    "\té *b*\n",
    "= L\n",
    "////\n",
    "....\n",
    "++++\n",
    "****\n",
    "____\n",
    "-----\n",
    "[discrete]\n",
    "[literal]\n",
    "+\n",
    "<<<\n",
    "[[i d]]\n",
    "[[]]\n",
    "[a=\"b]\n",
    "[#j.r%o,k=v]\n",
    "audio::x[a,,b]\n",
    "ä{y} http://é.ü[x]\n",
    ":y!:\n",
    "====== U\n",
    "======= V\n",
    "## W\n",
];

thread_local! {
    /// Spaces are being made for another property,
    static SHARING: Cell<bool> = const { Cell::new(false) };
    /// and are to be less deep.
    static SHALLOW: Cell<bool> = const { Cell::new(false) };
}

/// How often tokens can be repeated, quick and thorough.
fn d(th: bool, quick: usize, thorough: usize) -> usize {
    if th {
        thorough
    } else if SHALLOW.get() {
        quick.saturating_sub(1).max(1)
    } else {
        quick
    }
}

type Made = (&'static str, fn(bool) -> Vec<Space>);

const INLINE: &[Made] = &[
    ("C14", s14), ("C18", s18), ("C19", s19), ("C20", s20), ("C21", s21), ("C22", s22), ("C23", s23), ("C25", s25),
    ("C26", s26), ("C27", s27),
];

const BLOCKS: &[Made] = &[
    ("C02", s02), ("C03", s03), ("C04", s04), ("C05", s05), ("C06", s06), ("C07", s07), ("C08", s08), ("C09", s09),
    ("C17", s17), ("C24", s24), ("C31", s31), ("C33", s33),
];

const HEADER: &[Made] = &[("C10", s10), ("C11", s11), ("C12", s12), ("C13", s13)];

const INCLUDES: &[Made] = &[("C15", s15), ("C16", s16)];

/// What is explored for other properties, less deep and without the biggest spaces
/// (thorough: as deep as their quick checks), for one that speaks of all documents.
fn shared(th: bool, own: &str, of: &[&[Made]]) -> Vec<Space> {
    shared_up_to(if th { 1_000_000 } else { 100_000 }, th, own, of)
}

/// The smaller ones of those explored for properties of the same part of the language:
/// a defect often shows there, too.
pub fn neighbours(id: &str, th: bool) -> Vec<Space> {
    const LISTS: &[Made] = &[("C17", s17)];
    const ENTRIES: &[Made] = &[("C14", s14)];
    const SUBS: &[Made] = &[("C26", s26)];
    let of: &[&[Made]] = match id {
        "C17" => &[INLINE, BLOCKS],
        "C14" => &[INLINE, HEADER],
        "C18" | "C19" | "C20" | "C21" | "C22" | "C23" | "C25" | "C26" => &[INLINE, LISTS],
        "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C31" | "C33" => &[BLOCKS, SUBS],
        "C10" | "C11" | "C12" | "C13" => &[HEADER, ENTRIES],
        "C15" | "C16" => &[INCLUDES],
        _ => return vec![],
    };
    let mut v = shared_up_to(if th { 200_000 } else { 15_000 }, th, id, of);
    if id == "C18" {
        // Here, other configurations stand for other checks.
        v.retain_mut(|s| {
            s.cfgs.retain(|c| ["base", "tagged"].contains(&c.name));
            for c in &mut s.cfgs {
                *c = cfg(if c.name == "base" { "doc" } else { "doctag" }).unwrap();
            }
            !s.cfgs.is_empty()
        });
    }
    v
}

fn shared_up_to(cap: u64, th: bool, own: &str, of: &[&[Made]]) -> Vec<Space> {
    if SHARING.get() {
        return vec![];
    }
    SHARING.set(true);
    SHALLOW.set(!th);
    let mut out = vec![];
    for (id, f) in of.iter().flat_map(|g| g.iter()).filter(|m| m.0 != own) {
        for mut s in f(false) {
            s.name = format!("{id}: {}", s.name);
            if s.size() > 0 && s.size() <= cap {
                out.push(s);
            }
        }
    }
    SHARING.set(false);
    SHALLOW.set(false);
    out
}

const MARKUP: &str = "<&> *b* _i_ `m` #k# ^u^ ~d~ \"`q`\" {x} (C) -- it's image:i.png[] https://u.v[t] [[n]]w +\nz\\{x}";

// ------------------------------------------------------------ every character

/// Every ASCII character (but the two that separate files and documents here) and
/// some others: letters of several scripts and lengths, letters whose case mapping is
/// odd, numbers, spaces, line separators and invisible ones.
fn characters() -> Vec<String> {
    (0..128u8)
        .filter(|b| !matches!(b, 1 | 2))
        .map(|b| (b as char).to_string())
        .chain(
            "éßİſªΣǅ山🦀\u{301}٣²Ⅷ\u{a0}\u{2003}\u{3000}\u{2028}\u{85}\u{ad}\u{feff}\u{200b}\u{96}\u{97}’—€\u{e000}\u{10ffff}"
                .chars()
                .map(|c| c.to_string()),
        )
        .collect()
}

/// The templates with `¤` replaced by every string of up to `n` characters.
fn each(name: &str, templates: &[&str], n: usize) -> Space {
    let n = if SHALLOW.get() { 1 } else { n };
    let all = characters();
    let refs: Vec<&str> = all.iter().map(|c| c.as_str()).collect();
    let fill = words(&refs, 1, n);
    Space::slots(
        name,
        vec![
            templates
                .iter()
                .flat_map(|t| fill.iter().map(move |f| t.replace('¤', f)))
                .collect(),
        ],
    )
}

/// Every string repeated as often as every number says.
fn times(what: &[&str], n: impl IntoIterator<Item = usize> + Clone) -> Vec<String> {
    what.iter().flat_map(|w| n.clone().into_iter().map(|n| w.repeat(n))).collect()
}

const E04: &[&str] = &["----¤\na\n----\n", "----\na\n----¤\nb", "¤----\na\n----\n", "--\na\n¤--\nb", "====¤\na\n====¤\n", "¤¤¤¤\na\n¤¤¤¤\nb", "¤¤\na\n¤¤\nb", "====\n----¤\n====\n----\n", "```¤\na\n```\n", "[¤]\n----\na\n----\n"];
const E05: &[&str] = &["¤a\nb\n", "a\n¤b\n", "a\n¤\nb\n", "//¤\na\n", "a\n//¤ b\nc\n", " a\n¤\nb\n", " a\n¤b\n", "a¤\nb\n", "[literal]\n¤a\n  b\n", "[source]\na¤\n\nb\n", "[¤]\na\n", " ¤a\n  b\n"];
const E06: &[&str] = &[".¤a\nb\n", ".¤\nb\n", ".a¤\nb\n", "[[¤]]\nb\n", "[[a¤]]\nb\n", "[[¤a]]\nb\n", "[[a,¤]]\nb\n", "[¤]\nb\n", "[¤a]\nb\n", "[a¤]\nb\n", "[a]¤\nb\n", "¤[a]\nb\n", "[[a]]¤\nb\n", "¤.a\nb\n", "[#a¤]\nb\n", "[.a]\n¤\nb\n"];
const E07: &[&str] = &["==¤A\n\nb\n", "¤== A\n\nb\n", "== ¤\n\nb\n", "== A¤\n\nb\n", "==¤ A\n", "¤ A\n", "¤¤ A\n\nb\n", "a\n\n==¤\n\nb\n", "[discrete¤]\n== A\n\n=== B\n", "[¤float]\n== A\n"];
const E08: &[&str] = &[":sectnums:¤\n\n== A\n", ":sectnums:\n:sectnumlevels: ¤\n\n== A\n\n=== B\n\n==== C\n\n===== D\n", ":sectnums:\n\n[appendix¤]\n== A\n\n=== B\n", ":sectnums:\n\n[¤appendix]\n== A\n\n=== B\n", ":sectnums: ¤\n\n== A\n"];
const E09: &[&str] = &["== A¤B\n", "== ¤A\n", "== A¤\n", "== ¤\n", ":idseparator: ¤\n\n== A b\n\n== A b\n", ":idprefix: ¤\n\n== A\n\n== a\n", "[[a¤b]]\nc\n", "[#a¤b]\nc\n", "[id=a¤b]\nc\n", "[[a,¤]]\n== B\n", "[reftext=¤]\n== B\n", "[reftext=\"a¤b\"]\n== B\n", ".¤\n[[a]]\nb\n", ":idprefix: ¤\n:idseparator: -\n\n== ¤A - b¤\n"];
const E10: &[&str] = &["= ¤\n\nb\n", "=¤A\n\nb\n", "= A¤\n\nb\n", "¤= A\n\nb\n", "= A\n¤\n\nb\n", "¤\n= A\n", "= A\n:b: c\n¤\nd\n", "= A¤: B\n\n{doctitle}\n", "= A\n//¤\n:b: c\n", "= A\n:b¤: c\n"];
const E11: &[&str] = &["= T\nA¤\n", "= T\n¤A B\n", "= T\nA¤B\n", "= T\nA B¤C <d@e>\n", "= T\nA B <¤>\n", "= T\nA <d@e>¤\n", "= T\nA <b>;¤C\n", "= T\n¤\n", "= T\n:author: ¤\n\n{author}|{firstname}|{lastname}|{authorinitials}\n", "= T\nA ¤B C\n\n{authorinitials}|{author}|{middlename}\n", "= T\n:x: ¤\n{x} A\n"];
const E12: &[&str] = &["= T\nA\n¤\n", "= T\nA\nv¤\n", "= T\nA\nv1¤\n", "= T\nA\n¤1, b\n", "= T\nA\nv1,¤b\n", "= T\nA\nv1, b¤: c\n", "= T\nA\nv1, b:¤\n", "= T\nA\nv1¤ b: c\n", "= T\nA\n1¤2, b: c\n", "= T\nA\nv1, b: c¤\n", "= T\nA\nv1¤, b\n"];
const E14: &[&str] = &[":a: ¤\n\n{a}\n", ":a¤b: c\n\n{a¤b}|{a}\n", ":¤a: c\n\n{¤a}|{a}\n", ":a¤: c\n\n{a}\n", ":a:¤c\n\n{a}\n", ":a: b¤\n\n{a}\n", ":a: b \\¤\n  c\n\n{a}\n", ":a: b \\\n¤c\n\n{a}\n", ":a: b\n\n¤{a}\n", ":a: b\n\n{a¤}{¤a}{a}¤\n", ":¤: c\n\n{¤}\n", ":a: b¤\\\nc\n\n{a}\n", ":!a¤: c\n\n{a}\n", ":a: b\n¤\n{a}\n", ":a: pass:¤[b <]\n\n{a}\n"];
const E15: &[&str] = &["include::a¤[]\n\u{1}a\u{1}k\n", "include::¤a[]\n\u{1}a\u{1}k\n", "¤include::a[]\n\u{1}a\u{1}k\n", "include::a[]¤\n\u{1}a\u{1}k\n", "include::a[¤]\n\u{1}a\u{1}k\n", "include::a[b=¤]\n\u{1}a\u{1}k\n", "include::a[]\nb\n\u{1}a\u{1}¤", "include::a[]\nb\n\u{1}a\u{1}k¤\nl¤", "include:¤a[]\n\u{1}a\u{1}k\n", "a\n¤\n:x: a\ninclude::{x}[]\n\u{1}a\u{1}k\n", ":x: ¤a\ninclude::{x}[]\n\u{1}a\u{1}k\n"];
const E17: &[&str] = &["[a¤b=c]\nz\n", "[a=¤]\nz\n", "[a=b¤c]\nz\n", "[.¤]\nz\n", "[#a¤.b]\nz\n", "[a%¤]\nz\n", "[a=\"¤\"]\nz\n", "[a='¤b']\nz\n", "[¤,b]\nz\n", "[a,¤]\nz\n", "[a¤,b]\nz\n", "[\"a\"¤b]\nz\n", "[a=\"b\"¤,c]\nz\n", "[¤=b]\nz\n", "image::a[¤b=c]\n", "image::a[b,c¤d=e]\n", "[a=¤b,c]\nz\n", "a [¤]#b#\n", "a [.c¤d]#b#\n", "image:a[¤]\n", "image:a[b=¤]\n", "[opts=a¤b]\nz\n", "[role=a¤b]\nz\n", "[role=\"a¤b\"]\nz\n", "[options=\"¤,b\"]\nz\n"];
const E18: &[&str] = &["¤\n", "a¤b\n", "<¤>\n", "&¤;\n", "&#¤;\n", "----\n¤\n----\n", "== <¤&\n", "`<¤`\n", "&l¤;\n"];
const E19: &[&str] = &["*a*¤\n", "¤*a*\n", "*¤a*\n", "*a¤*\n", "_a_¤\n", "¤_a_\n", "_¤a_\n", "_a¤_\n", "`a`¤\n", "¤`a`\n", "`¤a`\n", "`a¤`\n", "#a#¤\n", "¤#a#\n", "#¤a#\n", "#a¤#\n", "**a¤**\n", "¤**a**¤\n", "__¤__\n", "^¤^\n", "^a¤b^\n", "~a¤b~\n", "¤~a~¤\n", "\"`a`\"¤\n", "¤\"`a`\"\n", "\"`¤a`\"\n", "\"`a¤`\"\n", "'`a`'¤\n", "¤'`a`'\n", "'`¤a`'\n", "'`a¤`'\n", "[¤]*a*\n", "¤[a]#b#\n", "[.a¤]_b_\n", "[#¤]`b`\n", "[a]¤#b#\n", "[a]¤##b##\n"];
const E20: &[&str] = &["+a+¤\n", "¤+a+\n", "+¤a+\n", "+a¤+\n", "++a¤++\n", "¤++a++¤\n", "+++¤+++\n", "¤+++<+++\n", "$$¤$$\n", "¤$$<$$¤\n", "pass:¤[<]\n", "¤pass:[<]\n", "pass:[<¤]\n", "pass:q[¤*a*]¤\n", "pass:a¤[*b*<]\n", "`+a+`¤\n", "¤`+a+`\n", "`+¤+`\n", "[¤]+a+\n", "[a¤]++b++\n", "[¤ x-]`a`\n", "[x-]`a¤`\n", "¤[x-]`a`\n", "[x-]+a+¤\n", "pass¤:[<]\n"];
const E21: &[&str] = &["a--¤\n", "a¤--b\n", "a ¤-- b\n", "¤--b\n", "a --¤ b\n", "a¤'b\n", "a'¤\n", "¤'a\n", "¤`'\n", "`'¤\n", "(C¤)\n", "(¤C)\n", "¤(TM)¤\n", "a¤...\n", "a...¤\n", "¤->¤\n", "=¤>\n", "&¤;\n", "&#¤;\n", "&#x¤;\n", "&a¤;\n", "&#1¤;\n", "&#xa¤;\n", "&amp¤\n", "¤&amp;\n", "(¤)\n", "\\¤(C)\n"];
const E22: &[&str] = &["mailto:u@v.ww[t,¤]\n", "mailto:u@v.ww[t,a,¤]\n", "mailto:u¤@v.ww[]\n", "mailto:u@v.ww[¤]\n", "https://a¤\n", "https://a¤b\n", "https://¤a\n", "¤https://a\n", "https://a¤[t]\n", "https://a[¤]\n", "https://a[t¤]\n", "¤https://a[t]\n", "https://a[t]¤\n", "https:¤//a\n", "link:¤[t]\n", "link:a¤[t]\n", "¤link:a[t]\n", "link:a[¤]\n", "link:a[t¤,role=b]\n", "u¤@v.ww\n", "u@¤v.ww\n", "u@v¤ww\n", "u@v.ww¤\n", "¤u@v.ww\n", "u@v.w¤\n", "[[¤]]\n", "[[i¤]]\n", "[[i,¤]]\n", "¤[[i]]\n", "[[i]]¤\n", "anchor:¤[r]\n", "anchor:i[¤]\n", "anchor:i¤[r]\n", "¤anchor:i[]\n", "<https://a¤>\n", "<https://a>¤\n", "https://a[t,window=¤]\n", "https://a[t,role=¤]\n", "https://a[t,opts=¤]\n", "https://a.b/¤c\n"];
const E23: &[&str] = &["image:¤[]\n", "image:a¤[]\n", "image:a¤b[]\n", "image:a.png[¤]\n", "image:a[b¤]\n", "¤image:a[]\n", "image:a[]¤\n", "image:¤a.b[]\n", "icon:¤[]\n", "icon:a¤[]\n", "icon:a[¤]\n", "¤icon:a[]\n", "icon:a[b,size=¤]\n", "image:a[b,¤]\n", "image:a[b,2,¤]\n", "image:a[link=¤]\n", "image:a[title=¤]\n", "image:a[float=¤]\n", "image:a[role=¤]\n", ":imagesdir: ¤\n\nimage:a.png[]\n", ":imagesdir: a¤b\n\nimage:c.png[]\n", ":iconsdir: ¤\n:icons:\n\nicon:a[]\n", "image:a/¤.png[]\n", "image:a.¤[]\n"];
const E25: &[&str] = &["a +¤\nb\n", "a¤+\nb\n", "a +\n¤b\n", "¤ +\nb\n", "[%hardbreaks]\na¤\nb\n", "[%hardbreaks]\na +¤\nb\n", "a ¤+\nb\n", "a +¤", "[%hardbreaks]\na\n¤\n", "[%¤]\na\nb\n", "[%hardbreaks¤]\na\nb\n"];
const E26: &[&str] = &["[subs=¤]\n*a* < {sp} (C)\n", "[subs=¤q]\n*a* < {sp} (C)\n", "[subs=q¤]\n*a* < {sp} (C)\n", "[subs=\"q¤a\"]\n*a* < {sp} (C)\n", "[subs=\"¤q,a\"]\n*a* < {sp} (C)\n", "[subs=\"q,¤\"]\n*a* < {sp} (C)\n", "[subs=\"q,¤a\"]\n----\n*a* < {sp} (C)\n----\n", "pass:q¤a[*a* < {sp} (C)]\n", "pass:¤q[*a* < {sp} (C)]\n", "pass:q,¤[*a* < {sp} (C)]\n"];
const E28: &[&str] = &["¤", "a¤b", "a/¤", "¤/a", "a/¤/b", "¤:a", "¤://a", "¤\u{2}a", "a\u{2}¤", "../¤\u{2}a/b", "a\u{2}¤/b", "a\u{2}¤://b", "a\u{2}b/¤/..", "/¤\u{2}b", "./¤\u{2}", ".¤", "..¤/a", "a\u{2}¤:b"];
const E31: &[&str] = &["image::¤[]\n", "image::a¤[]\n", "image::a¤b[]\n", "¤image::a[]\n", "image::a[]¤\n", "image¤::a[]\n", "image:¤:a[]\n", "image::a[¤]\n", "¤::a[]\n", "a¤::b[]\n", "'''¤\n", "¤'''\n", "<<<¤\n", "¤<<<\n", "¤¤¤\na\n", "-¤-¤-\n", "*¤*¤*\n", "---¤\n", "***¤\n", "'¤''\n"];
const E33: &[&str] = &["¤\n\n== S\n", "= H\n\n¤\n\n== S\n", "a\n\n¤== S\n", "a\n¤\n== S\n", "= H\n¤\n== S\n", "= H\n\n¤a\n\n[¤]\n== S\n"];
const EACH: &[&[&str]] = &[E04, E05, E06, E07, E08, E09, E10, E11, E12, E14, E17, E18, E19, E20, E21, E22, E23, E25, E26, E31, E33];

// ------------------------------------------------------------ spaces

fn s01(th: bool) -> Vec<Space> {
    let chars = &[
        "=", "#", "[", "]", "*", "_", "`", "+", ":", "\n", " ", "a", "é", "\\", "<", "{", "}",
        "-", ".", ",", "'", "\"", "/", "^", "~", "(", "\r", "\t", "!", "@", ";", "%", "&", "1",
    ];
    let mac = &[
        "image:", "icon:", "link:", "mailto:", "http://", "pass:", "[", "]", "\\", "<", ">", "+",
        "$$", "é", "\n", "[[", "]]", "anchor:", ",", "=", "\"", ":", "x", " ",
    ];
    let inc = &[
        "include::a[]\n",
        "include::b[]\n",
        "include::{x}[y=\"]\n",
        "include::[]\n",
        "ifdef::x[]\n",
        "\n",
        "x\n",
        ":x: a\n",
    ];
    let mut out = vec![
        Space::seq("characters", chars, 0, d(th, 3, 5)),
        Space::seq("characters after a line", chars, 1, d(th, 3, 4))
            .wrap(&[("a\n", ""), ("[", "\nb"), ("== a", "\n\nb"), ("= a\n", ""), (":a: ", "")]),
        Space::seq("lines", &cat(&[LINES, MORE_LINES]), 0, d(th, 3, 5)),
        Space::seq(
            "lines, one without end",
            &cat(&[LINES, MORE_LINES]),
            0,
            d(th, 2, 3),
        )
        .wrap(&[("", "="), ("", "[x"), ("", "a"), ("", "----"), ("", ":a: \\"), ("", "\r"), ("", "é")]),
        Space::seq("macros", mac, 0, d(th, 4, 5)),
        Space::seq("macros tagged", mac, 0, d(th, 3, 4)).cfg(&c(&["tagged", "url", "hide", "font"])),
        Space::slots(
            "includes",
            vec![
                words(inc, 0, d(th, 2, 3)),
                v(&["\u{1}a\u{1}"]),
                once(words(inc, 0, 2)),
                v(&["\u{1}b\u{1}"]),
                words(inc, 0, 1),
            ],
        )
        .cfg(&c(&["inc", "incp", "incx", "pri"])),
        Space::slots(
            "attribute lists",
            vec![
                v(&["[", "*a* ["]),
                words(&["a", "é", "x-", " ", ".", "#", "%", ",", "=", "\"", "'"], 0, d(th, 3, 5)),
                v(&["]*b*", "]`b`", "]+b+", "]++b++", "]+++b+++", "]$$b$$", "]##b##", "]`+b+`", "]\nb\n", "]\n== b\n", "]\n----\nb\n----\n", "]"]),
            ],
        ),
        Space::slots(
            "arguments",
            vec![
                v(&["image:i[", "icon:i[", "link:u[", "http://a[", "mailto:a@b[", "image::i[", "[[", "anchor:i[", "pass:", "video::", "= T\na <", "= T\n:", "= T\na\nv", "[quote,", "."]),
                words(&["a", "é", " ", "]", ",", "=", "\"", "^", ">", ":", "1", ".", "{"], 0, d(th, 3, 5)),
                v(&["]", "]]", "", "\nb\n", ">\n"]),
            ],
        ),
        // One thing, many times over.
        Space::slots(
            "repetition",
            vec![
                chars.iter().flat_map(|c| [1, 10, 70, 500].map(|n| c.repeat(n))).collect(),
                v(&["", "\n", "a", "]", "\n\n"]),
                chars.iter().flat_map(|c| [0, 60].map(|n| c.repeat(n))).collect(),
            ],
        ),
        Space::slots(
            "repeated lines",
            vec![
                cat(&[LINES, MORE_LINES])
                    .iter()
                    .flat_map(|c| [2, 25].map(|n| c.repeat(n)))
                    .collect(),
                cat(&[LINES, MORE_LINES]).iter().map(|l| l.to_string()).collect(),
                v(&["", "a\n", "====\n"]),
            ],
        ),
        Space::slots(
            "numbers",
            vec![
                v(&[":sectnums:\n", ":sectnums:\n:sectnumlevels: 9\n", ":sectnums:\n:sectnumlevels: -1\n", ":sectnums:\n:sectnumlevels: 99999999999999999999\n"]),
                words(&["\n[appendix]\n", "\n== a\n", "\n====== b\n", "\n=== c\n"], 1, d(th, 4, 6)),
            ],
        ),
        Space::slots("appendices", vec![v(&[":sectnums:\n"]), [1, 25, 26, 27, 28, 60, 300].map(|n| "\n[appendix]\n== a\n".repeat(n)).to_vec()]),
        each("every character", &cat(EACH), d(th, 1, 2)),
    ];
    out.extend(shared(th, "C01", &[BLOCKS, INLINE, HEADER, INCLUDES]));
    out
}

fn s02(th: bool) -> Vec<Space> {
    let head = &[
        "= Tï\n",
        "é. N <e@f>; G H\n",
        "v1, d: é\n",
        ":x: ü\\\n  w\n",
        ":!x:\n",
        "// ç\n",
        "\n",
        "\t\n",
        "ß *b*\n",
        "  \n",
    ];
    let mut out = vec![
        Space::seq("lines", &cat(&[LINES, MORE_LINES]), 1, d(th, 3, 4)),
        Space::seq("common lines", LINES, 4, d(th, 4, 5)),
        Space::seq("lines in a block in a section", &cat(&[LINES, MORE_LINES]), 0, d(th, 2, 3))
            .wrap(&[("== é\n\n[q]\n====\né\n", "====\nz\n"), ("= É\n\nü\n\n== Z\n", "\n== Y\n")]),
        Space::seq("header lines", head, 1, d(th, 4, 6)),
        Space::seq(
            "lines with CRLF",
            &[
                "é\r\n", "\r\n", "----\r\n", "== Sü\r\n", "[ä,b=]\r\n", ".t\r\n", "[[i,ö]]\r\n",
                ":y: \\\r\n", "image::é[ü]\r\n", "====\r\n", " \u{a0}x\r\n",
            ],
            1,
            d(th, 4, 6),
        ),
        Space::slots(
            "line shapes",
            vec![
                v(&["", "é\n\n", "= é\n\n"]),
                v(&["", " ", "\t", "é"]),
                v(&[
                    "[[ä,ö]]", "[[ä,]]", "[[1]]", "[[]]", "[a,,b]", "[a=\"]", "[ a]", "[]", ".ü",
                    "..x", ". x", "image::ä[ö]", "image::[]", "image::a b[c,", "audio::x[y]z",
                    "== ö ", "==\tö", "==  ö", "== ", "==", "#  ö", "'''", ":ä: b", ":a:b: c",
                    ":a-b!:  c ", ":a:", "::", "// ö", "/// ö", "ö // x",
                ]),
                v(&["", " ", "\t", " \t "]),
                v(&["", "\n", "\r\n", "\nx", "\n\nx\n", "\n----\nö\n----\n", "\n== ö"]),
            ],
        ),
        each("every character", &cat(EACH), d(th, 1, 2)),
        Space::slots(
            "far away",
            vec![
                times(&["\n", "é\n\n", "\r\n", "// c\n"], [0, 99, 255, 256, 999]),
                [
                    "[¤,,b]\nx", "[a=\"¤\",,b=c]\nx", "[[¤,x y]]\nz", "[[1¤]]\nz", "image::¤[c,,d]", "image::c[¤,,d]", "=== ¤\n", "====\n¤\n----\n",
                    ".¤\nx", "= ¤\nA <b@c>\nv1, d: e\n", "= T\nA <b@c>\nv1¤, d: e\n", "= T\nA ¤ <b@c>; B\nv1, ¤: e\n", ":a: ¤\n\n{a}\n", "¤\n:a: b \\\n¤\n",
                ]
                .iter()
                .flat_map(|t| times(&["a", "é", "\t"], [0, 100, 254, 255, 256, 1000]).into_iter().map(|f| t.replace('¤', &f)))
                .collect(),
            ],
        ),
        Space::slots(
            "farther away",
            vec![
                times(&["x\n"], [0, 65_530, 65_533, 70_000]).iter().map(|t| format!("////\n{t}////\n\n")).collect(),
                ["[¤,,b]\nx", "[[1¤]]\nz", "image::¤[c,,d]", "=== ¤\n", "= T\nA <b@c>\nv1¤, d: e\n", "¤\n[,,]\n"]
                    .iter()
                    .flat_map(|t| times(&["a"], [1, 65_530, 65_536]).into_iter().map(|f| t.replace('¤', &f)))
                    .collect(),
            ],
        ),
    ];
    out.extend(shared(th, "C02", &[BLOCKS, INLINE, HEADER, INCLUDES]));
    out
}

fn s03(th: bool) -> Vec<Space> {
    let mut out = vec![
        Space::seq("lines", &cat(&[LINES, MORE_LINES]), 1, d(th, 3, 4)),
        Space::seq(
            "nesting",
            &["a\n", "\n", "====\n", "--\n", "----\n", "== S\n", "=== T\n", "[x]\n", "// c\n", ".t\n"],
            4,
            d(th, 5, 7),
        ),
        Space::seq("after a title", &cat(&[LINES, MORE_LINES]), 1, d(th, 2, 3)).wrap(&[
            ("= D\n\n", ""),
            ("= D\n:x: y\n", ""),
            ("= D\n\na\n\n", "\n== E\n"),
            ("a\n", "b"),
            ("====\n", ""),
            ("====\n", "====\nz"),
        ]),
        each("every character", &cat(EACH), d(th, 1, 2)),
    ];
    out.extend(shared(th, "C03", &[BLOCKS, HEADER]));
    out
}

fn s04(th: bool) -> Vec<Space> {
    let delims = &[
        "----\n", "-----\n", "....\n", "====\n", "=====\n", "--\n", "****\n", "____\n", "++++\n",
        "////\n", "a\n", "\n", "[x]\n", "---- \n", " ----\n",
    ];
    let bar: Vec<String> = words(&["-", "=", ".", "*", "_", "+", "/"], 1, d(th, 5, 6))
        .into_iter()
        .chain(
            ["-", "=", ".", "*", "_", "+", "/", "`", "|"]
                .iter()
                .flat_map(|c| (1..8).map(|n| c.repeat(n)))
                .flat_map(|s| {
                    [
                        s.clone(),
                        s.clone() + " ",
                        s.clone() + "\t",
                        s.clone() + "é",
                        "é".to_owned() + &s,
                        " ".to_owned() + &s,
                        s.clone() + "\r",
                    ]
                }),
        )
        .collect();
    vec![
        Space::seq("delimiters", delims, 1, d(th, 5, 6)),
        Space::seq(
            "few delimiters",
            &["----\n", "====\n", "--\n", "=====\n", "a\n", "\n"],
            6,
            d(th, 7, 8),
        ),
        Space::slots(
            "delimiter line",
            vec![bar, v(&["\na\n", "\n"]), v(&["\nb", "----\nb", "====\nb", "--\nb"])],
        ),
        Space::slots(
            "open and close",
            vec![
                v(&["", "a\n\n", "[source]\n", ".t\n[[i]]\n", "====\n", "== S\n"]),
                ["-", "=", ".", "*", "_", "+", "/"]
                    .iter()
                    .flat_map(|c| (2..7).map(|n| c.repeat(n)))
                    .collect(),
                v(&["\n", "\n *a* <b>\n\n", "\n== T\n", "\n  é\n ü\n", "\r\nx\r\n", " \n\n\n"]),
                ["-", "=", ".", "*", "_", "+", "/"]
                    .iter()
                    .flat_map(|c| (2..7).map(|n| c.repeat(n)))
                    .collect(),
                v(&["", "\n", " \nb", "x\nb", "\nb\n"]),
            ],
        ),
        Space::slots(
            "styled",
            vec![
                v(&["[example]", "[listing]", "[literal]", "[pass]", "[sidebar]", "[quote]", "[verse]", "[open]", "[comment]", "[source,ruby]", "[NOTE]", "[subs=normal]", "[stem]", "[abc]", "[subs=+q]", "[subs=none]"]),
                v(&["\n"]),
                v(&["--", "----", "====", "____", "****", "....", "++++", "////"]),
                v(&["\n<*a*> {sp}\n\n b\n"]),
                v(&["--", "----", "====", "____", "****", "....", "++++", "////"]),
                v(&["\nz\n", "\n\nz\n"]),
            ],
        ),
        each("every character", E04, 2),
        Space::slots(
            "long and many delimiters",
            vec![
                ["-", "=", ".", "*", "_", "+", "/"].iter().flat_map(|c| [4usize, 5, 8, 20, 100, 300].map(|n| c.repeat(n) + "\n")).collect(),
                times(&["a\n", "\n", "--\na\n--\n", "====\n", "----\nb\n----\n", "=====\n"], [0, 1, 2, 3, 12]),
                ["-", "=", ".", "*", "_", "+", "/"].iter().flat_map(|c| [0usize, 3, 4, 5, 8, 20, 100, 300].map(|n| c.repeat(n) + "\n")).collect(),
                v(&["", "b\n"]),
            ],
        ),
    ]
}

fn s05(th: bool) -> Vec<Space> {
    let a = &[
        "a\n", " b\n", "   c\n", "\td\n", "\n", " \n", "// c\n", "/// d\n", "+\n", "[x]\n",
        "----\n", "== S\n", ":y: v\n", "image::x[]\n", "'''\n", "* l\n", "é `m`\n", "..\n", "[[i]]\n", "//x\n",
    ];
    vec![
        Space::seq("lines", a, 1, d(th, 4, 5)),
        Space::seq("indented lines", &["a\n", " b\n", "   *c*\n", "\td\n", " \te \n", "// f\n", " // g\n", "\n", " \n", "g\t\n"], 1, d(th, 5, 6)),
        Space::seq("styled", &["a\n", " b <\n", "   c\n", "\n", "// d\n", "+\n", "----\n", "[x]\n", "image::x[]\n", "== S\n", "'''\n", ".u\n"], 1, d(th, 3, 5))
            .wrap(&[
                ("[literal]\n", ""),
                ("[normal]\n", ""),
                ("[source]\n", ""),
                ("[listing]\n", ""),
                ("[verse]\n", ""),
                ("[literal#i.r]\n", ""),
                (".literal\n", ""),
                ("[source,subs=normal]\n", ""),
            ]),
        Space::slots(
            "paragraph and next line",
            vec![
                v(&["a", " a", "é", "a +", "// a"]),
                v(&["\n", "\r\n", " \n", "\t\n"]),
                v(&[
                    "+", "+ ", " +", "[x]", "[]", "[x] ", "[x", "x]", "[[x]]", "[ x]", "[x]y",
                    "----", "---", "--", "-- ", "====", "===", "== S", "=", "== ", "****", "***",
                    "'''", "<<<", "....", "...", ".t", "____", "__", "++++", "////", "///", "//",
                    "// c", "|===", "* b", ". c", "image::x[]", ":a: b", "include::x", "```",
                    "~~~~", "<1> x", "a:: b", "1. x", "", " ", "\t", "é", "\u{a0}", "\u{3000}x",
                ]),
                v(&["", "\n", "\nz", "\n\nz\n", "\n----\n"]),
            ],
        ),
        Space::slots(
            "literal with markup",
            vec![
                v(&["", "[literal]\n", "[source]\n", "[normal]\n", "[subs=normal]\n", "[literal,subs=+q]\n", "[source,subs=attributes]\n", "[example]\n", "[verse]\n"]),
                v(&["", " ", "\t", "  \t "]),
                vec![MARKUP.to_owned(), "<*x*>\n  y\n z".to_owned(), "a // b\n// c\n//d\nl".to_owned()],
                v(&["", "\n", "\n\n x"]),
            ],
        ),
        each("every character", E05, 2),
        Space::slots(
            "many lines",
            vec![
                times(&["a\n", " a\n", "   a\n", "// c\n", "\n", "\ta\n", "a +\n"], [0, 1, 2, 3, 11, 100]),
                times(&["  b\n", " b\n", "b\n", "\n", "// d\n"], [0, 1, 2, 3, 50]),
                v(&["", "c", " c"]),
            ],
        ),
    ]
}

fn s06(th: bool) -> Vec<Space> {
    let meta = &[
        ".T\n", ".U *x*\n", "[[a]]\n", "[[b,ref é]]\n", "[#c.r%o]\n", "[s]\n", "[role=q,id=z]\n",
        "[[1x]]\n", "[[]]\n", "\n", "// c\n", "[subs=none]\n", "[opts=\"p,q\"]\n", "[]\n",
    ];
    let blocks = &[
        "a *b*\n", " l\n", "----\nx\n----\n", "====\nx\n====\n", "--\n.V\nx\n--\n", "== S\n\nx\n",
        "image::i[]\n", "'''\n", "<<<\n", "", "\nz\n", ":y: v\n", "[[n]]\n== T\n", "++++\n", "// d\n", "= L\n",
    ];
    vec![
        Space::slots("metadata before a block", vec![words(meta, 0, d(th, 3, 4)), v(blocks), v(&["", "\nw\n"])]),
        Space::slots(
            "metadata inside",
            vec![
                v(&["====\n", "== P\n\n", "a\n\n", "a\n", "= D\n\n"]),
                words(meta, 1, d(th, 2, 3)),
                v(blocks),
                v(&["", "====\n", "== Q\n", "[r]\nv\n"]),
            ],
        ),
        Space::slots(
            "anchor line",
            vec![
                words(&["[", "]", "a", ",", " ", "1", "é", "-", ":", ".", "_", "·", "\u{37e}"], 0, d(th, 3, 4)),
            ],
        )
        .wrap(&[("[[", "]]\nx\n"), ("[[", "]]"), ("[[a", "]]\n----\n")]),
        Space::slots("title line", vec![words(&[".", " ", "\t", "a", "*b*", "é", "{sp}", "<"], 0, d(th, 4, 5))])
            .wrap(&[(".", "\nx\n"), (".", "")]),
        Space::slots(
            "shorthand",
            vec![words(&["s", "#i", ".r", "%o", ",", " ", "role=x", "id=y", "opts=z", "options=w"], 0, d(th, 4, 5))],
        )
        .wrap(&[("[", "]\nx\n"), ("[[m]]\n[", "]\n'''\n")]),
        each("every character", E06, 2),
    ]
}

fn s07(th: bool) -> Vec<Space> {
    let heads = &[
        "== A\n", "=== B\n", "==== C\n", "====== E\n", "[discrete]\n", "\n", "t\n", "= L\n",
    ];
    vec![
        Space::seq("headings", heads, 1, d(th, 5, 7)),
        Space::seq(
            "headings and blocks",
            &[
                "== A\n\n", "=== B\n\n", "===== D\n\n", "======= F\n\n", "# M\n\n", "## N\n\n",
                "### O\n\n", "[float]\n", "====\n", "[x]\n", ".t\n", "a\n", "[[k]]\n", "----\n",
            ],
            1,
            d(th, 4, 5),
        ),
        Space::seq(
            "levels",
            &["== A\n\n", "=== B\n\n", "==== C\n\n", "===== D\n\n", "====== E\n\n", "[discrete]\n=== X\n\n", "p\n\n"],
            4,
            d(th, 6, 7),
        )
        .wrap(&[("", "")]),
        Space::slots(
            "heading line",
            vec![
                v(&["", "a\n\n", "== P\n\n", "a\n", "====\n", "[discrete]\n", "= D\n\n"]),
                v(&["", " "]),
                words(&["=", "#"], 0, d(th, 7, 8)),
                v(&["", " ", "  ", "\t", "é"]),
                v(&["", "T", "T *b*", "=", "T ==", "é\r"]),
                v(&["", "\n", "\nx\n"]),
            ],
        ),
        Space::slots(
            "metadata between headings",
            vec![
                v(&["== A\n\n", "=== A\n\n", "== A\n", "==== A\n\n====\n", ":x: discrete\n:y: x\n\n== A\n\n", ":x: float\n:y: literal\n\n=== A\n\nb\n\n"]),
                words(&["[x]\n", "[{x}]\n", "[{y}]\n", "[style={x}]\n", "[discrete]\n", "[float#f]\n", ".t\n", "[[i]]\n", "\n", "[literal]\n", "[discrete,y]\n", "[appendix]\n"], 0, d(th, 3, 4)),
                v(&["== B\n", "=== B\n", "== \n", "==B\n", "====\n", "# B\n", "= B\n", "==== B\n", "## B\n"]),
                v(&["", "x\n", "\n=== C\n", "\n== D\n"]),
            ],
        ),
        each("every character", E07, 2),
    ]
}

fn s08(th: bool) -> Vec<Space> {
    vec![
        Space::seq(
            "outline",
            &["== A\n\n", "=== B\n\n", "==== C\n\n", "[appendix]\n", "[discrete]\n", ":!sectnums:\n\n", ":sectnums:\n\n"],
            1,
            d(th, 6, 7),
        )
        .wrap(&[(":sectnums:\n\n", "")]),
        Space::seq(
            "deep outline",
            &["== A\n\n", "=== B\n\n", "==== C\n\n", "===== D\n\n", "====== E\n\n", "[appendix]\n== F\n\n"],
            3,
            d(th, 6, 7),
        )
        .cfg(&c(&["num", "num1", "num5", "num0"])),
        Space::slots(
            "settings",
            vec![
                v(&["", "= D\n", "a\n\n"]),
                v(&["", ":sectnums:\n", ":sectnums: all\n", ":!sectnums:\n", ":sectnums!:\n"]),
                v(&["", ":sectnumlevels: 1\n", ":sectnumlevels: 2\n", ":sectnumlevels: 4\n", ":sectnumlevels:\n", ":sectnumlevels: x\n", ":!sectnumlevels:\n", ":sectnumlevels: 0\n"]),
                v(&["\n"]),
                words(&["== A\n\n", "=== B\n\n", "==== C\n\n", "====== E\n\n", "[appendix]\n", ":sectnumlevels: 1\n\n"], 1, d(th, 4, 5)),
            ],
        )
        .cfg(&c(&["base", "num", "num1"])),
        Space::slots(
            "special sections",
            vec![
                words(&["[abstract]\n", "[appendix]\n", "[preface]\n", "[bibliography]\n", "[appendix#i.r]\n", "[,appendix]\n", "[Appendix]\n", "[role=appendix]\n", "[[q]]\n"], 0, 2),
                v(&["== A\n\n", "=== A\n\n", "t\n\n== A\n\n", "====\n== A\n\n"]),
                v(&["", "=== B\n\n", "[appendix]\n=== B\n\n", "==== C\n\n", "====\n== D\n====\n", "====\n=== D\n====\n", "====\n[appendix]\n== D\n\n=== H\n====\n", "====\n[discrete]\n== D\n====\n\n=== G\n\n", "--\n*****\n== D\n*****\n--\n\n=== G\n\n"]),
                v(&["== E\n\n", "[appendix]\n== E\n\n", "=== E\n\n", "[discrete]\n== E\n\n=== F\n"]),
            ],
        )
        .cfg(&c(&["num", "num5"])),
        each("every character", E08, 2),
        Space::slots(
            "many sections",
            vec![
                v(&["", ":sectnumlevels: 5\n\n"]),
                times(&["== A\n\n", "[appendix]\n== A\n\n", "=== A\n\n", "== A\n\n=== B\n\n", "[appendix]\n== A\n\n=== B\n\n"], (0..13).chain([26, 27, 100])),
                times(&["=== C\n\n", "==== C\n\n", "===== D\n\n", "[appendix]\n== E\n\n"], [0, 1, 2, 9, 10, 11]),
                v(&["", "== F\n\n=== G\n\n", "[appendix]\n== F\n\n"]),
            ],
        )
        .cfg(&c(&["num", "num5"])),
    ]
}

fn s09(th: bool) -> Vec<Space> {
    let a = &[
        "== A\n\n", "=== A\n\n", "== A 2\n\n", "== B\n\n", "[[_a]]\n", "[#_a_2]\n", "[[_b]]\n", "p\n\n", ".A\n",
        "[#x,reftext=R]\n", "====\n", "[discrete]\n", "'''\n",
    ];
    vec![
        Space::seq("collisions", a, 1, d(th, 4, 6)),
        Space::slots(
            "derived",
            vec![
                words(&["A", "é", " ", ".", "-", "_", "<b>", "&amp;", "&", "*k*", "1", "{sp}", "(C)", "'s", "İ", "<", ">", ";", "/", "—"], 1, d(th, 3, 4)),
            ],
        )
        .wrap(&[("== ", "\n"), ("[discrete]\n=== ", "\n")]),
        Space::slots(
            "separators",
            vec![
                v(&["", ":idprefix:\n", ":idprefix: p-\n", ":idprefix: é_\n", ":!idprefix:\n"]),
                v(&["", ":idseparator:\n", ":idseparator: -\n", ":idseparator: .\n", ":idseparator: xy\n", ":!idseparator:\n", ":idseparator: é\n", ":idseparator: 1\n"]),
                v(&["\n== "]),
                words(&["A", " ", ".", "-", "_", "x", "1", "*b*", "é"], 1, d(th, 4, 5)),
                v(&["\n", "\n\n:idprefix: z\n:idseparator: +\n\n== A A\n"]),
            ],
        )
        .cfg(&c(&["base"])),
        Space::slots(
            "settings",
            vec![
                v(&["", ":!sectids:\n\n", ":sectids:\n\n", "a\n\n"]),
                words(&["== A\n\n", "[[k]]\n", "[id=k]\n", "=== A B\n\n", ":!sectids:\n\n", ":sectids:\n\n", "[reftext=Z]\n"], 1, d(th, 4, 5)),
            ],
        )
        .cfg(&c(&["base", "ids-off", "ids-odd", "num"])),
        Space::slots(
            "blocks with IDs",
            vec![
                words(&["[[k]]\n", "[#k]\n", "[[k,R]]\n", ".T\n", "[id=l]\n", "[[l]]\n", "[id=\"\"]\n", "[#]\n", "[x,reftext=\"\"]\n", "[#k#l]\n", "[[k,]]\n"], 0, d(th, 2, 3)),
                v(&["p\n", "----\n----\n", "====\n[[k]]\nq\n====\n", "image::i[]\n", "image::i[a,id=k]\n", "<<<\n", "== K\n", "[[k]]\n", ":y: z\n"]),
                v(&["\n"]),
                words(&["[[k]]\n", "[#l]\n", ".T\n", ".R\n"], 0, 2),
                v(&["r\n", "--\n== T\n--\n", "== T\n", "[discrete]\n== T\n", "[id=\"\"]\n== T\n"]),
            ],
        ),
        each("every character", E09, 2),
        Space::slots(
            "many collisions",
            vec![
                v(&["", "[[_a]]\n", "[[_a_2]]\np\n\n", "[#_a_10]\n", ":idseparator:\n\n"]),
                times(&["== A\n\n", "=== A\n\n", "[[k]]\np\n\n", "[discrete]\n== A\n\n", "== A 2\n\n"], (0..14).chain([99, 101])),
                v(&["", "== A 2\n\n", "== A 10\n\n", "[[_a_11]]\np\n\n"]),
                times(&["== A\n\n", "== A 1\n\n"], [0, 1, 2, 12]),
            ],
        ),
    ]
}

fn s10(th: bool) -> Vec<Space> {
    let h = &[
        "= T\n", "A B <c@d>\n", "v1, 2: 3\n", ":x: y\n", ":!x:\n", "// c\n", "\n", "x\n", "/// d\n",
        "== S\n", ":x\n", " \n", "[x]\n",
    ];
    vec![
        Space::seq("header lines", h, 1, d(th, 5, 6)),
        Space::slots(
            "title line",
            vec![
                v(&["", "\n", " \n\n", "// c\n", ":x: <\n", "x\n", "\t\n"]),
                v(&["= ", "=", "=\t", "# ", "== ", " = ", "=  "]),
                v(&["", "T", "T *b* <&", "{x}é", "T = U", "pass:q[*a*]", "a +b+ c"]),
                v(&["", " ", "\t"]),
                v(&["", "\n", "\r\n", "\n\n", "\nA\n", "\n\nx\n", "\n:x: z\n{x}\n\n{x}\n", "\n// d\n\n== S\n"]),
            ],
        )
        .cfg(&c(&["base", "people", "attrs"])),
        Space::slots(
            "entries",
            vec![
                v(&["", "= T\n", "\n", "= T\nA\nv1\n"]),
                v(&[":x: 1 \\\n 2\n", ":x: 1 + \\\n2\n", ":x: \\\n", ":x!:\n", ":x:\n", ":X: 1\n", "::\n", ":x y: 1\n", ":-x: 1\n", ":é: 1\n", ":x-y: 1\n", ":x:1\n", ":x:\t1\n", ":x: \t1\n", ":x:\n 1\n", ":x:\\\n 1\n", ":!x:1\n", ":!x!: 1\n", ":author: J K L <m@n>\n", ":email: e\n", ":author: {x}\n", ":x: {doctitle}\n", ":x: pass:[<b>]\n", ":x: <b>\n", ": x\n"]),
                v(&["", ":y: {x}\n", "\n", "B C\n", "// c\n"]),
                v(&["", "\nz {x} {y}\n", "== S\n", ":x: 9\n\n{x}"]),
            ],
        )
        .cfg(&c(&["base", "x-api", "people"])),
        each("every character", E10, 2),
    ]
}

fn s11(th: bool) -> Vec<Space> {
    let a = &["A", "b.", "C-d", "e_f", "É", " ", "<g@h>", "; ", ";", "{x}", "{y}", "&", "1", "<", ">", "'"];
    vec![
        Space::seq("author line", a, 1, d(th, 4, 5)).wrap(&[("= T\n", "\n")]),
        Space::slots(
            "names",
            vec![
                v(&["= T\n"]),
                v(&["A", "Éa", "_", "a_b", "A.", "é&#233;", "1", "-a", "山", "{x}"]),
                v(&["", " B", "  B", " b_c", " {x}", " É.", " -"]),
                v(&["", " C", " c-d", " _e", "\tC", " O'H"]),
                v(&["", " D", " D E"]),
                v(&["", " <f@g>", " <f g>", " <>", " <{x}>", "<f>", " <f> ", " <f", " <f>x", " <a>b>"]),
                v(&["", "; ", "; X", ";Y Z", "; X Y Z <w>; V", " ;X"]),
                v(&["\n"]),
            ],
        )
        .cfg(&c(&["base", "attrs", "people"])),
        Space::slots(
            "references",
            vec![
                v(&["= T\n:x: J K <l@m>\n:y: <n>\n", "= T\n:x: N O\n:y: p@q\n", ":x: É_P Q\n:y: R & S\n= T\n"]),
                words(&["{x}", "{y}", "{z}", " ", "A", "<", ">", "; ", "{X}", "\\{x}"], 1, d(th, 4, 5)),
                v(&["\n\n{author}|{firstname}|{middlename}|{lastname}|{email}|{authorinitials}|{author_2}|{lastname_2}\n"]),
            ],
        ),
        Space::slots(
            "author entry",
            vec![
                v(&["", "= T\n", "= T\nX Y <z>\n"]),
                v(&[":author: ", ":Author: ", ":authors: ", ":author!:"]),
                words(&["A", " ", "B.", "É", "<c@d>", "; ", "{x}", "-", " \\\n", "_f"], 0, d(th, 4, 5)),
                v(&["\n\n{author}|{firstname}|{lastname}|{email}|{authorinitials}\n", "\nQ R\n"]),
            ],
        )
        .cfg(&c(&["base", "people"])),
        each("every character", E11, 2),
        Space::slots(
            "many authors",
            vec![
                v(&["= T\n"]),
                times(&["A; ", "A B; ", "A B C <d@e>; ", "; ", "{x}; ", "A_b C; "], (0..13).chain([40])),
                v(&["Z", "Y Z <w>", "", "Y Z;", "X Y Z W"]),
                v(&["\n\n{author}|{author_1}|{author_2}|{author_3}|{author_9}|{author_10}|{author_11}|{email_10}|{lastname_12}|{authorinitials_13}|{authorcount}\n"]),
            ],
        )
        .cfg(&c(&["base", "attrs"])),
    ]
}

fn s12(th: bool) -> Vec<Space> {
    vec![
        Space::seq(
            "revision line",
            &["v", "1", ".", ",", ":", " ", "d", "2-3", "é", "x1", "٣", "V", "{x}", "<", "\t"],
            1,
            d(th, 5, 6),
        )
        .wrap(&[("= T\nA\n", "\n")]),
        Space::slots(
            "parts",
            vec![
                v(&["= T\nA B\n", "= T\n:x: 7\nA\n// c\n"]),
                v(&["", "v", "V", "rev ", "v.", "1", "é", "LPR"]),
                v(&["1", "1.2", "1a", "", "x", "{x}", "<1>"]),
                v(&["", ",", ", ", " ,", ",,"]),
                v(&["", "d", "1-2-3", " d é ", "d, e", "{x}"]),
                v(&["", ":", ": ", ":r", ": r é", ": a: b", ":: c", ": {x} <"]),
                v(&["\n", " \n", "\n\n{revnumber}|{revdate}|{revremark}\n", "\r\n"]),
            ],
        )
        .cfg(&c(&["base", "people"])),
        each("every character", E12, 2),
    ]
}

fn s13(th: bool) -> Vec<Space> {
    let all = &[
        "base", "x-api", "x-api-set", "x-api-unset", "x-head", "x-head-set", "x-head-unset",
        "x-body", "x-body-set", "x-body-unset", "x-any", "x-any-unset",
    ];
    let e = &[":x: 1\n", ":X: 2\n", ":x:\n", ":!x:\n", ":x: {x}3\n"];
    vec![
        Space::slots(
            "header and body entries",
            vec![
                v(&["", "= T\n"]),
                words(e, 0, d(th, 2, 3)),
                v(&["\n|{x}|{X}|\n\n"]),
                words(e, 0, d(th, 2, 3)),
                v(&["\n|{x}|\n\n", "\n====\n:x: 4\n\n{x}\n====\n\n"]),
                v(&["", ":x: 5\n\n{x}\n"]),
            ],
        )
        .cfg(&c(all)),
        Space::slots(
            "built-in attributes",
            vec![
                v(&[":", "a\n\n:"]),
                v(&["", "!"]),
                v(&[
                    "empty", "sp", "deg", "plus", "toc", "sectids", "sectnums", "sectnumlevels", "idprefix",
                    "idseparator", "example-caption", "iconsdir", "imagesdir", "Toc", "EMPTY",
                ]),
                v(&[":", ": v", ": {sp}{toc}", "!:", "!: v"]),
                v(&["\n\n", "\n"]),
                v(&["{empty}|{sp}|{deg}|{plus}|{toc}|{sectnums}|{sectnumlevels}|{example-caption}|{iconsdir}\n", ":toc: r\n:!sp:\n\n{toc}{sp}\n", "\n== S\n\n:example-caption:\n:sectids: u\n:iconsdir!:\n\n{iconsdir}"]),
            ],
        ),
        Space::slots(
            "implied values",
            vec![
                v(&["", ":author: Z Y\n", ":revdate: w\n", ":doctitle: U\n", ":email: e\n"]),
                v(&["= T\n", "= {x}\n"]),
                v(&["", ":lastname: V\n", ":author: O P <q@r>\n", ":x: 1\n"]),
                v(&["", "A B C <d@e>; F G <h>\n"]),
                v(&["", "v1, 2: 3\n", "2\n"]),
                v(&["", ":author: I J\n", ":revnumber: k\n", ":!email:\n", ":doctitle!:\n"]),
                v(&["\n{author}|{lastname}|{email}|{revnumber}|{revdate}|{revremark}|{doctitle}|{authorinitials}|{email_2}\n", "\n:author: L\n:revdate: m\n\n{author}{revdate}\n"]),
            ],
        )
        .cfg(&c(&["base", "people", "x-api"])),
        Space::slots(
            "later documents",
            vec![
                words(&["= T\n", ":x: 1\n", "\n", ":!x:\n", "a {x}\n"], 0, d(th, 3, 4)),
                v(&["\u{2}"]),
                words(&[":x: 2\n", "\n", "{x}\n", ":x!:\n"], 1, d(th, 3, 4)),
            ],
        )
        .cfg(&c(&["base", "x-api", "x-head", "x-body"])),
        each("every character", &[":x: ¤\n\n{x}|\n", ":x: a\n\n:x: ¤\n\n{x}|\n", ":x¤: a\n\n{x}|\n", ":¤x: a\n\n{x}|\n"], 2).cfg(&c(&["base", "x-api", "x-head", "x-body-set"])),
        Space::slots(
            "many entries",
            vec![
                v(&["", "= T\n"]),
                times(&[":x: {x}1\n", ":x:\n", ":!x:\n", ":y: {x}\n"], [0, 1, 2, 3, 12]),
                times(&[":x: 2\n", ":y: {x}{y}\n", ":!y:\n", "\n"], [0, 1, 2, 5]),
                v(&["\n{x}|{y}\n"]),
            ],
        )
        .cfg(&c(all)),
    ]
}

fn s14(th: bool) -> Vec<Space> {
    let e = &[
        ":x: 1\n", ":x: {x}2\n", ":y: a{x}\n", ":!x:\n", ":x: 3 \\\n  4\n", "\n", "{x} {y}\n", "\\{x}{X}\n", ":y:\n",
        ".{y}\n", "== {x}\n",
    ];
    vec![
        Space::seq("entries and references", e, 1, d(th, 4, 6)),
        Space::slots(
            "entry",
            vec![
                v(&["", "z\n\n", "= T\n"]),
                v(&[":", ":!", " :"]),
                words(&["x", "X", "-", "_", "1", "!", ":", " ", "é", "."], 0, d(th, 3, 4)),
                v(&[": ", ":", "!: ", ":v", ":\tw", ":\\\nv"]),
                v(&["\n\n{x}|{X}|{x-1}\n"]),
            ],
        ),
        Space::slots(
            "continued values",
            vec![
                v(&["", "z\n\n"]),
                v(&[":x: "]),
                words(&["a", " ", "\\", " \\\n", "\\\n", "+ \\\n", " + \\\n", "  b", "\t", "é", "{y}", "<", "+", "\n", "\\ \n", "\r\n"], 0, d(th, 4, 5)),
                v(&["\n\n{x}|\n"]),
            ],
        )
        .cfg(&c(&["attrs"])),
        Space::slots(
            "reference",
            vec![
                v(&["", "== ", ".", "[[a]]\n[", "image::"]),
                words(&["{", "}", "x", "Y", "\\", "foo-bar", " ", "b", "c", "z", "é", "\n"], 0, d(th, 4, 5)),
                v(&["", "]\nw\n", "\nw\n", "[{x}]"]),
            ],
        )
        .cfg(&c(&["attrs"])),
        Space::slots(
            "values with markup",
            vec![
                v(&[":x: ", "= T\n:x: "]),
                v(&["*b*", "<b>", "&amp;", "(C)", "https://a.b[c]", "pass:[<u>]", "pass:q[*v*]", "+d+", "{sp}", "\\{y}", "it's", "a -- b", "pass:a[{y}]", "pass:q,a[_{y}_]", "image:i[]", "$$<$$", "a\\", "C++ and D++", "a +<b>+ c", "a pass:[<b>]", "pass:[<b>] c", "pass:[<b>] pass:q[*d*]", "pass:q[*a*\\]b]", "\\pass:q[*b*]", "pass:z[<b>]", "pass:q,[*b*]", "pass:m[link:x[y]]", "pass:[]", "pass:n[a +*b*+ c]", "pass:v[a +<b>+ c]", "pass:q[*a*", "+++<b>+++ d", "pass:q[*a + \\\nb*]", "\\\n pass:q[*b*]"]),
                v(&["\n\n"]),
                v(&["{x}", "*{x}*", "`{x}`", "+{x}+", "\"{x}\"", "{x}{x}", "link:{x}[{x}]", "image:{x}[{x}]", "[.{x}]#a#", "\\{x}", "{X}'s", "[[{x}]]", "----\n{x}\n----", "[subs=attributes]\n----\n{x}\n----", "[{x}]\nu", ".{x}\nu", "== {x}", "image::{x}[{x}]", "'{x}'"]),
            ],
        )
        .cfg(&c(&["base", "attrs", "tagged"])),
        each("every character", E14, 2).cfg(&c(&["attrs"])),
    ]
}

const FILES: &[&str] = &["\u{1}a\u{1}", "\u{1}b\u{1}", "\u{1}s/c.adoc\u{1}"];

fn s15(th: bool) -> Vec<Space> {
    let main = &[
        "include::a[]\n",
        "include::b[y=1,z]\n",
        "include::no[]\n",
        "include::{x}[]\n",
        "t\n",
        "\n",
        ":x: b\n",
        ":x:\tb\n",
        ":x:b\n",
        "\\include::a[]\n",
        " include::a[]\n",
        "ifdef::x[]\n",
        "include::a[] \n",
        "  \n",
    ];
    let a = &["include::b[]\n", "u\n", "\n", ":x: s/c.adoc\n", "include::a[]\n", "== S\n", "v", "include::{x}[]\n"];
    let b = &["w\n", "include::s/c.adoc[]\n", "", "include::b[]\n", ":x: no\n", "w\r\n\r\n", "\n\nw"];
    vec![
        Space::slots(
            "graphs",
            vec![
                words(main, 1, d(th, 3, 4)),
                v(&FILES[..1]),
                // (A file that includes itself twice would double at each of 64 levels.)
                words(a, 0, d(th, 1, 2))
                    .into_iter()
                    .filter(|w| w.matches("include::a[]").count() < 2)
                    .collect(),
                v(&FILES[1..2]),
                v(b),
                v(&FILES[2..]),
                v(&["k\n", "include::b[]\nl"]),
            ],
        )
        .cfg(&c(&["inc", "incp"])),
        Space::slots(
            "directive",
            vec![
                v(&["", "x\n", "= T\n"]),
                v(&["include::", "include:", "include:::", " include::", "\tinclude::", "includex::", "\\include::", "Include::"]),
                words(&["a", " ", "/", ".", "{x}", "b", "é", "[", "]", "\\"], 0, d(th, 2, 3)),
                v(&["[]", "[", "]", "[x]", "[x=\"y]", "[]]", "[[]]", "[] ", "[]  \r", "[]\t", "[]x", "[]\r", "[leveloffset=+1]", "[x,y=z]", "[opts=optional]", "[ ]", "[{x}]", ""]),
                v(&["", "\n", "\nz\n"]),
                v(&["\u{1}a\u{1}AA\nAB", "\u{1}ab\u{1}BB\n"]),
            ],
        )
        .cfg(&c(&["incx", "pri"])),
        Space::slots(
            "entries on the way",
            vec![
                words(&["= T\n", ":x: a\n", ":x: b \\\n c\n", ":!x:\n", "\n", "t\n", "include::{x}[{x}]\n", "// c\n", ": x\n", "A\n", "  \n"], 1, d(th, 4, 5)),
                v(&["\u{1}a\u{1}aa {x}\n\u{1}b c\u{1}bb\n:x: a\n"]),
            ],
        )
        .cfg(&c(&["incp", "incx"])),
        Space::slots(
            "line ends",
            vec![
                words(&["t\n", "t\r\n", "\r\n", "t \n", "\t\n", "\r", "include::a[]\n", "include::a[]\r\n"], 0, d(th, 3, 4)),
                v(&["", "t", "include::a[]", "include::no[]"]),
                v(&["\u{1}a\u{1}"]),
                words(&["k\n", "k\r\n", "\n", "k", "\r"], 0, 2),
            ],
        )
        .cfg(&c(&["inc", "incp"])),
        Space::slots(
            "depth",
            vec![
                v(&["include::a[]\n", "include::b[]\ninclude::a[]\n"]),
                v(&FILES[..1]),
                v(&["x\ninclude::a[]\ny\n", "include::b[]\nx\n"]),
                v(&FILES[1..2]),
                v(&["include::a[]\nz", "w\n", "include::b[]"]),
            ],
        )
        .cfg(&c(&["inc", "incp"])),
        Space::slots(
            "who may set it",
            vec![
                words(&["= T\n", ":x: a\n", ":!x:\n", "\n", "t\n", "include::p[]\n", "include::{x}[]\n"], 1, d(th, 4, 5)),
                v(&["\u{1}p\u{1}"]),
                words(&[":x: b\n", "\n", "t\n", ":!x:\n", "include::{x}[]\n"], 0, d(th, 2, 3)),
                v(&["\u{1}a\u{1}aa\n\u{1}b\u{1}bb\n:x: c\n\u{1}c\u{1}cc\n"]),
            ],
        )
        .cfg(&c(&["inc", "inc-head", "inc-body", "inc-unset"])),
        Space::slots(
            "in a row",
            vec![
                (0..3)
                    .flat_map(|n| ["include::a[]\n", "include::no[]\n", "include::e[]\n", "include::b[]\n"].map(|l| l.repeat([63, 64, 130][n])))
                    .collect(),
                v(&["include::a[]\n", "include::b[]\nt\n", ":x: a\ninclude::{x}[]\n"]),
                v(&["\u{1}a\u{1}"]),
                v(&["", "w\n", "include::no[]\n"]),
                v(&["\u{1}b\u{1}include::a[]\nu\n\u{1}e\u{1}\n"]),
            ],
        )
        .cfg(&c(&["inc", "incp"])),
        each("every character", E15, d(th, 2, 2)).cfg(&c(&["incp", "incx"])),
    ]
}

fn s16(th: bool) -> Vec<Space> {
    let main = &["include::a[]\n", "include::b[]\n", "include::no[]\n", "t\n", "\n", ":x: 1 \\\n 2\n"];
    let a = &["include::b[]\n", "u\n", "include::no[]\n", "\n", ":x: 3\n"];
    let b = &["w\n", "", "w", "w\nw\n", "include::s/c.adoc[]\n", "w\ninclude::s/c.adoc[]", "\n"];
    vec![
        Space::slots(
            "graphs",
            vec![
                words(main, 1, d(th, 4, 5)),
                v(&FILES[..1]),
                words(a, 0, d(th, 1, 3)),
                v(&FILES[1..2]),
                v(b),
                v(&FILES[2..]),
                v(&["k\nl\n", ""]),
            ],
        )
        .cfg(&c(&["inc", "incp"])),
        Space::slots(
            "nested",
            vec![
                words(&["include::a[]\n", "t\n", "include::b[]\n"], 1, d(th, 3, 4)),
                v(&FILES[..1]),
                words(a, 0, d(th, 3, 4)),
                v(&FILES[1..2]),
                v(b),
                v(&FILES[2..]),
                v(&["k\nl\n", "k"]),
            ],
        )
        .cfg(&c(&["incp"])),
        Space::slots("no include", vec![words(&["t\n", "\n", ":x: a\n", "ifx\n", "é\r\n", "= T\n", ":y: \\\n", "t"], 0, d(th, 4, 5))])
            .cfg(&c(&["base", "pri", "incp"])),
        each("every character", E15, d(th, 1, 2)).cfg(&c(&["incp"])),
    ]
}

fn s17(th: bool) -> Vec<Space> {
    let chars = &[
        "a", "=", ",", "\"", "'", " ", "#", ".", "%", "\\", "{x}", "-", "é", "[", "]", "\t", "1", "*",
    ];
    let w = &[("[", "]\nz\n"), ("image::x[", "]\n")];
    vec![
        Space::seq("characters", chars, 0, d(th, 4, 5)).wrap(w).cfg(&c(&["attrs"])),
        Space::seq("lists", &["a", "b=", "c", ",", "\"d,e\"", "'f g'", " ", "=", "\"", "\\\"", "{x}"], 4, d(th, 5, 6)).wrap(w).cfg(&c(&["attrs"])),
        Space::seq("inline", &["a", "=", ",", "\"", " ", "#", ".", "%", "'", "{x}", "é"], 1, d(th, 3, 5))
            .wrap(&[("k [", "]#t# k"), ("image:x[", "] k"), ("https://h[", "] k"), ("mailto:h@i.j[", "]"), ("icon:x[", "]")])
            .cfg(&c(&["tagged"])),
        Space::seq("shorthand", &["s", "#i", "#j", ".r", ".q", "%o", "%p", " ", "#", ".", "%", ",", "é"], 1, d(th, 4, 6)).wrap(&[("[", "]\nz\n")]),
        Space::slots(
            "named and shorthand",
            vec![
                v(&["[", "[a,", "[,"]),
                v(&["", "s", "#i", "s.r%o", ".r.q", "%o%p", "#i#j"]),
                v(&["", ",id=k", ",id=", ",id=\"\"", ",ID=k"]),
                v(&["", ",role=t", ",role=\"t u\"", ",role=\" t  u \"", ",roles=t", ",role='t'"]),
                v(&["", ",opts=v", ",opts=\"v,w\"", ",options=v", ",options=\"v,w\",opts=x", ",opts=\"\"", ",options=\"v,,w\""]),
                v(&["", ",None", ",n=None", ",,m", ",title='*t*'", ",l=\"a\\\"b\"", ",style=x", ",1=z"]),
                v(&["]\nz\n"]),
            ],
        ),
        each("every character", E17, 2).cfg(&c(&["tagged"])),
        Space::slots(
            "quoted values",
            vec![
                v(&["[", "image::x[", "k [", "https://h["]),
                v(&["", "n=", "a,", "role="]),
                v(&["'", "\""]),
                words(&["\\'", "\\\"", "*b*", "\\*b*", " ", "<", "{x}", "c", "=", ",", "'", "\\"], 0, d(th, 3, 4)),
                v(&["'", "\""]),
                v(&["]\nz\n", "]#t# k\n", ",d]\nz\n"]),
            ],
        )
        .cfg(&c(&["attrs"])),
        Space::slots(
            "positions",
            vec![
                v(&["[", "image::x["]),
                v(&["a", "", "s#i", "#i.r%o", ".q", "role=t", "lang=b", "\"c\"", " ", "%p"]),
                words(&[",b", ",role=t", ",#j.u%w", ",", ",id=k", ",opts=v", ",\"c d\"", ",n=m", ",None", ", %p", ",.x", ",style=y"], 0, d(th, 4, 5)),
                v(&["]\nz\n"]),
            ],
        ),
        Space::slots(
            "many attributes",
            vec![
                v(&["[", "image::x["]),
                times(&["a,", "b=c,", "d=\"e f\",", ",", "%o", ".r", "#i", "opts=p,", "role=q,", " "], (0..14).chain([31, 32, 33, 100])),
                v(&["", "k", "k=l", "%m", "g,h=i", "%a.b#c"]),
                v(&["]\nz\n"]),
            ],
        ),
    ]
}

fn s18(th: bool) -> Vec<Space> {
    let a = &["<", ">", "&", "a", "*", "`", "_", "-", "=", "amp;", "lt;", "#", " ", "\\", "\n", "(C)", "'", "[", "]", ".", "\"", "é"];
    vec![
        Space::seq("paragraph", a, 1, d(th, 4, 5)).cfg(&c(&["base", "tagged"])),
        Space::seq("verbatim", &["<", ">", "&", "a", "*", "amp;", "&lt;", "\\<", "\n", "{sp}", "+", " ", "é", "pass:[", "]"], 1, d(th, 4, 5))
            .wrap(&[("----\n", "\n----\n"), ("....\nz", "z\n....\n"), ("[literal]\nz", "")])
            .cfg(&c(&["base", "tagged"])),
        Space::seq("titles", &["<", ">", "&", "a", "*", "&amp;", "`", "\\", "{y}", " ", "+"], 1, d(th, 3, 4))
            .wrap(&[(".x", "\nz\n"), ("== x", "\n"), ("= x", "\n"), (":x: ", "\n\n{x}\n"), ("= T\nx", "\n"), ("[subs=", "]\n<>&")])
            .cfg(&c(&["attrs"])),
        Space::slots(
            "around other markup",
            vec![
                v(&["", "<", ">", "&", "&lt;", "a"]),
                v(&["*", "`", "#", "**", "^", "\"`", "+", "++", "+++", "$$", "https://", "link:a[", "image:a[", "[.<]#", "pass:c[", "mailto:a@b[", "<https://", "[[a,", "icon:a["]),
                v(&["<", "<b>", "&", "a<", "&#64;", ">"]),
                v(&["*", "`", "#", "**", "^", "`\"", "+", "++", "+++", "$$", "]", ">", "]]", "", "&gt;"]),
                v(&["", "<", ">", "&", "a"]),
            ],
        )
        .cfg(&c(&["attrs"])),
        Space::slots(
            "header",
            vec![
                v(&["= T", "= T <&>\n:y: <\n:!z:"]),
                v(&["\nA", "\n<", "\nA B <a&b<>; C & >", "\nA {y} {lt}", "\n{y}", "\n<>"]),
                v(&["\n", "\nv1", "\n<&>", "\nv1{amp}, <", "\nv<1>, &{y}"]),
                v(&["\n", ": <\n", ": {lt}&amp;\n", ": {y}{nbsp}\n"]),
                v(&["\n{doctitle} {author} {firstname} {lastname} {email}\n{author_2} {authorinitials}", "\n{revnumber}|{revdate}|{revremark}", "\n[subs=attributes]\n{doctitle}{author}{revdate}{revremark}", "\n----\n{revremark}<\n----\n", "\n== {revdate}{author}\n"]),
            ],
        )
        .cfg(&c(&["attrs"])),
        each("every character", E18, 2),
    ]
}

fn s19(th: bool) -> Vec<Space> {
    let mut out = vec![];
    for m in ["*", "_", "`", "#", "^", "~", "\"`", "'`"] {
        let close = match m {
            "\"`" => "`\"",
            "'`" => "`'",
            m => m,
        };
        let mut t = vec![m, "a", " ", "\\", "[r]", "\n", ".", "é", ":", "}"];
        if close != m {
            t.push(close);
        }
        out.push(Space::seq(&format!("only {m}"), &t, 1, d(th, 5, 6)));
    }
    out.push(Space::seq("marks", &["*", "_", "`", "#", "a", " "], 1, d(th, 7, 8)));
    out.push(Space::seq(
        "mixed",
        &["*", "_", "`", "#", "^", "~", "a", " ", "\\", "[.r]", "\"", "'", "-", "é"],
        1,
        d(th, 4, 6),
    ));
    out.push(Space::slots(
        "attributes",
        vec![
            v(&["", "a", "\\", " ", "a\\"]),
            v(&["[r]", "[.r.s]", "[#i]", "[#i.r%o]", "[]", "[role=q]", "[r,s]", "[ ]", "[{x}]", "[[]]", "[a]b]", "[\"r\"]", "[.é]", "[a\nb]", "[x-]", "[r x-]"]),
            v(&["*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "\"`", "'`", "\\*", "\\\\**"]),
            v(&["a", "a b", " a", "a ", "a\nb", "*", "é", "a*b", "_a_"]),
            v(&["*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "`\"", "`'"]),
            v(&["", "a", ".", "*", "\n"]),
        ],
    ).cfg(&c(&["base", "tagged"])));
    out.push(
        Space::seq("in other places", &["*", "`", "#", "a", " ", "[r]", "\\"], 1, d(th, 4, 5)).wrap(&[
            (".", "\nz\n"),
            ("== ", "\n"),
            ("[x='", "']\nz\n"),
            ("====\nb\n", "\n====\n"),
        ]),
    );
    out.push(each("every character", E19, 2));
    out.push(Space::slots(
            "escapes",
            vec![
                v(&["", "a", " ", "."]),
                times(&["\\"], 0..5),
                v(&["", "[r]"]),
                times(&["\\"], 0..4),
                v(&["*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "\"`", "'`"]),
                v(&["a", "\\", "a\\", "a b"]),
                v(&["*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "`\"", "`'"]),
                v(&["", "b", "\\", " *"]),
            ],
        ));
    out.push(Space::slots(
            "many marks",
            vec![
                times(&["*a* ", "*", "**", "_a_", "__a__", "`", "`a` ", "#a#", "^a^", "~a~", "\"`a`\" ", "'`", "*_a_* ", "[r]#a# "], [0, 1, 2, 3, 4, 5, 6, 7, 11, 40]),
                v(&["", "b", " ", "\n"]),
                times(&["*", "_", "`", "#", "**", "`\"", "a* ", "##b##"], [0, 1, 2, 3, 4, 5]),
            ],
        ));
    out
}

fn s20(th: bool) -> Vec<Space> {
    let a = &["+", "++", "+++", "$$", "pass:[", "pass:q[", "]", "[x-]", "[r]", "`", "a", "*", "<", "\\", " ", "é", "\n"];
    vec![
        Space::seq("marks", a, 1, d(th, 4, 5)),
        Space::seq("plus", &["+", "a", " ", "\\", "[r]", "*", ".", "`", "é"], 5, d(th, 6, 7)),
        Space::slots(
            "content",
            vec![
                v(&["", "a ", "\\", "[r]", "[r x-]", "[x-]", "\\[r]", "a", ";", "[r]\\", "[rx-]", "[é x-]", "[éx-]", "[r  x-]", "[ x-]", "[x-x-]", "[r,x-]", "[#i.r]"]),
                v(&["+", "++", "+++", "$$", "pass:[", "pass:c[", "pass:q[", "pass:a,q[", "pass:n[", "pass:v[", "pass:x[", "pass:none[", "pass:c,a,r,m,p[", "`+", "`", "pass:-q[", "pass:q+[", "Pass:["]),
                vec![MARKUP.to_owned(), "a".to_owned(), "<*{x}*>".to_owned(), "+b+".to_owned(), "pass:[c]".to_owned(), "\\]".to_owned(), " d".to_owned(), "é\n`f`".to_owned(), "$$g$$".to_owned()],
                v(&["+", "++", "+++", "$$", "]", "+`", "`"]),
                v(&["", " *b*", "z", " +c+ pass:[<]", "\n"]),
            ],
        )
        .cfg(&c(&["attrs", "tagged"])),
        Space::slots(
            "several",
            vec![
                words(&["+a+", "++b++", "+++<c>+++", "$$<$$", "pass:[d]", "pass:q[*e*]", "`+f+`", " ", "*", "_"], 1, d(th, 5, 6)),
            ],
        ),
        Space::slots(
            "other places",
            vec![
                v(&[".", "== ", "[subs=macros]\n----\n", "[subs=quotes]\n", "image:i[", "link:u[", "[x='", ":x: ", "= ", "----\n", "[subs=\"q,m\"]\n"]),
                v(&["+<a>+", "++<a>*b*++", "+++<a>+++", "pass:[<a>]", "pass:q[<*a*>]", "$$<a>$$", "\\+a+", "\\pass:[a]", "[r]+<a>+", "a+b+c"]),
                v(&["", "\nz", "]", "']\nz", "\n----\n", "\n\n{x}"]),
            ],
        ),
        each("every character", E20, 2),
        Space::slots(
            "many passthroughs",
            vec![
                times(&["+a+ ", "++b++", "+++<c>+++", "$$<$$ ", "pass:[d]", "pass:q[*e*] ", "`+f+` ", "pass:a,q[_{sp}_+g+]"], (0..14).chain([99, 100, 101, 102])),
                v(&["", "+h+", "pass:q[+++i+++*k*]"]),
                times(&["+l+ ", "pass:[<m>]"], [0, 1, 10, 11]),
            ],
        ),
        Space::slots(
            "escapes",
            vec![
                v(&["", "a", "[r]", "[x-]"]),
                times(&["\\"], 0..5),
                v(&["", "[r]", "[x-]", "[r x-]"]),
                times(&["\\"], 0..5),
                v(&["+", "++", "+++", "$$", "`", "pass:[", "pass:q[", "`+"]),
                v(&["a", "<*b*>", "\\", "a\\"]),
                v(&["+", "++", "+++", "$$", "`", "]", "\\]", "+`"]),
                v(&["", "\\", "+", "$"]),
            ],
        ),
    ]
}

fn s21(th: bool) -> Vec<Space> {
    let a = &[
        "(C)", "(R)", "(TM)", "--", "...", "'", "->", "=>", "<-", "<=", "&amp;", "&", "a", "é", " ", "\n", "\\", "-", ".", ";", "1", "`'",
    ];
    vec![
        Space::seq("replacements", a, 1, d(th, 4, 5)),
        Space::seq("dashes", &["--", "a", " ", "\n", "\\", "-", "é", ".", "_"], 1, d(th, 6, 7)),
        Space::seq("apostrophes", &["'", "a", "é", " ", "\\", "1", "`", ".", "s", "\n", "-"], 1, d(th, 5, 6)),
        Space::seq("character references", &["&", "#", "x", "1", "2", "a", "G", ";", "\\", "&amp;", "é"], 1, d(th, 6, 7)),
        Space::seq("arrows and marks", &["-", "=", ">", "<", "\\", "a", "(", "C)", ".", " "], 1, d(th, 5, 7)),
        Space::seq("tagged", a, 1, d(th, 3, 4)).cfg(&c(&["tagged"])).wrap(&[("", ""), ("== ", "\n"), (".x", "\ny"), ("*a", "b*"), ("`", "`")]),
        each("every character", E21, 2),
        Space::slots(
            "lengths of character references",
            vec![
                v(&["&", "\\&", "&amp;", "a&", "& &"]),
                {
                    let mut r = vec![];
                    for l in 0..11 {
                        for n in 0..5 {
                            r.push("abcdefghijk"[..l].to_owned() + &"1234"[..n]);
                            r.push("ABCDEFGHIJK"[..l].to_owned() + &"1234"[..n] + "b");
                        }
                    }
                    for n in 0..9 {
                        for x in ["#", "#x", "#X", "# ", "##"] {
                            r.push(x.to_owned() + &"12345678"[..n]);
                            r.push(x.to_owned() + &"fedcbaFE"[..n.min(8)]);
                            r.push(x.to_owned() + &"1f2E3d4C"[..n.min(8)]);
                        }
                    }
                    r
                },
                v(&[";", "", " ;", ";;", ";a", ";&lt;"]),
            ],
        ),
        Space::slots(
            "many replacements",
            vec![
                times(&["(C)", "a--b", " -- ", "...", "a'b", "->", "&amp;", "\\(R)", "a -- b\n", "'", "-", ".", "=>", "&#33;", "`'", "a'", "-- \n"], [0, 1, 2, 3, 4, 5, 6, 11, 40]),
                v(&["", " ", "a", "\n", "-", "."]),
                times(&["(C)", "--", "...", "'", "->", "&amp;"], [0, 1, 2, 7]),
            ],
        ),
    ]
}

fn s22(th: bool) -> Vec<Space> {
    let a = &[
        "https://", "link:", "mailto:", "a.b", "x@y.zz", "[", "]", "\\", "<", ">", ",", "=", "\"", "^", " ", "(", ")", ";", ":", ".", "[[", "]]", "anchor:",
    ];
    vec![
        Space::seq("pieces", a, 1, d(th, 4, 5)),
        Space::seq("URLs", &["https://a", "/", "b", ".", ")", "(", ";", ":", ",", "?", "!", "<", ">", "\\", "[", "]", " ", "é", "'", "\"", "_"], 1, d(th, 4, 5)),
        Space::slots(
            "URL with text",
            vec![
                v(&["", "a ", "(", "<", "\\", "\"", "'", "a", "link:", "\\<", ";", "&lt;", "[", "é", "\n"]),
                v(&["http://", "https://", "ftp://", "irc://", "file:///", "HTTP://", "http:/"]),
                v(&["u", "u.v/w?x=1&y=2#z", "", "u_v_", "é.u", "u:8", "{x}", "u~v~", "u@v.ww"]),
                v(&["", "[]", "[t]", "[t *b*]", "[t,role=r]", "[t^]", "[\"t,u=v\"]", "[t,window=_blank]", "[t,window=w,opts=noopener]", "[t,id=i,title=k]", "[t\\]u]", "[t,opts=nofollow]", "[^]", "[role=r]", "[t\nu]", "[ ]", "[v1.2 #t,role=r]", "[t,\nrole=r]", "[image:i[]]", "[t", ">", ";", ").", ":", "),"]),
                v(&["", " z", ".", ")", "\nz"]),
            ],
        )
        .cfg(&c(&["base", "hide", "tagged"])),
        Space::slots(
            "macros",
            vec![
                v(&["", "a", "\\", "a ", "(", "é"]),
                v(&["link:", "mailto:", "Link:", "link::"]),
                v(&["u", "u.v", "/u v", "../u", "a@b.cc", "", "https://u", ":u", "{x}", "u[", "http:", "é", "u+v", "pass:[u v]"]),
                v(&["[]", "[t]", "[t,u]", "[t,u,v w]", "[t^]", "[,u,v]", "[t=u]", "[\"t,u\",role=r]", "[t,role=\"r s\",window=w]", "[*t*]", "[t\\]u]", "[", "]", "[t,é&<]", "[window=_blank]", "[^]", "[t,opts=noopener]", "[t\nu,v]", "[title='w']", "[v1.2 #t,role=r]", "[t\\]u,role=r]"]),
                v(&["", " z", "]"]),
            ],
        )
        .cfg(&c(&["base", "hide", "tagged"])),
        Space::slots(
            "attribute lists of macros",
            vec![
                v(&["https://u[", "link:u[", "mailto:u@v.ww[", "image:i[", "icon:i["]),
                words(&["t", "#", ".", "%", " ", "\\]", "\n", ",", "[", "role=r", "\""], 0, d(th, 4, 5)),
                v(&["]", "=]", ",id=k]", ",role=s]"]),
            ],
        )
        .cfg(&c(&["base", "tagged"])),
        Space::slots(
            "quoted text of macros",
            vec![
                v(&["https://u[", "link:u[", "mailto:u@v.ww[", "image:i[", "icon:i["]),
                words(&["\"", "'", "\\\"", "\\'", "t", ",", "=", "\\"], 0, d(th, 4, 5)),
                v(&["]", ",role=s]"]),
            ],
        )
        .cfg(&c(&["base", "tagged"])),
        Space::slots(
            "URLs and what they end in",
            vec![
                v(&["", "(", "<", "a ", "\\", "link:"]),
                v(&["http://", "https://u"]),
                words(&[";", ":", ")", ".", "?", "(", ">", "a"], 0, d(th, 4, 5)),
                v(&["", " b"]),
            ],
        ),
        Space::slots(
            "addresses",
            vec![
                v(&["", "\\", "a ", "<", ":", "/", "(", "é", "mailto:", ">", "*"]),
                words(&["a", "@", ".", "b", "-", "+", "1", "&amp;", "é", "%"], 1, d(th, 4, 5)),
                v(&["@b.cc", "@b.c", "@b-c.dd", "@b", "@b.cc.", "@é.cc", ""]),
                v(&["", " z", ">", "@", "/"]),
            ],
        ),
        Space::slots(
            "anchors",
            vec![
                v(&["", "\\", "a", " "]),
                v(&["[[", "[", "anchor:", "\\anchor:", "[[["]),
                words(&["i", ",", " ", "1", "é", "-", "*b*", ":", "."], 0, d(th, 3, 4)),
                v(&["]]", "[]", "[r]", "]", "[r\\]s]", ",r]]", "]]]"]),
                v(&["", "z"]),
            ],
        )
        .cfg(&c(&["base", "tagged"])),
        each("every character", E22, 2),
        Space::slots(
            "lengths of addresses",
            vec![
                v(&["", "a ", "<", "mailto:"]),
                times(&["u", "u.", "u-", "u+", "1", "é"], [1, 2, 30]),
                v(&["@"]),
                times(&["v", "v.", "v-", "v.w-1."], [1, 2, 3, 30]),
                v(&[".", "", ".."]),
                times(&["w", "é", "1"], 0..12),
                v(&["", ".", "[t]", " x", "-"]),
            ],
        ),
        Space::slots(
            "many links",
            vec![
                times(&["https://a ", "https://a[b] ", "link:a[b]", "u@v.ww ", "[[i]]", "mailto:a@b[c,d]", "anchor:i[]", "<https://a>", "\\https://a "], [0, 1, 2, 3, 11]),
                times(&["https://c ", "https://c[d] ", "link:c[d]", "x@y.zz ", "[[j]]", "]", "["], [0, 1, 2, 12]),
            ],
        ),
    ]
}

fn s23(th: bool) -> Vec<Space> {
    let cfgs = &["base", "font", "icons", "dirs", "url", "up", "tagged"];
    vec![
        Space::slots(
            "images",
            vec![
                v(&["a ", "\\"]),
                v(&["image:", "icon:"]),
                v(&["i.png", "i_b-c.svg", "d/../e", "/r", "https://h/i.gif", "é", "{x}"]),
                v(&["[", "[alt", "[\"a, b\"", "[,"]),
                v(&["", ",20", ",20,30", ",width=20,height=30", ",size=2x"]),
                v(&["", ",link=l", ",link=l,window=_blank", ",link=l,opts=noopener", ",link=self"]),
                v(&["", ",float=left", ",role=r", ",title=t", ",title=\"u\\\"v\"", ",role=\"r s\",align=right", ",flip=vertical", ",rotate=90", ",opts=inline", ",opts=interactive,fallback=f", ",format=svg,opts=interactive", ",id=k", ",set=fab"]),
                v(&["]"]),
            ],
        )
        .cfg(&c(cfgs)),
        Space::slots(
            "macro text",
            vec![
                v(&["", "a", "\\", ":", "é ", "*"]),
                v(&["image:", "icon:", "image::", "Image:", "icon"]),
                words(&["i", " ", ":", "[", "]", "é", ".", "\\", "<", "\n", "_"], 0, d(th, 3, 4)),
                v(&["[]", "[a]", "[a\\]b]", "[", "]", "[a\nb]", "[<*b*>]", "[a=b]", "[a,\nrole=b\\]c]", "[a #b. c]"]),
                v(&["", "z", "*", "]"]),
            ],
        ),
        Space::slots(
            "icons",
            vec![
                v(&["icon:i[", "icon:tags@fa[", "icon:i_j[", "icon:i.png["]),
                v(&["", "2x", "size=3x", "alt=a", "a,b"]),
                v(&["", ",role=r", ",flip=horizontal", ",rotate=180", ",title=t", ",link=l,window=w", ",flip=v,rotate=90", ",set=far", ",width=1,height=2", ",float=left"]),
                v(&["", ",link=m,opts=noopener", ",title=\"u v\"", ",title='u\"v'", ",id=z", ",role=q"]),
                v(&["]", "] z", "", "]]"]),
            ],
        )
        .cfg(&c(cfgs)),
        Space::slots(
            "settings in the document",
            vec![
                v(&["", ":icons:\n", ":icons: font\n", ":icons: image\n", ":icons!:\n"]),
                v(&["", ":imagesdir: a\n", ":imagesdir: https://b\n", ":imagesdir:\n", ":imagesdir: ../c/\n"]),
                v(&["", ":iconsdir: d\n", ":!iconsdir:\n", ":icontype: svg\n", ":data-uri:\n"]),
                v(&["\nimage:i.png[] icon:j[] image:k.svg[opts=inline] icon:l.gif[x]\n\n:imagesdir: z\n\nimage:m[]\n"]),
            ],
        )
        .cfg(&c(&["base", "icons"])),
        each("every character", E23, 2),
        Space::slots(
            "many images",
            vec![
                times(&["image:a[]", "image:a.b[c,1,2] ", "icon:d[] ", "image:a[link=b] ", "\\image:e[]"], [0, 1, 2, 3, 11, 30]),
                times(&["icon:f[2x]", "image:g[h]", "image:", "]"], [0, 1, 2, 11]),
            ],
        )
        .cfg(&c(&["base", "font"])),
    ]
}

fn s24(th: bool) -> Vec<Space> {
    let a = &[
        "a\n", "\n", "[a,,b]\n", "[a=\"b]\n", "[\"a\"b]\n", "[#]\n", "[[1]]\n", "[[]]\n", "----\n", "====\n", "= L\n",
        "== S\n", "==== V\n", "======= W\n", ".t\n", ":sp: x\n", "[[k]]\n", "image::x[c,,d]\n", "image::[]\n", "[discrete]\n",
    ];
    let mut out = vec![
        Space::seq("defects", a, 1, d(th, 4, 5)),
        Space::seq("defects inside", a, 1, d(th, 3, 4)).wrap(&[
            ("== P\n\n====\n", "====\n"),
            ("= D\n\n", "\n== Q\n\nx\n"),
            ("====\n--\n****\n", ""),
            ("[discrete]\n== R\n\n=== T\n\n", ""),
        ]),
        Space::slots(
            "media",
            vec![
                v(&["", ".t\n", "a\n\n"]),
                v(&["image", "video", "audio", "foo", "é", "1x", "a b", "image ", "xinclude"]),
                v(&["::", ":", ":::", ""]),
                v(&["", "x", "x y", "é"]),
                v(&["[", "[]", "[]z", "[a,,b]", "[a=\"]", "", "[\"a\"b]", "[[]", "] ", "[a. b#]", "[%]"]),
                v(&["\n", "\nz"]),
            ],
        ),
        Space::slots(
            "header defects",
            vec![
                words(&["= T\n", "A B\n", "v1\n", "x\n", ":sp: y\n", ":toc: z\n", "\n", "= U\n", ":!empty:\n", "[x]\n"], 1, d(th, 5, 6)),
            ],
        )
        .cfg(&c(&["base"])),
        Space::slots(
            "inline does not warn",
            vec![words(&["[a,,b]", "#c#", "image:i[d=\"]", "https://u[e,,f]", "{nope}", "[[1]]", "link:v[\"w\"x=y]", "+", "`"], 0, d(th, 4, 5))],
        ),
        each("every character", &cat(EACH), 1),
    ];
    out.extend(shared(th, "C24", &[BLOCKS, INLINE, HEADER, INCLUDES]));
    out
}

fn s25(th: bool) -> Vec<Space> {
    vec![
        Space::seq(
            "lines",
            &["a +\n", "b\n", " +\n", "+\n", "a+\n", "a + \n", "c  +\n", "\\ +\n", "é +\r\n", "*d +\n", "e* +\n"],
            1,
            d(th, 4, 5),
        )
        .wrap(&[("", ""), ("[%hardbreaks]\n", "z"), ("[%hardbreaks]\n", ""), ("", "y +")])
        .cfg(&c(&["base", "hb"])),
        Space::slots(
            "settings",
            vec![
                v(&["", ":hardbreaks:\n", ":hardbreaks-option:\n", ":!hardbreaks:\n", ":hardbreaks: x\n", "= T\n:hardbreaks:\n"]),
                v(&["\n"]),
                v(&["", "[%hardbreaks]\n", "[opts=hardbreaks]\n", "[subs=post_replacements]\n", "[subs=quotes,options=hardbreaks]\n", "[subs=\"quotes,p\"]\n", "[hardbreaks]\n", "[%hardbreaks-option]\n", "[%hardbreaks,subs=n]\n", "[subs=-p]\n", "[%x%hardbreaks]\n"]),
                v(&["", "====\n", "----\n", ".T +\n", " "]),
                words(&["a\n", "a +\n", "*b*\n", "+\n", " c\n"], 1, d(th, 3, 4)),
                v(&["", "d", "d +", "====\n", "----\n", "\n:!hardbreaks:\n\ne\nf\n"]),
            ],
        )
        .cfg(&c(&["base", "hb", "hbt"])),
        Space::seq("characters", &["a", " ", "+", "\n", "\\", "\t", "\r\n", "é"], 1, d(th, 6, 7)),
        each("every character", E25, 2),
        Space::slots(
            "many breaks",
            vec![
                v(&["", "[%hardbreaks]\n"]),
                times(&["a +\n", "a\n", "+\n", "a + +\n", " +\n"], [0, 1, 2, 3, 11, 50]),
                times(&["b\n", "b +\n", " ", "+"], [0, 1, 2, 3]),
            ],
        ),
    ]
}

fn s26(th: bool) -> Vec<Space> {
    let names = &[
        "c", "q", "a", "r", "m", "p", "n", "v", "none", "normal", "verbatim", "specialcharacters", "specialchars",
        "quotes", "attributes", "replacements", "macros", "post_replacements", "x", "", "callouts",
    ];
    let short = &["c", "q", "a", "r", "m", "p", "n", "v"];
    let mut single = vec![];
    for n in names {
        for f in ["", "+", "-"] {
            single.push(format!("{f}{n}"));
        }
        single.push(format!("{n}+"));
        single.push(format!(" {n} "));
    }
    let mut pair = vec![];
    let ops = |n: &str| {
        [n.to_owned(), format!("+{n}"), format!("{n}+"), format!("-{n}")]
    };
    for a in short.iter().flat_map(|n| ops(n)) {
        for b in short.iter().flat_map(|n| ops(n)) {
            pair.push(format!("\"{a},{b}\""));
        }
    }
    let mut triple = vec![];
    for a in ["c", "+q", "q+", "-c", "n", "v", "none", "m"] {
        for b in ["a", "+a", "a+", "-q", "v", "x", " r", "+r", "c"] {
            for t in ["m", "+m", "p+", "-a", "-c", "q", "", "+n"] {
                triple.push(format!("\"{a},{b},{t}\""));
            }
        }
    }
    let blocks: &[(&str, &str)] = &[
        ("]\n", ""),
        ("]\n----\n", "\n----\n"),
        ("]\n++++\n", "\n++++\n"),
        ("]\n....\n", "\n....\n\n*a*"),
        ("]\n////\n", "\n////\n"),
    ];
    let texts = || {
        vec![
            MARKUP.to_owned(),
            "<u> *<* (C)&amp; {y} \\*k* +<l>+ {foo-bar} pass:q[*m*]\nn +\no".to_owned(),
        ]
    };
    let mut out = vec![];
    for (name, list) in [("one name", &single), ("two names", &pair), ("three names", &triple)] {
        out.push(
            Space::slots(name, vec![v(&["[subs=", "[source,subs="]), list.clone(), blocks.iter().map(|b| b.0.to_owned()).collect(), texts(), v(&["", "\n----\n\n*a*", "\n++++\n", "\n....\n"])])
                .cfg(&c(if th { &["attrs", "tagged", "base", "hb"] } else { &["attrs", "tagged"] })),
        );
    }
    out.push(
        Space::slots(
            "pass macro",
            vec![v(&["pass:"]), {
                let mut l = v(names);
                for a in names {
                    for b in names {
                        l.push(format!("{a},{b}"));
                    }
                }
                l
            }, v(&["[", ",[", "-[", " ["]), texts(), v(&["] *z*"])],
        )
        .cfg(&c(&["attrs", "tagged"])),
    );
    out.push(
        Space::slots(
            "that block only",
            vec![
                v(&["", "*a*\n\n", "====\n"]),
                v(&["[subs=none]\n", "[subs=v]\n", "[pass]\n", "[pass,subs=q]\n", "[pass,subs=+q]\n", "[pass,subs=\"q+,-c\"]\n", "[subs=\"\"]\n", "[subs=q,subs=none]\n", "[subs='q']\n", "[.x,subs=+q]\n"]),
                v(&["", ".T *t*\n"]),
                v(&["*b* <\n", "== *b* <\n", "----\n*b* <\n----\n", "====\n*b* <\n====\n", "image::*b*[<]\n", "--\n*b* <\n--\n", " *b* <\n"]),
                v(&["\n*c* <\n", "[[i]]\n*c* <\n", "\n----\n*c* <\n----\n"]),
            ],
        ),
    );
    out.push(each("every character", E26, 2));
    out
}

const MARKS: &[&str] = &["*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "+", "++", "+++", "$$", "\"`", "`\"", "'`", "`'", "`+", "+`"];

fn s27(th: bool) -> Vec<Space> {
    let a = &[
        "*a*", "__b__", "`c`", "#d#", "^e^", "\"`f`\"", "<", "&", "(C)", "--", "it's", "...", "->", "image:i[g]", "icon:j[h]", "https://k[l]", "link:m[n]", "o@p.qq",
        "[[r]]", " +\n", "+s+", "{x}", " ", "[t]", "\\", "pass:q[*u*]",
    ];
    let mut out = vec![
        Space::seq("constructs", a, 1, d(th, 3, 4)).cfg(&c(&["tagged"])),
        Space::seq("constructs in titles", a, 1, d(th, 2, 3))
            .wrap(&[("== ", "\n"), (".v", "\nw"), ("[subs=normal]\n----\n", "\n----\n"), ("[%hardbreaks]\nw\n", "\nw\nw"), ("*", "*"), ("`", "`"), ("[.z]#", "#"), ("link:y[", "]"), ("image:y[", "]"), ("+", "+")])
            .cfg(&c(&["tagged", "hbt"])),
        Space::seq("characters", &["*", "_", "`", "<", "a", " ", "'", "(C)", "[r]", "\\", "é"], 1, d(th, 4, 5)).cfg(&c(&["tagged"])),
        Space::slots(
            "parameters",
            vec![
                v(&["image:i[", "icon:j[", "https://k[", "link:l[", "mailto:m@n[", "anchor:o[", "[[p,"]),
                v(&["", "a", "*a*", "a^", "\"a, b\"", "\\]"]),
                v(&["", ",b", ",width=1,height=2", ",role=\"r s\"", ",window=_blank", ",window=w,opts=nofollow", ",alt=c", ",size=2x", ",link=d", ",title='*t*'", ",1,2,3"]),
                v(&["", ",k=v", ",id=q", ",opts=\"x,y\"", ",e=\"f\\\"g\""]),
                v(&["]", "]]", ""]),
            ],
        )
        .cfg(&c(&["tagged"])),
        Space::slots(
            "marks with attributes",
            vec![
                v(&["", "a", "a "]),
                v(&["", "[r]", "[#i.r]", "[.r,y=z]", "\\[r]", "[x-]", "[r x-]"]),
                v(MARKS),
                v(&["b", "b c", "b\nc", "*b* c", "_b_", "{x}", "<", ""]),
                v(MARKS),
                v(&["", "a", " a", "."]),
            ],
        )
        .cfg(&c(&["tagged"])),
        each("every character", &cat(&[E18, E19, E20, E21, E22, E23, E25, E26]), d(th, 1, 2)).cfg(&c(&["tagged"])),
        Space::slots(
            "many constructs",
            vec![
                times(&["*a* ", "+b+ ", "pass:q[*c*]", "https://d[e] ", "image:f[g]", "(C)", "<"], [0, 1, 2, 9, 10, 11, 12, 101]),
                times(&["+h+ ", "_i_", " +\n", "pass:[j]"], [0, 1, 2, 11]),
            ],
        )
        .cfg(&c(&["tagged"])),
    ];
    out.extend(shared(th, "C27", &[INLINE]).into_iter().map(|mut s| {
        // Also with the renderer that shows what it is called with.
        for c in &mut s.cfgs {
            *c = match c.name {
                "base" => &CFGS[1],
                "hb" => cfg("hbt").unwrap_or(c),
                _ => c,
            };
        }
        s
    }));
    out
}

fn s28(th: bool) -> Vec<Space> {
    let seg = &["a", "/", ".", "..", "b c", "\\", ":", "é", "http://", "//"];
    vec![
        Space::seq("target", seg, 0, d(th, 6, 7)).cfg(&c(&["base", "bs"])),
        Space::slots("target and start", vec![words(seg, 0, d(th, 3, 4)), v(&["\u{2}"]), words(seg, 0, d(th, 3, 4))]).cfg(&c(&["base", "bs"])),
        Space::slots(
            "segments",
            vec![
                words(&["../", "./", "/", "a/", "b c/", ".../", "\\"], 0, d(th, 4, 5)),
                v(&["", "x", "..", ".", "x.y"]),
                v(&["\u{2}"]),
                v(&["", "s", "/s", "../s", "./s/", "http://h/s", "file:///s", "C:/s", "c:", "1:/s", "s/../..", "/..", "//s", "https://h", "mailto:s", "s t", "\\s", "a+b.c-d://e/f/", "h://../..", "./../s", "é://s", "."]),
            ],
        )
        .cfg(&c(&["base", "bs"])),
        each("every character", E28, 2),
    ]
}

/// Attribute entries of everything that has an influence on parsing.
const SETTINGS: &[&str] = &[
    ":sectnums:\n", ":!sectnums:\n", ":sectnums: x\n", ":sectnumlevels: 1\n", ":sectnumlevels: 5\n",
    ":sectnumlevels: x\n", ":sectnumlevels:\n", ":!sectnumlevels:\n", ":!sectids:\n", ":sectids:\n",
    ":idprefix: p\n", ":idprefix:\n", ":!idprefix:\n", ":idseparator: .\n", ":idseparator:\n",
    ":!idseparator:\n", ":icons: font\n", ":icons:\n", ":!icons:\n", ":imagesdir: m\n", ":!imagesdir:\n",
    ":iconsdir: n\n", ":hide-uri-scheme:\n", ":!hide-uri-scheme:\n", ":hardbreaks:\n", ":!hardbreaks:\n",
    ":hardbreaks-option:\n", ":x: y\n", ":!x:\n", ":x: {x}\n",
];

/// A document that registers IDs, counts sections and gives warnings.
const BEFORE: &str = "= H\nA B <c@d>\nv1, e\n:sectnums:\n\np\n\n== A\n\n[appendix]\n== B\n\n=== A\n\n[[k]]\n[a,,b]\nz +c+ {no}\n\n[[k]]\n----\n\u{2}";

fn s29(th: bool) -> Vec<Space> {
    let a = &[
        "= T\nA B <c@d>\nv1, e\n\n", ":x: 1\n\n", ":sectnums:\n\n", "[appendix]\n== A\n\n", "== A\n\n", "=== B\n\n",
        "[[k]]\nz\n\n", ":sp: q\n\n", "----\n", "{x}{author}\n\n", ":idprefix: p\n\n", "[discrete]\n== A\n\n",
    ];
    let mut out = vec![
        Space::slots("two documents", vec![words(a, 0, d(th, 2, 3)), v(&["\u{2}"]), words(a, 1, d(th, 3, 3))]).cfg(&c(&["base"])),
        Space::slots(
            "three documents",
            vec![words(a, 0, 1), v(&["\u{2}"]), words(a, 0, d(th, 1, 2)), v(&["\u{2}"]), words(a, 1, d(th, 2, 2))],
        )
        .cfg(&c(&["base", "num", "people"])),
        Space::slots(
            "with includes",
            vec![
                words(&["include::a[]\n", ":x: b\n", "\n", "include::{x}[]\n", "t\n"], 0, 2),
                v(&["\u{2}"]),
                words(&["include::a[]\n", "include::{x}[]\n", "\n", "u\n"], 1, d(th, 2, 3)),
                v(&["\u{1}a\u{1}:x: a\n\u{1}b\u{1}include::a[]\n", "\u{1}a\u{1}include::a[]\nv"]),
            ],
        )
        .cfg(&c(&["inc", "incp"])),
        Space::slots(
            "custom rendering",
            vec![words(&["*a*", "(C)", "it's", "+b+", "image:i[]", " ", "\u{2}", "{x}", "\n"], 1, d(th, 4, 5))],
        )
        .cfg(&c(&["tagged"])),
        Space::seq("any lines", &cat(&[LINES, MORE_LINES]), 1, d(th, 2, 3)),
        Space::slots(
            "settings of two documents",
            vec![
                words(SETTINGS, 0, 1),
                words(SETTINGS, 0, d(th, 1, 2)),
                v(&["\n== A\n\n=== B\n\n[appendix]\n== C\n\u{2}"]),
                words(SETTINGS, 0, d(th, 1, 2)),
                v(&["\n", "\nz\n\n"]),
                words(SETTINGS, 0, d(th, 0, 1)),
                v(&["\n== A\n\n=== B\n\n==== C\n\n[appendix]\n== D\n\nicon:a[] image:b[] https://c.d[]\nx\n{x}\n"]),
            ],
        )
        .cfg(&c(&["base", "num"])),
        each("every character", &cat(EACH), 1),
    ];
    out.extend(shared(th, "C29", &[BLOCKS, INLINE, HEADER, INCLUDES])
        .into_iter()
        .filter(|s| s.name != "C02: two documents" && s.size() <= if th { 100_000 } else { 15_000 })
        .map(|mut s| {
            // Something else was parsed before.
            for w in &mut s.wraps {
                w.0 = format!("{BEFORE}{}", w.0);
            }
            s
        }));
    out
}

fn s30(th: bool) -> Vec<Space> {
    let mut out = vec![
        Space::seq("lines", &cat(&[LINES, MORE_LINES]), 1, d(th, 3, 4)),
        Space::seq(
            "header",
            &["= T\n", "A B <c@d>\n", "v1, 2: 3\n", ":x: y \\\n  z\n", ":x: y + \\\nz\n", ":!x:\n", "// c\n", "\n", "{x}\n", "a +\n"],
            1,
            d(th, 4, 5),
        ),
        Space::slots(
            "multi-line markup",
            vec![
                v(&["", "[%hardbreaks]\n", "[literal]\n", " ", "[subs=normal]\n----\n", "----\n", ".t\n"]),
                words(&["*a\n", "b*\n", "`c\n", "`", "d +\n", "--\n", "https://e[f\n", "g]", " -- \n", "+h\n", "i+"], 1, d(th, 4, 5)),
                v(&["", "\n----\n", "\n\nz\n"]),
            ],
        ),
        Space::slots(
            "includes",
            vec![
                words(&["include::a[]\n", "t\n", "\n", ":x: u \\\n v\n", "include::no[]\n"], 1, d(th, 3, 4)),
                v(&["\u{1}a\u{1}"]),
                words(&["k\n", "\n", "== S\n", "l", "----\n"], 0, d(th, 3, 3)),
            ],
        )
        .cfg(&c(&["inc", "incp"])),
        each("every character", &cat(EACH), 1),
    ];
    out.extend(shared(th, "C30", &[BLOCKS, INLINE, HEADER, INCLUDES]));
    out
}

fn s31(th: bool) -> Vec<Space> {
    vec![
        Space::slots(
            "media line",
            vec![
                v(&["", "a\n", ".t\n", "[x]\n", "a\n\n", "[literal]\n", "====\n"]),
                v(&["image", "video", "audio", "images", "Image", "toc", " image", "éimage"]),
                v(&["::", ":", ":::", ": :"]),
                words(&["x", " ", "é", "/", "[", "]", "{sp}", ":"], 0, d(th, 2, 3)),
                v(&["[]", "[a]", "[a,b=c]", "[", "]", "", "[]]", "[[]]", "[] ", "[]\t", "[]z", "[a]b]", "[]\r", "[{sp}]", "[a\n]"]),
                v(&["", "\n", "\nz\n"]),
            ],
        ),
        Space::seq("media characters", &["image", "::", ":", "x", "[", "]", " ", "a=b", ",", "\"", "é", "\n"], 1, d(th, 4, 6)).wrap(&[("", ""), ("image::x", "")]),
        Space::slots(
            "break line",
            vec![
                v(&["", "a\n", "a\n\n", ".t\n[[i]]\n", "[x]\n", "[literal]\n", "--\n", "== S\n"]),
                words(&["'", "-", "*", "<", " "], 1, d(th, 5, 6)),
                v(&["", "\n", "\nz", "\n\nz"]),
            ],
        ),
        Space::slots(
            "break variants",
            vec![
                v(&["", "a\n\n"]),
                v(&["", " ", "\t", "é"]),
                v(&["'''", "---", "***", "<<<", "- - -", "* * *", "' ' '", "-  -  -", "''''", "----", "___", "_ _ _", "<<", "<<<<", "--", "+++", "===", "'''a"]),
                v(&["", " ", "\t", "  ", "x", "\r"]),
                v(&["\n", "", "\n'''\n", "\nb\n"]),
            ],
        ),
        Space::seq("lines", &["'''\n", "<<<\n", "image::x[]\n", "a\n", "\n", "[x]\n", ".t\n", "----\n", "* * *\n", "video::[]\n"], 1, d(th, 5, 6)),
        each("every character", E31, 2),
    ]
}

fn s32(th: bool) -> Vec<Space> {
    let units = ["", "a", "é", "€", "🍔", "\0", "\n"];
    let mut around: Vec<String> = vec![];
    for u in &units[1..] {
        for n in 0..=30 {
            for tail in units {
                around.push(format!("{}{tail}", u.repeat(n)));
            }
        }
    }
    around.sort();
    around.dedup();
    let near: Vec<String> = around.iter().filter(|s| (19..=25).contains(&s.len())).cloned().collect();
    vec![
        Space::slots("texts", vec![around.clone()]),
        Space::slots("pairs", vec![near.clone(), v(&["\u{2}"]), near.clone()]),
        Space::seq("short", &["a", "é", "€", "🍔", "\0", "\\", "\"", "\u{301}"], 0, d(th, 4, 6)),
        Space::slots(
            "at the capacity",
            vec![
                (14..=24).map(|n| "x".repeat(n)).collect(),
                words(&["a", "é", "€", "🍔"], 0, d(th, 4, 6)),
            ],
        ),
        Space::slots("short pairs", vec![words(&["a", "é", "\0"], 0, d(th, 3, 5)), v(&["\u{2}"]), words(&["a", "é", "\0"], 0, d(th, 3, 5))]),
    ]
}

fn s33(th: bool) -> Vec<Space> {
    let a = &["a\n\n", "== S\n\n", "=== T\n\n", "[discrete]\n== D\n\n", ":x: y\n\n", "====\n== I\n====\n\n", "// c\n\n", ".t\n", "[[i]]\n", "'''\n", "[appendix]\n== A\n\n", "----\n"];
    vec![
        Space::seq("blocks", a, 1, d(th, 4, 5)).wrap(&[("", ""), ("= H\n\n", ""), ("= H\nA\n:x: z\n\n", ""), (":x: z\n", "")]),
        Space::slots(
            "boundary",
            vec![
                v(&["", "= H\n", "= H\n\n", "= H\n:x: z\n", "// c\n\n", "\n\n", "= H\nx\n"]),
                words(&["a\n", "\n", ":x: y\n", "é", " l\n", "[y]\n", "----\n"], 0, d(th, 3, 4)),
                v(&["== S\n", "\n== S\n", "\n[[k]]\n== S\n", "\n=== S\n\n== T\n", "\n= S\n", "\n[literal]\n== S\n", "\n.t\n[discrete]\n== S\n\n== T\n", "\n##\tS", ""]),
                v(&["", "\nb\n"]),
            ],
        ),
        each("every character", E33, 2),
    ]
}

const HTML: &str = "the rendering compared is that of the built-in HTML renderer and, where a space says so, of a renderer that records every call";
const UNDERSTOOD: &str = "the reference model states what the AsciiDoc language description and the documentation of the crate require; where they are silent, what the crate's own tests pin";
const DEFAULTS: &[&str] = &[UNDERSTOOD, HTML];

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    let mut p = |id, title, mask, check: fn(&Prop, &Case) -> Outcome, spaces: fn(bool) -> Vec<Space>| {
        v.push(Prop {
            id,
            title,
            mask,
            check,
            spaces,
            assumptions: DEFAULTS,
        })
    };
    p("C01", "parsing is total", ALL, total, s01);
    p("C02", "source locations", SPAN | STRUCT | HEAD | META | WARN, positions, s02);
    p("C03", "blocks partition the body", STRUCT | SPAN, partition, s03);
    p("C04", "delimited blocks", STRUCT | SPAN | TEXT | WARN, compare, s04);
    p("C05", "paragraphs", STRUCT | SPAN | TEXT, compare, s05);
    p("C06", "block metadata", STRUCT | SPAN | META | WARN, compare, s06);
    p("C07", "sections nest", STRUCT | SPAN | SECT | WARN, levels, s07);
    p("C08", "section numbers", STRUCT | SECT, compare, s08);
    p("C09", "IDs and catalog", CAT | SECT | META | WARN, ids, s09);
    p("C10", "header", HEAD | SPAN | STRUCT | WARN | TEXT, compare, s10);
    p("C11", "authors", HEAD | ENV | TEXT, compare, s11);
    p("C12", "revision", HEAD | ENV | TEXT, compare, s12);
    p("C13", "attribute precedence", ENV | WARN | TEXT, compare, s13);
    p("C14", "attribute entries and references", STRUCT | ENV | TEXT | HEAD | META, compare, s14);
    p("C15", "includes", STRUCT | SPAN | INC | TEXT, flattened, s15);
    p("C16", "source map", STRUCT | SMAP, compare, s16);
    p("C17", "attribute lists", META | WARN | TEXT, compare, s17);
    p("C18", "special characters", TEXT | HEAD, escaped, s18);
    p("C19", "inline formatting", TEXT, compare, s19);
    p("C20", "passthroughs", TEXT, compare, s20);
    p("C21", "replacements", TEXT, compare, s21);
    p("C22", "links and anchors", TEXT, compare, s22);
    p("C23", "inline images and icons", TEXT, compare, s23);
    p("C24", "warnings", WARN, compare, s24);
    p("C25", "line breaks", TEXT, compare, s25);
    p("C26", "substitutions setting", TEXT | STRUCT, compare, s26);
    p("C27", "custom renderer", TEXT, compare, s27);
    p("C28", "web paths", 0, paths, s28);
    p("C29", "deterministic and independent", ALL, deterministic, s29);
    p("C30", "CRLF and LF", ALL, crlf, s30);
    p("C31", "block macros and breaks", STRUCT | SPAN | META | WARN, compare, s31);
    p("C32", "compact strings", 0, strings, s32);
    p("C33", "preamble", STRUCT | SPAN, compare, s33);
    v
}

/// For development.
pub fn everything() -> Prop {
    Prop {
        id: "all",
        title: "everything",
        mask: ALL,
        check: compare,
        spaces: |th| shared(th, "", &[BLOCKS, INLINE, HEADER, INCLUDES]),
        assumptions: &[],
    }
}
