//! The reference model: what a document means, written down independently of the
//! implementation, over byte offsets into the preprocessed text.

pub mod attrlist;
pub mod blocks;
pub mod header;
pub mod lines;
pub mod macros;
pub mod passthrough;
pub mod path;
pub mod preprocess;
pub mod render;
pub mod subs;

use std::collections::{BTreeMap, HashMap};

use crate::{
    case::{Case, Cfg, Ctx, Rend, V},
    engine::step,
    obs::ENV_NAMES,
    odoc::*,
};

/// Document attributes.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Env {
    vals: HashMap<String, (OVal, Ctx)>,
}

fn defaulted(name: &str) -> Option<&'static str> {
    Some(match name {
        "example-caption" => "Example",
        "iconsdir" => "./images/icons",
        "sectnums" => "all",
        "toc" => "auto",
        _ => return None,
    })
}

/// Names by which an attribute can be set are not case sensitive, and one has an
/// alias.
pub fn canonical(name: &str) -> String {
    let n = name.to_lowercase();
    if n == "hardbreaks" {
        "hardbreaks-option".to_owned()
    } else {
        n
    }
}

impl Env {
    pub fn new(cfg: &Cfg) -> Env {
        let s = |v: &str| OVal::Value(v.to_owned());
        let mut vals = HashMap::new();
        for (n, v, c) in [
            ("empty", s(""), Ctx::ApiOnly),
            ("sp", s(" "), Ctx::ApiOnly),
            ("deg", s("&#176;"), Ctx::ApiOnly),
            ("plus", s("&#43;"), Ctx::ApiOnly),
            ("toc", OVal::Unset, Ctx::Header),
            ("sectids", OVal::Set, Ctx::Any),
            ("sectnums", OVal::Unset, Ctx::Any),
            ("sectnumlevels", s("3"), Ctx::Header),
            ("idprefix", s("_"), Ctx::Any),
            ("idseparator", s("_"), Ctx::Any),
            ("example-caption", OVal::Set, Ctx::Any),
            ("iconsdir", OVal::Set, Ctx::Any),
        ] {
            vals.insert(n.to_owned(), (v, c));
        }
        for (n, v, c) in cfg.attrs {
            let v = match v {
                V::S(t) => s(t),
                V::Set => OVal::Set,
                V::Unset => OVal::Unset,
            };
            vals.insert(n.to_lowercase(), (v, *c));
        }
        Env { vals }
    }

    pub fn has(&self, n: &str) -> bool {
        self.vals.contains_key(n)
    }

    pub fn is_set(&self, n: &str) -> bool {
        self.vals.get(n).is_some_and(|v| v.0 != OVal::Unset)
    }

    pub fn value(&self, n: &str) -> OVal {
        match self.vals.get(n) {
            None => OVal::Unset,
            Some((OVal::Set, _)) => match defaulted(n) {
                Some(d) => OVal::Value(d.to_owned()),
                None => OVal::Set,
            },
            Some((v, _)) => v.clone(),
        }
    }

    pub fn text(&self, n: &str) -> Option<String> {
        match self.value(n) {
            OVal::Value(v) => Some(v),
            _ => None,
        }
    }

    fn context(&self, n: &str) -> Ctx {
        self.vals.get(n).map_or(Ctx::Any, |v| v.1)
    }

    /// Sets an attribute if its modification context allows that here; otherwise
    /// gives back the name under which it is locked.
    pub fn assign(&mut self, name: &str, mut v: OVal, header: bool) -> Result<(), String> {
        let n = canonical(name);
        let c = self.context(&n);
        let allowed = match c {
            Ctx::ApiOnly => false,
            Ctx::Header => header,
            Ctx::Body => !header,
            Ctx::Any => true,
        };
        if !allowed {
            return Err(n);
        }
        if header
            && v == OVal::Set
            && let Some(d) = defaulted(&n)
        {
            v = OVal::Value(d.to_owned());
        }
        self.vals.insert(n, (v, c));
        Ok(())
    }
}

/// What the substitutions depend on.
#[derive(Clone)]
pub struct World {
    pub env: Env,
    pub rend: Rend,
    pub sep: char,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Group {
    Normal,
    Header,
    Verbatim,
    Pass,
    None,
    Custom(Vec<Step>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Step {
    SpecialCharacters,
    Quotes,
    AttributeReferences,
    CharacterReplacements,
    Macros,
    PostReplacement,
}

/// IDs known in a document.
#[derive(Clone, Default)]
pub struct Catalog {
    pub refs: BTreeMap<String, (Option<String>, &'static str)>,
    by_text: HashMap<String, String>,
}

impl Catalog {
    pub fn register(&mut self, id: &str, text: Option<&str>, ty: &'static str) -> bool {
        if self.refs.contains_key(id) {
            return false;
        }
        self.refs.insert(id.to_owned(), (text.map(str::to_owned), ty));
        if let Some(t) = text {
            self.by_text.entry(t.to_owned()).or_insert(id.to_owned());
        }
        true
    }

    /// Registers the first of `base`, `base-2`, `base-3`, ... not in use.
    pub fn unique(&mut self, base: &str, text: Option<&str>, ty: &'static str) -> String {
        let id = std::iter::once(base.to_owned())
            .chain((2..).map(|n| format!("{base}-{n}")))
            .find(|c| !self.refs.contains_key(c))
            .expect("endless");
        self.register(&id, text, ty);
        id
    }
}

pub fn is_word(c: char) -> bool {
    if c.is_ascii() {
        c.is_ascii_alphanumeric() || c == '_'
    } else {
        use std::sync::LazyLock;
        static W: LazyLock<regex::Regex> = LazyLock::new(|| regex::Regex::new(r"\w").unwrap());
        W.is_match(c.encode_utf8(&mut [0; 4]))
    }
}

/// A letter or a decimal digit.
pub fn is_alnum(c: char) -> bool {
    c.is_alphabetic() || is_decimal(c)
}

pub fn is_decimal(c: char) -> bool {
    if c.is_ascii() {
        c.is_ascii_digit()
    } else {
        use std::sync::LazyLock;
        static D: LazyLock<regex::Regex> = LazyLock::new(|| regex::Regex::new(r"\p{Nd}").unwrap());
        D.is_match(c.encode_utf8(&mut [0; 4]))
    }
}

pub fn word_at(s: &str, i: usize) -> bool {
    s[i..].chars().next().is_some_and(is_word)
}

pub fn word_before(s: &str, i: usize) -> bool {
    s[..i].chars().next_back().is_some_and(is_word)
}

/// Runs the model on a case.
pub fn run(case: &Case, mask: u32) -> Vec<ODoc> {
    let mut w = World {
        env: Env::new(case.cfg),
        rend: case.cfg.rend,
        sep: case.cfg.sep.unwrap_or('/'),
    };
    case.docs
        .iter()
        .map(|t| {
            step();
            let pre = preprocess::run(case, t, &w);
            blocks::document(pre, &mut w, mask)
        })
        .collect()
}

pub fn env_of(w: &World) -> Vec<(String, bool, bool, OVal)> {
    ENV_NAMES
        .iter()
        .map(|n| (n.to_string(), w.env.has(n), w.env.is_set(n), w.env.value(n)))
        .collect()
}

pub fn catalog_of(c: &Catalog) -> (Vec<(String, Option<(Option<String>, &'static str)>)>, Vec<(String, Option<String>)>) {
    let mut texts: Vec<&String> = c.refs.values().filter_map(|r| r.0.as_ref()).collect();
    texts.sort();
    texts.dedup();
    (
        c.refs
            .iter()
            .map(|(id, r)| (id.clone(), Some(r.clone())))
            .collect(),
        texts
            .into_iter()
            .map(|t| (t.clone(), c.by_text.get(t).cloned()))
            .collect(),
    )
}
