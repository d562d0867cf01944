//! A case: one concrete input together with the parser configuration.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ctx {
    ApiOnly,
    Header,
    Body,
    Any,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum V {
    S(&'static str),
    Set,
    Unset,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rend {
    Html,
    Tagged,
}

#[derive(Debug, PartialEq, Eq)]
pub struct Cfg {
    pub name: &'static str,
    pub attrs: &'static [(&'static str, V, Ctx)],
    pub primary: Option<&'static str>,
    pub handler: bool,
    pub sep: Option<char>,
    pub rend: Rend,
}

impl Cfg {
    pub const BASE: Cfg = Cfg {
        name: "base",
        attrs: &[],
        primary: None,
        handler: false,
        sep: None,
        rend: Rend::Html,
    };
}

pub struct Case {
    /// Documents parsed one after the other with the same parser.
    pub docs: Vec<String>,
    pub files: Vec<(String, String)>,
    pub cfg: &'static Cfg,
}

impl Case {
    /// `doc` { \x02 doc } { \x01 name \x01 content }
    pub fn decode(text: &str, cfg: &'static Cfg) -> Case {
        let mut parts = text.split('\u{1}');
        let docs = parts
            .next()
            .unwrap_or_default()
            .split('\u{2}')
            .map(str::to_owned)
            .collect();
        let rest: Vec<&str> = parts.collect();
        Case {
            docs,
            files: rest
                .chunks(2)
                .map(|c| (c[0].to_owned(), c.get(1).unwrap_or(&"").to_string()))
                .collect(),
            cfg,
        }
    }
}
