//! Attribute lists.

use super::{Group, World, subs};
use crate::{engine::step, odoc::*};

const DELIMS: [char; 3] = ['#', '.', '%'];

/// The shorthand items of a first positional attribute, and how many markers had
/// nothing after them.
fn shorthand(v: &str) -> (Vec<String>, usize) {
    let mut items = vec![];
    let mut empty = 0;
    let head_end = v.find(DELIMS).unwrap_or(v.len());
    let head = v[..head_end].trim_start_matches([' ', '\t']).trim_end();
    if !head.is_empty() {
        items.push(head.to_owned());
    }
    let mut rest = &v[head_end..];
    while !rest.is_empty() {
        let end = rest[1..].find(DELIMS).map_or(rest.len(), |i| i + 1);
        let item = &rest[..end];
        if item.len() == 1 {
            empty += 1;
        } else {
            items.push(item.trim_end().to_owned());
        }
        rest = &rest[end..];
    }
    (items, empty)
}

fn element(name: Option<String>, value: String, items: Vec<String>) -> OElemAttr {
    let with = |m: char| {
        items
            .iter()
            .filter_map(move |i| i.strip_prefix(m))
            .map(str::to_owned)
            .collect::<Vec<_>>()
    };
    let roles = with('.');
    let options = with('%');
    let id = with('#').into_iter().next();
    let style = items.first().filter(|i| !i.contains(DELIMS)).cloned();
    OElemAttr {
        name,
        value,
        style,
        id,
        roles,
        options,
        items,
    }
}

fn skip<'a>(s: &'a str, set: &[char]) -> &'a str {
    s.trim_start_matches(set)
}

/// Offset of the quote that ends a string that starts with `q`.
fn closing(s: &str, q: char) -> Option<usize> {
    let mut prev = '\0';
    for (i, c) in s.char_indices().skip(1) {
        if c == q && prev != '\\' {
            return Some(i);
        }
        prev = c;
    }
    None
}

/// Where an attribute list stands.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum At {
    Block,
    Text,
    Macro,
}

pub fn parse(w: &World, source: &str, at: At) -> (OAttrlist, Vec<&'static str>) {
    step();
    let text = if source.contains('{') && source.contains('}') {
        subs::attributes(w, source)
    } else {
        source.to_owned()
    };
    let mut warnings = vec![];
    if at != At::Macro && text.len() >= 2 && text.starts_with('[') && text.ends_with(']') {
        let id = text[1..text.len() - 1].to_owned();
        return (
            OAttrlist {
                anchor: Some(id.clone()),
                id: Some(id),
                ..Default::default()
            },
            warnings,
        );
    }
    const WS: [char; 2] = [' ', '\t'];
    const WSN: [char; 3] = [' ', '\t', '\n'];
    let mut attrs: Vec<OElemAttr> = vec![];
    let mut rest = text.as_str();
    let mut may_be_shorthand = true;
    loop {
        step();
        // name =
        let n = rest
            .find(|c: char| !(c.is_alphanumeric() || c == '-' || c == '_'))
            .unwrap_or(rest.len());
        let mut name = None;
        let mut v = rest;
        if n > 0 && !rest.starts_with(['-', '_'])
            && let Some(after) = skip(&rest[n..], &WSN).strip_prefix('=')
        {
            let after = skip(after, &WSN);
            if !(after.is_empty() || after.starts_with(',')) {
                name = Some(rest[..n].to_owned());
                v = after;
            }
        }
        let v = skip(v, &WSN);
        // value
        let quote = v.chars().next().filter(|c| *c == '"' || *c == '\'');
        let closed = quote.and_then(|q| closing(v, q));
        let (mut value, after) = match closed {
            Some(e) => (v[1..e].to_owned(), &v[e + 1..]),
            None => {
                let e = v.find(',').unwrap_or(v.len());
                let item = v[..e].trim_end_matches(WS);
                (item.to_owned(), &v[e..])
            }
        };
        if quote.is_some() && closed.is_none() {
            warnings.push("WarningType::AttributeValueMissingTerminatingQuote");
        }
        if let (Some(q), Some(_)) = (quote, closed) {
            let literal = value.starts_with("\\'");
            value = value.replace(&format!("\\{q}"), &q.to_string());
            if q == '\'' && at == At::Block && !literal {
                value = subs::apply(w, &Group::Normal, &value, None);
            }
        }
        // Macros know no shorthand.
        let plain = at == At::Macro && value.contains(DELIMS);
        let items = if name.is_none() && may_be_shorthand && closed.is_none() && !plain {
            let (i, e) = shorthand(&value);
            warnings.extend(vec!["WarningType::EmptyShorthandItem"; e]);
            i
        } else {
            vec![]
        };
        if name.is_none() {
            may_be_shorthand = false;
        }
        if name.is_none() && value.is_empty() && after.is_empty() && attrs.is_empty() {
            if !rest.is_empty() {
                warnings.push("WarningType::MissingCommaAfterQuotedAttributeValue");
            }
            break;
        }
        if name.is_none() || value != "None" {
            attrs.push(element(name, value, items));
        }
        let after = skip(after, &WS);
        let Some(next) = after.strip_prefix(',') else {
            if !after.is_empty() {
                warnings.push("WarningType::MissingCommaAfterQuotedAttributeValue");
            }
            break;
        };
        rest = skip(next, &WS);
        if let Some(r) = rest.strip_prefix(',') {
            warnings.push("WarningType::EmptyAttributeValue");
            rest = r;
        }
    }
    (finish(attrs), warnings)
}

fn finish(attrs: Vec<OElemAttr>) -> OAttrlist {
    let mut a = OAttrlist {
        attrs,
        ..Default::default()
    };
    if let Some(f) = nth(&a, 1).cloned() {
        a.id = f.id;
        a.roles = f.roles;
        a.options = f.options;
        a.style = f.style;
    }
    if a.id.is_none() {
        a.id = named(&a, "id").map(str::to_owned);
    }
    let add = |name: &str, sep: char| -> Vec<String> {
        named(&a, name)
            .unwrap_or_default()
            .split(sep)
            .filter(|s| !s.is_empty())
            .map(str::to_owned)
            .collect()
    };
    let (r, o1, o2) = (add("role", ' '), add("opts", ','), add("options", ','));
    a.roles.extend(r);
    a.options.extend(o1);
    a.options.extend(o2);
    a
}

pub fn named<'a>(a: &'a OAttrlist, name: &str) -> Option<&'a str> {
    a.attrs
        .iter()
        .find(|e| e.name.as_deref() == Some(name))
        .map(|e| e.value.as_str())
}

/// The nth positional attribute, from 1.
pub fn nth(a: &OAttrlist, n: usize) -> Option<&OElemAttr> {
    a.attrs.iter().filter(|e| e.name.is_none()).nth(n - 1)
}

pub fn named_or_nth<'a>(a: &'a OAttrlist, name: &str, n: usize) -> Option<&'a str> {
    named(a, name).or_else(|| nth(a, n).map(|e| e.value.as_str()))
}

pub fn has_option(a: &OAttrlist, o: &str) -> bool {
    a.options.iter().any(|x| x == o)
}
