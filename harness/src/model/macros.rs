//! Inline macros: images, icons, links, e-mail addresses, and anchors.

use std::{path::Path, sync::LazyLock};

use regex::{Captures, Regex};

use super::{World, attrlist, path};
use super::attrlist::At;
use crate::{engine::step, odoc::OAttrlist};

macro_rules! rx {
    ($name:ident, $re:expr) => {
        static $name: LazyLock<Regex> = LazyLock::new(|| Regex::new($re).unwrap());
    };
}

rx!(
    IMAGE,
    r"(?s)\\?(image|icon):(?P<target>[^:\s\[](?:[^\[\n]*?[^\s\[])?)\[(?P<attrs>|.*?[^\\])\]"
);
rx!(
    LINK,
    concat!(
        r#"(?ms)(?P<prefix>^|link:|[ \t]|\\?&lt;|[>()\[\];"'])"#,
        r"(?P<scheme>\\?(?:https?|file|ftp|irc)://)",
        r"(?:(?P<target>[^\s\[\]]+)\[(?P<attrs>|.*?[^\\])\]",
        r"|(?P<enclosed>\S+?)&gt;",
        r"|(?P<bare>[^\s\[\]<]*[^\s,.?!\[\]<)]))",
    )
);
rx!(
    LINK_MACRO,
    r"(?s)\\?(?:link|(?P<mailto>mailto)):(?P<target>[^:\s\[][^\s\[]*)\[(?P<text>|.*?[^\\])\]"
);
rx!(
    EMAIL,
    r"(?P<prefix>[\\>:/]?)(?P<address>\w(?:&amp;|[\w\-.%+])*@[\p{L}\p{Nd}][\p{L}\p{Nd}_\-.]*\.[a-zA-Z]{2,5})\b"
);
rx!(
    ANCHOR,
    concat!(
        r"(?P<esc>\\)?(?:",
        r"\[\[(?P<id>[\p{Alphabetic}_:][\p{Alphabetic}\p{Nd}_\-:.]*)(?:,\s*(?P<text>.+?))?\]\]",
        r"|anchor:(?P<id2>[\p{Alphabetic}_:][\p{Alphabetic}\p{Nd}_\-:.]*)\[(?:\]|(?P<text2>.*?[^\\])\]))",
    )
);

/// Replaces every match; `f` gives back nothing where the source stays as it is.
fn each(re: &Regex, t: &str, mut f: impl FnMut(&Captures<'_>, &mut String)) -> String {
    let mut o = String::new();
    let mut from = 0;
    for c in re.captures_iter(t) {
        step();
        let m = c.get(0).expect("match");
        o.push_str(&t[from..m.start()]);
        f(&c, &mut o);
        from = m.end();
    }
    o.push_str(&t[from..]);
    o
}

pub fn apply(w: &World, t: String) -> String {
    // What a step looks for has to be there before the first of them.
    let has = |x: &str| t.contains(x);
    let macroish = has("[") && has(":");
    let todo = [
        macroish && (has("image:") || has("icon:")),
        has("://"),
        macroish && (has("link:") || has("ilto:")),
        has("@"),
        has("[[") || (macroish && has("or:")),
    ];
    let steps: [fn(&World, &str) -> String; 5] = [images, urls, links, addresses, anchors];
    let mut t = t;
    for (on, f) in todo.into_iter().zip(steps) {
        if on {
            t = f(w, &t);
        }
    }
    t
}

fn one_line(s: &str) -> String {
    s.replace('\n', " ").replace("\\]", "]")
}

fn images(w: &World, t: &str) -> String {
    each(&IMAGE, t, |c, o| {
        if let Some(plain) = c[0].strip_prefix('\\') {
            o.push_str(plain);
            return;
        }
        let target = &c["target"];
        let a = attrlist::parse(w, &one_line(&c["attrs"]), At::Macro).0;
        let spaced = target.replace(['_', '-'], " ");
        let stem = Path::new(&spaced)
            .file_stem()
            .map_or(String::new(), |s| s.to_string_lossy().into_owned());
        if &c[1] == "image" {
            let alt = attrlist::named_or_nth(&a, "alt", 1).map_or(stem, one_line);
            w.image(target, &alt, &a, o);
        } else {
            let alt = attrlist::named(&a, "alt").map_or(stem, one_line);
            w.icon(target, &alt, &a, o);
        }
    })
}

fn shown(w: &World, target: &str) -> String {
    if w.env.is_set("hide-uri-scheme")
        && let Some(n) = path::scheme(target)
    {
        target[n..].to_owned()
    } else {
        target.to_owned()
    }
}

/// The first positional attribute is the text.
fn text_of(a: &OAttrlist) -> String {
    attrlist::nth(a, 1).map_or(String::new(), |e| e.value.clone())
}

fn urls(w: &World, t: &str) -> String {
    let none = OAttrlist::default();
    each(&LINK, t, |c, o| {
        let prefix = &c["prefix"];
        let scheme = &c["scheme"];
        let attrs = c.name("attrs").map(|m| m.as_str());
        let verbatim = &c[0];
        let angle = prefix.ends_with("&lt;") && attrs.is_none();
        if angle && let Some(plain) = prefix.strip_prefix('\\') {
            o.push_str(plain);
            o.push_str(&verbatim[prefix.len()..]);
            return;
        }
        if scheme.starts_with('\\') {
            o.push_str(prefix);
            o.push_str(&verbatim[prefix.len() + 1..]);
            return;
        }
        if angle {
            match c.name("enclosed") {
                Some(e) => {
                    let target = format!("{scheme}{}", e.as_str());
                    w.link(&target, &shown(w, &target), true, false, &none, o);
                }
                None => o.push_str(verbatim),
            }
            return;
        }
        if let Some(text) = attrs {
            // A macro.
            let target = format!("{scheme}{}", &c["target"]);
            if prefix != "link:" {
                o.push_str(prefix);
            }
            let mut a = OAttrlist::default();
            let mut text = text.replace("\\]", "]");
            if text.contains('=') {
                a = attrlist::parse(w, &one_line(attrs.expect("attrs")), At::Macro).0;
                text = text_of(&a).replace("\\\"", "\"");
            }
            let blank = text.ends_with('^');
            if blank {
                text.pop();
            }
            let bare = text.is_empty();
            if bare {
                text = shown(w, &target);
            }
            w.link(&target, &text, bare, blank, &a, o);
            return;
        }
        // A bare URL.
        if matches!(prefix, "link:" | "\"" | "'") {
            o.push_str(verbatim);
            return;
        }
        let (mut path, mut suffix) = match c.name("enclosed") {
            Some(e) => {
                // It happens to be followed by >.
                let e = e.as_str();
                let end = e.find(['[', ']', '<']).unwrap_or(e.len());
                let n = e[..end].trim_end_matches([',', '.', '?', '!', ')']).len();
                if n == 0 {
                    o.push_str(verbatim);
                    return;
                }
                (&e[..n], format!("{}&gt;", &e[n..]))
            }
            None => (&c["bare"], String::new()),
        };
        for tail in [";", ":"] {
            if let Some(p) = path.strip_suffix(tail) {
                path = p;
                suffix.insert_str(0, tail);
                if let Some(p) = path.strip_suffix(')') {
                    path = p;
                    suffix.insert(0, ')');
                }
                break;
            }
        }
        if path.is_empty() {
            o.push_str(verbatim);
            return;
        }
        let target = format!("{scheme}{path}");
        o.push_str(prefix);
        w.link(&target, &shown(w, &target), true, false, &none, o);
        o.push_str(&suffix);
    })
}

/// Percent-encodes all but unreserved characters.
fn encoded(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b"*_.-~".contains(&b) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

fn links(w: &World, t: &str) -> String {
    each(&LINK_MACRO, t, |c, o| {
        if let Some(plain) = c[0].strip_prefix('\\') {
            o.push_str(plain);
            return;
        }
        let mail = c.name("mailto").is_some();
        let address = &c["target"];
        let mut target = if mail {
            format!("mailto:{address}")
        } else {
            address.to_owned()
        };
        let mut a = OAttrlist::default();
        let raw = &c["text"];
        let mut text = raw.replace("\\]", "]");
        if text.contains(if mail { ',' } else { '=' }) {
            a = attrlist::parse(w, &one_line(raw), At::Macro).0;
            text = text_of(&a);
            if mail && let Some(s) = attrlist::nth(&a, 2) {
                target += &format!("?subject={}", encoded(&s.value));
                if let Some(b) = attrlist::nth(&a, 3) {
                    target += &format!("&amp;body={}", encoded(&b.value));
                }
            }
        }
        let blank = text.ends_with('^');
        if blank {
            text.pop();
        }
        let mut bare = false;
        if text.is_empty() {
            bare = !mail;
            text = if mail {
                address.to_owned()
            } else {
                let s = shown(w, &target);
                if s.is_empty() { target.clone() } else { s }
            };
        }
        w.link(&target, &text, bare, blank, &a, o);
    })
}

fn addresses(w: &World, t: &str) -> String {
    each(&EMAIL, t, |c, o| match &c["prefix"] {
        "" => w.link(
            &format!("mailto:{}", &c["address"]),
            &c["address"],
            false,
            false,
            &OAttrlist::default(),
            o,
        ),
        "\\" => o.push_str(&c["address"]),
        _ => o.push_str(&c[0]),
    })
}

fn anchors(w: &World, t: &str) -> String {
    each(&ANCHOR, t, |c, o| {
        if c.name("esc").is_some() {
            o.push_str(&c[0][1..]);
            return;
        }
        match c.name("id") {
            Some(id) => w.anchor(id.as_str(), c.name("text").map(|t| t.as_str()), o),
            None => {
                let text = c.name("text2").map(|t| t.as_str().replace("\\]", "]"));
                w.anchor(&c["id2"], text.as_deref(), o);
            }
        }
    })
}
