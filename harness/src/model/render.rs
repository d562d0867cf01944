//! What the renderers produce: HTML as documented, or the tagged form.

use super::{World, attrlist::*, path};
use crate::{
    case::Rend,
    obs::{show_attrlist, tag},
    odoc::OAttrlist,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Q {
    Strong,
    Double,
    Single,
    Mono,
    Em,
    Mark,
    Sup,
    Sub,
    Unquoted,
}

const NONE: &str = "\u{e003}";

impl World {
    fn tagged(&self) -> bool {
        self.rend == Rend::Tagged
    }

    pub fn special(&self, c: char, o: &mut String) {
        let (t, h) = match c {
            '<' => ("\u{e010}", "&lt;"),
            '>' => ("\u{e011}", "&gt;"),
            _ => ("\u{e012}", "&amp;"),
        };
        if self.tagged() {
            tag(o, t, &[])
        } else {
            o.push_str(h)
        }
    }

    pub fn quoted(
        &self,
        q: Q,
        constrained: bool,
        a: Option<&OAttrlist>,
        body: &str,
        o: &mut String,
    ) {
        let id = a.and_then(|a| a.id.clone());
        if self.tagged() {
            let n = match q {
                Q::Strong => "\u{e020}",
                Q::Double => "\u{e021}",
                Q::Single => "\u{e022}",
                Q::Mono => "\u{e023}",
                Q::Em => "\u{e024}",
                Q::Mark => "\u{e025}",
                Q::Sup => "\u{e026}",
                Q::Sub => "\u{e027}",
                Q::Unquoted => "\u{e028}",
            };
            let a = a.map(show_attrlist);
            tag(
                o,
                n,
                &[
                    if constrained { "\u{e030}" } else { "\u{e031}" },
                    a.as_deref().unwrap_or(NONE),
                    id.as_deref().unwrap_or(NONE),
                    body,
                ],
            );
            return;
        }
        let mut roles: Vec<String> = vec![];
        if let Some(a) = a {
            roles.extend(a.style.clone());
            roles.extend(a.roles.iter().cloned());
        }
        let plain = roles.is_empty() && id.is_none();
        let (before, after) = match q {
            Q::Double => ("&#8220;", "&#8221;"),
            Q::Single => ("&#8216;", "&#8217;"),
            _ => ("", ""),
        };
        let body = format!("{before}{body}{after}");
        let name = match q {
            Q::Unquoted | Q::Double | Q::Single if plain => {
                *o += &body;
                return;
            }
            Q::Mark if plain => "mark",
            Q::Mark | Q::Unquoted | Q::Double | Q::Single => "span",
            Q::Strong => "strong",
            Q::Mono => "code",
            Q::Em => "em",
            Q::Sup => "sup",
            Q::Sub => "sub",
        };
        *o += &format!("<{name}");
        if let Some(id) = id {
            *o += &format!(" id=\"{id}\"");
        }
        if !roles.is_empty() {
            *o += &format!(" class=\"{}\"", roles.join(" "));
        }
        *o += &format!(">{body}</{name}>");
    }

    /// `which`: index in the table of replacements; `name`: character reference.
    pub fn replacement(&self, which: R, name: &str, o: &mut String) {
        let (t, h) = match which {
            R::Copyright => ("\u{e040}", "&#169;"),
            R::Registered => ("\u{e041}", "&#174;"),
            R::Trademark => ("\u{e042}", "&#8482;"),
            R::SpacedDash => ("\u{e043}", "&#8201;&#8212;&#8201;"),
            R::Dash => ("\u{e044}", "&#8212;&#8203;"),
            R::Ellipsis => ("\u{e045}", "&#8230;&#8203;"),
            R::Right => ("\u{e046}", "&#8594;"),
            R::RightDouble => ("\u{e047}", "&#8658;"),
            R::Left => ("\u{e048}", "&#8592;"),
            R::LeftDouble => ("\u{e049}", "&#8656;"),
            R::Apostrophe => ("\u{e04a}", "&#8217;"),
            R::Reference => {
                if self.tagged() {
                    tag(o, "\u{e04b}", &[name])
                } else {
                    *o += &format!("&{name};")
                }
                return;
            }
        };
        if self.tagged() {
            tag(o, t, &[])
        } else {
            o.push_str(h)
        }
    }

    pub fn line_break(&self, o: &mut String) {
        if self.tagged() {
            tag(o, "\u{e050}", &[])
        } else {
            o.push_str("<br>")
        }
    }

    fn uri(&self, target: &str, dir: &str) -> String {
        if path::is_uri(target) {
            return target.replace(' ', "%20");
        }
        let dir = self.env.text(dir).filter(|d| !d.is_empty());
        path::web_path(target, dir.as_deref(), self.sep)
    }

    pub fn image(&self, target: &str, alt: &str, a: &OAttrlist, o: &mut String) {
        let (width, height) = (named_or_nth(a, "width", 2), named_or_nth(a, "height", 3));
        if self.tagged() {
            tag(
                o,
                "\u{e051}",
                &[
                    target,
                    alt,
                    width.unwrap_or(NONE),
                    height.unwrap_or(NONE),
                    &show_attrlist(a),
                ],
            );
            return;
        }
        let src = self.uri(target, "imagesdir");
        let mut img = format!("<img src=\"{src}\" alt=\"{}\"", quot(alt));
        if let Some(x) = width {
            img += &format!(" width=\"{x}\"");
        }
        if let Some(x) = height {
            img += &format!(" height=\"{x}\"");
        }
        if let Some(x) = named(a, "title") {
            img += &format!(" title=\"{}\"", quot(x));
        }
        img += ">";
        self.framed(a, &img, &src, "image", o);
    }

    pub fn icon(&self, target: &str, alt: &str, a: &OAttrlist, o: &mut String) {
        let size = named_or_nth(a, "size", 1);
        if self.tagged() {
            tag(
                o,
                "\u{e052}",
                &[target, alt, size.unwrap_or(NONE), &show_attrlist(a)],
            );
            return;
        }
        let ty = self.env.text("icontype").unwrap_or("png".to_owned());
        let src = self.uri(&format!("{target}.{ty}"), "iconsdir");
        let attr = |n: &str| {
            named(a, n).map_or(String::new(), |v| format!(" {n}=\"{v}\""))
        };
        let title = match named(a, "title") {
            Some(t) => format!(" title=\"{}\"", quot(t)),
            None => String::new(),
        };
        let img = if !self.env.is_set("icons") {
            format!("[{alt}&#93;")
        } else if self.env.text("icons").as_deref() == Some("font") {
            let mut class = format!("fa fa-{target}");
            if let Some(s) = size {
                class += &format!(" fa-{s}");
            }
            if let Some(f) = named(a, "flip") {
                class += &format!(" fa-flip-{f}");
            } else if let Some(r) = named(a, "rotate") {
                class += &format!(" fa-rotate-{r}");
            }
            format!("<i class=\"{class}\"{}></i>", title)
        } else {
            format!(
                "<img src=\"{src}\" alt=\"{}\"{}{}{}>",
                quot(alt),
                attr("width"),
                attr("height"),
                title
            )
        };
        self.framed(a, &img, &src, "icon", o);
    }

    fn framed(&self, a: &OAttrlist, img: &str, src: &str, class: &str, o: &mut String) {
        let mut roles = vec![class];
        roles.extend(named(a, "float"));
        roles.extend(a.roles.iter().map(String::as_str));
        *o += &format!("<span class=\"{}\">", roles.join(" "));
        match named(a, "link") {
            Some(l) => {
                let l = if l == "self" { src } else { l };
                *o += &format!(
                    "<a class=\"image\" href=\"{l}\"{}>{img}</a>",
                    constraints(a, None)
                );
            }
            None => *o += img,
        }
        *o += "</span>";
    }

    pub fn link(
        &self,
        target: &str,
        text: &str,
        bare: bool,
        blank: bool,
        a: &OAttrlist,
        o: &mut String,
    ) {
        let window = blank.then_some("_blank");
        if self.tagged() {
            tag(
                o,
                "\u{e053}",
                &[
                    target,
                    text,
                    if bare { "bare" } else { "" },
                    window.unwrap_or(NONE),
                    &show_attrlist(a),
                ],
            );
            return;
        }
        let mut roles = vec![];
        if bare {
            roles.push("bare");
        }
        roles.extend(a.roles.iter().map(String::as_str));
        *o += &format!("<a href=\"{target}\"");
        if let Some(id) = &a.id {
            *o += &format!(" id=\"{id}\"");
        }
        if !roles.is_empty() {
            *o += &format!(" class=\"{}\"", roles.join(" "));
        }
        *o += &format!("{}>{text}</a>", constraints(a, window));
    }

    pub fn anchor(&self, id: &str, text: Option<&str>, o: &mut String) {
        if self.tagged() {
            tag(o, "\u{e054}", &[id, text.unwrap_or(NONE)])
        } else {
            *o += &format!("<a id=\"{id}\"></a>")
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum R {
    Copyright,
    Registered,
    Trademark,
    SpacedDash,
    Dash,
    Ellipsis,
    Apostrophe,
    Right,
    RightDouble,
    Left,
    LeftDouble,
    Reference,
}

fn quot(s: &str) -> String {
    s.replace('"', "&quot;")
}

/// `target` and `rel` of a link.
fn constraints(a: &OAttrlist, window: Option<&str>) -> String {
    let window = named(a, "window").or(window);
    let mut rel = vec![];
    if has_option(a, "nofollow") {
        rel.push("nofollow");
    }
    if let Some(w) = window
        && (w == "_blank" || has_option(a, "noopener"))
    {
        rel.push("noopener");
    }
    let mut o = String::new();
    if let Some(w) = window {
        o += &format!(" target=\"{w}\"");
    }
    if !rel.is_empty() {
        o += &format!(" rel=\"{}\"", rel.join(" "));
    }
    o
}
