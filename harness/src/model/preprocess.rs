//! Include directives.

use std::rc::Rc;

use super::{World, attrlist, header, lines::Reg, subs};
use crate::{case::Case, engine::step, obs::show_attrlist, odoc::*};

pub struct Pre {
    pub text: String,
    /// (line of the text, file, line of that)
    pub map: Vec<(usize, Option<Rc<str>>, usize)>,
    pub calls: Vec<String>,
}

const MAX_DEPTH: usize = 64;

struct State<'a> {
    case: &'a Case,
    w: World,
    header: bool,
    entries: bool,
    depth: usize,
    line: usize,
    out: Pre,
}

pub fn run(case: &Case, t: &str, w: &World) -> Pre {
    let wanted = t
        .split('\n')
        .any(|l| ["include::", "\\include::", "if"].iter().any(|p| l.starts_with(p)));
    if !wanted && case.cfg.primary.is_none() {
        return Pre {
            text: t.to_owned(),
            map: vec![],
            calls: vec![],
        };
    }
    let mut s = State {
        case,
        w: w.clone(),
        header: true,
        entries: true,
        depth: 0,
        line: 1,
        out: Pre {
            text: String::new(),
            map: vec![],
            calls: vec![],
        },
    };
    s.file(t, case.cfg.primary.map(Rc::from));
    s.out
}

/// Target and attribute list of an include directive.
fn directive(l: &str) -> Option<(&str, Option<&str>)> {
    let r = l.strip_prefix("include::")?.strip_suffix(']')?;
    let (target, list) = r.split_once('[')?;
    let space = |c: char| c.is_whitespace();
    if target.is_empty() || target.starts_with(space) || target.ends_with(space) {
        return None;
    }
    if list.starts_with(']') {
        return None;
    }
    Some((target, Some(list).filter(|l| !l.is_empty())))
}

impl State<'_> {
    fn emit(&mut self, reported: &mut bool, file: &Option<Rc<str>>, n: usize, s: &str) {
        if !*reported {
            *reported = true;
            self.out.map.push((self.line, file.clone(), n));
        }
        self.out.text.push_str(s);
        self.out.text.push('\n');
        self.line += 1 + s.matches('\n').count();
    }

    fn file(&mut self, t: &str, file: Option<Rc<str>>) {
        self.depth += 1;
        let mut reported = file.is_none();
        let mut n = 1;
        let mut r = Reg {
            t,
            a: 0,
            e: t.len(),
        };
        while !r.is_empty() {
            step();
            let l = r.line();
            let line = r.norm().s;
            let mut next = l.next;
            if self.entries
                && l.s.starts_with(':')
                && let Some((a, e)) = header::entry(r, &self.w)
            {
                let _ = self.w.env.assign(&a.name, a.value, self.header);
                // The blank lines that end a continued value are not part of the entry.
                let entry = &t[a.span.off..a.span.off + a.span.len];
                let lines = |s: &str| s.matches('\n').count();
                let blank = lines(&t[r.a..e]).saturating_sub(lines(entry) + 1);
                self.emit(&mut reported, &file, n, &(entry.to_string() + &"\n".repeat(blank)));
                next = e;
            } else if let Some((target, list)) = directive(line) {
                let target = subs::attributes(&self.w, target);
                match self.resolve(&file, &target, list) {
                    Some(text) => {
                        self.file(&text, Some(Rc::from(target)));
                        reported = false;
                    }
                    None => {
                        let s = format!(
                            "Unresolved directive in {} - {}",
                            file.as_deref().unwrap_or("(root file)"),
                            l.s
                        );
                        self.emit(&mut reported, &file, n, &s);
                    }
                }
            } else {
                if line.is_empty() {
                    self.header = false;
                    self.entries = true;
                } else if !self.header {
                    self.entries = false;
                }
                let escaped = line.strip_prefix('\\').and_then(directive).is_some();
                self.emit(&mut reported, &file, n, &l.s[usize::from(escaped)..]);
            }
            n += t[r.a..next].matches('\n').count();
            r.a = next;
        }
        self.depth -= 1;
    }

    fn resolve(&mut self, file: &Option<Rc<str>>, target: &str, list: Option<&str>) -> Option<String> {
        if !self.case.cfg.handler || self.depth > MAX_DEPTH {
            return None;
        }
        let a = list.map_or(OAttrlist::default(), |l| attrlist::parse(&self.w, l, attrlist::At::Macro).0);
        self.out.calls.push(format!(
            "{:?} {target:?} [{}] x={:?}",
            file.as_deref(),
            show_attrlist(&a),
            self.w.env.value("x")
        ));
        let f = self.case.files.iter().find(|f| f.0 == target)?;
        Some(f.1.clone())
    }
}
