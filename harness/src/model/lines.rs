//! Lines and regions of the preprocessed text.

use crate::odoc::{OSpan, at};

/// The part of the text in which something is looked for, from `a` up to `e`.
#[derive(Clone, Copy, Debug)]
pub struct Reg<'t> {
    pub t: &'t str,
    pub a: usize,
    pub e: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct Line<'t> {
    pub at: usize,
    pub s: &'t str,
    /// Where the next line starts.
    pub next: usize,
}

impl<'t> Reg<'t> {
    pub fn s(&self) -> &'t str {
        &self.t[self.a..self.e]
    }

    pub fn from(&self, a: usize) -> Reg<'t> {
        Reg { a, ..*self }
    }

    pub fn is_empty(&self) -> bool {
        self.a >= self.e
    }

    /// The first line without its line end.
    pub fn line(&self) -> Line<'t> {
        crate::engine::step();
        let s = self.s();
        let n = s.find('\n');
        let l = &s[..n.unwrap_or(s.len())];
        Line {
            at: self.a,
            s: l.strip_suffix('\r').unwrap_or(l),
            next: n.map_or(self.e, |n| self.a + n + 1),
        }
    }

    /// The first line without its line end and the spaces before it.
    pub fn norm(&self) -> Line<'t> {
        let l = self.line();
        Line {
            s: l.s.trim_end_matches(' '),
            ..l
        }
    }

    /// Without the blank lines that it starts with.
    pub fn past_blank(mut self) -> Reg<'t> {
        while !self.is_empty() {
            let l = self.line();
            if !l.s.chars().all(|c| c == ' ' || c == '\t') {
                break;
            }
            self.a = l.next;
        }
        self
    }
}

impl Line<'_> {
    pub fn end(&self) -> usize {
        self.at + self.s.len()
    }
}

pub fn span(t: &str, a: usize, e: usize) -> OSpan {
    let e = e.max(a);
    let (line, col) = at(t, a);
    OSpan {
        off: a,
        len: e - a,
        line,
        col,
    }
}

/// `a..e` without white space at the end.
pub fn trimmed(t: &str, a: usize, e: usize) -> OSpan {
    let e = e.max(a);
    span(t, a, a + t[a..e].trim_end().len())
}
