//! Whole documents and what is near them: every document that differs by one edit (or
//! two) of lines or characters, and all runs of their lines.

use crate::{engine::*, odoc::*, props::c};

/// Title, author, revision, entries, sections.
const ARTICLE: &str = r#"= Main {no}: Sub _title_
// comment
Ann B. Cee <ann@x.org>; Dora_E F
v1.2, 2020-01-02: First & only
:sectnums:
:idprefix: p_
:note: some *text* \
  and more
:!toc:

Preamble {author}, {revnumber} {note}.

== First {note}
:x: 1

Text with *bold* _it_.

[[sec2,Two]]
.Title
=== Second, _part_ & more

    literal
  text
See {x} +
next line.

[discrete]
== First some

[appendix#app,role=r]
== First {x}

=== In app
// c
last
"#;

/// Delimited blocks, metadata, paragraph styles, block macros.
const BLOCKS: &str = r#".Title *a*
[#id1.role1.role2%opt1,k=v]
====
In example.

[[q1,Quote]]
[quote,"Who, B",Where]
____
q1

.Lit
....
l <1>  
....

____
after
====

[source,ruby]
----
puts <x>

----

--
open
****
side
--
****

++++
<b>*raw*</b>
++++

////
comment
////

image::i/a b.png[Alt "x",10,20,link=http://l.m]

'''

[.y]
<<<

 literal
 para

[verse]
v1
 v2
|===
|a
"#;

/// Inline markup.
const INLINE: &str = r#":url: https://example.org/p?q=1&r=2

A *b _c `d #e# f` g_ h* "`quote`" '`s`' x^2^ H~2~O -- (C) ... it's <b> & &amp; &#167;
See https://a.org[*Site*^,role=ext], link:b c.html[d], and <https://e.f>. mail m@n.op mailto:q@r.st[T,S,B].
Pass +a *b*+ ++c _d_++ +++<u>e</u>+++ pass:q[*f*] `+h+` \*i* \{url} {url}[j] {nope}. =>
image:k.png[L m,10,title=n] icon:o[2x,role=red] [[p]]q anchor:r[s] [.u]#v# **w**x __y__z ->

[subs=+quotes]
----
*a* <b> {url}
----

[%hardbreaks]
l1
l2 +
l3
"#;

/// IDs and titles.
const IDS: &str = r#":sectnums:

== A b
p

== A b

[[k]]
=== A_b

[#k]
p

[[m,Ref *t*]]
.Title
p [[n,N]]x

:idseparator: -
:idprefix:

[.r]
== "A" b!

====
[[k]]
[discrete]
== A b
====

:!sectids:

=== C
"#;

/// Attributes and what uses them.
const ATTRS: &str = r#"= T
:a: 1
:imagesdir: i
:icons: font
:b: {a}{c}
:c: *x* +
 y

{a}{b}{c}|{A}\{a}

:a: 2
:!b:

[subs="attributes,{c}",id={a}]
{a}{b}{c} image:{a}.png[{c}]

:c!:
:icons:

[{a},b="{c}"]
--
{c}icon:a[]
:a: 3
--

:hardbreaks:
:a: {a}4 \

{a}
pass:a,q[*{a}*]
+{a}+
"#;

/// Includes.
const MAIN: &str = r#"= T
include::{a}1[]
:a: f

include::{a}1[leveloffset=1]
text
include::f2[]
\include::f3[]
----
include::f2[x="{a}"]
----
 include::f1[]
include::f1 []
include::no[opts=optional]

end
"#;
const FILES: &str = "\u{1}f1\u{1}:b: c\n\n== S {b}\n\ninclude::f2[]\nz\u{1}f2\u{1}k *l*\n----\nm\r\n";
const INCLUDER: &str = "= T\ninclude::a[]\ntext\n\ninclude::a[x]\nend\u{1}b\u{1}B1\n\nB2\u{1}a\u{1}";
const INCLUDED: &str = ":a: b\n// c\n\n== S {a}\n\ninclude::b[]\nz\n\n----\nx\n----\n";

/// Two documents.
const TWO: &str = "= T\nA B\n:sectnums:\n:x: y\n\np\n\n== S\n\n[[k]]\nq\n\u{2}= U\nv1\n\n{x}{author}\n\n== S\n\n[appendix]\n== A\n\n[[k]]\nr {revnumber}\n";

const LINES: &[&str] = &[
    "\n", "w\n", " w\n", "\tw\n", "// w\n", "= W\n", "== W\n", "=== W\n", "==== W\n", "# W\n", "----\n", "....\n", "====\n",
    "====== W\n", "____\n", "****\n", "--\n", "++++\n", "////\n", "|===\n", "```\n", "'''\n", "<<<\n", ".W\n", "..W\n", "[w]\n", "[]\n",
    "[[k]]\n", "[[w,W]]\n", "[#k]\n", "[.w%x]\n", "[appendix]\n", "[discrete]\n", "[literal]\n", "[quote]\n",
    "[subs=none]\n", "[%hardbreaks]\n", "[comment]\n", ":a: w\n", ":!a:\n", ":x: {a}\n", ":sectnums:\n", ":!sectnums:\n", ":!sectids:\n",
    ":w: \\\n", ":sectnumlevels: 1\n", "{a}\n", "*w\n", "w* +\n", "image::w[]\n", "w::[]\n", "A B <c@d>\n", "v2, w: w\n", "-----\n",
    "+w", "é\n", "w",
];

const FEW_LINES: &[&str] = &[
    "\n", "w\n", " w\n", "// w\n", "== W\n", "=== W\n", "----\n", "====\n", "--\n", ".W\n", "[w]\n", "[[k]]\n", "[discrete]\n",
    "[appendix]\n", "[subs=none]\n", ":a: w\n", "image::w[]\n", "+w",
];

const CHARS: &[&str] = &[
    "\n", "\n\n", " ", "\t", "\r", "a", "1", "_", "é", "🦀", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<",
    "=", ">", "?", "@", "[", "\\", "]", "^", "`", "{", "|", "}", "~", "**", "__", "++", "::", "[]", "{a}", "\u{a0}",
];

fn lines(t: &str) -> Vec<String> {
    let mut v: Vec<String> = t.split_inclusive('\n').map(str::to_owned).collect();
    // So that something can be at the end, too.
    v.push(String::new());
    v
}

fn chars(t: &str) -> Vec<String> {
    t.chars().map(String::from).chain([String::new()]).collect()
}

/// All runs of lines.
fn runs(t: &str) -> Vec<String> {
    let l: Vec<&str> = t.split_inclusive('\n').collect();
    (0..l.len()).flat_map(|a| (a + 1..=l.len()).map(move |e| (a, e))).map(|(a, e)| l[a..e].concat()).collect()
}

pub fn spaces(p: &Prop, th: bool) -> Vec<Space> {
    if p.mask == 0 {
        return vec![];
    }
    let docs = [ARTICLE, BLOCKS, INLINE, IDS, ATTRS];
    let all = |f: fn(&str) -> Vec<String>| docs.iter().map(|d| f(d)).collect::<Vec<_>>();
    let (base, inc) = (c(&["doc"]), c(&["docinc"]));
    // C27 speaks of custom renderers.
    let base = if p.id == "C27" { c(&["doctag"]) } else { base };
    let is = |ids: &[&str]| ids.contains(&p.id);
    let speaks_of_all = is(&["C01", "C02", "C03", "C24", "C27", "C29", "C30"]);
    let mut out = vec![
        Space::edits("documents: lines", all(lines), LINES, 1).cfg(&base),
        Space::slots("documents: runs of lines", vec![docs.iter().flat_map(|d| runs(d)).collect()]).cfg(&base),
        Space::edits("including document: lines", vec![lines(MAIN)], LINES, 1).wrap(&[("", FILES)]).cfg(&inc),
        Space::edits("included document: lines", vec![lines(INCLUDED)], LINES, 1).wrap(&[(INCLUDER, "")]).cfg(&inc),
        Space::edits("two documents: lines", vec![lines(TWO)], LINES, 1).cfg(&base),
    ];
    // Which documents have most of what the property speaks of.
    let mut near: Vec<&str> = vec![];
    if speaks_of_all {
        near.extend(docs);
    } else {
        if is(&["C07", "C08", "C10", "C11", "C12", "C13", "C14", "C33"]) {
            near.push(ARTICLE);
        }
        if is(&["C04", "C05", "C06", "C17", "C31"]) {
            near.push(BLOCKS);
        }
        if p.mask & TEXT != 0 && !is(&["C04", "C05", "C10", "C11", "C12", "C13", "C15"]) {
            near.push(INLINE);
        }
        if is(&["C06", "C07", "C08", "C09", "C22", "C33"]) {
            near.push(IDS);
        }
        if is(&["C13", "C14", "C17", "C20", "C23", "C25", "C26"]) {
            near.push(ATTRS);
        }
    }
    if !near.is_empty() {
        let texts: Vec<_> = near.iter().map(|d| chars(d)).collect();
        out.push(Space::edits("documents: characters", texts, CHARS, 1).cfg(&base));
    }
    if speaks_of_all || is(&["C15", "C16"]) {
        out.push(Space::edits("including document: characters", vec![chars(MAIN)], CHARS, 1).wrap(&[("", FILES)]).cfg(&inc));
        out.push(Space::edits("included document: characters", vec![chars(INCLUDED)], CHARS, 1).wrap(&[(INCLUDER, "")]).cfg(&inc));
    }
    if th {
        out.push(Space::edits("documents: two lines", all(lines), FEW_LINES, 2).cfg(&base));
        out.push(Space::edits("including document: two lines", vec![lines(MAIN)], FEW_LINES, 2).wrap(&[("", FILES)]).cfg(&inc));
        out.push(Space::edits("two documents: two lines", vec![lines(TWO)], FEW_LINES, 2).cfg(&base));
    }
    out
}
