//! Properties that relate documents to one another: comment lines leave no
//! trace, blocks are independent of their surroundings, and inline text means
//! the same wherever it stands.
use crate::p_block::{B, fill, plain};
use crate::skel::Skel;
use crate::tpl::LINE;
use crate::{Harness, api};
use asciidoc_parser::blocks::{Block, IsBlock, SectionType, SimpleBlockStyle};
use asciidoc_parser::document::InterpretedValue;
use asciidoc_parser::parser::ModificationContext;
use asciidoc_parser::{Document, Parser};

const fn b(t: &'static str) -> B {
    B(t, &[], &[])
}
const fn x(t: &'static str, a: &'static [&'static [u8]]) -> B {
    B(t, a, &[])
}
const fn l(t: &'static str, s: &'static [&'static [&'static str]]) -> B {
    B(t, &[], s)
}

// --------------------------------------------------------------- comments
/// `¦` marks the places where a comment line may be inserted
fn comments(t: &[B], job: usize) {
    let src = fill(&t[job]);
    let one = src.replace('¦', "");
    if !plain(&one) {
        return;
    }
    let n = src.matches('¦').count();
    let k = api::pick(n);
    let c = ["//\n", "// *c* [[x]] {a}\n", "// b +\n", "//\n// \\\n//\n", ""][api::pick(5)];
    let c = if c.is_empty() {
        // any character after the slashes
        let mut c = "//".to_string();
        api::put(&LINE, &mut c);
        if c.ends_with('/') {
            return;
        }
        c + "b +\n"
    } else {
        c.to_string()
    };
    let mut two = String::with_capacity(src.len() + 32);
    for (i, s) in src.split('¦').enumerate() {
        if i == k + 1 {
            if two.trim_end().ends_with('\\') {
                // inside the value of an attribute entry
                return;
            }
            two.push_str(&c);
        }
        two.push_str(s);
    }
    api::note(&format!("{one}\u{1}{two}"));
    let (p, q) = (&mut Parser::default(), &mut Parser::default());
    let d = p.parse(&one);
    // the insertion might be into its verbatim text
    if warn(&d).iter().any(|w| w.contains("UnterminatedDelimitedBlock")) {
        return;
    }
    let a = Skel::without_comments(&d);
    let z = Skel::without_comments(&q.parse(&two));
    check!(a.len() == z.len(), "a comment line changes the structure of the document");
    for (a, z) in a.iter().zip(&z) {
        check!(a == z, "a comment line changes the document");
    }
    api::cover(1);
    api::digest(|| a.join("\n"));
}
const CL: &[&str] = &["a", " b", "", ".t", "[q]", "[[i]]", "--", "====", "= x", "== s", "'''", ":k: v", "image::m[x]", "a +", "----\n c\n----", "[discrete]", "....\n\n....", "{k}"];
const COMMENTS: &[B] = &[
    l("¦❶\n¦❶\n¦❶\n¦", &[CL]), l("= T\n¦❶\n¦❶\n\n¦❶\n", &[CL]), l("== s\n¦\n¦[[i,r]]\n¦.t\n¦❶\n¦❶\n", &[CL]), l("====\n¦❶\n¦❶\n¦====\n¦❶\n", &[CL]),
    b("¦= T\n¦A ①①\n¦v1\n¦"), b("= T\n¦a\n¦v①①\n¦:a: ①\n¦\n{a}\n"), b("a①\n¦①b\n¦\n¦c"), b(" a①\n¦①b\n¦"), b("¦[①①]\n¦a"), b("*a\n¦①b*①"), b("== a①\n¦①\n¦"), b(".①①\n¦①"), b("¦①①\n¦①"), b("[[①]]\n¦①\n¦b"), b("a①+\n¦b①"), b("+a①\n¦①b+"), b("link:x[①\n¦①]"),
    x("⑤⑤⑤\n¦⑤⑤⑤\n¦b", &[b"-=. a["]), x("⑤⑤⑤⑤\n¦⑤⑤", &[b"-=+*a"]),
];
const COMMENTS_D: &[B] = &[
    l("¦❶\n¦❶\n¦❶\n¦❶\n¦", &[CL]), l("= T\n¦❶\n¦❶\n¦❶\n¦❶\n", &[CL]), l("====\n¦❶\n¦❶\n¦❶\n¦====\n¦❶\n", &[CL]), b("¦①①①\n¦①"), b("¦①\n¦①①①\n¦b"), b("*a①\n¦①①b*①"),
];

// ---------------------------------------------------------------- compose
fn warn(d: &Document<'_>) -> Vec<String> {
    d.warnings().map(|w| format!("{:?}", w.warning)).collect()
}
/// text whose blocks neither stay open nor set anything
fn closed(d: &Document<'_>) -> bool {
    d.header().title().is_none()
        && d.header().attributes().next().is_none()
        && warn(d).iter().all(|w| !w.contains("UnterminatedDelimitedBlock") && !w.contains("DuplicateId"))
        && d.nested_blocks().all(|b| match b {
            Block::Section(s) => s.section_type() == SectionType::Discrete,
            Block::DocumentAttribute(_) | Block::Preamble(_) => false,
            _ => true,
        })
}
const NEXT: &[&str] = &["a", " b", "--\nc\n--", ".t\n[#i%o]\nd\ne", "'''", "[discrete]\n== H", "* x", "[[j]]\n----\n <\n----"];
fn compose(t: &[B], job: usize) {
    let s = fill(&t[job]);
    if !plain(&s) || s.trim().is_empty() {
        return;
    }
    let how = api::pick(3 * NEXT.len() + 3);
    let (p, q, r) = (&mut Parser::default(), &mut Parser::default(), &mut Parser::default());
    let d = p.parse(&s);
    if !closed(&d) {
        return;
    }
    let mut warnings = warn(&d);
    let mut want = Skel::blocks(d.nested_blocks());
    let two: String;
    let n = NEXT.len();
    if how < 3 {
        let f = ["====", "****", "--"][how];
        if s.contains(f) {
            return;
        }
        two = format!("{f}\n{s}\n{f}\n");
    } else {
        let next = NEXT[(how - 3) % n];
        let e = q.parse(next);
        let other = Skel::blocks(e.nested_blocks());
        let w = warn(&e);
        match (how - 3) / n {
            0 => {
                two = format!("{s}\n\n{next}");
                want.extend(other);
                warnings.extend(w);
            }
            m => {
                two = format!("{next}\n{}\n{s}\n", ["", " \t\n"][m - 1]);
                want = other.into_iter().chain(want).collect();
                warnings = w.into_iter().chain(warnings).collect();
            }
        }
    }
    api::note(&two);
    let d = r.parse(&two);
    let got = if how < 3 {
        let b = d.nested_blocks().next();
        check!(matches!(b, Some(Block::CompoundDelimited(_))) && d.nested_blocks().count() == 1, "enclosed blocks aren't one compound block");
        Skel::blocks(b.unwrap().nested_blocks())
    } else {
        Skel::blocks(d.nested_blocks())
    };
    check!(got.len() == want.len(), "the number or kind of blocks depends on what surrounds them");
    for (a, z) in got.iter().zip(&want) {
        check!(a == z, "a block depends on what surrounds it");
    }
    // the same ID on both sides is a defect of the whole
    let got: Vec<String> = warn(&d).into_iter().filter(|w| !w.contains("DuplicateId")).collect();
    check!(got == warnings, "the warnings depend on what surrounds a block");
    api::cover(1);
    api::digest(|| want.join("\n"));
}
const PL: &[&str] = &["a", " b", "", ".t", "[q]", "[[i]]", "//c", "--", "****", "====", "== s", "'''", "image::m[x]", "a +", "----\n c\n----", "[discrete]", "+", "[#i.r]"];
const COMPOSE: &[B] = &[
    l("❶\n❶\n❶", &[PL]), b("①①"), b("a①①"), b("a\n①①"), b("[①①]\na"), b(".①①\nb"), b("*a①b*"), b(" ①①\n b"), b("----\n①①\n----"), b("****\n①①\n****"), b("[[①]]\na"), b("image::①[①]"), b("\n①\n①"),
    x("⑤⑤⑤⑤", &[b"a\n -+"]), x("⑤⑤⑤", &[b"a\n*[]."]),
];
const COMPOSE_D: &[B] = &[l("❶\n❶\n❶\n❶", &[PL]), b("①①①"), b("a\n①①①"), b("[①①①]\na"), x("⑤⑤⑤⑤⑤⑤⑤", &[b"a\n -+"]), x("⑤⑤⑤⑤⑤⑤", &[b"a\n*[]."])];

// ----------------------------------------------------------------- titles
/// rendered texts of the blocks in order, a block's own title after it
fn texts(t: &str) -> Vec<(&'static str, String)> {
    fn go(b: &Block<'_>, out: &mut Vec<(&'static str, String)>) {
        match b {
            Block::Simple(p) if p.style() == SimpleBlockStyle::Paragraph => out.push(("text", b.rendered_content().unwrap_or("").to_string())),
            Block::Section(s) => out.push(("heading", s.section_title().to_string())),
            Block::DocumentAttribute(_) => {}
            _ => out.push(("other", String::new())),
        }
        if let Some(t) = b.title() {
            out.push(("title", t.to_string()));
        }
        for n in b.nested_blocks() {
            go(n, out);
        }
    }
    let mut p = Parser::default();
    let d = p.parse(&format!(":v: w*x*\n:u: <a>\n\n{t}"));
    let mut out = vec![];
    for b in d.nested_blocks() {
        go(b, &mut out);
    }
    out
}
fn titles(t: &[B], job: usize) {
    let s = fill(&t[job]);
    if s.contains('\n') || s.is_empty() || s.starts_with([' ', '\t', '.']) || s.trim_end() != s {
        return;
    }
    api::note(&s);
    let mut para = texts(&s);
    if para.len() != 1 || para[0].0 != "text" {
        return;
    }
    let para = para.pop().unwrap().1;
    let is = |t: String, i: usize, k: &str| texts(&t).get(i).is_some_and(|x| x.0 == k && x.1 == para);
    check!(is(format!(".{s}\nx"), 1, "title"), "a block title renders text differently than a paragraph");
    check!(is(format!("== {s}"), 0, "heading"), "a section title renders text differently than a paragraph");
    check!(is(format!("[discrete]\n=== {s}"), 0, "heading"), "a discrete heading renders text differently than a paragraph");
    check!(is(format!("****\n{s}\n****"), 1, "text"), "a paragraph in a block renders text differently");
    check!(is(format!("x\n\n{s}"), 1, "text"), "a later paragraph renders text differently");
    api::cover(1);
    api::digest(|| para.clone());
}
const TITLES: &[B] = &[
    b("a②②b"), b("a②*b②*"), b("②*b*②"), b("{v}②{②"), b("a{u②②"), b("+{v}②+②"), b("x(C②②"), b("link:a[b②]②"), b("http://a.b②②"), b("image:a[b②②]"), b("[[a②]]②b"), b("pass:q[②b②]"), b("`a②`②"), b("a --② b②"), b("②②"), b("a +②"), b("<②&②>"), b("④④②"),
    x("⑤⑤⑤⑤⑤", &[b"*_`a +"]), x("⑤⑤⑤⑤⑤", &[b"{v}\\*a"]),
];
const TITLES_D: &[B] = &[b("a②②②b"), b("②②②"), b("②*b②②*②"), x("⑤⑤⑤⑤⑤⑤⑤", &[b"*_`a +"]), x("⑤⑤⑤⑤⑤⑤⑤", &[b"{v}\\*a"])];

// ----------------------------------------------------------------- blanks
/// `¦` marks the places next to blank lines
fn blanks(t: &[B], job: usize) {
    let src = fill(&t[job]);
    let one = src.replace('¦', "");
    if !plain(&one) {
        return;
    }
    let n = src.matches('¦').count();
    let k = api::pick(n);
    let c = ["\n", " \t\n", "\n\n \n"][api::pick(3)];
    let mut two = String::with_capacity(src.len() + 8);
    for (i, s) in src.split('¦').enumerate() {
        if i == k + 1 {
            if two.trim_end().ends_with('\\') {
                return;
            }
            two.push_str(c);
        }
        two.push_str(s);
    }
    api::note(&format!("{one}\u{1}{two}"));
    let (p, q) = (&mut Parser::default(), &mut Parser::default());
    let d = p.parse(&one);
    if warn(&d).iter().any(|w| w.contains("UnterminatedDelimitedBlock")) {
        return;
    }
    let a = Skel::of(&d, false, false);
    let z = Skel::of(&q.parse(&two), false, false);
    check!(a.len() == z.len(), "a further blank line changes the structure of the document");
    for (a, z) in a.iter().zip(&z) {
        check!(a == z, "a further blank line changes the document");
    }
    api::cover(1);
    api::digest(|| a.join("\n"));
}
const BL: &[&str] = &["a", " b", ".t\na", "[q]\nb", "[[i]]\n== r", "[[i]]", ".t", "[q]", "--", "====", "= x", "== s", "'''", ":k: v", "image::m[x]", "----\n c\n----", "[discrete]\n== d", "....\n\n....", "//c", "* x", "{k}", "+", "a +"];
const BLANKS: &[B] = &[
    l("¦❶\n\n¦❶\n\n¦❶\n¦", &[BL]), l("¦= T\n\n¦❶\n\n¦❶\n¦", &[BL]), l("¦= T\nA B\nv1, d: r\n:a: b\n\n¦❶\n\n¦== s\n\n¦❶\n", &[BL]), l("====\n¦❶\n\n¦❶\n\n¦====\n\n¦❶\n", &[BL]), l("== s\n\n¦❶\n\n¦❶\n\n¦=== t\n\n¦❶\n", &[BL]),
    b("¦①①\n\n¦a"), b("a\n\n¦①①\n\n¦b"), b("== a\n\n¦①①\n\n¦b"), b("--\n\n¦①①\n\n¦--\n"), b("¦:①①\n\n¦{①}"), b("¦[①①\n\n¦a"), b("= T\n①①\n\n¦a"), b("=①①\n\n¦①"),
    x("⑤⑤⑤⑤\n\n¦⑤⑤", &[b"a= -\n"]), x("a\n\n¦⑤⑤⑤⑤⑤\n\n¦b", &[b"*=.a-"]),
];
const BLANKS_D: &[B] = &[
    l("¦❶\n\n¦❶\n\n¦❶\n\n¦❶\n¦", &[BL]), l("¦= T\n\n¦❶\n\n¦❶\n\n¦❶\n¦", &[BL]), l("====\n¦❶\n\n¦❶\n\n¦❶\n\n¦====\n\n¦❶\n", &[BL]), b("¦①①①\n\n¦a"), b("a\n\n¦①①①\n\n¦b①"), x("⑤⑤⑤⑤⑤⑤\n\n¦⑤⑤⑤", &[b"a= -\n"]),
];

// ----------------------------------------------------------------- origin
/// name, value; `!` before the name unsets it
const ORIGIN: &[(&str, &str)] = &[
    ("a", "⑤⑤"), ("A-b", "⑤"), ("sectnums", ""), ("idprefix", "⑥"), ("idprefix", ""), ("idseparator", "⑥⑥"), ("idseparator", ""), ("!sectids", ""), ("hardbreaks-option", ""),
    ("imagesdir", "⑥/⑥"), ("icons", ""), ("icons", "font"), ("icons", "⑥"), ("icontype", "⑥⑥"), ("iconsdir", "⑥"), ("hide-uri-scheme", ""),
];
const CHARS: &[&[u8]] = &[b"ab1*_`+'.-:/#^~()", b"ab1-_./"];
const USE: &[&str] = &[
    "{a} *{A}* {a-B}", "== s T\n\n=== t {a}\n\n[appendix]\n== u", "a\nb {a}\nc", "x image:p[] icon:h[] http://e.f {a}", "image::k[{a}]\n\n.t {a}\n----\n{a}\n----", "[subs=attributes]\n{a}{a-b}",
];
/// the same attribute set by the program, in the header, before the title, in the body
fn origin(job: usize) {
    let (name, value) = ORIGIN[job % ORIGIN.len()];
    let value = crate::tpl::fill(value, CHARS);
    let body = USE[job / ORIGIN.len()];
    let (unset, n) = name.strip_prefix('!').map_or((false, name), |n| (true, n));
    let entry = if value.is_empty() { format!(":{name}:") } else { format!(":{n}: {value}") };
    api::note(&format!("{entry}\u{1}{body}"));
    let mut p = Parser::default();
    p = if unset || value.is_empty() {
        p.with_intrinsic_attribute_bool(n, !unset, ModificationContext::Anywhere)
    } else {
        p.with_intrinsic_attribute(n, &value, ModificationContext::Anywhere)
    };
    fn flat(d: &Document<'_>) -> Vec<String> {
        let mut out = vec![];
        for b in d.nested_blocks() {
            match b {
                Block::Preamble(p) => out.extend(Skel::blocks(p.nested_blocks().filter(|b| !matches!(b, Block::DocumentAttribute(_))))),
                Block::DocumentAttribute(_) => {}
                b => out.extend(Skel::blocks(std::iter::once(b))),
            }
        }
        out
    }
    let want = flat(&p.parse(body));
    for (i, t) in [format!("{entry}\n\n{body}"), format!("= D\n{entry}\n\n{body}"), format!("{entry}\n= D\n\n{body}"), format!("= D\n\n{entry}\n\n{body}"), format!("[q]\nz\n\n{entry}\n{body}")].iter().enumerate() {
        let mut q = Parser::default();
        let mut got = flat(&q.parse(t));
        if i == 4 {
            let skip = flat(&Parser::default().parse("[q]\nz")).len();
            got.drain(..skip.min(got.len()));
        }
        check!(got.len() == want.len(), "the structure depends on how an attribute was set");
        for (a, z) in got.iter().zip(&want) {
            check!(a == z, "a block depends on how an attribute was set");
        }
        // the API takes names as they are stored
        let n = &n.to_lowercase();
        check!(q.is_attribute_set(n) == p.is_attribute_set(n) && q.has_attribute(n) == p.has_attribute(n), "state of an attribute");
        check!(value.is_empty() || matches!(q.attribute_value(n), InterpretedValue::Value(ref v) if *v == value), "value of an attribute");
    }
    api::cover(1);
    api::digest(|| want.join("\n"));
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness { name: "comments", jobs: || COMMENTS.len(), run: |j| comments(COMMENTS, j) },
        Harness { name: "comments_deep", jobs: || COMMENTS_D.len(), run: |j| comments(COMMENTS_D, j) },
        Harness { name: "compose", jobs: || COMPOSE.len(), run: |j| compose(COMPOSE, j) },
        Harness { name: "compose_deep", jobs: || COMPOSE_D.len(), run: |j| compose(COMPOSE_D, j) },
        Harness { name: "blanks", jobs: || BLANKS.len(), run: |j| blanks(BLANKS, j) },
        Harness { name: "blanks_deep", jobs: || BLANKS_D.len(), run: |j| blanks(BLANKS_D, j) },
        Harness { name: "origin", jobs: || ORIGIN.len() * USE.len(), run: origin },
        Harness { name: "titles", jobs: || TITLES.len(), run: |j| titles(TITLES, j) },
        Harness { name: "titles_deep", jobs: || TITLES_D.len(), run: |j| titles(TITLES_D, j) },
    ]
}
