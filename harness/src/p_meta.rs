//! Properties that need no reference model of the language: positions,
//! line-ending independence, reuse of a parser, custom renderers, includes.
use crate::p_block::{wide, wide_jobs};
use crate::p_block::{B, fill};
use crate::skel::Skel;
use crate::{Harness, api, tpl, walk};
use asciidoc_parser::attributes::Attrlist;
use asciidoc_parser::blocks::{Block, IsBlock};
use asciidoc_parser::parser::{CharacterReplacementType, HtmlSubstitutionRenderer, IconRenderParams, ImageRenderParams, IncludeFileHandler, InlineSubstitutionRenderer, LinkRenderParams, ModificationContext, QuoteScope, QuoteType, SourceLine, SpecialCharacter};
use asciidoc_parser::{HasSpan, Parser, Span};

const fn b(t: &'static str) -> B {
    B(t, &[], &[])
}
const fn x(t: &'static str, a: &'static [&'static [u8]]) -> B {
    B(t, a, &[])
}
const fn l(t: &'static str, s: &'static [&'static [&'static str]]) -> B {
    B(t, &[], s)
}

// ------------------------------------------------------------------ spans
struct Sp<'s> {
    src: &'s str,
    /// enclosing blocks: start, end, end of the last child
    stack: Vec<(usize, usize, usize)>,
}
fn range(s: &Span<'_>) -> (usize, usize) {
    // white space at the end is of no interest
    (s.byte_offset(), s.byte_offset() + s.data().trim_end().len())
}
impl Sp<'_> {
    fn place(&self, s: &Span<'_>) {
        let (a, z) = (s.byte_offset(), s.byte_offset() + s.data().len());
        check!(self.src.get(a..z) == Some(s.data()), "a span's text is not the source text at its offset");
        let before = &self.src[..a];
        let line = 1 + before.bytes().filter(|c| *c == b'\n').count();
        let start = before.rfind('\n').map_or(0, |i| i + 1);
        check!(s.line() == line, "line number of a span");
        check!(s.col() == 1 + before[start..].chars().count(), "column of a span");
    }
}
impl walk::Visitor for Sp<'_> {
    fn block(&mut self, blk: &Block<'_>, _d: usize) {
        let (a, z) = range(&blk.span());
        if let Some((pa, pz, last)) = self.stack.last_mut() {
            check!(*pa <= a && z <= *pz, "a block reaches beyond the block that contains it");
            check!(*last <= a, "sibling blocks overlap or are out of order");
            if *last != usize::MAX && self.src.is_char_boundary(a) {
                let gap = &self.src[*last..a];
                check!(*last == *pa || gap.lines().all(|l| l.trim().is_empty() || (l.starts_with("//") && !l.starts_with("///"))), "text between blocks belongs to none of them");
            }
            *last = z;
        }
        self.stack.push((a, z, a));
    }
    fn leave(&mut self, _b: &Block<'_>, _d: usize) {
        self.stack.pop();
    }
    fn span(&mut self, s: &Span<'_>, what: &'static str) {
        self.place(s);
        if what != "block" && self.stack.len() > 1 {
            let (a, z) = range(s);
            let (pa, pz, _) = *self.stack.last().unwrap();
            check!(a == z || (pa <= a && z <= pz), "{what} lies outside its block");
        }
    }
}
fn spans(src: String) {
    api::note(&src);
    if !crate::p_block::plain(&src) || src.ends_with('\r') {
        return;
    }
    let d = Parser::default().parse(&src);
    let mut v = Sp { src: &src, stack: vec![] };
    let h = range(&d.header().span());
    // the body is what follows the header
    v.stack.push((h.1, src.len(), h.1));
    walk::document(&mut v, &d);
    let hd = d.header();
    let inside = |s: &Span<'_>| {
        let (a, z) = range(s);
        check!(a == z || (h.0 <= a && z <= h.1), "a part of the header lies outside it");
    };
    if let Some(s) = hd.title_source() {
        inside(&s)
    }
    for a in hd.attributes() {
        inside(&a.span());
        let (s, e) = range(&a.span());
        let (n, m) = range(a.name());
        check!(s <= n && m <= e, "name of an entry outside of it");
    }
    for c in hd.comments() {
        inside(c)
    }
    if let Some(a) = hd.author_line() {
        inside(&a.span())
    }
    if let Some(r) = hd.revision_line() {
        inside(&r.span())
    }
    api::cover(1);
    api::digest(|| format!("{d:?}"));
}
const LINES: &[&str] = &["a", " b", "", ".t", "[q]", "[[i]]", "//c", "----", "--", "====", "= x", "== s", "=== u", "'''", ":k: v", "image::m[x]", "é [z]", "a \t", "a\r"];
const SPANS: &[B] = &[
    l("❶\n❶\n❶", &[LINES]), l("é\n❶\n❶\n\n❶", &[LINES]), l("== é\n\n[[i,r]]\n.t\n[q]\n❶\n❶", &[LINES]), l("====\n--\n❶\n❶\n--\n====\n❶", &[LINES]), l("= é\nA B <c>\nv1, d: r\n❶\n❶\n\n❶", &[LINES]),
    b("é①①①"), b("a\n é①①\n①"), b("\n é\n①①①"), b("①[①]\né"), b("é\n[[①①]]\na①"), b(".①é①\n[a①]\nb"), b("--\n①é①\n--①"), b("----\n①é\n----①b"), b("== ①①\n①"), b("= é①\n①①"), b("= T\nA①é <①>\n①"), b("= T\n:a①: é\\\n①c"), b("image::é①[①]\n①"), b("④④①\n④"), b("④\r\n④\r\n①"), b("[④①]\n④"), b("[[④,①]]\n.④\n'''"), b("= ④\n④ ④\n④"), b(":④: ①\n\n④"), b("== ④①\n\n=== ④\n①"), b("[a,b=①é①]\nc"),
    x("⑤⑤⑤⑤⑤⑤", &[b"a\n =.["]), x("⑤⑤⑤⑤⑤⑤", &[b"-\r\n"]), x("== a\n⑤⑤⑤⑤⑤", &[b"\n= \t"]), x("[⑤⑤⑤⑤⑤]\na", &[b"[], a"]), x("=⑤⑤⑤⑤⑤\n⑤", &[b" \ta\n"]),
];
const SPANS_D: &[B] = &[
    l("❶\n❶\n❶\n❶", &[LINES]), l("[[i,r]]\n❶\n.t\n❶\n[q]\n❶\n❶", &[LINES]), l("= é\n❶\n❶\n❶\n\n❶", &[LINES]),
    b("é①①①①"), b("①①①①"), b("①①\n①①"), b(".①①①\nb"), b("--\n①①①\n--①"), b("== ①①\n①①"), b("= é①①\n①①"), b("= T\nA①①é <①①>\n①"), b("= T\n:a①: é①\\\n①①c"), b("image::é①①[①①]\n①"), b("④①④①\n④"), b("[④①①]\n④"),
    x("⑤⑤⑤⑤⑤⑤⑤⑤", &[b"a\n =.["]), x("⑤⑤⑤⑤⑤⑤⑤⑤⑤", &[b"-\r\n"]), x("[⑤⑤⑤⑤⑤⑤⑤]\na", &[b"[], a"]),
];

// ------------------------------------------------------------------ lines
fn lines(src: String) {
    if !crate::p_block::plain(&src) || src.contains('\r') {
        return;
    }
    let how = api::pick(5);
    let mut other = match how {
        0 => src.replace('\n', "\r\n"),
        1 => src.replace('\n', "  \n"),
        2 => src.replace('\n', " \t\n"),
        3 => src.clone() + "\n\n",
        _ => String::from("\n \n") + &src,
    };
    if how < 3 {
        other.push_str(["\r\n", "  \n", " \t\n"][how]);
    }
    api::note(&format!("{src}\u{1}{other}"));
    let (p, q) = (&mut Parser::default(), &mut Parser::default());
    let one = Skel::of(&p.parse(&src), false, true);
    let two = Skel::of(&q.parse(&other), false, true);
    check!(one.len() == two.len(), "line endings or trailing white space change the structure of the document");
    for (a, b) in one.iter().zip(&two) {
        check!(a == b, "line endings or trailing white space change the document");
    }
    api::cover(1);
    api::digest(|| one.join("\n"));
}
const LL: &[&str] = &["a", " b", "", ".t", "[q]", "[[i]]", "//c", "----", "--", "====", "= x", "== s", "'''", ":k: v", "image::m[x]", "a +"];
const LINEST: &[B] = &[
    l("❶\n❶\n❶", &[LL]), l("= T\n❶\n❶\n\n❶", &[LL]), l("== s\n\n[[i,r]]\n.t\n❶\n❶", &[LL]), l("====\n❶\n❶\n====\n❶", &[LL]), b("①①"), b("a\n①①\nb"), b("[①①]\na"), b("== ①①\n"), b("== a①\n①"), b("= T\nA ①①"), b("= T\nA\nv①①"), b(":a: ①①\n\n{a}"), b("----\n①①\n----"), b("--\n①①\n--"), b("image::①[①]\n"), b("*a\n①b*①"), b("a①+\nb①"), b("'a\n①--①b"), b("x +a\n①+ ①"), b(":a: b \\\n①c①\n\n{a}"), b("link:a[b\n①]"), b("\"①b\nc`\"①"),
    x("⑤⑤⑤⑤⑤", &[b"a\n +-"]), x("⑤⑤⑤⑤⑤", &[b"a\n*`+"]), x("----\n⑤⑤⑤⑤⑤", &[b"-\n <"]),
];
const LINEST_D: &[B] = &[
    l("❶\n❶\n❶\n❶", &[LL]), l("= T\n❶\n❶\n❶\n\n❶", &[LL]), b("①①①"), b("a\n①①①\nb"), b("[①①①]\na"), b("== ①①①\n①"), b("= T\nA ①①①"), b("= T\nA\nv①①①"), b(":a: ①①①\n\n{a}"), b("----\n①①①\n----"), b("*a\n①①b*①"), b("x +a\n①①+ ①"),
    x("⑤⑤⑤⑤⑤⑤⑤", &[b"a\n +-"]), x("⑤⑤⑤⑤⑤⑤⑤", &[b"a\n*`+"]), x("----\n⑤⑤⑤⑤⑤⑤⑤", &[b"-\n <"]),
];

// ------------------------------------------------------------------ reuse
/// documents that set no attribute explicitly
const FIRST: &[&str] = &["", "a", "== s\n\n=== t\n\n[appendix]\n== u", "[[x]]\n== s\n\n[[_a]]\nb", "----\n[[x]]", "[[x]]\na\n\n[[x]]\nb", "[discrete]\n== a\n\n[appendix]\n== A\n\n=== B", "'''\n\n[#x]\n.t\n====\n== a\n===="];
fn reuse(t: &[B], job: usize) {
    let i = api::pick(FIRST.len());
    let second = fill(&t[job]);
    if !crate::p_block::plain(&second) {
        return;
    }
    api::note(&format!("{}\u{1}{second}", FIRST[i]));
    let attr = |p: Parser| p.with_intrinsic_attribute_bool("sectnums", true, ModificationContext::Anywhere);
    let mut fresh = attr(Parser::default());
    let mut used = attr(Parser::default());
    let _ = used.parse(FIRST[i]);
    let one = Skel::of(&fresh.parse(&second), true, false);
    let two = Skel::of(&used.parse(&second), true, false);
    check!(one.len() == two.len(), "what a parser parsed before changes the structure of a document");
    for (a, b) in one.iter().zip(&two) {
        check!(a == b, "what a parser parsed before changes a document");
    }
    for n in ["sectnums", "a", "toc", "x"] {
        check!(fresh.attribute_value(n) == used.attribute_value(n), "what a parser parsed before changes an attribute");
    }
    api::cover(1);
    api::digest(|| one.join("\n"));
}
const REUSE: &[B] = &[
    l("❶\n\n❶\n\nb", &[&["== a", "=== b", "[appendix]\n== c", "[[x]]\na", "[#x]\n== d", "== s", ":a: b", "{a}", "[discrete]\n== s"]]), b("== ①①"), b("[[②]]\n== a②"), b("=①= ②\n\n== b"), b("= T\n①①\n\n== a"), b("①①"), b("a①\n①"), b("[appendix]\n==① a\n\n=== b②"), x("[[⑤]]\na\n\n== ⑤⑤", &[b"xa_ s"]), b(":a②: ②\n\n{a}"),
];
const REUSE_D: &[B] = &[l("❶\n\n❶\n\n❶\n\nb", &[&["== a", "=== b", "[appendix]\n== c", "[[x]]\na", "[#x]\n== d", "== s", ":a: b", "{a}", "[discrete]\n== s"]]), b("== ①①①"), b("[[②②]]\n== a②"), b("= T\n①①①\n\n== a"), b("①①①①")];

// --------------------------------------------------------------- renderer
/// Delegates to the HTML renderer and marks everything that went through it,
/// in a way no later substitution sees: the first and last characters stay.
#[derive(Debug)]
struct Marking;
const HTML: HtmlSubstitutionRenderer = HtmlSubstitutionRenderer {};
fn mark(s: &str) -> String {
    let mut out = String::with_capacity(s.len() + 16);
    for (i, c) in s.char_indices() {
        out.push(c);
        if c == '<' && !s[i + 1..].starts_with('x') && !s[i + 1..].starts_with('/') {
            out.push('x');
        }
        if c == '/' && s[..i].ends_with('<') && !s[i + 1..].starts_with('x') {
            out.push('x');
        }
    }
    out
}
impl InlineSubstitutionRenderer for Marking {
    fn render_special_character(&self, t: SpecialCharacter, dest: &mut String) {
        HTML.render_special_character(t, dest)
    }
    fn render_quoted_substitition(&self, t: QuoteType, scope: QuoteScope, l: Option<Attrlist<'_>>, id: Option<String>, body: &str, dest: &mut String) {
        match t {
            QuoteType::DoubleQuote | QuoteType::SingleQuote => {
                let (o, c) = if t == QuoteType::DoubleQuote { ("&#08220;", "&#08221;") } else { ("&#08216;", "&#08217;") };
                dest.push_str(o);
                dest.push_str(body);
                dest.push_str(c);
            }
            _ => {
                let mut s = String::new();
                HTML.render_quoted_substitition(t, scope, l, id, body, &mut s);
                dest.push_str(&mark(&s))
            }
        }
    }
    fn render_character_replacement(&self, t: CharacterReplacementType, dest: &mut String) {
        let mut s = String::new();
        let own = !matches!(t, CharacterReplacementType::CharacterReference(_));
        HTML.render_character_replacement(t, &mut s);
        dest.push_str(&if own { s.replace("&#", "&#0") } else { s });
    }
    fn render_line_break(&self, dest: &mut String) {
        let mut s = String::new();
        HTML.render_line_break(&mut s);
        dest.push_str(&mark(&s))
    }
    fn render_image(&self, p: &ImageRenderParams, dest: &mut String) {
        let mut s = String::new();
        HTML.render_image(p, &mut s);
        dest.push_str(&mark(&s))
    }
    fn image_uri(&self, t: &str, p: &Parser, k: Option<&str>) -> String {
        HTML.image_uri(t, p, k)
    }
    fn render_icon(&self, p: &IconRenderParams, dest: &mut String) {
        let mut s = String::new();
        HTML.render_icon(p, &mut s);
        dest.push_str(&mark(&s))
    }
    fn render_link(&self, p: &LinkRenderParams, dest: &mut String) {
        let mut s = String::new();
        HTML.render_link(p, &mut s);
        dest.push_str(&mark(&s))
    }
    fn render_anchor(&self, id: &str, r: Option<String>, dest: &mut String) {
        let mut s = String::new();
        HTML.render_anchor(id, r, &mut s);
        dest.push_str(&mark(&s))
    }
}
fn routed(src: String) {
    api::note(&src);
    let d = Parser::default().parse(&src);
    let c = Parser::default().with_inline_substitution_renderer(Marking).parse(&src);
    let mut seen = false;
    for (m, n) in d.nested_blocks().zip(c.nested_blocks()) {
        let mut pairs = vec![(m.rendered_content(), n.rendered_content()), (m.title(), n.title())];
        if let (Block::Section(m), Block::Section(n)) = (m, n) {
            pairs.push((Some(m.section_title()), Some(n.section_title())));
        }
        for (m, n) in pairs {
            let (Some(m), Some(n)) = (m, n) else {
                check!(m.is_some() == n.is_some(), "a custom renderer changes what is rendered");
                continue;
            };
            seen = true;
            let un = |s: &str| s.replace("</x", "</").replace("<x", "<").replace("&#0", "&#");
            check!(un(n) == un(m), "a custom renderer's output is not carried over as it is");
            for (i, _) in n.match_indices('<').filter(|_| !src.contains('<')) {
                check!(n[i..].starts_with("<x") || n[i..].starts_with("</x"), "markup that the configured renderer did not write");
            }
            for (i, _) in n.match_indices("&#8") {
                check!(!n[i..].starts_with("&#82") || src.contains("&#"), "a replacement that the configured renderer did not write");
            }
        }
    }
    if seen {
        api::cover(1);
    }
    api::digest(|| format!("{c:?}"));
}
const ROUTE: &[&str] = &[
    "a②*b*② _c_", "_a②_②", "a②**b**②c", "`a②` ``②b``", "#②a# ##b②##", "^②a^ ~b②~", "[②②]#a#", "[.r②]*b②*", "\"`a②`\" '`②b`'", "*_a②_* `*b*②`", "x②(C)②y (R) (TM)", "a②--②b...②", "x -- y②'z②", "-> <- => <=②②", "a②+\nb +②\nc", "[%hardbreaks]\na②\nb②", "image:②②[a]", "image:a[b②]②", "image:a[②,②]", "icon:a②[②]", "link:②[②]", "link:a[②②]", "link:a②[*b*②]", "http://a②b②", "http://a.b[②②]", "<http://a.b②>②", "mailto:a②[②]", "a②@b.c②", "[[②]]a② [[b,②]]", "anchor:②[②]", "== *a* ②(C)", "== a②", ".*a②* (C)②\nb", "x +②*a*② + y", "`+②<a>②+`", "pass:q[*②a*②]", "x ++<②>++ $$②$$", "----\n<a②>②\n----", "[subs=q]\n----\n*a②*②\n----", "{empty}*②a*② {deg}②", "*④a*④ _④_", "\\*②a* \\②(C)", "[x-]`②a`②",
];
const ROUTE_D: &[&str] = &["a②②*b*②②", "*②②② _a_*②", "[②②②]#a#", "\"`②②②`\"", "(②②)②", "a②②'②b", "image:②②[②②]", "link:②[②②②]", "http://a②②②", "[[②②②]]", "②②+\n②", "`②②②`", "*②`②_②_`*"];

// --------------------------------------------------------------- includes
#[derive(Debug, Clone)]
struct Files {
    files: Vec<(String, String)>,
    log: std::rc::Rc<std::cell::RefCell<Vec<(Option<String>, String, Vec<String>)>>>,
}
impl IncludeFileHandler for Files {
    fn resolve_target<'src>(&self, source: Option<&str>, target: &str, l: &Attrlist<'src>, _p: &Parser) -> Option<String> {
        self.log.borrow_mut().push((source.map(str::to_owned), target.to_owned(), l.attributes().map(|a| format!("{}={}", a.name().unwrap_or(""), a.value())).collect()));
        self.files.iter().find(|(n, _)| n == target).map(|(_, t)| t.clone())
    }
}
/// what including files means
struct Ref<'f> {
    files: &'f Files,
    attrs: Vec<(String, Option<String>)>,
    locked: Vec<String>,
    header: bool,
    titled: bool,
    extra: usize,
    entries: bool,
    out: String,
    origin: Vec<(Option<String>, usize)>,
    log: Vec<(Option<String>, String)>,
}
fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}
impl Ref<'_> {
    fn get(&self, n: &str) -> Option<&Option<String>> {
        self.attrs.iter().rev().find(|(k, _)| k == n).map(|(_, v)| v)
    }
    fn expand(&self, t: &str) -> String {
        let mut out = String::new();
        let c: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < c.len() {
            let esc = c[i] == '\\' && c.get(i + 1) == Some(&'{');
            if c[i] == '{' || esc {
                let s = i + esc as usize + 1;
                let mut e = s;
                while e < c.len() && (word(c[e]) || (e > s && c[e] == '-')) {
                    e += 1;
                }
                if e > s && c.get(e) == Some(&'}') {
                    let whole: String = c[i..=e].iter().collect();
                    let name: String = c[s..e].iter().collect::<String>().to_lowercase();
                    match self.get(&name) {
                        None => out.push_str(&whole),
                        Some(_) if esc => out.push_str(&whole[1..]),
                        Some(v) => out.push_str(v.as_deref().unwrap_or("")),
                    }
                    i = e + 1;
                    continue;
                }
            }
            out.push(c[i]);
            i += 1;
        }
        out
    }
    /// a value after the header substitutions
    fn value(&self, v: &str) -> String {
        self.expand(&v.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;"))
    }
    /// target and list of an include directive
    fn directive(line: &str) -> Option<(&str, &str)> {
        let r = line.strip_prefix("include::")?.strip_suffix(']')?;
        let (t, list) = r.split_once('[')?;
        let blank = |c: Option<char>| c.is_none_or(char::is_whitespace);
        if blank(t.chars().next()) || blank(t.chars().last()) || list.starts_with(']') {
            return None;
        }
        Some((t, list))
    }
    /// name and value of a single-line entry
    fn entry(line: &str) -> Option<(String, Option<&str>)> {
        let r = line.strip_prefix(':')?;
        let (n, v) = r.split_once(':')?;
        let (n, off) = match (n.strip_prefix('!'), n.strip_suffix('!')) {
            (Some(n), _) | (_, Some(n)) => (n, true),
            _ => (n, false),
        };
        if n.is_empty() || !n.starts_with(word) || !n.chars().all(|c| word(c) || c == '-') || !(v.is_empty() || v.starts_with([' ', '\t'])) {
            return None;
        }
        Some((n.to_lowercase(), if off { None } else { Some(v.trim()) }))
    }
    fn file(&mut self, text: &str, name: Option<&str>, depth: usize) {
        let mut n = 0;
        for line in text.split_inclusive('\n') {
            n += 1;
            let line = line.strip_suffix('\n').map_or(line, |l| l.strip_suffix('\r').unwrap_or(l));
            if (self.header || self.entries) && let Some((k, v)) = Self::entry(line) {
                if !self.locked.contains(&k) {
                    let v = v.map(|v| self.value(v));
                    self.attrs.push((k, v));
                }
                self.emit(line.trim_end(), name, n);
                continue;
            }
            if let Some((t, _)) = Self::directive(line) {
                let t = self.expand(t);
                if depth <= 64 {
                    self.log.push((name.map(str::to_owned), t.clone()));
                    if let Some((_, text)) = self.files.files.iter().find(|(f, _)| *f == t) {
                        self.file(&text.clone(), Some(&t), depth + 1);
                        continue;
                    }
                }
                self.text(line);
                let l = format!("Unresolved directive in {} - {line}", name.unwrap_or("(root file)"));
                self.emit(&l, name, n);
                continue;
            }
            self.text(line);
            self.emit(line, name, n);
        }
    }
    /// a line of text: is it one of the header's?
    fn text(&mut self, line: &str) {
        if line.trim().is_empty() {
            self.header &= !self.titled;
            self.entries = true;
        } else if line.starts_with("//") && !line.starts_with("///") {
        } else if self.header && !self.titled && line.starts_with("= ") {
            self.titled = true;
        } else if self.header && self.titled && self.extra < 2 {
            self.extra += 1;
        } else {
            self.header = false;
            self.entries = false;
        }
    }
    fn emit(&mut self, line: &str, name: Option<&str>, n: usize) {
        self.out.push_str(line);
        self.out.push('\n');
        self.origin.push((name.map(str::to_owned), n));
    }
}
/// main document and files f, g, h
struct Inc(&'static str, &'static [(&'static str, &'static str)], &'static [&'static [u8]], &'static [&'static [&'static str]]);
const NONE: &[&[u8]] = &[];
const NOL: &[&[&str]] = &[];
const IL: &[&[&str]] = &[&["a", "", "include::f[]", "include::g[]", "include::no[]", ":d: f", "include::{d}[]", "include::f[x=1,yy]", "== s", "include::f"], &["a", "", "a\n", "\n", "a\nb\n", "a\r\nb", "\n\nb", ":d: g\n", "include::g[]", "x\ninclude::g[]\ny\n"]];
const INC: &[Inc] = &[
    Inc("❶\n❶\n❶", &[("f", "❷"), ("g", "G")], NONE, IL), Inc("= T\n❶\n❶\n\n❶\n", &[("f", "❷"), ("g", "G\n")], NONE, IL), Inc("x\n\ninclude::f[]\n❶\n\nz\ninclude::g[]", &[("f", "1\n❷"), ("g", "G\n❷")], NONE, IL),
    Inc("include::②[]\na", &[("f", "F")], NONE, NOL), Inc("include::f②\nb", &[("f", "F\n")], NONE, NOL), Inc("include::f[②②]\nb", &[("f", "F\n")], NONE, NOL), Inc("include::②②[]\n", &[("a", "A"), ("bb", "B")], NONE, NOL), Inc("②include::f[]②\nb", &[("f", "F")], NONE, NOL),
    Inc("a①include::f[]①b", &[("f", "F")], NONE, NOL), Inc("a\n\ninclude::f[]\nb", &[("f", "①①")], NONE, NOL), Inc("include::f[]\nb", &[("f", "①\n①c")], NONE, NOL), Inc("a\ninclude::f[]\n①include::g[]\nz", &[("f", "include::g[]①"), ("g", "1\n2")], NONE, NOL),
    Inc(":d: ②\n\ninclude::{d}[]\n", &[("f", "F"), ("g", "G")], NONE, NOL), Inc("x\n\n:d②: f\ninclude::{d}[]\n{d}", &[("f", "F")], NONE, NOL), Inc(":d: f\n\ninclude::{②}[]\ninclude::②{d}[]", &[("f", "F")], NONE, NOL), Inc(":d: f\n\ninclude::{d②②[]", &[("f", "F")], NONE, NOL), Inc("= T\n:d: f\n\na\n\n:d!:\ninclude::{d}②[]\n\n:d: ②\n\ninclude::{d}[]", &[("f", "F\n"), ("g", "G")], NONE, NOL),
    Inc(":D: f\ninclude::{d}[]\n\ninclude::{D}①[]\n", &[("f", ":e: g\n①"), ("g", "G")], NONE, NOL), Inc("= T\ninclude::f[]\n\ninclude::{e}[]\n①", &[("f", ":e: g①\n"), ("g", "G")], NONE, NOL), Inc("x\ninclude::s[]\ny①", &[("s", "a\ninclude::s[]\nb\n")], NONE, NOL), Inc("include::s[]", &[("s", "include::②[]"), ("t", "include::s[]")], NONE, NOL),
    Inc("----\ninclude::f[]\n----①", &[("f", "<①>\n")], NONE, NOL), Inc("include::f[]①\n== b\n", &[("f", "= T\n:a: ①\n")], NONE, NOL), Inc("④\ninclude::④[]\n④", &[("é", "④\n"), ("a", "b")], NONE, NOL), Inc("a\r\ninclude::f[]\r\n①b", &[("f", "x\r\n①y\r\n")], NONE, NOL), Inc("x\n\n:lock: g\ninclude::{lock}[]\n②", &[("f", "F"), ("g", "G")], NONE, NOL), Inc(":lock!:\n\ninclude::{lo②k}[]\n", &[("f", "F"), ("g", "G")], NONE, NOL),
    Inc("⑤⑤⑤include::f[]\n⑤⑤⑤", &[("f", "⑤⑤")], &[b"\na:"], NOL), Inc("include::⑤⑤⑤⑤[⑤⑤]", &[("f", "F"), ("ff", "E")], &[b"f {}"], NOL), Inc("include::f⑤⑤⑤⑤\nb", &[("f", "F")], &[b"[] f"], NOL),
];
const INC_D: &[Inc] = &[
    Inc("❶\n❶\n❶\n❶", &[("f", "❷\n❷"), ("g", "G")], NONE, IL), Inc("= T\n❶\n❶\n❶\n\n❶\n", &[("f", "❷"), ("g", "G\n")], NONE, IL), Inc("include::②②[②]\na", &[("f", "F"), ("ff", "E")], NONE, NOL), Inc("include::f②②\nb", &[("f", "F\n")], NONE, NOL), Inc("include::f[②②②]\nb", &[("f", "F\n")], NONE, NOL), Inc("a\n\ninclude::f[]\nb", &[("f", "①①①")], NONE, NOL), Inc(":d: ②②\n\ninclude::{d}[]\n", &[("f", "F"), ("gg", "G")], NONE, NOL),
    Inc("⑤⑤⑤⑤include::f[]\n⑤⑤⑤⑤", &[("f", "⑤⑤⑤")], &[b"\na:"], NOL), Inc("include::⑤⑤⑤⑤⑤[⑤⑤⑤]", &[("f", "F"), ("ff", "E")], &[b"f {}"], NOL),
];
fn includes(t: &[Inc], job: usize) {
    let Inc(main, files, alpha, lists) = &t[job];
    let fill = |s: &str| {
        let mut out = String::new();
        for c in s.chars() {
            match c {
                '❶'..='❺' => api::token(lists[c as usize - '❶' as usize], &mut out),
                _ => {
                    let mut u = [0u8; 4];
                    tpl::fill_into(c.encode_utf8(&mut u), alpha, &mut out)
                }
            }
        }
        out
    };
    let src = fill(main);
    let files = Files { files: files.iter().map(|(n, t)| (n.to_string(), fill(t))).collect(), log: Default::default() };
    let named = api::pick(2) == 1;
    let mut note = format!("{named}\u{1}{src}");
    for (n, t) in &files.files {
        note.push_str(&format!("\u{1}{n}\u{2}{t}"));
    }
    api::note(&note);
    let continued = |s: &str| s.contains("\\\n") || s.contains("\\\r") || s.ends_with('\\');
    if src.contains("\nif") || src.starts_with("if") || continued(&src) || files.files.iter().any(|(_, t)| continued(t)) {
        return;
    }
    let mut p = Parser::default().with_include_file_handler(files.clone()).with_intrinsic_attribute("lock", "f", ModificationContext::ApiOnly);
    if named {
        p = p.with_primary_file_name("main");
    }
    let d = p.parse(&src);
    let mut r = Ref { files: &files, attrs: vec![("lock".into(), Some("f".into()))], locked: vec!["lock".into()], header: true, titled: false, extra: 0, entries: true, out: String::new(), origin: vec![], log: vec![] };
    for (n, v) in [("empty", ""), ("sp", " ")] {
        r.attrs.push((n.into(), Some(v.into())));
    }
    let root = named.then_some("main");
    r.file(&src, root, 1);
    let text = d.span().data().to_owned();
    let untouched = !named && !src.starts_with("include::") && !src.contains("\ninclude::");
    if untouched {
        check!(text == src.trim_end(), "a document without directives is changed");
    } else {
        check!(text == r.out.trim_end(), "included text is not put in the place of its directive");
        for (i, (f, n)) in r.origin.iter().enumerate() {
            check!(d.source_map().original_file_and_line(i + 1) == Some(SourceLine(f.clone(), *n)), "source map: wrong file or line");
        }
        let log = files.log.borrow();
        check!(log.len() == r.log.len(), "number of includes asked for");
        for ((s, t, _), (ws, wt)) in log.iter().zip(&r.log) {
            check!(s == ws, "including file handed to the handler");
            check!(t == wt, "target handed to the handler");
        }
        // the rest of the parser sees just that text
        let mut q = Parser::default().with_intrinsic_attribute("lock", "f", ModificationContext::ApiOnly);
        if crate::p_block::plain(&r.out) {
            let one = Skel::of(&d, true, false);
            let two = Skel::of(&q.parse(&r.out), true, false);
            check!(one == two, "a document with includes differs from the included text");
        }
    }
    api::cover(1);
    api::digest(|| format!("{d:?}"));
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness { name: "spans", jobs: || SPANS.len(), run: |j| spans(fill(&SPANS[j])) },
        Harness { name: "spans_wide", jobs: wide_jobs, run: |j| spans(wide(j)) },
        Harness { name: "spans_deep", jobs: || SPANS_D.len(), run: |j| spans(fill(&SPANS_D[j])) },
        Harness { name: "lines", jobs: || LINEST.len(), run: |j| lines(fill(&LINEST[j])) },
        Harness { name: "lines_wide", jobs: wide_jobs, run: |j| lines(wide(j)) },
        Harness { name: "lines_deep", jobs: || LINEST_D.len(), run: |j| lines(fill(&LINEST_D[j])) },
        Harness { name: "reuse", jobs: || REUSE.len(), run: |j| reuse(REUSE, j) },
        Harness { name: "reuse_deep", jobs: || REUSE_D.len(), run: |j| reuse(REUSE_D, j) },
        Harness { name: "renderer", jobs: || ROUTE.len(), run: |j| routed(tpl::fill(ROUTE[j], &[])) },
        Harness { name: "renderer_wide", jobs: wide_jobs, run: |j| routed(wide(j)) },
        Harness { name: "renderer_deep", jobs: || ROUTE_D.len(), run: |j| routed(tpl::fill(ROUTE_D[j], &[])) },
        Harness { name: "includes", jobs: || INC.len(), run: |j| includes(INC, j) },
        Harness { name: "includes_deep", jobs: || INC_D.len(), run: |j| includes(INC_D, j) },
    ]
}
