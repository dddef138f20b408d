//! Reference model of the document structure: header, blocks, sections, IDs,
//! document attributes and warnings.  It works on byte ranges of the source,
//! line by line, and shares no code with the crate.
use crate::refinl::{self, Env, NORMAL, RList, Step, Val};
use crate::rx::Rx;
use asciidoc_parser::attributes::Attrlist;
use asciidoc_parser::blocks::{Block, BreakType, IsBlock, MediaType, SectionType, SimpleBlockStyle};
use asciidoc_parser::document::{InterpretedValue, RefType};
use asciidoc_parser::{Document, HasSpan, Span};
use std::sync::LazyLock;

pub type R = (usize, usize);

// what a check compares
/// kinds, order, nesting, extents of blocks
pub const TREE: u32 = 1;
/// substituted text
pub const TEXT: u32 = 2;
/// titles, anchors, attribute lists, roles, options, styles, IDs of blocks
pub const META: u32 = 4;
/// section levels, types, numbers
pub const SECT: u32 = 8;
/// section IDs and the catalog
pub const IDS: u32 = 16;
pub const HEAD: u32 = 32;
pub const WARN: u32 = 64;
/// attribute entries
pub const ATTR: u32 = 128;
/// media macros
pub const MEDIA: u32 = 256;
pub const ALL: u32 = 511;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lock {
    Anywhere,
    ApiOnly,
    ApiOrHeader,
    ApiOrBody,
}
#[derive(Clone, Debug)]
pub struct Entry {
    pub span: R,
    pub name: R,
    pub raw: Option<R>,
    pub value: Val,
}
#[derive(Clone, Debug, Default)]
pub struct Meta {
    pub title: Option<(R, String)>,
    pub anchor: Option<R>,
    pub reftext: Option<R>,
    pub attrs: Option<(R, RList)>,
    pub src: usize,
    pub start: usize,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Paragraph,
    Literal,
    Listing,
    Source,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    Normal,
    Appendix,
    Discrete,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Attr(Entry),
    Simple { style: Style, content: R, rendered: String },
    Raw { context: &'static str, content: R, rendered: String },
    Compound { context: &'static str },
    Media { name: &'static str, target: R, list: R, attrs: RList },
    Section { level: usize, title: R, rendered: String, ty: Ty, id: Option<String>, number: Option<(Ty, Vec<usize>)> },
    Break { page: bool },
    Preamble,
}
#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    pub span: R,
    pub meta: Meta,
    pub kids: Vec<Node>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RAuthor {
    pub name: String,
    pub first: String,
    pub middle: Option<String>,
    pub last: Option<String>,
    pub email: Option<String>,
}
#[derive(Clone, Debug, Default)]
pub struct Hdr {
    pub title: Option<(R, String)>,
    pub attrs: Vec<Entry>,
    pub authors: Option<(R, Vec<RAuthor>)>,
    pub rev: Option<(R, Option<String>, String, Option<String>)>,
    pub comments: Vec<R>,
    pub span: R,
}
pub struct Ref {
    pub id: String,
    pub text: Option<String>,
    pub section: bool,
}
#[derive(Debug)]
pub struct Warn {
    pub kind: String,
    pub at: R,
    /// the reported span equals `at`; otherwise it lies within
    pub exact: bool,
}

pub struct Cx<'s> {
    pub s: &'s str,
    pub env: Env,
    pub locks: Vec<(String, Lock)>,
    pub cat: Vec<Ref>,
    pub warns: Vec<Warn>,
    levels: usize,
    num: Vec<usize>,
    app: Vec<usize>,
    appendix: bool,
    pub mask: u32,
}
pub struct Doc {
    pub hdr: Hdr,
    pub blocks: Vec<Node>,
}

fn ws(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
pub fn xml_name(s: &str) -> bool {
    let mut c = s.chars();
    let Some(f) = c.next() else { return false };
    (f == ':' || f == '_' || f.is_alphabetic())
        && c.all(|c| matches!(c, ':' | '_' | '.' | '-' | '\u{b7}') || c.is_alphanumeric())
}
fn run_of(t: &str, set: &[u8]) -> bool {
    let b = t.as_bytes();
    b.len() >= 4 && set.contains(&b[0]) && b.iter().all(|c| *c == b[0])
}
fn raw_delim(t: &str) -> bool {
    run_of(t, b"/-.+")
}
fn compound_delim(t: &str) -> bool {
    t == "--" || run_of(t, b"=*_")
}

static IDRE: LazyLock<Rx> = LazyLock::new(|| Rx::new(r"<[^>]+>|&lt;[^&]*&gt;|&(?:[a-z][a-z]+\d{0,2}|#\d{2,5}|#x[\da-f]{2,4});|[^ \w\-.]+", ""));

pub fn base_id(title: &str, env: &Env) -> String {
    let prefix = env.text("idprefix").unwrap_or_default();
    let sep = env.text("idseparator").unwrap_or_default().chars().next();
    let t = IDRE.gsub(&title.to_lowercase(), |_, _| {});
    let mut id = String::new();
    for c in t.chars() {
        if c == ' ' || c == '.' || c == '-' {
            if let Some(s) = sep {
                id.push(s);
            }
        } else {
            id.push(c);
        }
    }
    if let Some(s) = sep {
        let mut sq = String::new();
        for c in id.chars() {
            if !(c == s && sq.ends_with(s)) {
                sq.push(c);
            }
        }
        if sq.ends_with(s) {
            sq.pop();
        }
        if prefix.is_empty() && sq.starts_with(s) {
            sq.remove(0);
        }
        id = sq;
    }
    prefix + &id
}

pub fn remap(n: &str) -> String {
    let n = n.to_lowercase();
    if n == "hardbreaks" { "hardbreaks-option".into() } else { n }
}

impl<'s> Cx<'s> {
    pub fn new(s: &'s str) -> Cx<'s> {
        let mut locks = vec![];
        for n in ["empty", "sp", "deg", "plus"] {
            locks.push((n.to_string(), Lock::ApiOnly));
        }
        for n in ["toc", "sectnumlevels"] {
            locks.push((n.to_string(), Lock::ApiOrHeader));
        }
        Cx { s, env: Env::default(), locks, cat: vec![], warns: vec![], levels: 3, num: vec![], app: vec![], appendix: false, mask: ALL }
    }
    pub fn api(&mut self, n: &str, v: Val, l: Lock) {
        let n = remap(n);
        self.locks.retain(|x| x.0 != n);
        self.locks.push((n.clone(), l));
        self.env.set(&n, v);
    }
    fn lock(&self, n: &str) -> Lock {
        self.locks.iter().find(|x| x.0 == n).map_or(Lock::Anywhere, |x| x.1)
    }
    fn is(&self, m: u32) -> bool {
        self.mask & m != 0
    }
    fn subst(&self, text: &str, steps: &[Step], hard: bool) -> String {
        if self.is(TEXT | IDS) { refinl::apply(text, steps, &self.env, hard, false) } else { String::new() }
    }
    pub fn t(&self, r: R) -> &'s str {
        &self.s[r.0..r.1]
    }
    fn b(&self) -> &'s [u8] {
        self.s.as_bytes()
    }
    fn warn(&mut self, kind: &str, at: R, exact: bool) {
        self.warns.push(Warn { kind: format!("WarningType::{kind}"), at, exact });
    }

    // ---------------------------------------------------------------- lines
    fn line(&self, p: usize, end: usize) -> (usize, usize) {
        let b = self.b();
        let mut e = p;
        while e < end && b[e] != b'\n' {
            e += 1;
        }
        let next = if e < end { e + 1 } else { e };
        if e > p && b[e - 1] == b'\r' {
            e -= 1;
        }
        (e, next)
    }
    fn norm(&self, p: usize, end: usize) -> (usize, usize) {
        let (mut e, next) = self.line(p, end);
        while e > p && ws(self.b()[e - 1]) {
            e -= 1;
        }
        (e, next)
    }
    fn blank(&self, r: R) -> bool {
        self.t(r).chars().all(char::is_whitespace)
    }
    fn skip_blank(&self, mut p: usize, end: usize) -> usize {
        while p < end {
            let (e, next) = self.line(p, end);
            if !self.blank((p, e)) {
                break;
            }
            p = next;
        }
        p
    }
    fn trim_end(&self, r: R) -> R {
        (r.0, r.0 + self.t(r).trim_end().len())
    }
    fn trim_line_end(&self, r: R) -> R {
        let t = self.t(r);
        let n = if t.ends_with("\r\n") { 2 } else if t.ends_with('\n') { 1 } else { 0 };
        (r.0, r.1 - n)
    }

    // ---------------------------------------------------------------- document attributes
    /// an attribute entry at `p`
    pub fn entry(&self, p: usize, end: usize) -> Option<(Entry, usize)> {
        let b = self.b();
        let mut q = p;
        loop {
            let (e, next) = self.norm(q, end);
            if e > q && b[e - 1] == b'\\' {
                q = next;
            } else {
                break;
            }
        }
        let after = self.line(q, end).1;
        let mut e = after;
        if e > p && b[e - 1] == b'\n' {
            e -= 1;
        }
        if e > p && b[e - 1] == b'\r' {
            e -= 1;
        }
        while e > p && ws(b[e - 1]) {
            e -= 1;
        }
        let mut i = p;
        if i >= e || b[i] != b':' {
            return None;
        }
        i += 1;
        let mut unset = false;
        if i < e && b[i] == b'!' {
            unset = true;
            i += 1;
        }
        let n0 = i;
        while i < e && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || (b[i] == b'-' && i > n0)) {
            i += 1;
        }
        if i == n0 {
            return None;
        }
        let name = (n0, i);
        if i < e && b[i] == b'!' && !unset {
            unset = true;
            i += 1;
        }
        if i >= e || b[i] != b':' {
            return None;
        }
        i += 1;
        if i < e && !ws(b[i]) {
            return None;
        }
        let (value, raw) = if unset {
            (Val::Unset, None)
        } else if i >= e {
            (Val::Set, None)
        } else {
            while i < e && ws(b[i]) {
                i += 1;
            }
            (Val::Value(self.entry_value(self.t((i, e)))), Some((i, e)))
        };
        Some((Entry { span: self.trim_end((p, after)), name, raw, value }, after))
    }
    /// joins the lines of a value and substitutes it
    fn entry_value(&self, raw: &str) -> String {
        let mut v = String::new();
        let ls: Vec<&str> = raw.lines().collect();
        for (i, l) in ls.iter().enumerate() {
            let mut l = l.trim_end_matches([' ', '\t']);
            if i > 0 {
                l = l.trim_start_matches([' ', '\t']);
            }
            let cont = raw.contains('\n') || l.ends_with('\\');
            if cont {
                l = l.trim_end_matches('\\').trim_end_matches([' ', '\t']);
            }
            if i + 1 < ls.len() && (l == "+" || l.ends_with(" +")) {
                v.push_str(l.trim_end_matches('+').trim_end_matches([' ', '\t']));
                v.push('\n');
            } else {
                v.push_str(l);
                if i + 1 < ls.len() {
                    v.push(' ');
                }
            }
        }
        refinl::header(&v, &self.env)
    }
    fn assign(&mut self, e: &Entry, header: bool) {
        let n = remap(self.t(e.name));
        let locked = match self.lock(&n) {
            Lock::Anywhere => false,
            Lock::ApiOnly => true,
            Lock::ApiOrHeader => !header,
            Lock::ApiOrBody => header,
        };
        if locked {
            self.warn(&format!("AttributeValueIsLocked({n:?})"), e.span, true);
        } else {
            self.env.set(&n, e.value.clone());
        }
    }
    /// a value the header implies
    fn derive(&mut self, n: &str, v: &str) {
        if !matches!(self.lock(n), Lock::ApiOnly | Lock::ApiOrBody) {
            self.env.set(n, Val::Value(v.to_string()));
        }
    }

    // ---------------------------------------------------------------- block metadata
    pub fn meta(&self, p: usize, end: usize, w: &mut Vec<Warn>) -> Meta {
        let b = self.b();
        let mut warn = |k: &str, at: R, exact: bool| w.push(Warn { kind: format!("WarningType::{k}"), at, exact });
        let p = self.skip_blank(p, end);
        let mut m = Meta { src: p, start: p, ..Meta::default() };
        let mut title = None;
        loop {
            while m.start > m.src && self.comment(m.start, end) {
                m.start = self.line(m.start, end).1;
            }
            let p = m.start;
            let (e, next) = self.norm(p, end);
            let t = self.t((p, e));
            if title.is_none() && t.starts_with('.') && !t.starts_with("..") && !(p + 1 < e && ws(b[p + 1])) {
                title = Some((p + 1, e));
                m.start = next;
                continue;
            }
            if m.anchor.is_none() && t.starts_with("[[") && t.ends_with("]]") {
                let r = (p + 2, e - 2);
                let inner = self.t(r);
                if inner.is_empty() {
                    warn("EmptyBlockAnchorName", r, true);
                } else {
                    let (name, text) = match inner.find(',') {
                        Some(c) if c + 1 < inner.len() => ((r.0, r.0 + c), Some((r.0 + c + 1, r.1))),
                        _ => (r, None),
                    };
                    if xml_name(self.t(name)) {
                        m.anchor = Some(name);
                        m.reftext = text;
                        m.start = next;
                        continue;
                    }
                    warn("InvalidBlockAnchorName", name, true);
                }
            }
            if m.attrs.is_none() && t.starts_with('[') && t.ends_with(']') && t.len() >= 2 {
                let r = (p + 1, e - 1);
                let inner = self.t(r);
                if !inner.starts_with([' ', '\t']) && !(inner.starts_with('[') && inner.ends_with(']')) {
                    let l = refinl::attrlist(inner, &self.env, true);
                    for k in &l.warnings {
                        warn(k, r, false);
                    }
                    m.attrs = Some((r, l));
                    m.start = next;
                    continue;
                }
            }
            break;
        }
        m.title = title.map(|r| (r, if self.is(TEXT | IDS) { refinl::normal(self.t(r), &self.env) } else { String::new() }));
        m
    }

    // ---------------------------------------------------------------- blocks
    /// blocks of [p, end); inside a section of the given level, up to its end
    fn blocks(&mut self, p: usize, end: usize, mut stop: Option<(usize, usize)>) -> (Vec<Node>, usize) {
        let mut out = vec![];
        let mut p = self.skip_blank(p, end);
        loop {
            let here = p;
            while p < end && (self.comment(p, end) || self.skip_blank(p, end) > p) {
                p = if self.comment(p, end) { self.line(p, end).1 } else { self.skip_blank(p, end) };
            }
            if p >= end {
                p = here;
                break;
            }
            if let Some((level, recent)) = &mut stop {
                let m = self.meta(p, end, &mut vec![]);
                if !discrete(&m) && m.attrs.as_ref().and_then(|a| a.1.style()) != Some("literal") {
                    let known = self.warns.len();
                    let (found, _) = self.heading(m.start, end);
                    self.warns.truncate(known);
                    if let Some((l, ..)) = found {
                        if l > *recent + 1 {
                            let e = self.norm(p, end).0;
                            let k = format!("SectionHeadingLevelSkipped({}, {l})", *recent);
                            self.warn(&k, (p, e), true);
                        }
                        *recent = l;
                        if l <= *level {
                            p = here;
                            break;
                        }
                    }
                }
            }
            let (n, next) = self.block(p, end);
            out.push(n);
            p = self.skip_blank(next, end);
        }
        (out, p)
    }

    /// a comment line at `p`
    fn comment(&self, p: usize, end: usize) -> bool {
        let t = &self.s[p..end];
        t.starts_with("//") && !t.starts_with("///")
    }
    /// a section heading at `p`: level, title, next line; warnings otherwise
    fn heading(&mut self, p: usize, end: usize) -> (Option<(usize, R, usize)>, ()) {
        let b = self.b();
        let (e, next) = self.norm(p, end);
        if p >= e || (b[p] != b'=' && b[p] != b'#') || self.blank((p, e)) {
            return (None, ());
        }
        let mut i = p;
        while i < e && b[i] == b[p] {
            i += 1;
        }
        let n = i - p;
        if n == 1 {
            self.warn("Level0SectionHeadingNotSupported", (p, e), true);
            return (None, ());
        }
        if n > 6 {
            self.warn(&format!("SectionHeadingLevelExceedsMaximum({})", n - 1), (p, e), true);
            return (None, ());
        }
        let k = i;
        while i < e && ws(b[i]) {
            i += 1;
        }
        (if i == k { None } else { Some((n - 1, (i, e), next)) }, ())
    }

    fn register(&mut self, n: &Node) {
        let id = n.meta.anchor.map(|a| self.t(a).to_string()).or_else(|| n.meta.attrs.as_ref().and_then(|a| a.1.id().map(str::to_string)));
        if let Some(id) = id
            && !self.catalog(&id, n.meta.reftext.map(|r| self.t(r).to_string()).or_else(|| n.meta.title.as_ref().map(|t| t.1.clone())), false)
        {
            self.warn(&format!("DuplicateId({id:?})"), n.span, true);
        }
    }
    fn catalog(&mut self, id: &str, text: Option<String>, section: bool) -> bool {
        if self.cat.iter().any(|r| r.id == id) {
            return false;
        }
        self.cat.push(Ref { id: id.to_string(), text, section });
        true
    }

    fn block(&mut self, p: usize, end: usize) -> (Node, usize) {
        let b = self.b();
        let first = self.t((p, self.line(p, end).0));
        if first.starts_with(':')
            && let Some((e, next)) = self.entry(p, end)
        {
            self.assign(&e, false);
            return (Node { span: e.span, kind: Kind::Attr(e), meta: Meta::default(), kids: vec![] }, next);
        }
        let mut w = vec![];
        let m = self.meta(p, end, &mut w);
        self.warns.append(&mut w);
        let style = m.attrs.as_ref().and_then(|a| a.1.style().map(str::to_string));
        let hard = m.attrs.as_ref().is_some_and(|a| a.1.has_option("hardbreaks"));
        let (e, next) = self.norm(m.start, end);
        let t = self.t((m.start, e));
        if style.as_deref() != Some("literal") && !t.is_empty() {
            if raw_delim(t) {
                return self.raw(m, next, end, t, hard);
            }
            if compound_delim(t) {
                return self.compound(m, next, end, t);
            }
            for name in ["image", "video", "audio"] {
                if let Some(rest) = t.strip_prefix(name).and_then(|r| r.strip_prefix("::"))
                    && rest.ends_with(']')
                    && let Some(k) = rest.find('[')
                    && k > 0
                {
                    let t0 = m.start + name.len() + 2;
                    let list = (t0 + k + 1, e - 1);
                    let attrs = refinl::attrlist(self.t(list), &self.env, false);
                    for k in &attrs.warnings {
                        self.warn(k, list, false);
                    }
                    let n = Node { kind: Kind::Media { name, target: (t0, t0 + k), list, attrs }, span: self.trim_end((m.src, next)), meta: m, kids: vec![] };
                    self.register(&n);
                    return (n, next);
                }
            }
            if let (Some((level, title, next)), ()) = self.heading(m.start, end) {
                return self.section(m, level, title, next, end, hard);
            }
            if matches!(t, "'''" | "---" | "- - -" | "***" | "* * *" | "<<<") {
                let n = Node { kind: Kind::Break { page: b[m.start] == b'<' }, span: self.trim_end((m.src, next)), meta: m, kids: vec![] };
                self.register(&n);
                return (n, next);
            }
        }
        if self.paragraph_end(m.start, end).is_some() || (m.title.is_none() && m.anchor.is_none() && m.attrs.is_none()) {
            self.paragraph(m, end, hard)
        } else {
            // a title or attribute list with no block is text
            self.warn("MissingBlockAfterTitleOrAttributeList", (m.src, end), false);
            let m = Meta { src: m.src, start: m.src, ..Meta::default() };
            self.paragraph(m, end, false)
        }
    }

    fn steps(&self, m: &Meta, from: &[Step]) -> Vec<Step> {
        let mut steps = from.to_vec();
        if let Some((_, l)) = &m.attrs {
            if l.style() == Some("pass") {
                steps = vec![];
            }
            if let Some(s) = l.named("subs")
                && let Some(x) = refinl::sub_spec(s, from)
            {
                steps = x;
            }
        }
        steps
    }

    fn raw(&mut self, m: Meta, body: usize, end: usize, delim: &str, hard: bool) -> (Node, usize) {
        let (context, from): (&'static str, &[Step]) = match delim.as_bytes()[0] {
            b'/' => ("comment", &[]),
            b'-' => ("listing", &[Step::C]),
            b'.' => ("literal", &[Step::C]),
            _ => ("pass", &[]),
        };
        let mut q = body;
        let mut close = None;
        while q < end {
            let (e, next) = self.norm(q, end);
            if self.t((q, e)) == delim {
                close = Some(next);
                break;
            }
            q = next;
        }
        let after = close.unwrap_or(end);
        if close.is_none() {
            q = end;
            self.warn("UnterminatedDelimitedBlock", (m.start, m.start + delim.len()), true);
        }
        let content = self.trim_line_end((body, q));
        let rendered = self.subst(self.t(content), &self.steps(&m, from), hard);
        let n = Node { kind: Kind::Raw { context, content, rendered }, span: self.trim_line_end((m.src, after)), meta: m, kids: vec![] };
        self.register(&n);
        (n, after)
    }

    fn compound(&mut self, m: Meta, body: usize, end: usize, delim: &str) -> (Node, usize) {
        let context = match delim.as_bytes()[0] {
            b'=' => "example",
            b'-' => "open",
            b'*' => "sidebar",
            _ => "quote",
        };
        let mut q = body;
        let mut close = None;
        while q < end {
            let (e, next) = self.norm(q, end);
            if self.t((q, e)) == delim {
                close = Some((e, next));
                break;
            }
            q = next;
        }
        let (inner, e, after) = match close {
            Some((e, next)) => (q, e, next),
            None => {
                self.warn("UnterminatedDelimitedBlock", (m.start, m.start + delim.len()), true);
                (end, end, end)
            }
        };
        let (kids, _) = self.blocks(body, inner, None);
        let n = Node { kind: Kind::Compound { context }, span: self.trim_end((m.src, e)), meta: m, kids };
        self.register(&n);
        (n, after)
    }

    fn section(&mut self, m: Meta, level: usize, title: R, next: usize, end: usize, hard: bool) -> (Node, usize) {
        let disc = discrete(&m);
        let ids = self.env.is_set("sectids");
        if level == 1 && !disc {
            self.appendix = m.attrs.as_ref().and_then(|a| a.1.style()) == Some("appendix");
        }
        let ty = if disc { Ty::Discrete } else if self.appendix { Ty::Appendix } else { Ty::Normal };
        let mut number = None;
        if !disc && self.env.is_set("sectnums") && level <= self.levels {
            let c = if self.appendix { &mut self.app } else { &mut self.num };
            if c.len() >= level {
                c.truncate(level);
                c[level - 1] += 1;
            } else {
                while c.len() < level {
                    c.push(1);
                }
            }
            number = Some((ty, c.clone()));
        }
        let rendered = self.subst(self.t(title), NORMAL, hard);
        let base = if self.is(IDS) { base_id(&rendered, &self.env) } else { String::new() };
        let (kids, after) = if disc { (vec![], self.skip_blank(next, end)) } else { self.blocks(next, end, Some((level, level))) };
        let manual = m.anchor.map(|a| self.t(a).to_string()).or_else(|| m.attrs.as_ref().and_then(|a| a.1.id().map(str::to_string)));
        let text = m.attrs.as_ref().and_then(|a| a.1.named("reftext").map(str::to_string)).unwrap_or_else(|| rendered.clone());
        let mut id = None;
        match manual {
            Some(x) => {
                if !self.catalog(&x, Some(text), true) {
                    self.warn(&format!("DuplicateId({x:?})"), (m.src, next), false);
                }
            }
            None if ids => {
                let mut x = base.clone();
                let mut k = 2;
                while !self.catalog(&x, Some(text.clone()), true) {
                    x = format!("{base}-{k}");
                    k += 1;
                }
                id = Some(x);
            }
            None => {}
        }
        if level == 1 && !disc {
            self.appendix = false;
        }
        let span = self.trim_end((m.src, after));
        (Node { kind: Kind::Section { level, title, rendered, ty, id, number }, span, meta: m, kids }, after)
    }

    /// the line after the paragraph that starts at `p`
    fn paragraph_end(&self, p: usize, end: usize) -> Option<usize> {
        let mut q = p;
        while q < end {
            let (e, next) = self.norm(q, end);
            let t = self.t((q, e));
            if self.blank((q, e)) {
                break;
            }
            if q != p && (t == "+" || (t.starts_with('[') && t.ends_with(']')) || raw_delim(t) || compound_delim(t)) {
                break;
            }
            q = next;
        }
        if q == p { None } else { Some(q) }
    }
    fn paragraph(&mut self, m: Meta, end: usize, hard: bool) -> (Node, usize) {
        let b = self.b();
        let p = m.start;
        let next = self.paragraph_end(p, end).unwrap_or(p);
        let mut indent = 0;
        while p + indent < next && ws(b[p + indent]) {
            indent += 1;
        }
        let mut text = String::new();
        let mut some = false;
        let mut q = p;
        while q < next {
            let (e, n) = self.norm(q, next);
            let mut l = self.t((q, e));
            q = n;
            if l.starts_with("//") && !l.starts_with("///") {
                continue;
            }
            let own = l.len() - l.trim_start_matches([' ', '\t']).len();
            if own < l.len() {
                l = &l[own.min(indent)..];
            }
            if some {
                text.push('\n');
            }
            some = true;
            text.push_str(l.trim_end());
        }
        let style = match m.attrs.as_ref().and_then(|a| a.1.style()) {
            Some("normal") => Style::Paragraph,
            Some("literal") => Style::Literal,
            Some("listing") => Style::Listing,
            Some("source") => Style::Source,
            _ if indent > 0 => Style::Literal,
            _ => Style::Paragraph,
        };
        let from: &[Step] = if matches!(style, Style::Literal | Style::Source) { &[Step::C] } else { NORMAL };
        let rendered = self.subst(&text, &self.steps(&m, from), hard);
        let n = Node { kind: Kind::Simple { style, content: self.trim_end((p, next)), rendered }, span: self.trim_end((m.src, next)), meta: m, kids: vec![] };
        self.register(&n);
        (n, next)
    }

    // ---------------------------------------------------------------- header
    fn header(&mut self) -> (Hdr, usize) {
        let end = self.s.len();
        let mut h = Hdr::default();
        let mut p = 0;
        while p < end {
            let (e, next) = self.norm(p, end);
            let t = self.t((p, e));
            if self.blank((p, e)) {
                if h.title.is_some() {
                    break;
                }
                p = next;
            } else if t.starts_with("//") && !t.starts_with("///") {
                h.comments.push((p, e));
                p = next;
            } else if t.starts_with(':')
                && let Some((en, next)) = self.entry(p, end)
            {
                if self.t(en.name).eq_ignore_ascii_case("author")
                    && let Some(raw) = en.raw
                    && let Some(a) = self.author(self.t(raw))
                {
                    self.derive("firstname", &a.first);
                    if let Some(x) = &a.middle {
                        self.derive("middlename", x);
                    }
                    if let Some(x) = &a.last {
                        self.derive("lastname", x);
                    }
                    self.derive("authorinitials", &initials(&a));
                    if let Some(x) = &a.email {
                        self.derive("email", x);
                    }
                }
                self.assign(&en, true);
                h.attrs.push(en);
                p = next;
            } else if h.title.is_none() && t.starts_with("= ") {
                let mut i = p + 2;
                while i < e && ws(self.b()[i]) {
                    i += 1;
                }
                let v = refinl::header(self.t((i, e)), &self.env);
                self.derive("doctitle", &v);
                h.title = Some(((i, e), v));
                p = next;
            } else if h.title.is_some() && h.authors.is_none() {
                let list: Vec<RAuthor> = t.split("; ").filter_map(|a| self.author(a)).collect();
                for (i, a) in list.iter().enumerate() {
                    let n = |s: &str| if i == 0 { s.to_string() } else { format!("{s}_{}", i + 1) };
                    self.derive(&n("author"), &a.name);
                    self.derive(&n("authorinitials"), &initials(a));
                    self.derive(&n("firstname"), &a.first);
                    for (k, v) in [("middlename", &a.middle), ("lastname", &a.last), ("email", &a.email)] {
                        if let Some(v) = v {
                            self.derive(&n(k), v);
                        }
                    }
                }
                h.authors = Some(((p, e), list));
                p = next;
            } else if h.title.is_some() && h.rev.is_none() {
                let (number, date, remark) = revision(t);
                if let Some(n) = &number {
                    self.derive("revnumber", n);
                }
                self.derive("revdate", &date);
                if let Some(r) = &remark {
                    self.derive("revremark", r);
                }
                let sub = |s: String| refinl::header(&s, &self.env);
                h.rev = Some(((p, e), number.map(sub), refinl::header(&date, &self.env), remark.map(|s| refinl::header(&s, &self.env))));
                p = next;
            } else {
                if h.title.is_some() {
                    self.warn("DocumentHeaderNotTerminated", (p, e), true);
                }
                break;
            }
        }
        let start = self.skip_blank(0, end).min(p.max(self.skip_blank(0, end)));
        h.span = self.trim_end((start, p.max(start)));
        (h, self.skip_blank(p, end))
    }

    pub fn author(&self, s: &str) -> Option<RAuthor> {
        let s = s.trim();
        if s.is_empty() {
            return None;
        }
        let un = |s: &str| s.replace('_', " ");
        let whole = |s: &str| RAuthor { name: un(s), first: un(s), middle: None, last: None, email: None };
        if s.starts_with('{') && s.ends_with('}') && s.matches('{').count() == 1 {
            return Some(whole(&refinl::attributes(s, &self.env)));
        }
        let encode = |t: &str| (t.contains('<') && t.contains('>')) || (t.contains('&') && !t.contains("&amp;"));
        let split = |s: &str| -> Option<RAuthor> {
            let (names, email) = match s.find('<') {
                Some(k) => {
                    let e = s[k + 1..].strip_suffix('>')?;
                    if e.is_empty() || e.contains('>') || !s[..k].ends_with(' ') {
                        return None;
                    }
                    (s[..k].trim_end_matches(' '), Some(e.to_string()))
                }
                None => (s, None),
            };
            let w: Vec<&str> = names.split(' ').filter(|x| !x.is_empty()).collect();
            let head = |c: char| c == '_' || c == '&' || c == '#' || c == ';' || c.is_alphabetic() || c.is_numeric();
            if names.starts_with(' ') || names.ends_with(' ') || w.is_empty() || w.len() > 3 {
                return None;
            }
            for x in &w {
                let mut c = x.chars();
                if !c.next().is_some_and(head) || !c.all(|c| head(c) || matches!(c, '-' | '\'' | '.')) {
                    return None;
                }
            }
            Some(RAuthor {
                name: un(names),
                first: un(w[0]),
                middle: if w.len() == 3 { Some(un(w[1])) } else { None },
                last: if w.len() > 1 { Some(un(w[w.len() - 1])) } else { None },
                email,
            })
        };
        let one = |s: &str| -> String {
            // a part that is one attribute reference is inserted as it is
            let t = refinl::attributes(s, &self.env);
            if s.matches('{').count() > 1 && encode(&t) { refinl::specialchars(&t) } else { t }
        };
        if let Some(mut a) = split(s) {
            if let Some(e) = &a.email {
                a.email = Some(one(e));
            }
            return Some(a);
        }
        let mut t = s.to_string();
        if s.contains('{') {
            t = refinl::attributes(s, &self.env);
            if s.matches('{').count() > 1 && encode(&t) {
                t = refinl::specialchars(&t);
            }
            if let Some(a) = split(&t) {
                return Some(a);
            }
        }
        if t.contains('<') && t.contains('>') {
            t = refinl::specialchars(&t);
        }
        Some(whole(&t))
    }

    pub fn document(&mut self) -> Doc {
        let (hdr, p) = self.header();
        self.levels = self.env.text("sectnumlevels").and_then(|s| s.parse().ok()).unwrap_or(3);
        let end = self.s.len();
        let (mut blocks, _) = self.blocks(p, end, None);
        let first = blocks.iter().position(|b| matches!(b.kind, Kind::Section { .. }) && !discrete(&b.meta));
        if let Some(k) = first
            && blocks[..k].iter().any(|b| !matches!(b.kind, Kind::Attr(_)))
        {
            let rest = blocks.split_off(k);
            let e = blocks.last().map_or(p, |b| b.span.1);
            let pre = Node { kind: Kind::Preamble, span: (p, e), meta: Meta::default(), kids: blocks };
            blocks = vec![pre];
            blocks.extend(rest);
        }
        Doc { hdr, blocks }
    }
}

fn discrete(m: &Meta) -> bool {
    matches!(m.attrs.as_ref().and_then(|a| a.1.style()), Some("discrete" | "float"))
}
pub fn initials(a: &RAuthor) -> String {
    let f = |s: Option<&str>| s.and_then(|s| s.chars().next());
    [f(Some(&a.first)), f(a.middle.as_deref()), f(a.last.as_deref())].into_iter().flatten().collect()
}
fn revision(t: &str) -> (Option<String>, String, Option<String>) {
    let clean = |s: &str| -> String {
        // without what precedes the first digit
        s.find(|c: char| c.is_ascii_digit()).map_or(String::new(), |k| s[k..].to_string())
    };
    let (left, remark) = match t.split_once(':') {
        Some((l, r)) => (l, Some(r.trim().to_string())),
        None => (t, None),
    };
    if let Some((n, d)) = left.split_once(',') {
        return (Some(clean(n.trim())), d.trim().to_string(), remark);
    }
    let l = left.trim();
    let b = l.as_bytes();
    let digit = l.strip_prefix('v').and_then(|r| r.chars().next()).is_some_and(|c| c.is_numeric() && (c.is_ascii_digit() || c == '٣'));
    if b.first() == Some(&b'v') && digit { (Some(clean(l)), String::new(), remark) } else { (None, l.to_string(), remark) }
}

// -------------------------------------------------------------------- comparison
macro_rules! ck {
    ($cx:expr, $a:expr, $c:expr, $m:expr) => {
        if $cx.is($a) && !$c {
            crate::api::fail($m)
        }
    };
}

pub fn rng(s: &Span<'_>) -> R {
    (s.byte_offset(), s.byte_offset() + s.data().len())
}
fn opt(s: Option<Span<'_>>) -> Option<R> {
    s.map(|s| rng(&s))
}
pub fn same_list(l: &Attrlist<'_>, want: &RList) {
    let mut n = 0;
    for (i, a) in l.attributes().enumerate() {
        n += 1;
        let Some(w) = want.attrs.get(i) else { continue };
        check!(a.name() == w.name.as_deref(), "name of an element attribute");
        check!(a.value() == w.value, "value of an element attribute");
        if i == 0 {
            check!(a.shorthand_items().len() == w.items.len() && a.shorthand_items().iter().zip(&w.items).all(|(a, b)| a == b), "shorthand items of an attribute list");
        }
    }
    check!(n == want.attrs.len(), "number of element attributes");
    check!(l.anchor() == want.anchor.as_deref(), "anchor of an attribute list");
    check!(l.id() == want.id(), "id of an attribute list");
    check!(l.roles() == want.roles(), "roles of an attribute list");
    check!(l.options() == want.options(), "options of an attribute list");
    check!(l.block_style() == want.style(), "style of an attribute list");
    for k in 1..4 {
        check!(l.nth_attribute(k).map(|a| a.value()) == want.nth(k).map(|a| a.value.as_str()), "positional attribute");
    }
    for a in &want.attrs {
        if let Some(n) = &a.name {
            check!(l.named_attribute(n).map(|a| a.value()) == want.named(n), "named attribute");
        }
    }
    check!(l.nth_attribute(0).is_none(), "positional attribute 0");
    for n in ["a", "b", "id", "role", "alt"] {
        check!(l.named_attribute(n).map(|a| a.value()) == want.named(n), "named attribute");
        for k in 0..3 {
            let w = want.named(n).or_else(|| if k == 0 { None } else { want.nth(k).map(|a| a.value.as_str()) });
            check!(l.named_or_positional_attribute(n, k).map(|a| a.value()) == w, "named or positional attribute");
        }
    }
    for o in want.options() {
        check!(l.has_option(o), "has_option");
    }
    check!(["a", "o", ""].iter().all(|o| l.has_option(o) == want.options().contains(o)), "has_option");
}
fn same_entry(cx: &Cx<'_>, a: &asciidoc_parser::document::Attribute<'_>, w: &Entry) {
    if !cx.is(ATTR) {
        return;
    }
    check!(rng(&a.span()) == w.span, "span of an attribute entry");
    check!(rng(a.name()) == w.name, "name of an attribute entry");
    check!(opt(a.raw_value()) == w.raw, "raw value of an attribute entry");
    let ok = match (a.value(), &w.value) {
        (InterpretedValue::Value(v), Val::Value(x)) => v == x,
        (InterpretedValue::Set, Val::Set) | (InterpretedValue::Unset, Val::Unset) => true,
        _ => false,
    };
    check!(ok, "value of an attribute entry");
}

pub fn same_blocks<'a>(cx: &Cx<'_>, got: impl Iterator<Item = &'a Block<'a>>, want: &[Node]) {
    let mut n = 0;
    for g in got {
        let Some(w) = want.get(n) else {
            if cx.is(TREE) {
                crate::api::fail("more blocks than the source has")
            }
            return;
        };
        n += 1;
        if !same_block(cx, g, w) {
            return;
        }
    }
    ck!(cx, TREE, n == want.len(), "fewer blocks than the source has");
}
const CONTEXTS: &[&str] = &[
    "admonition", "audio", "colist", "dlist", "document", "example", "floating_title", "image", "list_item", "listing", "literal", "olist", "open", "page_break", "paragraph", "pass",
    "preamble", "quote", "section", "sidebar", "table", "table_cell", "thematic_break", "toc", "ulist", "verse", "video",
];
fn same_block<'a>(cx: &Cx<'_>, g: &'a Block<'a>, w: &Node) -> bool {
    let (context, model) = match (g, &w.kind) {
        (Block::DocumentAttribute(a), Kind::Attr(e)) => {
            same_entry(cx, a, e);
            ("attribute", "ContentModel::Empty")
        }
        (Block::Simple(b), Kind::Simple { style, content, rendered }) => {
            ck!(cx, TREE, rng(&b.content().original()) == *content, "extent of a paragraph's text");
            let st = match b.style() {
                SimpleBlockStyle::Paragraph => Style::Paragraph,
                SimpleBlockStyle::Literal => Style::Literal,
                SimpleBlockStyle::Listing => Style::Listing,
                SimpleBlockStyle::Source => Style::Source,
            };
            ck!(cx, TREE, st == *style, "style of a paragraph");
            ck!(cx, TEXT, b.content().rendered() == rendered, "rendered text of a paragraph");
            ck!(cx, TEXT, g.rendered_content() == Some(rendered.as_str()), "rendered content of a paragraph block");
            ("paragraph", "ContentModel::Simple")
        }
        (Block::RawDelimited(b), Kind::Raw { context, content, rendered }) => {
            ck!(cx, TREE, rng(&b.content().original()) == *content, "extent of a delimited block's content");
            ck!(cx, TEXT, b.content().rendered() == rendered, "rendered content of a delimited block");
            ck!(cx, TEXT, g.rendered_content() == Some(rendered.as_str()), "rendered content of a delimited block");
            (*context, if matches!(*context, "comment" | "pass") { "ContentModel::Raw" } else { "ContentModel::Verbatim" })
        }
        (Block::CompoundDelimited(_), Kind::Compound { context }) => (*context, "ContentModel::Compound"),
        (Block::Media(b), Kind::Media { name, target, list, attrs }) => {
            let n = match b.type_() {
                MediaType::Image => "image",
                MediaType::Video => "video",
                MediaType::Audio => "audio",
            };
            ck!(cx, TREE, n == *name, "kind of media");
            ck!(cx, MEDIA, b.target().map(rng) == Some(*target), "target of a media block");
            ck!(cx, MEDIA, rng(&b.macro_attrlist().span()) == *list, "extent of a media macro's attribute list");
            if cx.is(MEDIA) {
                same_list(b.macro_attrlist(), attrs);
            }
            (*name, "ContentModel::Empty")
        }
        (Block::Section(b), Kind::Section { level, title, rendered, ty, id, number }) => {
            ck!(cx, SECT, b.level() == *level, "level of a section");
            ck!(cx, SECT, rng(&b.section_title_source()) == *title, "extent of a section title");
            ck!(cx, TEXT, b.section_title() == rendered, "rendered section title");
            let t = match b.section_type() {
                SectionType::Normal => Ty::Normal,
                SectionType::Appendix => Ty::Appendix,
                SectionType::Discrete => Ty::Discrete,
            };
            ck!(cx, SECT, t == *ty, "type of a section");
            match (b.section_number(), number) {
                (None, None) => {}
                (Some(n), Some((ty, c))) => {
                    ck!(cx, SECT, n.components() == &c[..], "section number");
                    let mut s = String::new();
                    for (i, k) in c.iter().enumerate() {
                        if i > 0 {
                            s.push('.');
                        }
                        if i == 0 && *ty == Ty::Appendix && *k <= 26 {
                            s.push((b'A' + (*k as u8) - 1) as char);
                        } else {
                            s.push_str(&k.to_string());
                        }
                    }
                    ck!(cx, SECT, n.to_string() == s, "display of a section number");
                }
                _ => ck!(cx, SECT, false, "a section is numbered or not"),
            }
            if w.meta.anchor.is_none() && w.meta.attrs.as_ref().and_then(|a| a.1.id()).is_none() {
                ck!(cx, IDS, b.id() == id.as_deref(), "ID of a section");
            }
            ("section", "ContentModel::Compound")
        }
        (Block::Break(b), Kind::Break { page }) => {
            ck!(cx, TREE, (b.type_() == BreakType::Page) == *page, "type of a break");
            (if *page { "page_break" } else { "thematic_break" }, "ContentModel::Empty")
        }
        (Block::Preamble(_), Kind::Preamble) => ("preamble", "ContentModel::Compound"),
        _ => {
            if cx.is(TREE) {
                crate::api::fail("kind of block")
            }
            return false;
        }
    };
    ck!(cx, TREE, rng(&g.span()) == w.span, "span of a block");
    ck!(cx, TREE, &*g.raw_context() == context, "context of a block");
    ck!(cx, TREE, format!("{:?}", g.content_model()) == model, "content model of a block");
    let m = &w.meta;
    ck!(cx, META, opt(g.title_source()) == m.title.as_ref().map(|t| t.0), "extent of a block title");
    ck!(cx, TEXT, g.title() == m.title.as_ref().map(|t| t.1.as_str()), "rendered block title");
    ck!(cx, META, opt(g.anchor()) == m.anchor, "anchor of a block");
    ck!(cx, META, opt(g.anchor_reftext()) == m.reftext, "reference text of a block anchor");
    match (g.attrlist(), &m.attrs) {
        (None, None) => {}
        (Some(l), Some((r, x))) => {
            ck!(cx, META, rng(&l.span()) == *r, "extent of an attribute list");
            if cx.is(META) {
                same_list(l, x);
            }
            ck!(cx, META, g.roles() == x.roles() && g.options() == x.options(), "roles and options of a block");
        }
        _ => ck!(cx, META, false, "a block has an attribute list or not"),
    }
    let style = m.attrs.as_ref().and_then(|a| a.1.style());
    ck!(cx, META, g.declared_style() == style, "declared style of a block");
    let resolved = style.filter(|s| CONTEXTS.contains(s)).unwrap_or(context);
    ck!(cx, META, &*g.resolved_context() == resolved, "resolved context of a block");
    if let Some(a) = m.anchor {
        ck!(cx, META, g.id() == Some(cx.t(a)), "ID of a block");
    } else if let Some(i) = m.attrs.as_ref().and_then(|a| a.1.id()) {
        ck!(cx, META, g.id() == Some(i), "ID of a block");
    } else if !matches!(w.kind, Kind::Section { .. }) {
        ck!(cx, META, g.id().is_none(), "ID of a block");
    }
    same_blocks(cx, g.nested_blocks(), &w.kids);
    true
}

pub fn same_header(cx: &Cx<'_>, d: &Document<'_>, w: &Hdr) {
    let h = d.header();
    let a: Vec<_> = h.attributes().collect();
    if a.len() == w.attrs.len() {
        for (a, w) in a.iter().zip(&w.attrs) {
            same_entry(cx, a, w);
        }
    } else {
        crate::api::fail("number of header attributes");
    }
    if !cx.is(HEAD) {
        return;
    }
    check!(rng(&h.span()) == w.span || (w.span.0 == w.span.1 && h.span().is_empty()), "extent of the header");
    check!(opt(h.title_source()) == w.title.as_ref().map(|t| t.0), "extent of the document title");
    check!(h.title() == w.title.as_ref().map(|t| t.1.as_str()), "document title");
    let c: Vec<R> = h.comments().map(rng).collect();
    check!(c == w.comments, "comments of the header");
    match (h.author_line(), &w.authors) {
        (None, None) => {}
        (Some(l), Some((r, list))) => {
            check!(rng(&l.span()) == *r, "extent of the author line");
            let got: Vec<RAuthor> = l
                .authors()
                .map(|a| RAuthor { name: a.name().into(), first: a.firstname().into(), middle: a.middlename().map(str::to_string), last: a.lastname().map(str::to_string), email: a.email().map(str::to_string) })
                .collect();
            check!(got.len() == list.len(), "number of authors");
            for (g, w) in got.iter().zip(list) {
                check!(g.name == w.name, "name of an author");
                check!(g.first == w.first && g.middle == w.middle && g.last == w.last, "first, middle or last name of an author");
                check!(g.email == w.email, "e-mail address of an author");
            }
            for (g, w) in l.authors().zip(list) {
                check!(g.initials() == initials(w), "initials of an author");
            }
        }
        _ => crate::api::fail("the header has an author line or not"),
    }
    match (h.revision_line(), &w.rev) {
        (None, None) => {}
        (Some(l), Some((r, n, d, m))) => {
            check!(rng(&l.span()) == *r, "extent of the revision line");
            check!(l.revnumber() == n.as_deref(), "revision number");
            check!(l.revdate() == d, "revision date");
            check!(l.revremark() == m.as_deref(), "revision remark");
        }
        _ => crate::api::fail("the header has a revision line or not"),
    }
}

pub fn same_warnings(cx: &Cx<'_>, d: &Document<'_>) {
    let got: Vec<(String, R)> = d.warnings().map(|w| (format!("{:?}", w.warning), rng(&w.source))).collect();
    let fits = |w: &Warn, g: &(String, R)| w.kind == g.0 && if w.exact { w.at == g.1 } else { w.at.0 <= g.1.0 && g.1.1 <= w.at.1 };
    for g in &got {
        check!(cx.warns.iter().any(|w| fits(w, g)), "a warning nothing in the source justifies");
    }
    for w in &cx.warns {
        check!(got.iter().any(|g| fits(w, g)), "a warning is missing");
    }
}

pub fn same_catalog(cx: &Cx<'_>, d: &Document<'_>) {
    let c = d.catalog();
    check!(c.len() == cx.cat.len(), "number of registered IDs");
    check!(c.is_empty() == cx.cat.is_empty(), "is_empty");
    for (i, r) in cx.cat.iter().enumerate() {
        check!(c.contains_id(&r.id), "an ID is not registered");
        let Some(e) = c.get_ref(&r.id) else { crate::api::fail("a registered ID is not found") };
        check!(e.id == r.id, "ID of a catalog entry");
        check!(e.reftext == r.text, "reference text of a catalog entry");
        check!((e.ref_type == RefType::Section) == r.section, "type of a catalog entry");
        if let Some(t) = &r.text
            && !cx.cat[..i].iter().any(|x| x.text.as_ref() == Some(t))
        {
            check!(c.resolve_id(t).as_deref() == Some(r.id.as_str()), "ID for a reference text");
        }
    }
}

/// parses with the reference and compares everything observable
pub fn same_document(cx: &mut Cx<'_>, d: &Document<'_>) -> Doc {
    let w = cx.document();
    if cx.is(HEAD | ATTR) {
        same_header(cx, d, &w.hdr);
    }
    same_blocks(cx, d.nested_blocks(), &w.blocks);
    if cx.is(WARN) {
        same_warnings(cx, d);
    }
    if cx.is(IDS) {
        same_catalog(cx, d);
    }
    ck!(cx, TREE, rng(&d.span()) == (0, cx.s.trim_end().len()), "extent of the document");
    w
}

/// the attribute values the parser holds after the document
pub fn same_values(cx: &Cx<'_>, p: &asciidoc_parser::Parser) {
    for (n, _) in &cx.env.vals {
        let want = cx.env.get(n);
        let ok = match (p.attribute_value(n), &want) {
            (InterpretedValue::Value(v), Some(Val::Value(x))) => v == *x,
            (InterpretedValue::Set, Some(Val::Set)) | (InterpretedValue::Unset, Some(Val::Unset) | None) => true,
            _ => false,
        };
        check!(ok, "value of a document attribute after parsing");
        check!(p.has_attribute(n), "has_attribute");
        check!(p.is_attribute_set(n) == cx.env.is_set(n), "is_attribute_set");
    }
}
