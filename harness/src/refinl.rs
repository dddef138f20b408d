//! Reference model of inline substitution: an independent statement of the
//! AsciiDoc rules (as implemented by Asciidoctor's substitutors) that the crate
//! has to agree with.  It shares no code with the crate; pattern matching uses
//! the backtracking matcher in `rx`.
use crate::rx::{M, Rx};
use std::sync::LazyLock;

// ------------------------------------------------------------- environment
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Value(String),
    Set,
    Unset,
}

/// Document attributes as seen by inline substitution.
#[derive(Clone, Debug)]
pub struct Env {
    pub vals: Vec<(String, Val)>,
}
impl Default for Env {
    fn default() -> Env {
        let v = |s: &str| Val::Value(s.to_string());
        let mut e = Env { vals: vec![] };
        for (n, x) in [
            ("empty", v("")), ("sp", v(" ")), ("deg", v("&#176;")), ("plus", v("&#43;")), ("toc", Val::Unset), ("sectids", Val::Set), ("sectnums", Val::Unset),
            ("sectnumlevels", v("3")), ("idprefix", v("_")), ("idseparator", v("_")), ("example-caption", Val::Set), ("iconsdir", Val::Set),
        ] {
            e.vals.push((n.to_string(), x));
        }
        e
    }
}
impl Env {
    pub fn get(&self, n: &str) -> Option<Val> {
        self.vals.iter().rev().find(|x| x.0 == n).map(|x| match (n, &x.1) {
            ("example-caption", Val::Set) => Val::Value("Example".into()),
            ("iconsdir", Val::Set) => Val::Value("./images/icons".into()),
            ("sectnums", Val::Set) => Val::Value("all".into()),
            ("toc", Val::Set) => Val::Value("auto".into()),
            (_, v) => v.clone(),
        })
    }
    pub fn set(&mut self, n: &str, v: Val) {
        self.vals.retain(|x| x.0 != n);
        self.vals.push((n.to_string(), v));
    }
    pub fn text(&self, n: &str) -> Option<String> {
        match self.get(n) {
            Some(Val::Value(v)) => Some(v),
            _ => None,
        }
    }
    pub fn is_set(&self, n: &str) -> bool {
        !matches!(self.get(n), None | Some(Val::Unset))
    }
}

// ------------------------------------------------------------- attribute lists
#[derive(Clone, Debug, PartialEq, Default)]
pub struct RAttr {
    pub name: Option<String>,
    pub value: String,
    pub items: Vec<String>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct RList {
    pub attrs: Vec<RAttr>,
    pub anchor: Option<String>,
    pub warnings: Vec<&'static str>,
}
impl RAttr {
    pub fn style(&self) -> Option<&str> {
        self.items.first().map(|s| s.as_str()).filter(|s| !s.contains(['#', '.', '%']))
    }
    pub fn with(&self, c: char) -> Vec<&str> {
        self.items.iter().filter_map(|s| s.strip_prefix(c)).collect()
    }
}
impl RList {
    pub fn nth(&self, n: usize) -> Option<&RAttr> {
        self.attrs.iter().filter(|a| a.name.is_none()).nth(n - 1)
    }
    pub fn named(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.name.as_deref() == Some(n)).map(|a| a.value.as_str())
    }
    pub fn named_or(&self, n: &str, i: usize) -> Option<&str> {
        self.named(n).or_else(|| self.nth(i).map(|a| a.value.as_str()))
    }
    pub fn id(&self) -> Option<&str> {
        if let Some(a) = &self.anchor {
            return Some(a);
        }
        self.nth(1).and_then(|a| a.with('#').first().copied()).or_else(|| self.named("id"))
    }
    pub fn roles(&self) -> Vec<&str> {
        let mut r = self.nth(1).map(|a| a.with('.')).unwrap_or_default();
        if let Some(v) = self.named("role") {
            r.extend(v.split(' ').filter(|s| !s.is_empty()));
        }
        r
    }
    pub fn options(&self) -> Vec<&str> {
        let mut r = self.nth(1).map(|a| a.with('%')).unwrap_or_default();
        for n in ["opts", "options"] {
            if let Some(v) = self.named(n) {
                r.extend(v.split(',').filter(|s| !s.is_empty()));
            }
        }
        r
    }
    pub fn has_option(&self, n: &str) -> bool {
        self.options().contains(&n)
    }
    pub fn style(&self) -> Option<&str> {
        self.nth(1).and_then(|a| a.style())
    }
}

fn shorthand(v: &str, warn: &mut Vec<&'static str>) -> Vec<String> {
    // [style][#id][.role][%option]…
    let mut out = vec![];
    let c: Vec<char> = v.chars().collect();
    let is = |x: char| x == '#' || x == '.' || x == '%';
    let mut i = 0;
    while i < c.len() && !is(c[i]) {
        i += 1;
    }
    if i > 0 {
        out.push(c[..i].iter().collect::<String>().trim_start_matches([' ', '\t']).trim_end().to_string());
    }
    while i < c.len() {
        let mut j = i + 1;
        while j < c.len() && !is(c[j]) {
            j += 1;
        }
        if j == i + 1 {
            warn.push("EmptyShorthandItem");
        } else {
            out.push(c[i..j].iter().collect::<String>().trim_end().to_string());
        }
        i = j;
    }
    out.retain(|s| !s.is_empty());
    out
}

/// `src` is the text between the brackets.
pub fn attrlist(src: &str, env: &Env, block: bool) -> RList {
    let text = if src.contains('{') && src.contains('}') { attributes(src, env) } else { src.to_string() };
    let mut l = RList::default();
    if text.len() >= 2 && text.starts_with('[') && text.ends_with(']') {
        l.anchor = Some(text[1..text.len() - 1].to_string());
        return l;
    }
    let c: Vec<char> = text.chars().collect();
    let ws = |i: &mut usize, nl: bool| {
        while *i < c.len() && (c[*i] == ' ' || c[*i] == '\t' || (nl && c[*i] == '\n')) {
            *i += 1;
        }
    };
    let mut i = 0;
    let mut first_positional = true;
    loop {
        let mut a = RAttr::default();
        let start = i;
        // name =
        let mut p = i;
        if p < c.len() && c[p].is_ascii_alphanumeric() {
            while p < c.len() && (c[p].is_ascii_alphanumeric() || c[p] == '-') {
                p += 1;
            }
            let name: String = c[i..p].iter().collect();
            ws(&mut p, true);
            if p < c.len() && c[p] == '=' {
                p += 1;
                ws(&mut p, true);
                if p < c.len() && c[p] != ',' {
                    a.name = Some(name);
                    i = p;
                }
            }
        }
        ws(&mut i, true);
        let q = c.get(i).copied().filter(|x| *x == '"' || *x == '\'');
        let mut quoted = false;
        if let Some(q) = q {
            let mut e = i + 1;
            while e < c.len() && !(c[e] == q && (e == i + 1 || c[e - 1] != '\\')) {
                e += 1;
            }
            if e < c.len() {
                quoted = true;
                a.value = c[i + 1..e].iter().collect();
                i = e + 1;
            } else {
                l.warnings.push("AttributeValueMissingTerminatingQuote");
            }
        }
        if !quoted {
            let mut e = i;
            while e < c.len() && c[e] != ',' {
                e += 1;
            }
            a.value = c[i..e].iter().collect::<String>().trim_end_matches([' ', '\t']).to_string();
            i = e;
        }
        if let Some(q) = q {
            a.value = a.value.replace(&format!("\\{q}"), &q.to_string());
            if q == '\'' && block {
                a.value = normal(&a.value, env);
            }
        }
        if a.name.is_none() && first_positional && !quoted {
            a.items = shorthand(&a.value, &mut l.warnings);
        }
        if a.name.is_none() {
            first_positional = false;
            if a.value.is_empty() && i >= c.len() && l.attrs.is_empty() {
                i = start;
                break;
            }
        }
        if !(a.name.is_some() && a.value == "None") {
            l.attrs.push(a);
        }
        ws(&mut i, false);
        if i < c.len() && c[i] == ',' {
            i += 1;
            ws(&mut i, false);
            if i < c.len() && c[i] == ',' {
                l.warnings.push("EmptyAttributeValue");
                i += 1;
            }
        } else {
            break;
        }
    }
    if i < c.len() {
        l.warnings.push("MissingCommaAfterQuotedAttributeValue");
    }
    l
}

// ------------------------------------------------------------- special characters
pub fn specialchars(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 16);
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            c => o.push(c),
        }
    }
    o
}

// ------------------------------------------------------------- quotes
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Q {
    Strong,
    Double,
    Single,
    Mono,
    Em,
    Mark,
    Sup,
    Sub,
    Plain,
}

fn wrap(tag: &str, id: Option<&str>, roles: &[&str], body: &str, out: &mut String) {
    out.push('<');
    out.push_str(tag);
    if let Some(id) = id {
        out.push_str(" id=\"");
        out.push_str(id);
        out.push('"');
    }
    if !roles.is_empty() {
        out.push_str(" class=\"");
        out.push_str(&roles.join(" "));
        out.push('"');
    }
    out.push('>');
    out.push_str(body);
    out.push_str("</");
    out.push_str(tag);
    out.push('>');
}

pub fn quoted(q: Q, l: Option<&RList>, body: &str, out: &mut String) {
    let mut roles = vec![];
    let mut id = None;
    if let Some(l) = l {
        roles.extend(l.style());
        roles.extend(l.roles());
        id = l.id();
    }
    let bare = roles.is_empty() && id.is_none();
    match q {
        Q::Strong => wrap("strong", id, &roles, body, out),
        Q::Mono => wrap("code", id, &roles, body, out),
        Q::Em => wrap("em", id, &roles, body, out),
        Q::Sup => wrap("sup", id, &roles, body, out),
        Q::Sub => wrap("sub", id, &roles, body, out),
        Q::Mark => wrap(if bare { "mark" } else { "span" }, id, &roles, body, out),
        Q::Plain if bare => out.push_str(body),
        Q::Plain => wrap("span", id, &roles, body, out),
        Q::Double => {
            out.push_str("&#8220;");
            out.push_str(body);
            out.push_str("&#8221;");
        }
        Q::Single => {
            out.push_str("&#8216;");
            out.push_str(body);
            out.push_str("&#8217;");
        }
    }
}

struct QRule(Q, bool, Rx); // kind, constrained, pattern
static QUOTES: LazyLock<Vec<QRule>> = LazyLock::new(|| {
    let un = |m: &str| Rx::new(&format!(r"\\?(?:\[([^\[\]]+)\])?{m}(.+?){m}"), "s");
    let con = |a: &str, b: &str, extra: &str| {
        Rx::new(&format!(r"(^|[^\w&;:}}{extra}])(?:\[([^\[\]]+)\])?{a}(\S|\S.*?\S){b}(?!\w)"), "s")
    };
    let one = |m: &str| Rx::new(&format!(r"\\?(?:\[([^\[\]]+)\])?{m}(\S+?){m}"), "");
    vec![
        QRule(Q::Strong, false, un(r"\*\*")),
        QRule(Q::Strong, true, con(r"\*", r"\*", "")),
        QRule(Q::Double, true, con("\"`", "`\"", "")),
        QRule(Q::Single, true, con("'`", "`'", "")),
        QRule(Q::Mono, false, un("``")),
        QRule(Q::Mono, true, con("`", "`", "\"'`")),
        QRule(Q::Em, false, un("__")),
        QRule(Q::Em, true, con("_", "_", "")),
        QRule(Q::Mark, false, un("##")),
        QRule(Q::Mark, true, con("#", "#", "")),
        QRule(Q::Sup, false, one(r"\^")),
        QRule(Q::Sub, false, one("~")),
    ]
});

fn one_quote(r: &QRule, m: &M<'_>, env: &Env, out: &mut String) {
    let (ga, gb) = if r.1 { (2, 3) } else { (1, 2) };
    let attrs = m.get(ga);
    let body = m.s(gb);
    if m.starts('\\') {
        match (r.1, &attrs) {
            (true, Some(a)) => {
                // the backslash escapes the attribute list only
                out.push('[');
                out.push_str(a);
                out.push(']');
                quoted(r.0, None, &body, out);
            }
            _ => out.push_str(&m.tail()),
        }
        return;
    }
    if r.1 {
        out.push_str(&m.s(1));
    }
    match attrs {
        Some(a) => {
            let l = attrlist(&a, env, false);
            quoted(if r.0 == Q::Mark { Q::Plain } else { r.0 }, Some(&l), &body, out);
        }
        None => quoted(r.0, None, &body, out),
    }
}

pub fn quotes(s: &str, env: &Env) -> String {
    let mut s = s.to_string();
    for r in QUOTES.iter() {
        if !(r.0 == Q::Mono && r.1) {
            s = r.2.gsub(&s, |m, out| one_quote(r, m, env, out));
            continue;
        }
        // A closing backtick must not be followed by a quotation mark.
        let mut out = String::with_capacity(s.len() + 32);
        let t: Vec<char> = s.chars().collect();
        let mut t = &t[..];
        let mut last = 0;
        while let Some(c) = r.2.find(t, last) {
            let (a, b) = c[0].unwrap();
            out.extend(&t[last..a]);
            if b < t.len() && (t[b] == '"' || t[b] == '\'' || t[b] == '`') {
                let n = if t[a] == '\\' { 2 } else { 1 };
                out.extend(&t[a..a + n]);
                t = &t[a + n..];
                last = 0;
                continue;
            }
            one_quote(r, &M { t, c: &c }, env, &mut out);
            last = b;
        }
        out.extend(&t[last..]);
        s = out;
    }
    s
}

// ------------------------------------------------------------- attribute references
static ATTRREF: LazyLock<Rx> = LazyLock::new(|| Rx::new(r"\\?\{([A-Za-z0-9_][A-Za-z0-9_-]*)\}", ""));
pub fn attributes(s: &str, env: &Env) -> String {
    ATTRREF.gsub(s, |m, out| match env.get(&m.s(1).to_ascii_lowercase()) {
        None => out.push_str(&m.all()),
        Some(_) if m.starts('\\') => out.push_str(&m.tail()),
        Some(Val::Value(v)) => out.push_str(&v),
        Some(_) => {}
    })
}

// ------------------------------------------------------------- replacements
static REPL: LazyLock<Vec<(Rx, &'static str)>> = LazyLock::new(|| {
    [
        (r"\\?\(C\)", "&#169;"),
        (r"\\?\(R\)", "&#174;"),
        (r"\\?\(TM\)", "&#8482;"),
        (r"(?: |\n|^|\\)--(?: |\n|$)", "&#8201;&#8212;&#8201;"),
        (r"(\w)\\?--(?=\w|\n|\z)", "&#8212;&#8203;"),
        (r"\\?\.\.\.", "&#8230;&#8203;"),
        (r"\\?`'", "&#8217;"),
        (r"([A-Za-z0-9])\\?'([A-Za-z])", "&#8217;"),
        (r"\\?-&gt;", "&#8594;"),
        (r"\\?=&gt;", "&#8658;"),
        (r"\\?&lt;-", "&#8592;"),
        (r"\\?&lt;=", "&#8656;"),
    ]
    .iter()
    .map(|(p, e)| (Rx::new(p, ""), *e))
    .collect()
});
static ENTITY: LazyLock<Rx> = LazyLock::new(|| Rx::new(r"\\?&amp;((?:[a-zA-Z][a-zA-Z]+\d{0,2}|#\d\d\d{0,4}|#x[\da-fA-F][\da-fA-F][\da-fA-F]{0,3}));", ""));
pub fn replacements(s: &str) -> String {
    let mut s = s.to_string();
    for (i, (r, e)) in REPL.iter().enumerate() {
        s = r.gsub(&s, |m, out| {
            if m.all().contains('\\') {
                out.push_str(&m.all().replace('\\', ""));
            } else {
                if i == 4 || i == 7 {
                    out.push_str(&m.s(1));
                }
                out.push_str(e);
                if i == 7 {
                    out.push_str(&m.s(2));
                }
            }
        });
    }
    ENTITY.gsub(&s, |m, out| {
        if m.starts('\\') {
            out.push_str(&m.tail());
        } else {
            out.push('&');
            out.push_str(&m.s(1));
            out.push(';');
        }
    })
}

// ------------------------------------------------------------- macros
static IMAGE: LazyLock<Rx> = LazyLock::new(|| Rx::new(r"\\?i(?:mage|con):([^:\s\[](?:[^\[\n]*?[^\s\[])?)\[(|.*?[^\\])\]", "s"));
static LINK: LazyLock<Rx> = LazyLock::new(|| {
    Rx::new(
        concat!(
            r"(?:(\\?&lt;)(\\?(?:https?|file|ftp|irc)://)(?:([^\s\[\]]+)\[(|.*?[^\\])\]|([^\s]+?)&gt;|([^\s\[\]<]*([^\s,.?!\[\]<\)])))",
            r#"|(^|link:|[ \t]|[>\(\)\[\];"'])(\\?(?:https?|file|ftp|irc)://)(?:([^\s\[\]]+)\[(|.*?[^\\])\]|([^\s\[\]<]*([^\s,.?!\[\]<\)]))))"#
        ),
        "ms",
    )
});
static LINKM: LazyLock<Rx> = LazyLock::new(|| Rx::new(r"\\?(?:link|(mailto)):([^:\s\[][^\s\[]*)\[(?:()|(.*?[^\\]))\]", "s"));
static EMAIL: LazyLock<Rx> = LazyLock::new(|| Rx::new(r"([\\>:/]?)([\w](?:&amp;|[\w\-.%+])*@\N[\N_\-.]*\.[a-zA-Z]{2,5})(?!\w)", ""));
static ANCHOR: LazyLock<Rx> = LazyLock::new(|| {
    Rx::new(r"(\\)?(?:\[\[([\a_:][\N_\-:.]*)(?:,\s*(.+?))?\]\]|anchor:([\a_:][\N_\-:.]*)\[(?:\]|(.*?[^\\])\]))", "")
});
static URI: LazyLock<Rx> = LazyLock::new(|| Rx::new(r"\A\a[\N.+\-]+:/{0,2}", ""));

fn web(target: &str, start: Option<&str>) -> String {
    if target.contains(':') && URI.is_match(target) { target.replace(' ', "%20") } else { crate::p_misc::expected(target, start, false) }
}
fn stem(path: &str) -> String {
    let abs = path.starts_with('/');
    let parts: Vec<&str> = path.split('/').enumerate().filter(|(i, s)| !s.is_empty() && (*s != "." || (*i == 0 && !abs))).map(|x| x.1).collect();
    match parts.last() {
        None | Some(&"..") | Some(&".") => String::new(),
        Some(f) => match f.rfind('.') {
            None | Some(0) => f.to_string(),
            Some(i) => f[..i].to_string(),
        },
    }
}
fn quote_attr(s: &str) -> String {
    s.replace('"', "&quot;")
}
fn constraint(l: &RList, window: Option<&str>) -> String {
    let rel = l.has_option("nofollow");
    match l.named("window").or(window) {
        Some(w) => {
            let r = match (w == "_blank" || l.has_option("noopener"), rel) {
                (true, true) => " rel=\"nofollow\" noopener",
                (true, false) => " rel=\"noopener\"",
                _ => "",
            };
            format!(" target=\"{w}\"{r}")
        }
        None if rel => " rel=\"nofollow\"".to_string(),
        None => String::new(),
    }
}
fn link_html(target: &str, text: &str, bare: bool, window: Option<&str>, l: &RList) -> String {
    let mut roles = vec![];
    if bare {
        roles.push("bare");
    }
    roles.extend(l.roles());
    let id = l.id().map_or(String::new(), |i| format!(" id=\"{i}\""));
    let class = if roles.is_empty() { String::new() } else { format!(" class=\"{}\"", roles.join(" ")) };
    format!("<a href=\"{target}\"{id}{class}{}>{text}</a>", constraint(l, window))
}
fn framed(kind: &str, l: &RList, img: String, src: &str) -> String {
    let mut img = img;
    if let Some(k) = l.named("link") {
        let k = if k == "self" { src } else { k };
        img = format!("<a class=\"image\" href=\"{k}\"{}>{img}</a>", constraint(l, None));
    }
    let mut roles = vec![kind];
    roles.extend(l.named("float"));
    roles.extend(l.roles());
    format!("<span class=\"{}\">{img}</span>", roles.join(" "))
}
fn img(m: &M<'_>, env: &Env) -> String {
    let target = m.s(1);
    let l = attrlist(&m.s(2), env, false);
    let dflt = stem(&target.replace(['_', '-'], " "));
    let clean = |s: &str| s.replace('\n', " ").replace("\\]", "]");
    if m.all().starts_with("image:") {
        let src = web(&target, env.text("imagesdir").as_deref());
        let alt = l.named_or("alt", 1).map_or(dflt, clean);
        let mut rest = String::new();
        for (n, v) in [("width", l.named_or("width", 2)), ("height", l.named_or("height", 3))] {
            if let Some(v) = v {
                rest.push_str(&format!(" {n}=\"{v}\""));
            }
        }
        if let Some(t) = l.named("title") {
            rest.push_str(&format!(" title=\"{}\"", quote_attr(t)));
        }
        let alt_attr = format!("alt=\"{}\"", quote_attr(&alt));
        let svg = l.named("format") == Some("svg") || target.contains(".svg");
        let fallback = format!("<span class=\"alt\">{alt}</span>");
        let html = if svg && l.has_option("inline") {
            fallback
        } else if svg && l.has_option("interactive") {
            let inner = match l.named("fallback") {
                Some(f) => format!("<img src=\"{}\" {alt_attr}{rest}>", web(f, env.text("imagesdir").as_deref())),
                None => fallback,
            };
            format!("<object type=\"image/svg+xml\" data=\"{src}\"{rest}>{inner}</object>")
        } else {
            format!("<img src=\"{src}\" {alt_attr}{rest}>")
        };
        framed("image", &l, html, &src)
    } else {
        let ty = env.text("icontype").unwrap_or("png".into());
        let src = web(&format!("{target}.{ty}"), env.text("iconsdir").as_deref());
        let alt = l.named("alt").map_or(dflt, clean);
        let html = if env.get("icons").is_none() {
            format!("[{alt}&#93;")
        } else if env.text("icons").as_deref() == Some("font") {
            let mut c = format!("fa fa-{target}");
            if let Some(s) = l.named_or("size", 1) {
                c.push_str(&format!(" fa-{s}"));
            }
            if let Some(s) = l.named("flip") {
                c.push_str(&format!(" fa-flip-{s}"));
            } else if let Some(s) = l.named("rotate") {
                c.push_str(&format!(" fa-rotate-{s}"));
            }
            let t = l.named("title").map_or(String::new(), |t| format!(" title=\"{t}\""));
            format!("<i class=\"{c}\"{t}></i>")
        } else {
            let mut a = format!("src=\"{src}\" alt=\"{}\"", quote_attr(&alt));
            for n in ["width", "height", "title"] {
                if let Some(v) = l.named(n) {
                    a.push_str(&format!(" {n}=\"{v}\""));
                }
            }
            format!("<img {a}>")
        };
        framed("icon", &l, html, &src)
    }
}
/// the label of a link macro: (text, attributes, opens in a new window)
fn hide(target: &str, env: &Env) -> String {
    if env.is_set("hide-uri-scheme") { URI.gsub(target, |_, _| {}) } else { target.to_string() }
}
fn autolink(m: &M<'_>, env: &Env, out: &mut String) {
    let either = |a: usize, b: usize| m.get(a).or(m.get(b)).unwrap_or_default();
    let (prefix, scheme) = (either(1, 8), either(2, 9));
    let label = m.get(4).or(m.get(11));
    let angle = m.get(1).is_some();
    let none = RList::default();
    if angle && label.is_none() {
        if prefix.starts_with('\\') {
            out.push_str(&m.tail());
        } else if let Some(s) = scheme.strip_prefix('\\') {
            out.push_str(&prefix);
            out.push_str(s);
            out.push_str(&m.all()[prefix.len() + scheme.len()..]);
        } else if let Some(u) = m.get(5) {
            let t = format!("{scheme}{u}");
            out.push_str(&link_html(&t, &hide(&t, env), true, None, &none));
        } else {
            out.push_str(&m.all());
        }
        return;
    }
    if let Some(s) = scheme.strip_prefix('\\') {
        out.push_str(&prefix);
        out.push_str(s);
        out.push_str(&m.all()[prefix.len() + scheme.len()..]);
        return;
    }
    if let Some(label) = label {
        let target = format!("{scheme}{}", either(3, 10));
        let mut text = label.replace("\\]", "]");
        let mut l = none;
        if text.contains('=') {
            l = attrlist(&label, env, false);
            text = l.nth(1).map_or(String::new(), |a| a.value.replace("\\\"", "\""));
        }
        let mut window = None;
        if let Some(t) = text.strip_suffix('^') {
            text = t.to_string();
            window = Some("_blank");
        }
        let bare = text.is_empty();
        if bare {
            text = hide(&target, env);
        }
        if prefix != "link:" {
            out.push_str(&prefix);
        }
        out.push_str(&link_html(&target, &text, bare, window, &l));
        return;
    }
    if prefix == "link:" || prefix == "\"" || prefix == "'" {
        out.push_str(&m.all());
        return;
    }
    let mut target = format!("{scheme}{}", either(6, 12));
    let mut suffix = either(7, 13);
    if suffix == ";" || suffix == ":" {
        target.pop();
        if target.ends_with(')') {
            target.pop();
            suffix.insert(0, ')');
        }
    } else {
        suffix.clear();
    }
    out.push_str(&prefix);
    out.push_str(&link_html(&target, &hide(&target, env), true, None, &none));
    out.push_str(&suffix);
}
fn uri_component(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b"*_.-~".contains(&b) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}
fn link_macro(m: &M<'_>, env: &Env, out: &mut String) {
    if m.starts('\\') {
        out.push_str(&m.tail());
        return;
    }
    let mail = m.get(1).is_some();
    let addr = m.s(2);
    let mut target = if mail { format!("mailto:{addr}") } else { addr.clone() };
    let label = m.s(4);
    let mut text = label.replace("\\]", "]");
    let mut l = RList::default();
    if if mail { text.contains(',') } else { text.contains('=') } {
        l = attrlist(&label.replace('\n', " "), env, false);
        text = l.nth(1).map_or(String::new(), |a| a.value.clone());
        if mail && let Some(s) = l.nth(2) {
            target.push_str(&format!("?subject={}", uri_component(&s.value)));
            if let Some(b) = l.nth(3) {
                target.push_str(&format!("&amp;body={}", uri_component(&b.value)));
            }
        }
    }
    let mut window = None;
    if let Some(t) = text.strip_suffix('^') {
        text = t.to_string();
        window = Some("_blank");
    }
    let mut bare = false;
    if text.is_empty() {
        if mail {
            text = addr;
        } else {
            bare = true;
            text = hide(&target, env);
            if text.is_empty() {
                text = target.clone();
            }
        }
    }
    out.push_str(&link_html(&target, &text, bare, window, &l));
}

pub fn macros(s: &str, env: &Env) -> String {
    let (sq, colon) = (s.contains('['), s.contains(':'));
    let orig = s;
    let mut s = s.to_string();
    if sq && colon && (orig.contains("image:") || orig.contains("icon:")) {
        s = IMAGE.gsub(&s, |m, out| {
            let r = if m.starts('\\') { m.tail() } else { img(m, env) };
            out.push_str(&r);
        });
    }
    if orig.contains("://") {
        s = LINK.gsub(&s, |m, out| autolink(m, env, out));
    }
    if sq && colon && (orig.contains("link:") || orig.contains("ilto:")) {
        s = LINKM.gsub(&s, |m, out| link_macro(m, env, out));
    }
    if orig.contains('@') {
        s = EMAIL.gsub(&s, |m, out| match m.s(1).as_str() {
            "" => out.push_str(&link_html(&format!("mailto:{}", m.s(2)), &m.s(2), false, None, &RList::default())),
            "\\" => out.push_str(&m.tail()),
            _ => out.push_str(&m.all()),
        });
    }
    if orig.contains("[[") || (sq && orig.contains("or:")) {
        s = ANCHOR.gsub(&s, |m, out| {
            if m.get(1).is_some() {
                out.push_str(&m.tail());
            } else {
                out.push_str(&format!("<a id=\"{}\"></a>", m.get(2).or(m.get(4)).unwrap()));
            }
        });
    }
    s
}

// ------------------------------------------------------------- post replacements
static BREAK: LazyLock<Rx> = LazyLock::new(|| Rx::new(r"^(.*) \+$", "m"));
pub fn post(s: &str, hard: bool) -> String {
    if !s.contains('\n') {
        return s.to_string();
    }
    if hard {
        let mut lines: Vec<&str> = s.split('\n').collect();
        if lines.last() == Some(&"") {
            lines.pop();
        }
        let n = lines.len();
        let r: Vec<String> = lines.iter().enumerate().map(|(i, l)| if i + 1 == n { l.to_string() } else { format!("{}<br>", l.strip_suffix(" +").unwrap_or(l)) }).collect();
        return r.join("\n");
    }
    BREAK.gsub(s, |m, out| {
        out.push_str(&m.s(1));
        out.push_str("<br>");
    })
}

// ------------------------------------------------------------- substitution groups
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Step {
    C,
    Q,
    A,
    R,
    M,
    P,
}
pub const NORMAL: &[Step] = &[Step::C, Step::Q, Step::A, Step::R, Step::M, Step::P];

/// the value of `subs=` or of `pass:…[]`; None: not understood
pub fn sub_spec(spec: &str, from: &[Step]) -> Option<Vec<Step>> {
    let spec = spec.trim();
    match spec {
        "none" => return Some(vec![]),
        "n" | "normal" => return Some(NORMAL.to_vec()),
        "v" | "verbatim" => return Some(vec![Step::C]),
        _ => {}
    }
    let mut r: Vec<Step> = vec![];
    for (i, s) in spec.split(',').enumerate() {
        let s = s.trim();
        match s {
            "n" | "normal" => {
                r = NORMAL.to_vec();
                continue;
            }
            "v" | "verbatim" => {
                r = vec![Step::C];
                continue;
            }
            _ => {}
        }
        let (kind, name) = if let Some(t) = s.strip_prefix('+') {
            ('a', t)
        } else if let Some(t) = s.strip_suffix('+') {
            ('p', t)
        } else if let Some(t) = s.strip_prefix('-') {
            ('s', t)
        } else {
            (' ', s)
        };
        if i == 0 && kind != ' ' {
            r = from.to_vec();
        }
        let st = match name {
            "c" | "specialcharacters" | "specialchars" => Step::C,
            "q" | "quotes" => Step::Q,
            "a" | "attributes" => Step::A,
            "r" | "replacements" => Step::R,
            "m" | "macros" => Step::M,
            "p" | "post_replacements" => Step::P,
            _ => return None,
        };
        match kind {
            'p' => r.insert(0, st),
            's' => r.retain(|x| *x != st),
            _ => r.push(st),
        }
    }
    Some(r)
}

// ------------------------------------------------------------- passthroughs
struct Pass {
    text: String,
    steps: Vec<Step>,
    quote: Option<(Q, String)>,
}
static PASSM: LazyLock<Rx> = LazyLock::new(|| {
    Rx::new(
        r"(?:(?:(\\?)\[([^\[\]]+)\])?(\\{0,2})(?:(\+\+\+)(.*?)(\+\+\+)|(\+\+)(.*?)(\+\+)|(\$\$)(.*?)(\$\$))|(\\?)pass:([a-z]+(?:,[a-z\-]+)*)?\[(|.*?[^\\])\])",
        "s",
    )
});
static PASS1: LazyLock<Rx> = LazyLock::new(|| {
    Rx::new(
        r"(?<!\w)(?:\[(x-|[^\[\]]+ x-)\]`(\S(?:.*?\S)??)`|\[([^\[\]]+)\](\\{0,2})\+(\S(?:.*?\S)??)\+|(\\)?\+(\S(?:.*?\S)??)\+)(?!\w)",
        "s",
    )
});
static SLOT: LazyLock<Rx> = LazyLock::new(|| Rx::new("\u{96}(\\d+)\u{97}", ""));

fn save(v: &mut Vec<Pass>, p: Pass, out: &mut String) {
    out.push_str(&format!("\u{96}{}\u{97}", v.len()));
    v.push(p);
}
/// `[… x-]` selects the old behaviour
fn x_minus(a: &str) -> (String, bool) {
    match a.strip_suffix("x-") {
        Some("") => (String::new(), true),
        Some(r) if r.ends_with(' ') => (r[..r.len() - 1].to_string(), true),
        _ => (a.to_string(), false),
    }
}
fn pass_macro(m: &M<'_>, v: &mut Vec<Pass>, out: &mut String) {
    let Some(mark) = m.get(4).or(m.get(7)).or(m.get(10)) else {
        // pass:subs[text]
        if m.s(13) == "\\" {
            out.push_str(&m.tail());
            return;
        }
        let steps = m.get(14).and_then(|s| sub_spec(&s, &[])).unwrap_or_default();
        save(v, Pass { text: m.s(15).replace("\\]", "]"), steps, quote: None }, out);
        return;
    };
    let text = m.get(5).or(m.get(8)).or(m.get(11)).unwrap_or_default();
    let esc = m.s(3).len();
    if esc > 0 {
        if let Some(a) = m.get(2) {
            out.push_str(&format!("{}[{a}]", m.s(1)));
        }
        out.push_str(&"\\"[..esc - 1]);
        out.push_str(&format!("{mark}{text}{mark}"));
        return;
    }
    let mut steps = if mark == "+++" { vec![] } else { vec![Step::C] };
    let mut quote = None;
    if let Some(a) = m.get(2) {
        if m.s(1) == "\\" {
            out.push_str(&format!("[{a}]"));
        } else {
            let (b, old) = x_minus(&a);
            if mark == "++" && old {
                steps = NORMAL.to_vec();
                quote = Some((Q::Mono, b));
            } else {
                quote = Some((Q::Plain, a));
            }
        }
    }
    save(v, Pass { text, steps, quote }, out);
}
fn pass_plus(s: &str, v: &mut Vec<Pass>) -> String {
    PASS1.gsub(s, |m, out| {
        if out.ends_with(['\\', ':', ';']) {
            let all = m.all();
            out.push_str(&all[..1]);
            out.push_str(&pass_plus(&all[1..], v));
            return;
        }
        let tick = m.get(2).is_some();
        let mark = if tick { '`' } else { '+' };
        let text = m.get(2).or(m.get(5)).or(m.get(7)).unwrap_or_default();
        let attrs = m.get(1).or(m.get(3));
        let esc = m.get(4).or(m.get(6)).map_or(0, |s| s.len());
        if esc > 0 {
            if let Some(a) = attrs {
                out.push_str(&format!("[{a}]"));
            }
            out.push_str(&"\\"[..esc - 1]);
            out.push_str(&format!("{mark}{text}{mark}"));
            return;
        }
        let mut steps = vec![Step::C];
        let quote = attrs.map(|a| {
            let (b, old) = x_minus(&a);
            if old {
                if !tick {
                    steps = NORMAL.to_vec();
                }
                (Q::Mono, b)
            } else {
                (Q::Plain, b)
            }
        });
        save(v, Pass { text, steps, quote }, out);
    })
}
fn restore(s: &str, v: &[Pass], limit: usize, env: &Env) -> String {
    SLOT.gsub(s, |m, out| {
        let i = m.s(1).parse::<usize>().unwrap_or(0);
        if i >= limit {
            out.push_str(&m.all());
            return;
        }
        let Some(p) = v.get(i) else {
            out.push_str(&format!("(INTERNAL ERROR: Unresolved passthrough index {i})"));
            return;
        };
        let mut t = apply(&p.text, &p.steps, env, false, false);
        if let Some((q, a)) = &p.quote {
            let mut o = String::new();
            quoted(*q, Some(&attrlist(a, env, false)), &t, &mut o);
            t = o;
        }
        out.push_str(&restore(&t, v, i, env));
    })
}

/// Applies substitution steps in order; `header`: extract passthroughs even
/// though macros are not substituted.
pub fn apply(s: &str, steps: &[Step], env: &Env, hard: bool, header: bool) -> String {
    let mut v = vec![];
    let ex = header || steps.contains(&Step::M);
    let mut s = s.to_string();
    if ex {
        if s.contains("++") || s.contains("$$") || s.contains("ss:") {
            s = PASSM.gsub(&s, |m, out| pass_macro(m, &mut v, out));
        }
        if s.contains('+') || s.contains("-]") {
            s = pass_plus(&s, &mut v);
        }
    }
    for st in steps {
        s = match st {
            Step::C => specialchars(&s),
            Step::Q => quotes(&s, env),
            Step::A => attributes(&s, env),
            Step::R => replacements(&s),
            Step::M => macros(&s, env),
            Step::P => post(&s, hard || env.is_set("hardbreaks-option")),
        };
    }
    if v.is_empty() { s } else { restore(&s, &v, usize::MAX, env) }
}
pub fn normal(s: &str, env: &Env) -> String {
    apply(s, NORMAL, env, false, false)
}
/// metadata lines and attribute values
pub fn header(s: &str, env: &Env) -> String {
    apply(s, &[Step::C, Step::A], env, false, true)
}
