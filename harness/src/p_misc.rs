//! Path resolution (P18) and string types (P19).
use crate::{Harness, api, tpl};
use asciidoc_parser::parser::PathResolver;
use asciidoc_parser::strings::{CowStr, InlineStr};
use std::borrow::Cow;
use std::hash::{Hash, Hasher};

// ------------------------------------------------------------------ web paths
/// (target, start); holes: ⑤ path characters, ⑥ path characters and backslash, ⑦ scheme characters
const W: &[(&str, Option<&str>)] = &[
    ("⑤⑤⑤⑤", None), ("⑤⑤⑤", Some("⑤⑤")), ("⑤⑤", Some("⑤⑤⑤")), ("", Some("⑤⑤⑤⑤")), ("./⑤⑤⑤", None), ("../⑤⑤⑤", Some("⑤")),
    ("⑤/⑤⑤/⑤", None), ("⑤⑤/a", Some("http://⑤⑤")), ("../⑤⑤", Some("http:⑤⑤⑤")), ("../../⑤", Some("⑦⑦⑦:⑤⑤")), ("a", Some("⑦⑦⑦⑤")),
    ("⑥⑥⑥", Some("⑥⑥")), ("../../../⑤⑤", Some("a/b/⑤⑤")), ("../../⑤../⑤", Some("./⑤")), ("/../⑤⑤⑤", Some("x")), ("④⑤⑤", Some("④⑤")),
    ("../../⑤..", Some("https://h/a/b/c")), ("⑤⑤/../../⑤⑤", None), ("⑤⑤", Some("⑦⑦⑦")), ("../⑤", Some("a/⑦⑦")), ("⑦⑦", Some("⑦")), ("⑦⑦⑦⑦", None), ("⑦⑦⑦", Some("a")),
];
const WDEEP: &[(&str, Option<&str>)] = &[
    ("⑤⑤⑤⑤⑤", None), ("⑤⑤⑤⑤", Some("⑤⑤")), ("⑤⑤", Some("⑤⑤⑤⑤")), ("⑥⑥⑥⑥", Some("⑥⑥")), ("⑤⑤⑤⑤⑤⑤", Some("./")), ("../../⑤⑤⑤", Some("⑦⑦⑦⑦:⑤⑤⑤")), ("a/b/../⑤⑤⑤⑤", Some("⑤")),
    ("../../../../⑤⑤⑤", Some("a/b/⑤⑤")),
];

fn scheme_len(s: &str) -> usize {
    // letter, then one or more of letter/digit/./+/-, then ':' and up to two slashes
    let c: Vec<char> = s.chars().collect();
    if c.is_empty() || !c[0].is_alphabetic() {
        return 0;
    }
    let mut i = 1;
    while i < c.len() && (c[i].is_alphabetic() || c[i].is_numeric() || c[i] == '.' || c[i] == '+' || c[i] == '-') {
        i += 1;
    }
    if i < 2 || i >= c.len() || c[i] != ':' {
        return 0;
    }
    i += 1;
    let mut k = 0;
    while k < 2 && i < c.len() && c[i] == '/' {
        i += 1;
        k += 1;
    }
    c[..i].iter().map(|c| c.len_utf8()).sum()
}

pub fn expected(target: &str, start: Option<&str>, win: bool) -> String {
    let fix = |s: &str| -> String { s.chars().map(|c| if win && c == '\\' { '/' } else { c }).collect() };
    let target = fix(target);
    let mut prefix = String::new();
    let mut path = target.clone();
    if let Some(st) = start
        && !target.starts_with('/')
    {
        let mut j = fix(st);
        if !j.ends_with('/') {
            j.push('/');
        }
        j.push_str(&target);
        let n = scheme_len(&j);
        prefix = j[..n].to_string();
        path = j[n..].to_string();
    }
    let (root, rest) = if let Some(r) = path.strip_prefix('/') {
        ("/", r.to_string())
    } else if let Some(r) = path.strip_prefix("./") {
        ("./", r.to_string())
    } else {
        ("", path)
    };
    let mut out: Vec<String> = vec![];
    for seg in rest.split('/') {
        match seg {
            "." => {}
            ".." => match out.last().map(|s| s.as_str()) {
                None if root == "/" => {}
                None | Some("..") => out.push("..".into()),
                Some(_) => {
                    out.pop();
                }
            },
            s => out.push(s.replace(' ', "%20")),
        }
    }
    format!("{prefix}{root}{}", out.join("/"))
}

fn web(t: &[(&str, Option<&str>)], job: usize) {
    const P5: &[u8] = b"a./";
    const P6: &[u8] = b"a./\\ %";
    const P7: &[u8] = b"aZ1.+-_:/";
    let e: &[&[u8]] = &[P5, P6, P7];
    let target = tpl::fill(t[job].0, e);
    let start = t[job].1.map(|s| tpl::fill(s, e));
    let win = t[job].0.contains('⑥') && api::pick(2) == 1;
    api::note(&format!("{target}\u{1}{}", start.as_deref().unwrap_or("-")));
    let r = PathResolver { file_separator: if win { '\\' } else { '/' } };
    let got = r.web_path(&target, start.as_deref());
    let want = expected(&target, start.as_deref(), win);
    check!(got == want, "web_path result");
    check!(r.is_web_root(&target) == target.starts_with('/'), "is_web_root");
    // rooted paths never climb above their root
    if got.starts_with('/') {
        check!(got.split('/').all(|s| s != ".." && s != "."), "rooted path with a parent or self reference");
    }
    api::cover(1);
    api::digest(|| got.clone());
}

// ------------------------------------------------------------------ strings
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn hashed<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut r = Rec(vec![]);
    t.hash(&mut r);
    r.0
}
const S: &[&str] = &["", "①", "①①①", "④", "④①④", "①2345678901234567890①", "①23456789012345678901①", "①234567890123456789012①", "①23456789012345678901④", "①2345678901234567890④", "①23456789012345678901234567890①"];

fn all_same(c: &CowStr<'_>, s: &str) {
    check!(&**c == s, "deref");
    check!(c.as_ref() == s, "as_ref");
    let b: &str = std::borrow::Borrow::borrow(c);
    check!(b == s, "borrow");
    check!(c.to_string() == s, "display");
    check!(hashed(c) == hashed(s), "hash");
    check!(format!("{c:#?}") == format!("{s:?}"), "debug");
}

fn strings(job: usize) {
    let s = tpl::fill(S[job], &[]);
    api::note(&s);
    let a = CowStr::from(s.as_str());
    let b = CowStr::from(s.clone());
    let c = b.clone();
    let d = CowStr::from(Cow::Borrowed(s.as_str()));
    let e = CowStr::from(Cow::<str>::Owned(s.clone()));
    let f = c.clone();
    let vs = [a, b, c, d, e, f];
    for v in &vs {
        all_same(v, &s);
        all_same(&v.clone(), &s);
        check!(v.clone().into_string() == s, "into_string");
        let w: Cow<'_, str> = v.clone().into();
        check!(w == s, "into Cow");
        for w in &vs {
            check!(v == w, "equality");
        }
    }
    // a string that differs is never equal
    let mut t = s.clone();
    t.push('x');
    let o = CowStr::from(t.as_str());
    for v in &vs {
        check!(*v != o && o != *v, "inequality");
    }
    match InlineStr::try_from(s.as_str()) {
        Ok(i) => {
            check!(s.len() <= 22, "a long string fits an InlineStr");
            check!(&*i == s && i.as_ref() == s && i.to_string() == s, "inline content");
            check!(hashed(&i) == hashed(s.as_str()), "inline hash");
            check!(i == InlineStr::try_from(s.as_str()).unwrap_or(InlineStr::from('q')), "inline equality");
        }
        Err(_) => check!(s.len() > 22, "a short string does not fit an InlineStr"),
    }
    let mut it = s.chars();
    if let (Some(ch), None) = (it.next(), it.next()) {
        all_same(&CowStr::from(ch), &s);
        all_same(&CowStr::from(Cow::Borrowed(&ch)), &s);
        check!(*InlineStr::from(ch) == *s, "inline from char");
    }
    api::cover(1);
    api::digest(|| format!("{s:?} {}", s.len()));
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness { name: "webpath", jobs: || W.len(), run: |j| web(W, j) },
        Harness { name: "webpath_deep", jobs: || WDEEP.len(), run: |j| web(WDEEP, j) },
        Harness { name: "strings", jobs: || S.len(), run: strings },
    ]
}
