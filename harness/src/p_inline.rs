//! Inline substitution of paragraphs, compared with the reference model (refinl).
use crate::refinl::{self, Env, Val};
use crate::{Harness, api, tpl, walk};
use asciidoc_parser::Parser;
use asciidoc_parser::blocks::{Block, IsBlock, SimpleBlockStyle};
use asciidoc_parser::content::Content;

/// (attribute entries of the header, paragraph text, alphabets of ⑤…)
pub struct T(pub &'static [(&'static str, &'static str)], pub &'static str, pub &'static [&'static [u8]]);
const fn t(s: &'static str) -> T {
    T(&[], s, &[])
}
const fn x(s: &'static str, a: &'static [&'static [u8]]) -> T {
    T(&[], s, a)
}

/// the text of a paragraph: comment lines dropped, trailing blanks and the
/// indentation of the first line removed
pub fn paragraph_text(orig: &str) -> String {
    let indent = orig.len() - orig.trim_start_matches([' ', '\t']).len();
    let mut out: Vec<String> = vec![];
    for l in orig.split('\n') {
        if l.starts_with("//") && !l.starts_with("///") {
            continue;
        }
        let own = l.len() - l.trim_start_matches([' ', '\t']).len();
        let l = if own == l.len() { l } else { &l[own.min(indent)..] };
        out.push(l.trim_end().to_string());
    }
    out.join("\n")
}

struct V<'e> {
    env: &'e Env,
    seen: usize,
}
impl walk::Visitor for V<'_> {
    fn content(&mut self, c: &Content<'_>, b: &Block<'_>) {
        if let (Block::Simple(p), None) = (b, b.attrlist()) {
            let src = paragraph_text(c.original().data());
            // an indented paragraph is literal
            let want = if p.style() == SimpleBlockStyle::Literal { refinl::specialchars(&src) } else { refinl::normal(&src, self.env) };
            self.seen += 1;
            check!(c.rendered() == want, "paragraph text is rendered differently from what its markup means");
        }
    }
}

/// ❶ an item of an attribute list
const ITEM: &[&str] = &["a", "b c", "\"b,c\"", "'d e'", "role=r", "role=\"r s\"", ".r.s", "#i", "%o", "opts=nofollow", "options=\"o,nofollow\"", "window=_blank", "window=w", "width=1", "height=2", "title=t", "link=l", "None", "", "a=b", "alt=\"é\"", "id=j", "x^", "inline", "opts=inline", "fallback=f"];

/// templates in which ❶ stands for an item of an attribute list
fn fill(body: &str, alpha: &[&[u8]], src: &mut String) {
    for (i, part) in body.split('❶').enumerate() {
        if i > 0 {
            api::token(ITEM, src);
        }
        tpl::fill_into(part, alpha, src);
    }
}

fn define(defs: &[(&str, &str)], src: &mut String, env: &mut Env) {
    for (n, v) in defs {
        src.push_str(&format!(":{n}: {v}\n"));
        env.set(n, if v.is_empty() { Val::Set } else { Val::Value(refinl::header(v, env)) });
    }
    if !defs.is_empty() {
        src.push('\n');
    }
}
fn run(ts: &[T], job: usize) {
    let T(defs, body, alpha) = &ts[job];
    let mut src = String::new();
    let mut env = Env::default();
    define(defs, &mut src, &mut env);
    fill(body, alpha, &mut src);
    compare(&src, &env);
}
/// characters beyond ASCII in every hole
fn wide(ts: &[T], job: usize) {
    let T(defs, body, _) = &ts[job];
    let mut src = String::new();
    let mut env = Env::default();
    define(defs, &mut src, &mut env);
    let mut n = 0;
    for c in body.chars() {
        match c {
            '❶' => api::token(ITEM, &mut src),
            '①'..='⑨' => {
                n += 1;
                if n <= 3 { api::token(&["é", "“", "\u{a0}", "", "İ"], &mut src) } else { src.push('é') }
            }
            c => src.push(c),
        }
    }
    compare(&src, &env);
}
fn compare(src: &str, env: &Env) {
    api::note(src);
    let d = Parser::default().parse(src);
    let mut v = V { env, seen: 0 };
    walk::document(&mut v, &d);
    if v.seen > 0 {
        api::cover(1);
    }
    api::digest(|| format!("{d:?}"));
}

// quotes: formatting marks, attribute lists, boundary characters
const Q1: &[u8] = b"*_`#^~ a\\[]";
const QW: &[u8] = b" a.,;:&}\\\"'`*-(<_0\n";
const QUOTES: &[T] = &[
    t("a②*b*②c"), t("a②_b_②c"), t("a②`b`②c"), t("a②#b#②c"), t("a②^b^②c"), t("a②~b~②c"), t("a②**b**②c"), t("a②__b__②c"), t("a②``b``②c"), t("a②##b##②c"),
    t("a②\"`b`\"②c"), t("a②'`b`'②c"), t("x *②②* y"), t("x _②②_ y"), t("x `②②` y"), t("x #②②# y"), t("x ^②②^ y"), t("x ~②②~ y"),
    t("x **②②** y"), t("x ``②②`` y"), t("x ##②②## y"), t("x \"`②②`\" y"), t("x '`②②`' y"),
    x("x ⑤⑤⑤b*", &[Q1]), x("x ⑤⑤b⑤⑤ y", &[b"*_` a\\"]), x("x *⑤a*⑤_b_⑤y", &[b" a.*_\\\n:"]), x("x⑤`a`⑤`b`⑤", &[QW]), x("x⑤⑤`a`⑤⑤y", &[b"`\"' a\\"]),
    t("x [②②]*b* y"), t("x [②②]#b# y"), t("x [②②]##b## y"), t("x \\[②]#b# y"), t("x②[.r]_b_②y"), t("x [.②#②]`b` y"), t("x [#i.②②]^b^"), t("x [.a,②]~b~ y"), t("x [.a②role=②]*b*"),
    t("x *a\nb②*②"), t("x *a*②*b* _c②d_"), t("x **a②b**②c* d"), t("x _a *b②_ c*②"), t("x `*②*` *`②`*"), t("*②* x"), t("_a_②"), t("④*a*④"), t("④`a`④"), t("x *④*④"), t("x \\②*a*②"), t("x \\**a②**②*"), t("x \\\\__a__②②"),
    t("x [❶❶]*b* y"), t("x [❶,❶]#b# y"), t("x [a①b]`c`"), t("x [.a①b]##c##"), t("x ^a②b^②~c~"), t("x \"`a②`\" '`b②`'"), t("x '`a`'②\"`b`\"②"), t("x ``a②`b`②``"), t("x [②]_a_ [②]_b_"),
];
// replacements
const REPL: &[T] = &[
    t("x②(C)②y"), t("x②(R)②y"), t("x②(TM)②y"), t("x (②) (②) y"), t("a②--②b"), t("x --②y\n--②"), t("x\n--②\n②--"), t("x②...②y"), t("x ②..②. y"), t("x②'②y"), t("x②`'②y"), t("x②->②y"), t("x②=>②y"), t("x②<-②y"), t("x②<=②y"),
    t("x &②②; y"), t("x &amp②②; y"), t("x &#②②; y"), t("x &#x②②; y"), t("x &#1②②2; y"), t("x &#x1②②2; y"), t("x &a②1②; y"), t("x \\&am②;②"), t("x \\(②)②"), t("x \\②.. \\--②"), t("x \\-②② \\'a"), t("a④--④b"), t("a④'④b"), t("a --④ --④"), t("a--②--②"), t("a'b②c'd②e"), t("(C)②(R)②(TM)"), t("x -②> =②> <- y"),
    x("x ⑤⑤⑤ y", &[b"-<>=.&'\\ a"]), x("x ⑤⑤⑤⑤ y", &[b"-<>=\\"]), x("a⑤⑤⑤⑤b", &[b"- \\a\n'"]), x("x⑤⑤⑤⑤⑤)y", &[b"(CRTM)\\"]),
    x("x &#⑤⑤⑤⑤⑤⑤⑤⑤; y", &[b"1;a"]), x("x &#x⑤⑤⑤⑤⑤⑤⑤; y", &[b"1a;g"]), x("x &⑤⑤⑤⑤⑤; y", &[b"aZ1;"]), x("x &⑤⑤⑤⑤⑤ y", &[b"#x1a;"]),
];
// special characters
const SPEC: &[T] = &[
    t("②②"), x("②②⑤", &[b"<>&;"]), t("a②b②c"), t("x <②> &②;"), t("x &②lt;②"), t("x ④<④"), t("*<②>* _&②_"), t("x <②/b>②"), t("a ②\n<②"), t("{lt}②<②"), t("x +<②>+ ②"), t("x `<②` &②"), t("$$<②>$$ ②"), t("a<②[&]②"),
    x("⑤⑤⑤⑤", &[b"<>&; a"]), x("x +&⑤⑤⑤⑤+ y", &[b"amplt;#1"]), x("x $$&⑤⑤⑤⑤⑤$$ y", &[b"lt;&#"]), x("+⑤&amp⑤+ `+&⑤t;+`", &[b"a;&lg#"]), t("x pass:c[&②;②]"), x("x &⑤⑤⑤⑤⑤ y", &[b"amp;lt<"]), t("x \\<② \\&②"), T(&[("a", "<b>&")], "x {a}②{②}", &[]),
];
// attribute references
const ATTR: &[T] = &[
    T(&[("a", "v"), ("b-c", "w"), ("set", "")], "x {②} y", &[]),
    T(&[("a", "v"), ("b-c", "w"), ("set", "")], "x {②②} y", &[]),
    T(&[("a", "v"), ("b-c", "w"), ("set", "")], "x {b②c} {②} y", &[]),
    T(&[("a", "v"), ("b-c", "w"), ("set", "")], "x {SE②}② y", &[]),
    T(&[("a", "v")], "x ②{a}② y", &[]),
    T(&[("a", "v")], "x \\②a}② y", &[]),
    T(&[("a", "v")], "x {②a②} y", &[]),
    T(&[("a", "{b}"), ("b", "z")], "x {a}②{b②", &[]),
    T(&[("a", "*q*"), ("b", "(C)")], "x {a}② {b②}", &[]),
    T(&[("a", "http://x.y"), ("b", "+p+")], "x {a}② {b}②", &[]),
    T(&[("a", "v"), ("_b", "w"), ("0c", "u")], "x {②b} {②c} y", &[]),
    T(&[("a", "v")], "x *{a}② `{a}` {nope②}", &[]),
    T(&[], "x {sp}②{empty}② {deg}x {plus}", &[]), T(&[], "x {deg}②{plus}②", &[]),
    T(&[], "x {set②} {toc}② {sectnums}", &[]),
    T(&[("a", "r")], "x [.{a}②]*b* [.{②}]#c#", &[]),
    T(&[("ab", "v"), ("a-b", "w"), ("a_b", "z")], "x {⑤⑤⑤⑤ y", &[b"{}ab-_\\"]),
];
// passthroughs
const P1: &[u8] = b"+\\a *[]";
const PASS: &[T] = &[
    t("x②+b+②c"), t("x②++b++②c"), t("x②+++b+++②c"), t("x②$$b$$②c"), t("x +②②+ y"), t("x ++②②++ y"), t("x +++②②+++ y"), t("x $$②②$$ y"), t("x pass:[②②] y"), t("x pass:②[<b>*c*] y"), t("x pass:②②[<b>*c*] y"), t("x pass:q,②[<b>*c*] y"), t("x ②pass:[*b*]② y"),
    x("x ⑤⑤⑤⑤ y", &[P1]), x("x ⑤⑤+⑤*b*⑤+", &[b"+\\a []"]), x("x ⑤+⑤<⑤+⑤y", &[b"+ \\a:;"]), t("x [②②]+<b>+ y"), t("x [②②]++<b>++ y"), t("x [②]+++<b>+++② y"), t("x [x-]+*b*②+②"), t("x [r x②]+*b*② +"), t("x [x-]++*b*②++②"), t("x [②x-]`*b*`②"), t("x \\[②]+*b*+②"), t("x [r]\\②+*b*+②"), t("x [r]\\②++*b*++"),
    t("x ②+*b*+②*c*"), t("x ;+*b*②+②"), t("x \\++*②*++②"), t("x \\\\+②*b*②+"), t("x +a②+ +b②+"), t("x +++a②+++ ++b②++"), t("+`②`+②"), t("`+②*+`②"), t("`+++②*+++`②"), t("x pass:c,a[<{sp}>②]②"), t("x pass:[a\\]②]②"), t("x pass:n[*a* +b②+]②"), t("x pass:m[+<②+]"), t("④+<④+"), t("x +④*a*④+ y"), t("x +*a*+\n+②*b*②+"), t("x ++a\n②b*++②"), t("*+a②+* _++b②++_"), t("x $$a②$$ ++$$②++"), t("x +{sp}②+ {plus}②"), t("pass:[]②x②"), t("x http://a.b/+c②+②"), t("[x-]+a +++②+++ *b*②+"),
    t("+*a*+ +*a*+ +*a*+ +*a*+ +*a*+ +*a*+ +*a*+ +*a*+ +*a*+ +*a*+ ②+<②>+ y"), t("++*a*++ pass:q[*b*] +++c+++ $$d$$ ++*a*++ pass:q[*b*] +++c+++ $$d$$ ++*a*++ pass:q[*b*] +++c+++ $$d$$ ++②+++ y"),
];
// macros
const MACRO: &[T] = &[
    t("x image:②[②] y"), t("x image:a②b[②] y"), t("x image:a.png[②②] y"), t("x image:a.png[b,②,c②] y"), t("x image:a.png[width=②,height=②]"), t("x image:a.png[title=\"②\",link=②]"), t("x image:a.png[link=self,window=②,opts=②]"), t("x image:a.png[b,role=②,float=②]"), t("x ②image:a.png[b]②"), t("x image:a②.svg[b,opts=inline②]"), t("x image:a.svg[b,opts=interactive,fallback=②]②"), t("x image:a.svg[②%interactive]"), t("x image:d/a_b-②.png[]②"), t("x image:http://a②b.png[]"), t("x image:a.png[a\\]②]②"), t("x image:②.png[format=svg]"),
    T(&[("imagesdir", "im/d")], "x image:②②[b]", &[]), T(&[("imagesdir", "http://h/d")], "x image:../②②[b]", &[]), T(&[("imagesdir", "im")], "x image:/②a[b] image:./②b[]", &[]),
    t("x icon:②[] y"), t("x icon:a[②②] y"), t("x icon:a②[alt=②]"), T(&[("icons", "font")], "x icon:a[②②] y", &[]), T(&[("icons", "font")], "x icon:a[2x,flip=②] icon:b[rotate=②,title=t]", &[]), T(&[("icons", "")], "x icon:a②[alt=②]", &[]), T(&[("icons", ""), ("iconsdir", "d"), ("icontype", "gif")], "x icon:a②[width=②,height=1]", &[]),
    t("x link:②[②] y"), t("x link:a[②②] y"), t("x link:a②[b,role=②]"), t("x link:a[b^,②]②"), t("x link:a[b,window=②,opts=nofollow②]"), t("x ②link:a[b]②"), t("x link:a[b\\]②]②"), t("x link:a[b=②,id=②]"), t("x link:a[\"b②\",role=r]"), T(&[("hide-uri-scheme", "")], "x link:http://②[] http://a②", &[]), T(&[("hide-uri-scheme", "")], "x http://a[] <http://b②> link:②a:[]", &[]),
    t("x②http://a.b②"), t("x http://a.b②② y"), t("x http://a②[②] y"), t("x http://a.b[c②,role=②]"), t("x <http://a②> ②"), t("x ②<http://a>②"), t("x \\②http://a"), t("x <\\http://a>②"), t("x②http②://a"), t("x ftp://a② irc://b②"), t("x (http://a②)②"), t("x \"http://a\"② '②http://b'"), t("x http://a);② http://b②:"), t("x link:http://a②[b] link:http://c②"), t("x http://a[b^]② http://c[\\]②]"), t("x http://a[\"b=②\",id=c②]"), t("x https://a.b②c.② file://d"), t("http://a②\nhttp://b②"), t("x;http://a②[b]②"),
    t("x mailto:②[②] y"), t("x mailto:a@b.cc[T,②,②] y"), t("x mailto:a[b②c,s]②"), t("x mailto:a@b.cc[②]"), t("x②a@b.cc② y"), t("x a②b@c②d.org y"), t("x a@b.②② y"), t("x a@b②.org②"), t("x a&b②@c.org"), t("x ②@a.bc ②a@b.cd"), t("x a@b.cc② d@e.ff②"),
    t("x [[②②]] y"), t("x [[a,②②]] y"), t("x ②[[a]]② y"), t("x anchor:②[②] y"), t("x anchor:a②[b②] y"), t("x \\[[a②]] \\anchor:b②[]"), t("[[a②]]b [[②c]]"), t("x④a@b④.cc"), t("x http://④[④]"), t("x image:④[④]"), t("x link:④[④]"), t("x [[④]] [[a④]]"), t("x mailto:a@b.cc[T,④é②]"),
    t("x image:a.b[c,a①lt①=①d] y"), t("x link:a[b,role①=①\"c①d\"] y"), t("x http://a.b[①,①role=c①]"), t("x icon:a[b,①alt①=c①]"), t("x mailto:a@b.cc[c①d,①e]"),
    t("x image:a.png[❶,❶] y"), t("x image:a.svg[❶,❶] y"), t("x icon:a[❶,❶]"), T(&[("icons", "font")], "x icon:a[❶,❶]", &[]), t("x link:a[❶,❶]"), t("x http://a.b[❶,❶]"), t("x mailto:a@b.cc[❶,❶,c]"), t("x link:a[❶❶]"),
    t("x *http://a②* `link:b[②]`"), t("x http://a_②_b_②"), t("x link:a[*b②*] http://c[_d②_]"), t("x image:a[*②*] http://a?b&c②"), t("x http://a[b]② mailto:c@d.ee[f]②"),
];
// line breaks
const POST: &[T] = &[
    t("a②+\nb②"), t("a +②\nb"), t("a②+②\nb +"), t("a +\nb② +\nc②"), t("a +\n②\n②"), t("②②+\nb"), x("a⑤⑤⑤b⑤⑤c", &[b" +\n\ta"]), x("a⑤⑤\n⑤⑤\n⑤+", &[b" +a\\"]), T(&[("hardbreaks-option", "")], "a②\nb②\nc", &[]), T(&[("hardbreaks-option", "")], "a⑤⑤⑤⑤b", &[b" +\na"]), t("a *b +\nc②*②"), t("a ++ +②++ +\nb②"),
];
pub const EVERY: &[&[T]] = &[QUOTES, REPL, SPEC, ATTR, PASS, MACRO, POST];

// wider variants (thorough tier)
const QUOTES_D: &[T] = &[
    t("x *②②②* y"), t("x _②②②_ y"), t("x `②②②` y"), t("x **②②②** y"), t("x [②②②]#b# y"), t("a②*b②*②c"), t("a②_b②_②c"), t("a②`b②`②c"), t("②②②"), t("x②\"`b②`\"②y"), t("x ^②②②^ y"), t("x ②*②b②* y"), x("⑤⑤⑤⑤⑤", &[b"*_`a \\"]), x("x ⑤⑤⑤a⑤⑤⑤ y", &[b"*_ \\"]), x("x ⑤⑤⑤a⑤⑤⑤ y", &[b"#[].`"]), x("⑤⑤a⑤⑤b⑤⑤", &[b"*\n _"]),
];
const REPL_D: &[T] = &[t("x \\②.. \\--② \\'②"), t("x②②②y"), t("x ②-②-② y"), t("x &②②②; y"), t("x &#②②②; y"), x("x ⑤⑤⑤⑤⑤⑤ y", &[b"-<>=.& "]), x("⑤⑤⑤⑤⑤", &[b"- \na\\'"])];
const SPEC_D: &[T] = &[t("②②②"), x("⑤⑤⑤⑤⑤⑤", &[b"<>&; a"]), t("x <②②>② y")];
const ATTR_D: &[T] = &[T(&[("a", "v"), ("b-c", "w"), ("set", "")], "x {②②②} y", &[]), T(&[("ab", "v"), ("a-b", "w"), ("a_b", "z")], "x ⑤⑤⑤⑤⑤⑤ y", &[b"{}ab-_\\"]), T(&[("a", "{b}"), ("b", "z")], "x {a②}②{b②} y", &[])];
const PASS_D: &[T] = &[t("x +②②②+ y"), t("x ++②②②++ y"), t("x ②+b②+② y"), t("x [②②②]+<b>+ y"), t("x pass:②②②[<b>*c*{sp}'] y"), x("x ⑤⑤⑤⑤⑤⑤ y", &[P1]), t("x $$②②②$$"), x("x ⑤⑤⑤a⑤⑤⑤ y", &[b"+`\\ "])];
const MACRO_D: &[T] = &[t("x image:②②[②] y"), t("x http://②②② y"), t("x link:②②[②] y"), t("x mailto:②②[②] y"), t("x ②②@a.bc② y"), t("x [[②②②]] y"), t("x http://a[②②②] y"), t("x link:a[②②②] y"), t("x image:a.png[②②②] y"), t("x https://a.b②c.② file://d②"), t("x a@b.②②② y"), t("x icon:②②[②]")];
const POST_D: &[T] = &[t("a②②\n②b +"), x("⑤⑤⑤⑤⑤⑤⑤⑤", &[b" +\na"]), T(&[("hardbreaks-option", "")], "a②②\n②b", &[])];

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness { name: "quotes", jobs: || QUOTES.len(), run: |j| run(QUOTES, j) },
        Harness { name: "quotes_wide", jobs: || QUOTES.len(), run: |j| wide(QUOTES, j) },
        Harness { name: "repl", jobs: || REPL.len(), run: |j| run(REPL, j) },
        Harness { name: "repl_wide", jobs: || REPL.len(), run: |j| wide(REPL, j) },
        Harness { name: "spec", jobs: || SPEC.len(), run: |j| run(SPEC, j) },
        Harness { name: "spec_wide", jobs: || SPEC.len(), run: |j| wide(SPEC, j) },
        Harness { name: "attrref", jobs: || ATTR.len(), run: |j| run(ATTR, j) },
        Harness { name: "attrref_wide", jobs: || ATTR.len(), run: |j| wide(ATTR, j) },
        Harness { name: "pass", jobs: || PASS.len(), run: |j| run(PASS, j) },
        Harness { name: "pass_wide", jobs: || PASS.len(), run: |j| wide(PASS, j) },
        Harness { name: "macro", jobs: || MACRO.len(), run: |j| run(MACRO, j) },
        Harness { name: "macro_wide", jobs: || MACRO.len(), run: |j| wide(MACRO, j) },
        Harness { name: "post", jobs: || POST.len(), run: |j| run(POST, j) },
        Harness { name: "post_wide", jobs: || POST.len(), run: |j| wide(POST, j) },
        Harness { name: "quotes_deep", jobs: || QUOTES_D.len(), run: |j| run(QUOTES_D, j) },
        Harness { name: "repl_deep", jobs: || REPL_D.len(), run: |j| run(REPL_D, j) },
        Harness { name: "spec_deep", jobs: || SPEC_D.len(), run: |j| run(SPEC_D, j) },
        Harness { name: "attrref_deep", jobs: || ATTR_D.len(), run: |j| run(ATTR_D, j) },
        Harness { name: "pass_deep", jobs: || PASS_D.len(), run: |j| run(PASS_D, j) },
        Harness { name: "macro_deep", jobs: || MACRO_D.len(), run: |j| run(MACRO_D, j) },
        Harness { name: "post_deep", jobs: || POST_D.len(), run: |j| run(POST_D, j) },
    ]
}
