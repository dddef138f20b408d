//! Document structure, compared with the reference model (refblk).
use crate::refblk::{self, ALL, ATTR, Cx, HEAD, IDS, Lock, MEDIA, META, SECT, TEXT, TREE, WARN};
use crate::refinl::Val;
use crate::{Harness, api, p_inline, p_total, tpl};
use asciidoc_parser::Parser;
use asciidoc_parser::parser::ModificationContext;

/// template, alphabets of ⑤…⑨, strings of ❶…❺
pub struct B(pub &'static str, pub &'static [&'static [u8]], pub &'static [&'static [&'static str]]);

pub fn fill(b: &B) -> String {
    let mut s = String::with_capacity(b.0.len() + 32);
    for c in b.0.chars() {
        match c {
            '❶'..='❺' => api::token(b.2[c as usize - '❶' as usize], &mut s),
            '①'..='⑨' => {
                let mut u = [0u8; 4];
                tpl::fill_into(c.encode_utf8(&mut u), b.1, &mut s)
            }
            c => s.push(c),
        }
    }
    s
}
/// is the text what the parser sees (no include directives)?
pub fn plain(src: &str) -> bool {
    !src.starts_with("include::") && !src.contains("\ninclude::") && !src.starts_with("if") && !src.contains("\nif")
}

fn compare(mask: u32, src: &str, parser: &mut Parser, api_attrs: &[(&str, Val, Lock)]) {
    api::note(src);
    let d = parser.parse(src);
    if plain(src) {
        let mut cx = Cx::new(src);
        cx.mask = mask;
        for (n, v, l) in api_attrs {
            cx.api(n, v.clone(), *l);
        }
        refblk::same_document(&mut cx, &d);
        if mask & ATTR != 0 {
            refblk::same_values(&cx, parser);
        }
    }
    api::cover(1);
    api::digest(|| format!("{d:?}"));
}
fn run(mask: u32, t: &[B], job: usize) {
    let src = fill(&t[job]);
    compare(mask, &src, &mut Parser::default(), &[]);
}

fn all(t: &[&str], job: usize) {
    let src = tpl::fill(t[job], &[b"a\n[: ="]);
    compare(ALL, &src, &mut Parser::default(), &[]);
}

const fn b(t: &'static str) -> B {
    B(t, &[], &[])
}
const fn x(t: &'static str, a: &'static [&'static [u8]]) -> B {
    B(t, a, &[])
}
const fn l(t: &'static str, s: &'static [&'static [&'static str]]) -> B {
    B(t, &[], s)
}

// lines of every kind
const LINES: &[&str] = &["a", " b", "", ".t", "..", "[q]", "[[i]]", "[", "//", "///c", "// d", "----", "--", "====", "= x", "== s", "=== u", "<<<", "'''", "+", ":k: v", ":k:w", "image::m[]", "* z", "  ", "\t", "....", "____", "****", "++++", "////", "=====", "-----", "# y", "[discrete]", "***", "<z"];
const FEW: &[&str] = &["a", "", "[q]", "----", "== s", "--", "//", ":k: v", "'''"];

// P03: the tree of blocks
const TREE_T: &[B] = &[
    l("❶\n❶\n❶", &[LINES]),
    l("❶\n\n❶\n❷", &[LINES, FEW]),
    l("a\n❶\n❷\n❶\nb", &[FEW, LINES]),
    l("== h\n❶\n❷\n\n❶", &[FEW, LINES]),
    l("--\n❶\n❷\n--\n❶", &[FEW, LINES]),
    l("====\n❷\n❶\n❶\n====\nz", &[FEW, LINES]),
    l("a\n❶\n❷\n❶", &[LINES, FEW]), l("❷❶\n❷\n❶", &[LINES, &["", ".t\n", "[q]\n", "a\n"]]),
    b("①①①"), b("a①①①b"), b("a\n①①\n①"), b("\n\n①①①"), b("a\n\n①①①b"), b(".①①\na"), b("[①①]\na①"), b("①\n①\n①"), b("a①\n \n①b"), b("//①\n①a"), b("④\n④\n④"), b("a\r①\n①"),
    x("⑤⑤⑤⑤⑤⑤", &[b"a\n =.["]), x("⑤⑤⑤⑤\n⑤⑤", &[b"-\na"]), x("== a\n⑤⑤⑤⑤⑤", &[b"\n= a"]), x("⑤⑤⑤⑤⑤⑤", &[b"/\na+"]),
];
// P05: delimited blocks
const DEL: &[&str] = &["----", "-----", "....", "++++", "////", "--", "====", "=====", "****", "____", "a", "", "---", "===", "---- ", "----\t", " ----", "/////", "---a", "|===", "```"];
const DELIM: &[B] = &[
    l("❶\n❶\n❶", &[DEL]), l("❶\na <b>\n❶\n❶", &[DEL]), l("❶\n❷\nb\n❷\n❶", &[DEL, &["----", "====", "--", "***", ""]]), l("====\n❶\nc\n❶\n====\nd", &[DEL]), l("[subs=❷]\n❶\n<*c*>\n❶\n", &[DEL, &["quotes", "+quotes", "-specialchars", "none", "normal", "verbatim"]]),
    l("❶\n❶\n❶\n❶\n❶\n❶", &[&["====", "=====", "======", "a", ""]]), l("❶\n❶\n❶\n❶\n❶", &[&["----", "-----", "------", "--", "a", ""]]), l("❶\n❶\n❶\n❶\n❶", &[&["****", "*****", "--", "a", "***", ""]]), l("❶\n❶\n❶\n❶\n❶", &[&["____", "_____", "....", ".....", "a"]]), l("❶\n❷\na\n❷\n❶\n", &[&["====", "=====", "----", "-----", "--", "****", "______", "....", "......", "++++", "+++++", "////", "/////"], &["====", "=====", "----", "-----", "--", "****", "______", "....", "......", "++++", "+++++", "////", "/////", "---- ", "====\t", " ----"]]), l(".t\n[❷]\n❶\na\n❶\nb", &[DEL, &["q", "literal", "%o", "#i", "normal"]]),
    b("----\n①①\n----①"), b("----①\nx\n--①-\n"), b("....\n①\n①...\n...."), b("++++\n<①>\n++++\n①"), b("////\n①\n////①\na"), x("====\n①⑤\n====\n⑤", &[b"=\na-"]), b("====\na\n====\n①"), b("--\n①\n--①\na"), b("**①*\n①\n****"), b("____\n①\n①___"), b("-①--\na\n----"), b("===①\n①\n====\n"), b("a\n----\n①\n----\nb"), b("a①\n====\nb"),
    x("⑤⑤⑤⑤⑤⑤", &[b"-\na"]), x("--⑤⑤⑤⑤⑤⑤", &[b"-\n"]), x("====\n⑤⑤⑤⑤⑤⑤", &[b"=\na"]), x("⑤⑤⑤⑤\n⑤⑤⑤⑤", &[b"-="]), x("----\n⑤⑤⑤⑤⑤\n⑤", &[b"- \na\t"]), x("____\n⑤⑤⑤⑤⑤⑤a", &[b"_\n "]), x("....\n<⑤>\n⑤⑤⑤⑤⑤", &[b".&\r\n"]),
    x("====\n--\n⑤⑤⑤⑤⑤\n====\n", &[b"-=\na"]), x("--\n====\n⑤⑤⑤\n--⑤⑤", &[b"=-\na"]),
];
// P21: block macros for media
const MED: &[B] = &[
    l("❶::❷[❸]❹", &[&["image", "video", "audio", "Image", "img", "images"], &["a", "", " ", "a b", "é"], &["", "a", "b,c", "x=1", "]", "\"q,r\"", "["], &["", " ", "x", "\n", "\nz"]]),
    b("image::①①[b]"), b("audio::①a①[b]"), b("video::a[①]①"), l("❶\nimage::❷[]❸", &[METL, &["a", "a b", " a", "{sp}", "a\tb", "a[b"], &["", "\na", "\n[q]\nb", "\n----\n----"]]),
    b("image::②②[②]"), b("image::a[②②]"), b("video::②[②,②]"), x("audio::a②[⑤]②", &[b"]a, "]), b("image:②a[]"), b("②image::a[]②"), b("im②ge::a[b]②"), b("image::a[②]\n②"), b("image::a②\n[]"), l("image::❶❶[❶]", &[&["a", "é", "\u{a0}", "中", "😀", "]", " "]]), l("image::a[❶❶❶]", &[&["a", "é", "\u{a0}", "😀", "]"]]), b("image::a[b=②,②=c]"), b("image::a[\"②\",②]"), b(":n: w\n\nimage::{②}[{n}②]"), b(".t\n[[i]]\n[q]\nvideo::②[②]"),
    x("image::⑤⑤[⑤⑤]⑤", &[b"[]a, "]), x("⑤mage⑤⑤a[⑤]", &[b":i a"]), x("audio::a[⑤⑤⑤⑤]", &[b",=\"a "]),
];
// P22: the preamble
const PRE: &[B] = &[
    l("❶\n\n❶\n\n❷\n\n❶", &[&["= T", "a", "== s", ":k: v", "//c", "'''", "", "[discrete]\n== d", "----\n----"], &["== s", "a"]]), b("= T\n\n①①\n\n== s\n\n①"), b("①\n\n== s①b"), b("= T\n①\n\na\n\n=①= s"), b("a\n\n①= s\n\nb"), x("= T\n\n①⑤⑤== s", &[b"\n a="]), b(":①: b\n\n== s"), l("= T\n❶\n\n❶\n\n.x\n[[y]]\n== s\n\nb", &[&[":a: b", "a", "//", "", "--\na\n--"]]),
];
// P23: breaks
const BRK: &[B] = &[
    l("❶\n❷❸", &[METL, &["'''", "---", "- - -", "***", "* * *", "<<<", "''''", "-- -", "**"], &["", " ", "\na", "\n.t\nb"]]), l("❷❶\n❶\n❶", &[&["'''", "---", "***", "<<<", "* * *", "a", "", "[q]", "//c"], &["", "= T\n\n", "== s\n", "====\n", "a\n"]]), l("❷\n❶", &[&["'''", "---", "- - -", "***", "* * *", "<<<", "'''''", "-  -  -", "* * * *", "<<< a", "_ _ _", "___", " ***", "\t'''"], &["a", "a\n", "* b", ".t", "[q]\n", "[[i]]", "----\n----", "--", ":a: b\n", "image::a[]"]]),
    b("''①①"), b("<<①①"), b("'''①\n①"), b("-①-①-"), b("*①*①*"), b("①'''"), b("a\n'''①\n①"), b("a\n\n<<<①\nb"), b("[①]\n'''\n"), b(".①\n[[a①]]\n<<<"), b("'''\n<<<\n---\n①①*"), l("❶❷❸", &[&["'''", "---", "- - -", "***", "* * *", "<<<", "''", "----", "-- -", "<<<<", "-\t-\t-"], &["", " ", "  \t", "a", "\r"], &["", "\n", "\na", "\n\nb", "\n'''"]]), x("⑤⑤⑤⑤⑤⑤", &[b"-* '\n"]), x("⑤⑤⑤\n⑤⑤⑤", &[b"'<\na"]), x("⑤⑤⑤⑤⑤", &[b"- *\t"]),
];
// P24: block metadata
const METL: &[&str] = &[".t", ".*t*", ". t", "..t", ".", "[q]", "[.r]", "[#i]", "[%o]", "[[n]]", "[[n,r]]", "[]", "[[]]", "[ q]", "[[n]", "//c", "", "[[1]]", "[q]x"];
const META_T: &[B] = &[
    l("❶\n❶\n❷\nb", &[METL, &["--", "***", "<<<", "image::a[]", " l", "....\nx\n....", "== s", "[discrete]\n== d", "video::b[c]", "****\nx\n****", "=== u", "----"]]), l("a\n❶\n❶\nb", &[METL]), l("❶\n❶\n❶\n❶\nb", &[&[".t", "[q]", "[[n]]", "[[n,r]]", "//c", "[%o]", "a"]]), l("====\n❶\n❶\n====\n❶\nc", &[METL]), l("== h\n\n❶\n❶\n== s\n\n❶\na", &[METL]),
    l("❶\n❶\na", &[METL]), l("❶\n❶\n❷", &[METL, &["== s", "----\nx", "'''", "image::a[]", "====\nx\n====", ":k: v"]]), l("❶\n❷\n❷\na", &[METL, &[".t", "[q]", "[[n]]"]]),
    b(".①①\na"), b("[[①①]]\na"), b("[[a①b,①]]\na"), b("[①]\n.①\na"), b("[①①]\na"), b("[[①]]①\na"), b(".a①\n①b"), b("[.a①]\n----\n①\n----"), b("[[④]]\na"), b(".④④\na"), b("[④]\na"), b("a\n\n[①]\n①"), b("[#a①,②]\n== b"),
    x("[⑤⑤⑤⑤⑤]\na", &[b"a.#%,"]), x("⑤⑤⑤⑤⑤\na", &[b".[]a "]), x("[[⑤⑤⑤]]\n⑤a", &[b"a,1 _"]), x("[a]⑤⑤⑤⑤b", &[b"\n []"]),
];
// P13: attribute lists
const ATL: &[B] = &[
    b("[②②]\na"), b("[a②②]\na"), b("[a,②②]\na"), b("[②=②]\na"), b("[a=\"②②\"]\na"), b("[a='②②',b]\na"), b("[\"a②\"②,c]\na"), b("[a②,b=②]\na"), b("[.r②.s②]\na"), b("[#i②%o②]\na"), b("[role=②,opts=②]\na"), b("[options=\"a②b\",id=②]\na"), b("[a②=②,b]\na"), b("[②a=b]②\na"), b(":n: w\n\n[{②},{n}②]\na"), b("[④,④]\na"), b("[④=④]\na"), b("[a,b=\"c②d\",②]\na"), b("[%a②]\n[b②]\na"),
    l("[❶=1,❶=❷]\na", &[&["a", "b", "role", "opts", "options", "id", "alt", "A"], &["2", "\"c d\"", "\"c,d\"", "'*e*'", "\" ,  f,\""]]), l("[❶,❶,❶]\na", &[&["a", "b=1", "b=2", ".r", "role=s", "role=\" t  u \"", "%o", "opts=p", "options=\"q,,w\"", "id=i", "#j", "''", "\"\"", "None", "", "a=\"None\"", "'k.l'", "\"m%n\""]]),
    x("[⑤⑤⑤⑤⑤⑤]\na", &[b"a,=\" "]), x("[⑤⑤⑤⑤⑤⑤]\na", &[b"a.#%"]), x("[a⑤⑤⑤=⑤⑤⑤b]\na", &[b" a,'"]), x("[⑤\"⑤⑤\"⑤⑤]\na", &[b"\\\", a"]), x("[⑤'⑤⑤'⑤]\na", &[b"\\', a*"]), x("[a,⑤⑤⑤⑤,b]\na", &[b", \t="]), x("[role⑤\"⑤⑤⑤\"]\na", &[b"= ab"]), x("[⑤pts=⑤⑤⑤⑤]\na", &[b"oa,"]), x("[a-⑤⑤_1=⑤]\na", &[b"a1-_$"]),
];
// P15: sections
const HL: &[&str] = &["==", "===", "====", "=====", "======", "=", "=======", "##", "###"];
const SEC: &[B] = &[
    l("❶ a\n\n❶ b\n\n❶ c", &[HL]), l("= T\n:sectnums:\n\n❶ a\n\n❶ b\n\n❶ c", &[&["==", "===", "====", "[appendix]\n=="]]), l(":sectnums:\n:sectnumlevels: ❷\n\n❶ a\n\n❶ b\n\n❶ c", &[&["==", "===", "===="], &["1", "0", "2", "x", "9"]]),
    l("= T\n\n❶ a\n\n:sectnums❷:\n\n❶ b\n\n:sectnums!:\n\n❶ c", &[&["==", "==="], &["", "!"]]), l("❷\n== a\n\n❷\n❶ b\n\n❷\n❶ c", &[&["==", "===", "===="], &["[discrete]", "[float]", "[appendix]", "[q]", ".t", "[[i]]"]]),
    l(":sectnums:\n\n❶\n== a\n\n=== b\n\n❶\n== c\n\n❶\n=== d\n\n== e", &[&["[appendix]", "[discrete]", "", "[appendix#x]"]]),
    l(":sectnums:\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n❶ b\n\n=== c\n\n❶ d", &[HL]), l(":sectnums:\n\n== a\n\n=== a\n\n=== a\n\n=== a\n\n=== a\n\n=== a\n\n=== a\n\n=== a\n\n=== a\n\n=== a\n\n=== a\n\n=== a\n\n❶ b\n\n❶ d", &[&["==", "===", "====", "[appendix]\n=="]]), l(":sectnums:\n\n[appendix]\n== a\n\n[appendix]\n== a\n\n[appendix]\n== a\n\n[appendix]\n== a\n\n[appendix]\n== a\n\n[appendix]\n== a\n\n[appendix]\n== a\n\n[appendix]\n== a\n\n[appendix]\n== a\n\n[appendix]\n== a\n\n[appendix]\n== a\n\n❶\n== b\n\n=== c", &[&["[appendix]", "[discrete]", ""]]),
    b("==①①\na"), x("==⑤①\n⑤", &[b"= \na"]), b("== a①\n①"), b("①== a"), b("=①= a\n\n=①= b"), b("== a\n①①= b"), b("#①a\n①"), b("== a\n\n=== b\n\n①= c"), b("== ④\n\n===④ b"), b("--\n== a\n①\n--\n== b"), b("====\n==① a\n====\nb"), b("[①]\n== a\n\nb\n== c"), b(".①\n== a①b"), b(":sectnums①:\n\n== a\n\n=== b"), b(":n: discrete\n\n== a\n\n[{①}]\n=== b\nc"),
    x("⑤⑤⑤⑤a\n⑤⑤⑤b", &[b"= #"]), x("== a⑤⑤⑤⑤⑤b", &[b"=\n a"]), x("== a\n\n⑤⑤⑤⑤⑤⑤ b", &[b"="]),
];
// P16: IDs
const IDL: &[B] = &[
    b("== ②②"), b("== a②②b"), b("== ②a②\n\n== a"), b("== A②B.c-②"), b("== ④②④"), b("== <②>b&②;"), b("== &amp;② &#②1;"), b(":idprefix: ②\n\n== a②"), b(":idseparator: ②\n\n== a b②c"), b(":idprefix:\n:idseparator: ②②\n\n== a b"), b(":idprefix: ②_\n:idseparator:\n\n== ②a b"), b(":sectids②:\n\n== a"), b("== a\n\n:sectids!:\n\n== b②\n\n:sectids:\n\n== a"),
    b("[[②]]\n== a\n\n[[②]]\nb"), b("[#②]\n== a\n\n[#a]\n== b"), b("[[_a]]\nb\n\n== ②"), b("[[a]]\nx\n\n[[②]]\ny\n\n[#②]\nz"), b("[reftext=②]\n== a\n\n== a"), b("[[i,②]]\n== a"), b("== *②* _b_ `②`"), b(":n: v②\n\n== {n} {②}"), b(".t②\n[[i]]\na\n\n[id=②]\n----\n----"), b("== a\n\n== a②\n\n== a\n\n== a"), b("== a\n\n=== a-2\n\n== ②"), b("== a\n\n[[_a]]\nb②\n\n== a"), b("[[i]]\nimage::a[]\n\n[[②]]\n'''\n\n[[i②]]\n====\n===="), b("[discrete]\n== ②\n\n== a"), b("--\n== a②\n--\n\n== a"), b("== a -- b②c...②"), b("== (C)② 'q'②"),
    b("== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== ②\n\n[[_a-12]]\nx②\n\n== a"), l("== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n== a\n\n❶\n\n❶\n\n== a", &[&["[[_a-11]]\nb", "[[_a-12]]\nb", "== A", "== a 12", "== a-12", "x"]]),
    b(":idprefix:\n:idseparator: ④\n\n== ②④a"), l("== a❶b ❶\n\n== a b", &[&["&frac14;", "&#8364;", "&#x1f;", "&a;", "&a1;", "&sup123;", "&#1;", "&#123456;", "&#x12345;", "&amp;", "&Ab;", "&ab1", "<b>", "<>", "<b\">", "(C)", "...", "--", " -- ", "'", "{deg}", "*b*"]]), x("== a&⑤⑤⑤⑤;b", &[b"a1#xF"]),
    x("== ⑤⑤⑤⑤⑤", &[b"a. -_"]), x(":idseparator: ⑤\n:idprefix: ⑤\n\n== ⑤⑤⑤", &[b"a.-_ "]), l("❶\n== ❷\n\n❶\n== ❷\n\n❶\nb", &[&["[[x]]", "[#x]", "[[_a]]", "[#_a_2]", "[q]"], &["a", "A", "a_2", "a 2", "x"]]),
];
// P28: warnings
const WARNL: &[&str] = &["a", "", "= b", "== c", "==== d", "======= e", "----", "====", "[a,,b]", "[a=]", "[[]]", "[[1]]", "[[i]]", ".t", "[q]", ":sp: x", ":toc: y", "[a=\"b]", "[\"a\"b]"];
const WRN: &[B] = &[
    l("❶\n❶\n\n❶\n❶", &[&["a", "= b", "== c", "==== d", "[a,,b]", "[[1]]", "[[1,b]]", "[[i]]", "====", "--", "image::[]", "video::a", "[a=b"]]), l("== s\n❶\n\n❶\n\n❶\n\n❶", &[&["=== a", "==== b", "===== c", "== d", "[[i]]", "e"]]), l("= T\nA\nB\n❶\n❶\n", &[WARNL]), l("[[i]]\n❶\n\n[#i]\n❶\n\n[[i]]\n❶", &[&["a", "== b", "<<<", "--\nc\n--", "----\n----", "image::d[]", ":e: f", "[discrete]\n== g"]]),
    l("❶\n❶\n❶", &[WARNL]), l("= T\n❶\n❶\n\na", &[WARNL]), l("== s\n\n❶\n\n❶\n\n❶", &[WARNL]), b("[①①]\na"), b("[[①①]]\na"), b("[a,①]①\n"), b("= T\nA\nB\n①①\n\na"), b("= T\n①①①"), b("--\n①\n①-"), b("[[a]]\nx\n\n[[①]]\ny\n\n[#①]\nz"), b("[a①\"b①]\nc"), b("[a=①\"①]\nc"), b("image::a[②②]"), b("video::a[b②=②,,]"), x("[⑤⑤⑤⑤⑤]\na", &[b"a,=\" "]), x("⑤⑤⑤⑤⑤⑤⑤⑤ a", &[b"=#"]),
];
// P27: substitution lists
const SUBN: &[&str] = &["specialchars", "c", "specialcharacters", "quotes", "q", "attributes", "a", "replacements", "r", "macros", "m", "post_replacements", "p", "normal", "n", "verbatim", "v", "none", "x", "callouts"];
const SUBT: &str = "<*b*> {sp}(C) http://a.b +\nc";
const SUBS: &[B] = &[
    l("[❷]\n❶\n<*b*> {deg}(C) http://a.b +\nc\n❶", &[&["----", "....", "====", "--", "++++", "****", "////"], &["", "q", "subs=+q", "subs=-c", "subs=\"a+,q+\"", "subs=\"+r,+a\"", "subs=\"q,-q,+m\"", "subs=none", "subs=normal", "subs=\"v,-c\"", "source", "listing", "literal", "pass", "pass,subs=q", "normal"]]), l("[❷]\n❶<*b*> {deg}(C) http://a.b +\nc", &[&["", " ", ".t\n", "[[i]]\n"], &["", "q", "subs=+q", "subs=-c", "subs=\"a+,q+\"", "subs=\"+r,+a\"", "subs=\"q,-q,+m\"", "subs=none", "subs=\"v,-c\"", "source", "literal", "pass", "pass,subs=q", "normal", "%hardbreaks", "%hardbreaks,subs=-p"]]), l("[subs=\"❶,❶,❶\"]\n<*b*> {deg}(C) +\nc", &[&["+q", "q+", "-q", "q", "a", "+a", "a+", "-c", "n", "v", "m", "p"]]), l("[subs=\"❶,❶,❶\"]\n----\n<*b*> {deg}(C) +\nc\n----", &[&["+q", "q+", "-q", "q", "a+", "+a", "-a", "c+", "-c", "n", "v"]]),
    l("[subs=❶]\n<*b*> {deg}(C) http://a.b +\nc", &[SUBN]), l("[subs=\"❶,❶\"]\n<*b*> {deg}(C) http://a.b +\nc", &[SUBN]), l("[subs=\"❷❶❸\"]\n<*b*> {deg}(C) http://a.b +\nc", &[SUBN, &["+", "-", ""], &["+", "-", "", ","]]), l("[subs=\"❷❶❸,❷q❸\"]\n----\n<*b*> {deg}(C) +\nc\n----", &[&["c", "a", "r", "m", "p", "n"], &["+", "-", ""], &["+", ""]]),
    b("[subs=②②]\n<*a*>"), b("[subs=\"②,②\"]\n<*a*>"), b("[subs=q②]\n----\n<*a*>\n----"), b("[subs=②②]\n----\n<*a*>\n----"), b("[pass②]\n<*a*>"), b("[②]\n<*a*>"), b("[%hardbreaks]\na②\nb②c"), b(":hardbreaks②:\n\na\nb"), b("[options=②,subs=p]\na +\nb"), b("[subs=macros]\n----\nlink:a[②]<\n----"), b("[,subs=②②]\n++++\n<*a*>\n++++"), b("[normal②]\n <*a*>"), b("[literal]\n<*a*>②\n②b"), b("[listing]\n<*②*>\n"), b("[source,②]\n<*②*>\n"), b("[%hardbreaks]\n====\na\n②b\n===="), b(".<*②*>\n[subs=②]\na"), b("[subs=\"c,q,②\"]\n....\n<*a*>{sp}②\n...."),
    x("[subs=\"⑤⑤⑤⑤⑤\"]\n<*a*> {sp}", &[b"qca+-,"]), x("[subs=⑤⑤⑤⑤⑤]\n----\n<*a*> {sp}\n----", &[b"qca+-"]),
];
// P14: the document header
const HDR: &[B] = &[
    b("= ②②"), b("=②T\n②"), b("①= T\n①"), b("= T\n②②②"), b("= T\nA ②②"), b("= T\nA B <②②>"), b("= T\nA ②_② C"), b("= T\nA B; ②②"), b("= T\nA②B; C <②>"), b("= T\nA\n②②"), b("= T\nA\nv②②"), b("= T\nA\nv1②, ②"), b("= T\nA\n②, b: ②"), b("= T\nA\nv1.②,②:c"), b("= T\nA\n1②: ②"), b("= T\n:a: ②\n\n{②}"), b("= T\n//②\nA②"), b("//①\n= T①\n"), b(":a: ②\n= T {a}\n②"), b("= T\nA\n\n①"), b("= T\n:author: ②②"), b("= T\n:author: A B② <②>"), b("= ④④\n④"), b("= T\nA④ ④ <④>"), b("= T\nA④\nv④, ④: ④"), b("= T\nA ②② C D"), b("= T\nA. ②-② C'"), b(":n: A <b②\n\n= T\n{n}②"), b("= T\n:n: A B\n{n}②; {②}"), b("= T\n:e: a@b\nA <{e②}>②"), b("= T\n\n①①"), b("= T\n①\nA\n①"), b("\n①\n= T\n"), b("= T & ② <②>"), b("= *T②* {②}"), b("= T\nA\nv②1\n:a: b②"), b("= T\nA\nB\n②:"), b("= T\n:revnumber: ②\nA\nv2②"), b("= T\r\nA\r①"),
    x("= T\n⑤⑤⑤⑤⑤⑤", &[b"A ;<>_"]), x("= T\nA\n⑤⑤⑤⑤⑤⑤", &[b"v1,: "]), x("= T\nAb⑤⑤⑤⑤⑤", &[b" <a>;."]), l("= T\n❶\n❶\n❶\n\nz", &[&["A B", "v1, d: r", ":k: v", "//c", "////", "= U", "", " C", "é <x@y>"]]), l("❶\n❶\n❶\nz", &[&["= T", ":k: v", "//c", "", "A B", "v1", ":author: C D"]]),
];
// P12: attribute values over several lines
const MUL: &[B] = &[
    b(":a: b \\\n①①c"), b(":a: b①\\\n①c\n\n{a}"), x(":a: b \\\n⑤⑤⑤c⑤\\\n⑤⑤d\n\n{a}", &[b" \tx+"]), x("= T\n:a: b⑤\\⑤\n⑤⑤c⑤\n\n{a}", &[b" \tx+\\"]), l(":a: ❶❷❶❷❶\n\n{a}", &[&["b", "", "é", "<", "{sp}", "\t", "+"], &[" \\\n", "\\\n", " \\ \n", " + \\\n ", "\n", " \\\n\t", " \\\t\n"]]),
    b(":a: b②\\\n②c\n\n{a}"), b(":a: b \\\n ②c②\n"), b(":a: b + \\\n②c②\n\nd"), b(":a: ②②\\\n\nc"), b(":a: b \\\n②\\\n②"), b(":a: b②\n②c"), b(":a:②b \\\nc②"), b(":a: b ②\\\nc + \\\nd②"), b("= T\n:a: b②\\\n②c\n\n{a}"), b(":a: \\\nb②\n②"), b(":a: {sp}②\\\n{②}"), b(":a: <②>\\\n&②"), b("x\n\n:a: b②\\\nc②\n\n{a}"),
    x(":a: b⑤⑤⑤⑤⑤c⑤", &[b" \\\n+"]), x(":a:⑤⑤⑤⑤⑤⑤", &[b" \\\nb"]), x("= T\n:a: b⑤⑤⑤\\\n⑤⑤⑤\n", &[b" +\\\n"]), l(":a: b \\\r\n❶❶❶❶", &[&["\r\n", "c", "\\", " ", "\n"]]), x(":a: b \\\n⑤⑤⑤⑤⑤⑤\n", &[b":ca \\\n"]),
];
// P11: attribute entries and their values
const ATN: &[&str] = &[":a: 1", ":A: 2", ":a!:", ":!a:", ":a:", "{a}", "", ":a : 3", ":a:4", ":b-_: {a}5", ":sp: 6", ":toc: 7", ":sectnumlevels: 8", ":sectids!:", ":-a: 9"];
const ATR: &[B] = &[
    l("❶\n❶\n❶\n\n{a} {b-_} {toc}", &[ATN]), l("= T\n❶\n❶\n\n{a}\n\n❶\n\n{a}{sp}", &[ATN]), l("x\n\n❶\n\n{a}\n\n--\n❶\n--\n\n{a}{toc}", &[ATN]), x(":②⑤: b\n\n{a⑤}", &[b"aA!-"]), x(":⑤⑤: b\n\n{a②}", &[b"aA!-"]), b(":②a②: b\n\n{a}"), b(":a②b\n\n{a}"), b(":!②: b\n\n{②}"), b(":a②: <②>"), b("x\n\n:a: ②\n\n{a②}"), b(":a: {b②}\n:b: {a}②\n\n{b}"), b(":a:②b②"), b("②:a: b\n②"), b(":④: ④\n\n{④}"), b(":a: ④②\n\n{a}"), b("----\n----\n:a②: b\n\n{a}"), b("= T\n\n== s\n:a: ②\n\n{a}②\n\n:a!:\n\n{a}"), x(":⑤⑤⑤⑤ b\n\n{a}", &[b"a!:-_ "]), x(":a⑤⑤⑤⑤⑤", &[b":! b\n"]),
];
// deeper bounds for the thorough tier
const TREE_D: &[B] = &[
    l("❶\n❶\n❷\n❷", &[LINES, FEW]), l("❷\n❷\n❶\n\n❶\n❷", &[LINES, FEW]), l("[q]\n❶\n❷\n❶\n❷", &[FEW, LINES]), l("== h\n❶\n❶\n❶\n\n=== i\n❶", &[FEW]), l("--\n====\n❶\n❶\n❶\n====\n❶", &[FEW]),
    b("①①①①"), b("a①①①①b"), b("a\n①①①\n①"), b("a\n\n①①①\nb"), b("①①\n①①\n①"), b(".①①①\na"), b("//①①\n①a"),
    x("⑤⑤⑤⑤⑤⑤⑤⑤", &[b"a\n =.["]), x("⑤⑤⑤⑤⑤⑤⑤⑤⑤⑤", &[b"-\na"]), x("⑤⑤⑤⑤⑤⑤⑤⑤⑤⑤", &[b"=\na"]),
];
const DELIM_D: &[B] = &[
    l("❶\n❶\n❶\n❷", &[DEL, &["----", "====", "--", "***", "", "a"]]), l("❷\n❶\n❶\n❷\n❷", &[DEL, &["----", "====", "--"]]), l("--\n❶\n❶\n❶\n--\nd", &[DEL]),
    b("----\n①①\n----\n①①"), b("====\n①①\n====\n①①"), b("--\n①①①\n--"), b("****\n①①\n***①①"), x("⑤⑤⑤⑤⑤⑤⑤⑤⑤⑤⑤", &[b"-\na"]), x("====\n⑤⑤⑤⑤⑤⑤⑤⑤⑤", &[b"=\na"]), x("....\n⑤⑤⑤⑤⑤⑤⑤⑤", &[b".\r\n "]), x("====\n--\n⑤⑤⑤⑤⑤⑤⑤⑤\n====\n", &[b"-=\na"]),
];
const MED_D: &[B] = &[b("image::②②②[②②]"), b("image::a[②②②]②"), b("②②②ge::a[]"), b("audio::a②[②②]②"), b("image::④④[④④]"), b("image::a[②=②②]"), x("image::⑤⑤⑤[⑤⑤⑤]⑤⑤", &[b"[]a, "]), x("video::a[⑤⑤⑤⑤⑤⑤⑤]", &[b",=\"a "])];
const PRE_D: &[B] = &[l("❶\n\n❶\n\n❶\n\n❶\n\n❷", &[&["= T", "a", "== s", ":k: v", "//c", "'''", "", "[discrete]\n== d", "----\n----"], &["== s", "a"]]), b("= T\n\n①①①\n\n== s\n\n①"), b("= T\n①①\n\na\n\n=①= s"), b("= T\n\n①①①①== s")];
const BRK_D: &[B] = &[b("'①①①"), b("<①①①"), b("①①①①"), b("a\n①①①①\n①"), x("⑤⑤⑤⑤⑤⑤⑤⑤", &[b"-* '\n"]), x("⑤⑤⑤⑤\n⑤⑤⑤⑤", &[b"'<\na"]), x("⑤⑤⑤⑤⑤⑤⑤⑤", &[b"- *\t"])];
const META_D: &[B] = &[l("❶\n❶\n❶\n❷", &[METL, &["a", "== s", "----\nx", "'''", "image::a[]", "====\nx\n====", ":k: v"]]), b(".①①①\na"), b("[[①①①]]\na"), b("[①①①]\na"), b("[[a①b,①①]]\na"), b("①①①\na①"), x("[⑤⑤⑤⑤⑤⑤⑤]\na", &[b"a.#%,"]), x("⑤⑤⑤⑤⑤⑤⑤\na", &[b".[]a "]), x("⑤⑤⑤⑤⑤⑤⑤⑤\na", &[b".[]a\n"])];
const ATL_D: &[B] = &[b("[②②②]\na"), b("[a②②②]\na"), b("[a,②②②]\na"), b("[②②=②②]\na"), b("[a=\"②②②\"]\na"), b("[\"a②②\"②,c]\na"), b("[.r②②.s②]\na"), b("[#i②②%o②]\na"), b("[④,④=④]\na"), x("[⑤⑤⑤⑤⑤⑤⑤⑤]\na", &[b"a,=\" "]), x("[⑤⑤⑤⑤⑤⑤⑤⑤]\na", &[b"a.#%"]), x("[a⑤⑤⑤⑤=⑤⑤⑤⑤b]\na", &[b" a,'"]), x("[⑤\"⑤⑤⑤⑤\"⑤⑤]\na", &[b"\\\", a"])];
const SEC_D: &[B] = &[l("❶ a\n\n❶ b\n\n❶ c\n\n❶ d", &[HL]), l(":sectnums:\n\n❶ a\n\n❶ b\n\n❶ c\n\n❶ d", &[&["==", "===", "====", "[appendix]\n==", "[discrete]\n=="]]), l(":sectnums:\n:sectnumlevels: ❷\n\n❶ a\n\n❶ b\n\n❶ c\n\n❶ d", &[&["==", "===", "====", "====="], &["1", "0", "2", "3", "5", "x", "9"]]), l("❷\n== a\n\n❷\n❶ b\n\n❷\n❶ c\n\n❶ d", &[&["==", "===", "===="], &["[discrete]", "[float]", "[appendix]", "[q]", ".t", "[[i]]", ":sectnums:\n"]]), b("==①①\n①"), b("==①①①"), b("①①①= a"), b("== a\n①①= b\n①"), x("⑤⑤⑤⑤⑤a\n⑤⑤⑤⑤b", &[b"= #"]), x("== a⑤⑤⑤⑤⑤⑤⑤b", &[b"=\n a"])];
const IDL_D: &[B] = &[b("== ②②②"), b("== a②②②b"), b("== ②a②②\n\n== a"), b("== ④②④②"), b("== &②②②;"), b(":idprefix: ②②\n\n== a②"), b(":idseparator: ②②\n\n== a b②c"), b("[[②②]]\n== a\n\n[[②②]]\nb"), x("== ⑤⑤⑤⑤⑤⑤⑤⑤", &[b"a. -_"]), x(":idseparator: ⑤\n:idprefix: ⑤⑤\n\n== ⑤⑤⑤⑤", &[b"a.-_ "]), l("❶\n== ❷\n\n❶\n== ❷\n\n❶\n== ❷\n\n❶\nb", &[&["[[x]]", "[#x]", "[[_a]]", "[#_a_2]", "[q]"], &["a", "A", "a_2"]])];
const WRN_D: &[B] = &[l("❶\n❶\n❶\n\n❶", &[WARNL]), l("= T\n❶\n❶\n❶\n\na", &[WARNL]), l("== s\n\n❶\n❶\n\n❶\n❶\na", &[WARNL]), b("[①①①]\na"), b("[[①①①]]\na"), b("= T\nA\nB\n①①①\n\na"), b("image::a[②②②]"), x("[⑤⑤⑤⑤⑤⑤⑤]\na", &[b"a,=\" "])];
const SUBS_D: &[B] = &[l("[subs=\"❶,❶,❶\"]\n<*b*> {deg}(C) http://a.b +\nc", &[SUBN]), l("[subs=\"❷❶❸,❷❶❸\"]\n<*b*> {deg}(C) http://a.b +\nc", &[SUBN, &["+", "-", ""], &["+", "-", ""]]), l("[subs=\"❷❶❸,❷❶❸\"]\n----\n<*b*> {deg}(C) +\nc\n----", &[&["c", "a", "r", "m", "p", "n", "q", "v"], &["+", "-", ""], &["+", "-", ""]]), b("[subs=②②②]\n<*a*>"), b("[subs=②②②]\n----\n<*a*>\n----"), x("[subs=\"⑤⑤⑤⑤⑤⑤⑤\"]\n<*a*> {sp}", &[b"qca+-,"])];
const HDR_D: &[B] = &[b("= ②②②"), b("= T\nA ②②②"), b("= T\nA B <②②②>"), b("= T\nA②B; C②D <②>"), b("= T\nA\n②②②"), b("= T\nA\nv②②②"), b("= T\nA\nv1②, ②②"), b("= T\nA\nv1.②,②②:c②"), b("= T\n①①①\n①"), b("①①①\n= T\n"), b("= ④④②\n④"), x("= T\n⑤⑤⑤⑤⑤⑤⑤⑤", &[b"A ;<>_"]), x("= T\nA\n⑤⑤⑤⑤⑤⑤⑤⑤", &[b"v1,: "]), x("= T\nAb⑤⑤⑤⑤⑤⑤⑤", &[b" <a>;."]), l("= T\n❶\n❶\n❶\n❶\n\nz", &[&["A B", "v1, d: r", ":k: v", "//c", "////", "= U", "", " C", "é <x@y>"]])];
const MUL_D: &[B] = &[b(":a: b②②\\\n②c\n\n{a}"), b(":a: b \\\n②②\\\n②c②\n"), b(":a: ②②②\\\n\nc"), b(":a: b②②\n②c"), x(":a: b⑤⑤⑤⑤⑤⑤⑤c⑤", &[b" \\\n+"]), x(":a: b⑤⑤⑤⑤⑤⑤⑤⑤", &[b" \\\n+c"]), l(":a: ❶❶❶❶❶\n", &[&[" ", "\\", "\n", "\r\n", "+", " \\\n", "c", " +"]])];
const ATR_D: &[B] = &[l("❶\n❶\n❶\n❶\n\n{a} {b-_} {toc}", &[ATN]), l("= T\n❶\n❶\n\n{a}\n\n❶\n❶\n\n{a}{sp}", &[ATN]), l("x\n\n❶\n\n{a}\n\n--\n❶\n❶\n--\n\n{a}{toc}", &[ATN]), b(":②②: b\n\n{a②}"), b(":②②②: b\n\n{a}"), b(":a②b②②\n\n{a}"), b(":a: {b②②}\n:b: {a}②\n\n{b}"), x(":⑤⑤⑤⑤⑤⑤ b\n\n{a}", &[b"a!:-_ "]), x(":a⑤⑤⑤⑤⑤⑤⑤", &[b":! b\n"])];
const LOCK_D: &[B] = &[l("= T\n❶\n❶\n\n{a}{b}\n\n❶\n\n{a}", &[&[":a: 1", ":A!:", ":a:", ":b: {a}", "a", ":doctitle: U", ":author: N"]]), b("= T\n:②: 1\n\n{a②}\n\n:a: 3\n\n{a}"), b("x {a}②\n\n:a: ②②\n\n{a}"), l(":a: 1\n= T\nN\n❶\n\n❶\n\n❶\n\n{a}{author}{b}", &[&[":a: 2", ":a!:", ":a:", ":b: 1", ":author: O"]])];
static CTX: [(Lock, ModificationContext); 4] = [(Lock::Anywhere, ModificationContext::Anywhere), (Lock::ApiOnly, ModificationContext::ApiOnly), (Lock::ApiOrHeader, ModificationContext::ApiOrHeader), (Lock::ApiOrBody, ModificationContext::ApiOrDocumentBody)];
const LOCK: &[B] = &[
    l("= T\n❶\n❷\n\n{a}{b}\n\n❷\n\n{a}", &[&[":a: 1", ":A!:", ":a:", ":b: {a}", "a", ":doctitle: U", ":author: N"], &[":a: 1", ":A!:", ":b: {a}"]]), l("= T\nN M\nv1, d\n\n{author} {revnumber}\n\n❶\n\n{author} {a} {doctitle}", &[&[":author: O", ":a: 2", ":doctitle!:"]]), l(":a: 1\n= T\n❶\n\n❶\n\n{a}", &[&[":a: 2", ":a!:", ":a:"]]),
    l("♻= T\n❶\n\n{a}{b}\n\n❶\n\n{a}{b}", &[&[":a: 1", ":A!:", ":b: {a}"]]),
    x("= T\n:⑤: 1\n\n{a⑤}\n\n:a: 3\n\n{a}", &[b"aAb!"]), x("x {a}\n\n:a⑤: 1\n\n{a}⑤", &[b"aA!-"]),
];
fn api_attr(p: Parser, name: &str, val: &Val, c: &ModificationContext) -> Parser {
    let c = c.clone();
    match val {
        Val::Value(v) => p.with_intrinsic_attribute(name, v, c),
        Val::Set => p.with_intrinsic_attribute_bool(name, true, c),
        Val::Unset => p.with_intrinsic_attribute_bool(name, false, c),
    }
}
fn lock(t: &[B], job: usize) {
    let name = ["a", "A", "author", "doctitle", "revnumber"][api::pick(5)];
    let vals = [Val::Value("v".into()), Val::Set, Val::Unset];
    let val = &vals[api::pick(3)];
    let (l, c) = &CTX[api::pick(4)];
    let mut p = api_attr(Parser::default(), name, val, c);
    let src = fill(&t[job]);
    let mut attrs = vec![(name, val.clone(), *l)];
    let src = match src.strip_prefix('♻') {
        // a second call for the same attribute, or for another one
        Some(s) => {
            let name = ["a", "A", "b"][api::pick(3)];
            let val = [Val::Value("w".into()), Val::Unset][api::pick(2)].clone();
            let (l, c) = &CTX[api::pick(4)];
            p = api_attr(p, name, &val, c);
            attrs.push((name, val, *l));
            s.to_string()
        }
        None => src,
    };
    compare(ATTR | HEAD | TEXT | WARN, &src, &mut p, &attrs);
}

/// every template of this module, without the reference model
const EVERY: &[&[B]] = &[IDL, SEC, MED, HDR, MUL, ATR, META_T, WRN, SUBS, BRK, PRE, DELIM, ATL, LOCK];
fn total(job: usize) {
    let mut j = job;
    let mut l = 0;
    while j >= EVERY[l].len() {
        j -= EVERY[l].len();
        l += 1;
    }
    let src = fill(&EVERY[l][j]);
    p_total::inspect(&src);
}

/// every template there is, its holes filled with characters of two and three
/// bytes (one of which changes its length in lower case) or with nothing
const WHOLE: &[&[B]] = &[IDL, SEC, MED, HDR, MUL, ATR, META_T, WRN, SUBS, BRK, PRE, DELIM, ATL, LOCK, TREE_T];
const ODD: &[&str] = &["é", "", "\u{2028}", "İ"];
pub fn wide_jobs() -> usize {
    WHOLE.iter().map(|l| l.len()).sum::<usize>() + p_inline::EVERY.iter().map(|l| l.len()).sum::<usize>() + p_total::T.len()
}
pub fn wide(job: usize) -> String {
    let mut s = String::with_capacity(128);
    let mut t = "";
    let mut lists: &[&[&str]] = &[];
    let mut j = job;
    'f: {
        for l in WHOLE {
            if j < l.len() {
                (t, lists) = (l[j].0, l[j].2);
                break 'f;
            }
            j -= l.len();
        }
        for l in p_inline::EVERY {
            if j < l.len() {
                for (n, v) in l[j].0 {
                    s.push_str(&format!(":{n}: {v}\n"));
                }
                s.push('\n');
                (t, lists) = (l[j].1, &[&["a"] as &[&str]]);
                break 'f;
            }
            j -= l.len();
        }
        t = p_total::T[j];
    }
    let mut n = 0;
    for c in t.chars() {
        match c {
            '❶'..='❺' => s.push_str(lists[c as usize - '❶' as usize][0]),
            '①'..='⑨' => {
                n += 1;
                if n <= 3 { api::token(ODD, &mut s) } else { s.push('é') }
            }
            '♻' => {}
            c => s.push(c),
        }
    }
    s
}

fn tree_wide(job: usize) {
    compare(ALL, &wide(job), &mut Parser::default(), &[]);
}

pub fn harnesses() -> Vec<Harness> {
    let _ = (META, SUBT);
    vec![
        Harness { name: "tree_all", jobs: || p_total::T.len(), run: |j| all(p_total::T, j) },
        Harness { name: "total_block", jobs: || EVERY.iter().map(|l| l.len()).sum(), run: total },
        Harness { name: "total_wide", jobs: wide_jobs, run: |j| p_total::inspect(&wide(j)) },
        Harness { name: "tree_wide", jobs: wide_jobs, run: tree_wide },
        Harness { name: "tree", jobs: || TREE_T.len(), run: |j| run(TREE, TREE_T, j) },
        Harness { name: "delim", jobs: || DELIM.len(), run: |j| run(TREE | TEXT, DELIM, j) },
        Harness { name: "media", jobs: || MED.len(), run: |j| run(TREE | MEDIA, MED, j) },
        Harness { name: "preamble", jobs: || PRE.len(), run: |j| run(TREE, PRE, j) },
        Harness { name: "breaks", jobs: || BRK.len(), run: |j| run(TREE | META, BRK, j) },
        Harness { name: "meta", jobs: || META_T.len(), run: |j| run(TREE | META | TEXT, META_T, j) },
        Harness { name: "attrlist", jobs: || ATL.len(), run: |j| run(META, ATL, j) },
        Harness { name: "sections", jobs: || SEC.len(), run: |j| run(TREE | SECT, SEC, j) },
        Harness { name: "ids", jobs: || IDL.len(), run: |j| run(IDS, IDL, j) },
        Harness { name: "warnings", jobs: || WRN.len(), run: |j| run(WARN, WRN, j) },
        Harness { name: "subs", jobs: || SUBS.len(), run: |j| run(TEXT, SUBS, j) },
        Harness { name: "header", jobs: || HDR.len(), run: |j| run(HEAD | ATTR, HDR, j) },
        Harness { name: "multiline", jobs: || MUL.len(), run: |j| run(ATTR | TEXT, MUL, j) },
        Harness { name: "attrs", jobs: || ATR.len(), run: |j| run(ATTR | TEXT, ATR, j) },
        Harness { name: "locks", jobs: || LOCK.len(), run: |j| lock(LOCK, j) },
        Harness { name: "locks_deep", jobs: || LOCK_D.len(), run: |j| lock(LOCK_D, j) },
        Harness { name: "tree_deep", jobs: || TREE_D.len(), run: |j| run(TREE, TREE_D, j) },
        Harness { name: "delim_deep", jobs: || DELIM_D.len(), run: |j| run(TREE | TEXT, DELIM_D, j) },
        Harness { name: "media_deep", jobs: || MED_D.len(), run: |j| run(TREE | MEDIA, MED_D, j) },
        Harness { name: "preamble_deep", jobs: || PRE_D.len(), run: |j| run(TREE, PRE_D, j) },
        Harness { name: "breaks_deep", jobs: || BRK_D.len(), run: |j| run(TREE | META, BRK_D, j) },
        Harness { name: "meta_deep", jobs: || META_D.len(), run: |j| run(TREE | META | TEXT, META_D, j) },
        Harness { name: "attrlist_deep", jobs: || ATL_D.len(), run: |j| run(META, ATL_D, j) },
        Harness { name: "sections_deep", jobs: || SEC_D.len(), run: |j| run(TREE | SECT, SEC_D, j) },
        Harness { name: "ids_deep", jobs: || IDL_D.len(), run: |j| run(IDS, IDL_D, j) },
        Harness { name: "warnings_deep", jobs: || WRN_D.len(), run: |j| run(WARN, WRN_D, j) },
        Harness { name: "subs_deep", jobs: || SUBS_D.len(), run: |j| run(TEXT, SUBS_D, j) },
        Harness { name: "header_deep", jobs: || HDR_D.len(), run: |j| run(HEAD | ATTR, HDR_D, j) },
        Harness { name: "multiline_deep", jobs: || MUL_D.len(), run: |j| run(ATTR | TEXT, MUL_D, j) },
        Harness { name: "attrs_deep", jobs: || ATR_D.len(), run: |j| run(ATTR | TEXT, ATR_D, j) },
    ]
}
