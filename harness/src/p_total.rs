//! Totality: parsing and inspecting any document neither panics nor hangs.
use crate::{Harness, api, tpl, walk};
use asciidoc_parser::Parser;

/// templates; holes are described in tpl.rs (⑤: `a`, newline and punctuation)
pub const T: &[&str] = &[
    "③③③", "⑤①①", "④④", "①④①", "③\r③", "a ⑤①① b", "x④①①y", "*⑤①* _①_", "`⑤①①`", "+①①①+", "++①①①++", "+++①①+++①", "a+++①④①+++b", "pass:⑤[①①]",
    "pass:q[⑤①①]", "{⑤①①}", "\\{①}①", "{set:①①}", "{counter:①①}", "#⑤①①#", "[⑤①]#①#", "[.⑤①]*x*①", "\\⑤①①", "a①\"`①`\"①", "'`⑤①`'①", "a^⑤①^ ~①~",
    "(①)①①", "a--①①", "a ⑤①b -> ①", "...①①", "image:⑤①[①]", "image:①[①", "icon:⑤[①①]", "icon:x[⑤①①]", "link:⑤[①①]", "link:a[⑤①①]", "http⑤⑤①[①",
    "see http://⑤①①", "<http://⑤①①>", "http://e.c⑤[①①]", "mailto:⑤[①①]", "a①@①b.①", "a@b.①①", "[[⑤①①]]", "[[①,①]]x", "anchor:⑤①[①]", "xref:⑤①[①]",
    "<<⑤①①>>", "kbd:[⑤①①]", "btn:[⑤①①]", "menu:⑤[①①]", "footnote:[①①]", "image:a.svg[①,opts=①]", "image:a.svg[opts=inline]①①",
    "image:a.svg[opts=interactive]①①", "irc://⑤①①", "xlink:⑤①[①]", "=⑤①①", "= ⑤⑤\n①①", "= T\n⑤⑤①①", "= T\n:①①:①①\n", "= T\nA B <①①>\n①",
    "= T\nA B\nv①,①①", "= T\nA B\n⑤⑤:①①", "==⑤⑤①\n①", "== a\n\n⑤⑤①①", "== ⑤⑤\n\n==①①", ":⑤⑤①:①", ":a: b①\\\n①①", ":a!: ①\n\n{a①}", ":!①①:\n",
    "----\n①①①①", "--\n⑤①①--", "====\n①①\n====", "....\n①①①", "```①\n①①", "++++\n①①\n++++", "|===\n⑤①①", "|===\n①\n|===①", "////\n①①①\n",
    "****\n①\n***①", "____\n⑤①①", "[①①①]\nx", "[⑤①]①x", "[①=①①]\nx", "[\"①①\"①]\nx", "[,①,①]\nx", "[%①#①.①]\nx", "[[①①]]\nx", "[[a,①①]]\nx",
    "[⑤\n⑤①①", ".⑤①①\nx", ".①\n①①", "//⑤⑤①\n①", "'''①①", "<<<①①", "image::⑤⑤[①①]", "image::⑤⑤①①", "video::①①[①]", "audio::①①[①]", "⑤⑤①::x[①]",
    "image::a[⑤①]①", "* ⑤①①", ". ⑤①①", "a:: ①①", "NOTE: ⑤①①", "[subs=①①]\na", "[subs=\"①①①\"]\na <b>", "[subs=+①①]\n----\na\n----",
    "[source,①①]\n----\n①\n----", "[quote,①①]\n①", "[stem]\n①①", "[abstract]\n⑤①①", "[discrete]\n=⑤①①", "== A\n\n⑤=①①b", "include::⑤⑤[①①]\n",
    "include::⑤①①\nb", "include::a[①⑤]\n①", "\\include::①[①]", "ifdef::⑤[⑤①]\n①\nendif::[]", "= T\n:sectnums⑤⑤\n\n== A⑤\n\n[appendix①]\n=①= B",
    "= T\n\n[[a]]\n== A⑤\n\n[[⑤]]\n== B①①", ".t①\n[①]\n[[①]]\n==== \nx", "a +\n⑤①①", "a⑤+\n①①", ":hardbreaks:\n\na①\n①b", "[%hardbreaks]\na⑤\n①①",
    "④*①*④", "`①④`①", "④`①`\"④", "\"`④①`\"", "④+①④+", "pass:[④①]", "④http://a.b④①", "④_①_④", "+++④①④+++", "\u{96}①\u{97}①", "+\u{96}①\u{97}+①",
    "`+①+`\u{96}0\u{97}①", "④--④ ...④", "④'④①", "a④@b.④①", "{④①}", "== ④④①", "image:④[④①]", "link:④[④①]", "[④①]\n④①", "[[④①]]\n④", ":④①:④", ".④①\n④",
    "----\n④①\n----④", "④\n④①\n④", "= ④\n④①;a <①>",
];
/// the same with every hole unrestricted
const DEEP: &[&str] = &[
    "①①①", "a ①①① b", "*①①* _①_", "`①①①`", "pass:①[①①]", "pass:q[①①①]", "{①①①}", "#①①①#", "[①①]#①#", "[.①①]*x*①", "\\①①①", "'`①①`'①", "a^①①^ ~①~",
    "a ①①b -> ①", "image:①①[①]", "icon:①[①①]", "icon:x[①①①]", "link:①[①①]", "link:a[①①①]", "http①①①[①", "see http://①①①", "<http://①①①>",
    "http://e.c①[①①]", "mailto:①[①①]", "[[①①①]]", "anchor:①①[①]", "xref:①①[①]", "<<①①①>>", "kbd:[①①①]", "btn:[①①①]", "menu:①[①①]", "irc://①①①",
    "xlink:①①[①]", "=①①①", "= ①①\n①①", "= T\n①①①①", "= T\nA B\n①①:①①", "==①①①\n①", "== a\n\n①①①①", "== ①①\n\n==①①", ":①①①:①", "--\n①①①--",
    "|===\n①①①", "____\n①①①", "[①①]①x", "[[a,①①①]]\nx", "[①\n①①①", ".①①①\nx", "//①①①\n①", "image::①①[①①]", "image::①①①①", "①①①::x[①]",
    "image::a[①①]①", "* ①①①", ". ①①①", "NOTE: ①①①", "[abstract]\n①①①", "[discrete]\n=①①①", "== A\n\n①=①①b", "include::①①[①①]\n", "include::①①①①\n①",
    "ifdef::①[①①]\n①\nendif::[]", "= T\n:sectnums①①\n\n== A①\n\n[appendix①]\n=①= B", "= T\n\n[[a]]\n== A①\n\n[[①]]\n== B①①", "a +\n①①①", "a①+\n①①",
    "[%hardbreaks]\na①\n①①",
];

fn run(t: &[&str], job: usize) {
    inspect(&tpl::fill(t[job], &[b"a\n[: ="]));
}
pub fn inspect(src: &str) {
    api::note(src);
    let mut p = Parser::default();
    let d = p.parse(src);
    walk::document(&mut walk::Nop, &d);
    api::cover(1);
    api::digest(|| format!("{d:?}"));
}

pub fn harnesses() -> Vec<Harness> {
    vec![Harness { name: "total", jobs: || T.len(), run: |j| run(T, j) }, Harness { name: "total_deep", jobs: || DEEP.len(), run: |j| run(DEEP, j) }]
}
