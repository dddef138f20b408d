//! Documents on which the code contradicts a property and isn't repaired (see
//! DESIGN.md): one concrete job each, replayed natively by check.py for the
//! `known:` lines of known-findings.txt.
use crate::{Harness, api};
use asciidoc_parser::Parser;
use asciidoc_parser::blocks::IsBlock;

const DOCS: [&str; 5] = ["[[i,text]]\n== S", "== S", "[listing]\na *b*", "link:a[b,window=_blank,opts=nofollow]", "x \u{96}0\u{97} +p+ y"];

fn run(job: usize) {
    let src = DOCS[job];
    api::note(src);
    let mut p = Parser::default();
    let d = p.parse(src);
    let b = d.nested_blocks().next();
    let r = b.and_then(|b| b.rendered_content()).unwrap_or("");
    match job {
        0 => check!(d.catalog().get_ref("i").and_then(|r| r.reftext.as_deref()) == Some("text"), "reference text of a section's anchor isn't catalogued"),
        1 => check!(b.and_then(|b| b.id()) == Some("_s"), "generated ID of a section isn't reported by Block::id"),
        2 => check!(r == "a *b*", "paragraph styled listing gets normal substitutions"),
        3 => check!(r.contains("rel=\"nofollow noopener\""), "malformed rel attribute of a link"),
        _ => check!(r == "x \u{96}0\u{97} p y", "text that looks like a passthrough placeholder is replaced"),
    }
    api::cover(1);
}

pub fn harnesses() -> Vec<Harness> {
    vec![Harness { name: "known", jobs: || DOCS.len(), run }]
}
