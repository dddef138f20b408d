//! Visits every observable part of a parsed document through the public API.
use asciidoc_parser::attributes::{Attrlist, ElementAttribute};
use asciidoc_parser::blocks::{Block, IsBlock};
use asciidoc_parser::content::Content;
use asciidoc_parser::{Document, HasSpan, Span};

pub trait Visitor {
    /// a span that must lie in the document source; `what` names it
    fn span(&mut self, _s: &Span<'_>, _what: &'static str) {}
    fn content(&mut self, _c: &Content<'_>, _b: &Block<'_>) {}
    fn text(&mut self, _t: &str) {}
    fn block(&mut self, _b: &Block<'_>, _depth: usize) {}
    fn leave(&mut self, _b: &Block<'_>, _depth: usize) {}
}

fn attr<V: Visitor>(v: &mut V, a: &ElementAttribute<'_>) {
    v.text(a.value());
    if let Some(n) = a.name() {
        v.text(n);
    }
    for s in a.shorthand_items() {
        v.text(s);
    }
    for s in a.roles() {
        v.text(s);
    }
    for s in a.options() {
        v.text(s);
    }
    if let Some(s) = a.id() {
        v.text(s);
    }
    if let Some(s) = a.block_style() {
        v.text(s);
    }
}

pub fn attrlist<V: Visitor>(v: &mut V, l: &Attrlist<'_>) {
    v.span(&l.span(), "attrlist");
    for a in l.attributes() {
        attr(v, a);
    }
    for s in l.roles() {
        v.text(s);
    }
    for s in l.options() {
        v.text(s);
    }
    if let Some(s) = l.id() {
        v.text(s);
    }
    if let Some(s) = l.anchor() {
        v.text(s);
    }
    if let Some(s) = l.block_style() {
        v.text(s);
    }
    for n in 0..4 {
        if let Some(a) = l.nth_attribute(n) {
            v.text(a.value());
        }
    }
}

pub fn block<V: Visitor>(v: &mut V, b: &Block<'_>, depth: usize) {
    v.block(b, depth);
    v.span(&b.span(), "block");
    let _ = (b.content_model(), b.raw_context(), b.resolved_context(), b.declared_style(), b.substitution_group(), b.rendered_content());
    if let Some(s) = b.title_source() {
        v.span(&s, "block title");
    }
    if let Some(s) = b.title() {
        v.text(s);
    }
    if let Some(s) = b.anchor() {
        v.span(&s, "anchor");
    }
    if let Some(s) = b.anchor_reftext() {
        v.span(&s, "anchor reftext");
    }
    if let Some(l) = b.attrlist() {
        attrlist(v, l);
    }
    let _ = b.id();
    for r in b.roles() {
        v.text(r);
    }
    for r in b.options() {
        v.text(r);
    }
    match b {
        Block::Simple(x) => content(v, x.content(), b),
        Block::RawDelimited(x) => content(v, x.content(), b),
        Block::Media(m) => {
            if let Some(t) = m.target() {
                v.span(t, "media target");
            }
            attrlist(v, m.macro_attrlist());
        }
        Block::Section(s) => {
            v.span(&s.section_title_source(), "section title");
            v.text(s.section_title());
            let _ = (s.level(), s.section_type());
            if let Some(n) = s.section_number() {
                let _ = n.to_string();
            }
        }
        Block::DocumentAttribute(a) => {
            v.span(a.name(), "attribute name");
            if let Some(s) = a.raw_value() {
                v.span(&s, "attribute value");
            }
        }
        _ => {}
    }
    for n in b.nested_blocks() {
        block(v, n, depth + 1);
    }
    v.leave(b, depth);
}

fn content<V: Visitor>(v: &mut V, c: &Content<'_>, b: &Block<'_>) {
    v.span(&c.original(), "content");
    v.text(c.rendered());
    v.content(c, b);
}

pub fn document<V: Visitor>(v: &mut V, d: &Document<'_>) {
    v.span(&d.span(), "document");
    let h = d.header();
    v.span(&h.span(), "header");
    if let Some(s) = h.title_source() {
        v.span(&s, "document title");
    }
    if let Some(t) = h.title() {
        v.text(t);
    }
    for a in h.attributes() {
        v.span(&a.span(), "header attribute");
        v.span(a.name(), "attribute name");
        if let Some(s) = a.raw_value() {
            v.span(&s, "attribute value");
        }
    }
    if let Some(a) = h.author_line() {
        v.span(&a.span(), "author line");
        for x in a.authors() {
            v.text(x.name());
            v.text(&x.initials());
        }
    }
    if let Some(r) = h.revision_line() {
        v.span(&r.span(), "revision line");
        v.text(r.revdate());
    }
    for c in h.comments() {
        v.span(c, "comment");
    }
    for w in d.warnings() {
        v.span(&w.source, "warning");
    }
    for b in d.nested_blocks() {
        block(v, b, 0);
    }
}

pub struct Nop;
impl Visitor for Nop {}
