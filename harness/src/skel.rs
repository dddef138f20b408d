//! A summary of everything a document says, without the places where it says
//! it: two documents with equal summaries are the same document to a user.
use asciidoc_parser::attributes::Attrlist;
use asciidoc_parser::blocks::{Block, ContentModel, IsBlock};
use asciidoc_parser::document::InterpretedValue;
use asciidoc_parser::{Document, HasSpan, Span};

pub struct Skel {
    pub out: Vec<String>,
    /// include positions
    pub spans: bool,
    /// drop trailing white space of the lines of verbatim content
    pub trim: bool,
    /// added to every line number
    pub warnings: bool,
    /// list the comments of the header
    pub comments: bool,
}

impl Skel {
    pub fn of(d: &Document<'_>, spans: bool, trim: bool) -> Vec<String> {
        let mut s = Skel { out: vec![], spans, trim, warnings: true, comments: true };
        s.document(d);
        s.out
    }
    /// the blocks only, without positions
    pub fn blocks<'b>(blocks: impl Iterator<Item = &'b Block<'b>>) -> Vec<String> {
        let mut s = Skel { out: vec![], spans: false, trim: false, warnings: false, comments: false };
        for b in blocks {
            s.block(b);
        }
        s.out
    }
    /// everything but positions and the comments of the header
    pub fn without_comments(d: &Document<'_>) -> Vec<String> {
        let mut s = Skel { out: vec![], spans: false, trim: false, warnings: true, comments: false };
        s.document(d);
        s.out
    }
    fn put(&mut self, k: &str, v: &str) {
        let mut s = String::with_capacity(k.len() + v.len() + 1);
        s.push_str(k);
        s.push(' ');
        s.push_str(v);
        self.out.push(s);
    }
    fn opt(&mut self, k: &str, v: Option<&str>) {
        if let Some(v) = v {
            self.put(k, v)
        }
    }
    fn span(&mut self, k: &str, s: &Span<'_>) {
        if self.spans {
            let v = format!("{}:{}+{} ", s.line(), s.col(), s.byte_offset());
            self.put(k, &(v + s.data()));
        }
    }
    fn value(&mut self, k: &str, v: &InterpretedValue) {
        match v {
            InterpretedValue::Value(x) => self.put(k, x),
            InterpretedValue::Set => self.put(k, "(set)"),
            InterpretedValue::Unset => self.put(k, "(unset)"),
        }
    }
    fn list(&mut self, l: &Attrlist<'_>) {
        self.span("list", &l.span());
        for a in l.attributes() {
            self.opt("  name", a.name());
            self.put("  value", a.value());
            for s in a.shorthand_items() {
                self.put("  item", s);
            }
        }
        self.opt("  anchor", l.anchor());
    }
    fn document(&mut self, d: &Document<'_>) {
        self.span("document", &d.span());
        let h = d.header();
        self.span("header", &h.span());
        self.opt("title", h.title());
        for a in h.attributes() {
            self.span("entry", &a.span());
            self.put("attribute", a.name().data());
            self.value("=", a.value());
        }
        if let Some(l) = h.author_line() {
            self.span("authors", &l.span());
            for a in l.authors() {
                self.put("author", a.name());
                self.put("first", a.firstname());
                self.opt("middle", a.middlename());
                self.opt("last", a.lastname());
                self.opt("email", a.email());
                self.put("initials", &a.initials());
            }
        }
        if let Some(r) = h.revision_line() {
            self.span("revision", &r.span());
            self.opt("number", r.revnumber());
            self.put("date", r.revdate());
            self.opt("remark", r.revremark());
        }
        for c in h.comments() {
            if self.comments {
                self.put("comment", c.data());
            }
        }
        for b in d.nested_blocks() {
            self.block(b);
        }
        if self.warnings {
            for w in d.warnings() {
                self.put("warning", &format!("{:?}", w.warning));
                self.span("at", &w.source);
            }
        }
        self.put("ids", &d.catalog().len().to_string());
        for b in d.nested_blocks() {
            self.refs(d, b);
        }
    }
    fn refs(&mut self, d: &Document<'_>, b: &Block<'_>) {
        let id = match b {
            Block::Section(s) => s.id(),
            _ => b.id(),
        };
        if let Some(e) = id.and_then(|i| d.catalog().get_ref(i)) {
            self.put("ref", &e.id);
            if let Some(t) = &e.reftext {
                self.put("reftext", t);
                self.opt("resolves", d.catalog().resolve_id(t).as_deref());
            }
            self.put("type", &format!("{:?}", e.ref_type));
        }
        for n in b.nested_blocks() {
            self.refs(d, n);
        }
    }
    fn block(&mut self, b: &Block<'_>) {
        self.put("block", &format!("{} {:?}", match b {
            Block::Simple(_) => "simple",
            Block::Media(_) => "media",
            Block::Section(_) => "section",
            Block::RawDelimited(_) => "raw",
            Block::CompoundDelimited(_) => "compound",
            Block::Preamble(_) => "preamble",
            Block::Break(_) => "break",
            Block::DocumentAttribute(_) => "attribute",
            _ => "other",
        }, b.content_model()));
        self.span("span", &b.span());
        self.put("context", &b.raw_context());
        self.put("resolved", &b.resolved_context());
        self.opt("title", b.title());
        self.opt("anchor", b.anchor().map(|s| s.data()));
        self.opt("reftext", b.anchor_reftext().map(|s| s.data()));
        self.opt("id", b.id());
        self.opt("style", b.declared_style());
        for r in b.roles() {
            self.put("role", r);
        }
        for r in b.options() {
            self.put("option", r);
        }
        if let Some(l) = b.attrlist() {
            self.list(l);
        }
        if let Some(t) = b.rendered_content() {
            if self.trim && matches!(b.content_model(), ContentModel::Verbatim | ContentModel::Raw) {
                let v: Vec<&str> = t.split('\n').map(|l| l.trim_end()).collect();
                self.put("content", v.join("\n").trim_end());
            } else {
                self.put("content", t);
            }
        }
        match b {
            Block::Media(m) => {
                self.opt("target", m.target().map(|s| s.data()));
                self.list(m.macro_attrlist());
            }
            Block::Section(s) => {
                self.put("section", &format!("{} {:?} {:?}", s.level(), s.section_type(), s.section_number().map(|n| n.to_string())));
                self.put("heading", s.section_title());
            }
            Block::DocumentAttribute(a) => {
                self.put("attribute", a.name().data());
                self.value("=", a.value());
            }
            _ => {}
        }
        for n in b.nested_blocks() {
            self.block(n);
        }
        self.put("end", "");
    }
}
