//! Reference writer for the stored form: the tree as JSON, spelled out from the public fields.
use yamd::nodes::*;
use yamd::op::{Content, Node, Op, OpKind};

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// as the crate writes it
    Plain,
    /// another spelling of the same: white space, fields in the opposite order
    Loose,
    /// absent parts left out
    Bare,
}

pub struct W {
    out: String,
    style: Style,
}

type F<'a> = (&'static str, &'a dyn Fn(&mut W));

impl W {
    fn gap(&mut self) {
        if self.style == Style::Loose {
            self.out.push_str(" \n");
        }
    }
    fn put(&mut self, c: char) {
        self.gap();
        self.out.push(c);
        self.gap();
    }
    fn string(&mut self, s: &str) {
        self.out.push('"');
        for &b in s.as_bytes() {
            let e = match b {
                b'"' => b'"',
                b'\\' => b'\\',
                8 => b'b',
                12 => b'f',
                b'\n' => b'n',
                b'\r' => b'r',
                b'\t' => b't',
                0..32 => b'u',
                _ => {
                    // bytes of a character follow each other
                    unsafe { self.out.as_mut_vec().push(b) };
                    continue;
                }
            };
            self.out.push('\\');
            self.out.push(e as char);
            if e == b'u' {
                self.out.push_str(if b < 16 { "000" } else { "001" });
                let d = b % 16;
                self.out.push((if d < 10 { b'0' + d } else { b'a' + d - 10 }) as char);
            }
        }
        self.out.push('"');
    }
    fn number(&mut self, n: usize) {
        let mut d = vec![];
        let mut n = n;
        loop {
            d.push(b'0' + (n % 10) as u8);
            n /= 10;
            if n == 0 {
                break;
            }
        }
        for &c in d.iter().rev() {
            self.out.push(c as char);
        }
    }
    fn object(&mut self, f: &[F]) {
        self.put('{');
        for i in 0..f.len() {
            if i > 0 {
                self.put(',');
            }
            let (n, v) = &f[if self.style == Style::Loose { f.len() - 1 - i } else { i }];
            self.string(n);
            self.put(':');
            v(self);
        }
        self.put('}');
    }
    fn tagged(&mut self, t: &'static str, v: &dyn Fn(&mut W)) {
        self.object(&[("type", &|w| w.string(t)), ("value", v)]);
    }
    fn array<T>(&mut self, v: &[T], f: fn(&mut W, &T)) {
        self.put('[');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.put(',');
            }
            f(self, x);
        }
        self.put(']');
    }
    fn opt<T>(&mut self, v: &Option<T>, f: fn(&mut W, &T)) {
        match v {
            Some(x) => f(self, x),
            None => self.out.push_str("null"),
        }
    }
    /// an object some of whose fields may be absent
    fn partial(&mut self, f: &[(F, bool)]) {
        let v: Vec<F> = f.iter().filter(|(_, there)| *there || self.style != Style::Bare).map(|(f, _)| *f).collect();
        self.object(&v);
    }

    fn anchor(&mut self, a: &Anchor) {
        self.object(&[("text", &|w| w.string(&a.text)), ("url", &|w| w.string(&a.url))]);
    }
    fn image(&mut self, i: &Image) {
        self.object(&[("alt", &|w| w.string(&i.alt)), ("src", &|w| w.string(&i.src))]);
    }
    fn bold(&mut self, n: &BoldNodes) {
        match n {
            BoldNodes::Italic(x) => self.tagged("Italic", &|w| w.string(&x.0)),
            BoldNodes::Strikethrough(x) => self.tagged("Strikethrough", &|w| w.string(&x.0)),
            BoldNodes::Text(x) => self.tagged("Text", &|w| w.string(x)),
        }
    }
    fn inline(&mut self, n: &ParagraphNodes) {
        match n {
            ParagraphNodes::Anchor(x) => self.tagged("Anchor", &|w| w.anchor(x)),
            ParagraphNodes::Bold(x) => self.tagged("Bold", &|w| w.object(&[("body", &|w| w.array(&x.body, W::bold))])),
            ParagraphNodes::Italic(x) => self.tagged("Italic", &|w| w.string(&x.0)),
            ParagraphNodes::Strikethrough(x) => self.tagged("Strikethrough", &|w| w.string(&x.0)),
            ParagraphNodes::Text(x) => self.tagged("Text", &|w| w.string(x)),
            ParagraphNodes::CodeSpan(x) => self.tagged("CodeSpan", &|w| w.string(&x.0)),
            ParagraphNodes::Emphasis(x) => self.tagged("Emphasis", &|w| w.string(&x.0)),
        }
    }
    fn heading(&mut self, n: &HeadingNodes) {
        match n {
            HeadingNodes::Text(x) => self.tagged("Text", &|w| w.string(x)),
            HeadingNodes::Anchor(x) => self.tagged("Anchor", &|w| w.anchor(x)),
        }
    }
    fn item(&mut self, i: &ListItem) {
        self.partial(&[
            (("text", &|w| w.array(&i.text, W::inline)), true),
            (("nested_list", &|w| w.opt(&i.nested_list, W::list)), i.nested_list.is_some()),
        ]);
    }
    fn list(&mut self, l: &List) {
        let kind = match l.list_type {
            ListTypes::Ordered => "Ordered",
            ListTypes::Unordered => "Unordered",
        };
        self.object(&[("list_type", &|w| w.string(kind)), ("level", &|w| w.number(l.level)), ("body", &|w| w.array(&l.body, W::item))]);
    }
    fn paragraph(&mut self, p: &Paragraph) {
        self.object(&[("body", &|w| w.array(&p.body, W::inline))]);
    }
    fn text(&mut self, s: &String) {
        self.string(s);
    }
    fn block(&mut self, n: &YamdNodes) {
        match n {
            YamdNodes::Paragraph(x) => self.tagged("Paragraph", &|w| w.paragraph(x)),
            YamdNodes::Heading(x) => self.tagged("Heading", &|w| {
                w.object(&[("level", &|w| w.number(x.level as usize)), ("body", &|w| w.array(&x.body, W::heading))])
            }),
            YamdNodes::Image(x) => self.tagged("Image", &|w| w.image(x)),
            YamdNodes::Images(x) => self.tagged("Images", &|w| w.object(&[("body", &|w| w.array(&x.body, W::image))])),
            YamdNodes::Code(x) => self.tagged("Code", &|w| w.object(&[("lang", &|w| w.string(&x.lang)), ("code", &|w| w.string(&x.code))])),
            YamdNodes::List(x) => self.tagged("List", &|w| w.list(x)),
            YamdNodes::Highlight(x) => self.tagged("Highlight", &|w| {
                w.partial(&[
                    (("title", &|w| w.opt(&x.title, W::text)), x.title.is_some()),
                    (("icon", &|w| w.opt(&x.icon, W::text)), x.icon.is_some()),
                    (("body", &|w| w.array(&x.body, W::paragraph)), true),
                ])
            }),
            YamdNodes::ThematicBreak(_) => self.tagged("ThematicBreak", &|w| w.object(&[])),
            YamdNodes::Embed(x) => self.tagged("Embed", &|w| w.object(&[("kind", &|w| w.string(&x.kind)), ("args", &|w| w.string(&x.args))])),
            YamdNodes::Collapsible(x) => {
                self.tagged("Collapsible", &|w| w.object(&[("title", &|w| w.string(&x.title)), ("body", &|w| w.array(&x.body, W::block))]))
            }
        }
    }
    fn op(&mut self, o: &Op) {
        self.object(&[
            ("kind", &|w| match &o.kind {
                OpKind::Start(n) => w.tagged("Start", &|w| w.string(node(n))),
                OpKind::End(n) => w.tagged("End", &|w| w.string(node(n))),
                OpKind::Value => w.object(&[("type", &|w| w.string("Value"))]),
            }),
            ("content", &|w| match &o.content {
                Content::Span(r) => w.tagged("Span", &|w| w.object(&[("start", &|w| w.number(r.start)), ("end", &|w| w.number(r.end))])),
                Content::Materialized(s) => w.tagged("Materialized", &|w| w.string(s)),
            }),
        ]);
    }
}

fn node(n: &Node) -> &'static str {
    match n {
        Node::Anchor => "Anchor",
        Node::Bold => "Bold",
        Node::Code => "Code",
        Node::CodeSpan => "CodeSpan",
        Node::Collapsible => "Collapsible",
        Node::Destination => "Destination",
        Node::Document => "Document",
        Node::Embed => "Embed",
        Node::Emphasis => "Emphasis",
        Node::Heading => "Heading",
        Node::Highlight => "Highlight",
        Node::Icon => "Icon",
        Node::Image => "Image",
        Node::Images => "Images",
        Node::Italic => "Italic",
        Node::ListItem => "ListItem",
        Node::Modifier => "Modifier",
        Node::Metadata => "Metadata",
        Node::OrderedList => "OrderedList",
        Node::Paragraph => "Paragraph",
        Node::Strikethrough => "Strikethrough",
        Node::ThematicBreak => "ThematicBreak",
        Node::Title => "Title",
        Node::UnorderedList => "UnorderedList",
    }
}

pub fn document(y: &Yamd, style: Style) -> String {
    let mut w = W { out: String::new(), style };
    w.partial(&[
        (("metadata", &|w| w.opt(&y.metadata, W::text)), y.metadata.is_some()),
        (("body", &|w| w.array(&y.body, W::block)), true),
    ]);
    w.out
}

pub fn events(ops: &[Op], style: Style) -> String {
    let mut w = W { out: String::new(), style };
    w.array(ops, W::op);
    w.out
}
