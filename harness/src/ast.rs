//! Documents built by hand, from a small program in the job's configuration; and the
//! conditions under which the documentation promises that one survives rendering.
use crate::sx::{Cur, assume};
use yamd::nodes::*;

/// Which text a slot holds decides what it may contain for a round trip to be promised.
/// No text holds a carriage return.
#[derive(Clone, Copy, PartialEq)]
enum Slot {
    /// a title, an icon, a language, an anchor's or image's parts, an embed's parts: anything
    Free,
    /// between inline delimiters, or plain text next to other nodes: not empty
    Some,
    /// plain text that ends a list item or a highlight's paragraph: also no line break at its end
    Last,
    /// code: no line break at its end
    Code,
    /// metadata: no line break at its ends
    Meta,
}

struct B<'c> {
    c: &'c mut Cur,
    pre: bool,
}

pub fn document(c: &mut Cur, pre: bool) -> Yamd {
    let mut b = B { c, pre };
    let metadata = b.opt(Slot::Meta);
    let body = b.blocks();
    Yamd { metadata, body }
}

impl B<'_> {
    fn text(&mut self, s: Slot) -> String {
        let t = self.c.text();
        if self.pre {
            assume(holds(&t, s));
        }
        t
    }
    fn opt(&mut self, s: Slot) -> Option<String> {
        if self.c.num() == 1 { Some(self.text(s)) } else { None }
    }
    fn blocks(&mut self) -> Vec<YamdNodes> {
        let n = self.c.num();
        (0..n).map(|_| self.block()).collect()
    }
    fn inlines(&mut self, last: Slot) -> Vec<ParagraphNodes> {
        let n = self.c.num();
        let v: Vec<_> = (0..n).map(|i| self.inline(if i + 1 == n { last } else { Slot::Some })).collect();
        if self.pre {
            assume(v.windows(2).all(|w| w[0].delimiter() != w[1].delimiter() || w[0].delimiter() == '['));
        }
        v
    }
    fn inline(&mut self, s: Slot) -> ParagraphNodes {
        match self.c.num() {
            0 => ParagraphNodes::Text(self.text(s)),
            1 => {
                let n = self.c.num();
                let b = Bold {
                    body: (0..n)
                        .map(|_| match self.c.num() {
                            0 => BoldNodes::Text(self.text(Slot::Some)),
                            1 => BoldNodes::Italic(Italic(self.text(Slot::Some))),
                            _ => BoldNodes::Strikethrough(Strikethrough(self.text(Slot::Some))),
                        })
                        .collect(),
                };
                if self.pre {
                    let kind = |n: &BoldNodes| std::mem::discriminant(n);
                    assume(n > 0 && b.body.windows(2).all(|w| kind(&w[0]) != kind(&w[1])));
                }
                b.into()
            }
            2 => Italic(self.text(Slot::Some)).into(),
            3 => Strikethrough(self.text(Slot::Some)).into(),
            4 => CodeSpan(self.text(Slot::Some)).into(),
            5 => Emphasis(self.text(Slot::Some)).into(),
            _ => self.anchor().into(),
        }
    }
    fn anchor(&mut self) -> Anchor {
        let text = self.text(Slot::Free);
        Anchor { text, url: self.text(Slot::Free) }
    }
    fn image(&mut self) -> Image {
        let alt = self.text(Slot::Free);
        Image { alt, src: self.text(Slot::Free) }
    }
    fn list(&mut self, level: usize) -> List {
        let kind = self.c.num();
        let list_type = if kind & 1 == 1 { ListTypes::Ordered } else { ListTypes::Unordered };
        // deeper than where it stands
        let level = level + (kind >> 1) as usize;
        let n = self.c.num();
        let body = (0..n)
            .map(|_| {
                let text = self.inlines(Slot::Last);
                let nested_list = if self.c.num() == 1 { Some(self.list(level + 1)) } else { None };
                ListItem { text, nested_list }
            })
            .collect();
        List { list_type, level, body }
    }
    fn block(&mut self) -> YamdNodes {
        match self.c.num() {
            0 => Paragraph { body: self.inlines(Slot::Some) }.into(),
            1 => {
                let level = self.c.num() as u8;
                let n = self.c.num();
                Heading {
                    level,
                    body: (0..n)
                        .map(|_| match self.c.num() {
                            0 => HeadingNodes::Text(self.text(Slot::Some)),
                            _ => HeadingNodes::Anchor(self.anchor()),
                        })
                        .collect(),
                }
                .into()
            }
            2 => self.image().into(),
            3 => {
                let n = self.c.num();
                Images { body: (0..n).map(|_| self.image()).collect() }.into()
            }
            4 => {
                let lang = self.text(Slot::Free);
                Code { lang, code: self.text(Slot::Code) }.into()
            }
            5 => self.list(0).into(),
            6 => {
                let title = self.opt(Slot::Free);
                let icon = self.opt(Slot::Free);
                let n = self.c.num();
                let body = (0..n).map(|_| Paragraph { body: self.inlines(Slot::Last) }).collect();
                Highlight { title, icon, body }.into()
            }
            7 => ThematicBreak {}.into(),
            8 => {
                let kind = self.text(Slot::Free);
                Embed { kind, args: self.text(Slot::Free) }.into()
            }
            _ => {
                let title = self.text(Slot::Free);
                Collapsible { title, body: self.blocks() }.into()
            }
        }
    }
}

/// Two neighbours with the same delimiter character (or two plain texts) run together.
trait Delimiter {
    fn delimiter(&self) -> char;
}
impl Delimiter for ParagraphNodes {
    fn delimiter(&self) -> char {
        match self {
            ParagraphNodes::Anchor(_) => '[',
            ParagraphNodes::Bold(_) | ParagraphNodes::Emphasis(_) => '*',
            ParagraphNodes::Italic(_) => '_',
            ParagraphNodes::Strikethrough(_) => '~',
            ParagraphNodes::CodeSpan(_) => '`',
            ParagraphNodes::Text(_) => 't',
        }
    }
}

fn holds(t: &str, s: Slot) -> bool {
    let b = t.as_bytes();
    if b.contains(&b'\r') {
        return false;
    }
    let (first, last) = match b {
        [] => return s != Slot::Some && s != Slot::Last,
        [x] => (*x, *x),
        [x, .., y] => (*x, *y),
    };
    match s {
        Slot::Free | Slot::Some => true,
        Slot::Last | Slot::Code => last != b'\n',
        Slot::Meta => first != b'\n' && last != b'\n',
    }
}

fn trim_end(s: &str) -> &str {
    let b = s.as_bytes();
    let mut n = b.len();
    while n > 0 && b[n - 1] == b'\n' {
        n -= if n > 1 && b[n - 2] == b'\r' { 2 } else { 1 };
    }
    &s[..n]
}

fn trim_inline(v: &mut Vec<ParagraphNodes>) {
    if let Some(ParagraphNodes::Text(t)) = v.last_mut() {
        *t = trim_end(t).to_string();
        if t.is_empty() {
            v.pop();
        }
    }
}

fn trim_list(l: &mut List) {
    for i in &mut l.body {
        trim_inline(&mut i.text);
        if let Some(n) = &mut i.nested_list {
            trim_list(n);
        }
    }
}

fn trim_block(n: &mut YamdNodes) {
    match n {
        YamdNodes::List(l) => trim_list(l),
        YamdNodes::Highlight(h) => {
            for p in &mut h.body {
                trim_inline(&mut p.body);
            }
            h.body.retain(|p| !p.body.is_empty());
        }
        YamdNodes::Code(c) => c.code = trim_end(&c.code).to_string(),
        YamdNodes::Collapsible(c) => c.body.iter_mut().for_each(trim_block),
        _ => {}
    }
}

/// the line breaks that end a list item, a highlight's paragraph, a code block or metadata
/// (and those that start metadata) are no part of it
pub fn trim(y: &mut Yamd) {
    if let Some(m) = &mut y.metadata {
        let t = trim_end(m);
        let mut at = 0;
        while t[at..].starts_with('\n') || t[at..].starts_with("\r\n") {
            at += if t.as_bytes()[at] == b'\n' { 1 } else { 2 };
        }
        *m = t[at..].to_string();
    }
    y.body.iter_mut().for_each(trim_block);
}

/// replaces `from` in every text of a document
pub fn replace(y: &mut Yamd, from: &str, to: &str, n: &mut usize) {
    let mut f = |s: &mut String| {
        let k = s.matches(from).count();
        if k > 0 {
            *n += k;
            *s = s.replace(from, to);
        }
    };
    if let Some(m) = &mut y.metadata {
        f(m);
    }
    for b in &mut y.body {
        block(b, &mut f);
    }
}
fn inline(v: &mut [ParagraphNodes], f: &mut dyn FnMut(&mut String)) {
    for n in v {
        match n {
            ParagraphNodes::Anchor(a) => {
                f(&mut a.text);
                f(&mut a.url);
            }
            ParagraphNodes::Bold(b) => {
                for n in &mut b.body {
                    match n {
                        BoldNodes::Italic(i) => f(&mut i.0),
                        BoldNodes::Strikethrough(s) => f(&mut s.0),
                        BoldNodes::Text(t) => f(t),
                    }
                }
            }
            ParagraphNodes::Italic(i) => f(&mut i.0),
            ParagraphNodes::Strikethrough(s) => f(&mut s.0),
            ParagraphNodes::Text(t) => f(t),
            ParagraphNodes::CodeSpan(c) => f(&mut c.0),
            ParagraphNodes::Emphasis(e) => f(&mut e.0),
        }
    }
}
fn list(l: &mut List, f: &mut dyn FnMut(&mut String)) {
    for i in &mut l.body {
        inline(&mut i.text, f);
        if let Some(n) = &mut i.nested_list {
            list(n, f);
        }
    }
}
fn block(n: &mut YamdNodes, f: &mut dyn FnMut(&mut String)) {
    match n {
        YamdNodes::Paragraph(p) => inline(&mut p.body, f),
        YamdNodes::Heading(h) => {
            for n in &mut h.body {
                match n {
                    HeadingNodes::Text(t) => f(t),
                    HeadingNodes::Anchor(a) => {
                        f(&mut a.text);
                        f(&mut a.url);
                    }
                }
            }
        }
        YamdNodes::Image(i) => {
            f(&mut i.alt);
            f(&mut i.src);
        }
        YamdNodes::Images(v) => {
            for i in &mut v.body {
                f(&mut i.alt);
                f(&mut i.src);
            }
        }
        YamdNodes::Code(c) => {
            f(&mut c.lang);
            f(&mut c.code);
        }
        YamdNodes::List(l) => list(l, f),
        YamdNodes::Highlight(h) => {
            if let Some(t) = &mut h.title {
                f(t);
            }
            if let Some(t) = &mut h.icon {
                f(t);
            }
            for p in &mut h.body {
                inline(&mut p.body, f);
            }
        }
        YamdNodes::ThematicBreak(_) => {}
        YamdNodes::Embed(e) => {
            f(&mut e.kind);
            f(&mut e.args);
        }
        YamdNodes::Collapsible(c) => {
            f(&mut c.title);
            for n in &mut c.body {
                block(n, f);
            }
        }
    }
}
