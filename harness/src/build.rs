//! F01: documents rebuilt with the public constructors and conversions only, and a comparison
//! of documents part by part that uses no comparison of the crate's own.
use yamd::nodes::*;

fn anchor(a: &Anchor) -> Anchor {
    Anchor::new(a.text.clone(), a.url.clone())
}
fn image(i: &Image) -> Image {
    Image::new(i.alt.as_str(), i.src.as_str())
}
/// every second node goes another way, where there are two
fn inlines(v: &[ParagraphNodes]) -> Vec<ParagraphNodes> {
    v.iter()
        .enumerate()
        .map(|(i, n)| match n {
            ParagraphNodes::Anchor(a) => ParagraphNodes::from(anchor(a)),
            ParagraphNodes::Bold(b) => {
                let body: Vec<BoldNodes> = b
                    .body
                    .iter()
                    .map(|n| match n {
                        BoldNodes::Italic(i) => BoldNodes::from(Italic::new(i.0.clone())),
                        BoldNodes::Strikethrough(s) => BoldNodes::from(Strikethrough::new(s.0.as_str())),
                        BoldNodes::Text(t) => BoldNodes::from(t.clone()),
                    })
                    .collect();
                ParagraphNodes::from(if i % 2 == 0 { Bold::new(body) } else { Bold::from(body) })
            }
            ParagraphNodes::Italic(x) => ParagraphNodes::from(if i % 2 == 0 { Italic::new(x.0.as_str()) } else { Italic::from(x.0.clone()) }),
            ParagraphNodes::Strikethrough(x) => {
                ParagraphNodes::from(if i % 2 == 0 { Strikethrough::new(x.0.as_str()) } else { Strikethrough::from(x.0.clone()) })
            }
            ParagraphNodes::Text(t) => ParagraphNodes::from(t.clone()),
            ParagraphNodes::CodeSpan(x) => ParagraphNodes::from(if i % 2 == 0 { CodeSpan::new(x.0.as_str()) } else { CodeSpan::from(x.0.clone()) }),
            ParagraphNodes::Emphasis(x) => ParagraphNodes::from(if i % 2 == 0 { Emphasis::new(x.0.as_str()) } else { Emphasis::from(x.0.clone()) }),
        })
        .collect()
}
fn list(l: &List) -> List {
    let body = l.body.iter().map(|i| ListItem::new(inlines(&i.text), i.nested_list.as_ref().map(list))).collect();
    let kind = match l.list_type {
        ListTypes::Ordered => ListTypes::Ordered,
        ListTypes::Unordered => ListTypes::Unordered,
    };
    List::new(kind, l.level, body)
}
fn block(n: &YamdNodes) -> YamdNodes {
    match n {
        YamdNodes::Paragraph(p) => Paragraph::new(inlines(&p.body)).into(),
        YamdNodes::Heading(h) => {
            let body = h
                .body
                .iter()
                .map(|n| match n {
                    HeadingNodes::Text(t) => HeadingNodes::from(t.clone()),
                    HeadingNodes::Anchor(a) => HeadingNodes::from(anchor(a)),
                })
                .collect();
            Heading::new(h.level, body).into()
        }
        YamdNodes::Image(i) => image(i).into(),
        YamdNodes::Images(v) => Images::new(v.body.iter().map(image).collect()).into(),
        YamdNodes::Code(c) => Code::new(c.lang.as_str(), c.code.as_str()).into(),
        YamdNodes::List(l) => list(l).into(),
        YamdNodes::Highlight(h) => {
            Highlight::new(h.title.as_deref(), h.icon.clone(), h.body.iter().map(|p| Paragraph::from(inlines(&p.body))).collect()).into()
        }
        YamdNodes::ThematicBreak(_) => ThematicBreak::new().into(),
        YamdNodes::Embed(e) => Embed::new(e.kind.as_str(), e.args.clone()).into(),
        YamdNodes::Collapsible(c) => Collapsible::new(c.title.clone(), c.body.iter().map(block).collect()).into(),
    }
}
pub fn document(y: &Yamd) -> Yamd {
    Yamd::new(y.metadata.clone(), y.body.iter().map(block).collect())
}

fn text(a: &str, b: &str) -> bool {
    a.as_bytes() == b.as_bytes()
}
fn opt(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => text(a, b),
        (None, None) => true,
        _ => false,
    }
}
fn all<T>(a: &[T], b: &[T], f: fn(&T, &T) -> bool) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| f(a, b))
}
fn same_anchor(a: &Anchor, b: &Anchor) -> bool {
    text(&a.text, &b.text) && text(&a.url, &b.url)
}
fn same_image(a: &Image, b: &Image) -> bool {
    text(&a.alt, &b.alt) && text(&a.src, &b.src)
}
fn same_bold(a: &BoldNodes, b: &BoldNodes) -> bool {
    match (a, b) {
        (BoldNodes::Italic(a), BoldNodes::Italic(b)) => text(&a.0, &b.0),
        (BoldNodes::Strikethrough(a), BoldNodes::Strikethrough(b)) => text(&a.0, &b.0),
        (BoldNodes::Text(a), BoldNodes::Text(b)) => text(a, b),
        _ => false,
    }
}
fn same_inline(a: &ParagraphNodes, b: &ParagraphNodes) -> bool {
    use ParagraphNodes::*;
    match (a, b) {
        (Anchor(a), Anchor(b)) => same_anchor(a, b),
        (Bold(a), Bold(b)) => all(&a.body, &b.body, same_bold),
        (Italic(a), Italic(b)) => text(&a.0, &b.0),
        (Strikethrough(a), Strikethrough(b)) => text(&a.0, &b.0),
        (Text(a), Text(b)) => text(a, b),
        (CodeSpan(a), CodeSpan(b)) => text(&a.0, &b.0),
        (Emphasis(a), Emphasis(b)) => text(&a.0, &b.0),
        _ => false,
    }
}
fn same_heading(a: &HeadingNodes, b: &HeadingNodes) -> bool {
    match (a, b) {
        (HeadingNodes::Text(a), HeadingNodes::Text(b)) => text(a, b),
        (HeadingNodes::Anchor(a), HeadingNodes::Anchor(b)) => same_anchor(a, b),
        _ => false,
    }
}
fn same_item(a: &ListItem, b: &ListItem) -> bool {
    all(&a.text, &b.text, same_inline)
        && match (&a.nested_list, &b.nested_list) {
            (Some(a), Some(b)) => same_list(a, b),
            (None, None) => true,
            _ => false,
        }
}
fn same_list(a: &List, b: &List) -> bool {
    matches!(a.list_type, ListTypes::Ordered) == matches!(b.list_type, ListTypes::Ordered) && a.level == b.level && all(&a.body, &b.body, same_item)
}
fn same_paragraph(a: &Paragraph, b: &Paragraph) -> bool {
    all(&a.body, &b.body, same_inline)
}
fn same_block(a: &YamdNodes, b: &YamdNodes) -> bool {
    use YamdNodes::*;
    match (a, b) {
        (Paragraph(a), Paragraph(b)) => same_paragraph(a, b),
        (Heading(a), Heading(b)) => a.level == b.level && all(&a.body, &b.body, same_heading),
        (Image(a), Image(b)) => same_image(a, b),
        (Images(a), Images(b)) => all(&a.body, &b.body, same_image),
        (Code(a), Code(b)) => text(&a.lang, &b.lang) && text(&a.code, &b.code),
        (List(a), List(b)) => same_list(a, b),
        (Highlight(a), Highlight(b)) => opt(&a.title, &b.title) && opt(&a.icon, &b.icon) && all(&a.body, &b.body, same_paragraph),
        (ThematicBreak(_), ThematicBreak(_)) => true,
        (Embed(a), Embed(b)) => text(&a.kind, &b.kind) && text(&a.args, &b.args),
        (Collapsible(a), Collapsible(b)) => text(&a.title, &b.title) && all(&a.body, &b.body, same_block),
        _ => false,
    }
}
pub fn same(a: &Yamd, b: &Yamd) -> bool {
    opt(&a.metadata, &b.metadata) && all(&a.body, &b.body, same_block)
}

/// counts the first list, or else the first heading, one level deeper
pub fn deeper(v: &mut [YamdNodes]) -> bool {
    for n in v {
        match n {
            YamdNodes::List(l) => {
                l.level += 1;
                return true;
            }
            YamdNodes::Heading(h) => {
                h.level = h.level.wrapping_add(1);
                return true;
            }
            YamdNodes::Collapsible(c) => {
                if deeper(&mut c.body) {
                    return true;
                }
            }
            _ => {}
        }
    }
    false
}

/// the line breaks at the end of code, and around metadata, are no part of them
pub fn settle(y: &mut Yamd) {
    fn blocks(v: &mut [YamdNodes]) {
        for n in v {
            match n {
                YamdNodes::Code(c) => {
                    while c.code.ends_with('\n') {
                        c.code.pop();
                    }
                }
                YamdNodes::Collapsible(c) => blocks(&mut c.body),
                _ => {}
            }
        }
    }
    if let Some(m) = &mut y.metadata {
        while m.ends_with('\n') {
            m.pop();
        }
        while m.starts_with('\n') {
            m.remove(0);
        }
    }
    blocks(&mut y.body);
}
