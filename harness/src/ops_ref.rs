//! Reference interpretation of an event stream: a generic tree first, the AST after.
use yamd::nodes::*;
use yamd::op::{Node, Op, OpKind};

pub fn node_id(n: &Node) -> u8 {
    match n {
        Node::Anchor => 0,
        Node::Bold => 1,
        Node::Code => 2,
        Node::CodeSpan => 3,
        Node::Collapsible => 4,
        Node::Destination => 5,
        Node::Document => 6,
        Node::Embed => 7,
        Node::Emphasis => 8,
        Node::Heading => 9,
        Node::Highlight => 10,
        Node::Icon => 11,
        Node::Image => 12,
        Node::Images => 13,
        Node::Italic => 14,
        Node::ListItem => 15,
        Node::Modifier => 16,
        Node::Metadata => 17,
        Node::OrderedList => 18,
        Node::Paragraph => 19,
        Node::Strikethrough => 20,
        Node::ThematicBreak => 21,
        Node::Title => 22,
        Node::UnorderedList => 23,
    }
}

pub const NODES: u8 = 24;

pub fn node_of(id: u8) -> Node {
    match id {
        0 => Node::Anchor,
        1 => Node::Bold,
        2 => Node::Code,
        3 => Node::CodeSpan,
        4 => Node::Collapsible,
        5 => Node::Destination,
        6 => Node::Document,
        7 => Node::Embed,
        8 => Node::Emphasis,
        9 => Node::Heading,
        10 => Node::Highlight,
        11 => Node::Icon,
        12 => Node::Image,
        13 => Node::Images,
        14 => Node::Italic,
        15 => Node::ListItem,
        16 => Node::Modifier,
        17 => Node::Metadata,
        18 => Node::OrderedList,
        19 => Node::Paragraph,
        20 => Node::Strikethrough,
        21 => Node::ThematicBreak,
        22 => Node::Title,
        _ => Node::UnorderedList,
    }
}

const fn set(ids: &[u8]) -> u32 {
    let mut m = 0;
    let mut i = 0;
    while i < ids.len() {
        m |= 1 << ids[i];
        i += 1;
    }
    m
}
const BLOCKS: u32 = set(&[2, 4, 7, 9, 10, 12, 13, 18, 19, 21, 23]);
/// what the tree form can hold below each node; bit 31: text values
pub const TEXT: u32 = 1 << 31;
pub fn children(id: u8) -> u32 {
    match id {
        0 => set(&[22, 5]),
        1 => TEXT | set(&[14, 20]),
        2 => TEXT | set(&[16]),
        3 | 5 | 7 | 8 | 11 | 14 | 16 | 17 | 20 | 21 | 22 => TEXT,
        4 => set(&[16, 6]),
        6 => TEXT | BLOCKS,
        9 => TEXT | set(&[0]),
        10 => TEXT | set(&[16, 11, 19]),
        12 => set(&[22, 5]),
        13 => set(&[12]),
        15 => set(&[19, 18, 23]),
        18 | 23 => set(&[15]),
        19 => TEXT | set(&[0, 1, 3, 8, 14, 20]),
        _ => 0,
    }
}

/// `None` when Start/End events do not pair up.
pub fn balanced(ops: &[Op]) -> bool {
    let mut open: Vec<u8> = Vec::new();
    for o in ops {
        match &o.kind {
            OpKind::Start(n) => open.push(node_id(n)),
            OpKind::End(n) => {
                if open.pop() != Some(node_id(n)) {
                    return false;
                }
            }
            OpKind::Value => {}
        }
    }
    open.is_empty()
}

/// Every node only below a parent that may hold it, exactly one document at the top,
/// optionally preceded by metadata.
pub fn legal(ops: &[Op]) -> bool {
    let mut open: Vec<u8> = Vec::new();
    let mut docs = 0;
    let mut metas = 0;
    for o in ops {
        match &o.kind {
            OpKind::Start(n) => {
                let id = node_id(n);
                match open.last() {
                    Some(p) => {
                        if children(*p) & (1 << id) == 0 {
                            return false;
                        }
                    }
                    None if id == 6 && docs == 0 => docs = 1,
                    None if id == 17 && docs == 0 && metas == 0 => metas = 1,
                    None => return false,
                }
                open.push(id);
            }
            OpKind::End(n) => {
                if open.pop() != Some(node_id(n)) {
                    return false;
                }
            }
            OpKind::Value => match open.last() {
                Some(p) if children(*p) & TEXT != 0 => {}
                _ => return false,
            },
        }
    }
    open.is_empty() && docs == 1
}

/// One node of the event tree: its kind, the text of its Start event, and its content.
pub struct Ev {
    pub id: u8,
    pub start: String,
    pub kids: Vec<Item>,
}
pub enum Item {
    Text(String),
    Node(Ev),
}

fn collect(ops: &[Op], i: &mut usize, src: &str) -> Vec<Item> {
    let mut v = Vec::new();
    while *i < ops.len() {
        let o = &ops[*i];
        match &o.kind {
            OpKind::End(_) => break,
            OpKind::Value => {
                v.push(Item::Text(o.content.to_string(src)));
                *i += 1;
            }
            OpKind::Start(n) => {
                *i += 1;
                let kids = collect(ops, i, src);
                *i += 1;
                v.push(Item::Node(Ev { id: node_id(n), start: o.content.to_string(src), kids }));
            }
        }
    }
    v
}

impl Ev {
    fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            if let Item::Text(t) = k {
                s.push_str(t);
            }
        }
        s
    }
    fn nodes(&self) -> impl Iterator<Item = &Ev> {
        self.kids.iter().filter_map(|k| match k {
            Item::Node(e) => Some(e),
            Item::Text(_) => None,
        })
    }
    fn child_text(&self, id: u8) -> Option<String> {
        let mut r = None;
        for e in self.nodes() {
            if e.id == id {
                r = Some(e.text());
            }
        }
        r
    }
}

fn pair(e: &Ev) -> (String, String) {
    (e.child_text(22).unwrap_or_default(), e.child_text(5).unwrap_or_default())
}

fn inline(items: &[Item]) -> Vec<ParagraphNodes> {
    let mut v: Vec<ParagraphNodes> = Vec::new();
    for it in items {
        v.push(match it {
            Item::Text(t) => ParagraphNodes::Text(t.clone()),
            Item::Node(e) => match e.id {
                0 => {
                    let (text, url) = pair(e);
                    Anchor { text, url }.into()
                }
                1 => Bold {
                    body: e
                        .kids
                        .iter()
                        .map(|k| match k {
                            Item::Text(t) => BoldNodes::Text(t.clone()),
                            Item::Node(x) if x.id == 14 => BoldNodes::Italic(Italic(x.text())),
                            Item::Node(x) => BoldNodes::Strikethrough(Strikethrough(x.text())),
                        })
                        .collect(),
                }
                .into(),
                3 => CodeSpan(e.text()).into(),
                8 => Emphasis(e.text()).into(),
                14 => Italic(e.text()).into(),
                _ => Strikethrough(e.text()).into(),
            },
        });
    }
    v
}

/// without the line breaks at its end
fn trimmed(t: &str) -> &str {
    let mut t = t;
    while let Some(r) = t.strip_suffix("\r\n").or(t.strip_suffix('\n')) {
        t = r;
    }
    t
}

fn cut(mut v: Vec<ParagraphNodes>) -> Vec<ParagraphNodes> {
    let mut drop = false;
    if let Some(ParagraphNodes::Text(t)) = v.last_mut() {
        t.truncate(trimmed(t).len());
        drop = t.is_empty();
    }
    if drop {
        v.pop();
    }
    v
}

fn list(e: &Ev, level: usize) -> List {
    List {
        list_type: if e.id == 18 { ListTypes::Ordered } else { ListTypes::Unordered },
        level,
        body: e
            .nodes()
            .map(|it| {
                let mut text = Vec::new();
                let mut nested_list = None;
                for x in it.nodes() {
                    if x.id == 19 {
                        text = cut(inline(&x.kids));
                    } else {
                        nested_list = Some(list(x, level + 1));
                    }
                }
                ListItem { text, nested_list }
            })
            .collect(),
    }
}

fn image(e: &Ev) -> Image {
    let (alt, src) = pair(e);
    Image { alt, src }
}

fn block(e: &Ev) -> YamdNodes {
    match e.id {
        2 => {
            let code = e.text();
            Code { lang: e.child_text(16).unwrap_or_default(), code: trimmed(&code).to_string() }.into()
        }
        4 => Collapsible {
            title: e.child_text(16).unwrap_or_default(),
            body: e.nodes().filter(|x| x.id == 6).last().map(|d| d.nodes().map(block).collect()).unwrap_or_default(),
        }
        .into(),
        7 => {
            let mut parts = e.kids.iter().map(|k| match k {
                Item::Text(t) => t.clone(),
                Item::Node(_) => String::new(),
            });
            let kind = parts.next().unwrap_or_default();
            let args = parts.nth(1).unwrap_or_default();
            Embed { kind, args }.into()
        }
        9 => Heading {
            level: e.start.bytes().take_while(|b| *b == b'#').count() as u8,
            body: e
                .kids
                .iter()
                .map(|k| match k {
                    Item::Text(t) => HeadingNodes::Text(t.clone()),
                    Item::Node(x) => {
                        let (text, url) = pair(x);
                        HeadingNodes::Anchor(Anchor { text, url })
                    }
                })
                .collect(),
        }
        .into(),
        10 => Highlight {
            title: e.child_text(16),
            icon: e.child_text(11),
            body: e.nodes().filter(|x| x.id == 19).map(|x| Paragraph { body: cut(inline(&x.kids)) }).filter(|p| !p.body.is_empty()).collect(),
        }
        .into(),
        12 => image(e).into(),
        13 => Images { body: e.nodes().map(image).collect() }.into(),
        18 | 23 => list(e, 0).into(),
        21 => ThematicBreak {}.into(),
        _ => Paragraph { body: inline(&e.kids) }.into(),
    }
}

/// The AST a balanced, legally nested event stream describes.
pub fn tree(ops: &[Op], src: &str) -> Yamd {
    let mut i = 0;
    let mut y = Yamd::default();
    for it in collect(ops, &mut i, src) {
        if let Item::Node(e) = it {
            if e.id == 17 {
                let t = e.text();
                let mut t = trimmed(&t);
                while let Some(r) = t.strip_prefix("\r\n").or(t.strip_prefix('\n')) {
                    t = r;
                }
                y.metadata = Some(t.to_string());
            } else {
                y.body.extend(e.nodes().map(block));
            }
        }
    }
    y
}
