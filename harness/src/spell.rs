//! Reference renderer for documents whose texts need no escape: the documented spelling
//! of every node.
use yamd::nodes::*;

pub fn document(y: &Yamd) -> String {
    let mut s = String::new();
    if let Some(m) = &y.metadata {
        s.push_str("---\n");
        s.push_str(m);
        s.push_str("\n---\n\n");
    }
    blocks(&mut s, &y.body);
    s
}

fn blocks(s: &mut String, v: &[YamdNodes]) {
    for (i, n) in v.iter().enumerate() {
        if i > 0 {
            s.push_str("\n\n");
        }
        block(s, n);
    }
}

fn put(s: &mut String, parts: &[&str]) {
    for p in parts {
        s.push_str(p);
    }
}

fn inlines(s: &mut String, v: &[ParagraphNodes]) {
    for n in v {
        match n {
            ParagraphNodes::Text(t) => s.push_str(t),
            ParagraphNodes::Anchor(a) => put(s, &["[", &a.text, "](", &a.url, ")"]),
            ParagraphNodes::Bold(b) => {
                s.push_str("**");
                for n in &b.body {
                    match n {
                        BoldNodes::Text(t) => s.push_str(t),
                        BoldNodes::Italic(i) => put(s, &["_", &i.0, "_"]),
                        BoldNodes::Strikethrough(x) => put(s, &["~~", &x.0, "~~"]),
                    }
                }
                s.push_str("**");
            }
            ParagraphNodes::Italic(i) => put(s, &["_", &i.0, "_"]),
            ParagraphNodes::Strikethrough(x) => put(s, &["~~", &x.0, "~~"]),
            ParagraphNodes::CodeSpan(c) => put(s, &["`", &c.0, "`"]),
            ParagraphNodes::Emphasis(e) => put(s, &["*", &e.0, "*"]),
        }
    }
}

fn image(s: &mut String, i: &Image) {
    put(s, &["![", &i.alt, "](", &i.src, ")"]);
}

fn list(s: &mut String, l: &List, level: usize) {
    for (i, it) in l.body.iter().enumerate() {
        if i > 0 {
            s.push('\n');
        }
        for _ in 0..level {
            s.push(' ');
        }
        s.push_str(if l.list_type == ListTypes::Ordered { "+ " } else { "- " });
        inlines(s, &it.text);
        if let Some(n) = &it.nested_list {
            s.push('\n');
            list(s, n, level + 1);
        }
    }
}

fn block(s: &mut String, n: &YamdNodes) {
    match n {
        YamdNodes::Paragraph(p) => inlines(s, &p.body),
        YamdNodes::Heading(h) => {
            for _ in 0..h.level {
                s.push('#');
            }
            s.push(' ');
            for n in &h.body {
                match n {
                    HeadingNodes::Text(t) => s.push_str(t),
                    HeadingNodes::Anchor(a) => put(s, &["[", &a.text, "](", &a.url, ")"]),
                }
            }
        }
        YamdNodes::Image(i) => image(s, i),
        YamdNodes::Images(v) => {
            for (k, i) in v.body.iter().enumerate() {
                if k > 0 {
                    s.push('\n');
                }
                image(s, i);
            }
        }
        YamdNodes::Code(c) => put(s, &["```", &c.lang, "\n", &c.code, "\n```"]),
        YamdNodes::List(l) => list(s, l, 0),
        YamdNodes::Highlight(h) => {
            s.push_str("!!");
            if let Some(t) = &h.title {
                put(s, &[" ", t]);
            }
            s.push('\n');
            if let Some(t) = &h.icon {
                put(s, &["! ", t, "\n"]);
            }
            for (k, p) in h.body.iter().enumerate() {
                if k > 0 {
                    s.push_str("\n\n");
                }
                inlines(s, &p.body);
            }
            if !h.body.is_empty() {
                s.push('\n');
            }
            s.push_str("!!");
        }
        YamdNodes::ThematicBreak(_) => s.push_str("-----"),
        YamdNodes::Embed(e) => put(s, &["{{", &e.kind, "|", &e.args, "}}"]),
        YamdNodes::Collapsible(c) => {
            put(s, &["{% ", &c.title, "\n"]);
            blocks(s, &c.body);
            s.push_str("\n%}");
        }
    }
}

/// Every node of the document rendered on its own, with the spelling it should have.
pub fn alone(y: &Yamd, f: &mut dyn FnMut(String, String)) {
    for n in &y.body {
        block_alone(n, f);
    }
}

fn of(g: impl FnOnce(&mut String)) -> String {
    let mut s = String::new();
    g(&mut s);
    s
}

fn inlines_alone(v: &[ParagraphNodes], f: &mut dyn FnMut(String, String)) {
    for n in v {
        let want = of(|s| inlines(s, core::slice::from_ref(n)));
        let inner = match n {
            ParagraphNodes::Text(t) => t.clone(),
            ParagraphNodes::Anchor(a) => a.to_string(),
            ParagraphNodes::Bold(b) => {
                for n in &b.body {
                    match n {
                        BoldNodes::Text(t) => f(n.to_string(), t.clone()),
                        BoldNodes::Italic(i) => f(n.to_string(), of(|s| put(s, &["_", &i.0, "_"]))),
                        BoldNodes::Strikethrough(x) => f(n.to_string(), of(|s| put(s, &["~~", &x.0, "~~"]))),
                    }
                }
                b.to_string()
            }
            ParagraphNodes::Italic(i) => i.to_string(),
            ParagraphNodes::Strikethrough(x) => x.to_string(),
            ParagraphNodes::CodeSpan(c) => c.to_string(),
            ParagraphNodes::Emphasis(e) => e.to_string(),
        };
        f(inner, want.clone());
        f(n.to_string(), want);
    }
}

fn list_alone(l: &List, f: &mut dyn FnMut(String, String)) {
    f(l.to_string(), of(|s| list(s, l, l.level)));
    f(l.list_type.to_string(), String::from(if l.list_type == ListTypes::Ordered { "+" } else { "-" }));
    for it in &l.body {
        let want = of(|s| {
            inlines(s, &it.text);
            if let Some(n) = &it.nested_list {
                s.push('\n');
                list(s, n, n.level);
            }
        });
        f(it.to_string(), want);
        inlines_alone(&it.text, f);
        if let Some(n) = &it.nested_list {
            list_alone(n, f);
        }
    }
}

fn block_alone(n: &YamdNodes, f: &mut dyn FnMut(String, String)) {
    let want = of(|s| block(s, n));
    let inner = match n {
        YamdNodes::Paragraph(p) => {
            inlines_alone(&p.body, f);
            p.to_string()
        }
        YamdNodes::Heading(h) => {
            for n in &h.body {
                match n {
                    HeadingNodes::Text(t) => f(n.to_string(), t.clone()),
                    HeadingNodes::Anchor(a) => f(n.to_string(), of(|s| put(s, &["[", &a.text, "](", &a.url, ")"]))),
                }
            }
            h.to_string()
        }
        YamdNodes::Image(i) => i.to_string(),
        YamdNodes::Images(v) => {
            for i in &v.body {
                f(i.to_string(), of(|s| image(s, i)));
            }
            v.to_string()
        }
        YamdNodes::Code(c) => c.to_string(),
        YamdNodes::List(l) => {
            list_alone(l, f);
            l.to_string()
        }
        YamdNodes::Highlight(h) => {
            for p in &h.body {
                f(p.to_string(), of(|s| inlines(s, &p.body)));
                inlines_alone(&p.body, f);
            }
            h.to_string()
        }
        YamdNodes::ThematicBreak(t) => t.to_string(),
        YamdNodes::Embed(e) => e.to_string(),
        YamdNodes::Collapsible(c) => {
            for n in &c.body {
                block_alone(n, f);
            }
            c.to_string()
        }
    };
    f(inner, want.clone());
    f(n.to_string(), want);
}
