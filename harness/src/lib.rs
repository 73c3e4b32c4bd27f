//! Harnesses: one entry point per family of properties.  Each reads a job's
//! configuration (a template of concrete bytes and symbolic holes), runs the real
//! code, and asserts the property.
#![allow(clippy::missing_safety_doc)]
pub mod ops_ref;
pub mod pieces;
pub mod spec_lex;
pub mod spec_parse;
pub mod sx;
pub mod spell;
mod ast;
mod build;
#[cfg(feature = "serde")]
mod json;
use ops_ref::*;
use spec_lex::{K, T};
use sx::*;
use yamd::lexer::{Lexer, Position, Token, TokenKind};
use yamd::nodes::*;
use yamd::op::{Content, Op, OpKind};
use yamd::{deserialize, parse, to_yamd, try_to_yamd};

macro_rules! harnesses {
    ($($name:ident),* $(,)?) => {
        /// native dispatch
        #[cfg(feature = "native")]
        pub fn by_name(n: &str) -> Option<extern "C-unwind" fn()> {
            match n { $(stringify!($name) => Some($name as extern "C-unwind" fn()),)* _ => None }
        }
    };
}
harnesses!(
    h_tile, h_position, h_kinds, h_total, h_nesting, h_coverage, h_agree, h_grammar, h_escape, h_escape_all,
    h_prefix, h_suffix, h_inside, h_crlf, h_shape, h_render, h_round, h_stable, h_spell, h_ops, h_json_doc, h_json_ast,
    h_effort, h_effort_out, h_borrow, h_content, h_delims, h_again, h_build, h_form_doc, h_form_ast, h_by_hand
);

#[cfg(feature = "native")]
pub fn run(f: extern "C-unwind" fn()) {
    f()
}

fn tokens(s: &str) -> Vec<Token> {
    Lexer::new(s).collect()
}

fn note_doc(s: &str) {
    note(|| format!("document: {s:?}"));
}

// ---------------------------------------------------------------- A: tokens

/// A01: ranges are non-empty, in order, on character boundaries, and cover everything but
/// the backslashes that escape the character after them (and one that ends the input).
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_tile() {
    let s = Cur::new().text();
    note_doc(&s);
    let b = s.as_bytes();
    let mut at = 0;
    let mut marks = 0;
    let bound = |i: usize| i == b.len() || (i < b.len() && b[i] & 0xc0 != 0x80);
    let mut ts = Lexer::new(&s);
    while let Some(t) = ts.next() {
        let (lo, hi) = (t.range.start, t.range.end);
        check(lo < hi && hi <= b.len(), 101, "a token's range is empty or outside the input");
        check(bound(lo) && bound(hi), 102, "a token's range splits a character");
        if t.escaped {
            check(lo == at + 1 && b[at] == b'\\', 103, "an escaped token does not directly follow its backslash");
            marks |= 1;
        } else {
            check(lo == at, 104, "text is skipped or repeated between two tokens");
        }
        check(t.position.byte_index == lo, 105, "a token's byte index is not the start of its range");
        at = hi;
        marks |= 2;
    }
    check(ts.next().is_none(), 107, "a token after the end of the text");
    let rest = b.len() - at;
    check(rest == 0 || (rest == 1 && b[at] == b'\\'), 106, "text after the last token is lost");
    if rest == 1 {
        marks |= 4;
    }
    mark(marks);
}

/// set each bit of `m` as a coverage mark (concrete by construction)
fn mark(m: u64) {
    let m = conc(m);
    let mut i = 0;
    while i < 64 {
        if m >> i & 1 == 1 {
            cover(i);
        }
        i += 1;
    }
}

/// A02: row and column are what counting line breaks and characters in the source gives.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_position() {
    let s = Cur::new().text();
    note_doc(&s);
    let b = s.as_bytes();
    let mut ts = Lexer::new(&s);
    let mut next = ts.next();
    let (mut row, mut col) = (0, 0);
    let mut i = 0;
    let mut marks = 0;
    while i < b.len() {
        let esc = b[i] == b'\\';
        if esc {
            i += 1;
            if i == b.len() {
                break;
            }
        }
        if let Some(t) = &next {
            if t.range.start == i {
                check(t.position.byte_index == i, 111, "byte index");
                check(t.position.row == row, 112, "a token's row is not the number of line breaks before it");
                check(t.position.column == col, 113, "a token's column is not the number of characters before it on its line");
                marks |= 1 << (row.min(3)) | 16 << (col.min(3));
                next = ts.next();
            }
        }
        let breaks = !esc && (b[i] == b'\n' || (b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n'));
        if breaks {
            i += if b[i] == b'\n' { 1 } else { 2 };
            row += 1;
            col = 0;
        } else {
            i += 1;
            while i < b.len() && b[i] & 0xc0 == 0x80 {
                i += 1;
            }
            col += 1;
        }
    }
    check(next.is_none(), 114, "a token does not start at a character of the source");
    mark(marks);
}

fn kind_bit(k: K) -> u64 {
    1 << (k as u64)
}

/// A03: every token is the one the documentation of the token kinds describes.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_kinds() {
    let s = Cur::new().text();
    note_doc(&s);
    let want: Vec<T> = spec_lex::lex(&s);
    let mut n = 0;
    let mut marks = 0;
    for t in Lexer::new(&s) {
        check(n < want.len(), 121, "more tokens than the documented rules give");
        let w = &want[n];
        check(K::of(&t.kind) == w.k, 122, "a token has another kind than the documented rules give");
        check(t.range.start == w.lo && t.range.end == w.hi, 123, "a token covers other text than the documented rules give");
        check(t.escaped == w.esc, 124, "a token's escaped flag is wrong");
        marks |= kind_bit(w.k);
        n += 1;
    }
    check(n == want.len(), 125, "fewer tokens than the documented rules give");
    mark(marks);
}

// ---------------------------------------------------------------- B: parsing

/// B01: parsing ends, without a panic, with a document.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_total() {
    let s = Cur::new().text();
    note_doc(&s);
    let ops = parse(&s);
    let y = deserialize(&s);
    check(ops.len() >= 2, 201, "no document in the event stream");
    mark(marks(&y));
}

/// B02: the event stream is properly nested, and every text range it holds is valid.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_nesting() {
    let s = Cur::new().text();
    note_doc(&s);
    let ops = parse(&s);
    note(|| format!("events: {ops:?}"));
    let mut m = 0;
    for o in &ops {
        if let Content::Span(r) = &o.content {
            check(r.start <= r.end && r.end <= s.len(), 213, "an event's range is outside the source");
            check(s.is_char_boundary(r.start) && s.is_char_boundary(r.end), 214, "an event's range splits a character");
        }
        if let OpKind::Start(n) = &o.kind {
            m |= 1 << node_id(n);
        }
    }
    check(balanced(&ops), 211, "Start and End events do not pair up");
    check(legal(&ops), 212, "a node appears below one that cannot hold it");
    mark(m);
}

/// B03: the events, read in order, give back the source text: nothing lost, repeated or reordered.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_coverage() {
    let s = Cur::new().text();
    note_doc(&s);
    let mut text: Vec<u8> = Vec::new();
    for t in tokens(&s) {
        text.extend_from_slice(&s.as_bytes()[t.range]);
    }
    let ops = parse(&s);
    note(|| format!("events: {ops:?}"));
    let mut at = 0;
    let mut m = 0;
    for o in &ops {
        let c = o.content.as_str(&s).as_bytes();
        match &o.kind {
            OpKind::Start(n) => m |= 1 << node_id(n),
            // the line break before a collapsible's closing delimiter belongs to no event
            OpKind::End(n) if node_id(n) == 4 && at < text.len() => {
                if text[at] == b'\n' {
                    at += 1;
                } else if text[at] == b'\r' && at + 1 < text.len() && text[at + 1] == b'\n' {
                    at += 2;
                }
            }
            _ => {}
        }
        let end = at + c.len();
        check(end <= text.len(), 221, "the events hold more text than the source");
        check(&text[at..end] == c, 222, "an event's text is not the source text at its place");
        at = end;
    }
    check(at == text.len(), 223, "source text is in no event");
    mark(m);
}

/// A document made by repeating a piece.
struct Repeat {
    pre: String,
    unit: String,
    mid: String,
    close: String,
    post: String,
    /// each repetition is indented by one space more
    indent: bool,
}

impl Repeat {
    /// also how often
    fn read() -> (Self, u64) {
        let mut c = Cur::new();
        let (pre, unit, mid, close, post) = (c.text(), c.text(), c.text(), c.text(), c.text());
        let (n, indent) = (c.num(), c.num() == 1);
        note(|| format!("document: {pre:?}, then {unit:?} again and again, then {mid:?}, then {close:?} as often, then {post:?}"));
        (Self { pre, unit, mid, close, post, indent }, n)
    }
    fn doc(&self, k: u64) -> String {
        let mut s = self.pre.clone();
        for i in 0..k {
            for _ in 0..if self.indent { i } else { 0 } {
                s.push(' ');
            }
            s.push_str(&self.unit);
        }
        s.push_str(&self.mid);
        for _ in 0..k {
            s.push_str(&self.close);
        }
        s.push_str(&self.post);
        s
    }
}

/// B13: the work to parse a document grows with its length as a polynomial of low degree: twice as
/// many repetitions of a piece cost at most twenty times the work (which admits the fourth power,
/// and no exponential).
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_effort() {
    let (r, n) = Repeat::read();
    let (mut m, mut y) = (0, Yamd::default());
    check(effort(n, &mut |s: &String| y = deserialize(s), &|k| r.doc(k)), 241, "the work explodes when a piece of the document is repeated");
    if !y.body.is_empty() {
        m = marks(&y);
    }
    mark(m);
}

/// C07: the same of rendering, copying and comparing a document.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_effort_out() {
    let (r, n) = Repeat::read();
    let doc = |k| deserialize(&r.doc(k));
    let mut len = 0;
    check(effort(n, &mut |y: &Yamd| len = y.to_string().len(), &doc), 242, "the work of rendering explodes when a piece of the document is repeated");
    let twice = |k| (doc(k), doc(k));
    let mut same = true;
    check(effort(n, &mut |(a, b): &(Yamd, Yamd)| same = a == b, &twice), 243, "the work of comparing explodes when a piece of the document is repeated");
    check(same, 244, "a document differs from itself");
    let mut copy = Yamd::default();
    check(effort(n, &mut |y: &Yamd| copy = y.clone(), &doc), 245, "the work of copying explodes when a piece of the document is repeated");
    let y = doc(n);
    let text = y.to_string();
    // a byte is escaped by one backslash at most, and each line keeps its delimiters
    check(text.len() <= 4 * r.doc(n).len() + 16, 246, "the rendered text is many times as long as the document");
    mark(if y.body.is_empty() { 0 } else { marks(&y) });
}

/// B14: text that stands in the source in one piece is borrowed from there; only text with an
/// escaping backslash inside is copied.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_borrow() {
    let s = Cur::new().text();
    note_doc(&s);
    let (mut text, mut from): (Vec<u8>, Vec<usize>) = (Vec::new(), Vec::new());
    for t in tokens(&s) {
        for i in t.range {
            text.push(s.as_bytes()[i]);
            from.push(i);
        }
    }
    let ops = parse(&s);
    note(|| format!("events: {ops:?}"));
    let mut at = 0;
    let mut m = 0;
    for o in &ops {
        let n = o.content.as_str(&s).len();
        if n == 0 {
            check(matches!(o.content, Content::Span(_)), 251, "an empty text is allocated");
            continue;
        }
        // the line break before a collapsible's closing delimiter belongs to no event
        if let OpKind::End(k) = &o.kind {
            if node_id(k) == 4 && at < text.len() {
                if text[at] == b'\n' {
                    at += 1;
                } else if text[at] == b'\r' && at + 1 < text.len() && text[at + 1] == b'\n' {
                    at += 2;
                }
            }
        }
        check(at + n <= text.len(), 252, "the events hold more text than the source");
        let (a, b) = (from[at], from[at + n - 1] + 1);
        match &o.content {
            Content::Span(r) => {
                check(r.start == a && r.end == b, 253, "an event borrows other source text than its own");
                m |= 1;
            }
            Content::Materialized(_) => {
                check(b - a != n, 254, "text that stands in the source in one piece is copied");
                m |= 2;
            }
        }
        at += n;
    }
    mark(m);
}

/// a run of line breaks
fn breaks(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\n' {
            i += 1;
        } else if s[i] == b'\r' && i + 1 < s.len() && s[i + 1] == b'\n' {
            i += 2;
        } else {
            return false;
        }
    }
    true
}

/// B15: the events that open and close a node hold its delimiters, a value below the document
/// only line breaks.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_delims() {
    let s = Cur::new().text();
    note_doc(&s);
    let ops = parse(&s);
    note(|| format!("events: {ops:?}"));
    let mut open: Vec<u8> = Vec::new();
    let mut m = 0;
    for o in &ops {
        let c = o.content.as_str(&s).as_bytes();
        note(|| format!("event: {:?} {:?}", o.kind, o.content.as_str(&s)));
        // what is left of the event's text after its delimiter
        let after = |d: &[u8]| c.strip_prefix(d);
        let just = |d: &[u8]| c == d;
        let then_breaks = |d: &[u8]| after(d).is_some_and(breaks);
        match &o.kind {
            OpKind::Start(n) => {
                let ok = match node_id(n) {
                    1 => just(b"**"),
                    2 => then_breaks(b"```"),
                    3 => just(b"`"),
                    4 => after(b"{%").is_some_and(|r| !r.is_empty() && (breaks(r) || r.iter().all(|x| *x == b' '))),
                    5 => just(b"("),
                    7 => just(b"{{"),
                    8 => just(b"*"),
                    9 => {
                        let k = c.iter().position(|x| *x != b'#').unwrap_or(0);
                        (1..=6).contains(&k) && &c[k..] == b" "
                    }
                    10 => just(b"!! ") || (then_breaks(b"!!") && c.len() > 2),
                    11 => just(b"! "),
                    12 => just(b"!"),
                    14 => just(b"_"),
                    15 => {
                        let k = c.iter().position(|x| *x != b' ').unwrap_or(0);
                        &c[k..] == if open.last() == Some(&18) { b"+ " } else { b"- " }
                    }
                    17 => just(b"---"),
                    20 => just(b"~~"),
                    22 => just(b"["),
                    _ => c.is_empty(),
                };
                check(ok, 261, "a start event holds something else than the delimiter that opens its node");
                open.push(node_id(n));
                m |= 1 << node_id(n);
            }
            OpKind::End(n) => {
                let ok = match node_id(n) {
                    1 => just(b"**"),
                    2 => then_breaks(b"```"),
                    3 => just(b"`"),
                    4 => then_breaks(b"%}"),
                    5 => just(b")"),
                    7 => then_breaks(b"}}"),
                    8 => just(b"*"),
                    10 => then_breaks(b"!!"),
                    11 | 16 => !c.is_empty() && breaks(c),
                    12 => breaks(c),
                    14 => just(b"_"),
                    17 => just(b"---"),
                    20 => just(b"~~"),
                    22 => just(b"]"),
                    _ => c.is_empty(),
                };
                check(ok, 262, "an end event holds something else than the delimiter that closes its node");
                open.pop();
            }
            OpKind::Value => {
                match open.last() {
                    Some(6) | Some(10) => check(!c.is_empty() && breaks(c), 263, "a value between blocks holds more than line breaks"),
                    Some(21) => check(c == b"-----", 264, "a thematic break holds something else than its five dashes"),
                    _ => {}
                }
            }
        }
    }
    mark(m);
}

/// what reading a text gives, in print
pub fn shown(s: &str) -> String {
    let d = deserialize(s);
    format!("{:?}\n{:?}\n{}", parse(s), d, d)
}

/// B16: what a text is read as depends on that text alone: not on what was read before it, not on
/// where it stands in memory, and not on another text being read at the same time.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_again() {
    let mut c = Cur::new();
    // the first text is read this many times more before the second
    let times = c.num();
    let (a, b) = (c.text(), c.text());
    note(|| format!("documents: {a:?} ({} times) and {b:?}", times + 1));
    for _ in 0..times {
        let _ = deserialize(&a);
    }
    let docs = [deserialize(&a), deserialize(&b)];
    let first = [parse(&a), parse(&b)];
    let out = [docs[0].to_string(), docs[1].to_string()];
    let mut buf = String::with_capacity(a.len() + b.len());
    for (i, s) in [(1, &b), (0, &a), (1, &b)] {
        buf.clear();
        buf.push_str(s);
        let d = deserialize(&buf);
        check(d == docs[i], 272, "the same text gives another document the next time");
        let e = parse(&buf);
        check(e == first[i], 271, "the same text gives other events the next time");
        check(d.to_string() == out[i], 273, "the same document is rendered in another way the next time");
        check(to_yamd(&e, &buf) == d, 274, "the same events give another document the next time");
    }
    // two readers taking turns
    let (ta, tb) = (tokens(&a), tokens(&b));
    let (mut x, mut y) = (Lexer::new(&a), Lexer::new(&b));
    let mut i = 0;
    loop {
        let (p, q) = (x.next(), y.next());
        check(p.as_ref() == ta.get(i) && q.as_ref() == tb.get(i), 275, "reading two texts in turns gives other tokens");
        if p.is_none() && q.is_none() {
            break;
        }
        i += 1;
    }
    // a process that has read nothing else
    let mut same = || parse(&b) == first[1] && deserialize(&b) == docs[1] && docs[1].to_string() == out[1];
    check(
        fresh(&b, &mut same, &|| format!("{:?}\n{:?}\n{}", first[1], docs[1], out[1])),
        276,
        "a text is read in another way after another text than by a new process",
    );
    mark(marks(&docs[0]) | marks(&docs[1]));
}

/// D03: content made from tokens holds exactly their text, borrowed where it can be, and its
/// accessors agree.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_content() {
    let s = Cur::new().text();
    note_doc(&s);
    let ts = tokens(&s);
    let mut m = 0;
    for i in 0..=ts.len() {
        for j in i..=ts.len() {
            let part = &ts[i..j];
            let mut want = String::new();
            let mut gap = false;
            for (k, t) in part.iter().enumerate() {
                want.push_str(&s[t.range.clone()]);
                gap |= k > 0 && t.escaped;
            }
            let c = Content::from_tokens(part, &s);
            note(|| format!("tokens {i}..{j}: {c:?}"));
            check(c.as_str(&s) == want, 421, "content made from tokens does not hold their text");
            check(c.to_string(&s) == want, 422, "a content's string is not its text");
            check(c.is_empty() == want.is_empty(), 423, "a content is empty and its text is not, or the reverse");
            check(matches!(c, Content::Materialized(_)) == gap, 424, "content is copied that could be borrowed, or the reverse");
            m |= if gap { 2 } else { 1 };
            let whole = if part.is_empty() { 0..0 } else { ts[i].range.start..ts[j - 1].range.end };
            let d: Content = part.into();
            check(d == Content::Span(whole.clone()), 425, "content converted from tokens is not the source text they span");
            check(Content::from(part.to_vec()) == d, 426, "content converted from tokens is not the source text they span");
            if let [a, b] = part {
                check(Content::from(&[a.clone(), b.clone()]) == d, 427, "content converted from tokens is not the source text they span");
                m |= 4;
            }
            let (p, q, r) = (Op::new_start(yamd::op::Node::Bold, part), Op::new_end(yamd::op::Node::Title, part), Op::new_value(part));
            check(p.kind == OpKind::Start(yamd::op::Node::Bold) && p.content == d, 428, "an event does not hold what it was made from");
            check(q.kind == OpKind::End(yamd::op::Node::Title) && q.content == d, 428, "an event does not hold what it was made from");
            check(r.kind == OpKind::Value && r.content == d, 428, "an event does not hold what it was made from");
        }
    }
    mark(m);
}

/// B04: the document is what its events describe; the three ways to it agree.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_agree() {
    let s = Cur::new().text();
    note_doc(&s);
    let ops = parse(&s);
    let y = deserialize(&s);
    note(|| format!("events: {ops:?}\ndocument tree: {y:?}"));
    check(to_yamd(&ops, &s) == y, 231, "deserialize and parse + to_yamd differ");
    match try_to_yamd(&ops, &s) {
        Ok(z) => check(z == y, 232, "try_to_yamd and to_yamd differ"),
        Err(_) => check(false, 233, "try_to_yamd rejects the parser's own events"),
    }
    let w = tree(&ops, &s);
    note(|| format!("tree of the events: {w:?}"));
    check(w == y, 234, "the document is not the one its events describe");
    mark(marks(&y));
}

/// B05-B08: the document is the one the documented grammar gives.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_grammar() {
    let s = Cur::new().text();
    note_doc(&s);
    let want = spec_parse::document(&s);
    let got = deserialize(&s);
    note(|| format!("got:  {got:?}\nwant: {want:?}"));
    check(got == want, 241, "the document is not the one the grammar gives");
    mark(marks(&want));
}

fn marks(y: &Yamd) -> u64 {
    let mut m = 0;
    if y.metadata.is_some() {
        m |= 1 << 10;
    }
    if y.body.len() > 1 {
        m |= 1 << 24;
    }
    for n in &y.body {
        m |= block_marks(n);
    }
    m
}
fn text_marks(v: &[ParagraphNodes]) -> u64 {
    let mut m = 0;
    for n in v {
        m |= match n {
            ParagraphNodes::Anchor(_) => 1 << 11,
            ParagraphNodes::Bold(b) => b.body.iter().fold(1 << 12, |m, x| match x {
                BoldNodes::Italic(_) => m | 1 << 22,
                BoldNodes::Strikethrough(_) => m | 1 << 23,
                BoldNodes::Text(_) => m,
            }),
            ParagraphNodes::Italic(_) => 1 << 13,
            ParagraphNodes::Strikethrough(_) => 1 << 14,
            ParagraphNodes::CodeSpan(_) => 1 << 15,
            ParagraphNodes::Emphasis(_) => 1 << 16,
            ParagraphNodes::Text(_) => 0,
        }
    }
    m
}
fn list_marks(l: &List) -> u64 {
    let mut m = if l.list_type == ListTypes::Ordered { 1 << 18 } else { 0 };
    for i in &l.body {
        m |= text_marks(&i.text);
        if let Some(n) = &i.nested_list {
            m |= 1 << 17 | list_marks(n);
        }
    }
    m
}
fn block_marks(n: &YamdNodes) -> u64 {
    match n {
        YamdNodes::Paragraph(p) => 1 | text_marks(&p.body),
        YamdNodes::Heading(h) => {
            2 | if h.body.iter().any(|x| matches!(x, HeadingNodes::Anchor(_))) { 1 << 21 } else { 0 }
        }
        YamdNodes::Image(_) => 4,
        YamdNodes::Images(_) => 8,
        YamdNodes::Code(_) => 16,
        YamdNodes::List(l) => 32 | list_marks(l),
        YamdNodes::Highlight(h) => {
            let mut m = 64;
            if h.icon.is_some() {
                m |= 1 << 19;
            }
            if h.title.is_some() {
                m |= 1 << 20;
            }
            for p in &h.body {
                m |= text_marks(&p.body);
            }
            m
        }
        YamdNodes::ThematicBreak(_) => 128,
        YamdNodes::Embed(_) => 256,
        YamdNodes::Collapsible(c) => {
            let mut m = 512;
            for n in &c.body {
                m |= block_marks(n);
                if matches!(n, YamdNodes::Collapsible(_)) {
                    m |= 1 << 25;
                }
            }
            m
        }
    }
}

/// B09: `\` and a character give that character as text, whatever it means unescaped and
/// wherever it stands: the same document as with a plain letter, the letter replaced.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_escape() {
    let mut c = Cur::new();
    let (pre, ch, post) = (c.text(), c.text(), c.text());
    // the two are one line break wherever line breaks are trimmed
    assume(!(ch.ends_with('\r') && post.starts_with('\n')));
    // a letter that no template uses
    let plain = format!("{pre}\\Q{post}");
    let doc = format!("{pre}\\{ch}{post}");
    note_doc(&doc);
    let mut want = deserialize(&plain);
    let mut seen = 0;
    ast::replace(&mut want, "Q", &ch, &mut seen);
    check(seen == 1, 252, "an escaped letter is not part of the text");
    ast::trim(&mut want);
    let got = deserialize(&doc);
    note(|| format!("got:  {got:?}\nwant: {want:?}"));
    check(got == want, 251, "an escaped character is not read as plain text");
    mark(marks(&got));
}

/// B09: a text with every character escaped is one paragraph with exactly that text.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_escape_all() {
    let t = Cur::new().text();
    let mut d = String::new();
    for c in t.chars() {
        d.push('\\');
        d.push(c);
    }
    note_doc(&d);
    let got = deserialize(&d);
    note(|| format!("got:  {got:?}"));
    let want = Yamd {
        metadata: None,
        body: vec![Paragraph { body: vec![ParagraphNodes::Text(t)] }.into()],
    };
    check(got == want, 253, "a fully escaped text is not read as that text");
    mark(1);
}

/// B10: a complete block before a document changes nothing in it.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_prefix() {
    let mut c = Cur::new();
    let (head, doc) = (c.text(), c.text());
    let alone = deserialize(&doc);
    assume(alone.metadata.is_none());
    let mut want = deserialize(&head);
    let blocks = want.body.len();
    want.body.extend(alone.body);
    let s = format!("{head}\n\n{doc}");
    note_doc(&s);
    let got = deserialize(&s);
    note(|| format!("got:  {got:?}\nwant: {want:?}"));
    check(got == want, 261, "a block before it changes how a document is read");
    if blocks > 0 {
        mark(marks(&got));
    }
}

/// B10: whatever stands before a blank line, blocks that close nothing are read after it as they are alone.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_suffix() {
    let mut c = Cur::new();
    let (head, doc) = (c.text(), c.text());
    if let Some(l) = head.as_bytes().last() {
        assume(*l != b'\n' && *l != b'\r' && *l != b'\\');
    }
    let mut want = deserialize(&head);
    assume(!want.body.is_empty());
    want.body.extend(deserialize(&doc).body);
    let s = format!("{head}\n\n{doc}");
    note_doc(&s);
    let got = deserialize(&s);
    note(|| format!("got:  {got:?}\nwant: {want:?}"));
    check(got == want, 265, "what stands before a blank line changes how the blocks after it are read");
    mark(marks(&got));
}

/// The content of the last collapsible, or of the last one in it, and so on.
fn innermost(body: &mut Vec<YamdNodes>, depth: usize) -> Option<&mut Vec<YamdNodes>> {
    if depth == 0 {
        return Some(body);
    }
    match body.last_mut() {
        Some(YamdNodes::Collapsible(c)) => innermost(&mut c.body, depth - 1),
        _ => None,
    }
}

/// B10: blocks are read the same inside a collapsible.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_inside() {
    let mut c = Cur::new();
    let (open, doc) = (c.text(), c.text());
    // how many collapsibles around it
    let times = c.num() as usize;
    let b = doc.as_bytes();
    assume(!b.is_empty());
    if let (Some(f), Some(l)) = (b.first(), b.last()) {
        assume(*f != b'\n' && *f != b'\r' && *l != b'\n' && *l != b'\r' && *l != b'\\');
    }
    let alone = deserialize(&doc);
    assume(alone.metadata.is_none());
    // no opener or closer that is not part of a complete collapsible
    let (mut open_at, mut close_at) = (0, 0);
    for t in Lexer::new(&doc) {
        let k = K::of(&t.kind);
        open_at += (k == K::ColStart && t.position.column == 0) as usize;
        close_at += (k == K::ColEnd && t.position.column == 0) as usize;
    }
    let n = collapsibles(&alone.body);
    assume(n == open_at && n == close_at);
    let (opens, closes) = (format!("{open}\n").repeat(times), "\n%}".repeat(times));
    let s = format!("{opens}{doc}{closes}");
    note_doc(&s);
    let got = deserialize(&s);
    note(|| format!("got:  {got:?}\nalone: {alone:?}"));
    // what the collapsible holds before the document
    let mut want = deserialize(&format!("{opens}%}}{}", "\n%}".repeat(times - 1)));
    if want.body.len() == 1
        && let Some(body) = innermost(&mut want.body, times)
    {
        body.extend(alone.body.iter().cloned());
    }
    let ok = got == want;
    check(ok, 271, "a block inside a collapsible is not read as it is outside");
    mark(marks(&alone));
}

fn collapsibles(v: &[YamdNodes]) -> usize {
    let mut n = 0;
    for b in v {
        if let YamdNodes::Collapsible(c) = b {
            n += 1 + collapsibles(&c.body);
        }
    }
    n
}

/// B11: a document with Windows line breaks is the same document.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_crlf() {
    let s = Cur::new().text();
    let b = s.as_bytes();
    for i in 0..b.len() {
        // a carriage return of its own, or an escaped line break, is text
        assume(b[i] != b'\r');
        assume(b[i] != b'\\' || i + 1 == b.len() || b[i + 1] != b'\n');
    }
    let want = deserialize(&s);
    // all line breaks, every second one, and the others
    for mask in [3, 1, 2] {
        let mut d: Vec<u8> = Vec::new();
        let mut k = 0;
        for i in 0..b.len() {
            if b[i] == b'\n' {
                if mask >> (k & 1) & 1 == 1 {
                    d.push(b'\r');
                }
                k += 1;
            }
            d.push(b[i]);
        }
        if mask == 2 && k < 2 {
            break;
        }
        if mask == 1 && k < 2 {
            continue;
        }
        let d = unsafe { String::from_utf8_unchecked(d) };
        note_doc(&d);
        let mut got = deserialize(&d);
        note(|| format!("got:  {got:?}\nwant: {want:?}"));
        let mut n = 0;
        ast::replace(&mut got, "\r\n", "\n", &mut n);
        check(got == want, 281, "Windows line breaks change the document");
    }
    mark(marks(&want));
}

/// B12: what every parsed document satisfies.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_shape() {
    let s = Cur::new().text();
    note_doc(&s);
    let y = deserialize(&s);
    note(|| format!("document tree: {y:?}"));
    if let Some(m) = &y.metadata {
        check(!m.starts_with('\n') && !m.ends_with('\n'), 291, "metadata keeps line breaks at its ends");
    }
    for n in &y.body {
        shape(n);
    }
    mark(marks(&y));
}
fn shape_text(v: &[ParagraphNodes]) {
    let mut prev = false;
    for n in v {
        let text = match n {
            ParagraphNodes::Text(t) => {
                check(!t.is_empty(), 292, "an empty text node");
                true
            }
            ParagraphNodes::Bold(b) => {
                let mut prev = false;
                for n in &b.body {
                    let text = matches!(n, BoldNodes::Text(_));
                    check(!(text && prev), 293, "two text nodes in a row");
                    if let BoldNodes::Text(t) = n {
                        check(!t.is_empty(), 292, "an empty text node");
                    }
                    prev = text;
                }
                false
            }
            _ => false,
        };
        check(!(text && prev), 293, "two text nodes in a row");
        prev = text;
    }
}
fn shape_list(l: &List, level: usize) {
    check(l.level == level, 294, "a list's level is not its depth");
    check(!l.body.is_empty(), 295, "a list without items");
    for i in &l.body {
        shape_text(&i.text);
        if let Some(ParagraphNodes::Text(t)) = i.text.last() {
            check(!t.ends_with('\n'), 296, "a list item's text keeps the line break that ends it");
        }
        if let Some(n) = &i.nested_list {
            shape_list(n, level + 1);
        }
    }
}
fn shape(n: &YamdNodes) {
    match n {
        YamdNodes::Paragraph(p) => {
            check(!p.body.is_empty(), 297, "a paragraph without content");
            shape_text(&p.body)
        }
        YamdNodes::Heading(h) => {
            check(h.level >= 1 && h.level <= 6, 298, "a heading level outside 1 to 6");
            let mut prev = false;
            for n in &h.body {
                let text = matches!(n, HeadingNodes::Text(_));
                check(!(text && prev), 293, "two text nodes in a row");
                if let HeadingNodes::Text(t) = n {
                    check(!t.is_empty(), 292, "an empty text node");
                }
                prev = text;
            }
        }
        YamdNodes::Images(i) => check(i.body.len() >= 2, 299, "an image group with fewer than two images"),
        YamdNodes::List(l) => shape_list(l, 0),
        YamdNodes::Highlight(h) => {
            for p in &h.body {
                check(!p.body.is_empty(), 297, "a paragraph without content");
                shape_text(&p.body);
                if let Some(ParagraphNodes::Text(t)) = p.body.last() {
                    check(!t.ends_with('\n'), 296, "a highlight paragraph keeps the line break that ends it");
                }
            }
        }
        YamdNodes::Collapsible(c) => {
            for n in &c.body {
                shape(n);
            }
        }
        YamdNodes::Code(c) => check(!c.code.ends_with('\n'), 300, "code keeps the line break before its closing fence"),
        YamdNodes::Image(_) | YamdNodes::ThematicBreak(_) | YamdNodes::Embed(_) => {}
    }
}

// ---------------------------------------------------------------- C: rendering

/// C01: rendering any document, however built, ends without a panic.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_render() {
    let mut c = Cur::new();
    let y = ast::document(&mut c, false);
    note(|| format!("tree: {y:?}"));
    let s = y.to_string();
    note_doc(&s);
    // what was rendered can be read again
    let z = deserialize(&s);
    check(s.len() < 1 << 16, 301, "rendered text is absurdly long");
    mark(marks(&y) | marks(&z) << 32);
}

/// C02-C04: a document survives being rendered and read back.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_round() {
    let mut c = Cur::new();
    let y = ast::document(&mut c, true);
    note(|| format!("tree: {y:?}"));
    let s = y.to_string();
    note_doc(&s);
    let z = deserialize(&s);
    note(|| format!("read back: {z:?}"));
    check(z == y, 311, "a rendered document reads back as another one");
    mark(marks(&y));
}

/// C06: a document without any special character is rendered in the documented spelling.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_spell() {
    let mut c = Cur::new();
    let y = ast::document(&mut c, false);
    note(|| format!("tree: {y:?}"));
    let got = y.to_string();
    let want = spell::document(&y);
    note(|| format!("rendered: {got:?}\nwant:     {want:?}"));
    check(got == want, 331, "a document is not rendered in the documented form");
    spell::alone(&y, &mut |got, want| {
        note(|| format!("alone: {got:?}\nwant:  {want:?}"));
        check(got == want, 332, "a node on its own is not rendered in the documented form");
    });
    mark(marks(&y));
}

/// F01: a document built with the constructors and conversions holds exactly the parts given; a
/// copy is equal; two documents are equal exactly when all their parts are.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_build() {
    let mut c = Cur::new();
    let y = ast::document(&mut c, false);
    let z = ast::document(&mut c, false);
    note(|| format!("tree: {y:?}\nother: {z:?}"));
    let w = build::document(&y);
    note(|| format!("built: {w:?}"));
    let (mut y, mut z) = (y, z);
    build::settle(&mut y);
    build::settle(&mut z);
    check(build::same(&w, &y), 601, "a constructor or conversion does not hold what it was given");
    let k = y.clone();
    check(build::same(&k, &y), 602, "a copy differs from its original");
    check(w == y && k == y, 603, "two documents with the same parts are not equal");
    let mut k = k;
    if build::deeper(&mut k.body) {
        check(k != y && !build::same(&k, &y), 605, "a list or heading equals one of another level");
        check(build::same(&build::document(&k), &k), 601, "a constructor or conversion does not hold what it was given");
    }
    let none = Paragraph::default().body.len() + Bold::default().body.len() + Yamd::default().body.len();
    check(none == 0 && Yamd::default().metadata.is_none() && ThematicBreak::default() == ThematicBreak::new(), 606, "a default node is not empty");
    let eq = build::same(&y, &z);
    check((y == z) == eq && (z == y) == eq && (y != z) != eq, 604, "two documents are equal exactly when all their parts are, and these are not");
    mark(marks(&y) | if eq { 1 << 40 } else { 1 << 41 });
}

/// C05: reading, rendering and reading again gives the same document.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_stable() {
    let s = Cur::new().text();
    note_doc(&s);
    // carriage returns only in Windows line breaks, and then no escaped line break
    let b = s.as_bytes();
    let cr = b.contains(&b'\r');
    let mut esc = false;
    for i in 0..b.len() {
        if esc {
            assume(!cr || (b[i] != b'\n' && b[i] != b'\r'));
            esc = false;
        } else if b[i] == b'\r' {
            assume(i + 1 < b.len() && b[i + 1] == b'\n');
        } else if b[i] == b'\\' {
            esc = true;
        }
    }
    let y = deserialize(&s);
    let r = y.to_string();
    note(|| format!("tree: {y:?}\nrendered: {r:?}"));
    let z = deserialize(&r);
    note(|| format!("read back: {z:?}"));
    check(z == y, 321, "a rendered document reads back as another one");
    mark(marks(&y));
}

// ---------------------------------------------------------------- D: hand-built event streams

fn event(code: u8, content: Content) -> Op {
    let kind = if code < NODES {
        OpKind::Start(node_of(code))
    } else if code < 2 * NODES {
        OpKind::End(node_of(code - NODES))
    } else {
        OpKind::Value
    };
    Op { kind, content }
}

/// D01/D02: any event stream is converted or refused without a panic; it is refused exactly
/// when its Start and End events do not pair up; a legal one gives the document it describes.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_ops() {
    let mut c = Cur::new();
    // bit 0: decide acceptance; bit 1: decide the tree
    let what = c.num();
    let src = c.text();
    let codes = c.text();
    let mut ops = Vec::new();
    let n = src.len();
    for (i, b) in codes.bytes().enumerate() {
        let content = match i % 3 {
            0 => Content::Span(0..n),
            1 => Content::Materialized(String::from("## m")),
            _ => Content::Span(n..n),
        };
        ops.push(event(b, content));
    }
    note(|| format!("events: {ops:?}\nsource: {src:?}"));
    let r = try_to_yamd(&ops, &src);
    note(|| format!("result: {r:?}"));
    let ok = balanced(&ops);
    let mut m = if ok { 1 } else { 2 };
    if what & 1 == 1 {
        check(r.is_ok() == ok, 401, "a badly nested event stream is accepted, or a well nested one refused");
    }
    if what & 2 == 2 && ok && legal(&ops) {
        let w = tree(&ops, &src);
        check(r == Ok(w), 402, "the document is not the one the events describe");
        m |= 4;
    }
    mark(m);
}

/// a number from a symbolic byte: the byte moved left, so that high bits count too
fn big(b: u8, shift: u64) -> usize {
    (b as usize) << shift
}

/// what a content is made of: a range, or a text of its own
#[derive(Clone)]
enum Made {
    Range(usize, usize),
    Own(String),
}

impl Made {
    /// `s` and two bytes: a range; anything else: a letter and the text
    fn read(c: &mut Cur, shift: u64) -> Made {
        let t = c.text();
        let b = t.as_bytes();
        if b[0] == b's' { Made::Range(big(b[1], shift), big(b[2], shift)) } else { Made::Own(String::from(&t[1..])) }
    }
    fn content(&self) -> Content {
        match self {
            Made::Range(a, b) => Content::Span(*a..*b),
            Made::Own(t) => Content::Materialized(t.clone()),
        }
    }
    fn same(&self, other: &Made) -> bool {
        match (self, other) {
            (Made::Range(a, b), Made::Range(c, d)) => a == c && b == d,
            (Made::Own(a), Made::Own(b)) => a.as_bytes() == b.as_bytes(),
            _ => false,
        }
    }
    fn held(&self, c: &Content) -> bool {
        match (self, c) {
            (Made::Range(a, b), Content::Span(r)) => r.start == *a && r.end == *b,
            (Made::Own(a), Content::Materialized(b)) => a.as_bytes() == b.as_bytes(),
            _ => false,
        }
    }
}

const TOKEN_KINDS: [(TokenKind, &str); 22] = [
    (TokenKind::Terminator, "Terminator"),
    (TokenKind::Eol, "Eol"),
    (TokenKind::LeftCurlyBrace, "LeftCurlyBrace"),
    (TokenKind::RightCurlyBrace, "RightCurlyBrace"),
    (TokenKind::CollapsibleStart, "CollapsibleStart"),
    (TokenKind::CollapsibleEnd, "CollapsibleEnd"),
    (TokenKind::Tilde, "Tilde"),
    (TokenKind::Star, "Star"),
    (TokenKind::Space, "Space"),
    (TokenKind::Minus, "Minus"),
    (TokenKind::Hash, "Hash"),
    (TokenKind::GreaterThan, "GreaterThan"),
    (TokenKind::Bang, "Bang"),
    (TokenKind::Backtick, "Backtick"),
    (TokenKind::Plus, "Plus"),
    (TokenKind::LeftSquareBracket, "LeftSquareBracket"),
    (TokenKind::RightSquareBracket, "RightSquareBracket"),
    (TokenKind::LeftParenthesis, "LeftParenthesis"),
    (TokenKind::RightParenthesis, "RightParenthesis"),
    (TokenKind::Underscore, "Underscore"),
    (TokenKind::Pipe, "Pipe"),
    (TokenKind::Literal, "Literal"),
];

/// the hash of a value under a plain hasher
fn hashed<T: std::hash::Hash>(t: &T) -> u64 {
    struct Fold(u64);
    impl std::hash::Hasher for Fold {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = self.0.wrapping_mul(0x100_0000_01b3) ^ *x as u64;
            }
        }
    }
    let mut h = Fold(7);
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

/// D04: events, contents and tokens made by hand hold what they were given, are equal exactly when
/// all of their parts are, and a content's accessors agree with it.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_by_hand() {
    let mut c = Cur::new();
    let what = c.num();
    if what == 0 {
        // two events
        let shift = c.num();
        let codes = c.text();
        let (k, l) = (codes.as_bytes()[0], codes.as_bytes()[1]);
        let (x, y) = (Made::read(&mut c, shift), Made::read(&mut c, shift));
        let make = |k: u8, x: &Made| {
            if k < NODES {
                Op::new_start(node_of(k), x.content())
            } else if k < 2 * NODES {
                Op::new_end(node_of(k - NODES), x.content())
            } else {
                Op::new_value(x.content())
            }
        };
        let (p, q) = (make(k, &x), make(l, &y));
        note(|| format!("events: {p:?}\n        {q:?}"));
        for (o, k, x) in [(&p, k, &x), (&q, l, &y)] {
            let code = match &o.kind {
                OpKind::Start(n) => node_id(n),
                OpKind::End(n) => NODES + node_id(n),
                OpKind::Value => 2 * NODES,
            };
            check(code == k && x.held(&o.content), 451, "an event does not hold what it was made from");
        }
        let (kinds, texts) = (k == l, x.same(&y));
        check((p.kind == q.kind) == kinds, 452, "two kinds of event are equal and are not the same, or the reverse");
        check((p.content == q.content) == texts, 453, "two contents are equal and their parts are not, or the reverse");
        check((p == q) == (kinds && texts) && (p != q) != (kinds && texts), 454, "two events are equal and their parts are not, or the reverse");
        if k < 2 * NODES && l < 2 * NODES {
            let (a, b) = (k % NODES, l % NODES);
            check((node_of(a) == node_of(b)) == (a == b), 455, "two nodes are equal and are not the same, or the reverse");
        }
        mark(if kinds && texts { 1 } else { 2 });
    } else if what == 1 {
        // a content and its accessors
        let s = c.text();
        let x = Made::read(&mut c, 0);
        let o = x.content();
        note(|| format!("content: {o:?}\nsource: {s:?}"));
        let want = match &x {
            Made::Own(t) => t.as_str(),
            Made::Range(a, b) if a >= b => "",
            Made::Range(a, b) => match s.get(*a..*b) {
                Some(t) => t,
                // no place of the source
                None => return,
            },
        };
        check(o.as_str(&s).as_bytes() == want.as_bytes(), 456, "a content's text is not what it was made from");
        check(o.to_string(&s).as_bytes() == want.as_bytes(), 457, "a content's string is not its text");
        check(o.is_empty() == want.is_empty(), 458, "a content is empty and its text is not, or the reverse");
        mark(4);
    } else {
        // two tokens
        let shift = c.num();
        let mut read = || {
            let t = c.text();
            let b = t.as_bytes();
            let k = conc(b[0] as u64) as usize % 22;
            (k, [big(b[1], shift), big(b[2], shift), big(b[3], shift), big(b[4], shift), big(b[5], shift)], b[6] == b'e')
        };
        let (x, y) = (read(), read());
        let make = |(k, n, e): &(usize, [usize; 5], bool)| {
            let position = Position { byte_index: n[2], column: n[3], row: n[4] };
            let mut t = Token::new(TOKEN_KINDS[*k].0.clone(), n[0]..n[1], position);
            check(!t.escaped, 461, "a new token is escaped");
            t.escaped = *e;
            t
        };
        let (p, q) = (make(&x), make(&y));
        note(|| format!("tokens: {p:?}\n        {q:?}"));
        for (t, (k, n, e)) in [(&p, &x), (&q, &y), (&p.clone(), &x)] {
            check(t.kind == TOKEN_KINDS[*k].0 && t.range.start == n[0] && t.range.end == n[1] && t.escaped == *e, 462, "a token does not hold what it was made from");
            let o = &t.position;
            check(o.byte_index == n[2] && o.column == n[3] && o.row == n[4], 463, "a position does not hold what it was made from");
            check(t.kind.to_string() == TOKEN_KINDS[*k].1, 464, "a token kind is written under another name");
        }
        let kinds = x.0 == y.0;
        let places = x.1[2] == y.1[2] && x.1[3] == y.1[3] && x.1[4] == y.1[4];
        check((p.kind == q.kind) == kinds, 465, "two token kinds are equal and are not the same, or the reverse");
        check(!kinds || hashed(&p.kind) == hashed(&q.kind), 466, "equal token kinds have different hashes");
        check((p.position == q.position) == places, 467, "two positions are equal and their parts are not, or the reverse");
        let all = kinds && places && x.1[0] == y.1[0] && x.1[1] == y.1[1] && x.2 == y.2;
        check((p == q) == all && (p != q) != all, 468, "two tokens are equal and their parts are not, or the reverse");
        let zero = Position::default();
        check(zero.byte_index == 0 && zero.column == 0 && zero.row == 0, 469, "the default position is not the start of the text");
        mark(if all { 8 } else { 16 });
    }
}

// ---------------------------------------------------------------- E: JSON

#[cfg(feature = "serde")]
mod stored {
    use super::json::Style;
    use super::*;
    /// E01: a parsed document and its events survive being stored as JSON.
    #[unsafe(no_mangle)]
    pub extern "C-unwind" fn h_json_doc() {
        let mut c = Cur::new();
        let what = c.num();
        let s = c.text();
        note_doc(&s);
        let mut m = 0;
        if what & 1 == 1 {
            let y = deserialize(&s);
            round(&y);
            m |= marks(&y);
        }
        if what & 2 == 2 {
            let ops = parse(&s);
            let j = serde_json::to_string(&ops);
            check(j.is_ok(), 501, "an event stream cannot be stored as JSON");
            let j = j.unwrap_or_default();
            note(|| format!("json: {j}"));
            match serde_json::from_str::<Vec<Op>>(&j) {
                Ok(z) => check(z == ops, 502, "an event stream stored as JSON reads back as another one"),
                Err(_) => check(false, 503, "a stored event stream cannot be read back"),
            }
            m |= 1 << 40;
        }
        mark(m);
    }
    fn round(y: &Yamd) {
        let j = serde_json::to_string(y);
        check(j.is_ok(), 504, "a document cannot be stored as JSON");
        let j = j.unwrap_or_default();
        note(|| format!("json: {j}"));
        match serde_json::from_str::<Yamd>(&j) {
            Ok(z) => check(z == *y, 505, "a document stored as JSON reads back as another one"),
            Err(_) => check(false, 506, "a stored document cannot be read back"),
        }
    }
    /// E02: a stored document is its tree spelled out, and every spelling of that is read as the tree.
    fn form(y: &Yamd) {
        let want = json::document(y, Style::Plain);
        note(|| format!("json: {want}"));
        check(serde_json::to_string(y).is_ok_and(|j| j == want), 511, "a document's stored form does not mirror its tree");
        let loose = json::document(y, Style::Loose);
        check(serde_json::from_str::<Yamd>(&loose).is_ok_and(|z| z == *y), 512, "a stored document with white space, and fields in another order, is read as another one");
        let bare = json::document(y, Style::Bare);
        check(serde_json::from_str::<Yamd>(&bare).is_ok_and(|z| z == *y), 513, "a stored document with absent parts left out is read as another one");
        // (checking other characters' bytes for the second time is of no interest, and slow)
        let ascii = want.bytes().all(|b| b < 128);
        check(!ascii || serde_json::from_reader::<_, Yamd>(want.as_bytes()).is_ok_and(|z| z == *y), 514, "a stored document read piece by piece is another one");
    }
    #[unsafe(no_mangle)]
    pub extern "C-unwind" fn h_form_ast() {
        let mut c = Cur::new();
        let y = ast::document(&mut c, false);
        note(|| format!("tree: {y:?}"));
        form(&y);
        mark(marks(&y));
    }
    /// E02: so are its events.
    #[unsafe(no_mangle)]
    pub extern "C-unwind" fn h_form_doc() {
        let mut c = Cur::new();
        let s = c.text();
        note_doc(&s);
        let y = deserialize(&s);
        form(&y);
        let ops = parse(&s);
        let want = json::events(&ops, Style::Plain);
        note(|| format!("json: {want}"));
        check(serde_json::to_string(&ops).is_ok_and(|j| j == want), 515, "an event stream's stored form does not mirror it");
        let loose = json::events(&ops, Style::Loose);
        check(serde_json::from_str::<Vec<Op>>(&loose).is_ok_and(|z| z == ops), 516, "a stored event stream with white space, and fields in another order, is read as another one");
        mark(marks(&y) | 1 << 40);
    }
    /// E01: so does any document built by hand.
    #[unsafe(no_mangle)]
    pub extern "C-unwind" fn h_json_ast() {
        let mut c = Cur::new();
        let y = ast::document(&mut c, false);
        note(|| format!("tree: {y:?}"));
        round(&y);
        mark(marks(&y));
    }
}
#[cfg(feature = "serde")]
pub use stored::*;
#[cfg(not(feature = "serde"))]
extern "C-unwind" fn h_json_doc() {}
#[cfg(not(feature = "serde"))]
extern "C-unwind" fn h_json_ast() {}
#[cfg(not(feature = "serde"))]
extern "C-unwind" fn h_form_doc() {}
#[cfg(not(feature = "serde"))]
extern "C-unwind" fn h_form_ast() {}
