//! Reference parser: the documented grammar as a recursive-descent recogniser over
//! the reference tokens, building the AST directly.  It is written independently of
//! /repo/src/op (no event stream, no backtracking state beyond the one documented
//! exception), and is what the parser is compared with.
use crate::spec_lex::{K, T, lex};
use yamd::nodes::*;

/// Where an enclosing construct ends; a nested construct never reads past it.
#[derive(Clone, Copy)]
enum Stop {
    Terminator,
    CollapsibleEnd,
    HighlightEnd,
    Item { level: usize, ordered: bool },
}
#[derive(Clone, Copy)]
struct Stops<'s> {
    here: Stop,
    outer: Option<&'s Stops<'s>>,
}
type S<'s> = Option<&'s Stops<'s>>;

pub struct Spec<'a> {
    src: &'a str,
    t: Vec<T>,
}

pub fn document(src: &str) -> Yamd {
    let mut p = Spec { src, t: lex(src) };
    let (metadata, i) = p.metadata();
    let (body, _) = p.blocks(i, None);
    Yamd { metadata, body }
}

fn trim_end(s: &str) -> &str {
    let mut s = s;
    while let Some(r) = s.strip_suffix("\r\n").or(s.strip_suffix('\n')) {
        s = r;
    }
    s
}
fn trim_start(s: &str) -> &str {
    let mut s = s;
    while let Some(r) = s.strip_prefix("\r\n").or(s.strip_prefix('\n')) {
        s = r;
    }
    s
}

impl Spec<'_> {
    fn is(&self, i: usize, k: K, n: usize) -> bool {
        i < self.t.len() && self.t[i].is(k, n)
    }
    fn kind(&self, i: usize, k: K) -> bool {
        i < self.t.len() && self.t[i].k == k
    }
    fn line_start(&self, i: usize) -> bool {
        i < self.t.len() && self.t[i].col == 0
    }
    /// a fence-like token: exactly `n` of a character at the start of a line
    fn fence(&self, i: usize, k: K, n: usize) -> bool {
        self.is(i, k, n) && self.line_start(i)
    }

    /// text of the tokens `i..j`, without escape characters
    fn text(&self, i: usize, j: usize) -> String {
        let mut s = String::new();
        for t in &self.t[i..j] {
            s.push_str(&self.src[t.lo..t.hi]);
        }
        s
    }

    /// marker of a list item at `i`: (level, ordered, index of the item's text)
    fn marker(&self, i: usize) -> Option<(usize, bool, usize)> {
        if !self.line_start(i) {
            return None;
        }
        let (level, m) = if self.kind(i, K::Space) { (self.t[i].len(), i + 1) } else { (0, i) };
        let ordered = self.is(m, K::Plus, 1);
        if !ordered && !self.is(m, K::Minus, 1) {
            return None;
        }
        if self.is(m + 1, K::Space, 1) { Some((level, ordered, m + 2)) } else { None }
    }

    fn stopped(&self, i: usize, s: S) -> bool {
        if i >= self.t.len() {
            return true;
        }
        let mut s = s;
        while let Some(x) = s {
            let hit = match x.here {
                Stop::Terminator => self.kind(i, K::Terminator),
                Stop::CollapsibleEnd => {
                    let end = |j| self.kind(j, K::ColEnd) && self.line_start(j);
                    end(i) || (self.kind(i, K::Eol) && end(i + 1))
                }
                Stop::HighlightEnd => self.fence(i, K::Bang, 2),
                Stop::Item { level, ordered } => match self.marker(i) {
                    None => false,
                    Some((l, o, _)) => l <= level + 1 && (l != level || o == ordered),
                },
            };
            if hit {
                return true;
            }
            s = x.outer;
        }
        false
    }

    /// first token from `i` on that satisfies `f`, before the enclosing construct ends
    fn find(&self, i: usize, s: S, f: impl Fn(&T) -> bool) -> Option<usize> {
        let mut j = i;
        while !self.stopped(j, s) {
            if f(&self.t[j]) {
                return Some(j);
            }
            j += 1;
        }
        None
    }

    // ------------------------------------------------------------ inline

    /// `<delimiter>text<delimiter>`: (text, end)
    fn span(&self, i: usize, s: S, k: K, n: usize) -> Option<(String, usize)> {
        if !self.is(i, k, n) {
            return None;
        }
        let j = self.find(i + 1, s, |t| t.is(k, n))?;
        Some((self.text(i + 1, j), j + 1))
    }

    /// `[text](url)`: (text, url, end).  The url runs to the balancing parenthesis, or to
    /// the last closing one when they do not balance.
    fn link(&self, i: usize, s: S) -> Option<(String, String, usize)> {
        if !self.kind(i, K::LSq) {
            return None;
        }
        let j = self.find(i + 1, s, |t| t.k == K::RSq)?;
        let open = j + 1;
        if !self.kind(open, K::LPar) {
            return None;
        }
        let mut depth = 1usize;
        let mut last = None;
        let mut k = open + 1;
        while depth > 0 && !self.stopped(k, s) {
            if self.kind(k, K::LPar) {
                depth += 1;
            } else if self.kind(k, K::RPar) {
                depth -= 1;
                last = Some(k);
            }
            k += 1;
        }
        let end = last?;
        Some((self.text(i + 1, j), self.text(open + 1, end), end + 1))
    }

    fn bold(&self, i: usize, s: S) -> Option<(Bold, usize)> {
        if !self.is(i, K::Star, 2) {
            return None;
        }
        let mut body = Vec::new();
        let mut plain = i + 1;
        let mut j = i + 1;
        while !self.stopped(j, s) {
            let close = self.is(j, K::Star, 2);
            let node: Option<(BoldNodes, usize)> = if close {
                None
            } else if let Some((x, e)) = self.span(j, s, K::Tilde, 2) {
                Some((BoldNodes::Strikethrough(Strikethrough(x)), e))
            } else {
                self.span(j, s, K::Under, 1).map(|(x, e)| (BoldNodes::Italic(Italic(x)), e))
            };
            if !close && node.is_none() {
                j += 1;
                continue;
            }
            if plain < j {
                body.push(BoldNodes::Text(self.text(plain, j)));
            }
            match node {
                None => return Some((Bold { body }, j + 1)),
                Some((n, e)) => {
                    body.push(n);
                    j = e;
                    plain = e;
                }
            }
        }
        None
    }

    fn inline(&self, i: usize, s: S) -> Option<(ParagraphNodes, usize)> {
        let k = if i < self.t.len() { self.t[i].k } else { return None };
        match k {
            K::Tilde => self.span(i, s, K::Tilde, 2).map(|(x, e)| (Strikethrough(x).into(), e)),
            K::Under => self.span(i, s, K::Under, 1).map(|(x, e)| (Italic(x).into(), e)),
            K::Star if self.t[i].len() == 2 => self.bold(i, s).map(|(b, e)| (b.into(), e)),
            K::Star => self.span(i, s, K::Star, 1).map(|(x, e)| (Emphasis(x).into(), e)),
            K::LSq => self.link(i, s).map(|(text, url, e)| (Anchor { text, url }.into(), e)),
            K::Tick => self.span(i, s, K::Tick, 1).map(|(x, e)| (CodeSpan(x).into(), e)),
            _ => None,
        }
    }

    fn paragraph(&self, i: usize, s: S) -> (Vec<ParagraphNodes>, usize) {
        let mut body = Vec::new();
        let mut plain = i;
        let mut j = i;
        while !self.stopped(j, s) {
            match self.inline(j, s) {
                None => j += 1,
                Some((n, e)) => {
                    if plain < j {
                        body.push(ParagraphNodes::Text(self.text(plain, j)));
                    }
                    body.push(n);
                    j = e;
                    plain = e;
                }
            }
        }
        if plain < j {
            body.push(ParagraphNodes::Text(self.text(plain, j)));
        }
        (body, j)
    }

    // ------------------------------------------------------------ leaf blocks

    fn metadata(&self) -> (Option<String>, usize) {
        if !self.fence(0, K::Minus, 3) {
            return (None, 0);
        }
        match self.find(1, None, |t| t.is(K::Minus, 3) && t.col == 0) {
            None => (None, 0),
            Some(j) => {
                let s = self.text(1, j);
                (Some(trim_end(trim_start(&s)).to_string()), j + 1)
            }
        }
    }

    fn heading(&self, i: usize, s: S) -> Option<(Heading, usize)> {
        if !(self.kind(i, K::Hash) && self.line_start(i) && self.t[i].len() <= 6 && self.is(i + 1, K::Space, 1)) {
            return None;
        }
        let mut body = Vec::new();
        let mut j = i + 2;
        let mut plain = j;
        while !self.stopped(j, s) {
            match self.link(j, s) {
                None => j += 1,
                Some((text, url, e)) => {
                    if plain < j {
                        body.push(HeadingNodes::Text(self.text(plain, j)));
                    }
                    body.push(HeadingNodes::Anchor(Anchor { text, url }));
                    j = e;
                    plain = e;
                }
            }
        }
        if plain < j {
            body.push(HeadingNodes::Text(self.text(plain, j)));
        }
        Some((Heading { level: self.t[i].len() as u8, body }, j))
    }

    /// end of a block whose last token is at `i - 1`: a line break, or the end of what encloses it
    fn block_end(&self, i: usize, s: S) -> Option<usize> {
        if self.kind(i, K::Eol) {
            Some(i + 1)
        } else if self.stopped(i, s) || self.kind(i, K::Terminator) {
            Some(i)
        } else {
            None
        }
    }

    fn code(&self, i: usize, s: S) -> Option<(Code, usize)> {
        if !self.fence(i, K::Tick, 3) {
            return None;
        }
        // the first line names the language; nothing inside a code block is markup
        let eol = self.find(i + 1, None, |t| t.k == K::Eol || t.k == K::Terminator)?;
        let lang = self.text(i + 1, eol);
        let close = self.find(eol + 1, None, |t| t.is(K::Tick, 3) && t.col == 0)?;
        let end = self.block_end(close + 1, s)?;
        let code = trim_end(&self.text(eol + 1, close)).to_string();
        Some((Code { lang, code }, end))
    }

    fn embed(&self, i: usize, s: S) -> Option<(Embed, usize)> {
        if !self.fence(i, K::LCurly, 2) {
            return None;
        }
        let bar = self.find(i + 1, s, |t| t.k == K::Pipe)?;
        let close = self.find(bar + 1, s, |t| t.is(K::RCurly, 2))?;
        let end = self.block_end(close + 1, s)?;
        Some((Embed { kind: self.text(i + 1, bar), args: self.text(bar + 1, close) }, end))
    }

    /// a block that consists of nothing but images, one per line
    fn images(&self, i: usize, s: S) -> Option<(YamdNodes, usize)> {
        let mut body = Vec::new();
        let mut j = i;
        loop {
            if j > i && self.stopped(j, s) {
                break;
            }
            if !self.is(j, K::Bang, 1) {
                return None;
            }
            let (alt, src, e) = self.link(j + 1, s)?;
            body.push(Image { alt, src });
            j = if self.kind(e, K::Eol) {
                e + 1
            } else if self.stopped(e, s) {
                e
            } else {
                return None;
            };
        }
        Some(match body.len() {
            1 => (body.pop()?.into(), j),
            _ => (Images { body }.into(), j),
        })
    }

    // ------------------------------------------------------------ lists

    fn item(&self, i: usize, level: usize, want: Option<bool>, s: S) -> Option<(ListItem, bool, usize)> {
        let (l, ordered, j) = self.marker(i)?;
        if l != level || want.is_some_and(|w| w != ordered) {
            return None;
        }
        let inner = Stops { here: Stop::Item { level, ordered }, outer: s };
        let (text, j) = self.paragraph(j, Some(&inner));
        let mut end = j;
        let mut nested_list = None;
        if !self.stopped(j, s) {
            if let Some((l, e)) = self.list(j, level + 1, s) {
                nested_list = Some(l);
                end = e;
            }
        }
        Some((ListItem { text: trim_last(text), nested_list }, ordered, end))
    }

    fn list(&self, i: usize, level: usize, s: S) -> Option<(List, usize)> {
        let (first, ordered, mut j) = self.item(i, level, None, s)?;
        let mut body = vec![first];
        while let Some((it, _, e)) = self.item(j, level, Some(ordered), s) {
            body.push(it);
            j = e;
        }
        let list_type = if ordered { ListTypes::Ordered } else { ListTypes::Unordered };
        Some((List { list_type, level, body }, j))
    }

    // ------------------------------------------------------------ containers

    fn highlight(&self, i: usize, s: S) -> Option<(Highlight, usize)> {
        if !self.fence(i, K::Bang, 2) {
            return None;
        }
        let mut title = None;
        let mut j = i + 2;
        if self.is(i + 1, K::Space, 1) {
            let e = self.find(j, s, |t| t.k == K::Eol || t.k == K::Terminator)?;
            title = Some(self.text(j, e));
            j = e + 1;
        } else if !self.kind(i + 1, K::Eol) {
            return None;
        }
        let mut icon = None;
        let term = Stops { here: Stop::Terminator, outer: s };
        if self.fence(j, K::Bang, 1) && self.is(j + 1, K::Space, 1) {
            if let Some(e) = self.find(j + 2, Some(&term), |t| t.k == K::Eol) {
                icon = Some(self.text(j + 2, e));
                j = e + 1;
            }
        }
        if !self.line_start(j) {
            return None;
        }
        let end = Stops { here: Stop::HighlightEnd, outer: Some(&term) };
        let mut body = Vec::new();
        while !self.stopped(j, s) {
            if self.fence(j, K::Bang, 2) {
                j += 1;
                if self.kind(j, K::Eol) {
                    j += 1;
                }
                return Some((Highlight { title, icon, body }, j));
            }
            if self.kind(j, K::Terminator) {
                j += 1;
            }
            let (p, e) = self.paragraph(j, Some(&end));
            let p = trim_last(p);
            if !p.is_empty() {
                body.push(Paragraph { body: p });
            }
            j = e;
        }
        None
    }

    fn collapsible(&mut self, i: usize, s: S) -> Option<(Collapsible, usize)> {
        if !(self.kind(i, K::ColStart) && self.line_start(i)) {
            return None;
        }
        if !self.kind(i + 1, K::Space) && !self.kind(i + 1, K::Eol) {
            return None;
        }
        let r = self.collapsible_rest(i, s);
        if r.is_none() {
            // an opener without a closer is ordinary text from here on
            self.t[i].k = K::Lit;
        }
        r
    }

    fn collapsible_rest(&mut self, i: usize, s: S) -> Option<(Collapsible, usize)> {
        let mut title = String::new();
        let mut j = i + 2;
        if self.kind(i + 1, K::Space) {
            let e = self.find(j, None, |t| t.k == K::Eol || t.k == K::Terminator)?;
            title = self.text(j, e);
            j = e + 1;
        }
        if !self.line_start(j) {
            return None;
        }
        let inner = Stops { here: Stop::CollapsibleEnd, outer: s };
        let (body, mut j) = self.blocks(j, Some(&inner));
        if self.kind(j, K::Eol) {
            j += 1;
        }
        if !(self.kind(j, K::ColEnd) && self.line_start(j)) {
            return None;
        }
        j += 1;
        if self.kind(j, K::Eol) {
            j += 1;
        }
        Some((Collapsible { title, body }, j))
    }

    fn blocks(&mut self, i: usize, s: S) -> (Vec<YamdNodes>, usize) {
        let mut body: Vec<YamdNodes> = Vec::new();
        let mut j = i;
        while !self.stopped(j, s) {
            if self.kind(j, K::Terminator) {
                j += 1;
                continue;
            }
            let (n, e) = self.block(j, s);
            body.push(n);
            j = e;
        }
        (body, j)
    }

    fn block(&mut self, i: usize, s: S) -> (YamdNodes, usize) {
        if let Some((n, e)) = self.code(i, s) {
            return (n.into(), e);
        }
        if let Some((n, e)) = self.collapsible(i, s) {
            return (n.into(), e);
        }
        if let Some((n, e)) = self.embed(i, s) {
            return (n.into(), e);
        }
        if let Some((n, e)) = self.highlight(i, s) {
            return (n.into(), e);
        }
        let term = Stops { here: Stop::Terminator, outer: s };
        let s = Some(&term);
        if let Some((n, e)) = self.list(i, 0, s) {
            return (n.into(), e);
        }
        if let Some(r) = self.images(i, s) {
            return r;
        }
        if self.fence(i, K::Minus, 5) {
            return (ThematicBreak {}.into(), i + 1);
        }
        if let Some((n, e)) = self.heading(i, s) {
            return (n.into(), e);
        }
        let (p, e) = self.paragraph(i, s);
        (Paragraph { body: p }.into(), e)
    }
}

/// a list item's (or highlight paragraph's) text does not include the line break that ends it
fn trim_last(mut v: Vec<ParagraphNodes>) -> Vec<ParagraphNodes> {
    if let Some(ParagraphNodes::Text(t)) = v.last_mut() {
        let n = trim_end(t).len();
        t.truncate(n);
        if n == 0 {
            v.pop();
        }
    }
    v
}
