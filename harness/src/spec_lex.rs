//! Reference tokenizer, written from the documentation of the token kinds: the
//! source is first cut into units (a character with its escape, a line break, a
//! collapsible delimiter), and units are then grouped into tokens.
use yamd::lexer::{Token, TokenKind};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Terminator,
    Eol,
    LCurly,
    RCurly,
    ColStart,
    ColEnd,
    Tilde,
    Star,
    Space,
    Minus,
    Hash,
    Gt,
    Bang,
    Tick,
    Plus,
    LSq,
    RSq,
    LPar,
    RPar,
    Under,
    Pipe,
    Lit,
}

impl K {
    pub fn of(k: &TokenKind) -> K {
        match k {
            TokenKind::Terminator => K::Terminator,
            TokenKind::Eol => K::Eol,
            TokenKind::LeftCurlyBrace => K::LCurly,
            TokenKind::RightCurlyBrace => K::RCurly,
            TokenKind::CollapsibleStart => K::ColStart,
            TokenKind::CollapsibleEnd => K::ColEnd,
            TokenKind::Tilde => K::Tilde,
            TokenKind::Star => K::Star,
            TokenKind::Space => K::Space,
            TokenKind::Minus => K::Minus,
            TokenKind::Hash => K::Hash,
            TokenKind::GreaterThan => K::Gt,
            TokenKind::Bang => K::Bang,
            TokenKind::Backtick => K::Tick,
            TokenKind::Plus => K::Plus,
            TokenKind::LeftSquareBracket => K::LSq,
            TokenKind::RightSquareBracket => K::RSq,
            TokenKind::LeftParenthesis => K::LPar,
            TokenKind::RightParenthesis => K::RPar,
            TokenKind::Underscore => K::Under,
            TokenKind::Pipe => K::Pipe,
            TokenKind::Literal => K::Lit,
        }
    }
    /// kinds whose adjacent characters form one token
    fn runs(self) -> bool {
        matches!(
            self,
            K::LCurly | K::RCurly | K::Tilde | K::Star | K::Space | K::Minus | K::Hash | K::Gt | K::Bang | K::Tick | K::Plus
        )
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct T {
    pub k: K,
    pub lo: usize,
    pub hi: usize,
    pub row: usize,
    pub col: usize,
    pub esc: bool,
}

impl T {
    pub fn len(&self) -> usize {
        self.hi - self.lo
    }
    pub fn is(&self, k: K, n: usize) -> bool {
        self.k == k && self.hi - self.lo == n
    }
    pub fn same(&self, t: &Token) -> bool {
        self.k == K::of(&t.kind)
            && self.lo == t.range.start
            && self.hi == t.range.end
            && self.esc == t.escaped
            && self.lo == t.position.byte_index
            && self.row == t.position.row
            && self.col == t.position.column
    }
}

fn kind_of(c: u8) -> K {
    match c {
        b'\n' => K::Eol,
        b'{' => K::LCurly,
        b'}' => K::RCurly,
        b'~' => K::Tilde,
        b'*' => K::Star,
        b' ' => K::Space,
        b'-' => K::Minus,
        b'#' => K::Hash,
        b'>' => K::Gt,
        b'!' => K::Bang,
        b'`' => K::Tick,
        b'+' => K::Plus,
        b'[' => K::LSq,
        b']' => K::RSq,
        b'(' => K::LPar,
        b')' => K::RPar,
        b'_' => K::Under,
        b'|' => K::Pipe,
        _ => K::Lit,
    }
}

/// length in bytes of the character starting at byte `i`
fn width(b: &[u8], i: usize) -> usize {
    let mut n = 1;
    while i + n < b.len() && b[i + n] & 0xc0 == 0x80 {
        n += 1;
    }
    n
}

/// The character (or line break, or escaped character) at byte `i`:
/// (kind, first byte, end, escaped).  `None` for a backslash that ends the input.
fn unit(b: &[u8], i: usize) -> Option<(K, usize, usize, bool)> {
    let c = b[i];
    if c == b'\\' {
        if i + 1 == b.len() {
            return None;
        }
        return Some((K::Lit, i + 1, i + 1 + width(b, i + 1), true));
    }
    if c == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' {
        return Some((K::Eol, i, i + 2, false));
    }
    Some((kind_of(c), i, i + width(b, i), false))
}

pub fn lex(src: &str) -> Vec<T> {
    let b = src.as_bytes();
    let mut out: Vec<T> = Vec::new();
    let (mut i, mut row, mut col) = (0, 0, 0);
    while i < b.len() {
        let Some((k, lo, hi, esc)) = unit(b, i) else { break };
        let mut t = T { k, lo, hi, row, col, esc };
        let mut chars = 1;
        let second = |c: u8| hi < b.len() && b[hi] == c;
        match k {
            K::Eol => {
                row += 1;
                col = 0;
                match out.last_mut() {
                    Some(p) if p.k == K::Eol => {
                        p.k = K::Terminator;
                        p.hi = hi;
                    }
                    _ => out.push(t),
                }
                i = hi;
                continue;
            }
            K::LCurly if second(b'%') => {
                t.k = K::ColStart;
                t.hi = hi + 1;
                chars = 2;
            }
            K::Lit if !esc && b[lo] == b'%' && second(b'}') => {
                t.k = K::ColEnd;
                t.hi = hi + 1;
                chars = 2;
            }
            // text: runs on to the next escape or markup character; spaces inside belong to it
            K::Lit => {
                while t.hi < b.len() {
                    match unit(b, t.hi) {
                        Some((K::Lit | K::Space, p, e, false)) => {
                            if b[p] == b'%' && e < b.len() && b[e] == b'}' {
                                break;
                            }
                            t.hi = e;
                            chars += 1;
                        }
                        _ => break,
                    }
                }
            }
            _ if k.runs() => {
                while t.hi < b.len() && b[t.hi] == b[lo] {
                    t.hi += 1;
                    chars += 1;
                }
            }
            _ => {}
        }
        col += chars;
        i = t.hi;
        out.push(t);
    }
    out
}
