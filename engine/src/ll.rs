//! Reader for textual LLVM IR: module index (functions, globals, types) plus a
//! cursor-based parser for types, constants and operands.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
    Label,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                // alloc size: round up to ABI alignment
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => n.div_ceil(8),
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                let mut al = 1u64;
                for t in f {
                    let a = if *packed { 1 } else { t.align() };
                    al = al.max(a);
                    o = o.div_ceil(a) * a + t.size();
                }
                o.div_ceil(al) * al
            }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().min(16),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = u64::div_ceil(o, a) * a;
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: u64) -> Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            Ty::Struct(f, _) => f[i as usize].clone(),
            _ => panic!("field of {self:?}"),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => 0,
        }
    }
}

#[derive(Debug, Clone)]
pub enum Cv {
    Int(u128),
    Zero,
    Undef,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Cv)>),
}

pub const FN_BASE: u64 = 0xF000_0000_0000_0000;

pub struct Module {
    pub text: &'static str,
    pub types: HashMap<&'static str, &'static str>,
    pub globals: Vec<(&'static str, &'static str)>, // name, text after '='
    pub gidx: HashMap<&'static str, u32>,
    /// name, header line, body text
    pub funcs: Vec<(&'static str, &'static str, &'static str)>,
    pub fidx: HashMap<&'static str, u32>,
    pub n_decl: usize,
}

impl Module {
    pub fn load(text: String) -> Result<Module, String> {
        let text: &'static str = Box::leak(text.into_boxed_str());
        let mut m = Module {
            text,
            types: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            n_decl: 0,
        };
        let mut pos = 0usize;
        let b = text.as_bytes();
        while pos < b.len() {
            let eol = text[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let line = &text[pos..eol];
            let mut next = eol + 1;
            if line.starts_with('@') {
                let (name, rest) = split_name(line)?;
                let rest = rest
                    .trim_start()
                    .strip_prefix('=')
                    .ok_or_else(|| format!("global: {line}"))?;
                if has_word(rest, "alias") {
                    // alias: `@a = ... alias ty, ptr @b`
                    let target = rest.rfind('@').map(|i| &rest[i..]).unwrap_or("");
                    let (tn, _) = split_name(target)?;
                    // resolve later through fidx/gidx
                    m.types.insert(
                        Box::leak(format!("alias:{name}").into_boxed_str()),
                        tn,
                    );
                } else {
                    m.gidx.insert(name, m.globals.len() as u32 + 1);
                    m.globals.push((name, rest));
                }
            } else if line.starts_with("define ") {
                let body_start = eol + 1;
                let end = text[eol..]
                    .find("\n}\n")
                    .map(|x| eol + x + 1)
                    .or_else(|| text[eol..].find("\n}").map(|x| eol + x + 1))
                    .ok_or("unterminated function")?;
                let at = find_fn_at(line).ok_or_else(|| format!("define: {line}"))?;
                let (name, _) = split_name(&line[at..])?;
                m.fidx.insert(name, m.funcs.len() as u32);
                m.funcs.push((name, line, &text[body_start.min(end)..end]));
                next = end + 2;
            } else if line.starts_with("declare ") {
                let at = find_fn_at(line).ok_or_else(|| format!("declare: {line}"))?;
                let (name, _) = split_name(&line[at..])?;
                m.fidx.insert(name, m.funcs.len() as u32);
                m.funcs.push((name, line, ""));
                m.n_decl += 1;
            } else if line.starts_with('%') {
                let (name, rest) = split_name(line)?;
                if let Some(p) = rest.find("type ") {
                    m.types.insert(name, &rest[p + 5..]);
                }
            }
            pos = next;
        }
        Ok(m)
    }
    pub fn addr_of(&self, name: &str) -> Result<u64, String> {
        if let Some(&g) = self.gidx.get(name) {
            return Ok((g as u64) << 32);
        }
        if let Some(&f) = self.fidx.get(name) {
            return Ok(FN_BASE | ((f as u64) << 4));
        }
        if let Some(t) = self.types.get(format!("alias:{name}").as_str()) {
            return self.addr_of(t);
        }
        Err(format!("unknown symbol @{name}"))
    }
}

fn has_word(s: &str, w: &str) -> bool {
    s.split_whitespace().take(8).any(|x| x == w)
}

/// index of the '@' that starts the function name on a define/declare line
fn find_fn_at(line: &str) -> Option<usize> {
    // the name is the first '@' directly followed by name and '('
    let b = line.as_bytes();
    let mut i = 0;
    let mut depth = 0;
    let mut q = false;
    while i < b.len() {
        match b[i] {
            b'"' => q = !q,
            b'(' if !q => depth += 1,
            b')' if !q => depth -= 1,
            b'@' if !q && depth == 0 => return Some(i),
            _ => {}
        }
        i += 1;
    }
    None
}

/// `@name rest` or `%name rest` -> (name, rest)
pub fn split_name(s: &'static str) -> Result<(&'static str, &'static str), String> {
    let b = s.as_bytes();
    if b.len() < 2 {
        return Err(format!("name: {s}"));
    }
    if b[1] == b'"' {
        let e = s[2..].find('"').ok_or("quote")? + 2;
        return Ok((&s[2..e], &s[e + 1..]));
    }
    let mut e = 1;
    while e < b.len() && is_id(b[e]) {
        e += 1;
    }
    Ok((&s[1..e], &s[e..]))
}

pub fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub struct P<'m> {
    pub s: &'static str,
    pub i: usize,
    pub m: &'m Module,
}

pub type R<T> = Result<T, String>;

impl<'m> P<'m> {
    pub fn new(s: &'static str, m: &'m Module) -> Self {
        P { s, i: 0, m }
    }
    pub fn err<T>(&self, what: &str) -> R<T> {
        let e = (self.i + 80).min(self.s.len());
        let st = self.i.min(e);
        Err(format!("parse: {what} at `{}` in `{}`", &self.s[st..e], &self.s[..self.s.len().min(200)]))
    }
    pub fn ws(&mut self) {
        let b = self.s.as_bytes();
        while self.i < b.len() && (b[self.i] == b' ' || b[self.i] == b'\n' || b[self.i] == b'\t') {
            self.i += 1;
        }
    }
    pub fn rest(&self) -> &'static str {
        &self.s[self.i..]
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.as_bytes().get(self.i).unwrap_or(&0)
    }
    pub fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.rest().starts_with(t) {
            // word boundary for identifiers
            if t.as_bytes().last().is_some_and(|c| c.is_ascii_alphanumeric()) {
                let n = self.s.as_bytes().get(self.i + t.len()).copied().unwrap_or(b' ');
                if is_id(n) {
                    return false;
                }
            }
            self.i += t.len();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) { Ok(()) } else { self.err(&format!("expected `{t}`")) }
    }
    pub fn word(&mut self) -> &'static str {
        self.ws();
        let b = self.s.as_bytes();
        let st = self.i;
        while self.i < b.len() && is_id(b[self.i]) {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    pub fn peek_word(&mut self) -> &'static str {
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }
    /// name after % or @ sigil
    pub fn name(&mut self) -> R<&'static str> {
        self.ws();
        let (n, rest) = split_name(&self.s[self.i..])?;
        self.i = self.s.len() - rest.len();
        Ok(n)
    }
    pub fn skip_parens(&mut self) -> R<()> {
        self.ws();
        let b = self.s.as_bytes();
        if b.get(self.i) != Some(&b'(') {
            return Ok(());
        }
        let mut d = 0;
        let mut q = false;
        while self.i < b.len() {
            match b[self.i] {
                b'"' => q = !q,
                b'(' if !q => d += 1,
                b')' if !q => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return Ok(());
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
        self.err("parens")
    }
    pub fn uint(&mut self) -> R<u64> {
        self.ws();
        let b = self.s.as_bytes();
        let st = self.i;
        while self.i < b.len() && b[self.i].is_ascii_digit() {
            self.i += 1;
        }
        self.s[st..self.i].parse().map_err(|_| format!("uint at {}", &self.s[st..]))
    }
    pub fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' => true,
            b'%' => true,
            b'i' => {
                let w = self.peek_word();
                w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())
            }
            b'p' => self.peek_word() == "ptr",
            b'v' => self.peek_word() == "void",
            b'f' => self.peek_word() == "float",
            b'd' => self.peek_word() == "double",
            b'm' => self.peek_word() == "metadata",
            b'l' => self.peek_word() == "label",
            _ => false,
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let f = self.tylist("}")?;
                Ok(Ty::Struct(f, false))
            }
            b'[' => {
                self.i += 1;
                let n = self.uint()?;
                self.expect("x")?;
                let t = self.ty()?;
                self.expect("]")?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            b'<' => {
                self.i += 1;
                if self.eat("{") {
                    let f = self.tylist("}")?;
                    self.expect(">")?;
                    return Ok(Ty::Struct(f, true));
                }
                let n = self.uint()?;
                self.expect("x")?;
                let t = self.ty()?;
                self.expect(">")?;
                Ok(Ty::Vec(n, Rc::new(t)))
            }
            b'%' => {
                let n = self.name()?;
                let d = *self.m.types.get(n).ok_or_else(|| format!("type %{n}"))?;
                P::new(d, self.m).ty()
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.eat("addrspace") {
                            self.skip_parens()?;
                        }
                        Ok(Ty::Ptr)
                    }
                    "void" => Ok(Ty::Void),
                    "float" => Ok(Ty::Float),
                    "double" => Ok(Ty::Double),
                    "metadata" => Ok(Ty::Meta),
                    "label" => Ok(Ty::Label),
                    _ if w.starts_with('i') => w[1..]
                        .parse()
                        .map(Ty::Int)
                        .map_err(|_| format!("type {w} in {}", &self.s[..self.s.len().min(160)])),
                    _ => self.err(&format!("type `{w}`")),
                }
            }
        }
    }
    fn tylist(&mut self, end: &str) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.expect(",")?;
        }
    }
    /// skip parameter / return attributes up to an operand or type
    pub fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                b'"' => {
                    // "k"="v"
                    let r = self.rest();
                    let e = r[1..].find('"').ok_or("attr quote")? + 2;
                    self.i += e;
                    if self.eat("=") {
                        let r = self.rest();
                        let e = r[1..].find('"').ok_or("attr quote")? + 2;
                        self.i += e;
                    }
                }
                c if c.is_ascii_lowercase() => {
                    if self.at_type() {
                        return Ok(());
                    }
                    let w = self.peek_word();
                    match w {
                        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer"
                        | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "getelementptr" | "splat" | "c" | "asm"
                        | "sub" | "add" | "trunc" | "bitcast" | "select" | "xor" | "and" | "or"
                        | "mul" | "shl" | "lshr" | "dso_local_equivalent" | "no_cfi" => return Ok(()),
                        _ => {}
                    }
                    self.word();
                    if w == "align" && self.peek() != b'(' {
                        self.uint()?;
                    } else if self.s.as_bytes().get(self.i) == Some(&b'(') {
                        self.skip_parens()?;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    pub fn cv(&mut self, t: &Ty) -> R<Cv> {
        match self.peek() {
            b'@' => {
                let n = self.name()?;
                Ok(Cv::Int(self.m.addr_of(n)? as u128))
            }
            b'-' | b'0'..=b'9' => {
                let neg = self.eat("-");
                let st = self.i;
                let b = self.s.as_bytes();
                if self.rest().starts_with("0x") {
                    self.i += 2;
                    while self.i < b.len() && b[self.i].is_ascii_hexdigit() {
                        self.i += 1;
                    }
                    let v = u128::from_str_radix(&self.s[st + 2..self.i], 16).map_err(|e| e.to_string())?;
                    // a float constant is written as the double of the same value
                    return Ok(Cv::Int(if *t == Ty::Float { (f64::from_bits(v as u64) as f32).to_bits() as u128 } else { v }));
                }
                while self.i < b.len() && (b[self.i].is_ascii_digit() || b[self.i] == b'.' || b[self.i] == b'e' || b[self.i] == b'+' || (b[self.i] == b'-' && b[self.i - 1] == b'e')) {
                    self.i += 1;
                }
                let txt = &self.s[st..self.i];
                if matches!(t, Ty::Double | Ty::Float) {
                    let f: f64 = txt.parse().map_err(|_| format!("float {txt}"))?;
                    let f = if neg { -f } else { f };
                    return Ok(Cv::Int(if *t == Ty::Double { f.to_bits() as u128 } else { (f as f32).to_bits() as u128 }));
                }
                let v: u128 = txt.parse().map_err(|_| format!("int {txt}"))?;
                let v = if neg { v.wrapping_neg() } else { v };
                let w = t.bits();
                let v = if w < 128 { v & ((1u128 << w) - 1) } else { v };
                Ok(Cv::Int(v))
            }
            b'{' => {
                self.i += 1;
                self.agg("}")
            }
            b'[' => {
                self.i += 1;
                self.agg("]")
            }
            b'<' => {
                self.i += 1;
                if self.eat("{") {
                    let a = self.agg("}")?;
                    self.expect(">")?;
                    return Ok(a);
                }
                self.agg(">")
            }
            _ => {
                let w = self.word();
                match w {
                    "null" | "zeroinitializer" => Ok(Cv::Zero),
                    "undef" | "poison" => Ok(Cv::Undef),
                    "true" => Ok(Cv::Int(1)),
                    "false" => Ok(Cv::Int(0)),
                    "c" => {
                        let b = self.s.as_bytes();
                        self.i += 1;
                        let mut o = vec![];
                        while b[self.i] != b'"' {
                            if b[self.i] == b'\\' {
                                if b[self.i + 1] == b'\\' {
                                    o.push(b'\\');
                                    self.i += 2;
                                } else {
                                    o.push(u8::from_str_radix(&self.s[self.i + 1..self.i + 3], 16).map_err(|e| e.to_string())?);
                                    self.i += 3;
                                }
                            } else {
                                o.push(b[self.i]);
                                self.i += 1;
                            }
                        }
                        self.i += 1;
                        Ok(Cv::Bytes(o))
                    }
                    "splat" => {
                        self.expect("(")?;
                        let et = self.ty()?;
                        let v = self.cv(&et)?;
                        self.expect(")")?;
                        let Ty::Vec(n, _) = t else { return self.err("splat") };
                        Ok(Cv::Agg((0..*n).map(|_| (et.clone(), v.clone())).collect()))
                    }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                        self.expect("(")?;
                        let t1 = self.ty()?;
                        let rest = &self.s[self.i..];
                        let rel = w == "trunc" && rest.trim_start().starts_with("sub") && rest.contains("ptrtoint");
                        let v = self.cv(&t1)?;
                        self.expect("to")?;
                        let t2 = self.ty()?;
                        self.expect(")")?;
                        let i = cvint(&v)?;
                        let w = t2.bits();
                        if rel {
                            // an entry of a table of relative addresses: see Intr::LoadRel
                            let d = i as i64;
                            let (id, off) = (d.wrapping_add(1 << 31) >> 32, d as i32 as i64);
                            if w != 32 || !(-1 << 15..1 << 15).contains(&id) || !(-1 << 15..1 << 15).contains(&off) {
                                return self.err("relative address");
                            }
                            return Ok(Cv::Int(((id << 16 | off & 0xffff) as u32) as u128));
                        }
                        Ok(Cv::Int(if w < 128 { i & ((1u128 << w) - 1) } else { i }))
                    }
                    "getelementptr" => {
                        while !matches!(self.peek(), b'(') {
                            let w = self.word();
                            if w == "inrange" {
                                self.skip_parens()?;
                            }
                        }
                        self.expect("(")?;
                        let mut t1 = self.ty()?;
                        self.expect(",")?;
                        let pt = self.ty()?;
                        let base = self.cv(&pt)?;
                        let mut a = cvint(&base)? as u64;
                        let mut first = true;
                        while self.eat(",") {
                            let it = self.ty()?;
                            let iv = self.cv(&it)?;
                            let w = it.bits();
                            let raw = cvint(&iv)? as u64;
                            let ix = if w < 64 { ((raw << (64 - w)) as i64) >> (64 - w) } else { raw as i64 };
                            if first {
                                a = a.wrapping_add((ix as u64).wrapping_mul(t1.size()));
                                first = false;
                            } else {
                                a = a.wrapping_add(t1.field_off(ix as u64));
                                t1 = t1.field(ix as u64);
                            }
                        }
                        self.expect(")")?;
                        Ok(Cv::Int(a as u128))
                    }
                    "sub" | "add" | "mul" | "xor" | "and" | "or" | "shl" => {
                        while !matches!(self.peek(), b'(') {
                            self.word();
                        }
                        self.expect("(")?;
                        let t1 = self.ty()?;
                        let a = cvint(&self.cv(&t1)?)?;
                        self.expect(",")?;
                        let t2 = self.ty()?;
                        let b = cvint(&self.cv(&t2)?)?;
                        self.expect(")")?;
                        let r = match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            "mul" => a.wrapping_mul(b),
                            "xor" => a ^ b,
                            "and" => a & b,
                            "or" => a | b,
                            _ => a << (b as u32 & 127),
                        };
                        let w = t1.bits();
                        Ok(Cv::Int(if w < 128 { r & ((1u128 << w) - 1) } else { r }))
                    }
                    _ => self.err(&format!("constant `{w}`")),
                }
            }
        }
    }
    fn agg(&mut self, end: &str) -> R<Cv> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(Cv::Agg(v));
        }
        loop {
            let t = self.ty()?;
            let c = self.cv(&t)?;
            v.push((t, c));
            if self.eat(end) {
                return Ok(Cv::Agg(v));
            }
            self.expect(",")?;
        }
    }
}

pub fn cvint(c: &Cv) -> R<u128> {
    match c {
        Cv::Int(v) => Ok(*v),
        Cv::Zero | Cv::Undef => Ok(0),
        _ => Err(format!("not an int constant: {c:?}")),
    }
}

/// write constant `c` of type `t` into `out` (already zeroed, of t.size())
pub fn write_cv(t: &Ty, c: &Cv, out: &mut [u8]) -> R<()> {
    match c {
        Cv::Zero | Cv::Undef => Ok(()),
        Cv::Bytes(b) => {
            out[..b.len()].copy_from_slice(b);
            Ok(())
        }
        Cv::Int(v) => {
            let n = (t.bits() as usize).div_ceil(8);
            out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            Ok(())
        }
        Cv::Agg(fs) => {
            for (i, (ft, fc)) in fs.iter().enumerate() {
                let o = t.field_off(i as u64) as usize;
                let n = ft.size() as usize;
                write_cv(ft, fc, &mut out[o..o + n])?;
            }
            Ok(())
        }
    }
}
