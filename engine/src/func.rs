//! Compiles one IR function body into the flat instruction form the executor runs.
use crate::expr::{Op, mask_w};
use crate::ll::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum Opnd {
    R(u32),
    C(u64),
    K(Rc<Vec<Opnd>>), // aggregate / vector constant
    W(u128),
}

#[derive(Debug, Clone)]
pub struct Edge {
    pub ip: u32,
    pub block: u32,
    pub moves: Vec<(u32, Opnd)>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Debug, Clone)]
pub enum Mem {
    Int(u32),             // bit width
    Vec(u64, u32),        // lanes, lane bits
    Struct(Vec<(u64, Mem)>),
}

/// floating-point operations, on concrete values only
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fl {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
    Abs,
    Floor,
    Ceil,
    Trunc,
    Round,
    RoundEven,
    Sqrt,
    Min,
    Max,
    /// the ordered result for less, equal, greater, and the one for unordered
    Cmp([bool; 4]),
    FromU,
    FromS,
    ToU,
    ToS,
    Conv,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Fn(u32),
    Intr(Intr, u32),
    Ext(&'static str),
    Ind(Opnd),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Umin,
    Umax,
    Smin,
    Smax,
    Fshl,
    Fshr,
    Ctpop,
    Cttz,
    Ctlz,
    Bswap,
    BitReverse,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UsubSat,
    UaddSat,
    Ucmp,
    Scmp,
    Abs,
    Trap,
    False,
    Ident,
    LoadRel,
    /// operation, operand width
    Float(Fl, u8),
}

#[derive(Debug, Clone)]
pub enum I {
    Bin(Op, u8, u32, Opnd, Opnd),
    Icmp(Pred, u8, u32, Opnd, Opnd),
    Zext(u8, u8, u32, Opnd),
    Sext(u8, u8, u32, Opnd),
    Trunc(u8, u8, u32, Opnd),
    /// operation, operand and result width
    Float(Fl, u8, u8, u32, Opnd, Opnd),
    Bitcast(Ty, Ty, u32, Opnd),
    Copy(u32, Opnd),
    Select(u8, u32, Opnd, Opnd, Opnd),
    Load(Mem, u32, Opnd),
    Store(Mem, Opnd, Opnd),
    Gep(u32, Opnd, i64, Vec<(Opnd, i64, u8)>),
    FrameAddr(u32, u32), // dst, offset
    Call(Option<u32>, Callee, Vec<Opnd>, u8, Option<Box<Edge>>),
    Br(Box<Edge>),
    Cond(Opnd, Box<Edge>, Box<Edge>),
    Switch(u8, Opnd, Vec<(u64, Edge)>, Box<Edge>),
    Ret(Option<Opnd>),
    Unreachable,
    Extract(u32, Opnd, Vec<u32>),
    Insert(u32, Opnd, Opnd, Vec<u32>, Ty),
    ExtractEl(u32, Opnd, Opnd),
    InsertEl(u32, Opnd, Opnd, Opnd, u64),
    Shuffle(u32, Opnd, Opnd, Vec<i64>),
    AtomicRmw(u8, &'static str, u32, Opnd, Opnd),
    CmpXchg(u8, u32, Opnd, Opnd, Opnd),
    Unsupported(&'static str),
}

pub struct Func {
    pub name: &'static str,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub frame_size: u32,
    pub code: Vec<I>,
    pub panics: bool,
}

pub fn mem_of(t: &Ty) -> R<Mem> {
    Ok(match t {
        Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => Mem::Int(t.bits()),
        Ty::Vec(n, e) => Mem::Vec(*n, e.bits()),
        Ty::Struct(f, _) => {
            let mut v = vec![];
            for (i, x) in f.iter().enumerate() {
                v.push((t.field_off(i as u64), mem_of(x)?));
            }
            Mem::Struct(v)
        }
        Ty::Arr(n, e) => {
            let mut v = vec![];
            for i in 0..*n {
                v.push((i * e.size(), mem_of(e)?));
            }
            Mem::Struct(v)
        }
        t => return Err(format!("memory type {t:?}")),
    })
}

struct C<'m> {
    m: &'m Module,
    regs: HashMap<&'static str, u32>,
    blocks: HashMap<&'static str, u32>,
    frame: u64,
    nregs: u32,
    pairs: HashMap<u32, (u32, u32)>,
}

fn float_intrinsic(n: &str) -> Option<Intr> {
    let (name, w) = if let Some(x) = n.strip_suffix(".f64") { (x, 64) } else { (n.strip_suffix(".f32")?, 32) };
    let f = match name {
        "fabs" => Fl::Abs,
        "floor" => Fl::Floor,
        "ceil" => Fl::Ceil,
        "trunc" => Fl::Trunc,
        "round" => Fl::Round,
        "roundeven" | "rint" | "nearbyint" => Fl::RoundEven,
        "sqrt" => Fl::Sqrt,
        "minnum" | "minimumnum" => Fl::Min,
        "maxnum" | "maximumnum" => Fl::Max,
        x if x.starts_with("fptoui.sat.") => Fl::ToU,
        x if x.starts_with("fptosi.sat.") => Fl::ToS,
        _ => return None,
    };
    Some(Intr::Float(f, w))
}

fn intrinsic(n: &str) -> Option<Intr> {
    let n = n.strip_prefix("llvm.")?;
    let p = |s: &str| n.starts_with(s);
    Some(if p("lifetime") || p("assume") || p("experimental.noalias") || p("prefetch") || p("dbg") || p("donothing") || p("sideeffect") || p("x86.sse2.pause") || p("invariant") || p("fake.use") {
        Intr::Nop
    } else if p("memcpy") || p("memmove") {
        Intr::Memcpy
    } else if p("memset") {
        Intr::Memset
    } else if p("umin") {
        Intr::Umin
    } else if p("umax") {
        Intr::Umax
    } else if p("smin") {
        Intr::Smin
    } else if p("smax") {
        Intr::Smax
    } else if p("fshl") {
        Intr::Fshl
    } else if p("fshr") {
        Intr::Fshr
    } else if p("ctpop") {
        Intr::Ctpop
    } else if p("cttz") {
        Intr::Cttz
    } else if p("ctlz") {
        Intr::Ctlz
    } else if p("bswap") {
        Intr::Bswap
    } else if p("bitreverse") {
        Intr::BitReverse
    } else if p("uadd.with") {
        Intr::UaddO
    } else if p("usub.with") {
        Intr::UsubO
    } else if p("umul.with") {
        Intr::UmulO
    } else if p("sadd.with") {
        Intr::SaddO
    } else if p("ssub.with") {
        Intr::SsubO
    } else if p("smul.with") {
        Intr::SmulO
    } else if p("usub.sat") {
        Intr::UsubSat
    } else if p("uadd.sat") {
        Intr::UaddSat
    } else if p("ucmp") {
        Intr::Ucmp
    } else if p("scmp") {
        Intr::Scmp
    } else if p("abs") {
        Intr::Abs
    } else if p("trap") {
        Intr::Trap
    } else if p("is.constant") {
        Intr::False
    } else if p("expect") || p("threadlocal.address") || p("launder") || p("strip.inv") || p("ptrmask") {
        Intr::Ident
    } else if p("load.relative") {
        Intr::LoadRel
    } else if let Some(f) = float_intrinsic(n) {
        f
    } else {
        return None;
    })
}

impl<'m> C<'m> {
    fn reg(&mut self, n: &'static str) -> u32 {
        if let Some(k) = self.regs.get(n) {
            return *k;
        }
        let k = self.fresh();
        self.regs.insert(n, k);
        k
    }
    fn fresh(&mut self) -> u32 {
        self.nregs += 1;
        self.nregs - 1
    }
    fn opnd(&mut self, p: &mut P<'m>, t: &Ty) -> R<Opnd> {
        if p.peek() == b'%' {
            let n = p.name()?;
            return Ok(Opnd::R(self.reg(n)));
        }
        let c = p.cv(t)?;
        self.konst(t, &c)
    }
    fn konst(&self, t: &Ty, c: &Cv) -> R<Opnd> {
        Ok(match t {
            Ty::Int(w) if *w > 64 => Opnd::W(cvint(c)?),
            Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => Opnd::C(cvint(c)? as u64),
            Ty::Vec(n, _) | Ty::Arr(n, _) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.sub(t, c, i)?);
                }
                Opnd::K(Rc::new(v))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() as u64 {
                    v.push(self.sub(t, c, i)?);
                }
                Opnd::K(Rc::new(v))
            }
            Ty::Void | Ty::Meta | Ty::Label => Opnd::C(0),
        })
    }
    fn sub(&self, t: &Ty, c: &Cv, i: u64) -> R<Opnd> {
        let ft = t.field(i);
        match c {
            Cv::Agg(fs) => self.konst(&ft, &fs[i as usize].1),
            Cv::Bytes(b) => Ok(Opnd::C(b[i as usize] as u64)),
            Cv::Zero | Cv::Undef => self.konst(&ft, &Cv::Zero),
            Cv::Int(_) => Err("aggregate from int".into()),
        }
    }
    fn label(&mut self, p: &mut P<'m>) -> R<u32> {
        p.expect("label")?;
        let n = p.name()?;
        self.blocks.get(n).copied().ok_or_else(|| format!("label {n}"))
    }
}

fn edge(b: u32) -> Box<Edge> {
    Box::new(Edge { ip: 0, block: b, moves: vec![] })
}

pub fn parse_params(m: &Module, header: &'static str) -> R<(Ty, Vec<(Ty, Option<&'static str>)>)> {
    // find '@name(' then parse the list
    let mut p = P::new(header, m);
    p.word(); // define/declare
    loop {
        // linkage words / cconv / attributes until a type
        if p.at_type() {
            break;
        }
        if p.peek() == b'"' {
            p.skip_attrs()?;
            continue;
        }
        let w = p.word();
        if w.is_empty() {
            return p.err("function header");
        }
        if w == "align" && p.peek() != b'(' {
            p.uint()?;
        } else if p.s.as_bytes().get(p.i) == Some(&b'(') {
            p.skip_parens()?;
        }
    }
    let ret = p.ty()?;
    p.name()?;
    p.expect("(")?;
    let mut v = vec![];
    if !p.eat(")") {
        loop {
            if p.eat("...") {
                p.expect(")")?;
                break;
            }
            let t = p.ty()?;
            p.skip_attrs()?;
            let n = if p.peek() == b'%' { Some(p.name()?) } else { None };
            v.push((t, n));
            if p.eat(")") {
                break;
            }
            p.expect(",")?;
        }
    }
    Ok((ret, v))
}

pub fn compile(m: &'static Module, idx: u32) -> R<Func> {
    match compile2(m, idx, true)? {
        Some(f) => Ok(f),
        None => compile2(m, idx, false)?.ok_or_else(|| "overflow pair".to_string()),
    }
}

fn compile2(m: &'static Module, idx: u32, split: bool) -> R<Option<Func>> {
    let (name, header, body) = m.funcs[idx as usize];
    let mut c = C { m, regs: HashMap::new(), blocks: HashMap::new(), frame: 0, nregs: 0, pairs: HashMap::new() };
    let (_, ps) = parse_params(m, header)?;
    let mut params = vec![];
    let mut unnamed = 0u32;
    for (k, (_, n)) in ps.iter().enumerate() {
        let n = n.unwrap_or_else(|| Box::leak(k.to_string().into_boxed_str()));
        if n.bytes().all(|b| b.is_ascii_digit()) {
            unnamed += 1;
        }
        params.push(c.reg(n));
    }
    // logical lines
    let mut lines: Vec<&'static str> = vec![];
    {
        let mut pos = 0;
        while pos < body.len() {
            let mut eol = body[pos..].find('\n').map(|x| pos + x).unwrap_or(body.len());
            let l = &body[pos..eol];
            let t = l.trim_start();
            let ins = t.split_once(" = ").map(|x| x.1).unwrap_or(t);
            if t.starts_with("switch ") {
                let e = body[pos..].find("\n  ]").map(|x| pos + x + 4).ok_or("switch end")?;
                eol = body[e..].find('\n').map(|x| e + x).unwrap_or(body.len());
            } else if ins.starts_with("invoke ") {
                let e = eol + 1;
                eol = body[e..].find('\n').map(|x| e + x).unwrap_or(body.len());
            }
            let l = &body[pos..eol];
            let t = l.trim_start();
            if !(t.is_empty() || t.starts_with(';') || t.starts_with('#')) {
                lines.push(l);
            }
            pos = eol + 1;
        }
    }
    // pass 1: labels
    let is_label = |l: &str| !l.starts_with(' ') && !l.starts_with('\t');
    let mut nb = 0u32;
    if lines.first().is_none_or(|l| !is_label(l)) {
        let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
        c.blocks.insert(n, 0);
        nb = 1;
    }
    for l in &lines {
        if is_label(l) {
            let n = if l.starts_with('"') {
                let e = l[1..].find('"').ok_or("label")? + 1;
                &l[1..e]
            } else {
                let e = l.find(':').ok_or_else(|| format!("label {l}"))?;
                &l[..e]
            };
            c.blocks.insert(n, nb);
            nb += 1;
        }
    }
    let mut code: Vec<I> = vec![];
    let mut bstart = vec![0u32; nb as usize];
    let mut phis: Vec<Vec<(u32, Vec<(Opnd, u32)>)>> = vec![vec![]; nb as usize];
    let mut cur: i64 = if lines.first().is_none_or(|l| !is_label(l)) { 0 } else { -1 };
    let mut bof: Vec<u32> = vec![]; // block of each instruction
    for l in &lines {
        if is_label(l) {
            cur += 1;
            bstart[cur as usize] = code.len() as u32;
            continue;
        }
        let mut p = P::new(l, m);
        let mut dst = None;
        if p.peek() == b'%' {
            let n = p.name()?;
            p.expect("=")?;
            dst = Some(c.reg(n));
        }
        if p.peek_word() == "phi" {
            p.word();
            skip_flags(&mut p);
            let t = p.ty()?;
            let mut inc = vec![];
            loop {
                p.expect("[")?;
                let o = c.opnd(&mut p, &t)?;
                p.expect(",")?;
                let n = p.name()?;
                p.expect("]")?;
                let b = *c.blocks.get(n).ok_or_else(|| format!("phi label {n}"))?;
                inc.push((o, b));
                if !p.eat(",") || p.peek() == b'!' {
                    break;
                }
            }
            phis[cur as usize].push((dst.unwrap(), inc));
            continue;
        }
        match instr(&mut c, &mut p, dst) {
            Ok(Some(I::Call(Some(d), Callee::Intr(k @ (Intr::UaddO | Intr::UsubO), _), args, w, None))) if split && w <= 64 => {
                // value and overflow flag as two scalar registers
                let (r0, r1) = (c.fresh(), c.fresh());
                let (x, y) = (args[0].clone(), args[1].clone());
                if k == Intr::UaddO {
                    code.push(I::Bin(Op::Add, w, r0, x.clone(), y));
                    code.push(I::Icmp(Pred::Ult, w, r1, Opnd::R(r0), x));
                } else {
                    code.push(I::Bin(Op::Sub, w, r0, x.clone(), y.clone()));
                    code.push(I::Icmp(Pred::Ult, w, r1, x, y));
                }
                bof.push(cur as u32);
                bof.push(cur as u32);
                c.pairs.insert(d, (r0, r1));
            }
            Ok(Some(I::Extract(d, Opnd::R(a), ix))) if ix.len() == 1 && c.pairs.contains_key(&a) => {
                let (r0, r1) = c.pairs[&a];
                code.push(I::Copy(d, Opnd::R(if ix[0] == 0 { r0 } else { r1 })));
                bof.push(cur as u32);
            }
            Ok(Some(i)) => {
                code.push(i);
                bof.push(cur as u32);
            }
            Ok(None) => {}
            Err(e) => {
                // only fatal if executed
                code.push(I::Unsupported(Box::leak(format!("{e} [{}]", l.trim()).into_boxed_str())));
                bof.push(cur as u32);
            }
        }
    }
    // link edges
    let fix = |e: &mut Edge, from: u32| -> R<()> {
        e.ip = bstart[e.block as usize];
        for (d, inc) in &phis[e.block as usize] {
            let o = inc
                .iter()
                .find(|(_, b)| *b == from)
                .ok_or_else(|| format!("phi without edge from {from} in {name}"))?;
            e.moves.push((*d, o.0.clone()));
        }
        Ok(())
    };
    for (i, ins) in code.iter_mut().enumerate() {
        let from = bof[i];
        match ins {
            I::Br(e) => fix(e, from)?,
            I::Cond(_, a, b) => {
                fix(a, from)?;
                fix(b, from)?;
            }
            I::Switch(_, _, cs, d) => {
                for (_, e) in cs.iter_mut() {
                    fix(e, from)?;
                }
                fix(d, from)?;
            }
            I::Call(_, _, _, _, Some(e)) => fix(e, from)?,
            _ => {}
        }
    }
    if !c.pairs.is_empty() && crate::regalloc::uses_any(&code, &c.pairs) {
        return Ok(None);
    }
    let mut f = Func {
        name,
        nregs: c.nregs,
        params,
        frame_size: c.frame as u32,
        code,
        panics: crate::exec::is_panic(name),
    };
    crate::regalloc::allocate(&mut f);
    Ok(Some(f))
}

fn skip_flags(p: &mut P) {
    loop {
        let w = p.peek_word();
        match w {
            "nuw" | "nsw" | "exact" | "inbounds" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn"
            | "reassoc" | "fast" | "disjoint" | "nneg" | "samesign" | "nusw" | "volatile" | "atomic" | "weak" => {
                p.word();
            }
            "inrange" => {
                p.word();
                let _ = p.skip_parens();
            }
            _ => return,
        }
    }
}

fn float_width(t: &Ty) -> R<u8> {
    match t {
        Ty::Float => Ok(32),
        Ty::Double => Ok(64),
        _ => Err("arithmetic on a vector of floats".into()),
    }
}

fn instr<'m>(c: &mut C<'m>, p: &mut P<'m>, dst: Option<u32>) -> R<Option<I>> {
    let mut w = p.word();
    if matches!(w, "tail" | "musttail" | "notail") {
        w = p.word();
    }
    let d = dst.unwrap_or(u32::MAX);
    Ok(Some(match w {
        "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            skip_flags(p);
            let t = p.ty()?;
            let a = c.opnd(p, &t)?;
            p.expect(",")?;
            let b = c.opnd(p, &t)?;
            let op = match w {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::Udiv,
                "urem" => Op::Urem,
                "sdiv" => Op::Sdiv,
                "srem" => Op::Srem,
                "shl" => Op::Shl,
                "lshr" => Op::Lshr,
                "ashr" => Op::Ashr,
                "and" => Op::And,
                "or" => Op::Or,
                _ => Op::Xor,
            };
            let wd = match &t {
                Ty::Vec(_, e) => e.bits(),
                t => t.bits(),
            };
            I::Bin(op, wd as u8, d, a, b)
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
            skip_flags(p);
            let t = p.ty()?;
            let wd = float_width(&t)?;
            let a = c.opnd(p, &t)?;
            let b = if w == "fneg" {
                Opnd::C(0)
            } else {
                p.expect(",")?;
                c.opnd(p, &t)?
            };
            let f = match w {
                "fadd" => Fl::Add,
                "fsub" => Fl::Sub,
                "fmul" => Fl::Mul,
                "fdiv" => Fl::Div,
                "frem" => Fl::Rem,
                _ => Fl::Neg,
            };
            I::Float(f, wd, wd, d, a, b)
        }
        "fcmp" => {
            skip_flags(p);
            let pr = p.word();
            let (u, k) = pr.split_at(1);
            let un = u == "u";
            let m = match k {
                "eq" => [false, true, false, un],
                "ne" => [true, false, true, un],
                "lt" => [true, false, false, un],
                "le" => [true, true, false, un],
                "gt" => [false, false, true, un],
                "ge" => [false, true, true, un],
                "rd" => [true, true, true, false],
                "no" => [false, false, false, true],
                _ => return Err(format!("fcmp {pr}")),
            };
            let t = p.ty()?;
            let wd = float_width(&t)?;
            let a = c.opnd(p, &t)?;
            p.expect(",")?;
            I::Float(Fl::Cmp(m), wd, 1, d, a, c.opnd(p, &t)?)
        }
        "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
            skip_flags(p);
            let t = p.ty()?;
            let a = c.opnd(p, &t)?;
            p.expect("to")?;
            let t2 = p.ty()?;
            if matches!(t, Ty::Vec(..)) {
                return Err(format!("{w} of a vector"));
            }
            let f = match w {
                "uitofp" => Fl::FromU,
                "sitofp" => Fl::FromS,
                "fptoui" => Fl::ToU,
                "fptosi" => Fl::ToS,
                _ => Fl::Conv,
            };
            I::Float(f, t.bits() as u8, t2.bits() as u8, d, a, Opnd::C(0))
        }
        "icmp" => {
            skip_flags(p);
            let pr = match p.word() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                o => return Err(format!("icmp {o}")),
            };
            let t = p.ty()?;
            let a = c.opnd(p, &t)?;
            p.expect(",")?;
            let b = c.opnd(p, &t)?;
            let wd = match &t {
                Ty::Vec(_, e) => e.bits(),
                t => t.bits(),
            };
            I::Icmp(pr, wd as u8, d, a, b)
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
            skip_flags(p);
            let t = p.ty()?;
            let a = c.opnd(p, &t)?;
            p.expect("to")?;
            let t2 = p.ty()?;
            let eb = |t: &Ty| match t {
                Ty::Vec(_, e) => e.bits(),
                t => t.bits(),
            };
            let (sw, dw) = (eb(&t) as u8, eb(&t2) as u8);
            match w {
                "zext" => I::Zext(sw, dw, d, a),
                "sext" => I::Sext(sw, dw, d, a),
                "trunc" => I::Trunc(sw, dw, d, a),
                "bitcast" => {
                    if matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..)) {
                        I::Bitcast(t, t2, d, a)
                    } else {
                        I::Copy(d, a)
                    }
                }
                _ => {
                    if dw < sw {
                        I::Trunc(sw, dw, d, a)
                    } else if dw > sw {
                        I::Zext(sw, dw, d, a)
                    } else {
                        I::Copy(d, a)
                    }
                }
            }
        }
        "freeze" => {
            let t = p.ty()?;
            let a = c.opnd(p, &t)?;
            I::Copy(d, a)
        }
        "select" => {
            skip_flags(p);
            let ct = p.ty()?;
            let cond = c.opnd(p, &ct)?;
            p.expect(",")?;
            let t = p.ty()?;
            let a = c.opnd(p, &t)?;
            p.expect(",")?;
            let t2 = p.ty()?;
            let b = c.opnd(p, &t2)?;
            I::Select(t.bits() as u8, d, cond, a, b)
        }
        "load" => {
            skip_flags(p);
            let t = p.ty()?;
            p.expect(",")?;
            let pt = p.ty()?;
            let a = c.opnd(p, &pt)?;
            I::Load(mem_of(&t)?, d, a)
        }
        "store" => {
            skip_flags(p);
            let t = p.ty()?;
            let v = c.opnd(p, &t)?;
            p.expect(",")?;
            let pt = p.ty()?;
            let a = c.opnd(p, &pt)?;
            I::Store(mem_of(&t)?, v, a)
        }
        "getelementptr" => {
            skip_flags(p);
            let mut t = p.ty()?;
            p.expect(",")?;
            let pt = p.ty()?;
            let base = c.opnd(p, &pt)?;
            let mut off = 0i64;
            let mut sc = vec![];
            let mut first = true;
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                let it = p.ty()?;
                let ix = c.opnd(p, &it)?;
                let iw = it.bits() as u8;
                match ix {
                    Opnd::C(v) => {
                        let v = crate::expr::sext(v, iw);
                        if first {
                            off += v * t.size() as i64;
                        } else {
                            off += t.field_off(v as u64) as i64;
                            t = t.field(v as u64);
                        }
                    }
                    ix => {
                        let s = if first {
                            t.size() as i64
                        } else {
                            let e = t.field(0);
                            let s = e.size() as i64;
                            t = e;
                            s
                        };
                        sc.push((ix, s, iw));
                    }
                }
                first = false;
            }
            I::Gep(d, base, off, sc)
        }
        "alloca" => {
            let t = p.ty()?;
            let mut al = t.align();
            while p.eat(",") {
                if p.eat("align") {
                    al = p.uint()?;
                } else if p.peek() == b'!' {
                    break;
                } else {
                    return Err("dynamic alloca".into());
                }
            }
            let al = al.max(1);
            c.frame = c.frame.div_ceil(al) * al;
            let o = c.frame;
            c.frame += t.size().max(1) + 8;
            I::FrameAddr(d, o as u32)
        }
        "call" | "invoke" => {
            let mut guard = 0;
            // fast-math flags, calling convention, return attributes
            loop {
                p.skip_attrs()?;
                if p.at_type() {
                    break;
                }
                guard += 1;
                if guard > 20 {
                    return p.err("call prefix");
                }
                p.word();
            }
            let rt = p.ty()?;
            if p.peek() == b'(' {
                p.skip_parens()?;
            }
            if p.peek_word() == "asm" {
                // inline assembly: only empty barriers are supported
                return Ok(Some(I::Unsupported("inline asm")));
            }
            let callee = match p.peek() {
                b'@' => {
                    let n = p.name()?;
                    if n.starts_with("llvm.") {
                        match intrinsic(n) {
                            Some(i) => Callee::Intr(i, rt.bits()),
                            None => Callee::Ext(n),
                        }
                    } else if let Some(&f) = c.m.fidx.get(n) {
                        if c.m.funcs[f as usize].2.is_empty() { Callee::Ext(n) } else { Callee::Fn(f) }
                    } else {
                        let a = c.m.addr_of(n)?;
                        if a >= FN_BASE { Callee::Fn(((a & 0xffff_ffff_ffff) >> 4) as u32) } else { return Err(format!("callee {n}")) }
                    }
                }
                b'%' => {
                    let n = p.name()?;
                    Callee::Ind(Opnd::R(c.reg(n)))
                }
                _ => {
                    let v = p.cv(&Ty::Ptr)?;
                    Callee::Ind(Opnd::C(cvint(&v)? as u64))
                }
            };
            p.expect("(")?;
            let mut args = vec![];
            if !p.eat(")") {
                loop {
                    let t = p.ty()?;
                    if t == Ty::Meta {
                        // metadata operand: skip to , or )
                        let b = p.s.as_bytes();
                        let mut dep = 0;
                        while p.i < b.len() {
                            match b[p.i] {
                                b'(' => dep += 1,
                                b')' if dep == 0 => break,
                                b')' => dep -= 1,
                                b',' if dep == 0 => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                        args.push(Opnd::C(0));
                    } else {
                        p.skip_attrs()?;
                        args.push(c.opnd(p, &t)?);
                    }
                    if p.eat(")") {
                        break;
                    }
                    p.expect(",")?;
                }
            }
            let mut normal = None;
            if w == "invoke" {
                // ... to label %x unwind label %y
                let s = p.s;
                let k = s.rfind("to label ").ok_or("invoke label")?;
                p.i = k + 3;
                let b = c.label(p)?;
                normal = Some(edge(b));
            }
            if let Callee::Intr(Intr::Nop, _) = callee {
                return Ok(match normal {
                    Some(e) => Some(I::Br(e)),
                    None => None,
                });
            }
            let aw = match callee {
                Callee::Intr(..) => rt.bits() as u8,
                _ => 0,
            };
            let aw = if let (Callee::Intr(Intr::Ucmp | Intr::Scmp, _), Some(k)) = (&callee, p.s.find("cmp.i8.i")) {
                p.s[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(64)
            } else if let Ty::Struct(f, _) = &rt {
                if matches!(callee, Callee::Intr(..)) { f[0].bits() as u8 } else { aw }
            } else {
                aw
            };
            I::Call(if rt == Ty::Void { None } else { dst }, callee, args, aw, normal)
        }
        "br" => {
            if p.peek_word() == "label" {
                let b = c.label(p)?;
                I::Br(edge(b))
            } else {
                let t = p.ty()?;
                let v = c.opnd(p, &t)?;
                p.expect(",")?;
                let a = c.label(p)?;
                p.expect(",")?;
                let b = c.label(p)?;
                I::Cond(v, edge(a), edge(b))
            }
        }
        "switch" => {
            let t = p.ty()?;
            let v = c.opnd(p, &t)?;
            p.expect(",")?;
            let dflt = c.label(p)?;
            p.expect("[")?;
            let mut cs = vec![];
            while !p.eat("]") {
                let t2 = p.ty()?;
                let k = cvint(&p.cv(&t2)?)? as u64 & mask_w(t2.bits() as u8);
                p.expect(",")?;
                let b = c.label(p)?;
                cs.push((k, *edge(b)));
            }
            cs.sort_by_key(|c| c.0);
            I::Switch(t.bits() as u8, v, cs, edge(dflt))
        }
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void {
                I::Ret(None)
            } else {
                I::Ret(Some(c.opnd(p, &t)?))
            }
        }
        "unreachable" => I::Unreachable,
        "extractvalue" => {
            let t = p.ty()?;
            let a = c.opnd(p, &t)?;
            let mut ix = vec![];
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.uint()? as u32);
            }
            I::Extract(d, a, ix)
        }
        "insertvalue" => {
            let t = p.ty()?;
            let a = c.opnd(p, &t)?;
            p.expect(",")?;
            let t2 = p.ty()?;
            let b = c.opnd(p, &t2)?;
            let mut ix = vec![];
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.uint()? as u32);
            }
            I::Insert(d, a, b, ix, t)
        }
        "extractelement" => {
            let t = p.ty()?;
            let a = c.opnd(p, &t)?;
            p.expect(",")?;
            let t2 = p.ty()?;
            let b = c.opnd(p, &t2)?;
            I::ExtractEl(d, a, b)
        }
        "insertelement" => {
            let t = p.ty()?;
            let a = c.opnd(p, &t)?;
            p.expect(",")?;
            let t2 = p.ty()?;
            let b = c.opnd(p, &t2)?;
            p.expect(",")?;
            let t3 = p.ty()?;
            let e = c.opnd(p, &t3)?;
            let Ty::Vec(n, _) = t else { return Err("insertelement".into()) };
            I::InsertEl(d, a, b, e, n)
        }
        "shufflevector" => {
            let t = p.ty()?;
            let a = c.opnd(p, &t)?;
            p.expect(",")?;
            let t2 = p.ty()?;
            let b = c.opnd(p, &t2)?;
            p.expect(",")?;
            let t3 = p.ty()?;
            let Ty::Vec(n, _) = t3 else { return Err("shuffle".into()) };
            let mask = match p.cv(&t3)? {
                Cv::Zero | Cv::Undef => vec![0; n as usize],
                Cv::Agg(v) => v
                    .iter()
                    .map(|(_, x)| match x {
                        Cv::Int(k) => *k as i64,
                        Cv::Zero => 0,
                        _ => -1,
                    })
                    .collect(),
                _ => return Err("shuffle mask".into()),
            };
            I::Shuffle(d, a, b, mask)
        }
        "atomicrmw" => {
            skip_flags(p);
            let op = p.word();
            let pt = p.ty()?;
            let a = c.opnd(p, &pt)?;
            p.expect(",")?;
            let t = p.ty()?;
            let v = c.opnd(p, &t)?;
            I::AtomicRmw(t.bits() as u8, op, d, a, v)
        }
        "cmpxchg" => {
            skip_flags(p);
            let pt = p.ty()?;
            let a = c.opnd(p, &pt)?;
            p.expect(",")?;
            let t = p.ty()?;
            let x = c.opnd(p, &t)?;
            p.expect(",")?;
            let t2 = p.ty()?;
            let y = c.opnd(p, &t2)?;
            I::CmpXchg(t.bits() as u8, d, a, x, y)
        }
        "fence" => return Ok(None),
        "landingpad" | "cleanup" | "catch" | "filter" => return Ok(None),
        "resume" => I::Unsupported("resume: unwinding reached although panic=abort"),
        o => return Err(format!("instruction {o}")),
    }))
}
