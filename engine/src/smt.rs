//! SMT-LIB2 printing, the solver process, and the shared query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

pub static QUERIES: AtomicU64 = AtomicU64::new(0);
pub static SOLVER_NS: AtomicU64 = AtomicU64::new(0);
pub static CACHE_HITS: AtomicU64 = AtomicU64::new(0);
pub static SAT: AtomicU64 = AtomicU64::new(0);
pub static UNSAT: AtomicU64 = AtomicU64::new(0);

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

impl Solver {
    pub fn new(cmd: &str) -> Result<Solver, String> {
        let mut parts = cmd.split_whitespace();
        let mut child = Command::new(parts.next().unwrap())
            .args(parts)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("cannot start solver `{cmd}`: {e}"))?;
        let mut inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        inp.write_all(b"(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
            .map_err(|e| e.to_string())?;
        Ok(Solver { child, inp, out })
    }
    fn line(&mut self) -> Result<String, String> {
        let mut s = String::new();
        let n = self.out.read_line(&mut s).map_err(|e| e.to_string())?;
        if n == 0 {
            return Err("solver closed its output".into());
        }
        Ok(s.trim().to_string())
    }
    pub fn check(&mut self, q: &str, nvars: usize, want_model: bool) -> Result<(bool, Vec<u8>), String> {
        let t = std::time::Instant::now();
        let mut s = String::with_capacity(q.len() + 64);
        s.push_str("(push 1)\n");
        s.push_str(q);
        s.push_str("(check-sat)\n");
        self.inp.write_all(s.as_bytes()).map_err(|e| e.to_string())?;
        self.inp.flush().map_err(|e| e.to_string())?;
        let r = self.line()?;
        let sat = match r.as_str() {
            "sat" => true,
            "unsat" => false,
            o => return Err(format!("solver answered `{o}` for {q}")),
        };
        let mut model = vec![];
        if sat && want_model {
            for i in 0..nvars {
                self.inp
                    .write_all(format!("(get-value (x{i}))\n").as_bytes())
                    .map_err(|e| e.to_string())?;
                self.inp.flush().map_err(|e| e.to_string())?;
                let l = self.line()?;
                // ((x0 #x2a))
                let v = l
                    .split("#x")
                    .nth(1)
                    .and_then(|h| u8::from_str_radix(&h[..2], 16).ok())
                    .ok_or_else(|| format!("model line `{l}`"))?;
                model.push(v);
            }
        }
        self.inp.write_all(b"(pop 1)\n").map_err(|e| e.to_string())?;
        QUERIES.fetch_add(1, Ordering::Relaxed);
        if sat { &SAT } else { &UNSAT }.fetch_add(1, Ordering::Relaxed);
        SOLVER_NS.fetch_add(t.elapsed().as_nanos() as u64, Ordering::Relaxed);
        Ok((sat, model))
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub type Cache = Mutex<HashMap<String, (bool, Vec<u8>)>>;

pub struct Smt {
    cmd: String,
    solver: Option<Solver>,
    cross: Option<(String, Option<Solver>)>,
    cache: &'static Cache,
}

impl Smt {
    pub fn new(cmd: &str, cross: Option<String>, cache: &'static Cache) -> Smt {
        Smt { cmd: cmd.to_string(), solver: None, cross: cross.map(|c| (c, None)), cache }
    }
    pub fn query(&mut self, q: String, nvars: usize) -> Result<(bool, Vec<u8>), String> {
        if let Some(r) = self.cache.lock().unwrap().get(&q) {
            CACHE_HITS.fetch_add(1, Ordering::Relaxed);
            return Ok(r.clone());
        }
        if self.solver.is_none() {
            self.solver = Some(Solver::new(&self.cmd)?);
        }
        let r = self.solver.as_mut().unwrap().check(&q, nvars, true)?;
        if let Some((c, s)) = &mut self.cross {
            if s.is_none() {
                *s = Some(Solver::new(c)?);
            }
            let r2 = s.as_mut().unwrap().check(&q, nvars, false)?;
            if r2.0 != r.0 {
                return Err(format!("solvers disagree ({} vs {}) on {q}", r.0, r2.0));
            }
        }
        self.cache.lock().unwrap().insert(q, r.clone());
        Ok(r)
    }
}

/// Renders a conjunction over the given variables (renamed x0, x1, ... in the
/// order given) as an SMT-LIB2 script body.
pub fn script(ar: &Arena, vars: &[u32], doms: &[Dom], conj: &[(E, bool)]) -> String {
    let mut s = String::new();
    for i in 0..vars.len() {
        let _ = writeln!(s, "(declare-const x{i} (_ BitVec 8))");
    }
    for (i, d) in doms.iter().enumerate() {
        if *d == FULL {
            continue;
        }
        s.push_str("(assert ");
        s.push_str(&dom_str(d, &format!("x{i}")));
        s.push_str(")\n");
    }
    let mut pr = Printer { ar, vars, memo: HashMap::new(), defs: String::new(), n: 0, uses: HashMap::new() };
    for (e, _) in conj {
        pr.count(*e);
    }
    let mut asserts = String::new();
    for (e, pos) in conj {
        let t = pr.p(*e);
        let _ = writeln!(asserts, "(assert (= {t} #b{}))", if *pos { 1 } else { 0 });
    }
    s.push_str(&pr.defs);
    s.push_str(&asserts);
    s
}

fn dom_str(d: &Dom, x: &str) -> String {
    let mut s = String::from("(or false");
    let mut i = 0u32;
    while i < 256 {
        if dom_has(d, i as u8) {
            let lo = i;
            while i < 255 && dom_has(d, (i + 1) as u8) {
                i += 1;
            }
            if lo == i {
                let _ = write!(s, " (= {x} #x{lo:02x})");
            } else {
                let _ = write!(s, " (and (bvuge {x} #x{lo:02x}) (bvule {x} #x{i:02x}))");
            }
        }
        i += 1;
    }
    s.push(')');
    s
}

struct Printer<'a> {
    ar: &'a Arena,
    vars: &'a [u32],
    memo: HashMap<E, String>,
    defs: String,
    n: usize,
    uses: HashMap<E, u32>,
}

impl Printer<'_> {
    fn count(&mut self, e: E) {
        let c = self.uses.entry(e).or_insert(0);
        *c += 1;
        if *c == 1 {
            for a in self.ar.args(e) {
                self.count(a);
            }
        }
    }
    fn p(&mut self, e: E) -> String {
        if let Some(s) = self.memo.get(&e) {
            return s.clone();
        }
        let n = &self.ar.nodes[e as usize];
        let k = n.key.clone();
        let s = match k.op {
            Op::Const => bv(k.k, k.w),
            Op::Var => {
                let i = self.vars.iter().position(|v| *v as u64 == k.k).expect("var listed");
                format!("x{i}")
            }
            Op::Table | Op::Ctpop | Op::Cttz | Op::Ctlz if n.table.is_some() => {
                let i = self.vars.iter().position(|v| *v == n.var).expect("var listed");
                let t = n.table.as_ref().unwrap();
                // nested ite over runs of equal values
                let mut s = String::new();
                let mut close = 0;
                let mut lo = 0;
                while lo < 256 {
                    let mut hi = lo;
                    while hi < 255 && t[hi + 1] == t[lo] {
                        hi += 1;
                    }
                    if hi == 255 {
                        s.push_str(&bv(t[lo], k.w));
                    } else {
                        let _ = write!(s, "(ite (bvule x{i} #x{hi:02x}) {} ", bv(t[lo], k.w));
                        close += 1;
                    }
                    lo = hi + 1;
                }
                s.extend(std::iter::repeat_n(')', close));
                s
            }
            Op::Zext => {
                let a = self.p(k.a);
                let d = k.w - self.ar.w(k.a);
                if d == 0 { a } else { format!("((_ zero_extend {d}) {a})") }
            }
            Op::Sext => {
                let a = self.p(k.a);
                let d = k.w - self.ar.w(k.a);
                if d == 0 { a } else { format!("((_ sign_extend {d}) {a})") }
            }
            Op::Extract => {
                let a = self.p(k.a);
                format!("((_ extract {} {}) {a})", k.k + k.w as u64 - 1, k.k)
            }
            Op::Select => {
                let (a, b, c) = (self.p(k.a), self.p(k.b), self.p(k.c));
                format!("(ite (= {a} #b1) {b} {c})")
            }
            Op::Eq | Op::Ult | Op::Slt => {
                let (a, b) = (self.p(k.a), self.p(k.b));
                let o = match k.op {
                    Op::Eq => "=",
                    Op::Ult => "bvult",
                    _ => "bvslt",
                };
                format!("(ite ({o} {a} {b}) #b1 #b0)")
            }
            Op::Ctpop | Op::Cttz | Op::Ctlz | Op::Table => {
                // multi-byte bit counting: sum / first-set encoding
                let a = self.p(k.a);
                let w = k.w;
                match k.op {
                    Op::Ctpop => {
                        let mut s = bv(0, w);
                        for i in 0..w {
                            s = format!("(bvadd {s} ((_ zero_extend {}) ((_ extract {i} {i}) {a})))", w - 1);
                        }
                        s
                    }
                    _ => {
                        let mut s = bv(w as u64, w);
                        for j in 0..w {
                            let i = if k.op == Op::Cttz { w - 1 - j } else { j };
                            let r = if k.op == Op::Cttz { i } else { w - 1 - i };
                            s = format!("(ite (= ((_ extract {i} {i}) {a}) #b1) {} {s})", bv(r as u64, w));
                        }
                        s
                    }
                }
            }
            _ => {
                let (a, b) = (self.p(k.a), self.p(k.b));
                let o = match k.op {
                    Op::Add => "bvadd",
                    Op::Sub => "bvsub",
                    Op::Mul => "bvmul",
                    Op::Udiv => "bvudiv",
                    Op::Urem => "bvurem",
                    Op::Sdiv => "bvsdiv",
                    Op::Srem => "bvsrem",
                    Op::Shl => "bvshl",
                    Op::Lshr => "bvlshr",
                    Op::Ashr => "bvashr",
                    Op::And => "bvand",
                    Op::Or => "bvor",
                    Op::Xor => "bvxor",
                    Op::Concat => "concat",
                    o => unreachable!("{o:?}"),
                };
                format!("({o} {a} {b})")
            }
        };
        let s = if self.uses.get(&e).copied().unwrap_or(0) > 1 && s.len() > 24 {
            let name = format!("d{}", self.n);
            self.n += 1;
            let _ = writeln!(self.defs, "(define-fun {name} () (_ BitVec {}) {s})", k.w);
            name
        } else {
            s
        };
        self.memo.insert(e, s.clone());
        s
    }
}

fn bv(v: u64, w: u8) -> String {
    if w.is_multiple_of(4) {
        format!("#x{:0n$x}", v & mask_w(w), n = (w / 4) as usize)
    } else {
        format!("#b{:0n$b}", v & mask_w(w), n = w as usize)
    }
}
