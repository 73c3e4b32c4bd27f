//! The forking symbolic executor.
use crate::expr::*;
use crate::func::*;
use crate::ll::*;
use crate::smt::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    A(Rc<Vec<Val>>),
    W(Rc<u128>),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// symbolic bytes, sorted by offset
    pub sym: Vec<(u32, E)>,
    pub kind: u8, // 0 = const global, 1 = heap, 2 = frame, 3 = mutable global
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub fobj: u32,
    pub ret: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    /// mutable globals written to
    pub gover: Vec<(u32, Rc<Obj>)>,
    /// those of the process that stepped aside (see sx_fresh)
    pub gsave: Vec<(u32, Rc<Obj>)>,
    pub dom: Vec<Dom>,
    pub multi: Rc<Vec<(E, bool)>>,
    pub multi_deps: u64,
    pub steps: u64,
    pub allocs: u32,
    pub covers: u64,
}

pub enum Stop {
    /// the harness returned normally
    Done,
    /// property violation or crash
    Fail(String),
    /// assumption infeasible on this path
    Infeasible,
    /// engine limitation: the check cannot give an answer
    Engine(String),
}

type X<T> = Result<T, Stop>;

pub struct Ctx {
    pub m: &'static Module,
    pub funcs: Vec<Option<&'static Func>>,
    pub ar: Arena,
    pub smt: Smt,
    pub gobjs: Vec<Option<Rc<Obj>>>,
    pub work: Vec<State>,
    pub checked: std::collections::HashSet<(E, Dom)>,
    pub var_init: Vec<Dom>, // initial restriction for variable i (job partition)
    pub cfg: Vec<u64>,
    pub step_limit: u64,
    pub stat: Stat,
    pub fnset: std::collections::HashSet<u32>,
    pub deadline: Option<std::time::Instant>,
    pub prof: Option<HashMap<&'static str, (u64, u64)>>,
}

#[derive(Default, Clone)]
pub struct Stat {
    pub insts: u64,
    pub forks: u64,
    pub decisions: u64,
    pub checks: u64,
    pub checks_symbolic: u64,
    pub multi_queries: u64,
    pub concretized: u64,
    pub confirmed: u64,
}

macro_rules! eng { ($($a:tt)*) => { return Err(Stop::Engine(format!($($a)*))) } }

impl Ctx {
    pub fn new(m: &'static Module, smt: Smt) -> Ctx {
        Ctx {
            m,
            funcs: vec![None; m.funcs.len()],
            ar: Arena::default(),
            smt,
            gobjs: vec![None; m.globals.len() + 1],
            work: vec![],
            checked: Default::default(),
            var_init: vec![],
            cfg: vec![],
            step_limit: 50_000_000,
            stat: Stat::default(),
            fnset: Default::default(),
            deadline: None,
            prof: None,
        }
    }

    pub fn func(&mut self, i: u32) -> X<&'static Func> {
        if let Some(f) = self.funcs[i as usize] {
            return Ok(f);
        }
        if self.m.funcs[i as usize].2.is_empty() {
            eng!("call to undefined function {}", self.m.funcs[i as usize].0);
        }
        match compile(self.m, i) {
            Ok(f) => {
                let f: &'static Func = Box::leak(Box::new(f));
                self.funcs[i as usize] = Some(f);
                self.fnset.insert(i);
                Ok(f)
            }
            Err(e) => eng!("cannot encode {}: {e}", self.m.funcs[i as usize].0),
        }
    }

    fn global(&mut self, g: u32) -> X<Rc<Obj>> {
        if let Some(o) = &self.gobjs[g as usize] {
            return Ok(o.clone());
        }
        let (name, rest) = self.m.globals[g as usize - 1];
        let mut p = P::new(rest, self.m);
        let r: R<Obj> = (|| {
            p.expect("=").ok();
            let mut konst = false;
            loop {
                let w = p.word();
                match w {
                    "constant" => {
                        konst = true;
                        break;
                    }
                    "global" => break,
                    "external" | "extern_weak" => return Err(format!("external global {name}")),
                    "" => return p.err("global"),
                    _ => {
                        p.skip_parens()?;
                    }
                }
            }
            let t = p.ty()?;
            let c = p.cv(&t)?;
            let mut data = vec![0u8; t.size() as usize];
            write_cv(&t, &c, &mut data)?;
            Ok(Obj { data, sym: vec![], kind: if konst { 0 } else { 3 } })
        })();
        match r {
            Ok(o) => {
                let o = Rc::new(o);
                self.gobjs[g as usize] = Some(o.clone());
                Ok(o)
            }
            Err(e) => eng!("global {name}: {e}"),
        }
    }

    fn ngl(&self) -> u32 {
        self.m.globals.len() as u32 + 1
    }

    fn obj_at<'a>(&'a mut self, st: &'a State, addr: u64, n: u64, what: &str) -> X<(&'a Obj, usize)> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        let g = self.ngl();
        let o: &Obj = if id >= g {
            match st.objs.get((id - g) as usize) {
                Some(Some(o)) => o,
                _ => return Err(Stop::Fail(format!("memory error: {what} of {n} bytes at dead or invalid address {addr:#x}"))),
            }
        } else if id == 0 {
            return Err(Stop::Fail(format!("memory error: {what} of {n} bytes at address {addr:#x}")));
        } else if let Some((_, o)) = st.gover.iter().find(|x| x.0 == id) {
            o
        } else {
            if self.gobjs[id as usize].is_none() {
                self.global(id)?;
            }
            self.gobjs[id as usize].as_ref().unwrap()
        };
        if off + n > o.data.len() as u64 {
            return Err(Stop::Fail(format!(
                "memory error: {what} of {n} bytes at offset {off} of an object of {} bytes",
                o.data.len()
            )));
        }
        Ok((o, off as usize))
    }

    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64, what: &str) -> X<(&'a mut Obj, usize)> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        let g = self.ngl();
        let rc: &mut Rc<Obj> = if id >= g {
            match st.objs.get_mut((id - g) as usize) {
                Some(Some(o)) => o,
                _ => return Err(Stop::Fail(format!("memory error: {what} of {n} bytes at dead or invalid address {addr:#x}"))),
            }
        } else if id == 0 {
            return Err(Stop::Fail(format!("memory error: {what} of {n} bytes at address {addr:#x}")));
        } else {
            let k = match st.gover.iter().position(|x| x.0 == id) {
                Some(k) => k,
                None => {
                    let o = self.global(id)?;
                    if o.kind == 0 {
                        return Err(Stop::Fail(format!("memory error: {what} to constant memory")));
                    }
                    st.gover.push((id, o));
                    st.gover.len() - 1
                }
            };
            &mut st.gover[k].1
        };
        if off + n > rc.data.len() as u64 {
            return Err(Stop::Fail(format!(
                "memory error: {what} of {n} bytes at offset {off} of an object of {} bytes",
                rc.data.len()
            )));
        }
        Ok((Rc::make_mut(rc), off as usize))
    }

    pub fn new_obj(&mut self, st: &mut State, size: u64, kind: u8) -> u64 {
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: vec![], kind });
        let slot = match st.free.pop() {
            Some(s) => {
                st.objs[s as usize] = Some(o);
                s
            }
            None => {
                st.objs.push(Some(o));
                st.objs.len() as u32 - 1
            }
        };
        ((slot + self.ngl()) as u64) << 32
    }
    fn free_obj(&mut self, st: &mut State, addr: u64) -> X<()> {
        let id = (addr >> 32) as u32;
        let g = self.ngl();
        if addr as u32 != 0 || id < g || st.objs.get((id - g) as usize).is_none_or(|o| o.is_none()) {
            return Err(Stop::Fail(format!("memory error: free of invalid pointer {addr:#x}")));
        }
        st.objs[(id - g) as usize] = None;
        st.free.push(id - g);
        Ok(())
    }

    // ---------------------------------------------------------------- memory access
    fn load_int(&mut self, st: &State, addr: u64, bits: u32) -> X<Val> {
        let n = (bits as usize).div_ceil(8);
        let (o, off) = self.obj_at(st, addr, n as u64, "read")?;
        if n > 8 {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            if o.sym.iter().any(|(k, _)| (*k as usize) >= off && (*k as usize) < off + n) {
                eng!("wide load of symbolic data");
            }
            return Ok(Val::W(Rc::new(u128::from_le_bytes(b))));
        }
        let has = !o.sym.is_empty() && {
            let i = o.sym.partition_point(|(k, _)| (*k as usize) < off);
            o.sym.get(i).is_some_and(|(k, _)| (*k as usize) < off + n)
        };
        if !has {
            let d = &o.data[off..off + n];
            let v = match n {
                1 => d[0] as u64,
                8 => u64::from_le_bytes(d.try_into().unwrap()),
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u64,
                2 => u16::from_le_bytes(d.try_into().unwrap()) as u64,
                _ => {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(d);
                    u64::from_le_bytes(b)
                }
            };
            return Ok(Val::C(v & mask_w(bits as u8)));
        }
        let mut parts: Vec<Result<E, u8>> = Vec::with_capacity(n);
        for i in 0..n {
            match o.sym.binary_search_by_key(&((off + i) as u32), |x| x.0) {
                Ok(k) => parts.push(Ok(o.sym[k].1)),
                Err(_) => parts.push(Err(o.data[off + i])),
            }
        }
        let mut acc: Option<E> = None;
        for (i, p) in parts.into_iter().enumerate() {
            let e = match p {
                Ok(e) => e,
                Err(b) => self.ar.constant(b as u64, 8),
            };
            acc = Some(match acc {
                None => e,
                Some(lo) => self.ar.mk(Op::Concat, (i as u8 + 1) * 8, e, lo, 0, 0),
            });
        }
        let mut e = acc.unwrap();
        if !bits.is_multiple_of(8) {
            e = self.ar.mk(Op::Extract, bits as u8, e, 0, 0, 0);
        }
        Ok(self.val(e))
    }
    fn val(&self, e: E) -> Val {
        match self.ar.cval(e) {
            Some(v) => Val::C(v),
            None => Val::S(e),
        }
    }
    fn load(&mut self, st: &State, addr: u64, m: &Mem) -> X<Val> {
        match m {
            Mem::Int(b) => self.load_int(st, addr, *b),
            Mem::Vec(n, b) => {
                let mut v = vec![];
                if *b < 8 {
                    let w = self.load_int(st, addr, *n as u32)?;
                    let Val::C(w) = w else { eng!("symbolic bit vector load") };
                    for i in 0..*n {
                        v.push(Val::C(w >> i & 1));
                    }
                } else {
                    for i in 0..*n {
                        v.push(self.load_int(st, addr + i * (*b as u64 / 8), *b)?);
                    }
                }
                Ok(Val::A(Rc::new(v)))
            }
            Mem::Struct(f) => {
                let mut v = vec![];
                for (o, t) in f {
                    v.push(self.load(st, addr + o, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, m: &Mem, v: &Val) -> X<()> {
        match m {
            Mem::Int(bits) => {
                let n = (*bits as usize).div_ceil(8);
                match v {
                    Val::C(x) => {
                        let (o, off) = self.obj_mut(st, addr, n as u64, "write")?;
                        let b = (*x as u128).to_le_bytes();
                        o.data[off..off + n].copy_from_slice(&b[..n]);
                        if !o.sym.is_empty() {
                            clear_sym(o, off, n);
                        }
                        Ok(())
                    }
                    Val::W(x) => {
                        let (o, off) = self.obj_mut(st, addr, n as u64, "write")?;
                        o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                        if !o.sym.is_empty() {
                            clear_sym(o, off, n);
                        }
                        Ok(())
                    }
                    Val::S(e) => {
                        let mut e = *e;
                        let w = self.ar.w(e);
                        if (w as usize) < n * 8 {
                            e = self.ar.mk(Op::Zext, (n * 8) as u8, e, 0, 0, 0);
                        }
                        let mut bs = vec![];
                        for i in 0..n {
                            bs.push(self.ar.mk(Op::Extract, 8, e, 0, 0, i as u64 * 8));
                        }
                        let cs: Vec<Option<u64>> = bs.iter().map(|b| self.ar.cval(*b)).collect();
                        let (o, off) = self.obj_mut(st, addr, n as u64, "write")?;
                        clear_sym(o, off, n);
                        for i in 0..n {
                            match cs[i] {
                                Some(c) => o.data[off + i] = c as u8,
                                None => {
                                    let k = o.sym.partition_point(|x| (x.0 as usize) < off + i);
                                    o.sym.insert(k, ((off + i) as u32, bs[i]));
                                }
                            }
                        }
                        Ok(())
                    }
                    Val::A(_) => eng!("aggregate stored as int"),
                }
            }
            Mem::Vec(n, b) => {
                let Val::A(vs) = v else { eng!("vector store") };
                if *b < 8 {
                    let mut w = 0u64;
                    for (i, x) in vs.iter().enumerate() {
                        let Val::C(x) = x else { eng!("symbolic bit vector store") };
                        w |= (x & 1) << i;
                    }
                    return self.store(st, addr, &Mem::Int(*n as u32), &Val::C(w));
                }
                for (i, x) in vs.iter().enumerate() {
                    self.store(st, addr + i as u64 * (*b as u64 / 8), &Mem::Int(*b), x)?;
                }
                Ok(())
            }
            Mem::Struct(f) => {
                let Val::A(vs) = v else { eng!("struct store") };
                for (i, (o, t)) in f.iter().enumerate() {
                    self.store(st, addr + o, t, &vs[i])?;
                }
                Ok(())
            }
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, so) = self.obj_at(st, s, n, "read")?;
        let n = n as usize;
        let data = o.data[so..so + n].to_vec();
        let syms: Vec<(u32, E)> = if o.sym.is_empty() {
            vec![]
        } else {
            let a = o.sym.partition_point(|x| (x.0 as usize) < so);
            let b = o.sym.partition_point(|x| (x.0 as usize) < so + n);
            o.sym[a..b].iter().map(|(k, e)| (k - so as u32, *e)).collect()
        };
        let (o, of) = self.obj_mut(st, d, n as u64, "write")?;
        o.data[of..of + n].copy_from_slice(&data);
        if !o.sym.is_empty() {
            clear_sym(o, of, n);
        }
        if !syms.is_empty() {
            let k = o.sym.partition_point(|x| (x.0 as usize) < of);
            o.sym.splice(k..k, syms.into_iter().map(|(x, e)| (x + of as u32, e)));
        }
        Ok(())
    }
    fn byte(&mut self, st: &State, addr: u64) -> X<Val> {
        self.load_int(st, addr, 8)
    }

    // ---------------------------------------------------------------- decisions
    fn dom_of(&self, st: &State, v: u32) -> Dom {
        st.dom[v as usize]
    }

    /// z3 confirmation of a single-byte decision: both the taken and the other side
    fn confirm(&mut self, e: E, d: &Dom, can_t: bool, can_f: bool) -> X<()> {
        if !self.checked.insert((e, *d)) {
            return Ok(());
        }
        self.stat.confirmed += 1;
        let var = self.ar.nodes[e as usize].var;
        for (pos, expect) in [(true, can_t), (false, can_f)] {
            let q = script(&self.ar, &[var], &[*d], &[(e, pos)]);
            match self.smt.query(q, 1) {
                Ok((r, _)) if r == expect => {}
                Ok((r, _)) => eng!("solver and byte table disagree (solver {r}, table {expect})"),
                Err(e) => eng!("{e}"),
            }
        }
        Ok(())
    }

    /// Decide a boolean, forking when both values are feasible.
    fn decide(&mut self, st: &mut State, v: &Val) -> X<bool> {
        let e = match v {
            Val::C(c) => return Ok(c & 1 == 1),
            Val::S(e) => *e,
            _ => eng!("branch on aggregate"),
        };
        self.stat.decisions += 1;
        self.decide_e(st, e)
    }

    fn decide_e(&mut self, st: &mut State, e: E) -> X<bool> {
        let n = &self.ar.nodes[e as usize];
        if n.table.is_some() {
            let var = n.var;
            let mask = n.mask;
            let d = self.dom_of(st, var);
            let t = dom_and(&d, &mask);
            let f = dom_andn(&d, &mask);
            let (ct, cf) = (!dom_empty(&t), !dom_empty(&f));
            self.confirm(e, &d, ct, cf)?;
            if !cf {
                return Ok(true);
            }
            if !ct {
                return Ok(false);
            }
            if st.multi_deps >> var & 1 == 1 {
                // other constraints mention this byte: ask the solver
                let ft = self.feasible(st, &[(e, true)])?;
                let ff = self.feasible(st, &[(e, false)])?;
                match (ft, ff) {
                    (true, false) => {
                        st.dom[var as usize] = t;
                        return Ok(true);
                    }
                    (false, true) => {
                        st.dom[var as usize] = f;
                        return Ok(false);
                    }
                    (false, false) => return Err(Stop::Infeasible),
                    _ => {}
                }
            }
            self.stat.forks += 1;
            if let Some(p) = &mut self.prof {
                p.entry(st.cur.f.name).or_default().1 += 1;
            }
            let mut o = st.clone();
            o.dom[var as usize] = f;
            self.work.push(o);
            st.dom[var as usize] = t;
            return Ok(true);
        }
        // several bytes: simplify under the current domains, then split on a
        // one-byte sub-condition when there is one
        let mut memo = HashMap::new();
        let r = self.reduce(st, e, &mut memo);
        if let Some(c) = self.ar.cval(r) {
            return Ok(c & 1 == 1);
        }
        if self.ar.single(r) {
            return self.decide_e(st, r);
        }
        if let Some(s) = self.find_split(r) {
            // fork on the sub-condition and retry this instruction
            self.decide_e(st, s)?;
            return self.decide_e(st, r);
        }
        for (c, pos) in st.multi.iter() {
            if *c == r {
                return Ok(*pos);
            }
        }
        self.stat.multi_queries += 1;
        let ft = self.feasible(st, &[(r, true)])?;
        let ff = self.feasible(st, &[(r, false)])?;
        match (ft, ff) {
            (true, false) => Ok(true),
            (false, true) => Ok(false),
            (false, false) => Err(Stop::Infeasible),
            (true, true) => {
                self.stat.forks += 1;
                let mut o = st.clone();
                self.add_multi(&mut o, r, false);
                self.work.push(o);
                self.add_multi(st, r, true);
                Ok(true)
            }
        }
    }
    fn add_multi(&mut self, st: &mut State, e: E, pos: bool) {
        let mut v = (*st.multi).clone();
        v.push((e, pos));
        st.multi = Rc::new(v);
        st.multi_deps |= self.ar.nodes[e as usize].deps;
    }
    /// rewrite one-byte sub-expressions that are constant on the current domain
    fn reduce(&mut self, st: &State, e: E, memo: &mut HashMap<E, E>) -> E {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = &self.ar.nodes[e as usize];
        let k = n.key.clone();
        let r = if let Some(t) = n.table.clone() {
            let d = st.dom[n.var as usize];
            let mut it = dom_iter(&d);
            let first = it.next().map(|x| t[x as usize]).unwrap_or(0);
            if it.all(|x| t[x as usize] == first) { self.ar.constant(first, k.w) } else { e }
        } else if k.op == Op::Const {
            e
        } else {
            let a = self.ar.args(e);
            let b: Vec<E> = a.iter().map(|x| self.reduce(st, *x, memo)).collect();
            if a == b {
                e
            } else {
                let g = |i: usize| b.get(i).copied().unwrap_or(0);
                self.ar.mk(k.op, k.w, g(0), g(1), g(2), k.k)
            }
        };
        memo.insert(e, r);
        r
    }
    fn find_split(&self, e: E) -> Option<E> {
        let mut seen = std::collections::HashSet::new();
        let mut stack = vec![e];
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = &self.ar.nodes[x as usize];
            if n.table.is_some() {
                if n.key.w == 1 {
                    return Some(x);
                }
                continue;
            }
            let mut a = self.ar.args(x);
            a.reverse();
            stack.extend(a);
        }
        None
    }
    /// solver feasibility of the path condition together with extra conjuncts
    fn feasible(&mut self, st: &State, extra: &[(E, bool)]) -> X<bool> {
        Ok(self.solve(st, extra)?.is_some())
    }
    fn solve(&mut self, st: &State, extra: &[(E, bool)]) -> X<Option<(Vec<u32>, Vec<u8>)>> {
        self.solve_deps(st, extra, 0)
    }
    fn solve_deps(&mut self, st: &State, extra: &[(E, bool)], mut deps: u64) -> X<Option<(Vec<u32>, Vec<u8>)>> {
        for (e, _) in extra {
            deps |= self.ar.nodes[*e as usize].deps;
        }
        let mut conj: Vec<(E, bool)> = vec![];
        let mut used = vec![false; st.multi.len()];
        loop {
            let mut ch = false;
            for (i, (e, p)) in st.multi.iter().enumerate() {
                let d = self.ar.nodes[*e as usize].deps;
                if !used[i] && d & deps != 0 {
                    used[i] = true;
                    deps |= d;
                    conj.push((*e, *p));
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        conj.extend_from_slice(extra);
        let vars: Vec<u32> = (0..64).filter(|i| deps >> i & 1 == 1).collect();
        let doms: Vec<Dom> = vars.iter().map(|v| st.dom[*v as usize]).collect();
        let q = script(&self.ar, &vars, &doms, &conj);
        match self.smt.query(q, vars.len()) {
            Ok((true, m)) => Ok(Some((vars, m))),
            Ok((false, _)) => Ok(None),
            Err(e) => eng!("{e}"),
        }
    }

    /// Turn a value into a concrete one, forking over all its feasible values.
    fn conc(&mut self, st: &mut State, v: &Val) -> X<u64> {
        let e = match v {
            Val::C(c) => return Ok(*c),
            Val::S(e) => *e,
            Val::W(x) => return Ok(**x as u64),
            Val::A(_) => eng!("concretising an aggregate"),
        };
        self.conc_e(st, e)
    }
    fn conc_e(&mut self, st: &mut State, e: E) -> X<u64> {
        let n = &self.ar.nodes[e as usize];
        if let Some(t) = n.table.clone() {
            let d = st.dom[n.var as usize];
            let v = t[dom_first(&d) as usize];
            if dom_iter(&d).all(|b| t[b as usize] == v) {
                return Ok(v);
            }
            let w = n.key.w;
            let c = self.ar.constant(v, w);
            let eq = self.ar.mk(Op::Eq, 1, e, c, 0, 0);
            self.stat.concretized += 1;
            // first value on this path, the rest retried in the sibling
            if self.decide_e(st, eq)? {
                return Ok(v);
            }
            return self.conc_e(st, e);
        }
        let mut memo = HashMap::new();
        let r = self.reduce(st, e, &mut memo);
        if let Some(c) = self.ar.cval(r) {
            return Ok(c);
        }
        if self.ar.single(r) {
            return self.conc_e(st, r);
        }
        if let Some(s) = self.find_split(r) {
            self.decide_e(st, s)?;
            return self.conc_e(st, r);
        }
        // value chosen by the solver: a model of the path condition over r's bytes
        let w = self.ar.w(r);
        let deps = self.ar.nodes[r as usize].deps;
        let model = self.solve_deps(st, &[], deps)?;
        let Some((vars, m)) = model else { return Err(Stop::Infeasible) };
        let mut full = vec![0u8; st.dom.len()];
        for (v, x) in vars.iter().zip(m) {
            full[*v as usize] = x;
        }
        let v = self.ar.eval_model(r, &full);
        let c = self.ar.constant(v, w);
        let eq = self.ar.mk(Op::Eq, 1, r, c, 0, 0);
        self.stat.concretized += 1;
        if self.decide_e(st, eq)? {
            return Ok(v);
        }
        self.conc_e(st, r)
    }

    // ---------------------------------------------------------------- operands
    #[inline]
    fn get(&self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => st.cur.regs[*r as usize].clone(),
            Opnd::C(c) => Val::C(*c),
            Opnd::K(v) => Val::A(Rc::new(v.iter().map(|x| self.get(st, x)).collect())),
            Opnd::W(x) => Val::W(Rc::new(*x)),
        }
    }
    /// concrete value of an operand, when it has one
    #[inline(always)]
    fn cget(st: &State, o: &Opnd) -> Option<u64> {
        match o {
            Opnd::R(r) => match st.cur.regs[*r as usize] {
                Val::C(c) => Some(c),
                _ => None,
            },
            Opnd::C(c) => Some(*c),
            _ => None,
        }
    }
    fn ex(&mut self, v: &Val, w: u8) -> X<E> {
        match v {
            Val::C(c) => Ok(self.ar.constant(*c, w)),
            Val::S(e) => Ok(*e),
            _ => eng!("scalar expected"),
        }
    }

    fn bin(&mut self, op: Op, w: u8, a: &Val, b: &Val) -> X<Val> {
        match (a, b) {
            (Val::C(x), Val::C(y)) => Ok(Val::C(eval(op, w, w, w, *x, *y, 0, 0))),
            (Val::A(x), Val::A(y)) => {
                let mut v = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    v.push(self.bin(op, w, &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            (Val::W(_), _) | (_, Val::W(_)) => {
                let g = |v: &Val| match v {
                    Val::C(c) => Some(*c as u128),
                    Val::W(x) => Some(**x),
                    _ => None,
                };
                let (Some(x), Some(y)) = (g(a), g(b)) else { eng!("symbolic 128-bit arithmetic") };
                let r = match op {
                    Op::Add => x.wrapping_add(y),
                    Op::Sub => x.wrapping_sub(y),
                    Op::Mul => x.wrapping_mul(y),
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Shl => x.checked_shl(y as u32).unwrap_or(0),
                    Op::Lshr => x.checked_shr(y as u32).unwrap_or(0),
                    _ => eng!("128-bit {op:?}"),
                };
                Ok(Val::W(Rc::new(r)))
            }
            _ => {
                let x = self.ex(a, w)?;
                let y = self.ex(b, w)?;
                let e = self.ar.mk(op, w, x, y, 0, 0);
                Ok(self.val(e))
            }
        }
    }
    fn icmp(&mut self, p: Pred, w: u8, a: &Val, b: &Val) -> X<Val> {
        match (a, b) {
            (Val::C(x), Val::C(y)) => Ok(Val::C(icmp_c(p, w, *x, *y) as u64)),
            (Val::A(x), Val::A(y)) => {
                let mut v = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    v.push(self.icmp(p, w, &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            (Val::W(x), Val::W(y)) => Ok(Val::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                _ => eng!("signed 128-bit compare"),
            } as u64)),
            _ => {
                let x = self.ex(a, w)?;
                let y = self.ex(b, w)?;
                let (op, s, neg) = match p {
                    Pred::Eq => (Op::Eq, false, false),
                    Pred::Ne => (Op::Eq, false, true),
                    Pred::Ult => (Op::Ult, false, false),
                    Pred::Uge => (Op::Ult, false, true),
                    Pred::Ugt => (Op::Ult, true, false),
                    Pred::Ule => (Op::Ult, true, true),
                    Pred::Slt => (Op::Slt, false, false),
                    Pred::Sge => (Op::Slt, false, true),
                    Pred::Sgt => (Op::Slt, true, false),
                    Pred::Sle => (Op::Slt, true, true),
                };
                let (x, y) = if s { (y, x) } else { (x, y) };
                let mut e = self.ar.mk(op, 1, x, y, 0, 0);
                if neg {
                    e = self.ar.not(e);
                }
                Ok(self.val(e))
            }
        }
    }
    fn cast(&mut self, op: Op, sw: u8, dw: u8, a: &Val) -> X<Val> {
        match a {
            Val::C(x) => {
                if dw > 64 {
                    let v: u128 = if op == Op::Sext { sext(*x, sw) as i128 as u128 } else { *x as u128 };
                    return Ok(Val::W(Rc::new(v)));
                }
                Ok(Val::C(match op {
                    Op::Zext => *x,
                    Op::Sext => sext(*x, sw) as u64 & mask_w(dw),
                    _ => x & mask_w(dw),
                }))
            }
            Val::W(x) => {
                if dw > 64 {
                    Ok(a.clone())
                } else {
                    Ok(Val::C(**x as u64 & mask_w(dw)))
                }
            }
            Val::A(x) => {
                let mut v = Vec::with_capacity(x.len());
                for y in x.iter() {
                    v.push(self.cast(op, sw, dw, y)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Val::S(e) => {
                if dw > 64 {
                    eng!("symbolic 128-bit cast");
                }
                let r = match op {
                    Op::Extract => self.ar.mk(Op::Extract, dw, *e, 0, 0, 0),
                    _ => self.ar.mk(op, dw, *e, 0, 0, 0),
                };
                Ok(self.val(r))
            }
        }
    }
    fn un(&mut self, op: Op, w: u8, a: &Val) -> X<Val> {
        match a {
            Val::C(x) => Ok(Val::C(eval(op, w, w, 0, *x, 0, 0, 0))),
            Val::S(e) => {
                let r = self.ar.mk(op, w, *e, 0, 0, 0);
                Ok(self.val(r))
            }
            _ => eng!("unary on aggregate"),
        }
    }
    fn sel(&mut self, c: &Val, a: &Val, b: &Val, w: u8) -> X<Val> {
        match c {
            Val::C(c) => Ok(if c & 1 == 1 { a.clone() } else { b.clone() }),
            Val::S(c) => {
                let x = self.ex(a, w)?;
                let y = self.ex(b, w)?;
                let e = self.ar.mk(Op::Select, w, *c, x, y, 0);
                Ok(self.val(e))
            }
            _ => eng!("vector select"),
        }
    }

    fn take(&mut self, st: &mut State, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => {
                let v = self.get(st, &e.moves[0].1);
                st.cur.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<Val> = e.moves.iter().map(|(_, o)| self.get(st, o)).collect();
                for ((d, _), v) in e.moves.iter().zip(vs) {
                    st.cur.regs[*d as usize] = v;
                }
            }
        }
        st.cur.ip = e.ip;
    }

    pub fn start(&mut self, f: u32, args: &[u64]) -> X<State> {
        let f = self.func(f)?;
        let mut st = State {
            cur: Frame { f, ip: 0, regs: vec![Val::C(0); f.nregs as usize], fobj: 0, ret: None },
            stack: vec![],
            objs: vec![],
            free: vec![],
            gover: vec![],
            gsave: vec![],
            dom: vec![],
            multi: Rc::new(vec![]),
            multi_deps: 0,
            steps: 0,
            allocs: 0,
            covers: 0,
        };
        for (p, a) in f.params.iter().zip(args) {
            st.cur.regs[*p as usize] = Val::C(*a);
        }
        if f.frame_size > 0 {
            st.cur.fobj = (self.new_obj(&mut st, f.frame_size as u64, 2) >> 32) as u32;
        }
        Ok(st)
    }

    /// concrete input bytes for this path
    pub fn model(&mut self, st: &State, extra: &[(E, bool)]) -> Option<Vec<u8>> {
        let mut out: Vec<u8> = st
            .dom
            .iter()
            .map(|d| {
                // prefer something readable
                for p in [b'a', b' ', b'x', b'0'] {
                    if dom_has(d, p) {
                        return p;
                    }
                }
                dom_iter(d).find(|c| c.is_ascii_graphic()).unwrap_or(dom_first(d))
            })
            .collect();
        let mut conj: Vec<(E, bool)> = (*st.multi).clone();
        conj.extend_from_slice(extra);
        if !conj.is_empty() {
            let mut deps = 0;
            for (e, _) in &conj {
                deps |= self.ar.nodes[*e as usize].deps;
            }
            let vars: Vec<u32> = (0..64).filter(|i| deps >> i & 1 == 1).collect();
            let doms: Vec<Dom> = vars.iter().map(|v| st.dom[*v as usize]).collect();
            let q = script(&self.ar, &vars, &doms, &conj);
            match self.smt.query(q, vars.len()) {
                Ok((true, m)) => {
                    for (v, x) in vars.iter().zip(m) {
                        out[*v as usize] = x;
                    }
                }
                _ => return None,
            }
        }
        Some(out)
    }

    pub fn backtrace(&self, st: &State) -> String {
        let mut v: Vec<String> = vec![];
        v.push(short(st.cur.f.name));
        for f in st.stack.iter().rev().take(6) {
            v.push(short(f.f.name));
        }
        v.join(" < ")
    }

    /// run one state until it stops; forks go to self.work
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        let f = st.cur.f;
        let mut budget = 4096;
        loop {
            let ins = &f.code[st.cur.ip as usize];
            st.steps += 1;
            self.stat.insts += 1;
            budget -= 1;
            if budget == 0 {
                if st.steps > self.step_limit + 4000 * self.cfg.len() as u64 {
                    return Err(Stop::Fail(format!("no termination within {} steps", self.step_limit + 4000 * self.cfg.len() as u64)));
                }
                if let Some(d) = self.deadline
                    && std::time::Instant::now() > d
                {
                    eng!("time budget exhausted");
                }
                return Ok(());
            }
            match ins {
                I::Bin(op, w, d, a, b) => {
                    if *w <= 64
                        && let (Some(x), Some(y)) = (Self::cget(st, a), Self::cget(st, b))
                    {
                        let m = mask_w(*w);
                        let r = match op {
                            Op::Add => Some(x.wrapping_add(y) & m),
                            Op::Sub => Some(x.wrapping_sub(y) & m),
                            Op::And => Some(x & y),
                            Op::Or => Some(x | y),
                            Op::Xor => Some(x ^ y),
                            _ => None,
                        };
                        if let Some(r) = r {
                            st.cur.regs[*d as usize] = Val::C(r);
                            st.cur.ip += 1;
                            continue;
                        }
                    }
                    let (a, b) = (self.get(st, a), self.get(st, b));
                    if let (Op::Udiv | Op::Urem | Op::Sdiv | Op::Srem, Val::C(0)) = (op, &b) {
                        return Err(Stop::Fail("division by zero".into()));
                    }
                    st.cur.regs[*d as usize] = self.bin(*op, *w, &a, &b)?;
                }
                I::Icmp(p, w, d, a, b) => {
                    if *w <= 64
                        && let (Some(x), Some(y)) = (Self::cget(st, a), Self::cget(st, b))
                    {
                        st.cur.regs[*d as usize] = Val::C(icmp_c(*p, *w, x, y) as u64);
                        st.cur.ip += 1;
                        continue;
                    }
                    let (a, b) = (self.get(st, a), self.get(st, b));
                    st.cur.regs[*d as usize] = self.icmp(*p, *w, &a, &b)?;
                }
                I::Zext(s, w, d, a) => {
                    let a = self.get(st, a);
                    st.cur.regs[*d as usize] = self.cast(Op::Zext, *s, *w, &a)?;
                }
                I::Sext(s, w, d, a) => {
                    let a = self.get(st, a);
                    st.cur.regs[*d as usize] = self.cast(Op::Sext, *s, *w, &a)?;
                }
                I::Trunc(s, w, d, a) => {
                    let a = self.get(st, a);
                    st.cur.regs[*d as usize] = self.cast(Op::Extract, *s, *w, &a)?;
                }
                I::Float(f, s, w, d, a, b) => {
                    let (a, b) = (self.get(st, a), self.get(st, b));
                    let (a, b) = (self.conc(st, &a)?, self.conc(st, &b)?);
                    st.cur.regs[*d as usize] = Val::C(float(*f, *s, *w, a, b));
                }
                I::Bitcast(t, t2, d, a) => {
                    let v = self.get(st, a);
                    st.cur.regs[*d as usize] = self.bitcast(t, t2, &v)?;
                }
                I::Copy(d, a) => {
                    let v = self.get(st, a);
                    st.cur.regs[*d as usize] = v;
                }
                I::Select(w, d, c, a, b) => {
                    let c = self.get(st, c);
                    let r = match &c {
                        Val::C(x) => self.get(st, if x & 1 == 1 { a } else { b }),
                        Val::S(_) => {
                            let (x, y) = (self.get(st, a), self.get(st, b));
                            let scalar = |v: &Val| matches!(v, Val::C(_) | Val::S(_));
                            if scalar(&x) && scalar(&y) && *w > 0 {
                                self.sel(&c, &x, &y, *w)?
                            } else if self.decide(st, &c)? {
                                x
                            } else {
                                y
                            }
                        }
                        Val::A(cs) => {
                            let (Val::A(x), Val::A(y)) = (self.get(st, a), self.get(st, b)) else { eng!("vector select") };
                            let cs = cs.clone();
                            let mut v = vec![];
                            for i in 0..cs.len() {
                                let k = self.decide(st, &cs[i])?;
                                v.push(if k { x[i].clone() } else { y[i].clone() });
                            }
                            Val::A(Rc::new(v))
                        }
                        _ => eng!("select"),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                I::Load(m, d, p) => {
                    if let Some(a) = Self::cget(st, p) {
                        let v = match m {
                            Mem::Int(b) => self.load_int(st, a, *b)?,
                            m => self.load(st, a, m)?,
                        };
                        st.cur.regs[*d as usize] = v;
                        st.cur.ip += 1;
                        continue;
                    }
                    let p = self.get(st, p);
                    let v = match &p {
                        Val::C(a) => self.load(st, *a, m)?,
                        _ => {
                            if let Some(v) = self.table_load(st, &p, m)? {
                                v
                            } else {
                                let a = self.conc(st, &p)?;
                                self.load(st, a, m)?
                            }
                        }
                    };
                    st.cur.regs[*d as usize] = v;
                }
                I::Store(m, v, p) => {
                    if let (Mem::Int(bits), Some(x), Some(a)) = (m, Self::cget(st, v), Self::cget(st, p))
                        && *bits <= 64
                    {
                        let n = (*bits as usize).div_ceil(8);
                        let (o, off) = self.obj_mut(st, a, n as u64, "write")?;
                        o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                        if !o.sym.is_empty() {
                            clear_sym(o, off, n);
                        }
                        st.cur.ip += 1;
                        continue;
                    }
                    let v = self.get(st, v);
                    let p = self.get(st, p);
                    let a = self.conc(st, &p)?;
                    self.store(st, a, m, &v)?;
                }
                I::Gep(d, base, off, sc) => {
                    if let Some(b) = Self::cget(st, base) {
                        let mut v = b.wrapping_add(*off as u64);
                        let mut ok = true;
                        for (ix, s, iw) in sc {
                            match Self::cget(st, ix) {
                                Some(x) => v = v.wrapping_add((sext(x, *iw) as u64).wrapping_mul(*s as u64)),
                                None => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        if ok {
                            st.cur.regs[*d as usize] = Val::C(v);
                            st.cur.ip += 1;
                            continue;
                        }
                    }
                    let mut v = self.get(st, base);
                    if *off != 0 {
                        v = self.bin(Op::Add, 64, &v, &Val::C(*off as u64))?;
                    }
                    for (ix, s, iw) in sc {
                        let mut x = self.get(st, ix);
                        if *iw < 64 {
                            x = self.cast(Op::Sext, *iw, 64, &x)?;
                        }
                        if *s != 1 {
                            x = self.bin(Op::Mul, 64, &x, &Val::C(*s as u64))?;
                        }
                        v = self.bin(Op::Add, 64, &v, &x)?;
                    }
                    st.cur.regs[*d as usize] = v;
                }
                I::FrameAddr(d, o) => {
                    st.cur.regs[*d as usize] = Val::C((st.cur.fobj as u64) << 32 | *o as u64);
                }
                I::Br(e) => {
                    self.take(st, e);
                    continue;
                }
                I::Cond(c, a, b) => {
                    if let Some(c) = Self::cget(st, c) {
                        self.take(st, if c & 1 == 1 { a } else { b });
                        continue;
                    }
                    let c = self.get(st, c);
                    let e = if self.decide(st, &c)? { a } else { b };
                    self.take(st, e);
                    continue;
                }
                I::Switch(w, v, cs, dflt) => {
                    let v = self.get(st, v);
                    let e = match v {
                        Val::C(x) => cs.binary_search_by_key(&x, |c| c.0).ok().map(|i| &cs[i].1).unwrap_or(dflt),
                        Val::S(e) => self.switch(st, e, *w, cs, dflt)?,
                        _ => eng!("switch on aggregate"),
                    };
                    self.take(st, e);
                    continue;
                }
                I::Ret(o) => {
                    let v = o.as_ref().map(|o| self.get(st, o));
                    if st.cur.fobj != 0 {
                        let a = (st.cur.fobj as u64) << 32;
                        self.free_obj(st, a)?;
                    }
                    let Some(fr) = st.stack.pop() else { return Err(Stop::Done) };
                    let ret = st.cur.ret;
                    st.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                    if let (Some(d), Some(v)) = (ret, v)
                        && d != u32::MAX
                    {
                        st.cur.regs[d as usize] = v;
                    }
                    self.after_call(st);
                    return Ok(());
                }
                I::Call(d, callee, args, w, _) => {
                    let target = match callee {
                        Callee::Intr(i, _) => {
                            let vs: Vec<Val> = args.iter().map(|a| self.get(st, a)).collect();
                            let r = self.intrinsic(st, *i, *w, &vs)?;
                            if let Some(d) = d {
                                st.cur.regs[*d as usize] = r;
                            }
                            self.after_call(st);
                            continue;
                        }
                        Callee::Ext(n) => {
                            let vs: Vec<Val> = args.iter().map(|a| self.get(st, a)).collect();
                            let r = self.external(st, n, &vs)?;
                            if let Some(d) = d {
                                st.cur.regs[*d as usize] = r;
                            }
                            self.after_call(st);
                            continue;
                        }
                        Callee::Fn(i) => *i,
                        Callee::Ind(o) => {
                            let v = self.get(st, o);
                            let a = self.conc(st, &v)?;
                            if a < FN_BASE || ((a & 0xffff_ffff_ffff) >> 4) as usize >= self.m.funcs.len() {
                                return Err(Stop::Fail(format!("call through invalid pointer {a:#x}")));
                            }
                            let i = ((a & 0xffff_ffff_ffff) >> 4) as u32;
                            if self.m.funcs[i as usize].2.is_empty() {
                                let n = self.m.funcs[i as usize].0;
                                let vs: Vec<Val> = args.iter().map(|a| self.get(st, a)).collect();
                                let r = self.external(st, n, &vs)?;
                                if let Some(d) = d {
                                    st.cur.regs[*d as usize] = r;
                                }
                                self.after_call(st);
                                continue;
                            }
                            i
                        }
                    };
                    let g = match self.funcs[target as usize] {
                        Some(g) => g,
                        None => self.func(target)?,
                    };
                    if g.panics {
                        return Err(Stop::Fail(format!("panic in {}", self.backtrace(st))));
                    }
                    let mut regs: Vec<Val> = Vec::with_capacity(g.nregs as usize);
                    regs.extend(std::iter::repeat_n(Val::C(0), g.nregs as usize));
                    for (p, a) in g.params.iter().zip(args) {
                        regs[*p as usize] = self.get(st, a);
                    }
                    let mut fobj = 0;
                    if g.frame_size > 0 {
                        fobj = (self.new_obj(st, g.frame_size as u64, 2) >> 32) as u32;
                    }
                    if let Some(p) = &mut self.prof {
                        p.entry(g.name).or_default().0 += 1;
                    }
                    let nf = Frame { f: g, ip: 0, regs, fobj, ret: *d };
                    let old = std::mem::replace(&mut st.cur, nf);
                    st.stack.push(Rc::new(old));
                    if st.stack.len() > 4000 {
                        return Err(Stop::Fail("call depth above 4000".into()));
                    }
                    return Ok(());
                }
                I::Unreachable => return Err(Stop::Fail(format!("unreachable code reached in {}", self.backtrace(st)))),
                I::Unsupported(m) => eng!("unsupported: {m}"),
                I::Extract(d, a, ix) => {
                    let mut v = self.get(st, a);
                    for i in ix {
                        let Val::A(x) = &v else { eng!("extractvalue") };
                        v = x[*i as usize].clone();
                    }
                    st.cur.regs[*d as usize] = v;
                }
                I::Insert(d, a, b, ix, t) => {
                    let v = self.get(st, a);
                    let b = self.get(st, b);
                    let v = if let Val::A(_) = v { v } else { zero_of(t) };
                    st.cur.regs[*d as usize] = insert(v, &b, ix);
                }
                I::ExtractEl(d, a, i) => {
                    let v = self.get(st, a);
                    let i = self.get(st, i);
                    let i = self.conc(st, &i)?;
                    let Val::A(x) = &v else { eng!("extractelement") };
                    st.cur.regs[*d as usize] = x[i as usize].clone();
                }
                I::InsertEl(d, a, b, i, n) => {
                    let v = self.get(st, a);
                    let b = self.get(st, b);
                    let i = self.get(st, i);
                    let i = self.conc(st, &i)?;
                    let mut x = match v {
                        Val::A(x) => (*x).clone(),
                        _ => vec![Val::C(0); *n as usize],
                    };
                    x[i as usize] = b;
                    st.cur.regs[*d as usize] = Val::A(Rc::new(x));
                }
                I::Shuffle(d, a, b, mask) => {
                    let (Val::A(x), y) = (self.get(st, a), self.get(st, b)) else { eng!("shuffle") };
                    let n = x.len() as i64;
                    let mut v = vec![];
                    for k in mask {
                        v.push(if *k < 0 {
                            Val::C(0)
                        } else if *k < n {
                            x[*k as usize].clone()
                        } else {
                            match &y {
                                Val::A(y) => y[(*k - n) as usize].clone(),
                                _ => Val::C(0),
                            }
                        });
                    }
                    st.cur.regs[*d as usize] = Val::A(Rc::new(v));
                }
                I::AtomicRmw(w, op, d, p, v) => {
                    let p = self.get(st, p);
                    let v = self.get(st, v);
                    let a = self.conc(st, &p)?;
                    let old = self.load_int(st, a, *w as u32)?;
                    let new = match *op {
                        "xchg" => v,
                        "add" => self.bin(Op::Add, *w, &old, &v)?,
                        "sub" => self.bin(Op::Sub, *w, &old, &v)?,
                        "and" => self.bin(Op::And, *w, &old, &v)?,
                        "or" => self.bin(Op::Or, *w, &old, &v)?,
                        o => eng!("atomicrmw {o}"),
                    };
                    self.store(st, a, &Mem::Int(*w as u32), &new)?;
                    if *d != u32::MAX {
                        st.cur.regs[*d as usize] = old;
                    }
                }
                I::CmpXchg(w, d, p, x, y) => {
                    let p = self.get(st, p);
                    let x = self.get(st, x);
                    let y = self.get(st, y);
                    let a = self.conc(st, &p)?;
                    let old = self.load_int(st, a, *w as u32)?;
                    let c = self.icmp(Pred::Eq, *w, &old, &x)?;
                    let ok = self.decide(st, &c)?;
                    if ok {
                        self.store(st, a, &Mem::Int(*w as u32), &y)?;
                    }
                    st.cur.regs[*d as usize] = Val::A(Rc::new(vec![old, Val::C(ok as u64)]));
                }
            }
            st.cur.ip += 1;
        }
    }

    /// continue after a call instruction (next instruction or invoke's normal edge)
    fn after_call(&mut self, st: &mut State) {
        let f = st.cur.f;
        match &f.code[st.cur.ip as usize] {
            I::Call(_, _, _, _, Some(e)) => self.take(st, e),
            _ => st.cur.ip += 1,
        }
    }

    fn switch<'a>(&mut self, st: &mut State, e: E, w: u8, cs: &'a [(u64, Edge)], dflt: &'a Edge) -> X<&'a Edge> {
        let n = &self.ar.nodes[e as usize];
        if let Some(t) = n.table.clone() {
            // group the cases that reach the same place with no phi moves
            let d = st.dom[n.var as usize];
            let v0 = t[dom_first(&d) as usize];
            let tgt = |v: u64| cs.binary_search_by_key(&v, |c| c.0).ok();
            let same = |a: Option<usize>, b: Option<usize>| match (a, b) {
                (None, None) => true,
                (Some(x), Some(y)) => x == y || (cs[x].1.ip == cs[y].1.ip && cs[x].1.moves.is_empty()),
                (Some(x), None) | (None, Some(x)) => cs[x].1.ip == dflt.ip && dflt.moves.is_empty() && cs[x].1.moves.is_empty(),
            };
            let t0 = tgt(v0);
            let mut sel = [0u64; 256];
            for (i, o) in sel.iter_mut().enumerate() {
                *o = same(t0, tgt(t[i])) as u64;
            }
            let var = n.var;
            let cond = self.ar.table(var, 1, sel, None);
            if let Some(c) = self.ar.cval(cond) {
                debug_assert!(c == 1);
                return Ok(t0.map(|i| &cs[i].1).unwrap_or(dflt));
            }
            if self.decide_e(st, cond)? {
                return Ok(t0.map(|i| &cs[i].1).unwrap_or(dflt));
            }
            return self.switch(st, e, w, cs, dflt);
        }
        for c in cs {
            let k = self.ar.constant(c.0, w);
            let eq = self.ar.mk(Op::Eq, 1, e, k, 0, 0);
            if self.decide_e(st, eq)? {
                return Ok(&c.1);
            }
        }
        Ok(dflt)
    }

    /// load through an address that is a function of one byte: build the
    /// resulting value table instead of forking, when every target is concrete
    fn table_load(&mut self, st: &mut State, p: &Val, m: &Mem) -> X<Option<Val>> {
        let (Val::S(e), Mem::Int(bits)) = (p, m) else { return Ok(None) };
        let n = &self.ar.nodes[*e as usize];
        let Some(t) = n.table.clone() else { return Ok(None) };
        let var = n.var;
        let d = st.dom[var as usize];
        let mut out = [0u64; 256];
        let mut last = 0;
        for b in dom_iter(&d) {
            let id = (t[b as usize] >> 32) as u32;
            if id == 0 || id >= self.ngl() {
                return Ok(None);
            }
            match self.load_int(st, t[b as usize], *bits) {
                Ok(Val::C(v)) => {
                    out[b as usize] = v;
                    last = v;
                }
                _ => return Ok(None),
            }
        }
        for b in 0..=255u8 {
            if !dom_has(&d, b) {
                out[b as usize] = last;
            }
        }
        let r = self.ar.table(var, *bits as u8, out, None);
        Ok(Some(self.val(r)))
    }

    fn bitcast(&mut self, t: &Ty, t2: &Ty, v: &Val) -> X<Val> {
        // via a little-endian bit string
        let mut bits: Option<E> = None;
        let mut total = 0u32;
        match (t, v) {
            (Ty::Vec(_, e), Val::A(x)) => {
                if x.iter().all(|y| matches!(y, Val::C(_))) {
                    let w = e.bits();
                    let mut acc = 0u128;
                    for (i, y) in x.iter().enumerate() {
                        let Val::C(c) = y else { unreachable!() };
                        acc |= (*c as u128) << (i as u32 * w);
                    }
                    return self.from_bits(t2, acc);
                }
                for y in x.iter() {
                    let w = e.bits();
                    let ye = self.ex(y, w as u8)?;
                    total += w;
                    if total > 64 {
                        eng!("symbolic bitcast above 64 bits");
                    }
                    bits = Some(match bits {
                        None => ye,
                        Some(lo) => self.ar.mk(Op::Concat, total as u8, ye, lo, 0, 0),
                    });
                }
                if let Ty::Int(_) = t2 {
                    return Ok(self.val(bits.unwrap()));
                }
                eng!("symbolic vector bitcast")
            }
            (_, Val::C(c)) => self.from_bits(t2, *c as u128),
            (_, Val::W(c)) => self.from_bits(t2, **c),
            _ => eng!("bitcast"),
        }
    }
    fn from_bits(&mut self, t: &Ty, v: u128) -> X<Val> {
        match t {
            Ty::Vec(n, e) => {
                let w = e.bits();
                let m = mask_w(w as u8) as u128;
                Ok(Val::A(Rc::new((0..*n).map(|i| Val::C((v >> (i as u32 * w) & m) as u64)).collect())))
            }
            _ => {
                if t.bits() > 64 {
                    Ok(Val::W(Rc::new(v)))
                } else {
                    Ok(Val::C(v as u64 & mask_w(t.bits() as u8)))
                }
            }
        }
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, w: u8, a: &[Val]) -> X<Val> {
        let m = mask_w(w);
        Ok(match i {
            Intr::Nop => Val::C(0),
            Intr::Ident => a[0].clone(),
            Intr::False => Val::C(0),
            Intr::Trap => return Err(Stop::Fail(format!("trap in {}", self.backtrace(st)))),
            Intr::Memcpy => {
                let n = self.conc(st, &a[2])?;
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                self.memcpy(st, d, s, n)?;
                Val::C(0)
            }
            Intr::Memset => {
                let n = self.conc(st, &a[2])?;
                let d = self.conc(st, &a[0])?;
                if n > 0 {
                    match &a[1] {
                        Val::C(b) => {
                            let b = *b as u8;
                            let (o, of) = self.obj_mut(st, d, n, "write")?;
                            o.data[of..of + n as usize].fill(b);
                            clear_sym(o, of, n as usize);
                        }
                        v => {
                            for k in 0..n {
                                self.store(st, d + k, &Mem::Int(8), v)?;
                            }
                        }
                    }
                }
                Val::C(0)
            }
            Intr::Umin | Intr::Umax | Intr::Smin | Intr::Smax => {
                let p = match i {
                    Intr::Umin => Pred::Ult,
                    Intr::Umax => Pred::Ugt,
                    Intr::Smin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, w, &a[0], &a[1])?;
                self.sel(&c, &a[0], &a[1], w)?
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.bin(Op::Urem, w, &a[2], &Val::C(w as u64))?;
                let inv = self.bin(Op::Sub, w, &Val::C(w as u64), &s)?;
                let (x, y) = if i == Intr::Fshl { (s, inv) } else { (inv, s) };
                let h = self.bin(Op::Shl, w, &a[0], &x)?;
                let l = self.bin(Op::Lshr, w, &a[1], &y)?;
                self.bin(Op::Or, w, &h, &l)?
            }
            Intr::Ctpop => self.un(Op::Ctpop, w, &a[0])?,
            Intr::Cttz => self.un(Op::Cttz, w, &a[0])?,
            Intr::Ctlz => self.un(Op::Ctlz, w, &a[0])?,
            Intr::Bswap | Intr::BitReverse => {
                let Val::C(v) = a[0] else { eng!("symbolic bswap") };
                if i == Intr::Bswap {
                    Val::C(v.swap_bytes() >> (64 - w as u32))
                } else {
                    Val::C(v.reverse_bits() >> (64 - w as u32))
                }
            }
            Intr::UaddO | Intr::UsubO | Intr::UmulO | Intr::SaddO | Intr::SsubO | Intr::SmulO => {
                let (x, y) = (&a[0], &a[1]);
                if let (Val::C(x), Val::C(y)) = (x, y) {
                    let (x, y) = (*x, *y);
                    let (sx, sy) = (sext(x, w) as i128, sext(y, w) as i128);
                    let lo = -(1i128 << (w - 1));
                    let hi = (1i128 << (w - 1)) - 1;
                    let (r, o) = match i {
                        Intr::UaddO => (x.wrapping_add(y), x as u128 + y as u128 > m as u128),
                        Intr::UsubO => (x.wrapping_sub(y), x < y),
                        Intr::UmulO => (x.wrapping_mul(y), (x as u128) * (y as u128) > m as u128),
                        Intr::SaddO => ((sx + sy) as u64, !(lo..=hi).contains(&(sx + sy))),
                        Intr::SsubO => ((sx - sy) as u64, !(lo..=hi).contains(&(sx - sy))),
                        _ => ((sx * sy) as u64, !(lo..=hi).contains(&(sx * sy))),
                    };
                    Val::A(Rc::new(vec![Val::C(r & m), Val::C(o as u64)]))
                } else {
                    match i {
                        Intr::UaddO => {
                            let r = self.bin(Op::Add, w, x, y)?;
                            let o = self.icmp(Pred::Ult, w, &r, x)?;
                            Val::A(Rc::new(vec![r, o]))
                        }
                        Intr::UsubO => {
                            let r = self.bin(Op::Sub, w, x, y)?;
                            let o = self.icmp(Pred::Ult, w, x, y)?;
                            Val::A(Rc::new(vec![r, o]))
                        }
                        _ => {
                            let x = self.conc(st, x)?;
                            let y = self.conc(st, y)?;
                            return self.intrinsic(st, i, w, &[Val::C(x), Val::C(y)]);
                        }
                    }
                }
            }
            Intr::UsubSat => {
                let c = self.icmp(Pred::Ult, w, &a[0], &a[1])?;
                let r = self.bin(Op::Sub, w, &a[0], &a[1])?;
                self.sel(&c, &Val::C(0), &r, w)?
            }
            Intr::UaddSat => {
                let r = self.bin(Op::Add, w, &a[0], &a[1])?;
                let c = self.icmp(Pred::Ult, w, &r, &a[0])?;
                self.sel(&c, &Val::C(m), &r, w)?
            }
            Intr::Ucmp | Intr::Scmp => {
                let (lt, gt) = if i == Intr::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &a[0], &a[1])?;
                let g = self.icmp(gt, w, &a[0], &a[1])?;
                let x = self.sel(&g, &Val::C(1), &Val::C(0), 8)?;
                self.sel(&l, &Val::C(255), &x, 8)?
            }
            Intr::Abs => {
                let n = self.bin(Op::Sub, w, &Val::C(0), &a[0])?;
                let c = self.icmp(Pred::Slt, w, &a[0], &Val::C(0))?;
                self.sel(&c, &n, &a[0], w)?
            }
            Intr::Float(f, s) => {
                let x = self.conc(st, &a[0])?;
                let y = match a.get(1) {
                    Some(v) => self.conc(st, v)?,
                    None => 0,
                };
                Val::C(float(f, s, w, x, y))
            }
            Intr::LoadRel => {
                let p = self.conc(st, &a[0])?;
                let o = self.conc(st, &a[1])?;
                let Val::C(r) = self.load_int(st, p.wrapping_add(o), 32)? else { eng!("load.relative") };
                // 16 bits of object, 16 of offset (ll.rs: "relative address")
                let (id, off) = (r as u32 as i32 as i64 >> 16, r as u16 as i16 as i64);
                Val::C(p.wrapping_add((id << 32).wrapping_add(off) as u64))
            }
        })
    }

    fn external(&mut self, st: &mut State, name: &str, a: &[Val]) -> X<Val> {
        Ok(match name {
            "sx_alloc" | "malloc" => {
                let n = self.conc(st, &a[0])?;
                if n > 1 << 28 {
                    return Err(Stop::Fail(format!("allocation of {n} bytes")));
                }
                st.allocs += 1;
                Val::C(self.new_obj(st, n, 1))
            }
            "sx_free" | "free" => {
                let p = self.conc(st, &a[0])?;
                if p != 0 {
                    self.free_obj(st, p)?;
                }
                Val::C(0)
            }
            "sx_byte" => {
                // one fresh symbolic byte
                let i = st.dom.len() as u32;
                if i >= 64 {
                    eng!("more than 64 symbolic bytes");
                }
                let d = self.var_init.get(i as usize).copied().unwrap_or(FULL);
                if dom_empty(&d) {
                    return Err(Stop::Infeasible);
                }
                st.dom.push(d);
                let e = self.ar.var(i);
                Val::S(e)
            }
            "sx_assume" => {
                // keep only the true side; siblings pushed by decide die here
                if self.decide(st, &a[0])? {
                    Val::C(0)
                } else {
                    return Err(Stop::Infeasible);
                }
            }
            "sx_check" => {
                self.stat.checks += 1;
                if let Val::S(_) = a[0] {
                    self.stat.checks_symbolic += 1;
                }
                let id = match &a[1] {
                    Val::C(c) => *c,
                    _ => 0,
                };
                if self.decide(st, &a[0])? {
                    Val::C(0)
                } else {
                    return Err(Stop::Fail(format!("check {id} fails")));
                }
            }
            "sx_cover" => {
                let id = self.conc(st, &a[0])?;
                st.covers |= 1 << (id & 63);
                Val::C(0)
            }
            "sx_cfg" => {
                let i = self.conc(st, &a[0])?;
                Val::C(self.cfg.get(i as usize).copied().unwrap_or(0))
            }
            "sx_conc" => Val::C(self.conc(st, &a[0])?),
            "sx_steps" => Val::C(st.steps),
            // 1: every global and thread-local is what it is when a process starts; 0: as it was before
            "sx_fresh" => {
                if self.conc(st, &a[0])? == 1 {
                    st.gsave = std::mem::take(&mut st.gover);
                } else {
                    st.gover = std::mem::take(&mut st.gsave);
                }
                Val::C(0)
            }
            "bcmp" | "memcmp" => {
                let n = self.conc(st, &a[2])?;
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                // concrete mismatch first for equality-only comparison
                if name == "bcmp" {
                    for i in 0..n {
                        if let (Val::C(x), Val::C(y)) = (self.byte(st, p + i)?, self.byte(st, q + i)?)
                            && x != y
                        {
                            return Ok(Val::C(1));
                        }
                    }
                }
                for i in 0..n {
                    let x = self.byte(st, p + i)?;
                    let y = self.byte(st, q + i)?;
                    let eq = self.icmp(Pred::Eq, 8, &x, &y)?;
                    if !self.decide(st, &eq)? {
                        if name == "bcmp" {
                            return Ok(Val::C(1));
                        }
                        let lt = self.icmp(Pred::Ult, 8, &x, &y)?;
                        return Ok(Val::C(if self.decide(st, &lt)? { 0xffff_ffff } else { 1 }));
                    }
                }
                Val::C(0)
            }
            "strlen" => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    let b = self.byte(st, p + n)?;
                    let z = self.icmp(Pred::Eq, 8, &b, &Val::C(0))?;
                    if self.decide(st, &z)? {
                        break;
                    }
                    n += 1;
                }
                Val::C(n)
            }
            // what is registered to run when the thread ends lies after every assertion
            "__cxa_thread_atexit_impl" => Val::C(0),
            // the seed of the standard hash maps: any fixed one
            "getrandom" => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let (o, off) = self.obj_mut(st, p, n, "write")?;
                clear_sym(o, off as usize, n as usize);
                o.data[off as usize..off as usize + n as usize].fill(0x5a);
                Val::C(n)
            }
            "abort" => return Err(Stop::Fail(format!("abort in {}", self.backtrace(st)))),
            _ => eng!("call to external function {name} from {}", self.backtrace(st)),
        })
    }
}

#[inline(always)]
fn icmp_c(p: Pred, w: u8, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Slt => sext(x, w) < sext(y, w),
        Pred::Sle => sext(x, w) <= sext(y, w),
        Pred::Sgt => sext(x, w) > sext(y, w),
        Pred::Sge => sext(x, w) >= sext(y, w),
    }
}

fn clear_sym(o: &mut Obj, off: usize, n: usize) {
    let a = o.sym.partition_point(|x| (x.0 as usize) < off);
    let b = o.sym.partition_point(|x| (x.0 as usize) < off + n);
    if a < b {
        o.sym.drain(a..b);
    }
}

fn zero_of(t: &Ty) -> Val {
    match t {
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(zero_of).collect())),
        Ty::Arr(n, e) | Ty::Vec(n, e) => Val::A(Rc::new((0..*n).map(|_| zero_of(e)).collect())),
        _ => Val::C(0),
    }
}

fn insert(v: Val, b: &Val, ix: &[u32]) -> Val {
    if ix.is_empty() {
        return b.clone();
    }
    let Val::A(x) = v else { return Val::C(0) };
    let mut x = (*x).clone();
    let i = ix[0] as usize;
    x[i] = insert(x[i].clone(), b, &ix[1..]);
    Val::A(Rc::new(x))
}

pub fn is_panic(n: &str) -> bool {
    n.contains("9panicking9panic_fmt")
        || n.contains("9panicking18panic_nounwind_fmt")
        || n.contains("9panicking14panic_nounwind")
        || n.contains("5alloc18handle_alloc_error")
        || n.contains("rust_panic")
        || n.contains("begin_panic_handler")
}

/// readable tail of a v0-mangled name
pub fn short(n: &str) -> String {
    let mut v = vec![];
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            let st = if b.get(j) == Some(&b'_') { j + 1 } else { j };
            if k >= 2 && st + k <= b.len() && n.is_char_boundary(st) && n.is_char_boundary(st + k) {
                let w = &n[st..st + k];
                if w.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    v.push(w);
                    i = st + k;
                    continue;
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if v.is_empty() { n.to_string() } else { v[v.len().saturating_sub(4)..].join("::") }
}

/// A floating-point operation on operands of `s` bits with a result of `w` bits.
fn float(f: Fl, s: u8, w: u8, a: u64, b: u64) -> u64 {
    let sign = |v: u64, n: u8| if n >= 64 { v as i64 } else { ((v << (64 - n)) as i64) >> (64 - n) };
    // a single-precision operation is the one on doubles, rounded: the rounding is never double for these
    let read = |v: u64| if s == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
    let write = |x: f64| if w == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() };
    match f {
        Fl::FromU if w == 32 => (a as f32).to_bits() as u64,
        Fl::FromU => (a as f64).to_bits(),
        Fl::FromS if w == 32 => (sign(a, s) as f32).to_bits() as u64,
        Fl::FromS => (sign(a, s) as f64).to_bits(),
        Fl::ToU => (read(a) as u64).min(mask_w(w)),
        Fl::ToS => {
            let most = (mask_w(w) >> 1) as i64;
            (read(a) as i64).clamp(-most - 1, most) as u64 & mask_w(w)
        }
        Fl::Cmp(m) => {
            let i = match read(a).partial_cmp(&read(b)) {
                Some(std::cmp::Ordering::Less) => 0,
                Some(std::cmp::Ordering::Equal) => 1,
                Some(std::cmp::Ordering::Greater) => 2,
                None => 3,
            };
            m[i] as u64
        }
        _ => {
            let (x, y) = (read(a), read(b));
            write(match f {
                Fl::Add => x + y,
                Fl::Sub => x - y,
                Fl::Mul => x * y,
                Fl::Div => x / y,
                Fl::Rem => x % y,
                Fl::Neg => -x,
                Fl::Abs => x.abs(),
                Fl::Floor => x.floor(),
                Fl::Ceil => x.ceil(),
                Fl::Trunc => x.trunc(),
                Fl::Round => x.round(),
                Fl::RoundEven => x.round_ties_even(),
                Fl::Sqrt => x.sqrt(),
                Fl::Min => x.min(y),
                Fl::Max => x.max(y),
                _ => x,
            })
        }
    }
}
