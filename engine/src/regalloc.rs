//! Liveness-based register compaction: keeps frames small so that forking a
//! path is cheap.  Values are live ranges over the flat code; two values share
//! a register when they are never live at the same time.
use crate::func::*;

fn uses_opnd(o: &Opnd, f: &mut impl FnMut(u32)) {
    match o {
        Opnd::R(r) => f(*r),
        Opnd::K(v) => v.iter().for_each(|x| uses_opnd(x, f)),
        _ => {}
    }
}

fn map_opnd(o: &mut Opnd, m: &[u32]) {
    if let Opnd::R(r) = o {
        *r = m[*r as usize];
    }
}

/// visit (dst, uses, edges)
fn visit<'a>(i: &'a I, mut u: impl FnMut(u32), mut e: impl FnMut(&'a Edge)) -> Option<u32> {
    let d = |x: &u32| if *x == u32::MAX { None } else { Some(*x) };
    match i {
        I::Bin(_, _, r, a, b) | I::Icmp(_, _, r, a, b) | I::Float(_, _, _, r, a, b) => {
            uses_opnd(a, &mut u);
            uses_opnd(b, &mut u);
            d(r)
        }
        I::Zext(_, _, r, a) | I::Sext(_, _, r, a) | I::Trunc(_, _, r, a) | I::Bitcast(_, _, r, a) | I::Copy(r, a) => {
            uses_opnd(a, &mut u);
            d(r)
        }
        I::Select(_, r, a, b, c) => {
            uses_opnd(a, &mut u);
            uses_opnd(b, &mut u);
            uses_opnd(c, &mut u);
            d(r)
        }
        I::Load(_, r, a) => {
            uses_opnd(a, &mut u);
            d(r)
        }
        I::Store(_, a, b) => {
            uses_opnd(a, &mut u);
            uses_opnd(b, &mut u);
            None
        }
        I::Gep(r, a, _, v) => {
            uses_opnd(a, &mut u);
            v.iter().for_each(|x| uses_opnd(&x.0, &mut u));
            d(r)
        }
        I::FrameAddr(r, _) => d(r),
        I::Call(r, c, a, _, ed) => {
            if let Callee::Ind(o) = c {
                uses_opnd(o, &mut u);
            }
            a.iter().for_each(|x| uses_opnd(x, &mut u));
            if let Some(x) = ed {
                e(x);
            }
            *r
        }
        I::Br(x) => {
            e(x);
            None
        }
        I::Cond(c, a, b) => {
            uses_opnd(c, &mut u);
            e(a);
            e(b);
            None
        }
        I::Switch(_, v, cs, df) => {
            uses_opnd(v, &mut u);
            cs.iter().for_each(|x| e(&x.1));
            e(df);
            None
        }
        I::Ret(o) => {
            if let Some(o) = o {
                uses_opnd(o, &mut u);
            }
            None
        }
        I::Unreachable | I::Unsupported(_) => None,
        I::Extract(r, a, _) => {
            uses_opnd(a, &mut u);
            d(r)
        }
        I::Insert(r, a, b, _, _) => {
            uses_opnd(a, &mut u);
            uses_opnd(b, &mut u);
            d(r)
        }
        I::ExtractEl(r, a, b) | I::Shuffle(r, a, b, _) => {
            uses_opnd(a, &mut u);
            uses_opnd(b, &mut u);
            d(r)
        }
        I::InsertEl(r, a, b, c, _) | I::CmpXchg(_, r, a, b, c) => {
            uses_opnd(a, &mut u);
            uses_opnd(b, &mut u);
            uses_opnd(c, &mut u);
            d(r)
        }
        I::AtomicRmw(_, _, r, a, b) => {
            uses_opnd(a, &mut u);
            uses_opnd(b, &mut u);
            d(r)
        }
    }
}

/// does any instruction or edge read one of the given registers?
pub fn uses_any(code: &[I], regs: &std::collections::HashMap<u32, (u32, u32)>) -> bool {
    let mut hit = false;
    for i in code {
        let mut es: Vec<&Edge> = vec![];
        visit(i, |r| hit |= regs.contains_key(&r), |e| es.push(e));
        for e in es {
            for (_, o) in &e.moves {
                uses_opnd(o, &mut |r| hit |= regs.contains_key(&r));
            }
        }
    }
    hit
}

pub fn allocate(f: &mut Func) {
    let n = f.nregs as usize;
    if n == 0 || f.code.is_empty() {
        return;
    }
    // block boundaries from edge targets
    let mut starts: Vec<u32> = vec![0];
    for i in &f.code {
        visit(i, |_| {}, |e| starts.push(e.ip));
    }
    for (k, i) in f.code.iter().enumerate() {
        if matches!(i, I::Br(_) | I::Cond(..) | I::Switch(..) | I::Ret(_) | I::Unreachable | I::Unsupported(_) | I::Call(_, _, _, _, Some(_)))
            && k + 1 < f.code.len()
        {
            starts.push(k as u32 + 1);
        }
    }
    starts.sort();
    starts.dedup();
    let nb = starts.len();
    let blk = |ip: u32| starts.binary_search(&ip).unwrap();
    let words = n.div_ceil(64);
    let mut live_in = vec![vec![0u64; words]; nb];
    let mut live_out = vec![vec![0u64; words]; nb];
    // iterate to fixpoint (backward)
    let bend = |b: usize| if b + 1 < nb { starts[b + 1] } else { f.code.len() as u32 };
    let mut changed = true;
    while changed {
        changed = false;
        for b in (0..nb).rev() {
            // live at the end = union over edges (handled when scanning terminator)
            let mut live = vec![0u64; words];
            let mut out = vec![0u64; words];
            for ip in (starts[b]..bend(b)).rev() {
                let ins = &f.code[ip as usize];
                let mut edges: Vec<&Edge> = vec![];
                let mut us: Vec<u32> = vec![];
                let d = visit(ins, |r| us.push(r), |e| edges.push(e));
                for e in &edges {
                    let t = blk(e.ip);
                    let mut l = live_in[t].clone();
                    for (d, _) in &e.moves {
                        l[*d as usize / 64] &= !(1 << (*d % 64));
                    }
                    for (_, o) in &e.moves {
                        uses_opnd(o, &mut |r| l[r as usize / 64] |= 1 << (r % 64));
                    }
                    for k in 0..words {
                        live[k] |= l[k];
                        out[k] |= l[k];
                    }
                }
                // fallthrough does not exist in IR; blocks always end in a terminator
                if let Some(d) = d {
                    live[d as usize / 64] &= !(1 << (d % 64));
                }
                for u in us {
                    live[u as usize / 64] |= 1 << (u % 64);
                }
            }
            if live != live_in[b] {
                live_in[b] = live;
                changed = true;
            }
            live_out[b] = out;
        }
    }
    // linear intervals [first, last] over positions 2*ip
    let mut lo = vec![u32::MAX; n];
    let mut hi = vec![0u32; n];
    let touch = |r: usize, p: u32, lo: &mut Vec<u32>, hi: &mut Vec<u32>| {
        lo[r] = lo[r].min(p);
        hi[r] = hi[r].max(p);
    };
    for p in &f.params {
        touch(*p as usize, 0, &mut lo, &mut hi);
    }
    for b in 0..nb {
        for r in 0..n {
            if live_in[b][r / 64] >> (r % 64) & 1 == 1 {
                touch(r, starts[b] * 2, &mut lo, &mut hi);
            }
            if live_out[b][r / 64] >> (r % 64) & 1 == 1 {
                touch(r, bend(b) * 2 - 1, &mut lo, &mut hi);
            }
        }
        for ip in starts[b]..bend(b) {
            let mut us = vec![];
            let mut es = vec![];
            let d = visit(&f.code[ip as usize], |r| us.push(r), |e| es.push(e));
            for u in us {
                touch(u as usize, ip * 2, &mut lo, &mut hi);
            }
            if let Some(d) = d {
                touch(d as usize, ip * 2 + 1, &mut lo, &mut hi);
            }
            for e in es {
                for (d, o) in &e.moves {
                    // destination is written on the edge and is live at the target start
                    touch(*d as usize, ip * 2 + 1, &mut lo, &mut hi);
                    touch(*d as usize, e.ip * 2, &mut lo, &mut hi);
                    uses_opnd(o, &mut |r| touch(r as usize, ip * 2 + 1, &mut lo, &mut hi));
                }
            }
        }
    }
    let mut order: Vec<usize> = (0..n).filter(|r| lo[*r] != u32::MAX).collect();
    order.sort_by_key(|r| lo[*r]);
    let mut map = vec![0u32; n];
    let mut active: Vec<(u32, u32)> = vec![]; // (hi, slot)
    let mut free: Vec<u32> = vec![];
    let mut next = 0;
    for r in order {
        active.retain(|(h, s)| {
            if *h < lo[r] {
                free.push(*s);
                false
            } else {
                true
            }
        });
        let s = free.pop().unwrap_or_else(|| {
            next += 1;
            next - 1
        });
        map[r] = s;
        active.push((hi[r], s));
    }
    f.nregs = next.max(1);
    for p in f.params.iter_mut() {
        *p = map[*p as usize];
    }
    for i in f.code.iter_mut() {
        rewrite(i, &map);
    }
}

fn rewrite(i: &mut I, m: &[u32]) {
    let d = |x: &mut u32| {
        if *x != u32::MAX {
            *x = m[*x as usize];
        }
    };
    let ed = |e: &mut Edge| {
        for (d, o) in e.moves.iter_mut() {
            *d = m[*d as usize];
            map_opnd(o, m);
        }
    };
    match i {
        I::Bin(_, _, r, a, b) | I::Icmp(_, _, r, a, b) | I::Float(_, _, _, r, a, b) | I::AtomicRmw(_, _, r, a, b) => {
            d(r);
            map_opnd(a, m);
            map_opnd(b, m);
        }
        I::Zext(_, _, r, a) | I::Sext(_, _, r, a) | I::Trunc(_, _, r, a) | I::Bitcast(_, _, r, a) | I::Copy(r, a) | I::Load(_, r, a) => {
            d(r);
            map_opnd(a, m);
        }
        I::Select(_, r, a, b, c) | I::InsertEl(r, a, b, c, _) | I::CmpXchg(_, r, a, b, c) => {
            d(r);
            map_opnd(a, m);
            map_opnd(b, m);
            map_opnd(c, m);
        }
        I::Store(_, a, b) => {
            map_opnd(a, m);
            map_opnd(b, m);
        }
        I::Gep(r, a, _, v) => {
            d(r);
            map_opnd(a, m);
            v.iter_mut().for_each(|x| map_opnd(&mut x.0, m));
        }
        I::FrameAddr(r, _) => d(r),
        I::Call(r, c, a, _, e) => {
            if let Some(r) = r {
                d(r);
            }
            if let Callee::Ind(o) = c {
                map_opnd(o, m);
            }
            a.iter_mut().for_each(|x| map_opnd(x, m));
            if let Some(e) = e {
                ed(e);
            }
        }
        I::Br(e) => ed(e),
        I::Cond(c, a, b) => {
            map_opnd(c, m);
            ed(a);
            ed(b);
        }
        I::Switch(_, v, cs, df) => {
            map_opnd(v, m);
            cs.iter_mut().for_each(|x| ed(&mut x.1));
            ed(df);
        }
        I::Ret(o) => {
            if let Some(o) = o {
                map_opnd(o, m);
            }
        }
        I::Unreachable | I::Unsupported(_) => {}
        I::Extract(r, a, _) => {
            d(r);
            map_opnd(a, m);
        }
        I::Insert(r, a, b, _, _) | I::ExtractEl(r, a, b) | I::Shuffle(r, a, b, _) => {
            d(r);
            map_opnd(a, m);
            map_opnd(b, m);
        }
    }
}
