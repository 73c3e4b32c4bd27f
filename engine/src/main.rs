//! `sx`: a forking symbolic executor for the LLVM IR of a Rust harness.
//!
//! usage: sx IR.ll JOBS OUT.json [--threads N] [--budget SECONDS] [--max-fails N]
//!           [--solver CMD] [--cross CMD] [--profile]
//!
//! JOBS is a text file:
//!   job NAME
//!   fn HARNESS_FUNCTION
//!   cfg N N N ...            configuration words the harness reads
//!   dom HEX64 HEX64 ...      domain (256-bit set) of each symbolic byte, in order
//!   need MASK                coverage marks at least one passing path must set
//!   end
mod exec;
mod expr;
mod func;
mod ll;
mod regalloc;
mod smt;
use exec::{Ctx, Stop};
use expr::*;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
struct Job {
    name: String,
    func: String,
    cfg: Vec<u64>,
    dom: Vec<Dom>,
    need: u64,
}

#[derive(Default)]
struct JobRes {
    paths: u64,
    assumed_away: u64,
    volume: u128,
    assumed_volume: u128,
    inexact: u64,
    covers: u64,
    insts: u64,
    max_steps: u64,
    wall: f64,
    /// a model of one passing path per coverage mask
    samples: Vec<(u64, Vec<u8>)>,
    fails: Vec<(String, Vec<u8>)>,
    nfails: u64,
    engine: Vec<String>,
    /// models of paths the executor cannot follow: not decided, but worth a native run
    lost: Vec<(String, Vec<u8>)>,
    nlost: u64,
}

fn main() {
    if let Err(e) = real_main() {
        eprintln!("sx: {e}");
        std::process::exit(2);
    }
}

fn parse_jobs(s: &str) -> Result<Vec<Job>, String> {
    let mut v = vec![];
    let mut j = Job::default();
    for l in s.lines() {
        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "job" => j = Job { name: r.to_string(), ..Default::default() },
            "fn" => j.func = r.to_string(),
            "cfg" => j.cfg = r.split_whitespace().map(|x| x.parse().map_err(|_| format!("cfg {x}"))).collect::<Result<_, _>>()?,
            "dom" => {
                for h in r.split_whitespace() {
                    if h.len() != 64 {
                        return Err(format!("domain {h}"));
                    }
                    let mut d = [0u64; 4];
                    for (i, w) in d.iter_mut().enumerate() {
                        // most significant word first
                        *w = u64::from_str_radix(&h[(3 - i) * 16..(4 - i) * 16], 16).map_err(|e| e.to_string())?;
                    }
                    j.dom.push(d);
                }
            }
            "need" => j.need = r.trim().parse().map_err(|_| "need")?,
            "end" => v.push(j.clone()),
            "" => {}
            o => return Err(format!("job line `{o}`")),
        }
    }
    Ok(v)
}

/// split a byte domain into work units: markup characters singly, the rest together
fn atoms(d: &Dom) -> Vec<Dom> {
    let mut out = vec![];
    let mut rest = *d;
    for c in b"\n\r #!*+-()[]_|{}%\\`~>" {
        if dom_has(d, *c) {
            let mut x = [0; 4];
            dom_set(&mut x, *c);
            rest = dom_andn(&rest, &x);
            out.push(x);
        }
    }
    if !dom_empty(&rest) {
        out.push(rest);
    }
    out
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn real_main() -> Result<(), String> {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        return Err("usage: sx IR.ll JOBS OUT.json [options]".into());
    }
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let threads: usize = opt("--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
    let budget: f64 = opt("--budget").and_then(|x| x.parse().ok()).unwrap_or(800.0);
    let max_fails: usize = opt("--max-fails").and_then(|x| x.parse().ok()).unwrap_or(40);
    let step_limit: u64 = opt("--steps").and_then(|x| x.parse().ok()).unwrap_or(20_000_000);
    let solver = opt("--solver").unwrap_or_else(|| "z3 -in -t:60000".into());
    let cross = opt("--cross");
    let profile = a.iter().any(|x| x == "--profile");
    let text = std::fs::read_to_string(&a[1]).map_err(|e| format!("{}: {e}", a[1]))?;
    let jobs = parse_jobs(&std::fs::read_to_string(&a[2]).map_err(|e| format!("{}: {e}", a[2]))?)?;
    let t0 = Instant::now();
    let m: &'static ll::Module = Box::leak(Box::new(ll::Module::load(text)?));
    let cache: &'static smt::Cache = Box::leak(Box::default());
    for j in &jobs {
        if !m.fidx.contains_key(j.func.as_str()) {
            return Err(format!("no function {} in the IR", j.func));
        }
    }
    // work units
    let mut units: Vec<(usize, Vec<Dom>)> = vec![];
    for (k, j) in jobs.iter().enumerate() {
        let mut us: Vec<Vec<Dom>> = vec![vec![]];
        for (i, d) in j.dom.iter().enumerate() {
            let at = if i < 2 && j.dom.len() > 2 { atoms(d) } else { vec![*d] };
            let mut n = vec![];
            for u in &us {
                for x in &at {
                    let mut u = u.clone();
                    u.push(*x);
                    n.push(u);
                }
            }
            us = n;
        }
        for u in us {
            units.push((k, u));
        }
    }
    // largest jobs first
    units.sort_by_key(|(k, _)| std::cmp::Reverse(jobs[*k].dom.len()));
    let nunits = units.len();
    // the queue grows while it is worked on: a busy thread hands out what it has not begun
    let queue: Arc<Mutex<Vec<(usize, Vec<Dom>)>>> = Arc::new(Mutex::new(units.into_iter().rev().collect()));
    let hungry = Arc::new(AtomicUsize::new(0));
    let jobs = Arc::new(jobs);
    let stop = Arc::new(AtomicBool::new(false));
    let nfail = Arc::new(AtomicUsize::new(0));
    let res: Arc<Vec<Mutex<JobRes>>> = Arc::new(jobs.iter().map(|_| Mutex::new(JobRes::default())).collect());
    let funcs: Arc<Mutex<BTreeSet<String>>> = Arc::default();
    let stats: Arc<Mutex<exec::Stat>> = Arc::default();
    let prof: Arc<Mutex<std::collections::HashMap<&'static str, (u64, u64)>>> = Arc::default();
    let deadline = t0 + Duration::from_secs_f64(budget);
    let mut hs = vec![];
    let nerr = Arc::new(AtomicUsize::new(0));
    for _ in 0..threads {
        let nerr = nerr.clone();
        let (queue, hungry, jobs, stop, nfail, res, funcs, stats, solver, cross, prof) = (
            queue.clone(),
            hungry.clone(),
            jobs.clone(),
            stop.clone(),
            nfail.clone(),
            res.clone(),
            funcs.clone(),
            stats.clone(),
            solver.clone(),
            cross.clone(),
            prof.clone(),
        );
        hs.push(std::thread::spawn(move || {
            let fresh = || {
                let mut c = Ctx::new(m, smt::Smt::new(&solver, cross.clone(), cache));
                c.deadline = Some(deadline);
                c.step_limit = step_limit;
                if profile {
                    c.prof = Some(Default::default());
                }
                c
            };
            let mut c = fresh();
            let mut waiting = false;
            loop {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let unit = queue.lock().unwrap().pop();
                let Some((k, doms)) = unit else {
                    // every thread without work: nothing can appear any more
                    if !waiting {
                        waiting = true;
                        hungry.fetch_add(1, Ordering::SeqCst);
                    }
                    if hungry.load(Ordering::SeqCst) == threads && queue.lock().unwrap().is_empty() {
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(300));
                    continue;
                };
                if waiting {
                    waiting = false;
                    hungry.fetch_sub(1, Ordering::SeqCst);
                }
                let k = &k;
                let run = std::panic::AssertUnwindSafe(|| {
                    run_unit(&mut c, &jobs[*k], *k, &doms, &stop, &nfail, max_fails, &hungry, &queue)
                });
                let r = std::panic::catch_unwind(run).unwrap_or_else(|_| {
                    c = fresh();
                    JobRes { engine: vec!["the executor panicked".into()], ..Default::default() }
                });
                let mut t = res[*k].lock().unwrap();
                t.paths += r.paths;
                t.assumed_away += r.assumed_away;
                t.volume += r.volume;
                t.assumed_volume += r.assumed_volume;
                t.inexact += r.inexact;
                t.covers |= r.covers;
                t.insts += r.insts;
                t.wall += r.wall;
                t.max_steps = t.max_steps.max(r.max_steps);
                t.nfails += r.nfails;
                for s in r.samples {
                    if t.samples.len() < 6 && !t.samples.iter().any(|x| x.0 == s.0) {
                        t.samples.push(s);
                    }
                }
                if t.fails.len() < max_fails {
                    t.fails.extend(r.fails);
                }
                // what cannot be decided in one place does not keep the rest from being explored
                if !r.engine.is_empty() && nerr.fetch_add(1, Ordering::Relaxed) > 5000 {
                    stop.store(true, Ordering::Relaxed);
                }
                t.nlost += r.nlost;
                if t.engine.len() < 8 {
                    t.engine.extend(r.engine);
                }
                if t.lost.len() < 8 {
                    t.lost.extend(r.lost);
                }
            }
            let mut f = funcs.lock().unwrap();
            for i in &c.fnset {
                f.insert(m.funcs[*i as usize].0.to_string());
            }
            if let Some(p) = &c.prof {
                let mut g = prof.lock().unwrap();
                for (k, v) in p {
                    let e = g.entry(k).or_default();
                    e.0 += v.0;
                    e.1 += v.1;
                }
            }
            let mut s = stats.lock().unwrap();
            s.insts += c.stat.insts;
            s.forks += c.stat.forks;
            s.decisions += c.stat.decisions;
            s.checks += c.stat.checks;
            s.checks_symbolic += c.stat.checks_symbolic;
            s.multi_queries += c.stat.multi_queries;
            s.concretized += c.stat.concretized;
            s.confirmed += c.stat.confirmed;
        }));
    }
    let mut panicked = 0;
    for h in hs {
        if h.join().is_err() {
            panicked += 1;
        }
    }
    if profile {
        let g = prof.lock().unwrap();
        let mut v: Vec<_> = g.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1.1));
        for (k, (n, f)) in v.iter().take(30) {
            eprintln!("{n:>9} calls {f:>9} forks {}", exec::short(k));
        }
    }
    let s = stats.lock().unwrap();
    let mut o = String::new();
    let stopped = stop.load(Ordering::Relaxed);
    let _ = write!(
        o,
        "{{\"wall\":{:.3},\"stopped\":{},\"threads\":{},\"panicked\":{},\"units\":{},\"insts\":{},\"forks\":{},\"decisions\":{},\"decisions_confirmed\":{},\"checks\":{},\"checks_symbolic\":{},\"multi_queries\":{},\"concretized\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"solver_s\":{:.3},\n\"functions\":[",
        t0.elapsed().as_secs_f64(),
        stopped,
        threads,
        panicked,
        nunits,
        s.insts,
        s.forks,
        s.decisions,
        s.confirmed,
        s.checks,
        s.checks_symbolic,
        s.multi_queries,
        s.concretized,
        smt::QUERIES.load(Ordering::Relaxed),
        smt::SAT.load(Ordering::Relaxed),
        smt::UNSAT.load(Ordering::Relaxed),
        smt::CACHE_HITS.load(Ordering::Relaxed),
        smt::SOLVER_NS.load(Ordering::Relaxed) as f64 / 1e9,
    );
    for (i, f) in funcs.lock().unwrap().iter().enumerate() {
        let _ = write!(o, "{}\"{}\"", if i > 0 { "," } else { "" }, esc(f));
    }
    o.push_str("],\n\"jobs\":[\n");
    for (i, j) in jobs.iter().enumerate() {
        let r = res[i].lock().unwrap();
        let total: u128 = j.dom.iter().map(|d| dom_count(d) as u128).product();
        let _ = write!(
            o,
            "{}{{\"name\":\"{}\",\"fn\":\"{}\",\"symbolic_bytes\":{},\"inputs\":{},\"volume\":{},\"assumed_volume\":{},\"complete\":{},\"inexact\":{},\"paths\":{},\"assumed_away\":{},\"covers\":{},\"need\":{},\"insts\":{},\"max_steps\":{},\"cpu_s\":{:.3},\"nfails\":{},\"fails\":[",
            if i > 0 { ",\n" } else { "" },
            esc(&j.name),
            j.func,
            j.dom.len(),
            total,
            r.volume,
            r.assumed_volume,
            if r.inexact > 0 { !stopped && r.engine.is_empty() } else { r.volume == total },
            r.inexact,
            r.paths,
            r.assumed_away,
            r.covers,
            j.need,
            r.insts,
            r.max_steps,
            r.wall,
            r.nfails,
        );
        for (k, (msg, m)) in r.fails.iter().enumerate() {
            let _ = write!(o, "{}[\"{}\",{:?}]", if k > 0 { "," } else { "" }, esc(msg), m);
        }
        o.push_str("],\"samples\":[");
        for (k, (c, m)) in r.samples.iter().enumerate() {
            let _ = write!(o, "{}[{},{:?}]", if k > 0 { "," } else { "" }, c, m);
        }
        o.push_str("],\"lost\":[");
        for (k, (msg, m)) in r.lost.iter().enumerate() {
            let _ = write!(o, "{}[\"{}\",{:?}]", if k > 0 { "," } else { "" }, esc(msg), m);
        }
        let _ = write!(o, "],\"nlost\":{},\"engine\":[", r.nlost);
        for (k, m) in r.engine.iter().enumerate() {
            let _ = write!(o, "{}\"{}\"", if k > 0 { "," } else { "" }, esc(m));
        }
        o.push_str("]}");
    }
    o.push_str("\n]}\n");
    std::fs::write(&a[3], o).map_err(|e| format!("{}: {e}", a[3]))?;
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn run_unit(
    c: &mut Ctx,
    j: &Job,
    k: usize,
    doms: &[Dom],
    stop: &AtomicBool,
    nfail: &AtomicUsize,
    max_fails: usize,
    hungry: &AtomicUsize,
    queue: &Mutex<Vec<(usize, Vec<Dom>)>>,
) -> JobRes {
    let t = Instant::now();
    let mut r = JobRes::default();
    c.work.clear();
    c.cfg = j.cfg.clone();
    c.var_init = doms.to_vec();
    let i0 = c.stat.insts;
    let f = c.m.fidx[j.func.as_str()];
    match c.start(f, &[]) {
        Ok(s) => c.work.push(s),
        Err(Stop::Engine(e)) => r.engine.push(e),
        Err(_) => r.engine.push("start".into()),
    }
    while let Some(mut st) = c.work.pop() {
        if stop.load(Ordering::Relaxed) {
            break;
        }
        if let Some(d) = c.deadline
            && Instant::now() > d
        {
            r.engine.push("time budget exhausted".into());
            stop.store(true, Ordering::Relaxed);
            break;
        }
        // a state whose path is a box of the inputs can be explored again from the start, elsewhere
        while hungry.load(Ordering::Relaxed) > 0 && c.work.len() > 1 && c.work[0].multi.is_empty() {
            let o = c.work.remove(0);
            let mut d = o.dom.to_vec();
            d.extend_from_slice(&doms[d.len().min(doms.len())..]);
            let mut q = queue.lock().unwrap();
            q.push((k, d));
            if q.len() >= 16 {
                break;
            }
        }
        let end = c.run(&mut st);
        let mut vol: u128 = st.dom.iter().map(|d| dom_count(d) as u128).product();
        for d in &doms[st.dom.len().min(doms.len())..] {
            vol *= dom_count(d) as u128;
        }
        if !st.multi.is_empty() {
            r.inexact += 1;
        }
        r.max_steps = r.max_steps.max(st.steps);
        match end {
            Stop::Done => {
                r.paths += 1;
                r.volume += vol;
                if r.covers & st.covers != st.covers || r.samples.is_empty() {
                    r.covers |= st.covers;
                    if r.samples.len() < 6
                        && let Some(m) = c.model(&st, &[])
                    {
                        r.samples.push((st.covers, m));
                    }
                }
            }
            Stop::Infeasible => {
                r.assumed_away += 1;
                r.volume += vol;
                r.assumed_volume += vol;
            }
            Stop::Fail(msg) => {
                r.paths += 1;
                r.volume += vol;
                r.nfails += 1;
                if r.fails.len() < max_fails {
                    match c.model(&st, &[]) {
                        Some(m) => r.fails.push((msg, m)),
                        None => r.engine.push(format!("no model for failing path: {msg}")),
                    }
                }
                if nfail.fetch_add(1, Ordering::Relaxed) + 1 >= max_fails {
                    stop.store(true, Ordering::Relaxed);
                }
            }
            Stop::Engine(e) => {
                r.nlost += 1;
                if r.lost.len() < 4 {
                    let e = format!("{e} [in {}]", c.backtrace(&st));
                    if let Some(m) = c.model(&st, &[]) {
                        r.lost.push((e.clone(), m));
                    }
                    r.engine.push(e);
                }
                if r.nlost > 200 {
                    break;
                }
            }
        }
    }
    c.work.clear();
    r.insts = c.stat.insts - i0;
    r.wall = t.elapsed().as_secs_f64();
    r
}
