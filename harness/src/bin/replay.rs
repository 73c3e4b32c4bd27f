//! replay FILE: runs a harness natively on a recorded model.
//! exit 0: property held; 1: check failed; 3: an assumption does not hold; 101: panic.
//! replay --batch FILE: runs many, printing `INDEX OUTCOME COVERS` for each.
//!
//! replay --fresh TEXT: prints what a new process reads in the text.
//!
//! A model is `fn NAME`, `cfg N…`, `bytes HEX…`, `end`.
use std::panic::{AssertUnwindSafe, catch_unwind};
use yh::sx::{Done, M};

fn run(name: &str) -> &'static str {
    let f = yh::by_name(name).expect("no such harness");
    let r = catch_unwind(AssertUnwindSafe(|| yh::run(f)));
    M.with_borrow(|m| {
        if m.failed.is_some() {
            "failed"
        } else if m.assumed {
            "assumed"
        } else {
            match r {
                Ok(()) => "held",
                Err(e) if e.is::<Done>() => "held",
                Err(_) => "panic",
            }
        }
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|x| x == "--fresh") {
        print!("{}", yh::shown(&a[2]));
        return;
    }
    let batch = a.get(1).is_some_and(|x| x == "--batch");
    let path = a.get(1 + batch as usize).expect("usage: replay [--batch] FILE");
    let text = std::fs::read_to_string(path).expect("read model");
    if batch {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut name = String::new();
    let mut n = 0;
    for l in text.lines() {
        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "fn" => {
                name = r.trim().to_string();
                M.with_borrow_mut(|m| *m = Default::default());
            }
            "cfg" => M.with_borrow_mut(|m| m.cfg = r.split_whitespace().map(|x| x.parse().expect("cfg")).collect()),
            "bytes" => {
                M.with_borrow_mut(|m| m.bytes = r.split_whitespace().map(|x| u8::from_str_radix(x, 16).expect("byte")).collect())
            }
            "end" => {
                M.with_borrow_mut(|m| m.quiet = batch);
                let o = run(&name);
                if batch {
                    println!("{n} {o} {}", M.with_borrow(|m| m.covers));
                    n += 1;
                    continue;
                }
                M.with_borrow(|m| {
                    for n in &m.notes {
                        println!("{n}");
                    }
                    if let Some((id, msg)) = m.failed {
                        println!("CHECK FAILED {id}: {msg}");
                    }
                });
                println!("{o}");
                std::process::exit(match o {
                    "held" => 0,
                    "failed" => 1,
                    "assumed" => 3,
                    _ => 101,
                });
            }
            _ => {}
        }
    }
}
