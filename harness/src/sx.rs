//! Interface to the symbolic executor.  In the IR build these are intrinsics the
//! executor implements; in the native build they read a recorded model.

#[cfg(not(feature = "native"))]
mod imp {
    use std::alloc::{GlobalAlloc, Layout};
    unsafe extern "C" {
        fn sx_byte() -> u8;
        fn sx_assume(c: bool);
        fn sx_check(c: bool, id: u64);
        fn sx_cover(id: u64);
        fn sx_cfg(i: u64) -> u64;
        fn sx_conc(v: u64) -> u64;
        fn sx_steps() -> u64;
        fn sx_fresh(on: bool);
        fn sx_alloc(n: usize, a: usize) -> *mut u8;
        fn sx_free(p: *mut u8);
    }
    struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            unsafe { sx_alloc(l.size(), l.align()) }
        }
        unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
            unsafe { sx_free(p) }
        }
    }
    #[global_allocator]
    static G: A = A;
    pub fn byte() -> u8 {
        unsafe { sx_byte() }
    }
    pub fn assume(c: bool) {
        unsafe { sx_assume(c) }
    }
    pub fn check(c: bool, id: u64, _msg: &'static str) {
        unsafe { sx_check(c, id) }
    }
    pub fn cover(id: u64) {
        unsafe { sx_cover(id) }
    }
    pub fn cfg(i: u64) -> u64 {
        unsafe { sx_cfg(i) }
    }
    /// make a value concrete (one path per feasible value)
    pub fn conc(v: u64) -> u64 {
        unsafe { sx_conc(v) }
    }
    pub fn note(_: impl FnOnce() -> String) {}
    /// whether `f` does at most twenty times the work (executed instructions) on `doc(2 * n)` than on `doc(n)`
    pub fn effort<T>(n: u64, f: &mut dyn FnMut(&T), doc: &dyn Fn(u64) -> T) -> bool {
        let (a, b) = (doc(n), doc(2 * n));
        let s0 = unsafe { sx_steps() };
        f(&a);
        let s1 = unsafe { sx_steps() };
        f(&b);
        let s2 = unsafe { sx_steps() };
        s2 - s1 <= 20 * (s1 - s0)
    }
    /// whether `f` finds in a new process what was found in this one
    pub fn fresh(_s: &str, f: &mut dyn FnMut() -> bool, _shown: &dyn Fn() -> String) -> bool {
        unsafe { sx_fresh(true) };
        let r = f();
        unsafe { sx_fresh(false) };
        r
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Model {
        pub cfg: Vec<u64>,
        pub bytes: Vec<u8>,
        pub next: usize,
        pub covers: u64,
        pub quiet: bool,
        /// first failed check
        pub failed: Option<(u64, &'static str)>,
        pub assumed: bool,
        pub notes: Vec<String>,
    }
    thread_local! { pub static M: RefCell<Model> = RefCell::new(Model::default()); }
    /// unwinds out of a harness at a failed assumption or check
    pub struct Done;
    pub fn byte() -> u8 {
        M.with_borrow_mut(|m| {
            let b = m.bytes.get(m.next).copied().expect("replay: model has too few bytes");
            m.next += 1;
            b
        })
    }
    pub fn assume(c: bool) {
        if !c {
            M.with_borrow_mut(|m| m.assumed = true);
            std::panic::resume_unwind(Box::new(Done));
        }
    }
    pub fn check(c: bool, id: u64, msg: &'static str) {
        if !c {
            M.with_borrow_mut(|m| m.failed = Some((id, msg)));
            std::panic::resume_unwind(Box::new(Done));
        }
    }
    pub fn cover(id: u64) {
        M.with_borrow_mut(|m| m.covers |= 1 << id);
    }
    pub fn cfg(i: u64) -> u64 {
        M.with_borrow(|m| m.cfg.get(i as usize).copied().expect("replay: cfg too short"))
    }
    pub fn conc(v: u64) -> u64 {
        v
    }
    /// the executor's measure, by the clock: doubles the document until it takes long enough to tell
    pub fn effort<T>(n: u64, f: &mut dyn FnMut(&T), doc: &dyn Fn(u64) -> T) -> bool {
        f(&doc(n));
        f(&doc(2 * n));
        if M.with_borrow(|m| m.quiet) {
            return true;
        }
        let mut time = |k| {
            let d = doc(k);
            let t = std::time::Instant::now();
            f(&d);
            t.elapsed().as_secs_f64()
        };
        let mut k = n;
        let mut t = time(k);
        while t < 0.03 && k < 1 << 13 {
            k *= 2;
            t = time(k);
        }
        let next = time(k + k / 2);
        // half as much again: 1.5^4 is 5
        t < 0.03 || next <= 7.0 * t
    }
    /// the new process is a real one here: it prints what it reads in `s`
    pub fn fresh(s: &str, _f: &mut dyn FnMut() -> bool, shown: &dyn Fn() -> String) -> bool {
        if M.with_borrow(|m| m.quiet) {
            return true;
        }
        let me = std::env::current_exe().expect("own path");
        let o = std::process::Command::new(me).args(["--fresh", s]).output().expect("new process");
        String::from_utf8_lossy(&o.stdout) == shown()
    }
    pub fn note(f: impl FnOnce() -> String) {
        if !M.with_borrow(|m| m.quiet) {
            let s = f();
            M.with_borrow_mut(|m| m.notes.push(s));
        }
    }
}
pub use imp::*;

/// Reads a harness's configuration words in order.
pub struct Cur(u64);
impl Cur {
    pub fn new() -> Self {
        Cur(0)
    }
    pub fn num(&mut self) -> u64 {
        let v = cfg(self.0);
        self.0 += 1;
        v
    }
    /// A text: `n`, then `n` elements: a byte value, 256 for a fresh symbolic byte, or
    /// 300 + i for a symbolic choice among the pieces of alphabet i.
    pub fn text(&mut self) -> String {
        let n = self.num();
        let mut v = Vec::with_capacity(n as usize);
        for _ in 0..n {
            let e = self.num();
            if e < 256 {
                v.push(e as u8);
            } else if e < 300 {
                v.push(byte());
            } else {
                let t = crate::pieces::TABLES[e as usize - 300];
                v.extend_from_slice(t[conc(byte() as u64) as usize].as_bytes());
            }
        }
        // the runner only generates templates that are valid UTF-8 for every value of the holes
        unsafe { String::from_utf8_unchecked(v) }
    }
}
