//! Harness runtime.  Under the symbolic engine the `__sym_*` functions are primitives of the engine
//! (undefined symbols in the IR); in the `replay` build they read recorded inputs, so the very same
//! harness code runs natively against the real crate.

#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        fn __sym_bytes_in(p: *mut u8, n: usize, a: *const u8, al: usize);
        fn __sym_u8_in(a: *const u8, al: usize) -> u8;
        fn __sym_u32() -> u32;
        fn __sym_choice(n: u32) -> u32;
        fn __sym_assume(b: bool);
        fn __sym_assert(b: bool, id: u32);
        fn __sym_cover(id: u32);
        fn __sym_expect_panic();
        fn __sym_iso_begin();
        fn __sym_iso_end(v: u64) -> u64;
        fn __sym_trace(v: u64);
        fn __sym_param(i: u32) -> u64;
        fn __sym_file(d: *const u8, n: usize, buf: *mut u8, cap: usize) -> usize;
        fn __sym_print(p: *const u8, n: usize);
    }
    pub fn bytes_in(n: usize, a: &[u8]) -> Vec<u8> {
        let mut v = vec![0u8; n];
        if n > 0 {
            unsafe { __sym_bytes_in(v.as_mut_ptr(), n, a.as_ptr(), a.len()) }
        }
        v
    }
    pub fn u8_in(a: &[u8]) -> u8 { unsafe { __sym_u8_in(a.as_ptr(), a.len()) } }
    pub fn u32_any() -> u32 { unsafe { __sym_u32() } }
    pub fn choice(n: usize) -> usize { unsafe { __sym_choice(n as u32) as usize } }
    pub fn assume(b: bool) { unsafe { __sym_assume(b) } }
    pub fn check(b: bool, id: u32) { unsafe { __sym_assert(b, id) } }
    pub fn cover(id: u32) { unsafe { __sym_cover(id) } }
    /// From here on a panic ends the path as it should.
    pub fn panicking(f: impl FnOnce()) {
        unsafe { __sym_expect_panic() }
        f()
    }
    /// What `f` returns when it is called here, without leaving any trace of the call in memory.
    #[inline(never)]
    #[allow(dead_code)]
    pub fn isolated(f: &dyn Fn() -> u64) -> u64 {
        unsafe {
            __sym_iso_begin();
            let r = f();
            __sym_iso_end(r)
        }
    }
    pub fn trace(v: u64) { unsafe { __sym_trace(v) } }
    pub fn param(i: u32) -> usize { unsafe { __sym_param(i) as usize } }
    #[allow(dead_code)]
    pub fn print(s: &str) { unsafe { __sym_print(s.as_ptr(), s.len()) } }
    pub fn file(data: Option<&[u8]>) -> String {
        let mut b = vec![0u8; 64];
        let n = unsafe {
            match data {
                Some(d) => __sym_file(d.as_ptr(), d.len(), b.as_mut_ptr(), 64),
                None => __sym_file(b.as_ptr(), usize::MAX, b.as_mut_ptr(), 64),
            }
        };
        b.truncate(n);
        String::from_utf8(b).unwrap()
    }
}

#[cfg(feature = "replay")]
mod imp {
    use std::cell::RefCell;
    pub struct Ctx {
        pub inputs: Vec<u64>,
        pub pos: usize,
        pub params: Vec<u64>,
        pub trace: Vec<u64>,
        pub covers: Vec<u32>,
        pub files: usize,
        pub dir: String,
    }
    thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx { inputs: vec![], pos: 0, params: vec![], trace: vec![], covers: vec![], files: 0, dir: String::new() }); }
    fn next() -> u64 {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let p = c.pos;
            if p >= c.inputs.len() {
                println!("SHORT");
                std::process::exit(12);
            }
            c.pos += 1;
            c.inputs[p]
        })
    }
    fn within(ok: bool) {
        if !ok {
            println!("OUTSIDE the declared input range");
            std::process::exit(12);
        }
    }
    pub fn u8_in(a: &[u8]) -> u8 {
        let v = next();
        within(a.iter().any(|x| *x as u64 == v));
        v as u8
    }
    pub fn bytes_in(n: usize, a: &[u8]) -> Vec<u8> { (0..n).map(|_| u8_in(a)).collect() }
    pub fn u32_any() -> u32 { next() as u32 }
    pub fn choice(n: usize) -> usize {
        let v = next() as usize;
        within(v < n);
        v
    }
    pub fn assume(b: bool) {
        if !b {
            println!("ASSUMED");
            std::process::exit(11);
        }
    }
    pub fn check(b: bool, id: u32) {
        if !b {
            println!("ASSERT {}", id);
            std::process::exit(10);
        }
    }
    pub fn cover(id: u32) { CTX.with(|c| c.borrow_mut().covers.push(id)) }
    pub fn panicking(f: impl FnOnce()) {
        std::panic::set_hook(Box::new(|_| ()));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let _ = std::panic::take_hook();
    }
    extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn _exit(code: i32) -> !;
        fn kill(pid: i32, sig: i32) -> i32;
        fn getpid() -> i32;
    }
    /// Runs `f` in a child process; ends as the child does unless that ends well.
    pub fn in_child(f: &dyn Fn()) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            let p = fork();
            assert!(p >= 0);
            if p == 0 {
                f();
                let _ = std::io::stdout().flush();
                _exit(0)
            }
            let mut st = 0;
            assert!(waitpid(p, &mut st, 0) == p);
            if st & 127 != 0 {
                kill(getpid(), st & 127);
            }
            if st != 0 {
                std::process::exit(st >> 8 & 255)
            }
        }
    }
    /// What `f` returns when it is called here, without leaving any trace of the call in memory.
    #[allow(dead_code)]
    pub fn isolated(f: &dyn Fn() -> u64) -> u64 {
        let p = CTX.with(|c| format!("{}/isolated{}", c.borrow().dir, std::process::id()));
        in_child(&|| std::fs::write(&p, f().to_string()).unwrap());
        let r = std::fs::read_to_string(&p).unwrap();
        std::fs::remove_file(&p).unwrap();
        r.parse().unwrap()
    }
    pub fn trace(v: u64) { CTX.with(|c| c.borrow_mut().trace.push(v)) }
    pub fn param(i: u32) -> usize { CTX.with(|c| c.borrow().params.get(i as usize).copied().unwrap_or(0) as usize) }
    #[allow(dead_code)]
    pub fn print(s: &str) { println!("PRINT {}", s) }
    pub fn file(data: Option<&[u8]>) -> String {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let p = format!("{}/f{}{}", c.dir, c.files, if data.is_none() { "missing" } else { "" });
            c.files += 1;
            if let Some(d) = data {
                std::fs::write(&p, d).unwrap();
            }
            p
        })
    }
}
pub use imp::*;

/// A string of exactly `n` symbolic bytes, each ranging over the (ASCII) alphabet.
pub fn sym_str(n: usize, alpha: &[u8]) -> String {
    let b = bytes_in(n, alpha);
    unsafe { String::from_utf8_unchecked(b) }
}
/// A string of `lo..=hi` symbolic bytes.
pub fn sym_str_upto(lo: usize, hi: usize, alpha: &[u8]) -> String {
    let n = lo + choice(hi - lo + 1);
    sym_str(n, alpha)
}
pub const ASCII: &[u8] = &{
    let mut a = [0u8; 128];
    let mut i = 0;
    while i < 128 {
        a[i] = i as u8;
        i += 1;
    }
    a
};
pub const DIGITS: &[u8] = b"0123456789";
pub const LOWER: &[u8] = b"abcdefghijklmnopqrstuvwxyz";
pub const LETTERS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

#[macro_export]
macro_rules! cat { ($($x:expr),*) => {{ let mut s = String::new(); $( s.push_str($x.as_ref()); )* s }} }
