//! Harness runtime.  Under symbolic execution the `sym_*` functions are interpreted by symx; in the
//! replay binary (feature `native`) they read the recorded input.

extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_check(c: bool, l: *const u8, n: usize);
    fn sym_reach(l: *const u8, n: usize);
    fn sym_log(v: u64);
    fn sym_choose(n: usize) -> usize;
    fn sym_allow_panic(c: bool);
    fn sym_conc(v: usize) -> usize;
}

/// `N` unconstrained symbolic bytes.
#[inline(never)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    if N > 0 {
        unsafe { sym_bytes(b.as_mut_ptr(), N) };
    }
    b
}
pub fn fill(b: &mut [u8]) {
    if !b.is_empty() {
        unsafe { sym_bytes(b.as_mut_ptr(), b.len()) };
    }
}
pub fn u8_() -> u8 {
    bytes::<1>()[0]
}
pub fn u16_() -> u16 {
    u16::from_be_bytes(bytes::<2>())
}
pub fn u32_() -> u32 {
    u32::from_be_bytes(bytes::<4>())
}
pub fn bool_() -> bool {
    u8_() & 1 == 1
}
/// A value in `0..n`; every value is explored on its own paths.
pub fn choose(n: usize) -> usize {
    unsafe { sym_choose(n) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, label: &'static str) {
    unsafe { sym_check(c, label.as_ptr(), label.len()) }
}
pub fn reach(label: &'static str) {
    unsafe { sym_reach(label.as_ptr(), label.len()) }
}
pub fn log(v: u64) {
    unsafe { sym_log(v) }
}
/// From here on a panic of the code under test is a correct outcome (true) or a violation (false).
pub fn allow_panic(c: bool) {
    unsafe { sym_allow_panic(c) }
}
/// Forks until `v` is concrete.
pub fn conc(v: usize) -> usize {
    unsafe { sym_conc(v) }
}
/// Label prefixed equality check of byte strings (no early exit, one verdict for the whole string).
pub fn check_bytes(a: &[u8], b: &[u8], label: &'static str) {
    check(a.len() == b.len(), label);
    if a.len() == b.len() {
        let mut d = 0u8;
        for i in 0..a.len() {
            d |= a[i] ^ b[i];
        }
        check(d == 0, label);
    }
}
pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// `fmt::Write` that folds what it is given into a small digest.
pub struct Sink(pub u64, pub u64);
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.1 += s.len() as u64;
        Ok(())
    }
}

#[cfg(feature = "native")]
pub mod native {
    use std::cell::RefCell;
    pub struct Rt {
        pub input: Vec<u8>,
        pub pos: usize,
        pub logs: Vec<u64>,
        pub allow: bool,
    }
    thread_local!(pub static RT: RefCell<Rt> = RefCell::new(Rt { input: vec![], pos: 0, logs: vec![], allow: false }));

    fn take() -> u8 {
        RT.with(|r| {
            let mut r = r.borrow_mut();
            let p = r.pos;
            r.pos += 1;
            r.input.get(p).copied().unwrap_or(0)
        })
    }
    pub fn finish(code: i32, what: &str) -> ! {
        RT.with(|r| {
            let r = r.borrow();
            let l: Vec<String> = r.logs.iter().map(|x| x.to_string()).collect();
            println!("LOGS {}", l.join(","));
        });
        println!("{}", what);
        std::process::exit(code);
    }
    unsafe fn s<'a>(p: *const u8, n: usize) -> &'a str {
        std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap()
    }
    #[no_mangle]
    unsafe extern "C" fn sym_bytes(p: *mut u8, n: usize) {
        for i in 0..n {
            *p.add(i) = take();
        }
    }
    #[no_mangle]
    extern "C" fn sym_assume(c: bool) {
        if !c {
            finish(43, "ASSUMPTION not met");
        }
    }
    #[no_mangle]
    unsafe extern "C" fn sym_check(c: bool, l: *const u8, n: usize) {
        if !c {
            finish(42, &format!("CHECK-FAILED {}", s(l, n)));
        }
    }
    #[no_mangle]
    unsafe extern "C" fn sym_reach(l: *const u8, n: usize) {
        println!("REACH {}", s(l, n));
    }
    #[no_mangle]
    extern "C" fn sym_log(v: u64) {
        RT.with(|r| r.borrow_mut().logs.push(v));
    }
    #[no_mangle]
    extern "C" fn sym_choose(n: usize) -> usize {
        let v = take() as usize;
        if v >= n {
            finish(43, "CHOICE out of range");
        }
        v
    }
    #[no_mangle]
    extern "C" fn sym_allow_panic(c: bool) {
        RT.with(|r| r.borrow_mut().allow = c);
    }
    #[no_mangle]
    extern "C" fn sym_conc(v: usize) -> usize {
        v
    }
    /// Entry of the replay binary: `hcore ENTRY HEXINPUT`.
    pub fn main(table: &[(&str, extern "C" fn())]) {
        let a: Vec<String> = std::env::args().collect();
        let hex = a.get(2).cloned().unwrap_or_default();
        let input: Vec<u8> =
            (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        RT.with(|r| r.borrow_mut().input = input);
        std::panic::set_hook(Box::new(|i| {
            let allow = RT.with(|r| r.try_borrow().map(|r| r.allow).unwrap_or(false));
            finish(if allow { 44 } else { 45 }, &format!("PANIC {}", i));
        }));
        let f = table.iter().find(|x| x.0 == a[1]).expect("entry").1;
        f();
        finish(0, "DONE");
    }
}

/// Declares harness entry points.
#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* fn $f:ident() $b:block)*) => {
        $($(#[$m])* #[no_mangle] #[inline(never)] pub extern "C" fn $f() $b)*
    };
}

#[macro_export]
macro_rules! entries {
    ($($m:ident { $($f:ident)* })*) => {
        #[cfg(feature = "native")]
        fn main() {
            $crate::rt::native::main(&[$($((stringify!($f), $m::$f as extern "C" fn())),*),*]);
        }
        #[cfg(not(feature = "native"))]
        fn main() {
            $($($m::$f();)*)*
        }
    };
}
