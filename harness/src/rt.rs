//! Interface of the harness to whatever runs it: the symbolic machine (riscv64
//! build, calls become intrinsics) or the native replayer (values are given).

#[cfg(target_arch = "riscv64")]
mod imp {
    unsafe extern "C" {
        fn sx_choice(n: usize) -> usize;
        fn sx_check(b: usize, p: *const u8, n: usize);
        fn sx_assume(b: usize);
        fn sx_observe(p: *const u8, n: usize);
        fn sx_conc(n: usize) -> usize;
    }
    pub fn choice(n: usize) -> usize {
        unsafe { sx_choice(n) }
    }
    pub fn check(b: bool, label: &str) {
        unsafe { sx_check(b as usize, label.as_ptr(), label.len()) }
    }
    pub fn assume(b: bool) {
        unsafe { sx_assume(b as usize) }
    }
    pub fn obs(_label: &str, b: &[u8]) {
        unsafe { sx_observe(b.as_ptr(), b.len()) }
    }
    pub fn conc(n: usize) -> usize {
        unsafe { sx_conc(n) }
    }
}

#[cfg(not(target_arch = "riscv64"))]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Run {
        pub choices: Vec<usize>,
        pub next: usize,
        pub obs: Vec<(String, Vec<u8>)>,
        pub checks: usize,
    }
    thread_local! {
        pub static RUN: RefCell<Run> = RefCell::new(Run::default());
    }
    /// How a native run ends early.
    pub enum Stop {
        Check(String),
        Assume,
        Choices,
    }
    pub fn choice(n: usize) -> usize {
        let v = RUN.with(|r| {
            let mut r = r.borrow_mut();
            let i = r.next;
            r.next += 1;
            r.choices.get(i).copied()
        });
        match v {
            Some(v) if v < n => v,
            _ => std::panic::panic_any(Stop::Choices),
        }
    }
    pub fn check(b: bool, label: &str) {
        RUN.with(|r| r.borrow_mut().checks += 1);
        if !b {
            std::panic::panic_any(Stop::Check(label.to_string()))
        }
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(Stop::Assume)
        }
    }
    pub fn obs(label: &str, b: &[u8]) {
        RUN.with(|r| r.borrow_mut().obs.push((label.to_string(), b.to_vec())));
    }
    pub fn conc(n: usize) -> usize {
        n
    }
}

pub use imp::*;

/// Arbitrary value in 0..n, one path per value.
pub fn pick(n: usize) -> usize {
    conc(choice(n))
}
