//! Properties of rlibphonenumber, as programs over arbitrary values.
//!
//! Each property is a function of a task number and a tier. The symbolic
//! machine runs it with every `choice` unconstrained; the replayer runs it
//! natively on given values.
pub mod oracle;
pub mod p;
pub mod rt;
pub mod world;

macro_rules! props {
    ($($id:ident $m:ident $h:ident $t:ident;)*) => {
        $(
            #[unsafe(no_mangle)]
            #[allow(non_snake_case)]
            pub extern "C" fn $h(task: usize, tier: usize) { p::$m::run(task, tier) }
            #[unsafe(no_mangle)]
            #[allow(non_snake_case)]
            pub extern "C" fn $t(tier: usize) -> usize { p::$m::tasks(tier) }
        )*
        pub type Prop = (&'static str, fn(usize) -> usize, fn(usize, usize));
        pub const PROPS: &[Prop] = &[$((stringify!($id), p::$m::tasks, p::$m::run)),*];
    };
}

props! {
    P02 p02 h_P02 h_P02_tasks;
    P03 p03 h_P03 h_P03_tasks;
    P05 p05 h_P05 h_P05_tasks;
    P18 p18 h_P18 h_P18_tasks;
    P17 p17 h_P17 h_P17_tasks;
    P16 p16 h_P16 h_P16_tasks;
    P26 p26 h_P26 h_P26_tasks;
    P24 p24 h_P24 h_P24_tasks;
    P21 p21 h_P21 h_P21_tasks;
    P19 p19 h_P19 h_P19_tasks;
    P23 p23 h_P23 h_P23_tasks;
    P10 p10 h_P10 h_P10_tasks;
    P11 p11 h_P11 h_P11_tasks;
    P12 p12 h_P12 h_P12_tasks;
    P09 p09 h_P09 h_P09_tasks;
    P08 p08 h_P08 h_P08_tasks;
    P07 p07 h_P07 h_P07_tasks;
    P06 p06 h_P06 h_P06_tasks;
    P13 p13 h_P13 h_P13_tasks;
    P14 p14 h_P14 h_P14_tasks;
    P15 p15 h_P15 h_P15_tasks;
    P27 p27 h_P27 h_P27_tasks;
    P31 p31 h_P31 h_P31_tasks;
    P01 p01 h_P01 h_P01_tasks;
    P20 p20 h_P20 h_P20_tasks;
    P22 p22 h_P22 h_P22_tasks;
    P25 p25 h_P25 h_P25_tasks;
    P28 p28 h_P28 h_P28_tasks;
    P29 p29 h_P29 h_P29_tasks;
    P30 p30 h_P30 h_P30_tasks;
    P33 p33 h_P33 h_P33_tasks;
    P04 p04 h_P04 h_P04_tasks;
}

#[unsafe(no_mangle)]
pub extern "C" fn h_init() {
    world::init();
}
pub const INIT: fn() = world::init;

/// Stands for core's searches of a byte, which compare eight bytes at a time.
#[unsafe(no_mangle)]
pub fn h_memchr(x: u8, t: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < t.len() {
        if t[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}
#[unsafe(no_mangle)]
pub fn h_memrchr(x: u8, t: &[u8]) -> Option<usize> {
    let mut i = t.len();
    while i > 0 {
        i -= 1;
        if t[i] == x {
            return Some(i);
        }
    }
    None
}
