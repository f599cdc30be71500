//! Translation of path conditions and assertions to Z3 (C API).
use crate::dd::*;
use crate::expr::*;
use crate::fx::Map;
use crate::prog::B;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
unsafe extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::exit(3);
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}.{}", a, b, c, d)
}

pub struct Smt {
    ctx: P,
    vars: Map<u32, P>,
    dds: Map<D, P>,
    vals: Map<Val, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub secs: f64,
    pub max_secs: f64,
    nodes: usize,
}

pub enum Res {
    Sat(Map<u32, u32>),
    Unsat,
    Unknown,
}

const VW: u32 = 16;

impl Smt {
    pub fn new() -> Smt {
        Smt { ctx: Self::mk(), vars: Map::default(), dds: Map::default(), vals: Map::default(), queries: 0, sat: 0, unsat: 0, secs: 0.0, max_secs: 0.0, nodes: 0 }
    }
    fn mk() -> P {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new("60000").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            c
        }
    }
    pub fn reset(&mut self) {
        unsafe { Z3_del_context(self.ctx) };
        self.ctx = Self::mk();
        self.vars.clear();
        self.dds.clear();
        self.vals.clear();
        self.nodes = 0;
    }
    fn num(&self, v: u64, w: u32) -> P {
        unsafe { Z3_mk_unsigned_int64(self.ctx, v, Z3_mk_bv_sort(self.ctx, w)) }
    }
    fn var(&mut self, v: u32) -> P {
        if let Some(p) = self.vars.get(&v) {
            return *p;
        }
        let p = unsafe {
            let n = CString::new(format!("x{}", v)).unwrap();
            Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()), Z3_mk_bv_sort(self.ctx, VW))
        };
        self.vars.insert(v, p);
        p
    }
    fn set(&mut self, v: u32, vals: &[u32], n: u32) -> P {
        // ranges
        let x = self.var(v);
        let mut rs: Vec<(u32, u32)> = vec![];
        for &i in vals {
            match rs.last_mut() {
                Some(r) if r.1 + 1 == i => r.1 = i,
                _ => rs.push((i, i)),
            }
        }
        let mut or = vec![];
        for (a, b) in rs {
            unsafe {
                let lo = if a == 0 { None } else { Some(Z3_mk_bvule(self.ctx, self.num(a as u64, VW), x)) };
                let hi = if b + 1 == n { None } else { Some(Z3_mk_bvule(self.ctx, x, self.num(b as u64, VW))) };
                or.push(match (lo, hi) {
                    _ if a == b => Z3_mk_eq(self.ctx, x, self.num(a as u64, VW)),
                    (None, None) => Z3_mk_true(self.ctx),
                    (Some(p), None) | (None, Some(p)) => p,
                    (Some(p), Some(q)) => {
                        let v = [p, q];
                        Z3_mk_and(self.ctx, 2, v.as_ptr())
                    }
                });
            }
        }
        if or.len() == 1 { or[0] } else { unsafe { Z3_mk_or(self.ctx, or.len() as c_uint, or.as_ptr()) } }
    }
    /// Boolean diagram to formula.
    fn dd(&mut self, cx: &Ctx, d: D) -> P {
        if let Some(p) = self.dds.get(&d) {
            return *p;
        }
        let r = match &cx.dd.nodes[d as usize] {
            Node::T(v) => unsafe {
                if *v != 0 {
                    Z3_mk_true(self.ctx)
                } else {
                    Z3_mk_false(self.ctx)
                }
            },
            Node::N(v, ch) => {
                self.nodes += 1;
                let n = ch.len() as u32;
                let mut groups: Vec<(D, Vec<u32>)> = vec![];
                for (i, k) in ch.iter().enumerate() {
                    if *k == FALSE {
                        continue;
                    }
                    if let Some(g) = groups.iter_mut().find(|g| g.0 == *k) {
                        g.1.push(i as u32);
                    } else {
                        groups.push((*k, vec![i as u32]));
                    }
                }
                // fresh boolean constants keep the formula a DAG of small definitions
                let mut or = vec![];
                for (k, vals) in groups {
                    let s = self.set(*v, &vals, n);
                    if k == TRUE {
                        or.push(s);
                    } else {
                        let q = self.dd(cx, k);
                        let a = [s, q];
                        or.push(unsafe { Z3_mk_and(self.ctx, 2, a.as_ptr()) });
                    }
                }
                match or.len() {
                    0 => unsafe { Z3_mk_false(self.ctx) },
                    1 => or[0],
                    n => unsafe { Z3_mk_or(self.ctx, n as c_uint, or.as_ptr()) },
                }
            }
        };
        self.dds.insert(d, r);
        r
    }
    /// bit-vector (width w) of a diagram
    fn ddv(&mut self, cx: &Ctx, d: D, w: u32, memo: &mut Map<D, P>) -> P {
        if let Some(p) = memo.get(&d) {
            return *p;
        }
        let r = match &cx.dd.nodes[d as usize] {
            Node::T(v) => self.num(*v & mask(w as u8), w),
            Node::N(v, ch) => {
                let n = ch.len() as u32;
                let mut groups: Vec<(D, Vec<u32>)> = vec![];
                for (i, k) in ch.iter().enumerate() {
                    if let Some(g) = groups.iter_mut().find(|g| g.0 == *k) {
                        g.1.push(i as u32);
                    } else {
                        groups.push((*k, vec![i as u32]));
                    }
                }
                let (k0, _) = groups.pop().unwrap();
                let mut acc = self.ddv(cx, k0, w, memo);
                for (k, vals) in groups {
                    let s = self.set(*v, &vals, n);
                    let q = self.ddv(cx, k, w, memo);
                    acc = unsafe { Z3_mk_ite(self.ctx, s, q, acc) };
                }
                acc
            }
        };
        memo.insert(d, r);
        r
    }
    fn table(&mut self, var: u32, t: &[u64], w: u32) -> P {
        // affine tables become arithmetic
        if t.len() > 2 {
            let k = t[1].wrapping_sub(t[0]) & mask(w as u8);
            if (2..t.len()).all(|i| t[i].wrapping_sub(t[i - 1]) & mask(w as u8) == k) && w >= VW {
                unsafe {
                    let x = self.var(var);
                    let x = if w > VW { Z3_mk_zero_ext(self.ctx, w - VW, x) } else { x };
                    let m = Z3_mk_bvmul(self.ctx, self.num(k, w), x);
                    return Z3_mk_bvadd(self.ctx, m, self.num(t[0] & mask(w as u8), w));
                }
            }
        }
        let mut groups: Vec<(u64, Vec<u32>)> = vec![];
        for (i, k) in t.iter().enumerate() {
            if let Some(g) = groups.iter_mut().find(|g| g.0 == *k) {
                g.1.push(i as u32);
            } else {
                groups.push((*k, vec![i as u32]));
            }
        }
        let (k0, _) = groups.pop().unwrap();
        let mut acc = self.num(k0 & mask(w as u8), w);
        for (k, vals) in groups {
            let s = self.set(var, &vals, t.len() as u32);
            acc = unsafe { Z3_mk_ite(self.ctx, s, self.num(k & mask(w as u8), w), acc) };
        }
        acc
    }
    /// bit-vector of a value
    fn val(&mut self, cx: &Ctx, v: Val, w: u32) -> P {
        if v.e == 0 {
            return self.num(v.v & mask(w as u8), w);
        }
        if let Some(p) = self.vals.get(&v) {
            return *p;
        }
        let r = match &cx.ex[v.e as usize] {
            Ex::Sum { c, t, .. } => {
                let mut acc = self.num(*c, w);
                for (x, tab) in t {
                    let p = self.table(*x, tab, w);
                    acc = unsafe { Z3_mk_bvadd(self.ctx, acc, p) };
                }
                acc
            }
            Ex::Dd { d, .. } => self.ddv(cx, *d, w, &mut Map::default()),
            Ex::Cat { b, .. } => {
                let mut acc: P = std::ptr::null_mut();
                for (i, (e, k)) in b.iter().enumerate() {
                    let x = if *e == 0 {
                        self.num(*k as u64, 8)
                    } else {
                        let ew = cx.width(Val { e: *e, v: 0 }) as u32;
                        let p = self.val(cx, Val { e: *e, v: 0 }, ew);
                        let hi = (8 * *k as u32 + 7).min(ew - 1);
                        let q = unsafe { Z3_mk_extract(self.ctx, hi, 8 * *k as u32, p) };
                        if ew < 8 { unsafe { Z3_mk_zero_ext(self.ctx, 8 - ew, q) } } else { q }
                    };
                    acc = if i == 0 { x } else { unsafe { Z3_mk_concat(self.ctx, x, acc) } };
                }
                acc
            }
            Ex::Ite { c, a, b, .. } => {
                let k = self.boolean(cx, *c);
                let x = self.val(cx, *a, w);
                let y = self.val(cx, *b, w);
                unsafe { Z3_mk_ite(self.ctx, k, x, y) }
            }
            Ex::Bin { op, w: sw, w2, a, b } => {
                let sw = *sw as u32;
                let x = self.val(cx, *a, sw);
                let unary = matches!(op, B::Trunc | B::Zext | B::Sext);
                let y = if unary { x } else { self.val(cx, *b, sw) };
                let cxp = self.ctx;
                let b2v = |s: &Smt, p: P| unsafe { Z3_mk_ite(cxp, p, s.num(1, *w2 as u32), s.num(0, *w2 as u32)) };
                unsafe {
                    match op {
                        B::Add => Z3_mk_bvadd(cxp, x, y),
                        B::Sub => Z3_mk_bvsub(cxp, x, y),
                        B::Mul => Z3_mk_bvmul(cxp, x, y),
                        B::UDiv => Z3_mk_bvudiv(cxp, x, y),
                        B::URem => Z3_mk_bvurem(cxp, x, y),
                        B::And => Z3_mk_bvand(cxp, x, y),
                        B::Or => Z3_mk_bvor(cxp, x, y),
                        B::Xor => Z3_mk_bvxor(cxp, x, y),
                        B::Shl => Z3_mk_bvshl(cxp, x, y),
                        B::LShr => Z3_mk_bvlshr(cxp, x, y),
                        B::AShr => Z3_mk_bvashr(cxp, x, y),
                        B::Trunc => Z3_mk_extract(cxp, *w2 as u32 - 1, 0, x),
                        B::Zext => Z3_mk_zero_ext(cxp, *w2 as u32 - sw, x),
                        B::Sext => Z3_mk_sign_ext(cxp, *w2 as u32 - sw, x),
                        B::UMin => Z3_mk_ite(cxp, Z3_mk_bvule(cxp, x, y), x, y),
                        B::UMax => Z3_mk_ite(cxp, Z3_mk_bvule(cxp, x, y), y, x),
                        B::SMin => Z3_mk_ite(cxp, Z3_mk_bvsle(cxp, x, y), x, y),
                        B::SMax => Z3_mk_ite(cxp, Z3_mk_bvsle(cxp, x, y), y, x),
                        B::USubSat => Z3_mk_ite(cxp, Z3_mk_bvule(cxp, x, y), self.num(0, sw), Z3_mk_bvsub(cxp, x, y)),
                        B::Eq => b2v(self, Z3_mk_eq(cxp, x, y)),
                        B::Ne => b2v(self, Z3_mk_not(cxp, Z3_mk_eq(cxp, x, y))),
                        B::Ult | B::USubO => b2v(self, Z3_mk_bvult(cxp, x, y)),
                        B::Ule => b2v(self, Z3_mk_bvule(cxp, x, y)),
                        B::Slt => b2v(self, Z3_mk_bvslt(cxp, x, y)),
                        B::Sle => b2v(self, Z3_mk_bvsle(cxp, x, y)),
                        B::UAddO => {
                            let (p, q) = (Z3_mk_zero_ext(cxp, 1, x), Z3_mk_zero_ext(cxp, 1, y));
                            let s = Z3_mk_bvadd(cxp, p, q);
                            Z3_mk_extract(cxp, sw, sw, s)
                        }
                        B::UMulO => {
                            let (p, q) = (Z3_mk_zero_ext(cxp, sw, x), Z3_mk_zero_ext(cxp, sw, y));
                            let s = Z3_mk_bvmul(cxp, p, q);
                            let h = Z3_mk_extract(cxp, 2 * sw - 1, sw, s);
                            b2v(self, Z3_mk_not(cxp, Z3_mk_eq(cxp, h, self.num(0, sw))))
                        }
                        o => {
                            eprintln!("smt: operation {:?} not translated", o);
                            std::process::exit(3);
                        }
                    }
                }
            }
        };
        self.vals.insert(v, r);
        r
    }
    fn boolean(&mut self, cx: &Ctx, v: Val) -> P {
        if v.e == 0 {
            return unsafe { if v.v & 1 != 0 { Z3_mk_true(self.ctx) } else { Z3_mk_false(self.ctx) } };
        }
        if let Ex::Dd { d, .. } = &cx.ex[v.e as usize] {
            return self.dd(cx, *d);
        }
        let p = self.val(cx, v, 1);
        unsafe { Z3_mk_eq(self.ctx, p, self.num(1, 1)) }
    }
    /// Do the disjuncts cover every assignment?  (unsatisfiability of the negation)
    pub fn covers(&mut self, cx: &Ctx, dds: &[D], pcs: &[Pc]) -> bool {
        let mut nots: Vec<P> = vec![];
        for d in dds {
            let p = self.dd(cx, *d);
            nots.push(unsafe { Z3_mk_not(self.ctx, p) });
        }
        for pc in pcs {
            let mut fs = vec![];
            for d in &pc.parts {
                fs.push(self.dd(cx, *d));
            }
            for (v, pos) in &pc.gens {
                let p = self.boolean(cx, *v);
                fs.push(if *pos { p } else { unsafe { Z3_mk_not(self.ctx, p) } });
            }
            let a = unsafe { Z3_mk_and(self.ctx, fs.len() as c_uint, fs.as_ptr()) };
            nots.push(unsafe { Z3_mk_not(self.ctx, a) });
        }
        matches!(self.solve(cx, &nots), Res::Unsat)
    }
    /// Is (path condition and every literal) satisfiable?
    pub fn check(&mut self, cx: &Ctx, pc: &Pc, lits: &[(Val, bool)], extra: &[(D, bool)]) -> Res {
        if self.nodes > 50_000 {
            self.reset();
        }
        let mut fs = vec![];
        for d in &pc.parts {
            fs.push(self.dd(cx, *d));
        }
        for (v, pos) in pc.gens.iter().chain(lits.iter()) {
            let p = self.boolean(cx, *v);
            fs.push(if *pos { p } else { unsafe { Z3_mk_not(self.ctx, p) } });
        }
        for (d, pos) in extra {
            let p = self.dd(cx, *d);
            fs.push(if *pos { p } else { unsafe { Z3_mk_not(self.ctx, p) } });
        }
        self.solve(cx, &fs)
    }
    fn solve(&mut self, cx: &Ctx, fs: &[P]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        unsafe {
            let s = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, s);
            for f in fs {
                Z3_solver_assert(self.ctx, s, *f);
            }
            let vars: Vec<(u32, P)> = self.vars.iter().map(|(a, b)| (*a, *b)).collect();
            for (v, p) in &vars {
                let n = cx.dd.dom[*v as usize];
                let lim = self.num(n as u64, VW);
                Z3_solver_assert(self.ctx, s, Z3_mk_bvult(self.ctx, *p, lim));
            }
            let r = Z3_solver_check(self.ctx, s);
            let res = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.ctx, s);
                    let mut out = Map::default();
                    for (v, p) in &vars {
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, *p, true, &mut o) {
                            let mut u = 0u64;
                            if Z3_get_numeral_uint64(self.ctx, o, &mut u) {
                                out.insert(*v, u as u32);
                            }
                        }
                    }
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(self.ctx, s);
            let dt = t0.elapsed().as_secs_f64();
            self.secs += dt;
            self.max_secs = self.max_secs.max(dt);
            let _ = Z3_mk_bool_sort;
            res
        }
    }
}
impl Drop for Smt {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.ctx) };
    }
}
