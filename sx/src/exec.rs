//! The symbolic machine: executes decoded LLVM IR over symbolic values.
use crate::dd::*;
use crate::expr::*;
use crate::fx::{Map, Set};
use crate::ll::*;
use crate::mem::*;
use crate::prog::*;
use crate::regex as rx;
use crate::smt::*;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

pub const FN_BASE: u32 = 0x8000_0000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Normal,
    Panic,
    HashKeys,
    Merge,
    /// Scalar result: paths that left memory alike are joined again.
    MergeScalar,
    /// Paths that left memory and result alike are joined again.
    MergeSame,
    /// hash of a key: the key is made concrete first (path split per value)
    ConcStr,
    Alloc,
    AllocZeroed,
    Realloc,
    Dealloc,
    Nop,
    Memcmp,
    Strlen,
    Choice,
    Check,
    Assume,
    Observe,
    Conc,
    RegexNew,
    RegexSearch,
    Ret(i64),
    Affinity,
    KeyCreate,
    Errno,
    Unknown,
}

pub struct Prog {
    pub m: Module,
    pub sym: Symtab,
    pub funcs: Vec<OnceLock<Func>>,
    pub kinds: Vec<Kind>,
    pub dem: Vec<String>,
    pub nglobals: u32,
    pub errno_id: u32,
}

pub struct RegexTab {
    pub list: Mutex<(Map<String, u64>, Vec<Arc<rx::Re>>)>,
}
impl RegexTab {
    pub fn new() -> Self {
        RegexTab { list: Mutex::new((Map::default(), vec![])) }
    }
    fn add(&self, pat: &str) -> Result<u64, String> {
        let mut g = self.list.lock().unwrap();
        if let Some(i) = g.0.get(pat) {
            return Ok(*i);
        }
        let r = Arc::new(rx::compile(pat)?);
        let i = g.1.len() as u64;
        g.1.push(r);
        g.0.insert(pat.to_string(), i);
        Ok(i)
    }
    fn get(&self, i: u64) -> Option<Arc<rx::Re>> {
        self.list.lock().unwrap().1.get(i as usize).cloned()
    }
}

/// Library functions that do tricks with words, and the harness functions in their place.
const STAND_IN: &[(&str, &str)] = &[("core::slice::memchr::memchr_aligned", "h_memchr"), ("core::slice::memchr::memrchr_aligned", "h_memrchr")];

/// Leaf functions whose paths are joined again when they return.
const MERGE: &[&str] = &["to_decimal_utf8"];
/// Searches in texts, which fork on every character.
const SAME: &[&str] = &["<str>::find::<", "<str>::contains::<", "<str>::rfind::<", "StrSearcher as core::str::pattern::Searcher>", "TwoWaySearcher>::next", "<str>::starts_with::<", "<str>::split_once::<"];

/// Function, argument and the argument's values under the path condition.
type CallKey = (usize, u32, Rc<Vec<bool>>);

/// How paths are joined when a call returns.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Any,
    /// memory has to be alike
    Mem,
    /// memory and registers have to be alike
    All,
}

fn kind_of(dem: &str, raw: &str, declared: bool, weak: bool, ret: &crate::ll::Ty) -> Kind {
    // demangled names carry no hash in the v0 scheme used here
    if dem.starts_with("core::panicking::")
        || dem.contains("::unwrap_failed")
        || dem.contains("::expect_failed")
        || dem.starts_with("core::slice::index::slice_")
        || dem.starts_with("core::str::slice_error_fail")
        || dem.starts_with("core::cell::panic_")
        || dem.contains("handle_alloc_error")
        || dem.starts_with("alloc::raw_vec::handle_error")
        || dem.starts_with("alloc::raw_vec::capacity_overflow")
        || dem.starts_with("std::process::abort")
        || dem.contains("begin_panic")
        || dem.contains("copy_from_slice_impl::len_mismatch_fail")
        || dem.contains("::assert_failed")
        || dem.starts_with("std::panicking::")
    {
        return Kind::Panic;
    }
    if dem.contains("hashmap_random_keys") {
        return Kind::HashKeys;
    }
    if !declared {
        if MERGE.iter().any(|m| dem.contains(m)) {
            return Kind::Merge;
        }
        if SAME.iter().any(|m| dem.contains(m)) {
            return Kind::MergeSame;
        }
        let ours = dem.contains("rlibphonenumber::") || dem.starts_with("harness::oracle::");
        if ours && matches!(ret, crate::ll::Ty::Int(w) if *w <= 32) {
            return Kind::MergeScalar;
        }
        if ours {
            return Kind::MergeSame;
        }
        return Kind::Normal;
    }
    for (n, k) in [
        ("___rust_alloc_zeroed", Kind::AllocZeroed),
        ("___rust_alloc", Kind::Alloc),
        ("___rust_realloc", Kind::Realloc),
        ("___rust_dealloc", Kind::Dealloc),
        ("___rust_no_alloc_shim_is_unstable_v2", Kind::Nop),
    ] {
        if raw.ends_with(n) {
            return k;
        }
    }
    let _ = weak;
    match raw {
        "memcmp" | "bcmp" => Kind::Memcmp,
        "strlen" => Kind::Strlen,
        "sx_choice" => Kind::Choice,
        "sx_check" => Kind::Check,
        "sx_assume" => Kind::Assume,
        "sx_observe" => Kind::Observe,
        "sx_conc" => Kind::Conc,
        "sx_regex_new" => Kind::RegexNew,
        "sx_regex_search" => Kind::RegexSearch,
        "abort" => Kind::Panic,
        "syscall" => Kind::Ret(0),
        "getenv" => Kind::Ret(0),
        "sched_yield" => Kind::Ret(0),
        "sysconf" => Kind::Ret(8),
        "open64" => Kind::Ret(-1),
        "sched_getaffinity" => Kind::Affinity,
        "pthread_key_create" => Kind::KeyCreate,
        "pthread_setspecific" => Kind::Ret(0),
        "__errno_location" => Kind::Errno,
        _ => Kind::Unknown,
    }
}

impl Prog {
    pub fn load(text: String) -> (Prog, Vec<(u32, Obj)>) {
        let m = parse_module(text);
        let mut sym = Symtab { addr: Default::default() };
        let mut id = 1u32;
        for g in &m.globals {
            sym.addr.insert(g.name.clone(), (id as u64) << 32);
            id += 1;
        }
        let errno_id = id;
        id += 1;
        let nglobals = id;
        for (i, f) in m.fns.iter().enumerate() {
            let a = if f.weak { 0 } else { ((FN_BASE + i as u32) as u64) << 32 };
            sym.addr.insert(f.name.clone(), a);
        }
        let mut objs = vec![];
        for (k, g) in m.globals.iter().enumerate() {
            let mut data = vec![];
            match &g.init {
                Some(c) => init_bytes(&sym, &m, &g.ty, c, &mut data),
                None => data.resize(g.ty.size() as usize, 0),
            }
            objs.push((k as u32 + 1, Obj { data, sym: None, ro: false }));
        }
        objs.push((errno_id, Obj { data: vec![0; 8], sym: None, ro: false }));
        let dem: Vec<String> = m.fns.iter().map(|f| format!("{:#}", rustc_demangle::demangle(&f.name))).collect();
        let kinds = m.fns.iter().zip(dem.iter()).map(|(f, d)| kind_of(d, &f.name, f.body.1 == 0, f.weak, &f.ret)).collect();
        let funcs = m.fns.iter().map(|_| OnceLock::new()).collect();
        (Prog { m, sym, funcs, kinds, dem, nglobals, errno_id }, objs)
    }
    pub fn func(&self, i: usize) -> &Func {
        self.funcs[i].get_or_init(|| decode(&self.m, &self.sym, self.stand_in(i)))
    }
    /// The function whose body is executed for function `i`.
    fn stand_in(&self, i: usize) -> usize {
        for (from, to) in STAND_IN {
            if self.dem[i] == *from || self.dem[i].strip_prefix(from).is_some_and(|x| x.starts_with('.')) {
                if let Some(j) = self.m.fn_idx.get(*to) {
                    let (a, b) = (&self.m.fns[i], &self.m.fns[*j]);
                    if a.ret == b.ret && a.params.len() == b.params.len() && a.params.iter().zip(&b.params).all(|(x, y)| x.0 == y.0) {
                        return *j;
                    }
                }
            }
        }
        i
    }
}

#[derive(Clone)]
pub struct Frame {
    f: &'static Func,
    fi: u32,
    ip: u32,
    base: u32,
    obj: u32,
    d: u32,
}

pub struct ObsNode {
    pub data: Vec<Val>,
    pub prev: Option<Rc<ObsNode>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub mem: Mem,
    pub pc: Pc,
    pub next_id: u32,
    pub choices: Vec<u32>,
    pub obs: Option<Rc<ObsNode>>,
    pub keys: u32,
    pub forced: Option<bool>,
}

#[derive(Clone, Debug)]
pub enum Cond {
    D(D),
    G(Val, bool),
}

pub enum End {
    Done,
    AssumeFail,
    Panic(String),
    Violation,
    Error(String),
    Timeout,
}
pub enum Stop {
    Fork(Vec<Cond>),
    End(End),
    Returned,
    MergeCall(usize, How),
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub label: String,
    pub choices: Vec<(u32, u32)>,
}

pub struct Shared {
    pub deadline: Instant,
    pub per_task: std::time::Duration,
    pub stop: AtomicBool,
    pub instrs: AtomicU64,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub assume_fail: u64,
    pub forks: u64,
    pub merges: u64,
    pub instrs: u64,
    pub checks_const: u64,
    pub checks_sym: u64,
    pub searches_sym: u64,
    pub searches_conc: u64,
    pub inputs: f64,
}

pub struct Sample {
    pub choices: Vec<u32>,
    pub obs: Vec<Vec<u8>>,
}

#[derive(Default)]
pub struct TaskOut {
    pub viols: Vec<Viol>,
    pub errors: Vec<String>,
    pub samples: Vec<Sample>,
    pub stats: Stats,
    pub timeout: bool,
    pub cover_ok: bool,
    pub secs: f64,
}

pub struct Mach {
    pub p: &'static Prog,
    pub cx: Ctx,
    pub smt: Smt,
    pub rxt: &'static RegexTab,
    pub sh: &'static Shared,
    vars: Map<(u32, u32), u32>,
    rcache: Map<u64, Arc<rx::Re>>,
    pub out: TaskOut,
    pub used: Vec<bool>,
    pub aborted: bool,
    /// path conditions of ended paths, for the coverage query
    ends: Vec<Pc>,
    rng: u64,
    pub max_samples: usize,
    task_deadline: Instant,
    viol_seen: Map<String, u32>,
    pub trace: bool,
    pub gtrace: bool,
    pending: Option<(CallKey, u32, usize)>,
    calls: Map<CallKey, Vec<Val>>,
    tick: u64,
    rmemo: Map<(u64, Vec<Val>, usize, usize, (bool, usize), Vec<D>), Option<(D, Rc<Vec<Vec<u32>>>)>>,
    pub prof: Option<Map<String, u64>>,
}

type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::End(End::Error(s.into())))
}

impl State {
    pub fn new(mem: Mem, next_id: u32) -> State {
        State { frames: vec![], regs: vec![], mem, pc: Pc::default(), next_id, choices: vec![], obs: None, keys: 0, forced: None }
    }
    fn alloc(&mut self, n: usize) -> u32 {
        let id = self.next_id;
        self.next_id += 1;
        self.mem.insert(id, Obj { data: vec![0; n], sym: None, ro: false });
        id
    }
    fn backtrace(&self, p: &Prog, n: usize) -> String {
        let v: Vec<String> = self.frames.iter().rev().take(n).map(|f| p.dem[f.fi as usize].clone()).collect();
        v.join(" < ")
    }
}

impl Mach {
    pub fn new(p: &'static Prog, rxt: &'static RegexTab, sh: &'static Shared) -> Mach {
        Mach {
            p,
            cx: Ctx::new(),
            smt: Smt::new(),
            rxt,
            sh,
            vars: Map::default(),
            rcache: Map::default(),
            out: TaskOut::default(),
            used: vec![false; p.m.fns.len()],
            aborted: false,
            ends: vec![],
            rng: 88172645463325252,
            max_samples: 2,
            task_deadline: sh.deadline,
            viol_seen: Map::default(),
            pending: None, calls: Map::default(), trace: false, gtrace: std::env::var("SX_G").is_ok(),
            tick: 0,
            rmemo: Map::default(),
            prof: None,
        }
    }
    pub fn reset(&mut self) {
        self.cx = Ctx::new();
        self.smt.reset();
        self.vars.clear();
        self.out = TaskOut::default();
        self.aborted = false;
        self.ends.clear();
        self.viol_seen.clear();
        self.rmemo.clear();
        self.calls.clear();
        self.pending = None;
    }
    pub fn enter(&mut self, st: &mut State, fi: usize, args: &[Val], d: u32) {
        let f: &'static Func = self.p.func(fi);
        self.used[fi] = true;
        let base = st.regs.len() as u32;
        st.regs.resize(base as usize + f.nregs as usize, c(0));
        for (i, a) in args.iter().enumerate() {
            st.regs[base as usize + i] = *a;
        }
        let obj = if f.frame > 0 { st.alloc(f.frame as usize) } else { 0 };
        st.frames.push(Frame { f, fi: fi as u32, ip: 0, base, obj, d });
    }
    /// Run one entry function over all paths.
    pub fn task(&mut self, st: State, fi: usize, args: &[u64]) {
        let t0 = Instant::now();
        self.task_deadline = (t0 + self.sh.per_task).min(self.sh.deadline);
        let mut st = st;
        let a: Vec<Val> = args.iter().map(|v| c(*v)).collect();
        self.enter(&mut st, fi, &a, 0);
        self.explore(st, usize::MAX);
        self.out.timeout = self.aborted;
        if !self.aborted {
            self.out.cover_ok = self.coverage();
        }
        self.out.secs = t0.elapsed().as_secs_f64();
    }
    /// Run one function concretely, returning its value.
    pub fn concrete(&mut self, st: &mut State, fi: usize, args: &[u64]) -> Result<Option<u64>, String> {
        let a: Vec<Val> = args.iter().map(|v| c(*v)).collect();
        st.regs.push(c(0));
        // a dummy caller frame receives the result
        let f: &'static Func = self.p.func(fi);
        st.frames.push(Frame { f, fi: fi as u32, ip: 0, base: 0, obj: 0, d: 0 });
        self.enter(st, fi, &a, 0);
        let mut r = self.run(st, 1);
        while let Stop::MergeCall(..) = r {
            r = self.run(st, 1);
        }
        match r {
            Stop::Returned => {
                let v = st.regs[0];
                st.frames.clear();
                st.regs.clear();
                Ok(v.conc())
            }
            Stop::Fork(_) => Err("unexpected fork".into()),
            Stop::MergeCall(..) => Err("merge".into()),
            Stop::End(End::Panic(s)) => Err(format!("panic {}", s)),
            Stop::End(End::Error(s)) => Err(s),
            Stop::End(_) => Err("ended".into()),
        }
    }
    fn explore(&mut self, init: State, depth: usize) -> Vec<State> {
        let mut work = vec![init];
        let mut out = vec![];
        while let Some(mut s) = work.pop() {
            if self.aborted {
                return vec![];
            }
            match self.run(&mut s, depth) {
                Stop::Fork(cs) => {
                    self.out.stats.forks += 1;
                    if let Some(p) = self.prof.as_mut() {
                        let f = s.frames.last().unwrap();
                        let k = format!("fork{} {} < {}", cs.len(), f.ip, s.backtrace(self.p, 4));
                        *p.entry(k).or_default() += 1;
                    }
                    if self.gtrace && cs.iter().any(|c| matches!(c, Cond::G(..))) {
                        eprintln!("general fork < {}", s.backtrace(self.p, 6));
                        if let Cond::G(v, _) = &cs[0] {
                            eprintln!("  {}", self.cx.show(*v, 6));
                        }
                    }
                    let n = cs.len();
                    let mut kids = vec![];
                    for (i, cnd) in cs.into_iter().enumerate() {
                        let mut k = if i + 1 == n { std::mem::replace(&mut s, State::new(Mem::default(), 0)) } else { s.clone() };
                        if self.add_cond(&mut k, cnd) {
                            kids.push(k);
                        }
                    }
                    kids.reverse();
                    work.extend(kids);
                }
                Stop::End(k) => self.finish(s, k),
                Stop::Returned => out.push(s),
                Stop::MergeCall(d, how) => {
                    let pending = self.pending.take();
                    let rs = self.explore(s, d);
                    let rs = if rs.len() > 1 { self.join_all(rs, how) } else { rs };
                    if let (Some((key, d, n)), [r]) = (pending, &rs[..]) {
                        let b = r.frames.last().unwrap().base as usize + d as usize;
                        let v = r.regs[b..b + n].to_vec();
                        // only what is said about the argument's variable holds elsewhere
                        let x = self.cx.only_var(Val { e: key.1, v: 0 });
                        if v.iter().all(|v| v.e == 0 || self.cx.only_var(*v) == x) {
                            self.calls.insert(key, v);
                        }
                    }
                    work.extend(rs);
                }
            }
        }
        out
    }
    fn add_cond(&mut self, st: &mut State, cnd: Cond) -> bool {
        match cnd {
            Cond::D(d) => st.pc.add(&mut self.cx, d),
            Cond::G(v, b) => {
                st.pc.gens.push((v, b));
                match self.smt.check(&self.cx, &st.pc, &[], &[]) {
                    Res::Unsat => false,
                    _ => true,
                }
            }
        }
    }
    fn finish(&mut self, s: State, k: End) {
        match k {
            End::Done | End::Violation => {
                self.out.stats.paths += 1;
                if self.out.samples.len() < self.max_samples || self.rnd() % (self.out.stats.paths) < 2 {
                    if let Some(sm) = self.sample(&s) {
                        if self.out.samples.len() < self.max_samples {
                            self.out.samples.push(sm);
                        } else {
                            let n = self.max_samples as u64;
                            let i = (self.rnd() % n) as usize;
                            self.out.samples[i] = sm;
                        }
                    }
                }
                self.ends.push(s.pc);
            }
            End::AssumeFail => {
                self.out.stats.assume_fail += 1;
                self.ends.push(s.pc);
            }
            End::Panic(m) => {
                self.out.stats.paths += 1;
                self.violation(&s, &format!("panic: {}", m), None);
                self.ends.push(s.pc);
            }
            End::Error(m) => {
                if self.out.errors.len() < 20 {
                    let bt = s.backtrace(self.p, 12);
                    self.out.errors.push(format!("{} at {}", m, bt));
                }
                self.ends.push(s.pc);
            }
            End::Timeout => self.aborted = true,
        }
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng >> 3
    }
    fn model(&mut self, pc: &Pc) -> Option<Map<u32, u32>> {
        if pc.split || !pc.gens.is_empty() {
            return match self.smt.check(&self.cx, pc, &[], &[]) {
                Res::Sat(m) => Some(m),
                _ => None,
            };
        }
        let mut m = Map::default();
        let mut r = self.rnd();
        for d in &pc.parts {
            if !self.cx.dd.pick(*d, &mut m, &mut r) {
                return None;
            }
        }
        Some(m)
    }
    fn sample(&mut self, s: &State) -> Option<Sample> {
        let mut m = self.model(&s.pc)?;
        for v in &s.choices {
            if !m.contains_key(v) {
                let n = self.cx.dd.dom[*v as usize];
                let x = (self.rnd() % n as u64) as u32;
                m.insert(*v, x);
            }
        }
        let choices = s.choices.iter().map(|v| m[v]).collect();
        let mut obs = vec![];
        let mut o = s.obs.clone();
        while let Some(n) = o {
            obs.push(n.data.iter().map(|v| self.cx.eval(*v, &m) as u8).collect::<Vec<u8>>());
            o = n.prev.clone();
        }
        obs.reverse();
        Some(Sample { choices, obs })
    }
    /// Report a violation on this path if it is feasible; `lit` is an extra literal.
    fn violation(&mut self, s: &State, label: &str, lit: Option<Val>) -> bool {
        let lits: Vec<(Val, bool)> = lit.iter().map(|v| (*v, false)).collect();
        match self.smt.check(&self.cx, &s.pc, &lits, &[]) {
            Res::Sat(m) => {
                let n = self.viol_seen.entry(label.to_string()).or_default();
                *n += 1;
                if *n <= 4 {
                    let ch = s.choices.iter().map(|v| (self.cx.dd.dom[*v as usize], *m.get(v).unwrap_or(&0))).collect();
                    self.out.viols.push(Viol { label: label.to_string(), choices: ch });
                }
                true
            }
            Res::Unsat => false,
            Res::Unknown => {
                self.out.errors.push(format!("solver gave no answer on {}", label));
                true
            }
        }
    }
    /// The ended paths together cover every input of the task (decided by Z3).
    fn coverage(&mut self) -> bool {
        let ends = std::mem::take(&mut self.ends);
        // group path conditions into diagrams, then let the solver decide the disjunction
        let mut acc: Vec<D> = vec![];
        let mut rest: Vec<Pc> = vec![];
        for pc in ends {
            let mut d = Some(TRUE);
            for p in &pc.parts {
                d = d.and_then(|x| self.cx.dd.and(x, *p));
            }
            match d {
                Some(d) if pc.gens.is_empty() => acc.push(d),
                _ => rest.push(pc),
            }
        }
        // balanced disjunction
        while acc.len() > 1 {
            let mut nx = vec![];
            let mut stuck = false;
            for c in acc.chunks(2) {
                if c.len() == 2 {
                    match self.cx.dd.or(c[0], c[1]) {
                        Some(x) => nx.push(x),
                        None => {
                            nx.extend_from_slice(c);
                            stuck = true;
                        }
                    }
                } else {
                    nx.push(c[0]);
                }
            }
            if stuck && nx.len() == acc.len() {
                break;
            }
            acc = nx;
        }
        self.smt.covers(&self.cx, &acc, &rest)
    }

    // ---------------------------------------------------------------- values

    fn decide(&mut self, st: &mut State, v: Val) -> Option<bool> {
        if v.e == 0 {
            return Some(v.v & 1 != 0);
        }
        if let Some(d) = self.cx.bool_dd(v) {
            let (_, rel) = st.pc.related(&mut self.cx, d);
            let r = rel?;
            if self.cx.dd.and(r, d) == Some(FALSE) {
                return Some(false);
            }
            let nd = self.cx.dd.not(d);
            if self.cx.dd.and(r, nd) == Some(FALSE) {
                return Some(true);
            }
            return None;
        }
        st.pc.gens.iter().find(|g| g.0 == v).map(|g| g.1)
    }
    fn fork_bool(&mut self, v: Val) -> Stop {
        match self.cx.bool_dd(v) {
            Some(d) => {
                let nd = self.cx.dd.not(d);
                Stop::Fork(vec![Cond::D(d), Cond::D(nd)])
            }
            None => Stop::Fork(vec![Cond::G(v, true), Cond::G(v, false)]),
        }
    }
    /// Simplify a value under the current path.
    #[inline]
    fn simp(&mut self, st: &mut State, v: Val) -> Val {
        if v.e == 0 {
            return v;
        }
        if let Ex::Cat { w, b } = &self.cx.ex[v.e as usize] {
            let (w, b) = (*w, b.clone());
            return self.cx.mk_cat(&mut st.pc, w, b);
        }
        if let Ex::Sum { t, c: c0, w } = &self.cx.ex[v.e as usize] {
            let (c0, w) = (*c0, *w);
            let mut acc = c0;
            let t = t.clone();
            for (var, tab) in &t {
                let l = st.pc.live(&mut self.cx, *var);
                let mut it = tab.iter().zip(l.iter()).filter(|x| *x.1).map(|x| *x.0);
                let first = match it.next() {
                    Some(f) => f,
                    None => return v,
                };
                if it.any(|x| x != first) {
                    return v;
                }
                acc = acc.wrapping_add(first);
            }
            return c(acc & mask(w));
        }
        v
    }
    /// All values `v` can take here, with the diagram.
    fn values(&mut self, st: &mut State, v: Val, cap: usize) -> R<(D, Vec<u64>)> {
        let d = match self.cx.to_dd(&mut st.pc, v) {
            Some(d) => d,
            None => return err(format!("value too complex to enumerate: {}", self.cx.show(v, 14)).chars().take(1500).collect::<String>()),
        };
        let (_, rel) = st.pc.related(&mut self.cx, d);
        match self.cx.dd.terminals(d, rel.unwrap_or(TRUE), cap) {
            Some(t) => Ok((d, t)),
            None => err("too many values to enumerate"),
        }
    }
    fn conc(&mut self, st: &mut State, v: Val) -> R<u64> {
        let v = self.simp(st, v);
        if v.e == 0 {
            return Ok(v.v);
        }
        let (d, t) = self.values(st, v, 4096)?;
        if t.len() == 1 {
            return Ok(t[0]);
        }
        let mut cs = vec![];
        for x in t {
            let k = self.cx.dd.map(d, &mut |y| (y == x) as u64);
            cs.push(Cond::D(k));
        }
        Err(Stop::Fork(cs))
    }

    // ---------------------------------------------------------------- memory

    fn load_at(&mut self, st: &mut State, addr: u64, bytes: usize, w: u8) -> R<Val> {
        let (id, off) = ((addr >> 32) as u32, (addr & 0xffff_ffff) as usize);
        let o = match st.mem.get(id) {
            Some(o) => o,
            None => return err(format!("load from unmapped {:#x}", addr)),
        };
        if off + bytes > o.data.len() {
            return err(format!("load out of bounds {:#x}+{} of {}", addr, bytes, o.data.len()));
        }
        if let Some(s) = &o.sym {
            let s = &s[off..off + bytes];
            if s.iter().any(|x| x.0 != 0) {
                let e = s[0].0;
                let refs: Vec<(u32, u8)> = s.to_vec();
                let data: Vec<u8> = o.data[off..off + bytes].to_vec();
                let _ = e;
                let b: Vec<(u32, u8)> = refs.iter().zip(data.iter()).map(|(r, d)| if r.0 == 0 { (0, *d) } else { *r }).collect();
                let v = self.cx.mk_cat(&mut st.pc, w, b);
                return Ok(self.simp(st, v));
            }
        }
        let mut v = [0u8; 8];
        v[..bytes].copy_from_slice(&o.data[off..off + bytes]);
        Ok(c(u64::from_le_bytes(v) & mask(w)))
    }
    fn load(&mut self, st: &mut State, p: Val, bytes: usize, w: u8) -> R<Val> {
        if p.e == 0 {
            return self.load_at(st, p.v, bytes, w);
        }
        let p = self.simp(st, p);
        if p.e == 0 {
            return self.load_at(st, p.v, bytes, w);
        }
        let (d, ts) = self.values(st, p, 4096)?;
        if ts.len() == 1 {
            return self.load_at(st, ts[0], bytes, w);
        }
        let mut vals = Map::default();
        let mut allc = true;
        for t in &ts {
            let v = self.load_at(st, *t, bytes, w)?;
            allc &= v.e == 0;
            vals.insert(*t, v);
        }
        if allc {
            // addresses this path excludes: the table's own contents keep the result regular
            if let Some(rest) = self.cx.dd.terminals(d, TRUE, 4096) {
                for t in rest {
                    if !vals.contains_key(&t) {
                        if let Ok(v) = self.load_at(st, t, bytes, w) {
                            if v.e == 0 {
                                vals.insert(t, v);
                            }
                        }
                    }
                }
            }
            let r = self.cx.dd.map(d, &mut |x| vals.get(&x).map_or(0, |v| v.v));
            return Ok(self.cx.mk_dd(&mut st.pc, w, r));
        }
        // symbolic contents at a symbolic place: one path per place
        let mut cs = vec![];
        for x in ts.iter() {
            let k = self.cx.dd.map(d, &mut |y| (y == *x) as u64);
            cs.push(Cond::D(k));
        }
        Err(Stop::Fork(cs))
    }
    fn store_at(&mut self, st: &mut State, addr: u64, v: Val, bytes: usize, w: u8) -> R<()> {
        let (id, off) = ((addr >> 32) as u32, (addr & 0xffff_ffff) as usize);
        let o = match st.mem.get_mut(id) {
            Some(o) => o,
            None => return err(format!("store to unmapped {:#x}", addr)),
        };
        if off + bytes > o.data.len() {
            return err("store out of bounds");
        }
        if v.e == 0 {
            let b = (v.v & mask(w)).to_le_bytes();
            o.data[off..off + bytes].copy_from_slice(&b[..bytes]);
            if let Some(s) = &mut o.sym {
                s[off..off + bytes].fill((0, 0));
            }
        } else {
            let n = o.data.len();
            o.data[off..off + bytes].fill(0);
            let s = o.sym.get_or_insert_with(|| vec![(0, 0); n]);
            if let Ex::Cat { b, .. } = &self.cx.ex[v.e as usize] {
                for i in 0..bytes {
                    if b[i].0 == 0 {
                        o.data[off + i] = b[i].1;
                        s[off + i] = (0, 0);
                    } else {
                        s[off + i] = b[i];
                    }
                }
            } else {
                for i in 0..bytes {
                    s[off + i] = (v.e, i as u8);
                }
            }
        }
        Ok(())
    }
    /// A value whose recorded expression width must match the store width.
    fn fit(&mut self, st: &mut State, v: Val, w: u8) -> Val {
        if v.e == 0 {
            return v;
        }
        let ew = self.cx.width(v);
        if ew == w {
            v
        } else if ew > w {
            self.cx.bin(&mut st.pc, B::Trunc, ew, w, v, c(0))
        } else {
            self.cx.bin(&mut st.pc, B::Zext, ew, w, v, c(0))
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = ((src >> 32) as u32, (src & 0xffff_ffff) as usize);
        let o = match st.mem.get(si) {
            Some(o) => o,
            None => return err(format!("copy from unmapped {:#x}", src)),
        };
        if so + n > o.data.len() {
            return err(format!("copy out of bounds (source) {:#x}+{} of {}", src, n, o.data.len()));
        }
        let data = o.data[so..so + n].to_vec();
        let sym = match &o.sym {
            Some(s) if s[so..so + n].iter().any(|x| x.0 != 0) => Some(s[so..so + n].to_vec()),
            _ => None,
        };
        let (di, dof) = ((dst >> 32) as u32, (dst & 0xffff_ffff) as usize);
        let o = match st.mem.get_mut(di) {
            Some(o) => o,
            None => return err(format!("copy to unmapped {:#x}", dst)),
        };
        if dof + n > o.data.len() {
            return err("copy out of bounds (target)");
        }
        o.data[dof..dof + n].copy_from_slice(&data);
        match (sym, &mut o.sym) {
            (Some(s), Some(t)) => t[dof..dof + n].copy_from_slice(&s),
            (None, Some(t)) => t[dof..dof + n].fill((0, 0)),
            (Some(s), None) => {
                let mut t = vec![(0, 0); o.data.len()];
                t[dof..dof + n].copy_from_slice(&s);
                o.sym = Some(t);
            }
            (None, None) => {}
        }
        Ok(())
    }
    fn bytes(&mut self, st: &mut State, addr: u64, n: usize) -> R<Vec<Val>> {
        let mut v = Vec::with_capacity(n);
        if n == 0 {
            return Ok(v);
        }
        {
            let (id, off) = ((addr >> 32) as u32, (addr & 0xffff_ffff) as usize);
            let o = match st.mem.get(id) {
                Some(o) => o,
                None => return err(format!("bytes of unmapped {:#x}", addr)),
            };
            if off + n > o.data.len() {
                return err("bytes out of bounds");
            }
            let clean = match &o.sym {
                None => true,
                Some(s) => s[off..off + n].iter().all(|x| x.0 == 0),
            };
            if clean {
                v.extend(o.data[off..off + n].iter().map(|b| c(*b as u64)));
                return Ok(v);
            }
        }
        for i in 0..n {
            v.push(self.load_at(st, addr + i as u64, 1, 8)?);
        }
        Ok(v)
    }

    // ---------------------------------------------------------------- joins

    fn join_all(&mut self, v: Vec<State>, how: How) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        let hint = self.telling(&v);
        for s in v {
            let mut cur = Some(s);
            for o in out.iter_mut() {
                if let Some(j) = self.join(o, cur.as_ref().unwrap(), how, hint) {
                    *o = j;
                    cur = None;
                    self.out.stats.merges += 1;
                    break;
                }
            }
            if let Some(s) = cur {
                out.push(s);
            }
        }
        out
    }
    /// A variable whose value says which of the states a valuation belongs to.
    fn telling(&mut self, v: &[State]) -> Option<u32> {
        let mut ds = vec![];
        for s in v {
            let mut acc = TRUE;
            for d in &s.pc.parts {
                if !v.iter().all(|t| t.pc.parts.contains(d)) {
                    acc = self.cx.dd.and(acc, *d)?;
                }
            }
            ds.push(acc);
        }
        let mut sup: Vec<u32> = vec![];
        for d in &ds {
            sup.extend(self.cx.dd.support(*d).iter());
        }
        sup.sort_by_key(|v| std::cmp::Reverse(*v));
        sup.dedup();
        'v: for x in sup {
            let mut seen: Vec<bool> = vec![false; self.cx.dd.dom[x as usize] as usize];
            for d in &ds {
                for (s, p) in seen.iter_mut().zip(self.cx.dd.project(*d, x).iter()) {
                    if *p && *s {
                        continue 'v;
                    }
                    *s |= *p;
                }
            }
            return Some(x);
        }
        None
    }
    fn join(&mut self, a: &State, b: &State, how: How, hint: Option<u32>) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.regs.len() != b.regs.len() || a.pc.gens != b.pc.gens || a.choices != b.choices || a.keys != b.keys {
            return None;
        }
        match (&a.obs, &b.obs) {
            (None, None) => {}
            (Some(x), Some(y)) if Rc::ptr_eq(x, y) => {}
            _ => return None,
        }
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if x.fi != y.fi || x.ip != y.ip || x.obj != y.obj || x.base != y.base {
                return None;
            }
        }
        if how == How::All && a.regs != b.regs {
            return None;
        }
        let differ = a.mem.diff(&b.mem);
        if how != How::Any && !differ.is_empty() {
            return None;
        }
        let common: Vec<D> = a.pc.parts.iter().filter(|d| b.pc.parts.contains(d)).cloned().collect();
        let conj = |cx: &mut Ctx, p: &Pc| -> Option<D> {
            let mut acc = TRUE;
            for d in &p.parts {
                if !common.contains(d) {
                    acc = cx.dd.and(acc, *d)?;
                }
            }
            Some(acc)
        };
        let da = conj(&mut self.cx, &a.pc)?;
        let db = conj(&mut self.cx, &b.pc)?;
        let or = self.cx.dd.or(da, db)?;
        let mut pc = Pc { gens: a.pc.gens.clone(), split: a.pc.split || b.pc.split, ..Default::default() };
        pc.parts = common;
        if !pc.add(&mut self.cx, or) {
            return None;
        }
        // one variable that tells the two apart, if there is one
        let mut kd = da;
        let mut sup: Vec<u32> = self.cx.dd.support(da).iter().chain(self.cx.dd.support(db).iter()).cloned().collect();
        sup.sort_by_key(|v| (Some(*v) != hint, std::cmp::Reverse(*v)));
        sup.dedup();
        for v in sup {
            let (p, q) = (self.cx.dd.project(da, v), self.cx.dd.project(db, v));
            if p.iter().zip(q.iter()).all(|(x, y)| !(*x && *y)) {
                kd = self.cx.dd.from_set(v, &p);
                break;
            }
        }
        if kd == da && self.gtrace {
            eprintln!("no separator {:?} {:?} < {}", self.cx.dd.support(da), self.cx.dd.support(db), a.backtrace(self.p, 4));
        }
        let k = self.cx.mk_dd(&mut pc, 1, kd);
        let mut r = State { frames: a.frames.clone(), regs: a.regs.clone(), mem: a.mem.clone(), pc, next_id: a.next_id.max(b.next_id), choices: a.choices.clone(), obs: a.obs.clone(), keys: a.keys, forced: None };
        for (fi, f) in r.frames.iter().enumerate() {
            let hi = if fi + 1 < r.frames.len() { r.frames[fi + 1].base as usize } else { r.regs.len() };
            for i in f.base as usize..hi {
                if a.regs[i] != b.regs[i] {
                    let w = f.f.regw.get(i - f.base as usize).copied().unwrap_or(64);
                    r.regs[i] = self.cx.ite(&mut r.pc, w, k, a.regs[i], b.regs[i])?;
                }
            }
        }
        for id in differ {
            let (oa, ob) = (a.mem.get(id), b.mem.get(id));
            match (oa, ob) {
                (Some(_), None) => {}
                (None, Some(o)) => r.mem.insert(id, o.clone()),
                (Some(x), Some(y)) => {
                    let n = x.data.len().max(y.data.len());
                    let m = x.data.len().min(y.data.len());
                    let big = if x.data.len() >= y.data.len() { x } else { y };
                    let mut o = big.clone();
                    let mut changed = false;
                    let at = |z: &Obj, i: usize| -> (u8, (u32, u8)) { (z.data[i], z.sym.as_ref().map_or((0, 0), |s| s[i])) };
                    let mut i = 0;
                    while i < m {
                        if at(x, i) == at(y, i) {
                            i += 1;
                            continue;
                        }
                        // whole aligned words when both sides hold whole values
                        let whole = |z: &Obj, i: usize, n: usize| -> Option<Val> {
                            if i + n > m {
                                return None;
                            }
                            let s: Vec<(u32, u8)> = (i..i + n).map(|j| at(z, j).1).collect();
                            if s.iter().all(|q| q.0 == 0) {
                                let mut b = [0u8; 8];
                                b[..n].copy_from_slice(&z.data[i..i + n]);
                                return Some(c(u64::from_le_bytes(b)));
                            }
                            if s.iter().enumerate().all(|(j, q)| q.0 == s[0].0 && q.1 as usize == j) {
                                return Some(Val { e: s[0].0, v: 0 });
                            }
                            None
                        };
                        let mut done = false;
                        for n in [8usize, 4, 2] {
                            let j = i / n * n;
                            if let (Some(p), Some(q)) = (whole(x, j, n), whole(y, j, n)) {
                                let okw = |s: &Self, v: Val| v.e == 0 || s.cx.width(v) as usize == 8 * n;
                                if okw(self, p) && okw(self, q) {
                                    let v = self.cx.ite(&mut r.pc, 8 * n as u8, k, p, q)?;
                                    let len = o.data.len();
                                    let s = o.sym.get_or_insert_with(|| vec![(0, 0); len]);
                                    if v.e == 0 {
                                        o.data[j..j + n].copy_from_slice(&v.v.to_le_bytes()[..n]);
                                        s[j..j + n].fill((0, 0));
                                    } else {
                                        let vv = self.fit_pc(&mut r.pc, v, 8 * n as u8);
                                        o.data[j..j + n].fill(0);
                                        for t in 0..n {
                                            s[j + t] = (vv.e, t as u8);
                                        }
                                        debug_assert!(!matches!(self.cx.ex[vv.e as usize], Ex::Cat { .. }));
                                    }
                                    i = j + n;
                                    done = true;
                                    changed = true;
                                    break;
                                }
                            }
                        }
                        if done {
                            continue;
                        }
                        let bv = |s: &mut Self, pc: &mut Pc, z: (u8, (u32, u8))| -> Val {
                            if z.1.0 == 0 {
                                c(z.0 as u64)
                            } else {
                                let e = Val { e: z.1.0, v: 0 };
                                let w = s.cx.width(e);
                                s.cx.byte(pc, e, w, z.1.1)
                            }
                        };
                        let p = bv(self, &mut r.pc, at(x, i));
                        let q = bv(self, &mut r.pc, at(y, i));
                        let v = self.cx.ite(&mut r.pc, 8, k, p, q)?;
                        let len = o.data.len();
                        let s = o.sym.get_or_insert_with(|| vec![(0, 0); len]);
                        if v.e == 0 {
                            o.data[i] = v.v as u8;
                            s[i] = (0, 0);
                        } else {
                            let vv = self.fit_pc(&mut r.pc, v, 8);
                            o.data[i] = 0;
                            s[i] = (vv.e, 0);
                        }
                        changed = true;
                        i += 1;
                    }
                    if changed || n != x.data.len() {
                        r.mem.insert(id, o);
                    }
                }
                _ => {}
            }
        }
        Some(r)
    }
    fn fit_pc(&mut self, pc: &mut Pc, v: Val, w: u8) -> Val {
        if v.e == 0 {
            return v;
        }
        let ew = self.cx.width(v);
        if ew > w {
            self.cx.bin(pc, B::Trunc, ew, w, v, c(0))
        } else if ew < w {
            self.cx.bin(pc, B::Zext, ew, w, v, c(0))
        } else {
            v
        }
    }

    // ---------------------------------------------------------------- the interpreter

    pub fn run(&mut self, st: &mut State, depth: usize) -> Stop {
        loop {
            match self.burst(st, depth) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    /// Execute instructions of the top frame until the frame changes.
    fn burst(&mut self, st: &mut State, depth: usize) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let base = fr.base as usize;
        let fobj = fr.obj;
        let mut ip = fr.ip as usize;
        macro_rules! op {
            ($o:expr) => {{
                let o = $o;
                if o >= 0 { st.regs[base + o as usize] } else { c(f.consts[!o as usize]) }
            }};
        }
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(s) => {
                        st.frames.last_mut().unwrap().ip = ip as u32;
                        return Err(s);
                    }
                }
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.regs[base + $d as usize] = v;
            }};
        }
        macro_rules! jump {
            ($e:expr) => {{
                let e = &f.edges[$e as usize];
                match e.moves.len() {
                    0 => {}
                    1 => {
                        let v = op!(e.moves[0].1);
                        set!(e.moves[0].0, v);
                    }
                    _ => {
                        let mut tmp: [Val; 16] = [c(0); 16];
                        if e.moves.len() <= 16 {
                            for (i, m) in e.moves.iter().enumerate() {
                                tmp[i] = op!(m.1);
                            }
                            for (i, m) in e.moves.iter().enumerate() {
                                set!(m.0, tmp[i]);
                            }
                        } else {
                            let t: Vec<Val> = e.moves.iter().map(|m| op!(m.1)).collect();
                            for (i, m) in e.moves.iter().enumerate() {
                                set!(m.0, t[i]);
                            }
                        }
                    }
                }
                ip = e.target as usize;
            }};
        }
        loop {
            self.tick += 1;
            if self.tick & 0x3ffff == 0 {
                self.out.stats.instrs += 0x40000;
                if self.sh.stop.load(Ordering::Relaxed) || Instant::now() > self.task_deadline || self.cx.dd.nodes.len() > 40_000_000 {
                    self.aborted = true;
                    return Err(Stop::End(End::Timeout));
                }
            }
            let ins = &f.code[ip];
            if self.trace {
                eprintln!("  {} {} {:?}", self.p.dem[st.frames.last().unwrap().fi as usize], ip, ins);
            }
            match ins {
                I::Bin { op, w, w2, d, a, b } => {
                    let (x, y) = (op!(*a), op!(*b));
                    let r = if x.e == 0 && y.e == 0 {
                        c(crate::dd::conc(*op, *w, *w2, x.v, y.v))
                    } else {
                        if matches!(op, B::UDiv | B::URem | B::SDiv | B::SRem) && y.e != 0 {
                            let k = tri!(self.conc(st, y));
                            self.cx.bin(&mut st.pc, *op, *w, *w2, x, c(k))
                        } else {
                            self.cx.bin(&mut st.pc, *op, *w, *w2, x, y)
                        }
                    };
                    set!(*d, r);
                    ip += 1;
                }
                I::Mov { d, a } => {
                    set!(*d, op!(*a));
                    ip += 1;
                }
                I::Load { d, p, bytes, w, off } => {
                    let mut a = op!(*p);
                    let r = if a.e == 0 {
                        a.v = a.v.wrapping_add(*off as u64);
                        // fast path
                        let (id, o) = ((a.v >> 32) as u32, (a.v & 0xffff_ffff) as usize);
                        match st.mem.get(id) {
                            Some(ob) if ob.sym.is_none() && o + *bytes as usize <= ob.data.len() => {
                                let mut v = [0u8; 8];
                                let n = *bytes as usize;
                                v[..n].copy_from_slice(&ob.data[o..o + n]);
                                c(u64::from_le_bytes(v) & mask(*w))
                            }
                            _ => tri!(self.load_at(st, a.v, *bytes as usize, *w)),
                        }
                    } else {
                        if *off != 0 {
                            a = self.cx.bin(&mut st.pc, B::Add, 64, 64, a, c(*off as u64));
                        }
                        tri!(self.load(st, a, *bytes as usize, *w))
                    };
                    set!(*d, r);
                    ip += 1;
                }
                I::Store { p, v, bytes, w, off } => {
                    let a = op!(*p);
                    let a = tri!(self.conc(st, a)).wrapping_add(*off as u64);
                    let v = op!(*v);
                    let v = self.simp(st, v);
                    let v = self.fit(st, v, *w);
                    tri!(self.store_at(st, a, v, *bytes as usize, *w));
                    ip += 1;
                }
                I::Gep { d, p, off, terms } => {
                    let mut a = op!(*p);
                    if a.e == 0 {
                        a.v = a.v.wrapping_add(*off as u64);
                    } else if *off != 0 {
                        a = self.cx.bin(&mut st.pc, B::Add, 64, 64, a, c(*off as u64));
                    }
                    for (o, w, stride) in terms.iter() {
                        let i = op!(*o);
                        if i.e == 0 && a.e == 0 {
                            a.v = a.v.wrapping_add((sx(i.v, *w)).wrapping_mul(*stride) as u64);
                        } else {
                            let i = if *w < 64 { self.cx.bin(&mut st.pc, B::Sext, *w, 64, i, c(0)) } else { i };
                            let m = self.cx.bin(&mut st.pc, B::Mul, 64, 64, i, c(*stride as u64));
                            a = self.cx.bin(&mut st.pc, B::Add, 64, 64, a, m);
                        }
                    }
                    set!(*d, a);
                    ip += 1;
                }
                I::CondBr { c: k, t, f: fl } => {
                    let v = op!(*k);
                    match self.decide(st, v) {
                        Some(true) => jump!(*t),
                        Some(false) => jump!(*fl),
                        None => {
                            st.frames.last_mut().unwrap().ip = ip as u32;
                            return Err(self.fork_bool(v));
                        }
                    }
                }
                I::Br { e } => jump!(*e),
                I::Sel { d, c: k, a, b, w } => {
                    let v = op!(*k);
                    let (x, y) = (op!(*a), op!(*b));
                    let r = match self.decide(st, v) {
                        Some(true) => x,
                        Some(false) => y,
                        None => match self.cx.ite(&mut st.pc, *w, v, x, y) {
                            Some(r) => r,
                            None => {
                                st.frames.last_mut().unwrap().ip = ip as u32;
                                return Err(self.fork_bool(v));
                            }
                        },
                    };
                    set!(*d, r);
                    ip += 1;
                }
                I::Switch { v, w, cases, default } => {
                    let x = op!(*v);
                    let x = self.simp(st, x);
                    if x.e == 0 {
                        let x = x.v & mask(*w);
                        let e = cases.iter().find(|k| k.0 & mask(*w) == x).map_or(*default, |k| k.1);
                        jump!(e);
                    } else {
                        let (d, ts) = tri!(self.values(st, x, 4096));
                        let edge = |t: u64| cases.iter().find(|k| k.0 & mask(*w) == t & mask(*w)).map_or(*default, |k| k.1);
                        let mut es: Vec<u32> = ts.iter().map(|t| edge(*t)).collect();
                        es.sort();
                        es.dedup();
                        if es.len() == 1 {
                            jump!(es[0]);
                        } else {
                            let mut cs = vec![];
                            for e in es {
                                let k = self.cx.dd.map(d, &mut |y| (edge(y) == e) as u64);
                                cs.push(Cond::D(k));
                            }
                            st.frames.last_mut().unwrap().ip = ip as u32;
                            return Err(Stop::Fork(cs));
                        }
                    }
                }
                I::Alloca { d, size, .. } => {
                    set!(*d, c(((fobj as u64) << 32) + *size));
                    ip += 1;
                }
                I::Ret { vals } => {
                    let mut tmp = [c(0); 8];
                    let n = vals.len();
                    if n > 8 {
                        st.frames.last_mut().unwrap().ip = ip as u32;
                        return err("wide return");
                    }
                    for i in 0..n {
                        let v = op!(vals[i]);
                        tmp[i] = self.simp(st, v);
                    }
                    let fr = st.frames.pop().unwrap();
                    if fr.obj != 0 {
                        st.mem.remove(fr.obj);
                    }
                    st.regs.truncate(base);
                    if st.frames.is_empty() {
                        return Err(Stop::End(End::Done));
                    }
                    let cb = st.frames.last().unwrap().base as usize + fr.d as usize;
                    for i in 0..n {
                        st.regs[cb + i] = tmp[i];
                    }
                    if st.frames.len() == depth {
                        return Err(Stop::Returned);
                    }
                    return Ok(());
                }
                I::Call { callee, args, d, dw } => {
                    let fi = match callee {
                        Callee::Fn(i) | Callee::Ext(i) => *i,
                        Callee::Ind(o) => {
                            let a = op!(*o);
                            let a = tri!(self.conc(st, a));
                            let id = (a >> 32) as u32;
                            if id < FN_BASE || (id - FN_BASE) as usize >= self.p.m.fns.len() {
                                st.frames.last_mut().unwrap().ip = ip as u32;
                                return err("indirect call to a non-function");
                            }
                            (id - FN_BASE) as usize
                        }
                        Callee::Intr(k) => {
                            let a: Vec<Val> = args.iter().map(|o| op!(*o)).collect();
                            match k {
                                Intr::Memcpy => {
                                    let n = tri!(self.conc(st, a[2])) as usize;
                                    if n > 0 {
                                        let dst = tri!(self.conc(st, a[0]));
                                        let src = self.simp(st, a[1]);
                                        if src.e == 0 {
                                            tri!(self.copy(st, dst, src.v, n));
                                        } else if n <= 16 {
                                            let mut vs = vec![];
                                            for i in 0..n {
                                                let p = self.cx.bin(&mut st.pc, B::Add, 64, 64, src, c(i as u64));
                                                vs.push(tri!(self.load(st, p, 1, 8)));
                                            }
                                            for (i, v) in vs.into_iter().enumerate() {
                                                let v = self.fit(st, v, 8);
                                                tri!(self.store_at(st, dst + i as u64, v, 1, 8));
                                            }
                                        } else {
                                            let s = tri!(self.conc(st, src));
                                            tri!(self.copy(st, dst, s, n));
                                        }
                                    }
                                }
                                Intr::Memset => {
                                    let n = tri!(self.conc(st, a[2])) as usize;
                                    if n > 0 {
                                        let dst = tri!(self.conc(st, a[0]));
                                        let v = self.simp(st, a[1]);
                                        if v.e == 0 {
                                            let (id, off) = ((dst >> 32) as u32, (dst & 0xffff_ffff) as usize);
                                            let o = match st.mem.get_mut(id) {
                                                Some(o) if off + n <= o.data.len() => o,
                                                _ => tri!(err("memset out of bounds")),
                                            };
                                            o.data[off..off + n].fill(v.v as u8);
                                            if let Some(s) = &mut o.sym {
                                                s[off..off + n].fill((0, 0));
                                            }
                                        } else {
                                            let v = self.fit(st, v, 8);
                                            for i in 0..n {
                                                tri!(self.store_at(st, dst + i as u64, v, 1, 8));
                                            }
                                        }
                                    }
                                }
                                Intr::Trap => {
                                    st.frames.last_mut().unwrap().ip = ip as u32;
                                    let bt = st.backtrace(self.p, 6);
                                    return Err(Stop::End(End::Panic(format!("trap in {}", bt))));
                                }
                                Intr::Fshl | Intr::Fshr => {
                                    let w = dw[0];
                                    let s = tri!(self.conc(st, a[2])) % w as u64;
                                    let s = if *k == Intr::Fshl { s } else { (w as u64 - s) % w as u64 };
                                    let r = if s == 0 {
                                        if *k == Intr::Fshl { a[0] } else { a[1] }
                                    } else {
                                        let x = self.cx.bin(&mut st.pc, B::Shl, w, w, a[0], c(s));
                                        let y = self.cx.bin(&mut st.pc, B::LShr, w, w, a[1], c(w as u64 - s));
                                        self.cx.bin(&mut st.pc, B::Or, w, w, x, y)
                                    };
                                    set!(*d, r);
                                }
                            }
                            ip += 1;
                            continue;
                        }
                    };
                    let kind = self.p.kinds[fi];
                    let mut a = [c(0); 12];
                    if args.len() > 12 {
                        // rare: many arguments
                        let v: Vec<Val> = args.iter().map(|o| op!(*o)).collect();
                        if kind != Kind::Normal {
                            tri!(err("override with many arguments"))
                        }
                        st.frames.last_mut().unwrap().ip = ip as u32 + 1;
                        self.enter(st, fi, &v, *d);
                        return Ok(());
                    }
                    for (i, o) in args.iter().enumerate() {
                        a[i] = op!(*o);
                    }
                    match kind {
                        Kind::Normal => {
                            if st.frames.len() > 3000 {
                                tri!(err("call depth"));
                            }
                            st.frames.last_mut().unwrap().ip = ip as u32 + 1;
                            self.enter(st, fi, &a[..args.len()], *d);
                            return Ok(());
                        }
                        Kind::Merge | Kind::MergeScalar | Kind::MergeSame => {
                            let how = match kind {
                                Kind::Merge => How::Any,
                                Kind::MergeScalar => How::Mem,
                                _ => How::All,
                            };
                            if kind == Kind::Merge {
                                // a function of one character: results are kept
                                self.pending = None;
                                let at = tri!(self.conc(st, a[0]));
                                let v = tri!(self.load_at(st, at, 4, 32));
                                if v.e == 0 {
                                    st.frames.last_mut().unwrap().ip = ip as u32 + 1;
                                    self.enter(st, fi, &a[..args.len()], *d);
                                    return Ok(());
                                }
                                if let Some(x) = self.cx.only_var(v).filter(|_| !st.pc.split) {
                                    let live = st.pc.live(&mut self.cx, x);
                                    let key = (fi, v.e, live);
                                    if let Some(r) = self.calls.get(&key) {
                                        for i in 0..dw.len() {
                                            set!(*d as usize + i, r[i]);
                                        }
                                        ip += 1;
                                        continue;
                                    }
                                    self.pending = Some((key, *d, dw.len()));
                                }
                            }
                            st.frames.last_mut().unwrap().ip = ip as u32 + 1;
                            let dp = st.frames.len();
                            self.enter(st, fi, &a[..args.len()], *d);
                            return Err(Stop::MergeCall(dp, how));
                        }
                        _ => {
                            st.frames.last_mut().unwrap().ip = ip as u32;
                            let r = self.external(st, fi, kind, &a[..args.len()])?;
                            for i in 0..dw.len() {
                                let v = if i < r.len() { r[i] } else { c(0) };
                                set!(*d as usize + i, if v.e == 0 { c(v.v & mask(dw[i])) } else { v });
                            }
                            ip += 1;
                        }
                    }
                }
                I::CmpXchg { p, cmp, new, w, d } => {
                    let a = op!(*p);
                    let a = tri!(self.conc(st, a));
                    let n = (*w as usize).div_ceil(8);
                    let old = tri!(self.load_at(st, a, n, *w));
                    let e = self.cx.bin(&mut st.pc, B::Eq, *w, 1, old, op!(*cmp));
                    match self.decide(st, e) {
                        None => {
                            st.frames.last_mut().unwrap().ip = ip as u32;
                            return Err(self.fork_bool(e));
                        }
                        Some(ok) => {
                            if ok {
                                let v = op!(*new);
                                let v = self.fit(st, v, *w);
                                tri!(self.store_at(st, a, v, n, *w));
                            }
                            set!(*d, old);
                            set!(*d + 1, c(ok as u64));
                        }
                    }
                    ip += 1;
                }
                I::Rmw { op, p, v, w, d } => {
                    let a = op!(*p);
                    let a = tri!(self.conc(st, a));
                    let n = (*w as usize).div_ceil(8);
                    let old = tri!(self.load_at(st, a, n, *w));
                    let v = op!(*v);
                    let nv = match op {
                        RmwOp::Xchg => v,
                        RmwOp::Bin(o) => self.cx.bin(&mut st.pc, *o, *w, *w, old, v),
                        RmwOp::Nand => {
                            let x = self.cx.bin(&mut st.pc, B::And, *w, *w, old, v);
                            self.cx.bin(&mut st.pc, B::Xor, *w, *w, x, c(mask(*w)))
                        }
                    };
                    let nv = self.fit(st, nv, *w);
                    tri!(self.store_at(st, a, nv, n, *w));
                    set!(*d, old);
                    ip += 1;
                }
                I::Wide { op, w, d, a, b, flag } => {
                    let mut x = [op!(a[0]), op!(a[1])];
                    let mut y = [op!(b[0]), op!(b[1])];
                    for v in x.iter_mut().chain(y.iter_mut()) {
                        *v = self.simp(st, *v);
                    }
                    let r = tri!(self.wide(st, *op, *w, x, y));
                    set!(*d, r[0]);
                    if !*flag {
                        set!(*d + 1, r[1]);
                    }
                    ip += 1;
                }
                I::Unreachable => {
                    tri!(err("unreachable executed"));
                }
                I::Unsupported(s) => {
                    let s = s.clone();
                    tri!(err(format!("unsupported instruction {}", s)));
                }
            }
        }
    }

    fn wide(&mut self, st: &mut State, op: B, w: u8, x: [Val; 2], y: [Val; 2]) -> R<[Val; 2]> {
        let hw = w - 64;
        let hm = mask(hw);
        let allc = x[0].e == 0 && x[1].e == 0 && y[0].e == 0 && y[1].e == 0;
        if allc {
            let a = x[0].v as u128 | (x[1].v as u128) << 64;
            let b = y[0].v as u128 | (y[1].v as u128) << 64;
            let m: u128 = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
            let sxt = |v: u128| -> i128 { ((v << (128 - w as u32)) as i128) >> (128 - w as u32) };
            let r: u128 = match op {
                B::Add => a.wrapping_add(b),
                B::Sub => a.wrapping_sub(b),
                B::Mul => a.wrapping_mul(b),
                B::UDiv => a.checked_div(b).unwrap_or(0),
                B::URem => a.checked_rem(b).unwrap_or(0),
                B::And => a & b,
                B::Or => a | b,
                B::Xor => a ^ b,
                B::Shl => if b >= w as u128 { 0 } else { a << b },
                B::LShr => if b >= w as u128 { 0 } else { a >> b },
                B::AShr => (sxt(a) >> (b as u32).min(127)) as u128,
                B::Eq => (a == b) as u128,
                B::Ne => (a != b) as u128,
                B::Ult => (a < b) as u128,
                B::Ule => (a <= b) as u128,
                B::Slt => (sxt(a) < sxt(b)) as u128,
                B::Sle => (sxt(a) <= sxt(b)) as u128,
                B::UMin => a.min(b),
                B::UMax => a.max(b),
                B::UMulO => match a.checked_mul(b) {
                    Some(v) => (v > m) as u128,
                    None => 1,
                },
                B::UAddO => match a.checked_add(b) {
                    Some(v) => (v > m) as u128,
                    None => 1,
                },
                B::USubO => (a < b) as u128,
                o => return err(format!("wide operation {:?}", o)),
            } & m;
            return Ok([c(r as u64), c((r >> 64) as u64)]);
        }
        let pc = &mut st.pc;
        match op {
            B::And | B::Or | B::Xor => Ok([self.cx.bin(pc, op, 64, 64, x[0], y[0]), self.cx.bin(pc, op, hw, hw, x[1], y[1])]),
            B::Eq | B::Ne => {
                let a = self.cx.bin(pc, B::Eq, 64, 1, x[0], y[0]);
                let b = self.cx.bin(pc, B::Eq, hw, 1, x[1], y[1]);
                let r = self.cx.bin(pc, B::And, 1, 1, a, b);
                Ok([if op == B::Eq { r } else { self.cx.not(pc, r) }, c(0)])
            }
            B::Mul if x[1] == c(0) && y[1] == c(0) => {
                let (a, b) = match (self.cx.range(pc, x[0]), self.cx.range(pc, y[0])) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return err("wide multiplication"),
                };
                if (a.1 as u128) * (b.1 as u128) > u64::MAX as u128 {
                    let k = self.conc(st, x[0])?;
                    let l = self.conc(st, y[0])?;
                    let r = k as u128 * l as u128;
                    return Ok([c(r as u64), c((r >> 64) as u64 & hm)]);
                }
                Ok([self.cx.bin(pc, B::Mul, 64, 64, x[0], y[0]), c(0)])
            }
            B::Add => {
                let lo = self.cx.bin(pc, B::Add, 64, 64, x[0], y[0]);
                let cy = self.cx.bin(pc, B::UAddO, 64, 1, x[0], y[0]);
                let hi = self.cx.bin(pc, B::Add, hw, hw, x[1], y[1]);
                let cz = if hw > 1 { self.cx.bin(pc, B::Zext, 1, hw, cy, c(0)) } else { cy };
                let hi = self.cx.bin(pc, B::Add, hw, hw, hi, cz);
                Ok([lo, hi])
            }
            B::Shl | B::LShr if y[0].e == 0 => {
                let s = y[0].v as u32;
                if s == 0 {
                    return Ok(x);
                }
                let up = |s: &mut Self, pc: &mut Pc, v: Val| if hw < 64 { s.cx.bin(pc, B::Zext, hw, 64, v, c(0)) } else { v };
                let dn = |s: &mut Self, pc: &mut Pc, v: Val| if hw < 64 { s.cx.bin(pc, B::Trunc, 64, hw, v, c(0)) } else { v };
                if op == B::Shl {
                    if s >= 64 {
                        let h = self.cx.bin(pc, B::Shl, 64, 64, x[0], c(s as u64 - 64));
                        Ok([c(0), dn(self, pc, h)])
                    } else {
                        let lo = self.cx.bin(pc, B::Shl, 64, 64, x[0], c(s as u64));
                        let t = self.cx.bin(pc, B::LShr, 64, 64, x[0], c(64 - s as u64));
                        let t = dn(self, pc, t);
                        let h = self.cx.bin(pc, B::Shl, hw, hw, x[1], c(s as u64));
                        let h = self.cx.bin(pc, B::Or, hw, hw, h, t);
                        Ok([lo, h])
                    }
                } else if s >= 64 {
                    let h = self.cx.bin(pc, B::LShr, hw, hw, x[1], c(s as u64 - 64));
                    Ok([up(self, pc, h), c(0)])
                } else {
                    let lo = self.cx.bin(pc, B::LShr, 64, 64, x[0], c(s as u64));
                    let t = up(self, pc, x[1]);
                    let t = self.cx.bin(pc, B::Shl, 64, 64, t, c(64 - s as u64));
                    let lo = self.cx.bin(pc, B::Or, 64, 64, lo, t);
                    let h = self.cx.bin(pc, B::LShr, hw, hw, x[1], c(s as u64));
                    Ok([lo, h])
                }
            }
            B::Ult | B::Ule => {
                let hl = self.cx.bin(pc, B::Ult, hw, 1, x[1], y[1]);
                let he = self.cx.bin(pc, B::Eq, hw, 1, x[1], y[1]);
                let l = self.cx.bin(pc, op, 64, 1, x[0], y[0]);
                let t = self.cx.bin(pc, B::And, 1, 1, he, l);
                Ok([self.cx.bin(pc, B::Or, 1, 1, hl, t), c(0)])
            }
            o => {
                // make everything concrete
                let mut v = [0u64; 4];
                for (i, q) in [x[0], x[1], y[0], y[1]].iter().enumerate() {
                    v[i] = self.conc(st, *q)?;
                }
                self.wide(st, o, w, [c(v[0]), c(v[1])], [c(v[2]), c(v[3])])
            }
        }
    }

    fn cstr(&mut self, st: &mut State, p: u64, n: usize) -> R<String> {
        let b = self.bytes(st, p, n)?;
        let mut s = vec![];
        for x in b {
            s.push(self.conc(st, x)? as u8);
        }
        match String::from_utf8(s) {
            Ok(s) => Ok(s),
            Err(_) => err("string not utf8"),
        }
    }

    fn external(&mut self, st: &mut State, fi: usize, kind: Kind, a: &[Val]) -> R<Vec<Val>> {
        match kind {
            Kind::Panic => {
                let bt = st.backtrace(self.p, 8);
                Err(Stop::End(End::Panic(format!("{} < {}", self.p.dem[fi], bt))))
            }
            Kind::HashKeys => Ok(vec![c(0x0706050403020100), c(0x0f0e0d0c0b0a0908)]),
            Kind::Alloc | Kind::AllocZeroed => {
                let n = self.conc(st, a[0])? as usize;
                if n > 1 << 26 {
                    return Err(Stop::End(End::Panic(format!("allocation of {} bytes < {}", n, st.backtrace(self.p, 8)))));
                }
                let id = st.alloc(n);
                Ok(vec![c((id as u64) << 32)])
            }
            Kind::Realloc => {
                let p = self.conc(st, a[0])?;
                let n = self.conc(st, a[3])? as usize;
                if n > 1 << 26 {
                    return Err(Stop::End(End::Panic(format!("allocation of {} bytes < {}", n, st.backtrace(self.p, 8)))));
                }
                let id = (p >> 32) as u32;
                let mut o = match st.mem.get(id) {
                    Some(o) => o.clone(),
                    None => return err("realloc of unmapped"),
                };
                o.data.resize(n, 0);
                if let Some(s) = &mut o.sym {
                    s.resize(n, (0, 0));
                }
                st.mem.remove(id);
                let nid = st.next_id;
                st.next_id += 1;
                st.mem.insert(nid, o);
                Ok(vec![c((nid as u64) << 32)])
            }
            Kind::Dealloc => {
                let p = self.conc(st, a[0])?;
                if !st.mem.remove((p >> 32) as u32) {
                    return err(format!("free of unmapped {:#x}", p));
                }
                Ok(vec![])
            }
            Kind::Nop => Ok(vec![]),
            Kind::Memcmp => {
                let n = self.conc(st, a[2])? as usize;
                if n == 0 {
                    return Ok(vec![c(0)]);
                }
                let p = self.conc(st, a[0])?;
                let q = self.conc(st, a[1])?;
                let x = self.bytes(st, p, n)?;
                let y = self.bytes(st, q, n)?;
                let mut d = TRUE;
                let _ = &mut d;
                let is_b = self.p.m.fns[fi].name == "bcmp";
                let mut acc: D = self.cx.dd.term(0);
                if is_b {
                    // equality only
                    let mut eq = TRUE;
                    for i in 0..n {
                        let e = self.cx.bin(&mut st.pc, B::Eq, 8, 1, x[i], y[i]);
                        if e == c(0) {
                            return Ok(vec![c(1)]);
                        }
                        if e.e != 0 {
                            match self.cx.bool_dd(e).and_then(|k| self.cx.dd.and(eq, k)) {
                                Some(k) => eq = k,
                                None => return err("comparison too complex"),
                            }
                        }
                    }
                    let one = self.cx.dd.term(1);
                    match self.cx.dd.ite(eq, acc, one) {
                        Some(r) => return Ok(vec![self.cx.mk_dd(&mut st.pc, 32, r)]),
                        None => return err("comparison too complex"),
                    }
                }
                for i in (0..n).rev() {
                    let e = self.cx.bin(&mut st.pc, B::Eq, 8, 1, x[i], y[i]);
                    let l = self.cx.bin(&mut st.pc, B::Ult, 8, 1, x[i], y[i]);
                    let (e, l) = match (self.cx.bool_dd(e), self.cx.bool_dd(l)) {
                        (Some(e), Some(l)) => (e, l),
                        _ => return err("comparison too complex"),
                    };
                    let m1 = self.cx.dd.term(0xffff_ffff);
                    let p1 = self.cx.dd.term(1);
                    let r = self.cx.dd.ite(l, m1, p1).and_then(|r| self.cx.dd.ite(e, acc, r));
                    match r {
                        Some(r) => acc = r,
                        None => return err("comparison too complex"),
                    }
                }
                Ok(vec![self.cx.mk_dd(&mut st.pc, 32, acc)])
            }
            Kind::Strlen => {
                let p = self.conc(st, a[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_at(st, p + n, 1, 8)?;
                    if self.conc(st, b)? == 0 {
                        return Ok(vec![c(n)]);
                    }
                    n += 1;
                }
            }
            Kind::Choice => {
                let n = self.conc(st, a[0])? as u32;
                if n == 0 {
                    return err("choice of zero");
                }
                let idx = st.choices.len() as u32;
                let v = match self.vars.get(&(idx, n)) {
                    Some(v) => *v,
                    None => {
                        let v = self.cx.new_var(idx, n);
                        self.vars.insert((idx, n), v);
                        v
                    }
                };
                st.choices.push(v);
                let t: Vec<u64> = (0..n as u64).collect();
                Ok(vec![self.cx.mk_uni(&mut st.pc, 64, v, t)])
            }
            Kind::Assume => {
                let e = self.cx.bin(&mut st.pc, B::Ne, 64, 1, a[0], c(0));
                match self.decide(st, e) {
                    Some(true) => Ok(vec![]),
                    Some(false) => Err(Stop::End(End::AssumeFail)),
                    None => Err(self.fork_bool(e)),
                }
            }
            Kind::Check => {
                let e = self.cx.bin(&mut st.pc, B::Ne, 64, 1, a[0], c(0));
                let lp = self.conc(st, a[1])?;
                let ln = self.conc(st, a[2])? as usize;
                if e == c(1) {
                    self.out.stats.checks_const += 1;
                    return Ok(vec![]);
                }
                let label = self.cstr(st, lp, ln)?;
                if e.e == 0 {
                    self.violation(st, &label, None);
                    return Err(Stop::End(End::Violation));
                }
                let dec = self.decide(st, e);
                if dec == Some(false) {
                    if !self.violation(st, &label, None) {
                        return err("infeasible path reached a failing check");
                    }
                    return Err(Stop::End(End::Violation));
                }
                self.out.stats.checks_sym += 1;
                match self.smt.check(&self.cx, &st.pc, &[(e, false)], &[]) {
                    Res::Unsat => Ok(vec![]),
                    Res::Unknown => err(format!("solver gave no answer on {}", label)),
                    Res::Sat(_) if dec == Some(true) => err("solver and decision diagrams disagree"),
                    // the failing half ends when it comes here again, the rest goes on
                    Res::Sat(_) => Err(self.fork_bool(e)),
                }
            }
            Kind::Observe => {
                let n = self.conc(st, a[1])? as usize;
                let data = if n == 0 {
                    vec![]
                } else {
                    let p = self.conc(st, a[0])?;
                    self.bytes(st, p, n)?
                };
                st.obs = Some(Rc::new(ObsNode { data, prev: st.obs.take() }));
                Ok(vec![])
            }
            Kind::Conc => {
                let v = self.conc(st, a[0])?;
                Ok(vec![c(v)])
            }
            Kind::RegexNew => {
                let p = self.conc(st, a[0])?;
                let n = self.conc(st, a[1])? as usize;
                let pat = self.cstr(st, p, n)?;
                let ng = self.conc(st, a[2])? as usize;
                match self.rxt.add(&pat) {
                    Ok(i) => {
                        let r = self.rxt.get(i).unwrap();
                        let gi = r.nfa.group_info();
                        let have = gi.group_len(regex_automata::PatternID::ZERO);
                        // ng = 0: the pattern as written; otherwise with its named groups known
                        if ng == 0 && gi.pattern_names(regex_automata::PatternID::ZERO).any(|n| n.is_some()) {
                            return Ok(vec![c(u64::MAX)]);
                        }
                        if ng != 0 && have != ng || have > 255 {
                            return err("group count differs");
                        }
                        Ok(vec![c(i << 8 | have as u64)])
                    }
                    Err(_) if ng == 0 => Ok(vec![c(u64::MAX)]),
                    Err(e) => err(format!("regex {}: {}", pat, e)),
                }
            }
            Kind::RegexSearch => self.regex_search(st, a),
            Kind::Ret(v) => Ok(vec![c(v as u64)]),
            Kind::Affinity => {
                // cpu set with 8 bits
                let n = self.conc(st, a[1])? as usize;
                let p = self.conc(st, a[2])?;
                for i in 0..n {
                    self.store_at(st, p + i as u64, c(if i == 0 { 0xff } else { 0 }), 1, 8)?;
                }
                Ok(vec![c(0)])
            }
            Kind::KeyCreate => {
                let p = self.conc(st, a[0])?;
                st.keys += 1;
                let k = st.keys as u64;
                self.store_at(st, p, c(k), 4, 32)?;
                Ok(vec![c(0)])
            }
            Kind::Errno => Ok(vec![c((self.p.errno_id as u64) << 32)]),
            k => err(format!("external {} ({:?})", self.p.dem[fi], k)),
        }
    }

    fn regex_search(&mut self, st: &mut State, a: &[Val]) -> R<Vec<Val>> {
        let id = self.conc(st, a[0])?;
        let re = match self.rcache.get(&id) {
            Some(r) => r.clone(),
            None => {
                let r = match self.rxt.get(id) {
                    Some(r) => r,
                    None => return err("unknown regex"),
                };
                self.rcache.insert(id, r.clone());
                r
            }
        };
        let len = self.conc(st, a[2])? as usize;
        let start = self.conc(st, a[3])? as usize;
        let end = self.conc(st, a[4])? as usize;
        let anch = self.conc(st, a[5])? != 0;
        let nsl = self.conc(st, a[7])? as usize;
        let hay = if len == 0 {
            vec![]
        } else {
            let p = self.conc(st, a[1])?;
            self.bytes(st, p, len)?
        };
        let hay: Vec<Val> = hay.into_iter().map(|v| self.simp(st, v)).collect();
        let out: Vec<u32>;
        if hay.iter().all(|v| v.e == 0) {
            self.out.stats.searches_conc += 1;
            let h: Vec<u8> = hay.iter().map(|v| v.v as u8).collect();
            out = match rx::concrete(&re, &h, start, end, anch, nsl) {
                Ok(o) => o,
                Err(e) => return err(e),
            };
        } else {
            self.out.stats.searches_sym += 1;
            // first without regard to the path (shared by all paths), then, if that is
            // too large, over the live values of this path only
            let key = (id, hay.clone(), start, end, (anch, nsl), vec![]);
            let any = match self.rmemo.get(&key) {
                Some(x) => x.clone(),
                None => {
                    let mut free = Pc::default();
                    let r = rx::search(&mut self.cx, &mut free, &re, &hay, start, end, anch, nsl, 20_000);
                    let v = r.ok().map(|(d, o)| (d, Rc::new(o)));
                    if self.rmemo.len() > 200_000 {
                        self.rmemo.clear();
                    }
                    self.rmemo.insert(key, v.clone());
                    v
                }
            };
            let (d, outs) = match any {
                Some(x) => x,
                None => {
                    let key = (id, hay.clone(), start, end, (anch, nsl), st.pc.parts.clone());
                    match self.rmemo.get(&key) {
                        Some(x) => x.clone().unwrap(),
                        None => {
                            let r = rx::search(&mut self.cx, &mut st.pc, &re, &hay, start, end, anch, nsl, 400_000);
                            let (d, o) = match r {
                                Ok(x) => x,
                                Err(e) => return err(format!("{} (pattern {})", e, re.pat)),
                            };
                            let v = (d, Rc::new(o));
                            self.rmemo.insert(key, Some(v.clone()));
                            v
                        }
                    }
                }
            };
            let (_, rel) = st.pc.related(&mut self.cx, d);
            let ts = match self.cx.dd.terminals(d, rel.unwrap_or(TRUE), 4096) {
                Some(t) => t,
                None => return err("regex outcomes"),
            };
            // outcomes that differ only in slots the caller does not ask for are the same
            let proj = |i: u64| -> Vec<u32> {
                let o = &outs[i as usize];
                if o.is_empty() { vec![] } else { o[..nsl.min(o.len())].iter().cloned().chain(std::iter::once(0)).collect() }
            };
            let mut groups: Vec<(Vec<u32>, Vec<u64>)> = vec![];
            for t in ts {
                let k = proj(t);
                match groups.iter_mut().find(|g| g.0 == k) {
                    Some(g) => g.1.push(t),
                    None => groups.push((k, vec![t])),
                }
            }
            if groups.len() == 1 {
                out = outs[groups[0].1[0] as usize].clone();
            } else if nsl == 0 {
                // only whether there is a match
                let r = self.cx.dd.map(d, &mut |x| !outs[x as usize].is_empty() as u64);
                return Ok(vec![self.cx.mk_dd(&mut st.pc, 64, r)]);
            } else if nsl == 2 {
                // a match or none; where, is left open
                if groups.iter().any(|g| g.0.is_empty()) {
                    let k = self.cx.dd.map(d, &mut |x| !outs[x as usize].is_empty() as u64);
                    let n = self.cx.dd.map(d, &mut |x| outs[x as usize].is_empty() as u64);
                    return Err(Stop::Fork(vec![Cond::D(k), Cond::D(n)]));
                }
                let p = self.conc(st, a[6])?;
                for i in 0..2usize {
                    let r = self.cx.dd.map(d, &mut |x| outs[x as usize].get(i).map_or(0, |v| *v as u64));
                    let v = self.cx.mk_dd(&mut st.pc, 64, r);
                    self.store_at(st, p + 8 * i as u64, v, 8, 64)?;
                }
                return Ok(vec![c(1)]);
            } else {
                let mut cs = vec![];
                for g in &groups {
                    let k = self.cx.dd.map(d, &mut |x| g.1.contains(&x) as u64);
                    cs.push(Cond::D(k));
                }
                return Err(Stop::Fork(cs));
            }
        }
        if out.is_empty() {
            return Ok(vec![c(0)]);
        }
        if nsl > 0 {
            let p = self.conc(st, a[6])?;
            for i in 0..nsl {
                let v = if i < out.len() { out[i] as u64 } else { 0 };
                self.store_at(st, p + 8 * i as u64, c(v), 8, 64)?;
            }
        }
        Ok(vec![c(1)])
    }
    pub fn used_set(&self) -> Set<usize> {
        self.used.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect()
    }
}
