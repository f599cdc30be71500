//! Symbolic values.  A value is concrete, a sum of per-variable tables
//! (`Sum`, modulo 2^w), a decision diagram (`Dd`), or a general term (`Gen`)
//! that only the SMT solver understands.
use crate::dd::*;
use crate::fx::Map;
use crate::prog::B;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Val {
    /// 0 = concrete, otherwise expression number
    pub e: u32,
    pub v: u64,
}
pub const fn c(v: u64) -> Val {
    Val { e: 0, v }
}
impl Val {
    #[inline(always)]
    pub fn conc(self) -> Option<u64> {
        if self.e == 0 { Some(self.v) } else { None }
    }
}

pub type Table = Rc<[u64]>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ex {
    Sum { w: u8, c: u64, t: Vec<(u32, Table)> },
    Dd { w: u8, d: D },
    Bin { op: B, w: u8, w2: u8, a: Val, b: Val },
    Ite { w: u8, c: Val, a: Val, b: Val },
    /// bytes of other values, least significant first; (0, x) is the constant byte x
    Cat { w: u8, b: Vec<(u32, u8)> },
}

/// Path condition.
#[derive(Clone, Default)]
pub struct Pc {
    pub parts: Vec<D>,
    pub gens: Vec<(Val, bool)>,
    /// set when parts sharing variables could not be conjoined within budget
    pub split: bool,
    pub doms: Map<u32, Rc<Vec<bool>>>,
}

pub struct Ctx {
    pub dd: Dd,
    pub ex: Vec<Ex>,
    uniq: Map<Ex, u32>,
    full: Map<u32, Rc<Vec<bool>>>,
    memo: Map<(u32, Val, Val), Val>,
    pub ngen: u64,
}

impl Pc {
    pub fn live(&mut self, cx: &mut Ctx, var: u32) -> Rc<Vec<bool>> {
        if let Some(l) = self.doms.get(&var) {
            return l.clone();
        }
        let mut res: Option<Rc<Vec<bool>>> = None;
        for i in 0..self.parts.len() {
            let p = self.parts[i];
            if cx.dd.support(p).binary_search(&var).is_ok() {
                let q = cx.dd.project(p, var);
                res = Some(match res {
                    None => q,
                    Some(r) => Rc::new(r.iter().zip(q.iter()).map(|(a, b)| *a && *b).collect()),
                });
            }
        }
        let r = match res {
            Some(r) => r,
            None => cx.all(var),
        };
        self.doms.insert(var, r.clone());
        r
    }
    /// Conjunction of the parts that (transitively) share variables with `vars`.
    pub fn related(&mut self, cx: &mut Ctx, d: D) -> (Vec<usize>, Option<D>) {
        let sup = cx.dd.support(d);
        let mut idx = vec![];
        for i in 0..self.parts.len() {
            let s = cx.dd.support(self.parts[i]);
            if s.iter().any(|v| sup.binary_search(v).is_ok()) {
                idx.push(i);
            }
        }
        let mut acc = TRUE;
        for &i in &idx {
            match cx.dd.and(acc, self.parts[i]) {
                Some(x) => acc = x,
                None => return (idx, None),
            }
        }
        (idx, Some(acc))
    }
    /// Add a boolean diagram; returns false when the result is known to be infeasible.
    pub fn add(&mut self, cx: &mut Ctx, d: D) -> bool {
        if d == TRUE {
            return true;
        }
        if d == FALSE {
            return false;
        }
        let (idx, rel) = self.related(cx, d);
        let joined = match rel {
            Some(r) => cx.dd.and(r, d).filter(|x| cx.dd.size(*x) < 20_000),
            None => None,
        };
        for v in cx.dd.support(d).iter() {
            self.doms.remove(v);
        }
        match joined {
            Some(FALSE) => false,
            Some(j) => {
                for &i in &idx {
                    for v in cx.dd.support(self.parts[i]).iter() {
                        self.doms.remove(v);
                    }
                }
                let mut k = 0;
                let mut keep = vec![];
                for i in 0..self.parts.len() {
                    if k < idx.len() && idx[k] == i {
                        k += 1;
                    } else {
                        keep.push(self.parts[i]);
                    }
                }
                if j != TRUE {
                    keep.push(j);
                }
                self.parts = keep;
                true
            }
            None => {
                self.split = true;
                self.parts.push(d);
                true
            }
        }
    }
    pub fn invalidate(&mut self) {
        self.doms.clear();
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut cx = Ctx { dd: Dd::new(), ex: vec![], uniq: Map::default(), full: Map::default(), memo: Map::default(), ngen: 0 };
        cx.ex.push(Ex::Dd { w: 0, d: FALSE });
        cx
    }
    /// The only variable a value depends on.
    pub fn only_var(&mut self, v: Val) -> Option<u32> {
        if v.e == 0 {
            return None;
        }
        match &self.ex[v.e as usize] {
            Ex::Sum { t, .. } if t.len() == 1 => Some(t[0].0),
            Ex::Dd { d, .. } => {
                let d = *d;
                let s = self.dd.support(d);
                if s.len() == 1 { Some(s[0]) } else { None }
            }
            _ => None,
        }
    }
    pub fn all(&mut self, var: u32) -> Rc<Vec<bool>> {
        let n = self.dd.dom[var as usize] as usize;
        self.full.entry(var).or_insert_with(|| Rc::new(vec![true; n])).clone()
    }
    /// A variable for the choice at position `at`; the order of the diagrams is the order
    /// of the choices, whichever path made them first.
    pub fn new_var(&mut self, at: u32, n: u32) -> u32 {
        let i = (16 * at..).find(|i| self.dd.dom.get(*i as usize).is_none_or(|n| *n == 0)).unwrap();
        if self.dd.dom.len() <= i as usize {
            self.dd.dom.resize(i as usize + 1, 0);
        }
        self.dd.dom[i as usize] = n;
        i
    }
    fn intern(&mut self, e: Ex) -> Val {
        if let Some(i) = self.uniq.get(&e) {
            return Val { e: *i, v: 0 };
        }
        let i = self.ex.len() as u32;
        self.ex.push(e.clone());
        self.uniq.insert(e, i);
        Val { e: i, v: 0 }
    }
    pub fn width(&self, v: Val) -> u8 {
        match &self.ex[v.e as usize] {
            Ex::Sum { w, .. } | Ex::Dd { w, .. } | Ex::Ite { w, .. } | Ex::Cat { w, .. } => *w,
            Ex::Bin { w2, .. } => *w2,
        }
    }
    /// sum of tables, normalised under the current path
    pub fn mk_sum(&mut self, pc: &mut Pc, w: u8, c0: u64, t: Vec<(u32, Vec<u64>)>) -> Val {
        let m = mask(w);
        let mut cc = c0 & m;
        let mut out: Vec<(u32, Vec<u64>)> = vec![];
        for (v, mut tab) in t {
            let live = pc.live(self, v);
            let f = match live.iter().position(|x| *x) {
                Some(f) => f,
                None => return c(cc),
            };
            let base = tab[f] & m;
            let mut min = 0i64;
            let mut konst = true;
            for i in 0..tab.len() {
                if live[i] {
                    let d = sx(tab[i].wrapping_sub(base) & m, w);
                    if d != 0 {
                        konst = false;
                    }
                    min = min.min(d);
                }
            }
            if konst {
                cc = cc.wrapping_add(base) & m;
                continue;
            }
            let lo = base.wrapping_add(min as u64) & m;
            for i in 0..tab.len() {
                tab[i] = if live[i] { tab[i].wrapping_sub(lo) & m } else { base.wrapping_sub(lo) & m };
            }
            cc = cc.wrapping_add(lo) & m;
            out.push((v, tab));
        }
        if out.is_empty() {
            return c(cc);
        }
        if out.len() == 1 {
            for x in out[0].1.iter_mut() {
                *x = x.wrapping_add(cc) & m;
            }
            cc = 0;
            if w == 1 {
                let d = self.dd.from_table(out[0].0, &out[0].1);
                return self.intern(Ex::Dd { w: 1, d });
            }
        }
        out.sort_by_key(|x| x.0);
        self.intern(Ex::Sum { w, c: cc, t: out.into_iter().map(|(v, t)| (v, t.into())).collect() })
    }
    pub fn mk_uni(&mut self, pc: &mut Pc, w: u8, var: u32, t: Vec<u64>) -> Val {
        self.mk_sum(pc, w, 0, vec![(var, t)])
    }
    pub fn mk_dd(&mut self, pc: &mut Pc, w: u8, d: D) -> Val {
        if let Some(v) = self.dd.is_term(d) {
            return c(v);
        }
        if w > 1 {
            let sup = self.dd.support(d);
            if sup.len() == 1 {
                let var = sup[0];
                let n = self.dd.dom[var as usize];
                let mut m = Map::default();
                let t: Vec<u64> = (0..n)
                    .map(|i| {
                        m.insert(var, i);
                        self.dd.eval(d, &m)
                    })
                    .collect();
                return self.mk_uni(pc, w, var, t);
            }
            if sup.len() <= 3 && w >= 8 {
                if let Some(v) = self.separate(pc, w, d, &sup) {
                    return v;
                }
            }
        }
        self.intern(Ex::Dd { w, d })
    }
    fn separate(&mut self, pc: &mut Pc, w: u8, d: D, sup: &[u32]) -> Option<Val> {
        let mut base: Map<u32, u32> = Map::default();
        for v in sup {
            let l = pc.live(self, *v);
            base.insert(*v, l.iter().position(|x| *x)? as u32);
        }
        let b0 = self.dd.eval(d, &base);
        let m = mask(w);
        let mut tabs = vec![];
        for v in sup {
            let n = self.dd.dom[*v as usize];
            let live = pc.live(self, *v);
            let keep = base[v];
            let mut t = Vec::with_capacity(n as usize);
            for i in 0..n {
                if live[i as usize] {
                    base.insert(*v, i);
                    t.push(self.dd.eval(d, &base).wrapping_sub(b0) & m);
                } else {
                    t.push(0);
                }
            }
            base.insert(*v, keep);
            tabs.push((*v, t));
        }
        // verify on all live combinations
        let lives: Vec<Rc<Vec<bool>>> = sup.iter().map(|v| pc.live(self, *v)).collect();
        let prod: usize = lives.iter().map(|l| l.iter().filter(|x| **x).count()).product();
        if prod > 4096 {
            return None;
        }
        fn rec(s: &Ctx, d: D, sup: &[u32], lives: &[Rc<Vec<bool>>], tabs: &[(u32, Vec<u64>)], k: usize, acc: u64, m: u64, env: &mut Map<u32, u32>) -> bool {
            if k == sup.len() {
                return s.dd.eval(d, env) == acc & m;
            }
            for i in 0..lives[k].len() {
                if lives[k][i] {
                    env.insert(sup[k], i as u32);
                    if !rec(s, d, sup, lives, tabs, k + 1, acc.wrapping_add(tabs[k].1[i]), m, env) {
                        return false;
                    }
                }
            }
            true
        }
        let mut env = Map::default();
        if !rec(self, d, sup, &lives, &tabs, 0, b0, m, &mut env) {
            return None;
        }
        Some(self.mk_sum(pc, w, b0, tabs))
    }
    pub fn bool_dd(&mut self, v: Val) -> Option<D> {
        if v.e == 0 {
            return Some(if v.v & 1 != 0 { TRUE } else { FALSE });
        }
        match &self.ex[v.e as usize] {
            Ex::Dd { d, .. } => Some(*d),
            Ex::Sum { t, .. } if t.len() == 1 => {
                let (v, t) = t[0].clone();
                Some(self.dd.from_table(v, &t))
            }
            _ => None,
        }
    }
    pub fn to_dd(&mut self, pc: &mut Pc, v: Val) -> Option<D> {
        if v.e == 0 {
            return Some(self.dd.term(v.v));
        }
        let v = self.mat(pc, v);
        if v.e == 0 {
            return Some(self.dd.term(v.v));
        }
        match self.ex[v.e as usize].clone() {
            Ex::Dd { d, .. } => Some(d),
            Ex::Sum { w, c, t } => {
                let mut prod = 1usize;
                for (v, _) in &t {
                    let l = pc.live(self, *v);
                    prod = prod.saturating_mul(l.iter().filter(|x| **x).count());
                }
                if prod > 8192 {
                    return None;
                }
                let mut acc = self.dd.term(c);
                for (v, tab) in t.iter().rev() {
                    let x = self.dd.from_table(*v, tab);
                    acc = self.dd.apply(B::Add, w, w, acc, x)?;
                }
                Some(acc)
            }
            _ => None,
        }
    }
    fn as_sum(&self, v: Val) -> Option<(u64, Vec<(u32, Table)>)> {
        if v.e == 0 {
            return Some((v.v, vec![]));
        }
        match &self.ex[v.e as usize] {
            Ex::Sum { c, t, .. } => Some((*c, t.clone())),
            _ => None,
        }
    }
    fn tmax(&mut self, pc: &mut Pc, var: u32, t: &[u64]) -> u64 {
        let l = pc.live(self, var);
        t.iter().zip(l.iter()).filter(|x| *x.1).map(|x| *x.0).max().unwrap_or(0)
    }
    fn tmin(&mut self, pc: &mut Pc, var: u32, t: &[u64]) -> u64 {
        let l = pc.live(self, var);
        t.iter().zip(l.iter()).filter(|x| *x.1).map(|x| *x.0).min().unwrap_or(0)
    }
    fn tbits(&mut self, pc: &mut Pc, var: u32, t: &[u64]) -> u64 {
        let l = pc.live(self, var);
        t.iter().zip(l.iter()).filter(|x| *x.1).fold(0, |a, x| a | *x.0)
    }
    /// Unsigned range when the value cannot wrap.
    pub fn range(&mut self, pc: &mut Pc, v: Val) -> Option<(u64, u64)> {
        if v.e == 0 {
            return Some((v.v, v.v));
        }
        match self.ex[v.e as usize].clone() {
            Ex::Sum { w, c, t } => {
                let (mut lo, mut hi) = (c as u128, c as u128);
                for (v, tab) in &t {
                    lo += self.tmin(pc, *v, tab) as u128;
                    hi += self.tmax(pc, *v, tab) as u128;
                }
                if hi > mask(w) as u128 { None } else { Some((lo as u64, hi as u64)) }
            }
            Ex::Dd { d, .. } => {
                let t = self.dd.terminals(d, TRUE, 4096)?;
                Some((*t.first()?, *t.last()?))
            }
            _ => None,
        }
    }
    fn single(&self, v: Val) -> Option<Option<(u32, Table)>> {
        if v.e == 0 {
            return Some(None);
        }
        match &self.ex[v.e as usize] {
            Ex::Sum { t, c: 0, .. } if t.len() == 1 => Some(Some(t[0].clone())),
            _ => None,
        }
    }
    fn expensive(&mut self, e: u32) -> bool {
        match &self.ex[e as usize] {
            Ex::Sum { t, w, .. } => t.len() > 1 && *w > 8,
            Ex::Dd { d, w } => {
                let (d, w) = (*d, *w);
                w > 8 && self.dd.support(d).len() > 3
            }
            Ex::Bin { w2, .. } => *w2 > 8,
            Ex::Ite { w, .. } | Ex::Cat { w, .. } => *w > 8,
        }
    }
    fn is_cat(&self, v: Val) -> bool {
        v.e != 0 && matches!(self.ex[v.e as usize], Ex::Cat { .. })
    }
    /// byte references of a value of width w (multiple of 8)
    fn refs(&self, v: Val, w: u8) -> Option<Vec<(u32, u8)>> {
        if w % 8 != 0 {
            return None;
        }
        let n = w / 8;
        if v.e == 0 {
            return Some((0..n).map(|i| (0, (v.v >> (8 * i)) as u8)).collect());
        }
        if self.width(v) != w {
            return None;
        }
        if let Ex::Cat { b, .. } = &self.ex[v.e as usize] {
            return Some(b.clone());
        }
        Some((0..n).map(|i| (v.e, i)).collect())
    }
    /// A value from byte references.
    pub fn mk_cat(&mut self, pc: &mut Pc, w: u8, b: Vec<(u32, u8)>) -> Val {
        // flatten
        let b: Vec<(u32, u8)> = b
            .into_iter()
            .map(|(e, k)| {
                if e != 0 {
                    if let Ex::Cat { b, .. } = &self.ex[e as usize] {
                        return b[k as usize];
                    }
                }
                (e, k)
            })
            .collect();
        if b.iter().all(|x| x.0 == 0) {
            return c(b.iter().enumerate().fold(0u64, |a, (i, x)| a | (x.1 as u64) << (8 * i)) & mask(w));
        }
        let e = b[0].0;
        if e != 0 && self.width(Val { e, v: 0 }) == w && b.iter().enumerate().all(|(i, r)| r.0 == e && r.1 == i as u8) {
            return Val { e, v: 0 };
        }
        let mut hard = false;
        let mut i = 0;
        while i < b.len() {
            let (e, k) = b[i];
            if e == 0 || !self.expensive(e) {
                i += 1;
                continue;
            }
            let n = (self.width(Val { e, v: 0 }) as usize).div_ceil(8);
            if k == 0 && i + n <= b.len() && (0..n).all(|j| b[i + j] == (e, j as u8)) {
                i += n;
                continue;
            }
            hard = true;
            break;
        }
        if !hard || w % 8 != 0 {
            return self.compose(pc, w, &b);
        }
        self.intern(Ex::Cat { w, b })
    }
    fn compose(&mut self, pc: &mut Pc, w: u8, b: &[(u32, u8)]) -> Val {
        let mut acc = c(0);
        let mut i = 0;
        while i < b.len() {
            let (e, k) = b[i];
            if e == 0 {
                let x = c((k as u64) << (8 * i) & mask(w));
                acc = self.bin0(pc, B::Add, w, w, acc, x);
                i += 1;
                continue;
            }
            let ev = Val { e, v: 0 };
            let ew = self.width(ev);
            let mut n = 1;
            while i + n < b.len() && b[i + n].0 == e && b[i + n].1 as usize == k as usize + n {
                n += 1;
            }
            let pw = if w < 8 { w } else { (8 * n).min(w as usize) as u8 };
            let mut part = if k == 0 { ev } else { self.bin0(pc, B::LShr, ew, ew, ev, c(8 * k as u64)) };
            if ew > pw {
                part = self.bin0(pc, B::Trunc, ew, pw, part, c(0));
            }
            let cw = ew.min(pw);
            if cw < w {
                part = self.bin0(pc, B::Zext, cw, w, part, c(0));
            }
            if i > 0 {
                part = self.bin0(pc, B::Shl, w, w, part, c(8 * i as u64));
            }
            acc = self.bin0(pc, B::Add, w, w, acc, part);
            i += n;
        }
        acc
    }
    pub fn mat(&mut self, pc: &mut Pc, v: Val) -> Val {
        if v.e == 0 {
            return v;
        }
        if let Ex::Cat { w, b } = &self.ex[v.e as usize] {
            let (w, b) = (*w, b.clone());
            return self.compose(pc, w, &b);
        }
        v
    }
    pub fn bin(&mut self, pc: &mut Pc, op: B, w: u8, w2: u8, a: Val, b: Val) -> Val {
        if a.e == 0 && b.e == 0 {
            return c(conc(op, w, w2, a.v, b.v));
        }
        let (ca, cb) = (self.is_cat(a), self.is_cat(b));
        let bytewise = match op {
            B::Trunc => w2 % 8 == 0 && a.e != 0 && (ca || (self.expensive(a.e) && self.range(pc, a).map_or(true, |r| r.1 > mask(w2)))),
            B::Zext => w2 % 8 == 0 && ca,
            B::LShr | B::Shl => b.e == 0 && b.v % 8 == 0 && b.v < w as u64 && (ca || (op == B::LShr && a.e != 0 && self.expensive(a.e) && matches!(self.ex[a.e as usize], Ex::Sum { .. }) && self.lin(pc, op, w, w2, a, b).is_none())),
            B::Or | B::Add => ca || cb,
            _ => false,
        };
        if bytewise {
            if let Some(ra) = self.refs(a, w) {
                let n = ra.len();
                match op {
                    B::Trunc => return self.mk_cat(pc, w2, ra[..w2 as usize / 8].to_vec()),
                    B::Zext => {
                        let mut r = ra;
                        r.resize(w2 as usize / 8, (0, 0));
                        return self.mk_cat(pc, w2, r);
                    }
                    B::LShr => {
                        let k = b.v as usize / 8;
                        let mut r = ra[k..].to_vec();
                        r.resize(n, (0, 0));
                        return self.mk_cat(pc, w, r);
                    }
                    B::Shl => {
                        let k = b.v as usize / 8;
                        let mut r = vec![(0, 0); k];
                        r.extend_from_slice(&ra[..n - k]);
                        return self.mk_cat(pc, w, r);
                    }
                    _ => {
                        if let Some(rb) = self.refs(b, w) {
                            if ra.iter().zip(rb.iter()).all(|(x, y)| *x == (0, 0) || *y == (0, 0)) {
                                let r = ra.iter().zip(rb.iter()).map(|(x, y)| if *x == (0, 0) { *y } else { *x }).collect();
                                return self.mk_cat(pc, w, r);
                            }
                        }
                    }
                }
            }
        }
        let a = if ca { self.mat(pc, a) } else { a };
        let b = if cb { self.mat(pc, b) } else { b };
        self.bin0(pc, op, w, w2, a, b)
    }
    fn bin0(&mut self, pc: &mut Pc, op: B, w: u8, w2: u8, a: Val, b: Val) -> Val {
        let unary = matches!(op, B::Ctpop | B::Ctlz | B::Cttz | B::Bswap | B::Bitrev | B::Abs | B::Trunc | B::Zext | B::Sext);
        let b = if unary { c(0) } else { b };
        if a.e == 0 && b.e == 0 {
            return c(conc(op, w, w2, a.v, b.v));
        }
        // identities
        match op {
            B::Add | B::Or | B::Xor | B::Shl | B::LShr | B::AShr | B::Sub if b == c(0) => return a,
            B::Add | B::Or | B::Xor if a == c(0) => return b,
            B::And if a == c(0) || b == c(0) => return c(0),
            B::And if a == c(mask(w)) => return b,
            B::And if b == c(mask(w)) => return a,
            B::Mul if a == c(0) || b == c(0) => return c(0),
            B::Mul if a == c(1) => return b,
            B::Mul if b == c(1) => return a,
            B::UMulO if a == c(0) || b == c(0) || a == c(1) || b == c(1) => return c(0),
            _ => {}
        }
        if a == b && !unary {
            match op {
                B::Sub | B::Xor | B::Ne | B::Ult | B::Slt | B::USubO | B::USubSat | B::SSubO | B::SSubSat => return c(0),
                B::Eq | B::Ule | B::Sle => return c(1),
                B::And | B::Or | B::UMin | B::UMax | B::SMin | B::SMax => return a,
                _ => {}
            }
        }
        // single-variable pointwise
        if let (Some(x), Some(y)) = (self.single(a), self.single(b)) {
            let var = match (&x, &y) {
                (Some(p), None) => Some(p.0),
                (None, Some(q)) => Some(q.0),
                (Some(p), Some(q)) if p.0 == q.0 => Some(p.0),
                _ => None,
            };
            if let Some(var) = var {
                let n = self.dd.dom[var as usize] as usize;
                let t: Vec<u64> = (0..n)
                    .map(|i| {
                        let p = x.as_ref().map_or(a.v, |p| p.1[i]);
                        let q = y.as_ref().map_or(b.v, |q| q.1[i]);
                        conc(op, w, w2, p, q)
                    })
                    .collect();
                return self.mk_uni(pc, w2, var, t);
            }
        }
        if w > 1 {
            if let Some(r) = self.lin(pc, op, w, w2, a, b) {
                return r;
            }
        }
        if let Some(x) = self.to_dd(pc, a) {
            if let Some(y) = self.to_dd(pc, b) {
                if let Some(r) = self.dd.apply(op, w, w2, x, y) {
                    return self.mk_dd(pc, w2, r);
                }
            }
        }
        // propositional laws on general booleans are left to the solver
        self.ngen += 1;
        self.intern(Ex::Bin { op, w, w2, a, b })
    }
    fn lin(&mut self, pc: &mut Pc, op: B, w: u8, w2: u8, a: Val, b: Val) -> Option<Val> {
        let m = mask(w);
        let (ca, ta) = self.as_sum(a)?;
        let (cb, tb) = self.as_sum(b)?;
        let vecs = |t: &Vec<(u32, Table)>| -> Vec<(u32, Vec<u64>)> { t.iter().map(|(v, t)| (*v, t.to_vec())).collect() };
        match op {
            B::Add | B::Sub => {
                let neg = op == B::Sub;
                let mut acc = vecs(&ta);
                for (v, t) in &tb {
                    let f = |x: u64| if neg { x.wrapping_neg() } else { x };
                    if let Some(e) = acc.iter_mut().find(|e| e.0 == *v) {
                        for (x, y) in e.1.iter_mut().zip(t.iter()) {
                            *x = x.wrapping_add(f(*y)) & m;
                        }
                    } else {
                        acc.push((*v, t.iter().map(|y| f(*y) & m).collect()));
                    }
                }
                let cc = if neg { ca.wrapping_sub(cb) } else { ca.wrapping_add(cb) };
                Some(self.mk_sum(pc, w, cc, acc))
            }
            B::Mul | B::Shl => {
                let (k, cs, ts) = if tb.is_empty() {
                    (if op == B::Shl { if cb >= w as u64 { return Some(c(0)) } else { 1u64 << cb } } else { cb }, ca, ta)
                } else if ta.is_empty() && op == B::Mul {
                    (ca, cb, tb)
                } else {
                    return None;
                };
                let acc = ts.iter().map(|(v, t)| (*v, t.iter().map(|x| x.wrapping_mul(k) & m).collect())).collect();
                Some(self.mk_sum(pc, w, cs.wrapping_mul(k), acc))
            }
            B::Trunc => {
                let m2 = mask(w2);
                let acc = ta.iter().map(|(v, t)| (*v, t.iter().map(|x| x & m2).collect())).collect();
                Some(self.mk_sum(pc, w2, ca & m2, acc))
            }
            B::Zext => {
                self.range(pc, a)?;
                Some(self.mk_sum(pc, w2, ca, vecs(&ta)))
            }
            B::Sext => {
                let (lo, hi) = self.range(pc, a)?;
                let h = 1u64 << (w - 1);
                if hi < h {
                    Some(self.mk_sum(pc, w2, ca, vecs(&ta)))
                } else if lo >= h {
                    Some(self.mk_sum(pc, w2, ca.wrapping_add(mask(w2) & !mask(w)), vecs(&ta)))
                } else {
                    None
                }
            }
            B::UDiv | B::URem | B::LShr => {
                if !tb.is_empty() {
                    return None;
                }
                let k = if op == B::LShr { if cb >= w as u64 { return Some(c(0)) } else { 1u64 << cb } } else { cb };
                if k == 0 {
                    return None;
                }
                let (lo, hi) = self.range(pc, a)?;
                if hi < k {
                    return Some(if op == B::URem { a } else { c(0) });
                }
                if lo / k == hi / k {
                    let q = lo / k;
                    return Some(if op == B::URem { self.bin(pc, B::Sub, w, w, a, c(q * k)) } else { c(q) });
                }
                let mut r = ca % k;
                for (v, t) in &ta {
                    let rt: Vec<u64> = t.iter().map(|x| x % k).collect();
                    r = r.checked_add(self.tmax(pc, *v, &rt))?;
                }
                let (mut ca, mut ta) = (ca, ta);
                if r >= k {
                    // no carry once the constant is part of one of the tables?
                    let m = mask(w);
                    let mut found = false;
                    for j in 0..ta.len() {
                        let mut r = 0u64;
                        for (i, (v, t)) in ta.iter().enumerate() {
                            let rt: Vec<u64> = t.iter().map(|x| (if i == j { x.wrapping_add(ca) & m } else { *x }) % k).collect();
                            r = r.checked_add(self.tmax(pc, *v, &rt))?;
                        }
                        if r < k {
                            let c0 = ca;
                            ta[j].1 = ta[j].1.iter().map(|x| x.wrapping_add(c0) & m).collect();
                            ca = 0;
                            found = true;
                            break;
                        }
                    }
                    if !found {
                        return None;
                    }
                }
                let (cc, acc): (u64, Vec<(u32, Vec<u64>)>) = if op == B::URem {
                    (ca % k, ta.iter().map(|(v, t)| (*v, t.iter().map(|x| x % k).collect())).collect())
                } else {
                    (ca / k, ta.iter().map(|(v, t)| (*v, t.iter().map(|x| x / k).collect())).collect())
                };
                Some(self.mk_sum(pc, w, cc, acc))
            }
            B::And | B::Or | B::Xor => {
                // bits of all addends must be disjoint within each operand
                let bits_of = |s: &mut Ctx, pc: &mut Pc, c0: u64, t: &Vec<(u32, Table)>| -> Option<u64> {
                    let mut acc = c0;
                    for (v, tab) in t {
                        let b = s.tbits(pc, *v, tab);
                        if acc & b != 0 {
                            return None;
                        }
                        acc |= b;
                    }
                    Some(acc)
                };
                let ba = bits_of(self, pc, ca, &ta);
                let bb = bits_of(self, pc, cb, &tb);
                if op != B::And {
                    // x | y == x + y when the possible bits are disjoint; ranges give a coarser bound
                    let possible = |s: &mut Ctx, pc: &mut Pc, v: Val, bits: Option<u64>| -> Option<u64> {
                        match bits {
                            Some(b) => Some(b),
                            None => {
                                let (_, hi) = s.range(pc, v)?;
                                Some(if hi == 0 { 0 } else { u64::MAX >> hi.leading_zeros() })
                            }
                        }
                    };
                    if let (Some(x), Some(y)) = (possible(self, pc, a, ba), possible(self, pc, b, bb)) {
                        if x & y == 0 {
                            return Some(self.bin(pc, B::Add, w, w, a, b));
                        }
                    }
                }
                let (ck, cs, ts, bs) = if tb.is_empty() {
                    (cb, ca, ta.clone(), ba)
                } else if ta.is_empty() {
                    (ca, cb, tb.clone(), bb)
                } else {
                    return None;
                };
                let sv = if tb.is_empty() { a } else { b };
                if op == B::And {
                    if ck.wrapping_add(1).is_power_of_two() && ck != m {
                        if let Some(r) = self.lin(pc, B::URem, w, w, sv, c(ck + 1)) {
                            return Some(r);
                        }
                    }
                    let low = !ck & m;
                    if low.wrapping_add(1).is_power_of_two() && low != m {
                        if let Some(r) = self.lin(pc, B::URem, w, w, sv, c(low + 1)) {
                            return Some(self.bin(pc, B::Sub, w, w, sv, r));
                        }
                    }
                }
                let all = bs?;
                let f = |x: u64, own: u64| match op {
                    B::And => x & ck,
                    B::Or => x | (ck & own),
                    _ => x ^ (ck & own),
                };
                let mut acc = vec![];
                let mut tb_all = 0;
                for (v, t) in &ts {
                    let own = self.tbits(pc, *v, t);
                    tb_all |= own;
                    acc.push((*v, t.iter().map(|x| f(*x, own)).collect()));
                }
                let _ = all;
                let cc = match op {
                    B::And => cs & ck,
                    B::Or => cs | (ck & !tb_all),
                    _ => cs ^ (ck & !tb_all),
                };
                Some(self.mk_sum(pc, w, cc, acc))
            }
            B::Eq | B::Ne | B::Ult | B::Ule | B::Slt | B::Sle => {
                if matches!(op, B::Eq | B::Ne) {
                    // equal terms cancel even when sums may wrap
                    let d = self.lin(pc, B::Sub, w, w, a, b)?;
                    if d.e == 0 {
                        return Some(c(((d.v == 0) == (op == B::Eq)) as u64));
                    }
                    if let Ex::Sum { t, .. } = &self.ex[d.e as usize] {
                        if t.len() == 1 {
                            return Some(self.bin(pc, op, w, 1, d, c(0)));
                        }
                    }
                }
                let (mut x, mut y) = (a, b);
                if matches!(op, B::Slt | B::Sle) {
                    let h = 1u64 << (w - 1);
                    let neg = |r: Option<(u64, u64)>| r.map_or(true, |r| r.1 >= h);
                    if neg(self.range(pc, a)) || neg(self.range(pc, b)) {
                        x = self.bin(pc, B::Add, w, w, a, c(h));
                        y = self.bin(pc, B::Add, w, w, b, c(h));
                    }
                }
                let (xl, xh) = self.range(pc, x)?;
                let (yl, yh) = self.range(pc, y)?;
                match op {
                    B::Eq if xh < yl || yh < xl => return Some(c(0)),
                    B::Ne if xh < yl || yh < xl => return Some(c(1)),
                    B::Ult | B::Slt if xh < yl => return Some(c(1)),
                    B::Ult | B::Slt if xl >= yh => return Some(c(0)),
                    B::Ule | B::Sle if xh <= yl => return Some(c(1)),
                    B::Ule | B::Sle if xl > yh => return Some(c(0)),
                    _ => {}
                }
                let (cx, tx) = self.as_sum(x)?;
                let (cy, ty) = self.as_sum(y)?;
                let mut acc: Vec<(u32, Vec<i128>)> = tx.iter().map(|(v, t)| (*v, t.iter().map(|x| *x as i128).collect())).collect();
                for (v, t) in &ty {
                    if let Some(e) = acc.iter_mut().find(|e| e.0 == *v) {
                        for (p, q) in e.1.iter_mut().zip(t.iter()) {
                            *p -= *q as i128;
                        }
                    } else {
                        acc.push((*v, t.iter().map(|q| -(*q as i128)).collect()));
                    }
                }
                acc.sort_by_key(|e| e.0);
                let terms: Vec<(u32, Vec<i128>, Rc<Vec<bool>>)> = acc
                    .into_iter()
                    .map(|(v, t)| {
                        let l = pc.live(self, v);
                        (v, t, l)
                    })
                    .collect();
                let cc = cx as i128 - cy as i128;
                let (cc, lt) = match op {
                    B::Eq | B::Ne => (cc, false),
                    B::Ult | B::Slt => (cc, true),
                    _ => (cc - 1, true),
                };
                let d = self.dd.linear(&terms, cc, lt)?;
                let d = if op == B::Ne { self.dd.not(d) } else { d };
                Some(self.mk_dd(pc, 1, d))
            }
            B::USubO => Some(self.bin(pc, B::Ult, w, 1, a, b)),
            B::UAddO => {
                let (_, ah) = self.range(pc, a)?;
                let (_, bh) = self.range(pc, b)?;
                if ah as u128 + bh as u128 <= m as u128 {
                    return Some(c(0));
                }
                if tb.is_empty() {
                    return Some(self.bin(pc, B::Ult, w, 1, c(m - cb), a));
                }
                if ta.is_empty() {
                    return Some(self.bin(pc, B::Ult, w, 1, c(m - ca), b));
                }
                None
            }
            B::UMulO => {
                let (_, ah) = self.range(pc, a)?;
                let (_, bh) = self.range(pc, b)?;
                if ah as u128 * bh as u128 <= m as u128 {
                    return Some(c(0));
                }
                if tb.is_empty() && cb != 0 {
                    return Some(self.bin(pc, B::Ult, w, 1, c(m / cb), a));
                }
                if ta.is_empty() && ca != 0 {
                    return Some(self.bin(pc, B::Ult, w, 1, c(m / ca), b));
                }
                None
            }
            B::SAddO | B::SSubO | B::SMulO => {
                let h = 1i128 << (w - 1);
                let (al, ah) = self.range(pc, a)?;
                let (bl, bh) = self.range(pc, b)?;
                let s = |l: u64, hi: u64| -> Option<(i128, i128)> {
                    let (x, y) = (sx(l, w) as i128, sx(hi, w) as i128);
                    if x <= y { Some((x, y)) } else { None }
                };
                let (al, ah) = s(al, ah)?;
                let (bl, bh) = s(bl, bh)?;
                let (lo, hi) = match op {
                    B::SAddO => (al + bl, ah + bh),
                    B::SSubO => (al - bh, ah - bl),
                    _ => {
                        let p = [al * bl, al * bh, ah * bl, ah * bh];
                        (*p.iter().min().unwrap(), *p.iter().max().unwrap())
                    }
                };
                if lo >= -h && hi < h { Some(c(0)) } else { None }
            }
            B::UMin | B::UMax => {
                let (al, ah) = self.range(pc, a)?;
                let (bl, bh) = self.range(pc, b)?;
                if ah <= bl {
                    return Some(if op == B::UMin { a } else { b });
                }
                if bh <= al {
                    return Some(if op == B::UMin { b } else { a });
                }
                None
            }
            B::USubSat => {
                let (al, ah) = self.range(pc, a)?;
                let (bl, bh) = self.range(pc, b)?;
                if ah <= bl {
                    return Some(c(0));
                }
                if bh <= al {
                    return Some(self.bin(pc, B::Sub, w, w, a, b));
                }
                None
            }
            _ => None,
        }
    }
    pub fn not(&mut self, pc: &mut Pc, a: Val) -> Val {
        self.bin(pc, B::Xor, 1, 1, a, c(1))
    }
    /// if-then-else; None when it would need a general term
    pub fn ite(&mut self, pc: &mut Pc, w: u8, k: Val, a: Val, b: Val) -> Option<Val> {
        if k.e == 0 {
            return Some(if k.v & 1 != 0 { a } else { b });
        }
        if a == b {
            return Some(a);
        }
        let kd = self.bool_dd(k)?;
        let (a, b) = (self.mat(pc, a), self.mat(pc, b));
        let x = self.to_dd(pc, a)?;
        let y = self.to_dd(pc, b)?;
        let r = self.dd.ite(kd, x, y)?;
        Some(self.mk_dd(pc, w, r))
    }
    /// Byte `i` of a value.
    pub fn byte(&mut self, pc: &mut Pc, v: Val, w: u8, i: u8) -> Val {
        if v.e == 0 {
            return c((v.v >> (8 * i)) & 0xff);
        }
        if w <= 8 {
            return if w < 8 { self.bin(pc, B::Zext, w, 8, v, c(0)) } else { v };
        }
        let s = if i == 0 { v } else { self.bin(pc, B::LShr, w, w, v, c(8 * i as u64)) };
        self.bin(pc, B::Trunc, w, 8, s, c(0))
    }
    pub fn show(&mut self, v: Val, depth: u32) -> String {
        if v.e == 0 {
            return format!("{}", v.v);
        }
        if depth == 0 {
            return format!("#{}", v.e);
        }
        match self.ex[v.e as usize].clone() {
            Ex::Sum { w, c, t } => format!("sum{}({}{})", w, c, t.iter().map(|(v, t)| format!(" + x{}{:?}", v, &t[..t.len().min(12)])).collect::<String>()),
            Ex::Dd { w, d } => format!("dd{}(#{} size {} sup {:?})", w, d, self.dd.size(d), self.dd.support(d)),
            Ex::Bin { op, w, a, b, .. } => format!("{:?}{}({}, {})", op, w, self.show(a, depth - 1), self.show(b, depth - 1)),
            Ex::Cat { w, b } => format!("cat{}({:?})", w, b),
            Ex::Ite { c, a, b, .. } => format!("ite({}, {}, {})", self.show(c, depth - 1), self.show(a, depth - 1), self.show(b, depth - 1)),
        }
    }
    pub fn eval(&self, v: Val, model: &Map<u32, u32>) -> u64 {
        if v.e == 0 {
            return v.v;
        }
        match &self.ex[v.e as usize] {
            Ex::Sum { w, c, t } => {
                let mut a = *c;
                for (v, t) in t {
                    a = a.wrapping_add(t[*model.get(v).unwrap_or(&0) as usize]);
                }
                a & mask(*w)
            }
            Ex::Dd { d, .. } => self.dd.eval(*d, model),
            Ex::Bin { op, w, w2, a, b } => conc(*op, *w, *w2, self.eval(*a, model), self.eval(*b, model)),
            Ex::Cat { b, .. } => {
                let mut r = 0u64;
                for (i, (e, k)) in b.iter().enumerate() {
                    let x = if *e == 0 { *k as u64 } else { (self.eval(Val { e: *e, v: 0 }, model) >> (8 * k)) & 0xff };
                    r |= x << (8 * i);
                }
                r
            }
            Ex::Ite { c, a, b, .. } => {
                if self.eval(*c, model) & 1 != 0 {
                    self.eval(*a, model)
                } else {
                    self.eval(*b, model)
                }
            }
        }
    }
}
