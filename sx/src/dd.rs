//! Multi-valued decision diagrams with u64 terminals over finite-domain
//! variables.  Booleans are diagrams with terminals 0 and 1.
use crate::fx::{Map, Set};
use crate::prog::B;
use std::rc::Rc;

pub type D = u32;
pub const FALSE: D = 0;
pub const TRUE: D = 1;

#[derive(Clone)]
pub enum Node {
    T(u64),
    N(u32, Rc<[D]>),
}

pub struct Dd {
    pub nodes: Vec<Node>,
    uniq: Map<(u32, Rc<[D]>), D>,
    terms: Map<u64, D>,
    memo: Map<(u32, D, D), D>,
    memo_ite: Map<(D, D, D), D>,
    memo_sup: Map<D, Rc<Vec<u32>>>,
    memo_proj: Map<(D, u32), Rc<Vec<bool>>>,
    /// domain size of each variable
    pub dom: Vec<u32>,
    pub limit: usize,
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
pub fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w as u32;
        ((v << s) as i64) >> s
    }
}

/// Concrete semantics of every binary/unary operation (w <= 64).
pub fn conc(op: B, w: u8, w2: u8, a: u64, b: u64) -> u64 {
    let m = mask(w);
    let r = match op {
        B::Add => a.wrapping_add(b) & m,
        B::Sub => a.wrapping_sub(b) & m,
        B::Mul => a.wrapping_mul(b) & m,
        B::UDiv => if b == 0 { 0 } else { a / b },
        B::URem => if b == 0 { 0 } else { a % b },
        B::SDiv => if b == 0 { 0 } else { (sx(a, w).wrapping_div(sx(b, w))) as u64 & m },
        B::SRem => if b == 0 { 0 } else { (sx(a, w).wrapping_rem(sx(b, w))) as u64 & m },
        B::And => a & b,
        B::Or => a | b,
        B::Xor => (a ^ b) & m,
        B::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        B::LShr => if b >= w as u64 { 0 } else { a >> b },
        B::AShr => if b >= w as u64 { 0 } else { (sx(a, w) >> b) as u64 & m },
        B::UMin => a.min(b),
        B::UMax => a.max(b),
        B::SMin => if sx(a, w) <= sx(b, w) { a } else { b },
        B::SMax => if sx(a, w) >= sx(b, w) { a } else { b },
        B::USubSat => a.saturating_sub(b),
        B::UAddSat => {
            let s = a as u128 + b as u128;
            if s > m as u128 { m } else { s as u64 }
        }
        B::SSubSat | B::SAddSat => {
            let (x, y) = (sx(a, w) as i128, sx(b, w) as i128);
            let s = if op == B::SAddSat { x + y } else { x - y };
            let hi = (1i128 << (w - 1)) - 1;
            let lo = -(1i128 << (w - 1));
            (s.clamp(lo, hi) as u64) & m
        }
        B::UAddO => (a as u128 + b as u128 > m as u128) as u64,
        B::USubO => (a < b) as u64,
        B::UMulO => (a as u128 * b as u128 > m as u128) as u64,
        B::SAddO | B::SSubO | B::SMulO => {
            let (x, y) = (sx(a, w) as i128, sx(b, w) as i128);
            let s = match op {
                B::SAddO => x + y,
                B::SSubO => x - y,
                _ => x * y,
            };
            let hi = (1i128 << (w - 1)) - 1;
            let lo = -(1i128 << (w - 1));
            (s < lo || s > hi) as u64
        }
        B::UCmp => (a > b) as u64 | if a < b { mask(w2) } else { 0 },
        B::SCmp => (sx(a, w) > sx(b, w)) as u64 | if sx(a, w) < sx(b, w) { mask(w2) } else { 0 },
        B::Eq => (a == b) as u64,
        B::Ne => (a != b) as u64,
        B::Ult => (a < b) as u64,
        B::Ule => (a <= b) as u64,
        B::Slt => (sx(a, w) < sx(b, w)) as u64,
        B::Sle => (sx(a, w) <= sx(b, w)) as u64,
        B::Ctpop => a.count_ones() as u64,
        B::Ctlz => (a.leading_zeros() as u64).saturating_sub(64 - w as u64),
        B::Cttz => (a.trailing_zeros() as u64).min(w as u64),
        B::Bswap => a.swap_bytes() >> (64 - w as u32),
        B::Bitrev => a.reverse_bits() >> (64 - w as u32),
        B::Abs => (sx(a, w).wrapping_abs()) as u64 & m,
        B::Trunc => a & mask(w2),
        B::Zext => a,
        B::Sext => sx(a, w) as u64 & mask(w2),
    };
    r
}

fn code(op: B, w: u8, w2: u8) -> u32 {
    (op as u32) | (w as u32) << 8 | (w2 as u32) << 16
}

impl Dd {
    pub fn new() -> Dd {
        let mut d = Dd {
            nodes: vec![],
            uniq: Map::default(),
            terms: Map::default(),
            memo: Map::default(),
            memo_ite: Map::default(),
            memo_sup: Map::default(),
            memo_proj: Map::default(),
            dom: vec![],
            limit: 60_000,
        };
        d.term(0);
        d.term(1);
        d
    }
    pub fn term(&mut self, v: u64) -> D {
        if let Some(x) = self.terms.get(&v) {
            return *x;
        }
        let id = self.nodes.len() as D;
        self.nodes.push(Node::T(v));
        self.terms.insert(v, id);
        id
    }
    pub fn node(&mut self, var: u32, ch: Vec<D>) -> D {
        if ch.iter().all(|c| *c == ch[0]) {
            return ch[0];
        }
        let ch: Rc<[D]> = ch.into();
        if let Some(x) = self.uniq.get(&(var, ch.clone())) {
            return *x;
        }
        let id = self.nodes.len() as D;
        self.nodes.push(Node::N(var, ch.clone()));
        self.uniq.insert((var, ch), id);
        id
    }
    pub fn is_term(&self, d: D) -> Option<u64> {
        match &self.nodes[d as usize] {
            Node::T(v) => Some(*v),
            _ => None,
        }
    }
    pub fn top(&self, d: D) -> u32 {
        match &self.nodes[d as usize] {
            Node::T(_) => u32::MAX,
            Node::N(v, _) => *v,
        }
    }
    fn kids(&self, d: D) -> Rc<[D]> {
        match &self.nodes[d as usize] {
            Node::N(_, c) => c.clone(),
            _ => panic!(),
        }
    }
    pub fn from_table(&mut self, var: u32, t: &[u64]) -> D {
        let ch: Vec<D> = t.iter().map(|v| self.term(*v)).collect();
        self.node(var, ch)
    }
    pub fn from_set(&mut self, var: u32, t: &[bool]) -> D {
        let ch: Vec<D> = t.iter().map(|v| *v as D).collect();
        self.node(var, ch)
    }
    /// Pointwise operation; None when the node budget is exceeded.
    pub fn apply(&mut self, op: B, w: u8, w2: u8, a: D, b: D) -> Option<D> {
        let lim = self.nodes.len() + self.limit;
        let k = code(op, w, w2);
        self.apply_rec(op, w, w2, k, a, b, lim)
    }
    fn apply_rec(&mut self, op: B, w: u8, w2: u8, k: u32, a: D, b: D, lim: usize) -> Option<D> {
        if w == 1 && op == B::And {
            if a == FALSE || b == FALSE {
                return Some(FALSE);
            }
            if a == TRUE || a == b {
                return Some(b);
            }
            if b == TRUE {
                return Some(a);
            }
        }
        if w == 1 && op == B::Or {
            if a == TRUE || b == TRUE {
                return Some(TRUE);
            }
            if a == FALSE || a == b {
                return Some(b);
            }
            if b == FALSE {
                return Some(a);
            }
        }
        if let (Some(x), Some(y)) = (self.is_term(a), self.is_term(b)) {
            return Some(self.term(conc(op, w, w2, x, y)));
        }
        if let Some(r) = self.memo.get(&(k, a, b)) {
            return Some(*r);
        }
        if self.nodes.len() > lim {
            return None;
        }
        let (ta, tb) = (self.top(a), self.top(b));
        let v = ta.min(tb);
        let n = self.dom[v as usize] as usize;
        let ka = if ta == v { Some(self.kids(a)) } else { None };
        let kb = if tb == v { Some(self.kids(b)) } else { None };
        let mut ch = Vec::with_capacity(n);
        for i in 0..n {
            let x = ka.as_ref().map_or(a, |c| c[i]);
            let y = kb.as_ref().map_or(b, |c| c[i]);
            if i > 0 {
                // neighbouring values often share children
                let px = ka.as_ref().map_or(a, |c| c[i - 1]);
                let py = kb.as_ref().map_or(b, |c| c[i - 1]);
                if px == x && py == y {
                    let l = *ch.last().unwrap();
                    ch.push(l);
                    continue;
                }
            }
            ch.push(self.apply_rec(op, w, w2, k, x, y, lim)?);
        }
        let r = self.node(v, ch);
        self.memo.insert((k, a, b), r);
        Some(r)
    }
    pub fn and(&mut self, a: D, b: D) -> Option<D> {
        self.apply(B::And, 1, 1, a, b)
    }
    pub fn or(&mut self, a: D, b: D) -> Option<D> {
        self.apply(B::Or, 1, 1, a, b)
    }
    pub fn not(&mut self, a: D) -> D {
        self.apply(B::Xor, 1, 1, a, TRUE).expect("dd not")
    }
    pub fn ite(&mut self, c: D, a: D, b: D) -> Option<D> {
        let lim = self.nodes.len() + self.limit;
        self.ite_rec(c, a, b, lim)
    }
    fn ite_rec(&mut self, c: D, a: D, b: D, lim: usize) -> Option<D> {
        if c == TRUE || a == b {
            return Some(a);
        }
        if c == FALSE {
            return Some(b);
        }
        if a == TRUE && b == FALSE {
            return Some(c);
        }
        if let Some(r) = self.memo_ite.get(&(c, a, b)) {
            return Some(*r);
        }
        if self.nodes.len() > lim {
            return None;
        }
        let (tc, ta, tb) = (self.top(c), self.top(a), self.top(b));
        let v = tc.min(ta).min(tb);
        let n = self.dom[v as usize] as usize;
        let kc = if tc == v { Some(self.kids(c)) } else { None };
        let ka = if ta == v { Some(self.kids(a)) } else { None };
        let kb = if tb == v { Some(self.kids(b)) } else { None };
        let mut ch = Vec::with_capacity(n);
        for i in 0..n {
            let z = kc.as_ref().map_or(c, |k| k[i]);
            let x = ka.as_ref().map_or(a, |k| k[i]);
            let y = kb.as_ref().map_or(b, |k| k[i]);
            ch.push(self.ite_rec(z, x, y, lim)?);
        }
        let r = self.node(v, ch);
        self.memo_ite.insert((c, a, b), r);
        Some(r)
    }
    pub fn support(&mut self, d: D) -> Rc<Vec<u32>> {
        if let Some(s) = self.memo_sup.get(&d) {
            return s.clone();
        }
        let mut seen: Set<D> = Set::default();
        let mut vars: Set<u32> = Set::default();
        let mut st = vec![d];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let Node::N(v, c) = &self.nodes[x as usize] {
                vars.insert(*v);
                for k in c.iter() {
                    st.push(*k);
                }
            }
        }
        let mut v: Vec<u32> = vars.into_iter().collect();
        v.sort();
        let r = Rc::new(v);
        self.memo_sup.insert(d, r.clone());
        r
    }
    pub fn size(&self, d: D) -> usize {
        let mut seen: Set<D> = Set::default();
        let mut st = vec![d];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let Node::N(_, c) = &self.nodes[x as usize] {
                for k in c.iter() {
                    if !seen.contains(k) {
                        st.push(*k);
                    }
                }
            }
        }
        seen.len()
    }
    /// Which values of `var` are compatible with the boolean `d`.
    pub fn project(&mut self, d: D, var: u32) -> Rc<Vec<bool>> {
        if let Some(p) = self.memo_proj.get(&(d, var)) {
            return p.clone();
        }
        let n = self.dom[var as usize] as usize;
        let mut live = vec![false; n];
        let mut seen: Set<D> = Set::default();
        let mut st = vec![d];
        'o: while let Some(x) = st.pop() {
            if x == FALSE || !seen.insert(x) {
                continue;
            }
            match &self.nodes[x as usize] {
                Node::N(v, c) if *v < var => {
                    for k in c.iter() {
                        st.push(*k);
                    }
                }
                Node::N(v, c) if *v == var => {
                    for (i, k) in c.iter().enumerate() {
                        if *k != FALSE {
                            live[i] = true;
                        }
                    }
                }
                _ => {
                    live = vec![true; n];
                    break 'o;
                }
            }
        }
        let r = Rc::new(live);
        self.memo_proj.insert((d, var), r.clone());
        r
    }
    /// All terminals of `d` reachable jointly with `cond` (up to `cap`).
    pub fn terminals(&mut self, d: D, cond: D, cap: usize) -> Option<Vec<u64>> {
        let mut seen: Set<(D, D)> = Set::default();
        let mut out: Vec<u64> = vec![];
        let mut st = vec![(d, cond)];
        while let Some((x, c)) = st.pop() {
            if c == FALSE || !seen.insert((x, c)) {
                continue;
            }
            if let Some(v) = self.is_term(x) {
                if !out.contains(&v) {
                    out.push(v);
                    if out.len() > cap {
                        return None;
                    }
                }
                continue;
            }
            let (tx, tc) = (self.top(x), self.top(c));
            let v = tx.min(tc);
            let n = self.dom[v as usize] as usize;
            for i in 0..n {
                let a = match &self.nodes[x as usize] {
                    Node::N(u, k) if *u == v => k[i],
                    _ => x,
                };
                let b = match &self.nodes[c as usize] {
                    Node::N(u, k) if *u == v => k[i],
                    _ => c,
                };
                st.push((a, b));
            }
        }
        out.sort();
        Some(out)
    }
    /// Extend `model` so that `d` evaluates to true; values already present are kept.
    pub fn pick(&self, d: D, model: &mut Map<u32, u32>, rng: &mut u64) -> bool {
        let mut dead: Set<D> = Set::default();
        self.pick_rec(d, model, rng, &mut dead)
    }
    fn pick_rec(&self, d: D, model: &mut Map<u32, u32>, rng: &mut u64, dead: &mut Set<D>) -> bool {
        match &self.nodes[d as usize] {
            Node::T(v) => *v != 0,
            Node::N(v, c) => {
                if dead.contains(&d) {
                    return false;
                }
                if let Some(x) = model.get(v) {
                    return self.pick_rec(c[*x as usize], model, rng, dead);
                }
                *rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let n = c.len();
                let off = (*rng >> 33) as usize % n;
                for k in 0..n {
                    let i = (k + off) % n;
                    if c[i] == FALSE {
                        continue;
                    }
                    model.insert(*v, i as u32);
                    if self.pick_rec(c[i], model, rng, dead) {
                        return true;
                    }
                    model.remove(v);
                }
                dead.insert(d);
                false
            }
        }
    }
    pub fn eval(&self, d: D, model: &Map<u32, u32>) -> u64 {
        let mut x = d;
        loop {
            match &self.nodes[x as usize] {
                Node::T(v) => return *v,
                Node::N(v, c) => x = c[*model.get(v).unwrap_or(&0) as usize],
            }
        }
    }
    /// Predicate (sum of tables + c) `lt ? < 0 : == 0` as a diagram.
    pub fn linear(&mut self, terms: &[(u32, Vec<i128>, Rc<Vec<bool>>)], c: i128, lt: bool) -> Option<D> {
        let n = terms.len();
        let mut smin = vec![0i128; n + 1];
        let mut smax = vec![0i128; n + 1];
        for i in (0..n).rev() {
            let lv = || terms[i].1.iter().zip(terms[i].2.iter()).filter(|x| *x.1).map(|x| *x.0);
            smin[i] = smin[i + 1] + lv().min().unwrap_or(0);
            smax[i] = smax[i + 1] + lv().max().unwrap_or(0);
        }
        let mut memo: Map<(usize, u64, u64), D> = Map::default();
        let lim = self.nodes.len() + self.limit;
        self.lin_rec(terms, &smin, &smax, 0, c, lt, &mut memo, lim)
    }
    fn lin_rec(
        &mut self,
        terms: &[(u32, Vec<i128>, Rc<Vec<bool>>)],
        smin: &[i128],
        smax: &[i128],
        i: usize,
        acc: i128,
        lt: bool,
        memo: &mut Map<(usize, u64, u64), D>,
        lim: usize,
    ) -> Option<D> {
        let (lo, hi) = (acc + smin[i], acc + smax[i]);
        if lt {
            if hi < 0 {
                return Some(TRUE);
            }
            if lo >= 0 {
                return Some(FALSE);
            }
        } else {
            if lo > 0 || hi < 0 {
                return Some(FALSE);
            }
            if lo == 0 && hi == 0 {
                return Some(TRUE);
            }
        }
        if i == terms.len() {
            return Some(FALSE);
        }
        let key = (i, acc as u64, (acc >> 64) as u64);
        if let Some(r) = memo.get(&key) {
            return Some(*r);
        }
        if self.nodes.len() > lim || memo.len() > 200_000 {
            return None;
        }
        let (v, t, live) = &terms[i];
        let mut ch = Vec::with_capacity(t.len());
        let mut first = None;
        for k in 0..t.len() {
            if live[k] {
                let r = self.lin_rec(terms, smin, smax, i + 1, acc + t[k], lt, memo, lim)?;
                if first.is_none() {
                    first = Some(r);
                }
                ch.push(r);
            } else {
                ch.push(u32::MAX);
            }
        }
        let f = first.unwrap_or(FALSE);
        for c in ch.iter_mut() {
            if *c == u32::MAX {
                *c = f;
            }
        }
        let r = self.node(*v, ch);
        memo.insert(key, r);
        Some(r)
    }
    /// Map terminals through `f`.
    pub fn map(&mut self, d: D, f: &mut dyn FnMut(u64) -> u64) -> D {
        let mut memo: Map<D, D> = Map::default();
        self.map_rec(d, f, &mut memo)
    }
    fn map_rec(&mut self, d: D, f: &mut dyn FnMut(u64) -> u64, memo: &mut Map<D, D>) -> D {
        if let Some(r) = memo.get(&d) {
            return *r;
        }
        let r = match self.nodes[d as usize].clone() {
            Node::T(v) => {
                let x = f(v);
                self.term(x)
            }
            Node::N(v, c) => {
                let mut ch = Vec::with_capacity(c.len());
                for k in c.iter() {
                    ch.push(self.map_rec(*k, f, memo));
                }
                self.node(v, ch)
            }
        };
        memo.insert(d, r);
        r
    }
    pub fn count(&self, d: D, nvars: &[u32]) -> f64 {
        // fraction-weighted model count over the given variables
        fn rec(s: &Dd, d: D, memo: &mut Map<D, f64>) -> f64 {
            match &s.nodes[d as usize] {
                Node::T(v) => (*v != 0) as u8 as f64,
                Node::N(_, c) => {
                    if let Some(x) = memo.get(&d) {
                        return *x;
                    }
                    let t: f64 = c.iter().map(|k| rec(s, *k, memo)).sum::<f64>() / c.len() as f64;
                    memo.insert(d, t);
                    t
                }
            }
        }
        let mut memo = Map::default();
        let f = rec(self, d, &mut memo);
        nvars.iter().fold(f, |a, v| a * self.dom[*v as usize] as f64)
    }
}
