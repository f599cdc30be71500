//! Decoding of LLVM functions into a flat register code, and layout of globals.
use crate::ll::*;
use std::collections::HashMap;

/// Operand: >= 0 register, < 0 constant number (!x).
pub type Op = i32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    UMin, UMax, SMin, SMax, USubSat, UAddSat, SSubSat, SAddSat,
    // overflow flags
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
    // three-way compares (result i8)
    UCmp, SCmp,
    Eq, Ne, Ult, Ule, Slt, Sle,
    // unary operations (second operand ignored)
    Ctpop, Ctlz, Cttz, Bswap, Bitrev, Abs,
    // casts (second operand ignored), `w` = source width, `w2` = target width
    Trunc, Zext, Sext,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(usize),
    Ind(Op),
    Intr(Intr),
    /// declared, not defined
    Ext(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr { Memcpy, Memset, Trap, Fshl, Fshr }

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: B, w: u8, w2: u8, d: u32, a: Op, b: Op },
    /// 65..128 bit operation: operands and destination are (lo, hi) pairs
    Wide { op: B, w: u8, d: u32, a: [Op; 2], b: [Op; 2], flag: bool },
    Mov { d: u32, a: Op },
    Sel { d: u32, c: Op, a: Op, b: Op, w: u8 },
    Load { d: u32, p: Op, bytes: u8, w: u8, off: u32 },
    Store { p: Op, v: Op, bytes: u8, w: u8, off: u32 },
    Gep { d: u32, p: Op, off: i64, terms: Box<[(Op, u8, i64)]> },
    /// `size` holds the offset in the frame object once decoding is done
    Alloca { d: u32, size: u64, align: u64 },
    Call { callee: Callee, args: Box<[Op]>, d: u32, dw: Box<[u8]> },
    Br { e: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { v: Op, w: u8, cases: Box<[(u64, u32)]>, default: u32 },
    Ret { vals: Box<[Op]> },
    Unreachable,
    CmpXchg { p: Op, cmp: Op, new: Op, w: u8, d: u32 },
    Rmw { op: RmwOp, p: Op, v: Op, w: u8, d: u32 },
    Unsupported(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp { Xchg, Bin(B), Nand }

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32,
    pub moves: Box<[(u32, Op)]>,
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub consts: Vec<u64>,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub nparams: u32,
    /// bytes of all stack slots together
    pub frame: u64,
    /// width of each register
    pub regw: Vec<u8>,
}

pub struct Symtab {
    /// symbol -> address
    pub addr: HashMap<String, u64>,
}

pub struct Dec<'a> {
    m: &'a Module,
    sym: &'a Symtab,
    regs: HashMap<String, Vec<u32>>,
    nregs: u32,
    regw: Vec<u8>,
    consts: Vec<u64>,
    cmap: HashMap<u64, Op>,
    code: Vec<I>,
    edges: Vec<Edge>,
    /// (edge index, from block, to block)
    pend: Vec<(u32, String, String)>,
    blocks: HashMap<String, u32>,
    /// phis: block -> list of (dest slot regs, incoming)
    phis: HashMap<String, Vec<(Vec<u32>, Vec<(String, Vec<Op>)>)>>,
}

pub fn cst_addr(sym: &Symtab, m: &Module, c: &Cst) -> u64 {
    match c {
        Cst::Int(v) => *v as u64,
        Cst::Null | Cst::Undef | Cst::Zero => 0,
        Cst::Sym(s) => {
            let s = m.aliases.get(s).unwrap_or(s);
            match sym.addr.get(s) {
                Some(a) => *a,
                None => panic!("unknown symbol {}", s),
            }
        }
        Cst::Off(b, o) => cst_addr(sym, m, b).wrapping_add(*o as u64),
        Cst::Sub(a, b) => cst_addr(sym, m, a).wrapping_sub(cst_addr(sym, m, b)),
        c => panic!("address constant {:?}", c),
    }
}

/// Bytes of a global initializer.
pub fn init_bytes(sym: &Symtab, m: &Module, ty: &Ty, c: &Cst, out: &mut Vec<u8>) {
    let n = ty.size() as usize;
    let st = out.len();
    match c {
        Cst::Zero | Cst::Undef | Cst::Null => out.resize(st + n, 0),
        Cst::Bytes(b) => out.extend_from_slice(b),
        Cst::Int(v) => out.extend_from_slice(&v.to_le_bytes()[..n.min(16)]),
        Cst::Agg(v) => {
            match ty {
                Ty::Array(..) => {
                    for (t, c) in v {
                        init_bytes(sym, m, t, c, out)
                    }
                }
                Ty::Struct(..) => {
                    for (i, (t, c)) in v.iter().enumerate() {
                        let (o, _) = ty.field_off(i);
                        out.resize(st + o as usize, 0);
                        init_bytes(sym, m, t, c, out);
                    }
                    out.resize(st + n, 0);
                }
                _ => panic!(),
            }
        }
        c => {
            let a = cst_addr(sym, m, c);
            out.extend_from_slice(&a.to_le_bytes()[..n]);
        }
    }
    assert_eq!(out.len() - st, n, "initializer size of {:?}", ty);
}

impl<'a> Dec<'a> {
    fn konst(&mut self, v: u64) -> Op {
        if let Some(o) = self.cmap.get(&v) {
            return *o;
        }
        let o = !(self.consts.len() as i32);
        self.consts.push(v);
        self.cmap.insert(v, o);
        o
    }
    fn def(&mut self, name: &str, ty: &Ty) -> Vec<u32> {
        if let Some(r) = self.regs.get(name) {
            return r.clone();
        }
        let sl = ty.slots();
        let n = sl.len() as u32;
        self.regw.extend(sl.iter().map(|w| *w as u8));
        let v: Vec<u32> = (self.nregs..self.nregs + n).collect();
        self.nregs += n;
        self.regs.insert(name.to_string(), v.clone());
        v
    }
    fn tmp(&mut self) -> u32 {
        self.regw.push(64);
        self.nregs += 1;
        self.nregs - 1
    }
    fn val(&mut self, lx: &mut Lex, ty: &Ty) -> Vec<Op> {
        let c = lx.cst(ty);
        self.cst(&c, ty)
    }
    fn cst(&mut self, c: &Cst, ty: &Ty) -> Vec<Op> {
        match c {
            Cst::Local(n) => self.def(n, ty).into_iter().map(|r| r as Op).collect(),
            Cst::Zero | Cst::Undef | Cst::Null => {
                let n = ty.slots().len();
                let z = self.konst(0);
                vec![z; n]
            }
            Cst::Int(v) => match ty {
                Ty::Int(w) if *w > 64 => {
                    let lo = self.konst(*v as u64);
                    let hi = self.konst((*v >> 64) as u64);
                    vec![lo, hi]
                }
                _ => vec![self.konst(*v as u64)],
            },
            Cst::Agg(v) => {
                let mut o = vec![];
                for (t, c) in v {
                    o.extend(self.cst(c, t));
                }
                o
            }
            c => {
                let a = cst_addr(self.sym, self.m, c);
                vec![self.konst(a)]
            }
        }
    }
    fn tval(&mut self, lx: &mut Lex) -> (Ty, Vec<Op>) {
        let t = lx.ty();
        lx.skip_attrs();
        let v = self.val(lx, &t);
        (t, v)
    }
    fn edge(&mut self, from: &str, to: &str) -> u32 {
        let i = self.edges.len() as u32;
        self.edges.push(Edge { target: 0, moves: Box::new([]) });
        self.pend.push((i, from.to_string(), to.to_string()));
        i
    }
}

fn binop(s: &str) -> Option<B> {
    Some(match s {
        "add" => B::Add,
        "sub" => B::Sub,
        "mul" => B::Mul,
        "udiv" => B::UDiv,
        "sdiv" => B::SDiv,
        "urem" => B::URem,
        "srem" => B::SRem,
        "and" => B::And,
        "or" => B::Or,
        "xor" => B::Xor,
        "shl" => B::Shl,
        "lshr" => B::LShr,
        "ashr" => B::AShr,
        _ => return None,
    })
}

fn iw(t: &Ty) -> u32 {
    match t {
        Ty::Int(w) => *w,
        Ty::Ptr => 64,
        t => panic!("int width of {:?}", t),
    }
}

/// (slot offset, type) of an extractvalue/insertvalue path
fn agg_path(t: &Ty, idx: &[usize]) -> (usize, Ty) {
    let mut o = 0;
    let mut cur = t.clone();
    for &i in idx {
        match cur.clone() {
            Ty::Struct(f, _) => {
                for t in &f[..i] {
                    o += t.slots().len();
                }
                cur = f[i].clone();
            }
            Ty::Array(_, e) => {
                o += e.slots().len() * i;
                cur = *e;
            }
            t => panic!("agg path {:?}", t),
        }
    }
    (o, cur)
}

pub fn decode(m: &Module, sym: &Symtab, fi: usize) -> Func {
    let f = &m.fns[fi];
    let text = &m.text[f.body.0..f.body.1];
    let mut d = Dec {
        m,
        sym,
        regs: HashMap::new(),
        nregs: 0,
        regw: vec![],
        consts: vec![],
        cmap: HashMap::new(),
        code: vec![],
        edges: vec![],
        pend: vec![],
        blocks: HashMap::new(),
        phis: HashMap::new(),
    };
    let mut unnamed = 0usize;
    for (t, n) in &f.params {
        let n = if n.is_empty() {
            unnamed += 1;
            format!("{}", unnamed - 1)
        } else {
            n.clone()
        };
        d.def(&n, t);
    }
    let nparams = d.nregs;
    let mut cur = String::new();
    let mut first = true;
    let mut lines = text.lines().peekable();
    while let Some(line) = lines.next() {
        let tl = line.trim_start();
        if tl.is_empty() || tl.starts_with(';') || tl.starts_with("#dbg") {
            continue;
        }
        if !line.starts_with(' ') {
            // label
            let mut lx = Lex::new(line);
            let n = match lx.next() {
                Tok::W(w) => w.to_string(),
                Tok::S(s) => s.to_string(),
                t => panic!("label {:?}", t),
            };
            cur = n.clone();
            d.blocks.insert(n, d.code.len() as u32);
            first = false;
            continue;
        }
        if first {
            // unnamed entry block
            cur = "<entry>".to_string();
            d.blocks.insert(cur.clone(), 0);
            first = false;
        }
        let mut full = line.to_string();
        if tl.starts_with("switch") && !line.contains(']') {
            // multi-line switch
            while let Some(l) = lines.next() {
                full.push('\n');
                full.push_str(l);
                if l.trim_start().starts_with(']') {
                    break;
                }
            }
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inst(&mut d, &full, &cur)));
        if r.is_err() {
            eprintln!("decode failure in {}: {}", f.name, full);
            d.code.push(I::Unsupported(full.clone()));
        }
    }
    // resolve edges
    let pend = std::mem::take(&mut d.pend);
    for (i, from, to) in pend {
        let target = *d.blocks.get(&to).unwrap_or_else(|| panic!("block {} in {}", to, f.name));
        let mut moves = vec![];
        if let Some(ps) = d.phis.get(&to) {
            for (dst, inc) in ps {
                let v = inc
                    .iter()
                    .find(|(b, _)| *b == from || (from == "<entry>" && d.blocks.get(b).is_none()))
                    .unwrap_or_else(|| panic!("phi in {} of {} from {}", to, f.name, from));
                for (a, b) in dst.iter().zip(v.1.iter()) {
                    moves.push((*a, *b));
                }
            }
        }
        d.edges[i as usize] = Edge { target, moves: moves.into_boxed_slice() };
    }
    // every stack slot lives at a fixed offset of one frame object
    let mut frame = 0u64;
    for i in d.code.iter_mut() {
        if let I::Alloca { size, align, .. } = i {
            let a = (*align).max(1);
            frame = frame.div_ceil(a) * a;
            let n = *size;
            *size = frame;
            frame += n;
        }
    }
    Func {
        name: f.name.clone(),
        nregs: d.nregs,
        consts: d.consts,
        code: d.code,
        edges: d.edges,
        nparams,
        frame,
        regw: d.regw,
    }
}

fn blockname(t: Tok) -> String {
    match t {
        Tok::L(n) => n.to_string(),
        t => panic!("block ref {:?}", t),
    }
}

fn inst(d: &mut Dec, line: &str, cur: &str) {
    let mut lx = Lex::new(line);
    let mut dest: Option<String> = None;
    let mut t = lx.next();
    if let Tok::L(n) = t {
        dest = Some(n.to_string());
        lx.expect('=');
        t = lx.next();
    }
    let mut opw = match t {
        Tok::W(w) => w,
        t => panic!("instr {:?}", t),
    };
    if matches!(opw, "tail" | "musttail" | "notail") {
        opw = match lx.next() {
            Tok::W(w) => w,
            t => panic!("instr {:?}", t),
        };
    }
    let dn = dest.as_deref().unwrap_or("");
    if let Some(op) = binop(opw) {
        while let Tok::W("nuw" | "nsw" | "exact" | "disjoint") = lx.peek() {
            lx.next();
        }
        let ty = lx.ty();
        let a = d.val(&mut lx, &ty);
        lx.expect(',');
        let b = d.val(&mut lx, &ty);
        let w = iw(&ty);
        let r = d.def(dn, &ty);
        if w > 64 {
            d.code.push(I::Wide { op, w: w as u8, d: r[0], a: [a[0], a[1]], b: [b[0], b[1]], flag: false });
        } else {
            d.code.push(I::Bin { op, w: w as u8, w2: w as u8, d: r[0], a: a[0], b: b[0] });
        }
        return;
    }
    match opw {
        "icmp" => {
            if let Tok::W("samesign") = lx.peek() {
                lx.next();
            }
            let p = match lx.next() {
                Tok::W(w) => w,
                t => panic!("{:?}", t),
            };
            let ty = lx.ty();
            let mut a = d.val(&mut lx, &ty);
            lx.expect(',');
            let mut b = d.val(&mut lx, &ty);
            let (op, sw) = match p {
                "eq" => (B::Eq, false),
                "ne" => (B::Ne, false),
                "ult" => (B::Ult, false),
                "ule" => (B::Ule, false),
                "ugt" => (B::Ult, true),
                "uge" => (B::Ule, true),
                "slt" => (B::Slt, false),
                "sle" => (B::Sle, false),
                "sgt" => (B::Slt, true),
                "sge" => (B::Sle, true),
                _ => panic!("{}", p),
            };
            if sw {
                std::mem::swap(&mut a, &mut b);
            }
            let r = d.def(dn, &Ty::Int(1));
            let w = iw(&ty);
            if w > 64 {
                d.code.push(I::Wide { op, w: w as u8, d: r[0], a: [a[0], a[1]], b: [b[0], b[1]], flag: true });
            } else {
                d.code.push(I::Bin { op, w: w as u8, w2: 1, d: r[0], a: a[0], b: b[0] });
            }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "freeze" | "ptrtoaddr" => {
            while let Tok::W("nuw" | "nsw" | "nneg") = lx.peek() {
                lx.next();
            }
            let ty = lx.ty();
            let a = d.val(&mut lx, &ty);
            if opw == "freeze" {
                let r = d.def(dn, &ty);
                for (x, y) in r.iter().zip(a.iter()) {
                    d.code.push(I::Mov { d: *x, a: *y });
                }
                return;
            }
            assert!(lx.eat_word("to"));
            let t2 = lx.ty();
            let r = d.def(dn, &t2);
            let (w, w2) = (iw(&ty), iw(&t2));
            let op = if opw == "sext" { B::Sext } else if w2 < w { B::Trunc } else { B::Zext };
            if w == w2 {
                for (x, y) in r.iter().zip(a.iter()) {
                    d.code.push(I::Mov { d: *x, a: *y });
                }
            } else if w <= 64 && w2 <= 64 {
                d.code.push(I::Bin { op, w: w as u8, w2: w2 as u8, d: r[0], a: a[0], b: a[0] });
            } else if w > 64 && w2 <= 64 {
                if w2 == 64 {
                    d.code.push(I::Mov { d: r[0], a: a[0] });
                } else {
                    d.code.push(I::Bin { op: B::Trunc, w: 64, w2: w2 as u8, d: r[0], a: a[0], b: a[0] });
                }
            } else if w <= 64 {
                // widening
                if w == 64 {
                    d.code.push(I::Mov { d: r[0], a: a[0] });
                } else {
                    d.code.push(I::Bin { op, w: w as u8, w2: 64, d: r[0], a: a[0], b: a[0] });
                }
                if op == B::Sext {
                    let k = d.konst(63);
                    d.code.push(I::Bin { op: B::AShr, w: 64, w2: 64, d: r[1], a: r[0] as Op, b: k });
                    if w2 < 128 {
                        let m = d.konst((1u64 << (w2 - 64)) - 1);
                        d.code.push(I::Bin { op: B::And, w: 64, w2: 64, d: r[1], a: r[1] as Op, b: m });
                    }
                } else {
                    let z = d.konst(0);
                    d.code.push(I::Mov { d: r[1], a: z });
                }
            } else {
                // wide to wide
                d.code.push(I::Mov { d: r[0], a: a[0] });
                if op == B::Zext {
                    d.code.push(I::Mov { d: r[1], a: a[1] });
                } else if op == B::Trunc {
                    let m = d.konst((1u64 << (w2 - 64)) - 1);
                    d.code.push(I::Bin { op: B::And, w: 64, w2: 64, d: r[1], a: a[1], b: m });
                } else {
                    panic!("wide sext");
                }
            }
        }
        "select" => {
            let ct = lx.ty();
            let c = d.val(&mut lx, &ct);
            lx.expect(',');
            let ty = lx.ty();
            let a = d.val(&mut lx, &ty);
            lx.expect(',');
            let ty2 = lx.ty();
            let b = d.val(&mut lx, &ty2);
            let r = d.def(dn, &ty);
            let ws = ty.slots();
            for i in 0..r.len() {
                d.code.push(I::Sel { d: r[i], c: c[0], a: a[i], b: b[i], w: ws[i] as u8 });
            }
        }
        "extractvalue" => {
            let (ty, v) = d.tval(&mut lx);
            let mut idx = vec![];
            while lx.eat(',') {
                match lx.next() {
                    Tok::W(w) => idx.push(w.parse().unwrap()),
                    _ => break,
                }
            }
            let (o, t) = agg_path(&ty, &idx);
            let r = d.def(dn, &t);
            for i in 0..r.len() {
                d.code.push(I::Mov { d: r[i], a: v[o + i] });
            }
        }
        "insertvalue" => {
            let (ty, v) = d.tval(&mut lx);
            lx.expect(',');
            let (_, e) = d.tval(&mut lx);
            let mut idx = vec![];
            while lx.eat(',') {
                match lx.next() {
                    Tok::W(w) => idx.push(w.parse().unwrap()),
                    _ => break,
                }
            }
            let (o, _) = agg_path(&ty, &idx);
            let r = d.def(dn, &ty);
            for i in 0..r.len() {
                let a = if i >= o && i < o + e.len() { e[i - o] } else { v[i] };
                d.code.push(I::Mov { d: r[i], a });
            }
        }
        "load" => {
            while let Tok::W("atomic" | "volatile") = lx.peek() {
                lx.next();
            }
            let ty = lx.ty();
            lx.expect(',');
            let (_, p) = d.tval(&mut lx);
            let r = d.def(dn, &ty);
            emit_mem(d, &ty, &r.iter().map(|x| *x as Op).collect::<Vec<_>>(), p[0], true);
        }
        "store" => {
            while let Tok::W("atomic" | "volatile") = lx.peek() {
                lx.next();
            }
            let (ty, v) = d.tval(&mut lx);
            lx.expect(',');
            let (_, p) = d.tval(&mut lx);
            emit_mem(d, &ty, &v, p[0], false);
        }
        "getelementptr" => {
            while let Tok::W("inbounds" | "nuw" | "nusw") = lx.peek() {
                lx.next();
            }
            let et = lx.ty();
            lx.expect(',');
            let (_, p) = d.tval(&mut lx);
            let mut off = 0i64;
            let mut terms = vec![];
            let mut cur_t = et;
            let mut first = true;
            while lx.eat(',') {
                if let Tok::M(_) = lx.peek() {
                    break;
                }
                let it = lx.ty();
                let c = lx.cst(&it);
                let stride;
                let next;
                if first {
                    stride = cur_t.size() as i64;
                    next = cur_t.clone();
                    first = false;
                } else {
                    match &cur_t {
                        Ty::Array(_, t) => {
                            stride = t.size() as i64;
                            next = (**t).clone();
                        }
                        Ty::Struct(..) => {
                            let k = match &c {
                                Cst::Int(v) => *v as usize,
                                Cst::Zero => 0,
                                _ => panic!(),
                            };
                            let (o, t) = cur_t.field_off(k);
                            off += o as i64;
                            cur_t = t.clone();
                            continue;
                        }
                        _ => panic!("gep"),
                    }
                }
                match &c {
                    Cst::Int(v) => off += sext(*v, &it) * stride,
                    Cst::Zero => {}
                    _ => {
                        let o = d.cst(&c, &it);
                        terms.push((o[0], iw(&it) as u8, stride));
                    }
                }
                cur_t = next;
            }
            let r = d.def(dn, &Ty::Ptr);
            d.code.push(I::Gep { d: r[0], p: p[0], off, terms: terms.into_boxed_slice() });
        }
        "alloca" => {
            if let Tok::W("inalloca") = lx.peek() {
                lx.next();
            }
            let ty = lx.ty();
            let mut n = 1u64;
            let mut align = ty.align();
            while lx.eat(',') {
                if lx.eat_word("align") {
                    if let Tok::W(w) = lx.next() {
                        align = w.parse().unwrap();
                    }
                } else if let Tok::M(_) = lx.peek() {
                    break;
                } else {
                    let t = lx.ty();
                    if let Cst::Int(v) = lx.cst(&t) {
                        n = v as u64;
                    } else {
                        panic!("dynamic alloca");
                    }
                }
            }
            let r = d.def(dn, &Ty::Ptr);
            d.code.push(I::Alloca { d: r[0], size: ty.size() * n, align });
        }
        "phi" => {
            let ty = lx.ty();
            let mut inc = vec![];
            loop {
                lx.expect('[');
                let v = d.val(&mut lx, &ty);
                lx.expect(',');
                let b = blockname(lx.next());
                lx.expect(']');
                inc.push((b, v));
                if !lx.eat(',') {
                    break;
                }
                if let Tok::M(_) = lx.peek() {
                    break;
                }
            }
            let r = d.def(dn, &ty);
            d.phis.entry(cur.to_string()).or_default().push((r, inc));
        }
        "br" => {
            if lx.eat_word("label") {
                let b = blockname(lx.next());
                let e = d.edge(cur, &b);
                d.code.push(I::Br { e });
            } else {
                let t = lx.ty();
                let c = d.val(&mut lx, &t);
                lx.expect(',');
                assert!(lx.eat_word("label"));
                let a = blockname(lx.next());
                lx.expect(',');
                assert!(lx.eat_word("label"));
                let b = blockname(lx.next());
                let t = d.edge(cur, &a);
                let f = d.edge(cur, &b);
                d.code.push(I::CondBr { c: c[0], t, f });
            }
        }
        "switch" => {
            let ty = lx.ty();
            let v = d.val(&mut lx, &ty);
            lx.expect(',');
            assert!(lx.eat_word("label"));
            let b = blockname(lx.next());
            let default = d.edge(cur, &b);
            lx.expect('[');
            let mut cases = vec![];
            while !lx.eat(']') {
                let t = lx.ty();
                let c = match lx.cst(&t) {
                    Cst::Int(v) => v as u64,
                    Cst::Zero => 0,
                    _ => panic!(),
                };
                lx.expect(',');
                assert!(lx.eat_word("label"));
                let b = blockname(lx.next());
                let e = d.edge(cur, &b);
                cases.push((c, e));
            }
            assert!(v.len() == 1, "wide switch");
            d.code.push(I::Switch { v: v[0], w: iw(&ty) as u8, cases: cases.into_boxed_slice(), default });
        }
        "ret" => {
            let ty = lx.ty();
            let v = if ty == Ty::Void { vec![] } else { d.val(&mut lx, &ty) };
            d.code.push(I::Ret { vals: v.into_boxed_slice() });
        }
        "unreachable" => d.code.push(I::Unreachable),
        "fence" => {}
        "cmpxchg" => {
            while let Tok::W("weak" | "volatile") = lx.peek() {
                lx.next();
            }
            let (_, p) = d.tval(&mut lx);
            lx.expect(',');
            let (ty, c) = d.tval(&mut lx);
            lx.expect(',');
            let (_, n) = d.tval(&mut lx);
            let r = d.def(dn, &Ty::Struct(vec![ty.clone(), Ty::Int(1)], false));
            d.code.push(I::CmpXchg { p: p[0], cmp: c[0], new: n[0], w: iw(&ty) as u8, d: r[0] });
        }
        "atomicrmw" => {
            while let Tok::W("volatile") = lx.peek() {
                lx.next();
            }
            let o = match lx.next() {
                Tok::W(w) => w,
                _ => panic!(),
            };
            let (_, p) = d.tval(&mut lx);
            lx.expect(',');
            let (ty, v) = d.tval(&mut lx);
            let r = d.def(dn, &ty);
            let op = match o {
                "xchg" => RmwOp::Xchg,
                "nand" => RmwOp::Nand,
                "umax" => RmwOp::Bin(B::UMax),
                "umin" => RmwOp::Bin(B::UMin),
                o => RmwOp::Bin(binop(o).unwrap()),
            };
            d.code.push(I::Rmw { op, p: p[0], v: v[0], w: iw(&ty) as u8, d: r[0] });
        }
        "call" => {
            while let Tok::W("fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_nonecc") = lx.peek() {
                lx.next();
            }
            lx.skip_attrs();
            let ty = lx.ty();
            if lx.eat_word("asm") {
                return;
            }
            let callee = lx.next();
            lx.expect('(');
            let mut args: Vec<Op> = vec![];
            let mut atys: Vec<Ty> = vec![];
            if !lx.eat(')') {
                loop {
                    let t = lx.ty();
                    lx.skip_attrs();
                    if t == Ty::Other {
                        // metadata argument
                        lx.next();
                    } else {
                        let v = d.val(&mut lx, &t);
                        atys.push(t);
                        args.extend(v);
                    }
                    if lx.eat(')') {
                        break;
                    }
                    lx.expect(',');
                }
            }
            let dw: Vec<u8> = ty.slots().iter().map(|w| *w as u8).collect();
            match callee {
                Tok::G(n) if n.starts_with("llvm.") => intrinsic(d, n, &ty, &atys, args, dn),
                Tok::G(n) => {
                    let n = d.m.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
                    let fi = *d.m.fn_idx.get(n).unwrap_or_else(|| panic!("callee {}", n));
                    let r = if dw.is_empty() { vec![0] } else { d.def(dn, &ty) };
                    let callee = if d.m.fns[fi].body.1 > 0 { Callee::Fn(fi) } else { Callee::Ext(fi) };
                    d.code.push(I::Call { callee, args: args.into_boxed_slice(), d: r[0], dw: dw.into_boxed_slice() });
                }
                Tok::L(n) => {
                    let p = d.def(n, &Ty::Ptr);
                    let r = if dw.is_empty() { vec![0] } else { d.def(dn, &ty) };
                    d.code.push(I::Call {
                        callee: Callee::Ind(p[0] as Op),
                        args: args.into_boxed_slice(),
                        d: r[0],
                        dw: dw.into_boxed_slice(),
                    });
                }
                t => panic!("callee {:?}", t),
            }
        }
        _ => panic!("unknown instruction {}", opw),
    }
}

fn emit_mem(d: &mut Dec, ty: &Ty, v: &[Op], p: Op, load: bool) {
    fn go(d: &mut Dec, ty: &Ty, v: &[Op], k: &mut usize, p: Op, off: u64, load: bool) {
        let mut one = |d: &mut Dec, w: u32, bytes: u64, off: u64, k: &mut usize| {
            let x = v[*k];
            *k += 1;
            if load {
                d.code.push(I::Load { d: x as u32, p, bytes: bytes as u8, w: w as u8, off: off as u32 });
            } else {
                d.code.push(I::Store { p, v: x, bytes: bytes as u8, w: w as u8, off: off as u32 });
            }
        };
        match ty {
            Ty::Int(w) if *w <= 64 => one(d, *w, ((*w as u64) + 7) / 8, off, k),
            Ty::Int(w) => {
                one(d, 64, 8, off, k);
                one(d, *w - 64, ((*w as u64 - 64) + 7) / 8, off + 8, k);
            }
            Ty::Ptr => one(d, 64, 8, off, k),
            Ty::Float(w) => one(d, *w, (*w / 8) as u64, off, k),
            Ty::Array(n, t) => {
                for i in 0..*n {
                    go(d, t, v, k, p, off + i * t.size(), load);
                }
            }
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    let (o, t) = ty.field_off(i);
                    go(d, t, v, k, p, off + o, load);
                }
            }
            t => panic!("mem type {:?}", t),
        }
    }
    // a loaded register may be the address itself only in a different name; SSA makes this safe
    let mut k = 0;
    go(d, ty, v, &mut k, p, 0, load);
}

fn intrinsic(d: &mut Dec, n: &str, ty: &Ty, atys: &[Ty], args: Vec<Op>, dn: &str) {
    let base = |s: &str| n == s || n.starts_with(&format!("{}.", s));
    let mut parts = n.split('.');
    parts.next();
    if base("llvm.lifetime")
        || base("llvm.assume")
        || base("llvm.experimental.noalias.scope.decl")
        || base("llvm.dbg")
        || base("llvm.donothing")
        || base("llvm.prefetch")
        || base("llvm.sideeffect")
        || base("llvm.va_end")
    {
        return;
    }
    if base("llvm.memcpy") || base("llvm.memmove") {
        d.code.push(I::Call { callee: Callee::Intr(Intr::Memcpy), args: args.into_boxed_slice(), d: 0, dw: Box::new([]) });
        return;
    }
    if base("llvm.memset") {
        d.code.push(I::Call { callee: Callee::Intr(Intr::Memset), args: args.into_boxed_slice(), d: 0, dw: Box::new([]) });
        return;
    }
    if base("llvm.trap") || base("llvm.ubsantrap") || base("llvm.debugtrap") {
        d.code.push(I::Call { callee: Callee::Intr(Intr::Trap), args: Box::new([]), d: 0, dw: Box::new([]) });
        return;
    }
    if base("llvm.threadlocal.address") || base("llvm.expect") || base("llvm.launder.invariant.group") || base("llvm.ssa.copy") {
        let r = d.def(dn, ty);
        d.code.push(I::Mov { d: r[0], a: args[0] });
        return;
    }
    if base("llvm.ptrmask") {
        let r = d.def(dn, ty);
        d.code.push(I::Bin { op: B::And, w: 64, w2: 64, d: r[0], a: args[0], b: args[1] });
        return;
    }
    if base("llvm.is.constant") {
        let r = d.def(dn, ty);
        let z = d.konst(0);
        d.code.push(I::Mov { d: r[0], a: z });
        return;
    }
    if base("llvm.fshl") || base("llvm.fshr") {
        let r = d.def(dn, ty);
        let w = iw(ty);
        assert!(w <= 64);
        let left = base("llvm.fshl");
        // constant shift amounts become shifts and an or; others are handled at run time
        d.code.push(I::Call {
            callee: Callee::Intr(if left { Intr::Fshl } else { Intr::Fshr }),
            args: args.into_boxed_slice(),
            d: r[0],
            dw: Box::new([w as u8]),
        });
        return;
    }
    let name = {
        let p: Vec<&str> = n.split('.').collect();
        let mut k = p.len();
        while k > 1 && (p[k - 1].starts_with('i') || p[k - 1].starts_with('p')) && p[k - 1][1..].parse::<u32>().is_ok() {
            k -= 1;
        }
        p[1..k].join(".")
    };
    let two = |op: B, d: &mut Dec| {
        let r = d.def(dn, ty);
        let w = iw(&atys[0]);
        if w > 64 {
            d.code.push(I::Wide { op, w: w as u8, d: r[0], a: [args[0], args[1]], b: [args[2], args[3]], flag: false });
        } else {
            let w2 = iw(ty);
            d.code.push(I::Bin { op, w: w as u8, w2: w2 as u8, d: r[0], a: args[0], b: args[1] });
        }
    };
    let ovf = |op: B, fo: B, d: &mut Dec| {
        let r = d.def(dn, ty);
        let w = iw(&atys[0]);
        if w > 64 {
            d.code.push(I::Wide { op, w: w as u8, d: r[0], a: [args[0], args[1]], b: [args[2], args[3]], flag: false });
            d.code.push(I::Wide { op: fo, w: w as u8, d: r[2], a: [args[0], args[1]], b: [args[2], args[3]], flag: true });
        } else {
            d.code.push(I::Bin { op, w: w as u8, w2: w as u8, d: r[0], a: args[0], b: args[1] });
            d.code.push(I::Bin { op: fo, w: w as u8, w2: 1, d: r[1], a: args[0], b: args[1] });
        }
    };
    let one = |op: B, d: &mut Dec| {
        let r = d.def(dn, ty);
        let w = iw(&atys[0]);
        assert!(w <= 64, "wide unary");
        d.code.push(I::Bin { op, w: w as u8, w2: w as u8, d: r[0], a: args[0], b: args[0] });
    };
    match name.as_str() {
        "umin" => two(B::UMin, d),
        "umax" => two(B::UMax, d),
        "smin" => two(B::SMin, d),
        "smax" => two(B::SMax, d),
        "usub.sat" => two(B::USubSat, d),
        "uadd.sat" => two(B::UAddSat, d),
        "ssub.sat" => two(B::SSubSat, d),
        "sadd.sat" => two(B::SAddSat, d),
        "ucmp" => two(B::UCmp, d),
        "scmp" => two(B::SCmp, d),
        "uadd.with.overflow" => ovf(B::Add, B::UAddO, d),
        "usub.with.overflow" => ovf(B::Sub, B::USubO, d),
        "umul.with.overflow" => ovf(B::Mul, B::UMulO, d),
        "sadd.with.overflow" => ovf(B::Add, B::SAddO, d),
        "ssub.with.overflow" => ovf(B::Sub, B::SSubO, d),
        "smul.with.overflow" => ovf(B::Mul, B::SMulO, d),
        "ctpop" => one(B::Ctpop, d),
        "ctlz" => one(B::Ctlz, d),
        "cttz" => one(B::Cttz, d),
        "bswap" => one(B::Bswap, d),
        "bitreverse" => one(B::Bitrev, d),
        "abs" => one(B::Abs, d),
        _ => panic!("intrinsic {} ({})", n, name),
    }
}
