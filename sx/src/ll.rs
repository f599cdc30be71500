//! Parser for the subset of textual LLVM IR that rustc emits.  Function bodies
//! are located eagerly but decoded only when first called.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Allocation size (stride in arrays).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f {
                    if !*packed {
                        let a = t.align();
                        o = o.div_ceil(a) * a;
                    }
                    o += t.size();
                }
                if !*packed {
                    let a = self.align();
                    o = o.div_ceil(a) * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = o.div_ceil(a) * a;
                    }
                    if k == i {
                        return (o, t);
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) => (t.size() * i as u64, t),
            _ => panic!("field_off of {:?}", self),
        }
    }
    /// Widths of the scalar slots of a first-class value of this type.
    pub fn slots(&self) -> Vec<u32> {
        let mut v = vec![];
        self.slots_into(&mut v);
        v
    }
    fn slots_into(&self, v: &mut Vec<u32>) {
        match self {
            Ty::Int(w) if *w <= 64 => v.push(*w),
            Ty::Int(w) if *w <= 128 => {
                v.push(64);
                v.push(*w - 64);
            }
            Ty::Ptr => v.push(64),
            Ty::Float(w) => v.push(*w),
            Ty::Array(n, t) => {
                for _ in 0..*n {
                    t.slots_into(v)
                }
            }
            Ty::Struct(f, _) => {
                for t in f {
                    t.slots_into(v)
                }
            }
            Ty::Void | Ty::Other => {}
            t => panic!("unsupported value type {:?}", t),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Null,
    Undef,
    Zero,
    Sym(String),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Cst)>),
    /// pointer + byte offset
    Off(Box<Cst>, i64),
    /// inttoptr/ptrtoint and friends: value unchanged
    Sub(Box<Cst>, Box<Cst>),
    Local(String),
    Meta,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    /// bare word, keyword, type or number
    W(&'a str),
    /// %local
    L(&'a str),
    /// @global
    G(&'a str),
    /// quoted string contents (raw, escapes in place), prefixed by c or not
    S(&'a str),
    /// metadata or attribute reference or other skipped token
    M(&'a str),
    P(char),
    Dots,
    End,
}

pub struct Lex<'a> {
    pub s: &'a str,
    pub i: usize,
}

fn is_word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'.' || b == b'$' || b == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        Lex { s, i: 0 }
    }
    fn name(&mut self) -> &'a str {
        let b = self.s.as_bytes();
        if self.i < b.len() && b[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while b[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            &self.s[st..j]
        } else {
            let st = self.i;
            while self.i < b.len() && is_word(b[self.i]) {
                self.i += 1;
            }
            &self.s[st..self.i]
        }
    }
    pub fn next(&mut self) -> Tok<'a> {
        let b = self.s.as_bytes();
        loop {
            if self.i >= b.len() {
                return Tok::End;
            }
            let c = b[self.i];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.i += 1;
                continue;
            }
            if c == b';' {
                while self.i < b.len() && b[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        let c = b[self.i];
        match c {
            b'%' => {
                self.i += 1;
                Tok::L(self.name())
            }
            b'@' => {
                self.i += 1;
                Tok::G(self.name())
            }
            b'!' => {
                let st = self.i;
                self.i += 1;
                while self.i < b.len() && is_word(b[self.i]) {
                    self.i += 1;
                }
                Tok::M(&self.s[st..self.i])
            }
            b'#' => {
                let st = self.i;
                self.i += 1;
                while self.i < b.len() && is_word(b[self.i]) {
                    self.i += 1;
                }
                Tok::M(&self.s[st..self.i])
            }
            b'"' => Tok::S(self.name()),
            b'c' if self.i + 1 < b.len() && b[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::S(self.name())
            }
            b'.' if self.s[self.i..].starts_with("...") => {
                self.i += 3;
                Tok::Dots
            }
            _ if is_word(c) => {
                let st = self.i;
                while self.i < b.len() && is_word(b[self.i]) {
                    self.i += 1;
                }
                Tok::W(&self.s[st..self.i])
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
    pub fn peek(&mut self) -> Tok<'a> {
        let i = self.i;
        let t = self.next();
        self.i = i;
        t
    }
    pub fn eat(&mut self, c: char) -> bool {
        let i = self.i;
        if self.next() == Tok::P(c) {
            true
        } else {
            self.i = i;
            false
        }
    }
    pub fn expect(&mut self, c: char) {
        let i = self.i;
        let t = self.next();
        if t != Tok::P(c) {
            let e = (i + 200).min(self.s.len());
            panic!("expected {:?}, got {:?} at {:?}", c, t, &self.s[i..e]);
        }
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        let i = self.i;
        if self.next() == Tok::W(w) {
            true
        } else {
            self.i = i;
            false
        }
    }
    /// Skip a balanced (...) group if it is next.
    pub fn skip_paren(&mut self) {
        if self.eat('(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    Tok::End => panic!("eof"),
                    _ => {}
                }
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        let i0 = self.i;
        let t = self.next();
        let mut ty = match t {
            Tok::W("void") => Ty::Void,
            Tok::W("ptr") => {
                if self.eat_word("addrspace") {
                    self.skip_paren();
                }
                Ty::Ptr
            }
            Tok::W("float") => Ty::Float(32),
            Tok::W("double") => Ty::Float(64),
            Tok::W("metadata") => Ty::Other,
            Tok::W("label") => Ty::Other,
            Tok::W("token") => Ty::Other,
            Tok::W(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
            Tok::P('[') => {
                let n = match self.next() {
                    Tok::W(w) => w.parse::<u64>().unwrap(),
                    t => panic!("array {:?}", t),
                };
                assert!(self.eat_word("x"));
                let e = self.ty();
                self.expect(']');
                Ty::Array(n, Box::new(e))
            }
            Tok::P('{') => {
                let mut f = vec![];
                if !self.eat('}') {
                    loop {
                        f.push(self.ty());
                        if self.eat('}') {
                            break;
                        }
                        self.expect(',');
                    }
                }
                Ty::Struct(f, false)
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut f = vec![];
                    if !self.eat('}') {
                        loop {
                            f.push(self.ty());
                            if self.eat('}') {
                                break;
                            }
                            self.expect(',');
                        }
                    }
                    self.expect('>');
                    Ty::Struct(f, true)
                } else {
                    let e = (i0 + 120).min(self.s.len());
                    panic!("vector type unsupported at {:?}", &self.s[i0..e]);
                }
            }
            t => {
                let e = (i0 + 160).min(self.s.len());
                panic!("type? {:?} at {:?}", t, &self.s[i0..e])
            }
        };
        // function type suffix in calls: `void (i64, ...)`
        if self.peek() == Tok::P('(') && matches!(ty, Ty::Void | Ty::Int(_) | Ty::Ptr) {
            // Only a function type when followed by a type list; callers that
            // can see '(' after a type for another reason do not use ty().
            let save = self.i;
            self.skip_paren();
            match self.peek() {
                Tok::G(_) | Tok::L(_) => {}
                _ => self.i = save,
            }
            let _ = &mut ty;
        }
        ty
    }
    /// Parameter / return attributes before a value.
    pub fn skip_attrs(&mut self) {
        loop {
            let i = self.i;
            match self.next() {
                Tok::W(w) => match w {
                    "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "readnone" | "writeonly" | "zeroext" | "signext"
                    | "noext" | "inreg" | "nocapture" | "returned" | "allocptr" | "allocalign" | "writable" | "dead_on_unwind"
                    | "immarg" | "swiftself" | "nest" | "dead_on_return" | "noundef_nonnull" => {
                        if self.peek() == Tok::P('(') && w == "dead_on_return" {
                            self.skip_paren();
                        }
                    }
                    "align" => {
                        if self.peek() == Tok::P('(') {
                            self.skip_paren();
                        } else {
                            self.next();
                        }
                    }
                    "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "byref" | "captures" | "range" | "initializes"
                    | "elementtype" | "nofpclass" | "preallocated" | "inalloca" => self.skip_paren(),
                    _ => {
                        self.i = i;
                        return;
                    }
                },
                _ => {
                    self.i = i;
                    return;
                }
            }
        }
    }
    pub fn cst(&mut self, ty: &Ty) -> Cst {
        let i0 = self.i;
        match self.next() {
            Tok::W("null") => Cst::Null,
            Tok::W("undef") | Tok::W("poison") => Cst::Undef,
            Tok::W("zeroinitializer") => Cst::Zero,
            Tok::W("true") => Cst::Int(1),
            Tok::W("false") => Cst::Int(0),
            Tok::W("none") => Cst::Undef,
            Tok::G(n) => Cst::Sym(n.to_string()),
            Tok::L(n) => Cst::Local(n.to_string()),
            Tok::S(s) => Cst::Bytes(unescape(s)),
            Tok::M(_) => Cst::Meta,
            Tok::W("dso_local_equivalent") | Tok::W("no_cfi") => self.cst(ty),
            Tok::W("getelementptr") => {
                while let Tok::W("inbounds" | "nuw" | "nusw") = self.peek() {
                    self.next();
                }
                if self.eat_word("inrange") {
                    self.skip_paren();
                }
                self.expect('(');
                let et = self.ty();
                self.expect(',');
                let bt = self.ty();
                let base = self.cst(&bt);
                let mut off = 0i64;
                let mut cur = et;
                let mut first = true;
                while self.eat(',') {
                    let it = self.ty();
                    let idx = match self.cst(&it) {
                        Cst::Int(v) => sext(v, &it),
                        Cst::Zero => 0,
                        c => panic!("gep index {:?}", c),
                    };
                    if first {
                        off += idx * cur.size() as i64;
                        first = false;
                    } else {
                        let (o, t) = {
                            let (o, t) = match &cur {
                                Ty::Array(_, t) => (idx * t.size() as i64, (**t).clone()),
                                s => {
                                    let (o, t) = s.field_off(idx as usize);
                                    (o as i64, t.clone())
                                }
                            };
                            (o, t)
                        };
                        off += o;
                        cur = t;
                    }
                }
                self.expect(')');
                Cst::Off(Box::new(base), off)
            }
            Tok::W("inttoptr") | Tok::W("ptrtoint") | Tok::W("bitcast") | Tok::W("ptrtoaddr") => {
                self.expect('(');
                let t = self.ty();
                let c = self.cst(&t);
                assert!(self.eat_word("to"));
                let t2 = self.ty();
                self.expect(')');
                match c {
                    Cst::Int(v) => Cst::Int(match &t2 {
                        Ty::Int(w) if *w < 128 => v & ((1u128 << w) - 1),
                        Ty::Ptr => v & (u64::MAX as u128),
                        _ => v,
                    }),
                    c => c,
                }
            }
            Tok::W("sub") => {
                while let Tok::W("nuw" | "nsw") = self.peek() {
                    self.next();
                }
                self.expect('(');
                let t = self.ty();
                let a = self.cst(&t);
                self.expect(',');
                let t = self.ty();
                let b = self.cst(&t);
                self.expect(')');
                Cst::Sub(Box::new(a), Box::new(b))
            }
            Tok::W("trunc") => {
                self.expect('(');
                let t = self.ty();
                let c = self.cst(&t);
                assert!(self.eat_word("to"));
                self.ty();
                self.expect(')');
                c
            }
            Tok::W("splat") => panic!("splat"),
            Tok::W(w) if w.as_bytes()[0].is_ascii_digit() || w.starts_with('-') => {
                if let Ty::Float(_) = ty {
                    let bits = if let Some(h) = w.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap()
                    } else {
                        w.parse::<f64>().unwrap().to_bits()
                    };
                    return Cst::Int(bits as u128);
                }
                let v: i128 = match w.parse::<i128>() {
                    Ok(v) => v,
                    Err(_) => w.parse::<u128>().unwrap_or_else(|_| panic!("int {:?}", w)) as i128,
                };
                let v = v as u128;
                Cst::Int(match ty {
                    Ty::Int(w) if *w < 128 => v & ((1u128 << w) - 1),
                    Ty::Ptr => v & (u64::MAX as u128),
                    _ => v,
                })
            }
            Tok::P('[') => {
                let mut v = vec![];
                if !self.eat(']') {
                    loop {
                        let t = self.ty();
                        let c = self.cst(&t);
                        v.push((t, c));
                        if self.eat(']') {
                            break;
                        }
                        self.expect(',');
                    }
                }
                Cst::Agg(v)
            }
            Tok::P('{') => {
                let mut v = vec![];
                if !self.eat('}') {
                    loop {
                        let t = self.ty();
                        let c = self.cst(&t);
                        v.push((t, c));
                        if self.eat('}') {
                            break;
                        }
                        self.expect(',');
                    }
                }
                Cst::Agg(v)
            }
            Tok::P('<') => {
                self.expect('{');
                let mut v = vec![];
                if !self.eat('}') {
                    loop {
                        let t = self.ty();
                        let c = self.cst(&t);
                        v.push((t, c));
                        if self.eat('}') {
                            break;
                        }
                        self.expect(',');
                    }
                }
                self.expect('>');
                Cst::Agg(v)
            }
            t => {
                let e = (i0 + 160).min(self.s.len());
                panic!("constant? {:?} at {:?}", t, &self.s[i0..e])
            }
        }
    }
}

pub fn sext(v: u128, ty: &Ty) -> i64 {
    match ty {
        Ty::Int(w) if *w < 64 => {
            let sh = 64 - w;
            (((v as u64) << sh) as i64) >> sh
        }
        _ => v as u64 as i64,
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                v.push(h(b[i + 1]) * 16 + h(b[i + 2]));
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub align: u64,
}

pub struct FnText {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, String)>,
    /// byte range of the body in the module text (empty for declarations)
    pub body: (usize, usize),
    pub weak: bool,
}

pub struct Module {
    pub text: String,
    pub globals: Vec<Global>,
    pub fns: Vec<FnText>,
    pub fn_idx: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
}

pub fn parse_module(text: String) -> Module {
    let mut globals = vec![];
    let mut fns = vec![];
    let mut aliases = HashMap::new();
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let e = memnl(b, i);
        let line = &text[i..e];
        if line.starts_with('@') {
            let mut lx = Lex::new(line);
            let name = match lx.next() {
                Tok::G(n) => n.to_string(),
                _ => panic!(),
            };
            lx.expect('=');
            let mut external = false;
            let mut alias = false;
            loop {
                match lx.next() {
                    Tok::W("global") | Tok::W("constant") => break,
                    Tok::W("alias") => {
                        alias = true;
                        break;
                    }
                    Tok::W("external") | Tok::W("extern_weak") => external = true,
                    Tok::W("thread_local") => lx.skip_paren(),
                    Tok::W("addrspace") => lx.skip_paren(),
                    Tok::W(_) => {}
                    t => panic!("global header {:?}: {}", t, &line[..line.len().min(200)]),
                }
            }
            if alias {
                lx.ty();
                if lx.peek() == Tok::P('(') {
                    lx.skip_paren();
                }
                lx.expect(',');
                let t = lx.ty();
                if let Cst::Sym(s) = lx.cst(&t) {
                    aliases.insert(name, s);
                } else {
                    panic!("alias");
                }
            } else {
                let ty = lx.ty();
                let init = if external { None } else { Some(lx.cst(&ty)) };
                let mut align = ty.align();
                while lx.eat(',') {
                    if lx.eat_word("align") {
                        if let Tok::W(w) = lx.next() {
                            align = w.parse().unwrap();
                        }
                    } else {
                        // section etc. or metadata: skip rest
                        match lx.next() {
                            Tok::W("section") => {
                                lx.next();
                            }
                            _ => break,
                        }
                    }
                }
                globals.push(Global { name, ty, init, align });
            }
        } else if line.starts_with("define ") || line.starts_with("declare ") {
            let def = line.starts_with("define ");
            let mut lx = Lex::new(line);
            lx.next();
            // linkage, cc, attrs until a type
            loop {
                lx.skip_attrs();
                let p = lx.i;
                match lx.next() {
                    Tok::W(w)
                        if matches!(
                            w,
                            "internal" | "private" | "linkonce_odr" | "weak_odr" | "weak" | "external" | "extern_weak" | "hidden"
                                | "dso_local" | "fastcc" | "coldcc" | "ccc" | "unnamed_addr" | "local_unnamed_addr" | "protected"
                                | "available_externally" | "linkonce" | "noundef" | "preserve_mostcc" | "preserve_nonecc"
                        ) => {}
                    _ => {
                        lx.i = p;
                        break;
                    }
                }
            }
            let ret = lx.ty();
            let name = match lx.next() {
                Tok::G(n) => n.to_string(),
                t => panic!("fn name {:?} {}", t, &line[..line.len().min(300)]),
            };
            lx.expect('(');
            let mut params = vec![];
            if !lx.eat(')') {
                loop {
                    if lx.eat_word("...") || lx.peek() == Tok::Dots {
                        lx.next();
                        break;
                    }
                    let t = lx.ty();
                    lx.skip_attrs();
                    let n = match lx.peek() {
                        Tok::L(n) => {
                            lx.next();
                            n.to_string()
                        }
                        _ => String::new(),
                    };
                    params.push((t, n));
                    if lx.eat(')') {
                        break;
                    }
                    lx.expect(',');
                }
            }
            if def {
                let bs = e + 1;
                // find "\n}\n"
                let mut j = bs;
                loop {
                    let k = memnl(b, j);
                    if k - j == 1 && b[j] == b'}' {
                        break;
                    }
                    j = k + 1;
                }
                fns.push(FnText { name, ret, params, body: (bs, j), weak: false });
                i = j + 2;
                continue;
            } else {
                fns.push(FnText { name, ret, params, body: (0, 0), weak: line.starts_with("declare extern_weak") });
            }
        }
        i = e + 1;
    }
    let fn_idx = fns.iter().enumerate().map(|(i, f)| (f.name.clone(), i)).collect();
    Module { text, globals, fns, fn_idx, aliases }
}

fn memnl(b: &[u8], i: usize) -> usize {
    let mut j = i;
    while j < b.len() && b[j] != b'\n' {
        j += 1;
    }
    j
}
