//! Parser for the subset of textual LLVM IR that rustc emits.
use crate::expr::Op;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Named(String),
    Meta,
    Label,
    Func,
    Opaque,
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u16, u128),
    Null,
    Undef(Ty),
    Zero(Ty),
    Agg(Vec<Cst>),
    Bytes(Vec<u8>),
    Global(String),
    /// base + byte offset computed from GEP
    Gep(Ty, Box<Cst>, Vec<(Ty, Cst)>),
    PtrToInt(Box<Cst>, u16),
    IntToPtr(Box<Cst>),
    Trunc(Box<Cst>, u16),
    Bin(String, Box<Cst>, Box<Cst>),
    Splat(u64, Box<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(Cst),
    /// resolved constant index (per function), filled by the executor
    K(u32),
    Meta,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Ind(Opd),
    Asm(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca(Ty, Opd, u64),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Ty, Opd, Vec<(Ty, Opd)>),
    Bin(Op, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Icmp(Pred, Ty, Opd, Opd),
    Fcmp(String, Ty, Opd, Opd),
    Cast(String, Ty, Opd, Ty),
    Select(Ty, Opd, Ty, Opd, Opd),
    Phi(Ty, Vec<(Opd, u32)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(Cst, u32)>),
    Call(Ty, Callee, Vec<(Ty, Opd)>, Option<u32>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Ty, Opd, Ty, Opd, Vec<u32>),
    ExtractElement(Ty, Opd, Opd),
    InsertElement(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Cst),
    Freeze(Ty, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    AtomicRmw(String, Ty, Opd, Opd),
    Fence,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub i: I,
    pub dbg: u32,
}
#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub phis: usize,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub consts: Vec<(Ty, Cst)>,
}
#[derive(Debug, Clone)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub konst: bool,
    pub align: u64,
}

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
}
fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> P<'a> {
    pub fn new(s: &'a str) -> P<'a> {
        P { s: s.as_bytes(), i: 0 }
    }
    pub fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
            self.i += 1;
        }
        if self.i < self.s.len() && self.s[self.i] == b';' {
            while self.i < self.s.len() && self.s[self.i] != b'\n' {
                self.i += 1;
            }
            self.ws()
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at ...{}", c as char, self.rest(80));
        }
    }
    pub fn rest(&self, n: usize) -> String {
        String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..(self.i + n).min(self.s.len())]).into_owned()
    }
    pub fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && idch(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    pub fn peek_word(&mut self) -> String {
        let sv = self.i;
        let w = self.word();
        self.i = sv;
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        let sv = self.i;
        if self.word() == w {
            true
        } else {
            self.i = sv;
            false
        }
    }
    fn quoted(&mut self) -> String {
        // at opening quote
        self.i += 1;
        let st = self.i;
        while self.s[self.i] != b'"' {
            self.i += 1;
        }
        let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
        self.i += 1;
        r
    }
    /// name after % or @
    pub fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.quoted()
        } else {
            let st = self.i;
            while self.i < self.s.len() && idch(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    pub fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.quoted();
                    continue;
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn num(&mut self) -> u64 {
        self.word().parse().unwrap_or_else(|_| panic!("number expected: {}", self.rest(40)))
    }
    pub fn try_ty(&mut self) -> Option<Ty> {
        let c = self.peek();
        let base = match c {
            b'[' => {
                self.i += 1;
                let n = self.num();
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            b'{' => {
                self.i += 1;
                Ty::Struct(self.ty_list(b'}'), false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let l = self.ty_list(b'}');
                    self.expect(b'>');
                    Ty::Struct(l, true)
                } else {
                    let n = self.num();
                    assert!(self.eat_word("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'%' => {
                // named types are always quoted or dotted; only used where a type is required
                self.i += 1;
                Ty::Named(self.name())
            }
            _ => {
                let sv = self.i;
                let w = self.word();
                let t = match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" => Ty::Meta,
                    "label" => Ty::Label,
                    "opaque" => Ty::Opaque,
                    _ => {
                        if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()) {
                            Ty::Int(w[1..].parse().unwrap())
                        } else {
                            self.i = sv;
                            return None;
                        }
                    }
                };
                if t == Ty::Ptr {
                    if self.eat_word("addrspace") {
                        self.peek();
                        self.skip_paren();
                    }
                }
                t
            }
        };
        Some(base)
    }
    pub fn ty(&mut self) -> Ty {
        match self.try_ty() {
            Some(t) => t,
            None => panic!("type expected at {}", self.rest(60)),
        }
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if !self.eat(b',') {
                break;
            }
        }
        self.expect(end);
        v
    }
    /// skip parameter / return attributes
    pub fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if !c.is_ascii_alphabetic() && c != b'"' {
                return;
            }
            if c == b'"' {
                self.quoted();
                if self.peek() == b'=' {
                    self.i += 1;
                    self.peek();
                    self.quoted();
                }
                continue;
            }
            let w = self.peek_word();
            match w.as_str() {
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "writeonly" | "readnone" | "zeroext"
                | "signext" | "inreg" | "returned" | "nocapture" | "nest" | "immarg" | "noext" | "allocptr"
                | "allocalign" | "swiftself" | "dead_on_unwind" | "writable" | "dead_on_return" | "inmem" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_paren();
                    }
                }
                "align" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_paren();
                    } else {
                        self.num();
                    }
                }
                "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "sret" | "byval" | "elementtype"
                | "initializes" | "nofpclass" | "preallocated" | "inalloca" | "byref" => {
                    self.word();
                    self.peek();
                    self.skip_paren();
                }
                _ => return,
            }
        }
    }
    pub fn cst(&mut self, t: &Ty) -> Cst {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                Cst::Global(self.name())
            }
            b'{' => {
                self.i += 1;
                Cst::Agg(self.cst_list(b'}'))
            }
            b'[' => {
                self.i += 1;
                Cst::Agg(self.cst_list(b']'))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let l = self.cst_list(b'}');
                    self.expect(b'>');
                    Cst::Agg(l)
                } else {
                    Cst::Agg(self.cst_list(b'>'))
                }
            }
            _ => {
                if c == b'c' && self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' {
                    self.i += 2;
                    let mut v = vec![];
                    while self.s[self.i] != b'"' {
                        if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
                            v.push(b'\\');
                            self.i += 2;
                        } else if self.s[self.i] == b'\\' {
                            let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                            v.push(u8::from_str_radix(h, 16).unwrap());
                            self.i += 3;
                        } else {
                            v.push(self.s[self.i]);
                            self.i += 1;
                        }
                    }
                    self.i += 1;
                    return Cst::Bytes(v);
                }
                let w = self.word();
                match w.as_str() {
                    "true" => Cst::Int(1, 1),
                    "false" => Cst::Int(1, 0),
                    "null" => Cst::Null,
                    "none" => Cst::Null,
                    "undef" | "poison" => Cst::Undef(t.clone()),
                    "zeroinitializer" => Cst::Zero(t.clone()),
                    "splat" => {
                        self.expect(b'(');
                        let et = self.ty();
                        let e = self.cst(&et);
                        self.expect(b')');
                        match t {
                            Ty::Vec(n, _) => Cst::Splat(*n, Box::new(e)),
                            Ty::Arr(n, _) => Cst::Splat(*n, Box::new(e)),
                            _ => panic!("splat of {:?}", t),
                        }
                    }
                    "getelementptr" => {
                        while matches!(self.peek_word().as_str(), "inbounds" | "nuw" | "nusw" | "inrange") {
                            self.word();
                            if self.peek() == b'(' && self.s[self.i - 1] == b'e' {
                                self.skip_paren();
                            }
                        }
                        self.expect(b'(');
                        let et = self.ty();
                        self.expect(b',');
                        let bt = self.ty();
                        let base = self.cst(&bt);
                        let mut idx = vec![];
                        while self.eat(b',') {
                            let it = self.ty();
                            let c = self.cst(&it);
                            idx.push((it, c));
                        }
                        self.expect(b')');
                        Cst::Gep(et, Box::new(base), idx)
                    }
                    "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "ptrtoaddr" => {
                        self.expect(b'(');
                        let st = self.ty();
                        let c = self.cst(&st);
                        assert!(self.eat_word("to"));
                        let dt = self.ty();
                        self.expect(b')');
                        match (w.as_str(), dt) {
                            ("ptrtoint", Ty::Int(n)) | ("ptrtoaddr", Ty::Int(n)) => Cst::PtrToInt(Box::new(c), n),
                            ("inttoptr", _) => Cst::IntToPtr(Box::new(c)),
                            ("trunc", Ty::Int(n)) => Cst::Trunc(Box::new(c), n),
                            (_, _) => c,
                        }
                    }
                    "add" | "sub" | "mul" | "xor" => {
                        while matches!(self.peek_word().as_str(), "nuw" | "nsw") {
                            self.word();
                        }
                        self.expect(b'(');
                        let t1 = self.ty();
                        let a = self.cst(&t1);
                        self.expect(b',');
                        let t2 = self.ty();
                        let b = self.cst(&t2);
                        self.expect(b')');
                        Cst::Bin(w, Box::new(a), Box::new(b))
                    }
                    _ => {
                        match t {
                            Ty::Int(n) => {
                                let v: i128 = if w.starts_with('-') {
                                    w.parse::<i128>().unwrap_or_else(|_| panic!("int? {} {}", w, self.rest(40)))
                                } else {
                                    w.parse::<u128>().unwrap_or_else(|_| panic!("int? {} {}", w, self.rest(40))) as i128
                                };
                                Cst::Int(*n, v as u128)
                            }
                            Ty::F64 => Cst::Int(64, Self::fp(&w, self).to_bits() as u128),
                            Ty::F32 => Cst::Int(32, (Self::fp(&w, self) as f32).to_bits() as u128),
                            _ => panic!("constant? type {:?} word '{}' rest {}", t, w, self.rest(60)),
                        }
                    }
                }
            }
        }
    }
    fn fp(w: &str, p: &mut P) -> f64 {
        if let Some(h) = w.strip_prefix("0x") {
            return f64::from_bits(u64::from_str_radix(h, 16).unwrap());
        }
        // decimal like 1.000000e+00 : '+' is not an identifier char
        let mut s = w.to_string();
        if p.i < p.s.len() && p.s[p.i] == b'+' {
            p.i += 1;
            let e = p.word();
            s.push('+');
            s.push_str(&e);
        }
        match s.as_str() {
            "inf" => return f64::INFINITY,
            _ => {}
        }
        s.parse().unwrap_or_else(|_| panic!("float? {}", s))
    }
    fn cst_list(&mut self, end: u8) -> Vec<Cst> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            let t = self.ty();
            v.push(self.cst(&t));
            if !self.eat(b',') {
                break;
            }
        }
        self.expect(end);
        v
    }
}

pub struct Module {
    pub globals: HashMap<String, Global>,
    pub aliases: HashMap<String, String>,
    /// function name -> text of definition
    pub defs: HashMap<String, String>,
    pub declares: Vec<String>,
    pub types: HashMap<String, Ty>,
    pub meta: HashMap<u32, String>,
}

pub fn parse_module(src: &str) -> Module {
    let mut m = Module {
        globals: HashMap::new(),
        aliases: HashMap::new(),
        defs: HashMap::new(),
        declares: vec![],
        types: HashMap::new(),
        meta: HashMap::new(),
    };
    let lines: Vec<&str> = src.split('\n').collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let b = l.as_bytes();
        if b.is_empty() {
            i += 1;
            continue;
        }
        match b[0] {
            b'@' => {
                parse_global(&mut m, l);
            }
            b'%' => {
                let mut p = P::new(l);
                p.i = 1;
                let n = p.name();
                p.expect(b'=');
                assert!(p.eat_word("type"));
                let t = p.ty();
                m.types.insert(n, t);
            }
            b'd' if l.starts_with("define") => {
                let st = i;
                while lines[i] != "}" {
                    i += 1;
                }
                let text = lines[st..=i].join("\n");
                let at = text.find('@').unwrap();
                let mut p = P::new(&text);
                p.i = at + 1;
                let n = p.name();
                m.defs.insert(n, text);
            }
            b'd' if l.starts_with("declare") => {
                let at = l.find('@').unwrap();
                let mut p = P::new(l);
                p.i = at + 1;
                m.declares.push(p.name());
            }
            b'!' if b.len() > 1 && b[1].is_ascii_digit() => {
                if let Some(eq) = l.find(" = ") {
                    if let Ok(n) = l[1..eq].parse::<u32>() {
                        m.meta.insert(n, l[eq + 3..].to_string());
                    }
                }
            }
            _ => {}
        }
        i += 1;
    }
    m
}

fn parse_global(m: &mut Module, l: &str) {
    let mut p = P::new(l);
    p.i = 1;
    let name = p.name();
    p.expect(b'=');
    let mut konst = false;
    let mut external = false;
    loop {
        if p.peek() == b'(' {
            p.skip_paren();
            continue;
        }
        let w = p.peek_word();
        match w.as_str() {
            "constant" => {
                konst = true;
                p.word();
                break;
            }
            "global" => {
                p.word();
                break;
            }
            "alias" => {
                p.word();
                let _ = p.ty();
                p.expect(b',');
                let _ = p.ty();
                if p.eat(b'@') {
                    let t = p.name();
                    m.aliases.insert(name, t);
                }
                return;
            }
            "external" | "extern_weak" => {
                external = true;
                p.word();
            }
            "" => panic!("global? {}", l),
            _ => {
                p.word();
            }
        }
    }
    let ty = p.ty();
    let init = if external || p.peek() == b',' || p.peek() == 0 { None } else { Some(p.cst(&ty)) };
    let mut align = 1;
    if let Some(a) = l.rfind(", align ") {
        let mut q = P::new(&l[a + 8..]);
        align = q.num();
    }
    m.globals.insert(name.clone(), Global { name, ty, init, konst, align });
}

struct FB {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nblocks: u32,
    consts: Vec<(Ty, Cst)>,
}
impl FB {
    fn reg(&mut self, n: String) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn block(&mut self, n: String) -> u32 {
        if let Some(&b) = self.blocks.get(&n) {
            return b;
        }
        let b = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n, b);
        b
    }
    fn opd(&mut self, p: &mut P, t: &Ty) -> Opd {
        if *t == Ty::Meta {
            return Opd::Meta;
        }
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Opd::Reg(self.reg(n));
        }
        let c = p.cst(t);
        self.consts.push((t.clone(), c));
        Opd::K(self.consts.len() as u32 - 1)
    }
    fn label(&mut self, p: &mut P) -> u32 {
        assert!(p.eat_word("label"));
        p.expect(b'%');
        let n = p.name();
        self.block(n)
    }
}

pub fn parse_func(text: &str) -> Func {
    let mut fb = FB { regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0, consts: vec![] };
    let mut lines = text.split('\n').peekable();
    let head = lines.next().unwrap();
    // return type: last type before '@'
    let mut p = P::new(head);
    assert!(p.eat_word("define"));
    let ret;
    loop {
        p.attrs();
        if let Some(t) = p.try_ty() {
            p.attrs();
            if p.peek() == b'@' {
                ret = t;
                break;
            }
            continue;
        }
        let w = p.word();
        if w.is_empty() {
            panic!("define? {}", head);
        }
        if p.peek() == b'(' {
            p.skip_paren();
        }
    }
    p.expect(b'@');
    let name = p.name();
    p.expect(b'(');
    let mut params = vec![];
    let mut unnamed = 0; // an unlabelled entry block takes the next number
    if !p.eat(b')') {
        let mut n = 0;
        loop {
            if p.peek() == b'.' {
                break;
            }
            let t = p.ty();
            p.attrs();
            let nm = if p.eat(b'%') { p.name() } else { n.to_string() };
            if nm.bytes().all(|c| c.is_ascii_digit()) {
                unnamed += 1;
            }
            let r = fb.reg(nm);
            params.push((t, r));
            n += 1;
            if !p.eat(b',') {
                break;
            }
        }
    }
    let mut blocks: Vec<(u32, Block)> = vec![];
    let mut cur: Option<(u32, Block)> = None;
    let mut pending = String::new();
    while let Some(l) = lines.next() {
        if l == "}" {
            break;
        }
        if l.is_empty() || l.starts_with(';') {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let mut p = P::new(l);
            let n = p.name();
            if let Some(b) = cur.take() {
                blocks.push(b);
            }
            let id = fb.block(n.clone());
            cur = Some((id, Block { name: n, phis: 0, insts: vec![] }));
            continue;
        }
        let t = l.trim_start();
        if t.starts_with(';') || t.starts_with("#dbg_") {
            continue;
        }
        let full: String;
        if t.starts_with("switch ") && t.ends_with('[') {
            pending.clear();
            pending.push_str(t);
            while let Some(l2) = lines.next() {
                pending.push(' ');
                pending.push_str(l2.trim_start());
                if l2.trim_start().starts_with(']') {
                    break;
                }
            }
            full = pending.clone();
        } else if t.contains("invoke ") && lines.peek().map_or(false, |x| x.trim_start().starts_with("to label")) {
            full = format!("{} {}", t, lines.next().unwrap().trim_start());
        } else if t.contains("landingpad ") {
            while lines.peek().map_or(false, |x| {
                let x = x.trim_start();
                x.starts_with("cleanup") || x.starts_with("catch") || x.starts_with("filter")
            }) {
                lines.next();
            }
            full = t.to_string();
        } else {
            full = t.to_string();
        }
        if cur.is_none() {
            let id = fb.block(unnamed.to_string());
            cur = Some((id, Block { name: "start".into(), phis: 0, insts: vec![] }));
        }
        let inst = parse_inst(&mut fb, &full);
        let b = &mut cur.as_mut().unwrap().1;
        if let I::Phi(..) = inst.i {
            b.phis += 1;
        }
        b.insts.push(inst);
    }
    if let Some(b) = cur.take() {
        blocks.push(b);
    }
    let entry = blocks[0].0;
    let mut out: Vec<Option<Block>> = (0..fb.nblocks).map(|_| None).collect();
    for (id, b) in blocks {
        out[id as usize] = Some(b);
    }
    assert!(entry == 0 || fb.nblocks > 0);
    // make sure entry is block 0
    let blocks: Vec<Block> = out
        .into_iter()
        .map(|b| b.unwrap_or(Block { name: "?".into(), phis: 0, insts: vec![] }))
        .collect();
    assert!(entry == 0, "entry block not first in {}", name);
    Func { name, params, ret, blocks, nregs: fb.regs.len() as u32, consts: fb.consts }
}

fn parse_inst(fb: &mut FB, l: &str) -> Inst {
    let mut dbg = 0;
    if let Some(d) = l.rfind("!dbg !") {
        let mut p = P::new(&l[d + 6..]);
        dbg = p.num() as u32;
    }
    let mut p = P::new(l);
    let mut dst = None;
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name();
        dst = Some(fb.reg(n));
        p.expect(b'=');
    }
    let mut op = p.word();
    if matches!(op.as_str(), "tail" | "musttail" | "notail") {
        op = p.word();
    }
    let i = match op.as_str() {
        "alloca" => {
            p.eat_word("inalloca");
            let t = p.ty();
            let mut n = {
                fb.consts.push((Ty::Int(64), Cst::Int(64, 1)));
                Opd::K(fb.consts.len() as u32 - 1)
            };
            let mut al = 8;
            while p.eat(b',') {
                if p.eat_word("align") {
                    al = p.num();
                } else if p.peek() == b'!' {
                    break;
                } else {
                    let nt = p.ty();
                    n = fb.opd(&mut p, &nt);
                }
            }
            I::Alloca(t, n, al)
        }
        "load" => {
            p.eat_word("atomic");
            p.eat_word("volatile");
            let t = p.ty();
            p.expect(b',');
            let pt = p.ty();
            let o = fb.opd(&mut p, &pt);
            I::Load(t, o)
        }
        "store" => {
            p.eat_word("atomic");
            p.eat_word("volatile");
            let t = p.ty();
            let v = fb.opd(&mut p, &t);
            p.expect(b',');
            let pt = p.ty();
            let a = fb.opd(&mut p, &pt);
            I::Store(t, v, a)
        }
        "getelementptr" => {
            while matches!(p.peek_word().as_str(), "inbounds" | "nuw" | "nusw") {
                p.word();
            }
            let t = p.ty();
            p.expect(b',');
            let bt = p.ty();
            let b = fb.opd(&mut p, &bt);
            let mut idx = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                let it = p.ty();
                let o = fb.opd(&mut p, &it);
                idx.push((it, o));
            }
            I::Gep(t, b, idx)
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr"
        | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            while matches!(
                p.peek_word().as_str(),
                "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
            ) {
                p.word();
            }
            let t = p.ty();
            let a = fb.opd(&mut p, &t);
            p.expect(b',');
            let b = fb.opd(&mut p, &t);
            let o = match op.as_str() {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "sdiv" => Op::SDiv,
                "urem" => Op::URem,
                "srem" => Op::SRem,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                "ashr" => Op::AShr,
                "fadd" => Op::FAdd,
                "fsub" => Op::FSub,
                "fmul" => Op::FMul,
                "fdiv" => Op::FDiv,
                _ => return Inst { dst, i: I::Unsupported(l.to_string()), dbg },
            };
            I::Bin(o, t, a, b)
        }
        "fneg" => {
            let t = p.ty();
            let a = fb.opd(&mut p, &t);
            I::FNeg(t, a)
        }
        "icmp" | "fcmp" => {
            p.eat_word("samesign");
            while matches!(
                p.peek_word().as_str(),
                "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
            ) {
                p.word();
            }
            let pr = p.word();
            let t = p.ty();
            let a = fb.opd(&mut p, &t);
            p.expect(b',');
            let b = fb.opd(&mut p, &t);
            if op == "icmp" {
                let pr = match pr.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    _ => Pred::Sge,
                };
                I::Icmp(pr, t, a, b)
            } else {
                I::Fcmp(pr, t, a, b)
            }
        }
        "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint"
        | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
            while matches!(p.peek_word().as_str(), "nuw" | "nsw" | "nneg") {
                p.word();
            }
            let t = p.ty();
            let a = fb.opd(&mut p, &t);
            assert!(p.eat_word("to"));
            let d = p.ty();
            I::Cast(op, t, a, d)
        }
        "select" => {
            while matches!(
                p.peek_word().as_str(),
                "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
            ) {
                p.word();
            }
            let ct = p.ty();
            let c = fb.opd(&mut p, &ct);
            p.expect(b',');
            let t = p.ty();
            let a = fb.opd(&mut p, &t);
            p.expect(b',');
            let t2 = p.ty();
            let b = fb.opd(&mut p, &t2);
            I::Select(ct, c, t, a, b)
        }
        "phi" => {
            while matches!(
                p.peek_word().as_str(),
                "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
            ) {
                p.word();
            }
            let t = p.ty();
            let mut v = vec![];
            loop {
                p.expect(b'[');
                let o = fb.opd(&mut p, &t);
                p.expect(b',');
                p.expect(b'%');
                let n = p.name();
                let b = fb.block(n);
                p.expect(b']');
                v.push((o, b));
                if !p.eat(b',') || p.peek() != b'[' {
                    break;
                }
            }
            I::Phi(t, v)
        }
        "br" => {
            if p.peek_word() == "label" {
                I::Br(fb.label(&mut p))
            } else {
                let t = p.ty();
                let c = fb.opd(&mut p, &t);
                p.expect(b',');
                let a = fb.label(&mut p);
                p.expect(b',');
                let b = fb.label(&mut p);
                I::CondBr(c, a, b)
            }
        }
        "switch" => {
            let t = p.ty();
            let v = fb.opd(&mut p, &t);
            p.expect(b',');
            let d = fb.label(&mut p);
            p.expect(b'[');
            let mut cases = vec![];
            while !p.eat(b']') {
                let ct = p.ty();
                let c = p.cst(&ct);
                p.expect(b',');
                let b = fb.label(&mut p);
                cases.push((c, b));
            }
            I::Switch(t, v, d, cases)
        }
        "call" | "invoke" => {
            // fast-math flags, calling convention, attributes
            loop {
                p.attrs();
                let w = p.peek_word();
                match w.as_str() {
                    "fastcc" | "coldcc" | "ccc" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn"
                    | "reassoc" | "preserve_mostcc" | "preserve_allcc" | "preserve_nonecc" => {
                        p.word();
                    }
                    "cc" => {
                        p.word();
                        p.num();
                    }
                    _ => break,
                }
            }
            let rt = p.ty();
            if p.peek() == b'(' {
                p.skip_paren(); // explicit function type
            }
            let callee = match p.peek() {
                b'@' => {
                    p.i += 1;
                    Callee::Name(p.name())
                }
                b'%' => {
                    p.i += 1;
                    let n = p.name();
                    Callee::Ind(Opd::Reg(fb.reg(n)))
                }
                _ => {
                    if p.peek_word() == "asm" {
                        let r = p.rest(200);
                        // skip "asm sideeffect "..", ".."
                        p.word();
                        while p.peek() != b'(' {
                            if p.peek() == b'"' {
                                p.quoted();
                            } else if p.peek() == b',' {
                                p.i += 1;
                            } else {
                                p.word();
                            }
                        }
                        Callee::Asm(r)
                    } else {
                        let c = p.cst(&Ty::Ptr);
                        fb.consts.push((Ty::Ptr, c));
                        Callee::Ind(Opd::K(fb.consts.len() as u32 - 1))
                    }
                }
            };
            p.expect(b'(');
            let mut args = vec![];
            if !p.eat(b')') {
                loop {
                    let t = p.ty();
                    p.attrs();
                    if t == Ty::Meta {
                        // metadata argument: skip to , or )
                        let mut d = 0;
                        loop {
                            let c = p.s[p.i];
                            if d == 0 && (c == b',' || c == b')') {
                                break;
                            }
                            if c == b'(' || c == b'{' {
                                d += 1;
                            }
                            if c == b')' || c == b'}' {
                                d -= 1;
                            }
                            p.i += 1;
                        }
                        args.push((t, Opd::Meta));
                    } else {
                        let o = fb.opd(&mut p, &t);
                        args.push((t, o));
                    }
                    if !p.eat(b',') {
                        break;
                    }
                }
                p.expect(b')');
            }
            let mut normal = None;
            if op == "invoke" {
                // find "to label %x"
                let tail = &l[p.i..];
                let k = tail.find("to label %").expect("invoke");
                let mut q = P::new(&tail[k + 10..]);
                let n = q.name();
                normal = Some(fb.block(n));
            }
            I::Call(rt, callee, args, normal)
        }
        "ret" => {
            let t = p.ty();
            if t == Ty::Void {
                I::Ret(None)
            } else {
                let o = fb.opd(&mut p, &t);
                I::Ret(Some((t, o)))
            }
        }
        "unreachable" => I::Unreachable,
        "extractvalue" => {
            let t = p.ty();
            let o = fb.opd(&mut p, &t);
            let mut ix = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.num() as u32);
            }
            I::ExtractValue(o, ix)
        }
        "insertvalue" => {
            let t = p.ty();
            let o = fb.opd(&mut p, &t);
            p.expect(b',');
            let t2 = p.ty();
            let v = fb.opd(&mut p, &t2);
            let mut ix = vec![];
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.num() as u32);
            }
            I::InsertValue(t, o, t2, v, ix)
        }
        "extractelement" => {
            let t = p.ty();
            let o = fb.opd(&mut p, &t);
            p.expect(b',');
            let it = p.ty();
            let i = fb.opd(&mut p, &it);
            I::ExtractElement(t, o, i)
        }
        "insertelement" => {
            let t = p.ty();
            let o = fb.opd(&mut p, &t);
            p.expect(b',');
            let et = p.ty();
            let e = fb.opd(&mut p, &et);
            p.expect(b',');
            let it = p.ty();
            let i = fb.opd(&mut p, &it);
            I::InsertElement(t, o, e, i)
        }
        "shufflevector" => {
            let t = p.ty();
            let a = fb.opd(&mut p, &t);
            p.expect(b',');
            let t2 = p.ty();
            let b = fb.opd(&mut p, &t2);
            p.expect(b',');
            let mt = p.ty();
            let m = p.cst(&mt);
            I::Shuffle(t, a, b, m)
        }
        "freeze" => {
            let t = p.ty();
            let o = fb.opd(&mut p, &t);
            I::Freeze(t, o)
        }
        "fence" => I::Fence,
        "cmpxchg" => {
            while matches!(p.peek_word().as_str(), "weak" | "volatile") {
                p.word();
            }
            let t = p.ty();
            let a = fb.opd(&mut p, &t);
            p.expect(b',');
            let t2 = p.ty();
            let b = fb.opd(&mut p, &t2);
            p.expect(b',');
            let t3 = p.ty();
            let c = fb.opd(&mut p, &t3);
            I::CmpXchg(t2, a, b, c)
        }
        "atomicrmw" => {
            p.eat_word("volatile");
            let o = p.word();
            let t = p.ty();
            let a = fb.opd(&mut p, &t);
            p.expect(b',');
            let t2 = p.ty();
            let b = fb.opd(&mut p, &t2);
            I::AtomicRmw(o, t2, a, b)
        }
        _ => I::Unsupported(l.to_string()),
    };
    Inst { dst, i, dbg }
}
