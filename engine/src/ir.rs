//! LLVM IR (textual) reader: just the subset rustc + `opt` emit for our harness module.
use crate::val::V;
use std::collections::HashMap;
use std::rc::Rc;

pub type Ty = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TyK {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Ty),
    Struct(Vec<Ty>, bool),
    Vector(u64, Ty),
    Other,
}

#[derive(Clone, Debug)]
pub struct TyInfo {
    pub size: u64,  // store size rounded to abi alignment
    pub align: u64,
    pub bits: u32, // for ints / pointers
    pub offs: Vec<u64>,
}

#[derive(Default)]
pub struct Types {
    pub k: Vec<TyK>,
    pub info: Vec<TyInfo>,
    map: HashMap<TyK, Ty>,
    pub named: HashMap<String, Ty>,
}

impl Types {
    pub fn intern(&mut self, k: TyK) -> Ty {
        if let Some(t) = self.map.get(&k) {
            return *t;
        }
        let info = self.compute(&k);
        let id = self.k.len() as Ty;
        self.k.push(k.clone());
        self.info.push(info);
        self.map.insert(k, id);
        id
    }
    fn compute(&self, k: &TyK) -> TyInfo {
        match k {
            TyK::Void | TyK::Other => TyInfo { size: 0, align: 1, bits: 0, offs: vec![] },
            TyK::Int(w) => {
                let bytes = ((*w as u64) + 7) / 8;
                let align = if *w > 64 { 16 } else { bytes.next_power_of_two() };
                let size = (bytes + align - 1) / align * align;
                TyInfo { size, align, bits: *w, offs: vec![] }
            }
            TyK::Ptr => TyInfo { size: 8, align: 8, bits: 64, offs: vec![] },
            TyK::F32 => TyInfo { size: 4, align: 4, bits: 32, offs: vec![] },
            TyK::F64 => TyInfo { size: 8, align: 8, bits: 64, offs: vec![] },
            TyK::Arr(n, t) => {
                let i = &self.info[*t as usize];
                TyInfo { size: i.size * n, align: i.align, bits: 0, offs: vec![] }
            }
            TyK::Vector(n, t) => {
                let i = &self.info[*t as usize];
                let size = if i.bits == 1 { (n + 7) / 8 } else { i.size * n };
                TyInfo { size, align: size.max(1).next_power_of_two(), bits: 0, offs: vec![] }
            }
            TyK::Struct(ts, packed) => {
                let mut off = 0u64;
                let mut al = 1u64;
                let mut offs = vec![];
                for t in ts {
                    let i = &self.info[*t as usize];
                    let a = if *packed { 1 } else { i.align };
                    al = al.max(a);
                    off = (off + a - 1) / a * a;
                    offs.push(off);
                    off += i.size;
                }
                off = (off + al - 1) / al * al;
                TyInfo { size: off, align: al, bits: 0, offs }
            }
        }
    }
    pub fn size(&self, t: Ty) -> u64 {
        self.info[t as usize].size
    }
    pub fn bits(&self, t: Ty) -> u32 {
        self.info[t as usize].bits
    }
    pub fn kind(&self, t: Ty) -> &TyK {
        &self.k[t as usize]
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Slot(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Zext, Sext, Trunc, Same, BitVec,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ext(u32),
    Ind(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, w: u32, a: Op, b: Op, d: u32 },
    Icmp { p: Pred, w: u32, a: Op, b: Op, d: u32 },
    Cast { k: CastK, from: Ty, to: Ty, a: Op, d: u32 },
    Gep { base: Op, off: u64, idx: Vec<(Op, u32, u64)>, d: u32 },
    Load { ty: Ty, p: Op, d: u32 },
    Store { ty: Ty, v: Op, p: Op },
    Alloca { size: u64, n: Op, d: u32 },
    Br { t: u32 },
    CBr { c: Op, t: u32, f: u32 },
    Switch { w: u32, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret { v: Option<Op> },
    Unreachable,
    Call { c: Callee, args: Vec<Op>, argw: Vec<u32>, d: u32, ret: Ty, normal: u32 },
    Select { ptr: bool, ty: Ty, c: Op, a: Op, b: Op, d: u32 },
    ExtractV { a: Op, idx: Vec<u32>, d: u32 },
    InsertV { a: Op, v: Op, idx: Vec<u32>, d: u32 },
    ExtractE { a: Op, i: Op, d: u32 },
    InsertE { a: Op, v: Op, i: Op, d: u32 },
    Shuffle { a: Op, b: Op, mask: Vec<u32>, d: u32, n: u32 },
    Rmw { op: RmwOp, ty: Ty, p: Op, v: Op, d: u32 },
    CmpXchg { ty: Ty, p: Op, c: Op, n: Op, d: u32 },
    Freeze { a: Op, d: u32 },
    Cpuid { d: u32 },
    /// floating point on concrete operands: name, type of the operands, of the result
    Float { op: String, from: Ty, to: Ty, a: Vec<Op>, d: u32 },
    Nop,
    LandingPad { d: u32 },
    Resume,
    Unsupported(String),
}

pub const NOSLOT: u32 = u32::MAX;

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub edges: Vec<(u32, Vec<(u32, Op)>)>, // pred -> moves
    pub ins: Vec<I>,
}

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nslots: u32,
    pub blocks: Vec<Block>,
    pub own: bool, // code of the crate under test
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub init: Option<V>,
    pub ty: Ty,
}

pub struct Module {
    pub types: Types,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub exts: Vec<String>,
    pub emap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    /// symbol -> address
    pub addr: HashMap<String, u64>,
    pub faddr: HashMap<u64, u32>,  // address -> func
    pub eaddr: HashMap<u64, u32>,  // address -> ext
    pub first_free_obj: u64,
    pub ninstr: u64,
}

pub const OBJ_SHIFT: u64 = 32;

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn new(s: &'a str) -> Self {
        P { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() { self.s[self.i] } else { 0 }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let sv = self.i;
        let w = self.word();
        self.i = sv;
        w
    }
    fn eat_word(&mut self, t: &str) -> bool {
        let sv = self.i;
        if self.word() == t {
            true
        } else {
            self.i = sv;
            false
        }
    }
    /// name after % or @ (maybe quoted)
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string()
        }
    }
    fn skip_group(&mut self, open: u8, close: u8) {
        let mut d = 0;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b'"' {
                self.i += 1;
                while self.i < self.s.len() && self.s[self.i] != b'"' {
                    self.i += 1;
                }
            } else if c == open {
                d += 1;
            } else if c == close {
                d -= 1;
                if d == 0 {
                    self.i += 1;
                    return;
                }
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> u64 {
        self.word().parse().unwrap()
    }
    fn rest(&self) -> &'a str {
        std::str::from_utf8(&self.s[self.i.min(self.s.len())..]).unwrap_or("")
    }
    fn at_type(&mut self) -> bool {
        let c = self.peek();
        if c == b'[' || c == b'{' || c == b'<' || c == b'%' {
            return true;
        }
        let w = self.peek_word();
        if w == "void" || w == "ptr" || w == "float" || w == "double" || w == "metadata" || w == "label" || w == "token" || w == "half" || w == "fp128" {
            return true;
        }
        w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit())
    }
    /// skip attribute words until a type starts
    fn skip_to_type(&mut self) {
        while !self.at_type() {
            if self.i >= self.s.len() {
                panic!("no type in: {}", String::from_utf8_lossy(self.s));
            }
            self.skip_attr();
        }
    }
    fn skip_attr(&mut self) {
        let c = self.peek();
        if c == b'"' {
            self.name();
            if self.peek() == b'=' {
                self.i += 1;
                self.name();
            }
            return;
        }
        if c == b'#' {
            self.i += 1;
            self.word();
            return;
        }
        let w = self.word();
        if w.is_empty() {
            self.i += 1;
            return;
        }
        if w == "align" || w == "cc" {
            if self.peek() == b'(' {
                self.skip_group(b'(', b')');
            } else {
                self.word();
            }
            return;
        }
        if self.i < self.s.len() && self.s[self.i] == b'(' {
            self.skip_group(b'(', b')');
        }
    }
}

fn mask(w: u32) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}

impl Types {
    fn parse(&mut self, p: &mut P) -> Ty {
        match p.peek() {
            b'[' => {
                p.eat("[");
                let n = p.num();
                p.eat("x");
                let t = self.parse(p);
                p.eat("]");
                self.intern(TyK::Arr(n, t))
            }
            b'{' => {
                p.eat("{");
                let mut v = vec![];
                while !p.eat("}") {
                    v.push(self.parse(p));
                    p.eat(",");
                }
                self.intern(TyK::Struct(v, false))
            }
            b'<' => {
                p.eat("<");
                if p.eat("{") {
                    let mut v = vec![];
                    while !p.eat("}") {
                        v.push(self.parse(p));
                        p.eat(",");
                    }
                    p.eat(">");
                    self.intern(TyK::Struct(v, true))
                } else {
                    let n = p.num();
                    p.eat("x");
                    let t = self.parse(p);
                    p.eat(">");
                    self.intern(TyK::Vector(n, t))
                }
            }
            b'%' => {
                p.eat("%");
                let n = p.name();
                *self.named.get(&n).unwrap_or_else(|| panic!("named type {}", n))
            }
            _ => {
                let w = p.word();
                match w {
                    "void" => self.intern(TyK::Void),
                    "ptr" => self.intern(TyK::Ptr),
                    "float" => self.intern(TyK::F32),
                    "double" => self.intern(TyK::F64),
                    "metadata" | "label" | "token" | "half" | "fp128" => self.intern(TyK::Other),
                    _ => {
                        let n: u32 = w[1..].parse().unwrap_or_else(|_| panic!("type {} in {}", w, String::from_utf8_lossy(p.s)));
                        self.intern(TyK::Int(n))
                    }
                }
            }
        }
    }
}

struct FnCtx {
    slots: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl FnCtx {
    fn slot(&mut self, n: &str) -> u32 {
        let k = self.slots.len() as u32;
        *self.slots.entry(n.to_string()).or_insert(k)
    }
    fn block(&self, n: &str) -> u32 {
        *self.blocks.get(n).unwrap_or_else(|| panic!("block {}", n))
    }
}

impl Module {
    pub fn zero(&self, t: Ty) -> V {
        match self.types.kind(t) {
            TyK::Arr(n, e) => {
                let z = self.zero(*e);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            TyK::Vector(n, e) => {
                let z = self.zero(*e);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            TyK::Struct(ts, _) => V::A(Rc::new(ts.iter().map(|t| self.zero(*t)).collect())),
            _ => V::C(0),
        }
    }

    fn value(&mut self, p: &mut P, ty: Ty, f: Option<&mut FnCtx>) -> Op {
        let c = p.peek();
        if c == b'%' {
            p.eat("%");
            let n = p.name();
            return Op::Slot(f.unwrap().slot(&n));
        }
        Op::K(self.konst(p, ty))
    }

    fn konst(&mut self, p: &mut P, ty: Ty) -> V {
        let c = p.peek();
        match c {
            b'@' => {
                p.eat("@");
                let n = p.name();
                let a = *self.addr.get(&n).unwrap_or_else(|| panic!("symbol {}", n));
                return V::C(a as u128);
            }
            b'c' if p.s[p.i + 1] == b'"' => {
                p.i += 2;
                let mut v = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' {
                        if p.s[p.i + 1] == b'\\' {
                            v.push(V::C(b'\\' as u128));
                            p.i += 2;
                        } else {
                            let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                            v.push(V::C(u8::from_str_radix(h, 16).unwrap() as u128));
                            p.i += 3;
                        }
                    } else {
                        v.push(V::C(p.s[p.i] as u128));
                        p.i += 1;
                    }
                }
                p.i += 1;
                return V::A(Rc::new(v));
            }
            b'[' => {
                p.eat("[");
                let mut v = vec![];
                while !p.eat("]") {
                    let t = self.types.parse(p);
                    v.push(self.konst(p, t));
                    p.eat(",");
                }
                return V::A(Rc::new(v));
            }
            b'{' => {
                p.eat("{");
                let mut v = vec![];
                while !p.eat("}") {
                    let t = self.types.parse(p);
                    v.push(self.konst(p, t));
                    p.eat(",");
                }
                return V::A(Rc::new(v));
            }
            b'<' => {
                p.eat("<");
                let packed = p.eat("{");
                let end = if packed { "}" } else { ">" };
                let mut v = vec![];
                while !p.eat(end) {
                    let t = self.types.parse(p);
                    v.push(self.konst(p, t));
                    p.eat(",");
                }
                if packed {
                    p.eat(">");
                }
                return V::A(Rc::new(v));
            }
            _ => {}
        }
        let w = p.word();
        match w {
            "null" | "none" => V::C(0),
            "true" => V::C(1),
            "false" => V::C(0),
            "undef" | "poison" | "zeroinitializer" => self.zero(ty),
            "splat" => {
                p.eat("(");
                let t = self.types.parse(p);
                let v = self.konst(p, t);
                p.eat(")");
                let n = match self.types.kind(ty) {
                    TyK::Vector(n, _) => *n,
                    TyK::Arr(n, _) => *n,
                    _ => panic!("splat"),
                };
                V::A(Rc::new(vec![v; n as usize]))
            }
            "getelementptr" => {
                while p.peek() != b'(' {
                    p.skip_attr_gep();
                }
                p.eat("(");
                let t = self.types.parse(p);
                p.eat(",");
                let bt = self.types.parse(p);
                let base = self.konst(p, bt).c() as u64;
                let mut off = base;
                let mut cur = t;
                let mut first = true;
                while p.eat(",") {
                    p.eat_word("inrange");
                    let it = self.types.parse(p);
                    let iv = self.konst(p, it).c();
                    let b = self.types.bits(it);
                    let sv = sext64(iv, b);
                    if first {
                        off = off.wrapping_add((sv as u64).wrapping_mul(self.types.size(cur)));
                        first = false;
                    } else {
                        match self.types.kind(cur).clone() {
                            TyK::Struct(ts, _) => {
                                off = off.wrapping_add(self.types.info[cur as usize].offs[sv as usize]);
                                cur = ts[sv as usize];
                            }
                            TyK::Arr(_, e) | TyK::Vector(_, e) => {
                                off = off.wrapping_add((sv as u64).wrapping_mul(self.types.size(e)));
                                cur = e;
                            }
                            _ => panic!("gep const"),
                        }
                    }
                }
                p.eat(")");
                V::C(off as u128)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                p.eat("(");
                let t = self.types.parse(p);
                let v = self.konst(p, t).c();
                assert!(p.eat_word("to"));
                let t2 = self.types.parse(p);
                p.eat(")");
                let b = self.types.bits(t2);
                V::C(v & mask(b))
            }
            "add" | "sub" | "xor" => {
                while p.peek() != b'(' {
                    p.word();
                }
                p.eat("(");
                let t = self.types.parse(p);
                let a = self.konst(p, t).c();
                p.eat(",");
                let t2 = self.types.parse(p);
                let b = self.konst(p, t2).c();
                p.eat(")");
                let m = mask(self.types.bits(t));
                V::C(match w {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    _ => a ^ b,
                } & m)
            }
            "dso_local_equivalent" | "no_cfi" => {
                p.eat("@");
                let n = p.name();
                V::C(self.addr[&n] as u128)
            }
            _ => {
                if w.starts_with("0x") {
                    let v = u64::from_str_radix(&w[2..], 16).unwrap();
                    return match self.types.kind(ty) {
                        TyK::F32 => V::C((f64::from_bits(v) as f32).to_bits() as u128),
                        _ => V::C(v as u128),
                    };
                }
                match self.types.kind(ty) {
                    TyK::F32 | TyK::F64 => {
                        let mut t = w.to_string();
                        if p.i < p.s.len() && p.s[p.i] == b'+' {
                            p.i += 1;
                            t.push_str(p.word());
                        }
                        // nan(0x..) and the like
                        if t.ends_with("nan") && p.i < p.s.len() && p.s[p.i] == b'(' {
                            while !p.eat(")") {
                                p.i += 1;
                            }
                        }
                        let neg = t.starts_with('-');
                        let bare = t.trim_start_matches(['+', '-']);
                        if matches!(bare, "qnan" | "snan" | "nan" | "inf") {
                            let d = if bare == "inf" { f64::INFINITY } else { f64::from_bits(0x7ff8 << 48) };
                            let d = if neg { -d } else { d };
                            return V::C(if matches!(self.types.kind(ty), TyK::F32) { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 });
                        }
                        if let Some(h) = bare.strip_prefix("f0x") {
                            return V::C(u128::from_str_radix(h, 16).unwrap());
                        }
                        let d: f64 = t.parse().unwrap_or_else(|_| panic!("float {} in {}", t, String::from_utf8_lossy(p.s)));
                        if matches!(self.types.kind(ty), TyK::F32) {
                            V::C((d as f32).to_bits() as u128)
                        } else {
                            V::C(d.to_bits() as u128)
                        }
                    }
                    _ => {
                        let b = self.types.bits(ty);
                        let v: i128 = match w.parse::<i128>() {
                            Ok(v) => v,
                            Err(_) => match w.parse::<u128>() {
                                Ok(v) => v as i128,
                                Err(_) => panic!("const '{}' in {}", w, String::from_utf8_lossy(p.s)),
                            },
                        };
                        V::C((v as u128) & mask(b))
                    }
                }
            }
        }
    }

    fn tyval(&mut self, p: &mut P, f: &mut FnCtx) -> (Ty, Op) {
        let t = self.types.parse(p);
        let v = self.value(p, t, Some(f));
        (t, v)
    }

    pub fn parse(src: &str) -> Module {
        let mut m = Module {
            types: Types::default(),
            funcs: vec![],
            fmap: HashMap::new(),
            exts: vec![],
            emap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            addr: HashMap::new(),
            faddr: HashMap::new(),
            eaddr: HashMap::new(),
            first_free_obj: 0,
            ninstr: 0,
        };
        m.types.intern(TyK::Void);
        let lines: Vec<&str> = src.lines().collect();
        let mut next = 16u64;
        // pass 1: named types, symbols
        let mut gl: Vec<usize> = vec![];
        let mut fl: Vec<usize> = vec![];
        let mut al: Vec<usize> = vec![];
        let mut infn = false;
        for (i, l) in lines.iter().enumerate() {
            if infn {
                if l.starts_with('}') {
                    infn = false;
                }
                continue;
            }
            if l.starts_with('%') {
                let mut p = P::new(l);
                p.eat("%");
                let n = p.name();
                p.eat("=");
                p.eat_word("type");
                if p.peek_word() == "opaque" {
                    let t = m.types.intern(TyK::Other);
                    m.types.named.insert(n, t);
                } else {
                    let t = m.types.parse(&mut p);
                    m.types.named.insert(n, t);
                }
            } else if l.starts_with('@') {
                let mut p = P::new(l);
                p.eat("@");
                let n = p.name();
                if l.contains(" alias ") && !l.contains("c\"") {
                    al.push(i);
                    continue;
                }
                m.addr.insert(n, next << OBJ_SHIFT);
                next += 1;
                gl.push(i);
            } else if l.starts_with("define") || l.starts_with("declare") {
                let n = fname(l);
                m.addr.insert(n.clone(), next << OBJ_SHIFT);
                if l.starts_with("define") {
                    m.faddr.insert(next << OBJ_SHIFT, fl.len() as u32);
                    m.fmap.insert(n, fl.len() as u32);
                    fl.push(i);
                    infn = true;
                } else {
                    // extern_weak symbols resolve to null (std then takes its portable path)
                    if l.contains(" extern_weak ") {
                        m.addr.insert(n.clone(), 0);
                    }
                    let id = m.exts.len() as u32;
                    m.eaddr.insert(next << OBJ_SHIFT, id);
                    m.emap.insert(n.clone(), id);
                    m.exts.push(n);
                }
                next += 1;
            }
        }
        for i in al {
            // @x = alias T, ptr @y
            let l = lines[i];
            let mut p = P::new(l);
            p.eat("@");
            let n = p.name();
            let k = l.rfind('@').unwrap();
            let mut q = P { s: l.as_bytes(), i: k + 1 };
            let t = q.name();
            if let Some(a) = m.addr.get(&t).cloned() {
                m.addr.insert(n.clone(), a);
                if let Some(f) = m.fmap.get(&t).cloned() {
                    m.fmap.insert(n, f);
                }
            }
        }
        // globals
        for i in gl {
            let l = lines[i];
            let mut p = P::new(l);
            p.eat("@");
            let n = p.name();
            p.eat("=");
            let mut constant = false;
            let mut external = false;
            loop {
                let w = p.peek_word();
                if w == "global" || w == "constant" {
                    constant = w == "constant";
                    p.word();
                    break;
                }
                if w == "external" || w == "extern_weak" {
                    external = true;
                }
                p.skip_attr();
            }
            let ty = m.types.parse(&mut p);
            let a = m.addr[&n];
            let init = if external { None } else { Some(m.konst(&mut p, ty)) };
            let size = m.types.size(ty);
            m.gmap.insert(n.clone(), m.globals.len() as u32);
            m.globals.push(Global { name: n, addr: a, size, constant, init, ty });
        }
        for i in fl {
            let f = m.parse_fn(&lines, i);
            m.funcs.push(f);
        }
        m.first_free_obj = next;
        m
    }

    fn parse_fn(&mut self, lines: &[&str], at: usize) -> Func {
        let l = lines[at];
        let mut f = Func::default();
        f.name = fname(l);
        f.own = f.name.contains("8obsidian") && !f.name.contains("drop_glue");
        let mut cx = FnCtx { slots: HashMap::new(), blocks: HashMap::new() };
        // params
        let k = l.find(&format!("@{}(", f.name)).map(|x| x + f.name.len() + 2)
            .or_else(|| l.find(&format!("@\"{}\"(", f.name)).map(|x| x + f.name.len() + 4)).unwrap();
        let mut p = P { s: l.as_bytes(), i: k };
        let mut unnamed = 0u32;
        while p.peek() != b')' {
            if p.eat("...") {
                break;
            }
            let _t = self.types.parse(&mut p);
            while p.peek() != b'%' && p.peek() != b',' && p.peek() != b')' {
                p.skip_attr();
            }
            let n = if p.eat("%") { p.name() } else { format!("{}", unnamed) };
            if n.chars().all(|c| c.is_ascii_digit()) {
                unnamed += 1;
            }
            f.params.push(cx.slot(&n));
            p.eat(",");
        }
        // collect body lines
        let mut j = at + 1;
        let mut body: Vec<(usize, String)> = vec![];
        let mut order: Vec<String> = vec![];
        let mut cur: Option<u32> = None;
        while !lines[j].starts_with('}') {
            let l = lines[j];
            j += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let mut p = P::new(l);
                let n = p.name();
                cur = Some(order.len() as u32);
                cx.blocks.insert(n.clone(), order.len() as u32);
                order.push(n);
                continue;
            }
            if cur.is_none() {
                let n = format!("{}", unnamed);
                cx.blocks.insert(n.clone(), 0);
                order.push(n);
                cur = Some(0);
            }
            let t = l.trim_start();
            if t.starts_with("#dbg") {
                continue;
            }
            if t.starts_with("switch ") {
                let mut s = t.to_string();
                if !s.trim_end().ends_with(']') && !s.contains("]") {
                    loop {
                        let l2 = lines[j];
                        j += 1;
                        s.push(' ');
                        s.push_str(l2.trim());
                        if l2.trim_start().starts_with(']') {
                            break;
                        }
                    }
                }
                body.push((cur.unwrap() as usize, s));
            } else if t.contains("invoke ") && !t.contains(" to label ") {
                let mut s = t.to_string();
                s.push(' ');
                s.push_str(lines[j].trim());
                j += 1;
                body.push((cur.unwrap() as usize, s));
            } else if t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                continue;
            } else {
                body.push((cur.unwrap() as usize, t.to_string()));
            }
        }
        f.blocks = order.iter().map(|n| Block { name: n.clone(), ..Default::default() }).collect();
        for (b, s) in body {
            let blk = b;
            if let Some((d, inc)) = self.parse_phi(&s, &mut cx) {
                f.blocks[blk].phis.push((d, inc));
                continue;
            }
            // what it cannot read is an error only where it is reached
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.parse_ins(&s, &mut cx)));
            let ins = r.unwrap_or_else(|_| I::Unsupported(s.to_string()));
            if std::env::var("OBSYM_UNREAD").is_ok() {
                if let I::Unsupported(s) = &ins {
                    eprintln!("not read: {}", s);
                }
            }
            self.ninstr += 1;
            if !matches!(ins, I::Nop) {
                f.blocks[blk].ins.push(ins);
            }
        }
        for b in f.blocks.iter_mut() {
            let mut edges: Vec<(u32, Vec<(u32, Op)>)> = vec![];
            for (d, inc) in &b.phis {
                for (pb, op) in inc {
                    match edges.iter_mut().find(|e| e.0 == *pb) {
                        Some(e) => {
                            if !e.1.iter().any(|x| x.0 == *d) {
                                e.1.push((*d, op.clone()))
                            }
                        }
                        None => edges.push((*pb, vec![(*d, op.clone())])),
                    }
                }
            }
            b.edges = edges;
        }
        f.nslots = cx.slots.len() as u32;
        f
    }

    fn parse_phi(&mut self, s: &str, cx: &mut FnCtx) -> Option<(u32, Vec<(u32, Op)>)> {
        let k = s.find(" = phi ")?;
        if !s.starts_with('%') || s[..k].contains(' ') && !s.starts_with("%\"") {
            return None;
        }
        let mut p = P::new(s);
        p.eat("%");
        let n = p.name();
        let d = cx.slot(&n);
        p.eat("=");
        p.eat_word("phi");
        p.skip_to_type();
        let t = self.types.parse(&mut p);
        let mut v = vec![];
        while p.eat("[") {
            let o = self.value(&mut p, t, Some(cx));
            p.eat(",");
            p.eat("%");
            let b = p.name();
            p.eat("]");
            v.push((cx.block(&b), o));
            if !p.eat(",") {
                break;
            }
            if p.peek() != b'[' {
                break;
            }
        }
        Some((d, v))
    }

    fn label(&mut self, p: &mut P, cx: &FnCtx) -> u32 {
        p.eat_word("label");
        p.eat("%");
        let n = p.name();
        cx.block(&n)
    }

    fn parse_ins(&mut self, s: &str, cx: &mut FnCtx) -> I {
        let mut p = P::new(s);
        let mut d = NOSLOT;
        if p.peek() == b'%' {
            p.eat("%");
            let n = p.name();
            d = cx.slot(&n);
            p.eat("=");
        }
        let mut opc = p.word();
        if opc == "tail" || opc == "musttail" || opc == "notail" {
            opc = p.word();
        }
        let binop = match opc {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            _ => None,
        };
        if let Some(op) = binop {
            p.skip_to_type();
            let t = self.types.parse(&mut p);
            let a = self.value(&mut p, t, Some(cx));
            p.eat(",");
            let b = self.value(&mut p, t, Some(cx));
            let w = self.scalar_bits(t);
            return I::Bin { op, w, a, b, d };
        }
        match opc {
            "icmp" => {
                let mut w = p.word();
                if w == "samesign" {
                    w = p.word();
                }
                let pr = match w {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => panic!("icmp {}", w),
                };
                let t = self.types.parse(&mut p);
                let a = self.value(&mut p, t, Some(cx));
                p.eat(",");
                let b = self.value(&mut p, t, Some(cx));
                I::Icmp { p: pr, w: self.scalar_bits(t), a, b, d }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
                p.skip_to_type();
                let from = self.types.parse(&mut p);
                let a = self.value(&mut p, from, Some(cx));
                assert!(p.eat_word("to"), "{}", s);
                let to = self.types.parse(&mut p);
                let k = match opc {
                    "zext" => CastK::Zext,
                    "sext" => CastK::Sext,
                    "trunc" => CastK::Trunc,
                    "bitcast" => CastK::BitVec,
                    _ => {
                        let (x, y) = (self.types.bits(from), self.types.bits(to));
                        if x < y { CastK::Zext } else if x > y { CastK::Trunc } else { CastK::Same }
                    }
                };
                I::Cast { k, from, to, a, d }
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "fneg" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                p.skip_to_type();
                let from = self.types.parse(&mut p);
                let mut a = vec![self.value(&mut p, from, Some(cx))];
                let mut to = from;
                if p.eat_word("to") {
                    to = self.types.parse(&mut p);
                } else if p.eat(",") {
                    a.push(self.value(&mut p, from, Some(cx)));
                }
                I::Float { op: opc.to_string(), from, to, a, d }
            }
            "fcmp" => {
                let mut w = p.word();
                while ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"].contains(&w) {
                    w = p.word();
                }
                let op = format!("fcmp {}", w);
                let from = self.types.parse(&mut p);
                let x = self.value(&mut p, from, Some(cx));
                p.eat(",");
                let y = self.value(&mut p, from, Some(cx));
                I::Float { op, from, to: from, a: vec![x, y], d }
            }
            "getelementptr" => {
                p.skip_to_type();
                let t = self.types.parse(&mut p);
                p.eat(",");
                let (_, base) = self.tyval(&mut p, cx);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    let (it, iv) = self.tyval(&mut p, cx);
                    let b = self.types.bits(it);
                    let scale;
                    if first {
                        scale = self.types.size(cur);
                        first = false;
                    } else {
                        match self.types.kind(cur).clone() {
                            TyK::Struct(ts, _) => {
                                let k = match &iv { Op::K(v) => v.c() as usize, _ => panic!("gep struct idx") };
                                off = off.wrapping_add(self.types.info[cur as usize].offs[k]);
                                cur = ts[k];
                                continue;
                            }
                            TyK::Arr(_, e) | TyK::Vector(_, e) => {
                                scale = self.types.size(e);
                                cur = e;
                            }
                            _ => panic!("gep: {}", s),
                        }
                    }
                    match iv {
                        Op::K(V::C(k)) => off = off.wrapping_add((sext64(k, b) as u64).wrapping_mul(scale)),
                        o => idx.push((o, b, scale)),
                    }
                }
                I::Gep { base, off, idx, d }
            }
            "load" => {
                if p.peek_word() == "atomic" { p.word(); }
                if p.peek_word() == "volatile" { p.word(); }
                let ty = self.types.parse(&mut p);
                p.eat(",");
                let (_, a) = self.tyval(&mut p, cx);
                I::Load { ty, p: a, d }
            }
            "store" => {
                if p.peek_word() == "atomic" { p.word(); }
                if p.peek_word() == "volatile" { p.word(); }
                let (ty, v) = self.tyval(&mut p, cx);
                p.eat(",");
                let (_, a) = self.tyval(&mut p, cx);
                I::Store { ty, v, p: a }
            }
            "alloca" => {
                p.eat_word("inalloca");
                let ty = self.types.parse(&mut p);
                let mut n = Op::K(V::C(1));
                if p.eat(",") && p.at_type() {
                    n = self.tyval(&mut p, cx).1;
                }
                I::Alloca { size: self.types.size(ty), n, d }
            }
            "br" => {
                if p.peek_word() == "label" {
                    I::Br { t: self.label(&mut p, cx) }
                } else {
                    let (_, c) = self.tyval(&mut p, cx);
                    p.eat(",");
                    let t = self.label(&mut p, cx);
                    p.eat(",");
                    let f = self.label(&mut p, cx);
                    I::CBr { c, t, f }
                }
            }
            "switch" => {
                let (t, v) = self.tyval(&mut p, cx);
                p.eat(",");
                let def = self.label(&mut p, cx);
                p.eat("[");
                let mut cases = vec![];
                while !p.eat("]") {
                    let ct = self.types.parse(&mut p);
                    let k = self.konst(&mut p, ct).c();
                    p.eat(",");
                    let b = self.label(&mut p, cx);
                    cases.push((k, b));
                }
                I::Switch { w: self.types.bits(t), v, def, cases }
            }
            "ret" => {
                if p.peek_word() == "void" {
                    I::Ret { v: None }
                } else {
                    let (_, v) = self.tyval(&mut p, cx);
                    I::Ret { v: Some(v) }
                }
            }
            "unreachable" => I::Unreachable,
            "call" | "invoke" => {
                p.skip_to_type();
                let ret = self.types.parse(&mut p);
                if p.peek() == b'(' {
                    // could be function type of a vararg callee
                    p.skip_group(b'(', b')');
                }
                let callee;
                if p.peek() == b'@' {
                    p.eat("@");
                    let n = p.name();
                    if let Some(f) = self.fmap.get(&n) {
                        callee = Callee::Func(*f);
                    } else if let Some(e) = self.emap.get(&n) {
                        callee = Callee::Ext(*e);
                    } else {
                        panic!("callee {}", n);
                    }
                } else if p.peek() == b'%' {
                    p.eat("%");
                    let n = p.name();
                    callee = Callee::Ind(Op::Slot(cx.slot(&n)));
                } else if p.peek_word() == "asm" {
                    callee = Callee::Asm;
                    return if matches!(self.types.kind(ret), TyK::Void) { I::Nop } else if s.contains("cpuid") { I::Cpuid { d } } else if s.contains("inteldialect \"/*${0:") {
                        // an optimisation barrier: an empty text that returns its operand
                        let at = s.find("\"(").unwrap() + 2;
                        let mut p = P { s: s.as_bytes(), i: at };
                        let t = self.types.parse(&mut p);
                        while !matches!(p.peek(), b'%' | b'@' | b'-' | b'0'..=b'9') {
                            p.skip_attr();
                        }
                        let a = self.value(&mut p, t, Some(cx));
                        I::Cast { k: CastK::Same, from: t, to: t, a, d }
                    } else { I::Unsupported(s.to_string()) };
                } else {
                    let pt = self.types.intern(TyK::Ptr);
                    let k = self.konst(&mut p, pt);
                    callee = Callee::Ind(Op::K(k));
                }
                if !p.eat("(") {
                    panic!("call args: {}", s);
                }
                let mut args = vec![];
                let mut argw = vec![];
                let mut meta = false;
                while !p.eat(")") {
                    let t = self.types.parse(&mut p);
                    if matches!(self.types.kind(t), TyK::Other) {
                        meta = true;
                        break;
                    }
                    // attributes
                    loop {
                        let c = p.peek();
                        if c == b'%' || c == b'@' || c == b'{' || c == b'<' || c == b'[' || c == b'-' || c.is_ascii_digit() {
                            break;
                        }
                        let w = p.peek_word();
                        if matches!(w, "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint") {
                            break;
                        }
                        if c == b'c' && p.s[p.i + 1] == b'"' {
                            break;
                        }
                        if w.starts_with("f0x") || c == b'+' || matches!(w, "inf" | "nan" | "qnan" | "snan") {
                            break;
                        }
                        p.skip_attr();
                    }
                    let v = self.value(&mut p, t, Some(cx));
                    args.push(v);
                    argw.push(self.types.bits(t));
                    p.eat(",");
                }
                if meta {
                    return I::Nop;
                }
                if let Callee::Ext(e) = callee {
                    let n = &self.exts[e as usize];
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.donothing") || n.starts_with("llvm.prefetch") {
                        return I::Nop;
                    }
                }
                let mut normal = NOSLOT;
                if opc == "invoke" {
                    let rest = p.rest();
                    let k = rest.find("to label %").expect("invoke");
                    let mut q = P { s: rest.as_bytes(), i: k + 3 };
                    normal = self.label(&mut q, cx);
                }
                I::Call { c: callee, args, argw, d, ret, normal }
            }
            "select" => {
                p.skip_to_type();
                let (_, c) = self.tyval(&mut p, cx);
                p.eat(",");
                let (t, a) = self.tyval(&mut p, cx);
                p.eat(",");
                let (_, b) = self.tyval(&mut p, cx);
                I::Select { ptr: matches!(self.types.kind(t), TyK::Ptr), ty: t, c, a, b, d }
            }
            "extractvalue" => {
                let (_, a) = self.tyval(&mut p, cx);
                let mut idx = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' { break; }
                    idx.push(p.num() as u32);
                }
                I::ExtractV { a, idx, d }
            }
            "insertvalue" => {
                let (_, a) = self.tyval(&mut p, cx);
                p.eat(",");
                let (_, v) = self.tyval(&mut p, cx);
                let mut idx = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' { break; }
                    idx.push(p.num() as u32);
                }
                I::InsertV { a, v, idx, d }
            }
            "extractelement" => {
                let (_, a) = self.tyval(&mut p, cx);
                p.eat(",");
                let (_, i) = self.tyval(&mut p, cx);
                I::ExtractE { a, i, d }
            }
            "insertelement" => {
                let (_, a) = self.tyval(&mut p, cx);
                p.eat(",");
                let (_, v) = self.tyval(&mut p, cx);
                p.eat(",");
                let (_, i) = self.tyval(&mut p, cx);
                I::InsertE { a, v, i, d }
            }
            "shufflevector" => {
                let (t, a) = self.tyval(&mut p, cx);
                p.eat(",");
                let (_, b) = self.tyval(&mut p, cx);
                p.eat(",");
                let mt = self.types.parse(&mut p);
                let mk = self.konst(&mut p, mt);
                let n = match self.types.kind(t) { TyK::Vector(n, _) => *n as u32, _ => panic!() };
                let mask = match mk { V::A(v) => v.iter().map(|x| x.c() as u32).collect(), _ => panic!() };
                I::Shuffle { a, b, mask, d, n }
            }
            "atomicrmw" => {
                if p.peek_word() == "volatile" { p.word(); }
                let op = match p.word() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    "nand" => RmwOp::Nand,
                    w => panic!("rmw {}", w),
                };
                let (_, a) = self.tyval(&mut p, cx);
                p.eat(",");
                let (ty, v) = self.tyval(&mut p, cx);
                I::Rmw { op, ty, p: a, v, d }
            }
            "cmpxchg" => {
                while p.peek_word() == "weak" || p.peek_word() == "volatile" { p.word(); }
                let (_, a) = self.tyval(&mut p, cx);
                p.eat(",");
                let (ty, c) = self.tyval(&mut p, cx);
                p.eat(",");
                let (_, n) = self.tyval(&mut p, cx);
                I::CmpXchg { ty, p: a, c, n, d }
            }
            "fence" => I::Nop,
            "freeze" => {
                let (_, a) = self.tyval(&mut p, cx);
                I::Freeze { a, d }
            }
            "landingpad" => I::LandingPad { d },
            "resume" => I::Resume,
            _ => I::Unsupported(s.to_string()),
        }
    }

    pub fn scalar_bits(&self, t: Ty) -> u32 {
        match self.types.kind(t) {
            TyK::Vector(_, e) => self.types.bits(*e),
            _ => self.types.bits(t),
        }
    }
}

impl<'a> P<'a> {
    fn skip_attr_gep(&mut self) {
        let w = self.word();
        if w == "inrange" && self.peek() == b'(' {
            self.skip_group(b'(', b')');
        }
    }
}

pub fn sext64(v: u128, bits: u32) -> i64 {
    if bits >= 64 {
        v as u64 as i64
    } else {
        let s = 64 - bits;
        (((v as u64) << s) as i64) >> s
    }
}

fn fname(l: &str) -> String {
    let b = l.as_bytes();
    // first '@' outside parens
    let mut depth = 0;
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'(' => depth += 1,
            b')' => depth -= 1,
            b'@' if depth == 0 => {
                let mut p = P { s: b, i: i + 1 };
                return p.name();
            }
            _ => {}
        }
        i += 1;
    }
    panic!("fname {}", l)
}
