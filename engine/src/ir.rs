//! LLVM textual IR: module index, lazy function decoding into a compact register form.
use crate::fx::FxHashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, TyId),
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Meta,
    Token,
    Other,
}

#[derive(Clone, Debug)]
pub struct TyInfo {
    pub ty: Ty,
    pub size: u64,
    pub align: u64,
    pub offs: Rc<Vec<u64>>,
}

#[derive(Default)]
pub struct Types {
    pub infos: Vec<TyInfo>,
    map: FxHashMap<Ty, TyId>,
}
fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
impl Types {
    pub fn get(&mut self, ty: Ty) -> TyId {
        if let Some(&i) = self.map.get(&ty) {
            return i;
        }
        let mut offs = vec![];
        let (size, align) = match &ty {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Token | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                (align_up(b, a), a)
            }
            Ty::Ptr | Ty::F64 => (8, 8),
            Ty::F32 => (4, 4),
            Ty::Vec(n, e) => {
                let bits = match self.infos[*e as usize].ty {
                    Ty::Int(w) => w as u64,
                    _ => self.infos[*e as usize].size * 8,
                };
                let b = (bits * *n as u64 + 7) / 8;
                let a = b.next_power_of_two();
                (align_up(b, a), a)
            }
            Ty::Arr(n, e) => {
                let i = &self.infos[*e as usize];
                (i.size * n, i.align)
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs {
                    let i = &self.infos[*f as usize];
                    if !packed {
                        o = align_up(o, i.align);
                        al = al.max(i.align);
                    }
                    offs.push(o);
                    o += i.size;
                }
                (align_up(o, al), al)
            }
        };
        let id = self.infos.len() as TyId;
        self.infos.push(TyInfo { ty: ty.clone(), size, align, offs: Rc::new(offs) });
        self.map.insert(ty, id);
        id
    }
    pub fn i(&self, t: TyId) -> &TyInfo {
        &self.infos[t as usize]
    }
    /// scalar bit width (ints, pointers, floats)
    pub fn width(&self, t: TyId) -> u32 {
        match self.i(t).ty {
            Ty::Int(w) => w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self, t: TyId) -> bool {
        matches!(self.i(t).ty, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

/// A value in the interpreter. `C` is zero-extended to 64 bits.
#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}

/// operand: >=0 register, <0 constant index -(x+1)
pub type Op = i32;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Debug, Clone)]
pub struct Edge {
    pub target: u32, // pc
    pub moves: Rc<Vec<(u32, Op)>>,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Direct(u32), // symbol id
    Indirect(Op),
    Nop,
}

#[derive(Debug, Clone)]
pub struct CallI {
    pub dst: i32, // -1 none
    pub callee: Callee,
    pub args: Vec<Op>,
    pub argw: Vec<u32>,
    pub ret: TyId,
    pub normal: Option<Edge>, // invoke
}

#[derive(Debug, Clone)]
pub enum I {
    Bin { op: BinOp, w: u32, dst: u32, a: Op, b: Op },
    BinV { op: BinOp, w: u32, n: u32, dst: u32, a: Op, b: Op },
    ICmp { p: Pred, w: u32, dst: u32, a: Op, b: Op },
    ICmpV { p: Pred, w: u32, n: u32, dst: u32, a: Op, b: Op },
    /// mask: bit0 = lt, bit1 = eq, bit2 = gt, bit3 = unordered
    FCmp { mask: u8, w: u32, dst: u32, a: Op, b: Op },
    FNeg { w: u32, dst: u32, a: Op },
    Cast { op: CastOp, fw: u32, tw: u32, dst: u32, a: Op },
    CastV { op: CastOp, fw: u32, tw: u32, n: u32, dst: u32, a: Op },
    BitCast { from: TyId, to: TyId, dst: u32, a: Op },
    Load { dst: u32, p: Op, nb: u32, w: u32 },
    LoadT { dst: u32, p: Op, ty: TyId },
    Store { p: Op, v: Op, nb: u32, w: u32 },
    StoreT { p: Op, v: Op, ty: TyId },
    Gep { dst: u32, base: Op, off: u64, terms: Rc<Vec<(Op, u64, u32)>> },
    Alloca { dst: u32, size: u64, n: Op, align: u64 },
    Br(Edge),
    CondBr { c: Op, t: Edge, f: Edge },
    Switch { v: Op, w: u32, def: Edge, cases: Rc<Vec<(u64, Edge)>> },
    Ret { v: Op },
    RetVoid,
    Unreachable,
    Call(Box<CallI>),
    Select { dst: u32, w: u32, c: Op, a: Op, b: Op },
    SelectV { dst: u32, w: u32, n: u32, c: Op, a: Op, b: Op },
    SelectA { dst: u32, c: Op, a: Op, b: Op },
    ExtractValue { dst: u32, a: Op, idx: Rc<Vec<u32>> },
    InsertValue { dst: u32, a: Op, v: Op, idx: Rc<Vec<u32>> },
    ExtractElem { dst: u32, a: Op, i: Op },
    InsertElem { dst: u32, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, a: Op, b: Op, n: u32, mask: Rc<Vec<u32>> },
    Copy { dst: u32, a: Op },
    AtomicRmw { dst: u32, p: Op, v: Op, w: u32, op: RmwOp },
    CmpXchg { dst: u32, p: Op, old: Op, new: Op, w: u32 },
    Nop,
    Unsupported(Rc<str>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

pub struct Func {
    pub name: String,
    pub sym: u32,
    pub nregs: u32,
    pub nargs: u32,
    pub consts: Vec<Val>,
    pub code: Vec<I>,
}

pub struct Module {
    pub path: String,
    pub text: &'static [u8],
    pub funcs: FxHashMap<&'static str, (usize, usize)>,
    pub globals: FxHashMap<&'static str, usize>,
    pub aliases: FxHashMap<&'static str, usize>,
    pub types: FxHashMap<&'static str, usize>,
    pub named_ty: FxHashMap<&'static str, TyId>,
}

extern "C" {
    fn memchr(s: *const u8, c: i32, n: usize) -> *const u8;
    fn memmem(h: *const u8, hl: usize, n: *const u8, nl: usize) -> *const u8;
}
fn find(t: &[u8], from: usize, pat: &[u8]) -> Option<usize> {
    unsafe {
        let p = memmem(t.as_ptr().add(from), t.len() - from, pat.as_ptr(), pat.len());
        if p.is_null() {
            None
        } else {
            Some(p as usize - t.as_ptr() as usize)
        }
    }
}
fn find_nl(t: &[u8], from: usize) -> usize {
    unsafe {
        let p = memchr(t.as_ptr().add(from), 10, t.len() - from);
        if p.is_null() {
            t.len()
        } else {
            p as usize - t.as_ptr() as usize
        }
    }
}

/// Parse a symbol name after '@' or '%'. Returns (name without quotes, end).
fn name_at(t: &'static [u8], mut i: usize) -> (&'static str, usize) {
    if t[i] == b'"' {
        let s = i + 1;
        i = s;
        while t[i] != b'"' {
            i += 1;
        }
        (std::str::from_utf8(&t[s..i]).unwrap_or(""), i + 1)
    } else {
        let s = i;
        while i < t.len() && (t[i].is_ascii_alphanumeric() || matches!(t[i], b'_' | b'.' | b'$' | b'-')) {
            i += 1;
        }
        (std::str::from_utf8(&t[s..i]).unwrap_or(""), i)
    }
}

impl Module {
    pub fn index(path: &str, text: &'static [u8]) -> Module {
        let mut m = Module {
            path: path.to_string(),
            text,
            funcs: Default::default(),
            globals: Default::default(),
            aliases: Default::default(),
            types: Default::default(),
            named_ty: Default::default(),
        };
        let mut i = 0;
        while i < text.len() {
            match text[i] {
                b'd' if text[i..].starts_with(b"define ") => {
                    let at = unsafe {
                        let p = memchr(text.as_ptr().add(i), b'@' as i32, text.len() - i);
                        p as usize - text.as_ptr() as usize
                    };
                    let (n, _) = name_at(text, at + 1);
                    let end = find(text, i, b"\n}\n").map(|e| e + 1).unwrap_or(text.len());
                    m.funcs.insert(n, (i, end));
                    i = end;
                }
                b'@' => {
                    let (n, e) = name_at(text, i + 1);
                    let nl = find_nl(text, i);
                    let line = &text[e..nl.min(e + 160)];
                    // not the text of a string constant
                    let line = &line[..line.iter().position(|&c| c == b'"').unwrap_or(line.len())];
                    if find(line, 0, b" alias ").is_some() {
                        m.aliases.insert(n, e);
                    } else {
                        m.globals.insert(n, e);
                    }
                    i = nl;
                }
                b'%' => {
                    let (n, e) = name_at(text, i + 1);
                    m.types.insert(n, e);
                }
                b'!' => {
                    // metadata trailer: nothing but metadata follows, except interleaved; skip the line
                }
                _ => {}
            }
            i = find_nl(text, i) + 1;
        }
        m
    }
}

pub struct P {
    pub t: &'static [u8],
    pub i: usize,
}
impl P {
    #[inline]
    fn ws(&mut self) {
        while self.i < self.t.len() && (self.t[self.i] == b' ' || self.t[self.i] == b'\t') {
            self.i += 1;
        }
        if self.i + 1 < self.t.len() && self.t[self.i] == b'/' && self.t[self.i + 1] == b'*' {
            while self.i + 1 < self.t.len() && !(self.t[self.i] == b'*' && self.t[self.i + 1] == b'/') {
                self.i += 1;
            }
            self.i += 2;
            self.ws();
        }
    }
    #[inline]
    fn peek(&self) -> u8 {
        if self.i < self.t.len() {
            self.t[self.i]
        } else {
            b'\n'
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c as char, self.ctx()))
        }
    }
    fn ctx(&self) -> String {
        let e = (self.i + 80).min(self.t.len());
        String::from_utf8_lossy(&self.t[self.i..e]).into_owned()
    }
    fn peek_word(&mut self) -> &'static str {
        self.ws();
        let s = self.i;
        let mut j = s;
        while j < self.t.len() && (self.t[j].is_ascii_alphanumeric() || matches!(self.t[j], b'_' | b'.')) {
            j += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.t[s..j]) }
    }
    fn word(&mut self) -> &'static str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn skip_balanced(&mut self) {
        // at '(' : skip to the matching ')', honouring strings
        let mut d = 0i32;
        while self.i < self.t.len() {
            match self.t[self.i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.t[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                b'\n' if d == 0 => return,
                _ => {}
            }
            self.i += 1;
        }
    }
    fn uint(&mut self) -> Result<u64, String> {
        self.ws();
        let s = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.t[s..self.i]).unwrap().parse().map_err(|_| format!("int at {:?}", self.ctx()))
    }
    fn is_type_start(&mut self) -> bool {
        self.ws();
        match self.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            b'i' => self.t[self.i + 1].is_ascii_digit(),
            _ => matches!(self.peek_word(), "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "opaque"),
        }
    }
    /// Skip attribute words until a type starts.
    fn skip_attrs_to_type(&mut self) {
        loop {
            if self.is_type_start() {
                return;
            }
            self.skip_one_attr();
        }
    }
    fn skip_one_attr(&mut self) {
        self.ws();
        if self.peek() == b'"' {
            self.i += 1;
            while self.peek() != b'"' {
                self.i += 1;
            }
            self.i += 1;
            if self.peek() == b'=' {
                self.i += 1;
                self.skip_one_attr();
            }
            return;
        }
        if self.peek() == b'#' {
            self.i += 1;
        }
        let w = self.word();
        if w.is_empty() {
            self.i += 1;
            return;
        }
        if w == "align" || w == "cc" {
            self.ws();
            if self.peek().is_ascii_digit() {
                let _ = self.uint();
                return;
            }
        }
        if self.peek() == b'(' {
            self.skip_balanced();
        }
    }
}

/// What constant-expression evaluation needs from the linker side.
pub trait Link {
    fn sym_addr(&mut self, module: usize, name: &'static str) -> Result<u64, String>;
    fn sym_id(&mut self, module: usize, name: &'static str) -> u32;
}

pub struct Cx<'a> {
    pub types: &'a mut Types,
    pub modules: &'a mut Vec<Module>,
    pub mi: usize,
    pub link: &'a mut dyn Link,
}

pub fn wval(w: u32, v: u128) -> Val {
    if w <= 64 {
        Val::C(v as u64)
    } else {
        Val::W(Rc::new(v))
    }
}

impl<'a> Cx<'a> {
    pub fn ty(&mut self, p: &mut P) -> Result<TyId, String> {
        p.ws();
        let t = match p.peek() {
            b'[' => {
                p.i += 1;
                let n = p.uint()?;
                if !p.eat_word("x") {
                    return Err("arr x".into());
                }
                let e = self.ty(p)?;
                p.expect(b']')?;
                self.types.get(Ty::Arr(n, e))
            }
            b'<' => {
                p.i += 1;
                p.ws();
                if p.peek() == b'{' {
                    p.i += 1;
                    let fs = self.ty_list(p, b'}')?;
                    p.expect(b'>')?;
                    self.types.get(Ty::Struct(fs, true))
                } else {
                    let n = p.uint()?;
                    if !p.eat_word("x") {
                        return Err("vec x".into());
                    }
                    let e = self.ty(p)?;
                    p.expect(b'>')?;
                    self.types.get(Ty::Vec(n as u32, e))
                }
            }
            b'{' => {
                p.i += 1;
                let fs = self.ty_list(p, b'}')?;
                self.types.get(Ty::Struct(fs, false))
            }
            b'%' => {
                let (n, e) = name_at(p.t, p.i + 1);
                p.i = e;
                if let Some(&t) = self.modules[self.mi].named_ty.get(n) {
                    t
                } else {
                    let o = *self.modules[self.mi].types.get(n).ok_or_else(|| format!("type {n}"))?;
                    let mut q = P { t: p.t, i: o };
                    q.expect(b'=')?;
                    q.eat_word("type");
                    let t = self.ty(&mut q)?;
                    self.modules[self.mi].named_ty.insert(n, t);
                    t
                }
            }
            _ => {
                let w = p.word();
                match w {
                    "void" => self.types.get(Ty::Void),
                    "ptr" => {
                        if p.peek_word() == "addrspace" {
                            p.word();
                            p.skip_balanced();
                        }
                        self.types.get(Ty::Ptr)
                    }
                    "float" => self.types.get(Ty::F32),
                    "double" => self.types.get(Ty::F64),
                    "label" => self.types.get(Ty::Label),
                    "metadata" => self.types.get(Ty::Meta),
                    "token" => self.types.get(Ty::Token),
                    "half" | "x86_fp80" | "fp128" | "opaque" => self.types.get(Ty::Other),
                    _ if w.starts_with('i') => {
                        let n: u32 = w[1..].parse().map_err(|_| format!("type {w}"))?;
                        self.types.get(Ty::Int(n))
                    }
                    _ => return Err(format!("type at {:?}", p.ctx())),
                }
            }
        };
        Ok(t)
    }
    fn ty_list(&mut self, p: &mut P, end: u8) -> Result<Vec<TyId>, String> {
        let mut v = vec![];
        if p.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty(p)?);
            if p.eat(b',') {
                continue;
            }
            p.expect(end)?;
            return Ok(v);
        }
    }

    pub fn zero(&mut self, ty: TyId) -> Val {
        match self.types.i(ty).ty.clone() {
            Ty::Vec(n, e) => {
                let z = self.zero(e);
                Val::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Arr(n, e) => {
                let z = self.zero(e);
                Val::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Struct(fs, _) => {
                let v = fs.iter().map(|f| self.zero(*f)).collect();
                Val::A(Rc::new(v))
            }
            Ty::Int(w) => wval(w, 0),
            _ => Val::C(0),
        }
    }

    /// Parse a constant of the given type.
    pub fn konst(&mut self, p: &mut P, ty: TyId) -> Result<Val, String> {
        p.ws();
        let c = p.peek();
        let w = self.types.width(ty);
        match c {
            b'@' => {
                let (n, e) = name_at(p.t, p.i + 1);
                p.i = e;
                return Ok(Val::C(self.link.sym_addr(self.mi, n)?));
            }
            b'-' | b'0'..=b'9' | b'+' => {
                let isf = matches!(self.types.i(ty).ty, Ty::F32 | Ty::F64);
                let s = p.i;
                p.i += 1;
                while matches!(p.peek(), b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'.' | b'+' | b'-') {
                    p.i += 1;
                }
                let txt = std::str::from_utf8(&p.t[s..p.i]).unwrap();
                if isf {
                    let is32 = w == 32;
                    let v: f64 = match txt {
                        "+inf" => f64::INFINITY,
                        "-inf" => f64::NEG_INFINITY,
                        "+qnan" | "+nan" => f64::NAN,
                        "-qnan" | "-nan" => -f64::NAN,
                        _ if txt.starts_with("0x") => {
                            f64::from_bits(u64::from_str_radix(&txt[2..], 16).map_err(|e| e.to_string())?)
                        }
                        _ => txt.parse().map_err(|_| format!("float {txt}"))?,
                    };
                    return Ok(Val::C(if is32 { (v as f32).to_bits() as u64 } else { v.to_bits() }));
                }
                let v: u128 = if let Some(r) = txt.strip_prefix('-') {
                    0u128.wrapping_sub(r.parse::<u128>().map_err(|_| format!("int {txt}"))?)
                } else {
                    txt.parse::<u128>().map_err(|_| format!("int {txt}"))?
                };
                return Ok(wval(w, v & crate::expr::ones(w)));
            }
            b'c' if p.t[p.i + 1] == b'"' => {
                p.i += 2;
                let mut v = vec![];
                while p.peek() != b'"' {
                    if p.peek() == b'\\' && p.t[p.i + 1] == b'\\' {
                        v.push(Val::C(b'\\' as u64));
                        p.i += 2;
                    } else if p.peek() == b'\\' {
                        let h = std::str::from_utf8(&p.t[p.i + 1..p.i + 3]).unwrap();
                        v.push(Val::C(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?));
                        p.i += 3;
                    } else {
                        v.push(Val::C(p.peek() as u64));
                        p.i += 1;
                    }
                }
                p.i += 1;
                return Ok(Val::A(Rc::new(v)));
            }
            b'[' | b'{' | b'<' => {
                p.i += 1;
                let mut end = match c {
                    b'[' => b']',
                    b'{' => b'}',
                    _ => b'>',
                };
                let mut packed = false;
                if c == b'<' {
                    p.ws();
                    if p.peek() == b'{' {
                        p.i += 1;
                        packed = true;
                        end = b'}';
                    }
                }
                let mut v = vec![];
                p.ws();
                if p.peek() != end {
                    loop {
                        let t = self.ty(p)?;
                        v.push(self.konst(p, t)?);
                        if !p.eat(b',') {
                            break;
                        }
                    }
                }
                p.expect(end)?;
                if packed {
                    p.expect(b'>')?;
                }
                return Ok(Val::A(Rc::new(v)));
            }
            _ => {}
        }
        let kw = p.word();
        match kw {
            "true" => Ok(Val::C(1)),
            "false" | "null" | "none" => Ok(Val::C(0)),
            "undef" | "poison" | "zeroinitializer" => Ok(self.zero(ty)),
            "splat" => {
                p.expect(b'(')?;
                let t = self.ty(p)?;
                let v = self.konst(p, t)?;
                p.expect(b')')?;
                let n = match self.types.i(ty).ty {
                    Ty::Vec(n, _) => n,
                    _ => return Err("splat".into()),
                };
                Ok(Val::A(Rc::new(vec![v; n as usize])))
            }
            "dso_local_equivalent" | "no_cfi" => self.konst(p, ty),
            "getelementptr" => {
                while !matches!(p.peek(), b'(') {
                    p.ws();
                    if p.peek() == b'(' {
                        break;
                    }
                    let w = p.word();
                    if w == "inrange" {
                        p.skip_balanced();
                    }
                    p.ws();
                }
                p.expect(b'(')?;
                let src = self.ty(p)?;
                p.expect(b',')?;
                let bt = self.ty(p)?;
                let base = self.konst(p, bt)?;
                let mut off = 0u64;
                let mut cur = src;
                let mut first = true;
                while p.eat(b',') {
                    let it = self.ty(p)?;
                    let iv = self.konst(p, it)?;
                    let w = self.types.width(it);
                    let x = match iv {
                        Val::C(x) => crate::expr::sext(x as u128, w) as i64 as u64,
                        _ => return Err("gep idx".into()),
                    };
                    let (o, nt) = self.gep_step(cur, first, x)?;
                    off = off.wrapping_add(o);
                    cur = nt;
                    first = false;
                }
                p.expect(b')')?;
                match base {
                    Val::C(b) => Ok(Val::C(b.wrapping_add(off))),
                    _ => Err("gep base".into()),
                }
            }
            "ptrtoint" | "inttoptr" | "ptrtoaddr" | "trunc" | "bitcast" | "zext" | "sext" | "addrspacecast" => {
                while p.peek_word() != "" {
                    p.word();
                }
                p.expect(b'(')?;
                let t = self.ty(p)?;
                let v = self.konst(p, t)?;
                if !p.eat_word("to") {
                    return Err("cast to".into());
                }
                let t2 = self.ty(p)?;
                p.expect(b')')?;
                let w2 = self.types.width(t2);
                match v {
                    Val::C(x) => {
                        let x = if kw == "sext" { crate::expr::sext(x as u128, self.types.width(t)) as u128 } else { x as u128 };
                        Ok(wval(w2, x & crate::expr::ones(w2)))
                    }
                    v => Ok(v),
                }
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                while p.peek_word() != "" {
                    p.word();
                }
                p.expect(b'(')?;
                let t = self.ty(p)?;
                let a = self.konst(p, t)?;
                p.expect(b',')?;
                let t = self.ty(p)?;
                let b = self.konst(p, t)?;
                p.expect(b')')?;
                let (Val::C(a), Val::C(b)) = (a, b) else { return Err("constexpr".into()) };
                let r = match kw {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    "or" => a | b,
                    _ => a.wrapping_shl(b as u32),
                };
                Ok(Val::C(r & crate::expr::ones(self.types.width(t)) as u64))
            }
            _ if kw.starts_with("f0x") => {
                let b = u64::from_str_radix(&kw[3..], 16).map_err(|e| e.to_string())?;
                Ok(Val::C(b))
            }
            _ => Err(format!("constant {kw:?} at {:?}", p.ctx())),
        }
    }

    fn gep_step(&mut self, cur: TyId, first: bool, x: u64) -> Result<(u64, TyId), String> {
        if first {
            return Ok((self.types.i(cur).size.wrapping_mul(x), cur));
        }
        match self.types.i(cur).ty.clone() {
            Ty::Arr(_, e) | Ty::Vec(_, e) => Ok((self.types.i(e).size.wrapping_mul(x), e)),
            Ty::Struct(fs, _) => Ok((self.types.i(cur).offs[x as usize], fs[x as usize])),
            _ => Err("gep into scalar".into()),
        }
    }

    /// Initializer of a global: (is_const, type, value, align)
    pub fn global(&mut self, off: usize) -> Result<Option<(bool, TyId, Val, u64)>, String> {
        let t = self.modules[self.mi].text;
        let mut p = P { t, i: off };
        p.expect(b'=')?;
        let mut external = false;
        let is_const;
        loop {
            let w = p.word();
            match w {
                "external" | "extern_weak" => external = true,
                "global" => {
                    is_const = false;
                    break;
                }
                "constant" => {
                    is_const = true;
                    break;
                }
                "" => return Err(format!("global at {:?}", p.ctx())),
                _ => {
                    if p.peek() == b'(' {
                        p.skip_balanced();
                    }
                }
            }
        }
        let ty = self.ty(&mut p)?;
        if external {
            return Ok(None);
        }
        let v = self.konst(&mut p, ty)?;
        let mut align = self.types.i(ty).align;
        while p.eat(b',') {
            if p.eat_word("align") {
                align = p.uint()?;
            } else {
                break;
            }
        }
        Ok(Some((is_const, ty, v, align)))
    }

    pub fn alias_target(&mut self, off: usize) -> Result<Val, String> {
        let t = self.modules[self.mi].text;
        let mut p = P { t, i: off };
        p.expect(b'=')?;
        while p.word() != "alias" {}
        let _ = self.ty(&mut p)?;
        p.expect(b',')?;
        let ty = self.ty(&mut p)?;
        self.konst(&mut p, ty)
    }

    pub fn to_bytes(&mut self, ty: TyId, v: &Val, out: &mut [u8]) -> Result<(), String> {
        match self.types.i(ty).ty.clone() {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let x = match v {
                    Val::C(x) => *x as u128,
                    Val::W(x) => **x,
                    _ => return Err("bytes".into()),
                };
                let n = out.len().min(16);
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let Val::A(vs) = v else { return Err("bytes arr".into()) };
                let es = self.types.i(e).size as usize;
                for (k, x) in vs.iter().enumerate() {
                    self.to_bytes(e, x, &mut out[k * es..(k + 1) * es])?;
                }
            }
            Ty::Struct(fs, _) => {
                let Val::A(vs) = v else { return Err("bytes struct".into()) };
                let offs = self.types.i(ty).offs.clone();
                for (k, x) in vs.iter().enumerate() {
                    let o = offs[k] as usize;
                    let s = self.types.i(fs[k]).size as usize;
                    self.to_bytes(fs[k], x, &mut out[o..o + s])?;
                }
            }
            _ => {}
        }
        Ok(())
    }
}

struct FD<'a, 'b> {
    cx: &'b mut Cx<'a>,
    regs: FxHashMap<&'static str, u32>,
    nregs: u32,
    consts: Vec<Val>,
    blocks: FxHashMap<&'static str, u32>,
    nblocks: u32,
    // block -> phis: (dst reg, [(pred block, op)])
    phis: Vec<Vec<(u32, Vec<(u32, Op)>)>>,
    cur: u32,
}

impl<'a, 'b> FD<'a, 'b> {
    fn reg(&mut self, n: &'static str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn block(&mut self, n: &'static str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.nblocks;
        self.nblocks += 1;
        self.phis.push(vec![]);
        self.blocks.insert(n, r);
        r
    }
    fn konst_op(&mut self, v: Val) -> Op {
        self.consts.push(v);
        -(self.consts.len() as i32)
    }
    fn val(&mut self, p: &mut P, ty: TyId) -> Result<Op, String> {
        p.ws();
        if p.peek() == b'%' {
            let (n, e) = name_at(p.t, p.i + 1);
            p.i = e;
            return Ok(self.reg(n) as i32);
        }
        let v = self.cx.konst(p, ty)?;
        Ok(self.konst_op(v))
    }
    fn tyval(&mut self, p: &mut P) -> Result<(TyId, Op), String> {
        let t = self.cx.ty(p)?;
        let v = self.val(p, t)?;
        Ok((t, v))
    }
    fn label(&mut self, p: &mut P) -> Result<u32, String> {
        if !p.eat_word("label") {
            return Err(format!("label at {:?}", p.ctx()));
        }
        p.expect(b'%')?;
        let (n, e) = name_at(p.t, p.i);
        p.i = e;
        Ok(self.block(n))
    }
    fn edge(&mut self, p: &mut P) -> Result<Edge, String> {
        let b = self.label(p)?;
        Ok(Edge { target: b, moves: Rc::new(vec![]) })
    }
    fn call_args(&mut self, p: &mut P) -> Result<(Vec<Op>, Vec<u32>), String> {
        p.expect(b'(')?;
        let mut args = vec![];
        let mut ws = vec![];
        if p.eat(b')') {
            return Ok((args, ws));
        }
        loop {
            p.ws();
            if p.peek_word() == "metadata" {
                let mut d = 0;
                loop {
                    match p.peek() {
                        b'(' | b'{' | b'[' => d += 1,
                        b')' | b'}' | b']' if d > 0 => d -= 1,
                        b',' | b')' if d == 0 => break,
                        b'\n' => return Err("metadata arg".into()),
                        _ => {}
                    }
                    p.i += 1;
                }
                args.push(self.konst_op(Val::C(0)));
                ws.push(0);
            } else {
                let t = self.cx.ty(p)?;
                // attributes until a value starts
                loop {
                    p.ws();
                    let c = p.peek();
                    if matches!(c, b'%' | b'@' | b'-' | b'+' | b'0'..=b'9' | b'<' | b'[' | b'{') {
                        break;
                    }
                    if c == b'c' && p.t[p.i + 1] == b'"' {
                        break;
                    }
                    if c == b'"' {
                        p.skip_one_attr();
                        continue;
                    }
                    let w = p.peek_word();
                    if matches!(
                        w,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" | "trunc" | "sub" | "add" | "splat" | "asm" | "zext" | "sext" | "xor"
                    ) || w.starts_with("f0x")
                    {
                        break;
                    }
                    p.skip_one_attr();
                }
                let v = self.val(p, t)?;
                ws.push(self.cx.types.width(t));
                args.push(v);
            }
            if p.eat(b',') {
                continue;
            }
            p.expect(b')')?;
            return Ok((args, ws));
        }
    }
    fn vec_of(&self, t: TyId) -> Option<(u32, TyId)> {
        match self.cx.types.i(t).ty {
            Ty::Vec(n, e) => Some((n, e)),
            _ => None,
        }
    }

    fn inst(&mut self, p: &mut P) -> Result<I, String> {
        p.ws();
        let mut dst: i32 = -1;
        if p.peek() == b'%' {
            let (n, e) = name_at(p.t, p.i + 1);
            p.i = e;
            p.expect(b'=')?;
            dst = self.reg(n) as i32;
        }
        let d = dst as u32;
        let mut op = p.word();
        if matches!(op, "tail" | "musttail" | "notail") {
            op = p.word();
        }
        let bin = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(bop) = bin {
            p.skip_attrs_to_type();
            let (t, a) = self.tyval(p)?;
            p.expect(b',')?;
            let b = self.val(p, t)?;
            if let Some((n, e)) = self.vec_of(t) {
                return Ok(I::BinV { op: bop, w: self.cx.types.width(e), n, dst: d, a, b });
            }
            return Ok(I::Bin { op: bop, w: self.cx.types.width(t), dst: d, a, b });
        }
        let cast = match op {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => Some(CastOp::Bit),
            "fptosi" => Some(CastOp::FpToSi),
            "fptoui" => Some(CastOp::FpToUi),
            "sitofp" => Some(CastOp::SiToFp),
            "uitofp" => Some(CastOp::UiToFp),
            "fptrunc" => Some(CastOp::FpTrunc),
            "fpext" => Some(CastOp::FpExt),
            _ => None,
        };
        if let Some(cop) = cast {
            p.skip_attrs_to_type();
            let (t, a) = self.tyval(p)?;
            if !p.eat_word("to") {
                return Err("cast".into());
            }
            let t2 = self.cx.ty(p)?;
            if let (Some((n, e)), Some((_, e2))) = (self.vec_of(t), self.vec_of(t2)) {
                let (mut fw, tw) = (self.cx.types.width(e), self.cx.types.width(e2));
                let mut c = cop;
                if c == CastOp::Bit {
                    c = if fw > tw { CastOp::Trunc } else { CastOp::ZExt };
                    if fw == tw {
                        fw = tw;
                    }
                }
                return Ok(I::CastV { op: c, fw, tw, n, dst: d, a });
            }
            let (fw, tw) = (self.cx.types.width(t), self.cx.types.width(t2));
            let c = if cop == CastOp::Bit {
                if fw > tw {
                    CastOp::Trunc
                } else if fw < tw {
                    CastOp::ZExt
                } else {
                    return Ok(I::Copy { dst: d, a });
                }
            } else {
                cop
            };
            return Ok(I::Cast { op: c, fw, tw, dst: d, a });
        }
        match op {
            "bitcast" => {
                let (t, a) = self.tyval(p)?;
                p.eat_word("to");
                let t2 = self.cx.ty(p)?;
                Ok(I::BitCast { from: t, to: t2, dst: d, a })
            }
            "icmp" => {
                let mut w = p.word();
                if w == "samesign" {
                    w = p.word();
                }
                let pr = match w {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err(format!("icmp {w}")),
                };
                let (t, a) = self.tyval(p)?;
                p.expect(b',')?;
                let b = self.val(p, t)?;
                if let Some((n, e)) = self.vec_of(t) {
                    return Ok(I::ICmpV { p: pr, w: self.cx.types.width(e), n, dst: d, a, b });
                }
                Ok(I::ICmp { p: pr, w: self.cx.types.width(t), dst: d, a, b })
            }
            "fcmp" => {
                let mut mask = None;
                while mask.is_none() {
                    mask = match p.word() {
                        "false" => Some(0),
                        "oeq" => Some(2),
                        "ogt" => Some(4),
                        "oge" => Some(6),
                        "olt" => Some(1),
                        "ole" => Some(3),
                        "one" => Some(5),
                        "ord" => Some(7),
                        "uno" => Some(8),
                        "ueq" => Some(10),
                        "ugt" => Some(12),
                        "uge" => Some(14),
                        "ult" => Some(9),
                        "ule" => Some(11),
                        "une" => Some(13),
                        "true" => Some(15),
                        "" => return Err("fcmp".into()),
                        _ => None,
                    };
                }
                let (t, a) = self.tyval(p)?;
                p.expect(b',')?;
                let b = self.val(p, t)?;
                if self.vec_of(t).is_some() {
                    return Err("vector fcmp".into());
                }
                Ok(I::FCmp { mask: mask.unwrap(), w: self.cx.types.width(t), dst: d, a, b })
            }
            "fneg" => {
                p.skip_attrs_to_type();
                let (t, a) = self.tyval(p)?;
                Ok(I::FNeg { w: self.cx.types.width(t), dst: d, a })
            }
            "load" => {
                p.skip_attrs_to_type();
                let t = self.cx.ty(p)?;
                p.expect(b',')?;
                let (_, a) = self.tyval(p)?;
                if self.cx.types.is_scalar(t) {
                    let w = self.cx.types.width(t);
                    Ok(I::Load { dst: d, p: a, nb: (w + 7) / 8, w })
                } else {
                    Ok(I::LoadT { dst: d, p: a, ty: t })
                }
            }
            "store" => {
                p.skip_attrs_to_type();
                let (t, v) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, a) = self.tyval(p)?;
                if self.cx.types.is_scalar(t) {
                    let w = self.cx.types.width(t);
                    Ok(I::Store { p: a, v, nb: (w + 7) / 8, w })
                } else {
                    Ok(I::StoreT { p: a, v, ty: t })
                }
            }
            "getelementptr" => {
                loop {
                    if p.peek_word() == "inrange" {
                        p.word();
                        p.skip_balanced();
                        continue;
                    }
                    if p.is_type_start() {
                        break;
                    }
                    p.word();
                }
                let src = self.cx.ty(p)?;
                p.expect(b',')?;
                let (bt, base) = self.tyval(p)?;
                if self.vec_of(bt).is_some() {
                    return Err("vector gep".into());
                }
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = src;
                let mut first = true;
                loop {
                    p.ws();
                    if p.peek() != b',' {
                        break;
                    }
                    p.i += 1;
                    p.ws();
                    if p.peek() == b'!' {
                        break;
                    }
                    let (it, iv) = self.tyval(p)?;
                    if self.vec_of(it).is_some() {
                        return Err("vector gep".into());
                    }
                    let w = self.cx.types.width(it);
                    if iv < 0 {
                        let Val::C(x) = self.consts[(-iv - 1) as usize] else { return Err("gep".into()) };
                        let x = crate::expr::sext(x as u128, w) as i64 as u64;
                        let (o, nt) = self.cx.gep_step(cur, first, x)?;
                        off = off.wrapping_add(o);
                        cur = nt;
                    } else {
                        let (scale, nt) = self.cx.gep_step(cur, first, 1)?;
                        if !first && matches!(self.cx.types.i(cur).ty, Ty::Struct(..)) {
                            return Err("gep struct reg".into());
                        }
                        terms.push((iv, scale, w));
                        cur = nt;
                    }
                    first = false;
                }
                Ok(I::Gep { dst: d, base, off, terms: Rc::new(terms) })
            }
            "alloca" => {
                if p.peek_word() == "inalloca" || p.peek_word() == "swifterror" {
                    p.word();
                }
                let t = self.cx.ty(p)?;
                let size = self.cx.types.i(t).size;
                let mut align = self.cx.types.i(t).align;
                let mut n = self.konst_op(Val::C(1));
                while p.eat(b',') {
                    if p.eat_word("align") {
                        align = p.uint()?;
                    } else if p.is_type_start() {
                        let (_, v) = self.tyval(p)?;
                        n = v;
                    } else {
                        break;
                    }
                }
                Ok(I::Alloca { dst: d, size, n, align })
            }
            "br" => {
                if p.peek_word() == "label" {
                    return Ok(I::Br(self.edge(p)?));
                }
                let (_, c) = self.tyval(p)?;
                p.expect(b',')?;
                let t = self.edge(p)?;
                p.expect(b',')?;
                let f = self.edge(p)?;
                Ok(I::CondBr { c, t, f })
            }
            "switch" => {
                let (t, v) = self.tyval(p)?;
                p.expect(b',')?;
                let def = self.edge(p)?;
                p.expect(b'[')?;
                let mut cases = vec![];
                loop {
                    while matches!(p.peek(), b' ' | b'\n' | b'\t') {
                        p.i += 1;
                    }
                    if p.eat(b']') {
                        break;
                    }
                    let (_, cv) = self.tyval(p)?;
                    p.expect(b',')?;
                    let e = self.edge(p)?;
                    let x = match &self.consts[(-cv - 1) as usize] {
                        Val::C(x) => *x,
                        _ => return Err("wide switch".into()),
                    };
                    cases.push((x, e));
                }
                Ok(I::Switch { v, w: self.cx.types.width(t), def, cases: Rc::new(cases) })
            }
            "ret" => {
                if p.eat_word("void") {
                    return Ok(I::RetVoid);
                }
                let (_, v) = self.tyval(p)?;
                Ok(I::Ret { v })
            }
            "unreachable" | "resume" => Ok(I::Unreachable),
            "phi" => {
                p.skip_attrs_to_type();
                let t = self.cx.ty(p)?;
                let mut ins = vec![];
                loop {
                    p.expect(b'[')?;
                    let v = self.val(p, t)?;
                    p.expect(b',')?;
                    p.expect(b'%')?;
                    let (n, e) = name_at(p.t, p.i);
                    p.i = e;
                    let b = self.block(n);
                    p.expect(b']')?;
                    ins.push((b, v));
                    p.ws();
                    if p.peek() == b',' {
                        p.i += 1;
                        p.ws();
                        if p.peek() == b'[' {
                            continue;
                        }
                    }
                    break;
                }
                let cur = self.cur as usize;
                self.phis[cur].push((d, ins));
                Ok(I::Nop)
            }
            "select" => {
                p.skip_attrs_to_type();
                let (ct, c) = self.tyval(p)?;
                p.expect(b',')?;
                let (t, a) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, b) = self.tyval(p)?;
                if let Some((n, e)) = self.vec_of(t) {
                    if self.vec_of(ct).is_some() {
                        return Ok(I::SelectV { dst: d, w: self.cx.types.width(e), n, c, a, b });
                    }
                    return Ok(I::SelectA { dst: d, c, a, b });
                }
                if !self.cx.types.is_scalar(t) {
                    return Ok(I::SelectA { dst: d, c, a, b });
                }
                Ok(I::Select { dst: d, w: self.cx.types.width(t), c, a, b })
            }
            "extractvalue" => {
                let (_, a) = self.tyval(p)?;
                let mut idx = vec![];
                loop {
                    p.ws();
                    if p.peek() != b',' {
                        break;
                    }
                    p.i += 1;
                    p.ws();
                    if !p.peek().is_ascii_digit() {
                        break;
                    }
                    idx.push(p.uint()? as u32);
                }
                Ok(I::ExtractValue { dst: d, a, idx: Rc::new(idx) })
            }
            "insertvalue" => {
                let (_, a) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, v) = self.tyval(p)?;
                let mut idx = vec![];
                loop {
                    p.ws();
                    if p.peek() != b',' {
                        break;
                    }
                    p.i += 1;
                    p.ws();
                    if !p.peek().is_ascii_digit() {
                        break;
                    }
                    idx.push(p.uint()? as u32);
                }
                Ok(I::InsertValue { dst: d, a, v, idx: Rc::new(idx) })
            }
            "extractelement" => {
                let (_, a) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, i) = self.tyval(p)?;
                Ok(I::ExtractElem { dst: d, a, i })
            }
            "insertelement" => {
                let (_, a) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, v) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, i) = self.tyval(p)?;
                Ok(I::InsertElem { dst: d, a, v, i })
            }
            "shufflevector" => {
                let (t, a) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, b) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, m) = self.tyval(p)?;
                let n = self.vec_of(t).ok_or("shuffle")?.0;
                let mask = match &self.consts[(-m - 1) as usize] {
                    Val::A(v) => v.iter().map(|x| if let Val::C(c) = x { *c as u32 } else { 0 }).collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Ok(I::Shuffle { dst: d, a, b, n, mask: Rc::new(mask) })
            }
            "freeze" => {
                let (_, a) = self.tyval(p)?;
                Ok(I::Copy { dst: d, a })
            }
            "landingpad" => Ok(I::Unreachable),
            "fence" => Ok(I::Nop),
            "atomicrmw" => {
                p.eat_word("volatile");
                let o = match p.word() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "nand" => RmwOp::Nand,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    o => return Err(format!("atomicrmw {o}")),
                };
                let (_, a) = self.tyval(p)?;
                p.expect(b',')?;
                let (t, v) = self.tyval(p)?;
                Ok(I::AtomicRmw { dst: d, p: a, v, w: self.cx.types.width(t), op: o })
            }
            "cmpxchg" => {
                while !p.is_type_start() {
                    p.word();
                }
                let (_, a) = self.tyval(p)?;
                p.expect(b',')?;
                let (t, old) = self.tyval(p)?;
                p.expect(b',')?;
                let (_, new) = self.tyval(p)?;
                Ok(I::CmpXchg { dst: d, p: a, old, new, w: self.cx.types.width(t) })
            }
            "call" | "invoke" => {
                p.skip_attrs_to_type();
                let ret = self.cx.ty(p)?;
                p.ws();
                if p.peek() == b'(' {
                    p.skip_balanced(); // function type of a vararg call
                    p.ws();
                }
                let callee = if p.peek() == b'@' {
                    let (n, e) = name_at(p.t, p.i + 1);
                    p.i = e;
                    if n.starts_with("llvm.lifetime.") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n == "llvm.donothing" || n.starts_with("llvm.prefetch") {
                        Callee::Nop
                    } else {
                        Callee::Direct(self.cx.link.sym_id(self.cx.mi, n))
                    }
                } else if p.peek_word() == "asm" {
                    // asm [sideeffect] "..", "..": only empty barriers are supported
                    p.word();
                    while p.peek() != b'"' {
                        p.i += 1;
                    }
                    let s = p.i + 1;
                    p.i += 1;
                    while p.peek() != b'"' {
                        p.i += 1;
                    }
                    let empty = s == p.i;
                    p.i += 1;
                    p.expect(b',')?;
                    p.ws();
                    p.i += 1;
                    while p.peek() != b'"' {
                        p.i += 1;
                    }
                    p.i += 1;
                    if !empty {
                        return Err("inline asm".into());
                    }
                    Callee::Nop
                } else {
                    let pt = self.cx.types.get(Ty::Ptr);
                    let v = self.val(p, pt)?;
                    Callee::Indirect(v)
                };
                if matches!(callee, Callee::Nop) && op == "call" {
                    return Ok(I::Nop);
                }
                let (args, argw) = self.call_args(p)?;
                let mut normal = None;
                if op == "invoke" {
                    // skip attrs up to `to label`, possibly on the next line
                    loop {
                        while matches!(p.peek(), b' ' | b'\n' | b'\t') {
                            p.i += 1;
                        }
                        if p.peek_word() == "to" {
                            p.word();
                            break;
                        }
                        if p.peek() == b'[' {
                            p.skip_balanced();
                            continue;
                        }
                        p.skip_one_attr();
                    }
                    normal = Some(self.edge(p)?);
                    p.eat_word("unwind");
                    let _ = self.label(p)?;
                }
                Ok(I::Call(Box::new(CallI { dst, callee, args, argw, ret, normal })))
            }
            _ => Err(format!("opcode {op}")),
        }
    }
}

/// Decode one function body. `range` is the byte range of `define ... }` in the module text.
/// Names used by `@name` in a text range.
pub fn names_in(t: &'static [u8], range: (usize, usize)) -> Vec<&'static str> {
    let mut v = vec![];
    let mut i = range.0;
    while let Some(k) = find(t, i, b"@") {
        if k >= range.1 {
            break;
        }
        let (n, e) = name_at(t, k + 1);
        v.push(n);
        i = e.max(k + 1);
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn decode(cx: &mut Cx, name: &str, sym: u32, range: (usize, usize)) -> Result<Func, String> {
    let t = cx.modules[cx.mi].text;
    let mut p = P { t, i: range.0 };
    let mut fd = FD { cx, regs: Default::default(), nregs: 0, consts: vec![], blocks: Default::default(), nblocks: 0, phis: vec![], cur: 0 };
    // header
    p.word(); // define
    p.skip_attrs_to_type();
    let _ret = fd.cx.ty(&mut p)?;
    p.ws();
    while p.peek() != b'@' {
        p.i += 1;
    }
    let (_, e) = name_at(t, p.i + 1);
    p.i = e;
    p.expect(b'(')?;
    let mut nargs = 0;
    if !p.eat(b')') {
        loop {
            p.ws();
            if p.peek() == b'.' {
                p.i += 3;
                p.expect(b')')?;
                break;
            }
            fd.cx.ty(&mut p)?;
            loop {
                p.ws();
                match p.peek() {
                    b'%' => {
                        let (n, e) = name_at(t, p.i + 1);
                        p.i = e;
                        let r = fd.reg(n);
                        debug_assert_eq!(r, nargs);
                        nargs += 1;
                        break;
                    }
                    b',' | b')' => {
                        // unnamed
                        let nm: &'static str = Box::leak(format!("{nargs}").into_boxed_str());
                        fd.reg(nm);
                        nargs += 1;
                        break;
                    }
                    _ => p.skip_one_attr(),
                }
            }
            if p.eat(b',') {
                continue;
            }
            p.expect(b')')?;
            break;
        }
    }
    p.i = find_nl(t, p.i) + 1;
    let mut code: Vec<I> = vec![];
    let mut starts: Vec<u32> = vec![];
    let set_start = |starts: &mut Vec<u32>, b: u32, pc: u32| {
        if starts.len() <= b as usize {
            starts.resize(b as usize + 1, u32::MAX);
        }
        starts[b as usize] = pc;
    };
    let mut first = true;
    let mut inst_block: Vec<u32> = vec![];
    while p.i < range.1 {
        let c = p.peek();
        if c == b'\n' {
            p.i += 1;
            continue;
        }
        if c == b'}' {
            break;
        }
        if c == b';' {
            p.i = find_nl(t, p.i) + 1;
            continue;
        }
        if c != b' ' {
            // label
            let (n, _) = name_at(t, p.i);
            let b = fd.block(n);
            fd.cur = b;
            set_start(&mut starts, b, code.len() as u32);
            first = false;
            p.i = find_nl(t, p.i) + 1;
            continue;
        }
        if first {
            let nm: &'static str = Box::leak(format!("{nargs}").into_boxed_str());
            let b = fd.block(nm);
            fd.cur = b;
            set_start(&mut starts, b, 0);
            first = false;
        }
        p.ws();
        if p.peek() == b'#' || p.peek() == b';' {
            p.i = find_nl(t, p.i) + 1;
            continue;
        }
        let save = p.i;
        if matches!(p.peek_word(), "cleanup" | "catch" | "filter") {
            p.i = find_nl(t, p.i) + 1;
            continue;
        }
        match fd.inst(&mut p) {
            Ok(I::Nop) => {}
            Ok(i) => {
                code.push(i);
                inst_block.push(fd.cur);
            }
            // a private global is not materialised yet: the caller does that and retries
            Err(e) if e.starts_with('\u{1}') => return Err(e),
            Err(e) => {
                // keep going: the instruction traps if it is ever executed
                p.i = save;
                let line = String::from_utf8_lossy(&t[save..find_nl(t, save)]).into_owned();
                let mut l: String = line.chars().take(200).collect();
                l.push_str(" :: ");
                l.push_str(&e);
                code.push(I::Unsupported(l.into()));
                inst_block.push(fd.cur);
                if line.starts_with("switch") {
                    p.i = find(t, p.i, b"]").unwrap();
                }
            }
        }
        p.i = find_nl(t, p.i) + 1;
    }
    // resolve edges
    let phis = std::mem::take(&mut fd.phis);
    let fix = |e: &mut Edge, from: u32| -> Result<(), String> {
        let b = e.target as usize;
        let mut moves = vec![];
        for (dst, ins) in &phis[b] {
            let (_, op) = ins.iter().find(|(pb, _)| *pb == from).ok_or_else(|| format!("phi edge in {name}"))?;
            moves.push((*dst, *op));
        }
        e.target = *starts.get(b).unwrap_or(&u32::MAX);
        if e.target == u32::MAX {
            return Err(format!("undefined block in {name}"));
        }
        e.moves = Rc::new(moves);
        Ok(())
    };
    for (k, i) in code.iter_mut().enumerate() {
        let from = inst_block[k];
        match i {
            I::Br(e) => fix(e, from)?,
            I::CondBr { t, f, .. } => {
                fix(t, from)?;
                fix(f, from)?;
            }
            I::Switch { def, cases, .. } => {
                fix(def, from)?;
                let mut cs = (**cases).clone();
                for (_, e) in cs.iter_mut() {
                    fix(e, from)?;
                }
                *cases = Rc::new(cs);
            }
            I::Call(c) => {
                if let Some(e) = &mut c.normal {
                    fix(e, from)?;
                }
            }
            _ => {}
        }
    }
    let nregs = fd.nregs;
    let consts = std::mem::take(&mut fd.consts);
    Ok(Func { name: name.to_string(), sym, nregs, nargs, consts, code })
}
