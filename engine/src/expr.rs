//! Hash-consed bit-vector (and IEEE float) expression DAG with local simplification.
use crate::fx::FxHashMap;

pub type ExprId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract,
    Concat,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FSqrt,
    /// round to integral; c = mode: 0 nearest-even, 1 up, 2 down, 3 zero, 4 nearest-away
    FRound,
    FEq,
    FLt,
    FLe,
    FIsNan,
    FToSI,
    FToUI,
    SIToF,
    UIToF,
    FConv,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key {
    op: Op,
    w: u16,
    a: u32,
    b: u32,
    c: u32,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub mask: u128,
}

pub const NONE: u32 = u32::MAX;
pub const MANY: u32 = u32::MAX - 1;
fn join(a: u32, b: u32) -> u32 {
    if a == NONE || a == b {
        b
    } else if b == NONE {
        a
    } else {
        MANY
    }
}

pub fn ones(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxHashMap<Key, ExprId>,
    consts: Vec<u128>,
    const_map: FxHashMap<(u16, u128), ExprId>,
    pub has_fp: Vec<bool>,
    /// the one variable an expression depends on (NONE: constant, MANY: several)
    pub sole: Vec<u32>,
    vsets: FxHashMap<ExprId, Option<std::rc::Rc<Vec<u128>>>>,
    memo1: std::cell::RefCell<FxHashMap<ExprId, u128>>,
}

pub fn f_bin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    if w == 64 {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            Op::FRem => x % y,
            _ => unreachable!(),
        };
        r.to_bits() as u128
    } else {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            Op::FRem => x % y,
            _ => unreachable!(),
        };
        r.to_bits() as u128
    }
}
pub fn f_val(w: u32, a: u128) -> f64 {
    if w == 64 {
        f64::from_bits(a as u64)
    } else {
        f32::from_bits(a as u32) as f64
    }
}
pub fn f_bits(w: u32, v: f64) -> u128 {
    if w == 64 {
        v.to_bits() as u128
    } else {
        (v as f32).to_bits() as u128
    }
}
pub fn f_round(mode: u32, x: f64) -> f64 {
    match mode {
        0 => x.round_ties_even(),
        1 => x.ceil(),
        2 => x.floor(),
        3 => x.trunc(),
        _ => x.round(),
    }
}

/// Concrete semantics of every operator; shared by constant folding and model evaluation.
pub fn eval_op(op: Op, w: u32, aw: u32, a: u128, b: u128, c: u128, nb: u32, nc: u32) -> u128 {
    let m = ones(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((x >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::ZExt => a,
        Op::SExt => (sext(a, aw) as u128) & m,
        Op::Extract => (a >> nb) & m,
        Op::Concat => unreachable!("concat handled by caller"),
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => f_bin(op, w, a, b),
        Op::FSqrt => f_bits(w, f_val(w, a).sqrt()),
        Op::FRound => f_bits(w, f_round(nc, f_val(w, a))),
        Op::FEq => (f_val(aw, a) == f_val(aw, b)) as u128,
        Op::FLt => (f_val(aw, a) < f_val(aw, b)) as u128,
        Op::FLe => (f_val(aw, a) <= f_val(aw, b)) as u128,
        Op::FIsNan => f_val(aw, a).is_nan() as u128,
        Op::FToSI => {
            let f = f_val(aw, a).trunc();
            ((f as i128) as u128) & m
        }
        Op::FToUI => {
            let f = f_val(aw, a).trunc();
            (f as u128) & m
        }
        Op::SIToF => {
            let v = sext(a, aw);
            if w == 64 {
                (v as f64).to_bits() as u128
            } else {
                (v as f32).to_bits() as u128
            }
        }
        Op::UIToF => {
            if w == 64 {
                (a as f64).to_bits() as u128
            } else {
                (a as f32).to_bits() as u128
            }
        }
        Op::FConv => f_bits(w, f_val(aw, a)),
        Op::Const | Op::Var => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        Self::default()
    }

    #[inline]
    pub fn n(&self, e: ExprId) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: ExprId) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn as_const(&self, e: ExprId) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }

    pub fn konst(&mut self, w: u32, v: u128) -> ExprId {
        let v = v & ones(w);
        if let Some(&e) = self.const_map.get(&(w as u16, v)) {
            return e;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let id = self.nodes.len() as ExprId;
        self.nodes.push(Node { op: Op::Const, w: w as u16, a: ci, b: 0, c: 0, mask: 0 });
        self.has_fp.push(false);
        self.sole.push(NONE);
        self.const_map.insert((w as u16, v), id);
        id
    }

    pub fn var(&mut self, w: u32, idx: u32) -> ExprId {
        let key = Key { op: Op::Var, w: w as u16, a: idx, b: 0, c: 0 };
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let id = self.nodes.len() as ExprId;
        self.nodes.push(Node { op: Op::Var, w: w as u16, a: idx, b: 0, c: 0, mask: 1u128 << (idx % 128) });
        self.has_fp.push(false);
        self.sole.push(idx);
        self.map.insert(key, id);
        id
    }

    fn raw(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> ExprId {
        let key = Key { op, w: w as u16, a, b, c };
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let mut mask = self.nodes[a as usize].mask;
        let mut so = self.sole[a as usize];
        let mut fp = self.has_fp[a as usize] || (op as u8) >= (Op::FAdd as u8);
        match op {
            Op::ZExt | Op::SExt | Op::Extract | Op::FSqrt | Op::FRound | Op::FIsNan | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF | Op::FConv => {}
            Op::Ite => {
                mask |= self.nodes[b as usize].mask | self.nodes[c as usize].mask;
                so = join(join(so, self.sole[b as usize]), self.sole[c as usize]);
                fp |= self.has_fp[b as usize] || self.has_fp[c as usize];
            }
            _ => {
                mask |= self.nodes[b as usize].mask;
                so = join(so, self.sole[b as usize]);
                fp |= self.has_fp[b as usize];
            }
        }
        let id = self.nodes.len() as ExprId;
        self.nodes.push(Node { op, w: w as u16, a, b, c, mask });
        self.has_fp.push(fp);
        self.sole.push(so);
        self.map.insert(key, id);
        id
    }

    pub fn t(&mut self) -> ExprId {
        self.konst(1, 1)
    }
    pub fn f(&mut self) -> ExprId {
        self.konst(1, 0)
    }

    pub fn not(&mut self, a: ExprId) -> ExprId {
        debug_assert_eq!(self.w(a), 1);
        let n = self.n(a);
        if let Some(v) = self.as_const(a) {
            return self.konst(1, v ^ 1);
        }
        match n.op {
            Op::Xor if self.as_const(n.b) == Some(1) => return n.a,
            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
            _ => {}
        }
        let one = self.t();
        self.raw(Op::Xor, 1, a, one, 0)
    }

    fn udiv_const(&self, e: ExprId) -> Option<(ExprId, u128)> {
        let n = self.n(e);
        if n.op != Op::UDiv {
            return None;
        }
        let d = self.as_const(n.b)?;
        (d != 0).then_some((n.a, d))
    }
    fn not_of(&self, a: ExprId) -> Option<ExprId> {
        let n = self.n(a);
        if n.op == Op::Xor && n.w == 1 && self.as_const(n.b) == Some(1) {
            Some(n.a)
        } else {
            None
        }
    }

    /// A superset of the values `e` can take, when it is small.
    pub fn vset(&mut self, e: ExprId, d: u32) -> Option<std::rc::Rc<Vec<u128>>> {
        const MAX: usize = 128;
        let n = self.n(e);
        if n.op == Op::Const {
            return Some(std::rc::Rc::new(vec![self.consts[n.a as usize]]));
        }
        if let Some(r) = self.vsets.get(&e) {
            return r.clone();
        }
        if d == 0 {
            return None;
        }
        let d = d - 1;
        let w = n.w as u32;
        let mut out: Option<Vec<u128>> = match n.op {
            Op::Ite => match (self.vset(n.b, d), self.vset(n.c, d)) {
                (Some(x), Some(y)) => Some(x.iter().chain(y.iter()).copied().collect()),
                _ => None,
            },
            Op::ZExt | Op::SExt | Op::Extract => {
                let aw = self.w(n.a);
                self.vset(n.a, d).map(|x| x.iter().map(|&x| eval_op(n.op, w, aw, x, 0, 0, n.b, n.c)).collect())
            }
            Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Shl | Op::LShr | Op::Concat => {
                match (self.vset(n.a, d), self.vset(n.b, d)) {
                    (Some(x), Some(y)) if x.len() * y.len() <= 1024 => {
                        let (aw, bw) = (self.w(n.a), self.w(n.b));
                        let mut o = Vec::with_capacity(x.len() * y.len());
                        for &a in x.iter() {
                            for &b in y.iter() {
                                o.push(if n.op == Op::Concat { (a << bw) | b } else { eval_op(n.op, w, aw, a, b, 0, n.b, n.c) });
                            }
                        }
                        Some(o)
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if out.is_none() {
            let u = self.umax(e);
            if u < 64 {
                out = Some((0..=u).collect());
            }
        }
        let r = out.and_then(|mut o| {
            o.sort_unstable();
            o.dedup();
            (o.len() <= MAX).then(|| std::rc::Rc::new(o))
        });
        self.vsets.insert(e, r.clone());
        r
    }

    /// Upper bound on the unsigned value (cheap).
    pub fn umax(&self, e: ExprId) -> u128 {
        self.umax_d(e, 10)
    }
    fn umax_d(&self, e: ExprId, d: u32) -> u128 {
        let n = self.n(e);
        let m = ones(n.w as u32);
        if n.op == Op::Const {
            return self.consts[n.a as usize];
        }
        if d == 0 {
            return m;
        }
        let d = d - 1;
        match n.op {
            Op::ZExt => self.umax_d(n.a, d),
            Op::And => self.umax_d(n.a, d).min(self.umax_d(n.b, d)),
            Op::URem => match self.as_const(n.b) {
                Some(c) if c > 0 => (c - 1).min(self.umax_d(n.a, d)),
                _ => m,
            },
            Op::UDiv => match self.as_const(n.b) {
                Some(c) if c > 0 => self.umax_d(n.a, d) / c,
                _ => m,
            },
            Op::LShr => match self.as_const(n.b) {
                Some(c) if c < n.w as u128 => self.umax_d(n.a, d) >> c,
                _ => m,
            },
            Op::Shl => match self.as_const(n.b) {
                Some(c) if c < n.w as u128 && n.w <= 64 => (self.umax_d(n.a, d) << c).min(m),
                _ => m,
            },
            Op::Add if n.w <= 64 => (self.umax_d(n.a, d) + self.umax_d(n.b, d)).min(m),
            Op::Extract => {
                if n.b < 128 {
                    (self.umax_d(n.a, d) >> n.b).min(m)
                } else {
                    m
                }
            }
            Op::Concat if n.w <= 64 => (self.umax_d(n.a, d) << self.w(n.b)) | ones(self.w(n.b)).min(self.umax_d(n.b, d)),
            Op::Ite => self.umax_d(n.b, d).max(self.umax_d(n.c, d)),
            _ => m,
        }
    }

    pub fn bin(&mut self, op: Op, a: ExprId, b: ExprId) -> ExprId {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe => 1,
            _ => w,
        };
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = eval_op(op, rw, w, x, y, 0, 0, 0);
            return self.konst(rw, v);
        }
        // commutative: constant right, else order by id
        let commut = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::FEq);
        if commut && (ca.is_some() || (cb.is_none() && a > b)) {
            return self.bin2(op, rw, w, b, a);
        }
        self.bin2(op, rw, w, a, b)
    }

    fn bin2(&mut self, op: Op, rw: u32, w: u32, a: ExprId, b: ExprId) -> ExprId {
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        let m = ones(w);
        let na = self.n(a);
        match op {
            Op::Add => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if na.op == Op::Add {
                        if let Some(c2) = self.as_const(na.b) {
                            let k = self.konst(w, c.wrapping_add(c2));
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                    if na.op == Op::Ite {
                        if let (Some(x), Some(y)) = (self.as_const(na.b), self.as_const(na.c)) {
                            let kx = self.konst(w, x.wrapping_add(c));
                            let ky = self.konst(w, y.wrapping_add(c));
                            return self.ite(na.a, kx, ky);
                        }
                    }
                }
                // (x - y) + y
                if na.op == Op::Sub && na.b == b {
                    return na.a;
                }
                let nb = self.n(b);
                if nb.op == Op::Sub && nb.b == a {
                    return nb.a;
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(c) = cb {
                    let k = self.konst(w, 0u128.wrapping_sub(c));
                    return self.bin(Op::Add, a, k);
                }
                // (x + y) - x
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
            }
            Op::Mul => {
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let k = self.konst(w, c.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => {
                if let Some(c) = cb {
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let k = self.konst(w, c.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, k);
                    }
                    if self.umax(a) < c && c != 0 {
                        return self.konst(w, 0);
                    }
                    if na.op == Op::UDiv {
                        if let Some(d) = self.as_const(na.b) {
                            if c != 0 && d != 0 {
                                return match c.checked_mul(d) {
                                    Some(p) if p <= m => {
                                        let k = self.konst(w, p);
                                        self.bin(Op::UDiv, na.a, k)
                                    }
                                    _ => self.konst(w, 0),
                                };
                            }
                        }
                    }
                }
            }
            Op::URem => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let k = self.konst(w, c - 1);
                        return self.bin(Op::And, a, k);
                    }
                    if self.umax(a) < c && c != 0 {
                        return a;
                    }
                }
            }
            Op::SDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            Op::Shl => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let c = c as u32;
                    let lo = self.extract(a, 0, w - c);
                    let z = self.konst(c, 0);
                    return self.concat(lo, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let c = c as u32;
                    let hi = self.extract(a, c, w - c);
                    return self.zext(hi, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let c = (c.min(w as u128 - 1)) as u32;
                    let hi = self.extract(a, c, w - c);
                    return self.sext(hi, w);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == m {
                        return a;
                    }
                    if (c + 1).is_power_of_two() {
                        let k = (c + 1).trailing_zeros();
                        let lo = self.extract(a, 0, k);
                        return self.zext(lo, w);
                    }
                    if na.op == Op::And {
                        if let Some(c2) = self.as_const(na.b) {
                            let k = self.konst(w, c & c2);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let k = self.konst(iw, c);
                        let x = self.bin(Op::And, na.a, k);
                        return self.zext(x, w);
                    }
                    if na.op == Op::Ite {
                        if let (Some(x), Some(y)) = (self.as_const(na.b), self.as_const(na.c)) {
                            let kx = self.konst(w, x & c);
                            let ky = self.konst(w, y & c);
                            return self.ite(na.a, kx, ky);
                        }
                    }
                }
                if w == 1 && (self.not_of(a) == Some(b) || self.not_of(b) == Some(a)) {
                    return self.f();
                }
                let nb = self.n(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let x = self.bin(Op::And, na.a, nb.a);
                    return self.zext(x, w);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                }
                if w == 1 && (self.not_of(a) == Some(b) || self.not_of(b) == Some(a)) {
                    return self.t();
                }
                // disjoint pieces -> concat
                let nb = self.n(b);
                for (x, y) in [((a, na), (b, nb)), ((b, nb), (a, na))] {
                    let ((_, nx), (_, ny)) = (x, y);
                    if nx.op == Op::Concat {
                        let lw = self.w(nx.b);
                        if self.as_const(nx.b) == Some(0) {
                            if ny.op == Op::ZExt && self.w(ny.a) <= lw {
                                let lo = self.zext(ny.a, lw);
                                return self.concat(nx.a, lo);
                            }
                            if ny.op == Op::Const {
                                let v = self.consts[ny.a as usize];
                                if v >> lw == 0 {
                                    let lo = self.konst(lw, v);
                                    return self.concat(nx.a, lo);
                                }
                            }
                        }
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let x = self.bin(Op::Or, na.a, nb.a);
                    return self.zext(x, w);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt {
                    let iw = self.w(na.a).max(self.w(nb.a));
                    let x = self.zext(na.a, iw);
                    let y = self.zext(nb.a, iw);
                    let z = self.bin(Op::Or, x, y);
                    return self.zext(z, w);
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if na.op == Op::Xor {
                        if let Some(c2) = self.as_const(na.b) {
                            let k = self.konst(w, c ^ c2);
                            return self.bin(Op::Xor, na.a, k);
                        }
                    }
                    if na.op == Op::ZExt && c >> self.w(na.a) == 0 {
                        let iw = self.w(na.a);
                        let k = self.konst(iw, c);
                        let x = self.bin(Op::Xor, na.a, k);
                        return self.zext(x, w);
                    }
                    if na.op == Op::Ite {
                        if let (Some(x), Some(y)) = (self.as_const(na.b), self.as_const(na.c)) {
                            let kx = self.konst(w, x ^ c);
                            let ky = self.konst(w, y ^ c);
                            return self.ite(na.a, kx, ky);
                        }
                    }
                }
            }
            Op::Eq => {
                if let (Some(0), Some((n, d))) = (self.as_const(b), self.udiv_const(a)) {
                    let k = self.konst(self.w(n), d);
                    return self.bin(Op::Ult, n, k);
                }
                if a == b {
                    return self.t();
                }
                if w == 1 {
                    if let Some(c) = cb {
                        return if c == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(c) = cb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if c >> iw != 0 {
                                return self.f();
                            }
                            let k = self.konst(iw, c);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let k = c & ones(iw);
                            if (sext(k, iw) as u128) & m != c {
                                return self.f();
                            }
                            let k = self.konst(iw, k);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Add => {
                            if let Some(c2) = self.as_const(na.b) {
                                let k = self.konst(w, c.wrapping_sub(c2));
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(c2) = self.as_const(na.b) {
                                let k = self.konst(w, c ^ c2);
                                return self.bin(Op::Eq, na.a, k);
                            }
                            if c == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Sub => {
                            if c == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Ite => {
                            let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                            if x.is_some() || y.is_some() {
                                let ex = self.bin(Op::Eq, na.b, b);
                                let ey = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, ex, ey);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let kl = self.konst(lw, c);
                            let kh = self.konst(hw, c >> lw);
                            let e1 = self.bin(Op::Eq, na.a, kh);
                            let e2 = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, e1, e2);
                        }
                        Op::Or if c == 0 => {
                            let z = self.konst(w, 0);
                            let e1 = self.bin(Op::Eq, na.a, z);
                            let e2 = self.bin(Op::Eq, na.b, z);
                            return self.bin(Op::And, e1, e2);
                        }
                        _ => {}
                    }
                    if self.umax(a) < c {
                        return self.f();
                    }
                } else {
                    let nb = self.n(b);
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                        let e1 = self.bin(Op::Eq, na.a, nb.a);
                        let e2 = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, e1, e2);
                    }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if w == 1 {
                        if self.not_of(a) == Some(b) || self.not_of(b) == Some(a) {
                            return self.f();
                        }
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.f();
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return self.f();
                    }
                    if self.umax(a) < c {
                        return self.t();
                    }
                    if let Some((n, d)) = self.udiv_const(a) {
                        // n / d < c  <=>  n < c * d
                        return match c.checked_mul(d) {
                            Some(p) if p <= m => {
                                let k = self.konst(w, p);
                                self.bin(Op::Ult, n, k)
                            }
                            _ => self.t(),
                        };
                    }
                    if c == 1 {
                        let z = self.konst(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let k = self.konst(iw, c); // c <= umax(a) fits
                        return self.bin(Op::Ult, na.a, k);
                    }
                    if na.op == Op::Ite {
                        if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() {
                            let x = self.bin(Op::Ult, na.b, b);
                            let y = self.bin(Op::Ult, na.c, b);
                            return self.ite(na.a, x, y);
                        }
                    }
                }
                if let Some(c) = ca {
                    if c == m {
                        return self.f();
                    }
                    if self.umax(b) <= c {
                        return self.f();
                    }
                    let nb = self.n(b);
                    if let Some((n, d)) = self.udiv_const(b) {
                        // c < n / d  <=>  n >= (c + 1) * d
                        return match (c + 1).checked_mul(d) {
                            Some(p) if p <= m => {
                                let k = self.konst(w, p);
                                self.bin(Op::Ule, k, n)
                            }
                            _ => self.f(),
                        };
                    }
                    if c == 0 {
                        let z = self.konst(w, 0);
                        let e = self.bin(Op::Eq, b, z);
                        return self.not(e);
                    }
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        let k = self.konst(iw, c);
                        return self.bin(Op::Ult, k, nb.a);
                    }
                }
                let nb = self.n(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
            }
            Op::Ule => {
                if a == b {
                    return self.t();
                }
                if let Some(c) = cb {
                    if c == m {
                        return self.t();
                    }
                    let k = self.konst(w, c + 1);
                    return self.bin(Op::Ult, a, k);
                }
                if let Some(c) = ca {
                    if c == 0 {
                        return self.t();
                    }
                    let k = self.konst(w, c - 1);
                    return self.bin(Op::Ult, k, b);
                }
                let nb = self.n(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ule, na.a, nb.a);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.f();
                }
                let nb = self.n(b);
                let pa = self.umax(a) >> (w - 1) == 0;
                let pb = self.umax(b) >> (w - 1) == 0;
                if pa && pb {
                    return self.bin(Op::Ult, a, b);
                }
                if let Some(c) = cb {
                    if c == 1u128 << (w - 1) {
                        return self.f();
                    }
                    if pa && c >> (w - 1) == 1 {
                        return self.f();
                    }
                    if na.op == Op::SExt {
                        let iw = self.w(na.a);
                        let sc = sext(c, w);
                        let lo = -(1i128 << (iw - 1));
                        let hi = (1i128 << (iw - 1)) - 1;
                        if sc > hi {
                            return self.t();
                        }
                        if sc <= lo {
                            return self.f();
                        }
                        let k = self.konst(iw, sc as u128);
                        return self.bin(Op::Slt, na.a, k);
                    }
                    if na.op == Op::Ite && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
                        let x = self.bin(Op::Slt, na.b, b);
                        let y = self.bin(Op::Slt, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if let Some(c) = ca {
                    if c == m >> 1 {
                        return self.f();
                    }
                    if pb && c >> (w - 1) == 1 {
                        return self.t();
                    }
                    if nb.op == Op::SExt {
                        let iw = self.w(nb.a);
                        let sc = sext(c, w);
                        let lo = -(1i128 << (iw - 1));
                        let hi = (1i128 << (iw - 1)) - 1;
                        if sc >= hi {
                            return self.f();
                        }
                        if sc < lo {
                            return self.t();
                        }
                        let k = self.konst(iw, sc as u128);
                        return self.bin(Op::Slt, k, nb.a);
                    }
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Slt, na.a, nb.a);
                }
            }
            Op::Sle => {
                if a == b {
                    return self.t();
                }
                if let Some(c) = cb {
                    if c == m >> 1 {
                        return self.t();
                    }
                    let k = self.konst(w, c.wrapping_add(1));
                    return self.bin(Op::Slt, a, k);
                }
                if let Some(c) = ca {
                    if c == 1u128 << (w - 1) {
                        return self.t();
                    }
                    let k = self.konst(w, c.wrapping_sub(1));
                    return self.bin(Op::Slt, k, b);
                }
                let nb = self.n(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ule, na.a, nb.a);
                }
            }
            _ => {}
        }
        self.raw(op, rw, a, b, 0)
    }

    pub fn ite(&mut self, c: ExprId, a: ExprId, b: ExprId) -> ExprId {
        if let Some(v) = self.as_const(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(nc) = self.not_of(c) {
            return self.ite(nc, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite(c, zext x, zext y) -> zext ite
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        self.raw(Op::Ite, w, c, a, b)
    }

    pub fn zext(&mut self, a: ExprId, w: u32) -> ExprId {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        if let Some(c) = self.as_const(a) {
            return self.konst(w, c);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.as_const(n.b), self.as_const(n.c)) {
                let kx = self.konst(w, x);
                let ky = self.konst(w, y);
                return self.ite(n.a, kx, ky);
            }
        }
        self.raw(Op::ZExt, w, a, 0, 0)
    }

    pub fn sext(&mut self, a: ExprId, w: u32) -> ExprId {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return self.konst(w, sext(c, aw) as u128);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.as_const(n.b), self.as_const(n.c)) {
                let kx = self.konst(w, sext(x, aw) as u128);
                let ky = self.konst(w, sext(y, aw) as u128);
                return self.ite(n.a, kx, ky);
            }
        }
        self.raw(Op::SExt, w, a, 0, 0)
    }

    pub fn extract(&mut self, a: ExprId, lo: u32, w: u32) -> ExprId {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "extract {lo}+{w} of {aw}");
        if w == aw {
            return a;
        }
        if let Some(c) = self.as_const(a) {
            return self.konst(w, c >> lo);
        }
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, iw - 1, 1);
                return self.sext(x, w);
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let (oa, ob) = (self.n(n.a).op, self.n(n.b).op);
                let easy = |o: Op| matches!(o, Op::ZExt | Op::SExt | Op::Const | Op::Concat);
                if easy(oa) && easy(ob) {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            _ => {}
        }
        self.raw(Op::Extract, w, a, lo, 0)
    }

    /// a is the high part.
    pub fn concat(&mut self, a: ExprId, b: ExprId) -> ExprId {
        let (aw, bw) = (self.w(a), self.w(b));
        let w = aw + bw;
        assert!(w <= 128);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(w, (x << bw) | y);
        }
        if ca == Some(0) {
            return self.zext(b, w);
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.b == nb.b + bw {
            return self.extract(na.a, nb.b, w);
        }
        // concat(extract(x, k..), x) where x is the low k bits of ... (x itself an extract handled above)
        if na.op == Op::Extract && na.a == b && false {
            unreachable!()
        }
        // b = concat(b1, b0): re-associate to the right if the junction merges
        if nb.op == Op::Concat {
            let nb1 = self.n(nb.a);
            if na.op == Op::Extract && nb1.op == Op::Extract && na.a == nb1.a && na.b == nb1.b + nb1.w as u32 {
                let h = self.concat(a, nb.a);
                return self.concat(h, nb.b);
            }
        }
        if na.op == Op::Concat {
            let na0 = self.n(na.b);
            if na0.op == Op::Extract && nb.op == Op::Extract && na0.a == nb.a && na0.b == nb.b + bw {
                let l = self.concat(na.b, b);
                return self.concat(na.a, l);
            }
            // canonical: right-nested
            let l = self.concat(na.b, b);
            return self.concat(na.a, l);
        }
        if na.op == Op::ZExt {
            // concat(zext x, b) = zext(concat(x,b))
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        self.raw(Op::Concat, w, a, b, 0)
    }

    pub fn un(&mut self, op: Op, w: u32, a: ExprId, c: u32) -> ExprId {
        let aw = self.w(a);
        if let Some(x) = self.as_const(a) {
            let v = eval_op(op, w, aw, x, 0, 0, 0, c);
            return self.konst(w, v);
        }
        self.raw(op, w, a, 0, c)
    }

    pub fn neg(&mut self, a: ExprId) -> ExprId {
        let w = self.w(a);
        let z = self.konst(w, 0);
        self.bin(Op::Sub, z, a)
    }

    pub fn show(&self, e: ExprId, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("v{}:{}", n.a, n.w),
            _ if depth == 0 => "..".to_string(),
            Op::Extract => format!("Extract[{}+{}]({})", n.b, n.w, self.show(n.a, depth - 1)),
            Op::ZExt | Op::SExt | Op::FSqrt | Op::FRound | Op::FIsNan | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF | Op::FConv => {
                format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1))
            }
            Op::Ite => format!("ite({}, {}, {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }

    /// Evaluate under an assignment. `memo` must belong to that assignment.
    /// The value of `e`, which depends on one variable only, when that variable is `x`.
    pub fn eval1(&self, e: ExprId, x: u128) -> u128 {
        let mut m = self.memo1.borrow_mut();
        m.clear();
        self.eval(e, &|_| x, &mut m)
    }
    pub fn eval(&self, e: ExprId, vars: &dyn Fn(u32) -> u128, memo: &mut FxHashMap<ExprId, u128>) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return vars(n.a) & ones(n.w as u32),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let v = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Var => vars(n.a) & ones(n.w as u32),
                Op::Ite => {
                    let c = match memo.get(&n.a) {
                        Some(&c) => c,
                        None => {
                            stack.push(n.a);
                            continue;
                        }
                    };
                    let k = if c != 0 { n.b } else { n.c };
                    match memo.get(&k) {
                        Some(&v) => v,
                        None => {
                            stack.push(k);
                            continue;
                        }
                    }
                }
                Op::ZExt | Op::SExt | Op::Extract | Op::FSqrt | Op::FRound | Op::FIsNan | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF | Op::FConv => {
                    match memo.get(&n.a) {
                        Some(&a) => eval_op(n.op, n.w as u32, self.w(n.a), a, 0, 0, n.b, n.c),
                        None => {
                            stack.push(n.a);
                            continue;
                        }
                    }
                }
                _ => {
                    let a = memo.get(&n.a).copied();
                    let b = memo.get(&n.b).copied();
                    match (a, b) {
                        (Some(a), Some(b)) => {
                            if n.op == Op::Concat {
                                (a << self.w(n.b)) | b
                            } else {
                                eval_op(n.op, n.w as u32, self.w(n.a), a, b, 0, n.b, n.c)
                            }
                        }
                        _ => {
                            if a.is_none() {
                                stack.push(n.a);
                            }
                            if b.is_none() {
                                stack.push(n.b);
                            }
                            continue;
                        }
                    }
                }
            };
            memo.insert(x, v);
            stack.pop();
        }
        memo[&e]
    }
}
