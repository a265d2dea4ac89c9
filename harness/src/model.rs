//! Reference functions, written independently of the implementation, for laws to compare against.
use ferlium::{
    CompilerSession, Path,
    hir::function::*,
    module::Module,
    std::{math::Float, string::String as FStr},
    types::effects::no_effects,
};

fn wrap(x: i128) -> isize {
    x as u64 as i64 as isize
}
fn add(a: isize, b: isize) -> isize {
    wrap(a as i128 + b as i128)
}
fn sub(a: isize, b: isize) -> isize {
    wrap(a as i128 - b as i128)
}
fn mul(a: isize, b: isize) -> isize {
    a.wrapping_mul(b)
}
fn neg(a: isize) -> isize {
    wrap(-(a as i128))
}
fn lt(a: isize, b: isize) -> bool {
    a < b
}
fn eq(a: isize, b: isize) -> bool {
    a == b
}
fn shl(a: isize, n: isize) -> isize {
    ((a as u64) << (n as u64 & 63)) as isize
}
fn ashr(a: isize, n: isize) -> isize {
    ((a as i64) >> (n as u64 & 63)) as isize
}
fn lshr(a: isize, n: isize) -> isize {
    ((a as u64) >> (n as u64 & 63)) as isize
}
/// the quotient rounded toward zero; the divisor is not zero
fn tdiv(a: isize, b: isize) -> isize {
    if b == -1 { neg(a) } else if b == 0 { 0 } else { a / b }
}
fn trem(a: isize, b: isize) -> isize {
    if b == -1 || b == 0 { 0 } else { a % b }
}
/// the quotient whose remainder is never negative
fn ediv(a: isize, b: isize) -> isize {
    let (q, r) = (tdiv(a, b), trem(a, b));
    if r >= 0 { q } else if b > 0 { sub(q, 1) } else { add(q, 1) }
}
fn emod(a: isize, b: isize) -> isize {
    let r = trem(a, b);
    if r >= 0 { r } else if b > 0 { add(r, b) } else { sub(r, b) }
}
fn popcount(a: isize) -> isize {
    let mut n = 0;
    let mut k = 0;
    while k < 64 {
        n += (a >> k) & 1;
        k += 1;
    }
    n
}
fn rotl(a: isize, n: isize) -> isize {
    let u = a as u64;
    let k = (n & 63) as u64;
    if k == 0 { a } else { ((u << k) | (u >> (64 - k))) as isize }
}
fn bitat(n: isize) -> isize {
    if n >= 0 && n < 64 { ((1u64) << n) as isize } else { 0 }
}
fn trunc(a: Float) -> isize {
    let f = a.into_inner();
    if f >= 9223372036854775808.0 { isize::MAX } else if f <= -9223372036854775808.0 { isize::MIN } else { f as isize }
}
fn tofloat(a: isize) -> Float {
    Float::new(a as f64).expect("finite")
}
fn ffloor(a: Float) -> isize {
    trunc(Float::new(a.into_inner().floor()).expect("finite"))
}
fn fceil(a: Float) -> isize {
    trunc(Float::new(a.into_inner().ceil()).expect("finite"))
}
fn fround(a: Float) -> isize {
    trunc(Float::new(a.into_inner().round()).expect("finite"))
}
fn fneg(a: Float) -> Float {
    Float::new(-a.into_inner()).expect("finite")
}
fn fabs(a: Float) -> Float {
    Float::new(f64::from_bits(a.into_inner().to_bits() & !(1 << 63))).expect("finite")
}
fn fsqrt(a: Float) -> Float {
    sat(a.into_inner().sqrt())
}
fn same_bits(a: Float, b: Float) -> bool {
    a.into_inner().to_bits() == b.into_inner().to_bits()
}
fn band(a: isize, b: isize) -> isize {
    a & b
}
fn bor(a: isize, b: isize) -> isize {
    a | b
}
fn bxor(a: isize, b: isize) -> isize {
    a ^ b
}
fn fbits(a: Float) -> isize {
    a.into_inner().to_bits() as isize
}
fn sat(r: f64) -> Float {
    // finite saturation
    let r = if r > f64::MAX { f64::MAX } else if r < -f64::MAX { -f64::MAX } else { r };
    Float::new(r).expect("finite")
}
fn fadd(a: Float, b: Float) -> Float {
    sat(a.into_inner() + b.into_inner())
}
fn fsub(a: Float, b: Float) -> Float {
    sat(a.into_inner() - b.into_inner())
}
fn fmul(a: Float, b: Float) -> Float {
    sat(a.into_inner() * b.into_inner())
}
fn fdiv(a: Float, b: Float) -> Float {
    sat(a.into_inner() / b.into_inner())
}
fn flt(a: Float, b: Float) -> bool {
    a.into_inner() < b.into_inner()
}
fn feq(a: Float, b: Float) -> bool {
    a.into_inner() == b.into_inner()
}
fn bytes(s: &FStr) -> isize {
    s.as_ref().len() as isize
}
/// byte at `i`, or -1
fn byte(s: &FStr, i: isize) -> isize {
    if i >= 0 && (i as usize) < s.as_ref().len() { s.as_ref().as_bytes()[i as usize] as isize } else { -1 }
}
/// The invariant of the string type: well-formed UTF-8.
fn valid(s: &FStr) -> bool {
    std::str::from_utf8(s.as_ref().as_bytes()).is_ok()
}
fn str_eq(a: &FStr, b: &FStr) -> bool {
    let (a, b) = (a.as_ref().as_bytes(), b.as_ref().as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// -1, 0 or 1: byte-wise lexicographic order
fn str_cmp(a: &FStr, b: &FStr) -> isize {
    let (a, b) = (a.as_ref().as_bytes(), b.as_ref().as_bytes());
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] < b[i] {
            return -1;
        }
        if a[i] > b[i] {
            return 1;
        }
        i += 1;
    }
    (a.len() > b.len()) as isize - ((a.len() < b.len()) as isize)
}
/// index of the first occurrence of `b` in `a`, or -1
fn str_find(a: &FStr, b: &FStr, from: isize) -> isize {
    let (a, b) = (a.as_ref().as_bytes(), b.as_ref().as_bytes());
    let mut i = from as usize;
    while i + b.len() <= a.len() {
        let mut d = 0;
        for k in 0..b.len() {
            d |= a[i + k] ^ b[k];
        }
        if d == 0 {
            return i as isize;
        }
        i += 1;
    }
    -1
}

pub fn register(s: &mut CompilerSession) {
    let mut m = Module::new(s.modules().next_id(), Path::single_str("model"));
    macro_rules! f {
        ($n:literal, $t:ident, $f:expr, [$($a:literal),*]) => {
            m.add_function($n.into(), $t::description_with_default_ty($f, [$($a),*], "reference", no_effects()));
        };
    }
    f!("add", BinaryNativeFnNNN, add, ["a", "b"]);
    f!("sub", BinaryNativeFnNNN, sub, ["a", "b"]);
    f!("mul", BinaryNativeFnNNN, mul, ["a", "b"]);
    f!("neg", UnaryNativeFnNN, neg, ["a"]);
    f!("lt", BinaryNativeFnNNN, lt, ["a", "b"]);
    f!("eq", BinaryNativeFnNNN, eq, ["a", "b"]);
    f!("shl", BinaryNativeFnNNN, shl, ["a", "b"]);
    f!("ashr", BinaryNativeFnNNN, ashr, ["a", "b"]);
    f!("lshr", BinaryNativeFnNNN, lshr, ["a", "b"]);
    f!("tdiv", BinaryNativeFnNNN, tdiv, ["a", "b"]);
    f!("trem", BinaryNativeFnNNN, trem, ["a", "b"]);
    f!("ediv", BinaryNativeFnNNN, ediv, ["a", "b"]);
    f!("emod", BinaryNativeFnNNN, emod, ["a", "b"]);
    f!("popcount", UnaryNativeFnNN, popcount, ["a"]);
    f!("rotl", BinaryNativeFnNNN, rotl, ["a", "n"]);
    f!("bitat", UnaryNativeFnNN, bitat, ["n"]);
    f!("trunc", UnaryNativeFnNN, trunc, ["a"]);
    f!("tofloat", UnaryNativeFnNN, tofloat, ["a"]);
    f!("ffloor", UnaryNativeFnNN, ffloor, ["a"]);
    f!("fceil", UnaryNativeFnNN, fceil, ["a"]);
    f!("fround", UnaryNativeFnNN, fround, ["a"]);
    f!("fneg", UnaryNativeFnNN, fneg, ["a"]);
    f!("fabs", UnaryNativeFnNN, fabs, ["a"]);
    f!("fsqrt", UnaryNativeFnNN, fsqrt, ["a"]);
    f!("same_bits", BinaryNativeFnNNN, same_bits, ["a", "b"]);
    f!("band", BinaryNativeFnNNN, band, ["a", "b"]);
    f!("bor", BinaryNativeFnNNN, bor, ["a", "b"]);
    f!("bxor", BinaryNativeFnNNN, bxor, ["a", "b"]);
    f!("fbits", UnaryNativeFnNN, fbits, ["a"]);
    f!("fadd", BinaryNativeFnNNN, fadd, ["a", "b"]);
    f!("fsub", BinaryNativeFnNNN, fsub, ["a", "b"]);
    f!("fmul", BinaryNativeFnNNN, fmul, ["a", "b"]);
    f!("fdiv", BinaryNativeFnNNN, fdiv, ["a", "b"]);
    f!("flt", BinaryNativeFnNNN, flt, ["a", "b"]);
    f!("feq", BinaryNativeFnNNN, feq, ["a", "b"]);
    f!("bytes", UnaryNativeFnRN, bytes, ["s"]);
    f!("byte", BinaryNativeFnRNN, byte, ["s", "i"]);
    f!("valid", UnaryNativeFnRN, valid, ["s"]);
    f!("str_eq", BinaryNativeFnRRN, str_eq, ["a", "b"]);
    f!("str_cmp", BinaryNativeFnRRN, str_cmp, ["a", "b"]);
    f!("str_find", TernaryNativeFnRRNN, str_find, ["a", "b", "from"]);
    s.register_module(Path::single_str("model"), m);
}
