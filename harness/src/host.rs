//! Host side of the checks: the `sym` and `model` modules Ferlium programs under test import.
use ferlium::{
    hir::value::Value,
    std::{array::{array_type, array_value_from_vec}, buffer::Buffer, math::int_type},
    types::r#type::{FnType, Type},
    CompilerSession, Path,
    compiler::error::SourceFailureKind,
    hir::function::*,
    module::Module,
    std::string::String as FStr,
    types::effects::{EffType, PrimitiveEffect, effect, effects, no_effects},
};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

unsafe extern "C" {
    pub fn ferro_sym(bits: u32) -> u64;
    pub fn ferro_assume(c: bool);
    pub fn ferro_assert(c: bool, p: *const u8, n: usize);
    pub fn ferro_fail(p: *const u8, n: usize);
    pub fn ferro_cover(t: u32);
    pub fn ferro_observe(t: u32, v: u64);
    pub fn ferro_concretize(v: u64) -> u64;
    pub fn ferro_live() -> i64;
    pub fn ferro_is_sym(v: u64) -> bool;
}
pub fn sym(bits: u32) -> u64 {
    unsafe { ferro_sym(bits) }
}
pub fn assume(c: bool) {
    unsafe { ferro_assume(c) }
}
pub fn check(c: bool, m: &str) {
    unsafe { ferro_assert(c, m.as_ptr(), m.len()) }
}
pub fn fail(m: &str) {
    unsafe { ferro_fail(m.as_ptr(), m.len()) }
}
pub fn cover(t: u32) {
    unsafe { ferro_cover(t) }
}
pub fn observe(t: u32, v: u64) {
    unsafe { ferro_observe(t, v) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { ferro_concretize(v) }
}
pub fn live() -> i64 {
    unsafe { ferro_live() }
}
/// A symbolic number in `0..=max`, decided by forking: each value becomes its own path.
pub fn choose(max: u64) -> u64 {
    if max == 0 {
        return 0;
    }
    let v = sym(64);
    assume(v <= max);
    conc(v)
}

pub const KEYS: usize = 64;
pub struct Host {
    pub set: [u8; KEYS],
    pub val: [u64; KEYS],
    pub log: Vec<u64>,
    pub drops: Vec<u64>,
    pub made: Vec<u64>,
    pub tracked: isize,
    pub prop: isize,
    pub prop_array: Vec<isize>,
    /// effects performed so far: 1 read, 2 write
    pub eff: u64,
}
static mut HOST: Host = Host { set: [0; KEYS], val: [0; KEYS], log: Vec::new(), drops: Vec::new(), made: Vec::new(), tracked: 0, prop: 0, prop_array: Vec::new(), eff: 0 };
#[allow(static_mut_refs)]
pub fn host() -> &'static mut Host {
    unsafe { &mut HOST }
}
impl Host {
    pub fn reserve(&mut self) {
        self.log.reserve(1024);
        self.drops.reserve(1024);
        self.made.reserve(1024);
        self.prop_array.reserve(256);
    }
    pub fn begin_path(&mut self) {
        self.set = [0; KEYS];
        self.begin_mode();
    }
    pub fn begin_mode(&mut self) {
        self.log.clear();
        self.drops.clear();
        self.made.clear();
        self.tracked = 0;
        self.prop = 0;
        self.eff = 0;
        self.prop_array.clear();
    }
}
fn input(k: isize, bits: u32) -> u64 {
    let h = host();
    let k = k as usize;
    assert!(k < KEYS, "sym key");
    if h.set[k] == 0 {
        h.set[k] = 1;
        h.val[k] = sym(bits);
    }
    h.val[k]
}
fn s_int(k: isize) -> isize {
    input(k, 64) as isize
}
fn s_bool(k: isize) -> bool {
    input(k, 1) != 0
}
/// 0..=n, still symbolic
fn s_upto(k: isize, n: isize) -> isize {
    let fresh = host().set[k as usize] == 0;
    let v = input(k, 64);
    if fresh {
        assume(v <= n as u64);
    }
    v as isize
}
/// 0..=n, decided by forking: each value is its own path
fn s_pick(k: isize, n: isize) -> isize {
    let v = s_upto(k, n) as u64;
    let v = conc(v);
    host().val[k as usize] = v;
    v as isize
}
fn s_range(k: isize, lo: isize, hi: isize) -> isize {
    let fresh = host().set[k as usize] == 0;
    let v = input(k, 64) as isize;
    if fresh {
        // one comparison, branch-free
        assume((v.wrapping_sub(lo) as u64) <= (hi.wrapping_sub(lo) as u64));
    }
    v
}
fn s_float(k: isize) -> ferlium::std::math::Float {
    mk_float(input(k, 64))
}
pub fn mk_float(bits: u64) -> ferlium::std::math::Float {
    let f = f64::from_bits(bits);
    assume((bits >> 52) & 0x7ff != 0x7ff);
    ferlium::std::math::Float::new(f).expect("finite")
}
fn s_assume(c: bool) {
    assume(c)
}
fn s_log(x: isize) {
    host().eff |= 2;
    host().log.push(x as u64);
}
fn s_log_str(x: &FStr) {
    host().eff |= 2;
    let h = host();
    h.log.push(x.as_ref().len() as u64);
    for b in x.as_ref().bytes() {
        h.log.push(b as u64);
    }
}
fn s_made(x: isize) {
    host().made.push(x as u64);
}
fn s_dropped(x: isize) {
    host().drops.push(x as u64);
}
/// number of values made minus values dropped so far
fn s_balance() -> isize {
    host().eff |= 1;
    let h = host();
    h.made.len() as isize - h.drops.len() as isize
}
fn s_drops() -> isize {
    host().eff |= 1;
    host().drops.len() as isize
}
fn s_check(c: bool) {
    check(c, "sym::check failed");
}
fn s_cover(k: isize) {
    cover(k as u32);
}
fn s_fail(c: bool) -> Result<(), SourceFailureKind> {
    if c { Err(SourceFailureKind::Aborted(None)) } else { Ok(()) }
}
static COUNTER: AtomicU64 = AtomicU64::new(0);
pub fn reset_counter() {
    COUNTER.store(0, Relaxed)
}
fn s_rd(x: isize) -> isize {
    host().eff |= 1;
    x
}
fn s_wr(x: isize) -> isize {
    host().eff |= 2;
    x
}
fn s_tick() -> isize {
    host().eff |= 3;
    COUNTER.fetch_add(1, Relaxed) as isize
}

fn rd() -> EffType {
    effect(PrimitiveEffect::Read)
}
fn wr() -> EffType {
    effect(PrimitiveEffect::Write)
}

pub fn register(s: &mut CompilerSession) {
    let mut m = Module::new(s.modules().next_id(), Path::single_str("sym"));
    macro_rules! f {
        ($n:literal, $t:ident, $f:expr, [$($a:literal),*], $e:expr) => {
            m.add_function($n.into(), $t::description_with_default_ty($f, [$($a),*], "check", $e));
        };
    }
    f!("i", UnaryNativeFnNN, s_int, ["k"], rd());
    f!("b", UnaryNativeFnNN, s_bool, ["k"], rd());
    f!("f", UnaryNativeFnNN, s_float, ["k"], rd());
    f!("upto", BinaryNativeFnNNN, s_upto, ["k", "n"], rd());
    f!("range", TernaryNativeFnNNNN, s_range, ["k", "lo", "hi"], rd());
    // pure: the compiler may run these while optimizing, which is the point
    f!("ki", UnaryNativeFnNN, s_int, ["k"], no_effects());
    f!("kb", UnaryNativeFnNN, s_bool, ["k"], no_effects());
    f!("kf", UnaryNativeFnNN, s_float, ["k"], no_effects());
    f!("pick", BinaryNativeFnNNN, s_pick, ["k", "n"], rd());
    f!("kupto", BinaryNativeFnNNN, s_upto, ["k", "n"], no_effects());
    f!("krange", TernaryNativeFnNNNN, s_range, ["k", "lo", "hi"], no_effects());
    f!("assume", UnaryNativeFnNN, s_assume, ["c"], wr());
    f!("log", UnaryNativeFnNN, s_log, ["x"], wr());
    f!("log_str", UnaryNativeFnRN, s_log_str, ["x"], wr());
    f!("made", UnaryNativeFnNN, s_made, ["x"], no_effects());
    f!("dropped", UnaryNativeFnNN, s_dropped, ["x"], no_effects());
    f!("balance", NullaryNativeFnN, s_balance, [], rd());
    f!("drops", NullaryNativeFnN, s_drops, [], rd());
    f!("check", UnaryNativeFnNN, s_check, ["c"], wr());
    f!("cover", UnaryNativeFnNN, s_cover, ["k"], wr());
    // identities with an effect
    f!("rd", UnaryNativeFnNN, s_rd, ["x"], rd());
    f!("wr", UnaryNativeFnNN, s_wr, ["x"], wr());
    f!("fail", UnaryNativeFnNFN, s_fail, ["c"], effects(&[PrimitiveEffect::Fallible]));
    f!("tick", NullaryNativeFnN, s_tick, [], effects(&[PrimitiveEffect::Read, PrimitiveEffect::Write]));
    s.register_module(Path::single_str("sym"), m);
    fixtures(s);
    crate::model::register(s);
}

// ---- the modules the repository's own test programs import ----

fn t_record(x: isize) {
    let h = host();
    h.tracked = h.tracked.wrapping_mul(10).wrapping_add(x);
    h.drops.push(x as u64);
}
fn t_reset() {
    host().eff |= 2;
    host().tracked = 0;
}
fn t_log() -> isize {
    host().eff |= 1;
    host().tracked
}
fn p_get() -> isize {
    host().eff |= 1;
    host().prop
}
fn p_set(x: isize) {
    host().eff |= 2;
    host().prop = x;
}
fn p_get_array() -> Value {
    host().eff |= 1;
    array_value_from_vec(host().prop_array.iter().copied().map(Value::native).collect())
}
fn p_set_array(v: &Value) {
    host().eff |= 2;
    let h = host();
    h.prop_array.clear();
    let Value::Tuple(fs) = v else { return };
    let b = fs[1].as_primitive_ty::<Buffer>().unwrap();
    let n = conc(*fs[2].as_primitive_ty::<isize>().unwrap() as u64) as usize;
    let st = conc(*fs[3].as_primitive_ty::<isize>().unwrap() as u64) as usize;
    for i in 0..n {
        h.prop_array.push(*b.get((st + i) % b.capacity()).unwrap().as_primitive_ty::<isize>().unwrap());
    }
}
fn nothing_r() {
    host().eff |= 1;
}
fn nothing_w() {
    host().eff |= 2;
}
fn nothing_rw() {
    host().eff |= 3;
}
fn nothing_v(_: &Value) {}

fn fixtures(s: &mut CompilerSession) {
    let ro = || effect(PrimitiveEffect::Read);
    let wo = || effect(PrimitiveEffect::Write);
    let mut m = Module::new(s.modules().next_id(), Path::single_str("testing"));
    m.add_function("record_tracked_drop".into(), UnaryNativeFnNN::description_with_default_ty(t_record, ["value"], "check", no_effects()));
    m.add_function("reset_tracked_drops".into(), NullaryNativeFnN::description_with_default_ty(t_reset, [], "check", wo()));
    m.add_function("tracked_drop_log".into(), NullaryNativeFnN::description_with_default_ty(t_log, [], "check", ro()));
    s.register_module(Path::single_str("testing"), m);
    let mut m = Module::new(s.modules().next_id(), Path::single_str("effects"));
    m.add_function("read".into(), NullaryNativeFnN::description_with_default_ty(nothing_r, [], "check", ro()));
    m.add_function("write".into(), NullaryNativeFnN::description_with_default_ty(nothing_w, [], "check", wo()));
    m.add_function(
        "read_write".into(),
        NullaryNativeFnN::description_with_default_ty(nothing_rw, [], "check", effects(&[PrimitiveEffect::Read, PrimitiveEffect::Write])),
    );
    m.add_function(
        "take_read".into(),
        UnaryNativeFnVN::description_with_in_ty(nothing_v, ["value"], "check", Type::function_type(FnType::new(vec![], Type::unit(), ro())), ro()),
    );
    s.register_module(Path::single_str("effects"), m);
    let mut m = Module::new(s.modules().next_id(), Path::single_str("props"));
    m.add_function("@get my_scope.my_var".into(), NullaryNativeFnN::description_with_default_ty(p_get, [], "check", ro()));
    m.add_function("@set my_scope.my_var".into(), UnaryNativeFnNN::description_with_default_ty(p_set, ["value"], "check", wo()));
    m.add_function(
        "@get my_scope.my_array".into(),
        NullaryNativeFnV::description_with_ty(p_get_array, [], "check", array_type(int_type()), ro()),
    );
    m.add_function(
        "@set my_scope.my_array".into(),
        UnaryNativeFnVN::description_with_in_ty(p_set_array, ["value"], "check", array_type(int_type()), wo()),
    );
    s.register_module(Path::single_str("props"), m);
}
