//! Native side of the harness API: used when a model is replayed against the compiled code.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

struct Replay {
    inputs: Vec<u128>,
    pos: usize,
    trace: Vec<(u32, u128)>,
    covers: Vec<u32>,
    out: i32,
}
static mut REPLAY: Option<Replay> = None;
static SYMBOLIC: AtomicBool = AtomicBool::new(false);

pub const EXIT_INPUT: i32 = 91;
pub const EXIT_ASSUME: i32 = 92;
pub const EXIT_ASSERT: i32 = 93;

#[allow(static_mut_refs)]
fn rp() -> &'static mut Replay {
    unsafe { REPLAY.as_mut().expect("harness API used outside a replay") }
}
extern "C" {
    fn fork() -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(a: i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
    fn setrlimit(r: i32, l: *const u64) -> i32;
}
fn put(fd: i32, s: &str) {
    let b = s.as_bytes();
    let mut k = 0;
    while k < b.len() {
        let n = unsafe { write(fd, b.as_ptr().add(k), b.len() - k) };
        if n <= 0 {
            return;
        }
        k += n as usize;
    }
}
fn end(code: i32, extra: &str) -> ! {
    let r = rp();
    let mut s = String::new();
    for (t, v) in &r.trace {
        s.push_str(&format!("O {t} {v}\n"));
    }
    for t in &r.covers {
        s.push_str(&format!("C {t}\n"));
    }
    s.push_str(extra);
    s.push_str("E\n");
    put(r.out, &s);
    unsafe { _exit(code) }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn ferro_sym(bits: u32) -> u64 {
    let r = rp();
    if r.pos >= r.inputs.len() {
        end(EXIT_INPUT, "");
    }
    let v = r.inputs[r.pos] as u64;
    r.pos += 1;
    if bits >= 64 {
        v
    } else {
        v & ((1 << bits) - 1)
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn ferro_assume(c: bool) {
    if !c {
        end(EXIT_ASSUME, "");
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn ferro_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        end(EXIT_ASSERT, &format!("A {m}\n"));
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn ferro_fail(p: *const u8, n: usize) {
    ferro_assert(std::hint::black_box(false), p, n)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn ferro_cover(t: u32) {
    rp().covers.push(t);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn ferro_observe(t: u32, v: u64) {
    rp().trace.push((t, v as u128));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn ferro_concretize(v: u64) -> u64 {
    std::hint::black_box(v)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn ferro_live() -> i64 {
    LIVE.load(Relaxed)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn ferro_is_sym(v: u64) -> bool {
    std::hint::black_box(v) == 0 && SYMBOLIC.load(Relaxed)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn ferro_symbolic() -> bool {
    SYMBOLIC.load(Relaxed)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn ferro_stop() {
    end(0, "");
}

#[derive(Debug, Clone, Default)]
pub struct Outcome {
    pub signal: i32,
    pub code: i32,
    pub assert: Option<String>,
    pub trace: Vec<(u32, u128)>,
    pub covers: Vec<u32>,
    pub text: String,
}

/// Run `f` natively in a forked child with the given inputs.
pub fn replay(f: impl FnOnce(), inputs: &[u128], secs: u32) -> Outcome {
    unsafe {
        let mut p = [0i32; 2];
        let mut q = [0i32; 2];
        pipe(p.as_mut_ptr());
        pipe(q.as_mut_ptr());
        let pid = fork();
        if pid == 0 {
            close(p[0]);
            close(q[0]);
            dup2(q[1], 2);
            dup2(q[1], 1);
            setrlimit(4, [0u64, 0].as_ptr());
            alarm(secs);
            REPLAY = Some(Replay { inputs: inputs.to_vec(), pos: 0, trace: vec![], covers: vec![], out: p[1] });
            f();
            end(0, "");
        }
        close(p[1]);
        close(q[1]);
        let slurp = |fd: i32| {
            let mut v = vec![];
            let mut b = [0u8; 4096];
            loop {
                let n = read(fd, b.as_mut_ptr(), 4096);
                if n <= 0 {
                    break;
                }
                if v.len() < 1 << 22 {
                    v.extend_from_slice(&b[..n as usize]);
                }
            }
            close(fd);
            String::from_utf8_lossy(&v).into_owned()
        };
        // the trace pipe is written at the very end, so draining stderr first cannot block the child for long
        let text = slurp(q[0]);
        let tr = slurp(p[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let mut o = Outcome { signal: st & 127, code: (st >> 8) & 255, text, ..Default::default() };
        for l in tr.lines() {
            let mut it = l.splitn(3, ' ');
            match it.next() {
                Some("O") => {
                    let t = it.next().unwrap_or("0").parse().unwrap_or(0);
                    let v = it.next().unwrap_or("0").parse().unwrap_or(0);
                    o.trace.push((t, v));
                }
                Some("C") => o.covers.push(it.next().unwrap_or("0").parse().unwrap_or(0)),
                Some("A") => o.assert = Some(l[2..].to_string()),
                _ => {}
            }
        }
        o
    }
}

/// Run `f` natively in this process with the given inputs (which must be known to end well).
pub fn warm(f: impl FnOnce(), inputs: &[u128]) {
    unsafe {
        REPLAY = Some(Replay { inputs: inputs.to_vec(), pos: 0, trace: vec![], covers: vec![], out: -1 });
        f();
        REPLAY = None;
    }
}
