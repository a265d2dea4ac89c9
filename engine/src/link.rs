//! The program image: IR modules joined with the symbol table of the running executable.
use crate::fx::FxHashMap;
use crate::ir::*;

pub const SYNTH_BASE: u64 = 0x5000_0000_0000;

pub struct Sym {
    pub name: &'static str,
    pub def: Option<(usize, (usize, usize))>,
    pub addr: u64,
    pub func: Option<Result<&'static Func, String>>,
    pub special: i32, // cached special id, -1 = unknown yet, 0 = none
}

pub struct ElfSym {
    pub addr: u64,
    pub size: u64,
    pub tls: bool,
    pub func: bool,
    pub dup: bool,
}

pub struct Linker {
    pub elf: FxHashMap<&'static str, ElfSym>,
    pub addr_fn: FxHashMap<u64, Vec<&'static str>>,
    pub tls_base: u64,
    pub syms: Vec<Sym>,
    by_name: FxHashMap<(usize, &'static str), u32>,
    fn_index: FxHashMap<&'static str, usize>,
    glob_index: FxHashMap<&'static str, usize>,
    alias_index: FxHashMap<&'static str, usize>,
    data_addr: FxHashMap<(usize, &'static str), u64>,
    pub pool: u64,
    pub pool_end: u64,
    synth: FxHashMap<u64, u32>,
    pub pending: Vec<(usize, &'static str, u64)>,
}

pub struct Program {
    pub types: Types,
    pub modules: Vec<Module>,
    pub link: Linker,
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn getauxval(t: u64) -> u64;
}

pub fn map_file(path: &str) -> Result<&'static [u8], String> {
    use std::os::fd::AsRawFd;
    let f = std::fs::File::open(path).map_err(|e| format!("{path}: {e}"))?;
    let n = f.metadata().map_err(|e| e.to_string())?.len() as usize;
    if n == 0 {
        return Ok(&[]);
    }
    unsafe {
        let p = mmap(std::ptr::null_mut(), n, 1, 2, f.as_raw_fd(), 0);
        if p as isize == -1 {
            return Err(format!("mmap {path}"));
        }
        Ok(std::slice::from_raw_parts(p, n))
    }
}

fn rd<T: Copy>(b: &[u8], o: usize) -> T {
    unsafe { std::ptr::read_unaligned(b.as_ptr().add(o) as *const T) }
}

/// Load bias of the main executable.
pub fn exe_bias(elf: &[u8]) -> u64 {
    // AT_PHDR = bias + e_phoff (first PT_LOAD maps the headers at vaddr 0)
    let phdr = unsafe { getauxval(3) };
    let e_phoff: u64 = rd(elf, 0x20);
    let n: u16 = rd(elf, 0x38);
    let mut v0 = 0u64;
    for k in 0..n as usize {
        let o = e_phoff as usize + k * 56;
        let t: u32 = rd(elf, o);
        let off: u64 = rd(elf, o + 8);
        let va: u64 = rd(elf, o + 16);
        let fs: u64 = rd(elf, o + 32);
        if t == 1 && off <= e_phoff && e_phoff < off + fs {
            v0 = va + (e_phoff - off);
        }
    }
    phdr - v0
}

impl Linker {
    fn load() -> Result<Linker, String> {
        let elf = map_file("/proc/self/exe")?;
        let bias = exe_bias(elf);
        let e_phoff: u64 = rd(elf, 0x20);
        let nph: u16 = rd(elf, 0x38);
        let mut tls = (0u64, 1u64);
        let mut lo = u64::MAX;
        for k in 0..nph as usize {
            let o = e_phoff as usize + k * 56;
            let t: u32 = rd(elf, o);
            if t == 7 {
                tls = (rd(elf, o + 40), rd::<u64>(elf, o + 48).max(1));
            }
            if t == 1 {
                lo = lo.min(bias + rd::<u64>(elf, o + 16));
            }
        }
        let fs: u64;
        unsafe { std::arch::asm!("mov {}, fs:0", out(reg) fs) };
        let tls_base = fs - (tls.0 + tls.1 - 1) / tls.1 * tls.1;
        let mut l = Linker {
            elf: Default::default(),
            addr_fn: Default::default(),
            tls_base,
            syms: vec![],
            by_name: Default::default(),
            fn_index: Default::default(),
            glob_index: Default::default(),
            alias_index: Default::default(),
            data_addr: Default::default(),
            pool: 0,
            pool_end: 0,
            synth: Default::default(),
            pending: vec![],
        };
        let shoff: u64 = rd(elf, 0x28);
        let shn: u16 = rd(elf, 0x3c);
        for k in 0..shn as usize {
            let o = shoff as usize + k * 64;
            let t: u32 = rd(elf, o + 4);
            if t != 2 {
                continue;
            }
            let off: u64 = rd(elf, o + 24);
            let size: u64 = rd(elf, o + 32);
            let link: u32 = rd(elf, o + 40);
            let so = shoff as usize + link as usize * 64;
            let stroff: u64 = rd(elf, so + 24);
            for s in 0..(size / 24) as usize {
                let e = off as usize + s * 24;
                let nm: u32 = rd(elf, e);
                let info: u8 = rd(elf, e + 4);
                let shndx: u16 = rd(elf, e + 6);
                let val: u64 = rd(elf, e + 8);
                let sz: u64 = rd(elf, e + 16);
                let ty = info & 15;
                if shndx == 0 || !(ty <= 2 || ty == 6 || ty == 10) || nm == 0 {
                    continue;
                }
                let st = stroff as usize + nm as usize;
                let mut en = st;
                while elf[en] != 0 {
                    en += 1;
                }
                let name: &'static str = std::str::from_utf8(&elf[st..en]).unwrap_or("");
                let addr = if ty == 6 { l.tls_base + val } else { bias + val };
                let is_f = ty == 2 || ty == 10;
                if is_f {
                    l.addr_fn.entry(addr).or_default().push(name);
                }
                if let Some(x) = l.elf.get_mut(name) {
                    if x.addr != addr {
                        x.dup = true;
                    }
                    continue;
                }
                l.elf.insert(name, ElfSym { addr, size: sz, tls: ty == 6, func: is_f, dup: false });
            }
        }
        if l.elf.is_empty() {
            return Err("no symbol table in the executable".into());
        }
        // constant pool near the image so that 32-bit relative tables stay in range
        let sz = 192usize << 20;
        let mut hint = lo - (sz as u64) - (64 << 20);
        let mut got = 0u64;
        for _ in 0..16 {
            let p = unsafe { mmap(hint as *mut u8, sz, 3, 0x22 | 0x100000 | 0x4000, -1, 0) };
            if p as isize != -1 && p as u64 == hint {
                got = hint;
                break;
            }
            hint -= 128 << 20;
        }
        if got == 0 {
            return Err("cannot place the constant pool".into());
        }
        l.pool = got;
        l.pool_end = got + sz as u64;
        Ok(l)
    }
}

struct LinkView<'a> {
    l: &'a mut Linker,
    local_fns: &'a dyn Fn(usize, &'static str) -> Option<(usize, usize)>,
    local_data: &'a dyn Fn(usize, &'static str) -> bool,
}

impl<'a> Link for LinkView<'a> {
    fn sym_id(&mut self, module: usize, name: &'static str) -> u32 {
        let (key_m, def) = if let Some(r) = (self.local_fns)(module, name) {
            (module, Some((module, r)))
        } else if let Some(&m) = self.l.fn_index.get(name) {
            (m, (self.local_fns)(m, name).map(|r| (m, r)))
        } else {
            (usize::MAX, None)
        };
        if let Some(&i) = self.l.by_name.get(&(key_m, name)) {
            return i;
        }
        let id = self.l.syms.len() as u32;
        let addr = match self.l.elf.get(name) {
            Some(e) if e.func => e.addr,
            _ => SYNTH_BASE + id as u64 * 16,
        };
        if addr >= SYNTH_BASE && addr < SYNTH_BASE + (1 << 32) {
            self.l.synth.insert(addr, id);
        }
        self.l.syms.push(Sym { name, def, addr, func: None, special: -1 });
        self.l.by_name.insert((key_m, name), id);
        id
    }
    fn sym_addr(&mut self, module: usize, name: &'static str) -> Result<u64, String> {
        if let Some(&a) = self.l.data_addr.get(&(module, name)) {
            return Ok(a);
        }
        // a function?
        if (self.local_fns)(module, name).is_some() || (self.l.fn_index.contains_key(name) && !(self.local_data)(module, name)) {
            let id = self.sym_id(module, name);
            return Ok(self.l.syms[id as usize].addr);
        }
        if let Some(e) = self.l.elf.get(name) {
            // `private` constants (vtable.N, alloc_..) never reach the symbol table, so a hit is the real object
            if !e.dup || e.func {
                let a = e.addr;
                self.l.data_addr.insert((module, name), a);
                return Ok(a);
            }
        }
        // materialise
        let m = if (self.local_data)(module, name) {
            module
        } else if let Some(&m) = self.l.glob_index.get(name) {
            m
        } else if let Some(&m) = self.l.alias_index.get(name) {
            m
        } else {
            // external function or data of a shared library
            let id = self.sym_id(module, name);
            return Ok(self.l.syms[id as usize].addr);
        };
        if m != module {
            return self.sym_addr(m, name).map(|a| {
                self.l.data_addr.insert((module, name), a);
                a
            });
        }
        Err(format!("\u{1}{name}"))
    }
}

impl Program {
    pub fn load(files: &[String]) -> Result<Program, String> {
        let mut link = Linker::load()?;
        let nthreads = 8.min(files.len().max(1));
        let next = std::sync::atomic::AtomicUsize::new(0);
        let out: std::sync::Mutex<Vec<(usize, Result<Module, String>)>> = Default::default();
        std::thread::scope(|s| {
            for _ in 0..nthreads {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if k >= files.len() {
                        return;
                    }
                    let r = map_file(&files[k]).map(|t| Module::index(&files[k], t));
                    out.lock().unwrap().push((k, r));
                });
            }
        });
        let mut v = out.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        let mut modules = vec![];
        for (_, m) in v {
            modules.push(m?);
        }
        for (i, m) in modules.iter().enumerate() {
            for n in m.funcs.keys() {
                link.fn_index.entry(n).or_insert(i);
            }
            for (n, &off) in &m.globals {
                let nl = &m.text[off..(off + 120).min(m.text.len())];
                let s = String::from_utf8_lossy(nl);
                let s = s.split('\n').next().unwrap_or("");
                let head = s.split(" constant ").next().unwrap_or("").split(" global ").next().unwrap_or("");
                if !head.contains("external") && !head.contains("extern_weak") && !head.contains("private") {
                    link.glob_index.entry(n).or_insert(i);
                }
            }
            for n in m.aliases.keys() {
                link.alias_index.entry(n).or_insert(i);
            }
        }
        Ok(Program { types: Default::default(), modules, link })
    }

    fn with<R>(&mut self, mi: usize, f: impl Fn(&mut Cx) -> Result<R, String>) -> Result<R, String> {
        // constant expressions may name private globals that are not materialised yet: on such a miss,
        // materialise it and retry.
        for _ in 0..100000 {
            let idx: Vec<*const Module> = self.modules.iter().map(|m| m as *const Module).collect();
            let lf = |m: usize, n: &'static str| -> Option<(usize, usize)> { unsafe { (&*idx[m]).funcs.get(n).copied() } };
            let ld = |m: usize, n: &'static str| -> bool { unsafe { (&*idx[m]).globals.contains_key(n) || (&*idx[m]).aliases.contains_key(n) } };
            let mut lv = LinkView { l: &mut self.link, local_fns: &lf, local_data: &ld };
            let mut cx = Cx { types: &mut self.types, modules: &mut self.modules, mi, link: &mut lv };
            match f(&mut cx) {
                Err(e) if e.starts_with('\u{1}') => {
                    let name = &e[1..];
                    self.materialise(mi, name)?;
                }
                r => return r,
            }
        }
        Err("materialisation loop".into())
    }

    fn materialise(&mut self, mi: usize, name: &str) -> Result<(), String> {
        // the missing name may belong to another module (reached through an external reference)
        let mi = if self.modules[mi].globals.contains_key(name) || self.modules[mi].aliases.contains_key(name) {
            mi
        } else {
            *self.link.glob_index.get(name).or(self.link.alias_index.get(name)).ok_or_else(|| format!("global {name}"))?
        };
        if let Some((&n, &off)) = self.modules[mi].aliases.get_key_value(name) {
            let v = self.with(mi, |cx| cx.alias_target(off))?;
            if let Val::C(a) = v {
                self.link.data_addr.insert((mi, n), a);
                return Ok(());
            }
            return Err("alias".into());
        }
        let (&n, &off) = self.modules[mi].globals.get_key_value(name).unwrap();
        // reserve the address first: constants may be self-referential (relative tables)
        let probe = self.with_nolink(mi, off)?;
        let (size, align) = probe;
        let a = (self.link.pool + align - 1) / align * align;
        self.link.pool = a + size.max(1) + 16;
        if self.link.pool > self.link.pool_end {
            return Err("constant pool exhausted".into());
        }
        self.link.data_addr.insert((mi, n), a);
        let g = self.with(mi, |cx| cx.global(off))?;
        let Some((_, ty, v, _)) = g else { return Err(format!("external {name}")) };
        let mut buf = vec![0u8; size as usize];
        self.with(mi, |cx| {
            let mut b = vec![0u8; size as usize];
            cx.to_bytes(ty, &v, &mut b)?;
            Ok(b)
        })
        .map(|b| buf = b)?;
        unsafe { std::ptr::copy_nonoverlapping(buf.as_ptr(), a as *mut u8, buf.len()) };
        Ok(())
    }

    fn with_nolink(&mut self, mi: usize, off: usize) -> Result<(u64, u64), String> {
        struct Z;
        impl Link for Z {
            fn sym_addr(&mut self, _: usize, _: &'static str) -> Result<u64, String> {
                Ok(0)
            }
            fn sym_id(&mut self, _: usize, _: &'static str) -> u32 {
                0
            }
        }
        let mut z = Z;
        let mut cx = Cx { types: &mut self.types, modules: &mut self.modules, mi, link: &mut z };
        match cx.global(off)? {
            Some((_, ty, _, al)) => Ok((self.types.i(ty).size, al.max(self.types.i(ty).align).max(1))),
            None => Err("external global without native symbol".into()),
        }
    }

    /// Symbol id for a code address.
    pub fn sym_at(&mut self, addr: u64) -> Option<u32> {
        if let Some(&i) = self.link.synth.get(&addr) {
            return Some(i);
        }
        let names = self.link.addr_fn.get(&addr)?.clone();
        let mut pick = names[0];
        for n in &names {
            if self.link.fn_index.contains_key(n) {
                pick = n;
                break;
            }
        }
        let m = self.link.fn_index.get(pick).copied().unwrap_or(0);
        self.with(m, |cx| Ok(cx.link.sym_id(m, pick))).ok()
    }
    pub fn sym_named(&mut self, name: &'static str) -> Option<u32> {
        let m = self.link.fn_index.get(name).copied()?;
        self.with(m, |cx| Ok(cx.link.sym_id(m, name))).ok()
    }

    pub fn func(&mut self, id: u32) -> Result<&'static Func, String> {
        if let Some(f) = &self.link.syms[id as usize].func {
            return f.clone();
        }
        let s = &self.link.syms[id as usize];
        let name = s.name;
        let r = match s.def {
            None => {
                // an alias?
                if let Some(&m) = self.link.alias_index.get(name) {
                    let off = self.modules[m].aliases[name];
                    match self.with(m, |cx| cx.alias_target(off)) {
                        Ok(Val::C(a)) => match self.sym_at(a) {
                            Some(i2) if i2 != id => self.func(i2),
                            _ => Err(format!("alias {name}")),
                        },
                        _ => Err(format!("alias {name}")),
                    }
                } else {
                    Err(format!("no IR for {name}"))
                }
            }
            Some((m, range)) => {
                let names = names_in(self.modules[m].text, range);
                for n in names {
                    if self.modules[m].globals.contains_key(n) {
                        let _ = self.with(m, |cx| cx.link.sym_addr(m, n));
                    }
                }
                self.with(m, |cx| decode(cx, name, id, range)).map(|f| &*Box::leak(Box::new(f)))
            }
        };
        self.link.syms[id as usize].func = Some(r.clone());
        r
    }
}
