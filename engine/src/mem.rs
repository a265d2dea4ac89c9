//! Copy-on-write byte memory over the process image, with a symbolic byte shadow.
use crate::expr::*;
use crate::fx::{FxHashMap, FxHashSet};
use std::rc::Rc;

pub const HEAP_LO: u64 = 0x6000_0000_0000;
pub const HEAP_HI: u64 = 0x6100_0000_0000;
pub const STACK_LO: u64 = 0x7000_0000_0000;
pub const STACK_HI: u64 = 0x7000_4000_0000;
const MAGIC_LIVE: u64 = 0x4c495645_f00df00d;
const MAGIC_DEAD: u64 = 0x44454144_f00df00d;

#[derive(Clone)]
pub struct SymPage {
    pub bits: [u64; 64],
    pub map: FxHashMap<u16, (ExprId, u8)>,
}

#[derive(Clone)]
pub struct Page {
    pub data: [u8; 4096],
    pub sym: Option<Box<SymPage>>,
    pub alloc: [u64; 4],
}

#[derive(Clone, Copy)]
struct Tlb {
    page: u64,
    data: *const u8,
    pg: *const Page,
    w: *mut Page,
}
const TLB_N: usize = 128;
const NO_TLB: Tlb = Tlb { page: u64::MAX, data: std::ptr::null(), pg: std::ptr::null(), w: std::ptr::null_mut() };

pub struct Mem {
    pub pages: FxHashMap<u64, Rc<Page>>,
    pub bump: u64,
    pub sp: u64,
    pub live: i64,
    pub live_bytes: i64,
    pub allocs: u64,
    pub freed_native: Rc<FxHashSet<u64>>,
    tlb: Box<[Tlb; TLB_N]>,
    pub ranges: Rc<Vec<(u64, u64)>>,
}

impl Clone for Mem {
    fn clone(&self) -> Mem {
        Mem {
            pages: self.pages.clone(),
            bump: self.bump,
            sp: self.sp,
            live: self.live,
            live_bytes: self.live_bytes,
            allocs: self.allocs,
            freed_native: self.freed_native.clone(),
            tlb: Box::new([NO_TLB; TLB_N]),
            ranges: self.ranges.clone(),
        }
    }
}

pub fn read_ranges() -> Vec<(u64, u64)> {
    let s = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let mut v: Vec<(u64, u64)> = vec![];
    for l in s.lines() {
        let mut it = l.split_whitespace();
        let (Some(r), Some(perm)) = (it.next(), it.next()) else { continue };
        if !perm.starts_with('r') || l.ends_with("[vsyscall]") || l.ends_with("[vvar]") || l.ends_with("[vvar_vclock]") {
            continue;
        }
        let mut p = r.split('-');
        let a = u64::from_str_radix(p.next().unwrap(), 16).unwrap();
        let b = u64::from_str_radix(p.next().unwrap(), 16).unwrap();
        if let Some(last) = v.last_mut() {
            if last.1 == a {
                last.1 = b;
                continue;
            }
        }
        v.push((a, b));
    }
    v
}

pub enum MemV {
    C(u64),
    E(ExprId),
}

impl Mem {
    pub fn new() -> Mem {
        Mem {
            pages: Default::default(),
            bump: HEAP_LO + 4096,
            sp: STACK_HI - 4096,
            live: 0,
            live_bytes: 0,
            allocs: 0,
            freed_native: Default::default(),
            tlb: Box::new([NO_TLB; TLB_N]),
            ranges: Rc::new(read_ranges()),
        }
    }
    pub fn flush(&mut self) {
        *self.tlb = [NO_TLB; TLB_N];
    }
    fn native_ok(&self, pno: u64) -> bool {
        let a = pno << 12;
        let r = &self.ranges;
        let i = r.partition_point(|x| x.1 <= a);
        i < r.len() && r[i].0 <= a
    }
    pub fn valid(&self, addr: u64) -> bool {
        let pno = addr >> 12;
        self.pages.contains_key(&pno) || self.native_ok(pno)
    }
    #[inline]
    fn rpage(&mut self, pno: u64) -> Result<(*const u8, *const Page), String> {
        let t = &self.tlb[(pno as usize) % TLB_N];
        if t.page == pno {
            return Ok((t.data, t.pg));
        }
        self.rpage_miss(pno)
    }
    #[inline(never)]
    fn rpage_miss(&mut self, pno: u64) -> Result<(*const u8, *const Page), String> {
        let (d, p): (*const u8, *const Page) = if let Some(p) = self.pages.get(&pno) {
            (p.data.as_ptr(), &**p as *const Page)
        } else if (STACK_LO >> 12..STACK_HI >> 12).contains(&pno) {
            return self.wpage(pno).map(|p| unsafe { ((*p).data.as_ptr(), p as *const Page) });
        } else if self.native_ok(pno) {
            ((pno << 12) as *const u8, std::ptr::null())
        } else {
            return Err(format!("access to unmapped address {:#x}", pno << 12));
        };
        self.tlb[(pno as usize) % TLB_N] = Tlb { page: pno, data: d, pg: p, w: std::ptr::null_mut() };
        Ok((d, p))
    }
    #[inline]
    fn wpage(&mut self, pno: u64) -> Result<*mut Page, String> {
        let t = &self.tlb[(pno as usize) % TLB_N];
        if t.page == pno && !t.w.is_null() {
            return Ok(t.w);
        }
        self.wpage_miss(pno)
    }
    #[inline(never)]
    fn wpage_miss(&mut self, pno: u64) -> Result<*mut Page, String> {
        if !self.pages.contains_key(&pno) {
            let a = pno << 12;
            let mut pg = Page { data: [0; 4096], sym: None, alloc: [0; 4] };
            if (HEAP_LO..HEAP_HI).contains(&a) || (STACK_LO..STACK_HI).contains(&a) {
                // fresh zero page
                if (HEAP_LO..HEAP_HI).contains(&a) && a > self.bump {
                    return Err(format!("write to unallocated heap address {a:#x}"));
                }
            } else if self.native_ok(pno) {
                unsafe { std::ptr::copy_nonoverlapping(a as *const u8, pg.data.as_mut_ptr(), 4096) };
            } else {
                return Err(format!("write to unmapped address {a:#x}"));
            }
            self.pages.insert(pno, Rc::new(pg));
        }
        let rc = self.pages.get_mut(&pno).unwrap();
        let p = Rc::make_mut(rc) as *mut Page;
        self.tlb[(pno as usize) % TLB_N] = Tlb { page: pno, data: unsafe { (*p).data.as_ptr() }, pg: p, w: p };
        Ok(p)
    }
    #[inline]
    fn heap_check(&self, addr: u64, n: u64, pg: *const Page) -> Result<(), String> {
        if addr >= HEAP_LO && addr < HEAP_HI {
            let chk = |a: u64| -> bool {
                let g = (a & 4095) >> 4;
                !pg.is_null() && unsafe { (*pg).alloc[(g >> 6) as usize] >> (g & 63) & 1 == 1 }
            };
            if !chk(addr) || !chk((addr & !4095) | ((addr & 4095) + n - 1).min(4095)) {
                return Err(format!("access to freed or out-of-bounds heap memory at {addr:#x}+{n}"));
            }
        }
        Ok(())
    }

    #[inline]
    pub fn load(&mut self, ar: &mut Arena, addr: u64, nb: u32, w: u32) -> Result<MemV, String> {
        let off = (addr & 4095) as usize;
        if off + nb as usize <= 4096 && nb <= 8 {
            let (d, pg) = self.rpage(addr >> 12)?;
            self.heap_check(addr, nb as u64, pg)?;
            let symb = unsafe { !pg.is_null() && (*pg).sym.is_some() && sym_any((*pg).sym.as_ref().unwrap(), off, nb as usize) };
            if !symb {
                let v = unsafe {
                    let p = d.add(off);
                    match nb {
                        8 => std::ptr::read_unaligned(p as *const u64),
                        4 => std::ptr::read_unaligned(p as *const u32) as u64,
                        1 => *p as u64,
                        2 => std::ptr::read_unaligned(p as *const u16) as u64,
                        _ => {
                            let mut b = [0u8; 8];
                            std::ptr::copy_nonoverlapping(p, b.as_mut_ptr(), nb as usize);
                            u64::from_le_bytes(b)
                        }
                    }
                };
                let v = if w < nb * 8 { v & ((1u64 << w) - 1) } else { v };
                return Ok(MemV::C(v));
            }
        }
        self.load_slow(ar, addr, nb, w)
    }
    fn byte(&mut self, addr: u64) -> Result<(u8, Option<(ExprId, u8)>), String> {
        let (d, pg) = self.rpage(addr >> 12)?;
        self.heap_check(addr, 1, pg)?;
        let off = (addr & 4095) as usize;
        unsafe {
            if !pg.is_null() {
                if let Some(s) = &(*pg).sym {
                    if s.bits[off >> 6] >> (off & 63) & 1 == 1 {
                        return Ok((0, Some(s.map[&(off as u16)])));
                    }
                }
            }
            Ok((*d.add(off), None))
        }
    }
    fn load_slow(&mut self, ar: &mut Arena, addr: u64, nb: u32, w: u32) -> Result<MemV, String> {
        // segments low to high
        let mut segs: Vec<ExprId> = vec![];
        let mut k = 0;
        let mut anysym = false;
        let mut cval: u128 = 0;
        while k < nb {
            let (c, s) = self.byte(addr + k as u64)?;
            match s {
                None => {
                    let st = k;
                    let mut v = c as u128;
                    k += 1;
                    while k < nb {
                        let (c, s) = self.byte(addr + k as u64)?;
                        if s.is_some() {
                            break;
                        }
                        v |= (c as u128) << (8 * (k - st));
                        k += 1;
                    }
                    cval |= v << (8 * st);
                    segs.push(ar.konst((k - st) * 8, v));
                }
                Some((e, i)) => {
                    anysym = true;
                    let mut n = 1;
                    k += 1;
                    while k < nb {
                        match self.byte(addr + k as u64)? {
                            (_, Some((e2, i2))) if e2 == e && i2 as u32 == i as u32 + n => {
                                n += 1;
                                k += 1;
                            }
                            _ => break,
                        }
                    }
                    let x = ar.extract(e, i as u32 * 8, n * 8);
                    segs.push(x);
                }
            }
        }
        if !anysym && w <= 64 {
            let m = ones(w);
            return Ok(MemV::C((cval & m) as u64));
        }
        let mut acc = segs[0];
        for &s in &segs[1..] {
            acc = ar.concat(s, acc);
        }
        if w < nb * 8 {
            acc = ar.extract(acc, 0, w);
        }
        Ok(match ar.as_const(acc) {
            Some(c) if w <= 64 => MemV::C(c as u64),
            _ => MemV::E(acc),
        })
    }

    #[inline]
    pub fn store_c(&mut self, addr: u64, v: u64, nb: u32) -> Result<(), String> {
        let off = (addr & 4095) as usize;
        if off + nb as usize <= 4096 {
            let pg = self.wpage(addr >> 12)?;
            self.heap_check(addr, nb as u64, pg)?;
            unsafe {
                let p = (*pg).data.as_mut_ptr().add(off);
                match nb {
                    8 => std::ptr::write_unaligned(p as *mut u64, v),
                    4 => std::ptr::write_unaligned(p as *mut u32, v as u32),
                    1 => *p = v as u8,
                    2 => std::ptr::write_unaligned(p as *mut u16, v as u16),
                    _ => std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), p, nb as usize),
                }
                if (*pg).sym.is_some() {
                    clear_sym(&mut *pg, off, nb as usize);
                }
            }
            return Ok(());
        }
        for k in 0..nb {
            self.store_c(addr + k as u64, (v >> (8 * k)) & 255, 1)?;
        }
        Ok(())
    }
    pub fn store_e(&mut self, ar: &mut Arena, addr: u64, e: ExprId, nb: u32) -> Result<(), String> {
        let w = ar.w(e);
        let e = if w < nb * 8 { ar.zext(e, nb * 8) } else { e };
        if let Some(c) = ar.as_const(e) {
            for k in 0..nb {
                self.store_c(addr + k as u64, ((c >> (8 * k)) & 255) as u64, 1)?;
            }
            return Ok(());
        }
        // peel constant/zero-extended high parts so that structural bytes stay concrete
        let n = ar.n(e);
        if n.op == Op::ZExt {
            let iw = ar.w(n.a);
            let ib = (iw + 7) / 8;
            if ib < nb {
                let inner = ar.zext(n.a, ib * 8);
                self.store_e(ar, addr, inner, ib)?;
                for k in ib..nb {
                    self.store_c(addr + k as u64, 0, 1)?;
                }
                return Ok(());
            }
        }
        if n.op == Op::Concat && ar.w(n.b) % 8 == 0 {
            let lb = ar.w(n.b) / 8;
            self.store_e(ar, addr, n.b, lb)?;
            return self.store_e(ar, addr + lb as u64, n.a, nb - lb);
        }
        for k in 0..nb {
            let a = addr + k as u64;
            let off = (a & 4095) as usize;
            let pg = self.wpage(a >> 12)?;
            self.heap_check(a, 1, pg)?;
            let pg = unsafe { &mut *pg };
            set_sym(pg, off, e, k as u8);
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), String> {
        if n == 0 || dst == src {
            return Ok(());
        }
        if n > 1 << 28 {
            return Err("huge memcpy".into());
        }
        let n = n as usize;
        // gather
        let mut buf = vec![0u8; n];
        let mut syms: Vec<(usize, ExprId, u8)> = vec![];
        let mut k = 0;
        while k < n {
            let a = src + k as u64;
            let off = (a & 4095) as usize;
            let m = (4096 - off).min(n - k);
            let (d, pg) = self.rpage(a >> 12)?;
            self.heap_check(a, m as u64, pg)?;
            unsafe {
                std::ptr::copy_nonoverlapping(d.add(off), buf.as_mut_ptr().add(k), m);
                if !pg.is_null() {
                    if let Some(s) = &(*pg).sym {
                        if sym_any(s, off, m) {
                            for j in 0..m {
                                let o = off + j;
                                if s.bits[o >> 6] >> (o & 63) & 1 == 1 {
                                    let (e, i) = s.map[&(o as u16)];
                                    syms.push((k + j, e, i));
                                }
                            }
                        }
                    }
                }
            }
            k += m;
        }
        self.write_bytes(dst, &buf)?;
        for (k, e, i) in syms {
            let a = dst + k as u64;
            let pg = self.wpage(a >> 12)?;
            set_sym(unsafe { &mut *pg }, (a & 4095) as usize, e, i);
        }
        Ok(())
    }
    pub fn write_bytes(&mut self, dst: u64, buf: &[u8]) -> Result<(), String> {
        let n = buf.len();
        let mut k = 0;
        while k < n {
            let a = dst + k as u64;
            let off = (a & 4095) as usize;
            let m = (4096 - off).min(n - k);
            let pg = self.wpage(a >> 12)?;
            self.heap_check(a, m as u64, pg)?;
            unsafe {
                std::ptr::copy_nonoverlapping(buf.as_ptr().add(k), (*pg).data.as_mut_ptr().add(off), m);
                if (*pg).sym.is_some() {
                    clear_sym(&mut *pg, off, m);
                }
            }
            k += m;
        }
        Ok(())
    }
    pub fn set(&mut self, dst: u64, v: u8, n: u64) -> Result<(), String> {
        if n > 1 << 28 {
            return Err("huge memset".into());
        }
        let b = vec![v; n as usize];
        self.write_bytes(dst, &b)
    }
    /// concrete bytes, or None if any is symbolic
    pub fn read_conc(&mut self, addr: u64, n: u64) -> Option<Vec<u8>> {
        let mut v = vec![];
        for k in 0..n.min(1 << 20) {
            match self.byte(addr.wrapping_add(k)) {
                Ok((c, None)) => v.push(c),
                _ => return None,
            }
        }
        Some(v)
    }
    pub fn byte_expr(&mut self, ar: &mut Arena, addr: u64) -> Result<ExprId, String> {
        let (c, s) = self.byte(addr)?;
        Ok(match s {
            None => ar.konst(8, c as u128),
            Some((e, i)) => ar.extract(e, i as u32 * 8, 8),
        })
    }

    fn mark(&mut self, addr: u64, n: u64, on: bool) {
        let mut a = addr;
        let end = addr + n.max(1);
        while a < end {
            let pno = a >> 12;
            let pg = unsafe { &mut *self.wpage(pno).unwrap() };
            let pe = ((pno + 1) << 12).min(end);
            while a < pe {
                let g = (a & 4095) >> 4;
                if on {
                    pg.alloc[(g >> 6) as usize] |= 1 << (g & 63);
                } else {
                    pg.alloc[(g >> 6) as usize] &= !(1 << (g & 63));
                }
                a += 16 - (a & 15);
            }
        }
    }
    pub fn malloc(&mut self, size: u64, align: u64) -> Result<u64, String> {
        if size > 1 << 26 {
            return Err("allocation above 64 MiB".into());
        }
        let align = align.max(16);
        let a = (self.bump + 32 + align - 1) / align * align;
        self.bump = a + (size.max(1) + 15) / 16 * 16;
        if self.bump > HEAP_HI - (1 << 30) {
            return Err("interpreted heap exhausted".into());
        }
        // header (not accessible to the program)
        self.mark(a - 16, 16, true);
        self.store_c(a - 16, size, 8)?;
        self.store_c(a - 8, MAGIC_LIVE, 8)?;
        self.mark(a - 16, 16, false);
        self.mark(a, size, true);
        self.live += 1;
        self.live_bytes += size as i64;
        self.allocs += 1;
        Ok(a)
    }
    pub fn in_heap(addr: u64) -> bool {
        addr >= HEAP_LO && addr < HEAP_HI
    }
    fn header(&mut self, a: u64) -> Option<(u64, u64)> {
        let pno = (a - 16) >> 12;
        let off = ((a - 16) & 4095) as usize;
        let p = self.pages.get(&pno)?;
        Some((u64::from_le_bytes(p.data[off..off + 8].try_into().unwrap()), u64::from_le_bytes(p.data[off + 8..off + 16].try_into().unwrap())))
    }
    pub fn size_of(&mut self, a: u64) -> Option<u64> {
        self.header(a).filter(|h| h.1 == MAGIC_LIVE).map(|h| h.0)
    }
    pub fn free(&mut self, a: u64, size: Option<u64>) -> Result<(), String> {
        if !Self::in_heap(a) {
            if self.freed_native.contains(&a) {
                return Err(format!("double free of a pre-existing object at {a:#x}"));
            }
            Rc::make_mut(&mut self.freed_native).insert(a);
            self.live -= 1;
            return Ok(());
        }
        if a % 16 != 0 {
            return Err(format!("free of a misaligned pointer {a:#x}"));
        }
        match self.header(a) {
            Some((sz, MAGIC_LIVE)) => {
                if let Some(s) = size {
                    if s != sz {
                        return Err(format!("free with size {s} of an object of size {sz}"));
                    }
                }
                self.mark(a - 16, 16, true);
                self.store_c(a - 8, MAGIC_DEAD, 8)?;
                self.mark(a - 16, 16, false);
                self.mark(a, sz, false);
                self.live -= 1;
                self.live_bytes -= sz as i64;
                Ok(())
            }
            Some((_, MAGIC_DEAD)) => Err(format!("double free at {a:#x}")),
            _ => Err(format!("free of an invalid pointer {a:#x}")),
        }
    }
}

#[inline]
fn sym_any(s: &SymPage, off: usize, n: usize) -> bool {
    if n == 0 {
        return false;
    }
    let (a, b) = (off >> 6, (off + n - 1) >> 6);
    if a == b {
        let m = if n >= 64 { u64::MAX } else { ((1u64 << n) - 1) << (off & 63) };
        return s.bits[a] & m != 0;
    }
    for k in off..off + n {
        if s.bits[k >> 6] >> (k & 63) & 1 == 1 {
            return true;
        }
    }
    false
}
fn clear_sym(pg: &mut Page, off: usize, n: usize) {
    let s = pg.sym.as_mut().unwrap();
    if !sym_any(s, off, n) {
        return;
    }
    for k in off..off + n {
        if s.bits[k >> 6] >> (k & 63) & 1 == 1 {
            s.bits[k >> 6] &= !(1 << (k & 63));
            s.map.remove(&(k as u16));
        }
    }
    if s.map.is_empty() {
        pg.sym = None;
    }
}
fn set_sym(pg: &mut Page, off: usize, e: ExprId, i: u8) {
    let s = pg.sym.get_or_insert_with(|| Box::new(SymPage { bits: [0; 64], map: Default::default() }));
    s.bits[off >> 6] |= 1 << (off & 63);
    s.map.insert(off as u16, (e, i));
}
