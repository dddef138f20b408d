//! Linear memory with per-byte symbolic shadow and block-granular undo log.
use crate::expr::Id;
use std::ffi::c_void;

extern "C" {
    fn mmap(a: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
}
pub fn map(len: usize, shared: bool) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE/SHARED|MAP_ANONYMOUS|MAP_NORESERVE
    let fl = if shared { 0x01 } else { 0x02 } | 0x20 | 0x4000;
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, fl, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *mut u8
}

pub const CAP: u64 = 1 << 30;
const BS: u64 = 8; // 256-byte blocks

pub struct Mem {
    pub base: *mut u8,
    pub shadow: *mut u32,
    pub bits: *mut u8,
    pub epoch: *mut u32,
    pub size: u64,
    pub cur: u32,
    pub next_epoch: u32,
    pub log_idx: Vec<(u32, bool)>,
    pub log_data: Vec<[u8; 256]>,
    pub log_sym: Vec<Box<([u8; 32], [u32; 256])>>,
    pub nsym: u64, // stores of symbolic bytes ever made (0 = skip symbolic bookkeeping)
}

impl Mem {
    pub fn new(pages: u64) -> Mem {
        Mem {
            base: map(CAP as usize + 4096, false),
            shadow: map(CAP as usize * 4 + 4096, false) as *mut u32,
            bits: map(CAP as usize / 8 + 4096, false),
            epoch: map((CAP >> BS) as usize * 4 + 4096, false) as *mut u32,
            size: pages * 65536,
            cur: 0,
            next_epoch: 1,
            log_idx: vec![],
            log_data: vec![],
            log_sym: vec![],
            nsym: 0,
        }
    }
    #[inline(always)]
    pub fn touch(&mut self, a: u64, n: u64) {
        unsafe {
            let b0 = a >> BS;
            let b1 = (a + n - 1) >> BS;
            if *self.epoch.add(b0 as usize) != self.cur {
                self.save(b0);
            }
            if b1 != b0 && *self.epoch.add(b1 as usize) != self.cur {
                self.save(b1);
            }
        }
    }
    #[inline(never)]
    fn save(&mut self, b: u64) {
        unsafe {
            *self.epoch.add(b as usize) = self.cur;
            let p = self.base.add((b << BS) as usize);
            let mut d = [0u8; 256];
            std::ptr::copy_nonoverlapping(p, d.as_mut_ptr(), 256);
            self.log_data.push(d);
            let bp = self.bits.add((b << BS >> 3) as usize) as *const u64;
            let any = (0..4).any(|i| *bp.add(i) != 0);
            self.log_idx.push((b as u32, any));
            if any {
                let mut x = Box::new(([0u8; 32], [0u32; 256]));
                std::ptr::copy_nonoverlapping(bp as *const u8, x.0.as_mut_ptr(), 32);
                std::ptr::copy_nonoverlapping(self.shadow.add((b << BS) as usize), x.1.as_mut_ptr(), 256);
                self.log_sym.push(x);
            }
        }
    }
    pub fn touch_range(&mut self, a: u64, n: u64) {
        if n == 0 {
            return;
        }
        for b in (a >> BS)..=((a + n - 1) >> BS) {
            unsafe {
                if *self.epoch.add(b as usize) != self.cur {
                    self.save(b);
                }
            }
        }
    }
    pub fn undo_to(&mut self, n: usize) {
        while self.log_idx.len() > n {
            let (b, any) = self.log_idx.pop().unwrap();
            let d = self.log_data.pop().unwrap();
            unsafe {
                std::ptr::copy_nonoverlapping(d.as_ptr(), self.base.add((b as usize) << BS), 256);
                let bp = self.bits.add((b as usize) << BS >> 3);
                if any {
                    let x = self.log_sym.pop().unwrap();
                    std::ptr::copy_nonoverlapping(x.0.as_ptr(), bp, 32);
                    std::ptr::copy_nonoverlapping(x.1.as_ptr(), self.shadow.add((b as usize) << BS), 256);
                } else {
                    let q = bp as *mut u64;
                    for i in 0..4 {
                        *q.add(i) = 0;
                    }
                }
            }
        }
    }
    /// bitmap of symbolic bytes among a..a+n (n <= 8)
    #[inline(always)]
    pub fn symbits(&self, a: u64, n: u32) -> u32 {
        unsafe {
            let w = (self.bits.add((a >> 3) as usize) as *const u16).read_unaligned() as u32;
            (w >> (a & 7)) & ((1u32 << n) - 1)
        }
    }
    pub fn any_sym(&self, a: u64, n: u64) -> bool {
        if self.nsym == 0 {
            return false;
        }
        let mut i = a;
        let e = a + n;
        while i < e && (i & 7) != 0 {
            if self.is_sym(i) {
                return true;
            }
            i += 1;
        }
        while i + 8 <= e {
            if unsafe { *self.bits.add((i >> 3) as usize) } != 0 {
                return true;
            }
            i += 8;
        }
        while i < e {
            if self.is_sym(i) {
                return true;
            }
            i += 1;
        }
        false
    }
    #[inline]
    pub fn is_sym(&self, a: u64) -> bool {
        unsafe { *self.bits.add((a >> 3) as usize) >> (a & 7) & 1 != 0 }
    }
    pub fn sym_at(&self, a: u64) -> Id {
        unsafe {
            if self.is_sym(a) {
                *self.shadow.add(a as usize)
            } else {
                0
            }
        }
    }
    /// caller has touched the block
    #[inline]
    pub fn clear_sym(&mut self, a: u64, n: u64) {
        for i in a..a + n {
            unsafe {
                *self.bits.add((i >> 3) as usize) &= !(1 << (i & 7));
            }
        }
    }
    pub fn set_sym(&mut self, a: u64, e: Id) {
        unsafe {
            *self.bits.add((a >> 3) as usize) |= 1 << (a & 7);
            *self.shadow.add(a as usize) = e;
        }
        self.nsym += 1;
    }
    pub fn slice(&self, a: u64, n: u64) -> &[u8] {
        assert!(a + n <= self.size);
        unsafe { std::slice::from_raw_parts(self.base.add(a as usize), n as usize) }
    }
}
