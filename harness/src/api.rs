//! Interface between harnesses and the symbolic executor (wasm) or the
//! native replayer.

#[cfg(target_arch = "wasm64")]
mod imp {
    pub mod raw {
        #[link(wasm_import_module = "env")]
        unsafe extern "C" {
            pub fn sym(p: *const u8, n: usize) -> i32;
            pub fn assume(c: i32);
            pub fn conc(v: u64) -> u64;
            pub fn fail(p: *const u8, n: usize);
            pub fn cover(i: i32);
            pub fn note(p: *const u8, n: usize);
            pub fn emit(p: *const u8, n: usize);
            pub fn replaying() -> i32;
        }
    }
    pub fn sym(dom: &[u8]) -> u8 {
        unsafe { raw::sym(dom.as_ptr(), dom.len()) as u8 }
    }
    pub fn assume(c: bool) {
        unsafe { raw::assume(c as i32) }
    }
    pub fn conc(v: usize) -> usize {
        unsafe { raw::conc(v as u64) as usize }
    }
    pub fn fail(m: &str) -> ! {
        unsafe { raw::fail(m.as_ptr(), m.len()) };
        loop {}
    }
    pub fn cover(i: u32) {
        unsafe { raw::cover(i as i32) }
    }
    pub fn note(s: &str) {
        unsafe { raw::note(s.as_ptr(), s.len()) }
    }
    pub fn emit(s: &str) {
        unsafe { raw::emit(s.as_ptr(), s.len()) }
    }
    pub fn replaying() -> bool {
        unsafe { raw::replaying() != 0 }
    }
}

#[cfg(not(target_arch = "wasm64"))]
mod imp {
    use std::cell::RefCell;
    thread_local! { static FEED: RefCell<(Vec<u8>, usize)> = const { RefCell::new((vec![], 0)) }; }
    pub fn set_feed(v: Vec<u8>) {
        FEED.with(|f| *f.borrow_mut() = (v, 0));
    }
    pub fn sym(dom: &[u8]) -> u8 {
        FEED.with(|f| {
            let mut f = f.borrow_mut();
            let i = f.1;
            f.1 += 1;
            let v = f.0.get(i).copied().unwrap_or(dom[0]);
            if !dom.contains(&v) {
                println!("REPLAY-OUT-OF-DOMAIN");
                std::process::exit(5);
            }
            v
        })
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY-ASSUME-FALSE");
            std::process::exit(4);
        }
    }
    pub fn conc(v: usize) -> usize {
        v
    }
    pub fn fail(m: &str) -> ! {
        println!("REPLAY-VIOLATION {m}");
        std::process::exit(10);
    }
    pub fn cover(_i: u32) {}
    pub fn note(s: &str) {
        println!("REPLAY-INPUT {s:?}");
    }
    pub fn emit(s: &str) {
        print!("{s}");
    }
    pub fn replaying() -> bool {
        true
    }
}

pub use imp::*;

/// A symbolic byte drawn from the given alphabet.
pub fn byte(dom: &[u8]) -> u8 {
    sym(dom)
}

/// A symbolic choice 0..n (n <= 256).
pub fn choose(n: usize) -> usize {
    const ALL: [u8; 256] = {
        let mut a = [0u8; 256];
        let mut i = 0;
        while i < 256 {
            a[i] = i as u8;
            i += 1;
        }
        a
    };
    if n <= 1 { 0 } else { sym(&ALL[..n]) as usize }
}

/// A concrete choice: explores each of 0..n separately.
pub fn pick(n: usize) -> usize {
    conc(choose(n))
}

/// One of the listed strings, chosen symbolically.
pub fn token(alts: &[&str], out: &mut String) {
    let i = choose(alts.len());
    // group by length so that equal-length alternatives stay merged
    let n = conc(alts[i].len());
    let b = alts[i].as_bytes();
    for k in 0..n {
        // SAFETY: whole tokens are appended, so the string stays UTF-8
        unsafe { out.as_mut_vec().push(b[k]) };
    }
}

/// Appends one symbolic ASCII byte of the alphabet.
pub fn put(dom: &[u8], out: &mut String) {
    let b = byte(dom);
    unsafe { out.as_mut_vec().push(b) };
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($m:tt)*) => {
        if !$c { $crate::api::fail(&format!($($m)*)); }
    };
}

/// In a concrete replay (native, or in the executor), prints a hash of the
/// observable result, so that both executions can be compared.
pub fn digest(f: impl FnOnce() -> String) {
    if replaying() {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in f().bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        emit(&format!("DIGEST {h:016x}\n"));
    }
}
