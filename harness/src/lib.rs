#[macro_use]
pub mod api;
pub mod p_block;
pub mod p_comp;
pub mod p_inline;
pub mod p_known;
pub mod p_meta;
pub mod p_misc;
pub mod p_total;
pub mod refblk;
pub mod refinl;
pub mod rx;
pub mod skel;
pub mod tpl;
pub mod walk;

pub struct Harness {
    pub name: &'static str,
    pub jobs: fn() -> usize,
    pub run: fn(usize),
}

pub fn all() -> Vec<Harness> {
    let mut v = vec![];
    v.extend(p_total::harnesses());
    v.extend(p_misc::harnesses());
    v.extend(p_inline::harnesses());
    v.extend(p_block::harnesses());
    v.extend(p_meta::harnesses());
    v.extend(p_comp::harnesses());
    v.extend(p_known::harnesses());
    v
}

#[cfg(target_arch = "wasm64")]
mod exports {
    use super::*;
    #[unsafe(no_mangle)]
    pub extern "C" fn init() {
        std::panic::set_hook(Box::new(|i| {
            let (f, l) = i.location().map(|l| (l.file(), l.line())).unwrap_or(("?", 0));
            let msg = match i.payload().downcast_ref::<&'static str>() {
                Some(s) => *s,
                None => "",
            };
            let _ = l;
            let mut s = String::from("panic in ");
            s.push_str(f.rsplit_once("/repo/").map_or(f, |x| x.1));
            s.push_str(": ");
            s.push_str(msg);
            api::fail(&s);
        }));
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn count() -> usize {
        all().len()
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn name(i: usize) {
        api::emit(all()[i].name);
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn jobs(i: usize) -> usize {
        (all()[i].jobs)()
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn run(i: usize, job: usize) {
        (all()[i].run)(job)
    }
}
