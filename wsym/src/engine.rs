//! Symbolic interpreter: depth-first exploration of all feasible paths.
use crate::expr::*;
use crate::mem::*;
use crate::ops::*;
use crate::wasm::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicI32, Ordering};

#[derive(Clone, Copy)]
pub struct Rv {
    pub v: u64,
    pub s: u32,
}
pub const RZ: Rv = Rv { v: 0, s: 0 };

#[derive(Clone)]
pub struct Frame {
    pub fi: u32,
    pub pc: u32,
    pub base: u32,
}

#[derive(Clone)]
pub struct Path {
    pub doms: Vec<[u64; 4]>,
    pub model: Vec<u8>,
    pub cons: Vec<Id>,
    pub ent: u64,
    pub vars: Vec<u8>, // global variable index of the i-th sym() of this path
    pub note: Vec<(u8, Id)>,
    pub covers: Vec<u32>,
    pub steps: u64,
    pub forks: u32,
}

pub struct Level {
    regs: Vec<Rv>,
    frames: Vec<Frame>,
    globals: Vec<Rv>,
    memsize: u64,
    log_pos: usize,
    epoch: u32,
    path: Path,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Infeasible,
    Violation(String),
    Trap(String),
    Engine(String),
}

pub struct Shared {
    pub viol: AtomicI32,
    pub slots: AtomicI32,
    pub seq: AtomicI32,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub forks: u64,
    pub symops: u64,
    pub claims: u64,
    pub claims_refuted: u64,
    pub merges_checked: u64,
    pub covers: BTreeMap<u32, u64>,
    pub violations: Vec<Viol>,
    pub nviol: u64,
    pub samples: Vec<(String, String)>,
    pub incomplete: Option<String>,
    pub donated: u64,
    pub maxsteps: u64,
    pub inloop_sat: u64,
    pub inloop_unsat: u64,
}
pub struct Viol {
    pub msg: String,
    pub note: String,
    pub model: Vec<u8>,
    pub stack: String,
}

pub struct Engine {
    pub m: Rc<Module>,
    pub code: Vec<Option<Rc<Code>>>,
    pub mem: Mem,
    pub regs: Vec<Rv>,
    pub frames: Vec<Frame>,
    pub globals: Vec<Rv>,
    pub ex: Exprs,
    pub z3: Option<Z3>,
    pub path: Path,
    pub levels: Vec<Level>,
    pub symbolic: bool,
    pub rng: u64,
    pub feed: Option<Vec<u8>>, // concrete replay values for sym()
    pub feed_pos: usize,
    pub varreg: HashMap<(usize, [u64; 4]), u8>,
    pub fsym: Vec<bool>,
    pub out: Vec<u8>,
    pub st: Stats,
    pub simp_memo: HashMap<Id, Id>,
    claimset: HashSet<(u8, [u64; 4], Id, bool)>,
    claims: Vec<(u8, [u64; 4], Id, bool)>,
    qcache: HashMap<Vec<u64>, (Res, Vec<(usize, u8)>)>,
    pub shared: Option<&'static Shared>,
    pub max_viol: i32,
    pub deadline: Option<std::time::Instant>,
    pub max_steps: u64,
    pub max_depth: usize,
    pub last_donate: std::time::Instant,
    pub is_child: bool,
    pub trace_forks: bool,
    pub forksites: HashMap<(u32, u32), u64>,
}

extern "C" {
    fn fork() -> i32;
}

type Res_<T> = Result<T, Stop>;

impl Engine {
    pub fn new(m: Module) -> Engine {
        let mut mem = Mem::new(m.mem_pages);
        for (off, (s, e)) in &m.datas {
            unsafe {
                std::ptr::copy_nonoverlapping(m.bytes[*s..*e].as_ptr(), mem.base.add(*off as usize), e - s);
            }
        }
        mem.cur = 0;
        let n = m.funcs.len();
        let globals = m.globals.iter().map(|v| Rv { v: *v, s: 0 }).collect();
        Engine {
            m: Rc::new(m),
            code: vec![None; n],
            mem,
            regs: vec![RZ; 1 << 21],
            frames: vec![],
            globals,
            ex: Exprs::new(),
            z3: None,
            path: Path { doms: vec![], model: vec![], cons: vec![], ent: 0, vars: vec![], note: vec![], covers: vec![], steps: 0, forks: 0 },
            levels: vec![],
            symbolic: false,
            rng: 0x1234_5678_9abc_def1,
            feed: None,
            feed_pos: 0,
            varreg: HashMap::new(),
            fsym: vec![false; n],
            out: vec![],
            st: Stats::default(),
            simp_memo: HashMap::new(),
            claimset: HashSet::new(),
            claims: vec![],
            qcache: HashMap::new(),
            shared: None,
            max_viol: 200,
            deadline: None,
            max_steps: 60_000_000,
            max_depth: 12_000,
            last_donate: std::time::Instant::now(),
            is_child: false,
            trace_forks: false,
            forksites: HashMap::new(),
        }
    }
    fn get_code(&mut self, fi: usize) -> Rc<Code> {
        if let Some(c) = &self.code[fi] {
            return c.clone();
        }
        let c = Rc::new(self.m.translate(fi));
        self.code[fi] = Some(c.clone());
        c
    }
    pub fn export(&self, n: &str) -> u32 {
        self.m.exports.get(n).unwrap_or_else(|| panic!("no export {n}")).1
    }
    pub fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ---------------------------------------------------------------- path condition
    fn z3(&mut self) -> &mut Z3 {
        if self.z3.is_none() {
            self.z3 = Some(Z3::new());
        }
        self.z3.as_mut().unwrap()
    }
    fn claim(&mut self, var: u8, d: [u64; 4], e: Id, truth: bool) {
        if self.claimset.insert((var, d, e, truth)) {
            self.claims.push((var, d, e, truth));
        }
    }
    pub fn eval_model(&self, e: Id, model: &[u8], memo: &mut HashMap<Id, u64>) -> u64 {
        let n = &self.ex.nodes[e as usize];
        if n.tab != u32::MAX {
            return self.ex.tabs[n.tab as usize][model[n.var as usize] as usize];
        }
        if n.k.op == Op::Const {
            return n.k.imm;
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let k = n.k;
        let r = match k.op {
            Op::Bin(o) => o.eval(self.eval_model(k.a, model, memo), self.eval_model(k.b, model, memo)),
            Op::Un(o) => o.eval(self.eval_model(k.a, model, memo)),
            Op::Ite => {
                if self.eval_model(k.a, model, memo) != 0 {
                    self.eval_model(k.b, model, memo)
                } else {
                    self.eval_model(k.c, model, memo)
                }
            }
            Op::Byte => self.eval_model(k.a, model, memo) >> (8 * k.imm) & 255,
            Op::Concat => {
                let mut r = 0;
                for (i, x) in self.ex.lists[k.imm as usize].iter().enumerate() {
                    r |= self.eval_model(*x, model, memo) << (8 * i);
                }
                r
            }
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }
    fn ev(&self, e: Id) -> u64 {
        self.eval_model(e, &self.path.model, &mut HashMap::new())
    }
    /// simplify under the variable domains of the path
    fn simp(&mut self, e: Id) -> Id {
        let n = &self.ex.nodes[e as usize];
        if n.k.op == Op::Const {
            return e;
        }
        if n.tab != u32::MAX {
            let var = n.var;
            let d = self.path.doms[var as usize];
            let t = &self.ex.tabs[n.tab as usize];
            let f = t[bs_first(&d) as usize];
            if bs_iter(&d).all(|v| t[v] == f) {
                let c = self.ex.konst(f);
                let q = self.ex.bin(Bin::I64Eq, e, c);
                if self.ex.as_const(q).is_none() {
                    self.claim(var, d, q, true);
                }
                return c;
            }
            return e;
        }
        if let Some(&r) = self.simp_memo.get(&e) {
            return r;
        }
        let k = n.k;
        let r = if k.op == Op::Concat {
            let l = self.ex.lists[k.imm as usize].clone();
            let l2: Vec<Id> = l.iter().map(|x| self.simp(*x)).collect();
            if l2 == l {
                e
            } else {
                self.ex.concat(&l2)
            }
        } else {
            let a = self.simp(k.a);
            let b = if k.b != 0 { self.simp(k.b) } else { 0 };
            let c = if k.c != 0 { self.simp(k.c) } else { 0 };
            if (a, b, c) == (k.a, k.b, k.c) {
                e
            } else {
                self.ex.rebuild(&k, a, b, c)
            }
        };
        self.simp_memo.insert(e, r);
        r
    }
    fn set_dom(&mut self, var: usize, d: [u64; 4]) {
        self.path.doms[var] = d;
        self.simp_memo.clear();
        if !bs_get(&d, self.path.model[var] as usize) {
            self.path.model[var] = bs_first(&d);
        }
    }
    /// is (path condition and c==truth) satisfiable?  c may be 0 to ask for the path condition alone
    fn query(&mut self, c: Id, truth: bool, newdom: Option<(usize, [u64; 4])>) -> Res_<Option<Vec<u8>>> {
        // slice: constraints connected with c
        let mut sup = if c != 0 { self.ex.support(c) } else { 0 };
        if let Some((v, _)) = newdom {
            sup |= 1 << v;
        }
        let mut sel: Vec<Id> = vec![];
        let cons = self.path.cons.clone();
        loop {
            let mut ch = false;
            for &k in &cons {
                if sel.contains(&k) {
                    continue;
                }
                let s = self.ex.support(k);
                if s & sup != 0 {
                    sup |= s;
                    sel.push(k);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        sel.sort();
        let vars: Vec<usize> = (0..64).filter(|i| sup >> i & 1 != 0).collect();
        let mut key: Vec<u64> = vec![c as u64, truth as u64];
        for k in &sel {
            key.push(*k as u64);
        }
        key.push(u64::MAX);
        for &v in &vars {
            let d = match newdom {
                Some((w, d)) if w == v => d,
                _ => self.path.doms[v],
            };
            key.push(v as u64);
            key.extend_from_slice(&d);
        }
        let (res, mv) = if let Some(r) = self.qcache.get(&key) {
            r.clone()
        } else {
            self.z3();
            let z = self.z3.as_mut().unwrap();
            let mut asserts = vec![];
            for &v in &vars {
                let d = match newdom {
                    Some((w, d)) if w == v => d,
                    _ => self.path.doms[v],
                };
                asserts.push(z.dom_term(v, &d));
            }
            for k in &sel {
                let t = z.zero(&self.ex, *k);
                asserts.push(z.not(t));
            }
            if c != 0 {
                let t = z.zero(&self.ex, c);
                asserts.push(if truth { z.not(t) } else { t });
            }
            let r = z.check(&asserts, &vars);
            self.qcache.insert(key, r.clone());
            r
        };
        match res {
            Res::Sat => {
                self.st.inloop_sat += 1;
                let mut m = self.path.model.clone();
                for (v, x) in mv {
                    m[v] = x;
                }
                Ok(Some(m))
            }
            Res::Unsat => {
                self.st.inloop_unsat += 1;
                Ok(None)
            }
            Res::Unknown => Err(Stop::Engine("z3 returned unknown".into())),
        }
    }
    fn push_level(&mut self, alt: Path) {
        // the caller has stored the current pc in the top frame
        if self.levels.is_empty() {
            self.mem.log_idx.clear();
            self.mem.log_data.clear();
            self.mem.log_sym.clear();
        }
        let f = self.frames.last().unwrap();
        let top = f.base as usize + self.code[f.fi as usize].as_ref().unwrap().frame;
        self.st.forks += 1;
        if self.trace_forks {
            *self.forksites.entry((f.fi, f.pc)).or_default() += 1;
        }
        self.path.forks += 1;
        let epoch = self.mem.next_epoch;
        self.mem.next_epoch += 1;
        self.levels.push(Level {
            regs: self.regs[..top].to_vec(),
            frames: self.frames.clone(),
            globals: self.globals.clone(),
            memsize: self.mem.size,
            log_pos: self.mem.log_idx.len(),
            epoch,
            path: alt,
        });
        self.mem.cur = epoch;
        self.maybe_donate();
    }
    fn maybe_donate(&mut self) {
        let Some(sh) = self.shared else { return };
        if sh.slots.load(Ordering::Relaxed) <= 0 || self.last_donate.elapsed().as_millis() < 15 {
            return;
        }
        let s = sh.slots.fetch_sub(1, Ordering::SeqCst);
        if s <= 0 {
            sh.slots.fetch_add(1, Ordering::SeqCst);
            return;
        }
        self.last_donate = std::time::Instant::now();
        let pid = unsafe { fork() };
        if pid < 0 {
            sh.slots.fetch_add(1, Ordering::SeqCst);
            return;
        }
        if pid == 0 {
            // child: takes the oldest pending alternative
            let mut l0 = None;
            while let Some(l) = self.levels.pop() {
                l0 = Some(l);
            }
            let l = l0.unwrap();
            self.st = Stats::default();
            self.claims.clear();
            self.ex.merges.clear();
            if let Some(z) = self.z3.as_mut() {
                z.queries = 0;
                z.time = 0.0;
            }
            self.fsym.iter_mut().for_each(|x| *x = false);
            self.forksites.clear();
            self.is_child = true;
            self.restore(l);
        } else {
            self.st.donated += 1;
            self.levels.remove(0);
        }
    }
    fn restore(&mut self, l: Level) {
        self.mem.undo_to(l.log_pos);
        self.mem.size = l.memsize;
        self.regs[..l.regs.len()].copy_from_slice(&l.regs);
        self.frames = l.frames;
        self.globals = l.globals;
        self.path = l.path;
        self.simp_memo.clear();
        self.mem.cur = self.levels.last().map(|x| x.epoch).unwrap_or(0);
    }
    /// decides a branch condition, forking when both outcomes are feasible
    pub fn decide(&mut self, c0: Id) -> Res_<bool> {
        let mut c = c0;
        loop {
            if let Some(v) = self.ex.as_const(c) {
                return Ok(v != 0);
            }
            if self.ex.single(c) {
                let n = &self.ex.nodes[c as usize];
                let var = n.var as usize;
                let nz = n.nz;
                let d = self.path.doms[var];
                let t = bs_and(&d, &nz);
                let f = bs_andn(&d, &nz);
                if bs_empty(&f) {
                    self.claim(var as u8, d, c, true);
                    return Ok(true);
                }
                if bs_empty(&t) {
                    self.claim(var as u8, d, c, false);
                    return Ok(false);
                }
                let cur = bs_get(&nz, self.path.model[var] as usize);
                let (side, other) = if cur { (t, f) } else { (f, t) };
                if self.path.ent >> var & 1 != 0 {
                    match self.query(0, true, Some((var, other)))? {
                        None => {
                            self.set_dom(var, side);
                            return Ok(cur);
                        }
                        Some(m) => {
                            let mut alt = self.path.clone();
                            alt.doms[var] = other;
                            alt.model = m;
                            return self.fork_to(alt, cur, |s| s.set_dom(var, side));
                        }
                    }
                }
                let mut alt = self.path.clone();
                alt.doms[var] = other;
                alt.model[var] = bs_first(&other);
                return self.fork_to(alt, cur, |s| s.set_dom(var, side));
            }
            let s = self.simp(c);
            if s != c {
                c = s;
                continue;
            }
            if let Some(a) = self.atom(c) {
                self.decide(a)?;
                continue;
            }
            // genuinely multi-variable
            let cur = self.ev(c) != 0;
            let nc = self.ex.un(Un::I64Eqz, c);
            let (ctrue, cfalse) = (c, nc);
            match self.query(c, !cur, None)? {
                None => return Ok(cur),
                Some(m) => {
                    let sup = self.ex.support(c);
                    let mut alt = self.path.clone();
                    alt.cons.push(if cur { cfalse } else { ctrue });
                    alt.ent |= sup;
                    alt.model = m;
                    let mine = if cur { ctrue } else { cfalse };
                    return self.fork_to(alt, cur, |s| {
                        s.path.cons.push(mine);
                        s.path.ent |= sup;
                    });
                }
            }
        }
    }
    fn fork_to(&mut self, alt: Path, cur: bool, apply: impl FnOnce(&mut Engine)) -> Res_<bool> {
        let was_child = self.is_child;
        self.is_child = false;
        self.push_level(alt);
        let child = self.is_child;
        self.is_child = was_child || child;
        if child {
            // forked process: continues at the restored program point
            return Err(Stop::Engine("@resume".into()));
        }
        apply(self);
        Ok(cur)
    }
    /// an undetermined single-variable boolean component of a boolean structure
    fn atom(&self, e: Id) -> Option<Id> {
        let n = &self.ex.nodes[e as usize];
        if n.tab != u32::MAX {
            return Some(e);
        }
        match n.k.op {
            Op::Un(Un::I32Eqz) | Op::Un(Un::I64Eqz) => self.atom(n.k.a),
            Op::Bin(Bin::I32And) | Op::Bin(Bin::I32Or) | Op::Bin(Bin::I64And) | Op::Bin(Bin::I64Or) | Op::Bin(Bin::I32Xor) if n.max <= 1 => {
                self.atom(n.k.a).or_else(|| self.atom(n.k.b))
            }
            Op::Ite => {
                if let Some(a) = self.atom(n.k.a) {
                    return Some(a);
                }
                if n.max <= 1 {
                    return self.atom(n.k.b).or_else(|| self.atom(n.k.c));
                }
                None
            }
            _ => None,
        }
    }
    fn collect_single(&self, e: Id, seen: &mut HashSet<Id>, out: &mut Vec<Id>) {
        if !seen.insert(e) {
            return;
        }
        let n = &self.ex.nodes[e as usize];
        if n.tab != u32::MAX {
            out.push(e);
            return;
        }
        if n.k.op == Op::Concat {
            for x in &self.ex.lists[n.k.imm as usize] {
                self.collect_single(*x, seen, out);
            }
            return;
        }
        if n.k.op == Op::Const {
            return;
        }
        for x in [n.k.a, n.k.b, n.k.c] {
            if x != 0 {
                self.collect_single(x, seen, out);
            }
        }
    }
    fn distinct(&self, e: Id) -> usize {
        let n = &self.ex.nodes[e as usize];
        let d = &self.path.doms[n.var as usize];
        let t = &self.ex.tabs[n.tab as usize];
        let mut s: Vec<u64> = bs_iter(d).map(|v| t[v]).collect();
        s.sort();
        s.dedup();
        s.len()
    }
    /// makes a value concrete on this path (forking over its possible values)
    pub fn concretize(&mut self, e0: Id) -> Res_<u64> {
        let mut e = e0;
        loop {
            e = self.simp(e);
            if let Some(v) = self.ex.as_const(e) {
                return Ok(v);
            }
            if self.ex.single(e) {
                let v = self.ev(e);
                let k = self.ex.konst(v);
                let c = self.ex.bin(Bin::I64Eq, e, k);
                if self.decide(c)? {
                    return Ok(v);
                }
                continue;
            }
            let mut l = vec![];
            self.collect_single(e, &mut HashSet::new(), &mut l);
            let best = l.into_iter().min_by_key(|x| self.distinct(*x)).unwrap();
            self.concretize(best)?;
        }
    }
    #[inline]
    fn conc(&mut self, r: Rv) -> Res_<u64> {
        if r.s == 0 {
            Ok(r.v)
        } else {
            self.concretize(r.s)
        }
    }
    #[inline]
    fn id(&mut self, r: Rv) -> Id {
        if r.s != 0 {
            r.s
        } else {
            self.ex.konst(r.v)
        }
    }
    #[inline]
    fn rv(&self, e: Id) -> Rv {
        match self.ex.as_const(e) {
            Some(v) => Rv { v, s: 0 },
            None => Rv { v: 0, s: e },
        }
    }
    fn mark(&mut self) {
        self.st.symops += 1;
        let fi = self.frames.last().unwrap().fi;
        self.fsym[fi as usize] = true;
    }
    #[inline(never)]
    fn slow_bin(&mut self, op: Bin, a: Rv, b: Rv) -> Rv {
        self.mark();
        let x = self.id(a);
        let y = self.id(b);
        let e = self.ex.bin(op, x, y);
        self.rv(e)
    }
    #[inline(never)]
    fn slow_un(&mut self, op: Un, a: Rv) -> Rv {
        self.mark();
        let e = self.ex.un(op, a.s);
        self.rv(e)
    }
    #[inline(never)]
    fn slow_select(&mut self, c: Rv, a: Rv, b: Rv) -> Res_<Rv> {
        self.mark();
        let c0 = self.simp(c.s);
        if let Some(v) = self.ex.as_const(c0) {
            return Ok(if v != 0 { a } else { b });
        }
        let x = self.id(a);
        let y = self.id(b);
        let sup = self.ex.support(c0) | self.ex.support(x) | self.ex.support(y);
        if sup.count_ones() == 1 || (self.ex.max(x) <= 1 && self.ex.max(y) <= 1) {
            let e = self.ex.ite(c0, x, y);
            return Ok(self.rv(e));
        }
        Ok(if self.decide(c0)? { a } else { b })
    }
    fn ext_load(op: u16, v: u64) -> u64 {
        match op {
            op::L8S32 => Un::I32Extend8S.eval(v),
            op::L8S64 => Un::I64Extend8S.eval(v),
            op::L16S32 => Un::I32Extend16S.eval(v),
            op::L16S64 => Un::I64Extend16S.eval(v),
            op::L32S64 => Un::I64Extend32S.eval(v),
            _ => v,
        }
    }
    fn load_size(o: u16) -> u64 {
        match o {
            op::L8U | op::L8S32 | op::L8S64 => 1,
            op::L16U | op::L16S32 | op::L16S64 => 2,
            op::L32U | op::L32S64 => 4,
            _ => 8,
        }
    }
    fn raw(&self, a: u64, n: u64) -> u64 {
        let mut b = [0u8; 8];
        b[..n as usize].copy_from_slice(self.mem.slice(a, n));
        u64::from_le_bytes(b)
    }
    #[inline(never)]
    fn slow_load(&mut self, o: u16, ar: Rv, off: u64) -> Res_<Rv> {
        self.mark();
        let n = Self::load_size(o);
        let mut addr = ar.v;
        if ar.s != 0 {
            let a = self.simp(ar.s);
            if self.ex.as_const(a).is_none() && self.ex.single(a) {
                let var = self.ex.nodes[a as usize].var as usize;
                let d = self.path.doms[var];
                let t = self.ex.tab(a).clone();
                let mut addrs: Vec<u64> = bs_iter(&d).map(|v| t[v]).collect();
                addrs.sort();
                addrs.dedup();
                let ok = addrs.iter().all(|x| match x.checked_add(off) {
                    Some(y) => y.checked_add(n).map_or(false, |e| e <= self.mem.size) && self.mem.symbits(y, n as u32) == 0,
                    None => false,
                });
                if ok {
                    let pairs: Vec<(u64, u64)> = addrs.iter().map(|x| (*x, Self::ext_load(o, self.raw(*x + off, n)))).collect();
                    let e = self.ex.lut(a, &d, pairs);
                    let e = self.simp(e);
                    return Ok(self.rv(e));
                }
            }
            addr = self.concretize(a)?;
        }
        let y = addr.wrapping_add(off);
        if y < addr || y.checked_add(n).map_or(true, |e| e > self.mem.size) {
            return Err(Stop::Trap(format!("out-of-bounds load at {y:#x}")));
        }
        if self.mem.symbits(y, n as u32) == 0 {
            return Ok(Rv { v: Self::ext_load(o, self.raw(y, n)), s: 0 });
        }
        let mut l = vec![];
        for i in 0..n {
            let s = self.mem.sym_at(y + i);
            if s != 0 {
                l.push(s);
            } else {
                let b = self.mem.slice(y + i, 1)[0];
                l.push(self.ex.konst(b as u64));
            }
        }
        let mut e = self.ex.concat(&l);
        let u = match o {
            op::L8S32 => Some(Un::I32Extend8S),
            op::L8S64 => Some(Un::I64Extend8S),
            op::L16S32 => Some(Un::I32Extend16S),
            op::L16S64 => Some(Un::I64Extend16S),
            op::L32S64 => Some(Un::I64Extend32S),
            _ => None,
        };
        if let Some(u) = u {
            e = self.ex.un(u, e);
        }
        Ok(self.rv(e))
    }
    #[inline(never)]
    fn slow_store(&mut self, n: u64, ar: Rv, off: u64, v: Rv) -> Res_<()> {
        self.mark();
        let addr = self.conc(ar)?;
        let y = addr.wrapping_add(off);
        if y < addr || y.checked_add(n).map_or(true, |e| e > self.mem.size) {
            return Err(Stop::Trap(format!("out-of-bounds store at {y:#x}")));
        }
        self.mem.touch(y, n);
        if v.s == 0 {
            let b = v.v.to_le_bytes();
            unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.mem.base.add(y as usize), n as usize) };
            self.mem.clear_sym(y, n);
            return Ok(());
        }
        for i in 0..n {
            let e = self.ex.byte(v.s, i as u32);
            match self.ex.as_const(e) {
                Some(c) => {
                    unsafe { *self.mem.base.add((y + i) as usize) = c as u8 };
                    self.mem.clear_sym(y + i, 1);
                }
                None => self.mem.set_sym(y + i, e),
            }
        }
        Ok(())
    }
    fn mem_copy(&mut self, d: u64, s: u64, n: u64) -> Res_<()> {
        if d.checked_add(n).map_or(true, |e| e > self.mem.size) || s.checked_add(n).map_or(true, |e| e > self.mem.size) {
            return Err(Stop::Trap("out-of-bounds memory.copy".into()));
        }
        if n == 0 {
            return Ok(());
        }
        self.mem.touch_range(d, n);
        let sy = self.mem.any_sym(s, n);
        let dy = self.mem.any_sym(d, n);
        if sy || dy {
            let ids: Vec<Id> = (0..n).map(|i| self.mem.sym_at(s + i)).collect();
            unsafe { std::ptr::copy(self.mem.base.add(s as usize), self.mem.base.add(d as usize), n as usize) };
            for i in 0..n {
                if ids[i as usize] != 0 {
                    self.mem.set_sym(d + i, ids[i as usize]);
                } else {
                    self.mem.clear_sym(d + i, 1);
                }
            }
            if sy {
                self.mark();
            }
        } else {
            unsafe { std::ptr::copy(self.mem.base.add(s as usize), self.mem.base.add(d as usize), n as usize) };
        }
        Ok(())
    }
    fn text(&mut self, p: u64, n: u64) -> String {
        let mut memo = HashMap::new();
        let mut b = vec![];
        for i in 0..n {
            let s = self.mem.sym_at(p + i);
            b.push(if s != 0 { self.eval_model(s, &self.path.model, &mut memo) as u8 } else { self.mem.slice(p + i, 1)[0] });
        }
        String::from_utf8_lossy(&b).into_owned()
    }
    fn note_text(&self) -> String {
        let mut memo = HashMap::new();
        let b: Vec<u8> = self.path.note.iter().map(|(c, s)| if *s != 0 { self.eval_model(*s, &self.path.model, &mut memo) as u8 } else { *c }).collect();
        String::from_utf8_lossy(&b).into_owned()
    }
    fn model_vec(&self) -> Vec<u8> {
        self.path.vars.iter().map(|v| self.path.model[*v as usize]).collect()
    }
    fn new_sym(&mut self, dom: [u64; 4]) -> Res_<Rv> {
        if bs_count(&dom) == 1 {
            // still consumes a slot in the replay vector
        }
        if !self.symbolic {
            let n = bs_count(&dom) as u64;
            let v = if let Some(f) = &self.feed {
                let v = f.get(self.feed_pos).copied().unwrap_or(bs_first(&dom));
                self.feed_pos += 1;
                v
            } else {
                let k = self.rand() % n;
                bs_iter(&dom).nth(k as usize).unwrap() as u8
            };
            return Ok(Rv { v: v as u64, s: 0 });
        }
        let pos = self.path.vars.len();
        let g = match self.varreg.get(&(pos, dom)) {
            Some(&g) => g,
            None => {
                if self.ex.base.len() >= 63 {
                    return Err(Stop::Engine("too many symbolic variables".into()));
                }
                let e = self.ex.new_var(dom);
                let g = (self.ex.base.len() - 1) as u8;
                let _ = e;
                self.varreg.insert((pos, dom), g);
                g
            }
        };
        while self.path.doms.len() <= g as usize {
            self.path.doms.push([0; 4]);
            self.path.model.push(0);
        }
        self.path.doms[g as usize] = dom;
        self.path.model[g as usize] = bs_first(&dom);
        self.path.vars.push(g);
        self.simp_memo.clear();
        let k = Key { op: Op::Var, a: g as u32, b: 0, c: 0, imm: 0 };
        let e = self.ex.cons[&k];
        Ok(self.rv(e))
    }
    fn host(&mut self, fi: usize, base: usize) -> Res_<()> {
        let name = self.m.funcs[fi].import.clone().unwrap();
        let args: Vec<Rv> = (0..4).map(|i| self.regs[base + i]).collect();
        match name.as_str() {
            "sym" => {
                let p = self.conc(args[0])?;
                let n = self.conc(args[1])?;
                let mut d = [0u64; 4];
                for b in self.mem.slice(p, n) {
                    bs_set(&mut d, *b as usize);
                }
                self.regs[base] = self.new_sym(d)?;
            }
            "assume" => {
                let c = args[0];
                let ok = if c.s != 0 { self.decide(c.s)? } else { c.v != 0 };
                if !ok {
                    return Err(Stop::Infeasible);
                }
            }
            "conc" => {
                let v = self.conc(args[0])?;
                self.regs[base] = Rv { v, s: 0 };
            }
            "fail" => {
                let p = self.conc(args[0])?;
                let n = self.conc(args[1])?;
                let t = self.text(p, n);
                return Err(Stop::Violation(t));
            }
            "replaying" => {
                self.regs[base] = Rv { v: (!self.symbolic && self.feed.is_some()) as u64, s: 0 };
            }
            "cover" => {
                let c = self.conc(args[0])? as u32;
                if !self.path.covers.contains(&c) {
                    self.path.covers.push(c);
                }
            }
            "note" => {
                let p = self.conc(args[0])?;
                let n = self.conc(args[1])?;
                self.path.note = (0..n).map(|i| (self.mem.slice(p + i, 1)[0], self.mem.sym_at(p + i))).collect();
            }
            "emit" => {
                let p = self.conc(args[0])?;
                let n = self.conc(args[1])?;
                let t = self.text(p, n);
                self.out.extend_from_slice(t.as_bytes());
            }
            o => return Err(Stop::Engine(format!("unknown import {o}"))),
        }
        Ok(())
    }

    fn fop2(&mut self, o: u64, a: u64, b: u64) -> Res_<u64> {
        let f = |x: u64| f64::from_bits(x);
        let s = |x: u64| f32::from_bits(x as u32);
        Ok(match o {
            0x6d => {
                if b as u32 == 0 {
                    return Err(Stop::Trap("divide by zero".into()));
                }
                (a as i32).wrapping_div(b as i32) as u32 as u64
            }
            0x6e => {
                if b as u32 == 0 {
                    return Err(Stop::Trap("divide by zero".into()));
                }
                (a as u32 / b as u32) as u64
            }
            0x6f => {
                if b as u32 == 0 {
                    return Err(Stop::Trap("divide by zero".into()));
                }
                (a as i32).wrapping_rem(b as i32) as u32 as u64
            }
            0x70 => {
                if b as u32 == 0 {
                    return Err(Stop::Trap("divide by zero".into()));
                }
                (a as u32 % b as u32) as u64
            }
            0x7f..=0x82 => {
                if b == 0 {
                    return Err(Stop::Trap("divide by zero".into()));
                }
                match o {
                    0x7f => (a as i64).wrapping_div(b as i64) as u64,
                    0x80 => a / b,
                    0x81 => (a as i64).wrapping_rem(b as i64) as u64,
                    _ => a % b,
                }
            }
            0x5b => (s(a) == s(b)) as u64,
            0x5c => (s(a) != s(b)) as u64,
            0x5d => (s(a) < s(b)) as u64,
            0x5e => (s(a) > s(b)) as u64,
            0x5f => (s(a) <= s(b)) as u64,
            0x60 => (s(a) >= s(b)) as u64,
            0x61 => (f(a) == f(b)) as u64,
            0x62 => (f(a) != f(b)) as u64,
            0x63 => (f(a) < f(b)) as u64,
            0x64 => (f(a) > f(b)) as u64,
            0x65 => (f(a) <= f(b)) as u64,
            0x66 => (f(a) >= f(b)) as u64,
            0x92 => (s(a) + s(b)).to_bits() as u64,
            0x93 => (s(a) - s(b)).to_bits() as u64,
            0x94 => (s(a) * s(b)).to_bits() as u64,
            0x95 => (s(a) / s(b)).to_bits() as u64,
            0xa0 => (f(a) + f(b)).to_bits(),
            0xa1 => (f(a) - f(b)).to_bits(),
            0xa2 => (f(a) * f(b)).to_bits(),
            0xa3 => (f(a) / f(b)).to_bits(),
            _ => return Err(Stop::Engine(format!("float op {o:#x}"))),
        })
    }
    fn fop1(&mut self, o: u64, a: u64) -> Res_<u64> {
        let f = f64::from_bits(a);
        let s = f32::from_bits(a as u32);
        Ok(match o {
            0x8b => s.abs().to_bits() as u64,
            0x8c => (-s).to_bits() as u64,
            0x8d => s.ceil().to_bits() as u64,
            0x8e => s.floor().to_bits() as u64,
            0x8f => s.trunc().to_bits() as u64,
            0x91 => s.sqrt().to_bits() as u64,
            0x99 => f.abs().to_bits(),
            0x9a => (-f).to_bits(),
            0x9b => f.ceil().to_bits(),
            0x9c => f.floor().to_bits(),
            0x9d => f.trunc().to_bits(),
            0x9f => f.sqrt().to_bits(),
            0xb2 => (a as i32 as f32).to_bits() as u64,
            0xb3 => (a as u32 as f32).to_bits() as u64,
            0xb4 => (a as i64 as f32).to_bits() as u64,
            0xb5 => (a as f32).to_bits() as u64,
            0xb6 => (f as f32).to_bits() as u64,
            0xb7 => (a as i32 as f64).to_bits(),
            0xb8 => (a as u32 as f64).to_bits(),
            0xb9 => (a as i64 as f64).to_bits(),
            0xba => (a as f64).to_bits(),
            0xbb => (s as f64).to_bits(),
            0xfc00 => s as i32 as u32 as u64,
            0xfc01 => s as u32 as u64,
            0xfc02 => f as i32 as u32 as u64,
            0xfc03 => f as u32 as u64,
            0xfc04 => s as i64 as u64,
            0xfc05 => s as u64,
            0xfc06 => f as i64 as u64,
            0xfc07 => f as u64,
            _ => return Err(Stop::Engine(format!("float op {o:#x}"))),
        })
    }

    /// sets up a call of an exported function
    pub fn start(&mut self, fi: u32, args: &[u64]) {
        let c = self.get_code(fi as usize);
        self.frames.clear();
        for i in 0..c.nlocals {
            self.regs[i] = RZ;
        }
        for (i, a) in args.iter().enumerate() {
            self.regs[i] = Rv { v: *a, s: 0 };
        }
        self.frames.push(Frame { fi, pc: 0, base: 0 });
        self.path.steps = 0;
    }
    pub fn stack_trace(&self) -> String {
        let mut v: Vec<String> = vec![];
        for f in self.frames.iter().rev().take(14) {
            v.push(crate::demangle(&self.m.funcs[f.fi as usize].name));
        }
        v.join(" < ")
    }

    /// runs until the top-level function returns or the path stops
    pub fn run(&mut self) -> Stop {
        loop {
            match self.run_inner() {
                Ok(()) => return Stop::Done,
                Err(Stop::Engine(s)) if s == "@resume" => continue,
                Err(s) => return s,
            }
        }
    }
    fn run_inner(&mut self) -> Res_<()> {
        // cached state of the top frame
        let f = self.frames.last().unwrap().clone();
        let mut code: Rc<Code> = self.get_code(f.fi as usize);
        let mut ip: *const I = unsafe { code.ins.as_ptr().add(f.pc as usize) };
        let mut start: *const I = code.ins.as_ptr();
        let regs0 = self.regs.as_mut_ptr();
        let mut rb: *mut Rv = unsafe { regs0.add(f.base as usize) };
        let mut steps = self.path.steps;
        let max_steps = self.max_steps;
        macro_rules! r {
            ($x:expr) => {
                *rb.add($x as usize)
            };
        }
        macro_rules! savepc {
            () => {{
                let pc = ip.offset_from(start) as u32;
                self.frames.last_mut().unwrap().pc = pc;
                self.path.steps = steps;
            }};
        }
        macro_rules! mload {
            ($i:expr, $n:expr, $ty:ty, $conv:expr) => {{
                let a = r!($i.a);
                let y = a.v.wrapping_add($i.imm);
                if a.s == 0 && y >= a.v && y < CAP && y + $n <= self.mem.size && self.mem.symbits(y, $n as u32) == 0 {
                    let x = (self.mem.base.add(y as usize) as *const $ty).read_unaligned();
                    let conv = $conv;
                    r!($i.d) = Rv { v: conv(x), s: 0 };
                } else {
                    savepc!();
                    let v = self.slow_load($i.op, a, $i.imm)?;
                    r!($i.d) = v;
                }
            }};
        }
        macro_rules! mstore {
            ($i:expr, $n:expr, $ty:ty) => {{
                let a = r!($i.a);
                let v = r!($i.b);
                let y = a.v.wrapping_add($i.imm);
                if (a.s | v.s) == 0 && y >= a.v && y < CAP && y + $n <= self.mem.size && self.mem.symbits(y, $n as u32) == 0 {
                    self.mem.touch(y, $n);
                    (self.mem.base.add(y as usize) as *mut $ty).write_unaligned(v.v as $ty);
                } else {
                    savepc!();
                    self.slow_store($n, a, $i.imm, v)?;
                }
            }};
        }
        macro_rules! interp {
            ($($n:ident($code:expr) |$a:ident,$b:ident| $e:expr;)*) => {
                loop {
                    let i = &*ip;
                    steps += 1;
                    match i.op {
                        $(
                            rr::$n => {
                                let x = r!(i.a); let y = r!(i.b);
                                if (x.s | y.s) == 0 { r!(i.d) = Rv { v: binf::$n(x.v, y.v), s: 0 }; }
                                else { savepc!(); let v = self.slow_bin(Bin::$n, x, y); r!(i.d) = v; }
                            }
                            ri::$n => {
                                let x = r!(i.a);
                                if x.s == 0 { r!(i.d) = Rv { v: binf::$n(x.v, i.imm), s: 0 }; }
                                else { savepc!(); let v = self.slow_bin(Bin::$n, x, Rv { v: i.imm, s: 0 }); r!(i.d) = v; }
                            }
                            brr::$n => {
                                let x = r!(i.a); let y = r!(i.b);
                                let t = if (x.s | y.s) == 0 { binf::$n(x.v, y.v) != 0 }
                                else { savepc!(); let v = self.slow_bin(Bin::$n, x, y); if v.s == 0 { v.v != 0 } else { self.decide(v.s)? } };
                                if t { ip = start.add((i.imm & 0xffff_ffff) as usize); continue; }
                            }
                            bri::$n => {
                                let x = r!(i.a);
                                let k = if Bin::$n.is32() { i.imm >> 32 } else { (i.imm >> 32) as i32 as i64 as u64 };
                                let t = if x.s == 0 { binf::$n(x.v, k) != 0 }
                                else { savepc!(); let v = self.slow_bin(Bin::$n, x, Rv { v: k, s: 0 }); if v.s == 0 { v.v != 0 } else { self.decide(v.s)? } };
                                if t { ip = start.add((i.imm & 0xffff_ffff) as usize); continue; }
                            }
                        )*
                        256..=270 => {
                            let k: Un = std::mem::transmute((i.op - 256) as u8);
                            let x = r!(i.a);
                            if x.s == 0 { r!(i.d) = Rv { v: k.eval(x.v), s: 0 }; }
                            else { savepc!(); let v = self.slow_un(k, x); r!(i.d) = v; }
                        }
                        op::Mov => { r!(i.d) = r!(i.a); }
                        op::Const => { r!(i.d) = Rv { v: i.imm, s: 0 }; }
                        op::L8U => mload!(i, 1, u8, |x| x as u64),
                        op::L8S32 => mload!(i, 1, i8, |x| x as i32 as u32 as u64),
                        op::L8S64 => mload!(i, 1, i8, |x| x as i64 as u64),
                        op::L16U => mload!(i, 2, u16, |x| x as u64),
                        op::L16S32 => mload!(i, 2, i16, |x| x as i32 as u32 as u64),
                        op::L16S64 => mload!(i, 2, i16, |x| x as i64 as u64),
                        op::L32U => mload!(i, 4, u32, |x| x as u64),
                        op::L32S64 => mload!(i, 4, i32, |x| x as i64 as u64),
                        op::L64 => mload!(i, 8, u64, |x| x),
                        op::S8 => mstore!(i, 1, u8),
                        op::S16 => mstore!(i, 2, u16),
                        op::S32 => mstore!(i, 4, u32),
                        op::S64 => mstore!(i, 8, u64),
                        op::Br => {
                            ip = start.add((i.imm & 0xffff_ffff) as usize);
                            continue;
                        }
                        op::BrIf => {
                            let x = r!(i.a);
                            let t = if x.s == 0 { x.v != 0 } else { savepc!(); self.mark(); self.decide(x.s)? };
                            if t { ip = start.add((i.imm & 0xffff_ffff) as usize); continue; }
                        }
                        op::BrIfNot => {
                            let x = r!(i.a);
                            let t = if x.s == 0 { x.v != 0 } else { savepc!(); self.mark(); self.decide(x.s)? };
                            if !t { ip = start.add((i.imm & 0xffff_ffff) as usize); continue; }
                        }
                        op::BrTable => {
                            let x = r!(i.a);
                            let tb: *const Vec<u32> = &code.tables[i.imm as usize];
                            let n = (&(*tb)).len();
                            let k = if x.s == 0 { x.v as usize } else {
                                savepc!(); self.mark();
                                // branch on the *target*, so that equal targets stay merged
                                let e = self.simp(x.s);
                                if self.ex.single(e) {
                                    let var = self.ex.nodes[e as usize].var as usize;
                                    let d = self.path.doms[var];
                                    let t = self.ex.tab(e).clone();
                                    let mut pairs: Vec<(u64,u64)> = bs_iter(&d).map(|v| (t[v], {
                                        let j = (t[v] as usize).min(n-1);
                                        (&(*tb))[j] as u64
                                    })).collect();
                                    pairs.sort(); pairs.dedup();
                                    let l = self.ex.lut(e, &d, pairs);
                                    let target = self.concretize(l)?;
                                    ip = start.add(target as usize);
                                    continue;
                                }
                                self.concretize(x.s)? as usize
                            };
                            let k = if k < n { k } else { n - 1 };
                            ip = start.add((&(*tb))[k] as usize);
                            continue;
                        }
                        op::Call | op::CallInd => {
                            if steps > max_steps { savepc!(); return Err(Stop::Trap("step limit exceeded (possible endless loop)".into())); }
                            let fi = if i.op == op::Call { i.imm as usize } else {
                                savepc!();
                                let x = r!(i.a);
                                let k = self.conc(x)? as usize;
                                if k >= self.m.table.len() || self.m.table[k] == u32::MAX {
                                    return Err(Stop::Trap("undefined table element".into()));
                                }
                                let fi = self.m.table[k] as usize;
                                if self.m.types[self.m.funcs[fi].ty] != self.m.types[i.imm as usize] {
                                    return Err(Stop::Trap("indirect call type mismatch".into()));
                                }
                                fi
                            };
                            let nb = rb.add(i.d as usize).offset_from(regs0) as usize;
                            if fi < self.m.nimports {
                                savepc!();
                                self.host(fi, nb)?;
                            } else {
                                if self.code[fi].is_none() { self.get_code(fi); }
                                savepc!();
                                self.frames.last_mut().unwrap().pc += 1;
                                let c = self.code[fi].as_ref().unwrap().clone();
                                if self.frames.len() > self.max_depth || nb + c.frame + 64 > self.regs.len() {
                                    return Err(Stop::Trap("call stack exhausted (unbounded recursion)".into()));
                                }
                                self.frames.push(Frame { fi: fi as u32, pc: 0, base: nb as u32 });
                                code = c;
                                start = code.ins.as_ptr();
                                ip = start;
                                rb = regs0.add(nb);
                                for j in code.nparams..code.nlocals { *rb.add(j) = RZ; }
                                continue;
                            }
                        }
                        op::Ret => {
                            let n = i.b as usize;
                            if i.a != 0 { for j in 0..n { *rb.add(j) = *rb.add(i.a as usize + j); } }
                            if self.frames.len() == 1 { self.path.steps = steps; return Ok(()); }
                            self.frames.pop();
                            let f = self.frames.last().unwrap();
                            let (fi, pc, base) = (f.fi, f.pc, f.base);
                            code = self.code[fi as usize].as_ref().unwrap().clone();
                            start = code.ins.as_ptr();
                            ip = start.add(pc as usize);
                            rb = regs0.add(base as usize);
                            continue;
                        }
                        op::Select => {
                            let c = r!(i.imm);
                            if c.s == 0 { r!(i.d) = if c.v as u32 != 0 { r!(i.a) } else { r!(i.b) }; }
                            else { savepc!(); let v = self.slow_select(c, r!(i.a), r!(i.b))?; r!(i.d) = v; }
                        }
                        op::GGet => { r!(i.d) = self.globals[i.imm as usize]; }
                        op::GSet => { self.globals[i.imm as usize] = r!(i.a); }
                        op::Unreachable => { savepc!(); return Err(Stop::Trap("unreachable executed (abort)".into())); }
                        op::MemCopy => {
                            savepc!();
                            let (d, s, n) = (r!(i.d), r!(i.a), r!(i.b));
                            let d = self.conc(d)?; let s = self.conc(s)?; let n = self.conc(n)?;
                            self.mem_copy(d, s, n)?;
                        }
                        op::MemFill => {
                            savepc!();
                            let (d, v, n) = (r!(i.d), r!(i.a), r!(i.b));
                            let d = self.conc(d)?; let v = self.conc(v)?; let n = self.conc(n)?;
                            if d.checked_add(n).map_or(true, |e| e > self.mem.size) { return Err(Stop::Trap("out-of-bounds memory.fill".into())); }
                            if n > 0 {
                                self.mem.touch_range(d, n);
                                std::ptr::write_bytes(self.mem.base.add(d as usize), v as u8, n as usize);
                                if self.mem.any_sym(d, n) { self.mem.clear_sym(d, n); }
                            }
                        }
                        op::MemSize => { r!(i.d) = Rv { v: self.mem.size / 65536, s: 0 }; }
                        op::MemGrow => {
                            savepc!();
                            let n = r!(i.a); let n = self.conc(n)?;
                            let old = self.mem.size / 65536;
                            if n > CAP / 65536 || self.mem.size + n * 65536 > CAP { r!(i.d) = Rv { v: u64::MAX, s: 0 }; }
                            else { self.mem.size += n * 65536; r!(i.d) = Rv { v: old, s: 0 }; }
                        }
                        op::FBin => {
                            let (a, b) = (r!(i.a), r!(i.b));
                            savepc!();
                            let b = self.conc(b)?; let a = self.conc(a)?;
                            let v = self.fop2(i.imm, a, b)?;
                            r!(i.d) = Rv { v, s: 0 };
                        }
                        op::FUn => {
                            let a = r!(i.a);
                            savepc!();
                            let a = self.conc(a)?;
                            let v = self.fop1(i.imm, a)?;
                            r!(i.d) = Rv { v, s: 0 };
                        }
                        _ => return Err(Stop::Engine(format!("bad op {}", i.op))),
                    }
                    ip = ip.add(1);
                }
            };
        }
        unsafe { binops!(interp) }
    }

    /// runs a concrete call; its effects are kept only when it completes
    pub fn run_or_rollback(&mut self, fi: u32, args: &[u64]) -> Stop {
        self.start(fi, args);
        let p = self.path.clone();
        self.push_level(p);
        let s = self.run();
        let l = self.levels.pop().unwrap();
        match s {
            Stop::Done => {
                self.mem.cur = 0;
            }
            _ => self.restore(l),
        }
        s
    }

    // ---------------------------------------------------------------- exploration
    /// explores every feasible path from the state prepared by `start`
    pub fn explore(&mut self) {
        loop {
            let s = self.run();
            self.end_path(s);
            if let Some(d) = self.deadline {
                if std::time::Instant::now() > d && !self.levels.is_empty() {
                    self.st.incomplete = Some(format!("time budget exhausted with {} pending alternatives", self.levels.len()));
                    return;
                }
            }
            if self.shared.map_or(false, |s| s.viol.load(Ordering::Relaxed) >= self.max_viol) {
                self.st.incomplete = Some("stopped after the maximum number of violations".into());
            }
            if self.st.incomplete.is_some() {
                return;
            }
            match self.levels.pop() {
                Some(l) => self.restore(l),
                None => return,
            }
        }
    }
    fn end_path(&mut self, s: Stop) {
        self.st.steps += self.path.steps;
        self.st.maxsteps = self.st.maxsteps.max(self.path.steps);
        match s {
            Stop::Infeasible => {
                self.st.infeasible += 1;
                return;
            }
            Stop::Engine(e) => {
                self.st.incomplete = Some(format!("engine: {e} at {}", self.stack_trace()));
                return;
            }
            Stop::Done => {
                self.st.paths += 1;
                for c in &self.path.covers {
                    *self.st.covers.entry(*c).or_default() += 1;
                }
                let n = self.st.paths;
                if n <= 2 || (n & (n - 1)) == 0 {
                    let t = self.note_text();
                    let m = hex(&self.model_vec());
                    self.st.samples.push((m, t));
                }
            }
            Stop::Violation(m) | Stop::Trap(m) => {
                self.st.paths += 1;
                self.st.nviol += 1;
                if let Some(s) = self.shared {
                    s.viol.fetch_add(1, Ordering::Relaxed);
                }
                let dup = self.st.violations.iter().filter(|v| v.msg == m).count();
                if dup < 3 {
                    let v = Viol { msg: m, note: self.note_text(), model: self.model_vec(), stack: self.stack_trace() };
                    self.st.violations.push(v);
                }
            }
        }
    }
    /// z3 re-proves every table-based pruning decision and every expression identification
    pub fn certify(&mut self) {
        let claims = std::mem::take(&mut self.claims);
        let merges = std::mem::take(&mut self.ex.merges);
        if (claims.is_empty() && merges.is_empty()) || self.st.incomplete.as_ref().is_some_and(|x| !x.starts_with("time budget")) {
            return;
        }
        self.z3();
        let mut z = self.z3.take().unwrap();
        let mut by: HashMap<(u8, [u64; 4]), Vec<(Id, bool)>> = HashMap::new();
        for (v, d, e, t) in claims {
            by.entry((v, d)).or_default().push((e, t));
        }
        for ((v, d), l) in by {
            for ch in l.chunks(64) {
                let mut alts = vec![];
                for (e, t) in ch {
                    let zr = z.zero(&self.ex, *e);
                    alts.push(if *t { zr } else { z.not(zr) });
                }
                let o = z.or(&alts);
                let dt = z.dom_term(v as usize, &d);
                let (r, _) = z.check(&[dt, o], &[]);
                self.st.claims += ch.len() as u64;
                if r != Res::Unsat {
                    self.st.claims_refuted += ch.len() as u64;
                    self.st.incomplete = Some(format!("z3 did not confirm a pruning decision ({r:?})"));
                }
            }
        }
        let bases: Vec<_> = self.ex.base.clone();
        for ch in merges.chunks(48) {
            let mut alts = vec![];
            let mut sup = 0u64;
            for (k, e) in ch {
                let x = z.key_term(&self.ex, k);
                let y = z.term(&self.ex, *e);
                let q = z.eq(x, y);
                alts.push(z.not(q));
                sup |= self.ex.support(*e);
                for c in [k.a, k.b, k.c] {
                    if k.op != Op::Var {
                        sup |= self.ex.nodes.get(c as usize).map_or(0, |n| n.support);
                    }
                }
                if k.op == Op::Concat {
                    for c in &self.ex.lists[k.imm as usize] {
                        sup |= self.ex.support(*c);
                    }
                }
                if k.op == Op::Var {
                    sup |= 1 << k.a;
                }
            }
            let mut a = vec![z.or(&alts)];
            for v in 0..bases.len() {
                if sup >> v & 1 != 0 {
                    a.push(z.dom_term(v, &bases[v]));
                }
            }
            let (r, _) = z.check(&a, &[]);
            self.st.merges_checked += ch.len() as u64;
            if r != Res::Unsat {
                self.st.claims_refuted += 1;
                self.st.incomplete = Some(format!("z3 did not confirm an expression identity ({r:?})"));
                // locate it for the report
                'outer: for (k, e) in ch {
                    let x = z.key_term(&self.ex, k);
                    let y = z.term(&self.ex, *e);
                    let q = z.eq(x, y);
                    let nq = z.not(q);
                    let mut a = vec![nq];
                    for v in 0..bases.len() {
                        a.push(z.dom_term(v, &bases[v]));
                    }
                    if z.check(&a, &[]).0 != Res::Unsat {
eprintln!("identity not confirmed: {:?} {:?} => {:?}", k.op, self.ex.nodes[k.a as usize].k, self.ex.nodes[*e as usize].k);
                        for id in 0..self.ex.nodes.len() {
                            let n = self.ex.nodes[id].k;
                            if self.ex.nodes[id].tab == u32::MAX { continue; }
                            let var = self.ex.nodes[id].var as usize;
                            let t = self.ex.tab(id as u32).clone();
                            for v in bs_iter(&bases[var]) {
                                let mut one = [0u64; 4];
                                bs_set(&mut one, v);
                                let d = z.dom_term(var, &one);
                                let kt = z.num(t[v]);
                                let tm = z.term(&self.ex, id as u32);
                                let q = z.eq(tm, kt);
                                let nq = z.not(q);
                                if z.check(&[d, nq], &[]).0 != Res::Unsat {
                                    eprintln!("  first wrong node {id}: {:?} at {v}: table {:#x}; a={:?} {:?}", n, t[v], self.ex.nodes[n.a as usize].k, (self.ex.nodes[n.a as usize].tab != u32::MAX).then(|| self.ex.tab(n.a)[v]));
                                    break 'outer;
                                }
                            }
                        }
                        break;
                    }
                }
            }
        }
        self.z3 = Some(z);
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
