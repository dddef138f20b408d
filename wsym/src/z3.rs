//! Minimal z3 binding and the encoding of expressions as 64-bit bit-vector terms.
#![allow(non_camel_case_types, dead_code)]
use crate::expr::*;
use crate::ops::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

pub type Ast = *mut c_void;
type Ctx = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Sort = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, ty: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ext_rotate_left(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ext_rotate_right(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, logic: *mut c_void) -> Solver;
    fn Z3_mk_solver(c: Ctx) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_reset(c: Ctx, s: Solver);
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
    fn Z3_get_error_code(c: Ctx) -> c_int;
    fn Z3_ast_to_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

pub struct Z3 {
    c: Ctx,
    s64: Sort,
    s8: Sort,
    solver: Solver,
    memo: Vec<Ast>,
    byop: HashMap<Key, Ast>,
    vars: Vec<Ast>,
    pub queries: u64,
    pub time: f64,
    pub unknown: u64,
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}")
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let set = |k: &str, v: &str| {
                let k = CString::new(k).unwrap();
                let v = CString::new(v).unwrap();
                Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            };
            set("model", "true");
            set("rlimit", "20000000");
            // ASTs are never released: the context lives as long as the job
            let c = Z3_mk_context(cfg);
            let logic = Z3_mk_string_symbol(c, CString::new("QF_BV").unwrap().as_ptr());
            let solver = Z3_mk_solver_for_logic(c, logic);
            Z3_solver_inc_ref(c, solver);
            Z3 { c, s64: Z3_mk_bv_sort(c, 64), s8: Z3_mk_bv_sort(c, 8), solver, memo: vec![], byop: HashMap::new(), vars: vec![], queries: 0, time: 0.0, unknown: 0 }
        }
    }
    pub fn num(&self, v: u64) -> Ast {
        unsafe { Z3_mk_unsigned_int64(self.c, v, self.s64) }
    }
    fn var8(&mut self, i: usize) -> Ast {
        while self.vars.len() <= i {
            let n = CString::new(format!("v{}", self.vars.len())).unwrap();
            unsafe {
                let s = Z3_mk_string_symbol(self.c, n.as_ptr());
                let a = Z3_mk_const(self.c, s, self.s8);
                self.vars.push(a);
            }
        }
        self.vars[i]
    }
    fn lo32(&self, a: Ast) -> Ast {
        unsafe { Z3_mk_extract(self.c, 31, 0, a) }
    }
    fn zx32(&self, a: Ast) -> Ast {
        unsafe { Z3_mk_zero_ext(self.c, 32, a) }
    }
    fn b2v(&self, b: Ast) -> Ast {
        unsafe { Z3_mk_ite(self.c, b, self.num(1), self.num(0)) }
    }
    pub fn key_term(&mut self, ex: &Exprs, k: &Key) -> Ast {
        if let Some(&a) = self.byop.get(k) {
            return a;
        }
        let c = self.c;
        let r = unsafe {
            match k.op {
                Op::None => panic!("no expression"),
                Op::Const => self.num(k.imm),
                Op::Var => {
                    let v = self.var8(k.a as usize);
                    Z3_mk_zero_ext(c, 56, v)
                }
                Op::Bin(o) => {
                    let x = self.term(ex, k.a);
                    let y = self.term(ex, k.b);
                    let (p, q) = if o.is32() { (self.lo32(x), self.lo32(y)) } else { (x, y) };
                    let w: u64 = if o.is32() { 31 } else { 63 };
                    let s = if o.is32() { Z3_mk_bv_sort(c, 32) } else { self.s64 };
                    let sh = || Z3_mk_bvand(c, q, Z3_mk_unsigned_int64(c, w, s));
                    use Bin::*;
                    if o.is_cmp() {
                        let b = match o {
                            I32Eq | I64Eq => Z3_mk_eq(c, p, q),
                            I32Ne | I64Ne => Z3_mk_not(c, Z3_mk_eq(c, p, q)),
                            I32LtU | I64LtU => Z3_mk_bvult(c, p, q),
                            I32GtU | I64GtU => Z3_mk_bvult(c, q, p),
                            I32LeU | I64LeU => Z3_mk_bvule(c, p, q),
                            I32GeU | I64GeU => Z3_mk_bvule(c, q, p),
                            I32LtS | I64LtS => Z3_mk_bvslt(c, p, q),
                            I32GtS | I64GtS => Z3_mk_bvslt(c, q, p),
                            I32LeS | I64LeS => Z3_mk_bvsle(c, p, q),
                            I32GeS | I64GeS => Z3_mk_bvsle(c, q, p),
                            _ => unreachable!(),
                        };
                        self.b2v(b)
                    } else {
                        let r = match o {
                            I32Add | I64Add => Z3_mk_bvadd(c, p, q),
                            I32Sub | I64Sub => Z3_mk_bvsub(c, p, q),
                            I32Mul | I64Mul => Z3_mk_bvmul(c, p, q),
                            I32And | I64And => Z3_mk_bvand(c, p, q),
                            I32Or | I64Or => Z3_mk_bvor(c, p, q),
                            I32Xor | I64Xor => Z3_mk_bvxor(c, p, q),
                            I32Shl | I64Shl => Z3_mk_bvshl(c, p, sh()),
                            I32ShrS | I64ShrS => Z3_mk_bvashr(c, p, sh()),
                            I32ShrU | I64ShrU => Z3_mk_bvlshr(c, p, sh()),
                            I32Rotl | I64Rotl => Z3_mk_ext_rotate_left(c, p, sh()),
                            I32Rotr | I64Rotr => Z3_mk_ext_rotate_right(c, p, sh()),
                            _ => unreachable!(),
                        };
                        if o.is32() {
                            self.zx32(r)
                        } else {
                            r
                        }
                    }
                }
                Op::Un(o) => {
                    let x = self.term(ex, k.a);
                    use Un::*;
                    let sx = |s: &Self, from: u32, to: u32| {
                        let e = Z3_mk_extract(c, from - 1, 0, x);
                        let e = Z3_mk_sign_ext(c, to - from, e);
                        if to == 32 {
                            s.zx32(e)
                        } else {
                            e
                        }
                    };
                    match o {
                        I32Eqz | I64Eqz => {
                            let b = Z3_mk_eq(c, x, self.num(0));
                            self.b2v(b)
                        }
                        I32WrapI64 => {
                            let l = self.lo32(x);
                            self.zx32(l)
                        }
                        I64ExtendI32S | I64Extend32S => sx(self, 32, 64),
                        I32Extend8S => sx(self, 8, 32),
                        I32Extend16S => sx(self, 16, 32),
                        I64Extend8S => sx(self, 8, 64),
                        I64Extend16S => sx(self, 16, 64),
                        I32Clz | I64Clz | I32Ctz | I64Ctz => {
                            let n = if matches!(o, I32Clz | I32Ctz) { 32 } else { 64 };
                            let mut r = self.num(n);
                            // ctz: scan from the top so that the lowest set bit wins; clz: the reverse
                            for i in 0..n {
                                let bit = if matches!(o, I32Ctz | I64Ctz) { n - 1 - i } else { i };
                                let e = Z3_mk_extract(c, bit as u32, bit as u32, x);
                                let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                                let v = if matches!(o, I32Ctz | I64Ctz) { bit } else { n - 1 - bit };
                                r = Z3_mk_ite(c, Z3_mk_eq(c, e, one), self.num(v), r);
                            }
                            r
                        }
                        I32Popcnt | I64Popcnt => {
                            let mut r = self.num(0);
                            for i in 0..64 {
                                let e = Z3_mk_extract(c, i, i, x);
                                r = Z3_mk_bvadd(c, r, Z3_mk_zero_ext(c, 63, e));
                            }
                            r
                        }
                    }
                }
                Op::Ite => {
                    let x = self.term(ex, k.a);
                    let y = self.term(ex, k.b);
                    let z = self.term(ex, k.c);
                    Z3_mk_ite(c, Z3_mk_eq(c, x, self.num(0)), z, y)
                }
                Op::Byte => {
                    let x = self.term(ex, k.a);
                    let i = k.imm as u32;
                    Z3_mk_zero_ext(c, 56, Z3_mk_extract(c, 8 * i + 7, 8 * i, x))
                }
                Op::Concat => {
                    let l = ex.lists[k.imm as usize].clone();
                    let mut r: Ast = std::ptr::null_mut();
                    for (i, x) in l.iter().enumerate() {
                        let t = self.term(ex, *x);
                        let b = Z3_mk_extract(c, 7, 0, t);
                        r = if i == 0 { b } else { Z3_mk_concat(c, b, r) };
                    }
                    r
                }
                Op::Lut => {
                    let x = self.term(ex, k.a);
                    let l = ex.luts[k.imm as usize].clone();
                    let mut r = self.num(0);
                    // group equal values
                    let mut groups: Vec<(u64, Vec<u64>)> = vec![];
                    for (a, v) in &l {
                        match groups.iter_mut().find(|g| g.0 == *v) {
                            Some(g) => g.1.push(*a),
                            None => groups.push((*v, vec![*a])),
                        }
                    }
                    for (v, addrs) in groups {
                        let eqs: Vec<Ast> = addrs.iter().map(|a| Z3_mk_eq(c, x, self.num(*a))).collect();
                        let o = Z3_mk_or(c, eqs.len() as u32, eqs.as_ptr());
                        r = Z3_mk_ite(c, o, self.num(v), r);
                    }
                    r
                }
            }
        };
        self.byop.insert(*k, r);
        r
    }
    pub fn term(&mut self, ex: &Exprs, e: Id) -> Ast {
        let i = e as usize;
        if i < self.memo.len() && !self.memo[i].is_null() {
            return self.memo[i];
        }
        let k = ex.nodes[i].k;
        let r = self.key_term(ex, &k);
        if self.memo.len() <= i {
            self.memo.resize(i + 1024, std::ptr::null_mut());
        }
        self.memo[i] = r;
        r
    }
    pub fn dom_term(&mut self, var: usize, d: &[u64; 4]) -> Ast {
        let c = self.c;
        let v = self.var8(var);
        unsafe {
            let n = |x: usize| Z3_mk_unsigned_int64(c, x as u64, self.s8);
            let mut parts: Vec<Ast> = vec![];
            let mut i = 0;
            while i < 256 {
                if bs_get(d, i) {
                    let s = i;
                    while i < 256 && bs_get(d, i) {
                        i += 1;
                    }
                    let e = i - 1;
                    if s == e {
                        parts.push(Z3_mk_eq(c, v, n(s)));
                    } else {
                        let l = [Z3_mk_bvule(c, n(s), v), Z3_mk_bvule(c, v, n(e))];
                        parts.push(Z3_mk_and(c, 2, l.as_ptr()));
                    }
                } else {
                    i += 1;
                }
            }
            if parts.is_empty() {
                Z3_mk_false(c)
            } else {
                Z3_mk_or(c, parts.len() as u32, parts.as_ptr())
            }
        }
    }
    pub fn zero(&mut self, ex: &Exprs, e: Id) -> Ast {
        let t = self.term(ex, e);
        unsafe { Z3_mk_eq(self.c, t, self.num(0)) }
    }
    pub fn not(&self, a: Ast) -> Ast {
        unsafe { Z3_mk_not(self.c, a) }
    }
    pub fn or(&self, l: &[Ast]) -> Ast {
        unsafe { Z3_mk_or(self.c, l.len() as u32, l.as_ptr()) }
    }
    pub fn and(&self, l: &[Ast]) -> Ast {
        unsafe { Z3_mk_and(self.c, l.len() as u32, l.as_ptr()) }
    }
    pub fn eq(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_eq(self.c, a, b) }
    }
    /// is the conjunction satisfiable?  On Sat fills the model for the listed variables.
    pub fn check(&mut self, asserts: &[Ast], vars: &[usize]) -> (Res, Vec<(usize, u8)>) {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let mut out = vec![];
        let r = unsafe {
            Z3_solver_push(self.c, self.solver);
            for a in asserts {
                Z3_solver_assert(self.c, self.solver, *a);
            }
            let r = Z3_solver_check(self.c, self.solver);
            if r == 1 && !vars.is_empty() {
                let m = Z3_solver_get_model(self.c, self.solver);
                Z3_model_inc_ref(self.c, m);
                for &v in vars {
                    let t = self.var8(v);
                    let mut o: Ast = std::ptr::null_mut();
                    if Z3_model_eval(self.c, m, t, true, &mut o) {
                        let mut x = 0u64;
                        Z3_get_numeral_uint64(self.c, o, &mut x);
                        out.push((v, x as u8));
                    }
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.solver, 1);
            r
        };
        self.time += t0.elapsed().as_secs_f64();
        match r {
            1 => (Res::Sat, out),
            -1 => (Res::Unsat, out),
            _ => {
                self.unknown += 1;
                (Res::Unknown, out)
            }
        }
    }
    pub fn show(&self, a: Ast) -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_ast_to_string(self.c, a)).to_string_lossy().into_owned() }
    }
}
