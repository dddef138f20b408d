//! WebAssembly (memory64, bulk-memory, sign-ext) binary reader and lazy
//! translation of function bodies into register-form instructions.
#![allow(non_upper_case_globals, dead_code)]
use crate::ops::*;

macro_rules! def_consts {
    ($($n:ident($code:expr) |$a:ident,$b:ident| $e:expr;)*) => {
        pub mod rr { use super::*; $(pub const $n: u16 = Bin::$n as u16;)* }
        pub mod ri { use super::*; $(pub const $n: u16 = 64 + Bin::$n as u16;)* }
        /// fused compare-and-branch
        pub mod brr { use super::*; $(pub const $n: u16 = 128 + Bin::$n as u16;)* }
        pub mod bri { use super::*; $(pub const $n: u16 = 192 + Bin::$n as u16;)* }
    };
}
binops!(def_consts);
macro_rules! def_uconsts {
    ($($n:ident($code:expr) |$a:ident| $e:expr;)*) => {
        pub mod un { use super::*; $(pub const $n: u16 = 256 + Un::$n as u16;)* }
    };
}
unops!(def_uconsts);
pub mod op {
    pub const Mov: u16 = 300;
    pub const Const: u16 = 301;
    pub const L8U: u16 = 302;
    pub const L8S32: u16 = 303;
    pub const L8S64: u16 = 304;
    pub const L16U: u16 = 305;
    pub const L16S32: u16 = 306;
    pub const L16S64: u16 = 307;
    pub const L32U: u16 = 308;
    pub const L32S64: u16 = 309;
    pub const L64: u16 = 310;
    pub const S8: u16 = 311;
    pub const S16: u16 = 312;
    pub const S32: u16 = 313;
    pub const S64: u16 = 314;
    pub const Br: u16 = 315;
    pub const BrIf: u16 = 316;
    pub const BrIfNot: u16 = 317;
    pub const BrTable: u16 = 318;
    pub const Call: u16 = 319;
    pub const CallInd: u16 = 320;
    pub const Ret: u16 = 321;
    pub const Select: u16 = 322;
    pub const GGet: u16 = 323;
    pub const GSet: u16 = 324;
    pub const Unreachable: u16 = 325;
    pub const MemCopy: u16 = 326;
    pub const MemFill: u16 = 327;
    pub const MemSize: u16 = 328;
    pub const MemGrow: u16 = 329;
    pub const FBin: u16 = 330;
    pub const FUn: u16 = 331;
}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct I {
    pub op: u16,
    pub d: u16,
    pub a: u16,
    pub b: u16,
    pub imm: u64,
}

#[derive(Clone, PartialEq)]
pub struct FType {
    pub np: usize,
    pub nr: usize,
    pub sig: Vec<u8>,
}

pub struct Code {
    pub ins: Vec<I>,
    pub frame: usize,
    pub nlocals: usize,
    pub nparams: usize,
    pub tables: Vec<Vec<u32>>,
}

pub struct Func {
    pub ty: usize,
    pub body: (usize, usize),
    pub import: Option<String>,
    pub name: String,
}

pub struct Module {
    pub bytes: Vec<u8>,
    pub types: Vec<FType>,
    pub funcs: Vec<Func>,
    pub nimports: usize,
    pub globals: Vec<u64>,
    pub table: Vec<u32>, // function index or u32::MAX
    pub mem_pages: u64,
    pub datas: Vec<(u64, (usize, usize))>,
    pub exports: std::collections::HashMap<String, (u8, u32)>,
}

struct R<'a> {
    d: &'a [u8],
    p: usize,
}
impl<'a> R<'a> {
    fn u8(&mut self) -> u8 {
        let b = self.d[self.p];
        self.p += 1;
        b
    }
    fn leb(&mut self) -> u64 {
        let (mut r, mut s) = (0u64, 0);
        loop {
            let b = self.u8();
            r |= ((b & 127) as u64) << s;
            s += 7;
            if b < 128 {
                return r;
            }
        }
    }
    fn sleb(&mut self) -> i64 {
        let (mut r, mut s) = (0i64, 0);
        loop {
            let b = self.u8();
            r |= ((b & 127) as i64) << s;
            s += 7;
            if b < 128 {
                if s < 64 && (b & 0x40) != 0 {
                    r |= -1i64 << s;
                }
                return r;
            }
        }
    }
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        let r = &self.d[self.p..self.p + n];
        self.p += n;
        r
    }
    fn name(&mut self) -> String {
        let n = self.leb() as usize;
        String::from_utf8_lossy(self.bytes(n)).into_owned()
    }
    fn limits(&mut self) -> u64 {
        let f = self.u8();
        let min = self.leb();
        if f & 1 != 0 {
            self.leb();
        }
        min
    }
    fn const_expr(&mut self, globals: &[u64]) -> u64 {
        let mut v = 0;
        loop {
            match self.u8() {
                0x0b => return v,
                0x41 => v = self.sleb() as u32 as u64,
                0x42 => v = self.sleb() as u64,
                0x23 => v = globals[self.leb() as usize],
                0x44 => {
                    v = u64::from_le_bytes(self.bytes(8).try_into().unwrap());
                }
                0x43 => {
                    v = u32::from_le_bytes(self.bytes(4).try_into().unwrap()) as u64;
                }
                o => panic!("const expr op {o:#x}"),
            }
        }
    }
}

impl Module {
    pub fn parse(bytes: Vec<u8>) -> Module {
        let mut m = Module {
            bytes: vec![],
            types: vec![],
            funcs: vec![],
            nimports: 0,
            globals: vec![],
            table: vec![],
            mem_pages: 0,
            datas: vec![],
            exports: Default::default(),
        };
        let mut r = R { d: &bytes, p: 8 };
        let mut nfun = 0;
        let mut names: Vec<(u32, String)> = vec![];
        while r.p < bytes.len() {
            let id = r.u8();
            let n = r.leb() as usize;
            let end = r.p + n;
            match id {
                1 => {
                    for _ in 0..r.leb() {
                        assert_eq!(r.u8(), 0x60);
                        let np = r.leb() as usize;
                        let ps = r.bytes(np).to_vec();
                        let nr = r.leb() as usize;
                        let rs = r.bytes(nr).to_vec();
                        let mut sig = ps;
                        sig.push(0);
                        sig.extend(rs);
                        m.types.push(FType { np, nr, sig });
                    }
                }
                2 => {
                    for _ in 0..r.leb() {
                        let _md = r.name();
                        let nm = r.name();
                        match r.u8() {
                            0 => {
                                let ty = r.leb() as usize;
                                m.funcs.push(Func { ty, body: (0, 0), import: Some(nm.clone()), name: nm });
                                m.nimports += 1;
                            }
                            k => panic!("import kind {k}"),
                        }
                    }
                }
                3 => {
                    for _ in 0..r.leb() {
                        let ty = r.leb() as usize;
                        m.funcs.push(Func { ty, body: (0, 0), import: None, name: String::new() });
                    }
                }
                4 => {
                    let k = r.leb();
                    assert!(k <= 1);
                    if k == 1 {
                        r.u8();
                        let min = r.limits();
                        m.table = vec![u32::MAX; min as usize];
                    }
                }
                5 => {
                    for _ in 0..r.leb() {
                        m.mem_pages = r.limits();
                    }
                }
                6 => {
                    for _ in 0..r.leb() {
                        r.u8();
                        r.u8();
                        let v = r.const_expr(&m.globals);
                        m.globals.push(v);
                    }
                }
                7 => {
                    for _ in 0..r.leb() {
                        let nm = r.name();
                        let k = r.u8();
                        let i = r.leb() as u32;
                        m.exports.insert(nm, (k, i));
                    }
                }
                9 => {
                    for _ in 0..r.leb() {
                        let k = r.leb();
                        assert_eq!(k, 0, "element segment kind");
                        let off = r.const_expr(&m.globals) as usize;
                        for j in 0..r.leb() as usize {
                            let f = r.leb() as u32;
                            m.table[off + j] = f;
                        }
                    }
                }
                10 => {
                    for _ in 0..r.leb() {
                        let sz = r.leb() as usize;
                        m.funcs[m.nimports + nfun].body = (r.p, r.p + sz);
                        nfun += 1;
                        r.p += sz;
                    }
                }
                11 => {
                    for _ in 0..r.leb() {
                        let k = r.leb();
                        assert_eq!(k, 0, "data segment kind");
                        let off = r.const_expr(&m.globals);
                        let n = r.leb() as usize;
                        m.datas.push((off, (r.p, r.p + n)));
                        r.p += n;
                    }
                }
                0 => {
                    let nm = r.name();
                    if nm == "name" {
                        while r.p < end {
                            let sid = r.u8();
                            let sn = r.leb() as usize;
                            let send = r.p + sn;
                            if sid == 1 {
                                for _ in 0..r.leb() {
                                    let i = r.leb() as u32;
                                    let s = r.name();
                                    names.push((i, s));
                                }
                            }
                            r.p = send;
                        }
                    }
                }
                _ => {}
            }
            r.p = end;
        }
        for (i, s) in names {
            m.funcs[i as usize].name = s;
        }
        m.bytes = bytes;
        m
    }

    pub fn translate(&self, fi: usize) -> Code {
        Tr::new(self, fi).run()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
    Slot,      // value is in its canonical stack slot
    Local(u16),
    Const(u64),
}

struct Ctl {
    kind: u8, // 0 block 1 loop 2 if 3 else 4 function
    height: usize,
    np: usize,
    nr: usize,
    start: usize,
    fix: Vec<usize>,      // instruction indices whose imm (low 32) must be patched to the end
    tfix: Vec<(usize, usize)>, // br_table fixups
    else_fix: Option<usize>,
    unreachable: bool,
}

struct Tr<'a> {
    m: &'a Module,
    r: R<'a>,
    end: usize,
    ins: Vec<I>,
    nl: usize,
    np: usize,
    nres: usize,
    st: Vec<V>,
    maxh: usize,
    ctl: Vec<Ctl>,
    tables: Vec<Vec<u32>>,
    barrier: usize, // no peephole on instructions before this index
}

impl<'a> Tr<'a> {
    fn new(m: &'a Module, fi: usize) -> Tr<'a> {
        let f = &m.funcs[fi];
        let t = &m.types[f.ty];
        Tr {
            m,
            r: R { d: &m.bytes, p: f.body.0 },
            end: f.body.1,
            ins: vec![],
            nl: t.np,
            np: t.np,
            nres: t.nr,
            st: vec![],
            maxh: 0,
            ctl: vec![],
            tables: vec![],
            barrier: 0,
        }
    }
    fn slot(&self, h: usize) -> u16 {
        (self.nl + h) as u16
    }
    fn emit(&mut self, op: u16, d: u16, a: u16, b: u16, imm: u64) {
        self.ins.push(I { op, d, a, b, imm });
    }
    fn push(&mut self, v: V) {
        self.st.push(v);
        if self.st.len() > self.maxh {
            self.maxh = self.st.len();
        }
    }
    /// push a result in the canonical slot; returns its register
    fn push_slot(&mut self) -> u16 {
        let r = self.slot(self.st.len());
        self.push(V::Slot);
        r
    }
    /// pops a value as register (materialising constants into the canonical slot)
    fn pop_reg(&mut self) -> u16 {
        let v = self.st.pop().expect("stack underflow");
        let h = self.st.len();
        match v {
            V::Slot => self.slot(h),
            V::Local(l) => l,
            V::Const(c) => {
                let s = self.slot(h);
                self.emit(op::Const, s, 0, 0, c);
                s
            }
        }
    }
    fn materialise(&mut self, i: usize) {
        let s = self.slot(i);
        match self.st[i] {
            V::Slot => {}
            V::Local(l) => self.emit(op::Mov, s, l, 0, 0),
            V::Const(c) => self.emit(op::Const, s, 0, 0, c),
        }
        self.st[i] = V::Slot;
    }
    fn flush(&mut self) {
        for i in 0..self.st.len() {
            self.materialise(i);
        }
    }
    fn label(&mut self) {
        self.barrier = self.ins.len();
    }
    fn unreach(&mut self) {
        let c = self.ctl.last_mut().unwrap();
        c.unreachable = true;
        let h = c.height;
        self.st.truncate(h);
    }
    fn block_type(&mut self) -> (usize, usize) {
        let t = self.r.sleb();
        if t >= 0 {
            let t = &self.m.types[t as usize];
            (t.np, t.nr)
        } else if t == -64 {
            (0, 0)
        } else {
            (0, 1)
        }
    }
    /// moves the top n values to slots starting at height h
    fn move_results(&mut self, h: usize, n: usize) {
        let base = self.st.len() - n;
        for k in 0..n {
            let s = self.slot(h + k);
            match self.st[base + k] {
                V::Slot => {
                    let f = self.slot(base + k);
                    if f != s {
                        self.emit(op::Mov, s, f, 0, 0);
                    }
                }
                V::Local(l) => self.emit(op::Mov, s, l, 0, 0),
                V::Const(c) => self.emit(op::Const, s, 0, 0, c),
            }
        }
    }
    fn br_arity(&self, d: usize) -> usize {
        let c = &self.ctl[self.ctl.len() - 1 - d];
        if c.kind == 1 {
            c.np
        } else {
            c.nr
        }
    }
    fn needs_moves(&self, d: usize) -> bool {
        let n = self.br_arity(d);
        let c = &self.ctl[self.ctl.len() - 1 - d];
        if n == 0 {
            return false;
        }
        let base = self.st.len() - n;
        base != c.height || self.st[base..].iter().any(|v| *v != V::Slot)
    }
    /// patch target of jump at index j to label depth d
    fn target(&mut self, d: usize, j: usize) {
        let k = self.ctl.len() - 1 - d;
        let c = &mut self.ctl[k];
        if c.kind == 1 {
            let s = c.start as u64;
            self.ins[j].imm = (self.ins[j].imm & !0xffff_ffff) | s;
        } else {
            c.fix.push(j);
        }
    }
    fn last_is_tmp(&self, r: u16) -> bool {
        self.ins.len() > self.barrier && (r as usize) >= self.nl && {
            let i = self.ins.last().unwrap();
            i.d == r && writes_d(i.op)
        }
    }
    /// emits a conditional jump on register c (taken if nonzero xor neg); returns its index
    fn cond_jump(&mut self, c: u16, neg: bool) -> usize {
        if self.last_is_tmp(c) {
            let l = *self.ins.last().unwrap();
            if l.op == un::I32Eqz || l.op == un::I64Eqz {
                self.ins.pop();
                // value register l.a is still intact
                return self.cond_jump(l.a, !neg);
            }
            if l.op < 64 {
                let k: Bin = unsafe { std::mem::transmute(l.op as u8) };
                if k.is_cmp() {
                    let k = if neg { k.negate() } else { k };
                    self.ins.pop();
                    self.emit(128 + k as u16, 0, l.a, l.b, 0);
                    return self.ins.len() - 1;
                }
            } else if l.op < 128 {
                let k: Bin = unsafe { std::mem::transmute((l.op - 64) as u8) };
                let fits = if k.is32() { true } else { l.imm as i64 == l.imm as i32 as i64 };
                if k.is_cmp() && fits {
                    let k = if neg { k.negate() } else { k };
                    self.ins.pop();
                    self.emit(192 + k as u16, 0, l.a, 0, (l.imm & 0xffff_ffff) << 32);
                    return self.ins.len() - 1;
                }
            }
        }
        self.cond_jump_noslot(c, neg)
    }
    fn cond_jump_noslot(&mut self, c: u16, neg: bool) -> usize {
        // a value that is itself a fresh comparison in a temp can be fused further
        self.emit(if neg { op::BrIfNot } else { op::BrIf }, 0, c, 0, 0);
        self.ins.len() - 1
    }
    fn br(&mut self, d: usize) {
        let n = self.br_arity(d);
        let h = self.ctl[self.ctl.len() - 1 - d].height;
        self.move_results(h, n);
        self.emit(op::Br, 0, 0, 0, 0);
        let j = self.ins.len() - 1;
        self.target(d, j);
    }
    fn run(mut self) -> Code {
        let nlg = self.r.leb();
        for _ in 0..nlg {
            let n = self.r.leb() as usize;
            self.r.u8();
            self.nl += n;
        }
        self.ctl.push(Ctl {
            kind: 4,
            height: 0,
            np: 0,
            nr: self.nres,
            start: 0,
            fix: vec![],
            tfix: vec![],
            else_fix: None,
            unreachable: false,
        });
        while self.r.p < self.end {
            let o = self.r.u8();
            if self.ctl.last().unwrap().unreachable {
                self.skip_dead(o);
            } else {
                self.instr(o);
            }
            if self.ctl.is_empty() {
                break;
            }
        }
        let frame = self.nl + self.maxh + 2;
        assert!(frame < 60000);
        Code { ins: self.ins, frame, nlocals: self.nl, nparams: self.np, tables: self.tables }
    }
    fn skip_dead(&mut self, o: u8) {
        // only structure matters in dead code
        match o {
            0x02 | 0x03 | 0x04 => {
                self.block_type();
                // push a dead control marker
                let h = self.st.len();
                self.ctl.push(Ctl { kind: 9, height: h, np: 0, nr: 0, start: 0, fix: vec![], tfix: vec![], else_fix: None, unreachable: true });
            }
            0x05 => {
                if self.ctl.last().unwrap().kind != 9 {
                    self.do_else();
                }
            }
            0x0b => {
                if self.ctl.last().unwrap().kind == 9 {
                    self.ctl.pop();
                } else {
                    self.do_end();
                }
            }
            _ => self.skip_imm(o),
        }
    }
    fn skip_imm(&mut self, o: u8) {
        match o {
            0x0c | 0x0d | 0x10 | 0x20..=0x24 | 0x3f | 0x40 => {
                self.r.leb();
            }
            0x0e => {
                for _ in 0..=self.r.leb() {
                    self.r.leb();
                }
            }
            0x11 => {
                self.r.leb();
                self.r.leb();
            }
            0x1c => {
                for _ in 0..self.r.leb() {
                    self.r.u8();
                }
            }
            0x28..=0x3e => {
                self.r.leb();
                self.r.leb();
            }
            0x41 | 0x42 => {
                self.r.sleb();
            }
            0x43 => {
                self.r.p += 4;
            }
            0x44 => {
                self.r.p += 8;
            }
            0xfc => {
                let s = self.r.leb();
                match s {
                    0..=7 => {}
                    10 => {
                        self.r.leb();
                        self.r.leb();
                    }
                    11 => {
                        self.r.leb();
                    }
                    _ => panic!("fc {s}"),
                }
            }
            _ => {}
        }
    }
    fn do_else(&mut self) {
        let c = self.ctl.last().unwrap();
        let (h, nr, un, np) = (c.height, c.nr, c.unreachable, c.np);
        if !un {
            self.move_results(h, nr);
            self.emit(op::Br, 0, 0, 0, 0);
            let j = self.ins.len() - 1;
            self.ctl.last_mut().unwrap().fix.push(j);
        }
        let here = self.ins.len();
        let ef = self.ctl.last_mut().unwrap().else_fix.take().unwrap();
        self.ins[ef].imm = (self.ins[ef].imm & !0xffff_ffff) | here as u64;
        self.st.truncate(h);
        for _ in 0..np {
            self.push(V::Slot);
        }
        let c = self.ctl.last_mut().unwrap();
        c.kind = 3;
        c.unreachable = false;
        self.label();
    }
    fn do_end(&mut self) {
        let c = self.ctl.last().unwrap();
        let (h, nr, un) = (c.height, c.nr, c.unreachable);
        if !un {
            self.move_results(h, nr);
        }
        let mut c = self.ctl.pop().unwrap();
        if let Some(ef) = c.else_fix.take() {
            // if without else: np == nr
            c.fix.push(ef);
        }
        let here = self.ins.len();
        for j in &c.fix {
            self.ins[*j].imm = (self.ins[*j].imm & !0xffff_ffff) | here as u64;
        }
        for (t, k) in &c.tfix {
            self.tables[*t][*k] = here as u32;
        }
        self.st.truncate(h);
        for _ in 0..nr {
            self.push(V::Slot);
        }
        self.label();
        if c.kind == 4 {
            let s = self.slot(0);
            self.emit(op::Ret, 0, s, nr as u16, 0);
        }
    }
    fn memarg(&mut self) -> u64 {
        let al = self.r.leb();
        if al & 0x40 != 0 {
            self.r.leb();
        }
        self.r.leb()
    }
    fn load(&mut self, o: u16) {
        let off = self.memarg();
        let a = self.pop_reg();
        let d = self.push_slot();
        self.emit(o, d, a, 0, off);
    }
    fn store(&mut self, o: u16) {
        let off = self.memarg();
        let v = self.pop_reg();
        let a = self.pop_reg();
        self.emit(o, 0, a, v, off);
    }
    fn fbin(&mut self, o: u64) {
        let b = self.pop_reg();
        let a = self.pop_reg();
        let d = self.push_slot();
        self.emit(op::FBin, d, a, b, o);
    }
    fn fun(&mut self, o: u64) {
        let a = self.pop_reg();
        let d = self.push_slot();
        self.emit(op::FUn, d, a, 0, o);
    }
    fn call(&mut self, np: usize, nr: usize, o: u16, imm: u64, a: u16) {
        let base = self.st.len() - np;
        for i in base..self.st.len() {
            self.materialise(i);
        }
        self.st.truncate(base);
        let d = self.slot(base);
        self.emit(o, d, a, np as u16, imm);
        for _ in 0..nr {
            self.push(V::Slot);
        }
        if self.st.len() > self.maxh {
            self.maxh = self.st.len();
        }
        self.label();
    }
    fn set_local(&mut self, l: u16, tee: bool) {
        // any alias of l deeper in the stack must be saved first
        let top = self.st.len() - 1;
        let mut emitted = false;
        for i in 0..top {
            if self.st[i] == V::Local(l) {
                self.materialise(i);
                emitted = true;
            }
        }
        let v = self.st.pop().unwrap();
        match v {
            V::Const(c) => {
                self.emit(op::Const, l, 0, 0, c);
            }
            V::Local(x) => {
                if x != l {
                    self.emit(op::Mov, l, x, 0, 0);
                }
            }
            V::Slot => {
                let s = self.slot(top);
                if !emitted && self.last_is_tmp(s) {
                    self.ins.last_mut().unwrap().d = l;
                } else {
                    self.emit(op::Mov, l, s, 0, 0);
                }
            }
        }
        if tee {
            match v {
                V::Const(c) => self.push(V::Const(c)),
                _ => self.push(V::Local(l)),
            }
        }
    }
    fn instr(&mut self, o: u8) {
        if let Some(k) = Bin::from_wasm(o) {
            let n = self.st.len();
            if let (V::Const(x), V::Const(y)) = (self.st[n - 2], self.st[n - 1]) {
                self.st.truncate(n - 2);
                self.push(V::Const(k.eval(x, y)));
                return;
            }
            if let V::Const(c) = self.st[n - 1] {
                self.st.pop();
                let a = self.pop_reg();
                let d = self.push_slot();
                self.emit(64 + k as u16, d, a, 0, c);
                return;
            }
            if k.commutes() {
                if let V::Const(c) = self.st[n - 2] {
                    // the register of the second operand may be its own slot (n-1): read before write
                    let a = self.pop_reg();
                    self.st.pop();
                    let d = self.push_slot();
                    self.emit(64 + k as u16, d, a, 0, c);
                    return;
                }
            }
            let b = self.pop_reg();
            let a = self.pop_reg();
            let d = self.push_slot();
            self.emit(k as u16, d, a, b, 0);
            return;
        }
        if o == 0xad {
            return; // i64.extend_i32_u: i32 values are kept zero-extended
        }
        if let Some(k) = Un::from_wasm(o) {
            let a = self.pop_reg();
            let d = self.push_slot();
            self.emit(256 + k as u16, d, a, 0, 0);
            return;
        }
        match o {
            0x00 => {
                self.emit(op::Unreachable, 0, 0, 0, 0);
                self.unreach();
            }
            0x01 => {}
            0x02 | 0x03 => {
                let (np, nr) = self.block_type();
                self.flush();
                let start = self.ins.len();
                let height = self.st.len() - np;
                self.ctl.push(Ctl { kind: o - 2, height, np, nr, start, fix: vec![], tfix: vec![], else_fix: None, unreachable: false });
                if o == 3 {
                    self.label();
                }
            }
            0x04 => {
                let (np, nr) = self.block_type();
                let c = self.pop_reg_keep_fusable();
                // flush everything below without disturbing the condition
                let fusable = self.last_is_tmp(c);
                let mut need_flush = self.st.iter().any(|v| *v != V::Slot);
                let jidx;
                if need_flush && fusable {
                    // remove the condition instruction, flush, re-emit
                    let l = self.ins.pop().unwrap();
                    // operands of l may be slots or locals; flushing writes only other canonical slots (indices < condition slot)
                    let safe = true;
                    if safe {
                        self.flush_avoiding(&l);
                        self.ins.push(l);
                        need_flush = false;
                    }
                }
                if need_flush {
                    self.flush();
                }
                jidx = self.cond_jump(c, true);
                let height = self.st.len() - np;
                self.ctl.push(Ctl { kind: 2, height, np, nr, start: 0, fix: vec![], tfix: vec![], else_fix: Some(jidx), unreachable: false });
                self.label();
            }
            0x05 => self.do_else(),
            0x0b => self.do_end(),
            0x0c => {
                let d = self.r.leb() as usize;
                self.br(d);
                self.unreach();
            }
            0x0d => {
                let d = self.r.leb() as usize;
                let c = self.pop_reg_keep_fusable();
                if !self.needs_moves(d) {
                    let j = self.cond_jump(c, false);
                    self.target(d, j);
                } else {
                    let j = self.cond_jump(c, true);
                    let n = self.br_arity(d);
                    let h = self.ctl[self.ctl.len() - 1 - d].height;
                    self.move_results(h, n);
                    self.emit(op::Br, 0, 0, 0, 0);
                    let j2 = self.ins.len() - 1;
                    self.target(d, j2);
                    let here = self.ins.len() as u64;
                    self.ins[j].imm = (self.ins[j].imm & !0xffff_ffff) | here;
                }
                self.label();
            }
            0x0e => {
                let n = self.r.leb() as usize;
                let ds: Vec<usize> = (0..=n).map(|_| self.r.leb() as usize).collect();
                let c = self.pop_reg();
                let t = self.tables.len();
                self.tables.push(vec![0; n + 1]);
                self.emit(op::BrTable, 0, c, 0, t as u64);
                // targets with moves get a trampoline
                let mut done: Vec<(usize, u32)> = vec![];
                for (k, d) in ds.iter().enumerate() {
                    if self.needs_moves(*d) {
                        if let Some(x) = done.iter().find(|x| x.0 == *d) {
                            self.tables[t][k] = x.1;
                        } else {
                            let here = self.ins.len() as u32;
                            self.tables[t][k] = here;
                            done.push((*d, here));
                            let n = self.br_arity(*d);
                            let h = self.ctl[self.ctl.len() - 1 - d].height;
                            self.move_results(h, n);
                            self.emit(op::Br, 0, 0, 0, 0);
                            let j2 = self.ins.len() - 1;
                            self.target(*d, j2);
                        }
                    } else {
                        let kk = self.ctl.len() - 1 - d;
                        let c = &mut self.ctl[kk];
                        if c.kind == 1 {
                            self.tables[t][k] = c.start as u32;
                        } else {
                            c.tfix.push((t, k));
                        }
                    }
                }
                self.unreach();
            }
            0x0f => {
                let n = self.nres;
                if n == 1 {
                    let a = self.pop_reg();
                    self.emit(op::Ret, 0, a, 1, 0);
                } else {
                    self.move_results(0, n);
                    let s = self.slot(0);
                    self.emit(op::Ret, 0, s, n as u16, 0);
                }
                self.unreach();
            }
            0x10 => {
                let f = self.r.leb() as usize;
                let t = &self.m.types[self.m.funcs[f].ty];
                let (np, nr) = (t.np, t.nr);
                self.call(np, nr, op::Call, f as u64, 0);
            }
            0x11 => {
                let ty = self.r.leb() as usize;
                let _tb = self.r.leb();
                let t = &self.m.types[ty];
                let (np, nr) = (t.np, t.nr);
                // keep the index register intact: it lies above the args
                let a = self.pop_reg();
                self.call(np, nr, op::CallInd, ty as u64, a);
            }
            0x1a => {
                self.st.pop();
            }
            0x1b | 0x1c => {
                if o == 0x1c {
                    for _ in 0..self.r.leb() {
                        self.r.u8();
                    }
                }
                let c = self.pop_reg();
                let b = self.pop_reg();
                let a = self.pop_reg();
                let d = self.push_slot();
                self.emit(op::Select, d, a, b, c as u64);
            }
            0x20 => {
                let l = self.r.leb() as u16;
                self.push(V::Local(l));
            }
            0x21 => {
                let l = self.r.leb() as u16;
                self.set_local(l, false);
            }
            0x22 => {
                let l = self.r.leb() as u16;
                self.set_local(l, true);
            }
            0x23 => {
                let g = self.r.leb();
                let d = self.push_slot();
                self.emit(op::GGet, d, 0, 0, g);
            }
            0x24 => {
                let g = self.r.leb();
                let a = self.pop_reg();
                self.emit(op::GSet, 0, a, 0, g);
            }
            0x28 | 0x2a => self.load(op::L32U),
            0x29 | 0x2b => self.load(op::L64),
            0x2c => self.load(op::L8S32),
            0x2d | 0x31 => self.load(op::L8U),
            0x2e => self.load(op::L16S32),
            0x2f | 0x33 => self.load(op::L16U),
            0x30 => self.load(op::L8S64),
            0x32 => self.load(op::L16S64),
            0x34 => self.load(op::L32S64),
            0x35 => self.load(op::L32U),
            0x36 | 0x38 => self.store(op::S32),
            0x37 | 0x39 => self.store(op::S64),
            0x3a | 0x3c => self.store(op::S8),
            0x3b | 0x3d => self.store(op::S16),
            0x3e => self.store(op::S32),
            0x3f => {
                self.r.u8();
                let d = self.push_slot();
                self.emit(op::MemSize, d, 0, 0, 0);
            }
            0x40 => {
                self.r.u8();
                let a = self.pop_reg();
                let d = self.push_slot();
                self.emit(op::MemGrow, d, a, 0, 0);
            }
            0x41 => {
                let c = self.r.sleb() as u32 as u64;
                self.push(V::Const(c));
            }
            0x42 => {
                let c = self.r.sleb() as u64;
                self.push(V::Const(c));
            }
            0x43 => {
                let c = u32::from_le_bytes(self.r.bytes(4).try_into().unwrap()) as u64;
                self.push(V::Const(c));
            }
            0x44 => {
                let c = u64::from_le_bytes(self.r.bytes(8).try_into().unwrap());
                self.push(V::Const(c));
            }
            // division and remainder (trap on zero) are handled with the generic binary path
            0x6d..=0x70 | 0x7f..=0x82 => self.fbin(o as u64),
            0x5b..=0x66 | 0x92..=0x98 | 0xa0..=0xa6 => self.fbin(o as u64),
            0x8b..=0x91 | 0x99..=0x9f | 0xa8..=0xab | 0xae..=0xb1 | 0xb2..=0xbb => self.fun(o as u64),
            0xbc..=0xbf => {} // reinterpret
            0xfc => {
                let s = self.r.leb();
                match s {
                    0..=7 => self.fun(0xfc00 + s),
                    10 => {
                        self.r.leb();
                        self.r.leb();
                        let n = self.pop_reg();
                        let sr = self.pop_reg();
                        let d = self.pop_reg();
                        self.emit(op::MemCopy, d, sr, n, 0);
                    }
                    11 => {
                        self.r.leb();
                        let n = self.pop_reg();
                        let v = self.pop_reg();
                        let d = self.pop_reg();
                        self.emit(op::MemFill, d, v, n, 0);
                    }
                    _ => panic!("0xfc {s}"),
                }
            }
            _ => panic!("opcode {o:#x}"),
        }
    }
    fn pop_reg_keep_fusable(&mut self) -> u16 {
        self.pop_reg()
    }
    fn flush_avoiding(&mut self, _l: &I) {
        // canonical slots below the condition are only written when their
        // virtual value is an alias/constant, i.e. the slot is not live
        self.flush();
    }
}

fn writes_d(o: u16) -> bool {
    o < 128
        || (256..300).contains(&o)
        || matches!(
            o,
            op::Mov
                | op::Const
                | op::L8U
                | op::L8S32
                | op::L8S64
                | op::L16U
                | op::L16S32
                | op::L16S64
                | op::L32U
                | op::L32S64
                | op::L64
                | op::Select
                | op::GGet
                | op::FBin
                | op::FUn
                | op::MemSize
                | op::MemGrow
        )
}
