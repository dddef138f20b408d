//! Hash-consed symbolic expressions.
//!
//! Every expression denotes a 64-bit value (i32 values are zero-extended).
//! Expressions over a single symbolic variable additionally carry the table of
//! their values over the variable's declared alphabet; that table makes them
//! canonical and lets branch feasibility be computed quickly.  Every pruning
//! decision taken from a table is later re-proved by z3 from the *operator*
//! form of the expression (see z3.rs / engine.rs).
use crate::ops::*;
use std::collections::HashMap;

pub type Id = u32; // 0 = "no symbolic value"

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    None,
    Const,
    Var,
    Bin(Bin),
    Un(Un),
    Ite,
    Byte,
    Concat,
    Lut,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
#[derive(Debug)]
pub struct Key {
    pub op: Op,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub imm: u64,
}

pub struct Node {
    pub k: Key,
    pub support: u64,
    pub max: u64, // inclusive upper bound
    pub tab: u32, // index in tabs, u32::MAX if none
    pub var: u8,
    pub nz: [u64; 4], // set of variable values for which the node is nonzero (single-var only)
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub cons: HashMap<Key, Id>,
    pub tabs: Vec<Box<[u64; 256]>>,
    tabmap: HashMap<(u8, u64, u64), Vec<Id>>,
    pub lists: Vec<Vec<Id>>,
    listmap: HashMap<Vec<Id>, u32>,
    pub luts: Vec<Vec<(u64, u64)>>,
    lutmap: HashMap<Vec<(u64, u64)>, u32>,
    pub base: Vec<[u64; 4]>, // declared alphabet of each variable
    pub merges: Vec<(Key, Id)>, // operator forms identified with an existing canonical node
    scratch: Box<[u64; 256]>,
}

pub fn bs_get(d: &[u64; 4], v: usize) -> bool {
    d[v >> 6] >> (v & 63) & 1 != 0
}
pub fn bs_set(d: &mut [u64; 4], v: usize) {
    d[v >> 6] |= 1 << (v & 63)
}
pub fn bs_and(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn bs_andn(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn bs_empty(a: &[u64; 4]) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn bs_count(a: &[u64; 4]) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn bs_first(a: &[u64; 4]) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64 + a[i].trailing_zeros() as usize) as u8;
        }
    }
    0
}
pub fn bs_iter(a: &[u64; 4]) -> impl Iterator<Item = usize> {
    let a = *a;
    (0..256usize).filter(move |v| bs_get(&a, *v))
}

fn hash_tab(t: &[u64; 256]) -> (u64, u64) {
    let mut h = 0x9E3779B97F4A7C15u64;
    let mut g = 0xC2B2AE3D27D4EB4Fu64;
    for &x in t.iter() {
        h = (h ^ x).wrapping_mul(0xff51afd7ed558ccd).rotate_left(29);
        g = (g.wrapping_add(x)).wrapping_mul(0xc4ceb9fe1a85ec53).rotate_left(31) ^ h;
    }
    (h, g)
}

impl Exprs {
    pub fn new() -> Exprs {
        let mut e = Exprs {
            nodes: vec![],
            cons: HashMap::new(),
            tabs: vec![],
            tabmap: HashMap::new(),
            lists: vec![],
            listmap: HashMap::new(),
            luts: vec![],
            lutmap: HashMap::new(),
            base: vec![],
            merges: vec![],
            scratch: Box::new([0; 256]),
        };
        e.nodes.push(Node { k: Key { op: Op::None, a: 0, b: 0, c: 0, imm: 0 }, support: 0, max: 0, tab: u32::MAX, var: 0, nz: [0; 4] });
        e
    }
    pub fn konst(&mut self, v: u64) -> Id {
        let k = Key { op: Op::Const, a: 0, b: 0, c: 0, imm: v };
        if let Some(&i) = self.cons.get(&k) {
            return i;
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { k, support: 0, max: v, tab: u32::MAX, var: 0, nz: [0; 4] });
        self.cons.insert(k, id);
        id
    }
    pub fn new_var(&mut self, dom: [u64; 4]) -> Id {
        let i = self.base.len();
        assert!(i < 64, "more than 64 symbolic variables on a path");
        self.base.push(dom);
        let k = Key { op: Op::Var, a: i as u32, b: 0, c: 0, imm: 0 };
        let mut t = [0u64; 256];
        for v in bs_iter(&dom) {
            t[v] = v as u64;
        }
        self.scratch.copy_from_slice(&t);
        self.finish_tab(k, i as u8)
    }
    #[inline]
    pub fn as_const(&self, e: Id) -> Option<u64> {
        let n = &self.nodes[e as usize];
        if n.k.op == Op::Const {
            Some(n.k.imm)
        } else {
            None
        }
    }
    #[inline]
    pub fn single(&self, e: Id) -> bool {
        self.nodes[e as usize].tab != u32::MAX
    }
    #[inline]
    pub fn tab(&self, e: Id) -> &[u64; 256] {
        &self.tabs[self.nodes[e as usize].tab as usize]
    }
    #[inline]
    pub fn max(&self, e: Id) -> u64 {
        self.nodes[e as usize].max
    }
    pub fn support(&self, e: Id) -> u64 {
        self.nodes[e as usize].support
    }
    /// interns the table in scratch as the meaning of key k over variable var
    fn finish_tab(&mut self, k: Key, var: u8) -> Id {
        let base = self.base[var as usize];
        let mut first: Option<u64> = None;
        let mut konst = true;
        let mut max = 0;
        let mut nz = [0u64; 4];
        for v in 0..256 {
            if bs_get(&base, v) {
                let x = self.scratch[v];
                match first {
                    None => first = Some(x),
                    Some(f) => {
                        if f != x {
                            konst = false
                        }
                    }
                }
                if x > max {
                    max = x
                }
                if x != 0 {
                    bs_set(&mut nz, v)
                }
            } else {
                self.scratch[v] = 0;
            }
        }
        if konst {
            let c = self.konst(first.unwrap_or(0));
            self.cons.insert(k, c);
            self.merges.push((k, c));
            return c;
        }
        let (h, g) = hash_tab(&self.scratch);
        if let Some(l) = self.tabmap.get(&(var, h, g)) {
            for &i in l {
                if self.tabs[self.nodes[i as usize].tab as usize][..] == self.scratch[..] {
                    self.cons.insert(k, i);
                    self.merges.push((k, i));
                    return i;
                }
            }
        }
        let id = self.nodes.len() as Id;
        let tab = self.tabs.len() as u32;
        self.tabs.push(self.scratch.clone());
        self.nodes.push(Node { k, support: 1 << var, max, tab, var, nz });
        self.cons.insert(k, id);
        self.tabmap.entry((var, h, g)).or_default().push(id);
        id
    }
    fn finish_multi(&mut self, k: Key, support: u64, max: u64) -> Id {
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { k, support, max, tab: u32::MAX, var: 0, nz: [0; 4] });
        self.cons.insert(k, id);
        id
    }
    fn is_concat(&self, e: Id) -> bool {
        self.nodes[e as usize].k.op == Op::Concat
    }
    fn concat_list(&self, e: Id) -> Vec<Id> {
        self.lists[self.nodes[e as usize].k.imm as usize].clone()
    }
    /// bytes of an expression, least significant first, as a list of 8 ids, if cheaply available
    fn bytes_of(&mut self, e: Id) -> Option<Vec<Id>> {
        if self.is_concat(e) {
            return Some(self.concat_list(e));
        }
        if let Some(c) = self.as_const(e) {
            return Some((0..8).map(|i| self.konst(c >> (8 * i) & 255)).collect());
        }
        if self.max(e) < 256 {
            let z = self.konst(0);
            let mut l = vec![z; 8];
            l[0] = e;
            return Some(l);
        }
        None
    }
    pub fn concat(&mut self, l: &[Id]) -> Id {
        let mut l = l.to_vec();
        let z = self.konst(0);
        while l.len() < 8 {
            l.push(z);
        }
        if l.iter().all(|&i| self.as_const(i).is_some()) {
            let mut v = 0u64;
            for (i, &x) in l.iter().enumerate() {
                v |= self.as_const(x).unwrap() << (8 * i);
            }
            return self.konst(v);
        }
        if l[1..].iter().all(|&i| i == z) {
            return l[0];
        }
        // bytes 0..n of one and the same value?
        if let Op::Byte = self.nodes[l[0] as usize].k.op {
            let src = self.nodes[l[0] as usize].k.a;
            let mut ok = self.nodes[l[0] as usize].k.imm == 0;
            let mx = self.max(src);
            for i in 0..8 {
                if !ok {
                    break;
                }
                let n = &self.nodes[l[i] as usize];
                if n.k.op == Op::Byte && n.k.a == src && n.k.imm == i as u64 {
                    continue;
                }
                if l[i] == z && mx >> (8 * i) == 0 {
                    continue;
                }
                ok = false;
            }
            if ok {
                return src;
            }
        }
        let li = match self.listmap.get(&l) {
            Some(&i) => i,
            None => {
                let i = self.lists.len() as u32;
                self.lists.push(l.clone());
                self.listmap.insert(l.clone(), i);
                i
            }
        };
        let k = Key { op: Op::Concat, a: 0, b: 0, c: 0, imm: li as u64 };
        if let Some(&i) = self.cons.get(&k) {
            return i;
        }
        let mut sup = 0;
        let mut mx = 0u64;
        for (i, &x) in l.iter().enumerate() {
            sup |= self.support(x);
            mx |= smear(self.max(x)) << (8 * i);
        }
        if sup.count_ones() == 1 {
            let var = sup.trailing_zeros() as u8;
            for v in 0..256 {
                let mut r = 0;
                for (i, &x) in l.iter().enumerate() {
                    r |= self.val_at(x, v) << (8 * i);
                }
                self.scratch[v] = r;
            }
            return self.finish_tab(k, var);
        }
        self.finish_multi(k, sup, mx)
    }
    #[inline]
    pub fn val_at(&self, e: Id, v: usize) -> u64 {
        let n = &self.nodes[e as usize];
        if n.tab != u32::MAX {
            self.tabs[n.tab as usize][v]
        } else {
            n.k.imm
        }
    }
    pub fn byte(&mut self, e: Id, i: u32) -> Id {
        if let Some(c) = self.as_const(e) {
            return self.konst(c >> (8 * i) & 255);
        }
        if self.is_concat(e) {
            return self.lists[self.nodes[e as usize].k.imm as usize][i as usize];
        }
        if self.max(e) < 256 {
            return if i == 0 { e } else { self.konst(0) };
        }
        if self.max(e) >> (8 * i) == 0 {
            return self.konst(0);
        }
        let k = Key { op: Op::Byte, a: e, b: 0, c: 0, imm: i as u64 };
        if let Some(&i) = self.cons.get(&k) {
            return i;
        }
        if self.single(e) {
            let t = self.tabs[self.nodes[e as usize].tab as usize].clone();
            for v in 0..256 {
                self.scratch[v] = t[v] >> (8 * i) & 255;
            }
            let var = self.nodes[e as usize].var;
            return self.finish_tab(k, var);
        }
        let s = self.support(e);
        self.finish_multi(k, s, 255)
    }
    pub fn un(&mut self, op: Un, a: Id) -> Id {
        if let Some(c) = self.as_const(a) {
            return self.konst(op.eval(c));
        }
        let k = Key { op: Op::Un(op), a, b: 0, c: 0, imm: 0 };
        if let Some(&i) = self.cons.get(&k) {
            return i;
        }
        if self.single(a) {
            let t = self.tabs[self.nodes[a as usize].tab as usize].clone();
            for v in 0..256 {
                self.scratch[v] = op.eval(t[v]);
            }
            let var = self.nodes[a as usize].var;
            return self.finish_tab(k, var);
        }
        let r = self.un_multi(op, a);
        match r {
            Some(r) => {
                self.cons.insert(k, r);
                self.merges.push((k, r));
                r
            }
            None => {
                let s = self.support(a);
                let max = match op {
                    Un::I32Eqz | Un::I64Eqz => 1,
                    Un::I32Clz | Un::I32Ctz | Un::I32Popcnt | Un::I64Clz | Un::I64Ctz | Un::I64Popcnt => 64,
                    Un::I32WrapI64 => self.max(a).min(0xffff_ffff),
                    Un::I32Extend8S | Un::I32Extend16S => 0xffff_ffff,
                    _ => u64::MAX,
                };
                self.finish_multi(k, s, max)
            }
        }
    }
    fn un_multi(&mut self, op: Un, a: Id) -> Option<Id> {
        match op {
            Un::I32Eqz | Un::I64Eqz => {
                let z = self.konst(0);
                let n = self.nodes[a as usize].k;
                match n.op {
                    Op::Un(Un::I32Eqz) | Op::Un(Un::I64Eqz) => {
                        // !!x : for a 0/1 x this is x
                        if self.max(n.a) <= 1 {
                            return Some(n.a);
                        }
                        None
                    }
                    Op::Bin(b) if b.is_cmp() => Some(self.bin(b.negate(), n.a, n.b)),
                    Op::Bin(Bin::I32Or) | Op::Bin(Bin::I64Or) if self.max(a) > 1 => {
                        let x = self.un(Un::I64Eqz, n.a);
                        let y = self.un(Un::I64Eqz, n.b);
                        Some(self.bin(Bin::I32And, x, y))
                    }
                    Op::Bin(Bin::I32Xor) | Op::Bin(Bin::I64Xor) => Some(self.bin(Bin::I64Eq, n.a, n.b)),
                    Op::Concat => Some(self.bin(Bin::I64Eq, a, z)),
                    Op::Bin(Bin::I32And) if self.max(n.a) <= 1 && self.max(n.b) <= 1 => {
                        let x = self.un(Un::I32Eqz, n.a);
                        let y = self.un(Un::I32Eqz, n.b);
                        Some(self.bin(Bin::I32Or, x, y))
                    }
                    Op::Bin(Bin::I32Or) if self.max(n.a) <= 1 && self.max(n.b) <= 1 => {
                        let x = self.un(Un::I32Eqz, n.a);
                        let y = self.un(Un::I32Eqz, n.b);
                        Some(self.bin(Bin::I32And, x, y))
                    }
                    Op::Ite => {
                        let x = self.un(op, n.b);
                        let y = self.un(op, n.c);
                        Some(self.ite(n.a, x, y))
                    }
                    _ => None,
                }
            }
            Un::I32WrapI64 => {
                if self.max(a) <= 0xffff_ffff {
                    return Some(a);
                }
                if self.is_concat(a) {
                    let l = self.concat_list(a);
                    return Some(self.concat(&l[..4]));
                }
                None
            }
            Un::I64ExtendI32S | Un::I64Extend32S => {
                if self.max(a) <= 0x7fff_ffff {
                    return Some(a);
                }
                None
            }
            Un::I32Extend8S | Un::I64Extend8S => {
                if self.max(a) <= 0x7f {
                    return Some(a);
                }
                None
            }
            Un::I32Extend16S | Un::I64Extend16S => {
                if self.max(a) <= 0x7fff {
                    return Some(a);
                }
                None
            }
            _ => None,
        }
    }
    pub fn bin(&mut self, op: Bin, a: Id, b: Id) -> Id {
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(op.eval(x, y));
        }
        if op.commutes() && ca.is_some() {
            return self.bin(op, b, a);
        }
        let k = Key { op: Op::Bin(op), a, b, c: 0, imm: 0 };
        if let Some(&i) = self.cons.get(&k) {
            return i;
        }
        let sup = self.support(a) | self.support(b);
        if sup.count_ones() == 1 && (self.single(a) || ca.is_some()) && (self.single(b) || cb.is_some()) {
            let var = sup.trailing_zeros() as usize;
            let ta = if self.single(a) { Some(self.tabs[self.nodes[a as usize].tab as usize].clone()) } else { None };
            let tb = if self.single(b) { Some(self.tabs[self.nodes[b as usize].tab as usize].clone()) } else { None };
            match (ta, tb) {
                (Some(x), Some(y)) => {
                    for v in 0..256 {
                        self.scratch[v] = op.eval(x[v], y[v]);
                    }
                }
                (Some(x), None) => {
                    let c = cb.unwrap();
                    for v in 0..256 {
                        self.scratch[v] = op.eval(x[v], c);
                    }
                }
                (None, Some(y)) => {
                    let c = ca.unwrap();
                    for v in 0..256 {
                        self.scratch[v] = op.eval(c, y[v]);
                    }
                }
                _ => unreachable!(),
            }
            return self.finish_tab(k, var as u8);
        }
        if let Some(r) = self.bin_multi(op, a, b, ca, cb) {
            self.cons.insert(k, r);
            self.merges.push((k, r));
            return r;
        }
        let (ma, mb) = (self.max(a), self.max(b));
        let full = if op.is32() { 0xffff_ffffu64 } else { u64::MAX };
        let max = if op.is_cmp() {
            1
        } else {
            match op {
                Bin::I32And | Bin::I64And => smear(ma).min(smear(mb)),
                Bin::I32Or | Bin::I64Or | Bin::I32Xor | Bin::I64Xor => smear(ma | mb),
                Bin::I32Add | Bin::I64Add => match ma.checked_add(mb) {
                    Some(s) if s <= full => s,
                    _ => full,
                },
                Bin::I32ShrU | Bin::I64ShrU => match cb {
                    Some(c) => ma >> (c & if op.is32() { 31 } else { 63 }),
                    None => ma,
                },
                Bin::I32Shl | Bin::I64Shl => match cb {
                    Some(c) => {
                        let c = c & if op.is32() { 31 } else { 63 };
                        if ma.leading_zeros() as u64 >= c && (ma << c) <= full {
                            ma << c
                        } else {
                            full
                        }
                    }
                    None => full,
                },
                Bin::I32Mul | Bin::I64Mul => match ma.checked_mul(mb) {
                    Some(s) if s <= full => s,
                    _ => full,
                },
                _ => full,
            }
        };
        self.finish_multi(k, sup, max)
    }
    fn bin_multi(&mut self, op: Bin, a: Id, b: Id, ca: Option<u64>, cb: Option<u64>) -> Option<Id> {
        use Bin::*;
        let z = 0;
        let _ = (z, ca);
        match op {
            I32And | I64And => {
                if a == b {
                    return Some(a);
                }
                if cb == Some(0) {
                    return Some(self.konst(0));
                }
                if let Some(c) = cb {
                    if smear(self.max(a)) & !c == 0 {
                        return Some(a);
                    }
                }
                if self.is_concat(a) || self.is_concat(b) {
                    if let (Some(x), Some(y)) = (self.bytes_of(a), self.bytes_of(b)) {
                        let l: Vec<Id> = (0..8).map(|i| self.bin(I32And, x[i], y[i])).collect();
                        return Some(self.concat(&l));
                    }
                }
                None
            }
            I32Or | I64Or => {
                if a == b || cb == Some(0) {
                    return Some(a);
                }
                if self.max(a) <= 1 && cb == Some(1) {
                    return Some(b);
                }
                let cc = self.is_concat(a) || self.is_concat(b);
                if cc || (cb.is_some() && self.max(a) > 255) || self.shl8(a) || self.shl8(b) {
                    if let (Some(x), Some(y)) = (self.bytes_of(a), self.bytes_of(b)) {
                        // only when each byte has at most one symbolic contributor
                        let ok = (0..8).all(|i| self.as_const(x[i]).is_some() || self.as_const(y[i]).is_some());
                        if ok {
                            let l: Vec<Id> = (0..8).map(|i| self.bin(I32Or, x[i], y[i])).collect();
                            return Some(self.concat(&l));
                        }
                    }
                }
                None
            }
            I32Xor | I64Xor => {
                if cb == Some(0) {
                    return Some(a);
                }
                if a == b {
                    return Some(self.konst(0));
                }
                if cb == Some(1) && self.max(a) <= 1 {
                    return Some(self.un(Un::I32Eqz, a));
                }
                if self.is_concat(a) && cb.is_some() {
                    if let (Some(x), Some(y)) = (self.bytes_of(a), self.bytes_of(b)) {
                        let n = if op == I32Xor { 4 } else { 8 };
                        let l: Vec<Id> = (0..n).map(|i| self.bin(I32Xor, x[i], y[i])).collect();
                        return Some(self.concat(&l));
                    }
                }
                None
            }
            I32Shl | I64Shl | I32ShrU | I64ShrU => {
                if cb == Some(0) {
                    return Some(a);
                }
                let w: u64 = if op.is32() { 32 } else { 64 };
                if let Some(c) = cb {
                    let c = c & (w - 1);
                    let shl = matches!(op, I32Shl | I64Shl);
                    if !shl && self.max(a) >> c == 0 {
                        return Some(self.konst(0));
                    }
                    if c % 8 == 0 {
                        if let Some(x) = self.bytes_of(a) {
                            let s = (c / 8) as usize;
                            let n = (w / 8) as usize;
                            let zz = self.konst(0);
                            let mut l = vec![zz; 8];
                            for i in 0..n {
                                if shl {
                                    if i >= s {
                                        l[i] = x[i - s];
                                    }
                                } else if i + s < n {
                                    l[i] = x[i + s];
                                }
                            }
                            return Some(self.concat(&l));
                        }
                    }
                }
                None
            }
            I32ShrS | I64ShrS => {
                let lim = if op.is32() { 0x7fff_ffff } else { i64::MAX as u64 };
                if cb.is_some() && self.max(a) <= lim {
                    return Some(self.bin(if op.is32() { I32ShrU } else { I64ShrU }, a, b));
                }
                None
            }
            I32Add | I64Add | I32Sub | I64Sub => {
                if cb == Some(0) {
                    return Some(a);
                }
                if a == b && matches!(op, I32Sub | I64Sub) {
                    return Some(self.konst(0));
                }
                None
            }
            I32Mul | I64Mul => {
                if cb == Some(1) {
                    return Some(a);
                }
                if cb == Some(0) {
                    return Some(self.konst(0));
                }
                None
            }
            I32Eq | I64Eq | I32Ne | I64Ne => {
                let ne = matches!(op, I32Ne | I64Ne);
                if a == b {
                    return Some(self.konst(!ne as u64));
                }
                if ne {
                    if cb == Some(0) && self.max(a) <= 1 {
                        return Some(a);
                    }
                    // represent as negated equality so that equalities are shared
                    let e = self.bin(I64Eq, a, b);
                    let n = self.nodes[e as usize].k;
                    if let Op::Bin(I64Eq) = n.op {
                        return None;
                    }
                    return Some(self.un(Un::I32Eqz, e));
                }
                if op == I32Eq {
                    return Some(self.bin(I64Eq, a, b));
                }
                if let Some(c) = cb {
                    if c > self.max(a) {
                        return Some(self.konst(0));
                    }
                    if self.max(a) <= 1 {
                        return Some(if c == 1 { a } else { self.un(Un::I32Eqz, a) });
                    }
                    let n = self.nodes[a as usize].k;
                    if let Op::Bin(I32Xor) | Op::Bin(I64Xor) = n.op {
                        if c == 0 {
                            return Some(self.bin(I64Eq, n.a, n.b));
                        }
                    }
                    if let Op::Bin(I32Or) | Op::Bin(I64Or) = n.op {
                        if c == 0 {
                            return Some(self.un(Un::I64Eqz, a));
                        }
                    }
                    if n.op == Op::Ite {
                        let x = self.bin(I64Eq, n.b, b);
                        let y = self.bin(I64Eq, n.c, b);
                        return Some(self.ite(n.a, x, y));
                    }
                }
                if self.is_concat(a) || self.is_concat(b) {
                    if let (Some(x), Some(y)) = (self.bytes_of(a), self.bytes_of(b)) {
                        let mut r = self.konst(1);
                        for i in 0..8 {
                            let e = self.bin(I64Eq, x[i], y[i]);
                            r = self.bin(I32And, e, r);
                            if self.as_const(r) == Some(0) {
                                return Some(r);
                            }
                        }
                        return Some(r);
                    }
                }
                None
            }
            _ if op.is_cmp() => {
                if a == b {
                    let v = op.eval(7, 7);
                    return Some(self.konst(v));
                }
                let (ma, mb) = (self.max(a), self.max(b));
                match op {
                    I32LtU | I64LtU => {
                        if let Some(c) = cb {
                            if ma < c {
                                return Some(self.konst(1));
                            }
                            if c == 0 {
                                return Some(self.konst(0));
                            }
                            if c == 1 {
                                return Some(self.un(Un::I64Eqz, a));
                            }
                        }
                    }
                    I32GtU | I64GtU => {
                        if let Some(c) = cb {
                            if ma <= c {
                                return Some(self.konst(0));
                            }
                        }
                    }
                    I32LeU | I64LeU => {
                        if let Some(c) = cb {
                            if ma <= c {
                                return Some(self.konst(1));
                            }
                        }
                    }
                    I32GeU | I64GeU => {
                        if let Some(c) = cb {
                            if ma < c {
                                return Some(self.konst(0));
                            }
                        }
                    }
                    I32LtS | I32GtS | I32LeS | I32GeS if ma <= 0x7fff_ffff && mb <= 0x7fff_ffff => {
                        let o = match op {
                            I32LtS => I32LtU,
                            I32GtS => I32GtU,
                            I32LeS => I32LeU,
                            _ => I32GeU,
                        };
                        return Some(self.bin(o, a, b));
                    }
                    I64LtS | I64GtS | I64LeS | I64GeS if ma <= i64::MAX as u64 && mb <= i64::MAX as u64 => {
                        let o = match op {
                            I64LtS => I64LtU,
                            I64GtS => I64GtU,
                            I64LeS => I64LeU,
                            _ => I64GeU,
                        };
                        return Some(self.bin(o, a, b));
                    }
                    _ => {}
                }
                None
            }
            _ => None,
        }
    }
    fn shl8(&self, _e: Id) -> bool {
        false
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(v) = self.as_const(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let k = Key { op: Op::Ite, a: c, b: a, c: b, imm: 0 };
        if let Some(&i) = self.cons.get(&k) {
            return i;
        }
        let sup = self.support(a) | self.support(b) | self.support(c);
        let simple = |s: &Self, e: Id| s.single(e) || s.as_const(e).is_some();
        if sup.count_ones() == 1 && simple(self, a) && simple(self, b) && simple(self, c) {
            for v in 0..256 {
                let r = if self.val_at(c, v) != 0 { self.val_at(a, v) } else { self.val_at(b, v) };
                self.scratch[v] = r;
            }
            return self.finish_tab(k, sup.trailing_zeros() as u8);
        }
        // boolean shapes
        if self.max(a) <= 1 && self.max(b) <= 1 {
            let cb = if self.max(c) <= 1 {
                c
            } else {
                let z = self.un(Un::I64Eqz, c);
                self.un(Un::I32Eqz, z)
            };
            let r = match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => Some(cb),
                (Some(0), Some(1)) => Some(self.un(Un::I32Eqz, cb)),
                (Some(1), None) => Some(self.bin(Bin::I32Or, cb, b)),
                (None, Some(0)) => Some(self.bin(Bin::I32And, cb, a)),
                (Some(0), None) => {
                    let n = self.un(Un::I32Eqz, cb);
                    Some(self.bin(Bin::I32And, n, b))
                }
                (None, Some(1)) => {
                    let n = self.un(Un::I32Eqz, cb);
                    Some(self.bin(Bin::I32Or, n, a))
                }
                _ => None,
            };
            if let Some(r) = r {
                self.cons.insert(k, r);
                self.merges.push((k, r));
                return r;
            }
        }
        let mx = self.max(a).max(self.max(b));
        self.finish_multi(k, sup, mx)
    }
    /// value loaded through a single-variable address: `pairs` lists address -> value for the
    /// addresses possible under `dom`; other variable values get 0 (they are excluded on this path)
    pub fn lut(&mut self, addr: Id, dom: &[u64; 4], pairs: Vec<(u64, u64)>) -> Id {
        let li = match self.lutmap.get(&pairs) {
            Some(&i) => i,
            None => {
                let i = self.luts.len() as u32;
                self.luts.push(pairs.clone());
                self.lutmap.insert(pairs, i);
                i
            }
        };
        let k = Key { op: Op::Lut, a: addr, b: 0, c: 0, imm: li as u64 };
        if let Some(&i) = self.cons.get(&k) {
            return i;
        }
        let _ = dom;
        let var = self.nodes[addr as usize].var;
        let t = self.tabs[self.nodes[addr as usize].tab as usize].clone();
        for v in 0..256 {
            let l = &self.luts[li as usize];
            self.scratch[v] = match l.binary_search_by_key(&t[v], |p| p.0) {
                Ok(i) => l[i].1,
                Err(_) => 0,
            };
        }
        self.finish_tab(k, var)
    }
    /// rebuilds a node from new children (used when simplifying under a path condition)
    pub fn rebuild(&mut self, k: &Key, a: Id, b: Id, c: Id) -> Id {
        match k.op {
            Op::Bin(o) => self.bin(o, a, b),
            Op::Un(o) => self.un(o, a),
            Op::Ite => self.ite(a, b, c),
            Op::Byte => self.byte(a, k.imm as u32),
            _ => unreachable!(),
        }
    }
}

/// all-ones mask covering v
pub fn smear(v: u64) -> u64 {
    if v == 0 {
        0
    } else {
        u64::MAX >> v.leading_zeros()
    }
}
