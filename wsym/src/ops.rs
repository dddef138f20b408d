//! Scalar semantics of the WebAssembly integer operators (one table shared by
//! the concrete interpreter, the symbolic tables and the z3 encoder).
#![allow(clippy::all)]

macro_rules! binops {
    ($m:ident) => {
        $m! {
            I32Add(0x6a) |a,b| (a as u32).wrapping_add(b as u32) as u64;
            I32Sub(0x6b) |a,b| (a as u32).wrapping_sub(b as u32) as u64;
            I32Mul(0x6c) |a,b| (a as u32).wrapping_mul(b as u32) as u64;
            I32And(0x71) |a,b| a & b;
            I32Or(0x72) |a,b| a | b;
            I32Xor(0x73) |a,b| a ^ b;
            I32Shl(0x74) |a,b| (a as u32).wrapping_shl(b as u32) as u64;
            I32ShrS(0x75) |a,b| (a as i32).wrapping_shr(b as u32) as u32 as u64;
            I32ShrU(0x76) |a,b| (a as u32).wrapping_shr(b as u32) as u64;
            I32Rotl(0x77) |a,b| (a as u32).rotate_left(b as u32 & 31) as u64;
            I32Rotr(0x78) |a,b| (a as u32).rotate_right(b as u32 & 31) as u64;
            I64Add(0x7c) |a,b| a.wrapping_add(b);
            I64Sub(0x7d) |a,b| a.wrapping_sub(b);
            I64Mul(0x7e) |a,b| a.wrapping_mul(b);
            I64And(0x83) |a,b| a & b;
            I64Or(0x84) |a,b| a | b;
            I64Xor(0x85) |a,b| a ^ b;
            I64Shl(0x86) |a,b| a.wrapping_shl(b as u32);
            I64ShrS(0x87) |a,b| (a as i64).wrapping_shr(b as u32) as u64;
            I64ShrU(0x88) |a,b| a.wrapping_shr(b as u32);
            I64Rotl(0x89) |a,b| a.rotate_left((b & 63) as u32);
            I64Rotr(0x8a) |a,b| a.rotate_right((b & 63) as u32);
            I32Eq(0x46) |a,b| (a == b) as u64;
            I32Ne(0x47) |a,b| (a != b) as u64;
            I32LtS(0x48) |a,b| ((a as i32) < (b as i32)) as u64;
            I32LtU(0x49) |a,b| ((a as u32) < (b as u32)) as u64;
            I32GtS(0x4a) |a,b| ((a as i32) > (b as i32)) as u64;
            I32GtU(0x4b) |a,b| ((a as u32) > (b as u32)) as u64;
            I32LeS(0x4c) |a,b| ((a as i32) <= (b as i32)) as u64;
            I32LeU(0x4d) |a,b| ((a as u32) <= (b as u32)) as u64;
            I32GeS(0x4e) |a,b| ((a as i32) >= (b as i32)) as u64;
            I32GeU(0x4f) |a,b| ((a as u32) >= (b as u32)) as u64;
            I64Eq(0x51) |a,b| (a == b) as u64;
            I64Ne(0x52) |a,b| (a != b) as u64;
            I64LtS(0x53) |a,b| ((a as i64) < (b as i64)) as u64;
            I64LtU(0x54) |a,b| (a < b) as u64;
            I64GtS(0x55) |a,b| ((a as i64) > (b as i64)) as u64;
            I64GtU(0x56) |a,b| (a > b) as u64;
            I64LeS(0x57) |a,b| ((a as i64) <= (b as i64)) as u64;
            I64LeU(0x58) |a,b| (a <= b) as u64;
            I64GeS(0x59) |a,b| ((a as i64) >= (b as i64)) as u64;
            I64GeU(0x5a) |a,b| (a >= b) as u64;
        }
    };
}
pub(crate) use binops;

macro_rules! unops {
    ($m:ident) => {
        $m! {
            I32Eqz(0x45) |a| (a == 0) as u64;
            I64Eqz(0x50) |a| (a == 0) as u64;
            I32Clz(0x67) |a| (a as u32).leading_zeros() as u64;
            I32Ctz(0x68) |a| (a as u32).trailing_zeros() as u64;
            I32Popcnt(0x69) |a| (a as u32).count_ones() as u64;
            I64Clz(0x79) |a| a.leading_zeros() as u64;
            I64Ctz(0x7a) |a| a.trailing_zeros() as u64;
            I64Popcnt(0x7b) |a| a.count_ones() as u64;
            I32WrapI64(0xa7) |a| a as u32 as u64;
            I64ExtendI32S(0xac) |a| a as u32 as i32 as i64 as u64;
            I32Extend8S(0xc0) |a| a as u8 as i8 as i32 as u32 as u64;
            I32Extend16S(0xc1) |a| a as u16 as i16 as i32 as u32 as u64;
            I64Extend8S(0xc2) |a| a as u8 as i8 as i64 as u64;
            I64Extend16S(0xc3) |a| a as u16 as i16 as i64 as u64;
            I64Extend32S(0xc4) |a| a as u32 as i32 as i64 as u64;
        }
    };
}
pub(crate) use unops;

macro_rules! def_bin {
    ($($n:ident($code:expr) |$a:ident,$b:ident| $e:expr;)*) => {
        #[derive(Clone,Copy,PartialEq,Eq,Hash,Debug)]
        #[repr(u8)]
        pub enum Bin { $($n),* }
        pub mod binf { $( #[allow(non_snake_case)] #[inline(always)] pub fn $n($a: u64, $b: u64) -> u64 { $e } )* }
        impl Bin {
            pub fn from_wasm(c: u8) -> Option<Bin> { match c { $($code => Some(Bin::$n),)* _ => None } }
            #[inline] pub fn eval(self, x: u64, y: u64) -> u64 { match self { $(Bin::$n => binf::$n(x,y)),* } }
        }
    };
}
binops!(def_bin);

macro_rules! def_un {
    ($($n:ident($code:expr) |$a:ident| $e:expr;)*) => {
        #[derive(Clone,Copy,PartialEq,Eq,Hash,Debug)]
        #[repr(u8)]
        pub enum Un { $($n),* }
        pub mod unf { $( #[allow(non_snake_case)] #[inline(always)] pub fn $n($a: u64) -> u64 { $e } )* }
        impl Un {
            pub fn from_wasm(c: u8) -> Option<Un> { match c { $($code => Some(Un::$n),)* _ => None } }
            #[inline] pub fn eval(self, x: u64) -> u64 { match self { $(Un::$n => unf::$n(x)),* } }
        }
    };
}
unops!(def_un);

impl Bin {
    pub fn is_cmp(self) -> bool { (self as u8) >= (Bin::I32Eq as u8) }
    pub fn is32(self) -> bool {
        (self as u8) <= (Bin::I32Rotr as u8)
            || ((self as u8) >= (Bin::I32Eq as u8) && (self as u8) <= (Bin::I32GeU as u8))
    }
    pub fn negate(self) -> Bin {
        use Bin::*;
        match self {
            I32Eq => I32Ne, I32Ne => I32Eq, I32LtS => I32GeS, I32LtU => I32GeU, I32GtS => I32LeS,
            I32GtU => I32LeU, I32LeS => I32GtS, I32LeU => I32GtU, I32GeS => I32LtS, I32GeU => I32LtU,
            I64Eq => I64Ne, I64Ne => I64Eq, I64LtS => I64GeS, I64LtU => I64GeU, I64GtS => I64LeS,
            I64GtU => I64LeU, I64LeS => I64GtS, I64LeU => I64GtU, I64GeS => I64LtS, I64GeU => I64LtU,
            x => panic!("negate {x:?}"),
        }
    }
    pub fn commutes(self) -> bool {
        use Bin::*;
        matches!(self, I32Add|I32Mul|I32And|I32Or|I32Xor|I64Add|I64Mul|I64And|I64Or|I64Xor|I32Eq|I32Ne|I64Eq|I64Ne)
    }
}
