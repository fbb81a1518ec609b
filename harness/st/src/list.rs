// Written by tools/gen_types.py.
#![allow(unused_imports)]
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, VecDeque};
use std::ffi::{CStr, CString, OsStr, OsString};
use std::marker::PhantomData;
use std::net::*;
use std::num::*;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;
use musli::compat::{Bytes, Packed, Sequence};
use crate::{entry, Bound, Entry};
pub type S0 = bool;
pub type S1 = char;
pub type S2 = u8;
pub type S3 = u16;
pub type S4 = u32;
pub type S5 = u64;
pub type S6 = u128;
pub type S7 = usize;
pub type S8 = i8;
pub type S9 = i16;
pub type S10 = i32;
pub type S11 = i64;
pub type S12 = i128;
pub type S13 = isize;
pub type S14 = f32;
pub type S15 = f64;
pub type S16 = NonZeroU8;
pub type S17 = NonZeroU16;
pub type S18 = NonZeroU32;
pub type S19 = NonZeroU64;
pub type S20 = NonZeroU128;
pub type S21 = NonZeroUsize;
pub type S22 = NonZeroI8;
pub type S23 = NonZeroI16;
pub type S24 = NonZeroI32;
pub type S25 = NonZeroI64;
pub type S26 = NonZeroI128;
pub type S27 = NonZeroIsize;
pub type S28 = Wrapping<u8>;
pub type S29 = Wrapping<i64>;
pub type S30 = ();
pub type S31 = PhantomData<String>;
pub type S32 = String;
pub type S33 = Box<str>;
pub type S34 = CString;
pub type S35 = Box<CStr>;
pub type S36 = Rc<CStr>;
pub type S37 = OsString;
pub type S38 = PathBuf;
pub type S39 = Box<OsStr>;
pub type S40 = Rc<Path>;
pub type S41 = Bound<0>;
pub type S42 = Bound<1>;
pub type S43 = Bound<2>;
pub type S44 = Bound<3>;
pub type S45 = Bound<4>;
pub type S46 = Bound<5>;
pub type S47 = Bound<6>;
pub type S48 = Bound<7>;
pub type S49 = Bound<8>;
pub type S50 = Bound<9>;
pub type S51 = Vec<u8>;
pub type S52 = Vec<u16>;
pub type S53 = Vec<u32>;
pub type S54 = Vec<u64>;
pub type S55 = Vec<u128>;
pub type S56 = Vec<usize>;
pub type S57 = Vec<i8>;
pub type S58 = Vec<i16>;
pub type S59 = Vec<i32>;
pub type S60 = Vec<i64>;
pub type S61 = Vec<f32>;
pub type S62 = Vec<f64>;
pub type S63 = Vec<bool>;
pub type S64 = Vec<char>;
pub type S65 = Vec<NonZeroU16>;
pub type S66 = Vec<NonZeroI64>;
pub type S67 = Vec<Wrapping<u16>>;
pub type S68 = Vec<(u8, u32)>;
pub type S69 = Vec<String>;
pub type S70 = Vec<Vec<u16>>;
pub type S71 = Vec<[u32; 3]>;
pub type S72 = Vec<[[u8; 2]; 2]>;
pub type S73 = Vec<Box<u16>>;
pub type S74 = Vec<(bool, (char, u64))>;
pub type S75 = Vec<Range<u16>>;
pub type S76 = Vec<Packed<(u8, u32)>>;
pub type S77 = Vec<Option<u32>>;
pub type S78 = Option<u32>;
pub type S79 = Option<String>;
pub type S80 = Option<Vec<u8>>;
pub type S81 = (Option<u8>, Option<bool>);
pub type S82 = Option<Option<u16>>;
pub type S83 = [u8; 4];
pub type S84 = [u16; 3];
pub type S85 = [u64; 1];
pub type S86 = [i32; 33];
pub type S87 = [f32; 2];
pub type S88 = [u32; 0];
pub type S89 = [String; 2];
pub type S90 = [[u16; 2]; 3];
pub type S91 = [Vec<u8>; 2];
pub type S92 = [(u8, u16); 2];
pub type S93 = [u128; 2];
pub type S94 = VecDeque<u8>;
pub type S95 = VecDeque<u16>;
pub type S96 = VecDeque<u64>;
pub type S97 = VecDeque<bool>;
pub type S98 = VecDeque<String>;
pub type S99 = VecDeque<[u16; 2]>;
pub type S100 = BTreeSet<u32>;
pub type S101 = BTreeSet<String>;
pub type S102 = HashSet<String>;
pub type S103 = HashSet<i64>;
pub type S104 = BinaryHeap<u16>;
pub type S105 = BinaryHeap<String>;
pub type S106 = BTreeMap<String, u32>;
pub type S107 = BTreeMap<u32, Vec<u8>>;
pub type S108 = HashMap<i64, String>;
pub type S109 = BTreeMap<i8, BTreeMap<String, bool>>;
pub type S110 = HashMap<String, [u16; 2]>;
pub type S111 = BTreeMap<u128, ()>;
pub type S112 = BTreeMap<bool, u8>;
pub type S113 = BTreeMap<char, u16>;
pub type S114 = BTreeMap<(u8, u8), u8>;
pub type S115 = Result<u32, String>;
pub type S116 = Result<(), [u8; 2]>;
pub type S117 = Vec<Result<u8, bool>>;
pub type S118 = (u8,);
pub type S119 = (u32, bool);
pub type S120 = (u8, u64, String);
pub type S121 = (i8, i16, i32, i64);
pub type S122 = (f32, f64, char, bool, u128);
pub type S123 = (u8, u16, u32, u64, u128, (), [u8; 2], Vec<u8>);
pub type S124 = (u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
pub type S125 = Range<u32>;
pub type S126 = RangeInclusive<i64>;
pub type S127 = RangeFrom<char>;
pub type S128 = RangeTo<u8>;
pub type S129 = RangeToInclusive<f32>;
pub type S130 = RangeFull;
pub type S131 = Range<String>;
pub type S132 = Ipv4Addr;
pub type S133 = Ipv6Addr;
pub type S134 = IpAddr;
pub type S135 = SocketAddrV4;
pub type S136 = SocketAddrV6;
pub type S137 = SocketAddr;
pub type S138 = Vec<IpAddr>;
pub type S139 = Box<[u32]>;
pub type S140 = Box<[String]>;
pub type S141 = Box<u64>;
pub type S142 = Rc<String>;
pub type S143 = Arc<Vec<u16>>;
pub type S144 = Box<Box<[u16; 2]>>;
pub type S145 = Vec<Box<[u16; 2]>>;
pub type S146 = Wrapping<[u16; 2]>;
pub type S147 = (Box<[u32; 2]>, Wrapping<[u8; 3]>);
pub type S148 = Box<[u8; 5]>;
pub type S149 = Bytes<Vec<u8>>;
pub type S150 = Bytes<Box<[u8]>>;
pub type S151 = Bytes<VecDeque<u8>>;
pub type S152 = Bytes<[u8; 5]>;
pub type S153 = Bytes<[u8; 0]>;
pub type S154 = Sequence<()>;
pub type S155 = Packed<[u8; 3]>;
pub type S156 = Packed<[u32; 5]>;
pub type S157 = Packed<(u8, u32)>;
pub type S158 = Packed<(String, [u16; 2])>;
pub type S159 = Packed<[(u8, u64); 2]>;
pub type S160 = Packed<(Packed<(u8, u16)>, Vec<u32>)>;
pub static ENTRIES: &[Entry] = &[
    entry::<S0>("bool", "pjvd"),
    entry::<S1>("char", "pjvd"),
    entry::<S2>("u8", "pjvd"),
    entry::<S3>("u16", "pjvd"),
    entry::<S4>("u32", "pjvd"),
    entry::<S5>("u64", "pjvd"),
    entry::<S6>("u128", "pjvd"),
    entry::<S7>("usize", "pjvd"),
    entry::<S8>("i8", "pjvd"),
    entry::<S9>("i16", "pjvd"),
    entry::<S10>("i32", "pjvd"),
    entry::<S11>("i64", "pjvd"),
    entry::<S12>("i128", "pjvd"),
    entry::<S13>("isize", "pjvd"),
    entry::<S14>("f32", "pjvd"),
    entry::<S15>("f64", "pjvd"),
    entry::<S16>("NonZeroU8", "pjvd"),
    entry::<S17>("NonZeroU16", "pjvd"),
    entry::<S18>("NonZeroU32", "pjvd"),
    entry::<S19>("NonZeroU64", "pjvd"),
    entry::<S20>("NonZeroU128", "pjvd"),
    entry::<S21>("NonZeroUsize", "pjvd"),
    entry::<S22>("NonZeroI8", "pjvd"),
    entry::<S23>("NonZeroI16", "pjvd"),
    entry::<S24>("NonZeroI32", "pjvd"),
    entry::<S25>("NonZeroI64", "pjvd"),
    entry::<S26>("NonZeroI128", "pjvd"),
    entry::<S27>("NonZeroIsize", "pjvd"),
    entry::<S28>("Wrapping<u8>", "pjvd"),
    entry::<S29>("Wrapping<i64>", "pjvd"),
    entry::<S30>("()", "pjvd"),
    entry::<S31>("PhantomData<String>", "pjvd"),
    entry::<S32>("String", "pjvd"),
    entry::<S33>("Box<str>", "pjvd"),
    entry::<S34>("CString", "pjvd"),
    entry::<S35>("Box<CStr>", "pjvd"),
    entry::<S36>("Rc<CStr>", "pjvd"),
    entry::<S37>("OsString", "pjvd"),
    entry::<S38>("PathBuf", "pjvd"),
    entry::<S39>("Box<OsStr>", "pjvd"),
    entry::<S40>("Rc<Path>", "pjvd"),
    entry::<S41>("Bound<0>", "pjvd"),
    entry::<S42>("Bound<1>", "pjvd"),
    entry::<S43>("Bound<2>", "pjvd"),
    entry::<S44>("Bound<3>", "pjvd"),
    entry::<S45>("Bound<4>", "pjvd"),
    entry::<S46>("Bound<5>", "pjvd"),
    entry::<S47>("Bound<6>", "pjvd"),
    entry::<S48>("Bound<7>", "pjvd"),
    entry::<S49>("Bound<8>", "pjvd"),
    entry::<S50>("Bound<9>", "pjvd"),
    entry::<S51>("Vec<u8>", "pjvd"),
    entry::<S52>("Vec<u16>", "pjvd"),
    entry::<S53>("Vec<u32>", "pjvd"),
    entry::<S54>("Vec<u64>", "pjvd"),
    entry::<S55>("Vec<u128>", "pjvd"),
    entry::<S56>("Vec<usize>", "pjvd"),
    entry::<S57>("Vec<i8>", "pjvd"),
    entry::<S58>("Vec<i16>", "pjvd"),
    entry::<S59>("Vec<i32>", "pjvd"),
    entry::<S60>("Vec<i64>", "pjvd"),
    entry::<S61>("Vec<f32>", "pjvd"),
    entry::<S62>("Vec<f64>", "pjvd"),
    entry::<S63>("Vec<bool>", "pjvd"),
    entry::<S64>("Vec<char>", "pjvd"),
    entry::<S65>("Vec<NonZeroU16>", "pjvd"),
    entry::<S66>("Vec<NonZeroI64>", "pjvd"),
    entry::<S67>("Vec<Wrapping<u16>>", "pjvd"),
    entry::<S68>("Vec<(u8, u32)>", "pjvd"),
    entry::<S69>("Vec<String>", "pjvd"),
    entry::<S70>("Vec<Vec<u16>>", "pjvd"),
    entry::<S71>("Vec<[u32; 3]>", "pjvd"),
    entry::<S72>("Vec<[[u8; 2]; 2]>", "pjvd"),
    entry::<S73>("Vec<Box<u16>>", "pjvd"),
    entry::<S74>("Vec<(bool, (char, u64))>", "pjvd"),
    entry::<S75>("Vec<Range<u16>>", "pjvd"),
    entry::<S76>("Vec<Packed<(u8, u32)>>", "pjvd"),
    entry::<S77>("Vec<Option<u32>>", "jvd"),
    entry::<S78>("Option<u32>", "jvd"),
    entry::<S79>("Option<String>", "jvd"),
    entry::<S80>("Option<Vec<u8>>", "jvd"),
    entry::<S81>("(Option<u8>, Option<bool>)", "jvd"),
    entry::<S82>("Option<Option<u16>>", "vd"),
    entry::<S83>("[u8; 4]", "pjvd"),
    entry::<S84>("[u16; 3]", "pjvd"),
    entry::<S85>("[u64; 1]", "pjvd"),
    entry::<S86>("[i32; 33]", "pjvd"),
    entry::<S87>("[f32; 2]", "pjvd"),
    entry::<S88>("[u32; 0]", "pjvd"),
    entry::<S89>("[String; 2]", "pjvd"),
    entry::<S90>("[[u16; 2]; 3]", "pjvd"),
    entry::<S91>("[Vec<u8>; 2]", "pjvd"),
    entry::<S92>("[(u8, u16); 2]", "pjvd"),
    entry::<S93>("[u128; 2]", "pjvd"),
    entry::<S94>("VecDeque<u8>", "pjvd"),
    entry::<S95>("VecDeque<u16>", "pjvd"),
    entry::<S96>("VecDeque<u64>", "pjvd"),
    entry::<S97>("VecDeque<bool>", "pjvd"),
    entry::<S98>("VecDeque<String>", "pjvd"),
    entry::<S99>("VecDeque<[u16; 2]>", "pjvd"),
    entry::<S100>("BTreeSet<u32>", "pjvd"),
    entry::<S101>("BTreeSet<String>", "pjvd"),
    entry::<S102>("HashSet<String>", "pjvd"),
    entry::<S103>("HashSet<i64>", "pjvd"),
    entry::<S104>("BinaryHeap<u16>", "pjvd"),
    entry::<S105>("BinaryHeap<String>", "pjvd"),
    entry::<S106>("BTreeMap<String, u32>", "pjvd"),
    entry::<S107>("BTreeMap<u32, Vec<u8>>", "pjvd"),
    entry::<S108>("HashMap<i64, String>", "pjvd"),
    entry::<S109>("BTreeMap<i8, BTreeMap<String, bool>>", "pjvd"),
    entry::<S110>("HashMap<String, [u16; 2]>", "pjvd"),
    entry::<S111>("BTreeMap<u128, ()>", "pjvd"),
    entry::<S112>("BTreeMap<bool, u8>", "pvd"),
    entry::<S113>("BTreeMap<char, u16>", "pvd"),
    entry::<S114>("BTreeMap<(u8, u8), u8>", "pvd"),
    entry::<S115>("Result<u32, String>", "pjvd"),
    entry::<S116>("Result<(), [u8; 2]>", "pjvd"),
    entry::<S117>("Vec<Result<u8, bool>>", "pjvd"),
    entry::<S118>("(u8,)", "pjvd"),
    entry::<S119>("(u32, bool)", "pjvd"),
    entry::<S120>("(u8, u64, String)", "pjvd"),
    entry::<S121>("(i8, i16, i32, i64)", "pjvd"),
    entry::<S122>("(f32, f64, char, bool, u128)", "pjvd"),
    entry::<S123>("(u8, u16, u32, u64, u128, (), [u8; 2], Vec<u8>)", "pjvd"),
    entry::<S124>("(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize)", "pjvd"),
    entry::<S125>("Range<u32>", "pjvd"),
    entry::<S126>("RangeInclusive<i64>", "pjvd"),
    entry::<S127>("RangeFrom<char>", "pjvd"),
    entry::<S128>("RangeTo<u8>", "pjvd"),
    entry::<S129>("RangeToInclusive<f32>", "pjvd"),
    entry::<S130>("RangeFull", "pjvd"),
    entry::<S131>("Range<String>", "pjvd"),
    entry::<S132>("Ipv4Addr", "pjvd"),
    entry::<S133>("Ipv6Addr", "pjvd"),
    entry::<S134>("IpAddr", "pjvd"),
    entry::<S135>("SocketAddrV4", "pjvd"),
    entry::<S136>("SocketAddrV6", "pjvd"),
    entry::<S137>("SocketAddr", "pjvd"),
    entry::<S138>("Vec<IpAddr>", "pjvd"),
    entry::<S139>("Box<[u32]>", "pjvd"),
    entry::<S140>("Box<[String]>", "pjvd"),
    entry::<S141>("Box<u64>", "pjvd"),
    entry::<S142>("Rc<String>", "pjvd"),
    entry::<S143>("Arc<Vec<u16>>", "pjvd"),
    entry::<S144>("Box<Box<[u16; 2]>>", "pjvd"),
    entry::<S145>("Vec<Box<[u16; 2]>>", "pjvd"),
    entry::<S146>("Wrapping<[u16; 2]>", "pjvd"),
    entry::<S147>("(Box<[u32; 2]>, Wrapping<[u8; 3]>)", "pjvd"),
    entry::<S148>("Box<[u8; 5]>", "pjvd"),
    entry::<S149>("Bytes<Vec<u8>>", "pjvd"),
    entry::<S150>("Bytes<Box<[u8]>>", "pjvd"),
    entry::<S151>("Bytes<VecDeque<u8>>", "pjvd"),
    entry::<S152>("Bytes<[u8; 5]>", "pjvd"),
    entry::<S153>("Bytes<[u8; 0]>", "pjvd"),
    entry::<S154>("Sequence<()>", "pjvd"),
    entry::<S155>("Packed<[u8; 3]>", "pjvd"),
    entry::<S156>("Packed<[u32; 5]>", "pjvd"),
    entry::<S157>("Packed<(u8, u32)>", "pjvd"),
    entry::<S158>("Packed<(String, [u16; 2])>", "pjvd"),
    entry::<S159>("Packed<[(u8, u64); 2]>", "pjvd"),
    entry::<S160>("Packed<(Packed<(u8, u16)>, Vec<u32>)>", "pjvd"),
];
/// Call a macro with every type.
#[macro_export]
macro_rules! each_std {
    ($m:ident) => {
        $m!(
            $crate::list::S0,
            $crate::list::S1,
            $crate::list::S2,
            $crate::list::S3,
            $crate::list::S4,
            $crate::list::S5,
            $crate::list::S6,
            $crate::list::S7,
            $crate::list::S8,
            $crate::list::S9,
            $crate::list::S10,
            $crate::list::S11,
            $crate::list::S12,
            $crate::list::S13,
            $crate::list::S14,
            $crate::list::S15,
            $crate::list::S16,
            $crate::list::S17,
            $crate::list::S18,
            $crate::list::S19,
            $crate::list::S20,
            $crate::list::S21,
            $crate::list::S22,
            $crate::list::S23,
            $crate::list::S24,
            $crate::list::S25,
            $crate::list::S26,
            $crate::list::S27,
            $crate::list::S28,
            $crate::list::S29,
            $crate::list::S30,
            $crate::list::S31,
            $crate::list::S32,
            $crate::list::S33,
            $crate::list::S34,
            $crate::list::S35,
            $crate::list::S36,
            $crate::list::S37,
            $crate::list::S38,
            $crate::list::S39,
            $crate::list::S40,
            $crate::list::S41,
            $crate::list::S42,
            $crate::list::S43,
            $crate::list::S44,
            $crate::list::S45,
            $crate::list::S46,
            $crate::list::S47,
            $crate::list::S48,
            $crate::list::S49,
            $crate::list::S50,
            $crate::list::S51,
            $crate::list::S52,
            $crate::list::S53,
            $crate::list::S54,
            $crate::list::S55,
            $crate::list::S56,
            $crate::list::S57,
            $crate::list::S58,
            $crate::list::S59,
            $crate::list::S60,
            $crate::list::S61,
            $crate::list::S62,
            $crate::list::S63,
            $crate::list::S64,
            $crate::list::S65,
            $crate::list::S66,
            $crate::list::S67,
            $crate::list::S68,
            $crate::list::S69,
            $crate::list::S70,
            $crate::list::S71,
            $crate::list::S72,
            $crate::list::S73,
            $crate::list::S74,
            $crate::list::S75,
            $crate::list::S76,
            $crate::list::S77,
            $crate::list::S78,
            $crate::list::S79,
            $crate::list::S80,
            $crate::list::S81,
            $crate::list::S82,
            $crate::list::S83,
            $crate::list::S84,
            $crate::list::S85,
            $crate::list::S86,
            $crate::list::S87,
            $crate::list::S88,
            $crate::list::S89,
            $crate::list::S90,
            $crate::list::S91,
            $crate::list::S92,
            $crate::list::S93,
            $crate::list::S94,
            $crate::list::S95,
            $crate::list::S96,
            $crate::list::S97,
            $crate::list::S98,
            $crate::list::S99,
            $crate::list::S100,
            $crate::list::S101,
            $crate::list::S102,
            $crate::list::S103,
            $crate::list::S104,
            $crate::list::S105,
            $crate::list::S106,
            $crate::list::S107,
            $crate::list::S108,
            $crate::list::S109,
            $crate::list::S110,
            $crate::list::S111,
            $crate::list::S112,
            $crate::list::S113,
            $crate::list::S114,
            $crate::list::S115,
            $crate::list::S116,
            $crate::list::S117,
            $crate::list::S118,
            $crate::list::S119,
            $crate::list::S120,
            $crate::list::S121,
            $crate::list::S122,
            $crate::list::S123,
            $crate::list::S124,
            $crate::list::S125,
            $crate::list::S126,
            $crate::list::S127,
            $crate::list::S128,
            $crate::list::S129,
            $crate::list::S130,
            $crate::list::S131,
            $crate::list::S132,
            $crate::list::S133,
            $crate::list::S134,
            $crate::list::S135,
            $crate::list::S136,
            $crate::list::S137,
            $crate::list::S138,
            $crate::list::S139,
            $crate::list::S140,
            $crate::list::S141,
            $crate::list::S142,
            $crate::list::S143,
            $crate::list::S144,
            $crate::list::S145,
            $crate::list::S146,
            $crate::list::S147,
            $crate::list::S148,
            $crate::list::S149,
            $crate::list::S150,
            $crate::list::S151,
            $crate::list::S152,
            $crate::list::S153,
            $crate::list::S154,
            $crate::list::S155,
            $crate::list::S156,
            $crate::list::S157,
            $crate::list::S158,
            $crate::list::S159,
            $crate::list::S160,
        )
    };
}
