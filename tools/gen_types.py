#!/usr/bin/env python3
# Writes harness/st/src/list.rs: the standard types, and the formats they are for
# (p packed, j JSON, v value, d descriptive; wire and storage take all of them).
import os
here = os.path.dirname(os.path.abspath(__file__))
A = 'pjvd'
T = []
def t(*names, flags=A):
    for n in names: T.append((n, flags))
t('bool','char','u8','u16','u32','u64','u128','usize','i8','i16','i32','i64','i128','isize','f32','f64')
t(*['NonZero'+k for k in 'U8 U16 U32 U64 U128 Usize I8 I16 I32 I64 I128 Isize'.split()])
t('Wrapping<u8>','Wrapping<i64>','()','PhantomData<String>')
t('String','Box<str>','CString','Box<CStr>','Rc<CStr>')
t('OsString','PathBuf','Box<OsStr>','Rc<Path>')
t(*[f'Bound<{i}>' for i in range(10)])
t('Vec<u8>','Vec<u16>','Vec<u32>','Vec<u64>','Vec<u128>','Vec<usize>','Vec<i8>','Vec<i16>','Vec<i32>','Vec<i64>','Vec<f32>','Vec<f64>',
  'Vec<bool>','Vec<char>','Vec<NonZeroU16>','Vec<NonZeroI64>','Vec<Wrapping<u16>>','Vec<(u8, u32)>','Vec<String>','Vec<Vec<u16>>','Vec<[u32; 3]>','Vec<[[u8; 2]; 2]>',
  'Vec<Box<u16>>','Vec<(bool, (char, u64))>','Vec<Range<u16>>','Vec<Packed<(u8, u32)>>')
t('Vec<Option<u32>>','Option<u32>','Option<String>','Option<Vec<u8>>','(Option<u8>, Option<bool>)', flags='jvd')
t('Option<Option<u16>>', flags='vd')
t('[u8; 4]','[u16; 3]','[u64; 1]','[i32; 33]','[f32; 2]','[u32; 0]','[String; 2]','[[u16; 2]; 3]','[Vec<u8>; 2]','[(u8, u16); 2]','[u128; 2]')
t('VecDeque<u8>','VecDeque<u16>','VecDeque<u64>','VecDeque<bool>','VecDeque<String>','VecDeque<[u16; 2]>')
t('BTreeSet<u32>','BTreeSet<String>','HashSet<String>','HashSet<i64>','BinaryHeap<u16>','BinaryHeap<String>')
t('BTreeMap<String, u32>','BTreeMap<u32, Vec<u8>>','HashMap<i64, String>','BTreeMap<i8, BTreeMap<String, bool>>','HashMap<String, [u16; 2]>','BTreeMap<u128, ()>')
t('BTreeMap<bool, u8>','BTreeMap<char, u16>', 'BTreeMap<(u8, u8), u8>', flags='pvd')
t('Result<u32, String>','Result<(), [u8; 2]>','Vec<Result<u8, bool>>')
t('(u8,)','(u32, bool)','(u8, u64, String)','(i8, i16, i32, i64)','(f32, f64, char, bool, u128)','(u8, u16, u32, u64, u128, (), [u8; 2], Vec<u8>)',
  '(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize)')
t('Range<u32>','RangeInclusive<i64>','RangeFrom<char>','RangeTo<u8>','RangeToInclusive<f32>','RangeFull','Range<String>')
t('Ipv4Addr','Ipv6Addr','IpAddr','SocketAddrV4','SocketAddrV6','SocketAddr','Vec<IpAddr>')
t('Box<[u32]>','Box<[String]>','Box<u64>','Rc<String>','Arc<Vec<u16>>','Box<Box<[u16; 2]>>','Vec<Box<[u16; 2]>>','Wrapping<[u16; 2]>','(Box<[u32; 2]>, Wrapping<[u8; 3]>)','Box<[u8; 5]>')
t('Bytes<Vec<u8>>','Bytes<Box<[u8]>>','Bytes<VecDeque<u8>>','Bytes<[u8; 5]>','Bytes<[u8; 0]>','Sequence<()>')
t('Packed<[u8; 3]>','Packed<[u32; 5]>','Packed<(u8, u32)>','Packed<(String, [u16; 2])>','Packed<[(u8, u64); 2]>','Packed<(Packed<(u8, u16)>, Vec<u32>)>')
seen=set()
for n,_ in T:
    assert n not in seen, n
    seen.add(n)
with open(os.path.join(here,'../harness/st/src/list.rs'),'w') as f:
    w=lambda s: f.write(s+'\n')
    w('// Written by tools/gen_types.py.')
    w('#![allow(unused_imports)]')
    for l in ['std::borrow::Cow','std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, VecDeque}','std::ffi::{CStr, CString, OsStr, OsString}',
        'std::marker::PhantomData','std::net::*','std::num::*','std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive}',
        'std::path::{Path, PathBuf}','std::rc::Rc','std::sync::Arc','musli::compat::{Bytes, Packed, Sequence}','crate::{entry, Bound, Entry}']:
        w(f'use {l};')
    for i,(n,_) in enumerate(T): w(f'pub type S{i} = {n};')
    w('pub static ENTRIES: &[Entry] = &[')
    for i,(n,fl) in enumerate(T): w(f'    entry::<S{i}>("{n}", "{fl}"),')
    w('];')
    w('/// Call a macro with every type.')
    w('#[macro_export]')
    w('macro_rules! each_std {')
    w('    ($m:ident) => {')
    w('        $m!(')
    for i in range(len(T)): w(f'            $crate::list::S{i},')
    w('        )')
    w('    };')
    w('}')
print(len(T))
