//! An independent implementation of the documented binary layouts.
use crate::dynv::{Elem, Int, Num, Ty, Val};
use crate::fmts::{Kind, Opts};

pub struct Enc {
    pub o: Opts,
    pub out: Vec<u8>,
}

/// The bytes which represent `v`, or `None` if a length or pointer sized
/// number does not fit the selected width.
pub fn encode(kind: Kind, o: Opts, v: &Val) -> Option<Vec<u8>> {
    let mut e = Enc { o, out: Vec::new() };
    match kind {
        Kind::Packed => e.storage(v, true)?,
        Kind::Storage => e.storage(v, false)?,
        Kind::Wire => e.wire(v)?,
        Kind::Descriptive => e.desc(v)?,
        _ => return None,
    }
    Some(e.out)
}

pub fn zigzag(v: i128) -> u128 {
    if v >= 0 {
        (v as u128) * 2
    } else {
        // -1 -> 1, -2 -> 3
        (-(v + 1)) as u128 * 2 + 1
    }
}

pub fn unzigzag(v: u128) -> i128 {
    if v % 2 == 0 {
        (v / 2) as i128
    } else {
        -((v / 2) as i128) - 1
    }
}

/// Elements of a slice are numbers like any other.
pub fn elem_val(e: Elem, v: u128) -> Val {
    match e {
        Elem::U8 => Val::Int(Int::U8, Num::U(v)),
        Elem::U16 => Val::Int(Int::U16, Num::U(v)),
        Elem::U32 => Val::Int(Int::U32, Num::U(v)),
        Elem::U64 => Val::Int(Int::U64, Num::U(v)),
        Elem::I32 => Val::Int(Int::I32, Num::I(v as u32 as i32 as i128)),
        Elem::I64 => Val::Int(Int::I64, Num::I(v as u64 as i64 as i128)),
        Elem::F32 => Val::F32(v as u32),
        Elem::Bool => Val::Bool(v != 0),
        Elem::U128 => Val::Int(Int::U128, Num::U(v)),
    }
}

impl Enc {
    fn groups(&mut self, mut v: u128) {
        loop {
            let b = (v % 128) as u8;
            v /= 128;
            if v == 0 {
                self.out.push(b);
                return;
            }
            self.out.push(b | 0x80);
        }
    }

    fn bytes_of(&mut self, v: u128, n: usize) {
        for i in 0..n {
            let at = if self.o.big { n - 1 - i } else { i };
            self.out.push((v >> (8 * at)) as u8);
        }
    }

    fn unsigned(&mut self, v: u128, bits: u32) {
        if self.o.fixed {
            self.bytes_of(v, bits as usize / 8)
        } else {
            self.groups(v)
        }
    }

    fn signed(&mut self, v: i128, bits: u32) {
        if self.o.fixed {
            self.bytes_of(v as u128, bits as usize / 8)
        } else {
            self.groups(zigzag(v))
        }
    }

    /// A length or pointer sized number.
    fn len(&mut self, v: u128) -> Option<()> {
        match self.o.ptr {
            0 => self.groups(v),
            n => {
                if n < 16 && v >> (8 * n as u32) != 0 {
                    return None;
                }
                self.bytes_of(v, n as usize)
            }
        }
        Some(())
    }

    // ------------------------------------------------- storage and packed

    fn storage(&mut self, v: &Val, pack: bool) -> Option<()> {
        match v {
            Val::Unit => self.len(0)?,
            Val::Bool(b) => self.out.push(*b as u8),
            Val::Char(c) => self.unsigned(*c as u128, 32),
            Val::Int(Int::U8, n) => self.out.push(n.u() as u8),
            Val::Int(Int::I8, n) => self.out.push(n.i() as i8 as u8),
            Val::Int(Int::Usize, n) => self.len(n.u())?,
            Val::Int(Int::Isize, n) => self.len(n.i() as u64 as u128)?,
            Val::Int(t, n) if t.signed() => self.signed(n.i(), t.bits()),
            Val::Int(t, n) => self.unsigned(n.u(), t.bits()),
            Val::F32(b) => self.unsigned(*b as u128, 32),
            Val::F64(b) => self.unsigned(*b as u128, 64),
            Val::Str(s) => {
                self.len(s.len() as u128)?;
                self.out.extend(s.as_bytes());
            }
            Val::Bytes(b) => {
                self.len(b.len() as u128)?;
                self.out.extend(b);
            }
            Val::Arr(b) => self.out.extend(b),
            Val::None => {
                if !pack {
                    self.out.push(0)
                }
            }
            Val::Some(v) => {
                if !pack {
                    self.out.push(1)
                }
                self.storage(v, pack)?
            }
            Val::Seq(v) | Val::Tuple(v) => {
                self.len(v.len() as u128)?;
                for v in v {
                    self.storage(v, pack)?
                }
            }
            Val::Pack(v) => {
                for v in v {
                    self.storage(v, true)?
                }
            }
            Val::Slice(e, v) => {
                self.len(v.len() as u128)?;
                for v in v {
                    self.storage(&elem_val(*e, *v), pack)?
                }
            }
            Val::Map(v) | Val::Struct(v) => {
                self.len(v.len() as u128)?;
                for (k, v) in v {
                    self.storage(k, pack)?;
                    self.storage(v, pack)?
                }
            }
            Val::Unitv(t) => {
                self.storage(t, pack)?;
                self.len(0)?
            }
            Val::Datav(t, v) => {
                self.storage(t, pack)?;
                self.storage(v, pack)?
            }
            Val::Seqv(t, v) => {
                self.storage(t, pack)?;
                self.len(v.len() as u128)?;
                for v in v {
                    self.storage(v, pack)?
                }
            }
            Val::Mapv(t, v) => {
                self.storage(t, pack)?;
                self.len(v.len() as u128)?;
                for (k, v) in v {
                    self.storage(k, pack)?;
                    self.storage(v, pack)?
                }
            }
            Val::Raw(parts, plain) => {
                if self.o.fixed && !self.o.big && self.o.ptr == 8 {
                    for v in parts {
                        self.storage(v, pack)?
                    }
                } else {
                    self.storage(plain, pack)?
                }
            }
            Val::Absent => return None,
        }
        Some(())
    }

    // ------------------------------------------------------------- wire

    fn wtag(&mut self, kind: u8, n: u128) -> Option<()> {
        if n < 63 {
            self.out.push(kind << 6 | n as u8);
        } else {
            self.out.push(kind << 6 | 63);
            self.len(n)?;
        }
        Some(())
    }

    fn wint(&mut self, v: u128, bits: u32) {
        if self.o.fixed {
            self.out.push(WPREFIX << 6 | (bits / 8) as u8);
            self.bytes_of(v, bits as usize / 8)
        } else {
            self.wvar(v)
        }
    }

    fn wvar(&mut self, v: u128) {
        if v < 63 {
            self.out.push(WCONT << 6 | v as u8)
        } else {
            self.out.push(WCONT << 6 | 63);
            self.groups(v)
        }
    }

    fn wsize(&mut self, v: u128) -> Option<()> {
        match self.o.ptr {
            0 => self.wvar(v),
            n => {
                self.out.push(WPREFIX << 6 | n);
                self.len(v)?
            }
        }
        Some(())
    }

    fn wire(&mut self, v: &Val) -> Option<()> {
        match v {
            Val::Unit | Val::None => self.wtag(WSEQ, 0)?,
            Val::Bool(b) => self.out.push(WCONT << 6 | *b as u8),
            Val::Char(c) => self.wint(*c as u128, 32),
            Val::Int(Int::I8, n) => self.wint(n.i() as i8 as u8 as u128, 8),
            Val::Int(Int::Usize, n) => self.wsize(n.u())?,
            Val::Int(Int::Isize, n) => self.wsize(n.i() as u64 as u128)?,
            Val::Int(t, n) if t.signed() => self.wint(zigzag(n.i()), t.bits()),
            Val::Int(t, n) => self.wint(n.u(), t.bits()),
            Val::F32(b) => self.wint(*b as u128, 32),
            Val::F64(b) => self.wint(*b as u128, 64),
            Val::Str(s) => {
                self.wtag(WPREFIX, s.len() as u128)?;
                self.out.extend(s.as_bytes());
            }
            Val::Bytes(b) | Val::Arr(b) => {
                self.wtag(WPREFIX, b.len() as u128)?;
                self.out.extend(b);
            }
            Val::Some(v) => {
                self.wtag(WSEQ, 1)?;
                self.wire(v)?
            }
            Val::Seq(v) | Val::Tuple(v) => {
                self.wtag(WSEQ, v.len() as u128)?;
                for v in v {
                    self.wire(v)?
                }
            }
            Val::Pack(_) => {
                let b = self.packed(v)?;
                self.wtag(WPREFIX, b.len() as u128)?;
                self.out.extend(b);
            }
            Val::Slice(e, v) => {
                self.wtag(WSEQ, v.len() as u128)?;
                for v in v {
                    self.wire(&elem_val(*e, *v))?
                }
            }
            Val::Map(v) | Val::Struct(v) => {
                self.wtag(WSEQ, v.len() as u128 * 2)?;
                for (k, v) in v {
                    self.wire(k)?;
                    self.wire(v)?
                }
            }
            Val::Unitv(t) => {
                self.wtag(WSEQ, 2)?;
                self.wire(t)?;
                self.wtag(WSEQ, 0)?
            }
            Val::Datav(t, v) => {
                self.wtag(WSEQ, 2)?;
                self.wire(t)?;
                self.wire(v)?
            }
            Val::Seqv(t, v) => {
                self.wtag(WSEQ, 2)?;
                self.wire(t)?;
                self.wtag(WSEQ, v.len() as u128)?;
                for v in v {
                    self.wire(v)?
                }
            }
            Val::Mapv(t, v) => {
                self.wtag(WSEQ, 2)?;
                self.wire(t)?;
                self.wtag(WSEQ, v.len() as u128 * 2)?;
                for (k, v) in v {
                    self.wire(k)?;
                    self.wire(v)?
                }
            }
            Val::Raw(_, v) => self.wire(v)?,
            Val::Absent => return None,
        }
        Some(())
    }

    fn packed(&mut self, v: &Val) -> Option<Vec<u8>> {
        let mut e = Enc { o: self.o, out: Vec::new() };
        e.storage(v, true)?;
        Some(e.out)
    }

    // ------------------------------------------------------ descriptive

    fn dtag(&mut self, kind: u8, n: u128) -> Option<()> {
        if n < 31 {
            self.out.push(kind << 5 | n as u8);
        } else {
            self.out.push(kind << 5 | 31);
            self.len(n)?;
        }
        Some(())
    }

    fn dmark(&mut self, m: u8) {
        self.out.push(0b111 << 5 | m)
    }

    fn dnum(&mut self, kind: u8, bits: u32, v: u128) {
        self.out.push(DNUM << 5 | (bits.trailing_zeros() as u8) << 2 | kind);
        self.groups(v)
    }

    fn desc(&mut self, v: &Val) -> Option<()> {
        match v {
            Val::Unit => self.dmark(0b110),
            Val::None => self.dmark(0b000),
            Val::Some(v) => {
                self.dmark(0b001);
                self.desc(v)?
            }
            Val::Bool(b) => self.dmark(if *b { 0b010 } else { 0b011 }),
            Val::Char(c) => {
                self.dmark(0b101);
                self.groups(*c as u128)
            }
            Val::Int(t, n) if t.signed() => self.dnum(0, t.bits(), zigzag(n.i())),
            Val::Int(t, n) => self.dnum(1, t.bits(), n.u()),
            Val::F32(b) => self.dnum(2, 32, *b as u128),
            Val::F64(b) => self.dnum(2, 64, *b as u128),
            Val::Str(s) => {
                self.dtag(DSTR, s.len() as u128)?;
                self.out.extend(s.as_bytes());
            }
            Val::Bytes(b) | Val::Arr(b) => {
                self.dtag(DBYTES, b.len() as u128)?;
                self.out.extend(b);
            }
            Val::Seq(v) | Val::Tuple(v) => {
                self.dtag(DSEQ, v.len() as u128)?;
                for v in v {
                    self.desc(v)?
                }
            }
            Val::Pack(_) => {
                let b = self.packed(v)?;
                self.dtag(DBYTES, b.len() as u128)?;
                self.out.extend(b);
            }
            Val::Slice(e, v) => {
                self.dtag(DSEQ, v.len() as u128)?;
                for v in v {
                    self.desc(&elem_val(*e, *v))?
                }
            }
            Val::Map(v) | Val::Struct(v) => {
                self.dtag(DMAP, v.len() as u128)?;
                for (k, v) in v {
                    self.desc(k)?;
                    self.desc(v)?
                }
            }
            Val::Unitv(t) => {
                self.dmark(0b100);
                self.desc(t)?;
                self.dmark(0b110)
            }
            Val::Datav(t, v) => {
                self.dmark(0b100);
                self.desc(t)?;
                self.desc(v)?
            }
            Val::Seqv(t, v) => {
                self.dmark(0b100);
                self.desc(t)?;
                self.dtag(DSEQ, v.len() as u128)?;
                for v in v {
                    self.desc(v)?
                }
            }
            Val::Mapv(t, v) => {
                self.dmark(0b100);
                self.desc(t)?;
                self.dtag(DMAP, v.len() as u128)?;
                for (k, v) in v {
                    self.desc(k)?;
                    self.desc(v)?
                }
            }
            Val::Raw(_, v) => self.desc(v)?,
            Val::Absent => return None,
        }
        Some(())
    }
}

const WPREFIX: u8 = 0b01;
const WSEQ: u8 = 0b10;
const WCONT: u8 = 0b11;

const DNUM: u8 = 0b010;
const DSEQ: u8 = 0b011;
const DMAP: u8 = 0b100;
const DBYTES: u8 = 0b101;
const DSTR: u8 = 0b110;

// ---------------------------------------------------------------- decoding

/// An independent decoder. Errors carry no detail.
pub struct Dec<'a> {
    pub o: Opts,
    pub b: &'a [u8],
    pub at: usize,
}

type D<T> = Option<T>;

/// Decode `ty` from the front of `b`, giving the value and how much of `b` was
/// used. Covers every shape except those with named fields and variants.
pub fn decode(kind: Kind, o: Opts, ty: &Ty, b: &[u8]) -> D<(Val, usize)> {
    let mut d = Dec { o, b, at: 0 };
    let v = match kind {
        Kind::Packed => d.storage(ty, true)?,
        Kind::Storage => d.storage(ty, false)?,
        Kind::Wire => d.wire(ty)?,
        Kind::Descriptive => d.desc(ty)?,
        _ => return None,
    };
    Some((v, d.at))
}

/// Can `decode` decide the shape?
pub fn decodable(ty: &Ty) -> bool {
    match ty {
        Ty::Opt(t) | Ty::Seq(t) => decodable(t),
        Ty::Tuple(t) | Ty::Pack(t) => t.iter().all(decodable),
        Ty::Map(k, v) => decodable(k) && decodable(v),
        Ty::Struct(_) | Ty::Enum(_) | Ty::Skip | Ty::First(..) => false,
        _ => true,
    }
}

fn elem_ty(e: Elem) -> Ty {
    match e {
        Elem::U8 => Ty::Int(Int::U8),
        Elem::U16 => Ty::Int(Int::U16),
        Elem::U32 => Ty::Int(Int::U32),
        Elem::U64 => Ty::Int(Int::U64),
        Elem::I32 => Ty::Int(Int::I32),
        Elem::I64 => Ty::Int(Int::I64),
        Elem::F32 => Ty::F32,
        Elem::Bool => Ty::Bool,
        Elem::U128 => Ty::Int(Int::U128),
    }
}

fn elem_of(v: Val) -> u128 {
    match v {
        Val::Int(t, n) => n.u() & if t.bits() == 128 { u128::MAX } else { (1 << t.bits()) - 1 },
        Val::F32(b) => b as u128,
        Val::Bool(b) => b as u128,
        _ => unreachable!(),
    }
}

impl<'a> Dec<'a> {
    fn byte(&mut self) -> D<u8> {
        let b = *self.b.get(self.at)?;
        self.at += 1;
        Some(b)
    }

    fn take(&mut self, n: u128) -> D<&'a [u8]> {
        if n > (self.b.len() - self.at) as u128 {
            return None;
        }
        let b = &self.b[self.at..self.at + n as usize];
        self.at += n as usize;
        Some(b)
    }

    fn groups(&mut self, bits: u32) -> D<u128> {
        let mut v = 0u128;
        let mut shift = 0;
        loop {
            if shift >= bits {
                return None;
            }
            let b = self.byte()?;
            let part = (b & 127) as u128;
            if shift + 7 > bits && part >> (bits - shift) != 0 {
                return None;
            }
            v |= part << shift;
            if b < 128 {
                return Some(v);
            }
            shift += 7;
        }
    }

    fn bytes_of(&mut self, n: usize) -> D<u128> {
        let b = self.take(n as u128)?;
        let mut v = 0;
        for i in 0..n {
            v = v << 8 | b[if self.o.big { i } else { n - 1 - i }] as u128;
        }
        Some(v)
    }

    fn unsigned(&mut self, bits: u32) -> D<u128> {
        if self.o.fixed {
            self.bytes_of(bits as usize / 8)
        } else {
            self.groups(bits)
        }
    }

    fn len(&mut self) -> D<u128> {
        match self.o.ptr {
            0 => self.groups(64),
            n => self.bytes_of(n as usize),
        }
    }

    fn utf8(b: &[u8]) -> D<Val> {
        Some(Val::Str(std::str::from_utf8(b).ok()?.to_string()))
    }

    fn sign(v: u128, bits: u32) -> i128 {
        let sh = 128 - bits;
        ((v << sh) as i128) >> sh
    }

    fn chr(v: u128) -> D<Val> {
        Some(Val::Char(char::from_u32(v as u32)?))
    }

    fn storage(&mut self, ty: &Ty, pack: bool) -> D<Val> {
        Some(match ty {
            Ty::Unit => {
                if self.len()? != 0 {
                    return None;
                }
                Val::Unit
            }
            Ty::Bool => match self.byte()? {
                0 => Val::Bool(false),
                1 => Val::Bool(true),
                _ => return None,
            },
            Ty::Char => Self::chr(self.unsigned(32)?)?,
            Ty::Int(Int::U8) => Val::Int(Int::U8, Num::U(self.byte()? as u128)),
            Ty::Int(Int::I8) => Val::Int(Int::I8, Num::I(self.byte()? as i8 as i128)),
            Ty::Int(Int::Usize) => Val::Int(Int::Usize, Num::U(self.len()?)),
            Ty::Int(Int::Isize) => Val::Int(Int::Isize, Num::I(self.len()? as u64 as i64 as i128)),
            Ty::Int(t) if t.signed() => {
                let v = self.unsigned(t.bits())?;
                Val::Int(*t, Num::I(if self.o.fixed { Self::sign(v, t.bits()) } else { unzigzag(v) }))
            }
            Ty::Int(t) => Val::Int(*t, Num::U(self.unsigned(t.bits())?)),
            Ty::F32 => Val::F32(self.unsigned(32)? as u32),
            Ty::F64 => Val::F64(self.unsigned(64)? as u64),
            Ty::Str => {
                let n = self.len()?;
                Self::utf8(self.take(n)?)?
            }
            Ty::Bytes => {
                let n = self.len()?;
                Val::Bytes(self.take(n)?.to_vec())
            }
            Ty::Arr(n) => Val::Arr(self.take(*n as u128)?.to_vec()),
            // Any byte but 1 is taken to be the absence of a value.
            Ty::Opt(t) => match self.byte()? {
                1 => Val::Some(Box::new(self.storage(t, pack)?)),
                _ => Val::None,
            },
            Ty::Seq(t) => {
                let n = self.len()?;
                Val::Seq(self.many(n, |d| d.storage(t, pack))?)
            }
            Ty::Tuple(ts) => {
                if self.len()? != ts.len() as u128 {
                    return None;
                }
                Val::Tuple(ts.iter().map(|t| self.storage(t, pack)).collect::<D<_>>()?)
            }
            Ty::Pack(ts) => Val::Pack(ts.iter().map(|t| self.storage(t, true)).collect::<D<_>>()?),
            Ty::Slice(e) => {
                let n = self.len()?;
                let t = elem_ty(*e);
                Val::Slice(*e, self.many(n, |d| d.storage(&t, pack))?.into_iter().map(elem_of).collect())
            }
            Ty::Map(k, v) => {
                let n = self.len()?;
                Val::Map(self.many(n, |d| Some((d.storage(k, pack)?, d.storage(v, pack)?)))?)
            }
            _ => return None,
        })
    }

    fn many<T>(&mut self, n: u128, mut f: impl FnMut(&mut Self) -> D<T>) -> D<Vec<T>> {
        let mut out = Vec::new();
        for _ in 0..n {
            // Elements without a width can be announced in any number.
            if out.len() > 1 << 16 {
                return None;
            }
            out.push(f(self)?);
        }
        Some(out)
    }

    fn wtag(&mut self, kind: u8) -> D<u128> {
        let b = self.byte()?;
        if b >> 6 != kind {
            return None;
        }
        match b & 63 {
            63 => self.len(),
            n => Some(n as u128),
        }
    }

    fn wvar(&mut self, bits: u32) -> D<u128> {
        let b = self.byte()?;
        if b >> 6 != WCONT {
            return None;
        }
        match b & 63 {
            63 => self.groups(bits),
            n => Some(n as u128),
        }
    }

    fn wint(&mut self, bits: u32) -> D<u128> {
        if self.o.fixed {
            if self.byte()? != WPREFIX << 6 | (bits / 8) as u8 {
                return None;
            }
            self.bytes_of(bits as usize / 8)
        } else {
            self.wvar(bits)
        }
    }

    fn wsize(&mut self) -> D<u128> {
        match self.o.ptr {
            0 => self.wvar(64),
            n => {
                if self.byte()? != WPREFIX << 6 | n {
                    return None;
                }
                self.len()
            }
        }
    }

    fn wire(&mut self, ty: &Ty) -> D<Val> {
        Some(match ty {
            // Anything may have become a unit.
            Ty::Unit => {
                self.wskip()?;
                Val::Unit
            }
            Ty::Skip => {
                self.wskip()?;
                Val::Absent
            }
            Ty::Bool => match self.byte()? {
                0b11_000000 => Val::Bool(false),
                0b11_000001 => Val::Bool(true),
                _ => return None,
            },
            Ty::Char => Self::chr(self.wint(32)?)?,
            Ty::Int(Int::I8) => Val::Int(Int::I8, Num::I(self.wint(8)? as u8 as i8 as i128)),
            Ty::Int(Int::Usize) => Val::Int(Int::Usize, Num::U(self.wsize()?)),
            Ty::Int(Int::Isize) => Val::Int(Int::Isize, Num::I(self.wsize()? as u64 as i64 as i128)),
            Ty::Int(t) if t.signed() => Val::Int(*t, Num::I(unzigzag(self.wint(t.bits())?))),
            Ty::Int(t) => Val::Int(*t, Num::U(self.wint(t.bits())?)),
            Ty::F32 => Val::F32(self.wint(32)? as u32),
            Ty::F64 => Val::F64(self.wint(64)? as u64),
            Ty::Str => {
                let n = self.wtag(WPREFIX)?;
                Self::utf8(self.take(n)?)?
            }
            Ty::Bytes => {
                let n = self.wtag(WPREFIX)?;
                Val::Bytes(self.take(n)?.to_vec())
            }
            Ty::Arr(n) => {
                if self.wtag(WPREFIX)? != *n as u128 {
                    return None;
                }
                Val::Arr(self.take(*n as u128)?.to_vec())
            }
            Ty::Opt(t) => match self.byte()? {
                0b10_000000 => Val::None,
                0b10_000001 => Val::Some(Box::new(self.wire(t)?)),
                _ => return None,
            },
            Ty::Seq(t) => {
                let n = self.wtag(WSEQ)?;
                Val::Seq(self.many(n, |d| d.wire(t))?)
            }
            Ty::Tuple(ts) => {
                if self.wtag(WSEQ)? != ts.len() as u128 {
                    return None;
                }
                Val::Tuple(ts.iter().map(|t| self.wire(t)).collect::<D<_>>()?)
            }
            Ty::Pack(ts) => {
                let n = self.wtag(WPREFIX)?;
                Val::Pack(self.packed(n, ts)?)
            }
            Ty::Slice(e) => {
                let n = self.wtag(WSEQ)?;
                let t = elem_ty(*e);
                Val::Slice(*e, self.many(n, |d| d.wire(&t))?.into_iter().map(elem_of).collect())
            }
            Ty::Map(k, v) => {
                let n = self.wtag(WSEQ)?;
                Val::Map(self.many(n / 2, |d| Some((d.wire(k)?, d.wire(v)?)))?)
            }
            _ => return None,
        })
    }

    fn wskip(&mut self) -> D<()> {
        let mut n = 1u128;
        while n > 0 {
            n -= 1;
            let b = self.byte()?;
            match (b >> 6, b & 63) {
                (WPREFIX, 63) => {
                    let n = self.len()?;
                    self.take(n)?;
                }
                (WPREFIX, n) => {
                    self.take(n as u128)?;
                }
                (WSEQ, 63) => n = n.checked_add(self.len()?)?,
                (WSEQ, m) => n += m as u128,
                (WCONT, 63) => {
                    self.groups(128)?;
                }
                (WCONT, _) => {}
                _ => return None,
            }
        }
        Some(())
    }

    fn dskip(&mut self) -> D<()> {
        let mut n = 1u128;
        while n > 0 {
            n -= 1;
            let b = self.byte()?;
            match b >> 5 {
                DNUM => {
                    self.groups(128)?;
                }
                k @ (DBYTES | DSTR | DSEQ | DMAP) => {
                    let len = match b & 31 {
                        31 => self.len()?,
                        n => n as u128,
                    };
                    match k {
                        DSEQ => n = n.checked_add(len)?,
                        DMAP => n = n.checked_add(len)?.checked_add(len)?,
                        _ => {
                            self.take(len)?;
                        }
                    }
                }
                0b111 => match b & 7 {
                    0b001 => n += 1,
                    0b100 => n += 2,
                    0b101 => {
                        self.groups(32)?;
                    }
                    _ => {}
                },
                _ => return None,
            }
        }
        Some(())
    }

    fn packed(&mut self, n: u128, ts: &[Ty]) -> D<Vec<Val>> {
        let b = self.take(n)?;
        let mut d = Dec { o: self.o, b, at: 0 };
        ts.iter().map(|t| d.storage(t, true)).collect()
    }

    fn dtag(&mut self, kind: u8) -> D<u128> {
        let b = self.byte()?;
        if b >> 5 != kind {
            return None;
        }
        match b & 31 {
            31 => self.len(),
            n => Some(n as u128),
        }
    }

    fn dint(&mut self, t: Int) -> D<Val> {
        let b = self.byte()?;
        if b >> 5 != DNUM {
            return None;
        }
        let n = match b & 3 {
            0 if t.signed() => Num::I(unzigzag(self.groups(t.bits())?)),
            0 => Num::I(unzigzag(self.groups(128)?)),
            1 => Num::U(self.groups(t.bits())?),
            _ => return None,
        };
        Some(Val::Int(t, n.convert(t)?))
    }

    fn dfloat(&mut self, bits: u32) -> D<u128> {
        if self.byte()? != DNUM << 5 | (bits.trailing_zeros() as u8) << 2 | 2 {
            return None;
        }
        self.groups(bits)
    }

    fn desc(&mut self, ty: &Ty) -> D<Val> {
        const MARK: u8 = 0b111_00000;
        Some(match ty {
            Ty::Unit => {
                self.dskip()?;
                Val::Unit
            }
            Ty::Skip => {
                self.dskip()?;
                Val::Absent
            }
            Ty::Bool => match self.byte()? ^ MARK {
                0b010 => Val::Bool(true),
                0b011 => Val::Bool(false),
                _ => return None,
            },
            Ty::Char => {
                if self.byte()? != MARK | 0b101 {
                    return None;
                }
                Self::chr(self.groups(32)?)?
            }
            Ty::Int(t) => self.dint(*t)?,
            Ty::F32 => Val::F32(self.dfloat(32)? as u32),
            Ty::F64 => Val::F64(self.dfloat(64)? as u64),
            Ty::Str => {
                let n = self.dtag(DSTR)?;
                Self::utf8(self.take(n)?)?
            }
            Ty::Bytes => {
                let n = self.dtag(DBYTES)?;
                Val::Bytes(self.take(n)?.to_vec())
            }
            Ty::Arr(n) => {
                if self.dtag(DBYTES)? != *n as u128 {
                    return None;
                }
                Val::Arr(self.take(*n as u128)?.to_vec())
            }
            Ty::Opt(t) => match self.byte()? ^ MARK {
                0b000 => Val::None,
                0b001 => Val::Some(Box::new(self.desc(t)?)),
                _ => return None,
            },
            Ty::Seq(t) => {
                let n = self.dtag(DSEQ)?;
                Val::Seq(self.many(n, |d| d.desc(t))?)
            }
            Ty::Tuple(ts) => {
                if self.dtag(DSEQ)? != ts.len() as u128 {
                    return None;
                }
                Val::Tuple(ts.iter().map(|t| self.desc(t)).collect::<D<_>>()?)
            }
            Ty::Pack(ts) => {
                let n = self.dtag(DBYTES)?;
                Val::Pack(self.packed(n, ts)?)
            }
            Ty::Slice(e) => {
                let n = self.dtag(DSEQ)?;
                let t = elem_ty(*e);
                Val::Slice(*e, self.many(n, |d| d.desc(&t))?.into_iter().map(elem_of).collect())
            }
            Ty::Map(k, v) => {
                let n = self.dtag(DMAP)?;
                Val::Map(self.many(n, |d| Some((d.desc(k)?, d.desc(v)?)))?)
            }
            _ => return None,
        })
    }
}
