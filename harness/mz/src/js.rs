//! JSON data, an independent parser for it, and every way of spelling it.
use dynv::{Elem, Val};
use pbt::Src;

#[derive(Clone, Debug)]
pub enum Js {
    Null,
    Bool(bool),
    Num(Dec),
    Str(String),
    Arr(Vec<Js>),
    Obj(Vec<(String, Js)>),
}

/// The number `digits * 10^exp`, where digits have neither leading nor
/// trailing zeros. Zero has no digits.
#[derive(Clone, Debug)]
pub struct Dec {
    pub neg: bool,
    pub digits: String,
    pub exp: i64,
}

impl PartialEq for Dec {
    fn eq(&self, o: &Dec) -> bool {
        self.digits == o.digits && (self.digits.is_empty() || (self.neg == o.neg && self.exp == o.exp))
    }
}

impl PartialEq for Js {
    fn eq(&self, o: &Js) -> bool {
        match (self, o) {
            (Js::Null, Js::Null) => true,
            (Js::Bool(a), Js::Bool(b)) => a == b,
            (Js::Num(a), Js::Num(b)) => a == b,
            (Js::Str(a), Js::Str(b)) => a == b,
            (Js::Arr(a), Js::Arr(b)) => a == b,
            (Js::Obj(a), Js::Obj(b)) => a == b,
            _ => false,
        }
    }
}

impl Dec {
    /// From the text of a JSON number.
    pub fn parse(t: &str) -> Option<Dec> {
        let (neg, t) = match t.strip_prefix('-') {
            Some(t) => (true, t),
            None => (false, t),
        };
        let (mant, e) = match t.find(['e', 'E']) {
            Some(i) => {
                let (m, e) = t.split_at(i);
                let e = &e[1..];
                let d = e.strip_prefix(['+', '-']).unwrap_or(e);
                if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                    return None;
                }
                // far beyond anything which matters
                let n: i64 = d.trim_start_matches('0').parse().or_else(|_| if d.bytes().all(|b| b == b'0') { Ok(0) } else { Err(()) }).unwrap_or(i64::MAX / 4).min(i64::MAX / 4);
                (m, if e.starts_with('-') { -n } else { n })
            }
            None => (t, 0),
        };
        let (int, frac) = match mant.split_once('.') {
            Some((i, f)) if f.is_empty() || !f.bytes().all(|b| b.is_ascii_digit()) => {
                let _ = i;
                return None;
            }
            Some(v) => v,
            None => (mant, ""),
        };
        if int.is_empty() || !int.bytes().all(|b| b.is_ascii_digit()) || (int.len() > 1 && int.starts_with('0')) {
            return None;
        }
        let all = format!("{int}{frac}");
        let digits = all.trim_start_matches('0');
        let trimmed = digits.trim_end_matches('0');
        Some(Dec { neg, exp: e - frac.len() as i64 + (digits.len() - trimmed.len()) as i64, digits: trimmed.to_string() })
    }

    pub fn text(&self) -> String {
        let d = if self.digits.is_empty() { "0" } else { &self.digits };
        format!("{}{d}e{}", if self.neg { "-" } else { "" }, self.exp)
    }

    pub fn f64(&self) -> f64 {
        self.text().parse().unwrap()
    }

    pub fn f32(&self) -> f32 {
        self.text().parse().unwrap()
    }

    /// The exact integer, if it is one of at most 128 bits.
    pub fn int(&self) -> Option<dynv::Num> {
        if self.digits.is_empty() {
            return Some(dynv::Num::U(0));
        }
        if self.exp < 0 || self.exp > 40 {
            return None;
        }
        let t = format!("{}{}", self.digits, "0".repeat(self.exp as usize));
        if self.neg {
            format!("-{t}").parse().ok().map(dynv::Num::I)
        } else {
            t.parse().ok().map(dynv::Num::U)
        }
    }

    /// Equal, or the nearest floats of numbers which are not integers.
    pub fn near(&self, o: &Dec) -> bool {
        self == o || self.int().is_none() && o.f64() == self.f64()
    }

    pub fn from_u(v: u128) -> Dec {
        Dec::parse(&v.to_string()).unwrap()
    }

    pub fn from_i(v: i128) -> Dec {
        Dec::parse(&v.to_string()).unwrap()
    }

    /// Some text for the number, among the many there are. Those which are
    /// wild have more digits in front of the point than the number itself.
    pub fn render(&self, s: &mut Src, wild: bool) -> String {
        let sign = if self.neg { "-" } else { "" };
        if self.digits.is_empty() {
            let z = s.pick(&["0", "0.0", "0e0", "0E5", "0.000", "0e-3", "0e+00"]);
            return format!("{sign}{z}");
        }
        let n = self.digits.len() as i64;
        let plain = self.exp >= 0 && n + self.exp <= 45;
        if plain && s.chance(1, 2) {
            return format!("{sign}{}{}", self.digits, "0".repeat(self.exp as usize));
        }
        // the point goes in front of the last `k` digits, negative for behind
        let k = match s.upto(3) {
            0 => n - 1,
            1 => 0,
            2 => s.size(0, n as usize + 5) as i64,
            _ if wild => -(s.size(0, 5) as i64),
            _ => 0,
        };
        let mut e = self.exp + k;
        let mut m = if k <= 0 {
            format!("{}{}", self.digits, "0".repeat(-k as usize))
        } else if k < n {
            format!("{}.{}", &self.digits[..(n - k) as usize], &self.digits[(n - k) as usize..])
        } else {
            format!("0.{}{}", "0".repeat((k - n) as usize), self.digits)
        };
        if s.chance(1, 4) {
            if !m.contains('.') {
                m.push('.');
                m.push('0');
            }
            m.push_str(&"0".repeat(s.size(0, 4)));
        }
        let mut out = format!("{sign}{m}");
        if e != 0 || s.chance(1, 4) {
            out.push(*s.pick(&['e', 'E']));
            if e < 0 {
                out.push('-');
                e = -e;
            } else if s.bool() {
                out.push('+');
            }
            out.push_str(&"0".repeat(s.weighted(&[6, 1, 1])));
            out.push_str(&e.to_string());
        }
        out
    }
}

impl Js {
    pub fn gen(s: &mut Src, depth: usize, budget: &mut isize) -> Js {
        *budget -= 1;
        let leaf = depth == 0 || *budget <= 0;
        match s.weighted(&[1, 1, 5, 4, if leaf { 0 } else { 3 }, if leaf { 0 } else { 4 }]) {
            0 => Js::Null,
            1 => Js::Bool(s.bool()),
            2 => Js::Num(gen_num(s)),
            3 => Js::Str(s.string(60)),
            4 => {
                let n = s.size(0, 5);
                Js::Arr((0..n).map(|_| Js::gen(s, depth - 1, budget)).collect())
            }
            _ => {
                let n = s.size(0, 5);
                let mut out: Vec<(String, Js)> = Vec::new();
                for _ in 0..n {
                    let k = if s.bool() { s.string(12) } else { s.unsigned(64).to_string() };
                    if out.iter().all(|(o, _)| *o != k) {
                        let v = Js::gen(s, depth - 1, budget);
                        out.push((k, v));
                    }
                }
                Js::Obj(out)
            }
        }
    }

    /// The data a shape's value has in JSON.
    pub fn of(v: &Val) -> Option<Js> {
        let bytes = |b: &[u8]| Js::Arr(b.iter().map(|b| Js::Num(Dec::from_u(*b as u128))).collect());
        let many = |v: &[Val]| -> Option<Js> { Some(Js::Arr(v.iter().map(Js::of).collect::<Option<_>>()?)) };
        let fields = |v: &[(Val, Val)]| -> Option<Js> {
            Some(Js::Obj(v.iter().map(|(k, v)| Some((Js::key(k)?, Js::of(v)?))).collect::<Option<_>>()?))
        };
        Some(match v {
            Val::Unit | Val::None => Js::Null,
            Val::Bool(b) => Js::Bool(*b),
            Val::Char(c) => Js::Str(c.to_string()),
            Val::Int(t, n) => Js::Num(if t.signed() { Dec::from_i(n.i()) } else { Dec::from_u(n.u()) }),
            Val::F32(b) => Js::Num(Dec::parse(&format!("{:e}", f32::from_bits(*b)))?),
            Val::F64(b) => Js::Num(Dec::parse(&format!("{:e}", f64::from_bits(*b)))?),
            Val::Str(s) => Js::Str(s.clone()),
            Val::Bytes(b) | Val::Arr(b) => bytes(b),
            Val::Some(v) => Js::of(v)?,
            Val::Seq(v) | Val::Tuple(v) | Val::Pack(v) => many(v)?,
            Val::Slice(e, v) => Js::Arr(v.iter().map(|v| Js::elem(*e, *v)).collect::<Option<_>>()?),
            Val::Map(v) | Val::Struct(v) => fields(v)?,
            Val::Unitv(t) => Js::Obj(vec![(Js::key(t)?, Js::Null)]),
            Val::Datav(t, v) => Js::Obj(vec![(Js::key(t)?, Js::of(v)?)]),
            Val::Seqv(t, v) => Js::Obj(vec![(Js::key(t)?, many(v)?)]),
            Val::Mapv(t, v) => Js::Obj(vec![(Js::key(t)?, fields(v)?)]),
            Val::Raw(_, v) => Js::of(v)?,
            Val::Absent => return None,
        })
    }

    /// The same data, where numbers without an exact type are the nearest
    /// floats.
    pub fn near(&self, o: &Js) -> bool {
        match (self, o) {
            (Js::Num(a), Js::Num(b)) => a.near(b),
            (Js::Arr(a), Js::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.near(b)),
            (Js::Obj(a), Js::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| k == l && a.near(b)),
            (a, b) => a == b,
        }
    }

    /// Is this the data of the value?
    pub fn is(&self, v: &Val) -> bool {
        let many = |v: &[Val]| matches!(self, Js::Arr(a) if a.len() == v.len() && a.iter().zip(v).all(|(a, b)| a.is(b)));
        let fields = |j: &Js, v: &[(Val, Val)]| matches!(j, Js::Obj(a) if a.len() == v.len() && a.iter().zip(v).all(|((k, a), (l, b))| Js::key(l).as_ref() == Some(k) && a.is(b)));
        let one = |t: &Val| match self {
            Js::Obj(a) if a.len() == 1 && Js::key(t).as_ref() == Some(&a[0].0) => Some(&a[0].1),
            _ => None,
        };
        match (v, self) {
            // floats are the same if they are the nearest to the same number
            (Val::F32(b), Js::Num(d)) => d.f32().to_bits() == *b,
            (Val::F64(b), Js::Num(d)) => d.f64().to_bits() == *b,
            (Val::Some(v) | Val::Raw(_, v), _) => self.is(v),
            (Val::Seq(v) | Val::Tuple(v) | Val::Pack(v), _) => many(v),
            (Val::Slice(Elem::F32, v), _) => many(&v.iter().map(|v| Val::F32(*v as u32)).collect::<Vec<_>>()),
            (Val::Map(v) | Val::Struct(v), _) => fields(self, v),
            (Val::Datav(t, v), _) => one(t).is_some_and(|j| j.is(v)),
            (Val::Seqv(t, v), _) => one(t).is_some_and(|j| j.is(&Val::Seq(v.clone()))),
            (Val::Mapv(t, v), _) => one(t).is_some_and(|j| fields(j, v)),
            (v, j) => Js::of(v).as_ref() == Some(j),
        }
    }

    fn elem(e: Elem, v: u128) -> Option<Js> {
        Js::of(&dynv::refm::elem_val(e, v))
    }

    fn key(v: &Val) -> Option<String> {
        Some(match v {
            Val::Str(s) => s.clone(),
            Val::Int(t, n) if t.signed() => n.i().to_string(),
            Val::Int(_, n) => n.u().to_string(),
            _ => return None,
        })
    }

    /// Any text for the data.
    pub fn render(&self, s: &mut Src) -> String {
        let mut out = String::new();
        space(s, &mut out);
        self.render_into(s, &mut out, true);
        space(s, &mut out);
        out
    }

    pub fn render_into(&self, s: &mut Src, out: &mut String, wild: bool) {
        match self {
            Js::Null => out.push_str("null"),
            Js::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            Js::Num(d) => out.push_str(&d.render(s, wild)),
            Js::Str(v) => string(s, v, out),
            Js::Arr(v) => {
                out.push('[');
                space(s, out);
                for (i, v) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                        space(s, out);
                    }
                    v.render_into(s, out, wild);
                    space(s, out);
                }
                out.push(']');
            }
            Js::Obj(v) => {
                out.push('{');
                space(s, out);
                for (i, (k, v)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                        space(s, out);
                    }
                    string(s, k, out);
                    space(s, out);
                    out.push(':');
                    space(s, out);
                    v.render_into(s, out, wild);
                    space(s, out);
                }
                out.push('}');
            }
        }
    }

    pub fn parse(b: &[u8]) -> Result<Js, String> {
        let mut p = Parse { b, at: 0 };
        p.space();
        let v = p.value(0)?;
        p.space();
        if p.at != b.len() {
            return Err(format!("not JSON: something follows at {}", p.at));
        }
        Ok(v)
    }

    /// Is this what serde_json reads?
    pub fn same(&self, o: &serde_json::Value) -> bool {
        use serde_json::Value as S;
        match (self, o) {
            (Js::Null, S::Null) => true,
            (Js::Bool(a), S::Bool(b)) => a == b,
            (Js::Num(a), S::Number(b)) => Dec::parse(&b.to_string()).as_ref() == Some(a),
            (Js::Str(a), S::String(b)) => a == b,
            (Js::Arr(a), S::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.same(b)),
            (Js::Obj(a), S::Object(b)) => {
                // of entries with equal keys, the last one counts
                let mut last: std::collections::BTreeMap<&str, &Js> = Default::default();
                for (k, v) in a {
                    last.insert(k, v);
                }
                last.len() == b.len() && last.iter().all(|(k, v)| b.get(*k).is_some_and(|o| v.same(o)))
            }
            _ => false,
        }
    }
}

pub fn gen_num(s: &mut Src) -> Dec {
    match s.weighted(&[4, 3, 2, 3]) {
        0 => Dec::from_u(s.unsigned(64)),
        1 => Dec::from_i(s.signed(64)),
        2 => {
            if s.bool() {
                Dec::from_u(s.unsigned(128))
            } else {
                Dec::from_i(s.signed(128))
            }
        }
        _ => {
            let b = s.f64_bits();
            let f = f64::from_bits(b);
            let f = if f.is_finite() { f } else { 0.5 };
            Dec::parse(&format!("{f:e}")).unwrap()
        }
    }
}

pub fn space(s: &mut Src, out: &mut String) {
    if s.chance(1, 5) {
        for _ in 0..s.size(1, 3) {
            out.push(*s.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}

/// A string with some of its characters escaped.
pub fn string(s: &mut Src, v: &str, out: &mut String) {
    out.push('"');
    let how = s.upto(3);
    for c in v.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        let may = match how {
            0 => false,
            1 => true,
            _ => s.chance(1, 6),
        };
        if !must && !may {
            out.push(c);
            continue;
        }
        let short = match c {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '/' => Some('/'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            _ => None,
        };
        match short {
            Some(e) if s.chance(2, 3) => {
                out.push('\\');
                out.push(e);
            }
            _ => {
                let mut buf = [0; 2];
                for u in c.encode_utf16(&mut buf) {
                    let h = match s.upto(2) {
                        0 => format!("{u:04x}"),
                        1 => format!("{u:04X}"),
                        _ => format!("{u:04x}").chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect(),
                    };
                    out.push_str("\\u");
                    out.push_str(&h);
                }
            }
        }
    }
    out.push('"');
}

struct Parse<'a> {
    b: &'a [u8],
    at: usize,
}

impl Parse<'_> {
    fn space(&mut self) {
        while matches!(self.b.get(self.at), Some(b' ' | b'\n' | b'\t' | b'\r')) {
            self.at += 1;
        }
    }

    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("not JSON: {m} at {}", self.at))
    }

    fn word(&mut self, w: &str, v: Js) -> Result<Js, String> {
        if self.b[self.at..].starts_with(w.as_bytes()) {
            self.at += w.len();
            Ok(v)
        } else {
            self.err("unknown word")
        }
    }

    fn value(&mut self, depth: usize) -> Result<Js, String> {
        if depth > 2000 {
            return self.err("too deep");
        }
        match self.b.get(self.at) {
            Some(b'n') => self.word("null", Js::Null),
            Some(b't') => self.word("true", Js::Bool(true)),
            Some(b'f') => self.word("false", Js::Bool(false)),
            Some(b'"') => Ok(Js::Str(self.string()?)),
            Some(b'-' | b'0'..=b'9') => {
                let from = self.at;
                while matches!(self.b.get(self.at), Some(b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9')) {
                    self.at += 1;
                }
                let t = std::str::from_utf8(&self.b[from..self.at]).unwrap();
                match Dec::parse(t) {
                    Some(d) => Ok(Js::Num(d)),
                    None => self.err("bad number"),
                }
            }
            Some(b'[') => {
                self.at += 1;
                let mut out = Vec::new();
                self.space();
                if self.b.get(self.at) == Some(&b']') {
                    self.at += 1;
                    return Ok(Js::Arr(out));
                }
                loop {
                    self.space();
                    out.push(self.value(depth + 1)?);
                    self.space();
                    match self.b.get(self.at) {
                        Some(b',') => self.at += 1,
                        Some(b']') => {
                            self.at += 1;
                            return Ok(Js::Arr(out));
                        }
                        _ => return self.err("expected , or ]"),
                    }
                }
            }
            Some(b'{') => {
                self.at += 1;
                let mut out = Vec::new();
                self.space();
                if self.b.get(self.at) == Some(&b'}') {
                    self.at += 1;
                    return Ok(Js::Obj(out));
                }
                loop {
                    self.space();
                    let k = self.string()?;
                    self.space();
                    if self.b.get(self.at) != Some(&b':') {
                        return self.err("expected :");
                    }
                    self.at += 1;
                    self.space();
                    let v = self.value(depth + 1)?;
                    out.push((k, v));
                    self.space();
                    match self.b.get(self.at) {
                        Some(b',') => self.at += 1,
                        Some(b'}') => {
                            self.at += 1;
                            return Ok(Js::Obj(out));
                        }
                        _ => return self.err("expected , or }"),
                    }
                }
            }
            _ => self.err("expected a value"),
        }
    }

    fn string(&mut self) -> Result<String, String> {
        if self.b.get(self.at) != Some(&b'"') {
            return self.err("expected a string");
        }
        self.at += 1;
        let mut out = Vec::new();
        loop {
            let Some(&b) = self.b.get(self.at) else { return self.err("unclosed string") };
            self.at += 1;
            match b {
                b'"' => break,
                b'\\' => {
                    let Some(&e) = self.b.get(self.at) else { return self.err("unclosed escape") };
                    self.at += 1;
                    let c = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex4()?;
                            let n = if (0xd800..0xdc00).contains(&a) {
                                if self.b.get(self.at) != Some(&b'\\') || self.b.get(self.at + 1) != Some(&b'u') {
                                    return self.err("lone surrogate");
                                }
                                self.at += 2;
                                let b = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return self.err("lone surrogate");
                                }
                                0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)
                            } else {
                                a
                            };
                            match char::from_u32(n) {
                                Some(c) => c,
                                None => return self.err("lone surrogate"),
                            }
                        }
                        _ => return self.err("unknown escape"),
                    };
                    let mut buf = [0; 4];
                    out.extend(c.encode_utf8(&mut buf).as_bytes());
                }
                0..=0x1f => return self.err("raw control character"),
                b => out.push(b),
            }
        }
        match String::from_utf8(out) {
            Ok(s) => Ok(s),
            Err(_) => self.err("not UTF-8"),
        }
    }

    fn hex4(&mut self) -> Result<u32, String> {
        let mut v = 0;
        for _ in 0..4 {
            let d = match self.b.get(self.at) {
                Some(b @ b'0'..=b'9') => b - b'0',
                Some(b @ b'a'..=b'f') => b - b'a' + 10,
                Some(b @ b'A'..=b'F') => b - b'A' + 10,
                _ => return self.err("bad unicode escape"),
            };
            v = v * 16 + d as u32;
            self.at += 1;
        }
        Ok(v)
    }
}
