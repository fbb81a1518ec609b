//! Types which can be made to fail at any leaf, and the path which leads there.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::fmt;

use musli::{Allocator, Context, Decode, Decoder, Encode, Encoder};
use pbt::Src;

/// The string which makes decoding a leaf fail.
pub const BAD: &str = "~FAULT~";
/// The string which makes encoding a leaf fail.
pub const BAD_ENCODE: &str = "~UNENCODABLE~";
pub const MESSAGE: &str = "a leaf which is faulty";
pub const MESSAGE_ENCODE: &str = "a leaf which can't be encoded";

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Leaf(pub String);

impl fmt::Debug for Leaf {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

impl<M> Encode<M> for Leaf {
    const IS_BITWISE_ENCODE: bool = false;
    type Encode = Self;
    fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
    where
        E: Encoder<Mode = M>,
    {
        if self.0 == BAD_ENCODE {
            return Err(encoder.cx().message(MESSAGE_ENCODE));
        }
        encoder.encode_string(&self.0)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

impl<'de, M, A: Allocator> Decode<'de, M, A> for Leaf {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        let cx = decoder.cx();
        let s: String = decoder.decode()?;
        if s == BAD {
            return Err(cx.message(MESSAGE));
        }
        Ok(Leaf(s))
    }
}

/// Values of every kind, which move the position in every way.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
pub struct Fill {
    pub a: u8,
    pub b: i16,
    pub c: u32,
    pub d: i64,
    pub e: u128,
    pub f: f32,
    pub g: f64,
    pub h: bool,
    pub i: char,
    pub j: Option<u16>,
    pub k: [u8; 3],
    #[musli(bytes)]
    pub l: Vec<u8>,
    pub m: Vec<u32>,
    pub n: (u8, i64),
    #[musli(packed)]
    pub o: (u16, i8),
    pub p: (),
    pub q: usize,
    pub r: String,
    pub s: [u32; 2],
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
pub enum Tree {
    #[musli(transparent)]
    Leaf(Leaf),
    #[musli(name_all = "name")]
    Empty,
    #[musli(name_all = "name")]
    Named { left: Box<Tree>, fill: Box<Fill>, right: Box<Tree> },
    Pair(Box<Tree>, Leaf),
    Seq(Vec<Tree>),
    #[musli(transparent)]
    Deque(VecDeque<Tree>),
    Set(BTreeSet<Leaf>),
    #[musli(transparent)]
    Hashed(HashSet<Leaf>),
    Leaves(Vec<Leaf>),
    Slice(Box<[Tree]>),
    Keys(#[musli(trace)] BTreeMap<String, Tree>),
    #[musli(name_all = "name")]
    Ints { #[musli(trace)] ints: BTreeMap<u32, Tree>, after: Leaf },
    Hash(#[musli(trace)] HashMap<Key, Tree>),
    Plain(BTreeMap<String, Tree>),
    Tup((Box<Tree>, Leaf)),
    Opt(Option<Box<Tree>>),
    #[musli(transparent)]
    Struct(Box<Struct>),
    Unit(Unit, Box<Tuple>),
    #[musli(transparent)]
    Clear(Box<Clear>),
    In(Box<In>),
    #[musli(transparent)]
    Adj(Box<Adj>),
    Un(Box<Un>),
    Packed(Packed),
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
pub struct Struct {
    pub first: Tree,
    #[musli(name = "renamed", default)]
    pub opt: Option<Leaf>,
    pub fill: Fill,
    #[musli(skip)]
    pub skipped: u32,
    pub last: Leaf,
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct Tuple(pub Tree, pub Leaf);

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct Unit;

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(transparent)]
pub struct Clear {
    pub inner: Tree,
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(packed)]
pub struct Packed {
    pub a: Leaf,
    pub b: u32,
    pub c: Leaf,
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag = "tag", name_all = "name")]
pub enum In {
    #[musli(name_all = "name")]
    One { x: Leaf, y: Tree },
    #[musli(name_all = "name")]
    Two { y: Tree, z: Fill },
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag = "t", content = "c", name_all = "name")]
pub enum Adj {
    #[musli(name_all = "name")]
    Empty,
    #[musli(transparent)]
    One(Leaf),
    #[musli(name_all = "name")]
    Two { x: Leaf, y: Tree },
}

/// What comes before what is there fails somewhere inside.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(untagged, name_all = "name")]
pub enum Un {
    #[musli(name_all = "name")]
    Deep { list: Vec<Fill>, x: Leaf },
    #[musli(name_all = "name")]
    Num { x: u32, y: Tree },
    #[musli(name_all = "name")]
    Leaf { x: Leaf, y: Tree },
    #[musli(name_all = "name")]
    List { list: Vec<Leaf> },
    #[musli(transparent)]
    Last(Leaf),
}

/// A key which is displayed as what it is.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Encode, Decode)]
#[musli(transparent)]
pub struct Key(pub String);

impl fmt::Display for Key {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}>", self.0)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Step {
    /// Only there if types are.
    Struct(&'static str),
    /// Only there if types are.
    Enum(&'static str),
    Variant(&'static str),
    Field(&'static str),
    Index(usize),
    Key(String),
}

impl Step {
    pub fn is_type(&self) -> bool {
        matches!(self, Step::Struct(_) | Step::Enum(_))
    }
}

/// A path as reports are documented to have it.
pub fn render(steps: &[Step], types: bool) -> String {
    let mut out = String::new();
    let (mut braces, mut after_type, mut after_field) = (0, false, false);
    for s in steps.iter().filter(|s| types || !s.is_type()) {
        match s {
            Step::Struct(_) | Step::Enum(_) | Step::Variant(_) => {
                if std::mem::take(&mut after_field) {
                    out.push_str(" = ");
                }
                match s {
                    Step::Struct(n) | Step::Variant(n) => {
                        out.push_str(n);
                        after_type = true;
                    }
                    Step::Enum(n) => {
                        out.push_str(n);
                        out.push_str("::");
                    }
                    _ => unreachable!(),
                }
            }
            _ => {
                if std::mem::take(&mut after_type) {
                    out.push_str(" { ");
                    braces += 1;
                }
                match s {
                    Step::Field(n) => out.push_str(&format!(".{n}")),
                    Step::Index(n) => out.push_str(&format!("[{n}]")),
                    Step::Key(n) => out.push_str(&format!("[{n}]")),
                    _ => unreachable!(),
                }
                after_field = true;
            }
        }
    }
    for _ in 0..braces {
        out.push_str(" }");
    }
    out
}

/// Finds the leaf which matches. If that is somewhere where alternatives are
/// tried, then the path ends there.
pub struct Find<'a> {
    pub leaf: &'a str,
    pub path: Vec<Step>,
    /// The path ends at where alternatives are tried.
    pub untagged: bool,
    /// The leaf is within something which is put aside before it is decoded.
    pub buffered: bool,
    pub found: bool,
    /// Encoding knows which alternative there is.
    pub encode: bool,
}

impl<'a> Find<'a> {
    pub fn new(leaf: &'a str, encode: bool) -> Self {
        Find { leaf, path: Vec::new(), untagged: false, buffered: false, found: false, encode }
    }

    fn with(&mut self, s: Step, f: impl FnOnce(&mut Self)) -> &mut Self {
        if self.found {
            return self;
        }
        self.path.push(s);
        f(self);
        if !self.found {
            self.path.pop();
        }
        self
    }

    fn field(&mut self, n: &'static str, f: impl FnOnce(&mut Self)) -> &mut Self {
        self.with(Step::Field(n), f)
    }

    pub fn leaf(&mut self, l: &Leaf) {
        self.found |= l.0 == self.leaf;
    }

    fn seq<'b>(&mut self, it: impl IntoIterator<Item = &'b Tree>) {
        for (i, t) in it.into_iter().enumerate() {
            self.with(Step::Index(i), |f| f.tree(t));
        }
    }

    fn leaves<'b>(&mut self, it: impl IntoIterator<Item = &'b Leaf>) {
        for (i, t) in it.into_iter().enumerate() {
            self.with(Step::Index(i), |f| f.leaf(t));
        }
    }

    pub fn tree(&mut self, t: &Tree) {
        let v = |s: &mut Self, n, f: &mut dyn FnMut(&mut Self)| {
            s.with(Step::Enum("Tree"), |s| {
                s.with(Step::Variant(n), f);
            });
        };
        match t {
            Tree::Leaf(l) => v(self, "Leaf", &mut |s| s.leaf(l)),
            Tree::Empty => {}
            Tree::Named { left, right, .. } => v(self, "Named", &mut |s| {
                s.field("left", |s| s.tree(left)).field("right", |s| s.tree(right));
            }),
            Tree::Pair(a, b) => v(self, "Pair", &mut |s| {
                s.field("0", |s| s.tree(a)).field("1", |s| s.leaf(b));
            }),
            Tree::Seq(a) => v(self, "Seq", &mut |s| {
                s.field("0", |s| s.seq(a));
            }),
            Tree::Deque(a) => v(self, "Deque", &mut |s| s.seq(a)),
            Tree::Set(a) => v(self, "Set", &mut |s| {
                s.field("0", |s| s.leaves(a));
            }),
            Tree::Hashed(a) => v(self, "Hashed", &mut |s| s.leaves(a)),
            Tree::Leaves(a) => v(self, "Leaves", &mut |s| {
                s.field("0", |s| s.leaves(a));
            }),
            Tree::Slice(a) => v(self, "Slice", &mut |s| {
                s.field("0", |s| s.seq(a.iter()));
            }),
            Tree::Keys(a) => v(self, "Keys", &mut |s| {
                s.field("0", |s| {
                    for (k, t) in a {
                        s.with(Step::Key(k.clone()), |s| s.tree(t));
                    }
                });
            }),
            Tree::Ints { ints, after } => v(self, "Ints", &mut |s| {
                s.field("ints", |s| {
                    for (k, t) in ints {
                        s.with(Step::Key(k.to_string()), |s| s.tree(t));
                    }
                })
                .field("after", |s| s.leaf(after));
            }),
            Tree::Hash(a) => v(self, "Hash", &mut |s| {
                s.field("0", |s| {
                    for (k, t) in a {
                        s.with(Step::Key(k.to_string()), |s| s.tree(t));
                    }
                });
            }),
            Tree::Plain(a) => v(self, "Plain", &mut |s| {
                s.field("0", |s| {
                    for t in a.values() {
                        if !s.found {
                            s.tree(t);
                        }
                    }
                });
            }),
            Tree::Tup((a, b)) => v(self, "Tup", &mut |s| {
                s.field("0", |s| {
                    s.tree(a);
                    if !s.found {
                        s.leaf(b);
                    }
                });
            }),
            Tree::Opt(a) => v(self, "Opt", &mut |s| {
                s.field("0", |s| {
                    if let Some(a) = a {
                        s.tree(a);
                    }
                });
            }),
            Tree::Struct(a) => v(self, "Struct", &mut |s| {
                s.with(Step::Struct("Struct"), |s| {
                    s.field("first", |s| s.tree(&a.first))
                        .field("opt", |s| {
                            if let Some(a) = &a.opt {
                                s.leaf(a);
                            }
                        })
                        .field("last", |s| s.leaf(&a.last));
                });
            }),
            Tree::Unit(_, a) => v(self, "Unit", &mut |s| {
                s.field("1", |s| {
                    s.with(Step::Struct("Tuple"), |s| {
                        s.field("0", |s| s.tree(&a.0)).field("1", |s| s.leaf(&a.1));
                    });
                });
            }),
            Tree::Clear(a) => v(self, "Clear", &mut |s| {
                s.with(Step::Struct("Clear"), |s| s.tree(&a.inner));
            }),
            Tree::In(a) => v(self, "In", &mut |s| {
                s.field("0", |s| {
                    let mut inner = false;
                    s.with(Step::Enum("In"), |s| {
                        match &**a {
                            In::One { x, y } => s.with(Step::Variant("One"), |s| {
                                s.field("x", |s| s.leaf(x)).field("y", |s| s.tree(y));
                            }),
                            In::Two { y, .. } => s.with(Step::Variant("Two"), |s| {
                                s.field("y", |s| s.tree(y));
                            }),
                        };
                        inner = s.found;
                    });
                    s.buffered |= inner;
                });
            }),
            Tree::Adj(a) => v(self, "Adj", &mut |s| {
                s.with(Step::Enum("Adj"), |s| {
                    match &**a {
                        Adj::Empty => {}
                        Adj::One(x) => {
                            s.with(Step::Variant("One"), |s| s.leaf(x));
                        }
                        Adj::Two { x, y } => {
                            s.with(Step::Variant("Two"), |s| {
                                s.field("x", |s| s.leaf(x)).field("y", |s| s.tree(y));
                            });
                        }
                    };
                });
            }),
            Tree::Un(a) => v(self, "Un", &mut |s| {
                s.field("0", |s| s.un(a));
            }),
            Tree::Packed(a) => v(self, "Packed", &mut |s| {
                s.field("0", |s| {
                    s.with(Step::Struct("Packed"), |s| {
                        // Only encoding tells which one it is.
                        if s.encode {
                            s.field("a", |s| s.leaf(&a.a)).field("c", |s| s.leaf(&a.c));
                        } else {
                            s.leaf(&a.a);
                            if !s.found {
                                s.leaf(&a.c);
                            }
                        }
                    });
                });
            }),
        }
    }

    fn un(&mut self, u: &Un) {
        self.with(Step::Enum("Un"), |s| {
            let at = s.path.len();
            match u {
                Un::Deep { x, .. } => s.with(Step::Variant("Deep"), |s| {
                    s.field("x", |s| s.leaf(x));
                }),
                Un::Num { y, .. } => s.with(Step::Variant("Num"), |s| {
                    s.field("y", |s| s.tree(y));
                }),
                Un::Leaf { x, y } => s.with(Step::Variant("Leaf"), |s| {
                    s.field("x", |s| s.leaf(x)).field("y", |s| s.tree(y));
                }),
                Un::List { list } => s.with(Step::Variant("List"), |s| {
                    s.field("list", |s| s.leaves(list));
                }),
                Un::Last(x) => s.with(Step::Variant("Last"), |s| s.leaf(x)),
            };
            if s.found && !s.encode {
                s.path.truncate(at);
                s.untagged = true;
            }
        });
    }
}

pub struct Gen {
    /// Enums which are not tagged on the outside.
    pub tagged: bool,
    /// No strings which have to be copied to be decoded.
    pub plain: bool,
    /// What is put aside can't have packs in it.
    pub packless: bool,
    /// Something is being put aside.
    pub aside: bool,
    pub left: usize,
    /// Leaves so far.
    pub leaves: usize,
    /// Put this into the leaf with the number.
    pub bad: Option<(usize, &'static str)>,
}

impl Gen {
    fn string(&mut self, s: &mut Src) -> String {
        match s.index(4) {
            0 => String::new(),
            1 if !self.plain => String::from(*s.pick(&["a\"b", "\u{1f600}x", "\n\t\\", "\u{1}", "é", "/"])),
            2 if !self.plain => s.string(5),
            _ => String::from(*s.pick(&["a", "bcd", "xyz0123456789abcdefghij"])),
        }
    }

    fn leaf(&mut self, s: &mut Src) -> Leaf {
        let l = self.string(s);
        self.leaves += 1;
        match self.bad {
            Some((n, bad)) if n == self.leaves => Leaf(bad.into()),
            _ => Leaf(l),
        }
    }

    pub fn fill(&mut self, s: &mut Src) -> Fill {
        if s.index(3) != 0 {
            return Fill { a: 0, b: -1, c: 2, d: -3, e: 4, f: 0.5, g: 0.25, h: true, i: 'c', j: None, k: [1, 2, 3], l: vec![], m: vec![], n: (1, -1), o: (1, -1), p: (), q: 1, r: String::new(), s: [1, 2] };
        }
        Fill {
            a: s.unsigned(8) as u8,
            b: s.signed(16) as i16,
            c: s.unsigned(32) as u32,
            d: s.signed(64) as i64,
            e: s.unsigned(128),
            f: (s.signed(20) as f32) / 8.0,
            g: (s.signed(40) as f64) / 16.0,
            h: s.bool(),
            i: if self.plain { 'p' } else { s.char() },
            j: s.bool().then(|| s.unsigned(16) as u16),
            k: [0, 128, s.upto(255) as u8],
            l: s.bytes(20),
            m: (0..s.size(0, 4)).map(|_| s.unsigned(32) as u32).collect(),
            n: (s.unsigned(8) as u8, s.signed(64) as i64),
            o: (s.unsigned(16) as u16, s.signed(8) as i8),
            p: (),
            q: s.unsigned(32) as usize,
            r: self.string(s),
            s: [s.unsigned(32) as u32, 7],
        }
    }

    fn many<C: FromIterator<Tree>>(&mut self, s: &mut Src, d: usize) -> C {
        let n = s.size(0, 3);
        (0..n).map(|_| self.tree(s, d)).collect()
    }

    fn boxed(&mut self, s: &mut Src, d: usize) -> Box<Tree> {
        Box::new(self.tree(s, d))
    }

    pub fn tree(&mut self, s: &mut Src, d: usize) -> Tree {
        if d == 0 || self.left == 0 {
            return Tree::Leaf(self.leaf(s));
        }
        self.left -= 1;
        let d = d - 1;
        let n = s.index(if self.tagged { 21 } else { 18 });
        if self.packless && self.aside && matches!(n, 1 | 11 | 13 | 17) {
            return Tree::Leaf(self.leaf(s));
        }
        match n {
            0 => Tree::Leaf(self.leaf(s)),
            1 => Tree::Named { left: self.boxed(s, d), fill: Box::new(self.fill(s)), right: self.boxed(s, d) },
            2 => Tree::Pair(self.boxed(s, d), self.leaf(s)),
            3 => Tree::Seq(self.many(s, d)),
            4 => Tree::Deque(self.many(s, d)),
            5 => {
                let n = s.size(0, 4);
                let l = (0..n).map(|_| self.leaf(s)).collect::<Vec<_>>().into_iter();
                match s.index(3) {
                    0 => Tree::Set(l.collect()),
                    1 => Tree::Hashed(l.collect()),
                    _ => Tree::Leaves(l.collect()),
                }
            }
            6 => Tree::Slice(self.many(s, d)),
            7 => {
                let n = s.size(0, 3);
                Tree::Keys((0..n).map(|i| (format!("k{i}{}", self.string(s)), self.tree(s, d))).collect())
            }
            8 => {
                let n = s.size(0, 3) as u32;
                let ints = (0..n).map(|i| ((s.unsigned(24) as u32) << 2 | i, self.tree(s, d))).collect::<Vec<_>>().into_iter().collect();
                Tree::Ints { ints, after: self.leaf(s) }
            }
            9 => {
                let k = Key(self.string(s));
                Tree::Hash([(k, self.tree(s, d))].into())
            }
            10 => {
                let n = s.size(0, 3);
                Tree::Plain((0..n).map(|i| (format!("{i}"), self.tree(s, d))).collect())
            }
            11 => Tree::Tup((self.boxed(s, d), self.leaf(s))),
            12 => Tree::Opt(if s.bool() { Some(self.boxed(s, d)) } else { None }),
            13 => {
                let (first, opt, fill, last) = (self.tree(s, d), s.bool(), self.fill(s), self.leaf(s));
                let opt = opt.then(|| self.leaf(s));
                Tree::Struct(Box::new(Struct { first, opt, fill, skipped: 0, last }))
            }
            14 => Tree::Unit(Unit, Box::new(Tuple(self.tree(s, d), self.leaf(s)))),
            15 => Tree::Clear(Box::new(Clear { inner: self.tree(s, d) })),
            16 => Tree::Empty,
            17 => Tree::Packed(Packed { a: self.leaf(s), b: s.unsigned(32) as u32, c: self.leaf(s) }),
            18 => {
                let before = std::mem::replace(&mut self.aside, true);
                let out = if self.packless || s.bool() {
                    In::One { x: self.leaf(s), y: self.tree(s, d) }
                } else {
                    In::Two { y: self.tree(s, d), z: self.fill(s) }
                };
                self.aside = before;
                Tree::In(Box::new(out))
            }
            19 => Tree::Adj(Box::new(match s.index(3) {
                0 => Adj::Empty,
                1 => Adj::One(self.leaf(s)),
                _ => Adj::Two { x: self.leaf(s), y: self.tree(s, d) },
            })),
            _ => Tree::Un(Box::new(match s.index(5) {
                0 => Un::Last(self.leaf(s)),
                1 => {
                    // With an empty list this is like `List`.
                    if self.packless && self.aside {
                        return Tree::Leaf(self.leaf(s));
                    }
                    let n = s.size(1, 3);
                    Un::Deep { list: (0..n).map(|_| self.fill(s)).collect(), x: self.leaf(s) }
                }
                2 => Un::Num { x: s.unsigned(32) as u32, y: self.tree(s, d) },
                3 => Un::Leaf { x: self.leaf(s), y: self.tree(s, d) },
                _ => {
                    let n = s.size(1, 3);
                    Un::List { list: (0..n).map(|_| self.leaf(s)).collect() }
                }
            })),
        }
    }
}
