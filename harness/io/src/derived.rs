//! Derived types, whose decoders are tried, buffered and cloned.
use musli::reader::{Reader, SliceReader};
use musli::{Decode, Encode};
use pbt::{ensure, ensure_eq, short, Case, Res, Src};

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(untagged, name_all = "name")]
enum Un {
    #[musli(name_all = "name")]
    Point { x: i32, y: i32 },
    #[musli(name_all = "name")]
    Named { name: String, inner: Box<Un> },
    #[musli(transparent)]
    List(Vec<Un>),
    #[musli(transparent)]
    Text(String),
    #[musli(name_all = "name")]
    Tagged { tag: In, others: Vec<Adj> },
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag = "kind", name_all = "name")]
enum In {
    #[musli(name_all = "name")]
    Empty,
    #[musli(name_all = "name")]
    Num { n: u64, then: Option<String> },
    #[musli(name_all = "name")]
    Rec { un: Box<Un> },
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag = "t", content = "c", name_all = "name")]
enum Adj {
    #[musli(name_all = "name")]
    Empty,
    #[musli(transparent)]
    One(String),
    #[musli(name_all = "name")]
    Rec { un: Un, n: i8 },
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
struct Doc {
    first: Un,
    ext: Ext,
    all: Vec<Un>,
    tag: In,
    adj: Adj,
    last: u32,
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
enum Ext {
    #[musli(name_all = "name")]
    A { un: Un },
    #[musli(transparent)]
    B(String),
}

fn string(s: &mut Src) -> String {
    if s.bool() {
        s.string(6)
    } else {
        String::from(*s.pick(&["", "a\"b", "\u{1f600}", "x\ny"]))
    }
}

fn un(s: &mut Src, d: usize) -> Un {
    match s.index(if d == 0 { 2 } else { 5 }) {
        0 => Un::Point { x: s.signed(32) as i32, y: s.size(0, 9) as i32 },
        1 => Un::Text(string(s)),
        2 => Un::Named { name: string(s), inner: Box::new(un(s, d - 1)) },
        3 => Un::List(many(s, d - 1, un)),
        _ => Un::Tagged { tag: tagged(s, d - 1), others: many(s, d - 1, adj) },
    }
}

fn many<T>(s: &mut Src, d: usize, f: fn(&mut Src, usize) -> T) -> Vec<T> {
    let n = s.size(0, 3);
    (0..n).map(|_| f(s, d)).collect()
}

fn tagged(s: &mut Src, d: usize) -> In {
    match s.index(if d == 0 { 2 } else { 3 }) {
        0 => In::Empty,
        1 => In::Num { n: s.unsigned(64) as u64, then: s.bool().then(|| string(s)) },
        _ => In::Rec { un: Box::new(un(s, d - 1)) },
    }
}

fn adj(s: &mut Src, d: usize) -> Adj {
    match s.index(if d == 0 { 2 } else { 3 }) {
        0 => Adj::Empty,
        1 => Adj::One(string(s)),
        _ => Adj::Rec { un: un(s, d - 1), n: s.signed(8) as i8 },
    }
}

fn doc(s: &mut Src) -> Doc {
    let d = s.size(0, 3);
    Doc {
        first: un(s, d),
        ext: if s.bool() { Ext::A { un: un(s, d) } } else { Ext::B(string(s)) },
        all: many(s, d, un),
        tag: tagged(s, d),
        adj: adj(s, d),
        last: s.unsigned(32) as u32,
    }
}

type R = Result<(Doc, Option<usize>), String>;

fn json(b: &[u8], n: usize) -> Vec<(&'static str, R)> {
    let all = b;
    let b = &b[..n];
    let t = std::str::from_utf8(b).expect("a string");
    let e = |e: musli::json::Error| e.to_string();
    let _ = all;
    vec![
        ("from_slice", musli::json::from_slice(b).map(|v| (v, None)).map_err(e)),
        ("from_str", musli::json::from_str(t).map(|v| (v, None)).map_err(e)),
        ("a moving slice", {
            let mut r = b;
            let v = musli::json::decode(&mut r).map_err(e);
            v.map(|v| (v, Some(b.len() - r.len())))
        }),
        ("a moving string", {
            let mut r = t;
            let v = musli::json::decode(&mut r).map_err(e);
            assert!(t.ends_with(r));
            v.map(|v| (v, Some(t.len() - r.len())))
        }),
    ]
}

fn descriptive(b: &[u8], n: usize) -> Vec<(&'static str, R)> {
    let all = b;
    let b = &b[..n];
    let e = |e: musli::descriptive::Error| e.to_string();
    vec![
        ("from_slice", musli::descriptive::from_slice(b).map(|v| (v, None)).map_err(e)),
        ("a moving slice", {
            let mut r = b;
            let v = musli::descriptive::decode(&mut r).map_err(e);
            v.map(|v| (v, Some(b.len() - r.len())))
        }),
        ("a slice reader", {
            let mut r = SliceReader::new(b);
            let v = musli::descriptive::decode(&mut r).map_err(e);
            v.map(|v| (v, Some(b.len() - r.remaining())))
        }),
        ("a limited slice", {
            let mut r = all;
            let v = musli::descriptive::decode(&mut (&mut r).limit(n)).map_err(e);
            v.map(|v| (v, Some(all.len() - r.len())))
        }),
    ]
}

/// Nested tagged and untagged enums decode the same from every source.
pub fn derived(s: &mut Src, c: &mut Case) -> Res {
    let v = doc(s);
    c.desc(|| short(format!("{v:?}")));
    c.nontrivial(&format!("{v:?}"));
    type Run = fn(&[u8], usize) -> Vec<(&'static str, R)>;
    let (b, run, name) = if s.bool() {
        (musli::json::to_vec(&v).map_err(|e| e.to_string()), json as Run, "json")
    } else {
        (musli::descriptive::to_vec(&v).map_err(|e| e.to_string()), descriptive as Run, "descriptive")
    };
    let mut b = b.map_err(|e| format!("{name}: encoding failed: {e}"))?;
    let whole = b.len();
    b.extend_from_slice(b"  ,");
    for (n, r) in run(&b, whole + s.index(3)) {
        let (out, used) = r.map_err(|e| format!("{name}: {n}: decoding failed: {e}"))?;
        ensure!(out == v, "{name}: {n}: decoded {}", short(format!("{out:?}")));
        ensure!(used.is_none_or(|n| n == whole), "{name}: {n}: used {used:?} of {whole} bytes");
    }
    // Altered or cut short.
    let mut cut = if s.bool() { whole } else { s.size(0, whole) };
    if s.bool() {
        let i = s.index(b.len());
        b[i] = if name == "json" { *s.pick(b"\"{}[],:19 ea") } else { s.upto(255) as u8 };
    }
    if name == "json" {
        b = String::from_utf8_lossy(&b).into_owned().into_bytes();
        while cut > b.len() || std::str::from_utf8(&b[..cut]).is_err() {
            cut -= 1;
        }
    }
    let all = run(&b, cut);
    let (first, want) = &all[0];
    c.label(if want.is_ok() { "altered: decoded" } else { "altered: an error" });
    for (n, r) in &all[1..] {
        match (want, r) {
            (Err(_), Err(_)) => {}
            (Ok((a, _)), Ok((b, _))) if a == b => {}
            _ => return Err(format!("{name}: altered: {n} gives {} where {first} gives {}", short(format!("{r:?}")), short(format!("{want:?}")))),
        }
    }
    let mut places = all.iter().filter_map(|(_, r)| r.as_ref().ok().and_then(|r| r.1));
    if let Some(a) = places.next() {
        for b in places {
            ensure_eq!(a, b, "{name}: altered: bytes used");
        }
    }
    Ok(())
}
