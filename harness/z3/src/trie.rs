//! Z04: tries, compared with an ordered map of lists.
use std::collections::BTreeMap;

use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::slice::Packed;
use musli_zerocopy::{trie, Buf, ByteOrder, Error, OwnedBuf, Ref, ZeroCopy};
use pbt::{ensure, ensure_eq, hex, Case, Res, Src};
use zc::guard::guarded;
use zc::types::Sz;

/// Flavors of which every part has its own width.
pub struct Small;

impl trie::Flavor for Small {
    type String = Packed<[u8], u32, u8>;
    type Values<T>
        = Packed<[T], u32, u16>
    where
        T: ZeroCopy;
    type Children<T>
        = Packed<[T], u32, u8>
    where
        T: ZeroCopy;
}

pub struct Swapped;

impl trie::Flavor for Swapped {
    type String = Packed<[u8], u16, u16, Big>;
    type Values<T>
        = Packed<[T], u16, u8, Big>
    where
        T: ZeroCopy;
    type Children<T>
        = Packed<[T], u16, u16, Little>
    where
        T: ZeroCopy;
}

pub struct Mixed;

impl trie::Flavor for Mixed {
    type String = Ref<[u8], Big, u32>;
    type Values<T>
        = Ref<[T], Little, usize>
    where
        T: ZeroCopy;
    type Children<T>
        = Packed<[T], usize, u8>
    where
        T: ZeroCopy;
}

type Model = BTreeMap<Vec<u8>, Vec<u32>>;

fn key(s: &mut Src, before: &[(Vec<u8>, u32)], text: bool) -> Vec<u8> {
    let mut k = vec![];
    if !before.is_empty() && s.chance(2, 3) {
        // Shares a prefix with a previous one.
        let at = s.index(before.len());
        k.extend_from_slice(&before[at].0);
        let n = s.size(0, k.len());
        k.truncate(k.len() - n);
    }
    let n = s.size(0, 5);
    for _ in 0..n {
        if text {
            let c = match s.upto(5) {
                0 => s.char(),
                n => (b'a' + (n - 1) as u8) as char,
            };
            k.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
        } else {
            k.push(*s.pick(&[b'a', b'b', b'c', 0, 0x7f, 0x80, 0xff]));
        }
    }
    if text {
        k = String::from_utf8_lossy(&k).into_owned().into_bytes();
    }
    k
}

fn queries(s: &mut Src, entries: &[(Vec<u8>, u32)], text: bool) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    for (k, _) in entries {
        out.push(k.clone());
    }
    for _ in 0..s.size(0, 12) {
        out.push(key(s, entries, text));
    }
    for (k, _) in entries.iter().take(8) {
        let mut k = k.clone();
        match s.upto(2) {
            0 => {
                k.pop();
            }
            1 => k.push(b'a'),
            _ => {
                if let Some(l) = k.last_mut() {
                    *l = l.wrapping_add(1);
                }
            }
        }
        out.push(k);
    }
    out
}

type Pairs<'a> = Vec<(&'a [u8], u32)>;

fn pairs<'a, I>(it: I) -> Result<Pairs<'a>, String>
where
    I: Iterator<Item = Result<(&'a [u8], &'a u32), Error>>,
{
    let mut out: Pairs<'a> = vec![];
    for e in it {
        let (k, v) = e.map_err(|e| format!("iterating: {e}"))?;
        out.push((k, *v));
    }
    // The order of keys is not specified, that of the values of one is.
    out.sort_by(|a, b| a.0.cmp(b.0));
    Ok(out)
}

fn values<'a, I>(it: I) -> Result<Vec<u32>, String>
where
    I: Iterator<Item = Result<&'a u32, Error>>,
{
    let mut out = vec![];
    for v in it {
        out.push(*v.map_err(|e| format!("values: {e}"))?);
    }
    out.sort();
    Ok(out)
}

const DEEP: usize = 1024;

fn check<F: trie::Flavor>(buf: &Buf, trie: &trie::TrieRef<u32, F>, model: &Model, queries: &[Vec<u8>], full: bool) -> Res {
    let entries = |p: &[u8]| -> Vec<(Vec<u8>, u32)> {
        model.iter().filter(|(k, _)| k.starts_with(p)).flat_map(|(k, v)| v.iter().map(|v| (k.clone(), *v))).collect()
    };
    let own = |p: Pairs| -> Vec<(Vec<u8>, u32)> { p.into_iter().map(|(k, v)| (k.to_vec(), v)).collect() };
    let sorted = |mut v: Vec<u32>| {
        v.sort();
        v
    };
    let all = entries(b"");
    let numbers = sorted(all.iter().map(|e| e.1).collect());
    ensure_eq!(own(pairs(trie.iter(buf))?), all, "iter");
    ensure_eq!(values(trie.values(buf))?, numbers, "values");
    if full {
        ensure_eq!(own(pairs(trie.iter_fixed::<DEEP>(buf))?), all, "iter_fixed");
        ensure_eq!(values(trie.values_fixed::<DEEP>(buf))?, numbers, "values_fixed");
        // As many entries, each with its key.
        let debug = format!("{:?}", trie.debug(buf));
        ensure_eq!(debug, format!("{:?}", trie.debug_fixed::<DEEP>(buf)), "debug_fixed");
        let mut count = 0;
        for (k, v) in pairs(trie.iter(buf))? {
            if let Ok(k) = std::str::from_utf8(k) {
                let text = format!("{k:?}: {v}");
                ensure!(!k.chars().all(char::is_alphanumeric) || debug.contains(&text), "debug {debug} lacks {text}");
            }
            count += 1;
        }
        ensure!(count == all.len(), "count");
        // No more than a stack of two fits.
        let got: Result<Vec<_>, _> = trie.iter_fixed::<2>(buf).collect();
        if let Ok(got) = got {
            ensure_eq!(got.len(), all.len(), "iter_fixed with a small stack");
        }
    }
    for q in queries {
        let got = trie.get(buf, q).map_err(|e| format!("get {}: {e}", hex(q)))?;
        // Nodes in between have no values.
        let got = got.filter(|v| !v.is_empty());
        ensure_eq!(got.map(|v| v.to_vec()), model.get(q).cloned(), "get {}", hex(q));
        let within = entries(q);
        let numbers = sorted(within.iter().map(|e| e.1).collect());
        ensure_eq!(own(pairs(trie.iter_in(buf, q))?), within, "iter_in {}", hex(q));
        ensure_eq!(values(trie.values_in(buf, q))?, numbers, "values_in {}", hex(q));
        if full {
            ensure_eq!(own(pairs(trie.iter_in_fixed::<DEEP, _>(buf, q))?), within, "iter_in_fixed {}", hex(q));
            ensure_eq!(values(trie.values_in_fixed::<DEEP, _>(buf, q))?, numbers, "values_in_fixed {}", hex(q));
        }
    }
    Ok(())
}

fn input(s: &mut Src, c: &mut Case, what: &str) -> (Vec<(Vec<u8>, u32)>, Model, Vec<Vec<u8>>, bool) {
    let text = s.bool();
    let n = if s.chance(1, 30) { s.size(0, 200) } else { s.size(0, 24) };
    let mut entries: Vec<(Vec<u8>, u32)> = vec![];
    for n in 0..n {
        let k = key(s, &entries, text);
        entries.push((k, n as u32));
    }
    let mut model = Model::new();
    for (k, v) in &entries {
        model.entry(k.clone()).or_default().push(*v);
    }
    let queries = queries(s, &entries, text);
    c.desc(|| {
        let e: Vec<_> = entries.iter().map(|(k, v)| format!("{:?}={v}", String::from_utf8_lossy(k))).collect();
        format!("{what}: {}", e.join(" "))
    });
    if model.len() > 1 {
        c.nontrivial(&(what, &entries));
    }
    c.label(match model.len() {
        0 => "empty",
        1..=3 => "1-3 keys",
        4..=10 => "4-10 keys",
        _ => "over 10 keys",
    });
    (entries, model, queries, text)
}

fn built<F: trie::Flavor + 'static, E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case, may_fail: bool) -> Res
where
    trie::TrieRef<u32, F>: Copy,
{
    let what = std::any::type_name::<(F, E, O)>();
    let (entries, model, queries, text) = input(s, c, what);
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let mut builder = trie::Builder::<u32, F>::with_flavor();
    for (k, v) in &entries {
        // The builder only ever reads the buffer.
        if text {
            let r = buf.store_unsized(std::str::from_utf8(k).unwrap());
            builder.insert(&buf, r, *v).map_err(|e| format!("insert: {e}"))?;
        } else {
            let r = buf.store_slice(k);
            builder.insert(&buf, r, *v).map_err(|e| format!("insert: {e}"))?;
        }
    }
    let trie = match builder.build(&mut buf) {
        Ok(trie) => trie,
        Err(e) => {
            ensure!(may_fail && buf.len() > 0xf000, "build: {e}");
            return Ok(());
        }
    };
    let root = buf.store(&trie);
    buf.align_in_place();
    let full = s.chance(1, 4);
    check(&buf, &trie, &model, &queries, full)?;
    let bytes = buf.as_slice();
    let slack = (0isize - bytes.len() as isize).rem_euclid(16) as usize;
    let (out, clean) = guarded(bytes, slack, |b| -> Res {
        let buf = Buf::new(b);
        let trie = *buf.load(root).map_err(|e| format!("root: {e}"))?;
        check(buf, &trie, &model, &queries, false)
    });
    ensure!(clean, "bytes around the buffer were written");
    out.map_err(|e| format!("loaded again: {e}"))
}

pub fn flavors(s: &mut Src, c: &mut Case) -> Res {
    match s.upto(6) {
        0 => built::<trie::DefaultFlavor, Native, u32>(s, c, false),
        1 => built::<trie::DefaultFlavor<Big, u64>, Native, u32>(s, c, false),
        2 => built::<trie::DefaultFlavor<Little, u16>, Big, u32>(s, c, true),
        3 => built::<Small, Native, u32>(s, c, false),
        4 => built::<Small, Big, u64>(s, c, false),
        5 => built::<Swapped, Native, u32>(s, c, true),
        _ => built::<Mixed, Little, u16>(s, c, true),
    }
}

fn stored<E: ByteOrder, O: Sz>(s: &mut Src, c: &mut Case) -> Res {
    let what = std::any::type_name::<(E, O)>();
    let (entries, model, queries, text) = input(s, c, what);
    let mut buf = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let trie = if text {
        let list: Vec<_> = entries.iter().map(|(k, v)| (buf.store_unsized(std::str::from_utf8(k).unwrap()), *v)).collect();
        trie::store(&mut buf, list)
    } else {
        let list: Vec<_> = entries.iter().map(|(k, v)| (buf.store_slice(k), *v)).collect();
        trie::store(&mut buf, list)
    };
    let trie = trie.map_err(|e| format!("store: {e}"))?;
    buf.align_in_place();
    let full = s.chance(1, 4);
    check(&buf, &trie, &model, &queries, full)
}

pub fn store(s: &mut Src, c: &mut Case) -> Res {
    match s.upto(3) {
        0 => stored::<Native, u32>(s, c),
        1 => stored::<Big, u32>(s, c),
        2 => stored::<Little, u16>(s, c),
        _ => stored::<Big, usize>(s, c),
    }
}

/// Substrings of one text as keys, so that they overlap in memory.
pub fn shared(s: &mut Src, c: &mut Case) -> Res {
    let n = s.size(1, 40);
    let text: Vec<u8> = (0..n).map(|_| *s.pick(b"abc")).collect();
    let mut buf = OwnedBuf::new();
    let all = buf.store_slice(&text);
    let mut builder = trie::Builder::<u32>::new();
    let mut model = Model::new();
    let mut list = vec![];
    for v in 0..s.size(0, 20) as u32 {
        let from = s.upto(n as u64) as usize;
        let to = from + s.upto((n - from) as u64) as usize;
        let r = all.split_at(to).0.split_at(from).1;
        list.push((from, to));
        model.entry(text[from..to].to_vec()).or_default().push(v);
        builder.insert(&buf, r, v).map_err(|e| format!("insert: {e}"))?;
    }
    c.desc(|| format!("{:?} at {list:?}", String::from_utf8_lossy(&text)));
    if model.len() > 1 {
        c.nontrivial(&(&text, &list));
    }
    let mut queries: Vec<Vec<u8>> = model.keys().cloned().collect();
    for _ in 0..8 {
        let n = s.size(0, 5);
        queries.push((0..n).map(|_| *s.pick(b"abcd")).collect());
    }
    let trie = builder.build(&mut buf).map_err(|e| format!("build: {e}"))?;
    buf.align_in_place();
    check(&buf, &trie, &model, &queries, true)
}

/// Lookups in tries whose bytes were altered. Iteration is left out, since one
/// with cycles does not end.
pub fn altered(s: &mut Src, c: &mut Case) -> Res {
    fn go<F: trie::Flavor>(s: &mut Src, c: &mut Case) -> Res
    where
        trie::TrieRef<u32, F>: Copy,
    {
        let (entries, _, queries, _) = input(s, c, "altered");
        let mut buf = OwnedBuf::new();
        let mut builder = trie::Builder::<u32, F>::with_flavor();
        for (k, v) in &entries {
            let r = buf.store_slice(k);
            builder.insert(&buf, r, *v).map_err(|e| format!("insert: {e}"))?;
        }
        let trie = builder.build(&mut buf).map_err(|e| format!("build: {e}"))?;
        let root = buf.store(&trie);
        buf.align_in_place();
        let mut bytes = buf.as_slice().to_vec();
        let len = bytes.len();
        for _ in 0..s.size(1, 4) {
            // Mostly where the nodes are.
            let at = if s.chance(3, 4) { len - 1 - s.index(len.min(100)) } else { s.index(len) };
            bytes[at] = match s.upto(3) {
                0 => bytes[at] ^ (1 << s.upto(7)),
                1 => s.upto(len as u64).min(255) as u8,
                2 => 0xff,
                _ => s.upto(255) as u8,
            };
        }
        c.desc(|| format!("trie at {} of {}", root.offset(), hex(&bytes)));
        let slack = (0isize - bytes.len() as isize).rem_euclid(16) as usize;
        let (out, clean) = guarded(&bytes, slack, |b| -> Res {
            let buf = Buf::new(b);
            let Ok(trie) = buf.load(root) else { return Ok(()) };
            let trie = *trie;
            for q in &queries {
                match trie.get(buf, q) {
                    Ok(Some(_)) => c.label("found"),
                    Ok(None) => c.label("not found"),
                    Err(_) => c.label("error"),
                }
            }
            Ok(())
        });
        ensure!(clean, "bytes around the buffer were written");
        out
    }
    match s.upto(2) {
        0 => go::<trie::DefaultFlavor>(s, c),
        1 => go::<Small>(s, c),
        _ => go::<Mixed>(s, c),
    }
}
