//! Input of any kind.
use std::cell::RefCell;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::Command;
use std::time::{Duration, Instant};

use pbt::{alloc, ensure, hex, short, Case, Family, Finding, Property, Res, Src};

use dynv::*;
use mz::c13::{mutate, zero_width};
use mz::formats::{binary, formats, throughs};
use mz::js::Js;

use crate::stat;

pub fn property() -> Property {
    Property {
        id: "C05",
        rule: "the input is not the plain encoding of a value of the type which is decoded",
        assumptions: &[
            "a read outside of the input is seen when it crosses the end of the page the input ends at",
        ],
        families: vec![
            Family::new("bytes", 3_000_000, bytes).thorough(40_000_000),
            Family::new("static", 6_000_000, statics).thorough(72_000_000),
            Family::new("text", 2_000_000, text).thorough(30_000_000),
            Family::new("value", 1_500_000, value).thorough(20_000_000),
            Family::new("nested", 2_000, nested).thorough(100_000),
            Family::new("deep-skip", 100, deep_skip).thorough(4_000),
        ],
        findings: vec![
            Finding { id: "C05-deep-json", probe: || probe("deep-json") },
            Finding { id: "C05-deep-json-value", probe: || probe("deep-json-value") },
            Finding { id: "C05-deep-descriptive-value", probe: || probe("deep-descriptive-value") },
            Finding { id: "C05-nothing-many", probe: || probe("nothing-many") },
        ],
    }
}

/// A page which can not be read follows the input.
struct Guard(*mut u8);

const ARENA: usize = 4 << 20;
const PAGE: usize = 4096;

impl Guard {
    fn new() -> Guard {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                ARENA + PAGE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            assert!(libc::mprotect(p.cast::<u8>().add(ARENA).cast(), PAGE, libc::PROT_NONE) == 0);
            Guard(p.cast())
        }
    }
}

/// Call with the same bytes where what follows them can not be read.
pub fn guarded<T>(b: &[u8], f: impl FnOnce(&[u8]) -> T) -> T {
    thread_local! {
        static GUARD: RefCell<Option<Guard>> = const { RefCell::new(None) };
    }
    let p = GUARD.with(|g| g.borrow_mut().get_or_insert_with(Guard::new).0);
    assert!(b.len() <= ARENA);
    // SAFETY: the arena is as long, and only used by this function on this
    // thread, which does not nest.
    unsafe {
        let at = p.add(ARENA - b.len());
        std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
        f(std::slice::from_raw_parts(at, b.len()))
    }
}

/// Decode while counting memory.
fn bounded<T>(what: impl Fn() -> String, b: &[u8], f: impl FnOnce(&[u8]) -> T) -> Result<T, String> {
    let (out, u) = guarded(b, |b| alloc::measure(|| f(b)));
    let bound = (6 << 20) + 4096 * b.len();
    ensure!(u.peak <= bound, "{}: {} bytes of memory for {} bytes of input {}", what(), u.peak, b.len(), hex(b));
    Ok(out)
}

/// Announce more than there is.
fn stretch(s: &mut Src, b: &mut Vec<u8>) {
    let n = b.len();
    let i = if s.bool() { s.size(0, n.min(3)) } else { s.size(0, n) };
    let big = match s.upto(6) {
        0 => u64::MAX,
        1 => 1 << 63,
        2 => (1 << 63) - 1,
        3 => u32::MAX as u64,
        4 => 1 << s.range(16, 62),
        5 => u64::MAX / s.range(2, 64),
        _ => s.range(1 << 16, 1 << 34),
    };
    let new: Vec<u8> = match s.upto(5) {
        0 => big.to_le_bytes().to_vec(),
        1 => big.to_be_bytes().to_vec(),
        2 => {
            let mut v = Vec::new();
            let mut x = big;
            while x >= 0x80 {
                v.push(x as u8 | 0x80);
                x >>= 7;
            }
            v.push(x as u8);
            v
        }
        3 => vec![0xff; s.size(1, 20)],
        4 => {
            let mut v = (big as u32).to_le_bytes().to_vec();
            if s.bool() {
                v.reverse();
            }
            v
        }
        _ => vec![0xff, 0xff, 0x7f],
    };
    let end = if s.bool() { (i + new.len()).min(n) } else { i };
    b.splice(i..end, new);
}

/// Bytes which are not what one would expect.
fn spoil(s: &mut Src, b: &mut Vec<u8>) {
    if s.bool() {
        mutate(s, b);
    }
    if s.chance(1, 3) {
        stretch(s, b);
    }
    if s.chance(1, 8) {
        let n = s.size(0, b.len());
        b.truncate(n);
    }
    b.truncate(60_000);
}

fn shape(s: &mut Src, caps: Caps) -> (Gen, Ty) {
    let mut g = Gen::new(caps);
    g.budget = 20;
    g.str_max = 60;
    let d = s.size(0, 3);
    let ty = g.ty(s, d);
    (g, ty)
}

fn bytes(s: &mut Src, c: &mut Case) -> Res {
    let fmts = binary();
    let f = fmts[s.index(fmts.len())];
    let (mut g, mut ty) = shape(s, f.caps);
    let mut b = match s.upto(5) {
        0 => s.bytes(60),
        1 => {
            let (mut g, other) = shape(s, f.caps);
            let v = g.val(s, &other);
            (f.enc)(&v).unwrap_or_default()
        }
        _ => {
            let v = g.val(s, &ty);
            (f.enc)(&v).unwrap_or_default()
        }
    };
    spoil(s, &mut b);
    if matches!(f.kind, Kind::Wire | Kind::Descriptive) && s.chance(1, 5) {
        ty = Ty::Skip;
    }
    c.desc(|| format!("{} {:?} {}", f.name, ty, hex(&b)));
    if zero_width(&ty) {
        return Ok(());
    }
    c.nontrivial(&(f.name, &b, format!("{ty:?}")));
    set_style(s.upto(u32::MAX as u64));
    let out = bounded(|| format!("{} {ty:?}", f.name), &b, |b| (f.dec_rest)(&ty, b))?;
    match out {
        Ok((_, n)) => {
            c.label("value");
            ensure!(n <= b.len(), "{} {ty:?}: used {n} of {} bytes", f.name, b.len());
        }
        Err(_) => c.label("error"),
    }
    Ok(())
}

fn statics(s: &mut Src, c: &mut Case) -> Res {
    let (f, i, e) = stat::pick(s);
    if f.kind == Kind::Value {
        return Ok(());
    }
    let mut b = match s.upto(7) {
        0 => s.bytes(60),
        1 => {
            let (g, j, o) = stat::pick(s);
            (g.fns[j].enc)(&*(o.gen)(s)).unwrap_or_default()
        }
        2 => {
            // another type
            let j = s.index(f.fns.len());
            let v = (stat::entries()[j].gen)(s);
            (f.fns[j].enc)(&*v).unwrap_or_default()
        }
        _ => (f.fns[i].enc)(&*(e.gen)(s)).unwrap_or_default(),
    };
    spoil(s, &mut b);
    c.desc(|| format!("{} {} {}", f.name, e.name, hex(&b)));
    c.nontrivial(&(f.name, e.name, &b));
    let out = bounded(|| format!("{} {}", f.name, e.name), &b, |b| (f.fns[i].dec)(b))?;
    match out {
        Ok((v, n)) => {
            c.label("value");
            ensure!((e.valid)(&*v), "{} {}: an invalid value is decoded from {}", f.name, e.name, hex(&b));
            ensure!(n <= b.len(), "{} {}: used {n} of {} bytes", f.name, e.name, b.len());
            // It is a value like any other.
            let _ = (e.debug)(&*v);
            // JSON has no spelling for the numbers which are not finite.
            let again = (f.fns[i].enc)(&*v).map_err(|err| format!("{} {}: the value decoded from {} does not encode: {err}", f.name, e.name, hex(&b)))?;
            if f.kind == Kind::Json && (again.windows(3).any(|w| w == b"inf" || w == b"NaN")) {
                return Ok(());
            }
            let (w, _) = (f.fns[i].dec)(&again)
                .map_err(|err| format!("{} {}: the value decoded from {} does not survive: {err}", f.name, e.name, hex(&b)))?;
            ensure!((e.same)(&*v, &*w), "{} {}: the value decoded from {} does not survive", f.name, e.name, hex(&b));
        }
        Err(_) => c.label("error"),
    }
    Ok(())
}

/// Pieces of documents.
const PIECES: &[&str] = &[
    "[", "]", "{", "}", ",", ":", "\"", "\\", "\\u", "\\ud800", "\\udc00", "\\u00", "\\uD83D\\uDE00", "null", "true", "false", "nul", "tru", "-", "+", ".", "e", "E",
    "0", "00", "-0", "1e", "1e999999999999", "-1E-99999999999", "1e400", "0.", ".5", "123456789012345678901234567890123456789012", "1.7976931348623159e308",
    "4.9e-324", "2.2250738585072011e-308", "NaN", "Infinity", " ", "\n", "\t", "\r", "\0", "\u{7f}", "\u{80}", "\u{fffd}", "\u{10ffff}", "//", "/*", "'", "[[", "{}", "[]", "\"\"",
    "{\"", "\":", "\",", "\\\"", "\\\\", "\\x", "\u{1}",
];

fn text(s: &mut Src, c: &mut Case) -> Res {
    let f = formats().iter().find(|f| f.kind == Kind::Json).expect("JSON");
    let (mut g, mut ty) = shape(s, JSON);
    let mut b = match s.upto(5) {
        0 => {
            let n = s.size(0, 12);
            let mut out = String::new();
            for _ in 0..n {
                out.push_str(s.pick(PIECES));
            }
            out.into_bytes()
        }
        1 => {
            let mut budget = 20;
            Js::gen(s, 3, &mut budget).render(s).into_bytes()
        }
        _ => {
            let v = g.val(s, &ty);
            match Js::of(&v) {
                Some(js) => js.render(s).into_bytes(),
                None => (f.enc)(&v).unwrap_or_default(),
            }
        }
    };
    for _ in 0..s.size(0, 3) {
        let n = b.len();
        let i = s.size(0, n);
        match s.upto(3) {
            0 => {
                let p = s.pick(PIECES).as_bytes().to_vec();
                b.splice(i..i, p);
            }
            1 => b.truncate(i),
            2 => {
                let j = s.size(i, n.min(i + 6));
                b.drain(i..j);
            }
            _ => mutate(s, &mut b),
        }
    }
    if s.chance(1, 6) {
        ty = Ty::Skip;
    }
    c.desc(|| format!("{:?} {}", ty, short(String::from_utf8_lossy(&b))));
    c.nontrivial(&(&b, format!("{ty:?}")));
    set_style(s.upto(u32::MAX as u64));
    let name = |how: &str| format!("{how} {ty:?} {}", short(String::from_utf8_lossy(&b)));
    let a = bounded(|| name("slice"), &b, |b| (f.dec)(&ty, b))?;
    c.label(if a.is_ok() { "value" } else { "error" });
    let r = bounded(|| name("moving slice"), &b, |b| fmt_jsonsrc::from_moving_slice(&ty, b))?;
    if let Ok((_, n)) = r {
        ensure!(n <= b.len(), "{}: used {n} of {} bytes", name("moving slice"), b.len());
    }
    if let Ok(t) = std::str::from_utf8(&b) {
        let _ = bounded(|| name("string"), t.as_bytes(), |b| fmt_jsonsrc::from_str(&ty, std::str::from_utf8(b).expect("it is")))?;
        let r = bounded(|| name("moving string"), t.as_bytes(), |b| fmt_jsonsrc::from_moving_str(&ty, std::str::from_utf8(b).expect("it is")))?;
        if let Err(e) = &r {
            ensure!(!e.starts_with("INVALID"), "{}: {e}", name("moving string"));
        }
    }
    let t = throughs().iter().find(|t| t.kind == Kind::Json).expect("JSON");
    let _ = bounded(|| name("value"), &b, |b| (t.debug)(b))?;
    Ok(())
}

/// Through the dynamic value, and buffers.
fn value(s: &mut Src, c: &mut Case) -> Res {
    let ts = throughs();
    let t = s.pick(ts);
    let caps = if t.kind == Kind::Json { JSON } else { BINARY };
    let (mut g, ty) = shape(s, caps);
    let (mut h, other) = shape(s, caps);
    let v = if s.bool() { g.val(s, &ty) } else { h.val(s, &other) };
    let mut b = (t.enc)(&v).unwrap_or_default();
    if s.chance(3, 4) {
        spoil(s, &mut b);
    }
    c.desc(|| format!("{} {:?} {}", t.name, ty, hex(&b)));
    if zero_width(&ty) {
        return Ok(());
    }
    c.nontrivial(&(t.name, &b, format!("{ty:?}")));
    set_style(s.upto(u32::MAX as u64));
    let name = |how: &str| format!("{how} {} {ty:?}", t.name);
    let a = bounded(|| name("debug"), &b, |b| (t.debug)(b))?;
    c.label(if a.is_ok() { "value" } else { "error" });
    let _ = bounded(|| name("redo"), &b, |b| (t.redo)(b))?;
    let _ = bounded(|| name("through"), &b, |b| (t.to_value)(&ty, b))?;
    let _ = bounded(|| name("buffered"), &b, |b| (t.buffered)(&ty, b))?;
    Ok(())
}

/// Nesting of what a document can nest in practice.
fn nested(s: &mut Src, c: &mut Case) -> Res {
    let ts = throughs();
    let t = s.pick(ts);
    let depth = s.size(1, 250);
    let mut v = Val::Int(Int::U8, Num::U(1));
    let mut options = 2;
    for _ in 0..depth {
        v = match s.upto(3) {
            0 if t.kind != Kind::Json && options > 0 => {
                options -= 1;
                Val::Some(Box::new(v))
            }
            1 => Val::Datav(Box::new(Val::Str("x".into())), Box::new(v)),
            2 => Val::Map(vec![(Val::Str("k".into()), v)]),
            _ => Val::Seq(vec![v]),
        };
    }
    c.desc(|| format!("{} depth {depth}", t.name));
    c.nontrivial(&(t.name, depth));
    set_style(0);
    let mut b = (t.enc)(&v).map_err(|e| format!("{}: {e}", t.name))?;
    let cut = s.chance(1, 3);
    if cut {
        b.truncate(s.size(0, b.len() - 1));
    }
    for (how, out) in [
        ("debug", bounded(|| t.name.to_string(), &b, |b| (t.debug)(b).map(drop))?),
        ("skip", bounded(|| t.name.to_string(), &b, |b| (t.dec)(&Ty::Skip, b).map(drop))?),
        ("redo", bounded(|| t.name.to_string(), &b, |b| (t.redo)(b).map(drop))?),
    ] {
        ensure!(cut || out.is_ok(), "{}: {how} of depth {depth}: {:?}", t.name, out.err());
    }
    Ok(())
}

/// Skipping in the binary formats takes no stack.
fn deep_skip(s: &mut Src, c: &mut Case) -> Res {
    let fmts: Vec<&Fmt> = binary().iter().copied().filter(|f| matches!(f.kind, Kind::Wire | Kind::Descriptive)).collect();
    let f = fmts[s.index(fmts.len())];
    let n = s.size(1_000, 200_000);
    let b = deep(f.enc, n);
    c.desc(|| format!("{} depth {n}", f.name));
    c.nontrivial(&(f.name, n));
    let whole = s.bool();
    let b = if whole { [b, (f.enc)(&Val::Int(Int::U8, Num::U(1))).unwrap_or_default()].concat() } else { b };
    let out = bounded(|| format!("{} skip", f.name), &b, |b| (f.dec_rest)(&Ty::Skip, b))?;
    ensure!(out.is_ok() == whole, "{}: skip of depth {n}: {out:?}", f.name);
    Ok(())
}

/// Run a probe in a process of its own and tell how it ended, if not well.
fn probe(what: &str) -> Option<String> {
    let mut cmd = Command::new(std::env::current_exe().ok()?);
    cmd.env("MS_PROBE", what).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            Ok(())
        });
    }
    let mut child = cmd.spawn().ok()?;
    let start = Instant::now();
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            return match st.signal() {
                Some(n) => Some(format!("{what}: ended by signal {n}")),
                None if st.code() != Some(0) => Some(format!("{what}: ended with {st}")),
                None => None,
            };
        }
        if start.elapsed() > Duration::from_secs(4) {
            let _ = child.kill();
            let _ = child.wait();
            return Some(format!("{what}: makes no progress"));
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// In the process of a probe: anything but a normal end is a finding.
pub fn run_probe(what: &str) {
    let n = 2_000_000;
    let t = |kind: Kind| throughs().iter().find(|t| t.kind == kind).expect("a format");
    match what {
        "deep-json" => drop((t(Kind::Json).dec)(&Ty::Skip, &vec![b'['; n])),
        "deep-json-value" => drop((t(Kind::Json).debug)(&vec![b'['; n])),
        "deep-descriptive-value" => drop((t(Kind::Descriptive).debug)(&deep(t(Kind::Descriptive).enc, n / 8))),
        "nothing-many" => {
            let f = formats().iter().find(|f| f.kind == Kind::Storage && !f.opts.fixed && f.opts.ptr == 0).expect("storage");
            let mut b = vec![0xff; 8];
            b.push(0x7f);
            drop((f.dec)(&Ty::Seq(Box::new(Ty::Pack(vec![]))), &b))
        }
        _ => {}
    }
}

/// The start of a sequence in a sequence, again and again.
fn deep(enc: fn(&Val) -> R<Vec<u8>>, n: usize) -> Vec<u8> {
    let inner = enc(&Val::Seq(vec![])).expect("a sequence").len();
    let v = enc(&Val::Seq(vec![Val::Seq(vec![])])).expect("a sequence");
    v[..v.len() - inner].repeat(n)
}
