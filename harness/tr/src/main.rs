use std::sync::OnceLock;

use tri::musli::alloc::Slice;
use tri::musli::context::{self, DefaultContext, Ignore, Trace};
use pbt::{ensure, ensure_eq, hex, short, Case, Family, Property, Res, Src};
use tri::model::*;
use tri::musli;
use tri::run::*;

fn fmts() -> &'static [Fmt] {
    static FMTS: OnceLock<Vec<Fmt>> = OnceLock::new();
    FMTS.get_or_init(|| vec![trf_storage::fmt(), trf_storage_fixed::fmt(), trf_wire::fmt(), trf_descriptive::fmt(), trf_json::fmt()])
}

/// One line of a report.
#[derive(Debug, Clone, PartialEq)]
struct Line {
    path: String,
    message: String,
    range: (usize, usize),
}

/// Takes apart lines for which there are known messages to tell where they start.
fn parse(line: &str) -> Result<Line, String> {
    let bad = || format!("a REPORT which can't be understood: {line:?}");
    let (rest, range) = match (line.rfind(" (at bytes "), line.rfind(" (at byte ")) {
        (Some(i), _) => {
            let (a, b) = line[i + 11..].strip_suffix(')').and_then(|s| s.split_once('-')).ok_or_else(bad)?;
            (&line[..i], (a.parse().map_err(|_| bad())?, b.parse().map_err(|_| bad())?))
        }
        (_, Some(i)) => {
            let a = line[i + 10..].strip_suffix(')').ok_or_else(bad)?.parse().map_err(|_| bad())?;
            (&line[..i], (a, a))
        }
        _ => (line, (0, 0)),
    };
    // What separates them is the first colon with a space after it. Two of
    // them are the end of the name of an enum.
    let colons = |i: usize| rest[..=i].bytes().rev().take_while(|&b| b == b':').count();
    let at = rest.match_indices(": ").map(|(i, _)| i).find(|&i| colons(i) != 2).ok_or_else(bad)?;
    let (path, message) = (&rest[..at], &rest[at + 2..]);
    Ok(Line { path: path.into(), message: message.into(), range })
}

fn lines<A: musli::Allocator>(cx: &DefaultContext<A, Trace, Ignore>) -> Result<Vec<Line>, String> {
    let report = cx.report().to_string();
    let all: Vec<_> = cx.errors().map(|e| e.to_string()).collect();
    ensure_eq!(report, all.iter().map(|e| format!("{e}\n")).collect::<String>(), "the report and the errors");
    all.iter().map(|l| parse(l)).collect()
}


/// A document which might have a fault in one of its leaves.
struct Doc {
    fmt: &'static Fmt,
    tree: Tree,
    find: Option<Path>,
}

struct Path {
    steps: Vec<Step>,
    untagged: bool,
    buffered: bool,
}

impl Path {
    fn of(tree: &Tree, leaf: &str, encode: bool) -> Option<Path> {
        let mut f = Find::new(leaf, encode);
        f.tree(tree);
        f.found.then_some(Path { steps: f.path, untagged: f.untagged, buffered: f.buffered })
    }

    /// While it is put aside nothing is known about what is inside.
    fn aside(&mut self) {
        if let Some(i) = self.steps.iter().position(|s| *s == Step::Enum("In")) {
            self.steps.truncate(i + 1);
        }
    }
}

fn doc(s: &mut Src, c: &mut Case, plain: bool, bad: Option<&'static str>) -> Doc {
    let fmt = s.pick(fmts());
    let bad = bad.map(|b| (1 + s.size(0, 12), b));
    let left = s.size(0, 30);
    let d = s.size(0, 7);
    let mut g = Gen { tagged: fmt.tagged && !plain, plain, packless: fmt.json, aside: false, left, leaves: 0, bad };
    let tree = g.tree(s, d);
    let find = bad.and_then(|(_, b)| Path::of(&tree, b, b == BAD_ENCODE));
    c.desc(|| short(format!("{} {tree:?}", fmt.name)));
    match bad {
        Some(_) => {
            if let Some(f) = &find {
                c.nontrivial(&(fmt.name, format!("{tree:?}")));
                c.label(if f.untagged {
                    "a fault where alternatives are tried"
                } else if f.buffered {
                    "a fault in what is put aside"
                } else {
                    "a fault"
                });
            }
        }
        None => c.nontrivial(&(fmt.name, format!("{tree:?}"))),
    }
    Doc { fmt, tree, find }
}

fn encoded(d: &Doc) -> Result<Vec<u8>, String> {
    (d.fmt.plain_encode)(&d.tree).ok_or_else(|| format!("{}: encoding failed", d.fmt.name))
}

fn traced(types: bool) -> Traced {
    let cx = context::new().with_trace();
    if types {
        cx.with_type()
    } else {
        cx
    }
}

fn within(name: &str, lines: &[Line], len: usize) -> Res {
    for l in lines {
        let (a, b) = l.range;
        // What is packed and put aside is not where it was any more.
        let aside = l.path.contains("In { .0 = ") || l.path.contains("In::");
        ensure!(a <= b && (b <= len || aside), "{name}: the RANGE {a}-{b} is not in the {len} bytes there are: {l:?}");
    }
    Ok(())
}

/// Decodes in every context and from every source, all of which have to agree
/// and to come to the same report.
fn decode_all(fmt: &Fmt, b: &[u8], types: bool) -> Result<(Option<Tree>, Vec<(String, Vec<Line>)>), String> {
    let plain = (fmt.plain_decode)(b);
    let mut reports = Vec::new();
    let mut check = |n: &str, out: Option<Tree>, lines: Vec<Line>| -> Res {
        let n = format!("{}: {n}", fmt.name);
        ensure!(out == plain, "{n}: TRACED gives {} and plain {}", short(format!("{out:?}")), short(format!("{plain:?}")));
        ensure!(out.is_none() || lines.is_empty(), "{n}: REPORTED for what was decoded: {lines:?}");
        ensure!(out.is_some() || !lines.is_empty(), "{n}: NOTHING reported");
        within(&n, &lines, b.len())?;
        reports.push((n, lines));
        Ok(())
    };
    for (n, f) in &fmt.decode {
        let cx = traced(types);
        let out = f(&cx, b);
        check(n, out, lines(&cx)?)?;
    }
    let cx = context::new().with_trace().with_capture::<String>();
    let cx = if types { cx.with_type() } else { cx };
    let out = (fmt.captured)(&cx, b);
    let failed = out.is_none();
    let report = cx.report().to_string();
    let all: Vec<_> = cx.errors().map(|e| e.to_string()).collect();
    ensure_eq!(report, all.iter().map(|e| format!("{e}\n")).collect::<String>(), "the captured report and the errors");
    check("captured", out, all.iter().map(|l| parse(l)).collect::<Result<_, _>>()?)?;
    match cx.result() {
        Ok(()) => ensure!(!failed, "{}: NOTHING was captured", fmt.name),
        Err(e) => {
            ensure!(failed, "{}: CAPTURED an error of what was decoded: {e}", fmt.name);
            ensure!(report.contains(&e), "{}: CAPTURED {e:?} with the report {report:?}", fmt.name);
        }
    }
    Ok((plain, reports))
}

fn path(s: &mut Src, c: &mut Case) -> Res {
    let d = doc(s, c, false, Some(BAD));
    let b = encoded(&d)?;
    let types = s.bool();
    let (out, reports) = decode_all(d.fmt, &b, types)?;
    let Some(p) = &d.find else {
        ensure!(out.as_ref() == Some(&d.tree), "{}: decoded {}", d.fmt.name, short(format!("{out:?}")));
        return Ok(());
    };
    ensure!(out.is_none(), "{}: decoded a fault", d.fmt.name);
    let want = render(&p.steps, types);
    let at = b.windows(BAD.len()).position(|w| w == BAD.as_bytes()).expect("the fault is encoded");
    let end = at + BAD.len() + d.fmt.json as usize;
    for (n, lines) in reports {
        for l in &lines {
            ensure_eq!(l.path, want, "{n}: the PATH of {:?}", l.message);
        }
        if !p.untagged {
            ensure!(lines.len() == 1, "{n}: reported {lines:?}");
            ensure_eq!(lines[0].message, MESSAGE, "{n}: the message");
            if !p.buffered {
                ensure_eq!(lines[0].range, (end, end), "{n}: the POSITION with the fault at {at}-{end}");
            }
        }
    }
    Ok(())
}

fn encode(s: &mut Src, c: &mut Case) -> Res {
    let d = doc(s, c, false, Some(BAD_ENCODE));
    let types = s.bool();
    let cx = traced(types);
    let plain = (d.fmt.plain_encode)(&d.tree);
    let out = (d.fmt.encode)(&cx, &d.tree);
    ensure_eq!(out.as_ref().map(|b| hex(b)), plain.map(|b| hex(&b)), "{}: TRACED and plain encoding", d.fmt.name);
    let lines = lines(&cx)?;
    let Some(p) = &d.find else {
        ensure!(out.is_some(), "{}: encoding failed: {lines:?}", d.fmt.name);
        ensure!(lines.is_empty(), "{}: REPORTED for what was encoded: {lines:?}", d.fmt.name);
        return Ok(());
    };
    ensure!(out.is_none(), "{}: encoded a fault", d.fmt.name);
    ensure!(lines.len() == 1 && lines[0].message == MESSAGE_ENCODE, "{}: reported {lines:?}", d.fmt.name);
    if !types {
        ensure_eq!(lines[0].path, render(&p.steps, types), "{}: the PATH", d.fmt.name);
    }
    Ok(())
}

fn alter(s: &mut Src, fmt: &Fmt, b: &mut Vec<u8>) {
    for _ in 0..1 + s.index(2) {
        if b.is_empty() {
            return;
        }
        let i = s.size(0, b.len() - 1);
        let new = if fmt.json && s.bool() { *s.pick(b"\"{}[],:19 eau\\-") } else { s.upto(255) as u8 };
        match s.index(4) {
            0 => b.truncate(i),
            1 => b[i] = new,
            2 => b.insert(i, new),
            _ => {
                b.remove(i);
            }
        }
    }
}

fn altered(s: &mut Src, c: &mut Case) -> Res {
    let d = doc(s, c, false, None);
    let mut b = encoded(&d)?;
    alter(s, d.fmt, &mut b);
    if d.fmt.json && std::str::from_utf8(&b).is_err() && s.bool() {
        b = String::from_utf8_lossy(&b).into_owned().into_bytes();
    }
    c.desc(|| hex(&b));
    let (out, _) = decode_all(d.fmt, &b, s.bool())?;
    c.label(if out.is_some() { "altered: decoded" } else { "altered: an error" });
    Ok(())
}

/// The leaf fails because of what it is, is missing or is cut short.
fn kinds(s: &mut Src, c: &mut Case) -> Res {
    let d = doc(s, c, false, Some(BAD));
    let mut b = encoded(&d)?;
    let types = s.bool();
    let Some(mut p) = d.find else {
        return Ok(());
    };
    let at = b.windows(BAD.len()).position(|w| w == BAD.as_bytes()).expect("the fault is encoded");
    let mut end = at + BAD.len();
    let json = d.fmt.json;
    let cut = !json || s.index(4) == 0;
    if cut {
        c.label("cut short");
        end = at + s.index(BAD.len());
        b.truncate(end);
        p.aside();
    } else {
        let start = at - 1;
        let element = matches!(p.steps.last(), Some(Step::Index(_)));
        let new = *s.pick(&["1", "-5e3", "{}", "[1]", "null", "tru", "nul", "}", ",", "x", "\u{e9}", "true", "{\"a\": [1", "\"\\x\"", "\"\\ud800\"", "\"\u{0}\"", "\"\\u12g4\"", "\"\\", ""]);
        c.desc(|| new.into());
        let whole = &b[start..=end];
        let space = *s.pick(&["", " ", "\n\t  ", " \r\n"]);
        let text = format!("{space}{new}");
        assert!(whole.starts_with(b"\"") && whole.ends_with(b"\""));
        // These are no values, so what is put aside can't be.
        if !matches!(new, "1" | "-5e3" | "{}" | "[1]" | "null" | "true") {
            p.aside();
        }
        b.splice(start..=end, text.bytes());
        end = start + text.len();
        // There's nothing left, or another alternative takes it.
        if matches!(new, "" | ",") && element || matches!(new, "" | "," | "1") && p.untagged {
            return Ok(());
        }
        // An option takes it.
        if new == "null" && (matches!(p.steps.last(), Some(Step::Field("opt"))) || p.untagged) {
            return Ok(());
        }
    }
    let (out, reports) = decode_all(d.fmt, &b, types)?;
    ensure!(out.is_none(), "{}: decoded a fault", d.fmt.name);
    let want = render(&p.steps, types);
    // There is an element only if there is something that can be one.
    let around = matches!(p.steps.last(), Some(Step::Index(_))).then(|| render(&p.steps[..p.steps.len() - 1], types));
    let direct = !p.untagged && !p.buffered;
    for (n, lines) in reports {
        for l in &lines {
            let same = l.path == want || json && around.as_ref() == Some(&l.path);
            ensure!(same, "{n}: the PATH of {:?}: got {:?}, expected {want:?}", l.message, l.path);
            if direct {
                // Up to what is right after it can be part of what is there.
                ensure!(l.range.0 <= end + 1 && l.range.1 + 1 >= at.saturating_sub(1), "{n}: the POSITION of {l:?} with the fault at {at}-{end}");
            }
        }
    }
    Ok(())
}

/// A context which has been used before is like one which hasn't.
fn reuse(s: &mut Src, c: &mut Case) -> Res {
    let types = s.bool();
    let used = traced(types);
    let n = s.size(2, 5);
    for i in 0..n {
        let bad = [None, Some(BAD), Some(BAD_ENCODE)][s.index(3)];
        let d = doc(s, c, false, bad);
        let fresh = traced(types);
        if bad == Some(BAD_ENCODE) {
            let e = |cx| (d.fmt.encode)(cx, &d.tree).map(|b| hex(&b));
            ensure_eq!(e(&used), e(&fresh), "{}: use {i}: a USED context and a fresh one", d.fmt.name);
        } else {
            let mut b = encoded(&d)?;
            if s.bool() {
                alter(s, d.fmt, &mut b);
            }
            let f = s.pick(&d.fmt.decode).1;
            let (a, b) = (f(&used, &b), f(&fresh, &b));
            ensure!(a == b, "{}: use {i}: a USED context gives {} and a fresh one {}", d.fmt.name, short(format!("{a:?}")), short(format!("{b:?}")));
        }
        ensure_eq!(used.report().to_string(), fresh.report().to_string(), "{}: use {i}: the REPORTS of a used and a fresh context", d.fmt.name);
        if s.bool() {
            let mut all = used.errors();
            let mut again = all.clone();
            ensure_eq!(all.next().map(|e| e.to_string()), again.next().map(|e| e.to_string()), "the first error");
            drop(all);
            drop(again);
        }
    }
    Ok(())
}

/// What there is no room for is counted and nothing else changes.
fn capped(s: &mut Src, c: &mut Case) -> Res {
    let types = s.bool();
    let n = s.size(0, 2500);
    let mut buf = vec![std::mem::MaybeUninit::<u8>::uninit(); n];
    let a = Slice::new(&mut buf[..]);
    let cx = context::new_in(&a).with_trace();
    let cx = if types { cx.with_type() } else { cx };
    for i in 0..1 + s.index(3) {
        let d = doc(s, c, true, Some(BAD));
        let b = encoded(&d)?;
        let plain = (d.fmt.plain_decode)(&b);
        let out = (d.fmt.small)(&cx, &b);
        // JSON needs room for what it reads too.
        if d.fmt.json && out.is_none() && plain.is_some() {
            c.label("no room to decode");
            return Ok(());
        }
        ensure!(out == plain, "{}: use {i}: with {n} bytes to TRACE with: {} instead of {}", d.fmt.name, short(format!("{out:?}")), short(format!("{plain:?}")));
        let lines = lines(&cx)?;
        if out.is_some() {
            ensure!(lines.is_empty(), "{}: use {i}: REPORTED for what was decoded: {lines:?}", d.fmt.name);
            continue;
        }
        let Some(p) = &d.find else {
            return Err(format!("{}: decoding failed: {lines:?}", d.fmt.name));
        };
        let steps: Vec<_> = p.steps.iter().filter(|s| types || !s.is_type()).cloned().collect();
        for l in lines {
            let (path, capped) = match l.path.split_once(" .. *") {
                None => (l.path.as_str(), 0),
                Some((path, "one capped step*")) => (path, 1),
                Some((path, n)) => (path, n.strip_suffix(" capped steps*").and_then(|n| n.parse().ok()).ok_or("a path with a strange end")?),
            };
            c.label(if capped == 0 { "reported with all steps" } else { "reported with capped steps" });
            ensure!(capped <= steps.len(), "{}: use {i}: CAPPED {capped} of {} steps", d.fmt.name, steps.len());
            ensure_eq!(path, render(&steps[..steps.len() - capped], types), "{}: use {i}: the PATH with {n} bytes to trace with", d.fmt.name);
            if p.untagged {
                continue;
            }
            ensure_eq!(l.message, MESSAGE, "{}: use {i}: the message", d.fmt.name);
        }
    }
    Ok(())
}

fn main() {
    pbt::main(vec![Property {
        id: "C12",
        rule: "a case is a random document of nested structs, enums, collections and maps in one of the formats, with at most one fault at a random leaf or altered bytes, or a history of those; it is non-trivial if there is a fault or something altered",
        assumptions: &[],
        families: vec![
            Family::new("path", 100_000, path).thorough(20_000_000),
            Family::new("encode", 50_000, encode).thorough(10_000_000),
            Family::new("altered", 100_000, altered).thorough(20_000_000),
            Family::new("kinds", 100_000, kinds).thorough(20_000_000),
            Family::new("reuse", 50_000, reuse).thorough(10_000_000),
            Family::new("capped", 100_000, capped).thorough(20_000_000),
        ],
        findings: vec![],
    }])
}
