use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::rng::mix;
use crate::shrink::shrink;
use crate::{short, Case, Res, Src};

pub type Run = fn(&mut Src, &mut Case) -> Res;

/// One generator together with its oracle.
#[derive(Clone)]
pub struct Family {
    pub name: &'static str,
    pub run: Run,
    /// Number of cases.
    pub quick: u64,
    pub thorough: u64,
    /// The first choice enumerates the case number: the family covers a finite
    /// space of that many cases (times the other, random choices).
    pub enumerate: bool,
}

impl Family {
    pub const fn new(name: &'static str, quick: u64, run: Run) -> Self {
        Family { name, run, quick, thorough: quick * 25, enumerate: false }
    }
    pub const fn thorough(mut self, n: u64) -> Self {
        self.thorough = n;
        self
    }
    /// Cases 0..n are enumerated through the first choice.
    pub const fn enumerated(mut self) -> Self {
        self.enumerate = true;
        self.thorough = self.quick;
        self
    }
}

/// A probe for a recorded finding: `Some` says how it still fails.
pub struct Finding {
    pub id: &'static str,
    pub probe: fn() -> Option<String>,
}

pub struct Property {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: Vec<Family>,
    pub findings: Vec<Finding>,
}

const STACK: usize = 8 << 20;
/// A case is taken to hang when it has used this much processor time.
const HANG_CPU: Duration = Duration::from_secs(25);
/// A case which neither advances nor computes says nothing about the code.
const STALL: Duration = Duration::from_secs(400);

/// Processor time a process has used.
fn cpu_time(pid: u32) -> Duration {
    let stat = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = stat.rsplit(')').next().unwrap_or("");
    let n = |i: usize| rest.split_whitespace().nth(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) }.max(1) as u64;
    Duration::from_millis((n(11) + n(12)) * 1000 / hz)
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panic: {msg}{at}")));
            if std::env::var_os("PBT_PANICS").is_some() {
                eprintln!("panic: {msg}{at}");
            }
        } else {
            default(info)
        }
    }));
}

fn exec(run: Run, src: &mut Src, want_desc: bool) -> (Res, Case) {
    let mut case = Case::new(want_desc);
    QUIET.with(|q| q.set(true));
    let res = catch_unwind(AssertUnwindSafe(|| run(src, &mut case)));
    QUIET.with(|q| q.set(false));
    let res = match res {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    };
    (res, case)
}

fn case_seed(seed: u64, fam: &Family, i: u64) -> u64 {
    let mut h = 0u64;
    for b in fam.name.bytes() {
        h = h.wrapping_mul(131).wrapping_add(b as u64);
    }
    mix(&[seed, h, i])
}

fn case_src(seed: u64, fam: &Family, i: u64) -> Src {
    let s = case_seed(seed, fam, i);
    if fam.enumerate {
        Src::extend(vec![i], s)
    } else {
        Src::random(s)
    }
}

fn find<'a>(props: &'a [Property], id: &str) -> &'a Property {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property here: {id}");
        std::process::exit(2)
    })
}

struct Args(HashMap<String, String>);

impl Args {
    fn get(&self, k: &str) -> &str {
        self.0.get(k).map(|s| s.as_str()).unwrap_or_else(|| {
            eprintln!("missing --{k}");
            std::process::exit(2)
        })
    }
    fn num(&self, k: &str) -> u64 {
        self.get(k).parse().unwrap()
    }
    fn opt(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
}

pub fn main(props: Vec<Property>) -> ! {
    let mut map = HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let k = k.trim_start_matches("--").to_string();
        let v = it.next().unwrap_or_default();
        map.insert(k, v);
    }
    let args = Args(map);
    install_hook();
    let code = if args.opt("worker").is_some() {
        on_stack(move || worker(&props, &args))
    } else if args.opt("survey").is_some() {
        on_stack(move || survey(&props, &args))
    } else if args.opt("exec").is_some() {
        on_stack(move || exec_one(&props, &args))
    } else if args.opt("replay").is_some() {
        on_stack(move || replay(&props, &args))
    } else {
        check(&props, &args)
    };
    std::process::exit(code)
}

fn on_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap_or(101)
}

fn limits() {
    // Keep a runaway allocation inside this process.
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        if std::env::var_os("PBT_NO_RLIMIT").is_none() {
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn emit(v: &Value) {
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(out, "{v}");
    let _ = out.flush();
}

/// For working on a check: the shortest failure of every kind.
fn survey(props: &[Property], args: &Args) -> i32 {
    let prop = find(props, args.get("survey"));
    let words: usize = args.opt("words").and_then(|s| s.parse().ok()).unwrap_or(2);
    let mut found: BTreeMap<String, (usize, String)> = BTreeMap::new();
    for fam in &prop.families {
        if args.opt("family").is_some_and(|f| f != fam.name) {
            continue;
        }
        for i in 0..args.num("cases") {
            let (res, _) = exec(fam.run, &mut case_src(1, fam, i), false);
            let Err(m) = res else { continue };
            let key = m.split_whitespace().take(words).collect::<Vec<_>>().join(" ");
            let e = found.entry(format!("{}: {key}", fam.name)).or_insert((0, m.clone()));
            e.0 += 1;
            if m.len() < e.1.len() {
                e.1 = m;
            }
        }
    }
    for (k, (n, m)) in found {
        println!("{n:6} {k}\n         {m}");
    }
    0
}

/// Run every n-th case of every family.
fn worker(props: &[Property], args: &Args) -> i32 {
    limits();
    let prop = find(props, args.get("worker"));
    let (w, n) = (args.num("index"), args.num("of"));
    let seed = args.num("seed");
    let thorough = args.get("tier") == "thorough";
    let cap = Duration::from_secs(args.num("cap"));
    let skip: HashSet<&str> = args.opt("skip").unwrap_or("").split(',').collect();
    let only = args.opt("only").filter(|s| !s.is_empty());
    let progress = fs::OpenOptions::new().write(true).open(args.get("progress")).unwrap();
    let scale: f64 = args.opt("scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let start = Instant::now();
    let mut tick = 0u64;

    let mut mark = |fam: u64, i: u64| {
        tick += 1;
        let mut b = [0u8; 24];
        b[..8].copy_from_slice(&fam.to_le_bytes());
        b[8..16].copy_from_slice(&i.to_le_bytes());
        b[16..].copy_from_slice(&tick.to_le_bytes());
        let _ = progress.write_at(&b, 0);
    };

    let nfam = prop.families.len();
    for (f, fam) in prop.families.iter().enumerate() {
        if skip.contains(fam.name) || only.is_some_and(|o| o != fam.name) {
            continue;
        }
        let total = if thorough { fam.thorough } else { fam.quick };
        let total = if fam.enumerate { total } else { ((total as f64) * scale).ceil() as u64 };
        let mut evals = 0u64;
        let mut hashes: Vec<u64> = Vec::new();
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut samples: Vec<String> = Vec::new();
        let mut truncated = false;
        // Leave a fair part of the time to the families still to come.
        let until = cap.mul_f64((f + 1) as f64 / nfam as f64);
        let t0 = Instant::now();
        let mut i = w;
        while i < total {
            if i % 16 == w % 16 && start.elapsed() > until {
                truncated = true;
                break;
            }
            mark(f as u64, i);
            let mut src = case_src(seed, fam, i);
            let want = samples.len() < 3;
            let (res, case) = exec(fam.run, &mut src, want);
            evals += case.evals;
            for l in &case.labels {
                *labels.entry(l).or_default() += 1;
            }
            if case.nontrivial {
                hashes.push(case.hash);
                if want && !case.desc.is_empty() {
                    samples.push(short(&case.desc));
                }
            }
            if let Err(first) = res {
                let budget = Instant::now();
                let choices = shrink(src.choices().to_vec(), 4000, |c| {
                    if budget.elapsed() > Duration::from_secs(40) {
                        return None;
                    }
                    mark(f as u64, i);
                    let mut s = Src::replay(c.to_vec());
                    let (r, _) = exec(fam.run, &mut s, false);
                    r.is_err().then(|| s.choices().to_vec())
                });
                let mut s = Src::replay(choices.clone());
                let (r, case) = exec(fam.run, &mut s, true);
                let msg = r.err().unwrap_or(first);
                emit(&json!({"fail": fam.name, "case": i, "choices": choices, "message": short(msg), "desc": short(&case.desc)}));
                break;
            }
            i += n;
        }
        hashes.sort_unstable();
        hashes.dedup();
        let mut bytes = Vec::with_capacity(hashes.len() * 8);
        for h in &hashes {
            bytes.extend_from_slice(&h.to_le_bytes());
        }
        let hf = format!("{}.{}", args.get("progress"), fam.name);
        fs::write(&hf, bytes).unwrap();
        emit(&json!({"done": fam.name, "evals": evals, "labels": labels, "samples": samples,
            "truncated": truncated, "secs": t0.elapsed().as_secs_f64()}));
    }
    mark(u64::MAX, 0);
    0
}

/// Run exactly one choice sequence: exit 0 = holds, 1 = violated, or crash.
fn exec_one(props: &[Property], args: &Args) -> i32 {
    limits();
    let prop = find(props, args.get("exec"));
    let fam = prop.families.iter().find(|f| f.name == args.get("family")).unwrap();
    let mut src = match args.opt("choices") {
        Some(path) => {
            let v: Vec<u64> = serde_json::from_str(&fs::read_to_string(path).unwrap()).unwrap();
            Src::replay(v)
        }
        None => case_src(args.num("seed"), fam, args.num("case")),
    };
    if let Some(path) = std::env::var_os("PBT_RECORD") {
        src.record(fs::File::create(path).unwrap());
    }
    let (res, case) = exec(fam.run, &mut src, true);
    match res {
        Ok(()) => 0,
        Err(m) => {
            println!("{}", short(m));
            println!("{}", short(&case.desc));
            1
        }
    }
}

fn replay(props: &[Property], args: &Args) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(args.get("replay")).unwrap()).unwrap();
    let prop = find(props, v["property"].as_str().unwrap());
    if let Some(id) = v["finding"].as_str() {
        let f = prop.findings.iter().find(|f| f.id == id).unwrap();
        return match (f.probe)() {
            Some(m) => {
                println!("VIOLATION {m}");
                1
            }
            None => 0,
        };
    }
    let fam = prop.families.iter().find(|f| f.name == v["family"].as_str().unwrap()).unwrap();
    let mut src = match v["choices"].as_array() {
        Some(a) => Src::replay(a.iter().map(num_u64).collect()),
        None => case_src(num_u64(&v["seed"]), fam, num_u64(&v["case"])),
    };
    let (res, case) = exec(fam.run, &mut src, true);
    println!("case: {}", short(&case.desc));
    match res {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(m) => {
            println!("VIOLATED: {m}");
            1
        }
    }
}

fn num_u64(v: &Value) -> u64 {
    v.as_u64().or_else(|| v.to_string().parse().ok()).unwrap_or(0)
}

struct Fail {
    family: String,
    case: u64,
    choices: Option<Vec<u64>>,
    message: String,
    desc: String,
}

enum Msg {
    Line(Value),
    Exit(usize),
}

fn check(props: &[Property], args: &Args) -> i32 {
    let prop = find(props, args.get("prop"));
    let tier = args.opt("tier").map(str::to_string).or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed: u64 = args
        .opt("seed")
        .map(str::to_string)
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1);
    let root = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into()));
    let t0 = Instant::now();
    let cap = if tier == "thorough" { 5400 } else { 300 };
    let workers: usize = args.opt("workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let exe = std::env::current_exe().unwrap();
    let tmp = std::env::temp_dir().join(format!("pbt-{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&tmp).unwrap();

    let known = load_known(&root, prop.id);
    let mut violations: Vec<(String, PathBuf)> = Vec::new();
    let replays = root.join("replays");
    let _ = fs::create_dir_all(&replays);

    if args.opt("only").is_none() {
        for f in &prop.findings {
            QUIET.with(|q| q.set(true));
            let r = catch_unwind(AssertUnwindSafe(|| (f.probe)()));
            QUIET.with(|q| q.set(false));
            let r = r.unwrap_or_else(|_| Some(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()));
            if let Some(m) = r {
                if known.iter().any(|k| k == f.id) {
                    println!("KNOWN-FINDING: property={} {} {}", prop.id, f.id, short(m));
                } else {
                    let path = replays.join(format!("{}-{}.json", prop.id, f.id));
                    let _ = fs::write(&path, json!({"property": prop.id, "finding": f.id, "message": m}).to_string());
                    violations.push((m, path));
                }
            }
        }
    }

    let mut fails: Vec<Fail> = Vec::new();
    let mut evals: BTreeMap<String, u64> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut secs: BTreeMap<String, f64> = BTreeMap::new();
    let mut truncated: Vec<String> = Vec::new();

    let (tx, rx) = mpsc::channel::<Msg>();
    let mut children = Vec::new();
    let mut skips: Vec<Vec<String>> = vec![Vec::new(); workers];
    // Last tick seen, when, and the processor time used by then.
    let mut ticks: Vec<(u64, Instant, Duration)> = vec![(0, Instant::now(), Duration::ZERO); workers];
    let mut hung: Vec<Option<bool>> = vec![None; workers];
    let mut notes: Vec<String> = Vec::new();
    let mut alive = vec![true; workers];
    let mut restarts = vec![0; workers];

    let spawn = |w: usize, skip: &[String]| {
        let progress = tmp.join(format!("p{w}"));
        fs::write(&progress, [0u8; 24]).unwrap();
        let mut child = Command::new(&exe)
            .args(["--worker", prop.id, "--index", &w.to_string(), "--of", &workers.to_string()])
            .args(["--seed", &seed.to_string(), "--tier", &tier, "--cap", &cap.to_string()])
            .args(["--skip", &skip.join(","), "--only", args.opt("only").unwrap_or("")])
            .args(["--scale", args.opt("scale").unwrap_or("1")])
            .args(["--progress", progress.to_str().unwrap()])
            .stdout(Stdio::piped())
            .stderr(Stdio::from(fs::File::create(tmp.join(format!("e{w}"))).unwrap()))
            .spawn()
            .unwrap();
        let out = child.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for line in BufReader::new(out).lines() {
                let Ok(line) = line else { break };
                if let Ok(v) = serde_json::from_str(&line) {
                    let _ = tx.send(Msg::Line(v));
                }
            }
            let _ = tx.send(Msg::Exit(w));
        });
        child
    };

    for w in 0..workers {
        children.push(spawn(w, &[]));
    }

    while alive.iter().any(|a| *a) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(v)) => {
                if let Some(f) = v["fail"].as_str() {
                    fails.push(Fail {
                        family: f.into(),
                        case: num_u64(&v["case"]),
                        choices: Some(v["choices"].as_array().unwrap().iter().map(num_u64).collect()),
                        message: v["message"].as_str().unwrap_or("").into(),
                        desc: v["desc"].as_str().unwrap_or("").into(),
                    });
                } else if let Some(f) = v["done"].as_str() {
                    *evals.entry(f.into()).or_default() += num_u64(&v["evals"]);
                    for (k, n) in v["labels"].as_object().unwrap() {
                        *labels.entry(format!("{f}: {k}")).or_default() += num_u64(n);
                    }
                    let s = samples.entry(f.into()).or_default();
                    for x in v["samples"].as_array().unwrap() {
                        if s.len() < 2 {
                            s.push(x.as_str().unwrap().into());
                        }
                    }
                    let t: f64 = v["secs"].to_string().parse().unwrap_or(0.0);
                    let e = secs.entry(f.into()).or_default();
                    *e = e.max(t);
                    if v["truncated"] == json!(true) && !truncated.contains(&f.to_string()) {
                        truncated.push(f.into());
                    }
                }
            }
            Ok(Msg::Exit(w)) => {
                let status = children[w].wait().unwrap();
                if status.success() {
                    alive[w] = false;
                    continue;
                }
                // A crash: the progress file says where.
                let (f, i, _) = read_progress(&tmp.join(format!("p{w}")));
                let Some(fam) = prop.families.get(f as usize) else {
                    eprintln!("worker {w} failed: {status}");
                    return 2;
                };
                let mut err = String::new();
                let _ = fs::File::open(tmp.join(format!("e{w}"))).and_then(|f| f.take(4000).read_to_string(&mut err));
                let how = match status.signal() {
                    Some(libc::SIGKILL) if hung[w].is_some() => {
                        format!("no answer within {} s of processor time (hang)", HANG_CPU.as_secs())
                    }
                    Some(s) => format!("process ended by signal {s}: {}", short(err.trim())),
                    None => format!("process ended: {status}: {}", short(err.trim())),
                };
                if restarts[w] > prop.families.len() {
                    alive[w] = false;
                    continue;
                }
                restarts[w] += 1;
                // Only what happens again is taken to be caused by the case.
                let again = hung[w] != Some(false) && reproduces(&exe, prop, fam, seed, i);
                if again {
                    fails.push(Fail { family: fam.name.into(), case: i, choices: None, message: how, desc: String::new() });
                } else {
                    println!("NOTE {}/{} case {i}: {how}; it did not happen again", prop.id, fam.name);
                    notes.push(format!("{} case {i}: {how}; did not happen again, the worker left out the rest", fam.name));
                }
                hung[w] = None;
                skips[w].push(fam.name.into());
                // Do not repeat what has been done: earlier families and this one.
                for e in &prop.families[..f as usize] {
                    skips[w].push(e.name.into());
                }
                ticks[w] = (0, Instant::now(), Duration::ZERO);
                children[w] = spawn(w, &skips[w]);
            }
            Err(_) => {}
        }
        for w in 0..workers {
            if !alive[w] {
                continue;
            }
            let (_, _, t) = read_progress(&tmp.join(format!("p{w}")));
            let used = cpu_time(children[w].id());
            if t != ticks[w].0 {
                ticks[w] = (t, Instant::now(), used);
            } else if used.saturating_sub(ticks[w].2) > HANG_CPU {
                hung[w] = Some(true);
                let _ = children[w].kill();
            } else if ticks[w].1.elapsed() > STALL {
                hung[w] = Some(false);
                let _ = children[w].kill();
            }
        }
    }

    // One failure per family is enough; prefer the smallest.
    let mut by_family: BTreeMap<String, Vec<Fail>> = BTreeMap::new();
    for f in fails {
        by_family.entry(f.family.clone()).or_default().push(f);
    }
    for (family, mut fs_) in by_family {
        fs_.sort_by_key(|f| f.choices.as_ref().map(|c| c.len()).unwrap_or(usize::MAX));
        let mut f = fs_.remove(0);
        if f.choices.is_none() {
            shrink_crash(&exe, prop, &family, seed, &tmp, &mut f);
        }
        let path = replays.join(format!("{}-{}.json", prop.id, family));
        let v = json!({"property": prop.id, "family": family, "seed": seed, "case": f.case,
            "choices": f.choices, "message": f.message, "desc": f.desc});
        let _ = fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        println!("FAILED {}/{}: {}", prop.id, family, f.message);
        if !f.desc.is_empty() {
            println!("  case: {}", f.desc);
        }
        violations.push((f.message, path));
    }

    // Evidence.
    let mut distinct = 0usize;
    let mut per_family = serde_json::Map::new();
    for fam in &prop.families {
        let mut all: Vec<u64> = Vec::new();
        for w in 0..workers {
            if let Ok(b) = fs::read(tmp.join(format!("p{w}.{}", fam.name))) {
                all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
        all.sort_unstable();
        all.dedup();
        distinct += all.len();
        per_family.insert(
            fam.name.into(),
            json!({"evaluations": evals.get(fam.name).copied().unwrap_or(0), "distinct_nontrivial": all.len(),
                "secs": (secs.get(fam.name).copied().unwrap_or(0.0) * 100.0).round() / 100.0}),
        );
    }
    let total: u64 = evals.values().sum();
    let mut flat = Vec::new();
    for (f, s) in &samples {
        for x in s {
            flat.push(format!("{f}: {x}"));
        }
    }
    if flat.is_empty() {
        flat.push("no case ran to its end".to_string());
    }
    let ev = json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": total, "distinct_nontrivial": distinct, "rule": prop.rule,
            "samples": flat, "families": per_family, "labels": labels, "stopped_by_time": truncated, "notes": notes},
        "assumptions": prop.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": violations.len()});
    if args.opt("only").is_none() {
        let _ = fs::create_dir_all(root.join("evidence"));
        fs::write(root.join("evidence").join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    } else {
        println!("{}", serde_json::to_string_pretty(&ev).unwrap());
    }
    let _ = fs::remove_dir_all(&tmp);

    for (_, path) in &violations {
        println!("VIOLATION property={} replay={}", prop.id, path.display());
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} violations, {:.1} s{}",
        prop.id, total, distinct, violations.len(), t0.elapsed().as_secs_f64(),
        if truncated.is_empty() { String::new() } else { format!(", stopped by time: {truncated:?}") }
    );
    i32::from(!violations.is_empty())
}

fn read_progress(p: &Path) -> (u64, u64, u64) {
    let b = fs::read(p).unwrap_or_default();
    let g = |i: usize| b.get(i..i + 8).map(|s| u64::from_le_bytes(s.try_into().unwrap())).unwrap_or(0);
    (g(0), g(8), g(16))
}

fn load_known(root: &Path, id: &str) -> Vec<String> {
    let text = fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("finding: ") {
            let mut it = rest.split_whitespace();
            if it.next() == Some(&format!("property={id}")) {
                if let Some(f) = it.next().and_then(|s| s.strip_prefix("id=")) {
                    out.push(f.to_string());
                }
            }
        }
    }
    out
}

/// Shrink a crash by running candidates in processes of their own. The choices
/// of the case went with its process, so a child draws them again and writes
/// them out as it does.
fn shrink_crash(exe: &Path, prop: &Property, family: &str, seed: u64, tmp: &Path, fail: &mut Fail) {
    let fam = prop.families.iter().find(|f| f.name == family).unwrap();
    let file = tmp.join("choices.json");
    let mut last = (String::new(), String::new());
    let start = Instant::now();
    let mut run = |c: &[u64]| -> bool {
        if start.elapsed() > Duration::from_secs(60) {
            return false;
        }
        fs::write(&file, serde_json::to_string(c).unwrap()).unwrap();
        let mut child = Command::new(exe)
            .args(["--exec", prop.id, "--family", family, "--choices", file.to_str().unwrap()])
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap();
        let t = Instant::now();
        loop {
            if let Some(s) = child.try_wait().unwrap() {
                if s.success() {
                    return false;
                }
                let mut out = String::new();
                let _ = child.stdout.take().unwrap().take(2000).read_to_string(&mut out);
                let mut err = String::new();
                let _ = child.stderr.take().unwrap().take(2000).read_to_string(&mut err);
                last = (format!("{s}: {}", err.trim()), out);
                return true;
            }
            if cpu_time(child.id()) > Duration::from_secs(8) || t.elapsed() > STALL {
                let _ = child.kill();
                let _ = child.wait();
                last = ("no answer (hang)".into(), String::new());
                return true;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    };
    let Some(choices) = record(exe, prop, fam, seed, fail.case, tmp) else { return };
    if !run(&choices) {
        return;
    }
    let best = shrink(choices, 400, |c| run(c).then(|| c.to_vec()));
    if run(&best) {
        fail.message = format!("{} ({})", fail.message, short(&last.0));
        fail.choices = Some(best);
    }
}

/// Run one case in a process of its own and see whether it crashes or hangs.
fn reproduces(exe: &Path, prop: &Property, fam: &Family, seed: u64, case: u64) -> bool {
    let Ok(mut child) = Command::new(exe)
        .args(["--exec", prop.id, "--family", fam.name, "--seed", &seed.to_string(), "--case", &case.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    else {
        return false;
    };
    let t = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return !s.success(),
            Ok(None) => {}
            Err(_) => return false,
        }
        let hang = cpu_time(child.id()) > HANG_CPU;
        if hang || t.elapsed() > STALL {
            let _ = child.kill();
            let _ = child.wait();
            return hang;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Ask a child to write out its choices as it draws them.
fn record(exe: &Path, prop: &Property, fam: &Family, seed: u64, case: u64, tmp: &Path) -> Option<Vec<u64>> {
    let path = tmp.join("record.bin");
    let _ = fs::remove_file(&path);
    let mut child = Command::new(exe)
        .args(["--exec", prop.id, "--family", fam.name, "--seed", &seed.to_string(), "--case", &case.to_string()])
        .env("PBT_RECORD", &path)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t = Instant::now();
    while child.try_wait().ok()?.is_none() {
        if t.elapsed() > Duration::from_secs(10) {
            let _ = child.kill();
            let _ = child.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    let b = fs::read(&path).ok()?;
    Some(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
}
