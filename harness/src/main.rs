//! pbt: property-based checks for amxml.
//!
//!   pbt check <ID>             run the check (VERIF_SEED, VERIF_TIER)
//!   pbt replay <file>          run a saved reproduction
//!   pbt show <ID> <n>          print n generated cases
//!   pbt list
//! (worker / one / fixed are internal sub-commands)

mod chars;
mod core;
mod doc;
mod dprops;
mod mem;
mod props;
mod xast;
mod xdoc;
mod xfun;
mod xgen;
mod xgram;
mod xprops;
mod xprops2;
mod xprops3;
mod xprops4;
mod xprops5;
mod xprops6;
mod xprops7;
mod xprops8;
mod xref;
mod xtypes;

use crate::core::*;
use crate::props::{all, Prop};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command, Stdio};
use std::time::{Duration, Instant};

const WORKERS: usize = 8;
/// CPU seconds after which a single re-run case counts as not terminating
/// (a case normally needs well below a millisecond).
const CPU_LIMIT: u64 = 40;
/// address space of one worker
const AS_LIMIT: u64 = 3 << 30;

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

fn limit(res: i32, v: u64) {
    let r = [v, v];
    unsafe {
        setrlimit(res, &r);
    }
}

fn env_u64(name: &str, dflt: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(dflt)
}

pub fn verif_dir() -> PathBuf {
    match std::env::var("VERIF_DIR") {
        Ok(d) => PathBuf::from(d),
        Err(_) => PathBuf::from("/verif"),
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed ^ 0xA5A5_5A5A) ^ hash_str(id) ^ mix(idx.wrapping_mul(0x1_0000_01)))
}

fn find(id: &str) -> &'static Prop {
    match all().iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            exit(2);
        }
    }
}

fn with_stack<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> T {
    std::thread::Builder::new()
        .stack_size(192 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or_else(|_| exit(4))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => {
            for p in all().iter() {
                println!("{} {}", p.id, p.title);
            }
        }
        "check" => check(find(&args[2])),
        "worker" => {
            let a = args.clone();
            with_stack(move || worker(&a[2..]));
        }
        "one" => {
            let a = args.clone();
            with_stack(move || one(&a[2..]));
        }
        "fixed" => {
            let a = args.clone();
            with_stack(move || fixed(&a[2..]));
        }
        "show" => {
            let a = args.clone();
            with_stack(move || {
                let p = find(&a[2]);
                let n: u64 = a[3].parse().unwrap();
                install_panic_hook();
                let seed = env_u64("VERIF_SEED", 1);
                for i in 0..n {
                    let mut src = Src::random(case_seed(seed, p.id, i));
                    let mut cx = Cx::default();
                    let r = run_case(p.run, &mut src, &mut cx);
                    let s = match r {
                        Outcome::Pass => "pass".into(),
                        Outcome::Fail(m) => format!("FAIL {}", m),
                        Outcome::Harness(m) => format!("HARNESS {}", m),
                    };
                    println!(
                        "--- {} [{}] nontrivial={} cmp={} labels={:?}\n{}",
                        i, s, cx.nontrivial, cx.comparisons, cx.labels, cx.desc
                    );
                }
            });
        }
        "triage" => {
            // pbt triage <ID> <cases> [<how many>]: the shortest failures
            let a = args.clone();
            with_stack(move || {
                let p = find(&a[2]);
                let n: u64 = a[3].parse().unwrap();
                let k: usize = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(25);
                install_panic_hook();
                let seed = env_u64("VERIF_SEED", 1);
                let mut v = vec![];
                let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
                let mut nt = 0;
                for i in 0..n {
                    let mut src = Src::random(case_seed(seed, p.id, i));
                    let mut cx = Cx::default();
                    let r = run_case(p.run, &mut src, &mut cx);
                    nt += cx.nontrivial as u64;
                    for (l, n) in cx.labels.iter() {
                        *labels.entry(l).or_insert(0) += n;
                    }
                    match r {
                        Outcome::Pass => {}
                        Outcome::Fail(m) | Outcome::Harness(m) => {
                            let doc = cx.desc.split(" | ").next().unwrap_or("").to_string();
                            let skip = std::env::var("PBT_SKIP").unwrap_or_default();
                            if !skip.split('~').any(|k| !k.is_empty() && m.contains(k)) {
                                v.push((m, doc));
                            }
                        }
                    }
                }
                println!("{} of {} fail; nontrivial {}; {:?}", v.len(), n, nt, labels);
                v.sort_by_key(|(m, d)| m.len() + d.len() / 2);
                for (m, d) in v.iter().take(k) {
                    println!("{}\n      IN {}", m, d);
                }
            });
        }
        "hunt" => {
            // pbt hunt <cases> <ID>...: the first property with a failing case
            let a = args.clone();
            with_stack(move || {
                install_panic_hook();
                let n: u64 = a[2].parse().unwrap();
                let seed = env_u64("VERIF_SEED", 1);
                for id in &a[3..] {
                    let p = find(id);
                    for i in 0..n {
                        let mut src = Src::random(case_seed(seed, p.id, i));
                        let mut cx = Cx::default();
                        if let Outcome::Fail(m) = run_case(p.run, &mut src, &mut cx) {
                            println!("KILLED {} {} {}", p.id, i, m.replace('\n', " "));
                            exit(1);
                        }
                    }
                    println!("survived {}", p.id);
                }
            });
        }
        "replay" => replay(&args[2]),
        "xpath" => {
            // pbt xpath <xml> <expr>...: evaluate against the document
            let a = args.clone();
            with_stack(move || {
                install_panic_hook();
                let d = amxml::dom::new_document(&a[2]).unwrap();
                for e in &a[3..] {
                    let r = guard(|| match d.eval_xpath(e) {
                        Ok(s) => format!("{}", s.to_string()),
                        Err(x) => format!("Err {}", x),
                    });
                    println!("{:50} => {}", e, r.unwrap_or_else(|m| m));
                }
            });
        }
        _ => {
            eprintln!("usage: pbt check|replay|show|list ...");
            exit(2);
        }
    }
}

// ---------------------------------------------------------------- child side

#[derive(Default)]
struct Stats {
    cases: u64,
    comparisons: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
}

fn worker(a: &[String]) {
    let p = find(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let start: u64 = a[2].parse().unwrap();
    let step: u64 = a[3].parse().unwrap();
    let end: u64 = a[4].parse().unwrap();
    let base = PathBuf::from(&a[5]);
    let k = &a[6];
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, AS_LIMIT);
    install_panic_hook();
    let prog = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(base.join(format!("prog.{}", k)))
        .unwrap();
    let mut st = Stats::default();
    let mut idx = start;
    while idx < end {
        prog.write_all_at(&idx.to_le_bytes(), 0).unwrap();
        let mut src = Src::random(case_seed(seed, p.id, idx));
        let mut cx = Cx::default();
        let out = run_case(p.run, &mut src, &mut cx);
        st.cases += 1;
        st.comparisons += cx.comparisons;
        for (l, n) in cx.labels.iter() {
            *st.labels.entry(l.to_string()).or_insert(0) += n;
        }
        if cx.nontrivial {
            let new = st.nontrivial.insert(hash_str(&cx.desc));
            if new && st.samples.len() < 2 {
                st.samples.push(cx.desc.clone());
            }
        }
        match out {
            Outcome::Pass => {}
            Outcome::Harness(m) => {
                fs::write(base.join(format!("harness.{}", k)), format!("case {}: {}\n{}", idx, m, cx.desc)).unwrap();
                exit(3);
            }
            Outcome::Fail(m) => {
                let fail = base.join(format!("fail.{}", k));
                write_fail(&fail, idx, &src.rec, &cx.desc, &m);
                let mut last: Option<(String, String)> = None;
                let best = shrink(src.rec.clone(), 6000, |c| {
                    let mut s = Src::replay(c);
                    let mut cx = Cx::default();
                    match run_case(p.run, &mut s, &mut cx) {
                        Outcome::Fail(m) => {
                            last = Some((cx.desc, m));
                            Some(s.rec)
                        }
                        _ => None,
                    }
                });
                let _ = last;
                let mut s = Src::replay(&best);
                let mut cx2 = Cx::default();
                if let Outcome::Fail(m2) = run_case(p.run, &mut s, &mut cx2) {
                    write_fail(&fail, idx, &best, &cx2.desc, &m2);
                }
                break;
            }
        }
        idx += step;
    }
    prog.write_all_at(&u64::MAX.to_le_bytes(), 0).unwrap();
    // stats: text part, then the hashes
    let mut o = String::new();
    o.push_str(&format!("cases {}\ncmp {}\n", st.cases, st.comparisons));
    for (l, n) in st.labels.iter() {
        o.push_str(&format!("label {} {}\n", n, l));
    }
    for s in st.samples.iter() {
        o.push_str(&format!("sample {}\n", hexs(s)));
    }
    for h in st.nontrivial.iter() {
        o.push_str(&format!("h {:x}\n", h));
    }
    let tmp = base.join(format!("stats.tmp.{}", k));
    fs::write(&tmp, o).unwrap();
    fs::rename(&tmp, base.join(format!("stats.{}", k))).unwrap();
    exit(0);
}

fn hexs(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
fn unhexs(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2)
        .filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect();
    String::from_utf8_lossy(&b).to_string()
}

fn write_fail(path: &Path, idx: u64, rec: &[u64], desc: &str, msg: &str) {
    let c: Vec<String> = rec.iter().map(|x| x.to_string()).collect();
    fs::write(
        path,
        format!("{}\n{}\n{}\n{}\n", idx, c.join(" "), hexs(desc), hexs(msg)),
    )
    .unwrap();
}

fn read_fail(path: &Path) -> Option<(u64, Vec<u64>, String, String)> {
    let s = fs::read_to_string(path).ok()?;
    let mut l = s.lines();
    let idx = l.next()?.parse().ok()?;
    let rec = l.next()?.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let d = unhexs(l.next()?);
    let m = unhexs(l.next()?);
    Some((idx, rec, d, m))
}

/// one <ID> <choices-file>: exit 0 pass, 10 fail, 3 harness error
fn one(a: &[String]) {
    let p = find(&a[0]);
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, AS_LIMIT);
    limit(RLIMIT_CPU, CPU_LIMIT);
    install_panic_hook();
    let mut src = if let Some(rest) = a[1].strip_prefix("seed:") {
        let v: Vec<u64> = rest.split(':').map(|x| x.parse().unwrap()).collect();
        Src::random(case_seed(v[0], p.id, v[1]))
    } else {
        let s = fs::read_to_string(&a[1]).unwrap();
        let v: Vec<u64> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        Src::replay(&v)
    };
    let mut cx = Cx { trace: true, ..Default::default() };
    let out = run_case(p.run, &mut src, &mut cx);
    let c: Vec<String> = src.rec.iter().map(|x| x.to_string()).collect();
    println!("CHOICES {}", c.join(" "));
    match out {
        Outcome::Pass => {
            println!("RESULT pass");
            exit(0)
        }
        Outcome::Fail(m) => {
            println!("RESULT fail {}", m.replace('\n', "\\n"));
            exit(10)
        }
        Outcome::Harness(m) => {
            println!("RESULT harness {}", m);
            exit(3)
        }
    }
}

/// Runs the fixed (regression) cases of a property.
fn fixed(a: &[String]) {
    let p = find(&a[0]);
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, AS_LIMIT);
    limit(RLIMIT_CPU, CPU_LIMIT * 2);
    install_panic_hook();
    for f in (p.fixed)().into_iter() {
        println!("S {}", hexs(&f.key));
        let _ = std::io::stdout().flush();
        let r = match guard(|| (f.run)()) {
            Ok(r) => r,
            Err(m) => Err(m),
        };
        match r {
            Ok(()) => println!("P {}", hexs(&f.key)),
            Err(m) => println!("F {} {}", hexs(&f.key), hexs(&m)),
        }
    }
    println!("DONE");
    exit(0);
}

// --------------------------------------------------------------- parent side

struct W {
    child: Child,
    k: usize,
    lane: usize,
    last: u64,
    since: Instant,
}

fn me() -> PathBuf {
    std::env::current_exe().unwrap()
}

fn spawn_worker(p: &Prop, seed: u64, start: u64, lane: usize, k: usize, end: u64, base: &Path) -> W {
    let mut c = Command::new(me());
    c.arg("worker")
        .arg(p.id)
        .arg(seed.to_string())
        .arg(start.to_string())
        .arg(WORKERS.to_string())
        .arg(end.to_string())
        .arg(base)
        .arg(k.to_string())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| Ok(()));
    }
    W { child: c.spawn().unwrap(), k, lane, last: u64::MAX - 1, since: Instant::now() }
}

fn read_prog(base: &Path, k: usize) -> Option<u64> {
    let b = fs::read(base.join(format!("prog.{}", k))).ok()?;
    if b.len() < 8 {
        return None;
    }
    let mut x = [0u8; 8];
    x.copy_from_slice(&b[..8]);
    Some(u64::from_le_bytes(x))
}

struct Found {
    choices: Vec<u64>,
    desc: String,
    msg: String,
    kind: &'static str,
}

/// Run one case in its own process.  Some((choices, desc, msg)) if it fails or
/// dies; None if it passes.
fn run_one(p: &Prop, arg: &str) -> Result<Option<(Vec<u64>, String, String, bool)>, String> {
    let out = Command::new(me())
        .arg("one")
        .arg(p.id)
        .arg(arg)
        .stderr(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut desc = String::new();
    let mut choices = vec![];
    let mut result = String::new();
    for l in text.lines() {
        if let Some(d) = l.strip_prefix("CASE ") {
            desc = d.to_string();
        } else if let Some(c) = l.strip_prefix("CHOICES ") {
            choices = c.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        } else if let Some(r) = l.strip_prefix("RESULT ") {
            result = r.to_string();
        }
    }
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => Ok(None),
        (Some(10), _) => Ok(Some((choices, desc, result, false))),
        (Some(3), _) => Err(result),
        (_, Some(24)) | (_, Some(9)) => Ok(Some((
            choices,
            desc,
            format!("does not terminate within {} s of CPU time (a case takes well under 1 ms)", CPU_LIMIT),
            true,
        ))),
        (_, Some(s)) => Ok(Some((choices, desc, format!("process died with signal {} (stack overflow or abort)", s), true))),
        (c, None) => Err(format!("unexpected exit {:?}", c)),
    }
}

fn check(p: &'static Prop) {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = match std::env::var("VERIF_TIER").ok().as_deref() {
        Some("thorough") => "thorough",
        _ => "quick",
    };
    let n = match env_u64("PBT_CASES", 0) {
        0 => {
            if tier == "thorough" {
                p.thorough
            } else {
                p.quick
            }
        }
        n => n,
    };
    let base = std::env::temp_dir().join(format!("pbt-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&base).unwrap();
    let cleanup = |code: i32| -> ! {
        let _ = fs::remove_dir_all(&base);
        exit(code)
    };

    // --- fixed cases and known findings
    let known = load_known(p.id);
    let mut violations: Vec<Found> = vec![];
    let mut n_fixed = 0u64;
    let mut known_seen: BTreeSet<String> = BTreeSet::new();
    {
        let out = Command::new(me()).arg("fixed").arg(p.id).stderr(Stdio::null()).output().unwrap();
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let mut open: Option<String> = None;
        let mut done = false;
        let mut fails: Vec<(String, String)> = vec![];
        for l in text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "S" => {
                    n_fixed += 1;
                    open = Some(unhexs(w[1]));
                }
                "P" => open = None,
                "F" => {
                    fails.push((unhexs(w[1]), unhexs(w.get(2).unwrap_or(&""))));
                    open = None;
                }
                "DONE" => done = true,
                _ => {}
            }
        }
        if !done {
            match open {
                Some(k) => fails.push((k, format!("process died: {:?}", out.status))),
                None => {
                    eprintln!("fixed cases: error exit {:?}", out.status);
                    cleanup(3);
                }
            }
        }
        for (k, m) in fails {
            if let Some(d) = known.get(&k) {
                println!("KNOWN-FINDING: property={} {} [{}]", p.id, d, k);
                known_seen.insert(k);
            } else {
                violations.push(Found { choices: vec![], desc: format!("fixed case: {}", k), msg: m, kind: "fixed" });
            }
        }
    }

    // --- generated cases
    let mut ws: Vec<W> = vec![];
    let mut next_k = 0;
    for lane in 0..WORKERS {
        ws.push(spawn_worker(p, seed, lane as u64, lane, next_k, n, &base));
        next_k += 1;
    }
    let mut inconclusive = 0u64;
    let mut suspects: Vec<(u64, usize)> = vec![];
    let mut harness_err: Option<String> = None;
    while !ws.is_empty() {
        std::thread::sleep(Duration::from_millis(10));
        let mut i = 0;
        while i < ws.len() {
            let pr = read_prog(&base, ws[i].k);
            if let Some(x) = pr {
                if x != ws[i].last {
                    ws[i].last = x;
                    ws[i].since = Instant::now();
                }
            }
            let st = ws[i].child.try_wait().unwrap();
            let mut gone = false;
            if let Some(s) = st {
                gone = true;
                let w = &ws[i];
                let hp = base.join(format!("harness.{}", w.k));
                if let Ok(h) = fs::read_to_string(&hp) {
                    harness_err = Some(h);
                } else if let Some((_, rec, d, m)) = read_fail(&base.join(format!("fail.{}", w.k))) {
                    violations.push(Found { choices: rec, desc: d, msg: m, kind: "choices" });
                } else if !s.success() {
                    match pr {
                        Some(x) if x != u64::MAX => suspects.push((x, w.lane)),
                        _ => harness_err = Some(format!("worker exit {:?}", s)),
                    }
                }
            } else if ws[i].since.elapsed() > Duration::from_secs(60) && pr != Some(u64::MAX) {
                // Not a verdict: the case is re-run alone under a CPU limit.
                let _ = ws[i].child.kill();
                let _ = ws[i].child.wait();
                gone = true;
                if let Some((_, rec, d, m)) = read_fail(&base.join(format!("fail.{}", ws[i].k))) {
                    violations.push(Found { choices: rec, desc: d, msg: m, kind: "choices" });
                } else if let Some(x) = pr {
                    suspects.push((x, ws[i].lane));
                }
            }
            if gone {
                ws.swap_remove(i);
            } else {
                i += 1;
            }
        }
        while let Some((idx, lane)) = suspects.pop() {
            match run_one(p, &format!("seed:{}:{}", seed, idx)) {
                Err(e) => harness_err = Some(e),
                Ok(None) => {
                    // it finishes on its own: inconclusive, go on behind it
                    inconclusive += 1;
                    if inconclusive > 20 {
                        harness_err = Some("too many worker deaths".into());
                    } else {
                        ws.push(spawn_worker(p, seed, idx + WORKERS as u64, lane, next_k, n, &base));
                        next_k += 1;
                    }
                }
                Ok(Some((mut choices, mut desc, mut msg, died))) => {
                    // re-derive the choices: a dying case cannot report them
                    if choices.is_empty() {
                        choices = vec![u64::MAX, seed, idx];
                    }
                    if !died {
                        let f = base.join("cand");
                        let mut sh = (choices.clone(), desc.clone(), msg.clone());
                        let best = shrink(choices.clone(), 300, |c| {
                            let t: Vec<String> = c.iter().map(|x| x.to_string()).collect();
                            fs::write(&f, t.join(" ")).unwrap();
                            match run_one(p, f.to_str().unwrap()) {
                                Ok(Some((used, d, m, false))) => {
                                    sh = (used.clone(), d, m);
                                    Some(used)
                                }
                                _ => None,
                            }
                        });
                        let _ = best;
                        choices = sh.0;
                        desc = sh.1;
                        msg = sh.2;
                    }
                    violations.push(Found { choices, desc, msg, kind: "choices" });
                }
            }
        }
        if !violations.is_empty() || harness_err.is_some() {
            // let running workers that are shrinking finish shortly, stop the rest
            let grace = Instant::now();
            while grace.elapsed() < Duration::from_millis(300) {
                std::thread::sleep(Duration::from_millis(20));
            }
            for w in ws.iter_mut() {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            ws.clear();
        }
    }
    if violations.is_empty() {
        if let Some(h) = harness_err {
            eprintln!("check error: {}", h);
            println!("check error: {}", h);
            cleanup(3);
        }
    }

    // --- merge statistics
    let mut st = Stats::default();
    for k in 0..next_k {
        if let Ok(s) = fs::read_to_string(base.join(format!("stats.{}", k))) {
            for l in s.lines() {
                let (a, b) = l.split_once(' ').unwrap_or((l, ""));
                match a {
                    "cases" => st.cases += b.parse::<u64>().unwrap_or(0),
                    "cmp" => st.comparisons += b.parse::<u64>().unwrap_or(0),
                    "label" => {
                        let (n, name) = b.split_once(' ').unwrap();
                        *st.labels.entry(name.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                    }
                    "sample" => {
                        if st.samples.len() < 8 {
                            st.samples.push(unhexs(b))
                        }
                    }
                    "h" => {
                        if let Ok(x) = u64::from_str_radix(b, 16) {
                            st.nontrivial.insert(x);
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    write_evidence(p, tier, seed, &st, n_fixed, known_seen.len(), inconclusive, violations.len(), wall);
    println!(
        "{}: tier={} seed={} cases={} distinct_nontrivial={} comparisons={} fixed={} wall={:.1}s",
        p.id, tier, seed, st.cases, st.nontrivial.len(), st.comparisons, n_fixed, wall
    );
    if std::env::var("PBT_LABELS").is_ok() {
        for (l, n) in st.labels.iter() {
            println!("  {:>9} {}", n, l);
        }
    }
    if violations.is_empty() {
        cleanup(0);
    }
    let dir = verif_dir().join("replays");
    let _ = fs::create_dir_all(&dir);
    violations.truncate(3);
    for v in violations.iter() {
        let c: Vec<String> = v.choices.iter().map(|x| x.to_string()).collect();
        let h = hash_str(&format!("{}{:?}{}", p.id, v.choices, v.desc));
        let path = dir.join(format!("{}-{:08x}.json", p.id, h as u32));
        let _ = fs::write(
            &path,
            format!(
                "{{\"property\": {}, \"kind\": {}, \"choices\": [{}], \"case\": {}, \"message\": {}}}\n",
                jstr(p.id),
                jstr(v.kind),
                c.join(", "),
                jstr(&v.desc),
                jstr(&v.msg)
            ),
        );
        println!("case: {}", v.desc);
        println!("failed: {}", v.msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    cleanup(1);
}

fn load_known(id: &str) -> BTreeMap<String, String> {
    // known: property=<id> input=<<...>> <description>
    let mut m = BTreeMap::new();
    let s = fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            if let Some(r) = r.strip_prefix(id) {
                if let Some(r) = r.trim_start().strip_prefix("input=<<") {
                    if let Some((k, d)) = r.split_once(">>") {
                        m.insert(k.to_string(), d.trim().to_string());
                    }
                }
            }
        }
    }
    m
}

fn write_evidence(
    p: &Prop,
    tier: &str,
    seed: u64,
    st: &Stats,
    n_fixed: u64,
    n_known: usize,
    inconclusive: u64,
    violations: usize,
    wall: f64,
) {
    let dir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let samples: Vec<String> = st.samples.iter().map(|s| jstr(&s.chars().take(1500).collect::<String>())).collect();
    let labels: Vec<String> = st.labels.iter().map(|(l, n)| format!("{}: {}", jstr(l), n)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| jstr(s)).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"oracle_comparisons\": {},\n  \"fixed_cases\": {},\n  \"known_findings_reproduced\": {},\n  \"inconclusive_cases\": {},\n  \"classes\": {{{}}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(p.id),
        jstr(tier),
        seed,
        st.cases,
        st.nontrivial.len(),
        jstr(p.rule),
        samples.join(", "),
        st.comparisons,
        n_fixed,
        n_known,
        inconclusive,
        labels.join(", "),
        assumptions.join(", "),
        wall,
        violations
    );
    fs::write(dir.join(format!("{}.json", p.id)), s).unwrap();
}

fn replay(path: &str) {
    let s = fs::read_to_string(path).unwrap();
    let id = s.split("\"property\": \"").nth(1).unwrap().split('"').next().unwrap().to_string();
    let p = find(&id);
    let kind = s.split("\"kind\": \"").nth(1).unwrap().split('"').next().unwrap().to_string();
    if kind == "fixed" {
        let out = Command::new(me()).arg("fixed").arg(p.id).output().unwrap();
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            if let Some(r) = l.strip_prefix("F ") {
                let w: Vec<&str> = r.split(' ').collect();
                println!("fails: {} : {}", unhexs(w[0]), unhexs(w.get(1).unwrap_or(&"")));
            }
        }
        exit(1);
    }
    let c = s.split("\"choices\": [").nth(1).unwrap().split(']').next().unwrap();
    let v: Vec<u64> = c.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let arg = if v.len() == 3 && v[0] == u64::MAX {
        format!("seed:{}:{}", v[1], v[2])
    } else {
        let f = std::env::temp_dir().join(format!("pbt-replay-{}", std::process::id()));
        let t: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        fs::write(&f, t.join(" ")).unwrap();
        f.to_str().unwrap().to_string()
    };
    let r = run_one(p, &arg);
    if !arg.starts_with("seed:") {
        let _ = fs::remove_file(&arg);
    }
    match r {
        Ok(None) => {
            println!("replay: passes");
            exit(0)
        }
        Ok(Some((_, d, m, _))) => {
            println!("case: {}\nfailed: {}", d, m);
            println!("VIOLATION property={} replay={}", p.id, path);
            exit(1)
        }
        Err(e) => {
            println!("error: {}", e);
            exit(3)
        }
    }
}
