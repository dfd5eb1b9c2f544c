//! Runs a property's cases over worker processes, confirms and shrinks what fails, writes evidence.
use crate::case::Case;
use crate::engine::{Stats, KIND_NAMES};
use crate::gen;
use crate::props::Prop;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// no worker takes a second over a case
const STALL: Duration = Duration::from_secs(90);
const HANGS: &str = "an operation does not return";
const ASAN: &str = "exitcode=77:detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=3000:quarantine_size_mb=48:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0";

// ---------------------------------------------------------------- worker

pub fn worker(p: &Prop, seed: u64, shard: u64, of: u64, range: (u64, u64), dir: &str) {
    let dir = Path::new(dir);
    let prog = std::fs::File::create(dir.join(format!("progress.{}", shard))).unwrap();
    let s = gen::strategy(p, false);
    let mut total = Stats::default();
    let mut classes: Vec<(&'static str, u64)> = Stats::default().list().iter().map(|x| (x.0, 0)).collect();
    let mut hashes: Vec<u64> = Vec::new();
    let mut n = 0u64;
    let mut samples = String::new();
    let mut nsamples = 0;
    let mut i = shard;
    while i < range.1 {
        if i < range.0 {
            i += of;
            continue;
        }
        prog.write_at(&i.to_le_bytes(), 0).unwrap();
        let t = gen::tree(p, &s, seed, i);
        let case = t.current();
        if let Some(d) = std::env::var_os("ECSFUZZ_TRACE") {
            let _ = std::fs::write(d, case.encode());
        }
        let (r, st) = p.run(&case);
        n += 1;
        if let Err(m) = r {
            std::fs::write(dir.join(format!("fail.{}", shard)), format!("{}\n{}", i, m)).unwrap();
            // (no destructors: the world under test may be broken)
            unsafe { _exit(3) }
        }
        if (p.nontrivial)(&st) {
            hashes.push(case.hash64());
            if nsamples < 2 && case.ops.len() <= 24 {
                nsamples += 1;
                samples += &describe(p, &case, i);
                samples.push('\n');
            }
        }
        for (c, (_, v)) in classes.iter_mut().zip(st.list()) {
            if v > 0 {
                c.1 += 1
            }
        }
        total.add(&st);
        i += of;
    }
    let mut out = format!("cases {}\n", n);
    for ((name, c), (_, v)) in classes.iter().zip(total.list()) {
        writeln!(out, "{} {} {}", name, c, v).unwrap();
    }
    let bytes: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(dir.join(format!("hash.{}", shard)), bytes).unwrap();
    std::fs::write(dir.join(format!("samples.{}", shard)), samples).unwrap();
    std::fs::write(dir.join(format!("stats.{}", shard)), out).unwrap();
    unsafe { _exit(0) }
}

extern "C" {
    fn _exit(c: i32) -> !;
}

fn describe(p: &Prop, c: &Case, index: u64) -> String {
    let mut s = format!("#{} cfg{:?}:", index, &c.cfg[..c.cfg.len().min(6)]);
    for o in &c.ops {
        let direct = p.id == "C11" || (p.id == "C15" && c.cfg(0) >> 4 & 7 < 2) || (p.id == "C04" && c.cfg(0) & 16 == 0) || p.id == "C08";
        match KIND_NAMES.get(o.k as usize) {
            Some(n) if !direct => write!(s, " {}({},{},{})", n, o.a, o.b, o.c).unwrap(),
            _ => write!(s, " {}({},{},{})", o.k, o.a, o.b, o.c).unwrap(),
        }
    }
    s
}

/// Writes cases for `batch`; short ones for the interpreter.
pub fn generate(p: &Prop, short: bool, seed: u64, n: u64, file: &str) {
    let part = |from: u64| -> String {
        let s = gen::strategy(p, short);
        (from..n).step_by(WORKERS as usize).map(|i| format!("{}\0", gen::tree(p, &s, seed, i).current().encode())).collect()
    };
    let parts: Vec<String> = std::thread::scope(|sc| {
        let js: Vec<_> = (0..WORKERS).map(|w| sc.spawn(move || part(w))).collect();
        js.into_iter().map(|j| j.join().unwrap()).collect()
    });
    let mut its: Vec<_> = parts.iter().map(|p| p.split_terminator('\0')).collect();
    let mut out = String::new();
    for i in 0..n {
        out += its[(i % WORKERS) as usize].next().unwrap();
    }
    std::fs::write(file, out).unwrap();
}

// ---------------------------------------------------------------- subprocesses

fn me(args: &[&str]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).env("ASAN_OPTIONS", ASAN).stdin(Stdio::null());
    c
}

enum End {
    Passed,
    /// what failed
    Failed(String),
    /// no verdict
    Unclear(String),
}

fn verdict(st: std::process::ExitStatus, out: &str, err: &str) -> End {
    match (st.code(), st.signal()) {
        (Some(0), _) => End::Passed,
        (Some(3), _) => End::Failed(out.trim().to_string()),
        (Some(77), _) => End::Failed(asan(err)),
        (_, Some(s)) if s == 6 || s == 11 || s == 7 || s == 4 || s == 5 => {
            End::Failed(format!("the process was stopped by signal {}: {}", s, asan(err)))
        }
        _ => End::Unclear(format!("{}: {}", st, err.chars().take(400).collect::<String>())),
    }
}

fn asan(err: &str) -> String {
    if err.contains("hard rss limit exhausted") || err.contains("out-of-memory") || err.contains("allocation-size-too-big") {
        return "memory was exhausted".into();
    }
    let mut l: Vec<&str> = err.lines().filter(|l| l.contains("ERROR: AddressSanitizer") || l.contains("SUMMARY") || l.contains("panicked") || l.contains("abort") || l.contains("overflow")).collect();
    l.truncate(4);
    if l.is_empty() {
        l = err.lines().rev().take(3).collect();
    }
    l.join("; ")
}

fn run_file(p: &Prop, file: &Path, dir: &Path, limit: Duration) -> End {
    let (o, e) = (dir.join("out"), dir.join("err"));
    let mut ch = me(&["run", p.id, file.to_str().unwrap()])
        .stdout(std::fs::File::create(&o).unwrap())
        .stderr(std::fs::File::create(&e).unwrap())
        .spawn()
        .unwrap();
    let t = Instant::now();
    let mut nap = 1;
    let st = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break st;
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return End::Unclear(HANGS.into());
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    };
    let r = |f| String::from_utf8_lossy(&std::fs::read(f).unwrap_or_default()).into_owned();
    verdict(st, &r(&o), &r(&e))
}

fn run_cases(p: &Prop, cases: &[Case], dir: &Path, limit: Duration) -> End {
    let f = dir.join("case");
    std::fs::write(&f, cases.iter().map(|c| c.encode()).collect::<String>()).unwrap();
    run_file(p, &f, dir, limit)
}

// ---------------------------------------------------------------- other ways to run a case

/// A second build of the harness that sees what AddressSanitizer does not.
struct Second {
    name: &'static str,
    cmd: fn(&[&str]) -> Command,
    end: fn(std::process::ExitStatus, &str, &str) -> End,
    /// longest time for one case
    per_case: Duration,
}

static MIRI: Second = Second { name: "Miri", cmd: miri_cmd, end: miri_end, per_case: Duration::from_secs(90) };
static MSAN: Second = Second { name: "MemorySanitizer", cmd: msan_cmd, end: msan_end, per_case: Duration::from_secs(60) };

static OPTIMISED: Second = Second { name: "the optimised build", cmd: rel_cmd, end: verdict_of, per_case: Duration::from_secs(400) };

/// Builds the harness with every optimisation, for the cases that take long.
fn rel_build() -> Result<(), String> {
    let o = Command::new("cargo")
        .args(["build", "-q", "--offline", "--release", "--no-default-features", "--manifest-path"])
        .arg(root().join("harness/Cargo.toml"))
        .env("CARGO_TARGET_DIR", root().join(".build/rel"))
        .env_remove("RUSTFLAGS")
        .env_remove("RUSTC_WRAPPER")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).lines().filter(|l| l.starts_with("error")).take(4).collect::<Vec<_>>().join(" | "));
    }
    Ok(())
}

fn rel_cmd(args: &[&str]) -> Command {
    let mut c = Command::new(root().join(".build/rel/release/ecsfuzz"));
    c.args(args).stdin(Stdio::null());
    c
}

fn verdict_of(st: std::process::ExitStatus, out: &str, err: &str) -> End {
    verdict(st, out, err)
}

fn miri_cmd(args: &[&str]) -> Command {
    let mut c = Command::new("cargo");
    c.args(["miri", "run", "-q", "--offline", "--no-default-features", "--manifest-path"])
        .arg(root().join("harness/Cargo.toml"))
        .arg("--")
        .args(args)
        .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-permissive-provenance")
        .env("CARGO_TARGET_DIR", root().join(".build/miri"))
        .env_remove("RUSTFLAGS")
        .env_remove("RUSTC_WRAPPER")
        .stdin(Stdio::null());
    c
}

fn miri_end(st: std::process::ExitStatus, out: &str, err: &str) -> End {
    let ub = err.lines().find(|l| l.contains("error: Undefined Behavior") || l.contains("error: abnormal termination"));
    match (st.code(), ub) {
        (Some(0), _) => End::Passed,
        (Some(3), _) => End::Failed(out.trim().to_string()),
        (_, Some(l)) => {
            let at = err.lines().skip_while(|x| x != &l).find(|l| l.trim_start().starts_with("-->")).unwrap_or("");
            End::Failed(format!("{} {}", l.trim(), at.trim()))
        }
        _ => End::Unclear(format!("interpreter: {}: {}", st, err.lines().rev().take(6).collect::<Vec<_>>().join(" | "))),
    }
}

const TARGET: &str = "x86_64-unknown-linux-gnu";

/// Builds the harness, and the standard library, with MemorySanitizer.
fn msan_build() -> Result<(), String> {
    let o = Command::new("cargo")
        .args(["build", "-q", "--offline", "-Zbuild-std=std,panic_unwind", "--no-default-features", "--target", TARGET, "--manifest-path"])
        .arg(root().join("harness/Cargo.toml"))
        .env("CARGO_TARGET_DIR", root().join(".build/msan"))
        .env("RUSTFLAGS", "-Zsanitizer=memory")
        .env("CARGO_PROFILE_DEV_DEBUG", "0")
        .env_remove("RUSTC_WRAPPER")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).lines().filter(|l| l.starts_with("error")).take(4).collect::<Vec<_>>().join(" | "));
    }
    Ok(())
}

fn msan_cmd(args: &[&str]) -> Command {
    let mut c = Command::new(root().join(".build/msan").join(TARGET).join("debug/ecsfuzz"));
    c.args(args).env("MSAN_OPTIONS", "exitcode=77:abort_on_error=0:allocator_may_return_null=1").stdin(Stdio::null());
    c
}

fn msan_end(st: std::process::ExitStatus, out: &str, err: &str) -> End {
    match verdict(st, out, err) {
        End::Failed(_) if err.contains("WARNING: MemorySanitizer: use-of-uninitialized-value") => {
            let at: Vec<&str> = err
                .lines()
                .filter(|l| l.trim_start().starts_with('#') && (l.contains("arche_tape") || l.contains("untyped_vec")))
                .filter_map(|l| l.split(" in ").nth(1))
                .take(3)
                .collect();
            End::Failed(format!("use of an uninitialised value: {}", at.join("; ")))
        }
        x => x,
    }
}

fn second_run(k: &Second, p: &Prop, cases: &[Case], dir: &Path) -> End {
    let f = dir.join("scase");
    std::fs::write(&f, cases.iter().map(|c| c.encode()).collect::<String>()).unwrap();
    let o = (k.cmd)(&["run", p.id, f.to_str().unwrap()]).output().unwrap();
    (k.end)(o.status, &String::from_utf8_lossy(&o.stdout), &String::from_utf8_lossy(&o.stderr))
}

/// Runs the cases of a file in `k`; those that fail, shrunk, and what fails.
fn second_search(k: &Second, p: &Prop, file: &Path, dir: &Path) -> Result<(u64, Option<(Vec<Case>, String)>), String> {
    let cases = Case::decode_all(&std::fs::read_to_string(file).unwrap());
    let n = cases.len() as u64;
    let empty = dir.join("second.empty");
    std::fs::write(&empty, "").unwrap();
    // (Miri builds now)
    let o = (k.cmd)(&["run", p.id, empty.to_str().unwrap()]).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("{} does not run: {}", k.name, String::from_utf8_lossy(&o.stderr).lines().rev().take(8).collect::<Vec<_>>().join(" | ")));
    }
    let path = |x: &str, s: u64| dir.join(format!("second.{}.{}", x, s));
    let mut chs: Vec<(u64, Option<Child>, u64, Instant)> = (0..WORKERS)
        .map(|s| {
            let f = path("cases", s);
            std::fs::write(&f, cases.iter().skip(s as usize).step_by(WORKERS as usize).map(|c| c.encode()).collect::<String>()).unwrap();
            let ch = (k.cmd)(&["batch", p.id, f.to_str().unwrap()])
                .stdout(std::fs::File::create(path("out", s)).unwrap())
                .stderr(std::fs::File::create(path("err", s)).unwrap())
                .spawn()
                .unwrap();
            (s, Some(ch), 0, Instant::now())
        })
        .collect();
    let mut failed = None;
    let mut trouble = None;
    let mut done = 0;
    while failed.is_none() && trouble.is_none() && chs.iter().any(|c| c.1.is_some()) {
        for (s, c, size, since) in chs.iter_mut() {
            let Some(ch) = c else { continue };
            let Some(st) = ch.try_wait().unwrap() else {
                // it writes the number of every case it starts
                let now = std::fs::metadata(path("err", *s)).map_or(0, |m| m.len());
                if now != *size {
                    *size = now;
                    *since = Instant::now();
                } else if since.elapsed() > k.per_case {
                    trouble = Some(format!("{}: a case does not finish", k.name));
                }
                continue;
            };
            *c = None;
            let r = |x| String::from_utf8_lossy(&std::fs::read(path(x, *s)).unwrap_or_default()).into_owned();
            let (out, err) = (r("out"), r("err"));
            let at: Option<usize> = err.lines().filter_map(|l| l.strip_prefix("case ")).last().and_then(|x| x.parse().ok());
            match ((k.end)(st, &out, &err), at) {
                (End::Passed, _) => done += out.trim().strip_prefix("done ").and_then(|x| x.parse::<u64>().ok()).unwrap_or(0),
                (End::Failed(m), Some(i)) => failed = Some((i, *s as usize, m)),
                (End::Failed(m), None) | (End::Unclear(m), _) => trouble = Some(m),
            }
        }
        std::thread::sleep(Duration::from_millis(30));
    }
    for (_, c, _, _) in chs.iter_mut() {
        if let Some(ch) = c {
            let _ = ch.kill();
            let _ = ch.wait();
        }
    }
    if let Some(t) = trouble {
        return Err(t);
    }
    let Some((i, s, seen)) = failed else {
        return if done == n { Ok((done, None)) } else { Err(format!("{} of {} cases were run in {}", done, n, k.name)) };
    };
    let of_worker: Vec<Case> = cases.iter().skip(s).step_by(WORKERS as usize).take(i + 1).cloned().collect();
    let mut best = of_worker[i].clone();
    let mut msg = match second_run(k, p, &[best.clone()], dir) {
        End::Failed(m) => m,
        // (it needs what the process did before it)
        _ => return Ok((done, Some((of_worker, seen)))),
    };
    let t0 = Instant::now();
    let mut len = best.ops.len() / 2;
    if std::env::var_os("ECSFUZZ_NO_SHRINK").is_some() {
        len = 0;
    }
    while len >= 1 && t0.elapsed() < Duration::from_secs(90) {
        let mut at = 0;
        while at < best.ops.len() && t0.elapsed() < Duration::from_secs(90) {
            let mut c = best.clone();
            c.ops.drain(at..(at + len).min(best.ops.len()));
            match second_run(k, p, &[c.clone()], dir) {
                End::Failed(m) => {
                    best = c;
                    msg = m;
                }
                _ => at += len,
            }
        }
        len /= 2;
    }
    Ok((done, Some((vec![best], msg))))
}

// ---------------------------------------------------------------- check

struct Wk {
    ch: Child,
    last: (u64, Instant),
    done: bool,
}

pub struct Found {
    index: u64,
    shard: u64,
    text: String,
    hangs: bool,
    /// an oracle said so (the process did not just end)
    judged: bool,
}

fn root() -> PathBuf {
    std::env::var_os("ECSFUZZ_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn spawn_workers(p: &Prop, seed: u64, range: (u64, u64), dir: &Path, of: u64) -> Vec<Wk> {
    (0..of)
        .map(|s| {
            let ch = me(&["worker", p.id, &seed.to_string(), &s.to_string(), &of.to_string(), &range.0.to_string(), &range.1.to_string(), dir.to_str().unwrap()])
                .stdout(Stdio::null())
                .stderr(std::fs::File::create(dir.join(format!("err.{}", s))).unwrap())
                .spawn()
                .unwrap();
            Wk { ch, last: (u64::MAX, Instant::now()), done: false }
        })
        .collect()
}

fn progress(dir: &Path, s: usize) -> u64 {
    let b = std::fs::read(dir.join(format!("progress.{}", s))).unwrap_or_default();
    b.try_into().map(u64::from_le_bytes).unwrap_or(u64::MAX)
}

/// Ok(None): all passed
fn search(p: &Prop, seed: u64, n: u64, dir: &Path) -> Result<Option<Found>, String> {
    let mut ws = spawn_workers(p, seed, (0, n), dir, WORKERS);
    let mut found: Option<Found> = None;
    let mut trouble = None;
    'outer: loop {
        let mut left = 0;
        for (s, w) in ws.iter_mut().enumerate() {
            if w.done {
                continue;
            }
            if let Some(st) = w.ch.try_wait().unwrap() {
                w.done = true;
                let err = String::from_utf8_lossy(&std::fs::read(dir.join(format!("err.{}", s))).unwrap_or_default()).into_owned();
                let fail = std::fs::read_to_string(dir.join(format!("fail.{}", s))).unwrap_or_default();
                let (index, msg) = match fail.split_once('\n') {
                    Some((i, m)) => (i.parse().unwrap(), m.to_string()),
                    None => (progress(dir, s), String::new()),
                };
                match verdict(st, &msg, &err) {
                    End::Passed => {}
                    End::Failed(text) => {
                        found = Some(Found { index, shard: s as u64, text, hangs: false, judged: !fail.is_empty() });
                        break 'outer;
                    }
                    End::Unclear(t) => {
                        trouble = Some(format!("worker {} at case {}: {}", s, index, t));
                        break 'outer;
                    }
                }
                continue;
            }
            left += 1;
            let i = progress(dir, s);
            if i != w.last.0 {
                w.last = (i, Instant::now());
            } else if w.last.1.elapsed() > STALL {
                found = Some(Found { index: i, shard: s as u64, text: HANGS.into(), hangs: true, judged: false });
                break 'outer;
            }
        }
        if left == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    for w in ws.iter_mut() {
        if !w.done {
            let _ = w.ch.kill();
            let _ = w.ch.wait();
        }
    }
    match trouble {
        Some(t) => Err(t),
        None => Ok(found),
    }
}

const CASE_LIMIT: Duration = Duration::from_secs(60);

/// The failing cases, as small as can be, and what fails.
fn reproduce(p: &Prop, seed: u64, f: &Found, dir: &Path) -> Result<(Vec<Case>, String, u64), String> {
    let s = gen::strategy(p, false);
    let mut tree = gen::tree(p, &s, seed, f.index);
    let mut tries = 0;
    let mut first = None;
    let mut best = tree.current();
    if f.hangs {
        // by itself, and again
        for _ in 0..2 {
            match run_cases(p, &[best.clone()], dir, STALL) {
                End::Unclear(m) if m == HANGS => {}
                End::Failed(m) => return Ok((vec![best], m, 0)),
                End::Passed => return Err(format!("case {} did not finish once, and then did", f.index)),
                End::Unclear(m) => return Err(m),
            }
        }
        let t0 = Instant::now();
        let mut evals = 0;
        let mut len = best.ops.len() / 2;
        while len >= 1 && t0.elapsed() < Duration::from_secs(90) {
            let mut at = 0;
            while at < best.ops.len() && t0.elapsed() < Duration::from_secs(90) {
                let mut c = best.clone();
                c.ops.drain(at..(at + len).min(best.ops.len()));
                evals += 1;
                match run_cases(p, &[c.clone()], dir, Duration::from_secs(10)) {
                    End::Unclear(m) if m == HANGS => best = c,
                    _ => at += len,
                }
            }
            len /= 2;
        }
        return Ok((vec![best], HANGS.into(), evals));
    }
    for _ in 0..4 {
        tries += 1;
        if let End::Failed(m) = run_cases(p, &[best.clone()], dir, CASE_LIMIT) {
            first = Some(m);
            break;
        }
    }
    let Some(mut msg) = first else {
        // perhaps it needs what the process did before it
        for back in [4u64, 32, 256] {
            let cases: Vec<Case> = (0..=back)
                .rev()
                .filter_map(|b| f.index.checked_sub(b * WORKERS))
                .map(|i| gen::tree(p, &s, seed, i).current())
                .collect();
            for _ in 0..3 {
                if let End::Failed(m) = run_cases(p, &cases, dir, CASE_LIMIT) {
                    return Ok((cases, m, 0));
                }
            }
        }
        if f.judged && p.id != "C08" {
            // What an oracle refuted did happen, even if it depends on something that is not the
            // same every time. (Only C08 judges by the clock.)
            let cases = (0..=32u64).rev().filter_map(|b| f.index.checked_sub(b * WORKERS)).map(|i| gen::tree(p, &s, seed, i).current()).collect();
            return Ok((cases, format!("{} (not at every run)", f.text), 0));
        }
        return Err(format!("case {} of worker {} failed once and not again: {}", f.index, f.shard, f.text));
    };
    let t0 = Instant::now();
    let mut evals = 0;
    if tries == 1 && std::env::var_os("ECSFUZZ_NO_SHRINK").is_none() {
        // the library's own shrinking
        let ok = |evals: &mut u64, c: &Case| -> Option<String> {
            *evals += 1;
            match run_cases(p, &[c.clone()], dir, Duration::from_secs(20)) {
                End::Failed(m) => Some(m),
                _ => None,
            }
        };
        // first whole stretches of operations at once
        let mut len = best.ops.len() / 2;
        while len >= 1 && evals < 200 && t0.elapsed() < Duration::from_secs(40) {
            let mut at = 0;
            while at < best.ops.len() && evals < 200 && t0.elapsed() < Duration::from_secs(40) {
                let mut c = best.clone();
                c.ops.drain(at..(at + len).min(best.ops.len()));
                if let Some(m) = ok(&mut evals, &c) {
                    best = c;
                    msg = m;
                } else {
                    at += len;
                }
            }
            len /= 2;
        }
        // then proptest's simplification of every argument, on what is left of its tree
        let simplest = tree.current();
        if best == simplest {
            let mut e2 = 0;
            let mut more = tree.simplify();
            while more && e2 < 200 && t0.elapsed() < Duration::from_secs(60) {
                let c = tree.current();
                match ok(&mut e2, &c) {
                    Some(m) => {
                        best = c;
                        msg = m;
                        more = tree.simplify();
                    }
                    None => more = tree.complicate(),
                }
            }
            evals += e2;
        } else {
            'ops: for i in 0..best.ops.len() {
                for field in 0..3 {
                    for v in [0u32, 1, 2] {
                        if evals > 500 || t0.elapsed() > Duration::from_secs(60) {
                            break 'ops;
                        }
                        let mut c = best.clone();
                        let x = match field {
                            0 => &mut c.ops[i].a,
                            1 => &mut c.ops[i].b,
                            _ => &mut c.ops[i].c,
                        };
                        if *x <= v {
                            break;
                        }
                        *x = v;
                        if let Some(m) = ok(&mut evals, &c) {
                            best = c;
                            msg = m;
                            break;
                        }
                    }
                }
            }
        }
    }
    Ok((vec![best], msg, evals))
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Sum {
    cases: u64,
    classes: Vec<(String, u64, u64)>,
    distinct: u64,
    samples: Vec<String>,
}

fn gather(dir: &Path) -> Sum {
    let mut sum = Sum { cases: 0, classes: Vec::new(), distinct: 0, samples: Vec::new() };
    let mut hashes = HashSet::new();
    for s in 0..WORKERS {
        let text = std::fs::read_to_string(dir.join(format!("stats.{}", s))).unwrap_or_default();
        for l in text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            if w[0] == "cases" {
                sum.cases += w[1].parse::<u64>().unwrap();
                continue;
            }
            let (c, v): (u64, u64) = (w[1].parse().unwrap(), w[2].parse().unwrap());
            match sum.classes.iter_mut().find(|x| x.0 == w[0]) {
                Some(x) => {
                    x.1 += c;
                    if w[0].starts_with("max_") {
                        x.2 = x.2.max(v)
                    } else {
                        x.2 += v
                    }
                }
                None => sum.classes.push((w[0].to_string(), c, v)),
            }
        }
        let b = std::fs::read(dir.join(format!("hash.{}", s))).unwrap_or_default();
        hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        let sm = std::fs::read_to_string(dir.join(format!("samples.{}", s))).unwrap_or_default();
        sum.samples.extend(sm.lines().map(String::from));
    }
    sum.distinct = hashes.len() as u64;
    sum
}

fn save(p: &Prop, seed: u64, index: &str, msg: &str, cases: &[Case], note: &str) -> PathBuf {
    let rd = root().join("replays");
    std::fs::create_dir_all(&rd).unwrap();
    let file = rd.join(format!("{}-s{}-{}.case", p.id, seed, index));
    let mut text = format!("# property {}, seed {}, case {}\n{}", p.id, seed, index, note);
    for l in msg.lines() {
        writeln!(text, "# {}", l).unwrap();
    }
    writeln!(text, "# replay: ./check.sh {} --replay {}", p.id, file.display()).unwrap();
    if cases.len() == 1 {
        writeln!(text, "# {}", describe(p, &cases[0], 0)).unwrap();
    }
    for c in cases {
        text += &c.encode();
    }
    std::fs::write(&file, text).unwrap();
    file
}

/// Runs a saved case again.
pub fn replay(p: &Prop, file: &str) {
    let dir = std::env::temp_dir().join(format!("ecsfuzz.replay.{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let text = std::fs::read_to_string(file).expect("readable replay file");
    let end = if let Some(k) = [&MIRI, &MSAN, &OPTIMISED].into_iter().find(|k| text.contains(&format!("# run in {}\n", k.name))) {
        match if k.name == MSAN.name { msan_build() } else if k.name == OPTIMISED.name { rel_build() } else { Ok(()) } {
            Ok(()) => second_run(k, p, &Case::decode_all(&text), &dir),
            Err(m) => End::Unclear(m),
        }
    } else {
        run_file(p, Path::new(file), &dir, Duration::from_secs(300))
    };
    let _ = std::fs::remove_dir_all(&dir);
    match end {
        End::Passed => println!("{}: passes", p.id),
        End::Failed(m) => {
            println!("{}: {}", p.id, m);
            println!("VIOLATION property={} replay={}", p.id, file);
            std::process::exit(1)
        }
        End::Unclear(m) if m == HANGS => {
            println!("{}: {}", p.id, m);
            println!("VIOLATION property={} replay={}", p.id, file);
            std::process::exit(1)
        }
        End::Unclear(m) => {
            println!("{}: no answer: {}", p.id, m);
            std::process::exit(2)
        }
    }
}

pub fn check(p: &Prop) {
    let t0 = Instant::now();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let tier = if env("VERIF_TIER", "quick") == "thorough" { "thorough" } else { "quick" };
    let mut n = if tier == "quick" { p.quick } else { p.quick * p.deeper };
    if let Ok(x) = std::env::var("ECSFUZZ_CASES") {
        n = x.parse().unwrap();
    }
    let dir = std::env::temp_dir().join(format!("ecsfuzz.{}.{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut msan = (p.uninit > 0 && std::env::var_os("ECSFUZZ_NO_MIRI").is_none()).then(|| std::thread::spawn(msan_build));
    let r = search(p, seed, n, &dir);
    let mut code = 0;
    let mut violations = 0;
    let mut sum = gather(&dir);
    if sum.cases == 0 {
        // stopped: as far as the workers came
        sum.cases = (0..WORKERS).map(|s| progress(&dir, s as usize)).filter(|i| *i != u64::MAX).map(|i| i / WORKERS + 1).sum();
    }
    let mut extra = String::new();
    match r {
        Err(t) => {
            eprintln!("{}: no answer: {}", p.id, t);
            code = 2;
        }
        Ok(None) => {
            for (k, m) in [(&MSAN, p.uninit), (&MIRI, p.interpreted), (&OPTIMISED, p.long)] {
                let m = if tier == "quick" { m } else { m * p.deeper };
                if m == 0 || code != 0 || std::env::var_os("ECSFUZZ_NO_MIRI").is_some() {
                    continue;
                }
                if k.name == MSAN.name {
                    if let Err(e) = msan.take().map_or(Err("not built".into()), |j| j.join().unwrap()) {
                        // the other ways still decide
                        eprintln!("{}: without MemorySanitizer: {}", p.id, e);
                        extra += &format!(",\"MemorySanitizer\":{}", json(&format!("not available: {}", e)));
                        continue;
                    }
                }
                if k.name == OPTIMISED.name {
                    if let Err(e) = rel_build() {
                        eprintln!("{}: no answer: {}", p.id, e);
                        code = 2;
                        continue;
                    }
                }
                let file = dir.join("second.cases");
                let mut total = 0;
                // (in portions, for the sake of their files)
                for part in 0..(m + 15999) / 16000 {
                    let count = (m - part * 16000).min(16000);
                    if k.name == OPTIMISED.name {
                        let cases = (0..count).map(|i| gen::tree(p, &gen::long(i + part), seed ^ 0x2718, i + part * 16000).current().encode());
                        std::fs::write(&file, cases.collect::<String>()).unwrap();
                    } else {
                        generate(p, k.name == MIRI.name, seed ^ (0x3141 + part), count, file.to_str().unwrap());
                    }
                    match second_search(k, p, &file, &dir) {
                        Err(t) => {
                            eprintln!("{}: no answer: {}", p.id, t);
                            code = 2;
                        }
                        Ok((done, None)) => total += done,
                        Ok((_, Some((cs, msg)))) => {
                            violations = 1;
                            code = 1;
                            let file = save(p, seed, &k.name.replace(' ', "-"), &msg, &cs, &format!("# run in {}\n", k.name));
                            println!("{}: {}", p.id, msg);
                            println!("VIOLATION property={} replay={}", p.id, file.display());
                            extra += &format!(",\"violation\":{}", json(&msg));
                        }
                    }
                    if code != 0 {
                        break;
                    }
                }
                extra += &format!(",\"cases_in_{}\":{}", k.name.replace(' ', "_"), total);
            }
        }
        Ok(Some(f)) => match reproduce(p, seed, &f, &dir) {
            Ok((cases, msg, evals)) => {
                violations = 1;
                code = 1;
                let file = save(p, seed, &f.index.to_string(), &msg, &cases, "");
                println!("{}: {}", p.id, msg);
                println!("{}: first seen as: {}", p.id, f.text);
                println!("{}: {} operations left after {} shrinking runs", p.id, cases.iter().map(|c| c.ops.len()).sum::<usize>(), evals);
                println!("VIOLATION property={} replay={}", p.id, file.display());
                extra += &format!(",\"violation\":{}", json(&msg));
            }
            Err(t) => {
                eprintln!("{}: no answer: {}", p.id, t);
                code = 2;
            }
        },
    }
    let wall = t0.elapsed().as_secs_f64();
    let classes: Vec<String> = sum.classes.iter().filter(|c| c.1 > 0).map(|c| format!("{}:[{},{}]", json(&c.0), c.1, c.2)).collect();
    let samples: Vec<String> = sum.samples.iter().take(6).map(|s| json(s)).collect();
    let rule = format!("cases are lists of operations generated by proptest strategies from (seed, index), interpreted against the state they meet; distinct by hash of the case; non-trivial: {}", p.rule);
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"classes\":{{{}}},\"classes_note\":\"name: [cases in which it occurred, total occurrences (or maximum)]\"{}}},\"assumptions\":[\"built from /repo's working tree with the nightly toolchain, debug assertions, overflow checks and AddressSanitizer\",\"x86-64 Linux\"],\"wall_s\":{:.2},\"violations\":{}}}\n",
        json(p.id), json(tier), seed, sum.cases, sum.distinct, json(&rule), samples.join(","), classes.join(","), extra, wall, violations
    );
    let ed = root().join("evidence");
    std::fs::create_dir_all(&ed).unwrap();
    std::fs::write(ed.join(format!("{}.json", p.id)), ev).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s, {}", p.id, sum.cases, sum.distinct, wall, match code { 0 => "held", 1 => "violated", _ => "no answer" });
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}
