//! Generated-input checks of the properties in /verif/properties.jsonl.
//!
//!     pv check ID          run the check (VERIF_SEED, VERIF_TIER)
//!     pv replay FILE       run the one case a replay file describes
//!     pv list              the property ids
//!
//! `check` starts worker processes of this same binary, so that a case that
//! brings its process down is one more observation.

mod dbg;
mod engine;
mod gen;
mod gref;
mod lx;
mod p_lex;
mod p_par;
mod props;
mod re;
mod work;

use engine::{fnv, run_case, shrink, Cx, Outcome, Source};
use props::{Prop, PROPS};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: work::Counting = work::Counting;

const WORKERS: usize = 8;
/// Exit status asked of the memory checker.
const EXIT_ASAN: i32 = 86;
/// A single case making no progress for this long is reported as an error.
const CASE_TIMEOUT: Duration = Duration::from_secs(240);
const QUICK_TIMEOUT: Duration = Duration::from_secs(780);
const SHRINK_RUNS: usize = 3000;

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn find(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| die(&format!("unknown property {id}")))
}

fn die(m: &str) -> ! {
    eprintln!("error: {m}");
    exit(2)
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a[1..] {
        ["check", id] => check(find(id)),
        ["worker", id, w, dir] => worker(find(id), w.parse().unwrap(), Path::new(dir)),
        ["one", id, case, out] => one(find(id), case, Path::new(out)),
        ["try", id, file, out] => attempt(find(id), Path::new(file), Path::new(out)),
        ["replay", file] => replay(Path::new(file)),
        ["lex"] => p_lex::lex_alone(),
        ["list"] => PROPS.iter().for_each(|p| println!("{}", p.id)),
        _ => die("usage: pv check ID | replay FILE | list"),
    }
}

// ----------------------------------------------------------------------- cases

/// A case: a fixed one, a generated one by its index, or given choices.
#[derive(Clone, Copy)]
enum Case {
    Pinned(usize),
    Gen(usize),
}

impl Case {
    fn text(self) -> String {
        match self {
            Case::Pinned(i) => format!("p{i}"),
            Case::Gen(i) => format!("g{i}"),
        }
    }
    fn read(t: &str) -> Option<Case> {
        let n = t.trim().get(1..)?.trim().parse().ok()?;
        match t.as_bytes()[0] {
            b'p' => Some(Case::Pinned(n)),
            b'g' => Some(Case::Gen(n)),
            _ => None,
        }
    }
}

fn size_of(i: usize) -> u32 {
    4 + (i % 60) as u32
}

fn source(p: &Prop, i: usize) -> Source {
    Source::random(fnv(format!("{}/{}/{i}", seed(), p.id).as_bytes()), size_of(i))
}

/// Runs a fixed case; `None` when there is no such case.
fn run_pinned(p: &Prop, i: usize, cx: &mut Cx) -> Option<Outcome> {
    work::reset();
    let f = p.pinned;
    let r = engine::with_hash_seed(i as u64, || f(i, cx));
    work::stop();
    match r {
        Ok(None) => None,
        Ok(Some(Ok(()))) => Some(Outcome::Pass),
        Ok(Some(Err(m))) => Some(Outcome::Fail(m)),
        Err(m) => {
            engine::own_panic(&m);
            Some(Outcome::Fail(format!("panic: {m}")))
        }
    }
}

// ---------------------------------------------------------------------- worker

#[derive(Default)]
struct Stats {
    pinned: u64,
    cases: u64,
    nontrivial: u64,
    comparisons: u64,
    max_allocs: u64,
    max_probes: u64,
    labels: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    samples: Vec<String>,
}

impl Stats {
    fn add(&mut self, cx: &Cx, pinned: bool) {
        if pinned {
            self.pinned += 1;
        } else {
            self.cases += 1;
        }
        self.comparisons += cx.comparisons;
        self.max_allocs = self.max_allocs.max(work::allocs());
        self.max_probes = self.max_probes.max(work::probes());
        let set: BTreeSet<&str> = cx.labels.iter().copied().collect();
        for l in set {
            *self.labels.entry(l.into()).or_default() += 1;
        }
        if cx.nontrivial {
            self.nontrivial += 1;
            let fresh = self.hashes.insert(fnv(cx.desc.as_bytes()));
            if fresh && !pinned && self.samples.len() < 3 && self.cases % 37 == 5 {
                self.samples.push(cx.desc.chars().take(400).collect());
            }
        }
    }

    fn write(&self, f: &Path) {
        let mut t = format!(
            "{} {} {} {} {} {}\n",
            self.pinned, self.cases, self.nontrivial, self.comparisons, self.max_allocs, self.max_probes
        );
        for (l, n) in &self.labels {
            t += &format!("L{n} {l}\n");
        }
        for s in &self.samples {
            t += &format!("S{}\n", s.replace('\n', " "));
        }
        for h in &self.hashes {
            t += &format!("H{h:x}\n");
        }
        fs::write(f, t).expect("stats");
    }

    fn merge(&mut self, f: &Path) {
        let t = fs::read_to_string(f).unwrap_or_else(|e| die(&format!("{}: {e}", f.display())));
        let mut lines = t.lines();
        let n: Vec<u64> = lines.next().unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
        self.pinned += n[0];
        self.cases += n[1];
        self.nontrivial += n[2];
        self.comparisons += n[3];
        self.max_allocs = self.max_allocs.max(n[4]);
        self.max_probes = self.max_probes.max(n[5]);
        for l in lines {
            match l.as_bytes()[0] {
                b'L' => {
                    let (k, l) = l[1..].split_once(' ').unwrap();
                    *self.labels.entry(l.into()).or_default() += k.parse::<u64>().unwrap();
                }
                b'S' => self.samples.push(l[1..].into()),
                _ => {
                    self.hashes.insert(u64::from_str_radix(&l[1..], 16).unwrap());
                }
            }
        }
    }
}

fn write_failure(f: &Path, case: Case, choices: Option<&[u32]>, size: u32, msg: &str) {
    let c = choices.map(nums).unwrap_or_else(|| "-".into());
    let t = format!("{}\n{size}\n{c}\n{}\n", case.text(), msg.replace('\n', "\\n"));
    let tmp = f.with_extension("tmp");
    fs::write(&tmp, t).expect("failure file");
    fs::rename(&tmp, f).expect("failure file");
}

fn nums(c: &[u32]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn unnums(t: &str) -> Vec<u32> {
    t.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

fn worker(p: &Prop, w: usize, dir: &Path) {
    let progress = fs::File::create(dir.join(format!("{w}.at"))).expect("progress file");
    let at = |c: Case| {
        let _ = progress.write_all_at(format!("{:<16}", c.text()).as_bytes(), 0);
    };
    let fail = dir.join(format!("{w}.fail"));
    let mut st = Stats::default();
    for i in (w..).step_by(WORKERS) {
        let mut cx = Cx { fixed: Some(i), ..Cx::default() };
        at(Case::Pinned(i));
        match run_pinned(p, i, &mut cx) {
            None => break,
            Some(Outcome::Pass) => st.add(&cx, true),
            Some(Outcome::Fail(m)) => {
                write_failure(&fail, Case::Pinned(i), None, 0, &m);
                exit(1);
            }
        }
    }
    let n = if thorough() { p.thorough } else { p.quick };
    for i in (w..n).step_by(WORKERS) {
        let mut src = source(p, i);
        let size = src.size;
        let mut cx = Cx::default();
        at(Case::Gen(i));
        match run_case(p.case, &mut src, &mut cx) {
            Outcome::Pass => st.add(&cx, false),
            Outcome::Fail(m) => {
                write_failure(&fail, Case::Gen(i), Some(&src.rec), size, &m);
                let t0 = Instant::now();
                let (best, msg) = shrink(src.rec, m, SHRINK_RUNS, |c| {
                    if t0.elapsed().as_secs() > 100 {
                        return None;
                    }
                    let mut s = Source::replay(c.to_vec(), size);
                    match run_case(p.case, &mut s, &mut Cx::default()) {
                        Outcome::Pass => None,
                        Outcome::Fail(m) => Some((s.rec, m)),
                    }
                });
                write_failure(&fail, Case::Gen(i), Some(&best), size, &msg);
                exit(1);
            }
        }
    }
    at(Case::Gen(usize::MAX));
    st.write(&dir.join(format!("{w}.stats")));
}

/// Runs one case in this process; writes the choices as they are made.
fn one(p: &Prop, case: &str, out: &Path) {
    match Case::read(case).expect("case") {
        Case::Pinned(i) => match run_pinned(p, i, &mut Cx::default()) {
            Some(Outcome::Fail(_)) => exit(1),
            _ => exit(0),
        },
        Case::Gen(i) => {
            let mut s = source(p, i);
            s.dump_to(fs::File::create(out).expect("dump"));
            match run_case(p.case, &mut s, &mut Cx::default()) {
                Outcome::Fail(_) => exit(1),
                _ => exit(0),
            }
        }
    }
}

/// Runs given choices in this process; exits 1 when the case fails.
fn attempt(p: &Prop, file: &Path, out: &Path) {
    let t = fs::read_to_string(file).expect("choices");
    let (size, c) = t.split_once('\n').expect("choices");
    let mut s = Source::replay(unnums(c), size.parse().expect("size"));
    s.dump_to(fs::File::create(out).expect("dump"));
    match run_case(p.case, &mut s, &mut Cx::default()) {
        Outcome::Fail(m) => {
            println!("{m}");
            exit(1)
        }
        _ => exit(0),
    }
}

// ---------------------------------------------------------------------- parent

struct Failure {
    case: Case,
    size: u32,
    choices: Option<Vec<u32>>,
    msg: String,
    /// Fails only after the cases its worker ran before.
    history: Option<usize>,
}

/// Whether cases are run by the build that counts steps.
static COUNT_STEPS: AtomicBool = AtomicBool::new(false);

fn me() -> Command {
    let mut c = if COUNT_STEPS.load(Relaxed) {
        let mut c = Command::new(verif_dir().join("harness/target/steps/release/pv"));
        c.env("PV_NO_CLOCK", "1");
        c
    } else {
        Command::new(std::env::current_exe().expect("own path"))
    };
    c.stdin(Stdio::null());
    c
}

/// From now on, runs cases by the build that counts steps.
fn count_steps() -> Result<(), String> {
    let c = Command::new(verif_dir().join("check.sh")).arg("steps").stdin(Stdio::null()).stdout(Stdio::null()).spawn();
    let s = c.ok().and_then(|c| wait_limited(c, Duration::from_secs(300)));
    if s.is_some_and(|s| s.success()) {
        COUNT_STEPS.store(true, Relaxed);
        return Ok(());
    }
    Err("the harness that counts steps cannot be built".into())
}

/// How a process ended, when that counts as bringing it down: by a memory
/// error, an abort, or by going over its budget of work.
fn crash(st: ExitStatus) -> Option<String> {
    match (st.code(), st.signal()) {
        (Some(work::EXIT_BUDGET), _) if COUNT_STEPS.load(Relaxed) => Some("the case goes over its budget of steps".into()),
        (Some(work::EXIT_BUDGET), _) => Some("the case goes over its budget of work or memory".into()),
        (Some(EXIT_ASAN), _) => Some("the memory checker reports an error".into()),
        (_, Some(s @ (4 | 6 | 7 | 8 | 11))) => Some(format!("the case ends its process with signal {s}")),
        _ => None,
    }
}

fn wait_limited(mut c: Child, limit: Duration) -> Option<ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

struct Cleanup(PathBuf);
impl Drop for Cleanup {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn verif_dir() -> PathBuf {
    std::env::var("PV_HOME").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn check(p: &Prop) {
    let code = {
        let dir = verif_dir().join("harness/target/run").join(format!("{}-{}", p.id, std::process::id()));
        fs::create_dir_all(&dir).expect("run directory");
        let _c = Cleanup(dir.clone());
        check_in(p, &dir)
    };
    exit(code)
}

fn check_in(p: &Prop, dir: &Path) -> i32 {
    let t0 = Instant::now();
    let log = |w: usize| dir.join(format!("{w}.log"));
    let mut kids: Vec<Option<Child>> = (0..WORKERS)
        .map(|w| {
            let c = me()
                .args(["worker", p.id, &w.to_string()])
                .arg(dir)
                .stdout(Stdio::null())
                .stderr(fs::File::create(log(w)).expect("log"))
                .spawn()
                .expect("worker");
            Some(c)
        })
        .collect();
    let mut seen: Vec<(String, Instant)> = vec![(String::new(), Instant::now()); WORKERS];
    let mut failure: Option<(usize, Failure)> = None;
    let mut error: Option<String> = None;
    while kids.iter().any(|k| k.is_some()) && failure.is_none() && error.is_none() {
        std::thread::sleep(Duration::from_millis(15));
        for w in 0..WORKERS {
            let Some(k) = kids[w].as_mut() else { continue };
            let at = fs::read_to_string(dir.join(format!("{w}.at"))).unwrap_or_default();
            if at != seen[w].0 {
                seen[w] = (at.clone(), Instant::now());
            }
            match k.try_wait() {
                Ok(None) => {
                    if seen[w].1.elapsed() > CASE_TIMEOUT {
                        error = Some(format!("case {} makes no progress: inconclusive", at.trim()));
                    } else if !thorough() && t0.elapsed() > QUICK_TIMEOUT {
                        error = Some("time limit of the check: inconclusive".into());
                    }
                }
                Ok(Some(s)) if s.success() => kids[w] = None,
                Ok(Some(s)) => {
                    kids[w] = None;
                    let at = fs::read_to_string(dir.join(format!("{w}.at"))).unwrap_or_default();
                    if let Some(f) = read_failure(&dir.join(format!("{w}.fail"))) {
                        failure = Some((w, f));
                    } else if let (Some(work::EXIT_SLOW), Some(case)) = (s.code(), Case::read(&at)) {
                        let msg = "the case goes over its budget of steps".into();
                        match count_steps() {
                            Ok(()) => failure = Some((w, Failure { case, size: 0, choices: None, msg, history: None })),
                            Err(e) => error = Some(e),
                        }
                    } else if let (Some(why), Some(case)) = (crash(s), Case::read(&at)) {
                        failure = Some((w, Failure { case, size: 0, choices: None, msg: why, history: None }));
                    } else {
                        let said = fs::read_to_string(log(w)).unwrap_or_default();
                        let last = said.lines().last().unwrap_or_default().to_string();
                        error = Some(format!("worker {w} ended with {s} at case {}: {last}", at.trim()));
                    }
                }
                Err(e) => error = Some(format!("waiting for worker {w}: {e}")),
            }
        }
    }
    for k in kids.iter_mut().flatten() {
        let _ = k.kill();
        let _ = k.wait();
    }
    if let Some(e) = error {
        eprintln!("error: property {}: {e}", p.id);
        return 2;
    }
    let mut st = Stats::default();
    for w in 0..WORKERS {
        let f = dir.join(format!("{w}.stats"));
        if f.exists() {
            st.merge(&f);
        }
    }
    match failure {
        None => {
            evidence(p, &st, t0, 0);
            println!(
                "property {} held: {} fixed and {} generated cases, {} distinct non-trivial, {} comparisons, {:.1} s",
                p.id,
                st.pinned,
                st.cases,
                st.hashes.len(),
                st.comparisons,
                t0.elapsed().as_secs_f64()
            );
            0
        }
        Some((w, f)) => {
            let Some(f) = confirm(p, f, w, dir) else {
                eprintln!("error: property {}: a worker went down but its case does not bring down a fresh process", p.id);
                return 2;
            };
            evidence(p, &st, t0, 1);
            let path = write_replay(p, &f);
            println!("property {} is broken: {}", p.id, f.msg);
            if f.msg.contains("memory checker") {
                let t = fs::read_to_string(log(w)).unwrap_or_default();
                for l in t.lines().filter(|l| l.contains("ERROR") || l.contains("    #")).take(12) {
                    println!("{l}");
                }
            }
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
    }
}

fn read_failure(f: &Path) -> Option<Failure> {
    let t = fs::read_to_string(f).ok()?;
    let l: Vec<&str> = t.lines().collect();
    Some(Failure {
        case: Case::read(l.first()?)?,
        size: l.get(1)?.parse().ok()?,
        choices: if *l.get(2)? == "-" { None } else { Some(unnums(l[2])) },
        msg: l.get(3)?.to_string(),
        history: None,
    })
}

/// Runs the failing case in a fresh process; shrinks it when it is one that
/// brings its process down.
fn confirm(p: &Prop, mut f: Failure, w: usize, dir: &Path) -> Option<Failure> {
    let limit = Duration::from_secs(if COUNT_STEPS.load(Relaxed) { 300 } else { 120 });
    let dump = dir.join("dump");
    let input = dir.join("try");
    let describe = |args: &[&str], path: &Path| -> String {
        let k = me().args(args).arg(path).arg(&dump).env("PV_SAY", "1").stderr(Stdio::null()).output();
        let out = k.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
        out.lines().filter_map(|l| l.strip_prefix("case: ")).last().unwrap_or("").to_string()
    };
    let try_choices = |c: &[u32], size: u32, limit: Duration| -> Option<(Vec<u32>, ExitStatus)> {
        fs::write(&input, format!("{size}\n{}", nums(c))).ok()?;
        let _ = fs::remove_file(&dump);
        let mut k = me();
        if limit.as_secs() < 60 {
            k.env("PV_STEPS", "2000000000");
        }
        let k = k.args(["try", p.id]).arg(&input).arg(&dump).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
        let s = wait_limited(k, limit)?;
        let rec = fs::read_to_string(&dump).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();
        Some((rec, s))
    };
    let crashed = |s: ExitStatus| crash(s).is_some();
    // a failure found by comparison in the worker
    if let Some(c) = &f.choices {
        let again = try_choices(c, f.size, limit);
        if !again.is_some_and(|(_, s)| s.code() == Some(1) || crashed(s)) {
            f.history = Some(w);
        }
        return Some(f);
    }
    let k = me().args(["one", p.id, &f.case.text()]).arg(&dump).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
    let s = wait_limited(k, limit)?;
    match f.case {
        Case::Pinned(_) => {
            if s.code() == Some(1) || crashed(s) {
                return Some(f);
            }
            if crash_word(&f.msg) {
                return None;
            }
            f.history = Some(w);
            Some(f)
        }
        Case::Gen(i) => {
            if !crashed(s) {
                return None;
            }
            let rec: Vec<u32> = fs::read_to_string(&dump).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();
            let size = size_of(i);
            let t0 = Instant::now();
            let whole = rec.clone();
            let (best, msg) = shrink(rec, f.msg.clone(), 400, |c| {
                if t0.elapsed().as_secs() > 100 {
                    return None;
                }
                let (rec, s) = try_choices(c, size, Duration::from_secs(20))?;
                crash(s).map(|m| (rec, m))
            });
            f.size = size;
            // what was shrunk under tighter limits must still fail under the real ones
            let (best, again) = match try_choices(&best, size, limit) {
                Some((_, s)) if crashed(s) => (best, true),
                _ => {
                    let again = try_choices(&whole, size, limit).is_some();
                    (whole, again)
                }
            };
            if again {
                f.msg = format!("{msg}: {}", describe(&["try", p.id], &input));
            }
            f.choices = Some(best);
            Some(f)
        }
    }
}

fn crash_word(m: &str) -> bool {
    m.starts_with("the case ") || m.starts_with("the memory checker")
}

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn write_replay(p: &Prop, f: &Failure) -> PathBuf {
    let dir = verif_dir().join("evidence/replays");
    fs::create_dir_all(&dir).expect("replay directory");
    let mut t = format!("{{\"property\":{},\"seed\":{},\"case\":{}", quote(p.id), seed(), quote(&f.case.text()));
    if let Some(c) = &f.choices {
        // describe the case when that does not bring this process down
        t += &format!(",\"size\":{},\"choices\":[{}]", f.size, nums(c));
    }
    if let Some(w) = f.history {
        t += &format!(",\"history_of_worker\":{w}");
    }
    t += &format!(",\"what\":{}}}\n", quote(&f.msg));
    let path = dir.join(format!("{}-{:08x}.json", p.id, fnv(t.as_bytes()) as u32));
    fs::write(&path, t).expect("replay file");
    path
}

fn field<'a>(t: &'a str, name: &str) -> Option<&'a str> {
    let k = format!("\"{name}\":");
    let i = t.find(&k)? + k.len();
    let rest = &t[i..];
    let end = match rest.as_bytes()[0] {
        b'"' => 1 + rest[1..].find('"')? + 1,
        b'[' => rest.find(']')? + 1,
        _ => rest.find([',', '}'])?,
    };
    Some(rest[..end].trim_matches(['"', '[', ']']))
}

fn replay(file: &Path) {
    let t = fs::read_to_string(file).unwrap_or_else(|e| die(&format!("{}: {e}", file.display())));
    let p = find(field(&t, "property").unwrap_or_else(|| die("no property in the replay file")));
    let mut cx = Cx::default();
    let case = field(&t, "case").and_then(Case::read).unwrap_or_else(|| die("no case in the replay file"));
    let r = if field(&t, "history_of_worker").is_some() {
        die("this failure needs the cases before it: run the whole check with the same seed")
    } else if let Some(c) = field(&t, "choices") {
        let size = field(&t, "size").and_then(|x| x.parse().ok()).unwrap_or(30);
        run_case(p.case, &mut Source::replay(unnums(c), size), &mut cx)
    } else {
        match case {
            Case::Pinned(i) => run_pinned(p, i, &mut cx).unwrap_or_else(|| die("no such fixed case")),
            Case::Gen(_) => die("no choices in the replay file"),
        }
    };
    println!("case: {}", cx.desc);
    match r {
        Outcome::Pass => println!("property {} holds on this case", p.id),
        Outcome::Fail(m) => {
            println!("property {} fails: {m}", p.id);
            exit(1)
        }
    }
}

fn evidence(p: &Prop, st: &Stats, t0: Instant, violations: u32) {
    let mut samples: Vec<&String> = st.samples.iter().collect();
    samples.sort();
    samples.dedup();
    samples.truncate(12);
    let labels: Vec<String> = st.labels.iter().map(|(l, n)| format!("{}:{n}", quote(l))).collect();
    let t = format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{},\n\"level\":\"exploration\",\n\"coverage\":{{\n\"evaluations\":{},\n\"distinct_nontrivial\":{},\n\"rule\":{},\n\"samples\":[{}],\n\"fixed_cases\":{},\n\"generated_cases\":{},\n\"nontrivial_cases\":{},\n\"oracle_comparisons\":{},\n\"labels\":{{{}}},\n\"most_allocations_in_a_case\":{},\n\"most_probes_in_a_case\":{}\n}},\n\"assumptions\":[{}],\n\"violations\":{violations},\n\"wall_s\":{:.3}\n}}\n",
        quote(p.id),
        quote(if thorough() { "thorough" } else { "quick" }),
        seed(),
        st.pinned + st.cases,
        st.hashes.len(),
        quote(p.rule),
        samples.iter().map(|s| quote(s)).collect::<Vec<_>>().join(","),
        st.pinned,
        st.cases,
        st.nontrivial,
        st.comparisons,
        labels.join(","),
        st.max_allocs,
        st.max_probes,
        p.assumptions.iter().map(|s| quote(s)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64()
    );
    let dir = verif_dir().join("evidence");
    fs::create_dir_all(&dir).expect("evidence directory");
    let f = dir.join(format!("{}.json", p.id));
    let mut h = fs::File::create(&f).unwrap_or_else(|e| die(&format!("{}: {e}", f.display())));
    h.write_all(t.as_bytes()).expect("evidence");
}
