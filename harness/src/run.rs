//! Running cases: worker processes, the supervisor, shrinking and replaying.

use crate::cov;
use crate::expr::*;
use crate::gen::*;

use crate::props::{self, Prop};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const CHUNKS: u64 = 16;
const STACK: usize = 512 << 20;
const EXIT_FOUND: i32 = 3;
const MAX_SHRINK: usize = 6_000;
const MAX_CORPUS: usize = 4_096;
const MAX_SKIPS: usize = 40;

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    let mut r = Rng::new(h);
    r.next()
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(f)
        .expect("thread")
        .join()
        .unwrap_or_else(|_| std::process::exit(4))
}

/// Panics of the crate under test are outcomes; they are judged, not printed.
fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// A panic outside the guarded calls is a fault of the harness: show it.
fn harness_panic(info: &dyn std::any::Any) -> ! {
    let msg = info
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| info.downcast_ref::<String>().cloned())
        .unwrap_or_default();
    eprintln!("harness panic: {}", msg);
    std::process::exit(4)
}

fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "release"
    }
}

struct WorkArgs {
    prop: &'static Prop,
    seed: u64,
    chunk: u64,
    cases: u64,
    out: String,
    log: Option<String>,
    skip: Vec<u64>,
    regress: Option<String>,
}

fn parse_work(args: &[String]) -> WorkArgs {
    let mut w = WorkArgs {
        prop: props::find(&args[0]).expect("property"),
        seed: args[1].parse().expect("seed"),
        chunk: args[2].parse().expect("chunk"),
        cases: args[3].parse().expect("cases"),
        out: args[4].clone(),
        log: None,
        skip: vec![],
        regress: None,
    };
    let mut i = 5;
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--log" => w.log = Some(args[i + 1].clone()),
            "--skip" => {
                w.skip = args[i + 1]
                    .split(',')
                    .filter_map(|s| s.parse().ok())
                    .collect()
            }
            "--regress" => w.regress = Some(args[i + 1].clone()),
            _ => {}
        }
        i += 2;
    }
    w
}

fn read_cases(path: &str) -> Vec<Case> {
    fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| match Case::parse(l) {
            Some(c) => c,
            None => {
                eprintln!("cannot parse case: {}", l);
                std::process::exit(4)
            }
        })
        .collect()
}

pub fn work(args: &[String]) -> i32 {
    let w = parse_work(args);
    quiet_panics();
    on_big_stack(
        move || match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| work_in(w))) {
            Ok(c) => c,
            Err(p) => harness_panic(&*p),
        },
    )
}

fn work_in(w: WorkArgs) -> i32 {
    let p = w.prop;
    let seed = hash(&format!("{} {} {}", w.seed, p.id, w.chunk));
    let mut g = Gen::new(seed);
    let regress = w.regress.as_deref().map(read_cases).unwrap_or_default();
    let log = w.log.as_ref().map(|f| fs::File::create(f).expect("log"));
    let mut corpus: Vec<Case> = Vec::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let (mut nontrivial, mut mutated, mut most, mut skipped) = (0u64, 0u64, 0u64, 0u64);
    let mut nodes_max = 0;
    let mut i = 0u64;
    while i < w.cases {
        if i % 512 == 0 {
            g.dict = cov::dict().to_vec();
        }
        let from_corpus = corpus.len() >= 8 && g.r.chance(35);
        let case = if (i as usize) < regress.len() {
            regress[i as usize].clone()
        } else if from_corpus {
            mutated += 1;
            // favour recent discoveries
            let n = corpus.len() as u64;
            let a = if g.r.chance(50) {
                n - 1 - g.r.below(n.min(64))
            } else {
                g.r.below(n)
            };
            let b = g.r.below(n);
            g.mutate(&corpus[a as usize], &corpus[b as usize])
        } else {
            (p.gen)(&mut g)
        };
        let idx = i;
        i += 1;
        if w.skip.contains(&idx) {
            skipped += 1;
            continue;
        }
        if case.nodes() > 60 {
            continue;
        }
        if let Some(f) = &log {
            let t = format!("{}\n{}\n", idx, case.show());
            f.set_len(0).expect("log");
            f.write_at(t.as_bytes(), 0).expect("log");
        }
        cov::reset_case();
        let verdict = (p.check)(&case);
        most = most.max(cov::used());
        match verdict {
            Err(msg) => {
                fs::write(
                    format!("{}.fail", w.out),
                    format!("{}\n{}\n{}\n", idx, case.show(), msg),
                )
                .expect("fail file");
                return EXIT_FOUND;
            }
            Ok(n) => {
                *classes.entry(n.class).or_insert(0) += 1;
                nodes_max = nodes_max.max(case.nodes());
                if n.nontrivial {
                    nontrivial += 1;
                    let text = case.show();
                    let fresh = distinct.insert(hash(&text));
                    // a spread of examples: the sample interval doubles
                    if fresh && samples.len() < 6 && nontrivial >= 1 << (3 * samples.len()) {
                        samples.push(text);
                    }
                }
            }
        }
        if cov::absorb() && corpus.len() < MAX_CORPUS {
            corpus.push(case);
        }
    }
    let mut t = String::new();
    t += &format!("profile {}\n", profile());
    t += &format!("cases {}\n", i);
    t += &format!("nontrivial {}\n", nontrivial);
    t += &format!("mutated {}\n", mutated);
    t += &format!("skipped {}\n", skipped);
    t += &format!("corpus {}\n", corpus.len());
    t += &format!("blocks {}\n", most);
    t += &format!("nodes {}\n", nodes_max);
    t += &format!("guards {}\n", cov::guards());
    t += &format!("edges {}\n", cov::edges_seen());
    t += &format!("dict {}\n", cov::dict().len());
    for (k, v) in &classes {
        t += &format!("class {} {}\n", v, k);
    }
    for s in &samples {
        t += &format!("sample {}\n", s);
    }
    let mut h: Vec<u8> = Vec::with_capacity(distinct.len() * 8);
    for v in &distinct {
        h.extend_from_slice(&v.to_le_bytes());
    }
    fs::write(format!("{}.hash", w.out), h).expect("hash file");
    fs::write(format!("{}.seen", w.out), cov::seen_bytes()).expect("seen file");
    fs::write(format!("{}.res", w.out), t).expect("result file");
    0
}

/// Decide one case in this process: exit 0 held, 1 violated (message on stdout).
pub fn one(args: &[String]) -> i32 {
    let p = props::find(&args[0]).expect("property");
    let text = fs::read_to_string(&args[1]).expect("case file");
    let line = text
        .lines()
        .find(|l| l.starts_with('['))
        .expect("case line")
        .to_string();
    let case = Case::parse(&line).expect("case");
    quiet_panics();
    props::PATIENCE.store(60, std::sync::atomic::Ordering::Relaxed);
    on_big_stack(move || {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.check)(&case))) {
            Ok(Ok(n)) => {
                println!("held ({})", n.class);
                0
            }
            Ok(Err(m)) => {
                println!("{}", m);
                1
            }
            Err(p) => harness_panic(&*p),
        }
    })
}

/// Read one program alone in a fresh process, or compare two: exit 0 if the result is what the
/// oracle says, 1 if not.
pub fn solo(args: &[String]) -> i32 {
    let case = Case::parse(&args[0]).expect("case");
    quiet_panics();
    on_big_stack(move || {
        let e = &case.ex[0];
        let ev = eval(e);
        if case.ex.len() == 2 {
            // two programs: is their comparison what the oracle says?
            let other = eval(&case.ex[1]);
            return match (ev.value(), other.value()) {
                (Some(u), Some(v)) => {
                    let want = u.val.cmp(&v.val);
                    let got = props::guarded(|| {
                        clarith::Number::compare(build(&case.ex[0]), build(&case.ex[1]))
                    });
                    i32::from(got != Ok(want))
                }
                _ => 1,
            };
        }
        let r = props::guarded(|| {
            let n = build(e);
            match &ev.out {
                Outcome::Value(v) => read_checked(n, &v.sym, 1).is_ok(),
                _ => false,
            }
        });
        match r {
            Ok(true) => 0,
            Ok(false) => 1,
            Err(_) => match ev.out {
                Outcome::DivZero => 0,
                _ => i32::from(ev.roomy()),
            },
        }
    })
}

// ---- supervisor ----

struct Sup {
    prop: &'static Prop,
    tier: String,
    seed: u64,
    bins: [PathBuf; 2],
    dir: PathBuf,
    root: PathBuf,
    deadline: Instant,
}

enum Exec {
    Held,
    Bad(String),
    Error(String),
}

fn describe(st: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(c), _) if c == cov::EXIT_FUEL => format!(
            "evaluation did not finish within {} blocks of the crate",
            props::FUEL
        ),
        (Some(c), _) => format!("process ended with status {}", c),
        (_, Some(s)) => format!("process killed by signal {}", s),
        _ => "process ended abnormally".to_string(),
    }
}

/// Is abnormal end on this case a violation of this property?
fn abort_counts(p: &Prop, case: &Case) -> bool {
    match p.id {
        // says nothing about numbers that never come
        "C14" => false,
        // only a refusal that never comes
        "C07" => case
            .ex
            .iter()
            .any(|e| matches!(eval(e).out, Outcome::DivZero)),
        _ => true,
    }
}

fn exec(bin: &Path, p: &Prop, case: &Case, dir: &Path) -> Exec {
    use std::os::unix::process::ExitStatusExt;
    let f = dir.join("candidate.case");
    if fs::write(&f, case.show()).is_err() {
        return Exec::Error("cannot write candidate".to_string());
    }
    let out = match Command::new(bin)
        .arg("one")
        .arg(p.id)
        .arg(&f)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
    {
        Ok(o) => o,
        Err(e) => return Exec::Error(e.to_string()),
    };
    match out.status.code() {
        Some(0) => Exec::Held,
        Some(1) => Exec::Bad(String::from_utf8_lossy(&out.stdout).trim().to_string()),
        Some(c) if c != cov::EXIT_FUEL => Exec::Error(describe(&out.status)),
        _ => {
            // out of work limit, or a signal such as a stack overflow
            if out.status.signal() == Some(9) {
                return Exec::Error("killed".to_string());
            }
            if abort_counts(p, case) {
                Exec::Bad(describe(&out.status))
            } else {
                Exec::Held
            }
        }
    }
}

impl Sup {
    fn late(&self) -> bool {
        Instant::now() > self.deadline
    }

    fn spawn(&self, chunk: u64, cases: u64, extra: &[String]) -> std::io::Result<Child> {
        let mut c = Command::new(&self.bins[(chunk % 2) as usize]);
        c.arg("work")
            .arg(self.prop.id)
            .arg(self.seed.to_string())
            .arg(chunk.to_string())
            .arg(cases.to_string())
            .arg(self.dir.join(format!("chunk{}", chunk)))
            .stdin(Stdio::null())
            .stdout(Stdio::null());
        let reg = self
            .root
            .join("harness/regress")
            .join(format!("{}.txt", self.prop.id));
        if chunk < 2 && reg.exists() {
            c.arg("--regress").arg(reg);
        }
        for e in extra {
            c.arg(e);
        }
        if self.prop.threads() {
            // what threads do to each other may not come again, so note each case first
            c.arg("--log");
            c.arg(self.dir.join(format!("chunk{}.log", chunk)));
        }
        c.spawn()
    }

    fn shrink(&self, bin: &Path, mut case: Case, mut msg: String) -> (Case, String, usize) {
        let mut tried = 0;
        let mut seen: HashSet<String> = HashSet::new();
        // only how small the case gets depends on this
        let enough = Instant::now() + Duration::from_secs(if self.prop.threads() { 60 } else { 240 });
        'again: loop {
            for c in props_shrink(self.prop, &case) {
                if tried >= MAX_SHRINK || self.late() || Instant::now() > enough {
                    break 'again;
                }
                if !seen.insert(c.show()) {
                    continue;
                }
                tried += 1;
                if let Exec::Bad(m) = exec(bin, self.prop, &c, &self.dir) {
                    case = c;
                    msg = m;
                    continue 'again;
                }
            }
            break;
        }
        (case, msg, tried)
    }
}

fn props_shrink(p: &Prop, c: &Case) -> Vec<Case> {
    shrink_case(c, p.keep_count && p.id != "C06")
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn json_list(v: &[String]) -> String {
    format!(
        "[{}]",
        v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ")
    )
}

#[derive(Default)]
struct Totals {
    cases: u64,
    nontrivial: u64,
    mutated: u64,
    skipped: u64,
    corpus: u64,
    blocks: u64,
    nodes: u64,
    guards: u64,
    dict: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    profiles: BTreeMap<String, u64>,
    seen: [Vec<u8>; 2],
    hashes: Vec<u64>,
}

impl Totals {
    fn load(&mut self, base: &Path, chunk: u64) -> Result<(), String> {
        let read = |ext: &str| {
            let p = base.with_extension(ext);
            fs::read(&p).map_err(|e| format!("{}: {}", p.display(), e))
        };
        let text = String::from_utf8_lossy(&read("res")?).to_string();
        let mut prof = String::new();
        for l in text.lines() {
            let (k, v) = l.split_once(' ').ok_or("bad result line")?;
            let n = || v.parse::<u64>().unwrap_or(0);
            match k {
                "profile" => prof = v.to_string(),
                "cases" => {
                    self.cases += n();
                    *self.profiles.entry(prof.clone()).or_insert(0) += n();
                }
                "nontrivial" => self.nontrivial += n(),
                "mutated" => self.mutated += n(),
                "skipped" => self.skipped += n(),
                "corpus" => self.corpus += n(),
                "blocks" => self.blocks = self.blocks.max(n()),
                "nodes" => self.nodes = self.nodes.max(n()),
                "guards" => self.guards = self.guards.max(n()),
                "dict" => self.dict = self.dict.max(n()),
                "class" => {
                    let (c, name) = v.split_once(' ').ok_or("bad class line")?;
                    *self.classes.entry(name.to_string()).or_insert(0) +=
                        c.parse::<u64>().unwrap_or(0);
                }
                "sample" => {
                    if v.len() < 400 {
                        self.samples.push(v.to_string())
                    }
                }
                _ => {}
            }
        }
        for c in read("hash")?.chunks_exact(8) {
            self.hashes
                .push(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let seen = read("seen")?;
        let mine = &mut self.seen[(chunk % 2) as usize];
        if mine.len() < seen.len() {
            mine.resize(seen.len(), 0);
        }
        for (a, b) in mine.iter_mut().zip(seen) {
            *a |= b;
        }
        Ok(())
    }
}

struct Finding {
    signature: String,
    case: Case,
    what: String,
}

/// Recorded findings of this property: `finding: property=ID signature=S case=CASE what=TEXT`.
fn findings(root: &Path, id: &str) -> Result<Vec<Finding>, String> {
    let text = fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        let rest = match l.strip_prefix(&format!("finding: property={} signature=", id)) {
            Some(r) => r,
            None => continue,
        };
        let bad = || format!("bad line in known-findings.txt: {}", l);
        let (signature, rest) = rest.split_once(" case=").ok_or_else(bad)?;
        let (case, what) = rest.split_once(" what=").ok_or_else(bad)?;
        v.push(Finding {
            signature: signature.to_string(),
            case: Case::parse(case).ok_or_else(bad)?,
            what: what.to_string(),
        });
    }
    Ok(v)
}

pub fn check(args: &[String]) -> i32 {
    match check_in(args) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("check error: {}", e);
            2
        }
    }
}

fn check_in(args: &[String]) -> Result<i32, String> {
    let start = Instant::now();
    let prop = props::find(args.first().ok_or("property missing")?).ok_or("unknown property")?;
    let tier = args.get(1).ok_or("tier missing")?.clone();
    let root = PathBuf::from(args.get(2).ok_or("root missing")?);
    let bins = [
        PathBuf::from(args.get(3).ok_or("checked binary missing")?),
        PathBuf::from(args.get(4).ok_or("release binary missing")?),
    ];
    let seed: u64 = match std::env::var("VERIF_SEED") {
        Ok(s) => s.trim().parse().unwrap_or_else(|_| hash(&s)),
        Err(_) => 1,
    };
    let quick = tier != "thorough";
    let limit = if quick { 840 } else { 6_600 };
    let mut total = if quick { prop.cases.0 } else { prop.cases.1 };
    if let Ok(s) = std::env::var("VERIF_CASES") {
        total = s.parse().map_err(|_| "VERIF_CASES")?;
    }
    let dir = root
        .join("out")
        .join(format!("work-{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    fs::create_dir_all(root.join("out/replays")).map_err(|e| e.to_string())?;
    fs::create_dir_all(root.join("evidence")).map_err(|e| e.to_string())?;
    let sup = Sup {
        prop,
        tier,
        seed,
        bins,
        dir: dir.clone(),
        root: root.clone(),
        deadline: start + Duration::from_secs(limit),
    };
    let r = supervise(&sup, total, start);
    let _ = fs::remove_dir_all(&dir);
    r
}

/// A failing case, how it was found.
struct Found {
    chunk: u64,
    idx: u64,
    case: Case,
    msg: String,
}

fn parse_fail(text: &str) -> Option<(u64, Case, String)> {
    let mut l = text.lines();
    let idx = l.next()?.parse().ok()?;
    let case = Case::parse(l.next()?)?;
    Some((idx, case, l.collect::<Vec<_>>().join(" ")))
}

/// Outcome of one finished chunk; None when it has to be started again with another case skipped.
fn settle(
    sup: &Sup,
    chunk: u64,
    cases: u64,
    st: std::process::ExitStatus,
    skips: &mut Vec<u64>,
) -> Result<Option<Option<Found>>, String> {
    use std::os::unix::process::ExitStatusExt;
    let base = sup.dir.join(format!("chunk{}", chunk));
    match st.code() {
        Some(0) => Ok(Some(None)),
        Some(EXIT_FOUND) => {
            let t = fs::read_to_string(base.with_extension("fail")).map_err(|e| e.to_string())?;
            let (idx, case, msg) = parse_fail(&t).ok_or("unreadable fail file")?;
            Ok(Some(Some(Found {
                chunk,
                idx,
                case,
                msg,
            })))
        }
        c if c == Some(cov::EXIT_FUEL) || (c.is_none() && st.signal() != Some(9)) => {
            // Find the case: the same run again, this time noting each case first.
            let log = base.with_extension("log");
            let mut extra = vec!["--log".to_string(), log.display().to_string()];
            if !skips.is_empty() {
                extra.push("--skip".to_string());
                extra.push(
                    skips
                        .iter()
                        .map(|s| s.to_string())
                        .collect::<Vec<_>>()
                        .join(","),
                );
            }
            let again = if sup.prop.threads() {
                st
            } else {
                let mut child = sup
                    .spawn(chunk, cases, &extra)
                    .map_err(|e| e.to_string())?;
                wait(&mut child, sup)?
            };
            if again.code() == Some(0) {
                return Err("a worker ended abnormally but not when run again".to_string());
            }
            let t = fs::read_to_string(&log).map_err(|e| e.to_string())?;
            let mut l = t.lines();
            let idx: u64 = l.next().and_then(|s| s.parse().ok()).ok_or("bad log")?;
            let case = l.next().and_then(Case::parse).ok_or("bad log")?;
            if abort_counts(sup.prop, &case) {
                return Ok(Some(Some(Found {
                    chunk,
                    idx,
                    case,
                    msg: describe(&again),
                })));
            }
            skips.push(idx);
            if skips.len() > MAX_SKIPS {
                return Err(format!(
                    "more than {} cases could not be decided: {}",
                    MAX_SKIPS,
                    describe(&again)
                ));
            }
            Ok(None)
        }
        _ => Err(format!("worker {}: {}", chunk, describe(&st))),
    }
}

fn wait(child: &mut Child, sup: &Sup) -> Result<std::process::ExitStatus, String> {
    loop {
        if let Some(st) = child.try_wait().map_err(|e| e.to_string())? {
            return Ok(st);
        }
        if sup.late() {
            let _ = child.kill();
            let _ = child.wait();
            return Err("time limit of the check reached".to_string());
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn supervise(sup: &Sup, total: u64, start: Instant) -> Result<i32, String> {
    let prop = sup.prop;
    let per = total.div_ceil(CHUNKS);
    let jobs = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(1, 16);
    // a worker with threads of its own takes several processors
    let jobs = if prop.threads() {
        (jobs / 3).max(1)
    } else {
        jobs
    };

    // Recorded findings are looked at first; they only ever excuse their own signature.
    let known = findings(&sup.root, prop.id)?;
    let listed: Vec<&str> = known.iter().map(|f| f.signature.as_str()).collect();
    std::env::set_var("VERIF_KNOWN", listed.join(","));
    let mut still = Vec::new();
    for f in &known {
        let ev = f.case.ex.iter().map(eval).all(|e| e.safe);
        let r = Command::new(&sup.bins[0])
            .arg("solo")
            .arg(f.case.show())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .map_err(|e| e.to_string())?;
        // signature: the reference evaluation outgrows the word, and the crate gives up
        if f.signature == "coefficients-outgrow-word" && !ev {
            let gave_up = Command::new(&sup.bins[0])
                .arg("one")
                .arg(prop.id)
                .arg({
                    let p = sup.dir.join("known.case");
                    fs::write(&p, f.case.show()).map_err(|e| e.to_string())?;
                    p
                })
                .stderr(Stdio::null())
                .output()
                .map_err(|e| e.to_string())?;
            let text = String::from_utf8_lossy(&gave_up.stdout).to_string();
            if r.code() == Some(0) && text.contains("outgrow the word") {
                println!("KNOWN-FINDING: property={} {}", prop.id, f.what);
                still.push(f.what.clone());
            }
        }
    }

    let mut queue: Vec<u64> = (0..CHUNKS).rev().collect();
    let mut running: Vec<(u64, Child)> = Vec::new();
    let mut skips: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
    let mut found: Vec<Found> = Vec::new();
    let mut error = None;
    while !(queue.is_empty() && running.is_empty()) && error.is_none() {
        while running.len() < jobs && !queue.is_empty() && found.is_empty() {
            let chunk = queue.pop().unwrap();
            let mut extra = vec![];
            if let Some(s) = skips.get(&chunk) {
                extra.push("--skip".to_string());
                extra.push(s.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
            }
            running.push((chunk, sup.spawn(chunk, per, &extra).map_err(|e| e.to_string())?));
        }
        if !found.is_empty() {
            queue.clear();
        }
        let mut i = 0;
        let mut progress = false;
        while i < running.len() {
            match running[i].1.try_wait() {
                Ok(Some(st)) => {
                    progress = true;
                    let (chunk, _) = running.swap_remove(i);
                    let s = skips.entry(chunk).or_default();
                    match settle(sup, chunk, per, st, s) {
                        Ok(Some(Some(f))) => found.push(f),
                        Ok(Some(None)) => {}
                        Ok(None) => queue.push(chunk),
                        Err(e) => error = Some(e),
                    }
                }
                Ok(None) => i += 1,
                Err(e) => error = Some(e.to_string()),
            }
        }
        if !found.is_empty() || error.is_some() {
            for (_, c) in running.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            running.clear();
            break;
        }
        if sup.late() {
            for (_, c) in running.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            return Err("time limit of the check reached".to_string());
        }
        if !progress {
            std::thread::sleep(Duration::from_millis(10));
        }
    }
    if let Some(e) = error {
        return Err(e);
    }

    let mut totals = Totals::default();
    let mut replays: Vec<String> = Vec::new();
    if let Some(f) = found.into_iter().min_by_key(|f| (f.case.nodes(), f.chunk)) {
        let bin = sup.bins[(f.chunk % 2) as usize].clone();
        let prof = ["checked", "release"][(f.chunk % 2) as usize];
        let path = sup.root.join("out/replays").join(format!(
            "{}-{:016x}.txt",
            prop.id,
            hash(&format!("{} {}", prof, f.case.show()))
        ));
        let text;
        match exec(&bin, prop, &f.case, &sup.dir) {
            Exec::Bad(m) => {
                let (case, msg, tried) = sup.shrink(&bin, f.case.clone(), m);
                text = format!(
                    "property {}\nprofile {}\nkind case\n{}\nmessage {}\nshrunk-from {}\nshrink-attempts {}\n",
                    prop.id,
                    prof,
                    case.show(),
                    msg,
                    f.case.show(),
                    tried
                );
                println!("{}: {}", prop.id, msg);
                println!("{}: minimal case ({}): {}", prop.id, prof, case.show());
            }
            Exec::Held => {
                // Depends on what ran before in the same process: keep the history instead.
                text = format!(
                    "property {}\nprofile {}\nkind history\nseed {}\nchunk {}\ncases {}\n{}\nmessage {}\n",
                    prop.id,
                    prof,
                    sup.seed,
                    f.chunk,
                    f.idx + 1,
                    f.case.show(),
                    f.msg
                );
                println!("{}: {} (only after a history of other cases)", prop.id, f.msg);
            }
            Exec::Error(e) => return Err(e),
        }
        fs::write(&path, text).map_err(|e| e.to_string())?;
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        replays.push(path.display().to_string());
        totals.cases = f.idx + 1;
        totals.samples.push(f.case.show());
    } else {
        for chunk in 0..CHUNKS {
            totals.load(&sup.dir.join(format!("chunk{}", chunk)), chunk)?;
        }
    }
    totals.hashes.sort_unstable();
    totals.hashes.dedup();
    let distinct = totals.hashes.len();
    let edges = |v: &Vec<u8>| v.iter().filter(|b| **b != 0).count();
    // a few samples of different sizes
    totals.samples.sort_by_key(|s| s.len());
    totals.samples.dedup();
    let n = totals.samples.len();
    let keep: Vec<String> = if n <= 8 {
        totals.samples.clone()
    } else {
        (0..8).map(|i| totals.samples[i * (n - 1) / 7].clone()).collect()
    };
    let classes = totals
        .classes
        .iter()
        .map(|(k, v)| format!("{}: {}", json(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    let profiles = totals
        .profiles
        .iter()
        .map(|(k, v)| format!("{}: {}", json(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"nontrivial\": {},\n    \"rule\": {},\n    \"samples\": {},\n    \"classes\": {{{}}},\n    \"profiles\": {{{}}},\n    \"mutated_from_corpus\": {},\n    \"corpus\": {},\n    \"blocks_instrumented\": {},\n    \"blocks_reached_checked\": {},\n    \"blocks_reached_release\": {},\n    \"most_blocks_in_one_case\": {},\n    \"largest_program_nodes\": {},\n    \"dictionary\": {},\n    \"undecided_skipped\": {}\n  }},\n  \"known_findings\": {},\n  \"violations\": {},\n  \"replays\": {},\n  \"wall_s\": {:.1}\n}}\n",
        json(prop.id),
        json(&sup.tier),
        sup.seed,
        totals.cases,
        distinct,
        totals.nontrivial,
        json(prop.rule),
        json_list(&keep),
        classes,
        profiles,
        totals.mutated,
        totals.corpus,
        totals.guards,
        edges(&totals.seen[0]),
        edges(&totals.seen[1]),
        totals.blocks,
        totals.nodes,
        totals.dict,
        totals.skipped,
        json_list(&still),
        replays.len(),
        json_list(&replays),
        start.elapsed().as_secs_f64()
    );
    fs::write(
        sup.root.join("evidence").join(format!("{}.json", prop.id)),
        ev,
    )
    .map_err(|e| e.to_string())?;
    let _ = std::io::stdout().flush();
    if replays.is_empty() {
        println!(
            "{}: held on {} cases, {} distinct non-trivial, {:.1} s",
            prop.id,
            totals.cases,
            distinct,
            start.elapsed().as_secs_f64()
        );
        Ok(0)
    } else {
        Ok(1)
    }
}

/// replay FILE CHECKED_BIN RELEASE_BIN
pub fn replay(args: &[String]) -> i32 {
    let text = match fs::read_to_string(&args[0]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", args[0], e);
            return 2;
        }
    };
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{} ", k)))
            .unwrap_or("")
            .to_string()
    };
    let id = get("property");
    let bin = if get("profile") == "release" {
        &args[2]
    } else {
        &args[1]
    };
    let dir = std::env::temp_dir().join(format!("clarith-replay-{}", std::process::id()));
    if fs::create_dir_all(&dir).is_err() {
        return 2;
    }
    let code = if get("kind") == "history" {
        let mut c = Command::new(bin);
        c.arg("work")
            .arg(&id)
            .arg(get("seed"))
            .arg(get("chunk"))
            .arg(get("cases"))
            .arg(dir.join("out"));
        if let Ok(r) = std::env::var("VERIF_REGRESS") {
            c.arg("--regress").arg(r);
        }
        match c.status() {
            Ok(s) if s.code() == Some(0) => 0,
            Ok(s) => {
                println!("{}", describe(&s));
                println!(
                    "{}",
                    fs::read_to_string(dir.join("out.fail")).unwrap_or_default()
                );
                1
            }
            Err(_) => 2,
        }
    } else {
        let p = match props::find(&id) {
            Some(p) => p,
            None => return 2,
        };
        let case = match text.lines().find(|l| l.starts_with('[')).and_then(Case::parse) {
            Some(c) => c,
            None => return 2,
        };
        for (i, e) in case.ex.iter().enumerate() {
            let ev = eval(e);
            println!(
                "operand {}: {} (safe {}, {} bits)",
                i,
                match &ev.out {
                    Outcome::Value(v) => format!("{} = {}", v.val.show(), v.sym.show()),
                    Outcome::DivZero => "division by zero".to_string(),
                    Outcome::TooBig => "too big".to_string(),
                },
                ev.safe,
                128 - ev.peak.leading_zeros()
            );
        }
        match exec(Path::new(bin), p, &case, &dir) {
            Exec::Held => {
                println!("held");
                0
            }
            Exec::Bad(m) => {
                println!("violated: {}", m);
                1
            }
            Exec::Error(e) => {
                eprintln!("{}", e);
                2
            }
        }
    };
    let _ = fs::remove_dir_all(&dir);
    code
}

