//! Search driver: worker processes, aggregation, minimisation, replay files, evidence.
use crate::case::*;
use crate::shrink;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub fn main(a: &[String]) -> i32 {
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    match s(0).as_str() {
        "run" => run(&s(1), n(2), &s(3)),
        "worker" => worker(&s(1), n(2), n(3), n(4), n(5), n(6), n(7) != 0),
        "shrink" => shrink_cmd(&s(1), n(2)),
        "replay" => replay(&s(1)),
        "probe" => probe(&s(1)),
        "one" => one(&s(1), n(2), n(3)),
        "case" => one_case(&serde_json::from_str(&std::fs::read_to_string(s(1)).unwrap()).unwrap()),
        "survey" => survey(&s(1), n(2), n(3)),
        _ => {
            eprintln!("usage: simcheck run PROP SEED TIER | replay FILE | one PROP SEED INDEX | survey PROP SEED COUNT");
            2
        }
    }
}

fn read_case(path: &str) -> Result<(Case, J), String> {
    let b = std::fs::read(path).map_err(|e| format!("{path}: {e}"))?;
    let j = crate::json::parse(&b)?;
    let c = j.get("case").cloned().unwrap_or(j.clone());
    Ok((serde_json::from_value(c).map_err(|e| e.to_string())?, j))
}

fn one(prop: &str, seed: u64, index: u64) -> i32 {
    one_case(&make(prop, seed, index))
}

fn one_case(c: &Case) -> i32 {
    println!("{}", serde_json::to_string(c).unwrap());
    let t = Instant::now();
    let o = exec(c, true);
    for l in &o.log {
        println!("{l}");
    }
    println!("{}\n{:?}", o.brief, o.stats);
    for v in &o.viols {
        println!("{}: {}", v.0, v.1);
    }
    println!("hash {:x} {:?}", o.hash, t.elapsed());
    !o.viols.is_empty() as i32
}

// ------------------------------------------------------------------------------------------------ worker

fn say(j: &J) {
    let mut o = std::io::stdout().lock();
    writeln!(o, "{j}").ok();
    o.flush().ok();
}

#[derive(Default)]
struct Agg {
    cases: u64,
    runs: u64,
    evals: u64,
    steps: u64,
    sim_ns: u64,
    hashes: Vec<u64>,
    stats: BTreeMap<String, u64>,
}

fn worker(prop: &str, seed: u64, start: u64, stride: u64, count: u64, secs: u64, go_on: bool) -> i32 {
    // dies with its parent
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    // the standard input is the place the steps are counted at
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, 0, 0);
        if p != libc::MAP_FAILED {
            simcore::count_steps_at(p as *mut std::sync::atomic::AtomicU64);
        }
    }
    let end = Instant::now() + Duration::from_secs(secs);
    let mut g = Agg::default();
    let mut last = Instant::now();
    let mut i = start;
    let flush = |g: &mut Agg| {
        if g.cases > 0 {
            say(&json!({"t": "agg", "cases": g.cases, "runs": g.runs, "evals": g.evals, "steps": g.steps, "sim_ns": g.sim_ns,
                "hashes": g.hashes, "stats": g.stats}));
        }
        *g = Agg::default();
    };
    // part of the cases only: SIM_MOD=modulus:first-last
    let only: Option<Vec<u64>> =
        std::env::var("SIM_MOD").ok().map(|t| t.split([':', '-']).filter_map(|x| x.parse().ok()).collect()).filter(|v: &Vec<u64>| v.len() == 3);
    while i < count && Instant::now() < end {
        if only.as_ref().is_some_and(|o| !(o[1]..=o[2]).contains(&(i % o[0]))) {
            i += stride;
            continue;
        }
        let c = make(prop, seed, i);
        say(&json!({"t": "start", "i": i}));
        let t = Instant::now();
        let o = exec(&c, false);
        if std::env::var_os("SIM_SLOW").is_some() && t.elapsed().as_millis() > 400 {
            eprintln!("slow: {prop} {i} {:?}", t.elapsed());
        }
        if std::env::var_os("SIM_BRIEF").is_some() {
            eprintln!("brief {i}: {}", o.brief);
        }
        g.cases += 1;
        g.runs += o.runs;
        g.evals += o.evals;
        g.steps += o.steps;
        g.sim_ns += o.sim_ns;
        if o.nontrivial {
            g.hashes.push(o.hash);
        }
        for (k, n) in o.stats {
            *g.stats.entry(k).or_default() += n;
        }
        if i < 24 {
            say(&json!({"t": "sample", "i": i, "s": o.brief}));
        }
        if !o.viols.is_empty() {
            flush(&mut g);
            let mut seen = HashSet::new();
            let v: Vec<J> = o.viols.iter().filter(|v| seen.insert(v.0.clone())).map(|v| json!([v.0, v.1])).collect();
            say(&json!({"t": "viol", "i": i, "v": v, "brief": o.brief}));
            if !go_on {
                return 0;
            }
        }
        if last.elapsed() > Duration::from_millis(300) {
            flush(&mut g);
            last = Instant::now();
        }
        i += stride;
    }
    flush(&mut g);
    say(&json!({"t": "end"}));
    0
}

// ------------------------------------------------------------------------------------------------ search

pub struct Found {
    pub index: u64,
    pub viols: Vec<(String, String)>,
    pub brief: String,
}

#[derive(Default)]
struct Search {
    cases: u64,
    runs: u64,
    evals: u64,
    steps: u64,
    sim_ns: u64,
    distinct: HashSet<u64>,
    stats: BTreeMap<String, u64>,
    samples: BTreeMap<u64, String>,
    found: Vec<Found>,
    wall: f64,
    harness: Vec<String>,
}

/// Seconds of computing without any sign of life after which a worker counts as stuck (a case takes milliseconds).
const STUCK: u64 = 45;
/// Seconds after which a run that makes progress, but is far too big, is given up undecided.
const TOO_BIG: u64 = 90;

/// CPU seconds a process has used.
fn cpu(pid: u32) -> u64 {
    let Ok(t) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0 };
    let f: Vec<u64> = t.rsplit(')').next().unwrap_or("").split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
    f.iter().sum::<u64>() / 100
}

fn workers() -> u64 {
    std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16)
    })
}

fn search(prop: &str, seed: u64, count: u64, secs: u64, go_on: bool) -> Search {
    let t0 = Instant::now();
    let mut s = Search::default();
    let w = workers();
    let exe = std::env::current_exe().unwrap();
    enum M {
        Line(usize, String),
        Eof(usize),
    }
    struct W {
        child: Child,
        cur: Option<u64>,
        /// since when
        since: Instant,
        /// the steps its worlds have made so far
        steps: std::fs::File,
        seen: u64,
        last: Instant,
        /// CPU time at the last sign of life
        cpu: u64,
        gen: usize,
        slot: u64,
        done: bool,
        ended: bool,
    }
    let (tx, rx) = mpsc::channel::<M>();
    let mut gen = 0;
    let mut spawn = |slot: u64, start: u64, left: u64| -> W {
        gen += 1;
        let at = PathBuf::from(std::env::var_os("SIM_SCRATCH").expect("scratch directory")).join(format!("steps.{gen}"));
        let steps = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&at).expect("step counter");
        steps.set_len(8).expect("step counter");
        let mut child = Command::new(&exe)
            .stdin(Stdio::from(steps.try_clone().expect("step counter")))
            .args(["worker", prop, &seed.to_string(), &start.to_string(), &w.to_string(), &count.to_string(), &left.to_string(), if go_on { "1" } else { "0" }])
            .stdout(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let out = child.stdout.take().unwrap();
        let (tx, g) = (tx.clone(), gen);
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send(M::Line(g, l)).is_err() {
                    return;
                }
            }
            tx.send(M::Eof(g)).ok();
        });
        W { child, cur: None, since: Instant::now(), steps, seen: 0, last: Instant::now(), cpu: 0, gen, slot, done: false, ended: false }
    };
    let mut ws: Vec<W> = (0..w).map(|i| spawn(i, i, secs)).collect();
    let mut stop_at: Option<Instant> = None;
    while ws.iter().any(|w| !w.done) {
        if let Some(t) = stop_at {
            if Instant::now() > t {
                break;
            }
        }
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(M::Line(g, l)) => {
                let Some(x) = ws.iter_mut().find(|x| x.gen == g) else { continue };
                if x.last.elapsed().as_millis() > 200 {
                    x.cpu = cpu(x.child.id());
                }
                x.last = Instant::now();
                let Ok(j) = serde_json::from_str::<J>(&l) else { continue };
                match j["t"].as_str().unwrap_or("") {
                    "start" => (x.cur, x.since) = (j["i"].as_u64(), Instant::now()),
                    "agg" => {
                        s.cases += j["cases"].as_u64().unwrap();
                        s.runs += j["runs"].as_u64().unwrap();
                        s.evals += j["evals"].as_u64().unwrap();
                        s.steps += j["steps"].as_u64().unwrap();
                        s.sim_ns += j["sim_ns"].as_u64().unwrap();
                        s.distinct.extend(j["hashes"].as_array().unwrap().iter().filter_map(|h| h.as_u64()));
                        for (k, n) in j["stats"].as_object().unwrap() {
                            *s.stats.entry(k.clone()).or_default() += n.as_u64().unwrap();
                        }
                    }
                    "sample" => {
                        s.samples.insert(j["i"].as_u64().unwrap(), j["s"].as_str().unwrap().into());
                    }
                    "viol" => {
                        let viols = j["v"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|v| (v[0].as_str().unwrap().to_string(), v[1].as_str().unwrap().to_string()))
                            .collect();
                        s.found.push(Found { index: j["i"].as_u64().unwrap(), viols, brief: j["brief"].as_str().unwrap().into() });
                        if !go_on && stop_at.is_none() {
                            // the others may still find one with a lower number
                            stop_at = Some(Instant::now() + Duration::from_millis(1500));
                        }
                    }
                    "end" => x.ended = true,
                    _ => (),
                }
            }
            Ok(M::Eof(g)) => {
                let Some(k) = ws.iter().position(|x| x.gen == g && !x.done) else { continue };
                let st = ws[k].child.wait().ok();
                let ok = st.map(|s| s.success()).unwrap_or(false);
                ws[k].done = true;
                if !ok {
                    // the process died: abort, stack overflow, out of memory
                    let i = ws[k].cur.unwrap_or(0);
                    let what = format!("{st:?}");
                    if st.and_then(|s| s.code()) == Some(3) {
                        s.harness.push(format!("case {i}: the harness failed"));
                    } else {
                        s.found.push(Found { index: i, viols: vec![("died".into(), format!("the process executing the run died: {what}"))], brief: String::new() });
                    }
                    let left = secs.saturating_sub(t0.elapsed().as_secs());
                    let (slot, go) = (ws[k].slot, go_on);
                    if go && left > 0 {
                        ws[k] = spawn(slot, i + w, left);
                    } else if stop_at.is_none() {
                        stop_at = Some(Instant::now() + Duration::from_millis(1500));
                    }
                }
            }
            Err(_) => (),
        }
        for k in 0..ws.len() {
            let mut n = [0; 8];
            std::os::unix::fs::FileExt::read_at(&ws[k].steps, &mut n, 0).ok();
            let n = u64::from_ne_bytes(n);
            if n != ws[k].seen {
                let x = &mut ws[k];
                (x.seen, x.last) = (n, Instant::now());
                x.cpu = if x.since.elapsed().as_secs() > 1 { cpu(x.child.id()) } else { x.cpu };
            }
            let too_big = !ws[k].done && ws[k].since.elapsed() > Duration::from_secs(TOO_BIG) && ws[k].last.elapsed() < Duration::from_secs(2);
            if too_big {
                // a lot of work (parameters that grow without bound), every step of which ends
                ws[k].child.kill().ok();
                ws[k].child.wait().ok();
                ws[k].done = true;
                *s.stats.entry("given_up_too_big".into()).or_default() += 1;
                let left = secs.saturating_sub(t0.elapsed().as_secs());
                if left > 0 && stop_at.is_none() {
                    let (slot, i) = (ws[k].slot, ws[k].cur.unwrap_or(0));
                    ws[k] = spawn(slot, i + w, left);
                }
                continue;
            }
            let quiet = ws[k].last.elapsed();
            // a blocked process uses no CPU time: that shows after a long while only
            let stuck = !ws[k].done
                && (quiet > Duration::from_secs(STUCK) && cpu(ws[k].child.id()) > ws[k].cpu + STUCK || quiet > Duration::from_secs(120) && cpu(ws[k].child.id()) < ws[k].cpu + 2
                    || quiet > Duration::from_secs(6 * STUCK));
            if stuck {
                ws[k].child.kill().ok();
                ws[k].child.wait().ok();
                ws[k].done = true;
                let i = ws[k].cur.unwrap_or(0);
                s.found.push(Found {
                    index: i,
                    viols: vec![("stuck".into(), format!("the run computes for ever: no progress within {STUCK} s of computing"))],
                    brief: String::new(),
                });
                let left = secs.saturating_sub(t0.elapsed().as_secs());
                if go_on && left > 0 {
                    let slot = ws[k].slot;
                    ws[k] = spawn(slot, i + w, left);
                } else if stop_at.is_none() {
                    stop_at = Some(Instant::now() + Duration::from_millis(1500));
                }
            }
        }
    }
    for x in &mut ws {
        if !x.done {
            x.child.kill().ok();
            x.child.wait().ok();
        }
    }
    s.found.sort_by_key(|f| f.index);
    s.wall = t0.elapsed().as_secs_f64();
    s
}

fn survey(prop: &str, seed: u64, count: u64) -> i32 {
    let _scratch = Scratch::new();
    let s = search(prop, seed, count, 600, true);
    let mut by: BTreeMap<String, Vec<&Found>> = BTreeMap::new();
    for f in &s.found {
        for v in &f.viols {
            by.entry(v.0.clone()).or_default().push(f);
        }
    }
    println!("{prop}: {} cases, {} runs, {:.1} s, {} distinct, {} with violations", s.cases, s.runs, s.wall, s.distinct.len(), s.found.len());
    for (k, l) in by {
        println!("== {k}: {}", l.len());
        for f in l.iter().take(3) {
            let d: String = f.viols.iter().find(|v| v.0 == k).unwrap().1.chars().take(500).collect();
            println!("   [{}] {d}", f.index);
        }
    }
    for h in &s.harness {
        println!("HARNESS {h}");
    }
    if std::env::var_os("SIM_STATS").is_some() {
        for (k, n) in &s.stats {
            println!("   {k}: {n}");
        }
    }
    0
}

// ------------------------------------------------------------------------------------------------ check

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let d = std::env::temp_dir().join(format!("cambrian-simcheck-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        std::env::set_var("SIM_SCRATCH", &d);
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("SIM_VERIF").unwrap_or_else(|_| "/verif".into()))
}

/// Number of cases and seconds per property and tier.
fn plan(prop: &str, tier: &str) -> (u64, u64) {
    let (n, secs) = match prop {
        "C09" => (45_000, 60),
        "C12" | "C13" => (40_000, 60),
        "C16" => (20_000, 60),
        "C17" => (328, 80),
        _ => (60_000, 60),
    };
    if tier == "thorough" {
        (n * 500, 600)
    } else {
        (n, secs)
    }
}

fn run(prop: &str, seed: u64, tier: &str) -> i32 {
    if !PROPS.contains(&prop) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let t0 = Instant::now();
    let _scratch = Scratch::new();
    for l in crate::findings::lines(prop) {
        println!("{l}");
    }
    let (count, secs) = plan(prop, tier);
    let count = std::env::var("SIM_COUNT").ok().and_then(|s| s.parse().ok()).unwrap_or(count);
    let s = search(prop, seed, count, secs, false);
    let mut replays = vec![];
    if let Some(f) = s.found.first() {
        let path = report(prop, seed, f);
        println!("VIOLATION property={prop} replay={}", path.display());
        replays.push(path);
    }
    evidence(prop, seed, tier, &s, t0.elapsed().as_secs_f64(), replays.len());
    println!(
        "{prop} {tier} seed {seed}: {} cases, {} simulated runs, {} distinct schedules, {:.1} simulated s, {:.1} s",
        s.cases,
        s.runs,
        s.distinct.len(),
        s.sim_ns as f64 / 1e9,
        t0.elapsed().as_secs_f64()
    );
    for h in &s.harness {
        eprintln!("HARNESS FAILURE: {h}");
    }
    if !replays.is_empty() {
        1
    } else if !s.harness.is_empty() || s.cases == 0 {
        3
    } else {
        0
    }
}

fn child_json(args: &[&str], limit: Duration) -> Option<J> {
    let mut c = Command::new(std::env::current_exe().unwrap()).args(args).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let mut out = c.stdout.take()?;
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut b = String::new();
        std::io::Read::read_to_string(&mut out, &mut b).ok();
        tx.send(b).ok();
    });
    let r = rx.recv_timeout(limit).ok();
    if r.is_none() {
        c.kill().ok();
    }
    let st = c.wait().ok();
    match r {
        None => Some(json!({"stuck": true})),
        Some(b) => b.lines().last().and_then(|l| crate::json::parse(l.as_bytes()).ok()).or(Some(json!({"died": format!("{st:?}")}))),
    }
}

/// Executes a replay file in a process of its own and prints what happened as JSON.
fn probe(path: &str) -> i32 {
    let (c, _) = read_case(path).expect("replay file");
    let o = exec(&c, true);
    let n = o.log.len();
    let mut log = o.log;
    if n > 4000 {
        log.drain(2000..n - 2000);
        log.insert(2000, format!("... {} lines ...", n - 4000));
    }
    say(&json!({"viols": o.viols, "hash": format!("{:016x}", o.hash), "brief": o.brief, "log": log}));
    0
}

fn shrink_cmd(path: &str, secs: u64) -> i32 {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let (c, j) = read_case(path).expect("case file");
    let class = j["class"].as_str().unwrap_or("").to_string();
    let (c, tried) = shrink::shrink(&c, &class, Duration::from_secs(secs));
    say(&json!({"case": c, "tried": tried}));
    0
}

fn write(path: &Path, j: &J) {
    std::fs::create_dir_all(path.parent().unwrap()).ok();
    std::fs::write(path, serde_json::to_string_pretty(j).unwrap() + "\n").expect("write replay file");
}

fn report(prop: &str, seed: u64, f: &Found) -> PathBuf {
    let path = verif().join("replays").join(format!("{prop}-{seed}-{}.json", f.index));
    let c = make(prop, seed, f.index);
    let (class, detail) = f.viols[0].clone();
    let mut doc = json!({
        "property": prop, "seed": seed, "index": f.index, "class": class, "detail": detail, "case": c,
        "minimised": false, "replay": format!("/verif/check.sh replay {}", path.display()),
    });
    write(&path, &doc);
    let p = path.to_str().unwrap();
    if class != "stuck" && class != "died" {
        if let Some(m) = child_json(&["shrink", p, "25"], Duration::from_secs(90)) {
            if m.get("case").is_some() {
                doc["minimised"] = json!(true);
                doc["minimisation_steps_tried"] = m["tried"].clone();
                doc["case"] = m["case"].clone();
                write(&path, &doc);
            }
        }
    }
    // confirm: twice the same violation by the same schedule
    let a = child_json(&["probe", p], Duration::from_secs(90));
    let b = child_json(&["probe", p], Duration::from_secs(90));
    if let (Some(a), Some(b)) = (a, b) {
        let same = a["hash"] == b["hash"] && a["viols"] == b["viols"];
        doc["reproduced_exactly"] = json!(same);
        if let Some(v) = a["viols"].as_array().and_then(|l| l.iter().find(|v| v[0] == doc["class"])) {
            doc["detail"] = v[1].clone();
        }
        doc["schedule_hash"] = a["hash"].clone();
        doc["run"] = a["brief"].clone();
        doc["schedule"] = a["log"].clone();
        write(&path, &doc);
    }
    println!("{prop} {}: {}", doc["class"].as_str().unwrap_or(""), doc["detail"].as_str().unwrap_or(""));
    println!("run: {}", doc["run"].as_str().unwrap_or(&f.brief));
    path
}

fn replay(path: &str) -> i32 {
    let _scratch = Scratch::new();
    let (c, j) = match read_case(path) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let Some(r) = child_json(&["probe", path], Duration::from_secs(120)) else { return 3 };
    let class = j["class"].as_str().unwrap_or("");
    if r.get("stuck").is_some() || r.get("died").is_some() {
        println!("VIOLATION property={} replay={path}", c.prop);
        println!("{r}");
        return 1;
    }
    for l in r["log"].as_array().unwrap_or(&vec![]) {
        println!("{}", l.as_str().unwrap_or(""));
    }
    println!("run: {}", r["brief"].as_str().unwrap_or(""));
    let same = j.get("schedule_hash").map(|h| *h == r["hash"]).unwrap_or(true);
    println!("schedule hash {} ({})", r["hash"].as_str().unwrap_or(""), if same { "as recorded" } else { "differs from the recorded one: the code has changed" });
    let v = r["viols"].as_array().cloned().unwrap_or_default();
    for x in &v {
        println!("{}: {}", x[0].as_str().unwrap_or(""), x[1].as_str().unwrap_or(""));
    }
    if v.iter().any(|x| class.is_empty() || x[0] == class) || !v.is_empty() {
        println!("VIOLATION property={} replay={path}", c.prop);
        1
    } else {
        println!("the violation does not occur on this tree");
        0
    }
}

fn evidence(prop: &str, seed: u64, tier: &str, s: &Search, wall: f64, violations: usize) {
    let h = 3600.0 / s.wall.max(1e-9);
    let faults: BTreeMap<&String, &u64> = s.stats.iter().filter(|(k, _)| k.starts_with("fault_") || ["terminate_requests", "time_limits", "clock_jumps", "preemptions", "rejected_evaluations", "signals_sent"].contains(&k.as_str())).collect();
    let other: BTreeMap<&String, &u64> = s.stats.iter().filter(|(k, _)| !faults.contains_key(k)).collect();
    let doc = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "cases": s.cases,
            "distinct_nontrivial": s.distinct.len(),
            "rule": crate::text::rule(prop),
            "samples": s.samples.values().take(6).collect::<Vec<_>>(),
            "simulated_runs_per_hour": (s.runs as f64 * h) as u64,
            "seeds_per_hour": (s.cases as f64 * h) as u64,
            "simulated_seconds": s.sim_ns as f64 / 1e9,
            "scheduler_steps": s.steps,
            "objective_evaluations": s.evals,
            "distinct_schedules_measure": "distinct 64-bit hashes over the complete trace of scheduling decisions, simulated system calls, evaluation starts and ends of a case",
            "faults_injected": faults,
            "other_counters": other,
            "components_real": crate::text::REAL,
            "components_simulated": crate::text::STUB,
            "hooks_compiled_in": crate::hooks::HOOKED,
            "worker_processes": workers(),
        },
        "assumptions": crate::text::ASSUME,
        "wall_s": wall,
        "violations": violations,
    });
    let p = verif().join("evidence").join(format!("{prop}.json"));
    std::fs::create_dir_all(p.parent().unwrap()).ok();
    std::fs::write(p, serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("write evidence");
}
