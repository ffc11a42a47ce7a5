//! The command-line tool as a whole: one process (simcli) runs its real `main` in one simulated world; arguments,
//! spec file, output directory and exit status are real, child processes, time, signals and disk errors simulated.
use crate::case::{absorb, judge_run, Out as CaseOut};
use crate::gen::*;
use crate::host::{Dump, Job};
use crate::judge::{self, Viols};
use crate::props;
use crate::run::*;
use crate::scn::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as J};
use simcore::rng::{mix, Rng};
use simcore::world::{Abort, US};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pre {
    None,
    /// parent directories are missing, too
    DeepMissing,
    Empty,
    /// holds files and directories
    Content,
    File,
    LinkDir,
    LinkDangling,
    /// a directory in which nothing can be created
    ParentReadOnly,
    ParentFile,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OutDir {
    pub name: Vec<u8>,
    pub pre: Pre,
    pub force: bool,
    pub absolute: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SpecFile {
    Ok,
    Missing,
    Dir,
    Unreadable,
    Text(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Bad {
    pub why: String,
    /// long names of the options left out
    pub drop: Vec<String>,
    pub add: Vec<Vec<u8>>,
    pub no_program: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CliCase {
    pub scn: Scn,
    pub prog: Vec<u8>,
    pub args: Vec<Vec<u8>>,
    /// order and spelling of the options
    pub style: u64,
    pub out: Option<OutDir>,
    pub spec_file: SpecFile,
    pub spec_name: Vec<u8>,
    pub guess_text: Option<Vec<u8>>,
    /// the guess does not conform
    pub guess_bad: bool,
    pub bad: Option<Bad>,
    /// configurations refused by the library: number of concurrent evaluations, sample size, criteria
    pub lib: Option<(usize, usize, Vec<u8>)>,
}

// ---------------------------------------------------------------------------------------------------- generator

const WORDS: &[&[u8]] = &[
    b"", b"a", b"a b", b"--flag", b"-n", b"--", b"-", b"{\"x\": 1}", b"$(true)", b"`x`", b"'", b"\"", b"\\", b"*", b"123", b"-5",
    b"\xff\xfe", b"\xc3\xbc", b"line\nbreak", b"\ttab", b"--force", b"-o", b"x=y", b"%s%n", b"null", b" ", b";", b"|", b"--help",
];

fn word(r: &mut Rng) -> Vec<u8> {
    if r.chance(0.03) {
        return vec![b'x'; r.range(1000, 60_000) as usize];
    }
    r.pick(WORDS).to_vec()
}

/// Numbers only as the optimizer's JSON reader reads them exactly (recorded finding, see findings.rs).
pub fn stable_json(j: &J) -> J {
    match j {
        J::Number(n) if n.is_f64() => json!(crate::json::stable(n.as_f64().unwrap())),
        J::Array(a) => J::Array(a.iter().map(stable_json).collect()),
        J::Object(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), stable_json(v))).collect()),
        _ => j.clone(),
    }
}

fn set_guess(c: &mut CliCase, g: J) {
    let g = stable_json(&g);
    let ok = c.scn.spec.conforms(&accepted_form(&c.scn.spec, &g), "").is_ok();
    let text = serde_json::to_string(&g).unwrap();
    if text.len() > 60_000 {
        return;
    }
    c.scn.guess = Some(g);
    c.guess_text = Some(text.into_bytes());
    c.guess_bad = !ok;
}

/// The command line for an ordinary run of the scenario.
pub fn plain(r: &mut Rng, s: Scn) -> CliCase {
    let mut c = CliCase {
        scn: s,
        prog: r.pick(&[&b"obj-func"[..], b"./obj func", b"/x/obj;func", b"obj\xff", b"-obj", b"\"q\""]).to_vec(),
        args: (0..r.below(4)).map(|_| word(r)).collect(),
        style: r.next(),
        out: None,
        spec_file: SpecFile::Ok,
        spec_name: r.pick(&[&b"spec.yaml"[..], b"s p e c", b"./spec", b"-spec", b"sp\xffec", b"=spec"]).to_vec(),
        guess_text: None,
        guess_bad: false,
        bad: None,
        lib: None,
    };
    c.scn.mode = Mode::Proc;
    c.scn.meta = None;
    c.scn.extra = J::Null;
    c.scn.order = None;
    c.scn.reader = Reader::Prompt;
    if let Some(g) = c.scn.guess.take() {
        set_guess(&mut c, g);
    }
    if c.scn.files {
        c.out = Some(OutDir { name: b"out".to_vec(), pre: Pre::None, force: r.chance(0.2), absolute: r.chance(0.2) });
    }
    c.scn.disk = if c.out.is_some() { c.scn.disk } else { DiskX::default() };
    c
}

fn out_dir(r: &mut Rng, pre: Pre) -> OutDir {
    let name = r.pick(&[&b"out"[..], b"o u t", b"-out", b"out/", b"./out", b"o\xff", b"a=b"]).to_vec();
    OutDir { name, pre, force: r.chance(0.3), absolute: r.chance(0.2) }
}

fn ordinary(r: &mut Rng) -> Scn {
    let mut s = props::base(r, Mode::Proc);
    s.spec = if r.chance(0.6) { props::hairy_spec(r) } else { gen_spec_small(r) };
    s.conc = if r.chance(0.3) { 1 } else { s.conc.min(12) };
    s.signal = r.chance(0.7);
    match r.below(10) {
        0..=6 => s.budget = Some(r.range(1, 25) as usize),
        7 => s.time_limit = Some(r.range(1, 40_000)),
        _ => {
            s.signal = true;
            s.stop_starts = Some(r.range(1, 25) as usize);
        }
    }
    if r.chance(0.1) {
        s.sample = r.range(2, 4) as usize;
    }
    if r.chance(0.15) {
        props::target(r, &mut s);
    }
    if r.chance(0.1) {
        props::request(r, &mut s);
    }
    if r.chance(0.4) {
        s.rule.reject = *r.pick(&[0.0, 0.0, 0.3]);
    }
    if r.chance(0.04) {
        s.rule.reject = 1.0;
    }
    props::noise_for_proc(r, &mut s);
    if s.time_limit.is_some() && s.budget.is_none() && matches!(s.rule.lat, Lat::Zero | Lat::Ties(1, _) | Lat::Uniform(0 | 1, _)) {
        s.rule.lat = Lat::Uniform(200, 3000);
    }
    if r.chance(0.35) {
        props::inject_failure(r, &mut s);
    }
    if r.chance(0.2) {
        s.kill_after = Some(r.range(500, 10_000));
        if r.chance(0.5) {
            let i = r.usize(s.budget.unwrap_or(10).max(1));
            s.over.insert(i, Plan { lat: FOREVER, out: Out::Reject, on_abort: OnAbort::Ignore, px: None });
        }
    }
    if r.chance(0.25) {
        s.guess = Some(rand_value(&s.spec, r));
    }
    s.verbose = r.chance(0.2);
    s
}

pub fn generate(r: &mut Rng, _index: u64) -> CliCase {
    if r.below(25) == 0 {
        let s = ordinary(r);
        let mut c = plain(r, s);
        let mut crit: Vec<u8> = (0..r.range(0, 4)).map(|_| r.below(4) as u8).collect();
        let (mut conc, mut sample) = (1, 1);
        match r.below(4) {
            0 => conc = 0,
            1 => sample = 0,
            _ => {
                let k = r.below(4) as u8;
                crit.push(k);
                let i = r.usize(crit.len() + 1);
                crit.insert(i, k);
            }
        }
        c.lib = Some((conc, sample, crit));
        return c;
    }
    let s = ordinary(r);
    let mut c = plain(r, s);
    match r.below(24) {
        0..=8 => {
            if r.chance(0.75) {
                let pre = if r.chance(0.15) { Pre::DeepMissing } else { Pre::None };
                c.out = Some(out_dir(r, pre));
            }
        }
        9..=13 => {
            let pre = match r.below(9) {
                0..=1 => Pre::Empty,
                2..=3 => Pre::Content,
                4 => Pre::File,
                5 => Pre::LinkDir,
                6 => Pre::LinkDangling,
                7 => Pre::ParentReadOnly,
                _ => Pre::ParentFile,
            };
            c.out = Some(out_dir(r, pre));
            c.out.as_mut().unwrap().force = r.chance(0.45);
        }
        14..=17 => {
            c.bad = Some(bad_option(r));
            some_out(r, &mut c);
        }
        18..=19 => {
            c.spec_file = match r.below(6) {
                0 => SpecFile::Missing,
                1 => SpecFile::Dir,
                2 => SpecFile::Unreadable,
                _ => SpecFile::Text(
                    r.pick(&[
                        &b""[..],
                        b"\xff\xfe",
                        b"{",
                        b"x: {type: reel}",
                        b"x:\n  type: real\n  init: 5\n  scale: 1\n  max: 3\n",
                        b"x:\n  type: int\n  init: 5\n  scale: 0\n",
                        b"type: array\nsize: 1\nvalueType:\n  type: bool\n",
                        b"- 1",
                        b"x: {type: real, init: 1, scale: 1, bounds: 3}",
                        b"type: enum\ninit: A\nvalues: [A]\n",
                    ])
                    .to_vec(),
                ),
            };
            some_out(r, &mut c);
        }
        20 => {
            c.scn.guess = None;
            if r.chance(0.5) {
                let v = c.scn.spec.init_json();
                if let Some((g, _)) = corrupt(&c.scn.spec, &v, r) {
                    set_guess(&mut c, g);
                }
            }
            if !c.guess_bad {
                c.scn.guess = None;
                c.guess_bad = true;
                c.guess_text = Some(r.pick(&[&b""[..], b"{", b"{x: 1}", b"nul", b"1 2", b"\xff", b"{\"x\": }", b"'1'", b"[1,"]).to_vec());
            }
            some_out(r, &mut c);
        }
        21 => {
            // nothing can be launched
            let e = *r.pick(&[2, 13, 8, 12]);
            for i in 0..c.scn.conc.max(1) {
                c.scn.over.insert(
                    i,
                    Plan { lat: 0, out: Out::Reject, on_abort: OnAbort::Ignore, px: Some(ProcX { no_spawn: Some(e), ..Default::default() }) },
                );
            }
            some_out(r, &mut c);
        }
        _ => {
            c.out = Some(out_dir(r, Pre::None));
            let d = &mut c.scn.disk;
            match r.below(4) {
                0 => d.fail_open = Some((r.below(12), *r.pick(&[libc::ENOSPC, libc::EIO, libc::EACCES, libc::EMFILE]))),
                1 => d.fail_write = Some((r.below(40), *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT]))),
                _ => {
                    d.short = *r.pick(&[0.0, 0.3]);
                    d.eintr = *r.pick(&[0.1, 0.3]);
                }
            }
            d.sticky = r.chance(0.4);
        }
    }
    c.scn.files = c.out.is_some();
    c
}

fn some_out(r: &mut Rng, c: &mut CliCase) {
    c.out = match r.below(4) {
        0 => None,
        1 => Some(out_dir(r, Pre::None)),
        2 => Some(out_dir(r, Pre::Content)),
        _ => Some(out_dir(r, Pre::Empty)),
    };
}

fn bad_option(r: &mut Rng) -> Bad {
    let opt = |why: &str, drop: &str, add: &[&str]| Bad {
        why: why.into(),
        drop: vec![drop.into()],
        add: add.iter().map(|s| s.as_bytes().to_vec()).collect(),
        no_program: false,
    };
    match r.below(19) {
        0..=1 => opt("zero concurrency", "num-concurrent", &["--num-concurrent", "0"]),
        2..=3 => opt("zero sample size", "sample-size", &["--sample-size=0"]),
        4 => opt("concurrency", "num-concurrent", &[*r.pick(&["--num-concurrent=-1", "--num-concurrent=two", "--num-concurrent=1.5", "--num-concurrent="])]),
        5 => opt("sample size", "sample-size", &[*r.pick(&["--sample-size=-1", "--sample-size=x", "--sample-size=99999999999999999999999"])]),
        6 => opt("budget", "max-obj-func-eval", &[*r.pick(&["-n=-1", "-nx", "--max-obj-func-eval=1.5", "--max-obj-func-eval="])]),
        7 => opt("target", "target-obj-func-val", &[*r.pick(&["-t=x", "--target-obj-func-val=", "-t=1,5", "--target-obj-func-val=0x10"])]),
        8..=9 => opt("time limit", "terminate-after", &[*r.pick(&["--terminate-after=abc", "--terminate-after=", "--terminate-after=5 parsecs", "--terminate-after=-5s"])]),
        10..=11 => opt("kill after", "kill-obj-func-after", &[*r.pick(&["-k=abc", "--kill-obj-func-after=", "-k=5 parsecs", "--kill-obj-func-after=-5s"])]),
        12 => opt("unknown option", "", &[*r.pick(&["--unknown", "-z", "--numconcurrent=3", "--spec=x"])]),
        13 => opt("repeated budget", "max-obj-func-eval", &["-n", "3", "--max-obj-func-eval=4"]),
        14 => opt("repeated target", "target-obj-func-val", &["-t", "3", "-t=4"]),
        15 => opt("repeated time limit", "terminate-after", &["--terminate-after=3s", "--terminate-after=3s"]),
        16 => opt("no spec file", "spec-file", &[]),
        17 => opt("flag with value", "force", &["--force=yes"]),
        _ => Bad { why: "no program".into(), drop: vec![], add: vec![], no_program: true },
    }
}

// ---------------------------------------------------------------------------------------------------- command line

fn dur(us: u64, r: &mut Rng) -> String {
    let (ms, rest) = (us / 1000, us % 1000);
    match r.below(6) {
        0 => format!("{us}us"),
        1 => format!("{us} microseconds"),
        2 if rest == 0 => format!("{ms}ms"),
        3 if rest == 0 => format!("{ms} milliseconds"),
        4 => format!("{ms}ms {rest}us"),
        5 => format!("{}s {}ms {rest}us", ms / 1000, ms % 1000),
        _ => format!("{us}us"),
    }
}

/// A negative number or a word that looks like an option has to be attached to its option.
fn attach_needed(v: &[u8]) -> bool {
    v.starts_with(b"-")
}

pub fn argv(c: &CliCase, cwd: &Path) -> Vec<Vec<u8>> {
    let mut rr = Rng::new(c.style);
    let r = &mut rr;
    let s = &c.scn;
    let mut groups: Vec<(String, Vec<Vec<u8>>)> = vec![];
    {
        let mut val = |long: &str, short: Option<char>, v: Vec<u8>, r: &mut Rng| {
            let l = format!("--{long}").into_bytes();
            let sep = |o: Vec<u8>, v: &[u8]| vec![o, v.to_vec()];
            let eq = |mut o: Vec<u8>, v: &[u8]| {
                o.push(b'=');
                o.extend_from_slice(v);
                vec![o]
            };
            let g = match (short, r.below(5)) {
                (Some(ch), 0) if !attach_needed(&v) => sep(format!("-{ch}").into_bytes(), &v),
                (Some(ch), 1) => eq(format!("-{ch}").into_bytes(), &v),
                (Some(ch), 2) if !v.is_empty() && v[0] != b'=' => {
                    let mut o = format!("-{ch}").into_bytes();
                    o.extend_from_slice(&v);
                    vec![o]
                }
                (_, 3) if !attach_needed(&v) => sep(l, &v),
                _ => eq(l, &v),
            };
            groups.push((long.into(), g));
        };
        val("spec-file", Some('s'), c.spec_name.clone(), r);
        if let Some(o) = &c.out {
            let p = if o.absolute { cwd.join(std::ffi::OsStr::from_bytes(&o.name)).into_os_string().into_vec() } else { o.name.clone() };
            val("out-dir", Some('o'), out_path(o, p), r);
        }
        if let Some(b) = s.budget {
            val("max-obj-func-eval", Some('n'), b.to_string().into_bytes(), r);
        }
        if let Some(t) = s.target {
            let text = if r.chance(0.5) { format!("{:?}", t.0) } else { format!("{}", t.0) };
            val("target-obj-func-val", Some('t'), text.into_bytes(), r);
        }
        if let Some(l) = s.time_limit {
            val("terminate-after", None, dur(l, r).into_bytes(), r);
        }
        if s.conc != 1 || r.chance(0.5) {
            val("num-concurrent", None, s.conc.to_string().into_bytes(), r);
        }
        if s.sample != 1 || r.chance(0.5) {
            val("sample-size", None, s.sample.to_string().into_bytes(), r);
        }
        if let Some(k) = s.kill_after {
            val("kill-obj-func-after", Some('k'), dur(k, r).into_bytes(), r);
        }
        if let Some(g) = &c.guess_text {
            val("initial-guess", None, g.clone(), r);
        }
    }
    let mut flag = |long: &str, t: &str| groups.push((long.into(), vec![t.as_bytes().to_vec()]));
    let force = c.out.as_ref().map(|o| o.force).unwrap_or(c.style % 7 == 0);
    match (force, s.verbose, c.style % 3) {
        (true, true, 0) => flag("force", "-fv"),
        (f, v, k) => {
            if f {
                flag("force", if k == 1 { "-f" } else { "--force" });
            }
            if v {
                flag("verbose", if k == 1 { "-v" } else { "--verbose" });
            }
        }
    }
    if !s.signal {
        flag("no-signal-result", "--no-signal-result");
    }
    if let Some(b) = &c.bad {
        groups.retain(|g| !b.drop.contains(&g.0));
        if !b.add.is_empty() {
            groups.push(("bad".into(), b.add.clone()));
        }
    }
    for i in (1..groups.len()).rev() {
        let j = r.usize(i + 1);
        groups.swap(i, j);
    }
    let mut pos: Vec<Vec<u8>> = vec![c.prog.clone()];
    pos.extend(c.args.iter().cloned());
    if c.bad.as_ref().map(|b| b.no_program).unwrap_or(false) {
        pos.clear();
    }
    // arguments that look like options follow a double dash
    let first = pos.iter().position(|p| p.starts_with(b"-") && p.len() > 1);
    let mut v: Vec<Vec<u8>> = vec![];
    let dashed = first.or(if r.chance(0.3) { Some(r.usize(pos.len() + 1)) } else { None });
    let cut = dashed.map(|d| if r.chance(0.5) { 0 } else { d }).unwrap_or(pos.len());
    let (before, after) = pos.split_at(cut);
    let mut before = before.iter().cloned();
    for g in groups {
        while r.chance(0.25) {
            match before.next() {
                Some(b) => v.push(b),
                None => break,
            }
        }
        v.extend(g.1);
    }
    v.extend(before);
    if dashed.is_some() {
        v.push(b"--".to_vec());
    }
    v.extend(after.iter().cloned());
    v
}

/// The path given for the output directory.
fn out_path(o: &OutDir, p: Vec<u8>) -> Vec<u8> {
    let sub: &[u8] = match o.pre {
        Pre::DeepMissing => b"/deep/er",
        Pre::ParentReadOnly | Pre::ParentFile => b"/sub",
        _ => return p,
    };
    let mut p = p;
    if p.ends_with(b"/") {
        p.pop();
    }
    p.extend_from_slice(sub);
    p
}

fn out_abs(c: &CliCase, cwd: &Path) -> Option<PathBuf> {
    c.out.as_ref().map(|o| {
        let p = out_path(o, o.name.clone());
        cwd.join(std::ffi::OsStr::from_bytes(&p))
    })
}

// ---------------------------------------------------------------------------------------------------- execution

/// The unprivileged user under which the tool runs: whatever it does to files stays in the scratch directory.
const UID: u32 = 61_999;

pub struct CliRun {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// files of the output directory by name
    pub files: BTreeMap<Vec<u8>, Vec<u8>>,
    pub before: Vec<String>,
    pub after: Vec<String>,
    pub others_before: Vec<String>,
    pub others_after: Vec<String>,
    pub end: String,
}

fn own(p: &Path) {
    std::os::unix::fs::lchown(p, Some(UID), Some(UID)).ok();
}

/// Everything below a path: kind, mode, modification time, content.
fn snapshot(root: &Path, skip: Option<&Path>) -> Vec<String> {
    let mut v = vec![];
    fn walk(root: &Path, p: &Path, skip: Option<&Path>, v: &mut Vec<String>) {
        if Some(p) == skip {
            return;
        }
        let Ok(m) = std::fs::symlink_metadata(p) else {
            v.push(format!("{p:?} missing"));
            return;
        };
        let rel = p.strip_prefix(root).unwrap_or(p);
        let kind = if m.is_dir() {
            "dir".to_string()
        } else if m.file_type().is_symlink() {
            format!("link {:?}", std::fs::read_link(p).ok())
        } else {
            format!("file {:?}", std::fs::read(p).ok().map(|b| String::from_utf8_lossy(&b).to_string()))
        };
        // the directory that holds the output directory changes with it
        let t = if skip.map(|s| s.starts_with(p)).unwrap_or(false) { (0, 0) } else { (m.mtime(), m.mtime_nsec()) };
        v.push(format!("{rel:?} {kind} {:o} {t:?}", m.mode()));
        if m.is_dir() {
            let mut n: Vec<PathBuf> = std::fs::read_dir(p).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
            n.sort();
            for x in n {
                walk(root, &x, skip, v);
            }
        }
    }
    walk(root, root, skip, &mut v);
    v
}

fn prepare(c: &CliCase, cwd: &Path) {
    let put = |p: &Path, b: &[u8]| {
        std::fs::write(p, b).ok();
        own(p);
    };
    let dir = |p: &Path| {
        std::fs::create_dir_all(p).ok();
        own(p);
    };
    let spec = cwd.join(std::ffi::OsStr::from_bytes(&c.spec_name));
    match &c.spec_file {
        SpecFile::Ok => put(&spec, c.scn.spec.yaml().as_bytes()),
        SpecFile::Missing => (),
        SpecFile::Dir => dir(&spec),
        SpecFile::Unreadable => {
            std::fs::write(&spec, c.scn.spec.yaml()).ok();
            std::fs::set_permissions(&spec, std::fs::Permissions::from_mode(0)).ok();
        }
        SpecFile::Text(t) => put(&spec, t),
    }
    // things that are none of the tool's business
    dir(&cwd.join("keep"));
    put(&cwd.join("keep/notes.txt"), b"do not touch");
    put(&cwd.join("best_seen.json"), b"mine");
    let Some(o) = &c.out else { return };
    let mut name = o.name.clone();
    while name.ends_with(b"/") {
        name.pop();
    }
    let p = cwd.join(std::ffi::OsStr::from_bytes(&name));
    let content = |p: &Path| {
        put(&p.join("best_seen.json"), b"{\"old\": 1}");
        put(&p.join("summary_report.txt"), b"old");
        put(&p.join("failed_obj_func_stdout"), b"old failure");
        put(&p.join("mine.txt"), b"precious");
        dir(&p.join("nested/deeper"));
        own(&p.join("nested"));
        put(&p.join("nested/deeper/x"), b"x");
    };
    match o.pre {
        Pre::None | Pre::DeepMissing => (),
        Pre::Empty => dir(&p),
        Pre::Content => {
            dir(&p);
            content(&p);
        }
        Pre::File | Pre::ParentFile => put(&p, b"a file"),
        Pre::LinkDir => {
            dir(&cwd.join("target"));
            content(&cwd.join("target"));
            std::os::unix::fs::symlink("target", &p).ok();
            own(&p);
        }
        Pre::LinkDangling => {
            std::os::unix::fs::symlink("nowhere/at/all", &p).ok();
            own(&p);
        }
        Pre::ParentReadOnly => {
            std::fs::create_dir_all(&p).ok();
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o555)).ok();
        }
    }
}

fn intern(k: &str) -> &'static str {
    use std::sync::Mutex;
    static T: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
    let mut t = T.lock().unwrap();
    match t.get(k) {
        Some(s) => s,
        None => {
            let s: &'static str = Box::leak(k.to_string().into_boxed_str());
            t.insert(s);
            s
        }
    }
}

pub fn simcli() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("simcli")
}
pub fn available() -> bool {
    use std::sync::OnceLock;
    static A: OnceLock<bool> = OnceLock::new();
    *A.get_or_init(|| simcli().exists())
}

/// Runs the tool once; None when it cannot be executed at all (harness failure).
pub fn run_cli(c: &CliCase, record: bool) -> (Run, CliRun) {
    let root = scratch_root().join(format!("c{}", SCRATCH_N.fetch_add(1, Ordering::SeqCst)));
    let (w, h) = (root.join("w"), root.join("h"));
    for d in [&w, &h] {
        std::fs::create_dir_all(d).expect("scratch dir");
        own(d);
    }
    std::fs::set_permissions(&root, std::fs::Permissions::from_mode(0o755)).ok();
    prepare(c, &w);
    let out = out_abs(c, &w);
    let job = Job { scn: c.scn.clone(), prefix_args: c.args.len(), record };
    std::fs::write(h.join("job"), serde_json::to_vec(&job).unwrap()).expect("job file");
    let (fo, fe) = (std::fs::File::create(h.join("out")).unwrap(), std::fs::File::create(h.join("err")).unwrap());
    let before = out.as_ref().map(|o| snapshot(o, None)).unwrap_or_default();
    let others_before = snapshot(&w, out.as_deref());
    let mut cmd = std::process::Command::new(simcli());
    cmd.args(argv(c, &w).iter().map(|a| std::ffi::OsString::from_vec(a.clone())))
        .env_clear()
        .env("SIM_CLI_JOB", h.join("job"))
        .env("SIM_CLI_DUMP", h.join("dump"))
        .current_dir(&w)
        .stdin(std::process::Stdio::null())
        .stdout(fo)
        .stderr(fe);
    unsafe {
        cmd.pre_exec(|| {
            let lim = |what, n: u64| {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(what, &l);
            };
            lim(libc::RLIMIT_CPU, 40);
            lim(libc::RLIMIT_CORE, 0);
            lim(libc::RLIMIT_FSIZE, 1 << 30);
            libc::alarm(240);
            if libc::geteuid() == 0 {
                if libc::setgroups(0, std::ptr::null()) != 0 || libc::setgid(UID) != 0 || libc::setuid(UID) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
            }
            // after the change of the user, which resets it
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let st = match cmd.status() {
        Ok(s) => s,
        Err(e) => {
            eprintln!("HARNESS: {:?} cannot be executed: {e}", simcli());
            std::process::exit(3)
        }
    };
    let dump: Option<Dump> = std::fs::read(h.join("dump"))
        .ok()
        .and_then(|b| crate::json::parse(&b).ok())
        .and_then(|j| serde_json::from_value(j).ok());
    let mut files = BTreeMap::new();
    if let Some(o) = &out {
        for e in std::fs::read_dir(o).into_iter().flatten().flatten() {
            if let (Ok(b), false) = (std::fs::read(e.path()), e.path().is_symlink()) {
                files.insert(e.file_name().into_vec(), b);
            }
        }
    }
    let d = dump.unwrap_or_default();
    let cr = CliRun {
        code: st.code(),
        signal: st.signal(),
        stdout: std::fs::read(h.join("out")).unwrap_or_default(),
        stderr: std::fs::read(h.join("err")).unwrap_or_default(),
        files,
        before,
        after: out.as_ref().map(|o| snapshot(o, None)).unwrap_or_default(),
        others_before,
        others_after: snapshot(&w, out.as_deref()),
        end: d.end.clone(),
    };
    std::fs::remove_dir_all(&root).ok();
    let run = convert(c, d, &cr);
    (run, cr)
}

fn parse_line(b: &[u8]) -> Option<J> {
    let l = b.strip_suffix(b"\n")?;
    if l.contains(&b'\n') {
        return None;
    }
    crate::json::parse(l).ok()
}

/// The numbers of the summary: best value, completed, rejected, seconds.
fn summary(b: &[u8]) -> Option<(f64, usize, usize, f64)> {
    let t = std::str::from_utf8(b).ok()?;
    let mut n = t.lines().filter_map(|l| l.split_once(": ").map(|x| x.1.split_whitespace().next().unwrap_or("")));
    Some((n.next()?.parse().ok()?, n.next()?.parse().ok()?, n.next()?.parse().ok()?, n.next()?.parse().ok()?))
}

/// The process as a run that the other oracles understand.
fn convert(c: &CliCase, d: Dump, cr: &CliRun) -> Run {
    let s = &c.scn;
    let err = String::from_utf8_lossy(&cr.stderr).to_string();
    let outcome = if d.end.starts_with("hang") {
        let e = &d.end;
        Outcome::Hang(if e.contains("Livelock") {
            Abort::Livelock("livelock")
        } else if e.contains("Deadlock") {
            Abort::Deadlock
        } else {
            Abort::TimeLimit
        })
    } else if d.end == "panic" || cr.code == Some(101) {
        Outcome::Panic(d.panics.last().cloned().unwrap_or_else(|| err.clone()))
    } else if cr.code == Some(0) {
        let value = parse_line(&cr.stdout).unwrap_or(J::Null);
        let sm = cr.files.get(&b"summary_report.txt"[..]).and_then(|b| summary(b));
        let (val, completed, rejected, time) = sm.unwrap_or_else(|| {
            let x = d
                .evals
                .iter()
                .filter(|e| same(&e.value, &value))
                .filter_map(|e| match proc_result(&s.plan(e.idx, &e.value)) {
                    Res::Val(x) => Some(x),
                    _ => None,
                })
                .fold(f64::INFINITY, f64::min);
            (x, 0, 0, 0.0)
        });
        Outcome::Ok { val, value, completed, rejected, time }
    } else {
        let known = [
            ("no successfully evaluated individuals", "NoIndividuals"),
            ("unable to launch objective function", "UnableToLaunchObjFuncProcess"),
            ("unsuccessful termination of objective function", "ObjFuncProcFailed"),
            ("invalid output from objective function", "ObjFuncProcInvalidOutput"),
        ];
        let variant = known.iter().find(|k| err.contains(k.0)).map(|k| k.1).unwrap_or("?");
        Outcome::Err { debug: err.clone(), display: err.clone(), variant: variant.into() }
    };
    Run {
        outcome,
        hist: Hist { evals: d.evals, evs: d.evs, ended: d.ended, nudged: d.nudged, ..Default::default() },
        procs: d.procs,
        alive_at_return: d.alive,
        max_alive: d.max_alive,
        csv: cr.files.get(&b"detailed_report.csv"[..]).cloned(),
        best: cr.files.get(&b"best_seen.json"[..]).cloned(),
        stats: d.stats.iter().map(|(k, n)| (intern(k), *n)).collect(),
        hash: d.hash,
        now: d.now,
        steps: d.steps,
        log: d.log,
        panics: d.panics,
        signals: d.signals,
        ret_time: d.ret_time,
    }
}

// ---------------------------------------------------------------------------------------------------- oracle

fn v(out: &mut Viols, class: &str, detail: impl Into<String>) {
    if out.len() < 40 {
        out.push((class.into(), detail.into()));
    }
}

fn lossy(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.len() > 400 {
        format!("{}...", s.chars().take(400).collect::<String>())
    } else {
        s.to_string()
    }
}

/// stderr without log lines
fn message(b: &[u8]) -> String {
    String::from_utf8_lossy(b).lines().filter(|l| !l.starts_with('[') && !l.trim().is_empty()).collect::<Vec<_>>().join("\n")
}

/// Why the tool has to refuse the command line (before any evaluation).
fn must_refuse(c: &CliCase) -> Option<String> {
    if let Some(b) = &c.bad {
        return Some(format!("invalid options ({})", b.why));
    }
    if c.spec_file != SpecFile::Ok {
        return Some("no valid spec".into());
    }
    if c.guess_bad {
        return Some("invalid initial guess".into());
    }
    if let Some(o) = &c.out {
        if exists(o) && !o.force {
            return Some("the output directory exists".into());
        }
    }
    None
}

fn exists(o: &OutDir) -> bool {
    matches!(o.pre, Pre::Empty | Pre::Content | Pre::File | Pre::LinkDir)
}

/// Nothing is known about whether the output directory can be made.
fn odd_out(c: &CliCase) -> bool {
    c.out
        .as_ref()
        .map(|o| matches!(o.pre, Pre::LinkDangling | Pre::ParentReadOnly | Pre::ParentFile) || o.force && (o.pre == Pre::File || o.pre == Pre::LinkDir && o.name.ends_with(b"/")))
        .unwrap_or(false)
}

pub fn c16(c: &CliCase, r: &Run, cr: &CliRun) -> Viols {
    let mut out = vec![];
    let o = &mut out;
    let s = &c.scn;
    if let Some(sig) = cr.signal {
        v(o, if matches!(sig, libc::SIGXCPU | libc::SIGALRM | libc::SIGKILL) { "hang" } else { "died" }, format!("the tool died of signal {sig}"));
        return out;
    }
    if judge::no_crash(s, r, o) {
        return out;
    }
    let code = cr.code.unwrap_or(-1);
    let refuse = must_refuse(c);
    // ---- argument vectors
    let mut seeds = BTreeSet::new();
    for e in &r.hist.evals {
        let mut want = vec![c.prog.clone()];
        want.extend(c.args.iter().cloned());
        let n = want.len();
        if e.argv.len() != n + 2 || e.argv[..n] != want[..] {
            v(o, "argv", format!("evaluation #{} started as {:?}", e.idx, e.argv.iter().map(|a| lossy(a)).collect::<Vec<_>>()));
            break;
        }
        let (js, seed) = (&e.argv[n], &e.argv[n + 1]);
        match crate::json::parse(js) {
            Ok(j) => {
                if let Err(w) = s.spec.conforms(&j, "") {
                    v(o, "argv-parameters", format!("evaluation #{}: {w}; parameters {}", e.idx, lossy(js)));
                }
            }
            Err(w) => v(o, "argv-parameters", format!("evaluation #{}: parameters are no JSON ({w}): {}", e.idx, lossy(js))),
        }
        match std::str::from_utf8(seed).ok().and_then(|t| t.parse::<u64>().ok()) {
            Some(x) if x.to_string().as_bytes() == &seed[..] => {
                if !seeds.insert(x) {
                    v(o, "argv-seed", format!("two evaluations with seed {x}"));
                }
            }
            _ => v(o, "argv-seed", format!("evaluation #{}: seed {:?}", e.idx, lossy(seed))),
        }
    }
    // ---- what the tool may never touch
    if cr.others_before != cr.others_after && !odd_out(c) && c.out.as_ref().map(|x| x.pre != Pre::LinkDir && x.pre != Pre::DeepMissing).unwrap_or(true) {
        let diff: Vec<&String> = cr.others_after.iter().filter(|l| !cr.others_before.contains(l)).chain(cr.others_before.iter().filter(|l| !cr.others_after.contains(l))).take(4).collect();
        v(o, "foreign-files", format!("files outside of the output directory changed: {diff:?}"));
    }
    if let Some(od) = &c.out {
        if exists(od) && !od.force {
            if cr.before != cr.after || od.pre == Pre::LinkDir && cr.others_before != cr.others_after {
                v(o, "touched", format!("the existing output directory was changed without --force: {:?} -> {:?}", cr.before, cr.after));
            }
        }
    }
    // ---- refusals
    if let Some(why) = &refuse {
        if code == 0 {
            v(o, "not-refused", format!("{why}: exit status 0, stdout {:?}", lossy(&cr.stdout)));
        }
        if !r.hist.evals.is_empty() {
            v(o, "evaluated", format!("{why}, but {} evaluations were started", r.hist.evals.len()));
        }
        if code != 0 && message(&cr.stderr).is_empty() {
            v(o, "no-message", format!("{why}: exit status {code} without an error message"));
        }
        return out;
    }
    if code != 0 {
        if message(&cr.stderr).is_empty() {
            v(o, "no-message", format!("exit status {code} without an error message"));
        }
    } else {
        // ---- success
        match parse_line(&cr.stdout) {
            None => v(o, "stdout", format!("exit status 0, stdout is not one line of JSON: {:?}", lossy(&cr.stdout))),
            Some(j) => {
                if let Err(w) = s.spec.conforms(&j, "") {
                    v(o, "stdout", format!("printed parameters do not conform: {w}; {j}"));
                }
                if s.sample == 1 {
                    for (k, d) in judge::c02(s, r) {
                        if k != "wrong-mean" {
                            v(o, &format!("best-{k}"), d);
                        }
                    }
                } else if !r.hist.evals.iter().any(|e| same(&e.value, &j)) {
                    v(o, "best-never-evaluated", format!("printed parameters {j} were never evaluated"));
                }
            }
        }
        if c.out.is_some() {
            match cr.files.get(&b"summary_report.txt"[..]) {
                None => v(o, "summary", "no summary report".to_string()),
                Some(b) => match summary(b) {
                    None => v(o, "summary", format!("summary report {:?}", lossy(b))),
                    Some((_, a, b, _)) => {
                        if s.disk == DiskX::default() {
                            let rows = r.csv.as_ref().and_then(|x| judge::parse_csv(x).ok());
                            if let Some(rows) = rows {
                                let acc = rows.iter().filter(|x| x.val.is_some()).count();
                                if (a, b) != (acc, rows.len() - acc) {
                                    v(o, "summary", format!("summary counts {a}+{b}, detailed report {acc}+{}", rows.len() - acc));
                                }
                            }
                        }
                    }
                },
            }
        }
        let fails: Vec<usize> = certain_failures(c, r).into_iter().collect();
        if !fails.is_empty() && s.disk == DiskX::default() {
            v(o, "success-after-failure", format!("child of evaluation #{} failed, exit status 0", fails[0]));
        }
    }
    // ---- results as the children reported them
    if c.out.is_some() && !odd_out(c) {
        for (k, d) in judge::c14(s, r) {
            if matches!(k.as_str(), "record-content" | "report-broken" | "best-file" | "silent-loss" | "record-missing" | "spurious-error") {
                v(o, &k, d);
            }
        }
    }
    if code != 0 {
        let hit = r.stats.get("fault_disk_open").copied().unwrap_or(0) + r.stats.get("fault_disk_write").copied().unwrap_or(0);
        let f = judge::facts(s, r);
        let p = judge::processed(s, r);
        let failing: Vec<&Eval> = r.hist.evals.iter().filter(|e| judge::planned_failure(s, e)).collect();
        if failing.is_empty() && hit == 0 && !odd_out(c) {
            if r.hist.evals.is_empty() && f.may_stop == u64::MAX && s.budget != Some(0) {
                v(o, "refused", format!("a valid command line was refused: {}", lossy(&cr.stderr)));
            } else if let (1, Some((i, x))) = (s.sample, p.certain.iter().find(|x| x.1.is_some())) {
                v(o, "spurious-error", format!("evaluation #{i} was accepted with {x:?}, no child failed: exit status {code}, {}", lossy(&cr.stderr)));
            }
        }
        // ---- diagnosis
        if c.out.is_some() && hit == 0 && !odd_out(c) {
            let get = |n: &str| cr.files.get(n.as_bytes());
            let d = (get("failed_obj_func_arg"), get("failed_obj_func_stdout"), get("failed_obj_func_stderr"));
            match d {
                (Some(a), Some(so), Some(se)) => {
                    let a = lossy_full(a);
                    let hit = failing.iter().any(|e| {
                        let n = e.argv.len();
                        let (js, seed) = (lossy_full(&e.argv[n - 2]), lossy_full(&e.argv[n - 1]));
                        let (eo, ee) = outputs(s, e);
                        let arg = a.contains(&format!("{:?}", std::ffi::OsStr::from_bytes(&e.argv[n - 2]))) || a.contains(&js);
                        arg && a.split(|ch: char| !ch.is_ascii_digit()).any(|t| t == seed) && &eo == so && &ee == se
                    });
                    if !hit {
                        v(
                            o,
                            "diagnosis",
                            format!(
                                "recorded failure: arguments {:?} stdout {:?} stderr {:?} fits none of the failing evaluations {:?}",
                                a,
                                lossy(so),
                                lossy(se),
                                failing.iter().map(|e| e.idx).collect::<Vec<_>>()
                            ),
                        );
                    }
                }
                (None, None, None) => {
                    let certain = certain_failures(c, r);
                    if !certain.is_empty() && possible_failures(c, r).iter().all(|i| dumpable(s, &r.hist.evals[*i])) {
                        v(o, "no-diagnosis", format!("the child of evaluation #{:?} failed, the output directory holds {:?}", certain, names(cr)));
                    }
                }
                _ => v(o, "diagnosis", format!("incomplete record of the failure: {:?}", names(cr))),
            }
        }
    }
    out
}

fn lossy_full(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}

fn names(cr: &CliRun) -> Vec<String> {
    cr.files.keys().map(|k| lossy(k)).collect()
}

fn dumpable(s: &Scn, e: &Eval) -> bool {
    s.plan(e.idx, &e.value).px.as_ref().map(|x| x.no_spawn.is_none()).unwrap_or(true)
}

/// What a child that runs to its end writes.
fn outputs(s: &Scn, e: &Eval) -> (Vec<u8>, Vec<u8>) {
    let (mut a, mut b) = (vec![], vec![]);
    for x in script(&s.plan(e.idx, &e.value)).unwrap_or_default() {
        match x {
            simcore::os::Act::Out(d) => a.extend(d),
            simcore::os::Act::Err(d) => b.extend(d),
            _ => (),
        }
    }
    (a, b)
}

/// Failures that the tool certainly saw before anything else could end the run.
fn certain_failures(c: &CliCase, r: &Run) -> BTreeSet<usize> {
    let s = &c.scn;
    let (fails, _, latest) = judge::proc_failures(s, r);
    let Some(latest) = latest else { return BTreeSet::new() };
    if judge::stopped_before(s, r, latest) {
        return BTreeSet::new();
    }
    fails.iter().map(|x| x.2).collect()
}

fn possible_failures(c: &CliCase, r: &Run) -> BTreeSet<usize> {
    let (a, b, latest) = judge::proc_failures(&c.scn, r);
    a.iter().chain(&b).filter(|x| latest.map(|l| x.0 <= l).unwrap_or(true)).map(|x| x.2).collect()
}

// ---------------------------------------------------------------------------------------------------- library

/// Configurations that the library has to refuse.
fn library(c: &CliCase, o: &mut Viols) {
    use cambrian::meta::AlgoConfigBuilder;
    use cambrian::termination::TerminationCriterion as T;
    let (conc, sample, crit) = c.lib.clone().unwrap();
    let mut b = AlgoConfigBuilder::new();
    let conf = b.num_concurrent(conc).individual_sample_size(sample).build();
    match conf {
        Err(_) if conc > 0 && sample > 0 => v(o, "refused", format!("configuration with {conc} concurrent evaluations and sample size {sample} refused")),
        Ok(_) if conc == 0 || sample == 0 => v(o, "not-refused", format!("configuration with {conc} concurrent evaluations and sample size {sample} accepted")),
        Err(e) if e.to_string().trim().is_empty() => v(o, "no-message", "error without message"),
        _ => (),
    }
    if conc == 0 || sample == 0 {
        return;
    }
    let list: Vec<T> = crit
        .iter()
        .map(|k| match k {
            0 => T::NumObjFuncEval(3),
            1 => T::TargetObjFuncVal(0.0),
            2 => T::TerminateAfter(std::time::Duration::from_secs(5)),
            _ => T::Signal,
        })
        .collect();
    let twice = (0..4).any(|k| crit.iter().filter(|x| **x == k).count() > 1);
    if !twice {
        return;
    }
    struct Count(std::sync::Arc<std::sync::atomic::AtomicUsize>);
    impl cambrian::meta::ObjectiveFunction for Count {
        fn evaluate(&self, _: J) -> Option<f64> {
            if self.0.fetch_add(1, Ordering::SeqCst) > 50 {
                return Some(-1e9);
            }
            Some(1.0)
        }
    }
    let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let mut b = AlgoConfigBuilder::new();
    let conf = b.num_concurrent(1).individual_sample_size(1).build().unwrap();
    let spec = cambrian::spec_util::from_yaml_str(&c.scn.spec.yaml()).expect("HARNESS: spec rejected");
    let world = simcore::world::World::new(simcore::world::WorldCfg { seed: c.scn.seed, time_limit: 100 * simcore::world::SEC, step_limit: 200_000, ..Default::default() });
    let n2 = n.clone();
    let res = std::thread::spawn(move || {
        let r = world.enter(|| {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                cambrian::sync_launch::launch(spec, Count(n2), conf, list, None, true, None).map(|_| ()).map_err(|e| e.to_string())
            }))
        });
        world.finish();
        r.unwrap_or(Ok(()))
    })
    .join()
    .unwrap_or(Ok(()));
    let n = n.load(Ordering::SeqCst);
    match res {
        Ok(_) => v(o, "not-refused", format!("repeated termination criteria {crit:?} accepted")),
        Err(e) if e.trim().is_empty() => v(o, "no-message", "error without message"),
        _ => (),
    }
    if n > 0 {
        v(o, "evaluated", format!("repeated termination criteria {crit:?}, but {n} evaluations were started"));
    }
}

// ---------------------------------------------------------------------------------------------------- cases

pub fn exec(prop: &str, c: &CliCase, record: bool, o: &mut CaseOut) {
    if c.lib.is_some() {
        library(c, &mut o.viols);
        o.runs += 1;
        o.nontrivial = true;
        o.hash = mix(o.hash, c.scn.seed);
        *o.stats.entry("library_configurations".into()).or_default() += 1;
        o.brief = format!("library configuration {:?}", c.lib);
        return;
    }
    if !available() {
        if prop == "C16" {
            eprintln!("HARNESS: {:?} is missing", simcli());
            std::process::exit(3);
        }
        *o.stats.entry("cli_unavailable".into()).or_default() += 1;
        return;
    }
    let (mut r, cr) = run_cli(c, record);
    if prop == "C16" {
        o.viols = c16(c, &r, &cr);
        o.nontrivial = true;
        let why = must_refuse(c);
        let k = match (&why, cr.code) {
            (Some(w), _) => format!("cli_refused_{}", w.split('(').next().unwrap().trim().replace(' ', "_")),
            (None, Some(0)) => "cli_success".into(),
            _ => "cli_run_failed".into(),
        };
        *o.stats.entry(k).or_default() += 1;
        if let Some(b) = &c.bad {
            *o.stats.entry(format!("bad_option_{}", b.why.replace(' ', "_"))).or_default() += 1;
        }
        if let Some(p) = &c.out {
            *o.stats.entry(format!("out_dir_{:?}{}", p.pre, if p.force { "_force" } else { "" })).or_default() += 1;
        }
    } else if let Some(g) = c.scn.guess.as_ref().filter(|_| prop == "C11") {
        crate::case::guess_judge(&c.scn, &r, g, Some(!c.guess_bad), "command line", &mut o.viols);
        o.nontrivial = true;
    } else if prop == "C09" || prop == "C15" {
        o.viols = judge_run(prop, &c.scn, &r);
        let mut d = c.clone();
        if prop == "C15" {
            d.scn.verbose = !c.scn.verbose;
        } else {
            // another process at another time
            d.scn.epoch = c.scn.epoch + 12_345_678_901_234;
        }
        let (mut r2, cr2) = run_cli(&d, record);
        if !judge::no_crash(&d.scn, &r2, &mut o.viols) {
            let (a, b) = (visible(&r, &cr), visible(&r2, &cr2));
            if let Some((x, y)) = a.iter().zip(&b).find(|(x, y)| x != y) {
                v(&mut o.viols, "differs", format!("first run: {}; second run: {}", lossy(x), lossy(y)));
            }
        }
        o.nontrivial = r.hist.evals.len() > 1;
        absorb(o, &d.scn, &mut r2);
    } else {
        o.viols = judge_run(prop, &c.scn, &r);
        o.nontrivial = r.hist.evals.len() > 1;
    }
    *o.stats.entry("cli_runs".into()).or_default() += 1;
    // the command line is part of what distinguishes cases
    for a in argv(c, Path::new("/")) {
        o.hash = mix(o.hash, a.iter().fold(7u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3)));
    }
    absorb(o, &c.scn, &mut r);
    o.brief = format!(
        "cambrian {:?} -> exit {:?} signal {:?}, stdout {:?}, stderr {:?}, files {:?}; {}",
        argv(c, Path::new("/cwd")).iter().map(|a| lossy(a)).collect::<Vec<_>>(),
        cr.code,
        cr.signal,
        lossy(&cr.stdout),
        lossy(&cr.stderr),
        names(&cr),
        o.brief
    );
    let _ = (&cr.end, US);
}

/// What a user sees of a run, except for the log.
fn visible(r: &Run, cr: &CliRun) -> Vec<Vec<u8>> {
    // log lines quote what the child printed, over several lines
    let e = message(&cr.stderr);
    let e = if e.starts_with("Error: ") { &e[..] } else { e.rfind("\nError: ").map(|i| &e[i + 1..]).unwrap_or("") };
    let mut l = vec![format!("{:?}", cr.code).into_bytes(), cr.stdout.clone(), e.as_bytes().to_vec()];
    l.push(format!("{} evaluations", r.hist.evals.len()).into_bytes());
    for e in &r.hist.evals {
        l.push(e.argv.join(&b' '));
    }
    for (n, b) in &cr.files {
        l.push([&n[..], b": ", b].concat());
    }
    l
}

impl CliCase {
    pub fn shrink(&self) -> Vec<CliCase> {
        let mut v = vec![];
        let mut add = |f: &dyn Fn(&mut CliCase)| {
            let mut t = self.clone();
            f(&mut t);
            t.scn.files = t.out.is_some();
            if t != *self {
                v.push(t);
            }
        };
        add(&|t| t.args.clear());
        for i in 0..self.args.len() {
            add(&|t| {
                t.args.remove(i);
            });
        }
        add(&|t| t.prog = b"obj-func".to_vec());
        add(&|t| t.spec_name = b"spec.yaml".to_vec());
        add(&|t| t.style = 0);
        add(&|t| t.bad = None);
        add(&|t| {
            t.out = None;
            t.scn.disk = DiskX::default();
        });
        add(&|t| {
            if let Some(o) = &mut t.out {
                o.name = b"out".to_vec();
                o.absolute = false;
            }
        });
        add(&|t| {
            if let Some(o) = &mut t.out {
                o.pre = Pre::None;
            }
        });
        add(&|t| {
            t.guess_text = None;
            t.scn.guess = None;
            t.guess_bad = false;
        });
        for s in crate::shrink::scn(&self.scn) {
            // a guess belongs to its spec; without output directory there are no disk errors
            let mut t = self.clone();
            let same_spec = s.spec == t.scn.spec;
            if s.guess != t.scn.guess || (!same_spec && t.guess_text.is_some()) || s.extra != t.scn.extra {
                continue;
            }
            if s.budget.is_none() && s.time_limit.is_none() && s.stop_starts.is_none() {
                continue;
            }
            t.scn = s;
            t.scn.files = t.out.is_some();
            v.push(t);
        }
        v
    }
}
