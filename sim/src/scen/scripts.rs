//! E01: the maintenance scripts (etc/*.sh) over a simulated cargo and a simulated registry.
//!
//! Real: the scripts and bash.  Simulated: cargo and tput (stubs/command.c), which ask this process for the
//! outcome of each call; the registry; the directory the checkout lies in; the death of the script.
//! Oracle: the crates and their dependencies as the manifests of the working tree say them.

use crate::check;
use crate::core::*;
use crate::scen::sysos::verif_dir;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CString;
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Component, Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Debug, Default)]
struct Crate {
    name: String,
    version: Vec<u32>,
    /// directory of the dependency, the version asked for (none: it cannot be published), needed to build (not only to test)
    needs: Vec<(String, Option<Vec<u32>>, bool)>,
}

struct Lab {
    dir: PathBuf,
    requests: BufReader<fs::File>,
    /// the writing end, also kept open so that reading never sees an end
    bell: PathBuf,
    answers: fs::File,
    /// by directory
    crates: BTreeMap<String, Crate>,
    uid: Option<u32>,
}

thread_local!(static LAB: RefCell<Option<Lab>> = const { RefCell::new(None) });

extern "C" {
    fn mkfifo(path: *const i8, mode: u32) -> i32;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn setuid(u: u32) -> i32;
    fn setgid(u: u32) -> i32;
    fn setgroups(n: usize, l: *const u32) -> i32;
}

const PLACES: [&str; 2] = ["rust-unic", "rust unic (2)"];

fn version(s: &str) -> Vec<u32> {
    s.split('.').map(|x| x.parse().unwrap_or(0)).collect()
}

fn normal(p: &Path) -> PathBuf {
    let mut v = PathBuf::new();
    for c in p.components() {
        match c {
            Component::CurDir => {}
            Component::ParentDir => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v
}

fn quoted<'a>(l: &'a str, key: &str) -> Option<&'a str> {
    l.match_indices(key).find_map(|(at, _)| {
        let rest = l[at + key.len()..].trim_start().strip_prefix('=')?.trim_start().strip_prefix('"')?;
        rest.split('"').next()
    })
}

fn manifest(dir: &str, text: &str) -> Option<Crate> {
    let mut c = Crate::default();
    let mut section = "";
    for l in text.lines() {
        let l = l.trim();
        if l.starts_with('[') {
            section = l;
        } else if section == "[package]" {
            if l.starts_with("name") {
                c.name = quoted(l, "name")?.into();
            } else if l.starts_with("version") {
                c.version = version(quoted(l, "version")?);
            }
        } else if section.ends_with("dependencies]") {
            if let Some(p) = quoted(l, "path") {
                let d = normal(&Path::new(dir).join(p)).to_string_lossy().into_owned();
                c.needs.push((d, quoted(l, "version").map(version), section != "[dev-dependencies]"));
            }
        }
    }
    (!c.name.is_empty()).then_some(c)
}

fn collect(at: &Path, rel: &str, v: &mut BTreeMap<String, Crate>, copies: &[PathBuf]) {
    let toml = at.join("Cargo.toml");
    if let Ok(t) = fs::read_to_string(&toml) {
        for c in copies {
            fs::create_dir_all(c.join(rel)).unwrap();
            fs::write(c.join(rel).join("Cargo.toml"), &t).unwrap();
        }
        if let Some(m) = manifest(rel, &t) {
            v.insert(rel.into(), m);
        }
    }
    let mut l: Vec<_> = fs::read_dir(at).unwrap().flatten().filter(|e| e.file_type().is_ok_and(|t| t.is_dir())).collect();
    l.sort_by_key(|e| e.file_name());
    for e in l {
        let n = e.file_name().to_string_lossy().into_owned();
        if n != "target" && n != "src" && n != "tests" && n != "tables" && !n.starts_with('.') {
            collect(&e.path(), &if rel.is_empty() { n } else { format!("{}/{}", rel, n) }, v, copies);
        }
    }
}

impl Lab {
    fn new() -> Lab {
        let verif = verif_dir();
        let dir = crate::scen::sysos::with(|b| b.dir.clone()).join("lab");
        let bin = dir.join("bin");
        fs::create_dir_all(&bin).unwrap();
        for n in ["cargo", "tput"] {
            fs::copy(verif.join("target/command"), bin.join(n)).unwrap();
        }
        // tools that change nothing
        for n in ["dirname", "basename", "readlink", "realpath", "grep", "sed", "cat", "tr", "sort", "head", "tail", "wc", "env", "date", "echo", "printf", "true", "false", "test", "expr", "seq", "cut", "awk", "uniq"] {
            let from = Path::new("/usr/bin").join(n);
            if from.exists() {
                let _ = std::os::unix::fs::symlink(from, bin.join(n));
            }
        }
        let copies: Vec<PathBuf> = PLACES.iter().map(|p| dir.join(p)).collect();
        let mut crates = BTreeMap::new();
        for part in ["unic", "apps", "gen"] {
            collect(&Path::new("/repo").join(part), part, &mut crates, &copies);
        }
        for c in &copies {
            fs::copy("/repo/Cargo.toml", c.join("Cargo.toml")).unwrap();
            fs::create_dir_all(c.join("etc")).unwrap();
            for e in fs::read_dir("/repo/etc").unwrap().flatten() {
                if e.file_type().unwrap().is_file() {
                    fs::copy(e.path(), c.join("etc").join(e.file_name())).unwrap();
                }
            }
        }
        for n in ["requests", "answers"] {
            let p = dir.join(n);
            let c = CString::new(p.as_os_str().as_encoded_bytes()).unwrap();
            assert_eq!(unsafe { mkfifo(c.as_ptr(), 0o666) }, 0, "simulator: no pipe");
            fs::set_permissions(&p, fs::Permissions::from_mode(0o666)).unwrap();
        }
        let open = |n: &str| fs::OpenOptions::new().read(true).write(true).custom_flags(0o2000000).open(dir.join(n)).unwrap();
        let uid = crate::scen::sysos::with(|b| b.uid());
        Lab { requests: BufReader::new(open("requests")), bell: dir.join("requests"), answers: open("answers"), crates, uid, dir }
    }
}

/// What becomes of a call.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    /// what it would do
    Fair,
    /// it fails without having done anything
    Fails(u8),
    /// it is killed
    Killed,
    /// it has its effect and fails all the same
    LostAnswer,
    /// the script dies before the call has its effect, or after
    Crash(bool),
}

#[derive(Debug)]
struct Call {
    args: Vec<String>,
    cwd: PathBuf,
    /// the directory of the crate it is about
    about: Option<String>,
    failed: bool,
    /// by the registry, and not because of a fault
    refused: bool,
}

impl Call {
    fn sub(&self) -> &str {
        self.args.iter().map(|a| a.as_str()).find(|a| !a.starts_with('+') && !a.starts_with('-')).unwrap_or("")
    }
    fn show(&self) -> String {
        format!("cargo {}{}", self.args.join(" "), if self.failed { " (fails)" } else { "" })
    }
}

struct Ended {
    calls: Vec<Call>,
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    crashed: bool,
    endless: bool,
}

impl Ended {
    fn show(&self) -> String {
        let k = self.calls.len();
        let last = self.calls.last().map_or(String::new(), |c| c.show());
        format!("code {:?} signal {:?} after {} commands, the last: {}", self.code, self.signal, k, last)
    }
}

/// Name and version of what is in the registry.
type Registry = BTreeSet<(String, Vec<u32>)>;

fn fits(have: &[u32], want: &[u32]) -> bool {
    let lead = want.iter().position(|x| *x > 0).map_or(want.len(), |i| i + 1);
    have.len() >= lead && have[..lead] == want[..lead] && have >= want
}

/// What the registry answers.
fn publish(c: &Crate, crates: &BTreeMap<String, Crate>, reg: &mut Registry) -> bool {
    let key = (c.name.clone(), c.version.clone());
    if reg.contains(&key) {
        return false;
    }
    for (dir, want, build) in &c.needs {
        let Some(want) = want else {
            if *build {
                return false;
            }
            continue;
        };
        let Some(d) = crates.get(dir) else { return false };
        if !reg.iter().any(|(n, v)| *n == d.name && fits(v, want)) {
            return false;
        }
    }
    reg.insert(key);
    true
}

impl Lab {
    fn go(&mut self, place: usize, script: &str, args: &[String], terminal: bool, reg: &mut Registry, mut fate: impl FnMut(usize, &Call) -> Fate) -> Ended {
        let root = fs::canonicalize(self.dir.join(PLACES[place])).unwrap();
        let outp = self.dir.join("stdout");
        let mut c = Command::new("/bin/bash");
        c.arg(format!("etc/{}", script)).args(args).current_dir(&root).env_clear()
            .env("PATH", self.dir.join("bin")).env("LAB", &self.dir)
            .env("BASH_FUNC_tput%%", "() { [ -z \"$NO_TERMINAL\" ]; }")
            .stdin(Stdio::null()).stdout(fs::File::create(&outp).unwrap()).stderr(Stdio::null());
        if !terminal {
            c.env("NO_TERMINAL", "1");
        }
        let uid = self.uid;
        unsafe {
            c.pre_exec(move || {
                let cpu: [u64; 2] = [30, 30];
                setrlimit(0, &cpu);
                let fsize: [u64; 2] = [64 << 20, 64 << 20];
                setrlimit(1, &fsize);
                if let Some(u) = uid {
                    setgroups(0, std::ptr::null());
                    if setgid(u) != 0 || setuid(u) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                Ok(())
            });
        }
        let mut child = c.spawn().expect("simulator: cannot run bash");
        let pid = child.id();
        let bell = self.bell.clone();
        let waiter = std::thread::spawn(move || {
            let st = child.wait().unwrap();
            fs::OpenOptions::new().write(true).open(bell).unwrap().write_all(b"end\n").unwrap();
            st
        });
        let mut e = Ended { calls: vec![], code: None, signal: None, out: String::new(), crashed: false, endless: false };
        loop {
            let mut l = String::new();
            self.requests.read_line(&mut l).unwrap();
            let l = l.trim_end_matches('\n');
            if l == "end" {
                break;
            }
            let mut parts = l.split('\x1f').map(|s| s.to_string());
            let cwd = PathBuf::from(parts.next().unwrap());
            let args: Vec<String> = parts.collect();
            let at = args.iter().position(|a| a == "--manifest-path").and_then(|i| args.get(i + 1).cloned())
                .or_else(|| args.iter().find_map(|a| a.strip_prefix("--manifest-path=").map(|s| s.to_string())));
            let of = match at {
                Some(m) => cwd.join(m).parent().map(|p| p.to_path_buf()).unwrap_or_default(),
                None => cwd.clone(),
            };
            let about = normal(&of).strip_prefix(&root).ok().map(|p| p.to_string_lossy().into_owned()).filter(|d| self.crates.contains_key(d));
            let mut call = Call { args, cwd, about, failed: false, refused: false };
            let f = fate(e.calls.len(), &call);
            let answer = match f {
                Fate::Fails(c) => c,
                Fate::Killed => 255,
                Fate::Crash(false) => 255,
                _ => {
                    let works = match (&call.about, call.sub()) {
                        (Some(d), "publish") => publish(&self.crates[d], &self.crates, reg),
                        (None, "publish" | "package" | "test" | "clippy") => false,
                        _ => true,
                    };
                    match f {
                        Fate::Crash(_) => 255,
                        Fate::LostAnswer => 101,
                        _ if works => 0,
                        _ => 101,
                    }
                }
            };
            call.failed = answer != 0;
            call.refused = call.failed && f == Fate::Fair && call.sub() == "publish";
            e.calls.push(call);
            e.endless = e.calls.len() > 1000;
            if matches!(f, Fate::Crash(_)) || e.endless {
                e.crashed = true;
                let _ = Command::new("/bin/kill").args(["-9", &pid.to_string()]).status();
                self.answers.write_all(&[255]).unwrap();
            } else {
                self.answers.write_all(&[answer]).unwrap();
            }
        }
        let st = waiter.join().unwrap();
        e.code = st.code();
        e.signal = st.signal();
        e.out = String::from_utf8_lossy(&fs::read(&outp).unwrap()).into_owned();
        e
    }
}

fn is_published(dir: &str) -> bool {
    dir != "gen"
}

/// Which crates a script is about, and what it does with each.
const EACH: [(&str, &str, &[&str]); 4] = [
    ("cargo-test-all.sh", "test", &["unic"]),
    ("cargo-package-all.sh", "package", &["unic"]),
    ("cargo-clippy-all.sh", "clippy", &["unic", "apps"]),
    ("cargo-publish-all.sh", "publish", &["unic", "apps"]),
];

fn covered(lab: &Lab, parts: &[&str]) -> BTreeSet<String> {
    lab.crates.keys().filter(|d| is_published(d) && parts.iter().any(|p| d.as_str() == *p || d.starts_with(&format!("{}/", p)))).cloned().collect()
}

fn reported(script: &str, e: &Ended) -> Res {
    // what the script says of each command, as far as that can be told
    let mut said: Vec<bool> = vec![];
    for l in e.out.lines() {
        if l.contains("Executing") && l.contains("cargo") {
            said.push(false);
        } else if l.contains("Succeeded") && l.contains("cargo") {
            if let Some(s) = said.last_mut() {
                *s = true;
            }
        }
    }
    if said.len() != e.calls.len() || e.crashed {
        return Ok(());
    }
    for (s, c) in said.iter().zip(&e.calls) {
        check!(!(*s && c.failed), "failure-reported-as-success", "{}: \"{}\", but the script says that it succeeded", script, c.show());
    }
    Ok(())
}

fn each(lab: &Lab, k: usize, e: &Ended) -> Res {
    let (script, sub, parts) = EACH[k];
    let all = covered(lab, parts);
    check!(!e.endless, "endless", "{} runs {} commands and more", script, e.calls.len());
    let mut done: Vec<&str> = vec![];
    for (i, c) in e.calls.iter().enumerate() {
        if c.failed && !e.crashed && (sub != "publish" || c.sub() != sub) {
            check!(i + 1 == e.calls.len(), "goes-on-after-failure", "{}: after \"{}\" it goes on with \"{}\"", script, c.show(), e.calls.get(i + 1).map_or(String::new(), |c| c.show()));
            check!(e.code != Some(0), "failure-hidden", "{}: \"{}\", and the script ends with {}", script, c.show(), e.show());
        }
        if c.sub() != sub {
            continue;
        }
        let Some(d) = &c.about else {
            return fail("unknown-crate", format!("{}: \"{}\" in {:?} is about no crate of the workspace", script, c.show(), c.cwd));
        };
        check!(all.contains(d), "wrong-crate", "{}: \"{}\" is about {}", script, c.show(), d);
        check!(!done.contains(&d.as_str()), "twice", "{}: {} comes twice", script, d);
        for (n, _, _) in &lab.crates[d].needs {
            check!(!all.contains(n) || done.contains(&n.as_str()), "order", "{}: {} comes before {}, which it depends on", script, d, n);
        }
        done.push(d);
    }
    let trouble = e.calls.iter().any(|c| c.failed && !c.refused);
    if !e.crashed && !trouble {
        check!(e.code == Some(0), "fails-without-reason", "{}: {} though no command failed for a reason other than the registry's refusal", script, e.show());
    }
    if !e.crashed && e.code == Some(0) {
        for d in &all {
            check!(done.contains(&d.as_str()), "left-out", "{} ends successfully and has left out {}", script, d);
        }
    }
    reported(script, e)
}

fn account(run: &mut Run, script: &str, e: &Ended) {
    let mut h = hash_str(script);
    for c in &e.calls {
        h = mix(h, hash_str(&c.args.join(" ")) ^ c.failed as u64);
        run.stats.steps += 1;
    }
    h = mix(h, e.code.unwrap_or(-1) as u64);
    run.ev("script", h, e.calls.len() as u64);
    run.il(h);
    run.state(h);
    run.note(|| format!("{}: {}", script, e.show()));
}

/// A plan: at most a few calls go wrong.
fn plan(run: &mut Run, publishing: bool) -> Vec<(usize, Fate)> {
    let n = run.src.weighted(&[2, 5, 2, 1]);
    (0..n)
        .map(|_| {
            let at = if run.src.chance(1, 6) { run.src.below(4) } else { run.src.below(64) };
            let code = *run.src.pick(&[101u8, 101, 1, 2, 125, 126, 127, 130, 254]);
            let f = match run.src.below(if publishing { 10 } else { 6 }) {
                0..=3 => Fate::Fails(code),
                4 => Fate::Killed,
                5 => Fate::Crash(run.src.chance(1, 2)),
                6 | 7 => Fate::LostAnswer,
                8 => Fate::Crash(true),
                _ => Fate::Fails(101),
            };
            (at, f)
        })
        .collect()
}

pub fn scripts(run: &mut Run) -> Res {
    LAB.with(|l| {
        let mut l = l.borrow_mut();
        if l.is_none() {
            *l = Some(Lab::new());
        }
        let lab = l.as_mut().unwrap();
        body(run, lab)
    })
}

fn count(run: &mut Run, f: Fate) {
    match f {
        Fate::Fair => {}
        Fate::Fails(_) => run.fault("command fails"),
        Fate::Killed => run.fault("command killed"),
        Fate::LostAnswer => run.fault("command done but reported as failed"),
        Fate::Crash(false) => run.fault("script killed before a command's effect"),
        Fate::Crash(true) => run.fault("script killed after a command's effect"),
    }
}

fn body(run: &mut Run, lab: &mut Lab) -> Res {
    let place = run.src.chance(1, 3) as usize;
    let terminal = !run.src.chance(1, 3);
    if !terminal {
        run.fault("no terminal");
    }
    let mut reg = Registry::new();
    run.note(|| format!("checkout in \"{}\", terminal: {}", PLACES[place], terminal));
    let what = run.src.weighted(&[2, 2, 2, 4, 2, 1]);
    if what >= 4 {
        // one command
        let (script, sub) = [("generate-tables.sh", "run"), ("format.sh", "fmt")][what - 4];
        let args: Vec<String> = if what == 4 {
            (0..run.src.below(3)).map(|_| (*run.src.pick(&["ucd", "normal", "idna", "emoji", "segment", "no such component", "", "*"])).to_string()).collect()
        } else {
            vec![]
        };
        let p = plan(run, false);
        let mut hit = vec![];
        let e = lab.go(place, script, &args, terminal, &mut reg, |i, _| {
            let f = p.iter().find(|x| x.0 % 2 == i).map_or(Fate::Fair, |x| x.1);
            hit.push(f);
            f
        });
        hit.into_iter().for_each(|f| count(run, f));
        account(run, script, &e);
        let real: Vec<&Call> = e.calls.iter().filter(|c| c.sub() == sub).collect();
        check!(real.len() <= 1 && !e.endless, "twice", "{} runs \"cargo {}\" {} times", script, sub, real.len());
        if let Some(c) = real.first() {
            check!(normal(&c.cwd) == fs::canonicalize(lab.dir.join(PLACES[place])).unwrap(), "wrong-directory", "{}: \"{}\" runs in {:?}", script, c.show(), c.cwd);
            if what == 4 {
                let k = c.args.iter().position(|a| a == "--").map_or(c.args.len(), |k| k + 1);
                check!(c.args[k..] == args[..], "arguments", "{}: called with {:?}, passes on {:?}", script, args, &c.args[k..]);
                check!(c.args[..k].iter().any(|a| a.contains("unic-gen")), "wrong-program", "{}: \"{}\"", script, c.show());
            }
        }
        if !e.crashed {
            let failed = e.calls.iter().any(|c| c.failed);
            check!(failed || !real.is_empty(), "left-out", "{}: no \"cargo {}\"; {}", script, sub, e.show());
            check!(failed == (e.code != Some(0)), "failure-hidden", "{}: {}", script, e.show());
        }
        return reported(script, &e);
    }
    let (script, sub, parts) = EACH[what];
    let all = covered(lab, parts);
    let publishing = sub == "publish";
    if publishing && run.src.chance(1, 2) {
        // an earlier release, or the first part of this one
        let old = run.src.chance(1, 2);
        for _ in 0..run.src.below(6) {
            for d in &all {
                let c = &lab.crates[d];
                if old {
                    reg.insert((c.name.clone(), vec![0, 8, 0]));
                } else if run.src.chance(1, 3) {
                    publish(c, &lab.crates, &mut reg);
                }
            }
        }
    }
    let rounds = if publishing { run.src.below(4) } else { 1 };
    for round in 0..rounds {
        let p = plan(run, publishing);
        let mut hit = vec![];
        let before = reg.len();
        let e = lab.go(place, script, &[], terminal, &mut reg, |i, _| {
            let f = p.iter().find(|x| x.0 == i).map_or(Fate::Fair, |x| x.1);
            hit.push(f);
            f
        });
        hit.into_iter().for_each(|f| count(run, f));
        account(run, script, &e);
        run.ev("registry", reg.len() as u64, round as u64);
        if reg.len() > before {
            run.probe("published a part");
        }
        each(lab, what, &e)?;
    }
    if publishing {
        // undisturbed: everything is there afterwards
        let e = lab.go(place, script, &[], terminal, &mut reg, |_, _| Fate::Fair);
        account(run, script, &e);
        each(lab, what, &e)?;
        for d in &all {
            let c = &lab.crates[d];
            check!(reg.contains(&(c.name.clone(), c.version.clone())), "not-published", "{}: after {} disturbed runs and an undisturbed one, {} {:?} is not in the registry; {}", script, rounds, c.name, c.version, e.show());
        }
    }
    Ok(())
}
