//! Running the repository's real, unmodified programs over the simulated kernel (sysshim/simos.c):
//! the plan that decides their faults, the directory tree they run in, and how to spawn them.

use crate::core::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::{FileExt, MetadataExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const OPENR: u32 = 0;
pub const OPENW: u32 = 1;
pub const READ: u32 = 2;
pub const WOUT: u32 = 3;
pub const WFILE: u32 = 4;
pub const STAT: u32 = 5;
pub const MKDIR: u32 = 6;
pub const RMDIR: u32 = 7;
pub const UNLINK: u32 = 8;
pub const OPENDIR: u32 = 9;
pub const READDIR: u32 = 10;
pub const CLOSE: u32 = 11;
pub const RENAME: u32 = 13;
pub const WERR: u32 = 14;
pub const FSTAT: u32 = 15;
pub const ALLOC: u32 = 16;
pub const CHMOD: u32 = 17;

pub const SHORT: u32 = 1;
pub const ERR: u32 = 2;
pub const CRASH_BEFORE: u32 = 3;
pub const CRASH_AFTER: u32 = 4;
pub const TORN: u32 = 5;

pub const EPERM: u32 = 1;
pub const EINTR: u32 = 4;
pub const EIO: u32 = 5;
pub const EAGAIN: u32 = 11;
pub const ENOMEM: u32 = 12;
pub const EACCES: u32 = 13;
pub const EBUSY: u32 = 16;
pub const ENFILE: u32 = 23;
pub const EMFILE: u32 = 24;
pub const EFBIG: u32 = 27;
pub const ENOSPC: u32 = 28;
pub const EROFS: u32 = 30;
pub const EMLINK: u32 = 31;
pub const EPIPE: u32 = 32;
pub const EDQUOT: u32 = 122;

const NRULES: usize = 16;
const NLOG: usize = 4096;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Rule {
    pub cls: u32,
    pub nth: u32,
    pub act: u32,
    pub arg: u32,
    pub sticky: u32,
    pub fired: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
struct LogEnt {
    cls: u16,
    act: u16,
    res: i32,
}

#[repr(C)]
#[derive(Clone, Copy)]
struct RawPlan {
    magic: u32,
    flags: u32,
    rnd_seed: u64,
    bg_seed: u64,
    bg_short: u32,
    bg_eintr: u32,
    max_calls: u32,
    nrules: u32,
    rules: [Rule; NRULES],
    root: [u8; 512],
    ncalls: u32,
    nlog: u32,
    bg_short_fired: u32,
    bg_eintr_fired: u32,
    crashed: u32,
    breaches: u32,
    overrun: u32,
    writes_after_error: u32,
    count: [u32; 24],
    breach: [u8; 512],
    hash: u64,
    log: [LogEnt; NLOG],
}

/// What is to happen to one program run.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub tty: bool,
    pub rnd_seed: u64,
    pub bg_seed: u64,
    pub bg_short: u32,
    pub bg_eintr: u32,
    pub rules: Vec<Rule>,
}

#[derive(Clone, Debug, Default)]
pub struct Ended {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub rules: Vec<Rule>,
    pub short: u32,
    pub eintr: u32,
    pub crashed: bool,
    pub overrun: bool,
    pub breaches: u32,
    pub breach: String,
    pub count: Vec<u32>,
    pub ncalls: u32,
    pub hash: u64,
}

impl Ended {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// A fault that may legitimately make the program fail took place.
    pub fn harmed(&self) -> bool {
        self.rules.iter().any(|r| r.fired > 0 && !transient(r))
    }
    pub fn alloc_failed(&self) -> bool {
        self.rules.iter().any(|r| r.fired > 0 && r.cls == ALLOC)
    }
    pub fn describe(&self) -> String {
        let rs: Vec<String> = self.rules.iter().filter(|r| r.fired > 0).map(rule_name).collect();
        format!("code {:?} signal {:?}, {} calls, faults [{}], {} short, {} interrupted",
            self.code, self.signal, self.ncalls, rs.join("; "), self.short, self.eintr)
    }
}

fn transient(r: &Rule) -> bool {
    r.act == SHORT || r.act == ERR && r.arg == EINTR
}

pub fn class_name(c: u32) -> &'static str {
    ["open for reading", "open for writing", "read", "write to stdout", "write to a file", "stat", "mkdir", "rmdir",
     "unlink", "open directory", "list directory", "close", "sync", "rename", "write to stderr", "fstat", "allocation",
     "chmod"].get(c as usize).copied().unwrap_or("?")
}

pub fn rule_name(r: &Rule) -> String {
    let a = match r.act {
        SHORT => "partial".to_string(),
        ERR => format!("errno {}", r.arg),
        CRASH_BEFORE => "crash before".into(),
        CRASH_AFTER => "crash after".into(),
        TORN => "crash during".into(),
        _ => "?".into(),
    };
    format!("{} {} no. {}{}", a, class_name(r.cls), r.nth + 1,
        if r.sticky > 0 { format!(" and the next {}", r.sticky - 1) } else { String::new() })
}

pub fn fault_name(r: &Rule) -> &'static str {
    match (r.act, r.cls) {
        (SHORT, READ) => "short read",
        (SHORT, _) => "short write",
        (ERR, _) if r.arg == EINTR => "interrupted call",
        (ERR, WOUT) if r.arg == EPIPE => "closed pipe",
        (ERR, WOUT) | (ERR, WFILE) if r.arg == ENOSPC || r.arg == EDQUOT || r.arg == EFBIG => "full disk",
        (ERR, WOUT) | (ERR, WFILE) => "write error",
        (ERR, WERR) => "stderr write error",
        (ERR, READ) => "read error",
        (ERR, OPENR) | (ERR, OPENW) => "open error",
        (ERR, STAT) | (ERR, FSTAT) => "stat error",
        (ERR, MKDIR) => "mkdir error",
        (ERR, RMDIR) | (ERR, UNLINK) => "remove error",
        (ERR, OPENDIR) | (ERR, READDIR) => "directory listing error",
        (ERR, ALLOC) => "allocation failure",
        (ERR, _) => "other call error",
        (CRASH_BEFORE, _) => "crash before a call",
        (CRASH_AFTER, _) => "crash after a call",
        (TORN, _) => "crash in the middle of a write",
        _ => "other",
    }
}

// ---------------------------------------------------------------- the tree

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    File(Vec<u8>),
    Dir,
    Link(String),
}

/// Paths relative to the root, parents included.
pub type Tree = BTreeMap<String, Node>;

pub fn put(t: &mut Tree, path: &str, node: Node) {
    let mut p = path;
    while let Some(i) = p.rfind('/') {
        p = &p[..i];
        t.entry(p.to_string()).or_insert(Node::Dir);
    }
    t.insert(path.to_string(), node);
}

/// Removes `path` and everything below it.
pub fn cut(t: &mut Tree, path: &str) {
    t.remove(path);
    let pre = format!("{}/", path);
    let below: Vec<String> = t.range(pre.clone()..).take_while(|(k, _)| k.starts_with(&pre)).map(|(k, _)| k.clone()).collect();
    for k in below {
        t.remove(&k);
    }
}

/// What is at and below `path`, keyed relative to it.
pub fn below<'a>(t: &'a Tree, path: &str) -> BTreeMap<&'a str, &'a Node> {
    let pre = format!("{}/", path);
    t.range(pre.clone()..).take_while(|(k, _)| k.starts_with(&pre)).map(|(k, v)| (&k[pre.len()..], v)).collect()
}

pub fn differences(a: &Tree, b: &Tree) -> Vec<String> {
    let mut v = vec![];
    for (k, x) in a {
        match b.get(k) {
            None => v.push(format!("{} is gone", k)),
            Some(y) if x != y => v.push(format!("{} changed", k)),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            v.push(format!("{} appeared", k));
        }
    }
    v
}

pub fn tree_hash(t: &Tree) -> u64 {
    let mut h = 7;
    for (k, n) in t {
        h = mix(h, hash_str(k));
        h = match n {
            Node::Dir => mix(h, 1),
            Node::Link(l) => mix(mix(h, 2), hash_str(l)),
            Node::File(c) => mix(mix(h, 3), c.iter().fold(0xcbf2_9ce4_8422_2325, |h: u64, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3))),
        };
    }
    h
}

pub struct Box_ {
    /// scratch directory of this process
    pub dir: PathBuf,
    root: PathBuf,
    on_disk: Tree,
    /// Files and directories with other permissions than those they are made with, at the last `get_tree`.
    pub odd_modes: Vec<(String, u32)>,
    planf: fs::File,
    shim: PathBuf,
    bins: PathBuf,
    uid: Option<u32>,
}

thread_local!(static BOX: RefCell<Option<Box_>> = const { RefCell::new(None) });

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn setuid(u: u32) -> i32;
    fn setgid(u: u32) -> i32;
    fn setgroups(n: usize, l: *const u32) -> i32;
}

const NOBODY: u32 = 65534;

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn sweep(scratch: &Path) {
    // leftovers of processes that were killed
    if let Ok(rd) = fs::read_dir(scratch) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if let Some(pid) = n.strip_prefix("os-") {
                let old = e.metadata().and_then(|m| m.modified()).ok().and_then(|t| t.elapsed().ok()).is_some_and(|d| d.as_secs() > 7200);
                if old && pid.parse::<u32>().is_ok() && !Path::new("/proc").join(pid).exists() {
                    let _ = fs::remove_dir_all(e.path());
                }
            }
        }
    }
}

impl Box_ {
    fn new() -> Box_ {
        extern "C" {
            fn umask(mask: u32) -> u32;
        }
        unsafe { umask(0o022) };
        let verif = verif_dir();
        // in memory where that is possible
        let shm = Path::new("/dev/shm").join("rust-unic-sim");
        let _ = fs::create_dir_all(&shm);
        let probe = shm.join(format!("probe-{}", std::process::id()));
        let usable = fs::create_dir(&probe).is_ok() && fs::remove_dir(&probe).is_ok();
        let scratch = if usable { shm } else { verif.join("scratch") };
        sweep(&scratch);
        let dir = scratch.join(format!("os-{}", std::process::id()));
        let _ = fs::remove_dir_all(&dir);
        let root = dir.join("w");
        fs::create_dir_all(&root).unwrap();
        let planp = dir.join("plan");
        let planf = fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&planp).unwrap();
        planf.set_len(std::mem::size_of::<RawPlan>() as u64).unwrap();
        fs::set_permissions(&planp, fs::Permissions::from_mode(0o666)).unwrap();
        let mut b = Box_ {
            root, on_disk: Tree::new(), odd_modes: vec![], planf,
            shim: verif.join("target/simos.so"), bins: verif.join("target/bins/release"), uid: None, dir,
        };
        // the programs run without privileges where that is possible
        for uid in [Some(NOBODY), None] {
            b.uid = uid;
            if std::os::unix::fs::chown(&b.root, uid, uid).is_err() {
                continue;
            }
            let e = b.spawn("unic-echo", &["probe".to_string()], "", &Plan::default(), &[]);
            if e.ok() && e.out == b"probe\n" {
                break;
            }
            if uid.is_none() {
                panic!("simulator: cannot run the programs: {}", e.describe());
            }
        }
        b
    }

    pub fn uid(&self) -> Option<u32> {
        self.uid
    }

    pub fn set_tree(&mut self, want: &Tree) {
        let gone: Vec<String> = self.on_disk.iter().rev().filter(|(k, n)| match want.get(*k) {
            None => true,
            Some(w) => w != *n && !(matches!(w, Node::File(_)) && matches!(n, Node::File(_))),
        }).map(|(k, _)| k.clone()).collect();
        for k in gone {
            let p = self.root.join(&k);
            match self.on_disk.remove(&k).unwrap() {
                Node::Dir => fs::remove_dir(&p).unwrap(),
                _ => fs::remove_file(&p).unwrap(),
            }
        }
        for (k, n) in want {
            if self.on_disk.get(k) == Some(n) {
                continue;
            }
            let p = self.root.join(k);
            match n {
                Node::Dir => fs::create_dir(&p).unwrap(),
                Node::File(c) => fs::write(&p, c).unwrap(),
                Node::Link(l) => std::os::unix::fs::symlink(l, &p).unwrap(),
            }
            std::os::unix::fs::lchown(&p, self.uid, self.uid).unwrap();
        }
        self.on_disk = want.clone();
    }

    /// Reads back what the programs left.
    pub fn get_tree(&mut self) -> Tree {
        fn walk(dir: &Path, rel: &str, t: &mut Tree, odd: &mut Vec<(String, u32)>) {
            for e in fs::read_dir(dir).unwrap() {
                let e = e.unwrap();
                let k = if rel.is_empty() { e.file_name().to_string_lossy().into_owned() } else { format!("{}/{}", rel, e.file_name().to_string_lossy()) };
                let m = fs::symlink_metadata(e.path()).unwrap();
                if m.is_symlink() {
                    t.insert(k, Node::Link(fs::read_link(e.path()).unwrap().to_string_lossy().into_owned()));
                } else if m.is_dir() {
                    t.insert(k.clone(), Node::Dir);
                    if m.mode() & 0o7777 != 0o755 {
                        odd.push((k.clone(), m.mode() & 0o7777));
                        fs::set_permissions(e.path(), fs::Permissions::from_mode(0o755)).unwrap();
                    }
                    walk(&e.path(), &k, t, odd);
                } else {
                    if m.mode() & 0o7777 != 0o644 {
                        odd.push((k.clone(), m.mode() & 0o7777));
                        fs::set_permissions(e.path(), fs::Permissions::from_mode(0o644)).unwrap();
                    }
                    t.insert(k, Node::File(fs::read(e.path()).unwrap()));
                }
            }
        }
        let mut t = Tree::new();
        self.odd_modes.clear();
        walk(&self.root, "", &mut t, &mut self.odd_modes);
        self.odd_modes.sort();
        self.on_disk = t.clone();
        t
    }

    /// Runs a program; `cwd` is relative to the root.
    pub fn spawn(&mut self, bin: &str, args: &[String], cwd: &str, plan: &Plan, env: &[(&str, &str)]) -> Ended {
        let mut raw: Box<RawPlan> = Box::new(unsafe { std::mem::zeroed() });
        raw.magic = 0x5130_5301;
        raw.flags = plan.tty as u32;
        raw.rnd_seed = plan.rnd_seed;
        raw.bg_seed = plan.bg_seed;
        raw.bg_short = plan.bg_short;
        raw.bg_eintr = plan.bg_eintr;
        raw.max_calls = 200_000;
        raw.nrules = plan.rules.len() as u32;
        raw.rules[..plan.rules.len()].copy_from_slice(&plan.rules);
        let real_root = fs::canonicalize(&self.root).unwrap();
        let rb = real_root.as_os_str().as_encoded_bytes();
        raw.root[..rb.len()].copy_from_slice(rb);
        let size = std::mem::size_of::<RawPlan>();
        let bytes = unsafe { std::slice::from_raw_parts(&*raw as *const RawPlan as *const u8, size) };
        self.planf.write_all_at(bytes, 0).unwrap();
        let outp = self.dir.join("stdout");
        let outf = fs::File::create(&outp).unwrap();
        let uid = self.uid;
        let mut c = Command::new(self.bins.join(bin));
        c.args(args).current_dir(self.root.join(cwd)).env_clear()
            .env("LD_PRELOAD", &self.shim).env("SIMOS_PLAN", self.dir.join("plan"))
            .stdin(Stdio::null()).stdout(outf).stderr(Stdio::null());
        for (k, v) in env {
            c.env(k, v);
        }
        unsafe {
            c.pre_exec(move || {
                let cpu: [u64; 2] = [30, 30];
                setrlimit(0, &cpu);
                let fsize: [u64; 2] = [64 << 20, 64 << 20];
                setrlimit(1, &fsize);
                if let Some(u) = uid {
                    setgroups(0, std::ptr::null());
                    if setgid(u) != 0 || setuid(u) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                Ok(())
            });
        }
        let st = match c.status() {
            Ok(s) => s,
            Err(_) => return Ended { code: Some(127), ..Ended::default() },
        };
        let mut back = vec![0u8; size];
        self.planf.read_exact_at(&mut back, 0).unwrap();
        let raw: Box<RawPlan> = Box::new(unsafe { std::ptr::read_unaligned(back.as_ptr() as *const RawPlan) });
        let b = &raw.breach;
        Ended {
            code: st.code(),
            signal: st.signal(),
            out: fs::read(&outp).unwrap(),
            rules: raw.rules[..plan.rules.len()].to_vec(),
            short: raw.bg_short_fired,
            eintr: raw.bg_eintr_fired,
            crashed: raw.crashed != 0,
            overrun: raw.overrun != 0,
            breaches: raw.breaches,
            breach: String::from_utf8_lossy(&b[..b.iter().position(|&x| x == 0).unwrap_or(b.len())]).into_owned(),
            count: raw.count.to_vec(),
            ncalls: raw.ncalls,
            hash: raw.hash,
        }
    }
}

/// The simulated machine of this process.
pub fn with<T>(f: impl FnOnce(&mut Box_) -> T) -> T {
    BOX.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() {
            *b = Some(Box_::new());
        }
        f(b.as_mut().unwrap())
    })
}

pub fn cleanup() {
    BOX.with(|b| {
        if let Some(b) = b.borrow_mut().take() {
            let _ = fs::remove_dir_all(&b.dir);
        }
    });
}

/// Counts the faults of a finished program run and feeds the history.
pub fn account(run: &mut Run, what: &'static str, e: &Ended) {
    for r in &e.rules {
        if r.fired > 0 {
            run.fault(fault_name(r));
        }
    }
    for _ in 0..e.short {
        run.fault("random partial transfer");
    }
    for _ in 0..e.eintr {
        run.fault("random interruption");
    }
    let code = match (e.code, e.signal) {
        (Some(c), _) => c as u64,
        (_, Some(s)) => 1000 + s as u64,
        _ => 9999,
    };
    run.ev(what, code, e.hash);
    for _ in 0..e.ncalls {
        run.stats.steps += 1;
    }
    run.il(e.hash);
    run.state(mix(mix(e.hash, code), hash_str(what)));
}
