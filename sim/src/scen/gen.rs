//! T01-T03: the table generator over the simulated kernel.
//!
//! The world is a directory tree: the generator's working directory `world` with made-up Unicode data in
//! `external`, table directories in any earlier state, and other files beside them; and `outside`.

use crate::check;
use crate::core::*;
use crate::scen::sysos::*;
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

const COMPONENTS: [&str; 5] = ["ucd", "normal", "segment", "idna", "emoji"];

fn table_dirs(component: &str) -> &'static [&'static str] {
    match component {
        "ucd" => &[
            "unic/ucd/age/tables", "unic/ucd/bidi/tables", "unic/ucd/block/tables", "unic/ucd/case/tables", "unic/ucd/category/tables",
            "unic/ucd/common/tables", "unic/ucd/version/tables", "unic/ucd/hangul/tables", "unic/ucd/ident/tables", "unic/ucd/name/tables",
            "unic/ucd/name_aliases/tables", "unic/ucd/normal/tables", "unic/ucd/segment/tables", "unic/ucd/segment/tests/tables",
        ],
        "normal" => &["unic/normal/tests/tables"],
        "segment" => &["unic/segment/tests/tables"],
        "idna" => &["unic/idna/mapping/tables"],
        "emoji" => &["unic/emoji/char/tables"],
        _ => &[],
    }
}

fn all_dirs() -> Vec<&'static str> {
    COMPONENTS.iter().flat_map(|c| table_dirs(c).iter().copied()).collect()
}

fn load(dir: &Path, rel: &str, t: &mut BTreeMap<String, Vec<u8>>) {
    for e in fs::read_dir(dir).unwrap_or_else(|e| panic!("simulator: {}: {}", dir.display(), e)) {
        let e = e.unwrap();
        let n = e.file_name().to_string_lossy().into_owned();
        let k = if rel.is_empty() { n } else { format!("{}/{}", rel, n) };
        if e.path().is_dir() {
            load(&e.path(), &k, t);
        } else {
            t.insert(k, fs::read(e.path()).unwrap());
        }
    }
}

/// One set of source data: what it is and what the generator makes of it when left alone.
pub struct Data {
    input: BTreeMap<String, Vec<u8>>,
    /// path -> content, of an undisturbed run in an empty world
    tables: BTreeMap<String, Vec<u8>>,
    /// calls of each class in that run, per component
    calls: BTreeMap<&'static str, Vec<u32>>,
}

pub const SETS: usize = 3;

fn significant(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for line in b.split(|&c| c == b'\n') {
        if !line.starts_with(b"//") {
            v.extend(line.iter().copied().filter(|c| !c.is_ascii_whitespace()));
        }
    }
    v
}

fn make_data(n: usize, property: &str) -> Result<Data, Violation> {
    let base = verif_dir().join(format!("sysdata/v{}", n + 1));
    let mut input = BTreeMap::new();
    load(&base.join("in"), "", &mut input);
    let mut model = BTreeMap::new();
    load(&base.join("out"), "", &mut model);
    let mut t = Tree::new();
    put(&mut t, "world", Node::Dir);
    for (k, c) in &input {
        put(&mut t, &format!("world/{}", k), Node::File(c.clone()));
    }
    let mut tables: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut calls = BTreeMap::new();
    for c in COMPONENTS {
        let (e, after) = with(|b| {
            b.set_tree(&t);
            let e = b.spawn("unic-gen", &[c.to_string()], "world", &Plan::default(), &[]);
            (e, b.get_tree())
        });
        check!(e.ok() || property == "T03", "undisturbed-run-fails", "unic-gen {} on data set {} undisturbed: {}", c, n + 1, e.describe());
        calls.insert(c, e.count.clone());
        for d in table_dirs(c) {
            for (k, node) in below(&after, &format!("world/{}", d)) {
                if let Node::File(b) = node {
                    tables.insert(format!("{}/{}", d, k), b.clone());
                }
            }
        }
    }
    // what the data denotes, known independently
    for (k, want) in model.iter().filter(|_| property == "T01") {
        match tables.get(k) {
            None => return fail("table-missing", format!("an undisturbed run on data set {} makes no {}", n + 1, k)),
            Some(got) => {
                let (g, w) = (significant(got), significant(want));
                let at = g.iter().zip(&w).take_while(|(a, b)| a == b).count();
                check!(g == w, "table-wrong", "an undisturbed run on data set {} makes a wrong {}: {:?} where {:?} is right", n + 1, k,
                    String::from_utf8_lossy(&g[at.saturating_sub(40)..g.len().min(at + 60)]), String::from_utf8_lossy(&w[at.saturating_sub(40)..w.len().min(at + 60)]));
            }
        }
    }
    Ok(Data { input, tables, calls })
}

thread_local!(static DATA: std::cell::RefCell<BTreeMap<usize, std::rc::Rc<Data>>> = const { std::cell::RefCell::new(BTreeMap::new()) });

pub fn data(n: usize, property: &str) -> Result<std::rc::Rc<Data>, Violation> {
    if let Some(d) = DATA.with(|d| d.borrow().get(&n).cloned()) {
        return Ok(d);
    }
    let d = std::rc::Rc::new(make_data(n, property)?);
    DATA.with(|m| m.borrow_mut().insert(n, d.clone()));
    Ok(d)
}

// ---------------------------------------------------------------- the world

fn garbage(run: &mut Run) -> Vec<u8> {
    match run.src.below(4) {
        0 => vec![],
        1 => b"stale\n".to_vec(),
        2 => vec![0; run.src.range(1, 5000)],
        _ => b"// WARNING: Auto-generated by the `unic-gen` crate.\n".to_vec(),
    }
}

fn spoil(run: &mut Run, b: &[u8]) -> Option<Vec<u8>> {
    Some(match run.src.below(6) {
        0 => b.to_vec(),
        1 => b[..run.src.below(b.len() + 1)].to_vec(),
        2 => vec![],
        3 => {
            let k = run.src.below(b.len() + 1);
            let mut v = b.to_vec();
            v[k..].iter_mut().for_each(|x| *x = 0);
            v
        }
        4 => {
            let mut v = b.to_vec();
            if !v.is_empty() {
                let k = run.src.below(v.len());
                v[k] ^= 1;
            }
            v
        }
        _ => return None,
    })
}

/// Files next to and around the tables that must never change.
fn sentinels(t: &mut Tree) {
    for d in all_dirs() {
        let parent = &d[..d.rfind('/').unwrap()];
        put(t, &format!("world/{}/Cargo.toml", parent), Node::File(format!("[package] # {}\n", parent).into_bytes()));
        put(t, &format!("world/{}/src/lib.rs", parent), Node::File(b"//! source\n".to_vec()));
        put(t, &format!("world/{}/tables_backup/a.rsv", parent), Node::File(b"backup\n".to_vec()));
        put(t, &format!("world/{}/table", parent), Node::File(b"not a directory\n".to_vec()));
    }
    for p in ["unic/segment/tests/unit.rs", "unic/normal/tests/conformance.rs", "unic/src/lib.rs", "tables/x.rsv", "ucd/tables/x.rsv", "gen/src/main.rs", "README.md",
        "unic/ucd/tables/x.rsv", "unic/tables/x.rsv", "unic/emoji/tables/x.rsv", "unic/ucd/bidi/tests/tables/x.rsv"] {
        put(t, &format!("world/{}", p), Node::File(format!("{}\n", p).into_bytes()));
    }
    put(t, "world/empty_dir", Node::Dir);
    put(t, "outside/precious/file", Node::File(b"precious\n".to_vec()));
    put(t, "outside/precious/tables/file", Node::File(b"precious too\n".to_vec()));
    put(t, "outside/file", Node::File(b"precious as well\n".to_vec()));
}

fn ups(d: &str) -> String {
    "../".repeat(d.matches('/').count() + 1)
}

/// An earlier state of one table directory.
fn prestate(run: &mut Run, t: &mut Tree, d: &str, old: &Data, links: bool) {
    let dir = format!("world/{}", d);
    let kind = run.src.weighted(&[3, 1, 3, 4, 2, if links { 2 } else { 0 }, if links { 1 } else { 0 }, 1]);
    let mine: Vec<(&String, &Vec<u8>)> = old.tables.range(format!("{}/", d)..).take_while(|(k, _)| k.starts_with(d) && k.as_bytes().get(d.len()) == Some(&b'/')).collect();
    match kind {
        0 => {} // absent
        1 => put(t, &dir, Node::Dir),
        2 | 3 | 4 | 5 => {
            // the tables of some data set, whole (2), spoilt (3..), with extra files (4), with links out (5)
            for (k, b) in mine {
                let c = if kind == 3 { spoil(run, b) } else { Some(b.clone()) };
                if let Some(c) = c {
                    put(t, &format!("world/{}", k), Node::File(c));
                }
            }
            if kind >= 4 || run.src.chance(1, 3) {
                for i in 0..run.src.range(1, 4) {
                    let g = garbage(run);
                    let name = match run.src.below(8) {
                        0 => "mod.rs".to_string(),
                        1 => format!("old_{}.rsv", i),
                        2 => format!("nested/deep/old_{}.rsv", i),
                        3 => ".hidden".to_string(),
                        4 => "unicode_version.rsv.tmp".to_string(),
                        5 => "tables/inner.rsv".to_string(),
                        6 => "unicode_version.rsv~".to_string(),
                        _ => "\u{e9}\u{301} x.rsv".to_string(),
                    };
                    put(t, &format!("{}/{}", dir, name), Node::File(g));
                }
            }
            if kind == 5 {
                let up = ups(d);
                put(t, &format!("{}/dirlink", dir), Node::Link(format!("{}../outside/precious", up)));
                put(t, &format!("{}/filelink.rsv", dir), Node::Link(format!("{}../outside/file", up)));
                put(t, &format!("{}/gone", dir), Node::Link("nowhere".into()));
                // a table that is a link to something precious
                if run.src.chance(1, 2) {
                    put(t, &format!("{}/unicode_version.rsv", dir), Node::Link(format!("{}../outside/file", up)));
                }
            }
        }
        6 => put(t, &dir, Node::Link(format!("{}../outside/precious/tables", ups(&d[..d.rfind('/').unwrap()])))),
        _ => {
            put(t, &format!("{}/a/b/c/d", dir), Node::Dir);
            put(t, &format!("{}/a/x", dir), Node::File(vec![]));
        }
    }
}

fn fresh_world(run: &mut Run, input: &Data, links: bool, property: &str) -> Result<Tree, Violation> {
    let mut t = Tree::new();
    put(&mut t, "world", Node::Dir);
    if !run.src.chance(1, 6) {
        sentinels(&mut t);
    }
    put(&mut t, "outside/precious/tables/file", Node::File(b"precious too\n".to_vec()));
    put(&mut t, "outside/file", Node::File(b"precious as well\n".to_vec()));
    set_input(&mut t, input);
    let old = data(run.src.below(SETS), property)?;
    if !run.src.chance(1, 8) {
        for d in all_dirs() {
            prestate(run, &mut t, d, &old, links);
        }
    }
    Ok(t)
}

fn set_input(t: &mut Tree, input: &Data) {
    cut(t, "world/external");
    for (k, c) in &input.input {
        put(t, &format!("world/{}", k), Node::File(c.clone()));
    }
}

/// Takes away some of the input data; the names of what is gone.
fn lose_input(run: &mut Run, t: &mut Tree, input: &Data) -> Vec<String> {
    let keys: Vec<&String> = input.input.keys().collect();
    let mut gone = vec![];
    for _ in 0..run.src.range(1, 3) {
        let k = format!("world/{}", keys[run.src.below(keys.len())]);
        let how = run.src.below(8);
        if !t.contains_key(&k) {
            continue;
        }
            match how {
            // a file where its directory should be, or nothing at all
            0 | 1 => {
                let up = k[..k.rfind('/').unwrap()].to_string();
                cut(t, &up);
                if run.src.chance(1, 2) {
                    put(t, &up, Node::File(vec![]));
                }
                gone.push(up);
            }
            2 => {
                cut(t, &k);
                put(t, &k, Node::Dir);
                gone.push(k);
            }
            3 => {
                cut(t, &k);
                put(t, &k, Node::Link("nowhere".into()));
                gone.push(k);
            }
            _ => {
                cut(t, &k);
                gone.push(k);
            }
        }
    }
    run.fault("input data missing");
    let n = gone.clone();
    run.note(|| format!("missing input: {}", list(&n)));
    gone
}

/// Arguments selecting components, and what they select.
fn selection(run: &mut Run) -> (Vec<String>, Vec<&'static str>) {
    if run.src.chance(1, 6) {
        return (vec![], COMPONENTS.to_vec());
    }
    let n = run.src.weighted(&[0, 6, 3, 1, 1]);
    // one component is cheap to run unless it is ucd
    let picks: Vec<&'static str> = (0..n).map(|_| COMPONENTS[[0, 1, 2, 3, 3, 4, 4][run.src.below(7)]]).collect();
    let mut args: Vec<String> = picks.iter().map(|s| s.to_string()).collect();
    if run.src.chance(1, 10) {
        args.insert(0, "--".into());
    }
    let sel = COMPONENTS.iter().copied().filter(|c| picks.contains(c)).collect();
    (args, sel)
}

const CLASSES: [(u32, &[u32]); 14] = [
    (OPENW, &[EACCES, ENOSPC, EMFILE, EROFS, EIO]), (OPENR, &[EACCES, EIO, EMFILE]), (READ, &[EIO]), (WFILE, &[ENOSPC, EIO, EDQUOT, EFBIG]),
    (WOUT, &[ENOSPC, EPIPE, EIO, EAGAIN]), (MKDIR, &[ENOSPC, EACCES, EROFS, EMLINK]), (RMDIR, &[EBUSY, EACCES]), (UNLINK, &[EACCES, EBUSY, EIO, EPERM]),
    (OPENDIR, &[EACCES, EMFILE, ENFILE]), (READDIR, &[EIO]), (STAT, &[EACCES, EIO, ENOMEM]), (FSTAT, &[EIO, ENOMEM]), (ALLOC, &[ENOMEM]), (WERR, &[EIO, EPIPE]),
];
const WEIGHTS: [usize; 14] = [6, 4, 6, 10, 2, 5, 5, 5, 4, 4, 6, 2, 2, 1];

/// A position among the calls of class `cls` that such a run makes.
fn position(run: &mut Run, cls: u32, counts: &[u32]) -> u32 {
    let n = match cls {
        // removals depend on what is there before
        RMDIR | UNLINK | OPENDIR | READDIR => counts[cls as usize] as usize + 20,
        _ => counts[cls as usize] as usize,
    };
    if run.src.chance(1, 3) { run.src.geo(8) as u32 } else { run.src.below(n + 2) as u32 }
}

fn fault_rules(run: &mut Run, d: &Data, sel: &[&'static str], rules: &mut Vec<Rule>) {
    let mut counts = vec![0u32; 24];
    for c in sel {
        for (i, n) in d.calls[c].iter().enumerate() {
            counts[i] += n;
        }
    }
    for _ in 0..run.src.weighted(&[1, 6, 2, 1]) {
        let (cls, errs) = CLASSES[run.src.weighted(&WEIGHTS)];
        let nth = position(run, cls, &counts);
        let sticky = match run.src.below(4) { 0 | 1 => 0, 2 => 1 + run.src.below(4) as u32, _ => 1_000_000 };
        let transient = matches!(cls, READ | WFILE | WOUT | OPENR | OPENW) && run.src.chance(2, 5);
        rules.push(if transient {
            if matches!(cls, OPENR | OPENW) || run.src.chance(1, 2) {
                Rule { cls, nth, act: ERR, arg: EINTR, sticky: sticky.min(5), ..Rule::default() }
            } else {
                Rule { cls, nth, act: SHORT, arg: run.src.below(60_000) as u32, sticky: sticky.min(50), ..Rule::default() }
            }
        } else {
            Rule { cls, nth, act: ERR, arg: *run.src.pick(errs), sticky: if cls == ALLOC { sticky.min(3) } else { sticky }, ..Rule::default() }
        });
    }
}

fn crash_rule(run: &mut Run, d: &Data, sel: &[&'static str], rules: &mut Vec<Rule>) {
    let mut counts = vec![0u32; 24];
    for c in sel {
        for (i, n) in d.calls[c].iter().enumerate() {
            counts[i] += n;
        }
    }
    let cls = *run.src.pick(&[WFILE, WFILE, WFILE, OPENW, OPENW, MKDIR, RMDIR, UNLINK, UNLINK, OPENR, READ, CLOSE, STAT, OPENDIR, READDIR, WOUT, RENAME]);
    let nth = position(run, cls, &counts);
    let act = *run.src.pick(&[CRASH_BEFORE, CRASH_AFTER, TORN]);
    rules.push(Rule { cls, nth, act: if act == TORN && cls != WFILE { CRASH_AFTER } else { act }, arg: run.src.below(60_000) as u32, ..Rule::default() });
}

fn background(run: &mut Run, plan: &mut Plan) {
    plan.rnd_seed = run.src.below(1 << 20) as u64;
    plan.bg_seed = run.src.below(1 << 20) as u64;
    if run.src.chance(1, 3) {
        plan.bg_short = *run.src.pick(&[20, 200, 800]);
    }
    if run.src.chance(1, 3) {
        plan.bg_eintr = *run.src.pick(&[20, 100, 400]);
    }
}

fn go(run: &mut Run, what: &'static str, args: &[String], plan: &Plan) -> Result<Ended, Violation> {
    let env = [*run.src.pick(&[("LANG", "C"), ("LANG", "tr_TR.UTF-8"), ("TZ", "Asia/Tokyo"), ("RUST_BACKTRACE", "0"), ("TMPDIR", "/nonexistent")])];
    for a in args {
        run.il(hash_str(a));
    }
    let e = with(|b| b.spawn("unic-gen", args, "world", plan, &env));
    account(run, what, &e);
    run.note(|| format!("{}: unic-gen {:?} env {:?} seeds {}/{} background {}/{} plan {:?}\n      -> {}", what, args, env, plan.rnd_seed, plan.bg_seed,
        plan.bg_short, plan.bg_eintr, plan.rules.iter().map(rule_name).collect::<Vec<_>>(), e.describe()));
    check!(!e.overrun && e.signal != Some(24) && e.signal != Some(25), "generator-hangs", "unic-gen {:?} never ends: {}", args, e.describe());
    check!(e.signal.is_none() || e.signal == Some(6) && e.harmed(), "generator-dies", "unic-gen {:?} killed by a signal: {}", args, e.describe());
    Ok(e)
}

fn selected_dirs(sel: &[&'static str]) -> Vec<&'static str> {
    sel.iter().flat_map(|c| table_dirs(c).iter().copied()).collect()
}

/// What is wrong with the tables of the selected components.
fn table_faults(t: &Tree, d: &Data, sel: &[&'static str]) -> Vec<String> {
    let mut v = vec![];
    for dir in selected_dirs(sel) {
        let pre = format!("{}/", dir);
        match t.get(&format!("world/{}", dir)) {
            Some(Node::Dir) => {}
            _ => {
                v.push(format!("{} is not a directory", dir));
                continue;
            }
        }
        let have = below(t, &format!("world/{}", dir));
        for (k, b) in d.tables.range(pre.clone()..).take_while(|(k, _)| k.starts_with(&pre)) {
            match have.get(&k[pre.len()..]) {
                None => v.push(format!("{} is missing", k)),
                Some(Node::File(x)) if x == b => {}
                Some(Node::File(x)) => {
                    let at = x.iter().zip(b).take_while(|(a, b)| a == b).count();
                    v.push(format!("{} differs at byte {} ({} bytes, {} expected)", k, at, x.len(), b.len()));
                }
                Some(_) => v.push(format!("{} is not a file", k)),
            }
        }
        for (k, _) in have {
            if !d.tables.contains_key(&format!("{}{}", pre, k)) {
                v.push(format!("{}{} should not be there", pre, k));
            }
        }
    }
    v
}

fn list(v: &[String]) -> String {
    let mut s = v.iter().take(5).cloned().collect::<Vec<_>>().join(", ");
    if v.len() > 5 {
        s += &format!(" and {} more", v.len() - 5);
    }
    s
}

/// T01: one faulted run; success means complete, correct tables.
pub fn generate(run: &mut Run) -> Res {
    let d = data(run.src.below(SETS), "T01")?;
    let (args, sel) = selection(run);
    let mut t = fresh_world(run, &d, true, "T01")?;
    let lost = if run.src.chance(1, 12) { lose_input(run, &mut t, &d) } else { vec![] };
    run.il(tree_hash(&t));
    let mut plan = Plan::default();
    fault_rules(run, &d, &sel, &mut plan.rules);
    background(run, &mut plan);
    with(|b| b.set_tree(&t));
    let e = go(run, "run", &args, &plan)?;
    let after = with(|b| b.get_tree());
    run.ev("tree", tree_hash(&after), 0);
    run.state(tree_hash(&after));
    let bad = table_faults(&after, &d, &sel);
    if e.ok() {
        check!(bad.is_empty(), "success-with-bad-tables", "unic-gen {:?} exited with success, but {} ({}{})", args, list(&bad), e.describe(),
            if lost.is_empty() { String::new() } else { format!(", input missing: {}", list(&lost)) });
        if e.harmed() {
            run.probe("fault survived");
        }
    } else {
        check!(e.harmed() || !lost.is_empty(), "transient-fault-fails", "unic-gen {:?} failed though nothing worse than partial transfers and interruptions happened: {}", args, e.describe());
        run.probe("failure reported");
        if !bad.is_empty() {
            run.probe("incomplete tables left by a failed run");
        }
    }
    Ok(())
}

/// What a power failure may make of the changes of a run: each file touched independently.
fn power_loss(run: &mut Run, before: &Tree, after: &Tree) -> Tree {
    let mut t = after.clone();
    let mut changed: Vec<String> = after.iter().filter(|(k, n)| before.get(*k) != Some(*n)).map(|(k, _)| k.clone()).collect();
    let gone: Vec<String> = before.keys().filter(|k| !after.contains_key(*k)).cloned().collect();
    changed.sort();
    let mode = run.src.below(3); // light, heavy, everything of one kind
    let one = run.src.below(7);
    let p = [8, 2, 1][mode];
    let mut lost = 0;
    for k in changed {
        let Some(node) = t.get(&k).cloned() else { continue };
        if !run.src.chance(1, p) {
            continue;
        }
        let kind = if mode == 2 { one } else { run.src.below(7) };
        lost += 1;
        match (kind, node) {
            (0, _) => {}
            (1, Node::File(b)) => {
                let at = run.src.below(b.len() + 1);
                t.insert(k, Node::File(b[..at].to_vec()));
            }
            (2, Node::File(_)) => {
                t.insert(k, Node::File(vec![]));
            }
            (3, Node::File(mut b)) => {
                let at = run.src.below(b.len() + 1);
                b[at..].iter_mut().for_each(|x| *x = 0);
                t.insert(k, Node::File(b));
            }
            (4, Node::File(b)) => {
                // the old blocks, as far as they go
                if let Some(Node::File(o)) = before.get(&k) {
                    let mut v = o.clone();
                    v.resize(b.len(), 0);
                    t.insert(k, Node::File(v));
                }
            }
            (5, _) => {
                // the new entry was lost; the old one is back
                cut(&mut t, &k);
                match before.get(&k) {
                    Some(Node::Dir) | None => {}
                    Some(o) => put(&mut t, &k, o.clone()),
                }
            }
            (_, Node::File(mut b)) => {
                b.extend(vec![0; run.src.range(1, 600)]);
                t.insert(k, Node::File(b));
            }
            _ => lost -= 1,
        }
    }
    for k in gone {
        if run.src.chance(1, p * 2) && !t.contains_key(&k) {
            // the removal was lost
            let parent = &k[..k.rfind('/').unwrap_or(0)];
            if matches!(t.get(parent), None | Some(Node::Dir)) && ancestors_free(&t, &k) {
                put(&mut t, &k, before[&k].clone());
                lost += 1;
            }
        }
    }
    for _ in 0..lost {
        run.fault("write or removal lost at power failure");
    }
    t
}

fn ancestors_free(t: &Tree, k: &str) -> bool {
    let mut p = k;
    while let Some(i) = p.rfind('/') {
        p = &p[..i];
        if !matches!(t.get(p), None | Some(Node::Dir)) {
            return false;
        }
    }
    true
}

/// T02: crashes, then runs to completion.
pub fn crashes(run: &mut Run) -> Res {
    let mut d = data(run.src.below(SETS), "T02")?;
    let mut t = fresh_world(run, &d, false, "T02")?;
    run.il(tree_hash(&t));
    let mut touched: Vec<&'static str> = vec![];
    let attempts = run.src.weighted(&[1, 6, 3, 1]);
    for _ in 0..attempts {
        let (args, sel) = selection(run);
        for c in &sel {
            if !touched.contains(c) {
                touched.push(c);
            }
        }
        let mut plan = Plan::default();
        crash_rule(run, &d, &sel, &mut plan.rules);
        if run.src.chance(1, 4) {
            fault_rules(run, &d, &sel, &mut plan.rules);
        }
        background(run, &mut plan);
        let lost = run.src.chance(1, 12) && !lose_input(run, &mut t, &d).is_empty();
        with(|b| b.set_tree(&t));
        let before = t.clone();
        let e = go(run, "attempt", &args, &plan)?;
        let after = with(|b| b.get_tree());
        if e.crashed {
            run.probe("crashed");
            t = if run.src.chance(1, 2) { power_loss(run, &before, &after) } else { after };
            if before != t {
                run.probe("crashed with something changed");
            }
        } else {
            t = after;
        }
        run.il(tree_hash(&t));
        run.state(tree_hash(&t));
        if run.src.chance(1, 5) {
            d = data(run.src.below(SETS), "T02")?;
            set_input(&mut t, &d);
            run.fault("input data updated between runs");
        } else if lost {
            set_input(&mut t, &d);
        }
        // the world may be moved or somebody may look around in it: an extra file in a table directory
        if run.src.chance(1, 8) {
            let dirs = all_dirs();
            let dir = *run.src.pick(&dirs);
            if t.get(&format!("world/{}", dir)) == Some(&Node::Dir) {
                let g = garbage(run);
                put(&mut t, &format!("world/{}/extra.orig", dir), Node::File(g));
                run.fault("foreign file in a table directory");
            }
        }
    }
    // now run to completion, with nothing worse than partial transfers and interruptions
    let mut todo: Vec<Vec<String>> = vec![];
    let mut sel: Vec<&'static str> = vec![];
    if touched.is_empty() || run.src.chance(1, 5) {
        todo.push(vec![]);
        sel = COMPONENTS.to_vec();
    } else {
        let mut left = touched.clone();
        while !left.is_empty() {
            let k = run.src.range(1, left.len());
            let mut one = vec![];
            for _ in 0..k {
                let i = run.src.below(left.len());
                let c = left.remove(i);
                one.push(c.to_string());
                sel.push(c);
            }
            todo.push(one);
        }
    }
    with(|b| b.set_tree(&t));
    for args in &todo {
        let mut plan = Plan::default();
        background(run, &mut plan);
        let e = go(run, "completion", args, &plan)?;
        check!(e.ok(), "cannot-recover", "unic-gen {:?} fails after {} interrupted runs: {}", args, attempts, e.describe());
    }
    let done = with(|b| b.get_tree());
    run.ev("tree", tree_hash(&done), 0);
    let bad = table_faults(&done, &d, &sel);
    check!(bad.is_empty(), "wrong-after-recovery", "after {} interrupted runs and completed runs of {:?}: {}", attempts, todo, list(&bad));
    // and again: nothing changes
    if run.src.chance(1, 3) {
        let i = run.src.below(todo.len());
        let mut plan = Plan::default();
        background(run, &mut plan);
        let e = go(run, "repetition", &todo[i], &plan)?;
        check!(e.ok(), "cannot-repeat", "unic-gen {:?} fails when repeated: {}", todo[i], e.describe());
        let again = with(|b| b.get_tree());
        let diff = differences(&done, &again);
        check!(diff.is_empty(), "repetition-changes", "repeating unic-gen {:?} changes things: {}", todo[i], list(&diff));
    }
    Ok(())
}

fn bad_arguments(run: &mut Run) -> Vec<String> {
    let (mut args, _) = selection(run);
    let wrong = match run.src.below(14) {
        0 => "".to_string(),
        1 => "UCD".into(),
        2 => "Normal".into(),
        3 => "../outside/precious".into(),
        4 => "ucd/".into(),
        5 => " ucd".into(),
        6 => "ucd ".into(),
        7 => "all".into(),
        8 => "ucd,normal".into(),
        9 => "--force".into(),
        10 => "-x".into(),
        11 => "emoj".into(),
        12 => "\u{ff55}cd".into(),
        _ => {
            let c = *run.src.pick(&COMPONENTS);
            let mut s: Vec<char> = c.chars().collect();
            let i = run.src.below(s.len());
            match run.src.below(3) {
                0 => { s.remove(i); }
                1 => s.insert(i, c.chars().next().unwrap()),
                _ => s[i] = s[i].to_ascii_uppercase(),
            }
            s.into_iter().collect()
        }
    };
    if args.first().map(|s| s == "--") == Some(true) {
        args.remove(0);
    }
    let at = run.src.below(args.len() + 1);
    args.insert(at, wrong);
    args
}

/// T03: nothing but the selected table directories changes, whatever happens.
pub fn contained(run: &mut Run) -> Res {
    let d = data(run.src.below(SETS), "T03")?;
    let mut t = fresh_world(run, &d, true, "T03")?;
    if run.src.chance(1, 6) {
        // something else where a table directory should be
        let dirs = all_dirs();
        let dir = format!("world/{}", run.src.pick(&dirs));
        cut(&mut t, &dir);
        let n = match run.src.below(3) {
            0 => Node::File(b"a file\n".to_vec()),
            1 => Node::Link("nowhere".into()),
            _ => Node::Link("Cargo.toml".into()),
        };
        put(&mut t, &dir, n);
    }
    if run.src.chance(1, 8) {
        lose_input(run, &mut t, &d);
    }
    run.il(tree_hash(&t));
    with(|b| b.set_tree(&t));
    let rounds = run.src.range(1, 2);
    for _ in 0..rounds {
        let kind = run.src.weighted(&[6, 1, 1]);
        let (args, sel) = match kind {
            0 => selection(run),
            1 => (bad_arguments(run), vec![]),
            _ => {
                let (mut a, _) = selection(run);
                a.retain(|s| s != "--");
                let at = run.src.below(a.len() + 1);
                a.insert(at, (*run.src.pick(&["--help", "-h", "--version", "-V"])).into());
                (a, vec![])
            }
        };
        let mut plan = Plan::default();
        let base = if sel.is_empty() { COMPONENTS.to_vec() } else { sel.clone() };
        if run.src.chance(1, 2) {
            crash_rule(run, &d, &base, &mut plan.rules);
        }
        if run.src.chance(2, 3) {
            fault_rules(run, &d, &base, &mut plan.rules);
        }
        background(run, &mut plan);
        let e = go(run, "run", &args, &plan)?;
        let after = with(|b| b.get_tree());
        run.ev("tree", tree_hash(&after), 0);
        run.state(tree_hash(&after));
        if e.crashed {
            run.probe("crashed");
        }
        check!(e.breaches == 0, "leaves-the-world", "unic-gen {:?} tried to change {:?}", args, e.breach);
        let dirs: Vec<String> = selected_dirs(&sel).iter().map(|d| format!("world/{}", d)).collect();
        let (mut a, mut b) = (t.clone(), after.clone());
        for dir in &dirs {
            cut(&mut a, dir);
            cut(&mut b, dir);
            // missing parents may be made
            let mut p = dir.as_str();
            while let Some(i) = p.rfind('/') {
                p = &p[..i];
                if !a.contains_key(p) && b.get(p) == Some(&Node::Dir) {
                    a.insert(p.to_string(), Node::Dir);
                }
            }
        }
        let odd: Vec<String> = with(|b| b.odd_modes.clone()).into_iter()
            .filter(|(k, _)| t.contains_key(k) && !dirs.iter().any(|d| k == d || k.starts_with(&format!("{}/", d))))
            .map(|(k, m)| format!("{} has permissions {:o}", k, m)).collect();
        check!(odd.is_empty(), "changes-permissions", "unic-gen {:?} ({}): {}", args, e.describe(), list(&odd));
        let diff = differences(&a, &b);
        check!(diff.is_empty(), "touches-other-files", "unic-gen {:?} ({}): {}", args, e.describe(), list(&diff));
        if kind == 1 {
            check!(!e.ok(), "wrong-component-accepted", "unic-gen {:?} succeeded", args);
        }
        if kind != 0 {
            let calls: u32 = [OPENW, MKDIR, RMDIR, UNLINK, RENAME, WFILE, CHMOD].iter().map(|&c| e.count[c as usize]).sum();
            check!(calls == 0, "changes-before-rejecting", "unic-gen {:?} makes {} changing calls", args, calls);
        }
        t = after;
    }
    Ok(())
}
