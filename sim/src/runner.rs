//! Batches, workers, minimisation, replay files, evidence.

use crate::core::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

// global: simulated workers are threads of their own (one at a time)
static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.lock().unwrap() = Some((loc, msg));
    }));
}

pub struct Outcome {
    pub verdict: Res,
    pub tape: Vec<u32>,
    pub hash: u64,
    pub events: u64,
    pub inter: u64,
    pub nontrivial: bool,
    pub log: Option<Vec<String>>,
}

pub fn execute(sc: &Scenario, src: Src, stats: &mut Stats, trace: bool) -> Outcome {
    let mut run = Run::new(src, stats, trace);
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (sc.run)(&mut run)));
    let verdict = match r {
        Ok(v) => v,
        Err(p) => {
            if p.is::<Injected>() {
                fail("injected-panic-escaped", "an injected failure escaped its handler".into())
            } else {
                let (loc, msg) = LAST_PANIC.lock().unwrap().take()
                    .unwrap_or(("?".into(), "panic".into()));
                let short: String = loc.rsplit("/repo/").next().unwrap_or("?").to_string();
                fail(&format!("panic@{}", short), format!("code panicked at {}: {}", loc, msg))
            }
        }
    };
    if let Err(ref v) = verdict {
        run.note(|| format!("VIOLATION [{}] {}", v.class, v.detail));
    }
    Outcome {
        verdict,
        hash: mix(run.hash, run.events),
        events: run.events,
        inter: mix(run.inter, hash_str(sc.name)),
        nontrivial: run.nontrivial,
        log: run.log.take(),
        tape: std::mem::take(&mut run.src.rec),
    }
}

pub fn run_seed(base: u64, sc: &Scenario, idx: u64) -> u64 {
    splitmix(mix(mix(splitmix(base), hash_str(sc.name)), idx))
}

// ---------------------------------------------------------------- worker

/// The run in progress (index + 1), watched by the hang watchdog.
static CURRENT: AtomicU64 = AtomicU64::new(0);

/// A single run takes well under a second; one that lasts this long does not terminate.
pub fn hang_secs() -> u64 {
    std::env::var("SIM_HANG_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(60)
}

fn watchdog(outfile: PathBuf) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let cur = CURRENT.load(Ordering::SeqCst);
            if cur != last {
                last = cur;
                since = Instant::now();
            } else if cur != 0 && since.elapsed() > Duration::from_secs(hang_secs()) {
                let _ = fs::write(&outfile, format!("{}", cur - 1));
                unsafe { libc_exit(77) }
            }
        }
    });
}

extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn limit_memory() {
    // RLIMIT_AS: a runaway allocation aborts the worker instead of the machine
    let lim: [u64; 2] = [6 << 30, 6 << 30];
    unsafe {
        setrlimit(9, &lim);
        let zero: [u64; 2] = [0, 0];
        setrlimit(4, &zero); // no core files
    }
}

/// `sim worker SCENARIO BASESEED FROM TO DEADLINE_MS OUT`
pub fn worker(sc: &Scenario, base: u64, from: u64, to: u64, deadline_ms: u64, out: &Path) -> i32 {
    limit_memory();
    let cur = out.with_extension("cur");
    watchdog(out.with_extension("hang"));
    let mut curf = fs::File::create(&cur).unwrap();
    let t0 = Instant::now();
    let mut stats = Stats::default();
    let mut inters: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut events = 0u64;
    let mut batch_hash = 0u64;
    let mut sample_hashes: Vec<u64> = vec![];
    let mut violation: Option<(u64, Violation)> = None;
    let mut done = 0u64;
    for i in from..to {
        if t0.elapsed().as_millis() as u64 > deadline_ms {
            break;
        }
        CURRENT.store(i + 1, Ordering::SeqCst);
        {
            use std::os::unix::fs::FileExt;
            let _ = curf.write_all_at(&(i + 1).to_le_bytes(), 0);
        }
        let o = execute(sc, Src::seeded(run_seed(base, sc, i)), &mut stats, false);
        done += 1;
        events += o.events;
        batch_hash = mix(batch_hash, o.hash);
        if sample_hashes.len() < 256 {
            sample_hashes.push(o.hash);
        }
        if o.nontrivial {
            nontrivial += 1;
            inters.insert(o.inter);
        }
        if let Err(v) = o.verdict {
            violation = Some((i, v));
            break;
        }
    }
    CURRENT.store(0, Ordering::SeqCst);
    let _ = curf.flush();
    let mut bin: Vec<u8> = vec![];
    for h in &inters {
        bin.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(out.with_extension("inter"), bin).unwrap();
    let mut bin: Vec<u8> = vec![];
    for h in &stats.states {
        bin.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(out.with_extension("states"), bin).unwrap();
    let j = json!({
        "done": done, "nontrivial": nontrivial, "events": events, "steps": stats.steps,
        "batch_hash": batch_hash, "sample_hashes": sample_hashes,
        "faults": stats.faults, "probes": stats.probes,
        "violation": violation.map(|(i, v)| json!({"idx": i, "class": v.class, "detail": v.detail})),
    });
    fs::write(out, serde_json::to_string(&j).unwrap()).unwrap();
    0
}

// ---------------------------------------------------------------- known findings

pub struct Known {
    pub property: String,
    pub class: String,
    pub contains: String,
    pub what: String,
}

pub fn known_findings(verif: &Path, prop: &str) -> Vec<Known> {
    let p = verif.join("known-findings.json");
    let Ok(s) = fs::read_to_string(&p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known-findings.json");
    v["findings"]
        .as_array()
        .unwrap()
        .iter()
        .filter(|e| e["property"] == prop)
        .map(|e| Known {
            property: prop.to_string(),
            class: e["class"].as_str().unwrap_or("-").to_string(),
            contains: e["contains"].as_str().unwrap_or("").to_string(),
            what: e["what"].as_str().unwrap().to_string(),
        })
        .collect()
}

// ---------------------------------------------------------------- replay files

pub fn write_replay(
    path: &Path, sc: &Scenario, base: u64, idx: u64, prefix: Option<(u64, u64)>, tape: &[u32],
    v: &Violation, trace: &[String], confirmed: bool,
) {
    let j = json!({
        "property": sc.property, "scenario": sc.name, "base_seed": base, "run": idx,
        "seed": run_seed(base, sc, idx),
        // earlier runs that must be executed first in the same process (only when the failure
        // depends on state the code under test keeps between operations)
        "prefix": prefix.map(|(a, b)| vec![a, b]),
        // with a prefix the decisions are drawn again from the seed
        "tape": if prefix.is_some() { Value::Null } else { json!(tape) }, "class": v.class, "detail": v.detail, "trace": trace,
        "confirmed_in_fresh_process": confirmed,
    });
    fs::write(path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

/// `sim replay FILE [--quiet]`: exit 1 when the violation is reproduced, 0 when not.
pub fn replay(find: &dyn Fn(&str) -> &'static Scenario, file: &Path, quiet: bool) -> i32 {
    limit_memory();
    let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("replay file")).expect("json");
    let sc = find(v["scenario"].as_str().unwrap());
    let hangf = file.with_extension("hang");
    let _ = fs::remove_file(&hangf);
    watchdog(hangf);
    CURRENT.store(1, Ordering::SeqCst);
    let mut stats = Stats::default();
    let base = v["base_seed"].as_u64().unwrap();
    if let Some(p) = v["prefix"].as_array() {
        for i in p[0].as_u64().unwrap()..p[1].as_u64().unwrap() {
            CURRENT.store(i + 2, Ordering::SeqCst);
            let _ = execute(sc, Src::seeded(run_seed(base, sc, i)), &mut stats, false);
        }
    }
    let src = match v["tape"].as_array() {
        Some(t) => Src::replay(t.iter().map(|x| x.as_u64().unwrap() as u32).collect()),
        None => Src::seeded(v["seed"].as_u64().unwrap()),
    };
    CURRENT.store(1, Ordering::SeqCst);
    let o = execute(sc, src, &mut stats, true);
    if !quiet {
        for l in o.log.unwrap_or_default() {
            println!("{}", l);
        }
    }
    match o.verdict {
        Err(e) => {
            println!("REPRODUCED property={} class={} {}", sc.property, e.class, e.detail);
            1
        }
        Ok(()) => {
            println!("not reproduced");
            0
        }
    }
}

// ---------------------------------------------------------------- minimisation

/// `sim shrink FILE`: minimises the tape of FILE in place, keeping the violation class.
/// Rewrites FILE whenever it gets better, so that an abort loses nothing.
pub fn shrink(find: &dyn Fn(&str) -> &'static Scenario, file: &Path, budget_ms: u64) -> i32 {
    limit_memory();
    let v: Value = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    let sc = find(v["scenario"].as_str().unwrap());
    let class = v["class"].as_str().unwrap().to_string();
    let base = v["base_seed"].as_u64().unwrap();
    let idx = v["run"].as_u64().unwrap();
    let mut best: Vec<u32> =
        v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    watchdog(file.with_extension("shrinkhang"));
    let t0 = Instant::now();
    let mut n = 0u64;
    let mut stats = Stats::default();
    let mut best_v: Option<Violation> = None;
    let mut try_tape = |t: &[u32]| -> Option<(Vec<u32>, Violation)> {
        n += 1;
        CURRENT.store(n, Ordering::SeqCst);
        stats.states.clear();
        let o = execute(sc, Src::replay(t.to_vec()), &mut stats, false);
        match o.verdict {
            Err(e) if e.class == class => {
                let mut tape = o.tape;
                while tape.last() == Some(&0) {
                    tape.pop();
                }
                Some((tape, e))
            }
            _ => None,
        }
    };
    let better = |a: &Vec<u32>, b: &Vec<u32>| -> bool { (a.len(), a) < (b.len(), b) };
    let mut improved = true;
    let mut passes = 0;
    while improved && (t0.elapsed().as_millis() as u64) < budget_ms {
        improved = false;
        passes += 1;
        // 1. delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed().as_millis() as u64 > budget_ms {
                    break;
                }
                let end = (i + size).min(best.len());
                let mut cand = best[..i].to_vec();
                cand.extend_from_slice(&best[end..]);
                match try_tape(&cand) {
                    Some((t, e)) if better(&t, &best) => {
                        best = t;
                        best_v = Some(e);
                        improved = true;
                    }
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // 2. lower values
        let mut i = 0;
        while i < best.len() {
            if t0.elapsed().as_millis() as u64 > budget_ms {
                break;
            }
            if best[i] > 0 {
                let old = best[i];
                for cand_v in [0, old / 2, old.saturating_sub(1)] {
                    if cand_v >= best.get(i).copied().unwrap_or(0) {
                        continue;
                    }
                    let mut cand = best.clone();
                    cand[i] = cand_v;
                    if let Some((t, e)) = try_tape(&cand) {
                        if better(&t, &best) {
                            best = t;
                            best_v = Some(e);
                            improved = true;
                            if i >= best.len() {
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        // 3. delete an element while lowering an earlier one (lists with a length prefix)
        if passes <= 3 {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed().as_millis() as u64 > budget_ms {
                    break;
                }
                let mut hit = false;
                if best[i] > 0 {
                    for d in 1..=8usize {
                        for k in 1..=3usize {
                            if i + d + k > best.len() {
                                continue;
                            }
                            let mut cand = best.clone();
                            cand[i] -= 1;
                            cand.drain(i + d..i + d + k);
                            if let Some((t, e)) = try_tape(&cand) {
                                if better(&t, &best) {
                                    best = t;
                                    best_v = Some(e);
                                    improved = true;
                                    hit = true;
                                    break;
                                }
                            }
                        }
                        if hit {
                            break;
                        }
                    }
                }
                if !hit {
                    i += 1;
                }
            }
        }
        if improved {
            if let Some(ref e) = best_v {
                write_replay(file, sc, base, idx, None, &best, e, &[], false);
            }
        }
    }
    // final traced execution
    CURRENT.store(n + 1, Ordering::SeqCst);
    let o = execute(sc, Src::replay(best.clone()), &mut stats, true);
    if let Err(e) = o.verdict {
        write_replay(file, sc, base, idx, None, &best, &e, &o.log.unwrap_or_default(), false);
        println!("shrunk to {} decisions with {} executions", best.len(), n);
        0
    } else {
        1
    }
}

// ---------------------------------------------------------------- the check

struct Batch {
    done: u64,
    nontrivial: u64,
    events: u64,
    steps: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    inters: HashSet<u64>,
    states: HashSet<u64>,
    wall: f64,
}

fn read_hashes(p: &Path, into: &mut HashSet<u64>) {
    if let Ok(b) = fs::read(p) {
        for c in b.chunks_exact(8) {
            into.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

fn add_counts(into: &mut BTreeMap<String, u64>, v: &Value) {
    if let Some(m) = v.as_object() {
        for (k, n) in m {
            *into.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
    }
}

pub fn sim_exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

fn spawn_worker(sc: &Scenario, base: u64, from: u64, to: u64, deadline: u64, out: &Path) -> std::process::Child {
    Command::new(sim_exe())
        .args(["worker", sc.name, &base.to_string(), &from.to_string(), &to.to_string(), &deadline.to_string()])
        .arg(out)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::inherit())
        .spawn()
        .expect("spawn worker")
}

fn load(out: &Path) -> Option<Value> {
    serde_json::from_str(&fs::read_to_string(out).ok()?).ok()
}

/// Executes one replay file in a fresh process; Some(class-reproduced?)
fn confirm(file: &Path) -> bool {
    let st = Command::new(sim_exe())
        .arg("replay")
        .arg(file)
        .arg("--quiet")
        .stdin(Stdio::null())
        .output()
        .expect("replay");
    match st.status.code() {
        Some(1) => true,
        Some(77) => true, // watchdog: does not terminate
        Some(_) => false,
        None => true, // killed by a signal: abort, stack overflow, out of memory
    }
}

pub struct Cfg {
    pub base: u64,
    pub tier: String,
    pub verif: PathBuf,
    pub workers: u64,
    pub wall_cap_ms: u64,
}

pub fn check(prop: &str, scs: &[&'static Scenario], cfg: &Cfg, level: &str) -> i32 {
    let t0 = Instant::now();
    let scratch = cfg.verif.join("scratch").join(format!("{}-{}", prop, std::process::id()));
    let _ = fs::remove_dir_all(&scratch);
    fs::create_dir_all(&scratch).unwrap();
    let replays = cfg.verif.join("replays");
    fs::create_dir_all(&replays).unwrap();
    let known = known_findings(&cfg.verif, prop);
    let thorough = cfg.tier == "thorough";
    println!("{}: VERIF_SEED={} tier={} workers={}", prop, cfg.base, cfg.tier, cfg.workers);

    let mut all: Vec<(&'static Scenario, Batch)> = vec![];
    let mut violations = 0i64;
    let mut harness_error: Option<String> = None;
    let mut det = Map::new();
    let mut samples: Vec<Value> = vec![];
    let mut shortened = false;

    'sc: for sc in scs.iter() {
        let ts = Instant::now();
        let mut total = if thorough { sc.thorough } else { sc.quick };
        if let Some(f) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse::<u64>().ok()) {
            total = f;
        }
        let w = cfg.workers.min(total.max(1));
        let remaining_sc = (scs.len() - all.len()) as u64;
        let used = t0.elapsed().as_millis() as u64;
        let deadline = (cfg.wall_cap_ms.saturating_sub(used) / remaining_sc).max(2000);
        let mut kids = vec![];
        for k in 0..w {
            let from = total * k / w;
            let to = total * (k + 1) / w;
            let out = scratch.join(format!("{}-{}.json", sc.name, k));
            kids.push((from, to, out.clone(), spawn_worker(sc, cfg.base, from, to, deadline, &out)));
        }
        let mut b = Batch {
            done: 0, nontrivial: 0, events: 0, steps: 0, faults: BTreeMap::new(), probes: BTreeMap::new(),
            inters: HashSet::new(), states: HashSet::new(), wall: 0.0,
        };
        let mut bad: Option<(u64, u64, Violation)> = None; // (idx, from, violation)
        let note = |idx: u64, from: u64, v: Violation, bad: &mut Option<(u64, u64, Violation)>| {
            if bad.as_ref().map_or(true, |x| idx < x.0) {
                *bad = Some((idx, from, v));
            }
        };
        let mut first_hashes: Vec<(u64, u64, Vec<u64>)> = vec![];
        for (from, to, out, mut kid) in kids {
            let st = kid.wait().expect("wait");
            if st.code() == Some(0) {
                let j = load(&out).expect("worker result");
                b.done += j["done"].as_u64().unwrap();
                b.nontrivial += j["nontrivial"].as_u64().unwrap();
                b.events += j["events"].as_u64().unwrap();
                b.steps += j["steps"].as_u64().unwrap();
                add_counts(&mut b.faults, &j["faults"]);
                add_counts(&mut b.probes, &j["probes"]);
                read_hashes(&out.with_extension("inter"), &mut b.inters);
                read_hashes(&out.with_extension("states"), &mut b.states);
                let hs: Vec<u64> =
                    j["sample_hashes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                if let Some(v) = j["violation"].as_object() {
                    note(
                        v["idx"].as_u64().unwrap(),
                        from,
                        Violation {
                            class: v["class"].as_str().unwrap().into(),
                            detail: v["detail"].as_str().unwrap().into(),
                        },
                        &mut bad,
                    );
                } else {
                    if j["done"].as_u64().unwrap() < to - from {
                        shortened = true;
                    }
                }
                first_hashes.push((from, from + hs.len() as u64, hs));
            } else if st.code() == Some(77) {
                let idx: u64 = fs::read_to_string(out.with_extension("hang")).unwrap().trim().parse().unwrap();
                note(idx, from, Violation { class: "hang".into(), detail: format!("no answer within {} s", hang_secs()) }, &mut bad);
            } else {
                let cur = fs::read(out.with_extension("cur")).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes);
                match cur {
                    Some(c) if c > 0 => note(
                        c - 1,
                        from,
                        Violation { class: "abort".into(), detail: format!("the process died: {:?}", st) },
                        &mut bad,
                    ),
                    _ => harness_error = Some(format!("worker failed: {:?}", st)),
                }
            }
        }
        if harness_error.is_some() {
            break 'sc;
        }

        if let Some((idx, from, v)) = bad {
            println!("{}: scenario {} run {} failed: [{}] {}", prop, sc.name, idx, v.class, v.detail);
            let file = replays.join(format!("{}-{}-s{}-r{}.json", prop, sc.name, cfg.base, idx));
            let seed = run_seed(cfg.base, sc, idx);
            let (_, confirmed) = report(sc, cfg, idx, from, seed, &v, &file);
            let fv = load(&file).unwrap();
            let class = fv["class"].as_str().unwrap().to_string();
            let detail = fv["detail"].as_str().unwrap().to_string();
            if let Some(k) = known.iter().find(|k| k.class == class && detail.contains(&k.contains)) {
                println!("KNOWN-FINDING: property={} {}", k.property, k.what);
            } else {
                if !confirmed {
                    // A failure we cannot replay is a harness problem, not a finding.
                    println!("{}: the failure did not replay in a fresh process; see {}", prop, file.display());
                    harness_error = Some("unreplayable failure".into());
                } else {
                    violations += 1;
                    println!("{}: minimised: [{}] {}", prop, class, detail);
                    for l in fv["trace"].as_array().unwrap().iter().take(80) {
                        println!("    {}", l.as_str().unwrap());
                    }
                    println!("VIOLATION property={} replay={}", prop, file.display());
                }
            }
            b.wall = ts.elapsed().as_secs_f64();
            all.push((sc, b));
            break 'sc;
        }

        // determinism self-check: re-execute the first runs of every worker, in other processes and
        // with another partition, and compare event-log hashes
        let mut redo = 0u64;
        let mut diff = 0u64;
        let n_re = if thorough { 256 } else { 64 };
        let mut kids = vec![];
        for (k, (from, to, hs)) in first_hashes.iter().enumerate() {
            let to = (*to).min(from + n_re);
            if to == *from {
                continue;
            }
            let mid = from + (to - from) / 3;
            for (j, (a, z)) in [(*from, mid), (mid, to)].into_iter().enumerate() {
                if a == z {
                    continue;
                }
                let out = scratch.join(format!("{}-re{}-{}.json", sc.name, k, j));
                let kid = spawn_worker(sc, cfg.base, a, z, 60_000, &out);
                kids.push((a, from, hs, out, kid));
            }
        }
        for (a, from, hs, out, mut kid) in kids {
            kid.wait().unwrap();
            let Some(j) = load(&out) else {
                harness_error = Some("determinism self-check worker died".into());
                continue;
            };
            for (i, h) in j["sample_hashes"].as_array().unwrap().iter().enumerate() {
                redo += 1;
                if hs[(a - from) as usize + i] != h.as_u64().unwrap() {
                    diff += 1;
                }
            }
        }
        det.insert(sc.name.into(), json!({"runs_executed_twice": redo, "event_log_hash_differs": diff}));
        if diff > 0 {
            harness_error = Some(format!("scenario {} is not deterministic: {} of {} runs differ", sc.name, diff, redo));
        }
        // one written-out sample
        let mut stats = Stats::default();
        for i in 0..200u64 {
            let o = execute(sc, Src::seeded(run_seed(cfg.base, sc, i)), &mut stats, true);
            if o.nontrivial || i == 199 {
                let mut log = o.log.unwrap_or_default();
                let n = log.len();
                log.truncate(40);
                samples.push(json!({
                    "scenario": sc.name, "run": i, "seed": run_seed(cfg.base, sc, i),
                    "decisions": o.tape.len(), "trace_lines": n, "trace": log}));
                break;
            }
        }
        b.wall = ts.elapsed().as_secs_f64();
        println!(
            "{}: {:<22} {} runs, {} events, {} distinct schedules, {} states, {:.1} s, faults {:?}",
            prop, sc.name, b.done, b.events, b.inters.len(), b.states.len(), b.wall, b.faults
        );
        all.push((sc, b));
        if harness_error.is_some() {
            break 'sc;
        }
    }
    let _ = fs::remove_dir_all(&scratch);

    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let done: u64 = all.iter().map(|x| x.1.done).sum();
    let events: u64 = all.iter().map(|x| x.1.events).sum();
    let distinct: u64 = all.iter().map(|x| x.1.inters.len() as u64).sum();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    for (_, b) in &all {
        for (k, v) in &b.faults {
            *faults.entry(k.clone()).or_insert(0) += v;
        }
    }
    let mut per = Map::new();
    for (sc, b) in &all {
        per.insert(
            sc.name.into(),
            json!({
                "runs": b.done, "nontrivial_runs": b.nontrivial, "distinct_schedules": b.inters.len(),
                "distinct_states": b.states.len(), "measure": sc.measure,
                "simulated_time": b.events, "simulated_time_unit": sc.time_unit,
                "fault_kinds_fired": b.faults, "probes_hit": b.probes, "wall_s": b.wall,
                "rule": sc.rule,
                "ran_real_code": sc.real, "ran_a_stub": sc.stub,
            }),
        );
    }
    let ev = json!({
        "property": prop, "tier": cfg.tier, "seed": cfg.base, "level": level,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": distinct,
            "rule": "one evaluation is one simulated run (one seed); counted as distinct and non-trivial when it made at least one schedule or fault decision that took effect and its decision history (hash, by the scenario's measure) was not seen before in this batch",
            "samples": samples,
            "runs_per_hour": (done as f64 / wall * 3600.0) as u64,
            "seeds_per_hour": (done as f64 / wall * 3600.0) as u64,
            "simulated_events": events,
            "fault_kinds_fired": faults,
            "determinism_self_check": det,
            "scenarios": per,
            "shortened_by_wall_clock_cap": shortened,
            "exhaustive": false,
        },
        "assumptions": [
            "a clean batch is evidence from sampling, not proof",
            "reference category/mapping data are frozen copies of the Unicode 10 tables (normalization data cross-checked against Python's unicodedata for the characters of Unicode 10)"
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let evp = cfg.verif.join("evidence").join(format!("{}.json", prop));
    fs::create_dir_all(evp.parent().unwrap()).unwrap();
    fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()).unwrap();

    if violations > 0 {
        return 1;
    }
    if let Some(e) = harness_error {
        println!("{}: HARNESS ERROR: {}", prop, e);
        return 2;
    }
    println!("{}: held on {} simulated runs ({:.0} s)", prop, done, wall);
    0
}

/// Writes, minimises and confirms a replay file; returns (file, confirmed).
fn report(sc: &'static Scenario, cfg: &Cfg, idx: u64, from: u64, seed: u64, v: &Violation, file: &Path) -> (PathBuf, bool) {
    let external = v.class == "hang" || v.class == "abort";
    // the tape of the failing run: generated from its seed up to the failure
    let tape: Vec<u32> = if external {
        // cannot execute it here; record a generous stretch of its stream by drawing in a child
        let out = file.with_extension("tape");
        let st = Command::new(sim_exe())
            .args(["tape", sc.name, &cfg.base.to_string(), &idx.to_string()])
            .arg(&out)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        let _ = st;
        let t = fs::read(&out)
            .unwrap_or_default()
            .chunks_exact(4)
            .map(|c| u32::from_le_bytes(c.try_into().unwrap()))
            .collect();
        let _ = fs::remove_file(&out);
        t
    } else {
        let mut stats = Stats::default();
        let o = execute(sc, Src::seeded(seed), &mut stats, false);
        o.tape
    };
    write_replay(file, sc, cfg.base, idx, None, &tape, v, &[], false);
    let mut ok = confirm(file);
    let original = fs::read_to_string(file).unwrap();
    if ok && !external {
        let _ = Command::new(sim_exe())
            .arg("shrink")
            .arg(file)
            .arg("40000")
            .stdin(Stdio::null())
            .status();
        if !confirm(file) {
            // minimisation went astray (process-global state): keep the unminimised run
            fs::write(file, original).unwrap();
            ok = confirm(file);
        }
    } else if !ok {
        // depends on what ran before in the same process
        let mut len = 1u64;
        loop {
            let a = idx.saturating_sub(len).max(from);
            write_replay(file, sc, cfg.base, idx, Some((a, idx)), &tape, v, &[], false);
            if confirm(file) {
                ok = true;
                break;
            }
            if a == from {
                break;
            }
            len *= 4;
        }
    }
    if ok {
        // stamp it
        let mut j = load(file).unwrap();
        j["confirmed_in_fresh_process"] = Value::Bool(true);
        fs::write(file, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    }
    (file.to_path_buf(), ok)
}

/// `sim tape SCENARIO BASE IDX OUT`: runs one seed, streaming its decisions to OUT (used when the run
/// itself kills or hangs the process).
pub fn tape(sc: &Scenario, base: u64, idx: u64, out: &Path) -> i32 {
    limit_memory();
    watchdog(out.with_extension("hang"));
    CURRENT.store(idx + 1, Ordering::SeqCst);
    *TAPE_OUT.lock().unwrap() = Some(fs::File::create(out).unwrap());
    let mut stats = Stats::default();
    let mut src = Src::seeded(run_seed(base, sc, idx));
    src.stream = true;
    let _ = execute(sc, src, &mut stats, false);
    0
}

static TAPE_OUT: Mutex<Option<fs::File>> = Mutex::new(None);

pub fn stream_draw(v: u32) {
    if let Some(f) = TAPE_OUT.lock().unwrap().as_mut() {
        let _ = f.write_all(&v.to_le_bytes());
    }
}
