//! W03: the command-line programs over the simulated kernel.

use crate::check;
use crate::core::*;
use crate::scen::norm::norm_text;
use crate::scen::sysos::*;
use crate::scen::text::*;
use crate::scen::writers::{expected, Fmt};
use unic::char::property::EnumeratedCharProperty;
use unic::ucd::{name_aliases_of, GeneralCategory, Name, NameAliasType};

struct Job {
    bin: &'static str,
    args: Vec<String>,
    /// What the output must be, computed without the program (None: it must fail and print nothing).
    model: Model,
}

enum Model {
    Exactly(Vec<u8>),
    /// each of these in this order
    InOrder(Vec<String>),
    Fails,
    Unknown,
}

/// The beginning of something long.
pub fn brief(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(240)]);
    if b.len() > 240 { format!("{}... ({} bytes)", esc(&s), b.len()) } else { esc(&s).to_string() }
}

fn show_args(a: &[String]) -> String {
    a.iter().map(|a| brief(a.as_bytes())).collect::<Vec<_>>().join(" ")
}

/// One string per argument, without NUL.
fn words(run: &mut Run, limit: usize) -> Vec<String> {
    let n = match run.src.below(8) {
        0 => 0,
        1..=4 => 1,
        5 | 6 => 2,
        _ => run.src.range(3, 6),
    };
    let long = run.src.chance(1, 6);
    (0..n)
        .map(|_| {
            let mut s: String = match run.src.below(4) {
                0 => "ab".into(),
                1 => norm_text(run, 8).into_iter().collect(),
                2 => grapheme_text(run, 8),
                _ => word_text(run, 12),
            };
            s.retain(|c| c != '\0');
            if s.starts_with('-') {
                s.insert(0, 'x');
            }
            if long && !s.is_empty() {
                let k = run.src.range(1, 400);
                s = s.repeat(k);
                if s.len() > limit {
                    let mut at = limit;
                    while !s.is_char_boundary(at) {
                        at -= 1;
                    }
                    s.truncate(at);
                }
                // newlines make the standard output flush in the middle
                if run.src.chance(1, 2) {
                    let at = run.src.below(s.len() + 1);
                    let at = (0..=at).rev().find(|&i| s.is_char_boundary(i)).unwrap();
                    s.insert(at, '\n');
                }
            }
            s
        })
        .collect()
}

/// A text whose length is at the edge of what buffers usually hold.
fn exactly(run: &mut Run) -> String {
    let n = *run.src.pick(&[1024usize, 1024, 1024, 2048, 4096, 8192, 8192, 8192, 16384, 32768, 65536]) + run.src.below(6) - 3;
    let c = *run.src.pick(&["a", "a", "é", "漢", "𝒳", "a\n"]);
    let mut s = "a".repeat(n % c.len());
    let head = run.src.chance(1, 2);
    let body = c.repeat(n / c.len());
    if head {
        s += &body;
    } else {
        s = body + &s;
    }
    s
}

const OUTS: [(&str, Option<Fmt>); 14] = [
    ("plain", None), ("codepoint", Some(Fmt::Codepoints)), ("codepoints", Some(Fmt::Codepoints)), ("utf8-hex", Some(Fmt::Utf8)),
    ("utf16-hex", Some(Fmt::Utf16)), ("braces-escape", Some(Fmt::Braces)), ("js6-escape", Some(Fmt::Braces)),
    ("rust-escape", Some(Fmt::Braces)), ("braces-escape-all", Some(Fmt::BracesAll)), ("js6-escape-all", Some(Fmt::BracesAll)),
    ("rust-escape-all", Some(Fmt::BracesAll)), ("braces-escape-control", Some(Fmt::BracesControl)),
    ("js6-escape-control", Some(Fmt::BracesControl)), ("rust-escape-control", Some(Fmt::BracesControl)),
];

fn echo(run: &mut Run) -> Job {
    let w = if run.src.chance(1, 12) { vec![exactly(run)] } else { words(run, 20_000) };
    let text = w.join(" ");
    let mut args: Vec<String> = vec![];
    // (which option, its value) in a random order
    let newline = !run.src.chance(1, 3);
    let mut opts: Vec<Vec<String>> = vec![];
    if !newline {
        opts.push(vec![(*run.src.pick(&["-n", "--no-newline"])).into()]);
    }
    let mut f = None;
    if run.src.chance(3, 4) {
        let (name, ff) = OUTS[run.src.below(OUTS.len())];
        f = ff;
        opts.push(match run.src.below(3) {
            0 => vec!["-o".into(), name.into()],
            1 => vec!["--output".into(), name.into()],
            _ => vec![format!("--output={}", name)],
        });
    }
    // the input may be given in a coded form; then the words are codes
    let coded = !text.is_empty() && text.chars().count() < 8_000 && run.src.chance(1, 4);
    let chars: Vec<char> = text.chars().collect();
    let mut pos: Vec<String> = w;
    if coded {
        let (name, ff) = *run.src.pick(&[("codepoints", Fmt::Codepoints), ("codepoint", Fmt::Codepoints), ("utf8-hex", Fmt::Utf8), ("utf16-hex", Fmt::Utf16)]);
        opts.push(vec!["-i".into(), name.into()]);
        let code = expected(ff, &chars);
        pos = if run.src.chance(1, 2) { code.split(' ').map(|s| s.to_string()).collect() } else { vec![code] };
    } else if run.src.chance(1, 4) {
        opts.push(vec!["--input=plain".into()]);
    }
    let bad = run.src.chance(1, 20);
    let mut model = None;
    if bad {
        model = Some(Model::Fails);
        match run.src.below(4) {
            0 => opts.push(vec!["--output=nonsense".into()]),
            1 => opts.push(vec!["--unknown".into()]),
            2 => {
                opts = vec![vec!["-i".into(), "codepoints".into()]];
                pos = vec!["D800".into()];
            }
            _ => {
                opts = vec![vec!["-i".into(), "utf8-hex".into()]];
                pos = vec!["C3".into()];
            }
        }
    } else if run.src.chance(1, 20) {
        opts = vec![vec![(*run.src.pick(&["--help", "-h", "--version", "-V"])).into()]];
        model = Some(Model::Unknown);
    }
    while !opts.is_empty() {
        let i = run.src.below(opts.len());
        args.extend(opts.remove(i));
    }
    if !pos.is_empty() {
        args.push("--".into());
        args.extend(pos);
    }
    let mut full = match f {
        None => text.into_bytes(),
        Some(f) => expected(f, &chars).into_bytes(),
    };
    if newline {
        full.push(b'\n');
    }
    Job { bin: "unic-echo", args, model: model.unwrap_or(Model::Exactly(full)) }
}

fn inspector(run: &mut Run) -> Job {
    let w = words(run, 600);
    if run.src.chance(1, 30) {
        let a = *run.src.pick(&["--help", "-V", "--nonsense"]);
        return Job { bin: "unic-inspector", args: vec![a.into()], model: if a == "--nonsense" { Model::Fails } else { Model::Unknown } };
    }
    let text: String = w.join(" ");
    let mut parts = vec![];
    for c in text.chars() {
        parts.push(format!("U+{:04X}", c as u32));
        let name = Name::of(c).map(|n| n.to_string()).unwrap_or_else(|| {
            name_aliases_of(c, NameAliasType::NameAbbreviations).map(|a| a[0].to_string()).unwrap_or("<none>".into())
        });
        parts.push(name);
        parts.push(GeneralCategory::of(c).long_name().to_string());
    }
    let mut args = vec!["--".to_string()];
    args.extend(w);
    Job { bin: "unic-inspector", args, model: Model::InOrder(parts) }
}

fn versions(_: &mut Run) -> Job {
    let v = |v: unic::ucd::UnicodeVersion| format!("Unicode Version: {}.{}.{}", v.major, v.minor, v.micro);
    let mut parts = vec![format!("Package: unic ({})\n", unic::PKG_VERSION)];
    for (d, n, p) in [
        (unic::char::PKG_DESCRIPTION, unic::char::PKG_NAME, None),
        (unic::ucd::PKG_DESCRIPTION, unic::ucd::PKG_NAME, Some(v(unic::ucd::UNICODE_VERSION))),
        (unic::bidi::PKG_DESCRIPTION, unic::bidi::PKG_NAME, Some(v(unic::bidi::UNICODE_VERSION))),
        (unic::normal::PKG_DESCRIPTION, unic::normal::PKG_NAME, Some(v(unic::normal::UNICODE_VERSION))),
        (unic::idna::PKG_DESCRIPTION, unic::idna::PKG_NAME, Some(v(unic::idna::UNICODE_VERSION))),
        (unic::emoji::PKG_DESCRIPTION, unic::emoji::PKG_NAME, Some("Emoji Version: ".into())),
    ] {
        parts.push(format!("Component: {}\n", d));
        parts.push(n.to_string());
        parts.extend(p);
    }
    Job { bin: "unic-versions", args: vec![], model: Model::InOrder(parts) }
}

fn strip_styles(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
            i += 2;
            while i < b.len() && !b[i].is_ascii_alphabetic() {
                i += 1;
            }
        } else {
            v.push(b[i]);
        }
        i += 1;
    }
    v
}

pub fn output_rules(run: &mut Run) -> Vec<Rule> {
    let mut rules = vec![];
    for _ in 0..run.src.weighted(&[1, 4, 2, 1]) {
        let nth = run.src.geo(12) as u32;
        let sticky = if run.src.chance(1, 2) { 1_000_000 } else { 0 };
        rules.push(match run.src.weighted(&[4, 4, 6, 1, 1]) {
            0 => Rule { cls: WOUT, nth, act: SHORT, arg: run.src.below(4096) as u32, ..Rule::default() },
            1 => Rule { cls: WOUT, nth, act: ERR, arg: EINTR, sticky: run.src.below(5) as u32, ..Rule::default() },
            2 => Rule { cls: WOUT, nth, act: ERR, arg: *run.src.pick(&[ENOSPC, EPIPE, EIO, EAGAIN, EDQUOT, EFBIG]), sticky, ..Rule::default() },
            3 => Rule { cls: WERR, nth: run.src.below(3) as u32, act: ERR, arg: *run.src.pick(&[EIO, EPIPE, ENOSPC]), sticky, ..Rule::default() },
            _ => Rule { cls: ALLOC, nth: run.src.below(3000) as u32, act: ERR, arg: ENOMEM, sticky: if sticky > 0 { 3 } else { 0 }, ..Rule::default() },
        });
    }
    rules
}

pub fn background(run: &mut Run, plan: &mut Plan) {
    plan.rnd_seed = run.src.below(1 << 20) as u64;
    plan.bg_seed = run.src.below(1 << 20) as u64;
    if run.src.chance(1, 2) {
        plan.bg_short = *run.src.pick(&[50, 200, 600, 950]);
    }
    if run.src.chance(1, 2) {
        plan.bg_eintr = *run.src.pick(&[50, 200, 500]);
    }
}

pub fn tools(run: &mut Run) -> Res {
    let job = match run.src.weighted(&[6, 4, 1]) {
        0 => echo(run),
        1 => inspector(run),
        _ => versions(run),
    };
    let tty = run.src.chance(1, 12);
    let lang = *run.src.pick(&[("LANG", "C"), ("LANG", "de_DE.UTF-8"), ("TERM", "xterm"), ("RUST_BACKTRACE", "0"), ("COLUMNS", "40")]);
    run.note(|| format!("{} {} tty={} env {:?}", job.bin, show_args(&job.args), tty, lang));
    run.il(hash_str(job.bin));
    for a in &job.args {
        run.il(hash_str(a));
    }
    with(|b| b.set_tree(&Tree::new()));
    let env = [lang];
    // 1. undisturbed
    let calm = with(|b| b.spawn(job.bin, &job.args, "", &Plan { tty, ..Plan::default() }, &env));
    run.ev("calm", calm.code.unwrap_or(-1) as u64, calm.hash);
    check!(!calm.overrun && calm.signal.is_none(), "undisturbed-run-dies", "{} {} undisturbed: {}", job.bin, show_args(&job.args), calm.describe());
    let plain = if tty { strip_styles(&calm.out) } else { calm.out.clone() };
    match &job.model {
        Model::Exactly(full) => {
            check!(calm.ok(), "undisturbed-run-fails", "{} {} undisturbed: {}", job.bin, show_args(&job.args), calm.describe());
            check!(plain == *full, "wrong-output", "{} {}: printed {}, expected {}", job.bin, show_args(&job.args),
                brief(&plain), brief(full));
        }
        Model::InOrder(parts) => {
            check!(calm.ok(), "undisturbed-run-fails", "{} {} undisturbed: {}", job.bin, show_args(&job.args), calm.describe());
            let s = String::from_utf8_lossy(&plain).into_owned();
            let mut at = 0;
            for p in parts {
                match s[at..].find(p.as_str()) {
                    Some(i) => at += i + p.len(),
                    None => return fail("wrong-output", format!("{} {}: {:?} is missing at byte {}, where there is {}", job.bin, show_args(&job.args), p, at, brief(s[at..].as_bytes()))),
                }
            }
        }
        Model::Fails => {
            check!(!calm.ok(), "bad-arguments-accepted", "{} {} succeeded", job.bin, show_args(&job.args));
            check!(calm.out.is_empty(), "bad-arguments-print", "{} {:?} failed but printed {}", job.bin, show_args(&job.args), brief(&calm.out));
        }
        Model::Unknown => check!(calm.ok() && !plain.is_empty(), "undisturbed-run-fails", "{} {} undisturbed: {}", job.bin, show_args(&job.args), calm.describe()),
    }
    // 2. the same under faults, a few times
    let rounds = run.src.range(1, 3);
    for _ in 0..rounds {
        let mut plan = Plan { tty, rules: output_rules(run), ..Plan::default() };
        background(run, &mut plan);
        let e = with(|b| b.spawn(job.bin, &job.args, "", &plan, &env));
        account(run, "run", &e);
        run.note(|| format!("  plan {:?}\n  -> {}, {} of {} bytes delivered", plan.rules.iter().map(rule_name).collect::<Vec<_>>(), e.describe(), e.out.len(), calm.out.len()));
        let who = || format!("{} {}: {}; {} of {} bytes delivered", job.bin, show_args(&job.args), e.describe(), e.out.len(), calm.out.len());
        check!(!e.overrun && e.signal != Some(24), "tool-hangs", "never ends: {}", who());
        check!(e.signal.is_none() || e.signal == Some(6) && e.alloc_failed(), "tool-dies", "killed by a signal: {}", who());
        check!(e.breaches == 0, "tool-touches-files", "{} tried to change {:?}", job.bin, e.breach);
        check!(calm.out.starts_with(&e.out), "not-a-prefix", "delivered bytes are not a prefix of the output: {} got {:?}", who(),
            String::from_utf8_lossy(&e.out[e.out.len().saturating_sub(80)..]));
        if e.ok() {
            check!(calm.ok(), "bad-arguments-accepted", "succeeded only under faults: {}", who());
            // help and version texts are the argument parser's: clap drops their output errors on purpose
            check!(e.out.len() == calm.out.len() || matches!(job.model, Model::Unknown) && e.harmed(), "success-without-output", "exited with success but lost output: {}", who());
        }
        if !e.harmed() {
            check!(e.ok() == calm.ok() && e.out == calm.out, "transient-fault-fails", "only partial transfers and interruptions, yet: {}", who());
        }
        if e.harmed() && !e.ok() {
            run.probe("failure reported");
        }
        if !e.out.is_empty() && e.out.len() < calm.out.len() {
            run.probe("strict prefix delivered");
        }
    }
    let left = with(|b| b.get_tree());
    check!(left.is_empty(), "tool-touches-files", "{} left files behind: {:?}", job.bin, left.keys().collect::<Vec<_>>());
    Ok(())
}
