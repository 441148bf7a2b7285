//! W02: the command-line library's writers over a simulated output device.

use crate::check;
use crate::core::*;
use crate::scen::norm::norm_text;
use crate::scen::text::*;
use std::io::{self, Write};
use unic_cli::{parsers, writers};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    Codepoints,
    Utf8,
    Utf16,
    Braces,
    BracesControl,
    BracesAll,
    OneCodepoint,
    OneUtf8,
    OneUtf16,
}
const FMTS: [Fmt; 9] = [
    Fmt::Codepoints, Fmt::Utf8, Fmt::Utf16, Fmt::Braces, Fmt::BracesControl, Fmt::BracesAll, Fmt::OneCodepoint, Fmt::OneUtf8, Fmt::OneUtf16,
];

fn utf8(c: char) -> Vec<u32> {
    let c = c as u32;
    match c {
        0..=0x7F => vec![c],
        0x80..=0x7FF => vec![0xC0 | c >> 6, 0x80 | c & 0x3F],
        0x800..=0xFFFF => vec![0xE0 | c >> 12, 0x80 | c >> 6 & 0x3F, 0x80 | c & 0x3F],
        _ => vec![0xF0 | c >> 18, 0x80 | c >> 12 & 0x3F, 0x80 | c >> 6 & 0x3F, 0x80 | c & 0x3F],
    }
}
fn utf16(c: char) -> Vec<u32> {
    let c = c as u32;
    if c < 0x10000 {
        vec![c]
    } else {
        vec![0xD800 + (c - 0x10000 >> 10), 0xDC00 + (c - 0x10000 & 0x3FF)]
    }
}

pub fn expected(f: Fmt, t: &[char]) -> String {
    let j = |v: Vec<String>| v.join(" ");
    match f {
        Fmt::Codepoints | Fmt::OneCodepoint => j(t.iter().map(|&c| format!("U+{:04X}", c as u32)).collect()),
        Fmt::Utf8 | Fmt::OneUtf8 => j(t.iter().flat_map(|&c| utf8(c)).map(|b| format!("0x{:02X}", b)).collect()),
        Fmt::Utf16 | Fmt::OneUtf16 => j(t.iter().flat_map(|&c| utf16(c)).map(|b| format!("0x{:04X}", b)).collect()),
        Fmt::Braces => format!("\"{}\"", t.iter().flat_map(|c| c.escape_default()).collect::<String>()),
        Fmt::BracesControl => format!("\"{}\"", t.iter().flat_map(|c| c.escape_debug()).collect::<String>()),
        Fmt::BracesAll => format!("\"{}\"", t.iter().map(|&c| format!("\\u{{{:x}}}", c as u32)).collect::<String>()),
    }
}

fn write(f: Fmt, out: &mut Device, s: &str) -> io::Result<()> {
    let first = || s.chars().next().unwrap();
    match f {
        Fmt::Codepoints => writers::write_as_codepoints(out, s.chars()),
        Fmt::Utf8 => writers::write_as_utf8_hex(out, s.chars()),
        Fmt::Utf16 => writers::write_as_utf16_hex(out, s.chars()),
        Fmt::Braces => writers::write_with_control_n_unicode_braces_escape(out, s.chars()),
        Fmt::BracesControl => writers::write_with_control_braces_escape(out, s.chars()),
        Fmt::BracesAll => writers::write_with_all_braces_escape(out, s.chars()),
        Fmt::OneCodepoint => writers::write_char_as_codepoint(out, first()),
        Fmt::OneUtf8 => writers::write_char_as_utf8_hex(out, first()),
        Fmt::OneUtf16 => writers::write_char_as_utf16_hex(out, first()),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    All,
    Part(usize),
    Interrupted,
    Zero,
    Fail(io::ErrorKind),
}

/// What the device does with its n-th write call.
struct Device {
    plan: Vec<Act>,
    at: usize,
    got: Vec<u8>,
    failed: Option<io::ErrorKind>,
    after: usize,
    short: usize,
    interrupted: usize,
    log: Vec<(usize, usize, usize)>,
}

impl Device {
    fn new(plan: Vec<Act>) -> Device {
        Device { plan, at: 0, got: vec![], failed: None, after: 0, short: 0, interrupted: 0, log: vec![] }
    }
}

impl Write for Device {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed.is_some() {
            self.after += b.len();
            return Ok(b.len());
        }
        if b.is_empty() {
            return Ok(0);
        }
        let a = self.plan.get(self.at).copied().unwrap_or(Act::All);
        self.at += 1;
        let r = match a {
            Act::All => Ok(b.len()),
            Act::Part(n) => Ok(n.clamp(1, b.len())),
            Act::Interrupted => {
                self.interrupted += 1;
                Err(io::ErrorKind::Interrupted.into())
            }
            Act::Zero => {
                self.failed = Some(io::ErrorKind::WriteZero);
                Ok(0)
            }
            Act::Fail(k) => {
                self.failed = Some(k);
                Err(k.into())
            }
        };
        if let Ok(n) = r {
            self.got.extend_from_slice(&b[..n]);
            self.short += (n < b.len()) as usize;
        }
        self.log.push((self.at, b.len(), *r.as_ref().unwrap_or(&usize::max_value())));
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const KINDS: [io::ErrorKind; 6] = [
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
];

pub fn writers(run: &mut Run) -> Res {
    let f = *run.src.pick(&FMTS);
    let mut t: Vec<char> = match run.src.below(4) {
        0 => norm_text(run, 10),
        1 => grapheme_text(run, 10).chars().collect(),
        2 => (0..run.src.range(0, 6)).map(|_| char::from_u32(run.src.below(0x300) as u32).unwrap()).collect(),
        _ => (0..run.src.range(0, 6)).map(|_| crate::scen::chars::end(run)).collect(),
    };
    let one = matches!(f, Fmt::OneCodepoint | Fmt::OneUtf8 | Fmt::OneUtf16);
    if one {
        if t.is_empty() {
            t.push('a');
        }
        t.truncate(1);
    }
    let s: String = t.iter().collect();
    let want = expected(f, &t);
    let n = run.src.geo(40);
    let mut plan = vec![];
    for _ in 0..n {
        plan.push(match run.src.below(8) {
            0..=2 => Act::All,
            3..=5 => Act::Part(run.src.range(1, 4)),
            _ => Act::Interrupted,
        });
    }
    if run.src.chance(2, 3) {
        let at = run.src.range(0, plan.len());
        let a = if run.src.chance(1, 6) { Act::Zero } else { Act::Fail(*run.src.pick(&KINDS)) };
        plan.insert(at, a);
    }
    run.il(mix(hash_str(&s), f as u64));
    for a in &plan {
        run.il(hash_str(&format!("{:?}", a)));
    }
    let what = format!("{:?} of {}", f, esc(&s));
    run.note(|| format!("{}, device plan {:?}", what, plan));
    let mut d = Device::new(plan);
    let r = write(f, &mut d, &s);
    for (at, len, n) in std::mem::take(&mut d.log) {
        run.ev("write", len as u64, mix(at as u64, n as u64));
    }
    for _ in 0..d.short {
        run.fault("short_write");
    }
    for _ in 0..d.interrupted {
        run.fault("interrupted");
    }
    let got = String::from_utf8_lossy(&d.got).into_owned();
    match d.failed {
        None => {
            check!(r.is_ok(), "spurious-error", "{}: returned {:?} though nothing but short writes and interruptions happened", what, r);
            check!(d.got == want.as_bytes(), "text", "{}: delivered {:?}, expected {:?}", what, got, want);
        }
        Some(k) => {
            run.fault(if k == io::ErrorKind::WriteZero { "zero_write" } else { "write_error" });
            check!(want.as_bytes().starts_with(&d.got), "not-a-prefix", "{}: delivered {:?} of {:?} before the error", what, got, want);
            check!(d.after == 0, "write-after-error", "{}: {} bytes written after the error", what, d.after);
            match r {
                Ok(()) => return fail("error-lost", format!("{}: {:?} was not returned; {:?} of {:?} delivered", what, k, got, want)),
                Err(e) => check!(e.kind() == k, "other-error", "{}: {:?} became {:?}", what, k, e),
            }
        }
    }
    run.state(mix(hash_str(&what), d.got.len() as u64));
    // what was delivered completely parses back
    if d.failed.is_none() {
        let back = match f {
            Fmt::Codepoints | Fmt::OneCodepoint => parsers::codepoints(&got),
            Fmt::Utf8 | Fmt::OneUtf8 => parsers::utf8_hex(&got),
            Fmt::Utf16 | Fmt::OneUtf16 => parsers::utf16_hex(&got),
            _ => return Ok(()),
        };
        run.probe("parsed_back");
        check!(back == s, "parse-back", "{}: {:?} parsed back as {}", what, got, esc(&back));
    }
    Ok(())
}
