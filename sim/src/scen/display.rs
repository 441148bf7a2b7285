//! W01: printing into sinks that fail.

use crate::check;
use crate::core::*;
use crate::scen::norm::norm_text;
use crate::scen::text::*;
use std::fmt::{self, Display, Write};
use unic::bidi::{BidiInfo, Level};
use unic::char::basics::notation::unicode_notation;
use unic::char::property::EnumeratedCharProperty;
use unic::normal::StrNormalForm;
use unic::ucd::category::GeneralCategory;
use unic::ucd::normal::DecompositionType;
use unic::ucd::*;

fn ch(run: &mut Run) -> char {
    match run.src.below(8) {
        0 | 1 => char::from_u32(0xAC00 + run.src.below(11172) as u32).unwrap(),
        2 => *run.src.pick(&['\u{AC00}', '\u{AC01}', '\u{D7A3}', '\u{C544}', 'a', '\u{4E00}', '\u{17000}', '\u{1B170}', '\u{F900}', '\u{1F1E6}', '\u{FDFA}']),
        3 => char::from_u32(0x3400 + run.src.below(0x7000) as u32).unwrap(),
        4 => char::from_u32(run.src.below(0x3000) as u32).unwrap(),
        5 => char::from_u32(0x17000 + run.src.below(0x8000) as u32).unwrap(),
        6 => char::from_u32(0x1D000 + run.src.below(0x2000) as u32).unwrap(),
        _ => char::from_u32(run.src.below(0x110000) as u32).unwrap_or('\u{FFFD}'),
    }
}

/// Plays the part of the output device.
struct Sink {
    got: String,
    calls: usize,
    /// fail when this many writes were accepted
    fail_call: usize,
    /// fail when this many bytes would be exceeded (after taking what fits)
    room: usize,
    panics: bool,
    failed: bool,
    after: usize,
}

impl Sink {
    fn good() -> Sink {
        Sink { got: String::new(), calls: 0, fail_call: usize::max_value(), room: usize::max_value(), panics: false, failed: false, after: 0 }
    }
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            // accepts again, so that a writer that goes on is seen
            self.after += 1;
            self.got.push_str(s);
            return Ok(());
        }
        if self.calls >= self.fail_call || self.got.len() + s.len() > self.room {
            if self.calls < self.fail_call {
                let mut n = self.room - self.got.len();
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                self.got.push_str(&s[..n]);
            }
            self.failed = true;
            if self.panics {
                inject_panic();
            }
            return Err(fmt::Error);
        }
        self.calls += 1;
        self.got.push_str(s);
        Ok(())
    }
}

fn print(sink: &mut Sink, v: &dyn Display, style: usize, w: usize) -> fmt::Result {
    match style {
        0..=3 => write!(sink, "{}", v),
        4 => write!(sink, "{:>w$}", v, w = w),
        5 => write!(sink, "{:^w$.p$}", v, w = w, p = w / 2),
        6 => write!(sink, "{:#}", v),
        _ => write!(sink, "{:*<w$}", v, w = w),
    }
}

fn sinks(run: &mut Run, what: String, v: &dyn Display) -> Res {
    let style = run.src.below(8);
    let w = run.src.range(0, 30);
    let mut full = Sink::good();
    let r = print(&mut full, v, style, w);
    check!(r.is_ok(), "spurious-error", "{}: printing to a good sink failed", what);
    if style <= 3 {
        let s = v.to_string();
        check!(s == full.got, "text", "{}: to_string gave {:?}, a sink {:?}", what, s, full.got);
    }
    run.note(|| format!("{} prints {:?} in {} writes (style {})", what, full.got, full.calls, style));
    run.il(hash_str(&what));
    let rounds = 1 + run.src.geo(4);
    for _ in 0..rounds {
        let mut s = Sink::good();
        match run.src.below(3) {
            0 => s.fail_call = run.src.range(0, full.calls),
            1 => s.room = run.src.range(0, full.got.len()),
            _ => {
                s.fail_call = run.src.range(0, full.calls);
                s.panics = true;
            }
        }
        let (fc, room) = (s.fail_call, s.room);
        run.il(mix(mix(style as u64, fc as u64), room as u64));
        let r = catch_injected(|| print(&mut s, v, style, w));
        run.ev("print", s.got.len() as u64, r.is_ok() as u64);
        let at = format!("{} (full text {:?}), sink failing after {} writes / {} bytes", what, full.got, fc as i64, room as i64);
        if s.failed {
            run.fault(match r { Err(()) => "sink_panic", _ if fc == usize::max_value() => "sink_full", _ => "sink_error" });
            check!(s.after == 0, "write-after-error", "{}: {} more writes after the failure, {:?} delivered", at, s.after, s.got);
            check!(matches!(r, Err(()) | Ok(Err(_))), "error-lost", "{}: the failure was not returned", at);
            check!(full.got.starts_with(&s.got), "not-a-prefix", "{}: {:?} delivered", at, s.got);
        } else {
            check!(matches!(r, Ok(Ok(()))), "spurious-error", "{}: an error was returned though none happened", at);
            check!(s.got == full.got, "text", "{}: {:?} delivered", at, s.got);
        }
        run.state(mix(hash_str(&what), mix(fc as u64, room as u64)));
        // the sink recovers
        let mut g = Sink::good();
        let r = print(&mut g, v, style, w);
        check!(r.is_ok() && g.got == full.got, "recovery", "{}: printing again gave {:?}", at, g.got);
    }
    Ok(())
}

pub fn display(run: &mut Run) -> Res {
    let c = ch(run);
    let cp = format!("U+{:04X}", c as u32);
    macro_rules! p {
        ($name:expr, $v:expr) => {
            return sinks(run, format!("{} of {}", $name, cp), &$v)
        };
    }
    macro_rules! any {
        ($t:ty) => {{
            let v = <$t as EnumeratedCharProperty>::all_values();
            let v = *run.src.pick(v);
            return sinks(run, format!("{:?}", v), &v);
        }};
    }
    match run.src.below(24) {
        0..=5 => match Name::of(c) {
            Some(n) => p!("Name", n),
            None => p!("notation", unicode_notation(c)),
        },
        6 => p!("notation", unicode_notation(c)),
        7 => p!("ccc", CanonicalCombiningClass::of(c)),
        8 => any!(GeneralCategory),
        9 => any!(BidiClass),
        10 => any!(DecompositionType),
        11 => any!(GraphemeClusterBreak),
        12 => any!(WordBreak),
        13 => any!(SentenceBreak),
        14 => p!("Alphabetic", Alphabetic::of(c)),
        15 => p!("WhiteSpace", WhiteSpace::of(c)),
        16 => p!("Cased", Cased::of(c)),
        17 => {
            let v = UnicodeVersion { major: run.src.below(256) as u8, minor: run.src.below(256) as u8, micro: run.src.below(256) as u8 };
            sinks(run, format!("{:?}", v), &v)
        }
        18 => {
            let l = Level::new(run.src.below(127) as u8).unwrap();
            sinks(run, format!("{:?}", l), &l)
        }
        19 => {
            let t = word_text(run, 12);
            let b = BidiInfo::new(&t, None);
            sinks(run, format!("BidiInfo of {}", esc(&t)), &b)
        }
        k => {
            let t: String = norm_text(run, 16).into_iter().collect();
            let skip = run.src.geo(4);
            let what = format!("{} of {} after {} pulls", ["nfd", "nfc", "nfkd", "nfkc"][k - 20], esc(&t), skip);
            macro_rules! n {
                ($i:expr) => {{
                    let mut i = $i;
                    for _ in 0..skip {
                        i.next();
                    }
                    sinks(run, what, &i)
                }};
            }
            match k {
                20 => n!(t.nfd()),
                21 => n!(t.nfc()),
                22 => n!(t.nfkd()),
                _ => n!(t.nfkc()),
            }
        }
    }
}
