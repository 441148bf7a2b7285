//! L01: histories of operations on a bidi level, with a store that tears and damages what was saved.

use crate::check;
use crate::core::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use unic::bidi::{BidiClass, Level};

const MAX: i32 = 126;

/// How a level is kept in the store.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Json,
    JsonList,
    JsonValue,
    Binary,
}

fn number(run: &mut Run) -> u8 {
    match run.src.below(4) {
        0 => run.src.below(4) as u8,
        1 => run.src.range(122, 129) as u8,
        2 => run.src.range(250, 255) as u8,
        _ => run.src.below(256) as u8,
    }
}

mod binary {
    //! One byte per number, structures transparent: what a compact binary format does.
    use serde::de::{self, Visitor};
    use serde::forward_to_deserialize_any;
    pub struct De<'a>(pub &'a [u8]);
    pub type Error = de::value::Error;
    impl<'de, 'a> de::Deserializer<'de> for De<'a> {
        type Error = Error;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            match self.0 {
                [b] => v.visit_u8(*b),
                [b @ ..] if b.len() == 8 => {
                    let mut w = [0; 8];
                    w.copy_from_slice(b);
                    v.visit_u64(u64::from_le_bytes(w))
                }
                [0, rest @ ..] if rest.len() == 8 => {
                    let mut w = [0; 8];
                    w.copy_from_slice(rest);
                    v.visit_i64(i64::from_le_bytes(w))
                }
                _ => Err(de::Error::custom("bad record")),
            }
        }
        fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
            match self.0 {
                // a sequence with one element
                [1, rest @ ..] => v.visit_seq(Seq(Some(rest))),
                [_, rest @ ..] => v.visit_newtype_struct(De(rest)),
                _ => Err(de::Error::custom("empty record")),
            }
        }
        forward_to_deserialize_any! {
            bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
            unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
        }
    }
    struct Seq<'a>(Option<&'a [u8]>);
    impl<'de, 'a> de::SeqAccess<'de> for Seq<'a> {
        type Error = Error;
        fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
            match self.0.take() {
                Some(b) => seed.deserialize(De(b)).map(Some),
                None => Ok(None),
            }
        }
    }
    /// What the format's own reader makes of the record, as a plain number.
    pub fn plain(b: &[u8]) -> Option<i128> {
        let b = b.get(1..)?;
        match b {
            [b] => Some(*b as i128),
            b if b.len() == 8 => Some(u64::from_le_bytes(b.try_into().unwrap()) as i128),
            [0, r @ ..] if r.len() == 8 => Some(i64::from_le_bytes(r.try_into().unwrap()) as i128),
            _ => None,
        }
    }
}

fn save(f: Form, run: &mut Run, l: Level, n: i32) -> Result<Vec<u8>, Violation> {
    Ok(match f {
        Form::Json => serde_json::to_vec(&l).unwrap(),
        Form::JsonList => serde_json::to_vec(&vec![Level::ltr(), l, Level::rtl()]).unwrap(),
        Form::JsonValue => {
            let v = serde_json::to_value(&l).unwrap();
            check!(v == serde_json::json!(n), "saved-value", "level {} saved as {}", n, v);
            v.to_string().into_bytes()
        }
        Form::Binary => {
            let v = serde_json::to_value(&l).unwrap().as_u64().unwrap();
            let head = run.src.below(2) as u8;
            match run.src.below(3) {
                0 => vec![head, v as u8],
                1 => std::iter::once(head).chain(v.to_le_bytes()).collect(),
                _ => [head, 0].into_iter().chain((v as i64).to_le_bytes()).collect(),
            }
        }
    })
}

fn load(f: Form, b: &[u8]) -> Result<Level, String> {
    use serde::Deserialize;
    match f {
        Form::Json => serde_json::from_slice(b).map_err(|e| e.to_string()),
        Form::JsonValue => serde_json::from_slice::<serde_json::Value>(b)
            .and_then(serde_json::from_value)
            .map_err(|e| e.to_string()),
        Form::JsonList => {
            let v: Vec<Level> = serde_json::from_slice(b).map_err(|e| e.to_string())?;
            for l in &v {
                if l.number() as i32 > MAX {
                    return Ok(*l);
                }
            }
            v.get(1).copied().ok_or_else(|| "list too short".into())
        }
        Form::Binary => Level::deserialize(binary::De(b)).map_err(|e| e.to_string()),
    }
}

/// The number the store holds, read without the code under test (None: no number).
fn plain(f: Form, b: &[u8]) -> Option<i128> {
    match f {
        Form::Json | Form::JsonValue => serde_json::from_slice::<i128>(b).ok(),
        Form::JsonList => None,
        Form::Binary => binary::plain(b),
    }
}

pub fn levels(run: &mut Run) -> Res {
    let n0 = number(run);
    let (mut l, mut n) = match Level::new(n0) {
        Ok(l) => {
            check!(n0 as i32 <= MAX, "new", "Level::new({}) accepted", n0);
            (l, n0 as i32)
        }
        Err(_) => {
            check!(n0 as i32 > MAX, "new", "Level::new({}) refused", n0);
            (Level::ltr(), 0)
        }
    };
    let mut store: Option<(Form, Vec<u8>, i32, bool)> = None;
    let steps = run.src.range(1, 20);
    for _ in 0..steps {
        let op = run.src.below(12);
        run.il(op as u64);
        let before = n;
        match op {
            0..=2 => {
                let a = number(run);
                run.il(a as u64);
                let (r, want, name) = match op {
                    0 => (l.raise(a), n + a as i32 <= MAX, "raise"),
                    1 => (l.raise_explicit(a), n + a as i32 <= MAX - 1, "raise_explicit"),
                    _ => (l.lower(a), n - a as i32 >= 0, "lower"),
                };
                run.ev(name, a as u64, r.is_ok() as u64);
                check!(r.is_ok() == want, name, "{} of level {} by {}: {:?}", name, n, a, r);
                if want {
                    n = if op == 2 { n - a as i32 } else { n + a as i32 };
                } else {
                    run.fault("refused_operation");
                }
            }
            3..=5 => {
                let (r, want, cap, name) = match op {
                    3 => (l.new_explicit_next_ltr(), (n + 2) & !1, MAX - 1, "next_ltr"),
                    4 => (l.new_explicit_next_rtl(), (n + 1) | 1, MAX - 1, "next_rtl"),
                    _ => (l.new_lowest_ge_rtl(), n | 1, MAX, "lowest_ge_rtl"),
                };
                run.ev(name, n as u64, r.is_ok() as u64);
                match r {
                    Ok(x) => {
                        check!(want <= cap && x.number() as i32 == want, name, "{} of {}: {}", name, n, x.number());
                        l = x;
                        n = want;
                    }
                    Err(_) => {
                        check!(want > cap, name, "{} of {} refused", name, n);
                        run.fault("refused_operation");
                    }
                }
            }
            6 => {
                let a = number(run);
                let (r, cap) = if run.src.chance(1, 2) { (Level::new_explicit(a), MAX - 1) } else { (Level::new(a), MAX) };
                run.ev("new", a as u64, r.is_ok() as u64);
                check!(r.is_ok() == (a as i32 <= cap), "new", "new level {} (limit {}): {:?}", a, cap, r);
                if let Ok(x) = r {
                    l = x;
                    n = a as i32;
                }
            }
            7 => {
                let a = number(run);
                let r = catch_unwind(AssertUnwindSafe(|| if a % 2 == 0 { Level::from(a) } else { Level::vec(&[0, a])[1] }));
                run.ev("from", a as u64, r.is_ok() as u64);
                check!(r.is_ok() == (a as i32 <= MAX), "from", "Level::from({}) gave {:?}", a, r.map(|l| l.number()).ok());
                if let Ok(x) = r {
                    l = x;
                    n = a as i32;
                } else {
                    run.fault("refused_operation");
                }
            }
            8 => {
                let f = *run.src.pick(&[Form::Json, Form::JsonList, Form::JsonValue, Form::Binary]);
                let b = save(f, run, l, n)?;
                run.ev("save", f as u64, b.len() as u64);
                // a crash while overwriting leaves a mixture of the old and new record
                if let (Some((g, old, m, _)), true) = (store.clone(), run.src.chance(1, 4)) {
                    let cut = run.src.range(0, b.len());
                    let mut t = b[..cut].to_vec();
                    t.extend_from_slice(old.get(cut..).unwrap_or(&[]));
                    run.fault("torn_save");
                    let intact = t == b && f == g && m == n;
                    store = Some((f, t, n, !intact));
                } else {
                    store = Some((f, b, n, false));
                }
            }
            9 => {
                if let Some((_, b, _, damaged)) = store.as_mut() {
                    let old = b.clone();
                    match run.src.below(5) {
                        0 if !b.is_empty() => {
                            let (i, k) = (run.src.below(b.len()), run.src.below(8));
                            b[i] ^= 1 << k;
                            run.fault("bit_flip");
                        }
                        1 => {
                            let k = run.src.range(0, b.len());
                            b.truncate(k);
                            run.fault("lost_tail");
                        }
                        2 if !b.is_empty() => {
                            let (i, v) = (run.src.below(b.len()), number(run));
                            b[i] = v;
                            run.fault("wrong_byte");
                        }
                        3 if !b.is_empty() => {
                            let (i, v) = (run.src.below(b.len()), b'0' + run.src.below(10) as u8);
                            b[i] = v;
                            run.fault("wrong_digit");
                        }
                        _ => {
                            let (i, v) = (run.src.range(0, b.len()), b'0' + run.src.below(10) as u8);
                            b.insert(i, v);
                            run.fault("inserted_digit");
                        }
                    }
                    *damaged |= *b != old;
                    run.ev("damage", hash_str(&format!("{:?}", b)), 0);
                }
            }
            10 => {
                if let Some((f, b, m, damaged)) = store.clone() {
                    let r = load(f, &b);
                    run.ev("restore", damaged as u64, r.is_ok() as u64);
                    let what = format!("{:?} record {:?} (level {}, {})", f, b, m, if damaged { "damaged" } else { "intact" });
                    match r {
                        Ok(x) => {
                            let k = x.number() as i32;
                            check!(k <= MAX, "restored-invalid", "{} restored as level {}", what, k);
                            check!(damaged || k == m, "restored-wrong", "{} restored as level {}", what, k);
                            if let Some(p) = plain(f, &b) {
                                check!(p == k as i128, "restored-other", "{} holds {}, restored as level {}", what, p, k);
                            }
                            if damaged {
                                run.probe("damaged_but_valid");
                            }
                            l = x;
                            n = k;
                        }
                        Err(e) => {
                            check!(damaged, "restore-refused", "{} refused: {}", what, e);
                            run.probe("damaged_refused");
                        }
                    }
                }
            }
            _ => {
                let s = l.to_string();
                check!(s == n.to_string(), "display", "level {} prints {}", n, s);
                check!(l == s && l == "x" && !(l == "y"), "text-equality", "level {} against its text", n);
                let t = match run.src.below(6) {
                    0 => format!("+{}", n),
                    1 => format!("0{}", n),
                    2 => format!("{} ", n),
                    3 => "X".to_string(),
                    4 => String::new(),
                    _ => number(run).to_string(),
                };
                check!((l == t) == (t == s) && (l == t.as_str()) == (t == s), "text-equality", "level {} against {:?}", n, t);
                let m: u8 = l.into();
                check!(m as i32 == n, "into", "level {} is {}", n, m);
                check!(l.bidi_class() == if n % 2 == 1 { BidiClass::RightToLeft } else { BidiClass::LeftToRight }, "class", "class of level {}", n);
                let o = number(run);
                if let Ok(x) = Level::new(o) {
                    let mixed = unic::bidi::level::has_rtl(&[x, l]);
                    check!(mixed == ((n | o as i32) % 2 == 1), "has_rtl", "has_rtl of levels {} and {}: {}", o, n, mixed);
                    check!(l.cmp(&x) == n.cmp(&(o as i32)), "order", "level {} against {}", n, o);
                }
            }
        }
        check!(l.number() as i32 == n, "number", "operation {} on level {}: level is {}, should be {}", op, before, l.number(), n);
        check!(n <= MAX, "invalid", "level {}", n);
        check!(l.is_ltr() == (n % 2 == 0) && l.is_rtl() == (n % 2 == 1), "direction", "direction of level {}", n);
        run.state(mix(n as u64, op as u64));
    }
    Ok(())
}
