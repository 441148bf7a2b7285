//! D01: internationalised domain names on their way between registrants, resolvers and displays.
//!
//! Simulated: the nodes and their settings, the order of conversions, the network that rewrites, repeats, delays and
//! damages names.  Real: unic-idna (to_ascii, to_unicode) and unic-idna-punycode.  Every message is also converted by
//! another implementation (refs/uts46.rs), as if another node had got it.

use crate::check;
use crate::core::*;
use crate::data::bidi::Bc;
use crate::data::{bidi, idna as data};
use crate::refs::norm;
use crate::refs::uts46::{self, Rules};
use crate::scen::text::esc;
use unic::idna::{self, Flags};
use unic_idna_punycode as punycode;

const PARTS: [&str; 40] = [
    "a", "b", "z", "0", "7", "-", "xn--", "é", "ü", "ß", "ς", "\u{200C}", "\u{200D}", "中", "文", "א", "ב", "ا", "ب", "٠", "۱", "\u{301}", "\u{5B0}",
    "A", "Ä", "ａ", "ﬀ", "\u{AD}", "\u{200B}", "ℵ", "_", "=", "\u{338}", "\u{212B}", "\u{1E9E}", "각", "ᄀ", "ᅡ", "𐐀", "\u{2F868}",
];

fn any_char(run: &mut Run) -> char {
    let (lo, hi) = match run.src.below(4) {
        0 => {
            let e = run.src.pick(bidi::TABLE);
            (e.0, e.1)
        }
        1 => {
            let e = run.src.pick(data::MARK);
            (e.0, e.1)
        }
        _ => {
            let e = run.src.pick(data::TABLE);
            (e.0, e.1)
        }
    };
    let c = match run.src.below(4) {
        0 => lo,
        1 => hi,
        2 => lo + run.src.below((hi - lo + 1) as usize) as u32,
        _ => (lo + run.src.below(3) as u32).min(hi),
    };
    char::from_u32(c).unwrap_or('a')
}

/// A character a name may contain, of one direction.
fn good_char(run: &mut Run, rtl: bool) -> char {
    for _ in 0..4 {
        let c = any_char(run);
        let class = crate::refs::bidi::bc(c as u32);
        if uts46::status(c as u32).0 == data::Status::Valid && (class == Bc::NSM || class == Bc::EN || matches!(class, Bc::R | Bc::AL) == rtl) {
            return c;
        }
    }
    if rtl { 'א' } else { 'é' }
}

fn label(run: &mut Run) -> String {
    let mut s = String::new();
    match run.src.below(8) {
        0 => (0..run.src.below(6)).for_each(|_| s.push_str(PARTS[run.src.below(40)])),
        1 => (0..run.src.below(4)).for_each(|_| s.push(any_char(run))),
        2 => {
            // encoded by someone, of anything
            let l: Vec<u32> = label(run).chars().map(|c| c as u32).collect();
            s = format!("xn--{}", uts46::encode(&l));
        }
        3 => {
            s.push_str("xn--");
            for _ in 0..run.src.below(8) {
                s.push(*run.src.pick(&['a', 'b', 'k', 'z', '0', '9', '-', 'y', '8', 'é', 'Z']));
            }
        }
        4 => {
            let n = *run.src.pick(&[1usize, 58, 59, 60, 62, 63, 64, 200]);
            s = "a".repeat(n);
            if run.src.chance(1, 2) {
                s.push('é');
            }
        }
        5 => (0..run.src.range(1, 5)).for_each(|_| s.push(good_char(run, true))),
        _ => (0..run.src.range(1, 5)).for_each(|_| s.push(if run.src.chance(1, 3) { (b'a' + run.src.below(26) as u8) as char } else { good_char(run, false) })),
    }
    s
}

fn name(run: &mut Run) -> String {
    let n = *run.src.pick(&[1usize, 1, 2, 2, 3, 5]);
    let mut s = String::new();
    for k in 0..n {
        if k > 0 {
            s.push(*run.src.pick(&['.', '.', '.', '.', '。', '．', '｡']));
        }
        s.push_str(&label(run));
    }
    if run.src.chance(1, 8) {
        s.push('.');
    }
    s
}

fn chars(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

fn string(v: &[u32]) -> String {
    v.iter().map(|c| char::from_u32(*c).unwrap()).collect()
}

/// The name looks different afterwards and is the same.
fn rewrite(run: &mut Run, s: &str, normalized: &mut bool) -> String {
    match run.src.below(5) {
        0 => {
            run.fault("letter case rewritten");
            s.chars().map(|c| if run.src.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect()
        }
        1 => {
            run.fault("full stops rewritten");
            s.chars().map(|c| if c == '.' { *run.src.pick(&['.', '。', '．', '｡']) } else { c }).collect()
        }
        2 => {
            run.fault("ignored characters inserted");
            let mut v: Vec<char> = s.chars().collect();
            for _ in 0..run.src.range(1, 3) {
                v.insert(run.src.below(v.len() + 1), *run.src.pick(&['\u{AD}', '\u{200B}', '\u{2060}', '\u{FE0F}', '\u{E01EF}', '\u{34F}', '\u{1BCA0}']));
            }
            v.into_iter().collect()
        }
        3 => {
            run.fault("characters replaced by equivalents");
            chars(s)
                .into_iter()
                .map(|c| match uts46::equivalents(c) {
                    [] => c,
                    l => if run.src.chance(1, 2) { *run.src.pick(l) } else { c },
                })
                .map(|c| char::from_u32(c).unwrap())
                .collect()
        }
        _ => {
            run.fault("normalized on the way");
            *normalized = true;
            let f = *run.src.pick(&[norm::Form::Nfd, norm::Form::Nfc]);
            string(&norm::normalize(&chars(s), f))
        }
    }
}

/// The name may be another one afterwards, or none.
fn damage(run: &mut Run, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    match run.src.below(6) {
        0 if !v.is_empty() => {
            run.fault("character changed");
            let k = run.src.below(v.len());
            v[k] = if run.src.chance(1, 2) { PARTS[run.src.below(40)].chars().next().unwrap() } else { any_char(run) };
        }
        1 if !v.is_empty() => {
            run.fault("bit flipped");
            let k = run.src.below(v.len());
            v[k] = char::from_u32(v[k] as u32 ^ 1 << run.src.below(7)).unwrap_or('?');
        }
        2 => {
            run.fault("truncated");
            v.truncate(run.src.below(v.len() + 1));
        }
        3 if !v.is_empty() => {
            run.fault("part lost");
            let k = run.src.below(v.len());
            v.remove(k);
        }
        4 if !v.is_empty() => {
            run.fault("part repeated");
            let a = run.src.below(v.len());
            let b = run.src.range(a, v.len());
            let piece: Vec<char> = v[a..b].to_vec();
            v.splice(a..a, piece);
        }
        _ => {
            run.fault("names run together");
            let l = label(run);
            let k = run.src.below(v.len() + 1);
            v.splice(k..k, l.chars());
        }
    }
    v.into_iter().collect()
}

fn flags(r: Rules) -> Flags {
    Flags { use_std3_ascii_rules: r.std3, transitional_processing: r.transitional, verify_dns_length: r.dns }
}

fn ascii(run: &mut Run, s: &str, r: Rules) -> Result<Option<String>, Violation> {
    let have = idna::to_ascii(s, flags(r)).ok();
    let want = uts46::to_ascii(s, r);
    run.ev("ascii", hash_str(s), have.is_some() as u64);
    run.note(|| format!("to_ascii(\"{}\") with {:?}: {:?}", esc(s), r, have));
    check!(have == want, "nodes-disagree", "to_ascii of \"{}\" with {:?}: {:?} here, {:?} by the other implementation", esc(s), r, have, want);
    Ok(have)
}

fn unicode(run: &mut Run, s: &str, r: Rules) -> Result<Option<String>, Violation> {
    let (text, ok) = idna::to_unicode(s, flags(r));
    let ok = ok.is_ok();
    let (shown, accepted) = uts46::shown(s, r);
    if let (Some(w), false, false) = (shown.as_ref(), ok, accepted) {
        run.probe("refused name shown");
        check!(*w == text, "refused-name", "\"{}\" is refused and shown as \"{}\" with {:?}, expected \"{}\"", esc(s), esc(&text), r, esc(w));
    }
    let have = if ok { Some(text) } else { None };
    let want = shown.filter(|_| accepted);
    run.ev("unicode", hash_str(s), have.is_some() as u64);
    run.note(|| format!("to_unicode(\"{}\") with {:?}: {:?}", esc(s), r, have.as_deref().map(esc)));
    check!(have == want, "nodes-disagree", "to_unicode of \"{}\" with {:?}: {:?} here, {:?} by the other implementation", esc(s), r, have.as_deref().map(esc), want.as_deref().map(esc));
    Ok(have)
}

struct Name {
    ascii: String,
    unicode: String,
    std3: bool,
    forms: Vec<String>,
}

fn rules(run: &mut Run, std3: bool) -> Rules {
    Rules { std3, transitional: run.src.chance(1, 4), dns: run.src.chance(1, 4) }
}

/// A name handed in; accepted, it has an identity from now on.
fn submit(run: &mut Run, s: &str, names: &mut Vec<Name>) -> Res {
    let std3 = run.src.chance(1, 2);
    let r = rules(run, std3);
    if let Some(a) = ascii(run, s, r)? {
        run.probe("name accepted");
        let plain = Rules { std3, transitional: false, dns: false };
        let Some(u) = unicode(run, &a, plain)? else {
            return fail("accepted-then-refused", format!("\"{}\" is accepted as \"{}\", which then is refused", esc(s), esc(&a)));
        };
        check!(a.is_ascii(), "not-ascii", "the ASCII form of \"{}\" is \"{}\"", esc(s), esc(&a));
        names.push(Name { forms: vec![a.clone(), u.clone()], ascii: a, unicode: u, std3 });
    } else {
        // what a client shows of it
        unicode(run, s, r)?;
    }
    Ok(())
}

pub fn domains(run: &mut Run) -> Res {
    let mut names: Vec<Name> = vec![];
    let s = name(run);
    run.il(hash_str(&s));
    submit(run, &s, &mut names)?;
    for _ in 0..run.src.below(8) {
        if names.is_empty() || run.src.chance(1, 6) {
            let s = name(run);
            submit(run, &s, &mut names)?;
            continue;
        }
        let k = run.src.below(names.len());
        let at = run.src.below(names[k].forms.len());
        if at + 1 < names[k].forms.len() {
            run.fault("older form delivered");
        }
        let mut s = names[k].forms[at].clone();
        if run.src.chance(1, 4) {
            let s = damage(run, &s);
            run.il(hash_str(&s));
            submit(run, &s, &mut names)?;
            continue;
        }
        let (mut same, mut normalized) = (true, false);
        for _ in 0..run.src.below(3) {
            s = rewrite(run, &s, &mut normalized);
        }
        let n = &names[k];
        // normalization may bring about another name after other changes (U+0345)
        let plain = Rules { std3: names[k].std3, transitional: false, dns: false };
        if uts46::to_unicode(&s, plain).as_ref() != Some(&names[k].unicode) {
            run.probe("became another name on the way");
            check!(normalized, "model", "\"{}\" no longer stands for \"{}\"", esc(&s), names[k].ascii);
            same = false;
        }
        // nodes with stricter rules may refuse; what they say is compared with the other implementation
        let std3 = run.src.chance(1, 4) || n.std3;
        let r = rules(run, std3);
        same &= r.std3 == n.std3;
        let to_ascii = run.src.chance(1, 2);
        // in the old (transitional) processing some Unicode forms stand for another name
        same &= !(to_ascii && r.transitional && s.chars().any(|c| matches!(c, 'ß' | 'ẞ' | 'ς' | 'Σ' | '\u{3c3}' | '\u{200C}' | '\u{200D}') || uts46::status(c as u32).0 == data::Status::Deviation));
        let length = n.ascii.strip_suffix('.').unwrap_or(&n.ascii);
        let short = !length.is_empty() && length.len() <= 253 && length.split('.').all(|l| !l.is_empty() && l.len() <= 63);
        same &= !r.dns || short || !to_ascii;
        let have = if to_ascii { ascii(run, &s, r)? } else { unicode(run, &s, r)? };
        let n = &mut names[k];
        let want = if to_ascii { &n.ascii } else { &n.unicode };
        run.stats.steps += 1;
        if same {
            check!(have.as_ref() == Some(want), "name-changed", "\"{}\" (in Unicode \"{}\") arrives as \"{}\" and becomes {:?}, {} with {:?}", n.ascii, esc(&n.unicode), esc(&s), have.as_deref().map(esc), if to_ascii { "to_ascii" } else { "to_unicode" }, r);
            if n.forms.len() < 6 {
                n.forms.push(s.clone());
            }
        }
        let h = mix(hash_str(&s), to_ascii as u64);
        run.il(h);
        run.state(hash_str(&s));
    }
    if run.src.chance(1, 3) {
        codec(run)?;
    }
    Ok(())
}

/// Labels alone, also longer ones than names can have.
fn codec(run: &mut Run) -> Res {
    let l: String = match run.src.below(8) {
        0 if run.src.chance(1, 500) => {
            // the sums come close to what the numbers can hold
            let n = run.src.range(3855, 4200);
            let m = (1u64 << 32) / (n as u64 + 1);
            let over = (1u64 << 32) - m * (n as u64 + 1);
            let mut v = vec!['a'; n];
            let at = (over as usize + run.src.below(3)).saturating_sub(1).min(n);
            let c = char::from_u32(m as u32 + 0x80).unwrap_or('é');
            v.insert(at, c);
            run.probe("very long label");
            v.into_iter().collect()
        }
        0..=3 => label(run),
        4 | 5 => (0..run.src.below(40)).map(|_| any_char(run)).collect(),
        _ => {
            let c = any_char(run);
            (0..run.src.below(60)).map(|_| if run.src.chance(1, 8) { any_char(run) } else { c }).collect()
        }
    };
    let e = uts46::encode(&chars(&l));
    let have = punycode::encode_str(&l);
    run.ev("encode", hash_str(&l), have.is_some() as u64);
    check!(have.as_ref() == Some(&e) || have.is_none() && e.len() > 63, "nodes-disagree", "the label \"{}\" is encoded as {:?} here, as \"{}\" by the other implementation", esc(&l), have, e);
    let got = if run.src.chance(1, 2) { damage(run, &e) } else { e };
    let want = uts46::decode(&got).map(|v| string(&v));
    let have = punycode::decode_to_string(&got);
    run.ev("decode", hash_str(&got), have.is_some() as u64);
    check!(have == want || have.is_none() && got.len() > 63, "nodes-disagree", "\"{}\" is decoded as {:?} here, as {:?} by the other implementation", esc(&got), have.as_deref().map(esc), want.as_deref().map(esc));
    if let Some(l) = have {
        // only letters may differ in case
        let back = punycode::encode_str(&l);
        check!(back.as_ref().map_or(got.len() > 63, |b| b.eq_ignore_ascii_case(&got)) , "not-inverse", "\"{}\" is decoded as \"{}\", which is encoded as {:?}", esc(&got), esc(&l), back);
    }
    Ok(())
}
