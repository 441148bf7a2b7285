//! R05: registries keyed by names, ages, versions, combining classes and bidi levels.
//!
//! Simulated: nodes that fill, merge, search, scan, split, lose and rebuild their registries (ordered maps, sorted lists
//! searched by bisection, hash maps).  Real: the keys with their comparisons, equality and hashes; the names' texts.
//! Model: maps keyed by the names' texts and by numbers.

use crate::check;
use crate::core::*;
use crate::data::aliases;
use crate::refs::names;
use crate::scen::text::esc;
use std::cmp::{Ordering, Reverse};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use unic::bidi::Level;
use unic::ucd::normal::CanonicalCombiningClass;
use unic::ucd::{name_aliases_of, Age, Name, NameAliasType, UnicodeVersion};

type Hashed<K> = HashMap<K, u32, BuildHasherDefault<DefaultHasher>>;

/// The same entries, kept in three ways, and the model of them.
#[derive(Clone)]
struct Registry<K, M> {
    ordered: BTreeMap<K, u32>,
    list: Vec<(K, u32)>,
    hashed: Hashed<K>,
    model: BTreeMap<M, u32>,
}

fn digest<K: Hash>(k: &K) -> u64 {
    let mut h = DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}

impl<K: Ord + Hash + Clone + Debug, M: Ord + Clone + Debug> Registry<K, M> {
    fn new() -> Self {
        Registry { ordered: BTreeMap::new(), list: vec![], hashed: Hashed::default(), model: BTreeMap::new() }
    }
    fn find(&self, k: &K) -> Result<usize, usize> {
        self.list.binary_search_by(|e| e.0.cmp(k))
    }
    fn put(&mut self, k: &K, m: &M, v: u32) -> Res {
        let want = self.model.insert(m.clone(), v);
        let a = self.ordered.insert(k.clone(), v);
        let b = self.hashed.insert(k.clone(), v);
        let c = match self.find(k) {
            Ok(i) => Some(std::mem::replace(&mut self.list[i].1, v)),
            Err(i) => {
                self.list.insert(i, (k.clone(), v));
                None
            }
        };
        check!(a == want && b == want && c == want, "put", "{:?} replaces {:?} (ordered map), {:?} (hash map), {:?} (list), expected {:?}", m, a, b, c, want);
        Ok(())
    }
    fn take(&mut self, k: &K, m: &M) -> Res {
        let want = self.model.remove(m);
        let a = self.ordered.remove(k);
        let b = self.hashed.remove(k);
        let c = self.find(k).ok().map(|i| self.list.remove(i).1);
        check!(a == want && b == want && c == want, "take", "{:?} deletes {:?} (ordered map), {:?} (hash map), {:?} (list), expected {:?}", m, a, b, c, want);
        Ok(())
    }
    fn get(&self, k: &K, m: &M) -> Res {
        let want = self.model.get(m);
        let a = self.ordered.get(k);
        let b = self.hashed.get(k);
        let c = self.find(k).ok().map(|i| &self.list[i].1);
        check!(a == want && b == want && c == want, "get", "{:?} is found as {:?} (ordered map), {:?} (hash map), {:?} (list), expected {:?}", m, a, b, c, want);
        Ok(())
    }
    fn scan(&self) -> Res {
        let want: Vec<u32> = self.model.values().copied().collect();
        let a: Vec<u32> = self.ordered.values().copied().collect();
        let c: Vec<u32> = self.list.iter().map(|e| e.1).collect();
        check!(a == want && c == want && self.hashed.len() == want.len(), "scan", "a scan over {:?} finds {:?} (ordered map), {:?} (list)", self.model, a, c);
        Ok(())
    }
    /// From a key on.
    fn tail(&self, k: &K, m: &M) -> Res {
        let want: Vec<u32> = self.model.range(m.clone()..).map(|e| *e.1).collect();
        let a: Vec<u32> = self.ordered.range(k.clone()..).map(|e| *e.1).collect();
        let c: Vec<u32> = self.list.iter().filter(|e| e.0 >= *k).map(|e| e.1).collect();
        check!(a == want && c == want, "tail", "a scan of {:?} from {:?} finds {:?} (ordered map), {:?} (list), expected {:?}", self.model, m, a, c, want);
        Ok(())
    }
}

fn compare<K: Ord + Hash + Clone + Debug, M: Ord + Debug>(a: &(K, M), b: &(K, M)) -> Res {
    let want = a.1.cmp(&b.1);
    let (x, y) = (&a.0, &b.0);
    check!(x.cmp(y) == want && y.cmp(x) == want.reverse(), "cmp", "{:?} compared with {:?}: {:?}, expected {:?}", a, b, x.cmp(y), want);
    check!(x.partial_cmp(y) == Some(want), "partial_cmp", "{:?} compared with {:?}: {:?}, expected {:?}", a, b, x.partial_cmp(y), want);
    let ops = [x < y, x <= y, x == y, x != y, x >= y, x > y];
    let o = [want.is_lt(), want.is_le(), want.is_eq(), want.is_ne(), want.is_ge(), want.is_gt()];
    check!(ops == o, "operators", "{:?} <, <=, ==, !=, >=, > {:?}: {:?}, expected {:?}", a, b, ops, o);
    check!(want != Ordering::Equal || digest(x) == digest(y), "hash", "{:?} and {:?} are equal and hash to different values", a, b);
    check!((x.clone().max(y.clone()) == *x) == (want != Ordering::Less) && (x.clone().min(y.clone()) == *x) == (want != Ordering::Greater), "min-max", "the lesser and the greater of {:?} and {:?}", a, b);
    Ok(())
}

fn registries<K: Ord + Hash + Clone + Debug, M: Ord + Clone + Debug>(run: &mut Run, key: impl Fn(&mut Run) -> Result<(K, M), Violation>) -> Res {
    let mut nodes: Vec<Registry<K, M>> = (0..run.src.range(1, 3)).map(|_| Registry::new()).collect();
    let mut keys: Vec<(K, M)> = vec![];
    let mut serial = 0;
    for _ in 0..run.src.range(2, 50) {
        let n = run.src.below(nodes.len());
        let what = run.src.weighted(&[8, 4, 3, 3, 2, 2, 2, 1, 1, 1]);
        run.stats.steps += 1;
        // a key: mostly one that was used before, but for puts
        if keys.is_empty() || run.src.chance(if what == 0 { 3 } else { 1 }, 4) {
            let k = key(run)?;
            keys.push(k);
        }
        let k = keys[run.src.below(keys.len())].clone();
        run.il(mix(mix(n as u64, what as u64), hash_str(&format!("{:?}", k.1))));
        match what {
            0 => {
                serial += 1;
                run.ev("put", n as u64, serial as u64);
                run.note(|| format!("node {} puts {:?} = {}", n, k.1, serial));
                nodes[n].put(&k.0, &k.1, serial)?;
            }
            1 => {
                run.ev("get", n as u64, 0);
                run.note(|| format!("node {} looks up {:?}", n, k.1));
                nodes[n].get(&k.0, &k.1)?;
            }
            2 => {
                run.ev("take", n as u64, 0);
                run.note(|| format!("node {} deletes {:?}", n, k.1));
                nodes[n].take(&k.0, &k.1)?;
            }
            3 => {
                let l = keys[run.src.below(keys.len())].clone();
                compare(&k, &l)?;
            }
            4 => nodes[n].scan()?,
            5 => nodes[n].tail(&k.0, &k.1)?,
            6 => {
                // merge another node's records, which arrive in any order and repeated
                let o = run.src.below(nodes.len());
                let mut r: Vec<usize> = vec![];
                for (i, _) in nodes[o].list.iter().enumerate() {
                    r.push(i);
                    if run.src.chance(1, 4) {
                        r.push(i);
                        run.fault("record repeated");
                    }
                }
                for i in (1..r.len()).rev() {
                    r.swap(i, run.src.below(i + 1));
                }
                if r.len() > 1 {
                    run.fault("records reordered");
                }
                let from = nodes[o].clone();
                for i in r {
                    let (k, v) = &from.list[i];
                    let m = from.model.iter().find(|e| e.1 == v).map(|e| e.0.clone());
                    let Some(m) = m else { return fail("merge", format!("{:?} = {} in node {} is not in {:?}", k, v, o, from.model)) };
                    nodes[n].put(k, &m, *v)?;
                }
            }
            7 => {
                // a list that has lost its order is sorted again
                let l = &mut nodes[n].list;
                for i in (1..l.len()).rev() {
                    l.swap(i, run.src.below(i + 1));
                }
                run.fault("list out of order");
                match run.src.below(3) {
                    0 => l.sort(),
                    1 => l.sort_by(|a, b| a.0.cmp(&b.0)),
                    _ => l.sort_unstable_by(|a, b| a.0.partial_cmp(&b.0).unwrap()),
                }
                nodes[n].scan()?;
            }
            8 => {
                // a node dies with its registry; another takes over what lies from a key on
                let o = run.src.below(nodes.len());
                let mut from = nodes[o].clone();
                let ordered = from.ordered.split_off(&k.0);
                let model = from.model.split_off(&k.1);
                run.fault("registry lost");
                nodes[n] = Registry { list: ordered.iter().map(|(a, b)| (a.clone(), *b)).collect(), hashed: ordered.iter().map(|(a, b)| (a.clone(), *b)).collect(), ordered, model };
                nodes[n].scan()?;
            }
            _ => {
                let r = &nodes[n];
                let a = r.ordered.iter().next_back().map(|e| *e.1);
                let c = r.list.iter().max_by(|a, b| a.0.cmp(&b.0)).map(|e| e.1);
                let want = r.model.values().next_back().copied();
                check!(a == want && c == want, "last", "the last of {:?} is {:?} (ordered map), {:?} (list)", r.model, a, c);
            }
        }
        let s = nodes[n].model.len() as u64;
        run.state(mix(s, hash_str(&format!("{:?}", k.1))));
    }
    for r in &nodes {
        r.scan()?;
    }
    Ok(())
}

fn named(run: &mut Run) -> u32 {
    match run.src.below(8) {
        0 | 1 => 0xAC00 + run.src.below(11172) as u32,
        2 | 3 => {
            let r: Vec<(u32, u32)> = names::ranges().collect();
            let r = *run.src.pick(&r);
            match run.src.below(4) {
                0 => r.0 - run.src.below(2) as u32,
                1 => r.1 + run.src.below(2) as u32,
                _ => run.src.range(r.0 as usize, r.1 as usize) as u32,
            }
        }
        // names that begin like those which follow a rule
        4 => {
            let r = *run.src.pick(&[(0x2E80, 0x2FD5), (0x31C0, 0x31E3), (0x1100, 0x11FF), (0x302E, 0x302F), (0x3131, 0x318E), (0x16FE0, 0x16FE1), (0x18800, 0x18AF2), (0xA960, 0xA97C), (0xD7B0, 0xD7FB), (0x3021, 0x3029)]);
            run.src.range(r.0, r.1) as u32
        }
        5 => run.src.below(0x110000) as u32,
        6 => 0x21 + run.src.below(0x3000) as u32,
        _ => *run.src.pick(names::listed()),
    }
}

const TYPES: [NameAliasType; 5] = [
    NameAliasType::NameCorrections,
    NameAliasType::ControlCodeNames,
    NameAliasType::AlternateNames,
    NameAliasType::Figments,
    NameAliasType::NameAbbreviations,
];

/// A catalogue that nodes fill with the names and aliases of characters and from which they resolve them: names and
/// aliases share one namespace.
fn catalogue(run: &mut Run) -> Res {
    // what nodes have entered, with the character each of them meant
    let mut entries: HashMap<String, u32, BuildHasherDefault<DefaultHasher>> = HashMap::default();
    let mut chars: Vec<char> = vec![];
    for _ in 0..run.src.range(2, 30) {
        let what = run.src.weighted(&[6, 3, 2, 1]);
        run.il(what as u64);
        run.stats.steps += 1;
        if chars.is_empty() || what == 0 {
            let c = match run.src.below(3) {
                0 => named(run),
                1 => run.src.pick(aliases::TABLE).0,
                // whose names look like aliases or lie beside characters with aliases
                _ => run.src.pick(aliases::TABLE).0 + run.src.below(3) as u32,
            };
            let Some(c) = char::from_u32(c) else { continue };
            let mut ids: Vec<String> = Name::of(c).iter().map(|n| n.to_string()).collect();
            check!(names::is_name(c as u32, ids.first().map(|s| &s[..])), "name", "the name of U+{:04X} is {:?}", c as u32, ids);
            let mut want = vec![];
            for (i, t) in TYPES.iter().enumerate() {
                let a = name_aliases_of(c, *t);
                let w = aliases::TABLE.iter().find(|e| e.0 == c as u32 && e.1 == i).map(|e| e.2);
                check!(a == w, "aliases", "the aliases ({:?}) of U+{:04X} are {:?}, expected {:?}", t, c as u32, a, w);
                if let Some(a) = a {
                    want.push(*t);
                    ids.extend(a.iter().map(|s| s.to_string()));
                }
            }
            let types = NameAliasType::of(c).unwrap_or(&[]);
            check!(types.len() == want.len() && want.iter().all(|t| types.contains(t)), "alias-types", "the types of aliases of U+{:04X} are {:?}, expected {:?}", c as u32, types, want);
            // the records reach the catalogue in any order; some are lost
            while !ids.is_empty() {
                let id = ids.swap_remove(run.src.below(ids.len()));
                if run.src.chance(1, 8) {
                    run.fault("record lost");
                    continue;
                }
                run.note(|| format!("\"{}\" is entered for U+{:04X}", id, c as u32));
                run.ev("enter", c as u64, hash_str(&id));
                let old = entries.insert(id.clone(), c as u32);
                check!(old.is_none() || old == Some(c as u32), "namespace", "\"{}\" names U+{:04X} and U+{:04X}", esc(&id), c as u32, old.unwrap_or(0));
            }
            chars.push(c);
            run.state(c as u64);
        } else if what == 1 {
            // resolve a character by what it is called now
            let c = *run.src.pick(&chars);
            let ids = Name::of(c).into_iter().map(|n| n.to_string()).chain(TYPES.iter().flat_map(|t| name_aliases_of(c, *t).unwrap_or(&[]).iter().map(|s| s.to_string())));
            for id in ids {
                let got = entries.get(&id).copied();
                check!(got.is_none() || got == Some(c as u32), "resolve", "\"{}\" is resolved to U+{:04X}, not U+{:04X}", esc(&id), got.unwrap_or(0), c as u32);
            }
        } else if what == 2 {
            chars.push(*run.src.pick(&chars));
            run.fault("record repeated");
        } else {
            entries.clear();
            run.fault("catalogue lost");
        }
    }
    Ok(())
}

pub fn keys(run: &mut Run) -> Res {
    match run.src.below(9) {
        8 => catalogue(run),
        0..=3 => registries(run, |run| loop {
            let Some(c) = char::from_u32(named(run)) else { continue };
            let n = Name::of(c);
            let text = n.map(|n| n.to_string());
            check!(names::is_name(c as u32, text.as_deref()), "name", "the name of U+{:04X} is {:?}", c as u32, text);
            if let (Some(n), Some(t)) = (n, text) {
                check!(n.len() == t.len(), "length", "the length of {:?} is said to be {}", t, n.len());
                return Ok((n, t));
            }
            run.probe("character without a name");
        }),
        4 => registries(run, |run| loop {
            // the ages there are
            let c = match run.src.below(3) {
                0 => run.src.below(0x110000) as u32,
                1 => run.src.below(0x3000) as u32,
                _ => *run.src.pick(names::listed()),
            };
            let Some(a) = char::from_u32(c).and_then(Age::of) else { continue };
            let v = a.actual();
            return Ok((a, Reverse((v.major, v.minor, v.micro))));
        }),
        5 => registries(run, |run| {
            let mut n = || match run.src.below(3) {
                0 => run.src.below(3) as u8,
                1 => run.src.below(13) as u8,
                _ => run.src.below(256) as u8,
            };
            let t = (n(), n(), n());
            Ok((UnicodeVersion { major: t.0, minor: t.1, micro: t.2 }, t))
        }),
        6 => registries(run, |run| loop {
            let c = if run.src.chance(1, 4) { run.src.below(0x1F000) as u32 } else { run.src.pick(crate::data::norm::CCC).0 };
            let Some(c) = char::from_u32(c) else { continue };
            let k = CanonicalCombiningClass::of(c);
            return Ok((k, k.number()));
        }),
        _ => registries(run, |run| {
            let n = run.src.below(127) as u8;
            Ok((Level::new(n).unwrap(), n))
        }),
    }
}
