use colorz::{Effect, EffectFlags};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use vcore::model::{EFFECTS, flags};
use vcore::run::*;
use vcore::term::FX;
use vcore::{ensure, ensure_eq};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    With(u8),
    Without(u8),
    Toggled(u8),
    Set(u8),
    Unset(u8),
    Toggle(u8),
    FromArray(Vec<u8>),
    Collect(Vec<u8>),
    CollectRefs(Vec<u8>),
    CollectMutRefs(Vec<u8>),
    /// rebuilt from its own iterator
    Rebuild,
    All,
    New,
    Default,
}

fn e(i: u8) -> Effect {
    EFFECTS[i as usize]
}
fn es(v: &[u8]) -> Vec<Effect> {
    v.iter().map(|i| e(*i)).collect()
}

/// A set of effects, kept as a sorted set of indices
type Model = BTreeSet<u8>;

fn step(f: &mut EffectFlags, m: &mut Model, op: &Op) {
    match op {
        Op::With(i) => {
            *f = f.with(e(*i));
            m.insert(*i);
        }
        Op::Set(i) => {
            f.set(e(*i));
            m.insert(*i);
        }
        Op::Without(i) => {
            *f = f.without(e(*i));
            m.remove(i);
        }
        Op::Unset(i) => {
            f.unset(e(*i));
            m.remove(i);
        }
        Op::Toggled(i) => {
            *f = f.toggled(e(*i));
            if !m.remove(i) {
                m.insert(*i);
            }
        }
        Op::Toggle(i) => {
            f.toggle(e(*i));
            if !m.remove(i) {
                m.insert(*i);
            }
        }
        Op::FromArray(v) => {
            let x = es(v);
            *f = match x[..] {
                [] => EffectFlags::from_array([]),
                [a] => EffectFlags::from_array([a]),
                [a, b] => EffectFlags::from_array([a, b]),
                [a, b, c] => EffectFlags::from_array([a, b, c]),
                [a, b, c, d] => EffectFlags::from_array([a, b, c, d]),
                [a, b, c, d, e] => EffectFlags::from_array([a, b, c, d, e]),
                _ => EffectFlags::from_array::<20>(std::array::from_fn(|i| x[i % x.len()])),
            };
            *m = v.iter().copied().collect();
            if v.len() > 20 {
                *m = v[..20].iter().copied().collect();
            }
        }
        Op::Collect(v) => {
            *f = es(v).into_iter().collect();
            *m = v.iter().copied().collect();
        }
        Op::CollectRefs(v) => {
            *f = es(v).iter().collect();
            *m = v.iter().copied().collect();
        }
        Op::CollectMutRefs(v) => {
            *f = es(v).iter_mut().collect();
            *m = v.iter().copied().collect();
        }
        Op::Rebuild => *f = f.iter().take(100).collect(),
        Op::All => {
            *f = EffectFlags::all();
            *m = (0..13).collect();
        }
        Op::New => {
            *f = EffectFlags::new();
            m.clear();
        }
        Op::Default => {
            *f = EffectFlags::default();
            m.clear();
        }
    }
}

/// the effect names in a debug output, sorted
fn names(debug: &str) -> Vec<String> {
    let all: Vec<String> = EFFECTS.iter().map(|x| format!("{x:?}")).collect();
    let mut v: Vec<String> = debug
        .split(|c: char| !c.is_alphanumeric())
        .filter(|s| all.iter().any(|n| n == s))
        .map(String::from)
        .collect();
    v.sort();
    v
}

fn agree(f: EffectFlags, m: &Model) -> Result<(), String> {
    for i in 0..13 {
        ensure_eq!(f.is(e(i)), m.contains(&i), "is({:?}) of {m:?}", e(i));
    }
    ensure_eq!(f.is_plain(), m.is_empty(), "is_plain of {m:?}");
    // iteration: each member once, then the end, and it stays at the end
    for it in [f.iter(), f.into_iter()] {
        let got: Vec<Effect> = it.clone().take(64).collect();
        let set: Model = got.iter().map(|x| vcore::model::fx_index(*x) as u8).collect();
        ensure_eq!(set, *m, "members iterated");
        ensure_eq!(got.len(), m.len(), "number of items iterated of {m:?}");
        // every other way of consuming it yields the same members
        ensure_eq!(it.clone().count(), got.len(), "count of {m:?}");
        ensure_eq!(it.clone().last(), got.last().copied(), "last of {m:?}");
        let mut all = Vec::new();
        it.clone().for_each(|x| all.push(x));
        ensure_eq!(all, got, "for_each over {m:?}");
        let all = it.clone().fold(Vec::new(), |mut v, x| {
            v.push(x);
            v
        });
        ensure_eq!(all, got, "fold over {m:?}");
        for k in 0..got.len() + 2 {
            let mut i = it.clone();
            ensure_eq!(i.nth(k), got.get(k).copied(), "nth({k}) of {m:?}");
            ensure_eq!(i.collect::<Vec<_>>(), got[(k + 1).min(got.len())..].to_vec(), "the rest after nth({k}) of {m:?}");
            let mut i = it.clone();
            let mut seen = 0;
            let found = i.find(|_| {
                seen += 1;
                seen > k
            });
            ensure_eq!(found, got.get(k).copied(), "find, after {k} others, in {m:?}");
            ensure_eq!(i.collect::<Vec<_>>(), got[(k + 1).min(got.len())..].to_vec(), "the rest after find in {m:?}");
            let v: Vec<Effect> = it.clone().step_by(k + 1).collect();
            ensure_eq!(v, got.iter().copied().step_by(k + 1).collect::<Vec<_>>(), "step_by({}) of {m:?}", k + 1);
        }
        let mut it = it;
        let mut left = m.len();
        loop {
            let (lo, hi) = it.size_hint();
            ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size_hint {:?} with {left} left", (lo, hi));
            let rest: Vec<Effect> = it.clone().take(64).collect();
            ensure_eq!(rest, got[got.len() - left..].to_vec(), "a clone of a half-used iterator");
            ensure_eq!(names(&format!("{it:?}")), names_of(&rest), "debug of a half-used iterator");
            if it.next().is_none() {
                break;
            }
            left -= 1;
        }
        ensure_eq!(it.next(), None, "after the end");
        ensure_eq!(it.next(), None, "after the end, again");
    }
    let want: Vec<Effect> = m.iter().map(|i| e(*i)).collect();
    ensure_eq!(names(&format!("{f:?}")), names_of(&want), "debug output");
    ensure_eq!(names(&format!("{f:#?}")), names_of(&want), "alternate debug output");
    Ok(())
}

fn names_of(v: &[Effect]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(|x| format!("{x:?}")).collect();
    v.sort();
    v
}

fn std_hash(f: EffectFlags) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    f.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Pair {
    a: Vec<Op>,
    b: Vec<Op>,
}

fn check(c: &Pair) -> Result<Info, String> {
    let mut ends = Vec::new();
    for ops in [&c.a, &c.b] {
        let (mut f, mut m) = (EffectFlags::new(), Model::new());
        agree(f, &m)?;
        for op in ops {
            step(&mut f, &mut m, op);
            agree(f, &m).map_err(|x| format!("{x} (after {op:?})"))?;
        }
        ends.push((f, m));
    }
    let [(f, m), (g, n)] = &ends[..] else { unreachable!() };
    ensure_eq!(f.is_any(*g), !m.is_disjoint(n), "is_any of {m:?} and {n:?}");
    ensure_eq!(g.is_any(*f), !m.is_disjoint(n), "is_any of {n:?} and {m:?}");
    ensure_eq!(f.is_any(*f), !m.is_empty(), "is_any of {m:?} with itself");
    ensure_eq!(f == g, m == n, "equality of {m:?} and {n:?}");
    if m == n {
        ensure_eq!(std_hash(*f), std_hash(*g), "hash of equal collections");
    }
    Ok(Info {
        nontrivial: c.a.len() + c.b.len() > 1 && !(m.is_empty() && n.is_empty()),
        label: if m == n { "equal pair" } else if m.is_disjoint(n) { "disjoint pair" } else { "overlapping pair" },
    })
}

/// all pairs of one collection with the others, by value
fn pairs(x: &u16) -> Result<Info, String> {
    let f = flags(*x);
    let m: Model = (0..13).filter(|i| x >> i & 1 == 1).collect();
    agree(f, &m)?;
    let mut y = 1u16;
    for _ in 0..400 {
        // a full-period walk over 0..8192, different for each x
        y = (y.wrapping_mul(4093).wrapping_add(x | 1)) & 8191;
        let g = flags(y);
        ensure_eq!(f.is_any(g), x & y != 0, "is_any of {x:#b} and {y:#b}");
        ensure_eq!(f == g, *x == y, "equality of {x:#b} and {y:#b}");
    }
    for i in 0..13u8 {
        for (g, want) in [
            (f.with(e(i)), x | 1 << i),
            (f.without(e(i)), x & !(1 << i)),
            (f.toggled(e(i)), x ^ 1 << i),
        ] {
            ensure_eq!(vcore::model::unflags(g), want, "changing {:?} in {x:#b}", e(i));
            ensure!(g == flags(want), "{g:?} is not equal to a collection with the same members");
        }
    }
    ok(*x != 0)
}

fn codes(i: &u8) -> Result<Info, String> {
    let x = e(*i);
    let (on, off, _) = FX[*i as usize];
    ensure_eq!(x.apply_args(), on.to_string(), "start code of {x:?}");
    ensure_eq!(x.clear_args(), off.to_string(), "end code of {x:?}");
    ensure_eq!(x.apply_escape(), format!("\x1b[{on}m"), "start sequence of {x:?}");
    ensure_eq!(x.clear_escape(), format!("\x1b[{off}m"), "end sequence of {x:?}");
    let mut y = x;
    ensure_eq!(Effect::from(&x), x, "from a reference");
    ensure_eq!(Effect::from(&mut y), x, "from a mutable reference");
    ok(true)
}

pub fn run(mut ctx: Ctx) {
    ctx.exhaustive("codes", 0u8..13, codes);
    ctx.exhaustive("all_sets", 0u16..8192, pairs);
    let i = 0u8..13;
    let v = prop_oneof![
        4 => prop::collection::vec(0u8..13, 0..7),
        1 => prop::collection::vec(0u8..13, 0..30),
    ];
    let op = prop_oneof![
        4 => i.clone().prop_map(Op::With),
        3 => i.clone().prop_map(Op::Set),
        3 => i.clone().prop_map(Op::Without),
        3 => i.clone().prop_map(Op::Unset),
        3 => i.clone().prop_map(Op::Toggled),
        3 => i.prop_map(Op::Toggle),
        1 => v.clone().prop_map(Op::FromArray),
        1 => v.clone().prop_map(Op::Collect),
        1 => v.clone().prop_map(Op::CollectRefs),
        1 => v.prop_map(Op::CollectMutRefs),
        1 => Just(Op::Rebuild),
        1 => Just(Op::All),
        1 => Just(Op::New),
        1 => Just(Op::Default),
    ];
    let ops = prop::collection::vec(op, 0..25);
    let s = (ops.clone(), ops, any::<u8>()).prop_map(|(a, b, k)| match k {
        // related pairs: equal, or one a prefix of the other
        0..=40 => Pair { b: a.clone(), a },
        41..=120 => {
            let mut b2 = a.clone();
            b2.extend(b.into_iter().take(2));
            Pair { a, b: b2 }
        }
        _ => Pair { a, b },
    });
    ctx.prop("histories", 60_000, 1_500_000, s, check);
    ctx.finish()
}
