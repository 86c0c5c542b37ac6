//! T05: what is compared, ordered and hashed.
use crate::core::{Rng, Run};
use crate::t::TL;
use genco::lang::{c, csharp, dart, go, java, js, nix, python, rust, swift};
use genco::tokens::{Item, ItemStr};
use genco::Tokens;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// what a value is made of, part by part
type Parts = Vec<Option<String>>;

const POOL: &[&str] = &["", "a", "b", "A", "ab", "aa", "a\u{0}", "\u{e9}", "e", "z", "\u{ffff}", "\u{10000}", "\u{7f}", "\u{80}", "a.b", "a/b", "Z", "_"];

fn text(r: &mut Rng, few: bool) -> &'static str {
    POOL[r.below(if few { 4 } else { POOL.len() })]
}

/// one of the ways to store a text
fn stored(r: &mut Rng, s: &'static str) -> ItemStr {
    match r.below(4) {
        0 => ItemStr::Static(s),
        1 => ItemStr::Box(s.into()),
        2 => ItemStr::from(s.to_string()),
        _ => ItemStr::from(std::borrow::Cow::Borrowed(s)),
    }
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn bad<T>(want: impl Debug, got: impl Debug) -> Result<T, (String, String)> {
    Err((format!("{want:?}"), format!("{got:?}")))
}

/// two values against the parts they were made of
fn pair<T: Ord + Hash + Debug + Clone>(text: bool, a: &(Parts, T), b: &(Parts, T)) -> Result<(), (String, String)> {
    let same = a.0 == b.0;
    if (a.1 == b.1) != same || (b.1 == a.1) != same || (a.1 != b.1) == same {
        return bad(format!("{:?} == {:?} is {same}", a.1, b.1), !same);
    }
    let want = if text { a.0.cmp(&b.0) } else { a.1.cmp(&b.1) };
    if a.1.cmp(&b.1) != want || b.1.cmp(&a.1) != want.reverse() || (want == Ordering::Equal) != same {
        return bad(format!("{:?} is one of less, equal or greater compared with {:?}, equal only if it is the same, and the other way around from the other side", a.1, b.1), (a.1.cmp(&b.1), b.1.cmp(&a.1)));
    }
    if a.1.partial_cmp(&b.1) != Some(want) || (a.1 < b.1) != (want == Ordering::Less) || (a.1 >= b.1) != (want != Ordering::Less) {
        return bad(format!("{:?} is {want:?} compared with {:?}", a.1, b.1), a.1.partial_cmp(&b.1));
    }
    if a.1.clone() != a.1 {
        return bad(format!("a clone of {:?} that is equal", a.1), a.1.clone());
    }
    if same && hash(&a.1) != hash(&b.1) {
        return bad(format!("one hash for {:?} and {:?}", a.1, b.1), "two");
    }
    Ok(())
}

fn group<T: Ord + Hash + Debug + Clone>(run: &mut Run, name: &str, all: Vec<(Parts, T)>) {
    let d: Vec<_> = all.iter().map(|x| &x.0).collect();
    run.case(&(name, &d), true, || {
        for a in &all {
            for b in &all {
                pair(name == "text", a, b)?;
                for c in &all {
                    if a.1 <= b.1 && b.1 <= c.1 && a.1 > c.1 {
                        return bad(format!("{:?} no greater than {:?}", a.1, c.1), "greater");
                    }
                }
            }
        }
        let parts: BTreeSet<&Parts> = all.iter().map(|x| &x.0).collect();
        let set: BTreeSet<&T> = all.iter().map(|x| &x.1).collect();
        let hashed: HashSet<&T> = all.iter().map(|x| &x.1).collect();
        if set.len() != parts.len() || hashed.len() != parts.len() {
            return bad(format!("{} different values", parts.len()), (set.len(), hashed.len()));
        }
        Ok(())
    });
}

macro_rules! parts { ($($x:expr),*) => { vec![$($x),*] } }
fn s(x: impl ToString) -> Option<String> {
    Some(x.to_string())
}

pub fn t05(run: &mut Run) {
    let mut r = Rng::new(run.seed);
    // texts: every pair of a larger pool, in every form
    let mut pool: Vec<&'static str> = POOL.to_vec();
    for i in 0..0x800u32 {
        if i % 7 == 0 {
            let c = char::from_u32(i).unwrap();
            pool.push(Box::leak(format!("{c}").into_boxed_str()));
            pool.push(Box::leak(format!("x{c}y").into_boxed_str()));
        }
    }
    for _ in 0..400 {
        pool.push(Box::leak(r.text().into_boxed_str()));
    }
    let n = if run.thorough { 40_000 } else { 4_000 };
    for _ in 0..n {
        let all: Vec<(Parts, ItemStr)> = (0..6)
            .map(|_| {
                let t = pool[r.below(pool.len())];
                (parts![s(t)], stored(&mut r, t))
            })
            .collect();
        let again: Vec<(Parts, ItemStr)> = all.iter().take(3).map(|(p, _)| {
            let t = pool.iter().find(|x| Some(x.to_string()) == p[0]).unwrap();
            (p.clone(), stored(&mut r, t))
        }).collect();
        group(run, "text", all.into_iter().chain(again).collect());
    }
    let n = if run.thorough { 20_000 } else { 1_000 };
    for k in 0..n {
        let few = k % 2 == 0;
        let size = 8;
        macro_rules! many {
            ($name:expr, $f:expr) => {{
                let f: &dyn Fn(&mut Rng) -> (Parts, _) = &$f;
                let all = (0..size).map(|_| f(&mut r)).collect::<Vec<_>>();
                group(run, $name, all);
            }};
        }
        many!("c", |r: &mut Rng| {
            let (a, b, sys) = (text(r, few), text(r, few), r.chance(50));
            let (x, y) = (stored(r, a), stored(r, b));
            (parts![s(a), s(b), s(sys as u8)], if sys { c::include_system(x, y) } else { c::include(x, y) })
        });
        many!("csharp", |r: &mut Rng| {
            let (a, b, q) = (text(r, few), text(r, few), r.chance(50));
            let i = csharp::import(stored(r, a), stored(r, b));
            (parts![s(a), s(b), s(q as u8)], if q { i.qualified() } else { i })
        });
        many!("dart", |r: &mut Rng| {
            let (a, b, al) = (text(r, few), text(r, few), r.chance(50).then(|| text(r, few)));
            let i = dart::import(stored(r, a), stored(r, b));
            (parts![s(a), s(b), al.and_then(s)], match al { Some(al) => i.with_alias(stored(r, al)), None => i })
        });
        many!("go", |r: &mut Rng| {
            let (a, b) = (text(r, few), text(r, few));
            (parts![s(a), s(b)], go::import(stored(r, a), stored(r, b)))
        });
        many!("java", |r: &mut Rng| {
            let (a, b) = (text(r, few), text(r, few));
            (parts![s(a), s(b)], java::import(stored(r, a), stored(r, b)))
        });
        many!("swift", |r: &mut Rng| {
            let (a, b) = (text(r, few), text(r, few));
            (parts![s(a), s(b)], swift::import(stored(r, a), stored(r, b)))
        });
        many!("js", |r: &mut Rng| {
            let (a, b, k, al) = (text(r, few), text(r, few), r.below(3), r.chance(40).then(|| text(r, few)));
            let i = js::import(stored(r, a), stored(r, b));
            let i = match al { Some(al) => i.with_alias(stored(r, al)), None => i };
            let i = match k { 0 => i, 1 => i.into_default(), _ => i.into_wildcard() };
            // a default import and a wildcard have no alias
            (parts![s(k), s(a), s(b), if k == 0 { al.and_then(s) } else { None }], i)
        });
        many!("python", |r: &mut Rng| {
            let (a, b, al, k) = (text(r, few), text(r, few), r.chance(40).then(|| text(r, few)), r.below(3));
            let i = python::import(stored(r, a), stored(r, b));
            let i = match al { Some(al) => i.with_alias(stored(r, al)), None => i };
            let (i, m, ma) = match k {
                0 => (i, "0", None),
                1 => (i.qualified(), "1", None),
                _ => { let ma = text(r, few); (i.with_module_alias(stored(r, ma)), "1", Some(ma)) }
            };
            let mut p = parts![s(m), s(a)];
            p.push(ma.and_then(s)); p.push(s(b)); p.push(if k == 0 { al.and_then(s) } else { None });
            (p, i)
        });
        many!("python module", |r: &mut Rng| {
            let (a, al) = (text(r, few), r.chance(50).then(|| text(r, few)));
            let i = python::import_module(stored(r, a));
            (parts![s(a), al.and_then(s)], match al { Some(al) => i.with_alias(stored(r, al)), None => i })
        });
        many!("rust", |r: &mut Rng| {
            let (a, b, al, k) = (text(r, few), text(r, few), r.chance(40).then(|| text(r, few)), r.below(4));
            let i = rust::import(stored(r, a), stored(r, b));
            let i = match al { Some(al) => i.with_alias(stored(r, al)), None => i };
            let (i, p) = match k {
                0 if al.is_some() => (i, parts![s(0), s(0), s(a), s(b), al.and_then(s)]),
                0 => (i, parts![s(0), None, s(a), s(b), al.and_then(s)]),
                1 => (i.direct(), parts![s(0), s(0), s(a), s(b), al.and_then(s)]),
                2 => (i.qualified(), parts![s(0), s(1), s(a), s(b), al.and_then(s)]),
                _ => { let ma = text(r, few); (i.with_module_alias(stored(r, ma)), parts![s(1), s(a), s(ma), s(b), al.and_then(s)]) }
            };
            (p, i)
        });
        many!("nix", |r: &mut Rng| {
            let (a, b, k) = (text(r, few), text(r, few), r.below(4));
            let (x, y) = (stored(r, a), stored(r, b));
            match k {
                0 => (parts![s(0), s(a)], nix::argument(x)),
                1 => (parts![s(1), s(a), s(b)], nix::inherit(x, y)),
                2 => (parts![s(2), s(a), s(b)], nix::variable(x, { let mut t = Tokens::new(); t.append(y); t })),
                _ => (parts![s(3), s(a), s(b)], nix::with(x, y)),
            }
        });
    }
    // streams: equal exactly if their items are, one by one
    let n = if run.thorough { 40_000 } else { 4_000 };
    for k in 0..n {
        let l = r.below(5);
        let ops = crate::t::random_ops(&mut r, l, 1);
        let l = r.below(5);
        let other = if r.chance(30) { ops.clone() } else { crate::t::random_ops(&mut r, l, 1) };
        run.case(&(k, &ops, &other), true, || {
            let (t, u): (Tokens<TL>, Tokens<TL>) = (crate::t::build(&ops), crate::t::build(&other));
            let swap = |x: &Item<TL>| match x {
                Item::Literal(ItemStr::Box(b)) => Item::Literal(ItemStr::Static(Box::leak(b.clone()))),
                Item::Literal(ItemStr::Static(b)) => Item::Literal(ItemStr::Box((*b).into())),
                x => x.clone(),
            };
            let (tv, uv): (Vec<Item<TL>>, Vec<Item<TL>>) = (t.iter().map(swap).collect(), u.iter().cloned().collect());
            let want = crate::t::real_items(&t) == crate::t::real_items(&u);
            let got = [t == u, u == t, t == uv, uv == t, t == uv[..], uv[..] == t, tv == uv, uv == tv, t.cmp(&u) == Ordering::Equal, t.partial_cmp(&u) == Some(Ordering::Equal)];
            if got != [want; 10] {
                return bad([want; 10], got);
            }
            if t.clone() != t || t.clone().walk_imports().count() != t.walk_imports().count() {
                return bad("a clone that is equal", t.clone());
            }
            if t.cmp(&u) != u.cmp(&t).reverse() || tv.cmp(&uv) != t.cmp(&u) {
                return bad("one order from both sides", (t.cmp(&u), u.cmp(&t), tv.cmp(&uv)));
            }
            if !(t == tv && tv == t && t == tv[..] && tv[..] == t) || (want && (hash(&t) != hash(&u) || hash(&tv) != hash(&uv))) {
                return bad("equal and of one hash, however texts are stored", (hash(&t), hash(&u), hash(&tv)));
            }
            Ok(())
        });
    }
    run.bound("random texts (single characters below U+0800, alone or between two others, 400 drawn around the literals of the code, and 18 further strings) in 4 ways of storing them, 9 at a time; for each kind of import 8 at a time from 4 or 18 texts per field, every pair and triple; streams of at most 4 operations nested once against their items");
}
