//! C02: names are compared by their normalized form everywhere.
use crate::gen;
use crate::prop::*;
use posy::verif_hooks::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// Two spellings: often equivalent, often nearly so.
fn pair(g: &mut G) -> (String, String) {
    let a = gen::name(g, true);
    let b = match g.below(5) {
        0 => a.clone(),
        1 | 2 => gen::respell(g, &a),
        3 => {
            let m = gen::mutate(g, &a);
            if gen::legal_name(&m) { m } else { gen::respell(g, &a) }
        }
        _ => gen::name(g, true),
    };
    (a, b)
}

fn names(g: &mut G) -> R {
    let (a, b) = pair(g);
    g.note(format!("{a:?} vs {b:?}"));
    let same = gen::normalize(&a) == gen::normalize(&b);
    g.nontrivial = a != b;
    g.label(if same { "equivalent" } else { "different" });
    let pa: PackageName = match a.parse() {
        Ok(p) => p,
        Err(e) => return fail(format!("legal name {a:?} refused: {e}")),
    };
    let pb: PackageName = match b.parse() {
        Ok(p) => p,
        Err(e) => return fail(format!("legal name {b:?} refused: {e}")),
    };
    ensure!(pa.as_given() == a, "as_given() is {:?} for {a:?}", pa.as_given());
    ensure!(pa.normalized() == gen::normalize(&a), "normalized form of {a:?} is {:?}, expected {:?}", pa.normalized(), gen::normalize(&a));
    ensure!((pa == pb) == same, "{a:?} == {b:?} is {}, but their normalized forms are {:?} and {:?}", pa == pb, gen::normalize(&a), gen::normalize(&b));
    ensure!((pb == pa) == same, "== is not symmetric for {a:?}, {b:?}");
    if same {
        ensure!(h(&pa) == h(&pb), "equal names {a:?} and {b:?} hash differently");
    }
    let c = pa.cmp(&pb);
    ensure!((c == Ordering::Equal) == same, "{a:?}.cmp({b:?}) is {c:?}, but == is {same}");
    ensure!(pa.partial_cmp(&pb) == Some(c), "partial_cmp and cmp disagree on {a:?}, {b:?}: {:?} vs {c:?}", pa.partial_cmp(&pb));
    ensure!(pb.cmp(&pa) == c.reverse(), "cmp is not antisymmetric on {a:?}, {b:?}");
    let mut m = HashMap::new();
    m.insert(pa.clone(), 1);
    ensure!(m.contains_key(&pb) == same, "HashMap lookup of {b:?} among {a:?} gives {}", m.contains_key(&pb));
    let mut t = BTreeMap::new();
    t.insert(pa.clone(), 1);
    ensure!(t.contains_key(&pb) == same, "BTreeMap lookup of {b:?} among {a:?} gives {}", t.contains_key(&pb));
    // the stored form keeps the spelling
    let j = serde_json::to_string(&pa).unwrap();
    let back: PackageName = serde_json::from_str(&j).map_err(|e| ff(format!("{j} does not load: {e}")))?;
    ensure!(back == pa && back.as_given() == a, "{a:?} comes back from JSON as {:?}", back.as_given());

    // extras
    let ea: Extra = a.parse().map_err(|e| ff(format!("legal extra {a:?} refused: {e}")))?;
    let eb: Extra = b.parse().map_err(|e| ff(format!("legal extra {b:?} refused: {e}")))?;
    ensure!(ea.as_given() == a && ea.normalized() == gen::normalize(&a), "extra {a:?}: as_given {:?}, normalized {:?}", ea.as_given(), ea.normalized());
    ensure!((ea == eb) == same, "extras {a:?} == {b:?} is {}", ea == eb);
    ensure!(!same || h(&ea) == h(&eb), "equal extras {a:?}, {b:?} hash differently");

    // and the users' side: pre-release policy and artifact/requirement names
    let mut set = std::collections::HashSet::new();
    set.insert(pa.clone());
    let allow = AllowPre::Some(set);
    ensure!(allow.allow_pre_for(&pb) == same, "pre-releases allowed for {a:?}: allowed for {b:?} is {}", allow.allow_pre_for(&pb));
    ensure!(AllowPre::All.allow_pre_for(&pb), "AllowPre::All does not allow {b:?}");
    Ok(())
}

fn order(g: &mut G) -> R {
    let mut spellings = vec![gen::name(g, true)];
    for _ in 0..g.range(2, 5) {
        let base = spellings[g.usize(spellings.len())].clone();
        let s = match g.below(4) {
            0 => gen::respell(g, &base),
            1 | 2 => {
                let m = gen::mutate(g, &base);
                if gen::legal_name(&m) { m } else { gen::name(g, true) }
            }
            _ => gen::name(g, true),
        };
        spellings.push(s);
    }
    g.note(format!("{spellings:?}"));
    let ps: Vec<PackageName> = spellings.iter().map(|s| s.parse().unwrap()).collect();
    g.nontrivial = true;
    for x in &ps {
        for y in &ps {
            for z in &ps {
                if x <= y && y <= z {
                    ensure!(x <= z, "{:?} <= {:?} <= {:?} but not first <= last", x.as_given(), y.as_given(), z.as_given());
                }
                if x == y && y == z {
                    ensure!(x == z, "== is not transitive: {:?} {:?} {:?}", x.as_given(), y.as_given(), z.as_given());
                }
                if x == y {
                    ensure!(x.cmp(z) == y.cmp(z), "equal names {:?}, {:?} order differently against {:?}", x.as_given(), y.as_given(), z.as_given());
                }
            }
        }
    }
    Ok(())
}

fn invalid(g: &mut G) -> R {
    let s = match g.below(3) {
        0 => g.string(b"ab-_. \n!/0", 0, 6),
        _ => {
            let n = gen::name(g, true);
            gen::mutate(g, &n)
        }
    };
    g.note(format!("{s:?}"));
    let legal = gen::legal_name(&s);
    g.label(if legal { "legal" } else { "illegal" });
    g.nontrivial = !legal;
    let r: eyre::Result<PackageName> = s.parse();
    ensure!(r.is_ok() == legal, "name {s:?}: legal is {legal}, accepted is {}", r.is_ok());
    let e: eyre::Result<Extra> = s.parse();
    ensure!(e.is_ok() == legal, "extra {s:?}: legal is {legal}, accepted is {}", e.is_ok());
    let j: Result<PackageName, _> = serde_json::from_str(&serde_json::to_string(&s).unwrap());
    ensure!(j.is_ok() == legal, "name {s:?} from JSON: legal is {legal}, accepted is {}", j.is_ok());
    Ok(())
}

pub fn property() -> Property {
    #[allow(unused_mut)]
    let mut p = Property {
        id: "C02",
        level: "exploration",
        assumptions: &["PEP 503/508 define a legal name as ASCII letters, digits, '-', '_', '.', beginning and ending with a letter or digit"],
        subs: vec![
            Sub { name: "pairs", rule: "a random legal spelling and a respelling, near-miss mutation or fresh one, as project and as extra name; Eq/Ord/Hash/map lookups/policy lookups/JSON against PEP 503 normalization written independently; non-trivial = the two spellings differ", quick: 450_000, thorough: 3_000_000, threads: 8, run: names },
            Sub { name: "order", rule: "3-6 related spellings; all triples for transitivity and consistency of the order; all non-trivial", quick: 120_000, thorough: 800_000, threads: 8, run: order },
            Sub { name: "illegal", rule: "mutated names and random strings; accepted exactly if legal; non-trivial = illegal", quick: 300_000, thorough: 2_000_000, threads: 8, run: invalid },
        ],
    };
    #[cfg(feature = "c18")]
    p.subs.push(Sub { name: "resolver", rule: "universes as in C18, whose projects and extras are spelled differently wherever they are mentioned; every resolution against the requirement closure; non-trivial as in C18", quick: 3_000, thorough: 100_000, threads: 16, run: super::c18::solutions });
    p
}
