//! C17: platform tags expand completely and best-first.
use crate::gen;
use crate::prop::*;
use crate::tags::*;
use posy::verif_hooks::*;
use std::collections::HashSet;

const ARCHES: &[&str] = &["x86_64", "i686", "aarch64", "arm64", "armv7l", "ppc64le", "s390x", "universal2", "intel", "fat64", "universal", "x86", "ARM64", "", "_"];

pub fn core_tag(g: &mut G) -> String {
    let arch = g.pick(ARCHES).to_string();
    match g.weighted(&[5, 3, 6, 2, 1, 1, 1]) {
        0 => format!("manylinux_{}_{}_{arch}", if g.chance(1, 6) { g.range(0, 11) } else { 2 }, g.below(45)),
        1 => format!("musllinux_{}_{}_{arch}", g.range(0, 2), g.below(8)),
        2 => match g.below(3) {
            0 => format!("macosx_10_{}_{arch}", g.below(20)),
            _ => format!("macosx_{}_{}_{arch}", g.range(8, 16), g.below(20)),
        },
        3 => format!("manylinux{}_{arch}", g.pick(&["1", "2010", "2014"])),
        4 => g.pick(&["win32", "win_amd64", "win_arm64", "any", "linux_x86_64", "linux_armv7l", ""]).to_string(),
        5 => format!("{}_{}_{}_{arch}", g.pick(&["manylinux", "musllinux", "macosx", "linux", "muslinux"]), g.pick(&["2", "01", "002", "1x", "-1", ""]), g.pick(&["17", "05", "0", "x", "", "+3"])),
        _ => {
            let s = core_tag(g);
            gen::mutate(g, &s)
        }
    }
}

fn small(tag: &str) -> bool {
    // (core tags come from inspecting the machine: no numbers beyond those any system has)
    tag.split(|c: char| !c.is_ascii_digit()).all(|d| d.len() <= 5)
}

fn expand(g: &mut G) -> R {
    let t = core_tag(g);
    if !small(&t) {
        return Ok(());
    }
    g.note(format!("{t:?}"));
    let want = expansion(&t);
    let m = meaning(&t);
    g.nontrivial = m != Meaning::Other;
    g.label(match m {
        Meaning::Linux { .. } => "linux",
        Meaning::Mac { .. } => "mac",
        Meaning::Other => "other",
    });
    let got = expand_platform_tag(&t);
    ensure!(got == want, "expansion of {t:?} is\n  {got:?}\nexpected\n  {want:?}");
    let p = PybiPlatform::new(&t);
    ensure!(p.core_tag() == want[0], "core tag of {t:?} is {:?}", p.core_tag());
    let tags: Vec<&String> = p.tags().collect();
    let mut seen = HashSet::new();
    let uniq: Vec<&String> = want.iter().filter(|t| seen.insert(t.as_str())).collect();
    ensure!(tags == uniq, "tags of platform {t:?}: {tags:?}, expected {uniq:?}");
    Ok(())
}

/// A tag related to the platform: one of its own, a near neighbour, or unrelated.
fn related(g: &mut G, tags: &[String]) -> String {
    match g.below(4) {
        0 | 1 => g.choose(tags).clone(),
        2 => {
            let s = g.choose(tags).clone();
            gen::mutate(g, &s)
        }
        _ => core_tag(g),
    }
}

fn compat(g: &mut G) -> R {
    let mut core = core_tag(g);
    if !small(&core) {
        core = "manylinux_2_17_x86_64".into();
    }
    let want = expansion(&core);
    let p = PybiPlatform::new(&core);
    let asked: Vec<String> = g.vec(0, 5, |g| related(g, &want));
    g.note(format!("{core:?} asked about {asked:?}"));
    let rank = |t: &str| want.iter().position(|w| w == t);
    let ranks: Vec<Option<usize>> = asked.iter().map(|t| rank(t)).collect();
    g.nontrivial = ranks.iter().any(|r| r.is_some()) && asked.len() > 1;
    for (i, a) in asked.iter().enumerate() {
        let s = p.compatibility(a);
        ensure!(s.is_some() == ranks[i].is_some(), "{core:?} compatible with {a:?}: {}, expected {}", s.is_some(), ranks[i].is_some());
        for (j, b) in asked.iter().enumerate() {
            if let (Some(x), Some(y)) = (ranks[i], ranks[j]) {
                let (sx, sy) = (s.unwrap(), p.compatibility(b).unwrap());
                ensure!(sx.cmp(&sy) == y.cmp(&x), "on {core:?}, {a:?} scores {sx} and {b:?} scores {sy}, but they rank {x} and {y}");
            }
        }
    }
    let best = asked.iter().filter_map(|t| p.compatibility(t)).max();
    let got = p.max_compatibility(asked.iter());
    ensure!(got == best, "max_compatibility of {asked:?} on {core:?} is {got:?}, best single is {best:?}");
    let best_rank = ranks.iter().flatten().min();
    ensure!(got == best_rank.and_then(|r| p.compatibility(&want[*r])), "best of {asked:?} on {core:?} isn't the highest-ranking tag");
    Ok(())
}

fn template(g: &mut G) -> String {
    let py = g.pick(&["cp311-cp311", "cp311-abi3", "cp311-none", "cp310-abi3", "py3-none", "py311-none", "py2.py3-none", "x-PLATFORM"]);
    match g.weighted(&[5, 3, 1]) {
        0 => format!("{py}-PLATFORM"),
        1 => format!("{py}-{}", g.pick(&["any", "any", "win32", "manylinux_2_17_x86_64", "linux_x86_64", "macosx_11_0_arm64"])),
        _ => g.pick(&["-PLATFORM", "PLATFORM", "cp311-cp311PLATFORM", "a-PLATFORM-b", "cp311-cp311-platform", "a-PLATFORM-PLATFORM"]).to_string(),
    }
}

fn wheel_platform(g: &mut G) -> R {
    let mut core = core_tag(g);
    if !small(&core) {
        core = "macosx_11_0_arm64".into();
    }
    let templates = g.vec(0, 5, template);
    g.note(format!("{core:?} with {templates:?}"));
    let plat = expansion(&core);
    let mut want: Vec<String> = vec![];
    for t in &templates {
        let full: Vec<String> = if t.ends_with("-PLATFORM") {
            plat.iter().map(|p| format!("{}{p}", &t[..t.len() - "PLATFORM".len()])).collect()
        } else {
            vec![t.clone()]
        };
        for f in full {
            if !want.contains(&f) {
                want.push(f);
            }
        }
    }
    g.nontrivial = want.len() > 1;
    let metadata = PybiCoreMetadata {
        name: "cpython".parse().unwrap(),
        version: "3.11".parse().unwrap(),
        environment_marker_variables: Default::default(),
        tags: templates.clone(),
        paths: Default::default(),
    };
    let wp = PybiPlatform::new(&core).wheel_platform(&metadata).map_err(|e| ff(format!("{e}")))?;
    let got: Vec<String> = wp.tags().cloned().collect();
    ensure!(got == want, "wheel tags of {core:?} with templates {templates:?}:\n  {got:?}\nexpected\n  {want:?}");
    if want.is_empty() {
        return Ok(());
    }
    // ranking of whole filenames' tag sets
    let asked: Vec<String> = g.vec(0, 4, |g| if g.chance(3, 4) { g.choose(&want).clone() } else { related(g, &want) });
    let best = asked.iter().filter_map(|a| want.iter().position(|w| w == a)).min();
    ensure!(wp.max_compatibility(&asked) == best.and_then(|b| wp.compatibility(&want[b])), "best of {asked:?} isn't the highest-ranking tag");
    for a in &asked {
        ensure!(wp.compatibility(a).is_some() == want.contains(a), "{a:?} compatible: {}", wp.compatibility(a).is_some());
    }
    for w in want.windows(2) {
        ensure!(wp.compatibility(&w[0]) > wp.compatibility(&w[1]), "{:?} does not rank above {:?}", w[0], w[1]);
    }
    Ok(())
}

fn native(g: &mut G) -> R {
    let natives = PybiPlatform::native_platforms().map_err(|e| ff(format!("{e:#}")))?;
    ensure!(!natives.is_empty(), "no native platforms on this machine");
    let sets: Vec<Vec<String>> = natives.iter().map(|p| expansion(p.core_tag())).collect();
    let i = g.usize(sets.len());
    let core = related(g, &sets[i]);
    if !small(&core) {
        return Ok(());
    }
    g.note(format!("{core:?}"));
    let norm = expansion(&core)[0].clone();
    let want = sets.iter().any(|s| s.contains(&norm));
    g.nontrivial = core.contains("linux");
    g.label(if want { "native" } else { "foreign" });
    let got = PybiPlatform::new(&core).is_native().map_err(|e| ff(format!("{e:#}")))?;
    ensure!(got == want, "is_native of {core:?} is {got}, natives are {:?}", natives.iter().map(|p| p.core_tag()).collect::<Vec<_>>());
    Ok(())
}

pub fn property() -> Property {
    #[allow(unused_mut)]
    let mut p = Property {
        id: "C17",
        level: "exploration",
        assumptions: &["version numbers in core tags have at most five digits (they come from inspecting the machine)"],
        subs: vec![
            Sub { name: "expand", rule: "a core platform tag (manylinux, musllinux, macosx, legacy, other, malformed) against an expansion written from the PEPs; non-trivial: it expands", quick: 180_000, thorough: 600_000, threads: 8, run: expand },
            Sub { name: "compat", rule: "a platform and a set of tags: its own, neighbours, unrelated; non-trivial: several tags, one compatible", quick: 120_000, thorough: 400_000, threads: 8, run: compat },
            Sub { name: "wheel-platform", rule: "a platform and a pybi's tag templates; non-trivial: more than one wheel tag results", quick: 60_000, thorough: 200_000, threads: 8, run: wheel_platform },
            Sub { name: "native", rule: "tags near this machine's own; non-trivial: a Linux tag", quick: 60_000, thorough: 200_000, threads: 8, run: native },
        ],
    };
    #[cfg(feature = "c21")]
    p.subs.push(Sub { name: "choice", rule: "which of several pybis and wheels is installed, as in C21; non-trivial: at least two candidates of different rank for some pin", quick: 3_000, thorough: 100_000, threads: 16, run: super::c21::choice });
    p
}
