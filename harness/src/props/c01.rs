//! C01: artifact filenames.
use crate::gen;
use crate::pep440;
use crate::prop::*;
use posy::verif_hooks::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
enum Kind {
    Wheel { build: Option<(Option<u32>, String)>, py: Vec<String>, abi: Vec<String>, arch: Vec<String> },
    Pybi { build: Option<(Option<u32>, String)>, arch: Vec<String> },
    Sdist { zip: bool },
}

#[derive(Clone, Debug)]
struct Model {
    name: String,
    ver: pep440::Ver,
    vtext: String,
    kind: Kind,
}

impl Model {
    fn text(&self) -> String {
        let b = |b: &Option<(Option<u32>, String)>| match b {
            None => String::new(),
            Some((n, s)) => format!("-{}{}", n.map(|n| n.to_string()).unwrap_or_default(), s),
        };
        match &self.kind {
            Kind::Wheel { build, py, abi, arch } => format!("{}-{}{}-{}-{}-{}.whl", self.name, self.vtext, b(build), py.join("."), abi.join("."), arch.join(".")),
            Kind::Pybi { build, arch } => format!("{}-{}{}-{}.pybi", self.name, self.vtext, b(build), arch.join(".")),
            Kind::Sdist { zip } => format!("{}-{}.{}", self.name, self.vtext, if *zip { "zip" } else { "tar.gz" }),
        }
    }
}

fn tags(g: &mut G, pool: &[&str]) -> Vec<String> {
    g.vec(1, 4, |g| if g.chance(4, 5) { g.pick(pool).to_string() } else { g.string(b"abcpy0123_", 1, 8) })
}

const PY: &[&str] = &["py3", "py2", "cp311", "cp39", "pp38", "py37", "cp310"];
const ABI: &[&str] = &["none", "abi3", "cp311", "cp39", "pypy38_pp73"];
const ARCH: &[&str] = &["any", "manylinux_2_17_x86_64", "manylinux2014_x86_64", "manylinux1_i686", "musllinux_1_1_aarch64", "macosx_11_0_arm64", "macosx_10_9_universal2", "macosx_10_9_x86_64", "macosx_12_0_universal2", "win_amd64", "win32", "linux_x86_64"];

fn build(g: &mut G) -> Option<(Option<u32>, String)> {
    match g.below(4) {
        0 | 1 => None,
        // (a number that's too large to be kept as one is kept as it is)
        2 => Some((Some(*g.choose(&[0, 1, 2, 10, 123, 4294967295])), if g.bool() { g.string(b"ab_.xZ", 1, 4) } else { String::new() })),
        _ if g.chance(1, 6) => Some((None, format!("{}{}{}", g.range(1, 900), g.pick(&["4294967296", "0000000000", "20230115123456", "18446744073709551616"]), g.string(b"ab_.", 0, 2)))),
        _ => Some((None, format!("{}{}", g.pick(&["a", "local", "_", "b"]), g.string(b"ab1._0", 0, 4)))),
    }
}

fn model(g: &mut G) -> Model {
    let kind = match g.below(3) {
        0 => Kind::Wheel { build: build(g), py: tags(g, PY), abi: tags(g, ABI), arch: tags(g, ARCH) },
        1 => Kind::Pybi { build: build(g), arch: tags(g, ARCH) },
        _ => Kind::Sdist { zip: g.bool() },
    };
    let name = gen::name(g, matches!(kind, Kind::Sdist { .. }));
    let ver = pep440::version(g, true);
    // any spelling without a hyphen
    let s = pep440::spell(g, &ver);
    let vtext = if s.contains('-') { ver.canonical() } else { s };
    Model { name, ver, vtext, kind }
}

fn check_parsed(m: &Model, text: &str, a: &ArtifactName) -> R {
    ensure!(a.distribution().as_given() == m.name, "{text}: distribution {:?}", a.distribution().as_given());
    ensure!(a.distribution().normalized() == gen::normalize(&m.name), "{text}: normalized distribution {:?}", a.distribution().normalized());
    ensure!(a.version().to_string() == m.ver.canonical(), "{text}: version {}", a.version());
    let ok_build = |b: &Option<(Option<u32>, String)>, n: Option<u32>, s: &str| match b {
        None => n.is_none() && s.is_empty(),
        Some((bn, bs)) => *bn == n && bs == s,
    };
    match (&m.kind, a) {
        (Kind::Wheel { build, py, abi, arch }, ArtifactName::Wheel(w)) => {
            ensure!(ok_build(build, w.build_number, &w.build_name), "{text}: build {:?} {:?}", w.build_number, w.build_name);
            ensure!(&w.py_tags == py && &w.abi_tags == abi && &w.arch_tags == arch, "{text}: tags {:?} {:?} {:?}", w.py_tags, w.abi_tags, w.arch_tags);
            let mut want = HashSet::new();
            for p in py {
                for b in abi {
                    for c in arch {
                        want.insert(format!("{p}-{b}-{c}"));
                    }
                }
            }
            ensure!(w.all_tags() == want, "{text}: all_tags {:?}", w.all_tags());
        }
        (Kind::Pybi { build, arch }, ArtifactName::Pybi(p)) => {
            ensure!(ok_build(build, p.build_number, &p.build_name), "{text}: build {:?} {:?}", p.build_number, p.build_name);
            ensure!(&p.arch_tags == arch, "{text}: tags {:?}", p.arch_tags);
            ensure!(p.all_tags() == arch.iter().cloned().collect(), "{text}: all_tags {:?}", p.all_tags());
        }
        (Kind::Sdist { zip }, ArtifactName::Sdist(s)) => {
            ensure!(matches!(s.format, SdistFormat::Zip) == *zip, "{text}: format {:?}", s.format);
        }
        _ => return fail(format!("{text} parsed as {a:?}")),
    }
    Ok(())
}

fn roundtrip(g: &mut G) -> R {
    let m = model(g);
    let text = m.text();
    g.note(&text);
    g.nontrivial = true;
    g.label(match m.kind {
        Kind::Wheel { .. } => "wheel",
        Kind::Pybi { .. } => "pybi",
        Kind::Sdist { .. } => "sdist",
    });
    let a = ArtifactName::try_from(text.as_str()).map_err(|e| ff(format!("well-formed filename {text} refused: {e}")))?;
    check_parsed(&m, &text, &a)?;
    let printed = a.to_string();
    let b = ArtifactName::try_from(printed.as_str()).map_err(|e| ff(format!("{text} prints as {printed}, which is refused: {e}")))?;
    ensure!(a == b, "{text} prints as {printed}, which reads as something else");
    ensure!(b.to_string() == printed, "{printed} prints as {b}");
    let mut canon = m.clone();
    canon.vtext = m.ver.canonical();
    ensure!(printed == canon.text(), "{text} prints as {printed}, expected {}", canon.text());
    let j = serde_json::to_string(&a).unwrap();
    ensure!(j == serde_json::to_string(&printed).unwrap(), "JSON of {text} is {j}");
    // the specific parsers agree, and refuse the other kinds
    let w: eyre::Result<WheelName> = text.parse();
    let p: eyre::Result<PybiName> = text.parse();
    let s: eyre::Result<SdistName> = text.parse();
    ensure!((w.is_ok(), p.is_ok(), s.is_ok()) == (matches!(m.kind, Kind::Wheel { .. }), matches!(m.kind, Kind::Pybi { .. }), matches!(m.kind, Kind::Sdist { .. })), "{text}: accepted as wheel {}, pybi {}, sdist {}", w.is_ok(), p.is_ok(), s.is_ok());
    ensure!(a.inner_as::<WheelName>().is_some() == w.is_ok() && a.inner_as::<PybiName>().is_some() == p.is_ok() && a.inner_as::<SdistName>().is_some() == s.is_ok(), "{text}: inner_as disagrees");
    // splitting a pybi by platform
    let split = a.split_multiplatform_pybis();
    if let Kind::Pybi { arch, .. } = &m.kind {
        let mut want = vec![];
        for t in arch {
            match t.strip_suffix("_universal2") {
                Some(pre) if t.starts_with("macosx_") => {
                    want.push(format!("{pre}_arm64"));
                    want.push(format!("{pre}_x86_64"));
                }
                _ => want.push(t.clone()),
            }
        }
        let mut got = vec![];
        for x in &split {
            let ArtifactName::Pybi(p) = x else { return fail(format!("{text} splits into {x}")) };
            ensure!(p.arch_tags.len() == 1, "{text} splits into {x}");
            got.push(p.arch_tags[0].clone());
            let ArtifactName::Pybi(o) = &a else { unreachable!() };
            ensure!(p.distribution == o.distribution && p.version == o.version && p.build_number == o.build_number && p.build_name == o.build_name, "{text} splits into {x}");
        }
        want.sort();
        got.sort();
        ensure!(got == want, "{text} splits into {got:?}, expected {want:?}");
    } else {
        ensure!(split == vec![a.clone()], "{text} splits into {split:?}");
    }
    Ok(())
}

/// Equality/order of filenames: compares the meaning of two related names.
fn related(g: &mut G) -> R {
    let m = model(g);
    let mut n = m.clone();
    let same = match g.below(5) {
        0 => {
            n.name = if matches!(m.kind, Kind::Sdist { .. }) { gen::respell(g, &m.name) } else { gen::respell(g, &m.name).replace('-', "_") };
            true
        }
        1 => {
            n.vtext = m.ver.canonical();
            true
        }
        2 => {
            n.ver = pep440::near(g, &m.ver, true);
            n.vtext = n.ver.canonical();
            n.ver.eq(&m.ver)
        }
        3 => {
            n.name = gen::name(g, false);
            gen::normalize(&n.name) == gen::normalize(&m.name)
        }
        _ => match &mut n.kind {
            Kind::Wheel { py, .. } => {
                py.push("zz9".into());
                false
            }
            Kind::Pybi { arch, .. } => {
                arch.push("zz9".into());
                false
            }
            Kind::Sdist { zip } => {
                *zip = !*zip;
                false
            }
        },
    };
    let (t, u) = (m.text(), n.text());
    g.note(format!("{t} vs {u}"));
    g.nontrivial = t != u;
    let a = ArtifactName::try_from(t.as_str()).map_err(|e| ff(format!("{t}: {e}")))?;
    let b = ArtifactName::try_from(u.as_str()).map_err(|e| ff(format!("{u}: {e}")))?;
    ensure!((a == b) == same, "{t} == {u} is {}, expected {same}", a == b);
    ensure!((a.cmp(&b) == std::cmp::Ordering::Equal) == same, "{t} cmp {u} is {:?}", a.cmp(&b));
    ensure!(a.cmp(&b) == b.cmp(&a).reverse(), "cmp not antisymmetric on {t}, {u}");
    let mut map = BTreeMap::new();
    map.insert(a, 0);
    ensure!(map.contains_key(&b) == same, "BTreeMap lookup of {u} among {t}");
    Ok(())
}

/// An independent recognizer: what the filename would have to mean, if it is one at all.
fn recognize(s: &str) -> Option<(String, String)> {
    let version_ok = |v: &str| v.parse::<Version>().is_ok();
    if let Some(stem) = s.strip_suffix(".whl").or_else(|| s.strip_suffix(".pybi")) {
        if !s.bytes().all(|c| c.is_ascii_alphanumeric() || b"_.+!-".contains(&c)) {
            return None;
        }
        let k = if s.ends_with(".whl") { 3 } else { 1 };
        let parts: Vec<&str> = stem.split('-').collect();
        if parts.len() != 2 + k && parts.len() != 3 + k {
            return None;
        }
        if parts.len() == 3 + k && parts[2].is_empty() {
            return None;
        }
        return (gen::legal_name(parts[0]) && version_ok(parts[1])).then(|| (parts[0].to_string(), parts[1].to_string()));
    }
    let stem = s.strip_suffix(".zip").or_else(|| s.strip_suffix(".tar.gz"))?;
    let (n, v) = stem.rsplit_once('-')?;
    (gen::legal_name(n) && version_ok(v)).then(|| (n.to_string(), v.to_string()))
}

fn mutated(g: &mut G) -> R {
    let m = model(g);
    let t = m.text();
    let s = match g.below(8) {
        0 => t.replacen('-', "", 1),
        1 => t.replacen('-', "--", 1),
        2 => format!("{t}{}", g.pick(&[".asc", " ", "\n", ".whl", ".gz", "x"])),
        3 => format!("{}{t}", g.pick(&["-", "../", " ", ".", "a b-"])),
        4 => t.replace(".tar.gz", ".tar.bz2").replace(".whl", ".egg").replace(".pybi", ".exe").replace(".zip", ".tgz"),
        _ => gen::mutate(g, &t),
    };
    g.note(format!("{s:?}"));
    let want = recognize(&s);
    g.label(if want.is_some() { "still a filename" } else { "not a filename" });
    g.nontrivial = want.is_none();
    let got = ArtifactName::try_from(s.as_str());
    match (&got, &want) {
        (Err(_), None) => {}
        (Ok(a), Some((n, v))) => {
            ensure!(a.distribution().as_given() == n, "{s:?}: distribution {:?}, expected {n:?}", a.distribution().as_given());
            ensure!(*a.version() == v.parse().unwrap(), "{s:?}: version {}, expected {v}", a.version());
            let p = a.to_string();
            let b = ArtifactName::try_from(p.as_str());
            ensure!(b.as_ref().ok() == Some(a), "{s:?} is accepted and prints as {p:?}, which reads as {b:?}");
        }
        (Ok(a), None) => return fail(format!("{s:?} is not a filename of any kind, but reads as {a:?}")),
        (Err(e), Some(_)) => return fail(format!("{s:?} refused: {e}")),
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C01",
        level: "exploration",
        assumptions: &["build numbers below 2^32"],
        subs: vec![
            Sub { name: "roundtrip", rule: "filename assembled from a generated name, spelled version, build tag and tag lists; every parsed field, the expanded tags, Display, JSON and the platform split against the parts it was assembled from; all non-trivial", quick: 900_000, thorough: 3_000_000, threads: 8, run: roundtrip },
            Sub { name: "related", rule: "two filenames that differ in one known way; Eq/Ord say whether they mean the same; non-trivial = texts differ", quick: 360_000, thorough: 1_000_000, threads: 8, run: related },
            Sub { name: "mutated", rule: "corrupted filenames; accepted exactly if an independent recognizer finds a meaning, with that meaning; non-trivial = not a filename any more", quick: 900_000, thorough: 3_000_000, threads: 8, run: mutated },
        ],
    }
}

/// The text of a random legal artifact filename.
pub fn filename(g: &mut G) -> String {
    model(g).text()
}
