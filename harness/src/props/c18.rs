//! C18: every resolution satisfies every requirement.
use crate::briefs::*;
use crate::index::*;
use crate::pep508;
use crate::prop::*;
use crate::universe::{Meta, *};
use posy::verif_hooks::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn property() -> Property {
    Property {
        id: "C18",
        level: "exploration",
        assumptions: &[
            "every release has a wheel (building from source is C22's subject)",
            "file names, metadata and index pages of the universes are well-formed; markers use defined comparisons",
        ],
        subs: vec![
            Sub { name: "solutions", rule: "generated universes (interpreters for one or two platforms; up to five projects of up to four versions with wheels and sdists that may be yanked, unhashed, limited to some Pythons, or disagree about their metadata; requirements with all operators, extras, markers, cycles), root requirements, pre-release policies and hints; every successful resolution is checked against the requirement closure of the model; non-trivial: resolved, with at least two pins and at least one constraint, extra or marker in play", quick: 6_000, thorough: 400_000, threads: 16, run: solutions },
            Sub { name: "tight", rule: "as above with more requirements per release and files that agree, so that resolutions need backtracking; same non-triviality", quick: 6_000, thorough: 400_000, threads: 16, run: |g| run(g, Options { divergent: false, hints: true, dense: true }) },
        ],
    }
}

pub struct Outcome {
    pub result: Result<Blueprint, String>,
    pub root: url::Url,
}

pub fn solutions(g: &mut G) -> R {
    run(g, Options { divergent: true, hints: true, dense: false })
}

fn run(g: &mut G, o: Options) -> R {
    let u = Universe::new(g, o);
    g.note(u.describe());
    let uu = u.clone();
    let out = in_time("resolve", move || -> Result<Outcome, Fail> {
        let index = Index::new(uu.site());
        let home = Home::new();
        let db = home.db(&[index.server.url("simple/")]);
        let b = brief(&uu).map_err(ff)?;
        let ps = platforms(&uu);
        let result = b.resolve(&db, &ps.iter().collect::<Vec<_>>(), like(&uu).as_ref(), &[]).map_err(|e| format!("{e:?}"));
        Ok(Outcome { result, root: index.server.url("") })
    })??;
    let Ok(b) = &out.result else {
        g.label("refused");
        return Ok(());
    };
    let (n, interesting) = check(g, &u, b, &out.root)?;
    g.nontrivial = n >= 2 && interesting;
    Ok(())
}

/// Returns the number of pins and whether there was anything to get wrong.
pub fn check(g: &mut G, u: &Universe, b: &Blueprint, root: &url::Url) -> Result<(usize, bool), Fail> {
    // the interpreter
    let Some((py, pm, tag)) = u.python() else { return fail(format!("resolved with {}, but no interpreter is suitable", b.pybi)) };
    ensure!(b.pybi.name == pkg(PYTHON), "the interpreter is {}", b.pybi);
    ensure!(u.pythons.iter().any(|r| ver(&r.ver.canonical()) == b.pybi.version), "the interpreter's version, {}, isn't on the index", b.pybi.version);
    ensure!(u.python_specs.iter().all(|s| s.matches(&pep(&b.pybi.version, &u.pythons.iter().map(|r| r.ver.clone()).collect::<Vec<_>>()))), "{} doesn't satisfy the requirement", b.pybi);
    if ver(&py.ver.canonical()) != b.pybi.version {
        return fail(format!("the interpreter's version is {}, expected {}", b.pybi.version, py.ver.canonical()));
    }
    same_hashes(&b.pybi, &py.files.iter().filter(|f| f.0.hashed).map(|f| f.0.hash()).collect())?;
    let env = u.env(pm, tag);

    // each pin
    let mut pins: BTreeMap<usize, (&Rel, &Meta)> = BTreeMap::new();
    for (pin, m) in &b.wheels {
        let Some(p) = NAMES.iter().position(|n| pkg(n) == pin.name).filter(|p| *p < u.projects.len()) else { return fail(format!("{pin}: not a project on the index")) };
        let Some(rel) = u.projects[p].iter().find(|r| ver(&r.ver.canonical()) == pin.version) else { return fail(format!("{pin}: not a version on the index")) };
        same_hashes(pin, &rel.hashes())?;
        let Some(a) = rel.files.iter().find(|f| f.meta.is_some() && m.provenance.split('#').next() == Some(root.join(&f.file.at).unwrap().as_str())) else {
            return fail(format!("{pin}: metadata is said to be from {}, which isn't a wheel of it", m.provenance));
        };
        let meta = a.meta.as_ref().unwrap();
        check_deps(&meta.core, &m.inner.requires_dist, &m.inner.requires_python, &m.inner.extras).map_err(|f| ff(format!("{pin}, recorded metadata: {}", f.msg)))?;
        let python = crate::universe::python_version(&env);
        ensure!(meta.requires_python.as_ref().map_or(true, |s| s.iter().all(|s| s.matches(&python))), "{pin}: needs Python {:?}", meta.core.requires_python);
        // (whether that file's metadata says so or another's, the policies are about the index)
        let mut lenient = u.clone();
        for r in &mut lenient.projects[p] {
            for f in &mut r.files {
                if let Some(m) = &mut f.meta {
                    m.requires_python = None;
                }
            }
        }
        if !lenient.allowed(p, &python).iter().any(|r| r.ver.eq(&rel.ver)) && !u.unclear_pre(p, &python) {
            return fail(format!("{pin}: yanked, for other Pythons, or a pre-release nobody allowed"));
        }
        ensure!(pins.insert(p, (rel, meta)).is_none(), "{} is pinned twice", pin.name.as_given());
    }

    // the closure
    let pick = |p: usize| pins.get(&p).map(|(r, m)| Picked { ver: &r.ver, deps: &m.deps, extras: &m.extras });
    match closure(&u.roots, &env, &pick) {
        Closure::Conflict(c) => return fail(c),
        Closure::Needs(p) => return fail(format!("{} is required but not pinned", NAMES[p])),
        Closure::Complete(s) => {
            let have: BTreeSet<usize> = pins.keys().copied().collect();
            ensure!(s == have, "pinned without being required: {:?}", have.difference(&s).map(|p| NAMES[*p]).collect::<Vec<_>>());
        }
    }

    // the markers that were looked at: their values...
    for (e, v) in &b.marker_expressions {
        let m = pep508::from_posy(&e.0);
        let got = pep508::eval(&model_env(&env, ""), &m).0;
        ensure!(!m.uses_extra(), "recorded the marker {e}, whose value depends on the extra");
        ensure!(got == Some(*v), "recorded that {e} is {v}, but it is {got:?}");
    }
    // ...and that an environment which agrees on them has the same requirements
    let mut conditional = false;
    let rows: Vec<(&Dep, Vec<String>)> = u
        .roots
        .iter()
        .map(|d| (d, vec![String::new()]))
        .chain(pins.iter().flat_map(|(p, (_, m))| {
            let extras = wanted_extras(u, &pins, &env, *p);
            m.deps.iter().map(move |d| (d, extras.clone()))
        }))
        .filter(|x| x.0.marker.is_some())
        .collect();
    for _ in 0..4 {
        let mut other = env.clone();
        for _ in 0..g.range(1, 2) {
            let (k, vs): (&str, &[&str]) = *g.choose(&[
                ("sys_platform", &["linux", "darwin", "win32"][..]),
                ("platform_release", &["f0", "f1", "f2"]),
                ("platform_machine", &["x86_64", "arm64"]),
                ("os_name", &["posix", "nt"]),
                ("python_version", &["3.8", "3.10", "3.11"]),
                ("python_full_version", &["3.8.1", "3.10.4", "3.11.0"]),
            ]);
            other.insert(k.into(), g.choose(vs).to_string());
        }
        let agree = b.marker_expressions.iter().all(|(e, v)| pep508::eval(&model_env(&other, ""), &pep508::from_posy(&e.0)).0 == Some(*v));
        if !agree {
            conditional = true;
            continue;
        }
        for (d, extras) in &rows {
            for e in extras {
                let (a, b2) = (holds(d, &env, e), holds(d, &other, e));
                ensure!(a == b2, "where {other:?}, every recorded marker has its recorded value, but whether {:?} (extra {e:?}) applies changes from {a} to {b2}", d.text);
            }
        }
    }
    let constrained = u.roots.iter().chain(pins.values().flat_map(|x| x.1.deps.iter())).any(|d| !d.specs.is_empty() || !d.extras.is_empty() || d.marker.is_some());
    if conditional {
        g.label("conditional");
    }
    Ok((pins.len(), constrained))
}

fn pep(v: &Version, known: &[crate::pep440::Ver]) -> crate::pep440::Ver {
    known.iter().find(|k| ver(&k.canonical()) == *v).unwrap().clone()
}

/// The extras (and none) with which a pinned project is required.
fn wanted_extras(u: &Universe, pins: &BTreeMap<usize, (&Rel, &Meta)>, env: &BTreeMap<String, String>, of: usize) -> Vec<String> {
    let mut seen: BTreeSet<(usize, String)> = BTreeSet::new();
    let mut todo: Vec<(usize, String)> = vec![];
    let add = |d: &Dep, e: &str, todo: &mut Vec<(usize, String)>| {
        if holds(d, env, e) {
            todo.push((d.to, String::new()));
            todo.extend(d.extras.iter().map(|x| (d.to, x.clone())));
        }
    };
    for d in &u.roots {
        add(d, "", &mut todo);
    }
    while let Some(n) = todo.pop() {
        if seen.insert(n.clone()) {
            if let Some((_, m)) = pins.get(&n.0) {
                for d in &m.deps {
                    add(d, &n.1, &mut todo);
                }
            }
        }
    }
    seen.into_iter().filter(|x| x.0 == of).map(|x| x.1).collect()
}

fn same_hashes(pin: &PinnedPackage, want: &BTreeSet<String>) -> R {
    let got: BTreeSet<String> = pin.hashes.iter().map(|h| h.to_string()).collect();
    ensure!(got == *want, "{pin}: hashes {got:?}, but the index has {want:?}");
    ensure!(got.len() == pin.hashes.len(), "{pin}: a hash is listed twice");
    Ok(())
}
