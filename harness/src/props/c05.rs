//! C05: environment markers evaluate as PEP 508 prescribes, in every environment.
use crate::gen;
use crate::pep440;
use crate::pep508::*;
use crate::prop::*;
use posy::verif_hooks::{PackageRequirement, StandaloneMarkerExpr};
use std::collections::HashMap;

const TEXTS: &[&str] = &[
    "linux", "Linux", "linux2", "darwin", "win32", "win", "posix", "nt", "CPython", "cpython", "PyPy", "x86_64", "x86", "", "#1 SMP Debian 5.10",
    "5.4.0-generic", "a", "B", "b", "é",
];

fn small_ver(g: &mut G) -> pep440::Ver {
    let base = pep440::Ver::rel(match g.below(6) {
        0 => &[3],
        1 => &[3, 7],
        2 => &[3, 10],
        3 => &[3, 8, 1],
        4 => &[2, 7],
        _ => &[3, 8],
    });
    if g.chance(1, 3) { pep440::near(g, &base, true) } else { base }
}

fn operand(g: &mut G, literal: bool) -> (String, Kind) {
    match g.weighted(&[5, 1, 4]) {
        0 => {
            let v = small_ver(g);
            (pep440::spell(g, &v), Kind::Version(v))
        }
        1 => {
            let mut v = small_ver(g);
            v.local.clear();
            (format!("{}.*", pep440::spell(g, &v)), Kind::Wild(v))
        }
        _ => {
            // (PEP 508 strings are ASCII; environment values are not limited to that)
            let t = loop {
                let t = g.pick(TEXTS);
                if !literal || t.is_ascii() {
                    break t;
                }
            };
            (t.to_string(), Kind::Text)
        }
    }
}

fn env(g: &mut G, extra: Option<&str>) -> Env {
    let mut vars = HashMap::new();
    for v in &VARS[..11] {
        let x = match *v {
            "python_version" | "python_full_version" | "implementation_version" if g.chance(4, 5) => {
                let v = small_ver(g);
                (pep440::spell(g, &v), Kind::Version(v))
            }
            _ => operand(g, false),
        };
        vars.insert(v.to_string(), x);
    }
    // rarely, a variable the environment doesn't define
    if g.chance(1, 15) {
        vars.remove(VARS[g.usize(11)]);
    }
    if let Some(e) = extra {
        vars.insert("extra".into(), (e.to_string(), Kind::Text));
    }
    Env { vars, lits: HashMap::new() }
}

fn posy_env(e: &Env) -> HashMap<String, String> {
    e.vars.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect()
}

fn compare(text: &str, e: &Env, m: &M, got: Result<bool, eyre::Report>) -> R {
    let (want, any_err) = eval(e, m);
    let shown = || {
        let mut v: Vec<_> = e.vars.iter().filter(|(k, _)| text.contains(k.as_str())).map(|(k, v)| format!("{k}={:?}", v.0)).collect();
        v.sort();
        v.join(" ")
    };
    match (want, got) {
        (Some(w), Ok(r)) => ensure!(w == r, "{text} with {} is {r}, PEP 508 says {w}", shown()),
        (None, Ok(r)) => return fail(format!("{text} with {} has no answer (an undefined comparison or variable), but evaluates to {r}", shown())),
        // an operand that short-circuiting would skip may also be reported
        (Some(w), Err(err)) => ensure!(any_err, "{text} with {} is an error ({err:#}), PEP 508 says {w}", shown()),
        (None, Err(_)) => {}
    }
    Ok(())
}

fn side(g: &mut G, e: &mut Env) -> V {
    if g.bool() {
        V::Var(VARS[g.usize(11)].to_string())
    } else {
        let (t, k) = operand(g, true);
        e.lits.insert(t.clone(), k);
        V::Lit(t)
    }
}

fn leaf(g: &mut G, e: &mut Env) -> M {
    let op = g.choose(&MARKER_OPS).to_string();
    let lhs = side(g, e);
    let mut rhs = side(g, e);
    // bias: comparable operands
    if g.chance(1, 3) {
        if let V::Var(x) = &lhs {
            if let Some((t, k)) = e.vars.get(x).cloned() {
                if t.is_ascii() {
                    let (t, k) = match k {
                        Kind::Version(v) => {
                            let mut w = pep440::near(g, &v, false);
                            if !op.ends_with('>') && !op.ends_with('<') {
                                w.local.clear();
                            }
                            (pep440::spell(g, &w), Kind::Version(w))
                        }
                        k => (t, k),
                    };
                    e.lits.insert(t.clone(), k);
                    rhs = V::Lit(t);
                }
            }
        }
    }
    M::Op { op, lhs, rhs }
}

fn single(g: &mut G) -> R {
    let mut e = env(g, None);
    let m = leaf(g, &mut e);
    let text = render_marker(g, &m);
    g.note(format!("{text:?}"));
    let p: StandaloneMarkerExpr = text.parse().map_err(|e| ff(format!("legal marker {text:?} refused: {e:?}")))?;
    let (want, _) = eval(&e, &m);
    g.label(match want {
        Some(true) => "true",
        Some(false) => "false",
        None => "error",
    });
    if let M::Op { op, lhs, rhs } = &m {
        let kind = |v: &V| match v {
            V::Var(x) => e.vars.get(x).map(|x| x.1.clone()),
            V::Lit(x) => e.lits.get(x).cloned(),
        };
        let versions = matches!((kind(lhs), kind(rhs)), (Some(Kind::Version(_)), Some(Kind::Version(_) | Kind::Wild(_))));
        g.label(if op.ends_with("in") { "containment" } else if versions { "version comparison" } else { "string comparison" });
    }
    g.nontrivial = true;
    compare(&text, &e, &m, p.0.eval(&posy_env(&e)))
}

fn compound(g: &mut G) -> R {
    let mut e = env(g, None);
    let m = tree(g, 3, &mut |g| leaf(g, &mut e)).flat();
    let text = render_marker(g, &m);
    g.note(format!("{text:?}"));
    g.nontrivial = m.leaves() > 1;
    let p: StandaloneMarkerExpr = text.parse().map_err(|e| ff(format!("legal marker {text:?} refused: {e:?}")))?;
    g.label(match eval(&e, &m).0 {
        Some(true) => "true",
        Some(false) => "false",
        None => "error",
    });
    compare(&text, &e, &m, p.0.eval(&posy_env(&e)))?;
    // printing does not change the answer
    let p2: StandaloneMarkerExpr = p.to_string().parse().map_err(|e| ff(format!("printed marker {p} refused: {e:?}")))?;
    compare(&p.to_string(), &e, &m, p2.0.eval(&posy_env(&e)))
}

/// Markers that mention extras, each extra on its own and none (which is the empty extra).
fn extras(g: &mut G) -> R {
    let mut pool: Vec<String> = vec![];
    for _ in 0..g.range(1, 3) {
        let n = match g.below(4) {
            0 => g.pick(&["1", "v1", "1.0", "1-0", "dev", "2.dev0", "1.post0", "rc1", "V1"]).to_string(),
            1 if !pool.is_empty() => {
                let b = g.choose(&pool).clone();
                gen::respell(g, &b)
            }
            _ => gen::name(g, true),
        };
        pool.push(n);
    }
    let active = if g.chance(1, 6) { String::new() } else { gen::normalize(&g.choose(&pool).clone()) };
    let mut e = env(g, Some(&active));
    let m = tree(g, 2, &mut |g| {
        if g.chance(1, 4) {
            return leaf(g, &mut e);
        }
        let op = g.pick(&["==", "==", "!=", "in", "not in", "==", "<", ">="]).to_string();
        let x = g.choose(&pool).clone();
        let x = if g.chance(1, 2) { gen::respell(g, &x) } else { x };
        let (mut lhs, mut rhs) = (V::Var("extra".into()), V::Lit(x));
        if g.chance(1, 3) {
            std::mem::swap(&mut lhs, &mut rhs);
        }
        M::Op { op, lhs, rhs }
    })
    .flat();
    let text = render_marker(g, &m);
    g.note(format!("extra={active:?}: {text:?}"));
    g.nontrivial = m.uses_extra();
    let r: PackageRequirement = format!("x; {text}").parse().map_err(|e| ff(format!("legal marker {text:?} refused: {e:?}")))?;
    compare(&text, &e, &m, r.env_marker_expr.as_ref().unwrap().eval(&posy_env(&e)))
}

pub fn property() -> Property {
    #[allow(unused_mut)]
    let mut p = Property {
        id: "C05",
        level: "exploration",
        assumptions: &[
            "'both sides are versions' is read as PEP 508 says: the left side is a version and operator plus right side are a legal PEP 440 clause (so a wildcard on the right counts under == and !=)",
            "comparisons with the 'extra' variable compare names (PEP 685), never versions; non-legal names are compared as they are",
            "an error in an operand that and/or would skip may be reported or not",
        ],
        subs: vec![
            Sub { name: "single", rule: "one comparison of variables and/or literals (versions, wildcards, texts; both operand orders) in a random environment, rarely with an undefined variable; against the reference evaluator; all non-trivial", quick: 600_000, thorough: 4_000_000, threads: 8, run: single },
            Sub { name: "compound", rule: "and/or trees to depth 3 in random spelling, as parsed and after printing; non-trivial = more than one comparison", quick: 240_000, thorough: 1_500_000, threads: 8, run: compound },
            Sub { name: "extras", rule: "trees over extra comparisons (normalization-equivalent and version-like names, either operand order) and others, with an extra active or none; non-trivial = mentions extra", quick: 240_000, thorough: 1_500_000, threads: 8, run: extras },
        ],
    };
    #[cfg(feature = "c18")]
    p.subs.push(Sub { name: "resolver", rule: "universes as in C18: the markers and extras of requirements decide what is pinned; non-trivial as in C18", quick: 3_000, thorough: 100_000, threads: 16, run: super::c18::solutions });
    p
}
