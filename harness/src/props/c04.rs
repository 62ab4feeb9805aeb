//! C04: requirement strings parse to what PEP 508 says and survive printing.
use crate::gen;
use crate::pep508::*;
use crate::prop::*;
use posy::verif_hooks::*;
use std::fmt::{Debug, Display};
use std::ops::Deref;

fn round_trip<T>(what: &str, text: &str, r: &T) -> R
where
    T: Display + Debug + PartialEq + serde::Serialize + serde::de::DeserializeOwned + std::str::FromStr<Err = eyre::Report> + Deref<Target = Requirement>,
{
    let want = req_from_posy(r);
    let printed = r.to_string();
    let back: T = printed.parse().map_err(|e| ff(format!("{what} {text:?} prints as {printed:?}, which is refused: {e:?}")))?;
    ensure!(back == *r, "{what} {text:?} prints as {printed:?}, which reads as {back:?} instead of {r:?}");
    ensure!(req_from_posy(&back) == want, "{what} {text:?} prints as {printed:?}, which reads as {:?} instead of {want:?}", req_from_posy(&back));
    let j = serde_json::to_string(r).unwrap();
    let back: T = serde_json::from_str(&j).map_err(|e| ff(format!("{what} {text:?} stored as {j} does not reload: {e}")))?;
    ensure!(back == *r && req_from_posy(&back) == want, "{what} {text:?} stored as {j} reloads as {back:?}");
    let v = serde_json::from_reader::<_, T>(j.as_bytes()).map_err(|e| ff(format!("{what} stored as {j} does not reload from a stream: {e}")))?;
    ensure!(v == *r, "{what} {text:?} stored as {j} reloads from a stream as {v:?}");
    Ok(())
}

fn check_accepted(text: &str, m: &Req) -> R {
    let r: PackageRequirement = text.parse().map_err(|e| ff(format!("legal requirement {text:?} refused: {e:?}")))?;
    let got = req_from_posy(&r);
    ensure!(got == *m, "{text:?} read as {got:?}\n expected {m:?}");
    round_trip("package requirement", text, &r)?;
    let uses_extra = m.marker.as_ref().map_or(false, |m| m.uses_extra());
    let u: eyre::Result<UserRequirement> = text.parse();
    if uses_extra {
        ensure!(u.is_err(), "{text:?} refers to 'extra', but is accepted as a user requirement");
    } else {
        let u = u.map_err(|e| ff(format!("legal user requirement {text:?} refused: {e:?}")))?;
        ensure!(req_from_posy(&u) == *m, "user requirement {text:?} read as {:?}\n expected {m:?}", req_from_posy(&u));
        round_trip("user requirement", text, &u)?;
    }
    let p: eyre::Result<PythonRequirement> = text.parse();
    let plain = m.extras.is_empty() && m.marker.is_none();
    if plain {
        let p = p.map_err(|e| ff(format!("legal python requirement {text:?} refused: {e:?}")))?;
        ensure!(req_from_posy(&p) == *m, "python requirement {text:?} read as {:?}", req_from_posy(&p));
        round_trip("python requirement", text, &p)?;
    } else {
        ensure!(p.is_err(), "python requirement {text:?} with extras or a marker is accepted");
    }
    Ok(())
}

fn wellformed(g: &mut G) -> R {
    let m = req(g, true);
    let text = render(g, &m);
    g.note(format!("{text:?}"));
    g.nontrivial = !m.specs.is_empty() || m.marker.is_some() || !m.extras.is_empty();
    if let Some(mk) = &m.marker {
        g.label(if mk.leaves() == 1 { "marker" } else { "compound marker" });
    }
    if m.specs.len() > 1 {
        g.label("several clauses");
    }
    if !m.extras.is_empty() {
        g.label("extras");
    }
    // the recognizer used below must agree with the renderer
    ensure!(parse(&text, true).as_ref() == Some(&m), "(harness) the recognizer reads {text:?} as {:?}, not {m:?}", parse(&text, true));
    check_accepted(&text, &m)
}

fn markers(g: &mut G) -> R {
    let m = marker_any(g, 4, false);
    let text = render_marker(g, &m);
    g.note(format!("{text:?}"));
    g.nontrivial = m.leaves() > 1;
    let p: StandaloneMarkerExpr = text.parse().map_err(|e| ff(format!("legal marker {text:?} refused: {e:?}")))?;
    ensure!(from_posy(&p.0) == m, "marker {text:?} read as {:?}\n expected {m:?}", from_posy(&p.0));
    let printed = p.to_string();
    let back: StandaloneMarkerExpr = printed.parse().map_err(|e| ff(format!("marker {text:?} prints as {printed:?}, which is refused: {e:?}")))?;
    ensure!(back == p && from_posy(&back.0) == m, "marker {text:?} prints as {printed:?}, which reads as {back:?}");
    let j = serde_json::to_string(&p).unwrap();
    let back: StandaloneMarkerExpr = serde_json::from_str(&j).map_err(|e| ff(format!("marker stored as {j} does not reload: {e}")))?;
    ensure!(back == p, "marker {text:?} stored as {j} reloads as {back:?}");
    Ok(())
}

/// Nesting and long chains: the same meaning, in reasonable time.
fn deep(g: &mut G) -> R {
    let n = g.range(1, 40) as usize;
    let leaf = |g: &mut G| M::Op { op: g.choose(&MARKER_OPS).to_string(), lhs: V::Var("os_name".into()), rhs: V::Lit(literal(g)) };
    let mut m = leaf(g);
    let mut text = render_marker(g, &m);
    let shape = g.below(3);
    for i in 0..n {
        match shape {
            // ((((x))))
            0 => text = format!("({text})"),
            // alternating and/or, which needs parentheses
            1 => {
                let l = leaf(g);
                let t = render_marker(g, &l);
                if i % 2 == 0 {
                    text = format!("({t} and {text})");
                    m = M::And(vec![l, m]);
                } else {
                    text = format!("({text} or {t})");
                    m = M::Or(vec![m, l]);
                }
            }
            // a chain, which posy prints with nested parentheses
            _ => {
                let l = leaf(g);
                let t = render_marker(g, &l);
                text = format!("{text} and {t}");
                m = M::And(vec![m, l]);
            }
        }
    }
    let m = m.flat();
    g.note(format!("{n} levels: {text:?}"));
    g.nontrivial = n > 3;
    let t0 = std::time::Instant::now();
    let r = Req { name: "x".into(), extras: vec![], specs: vec![], marker: Some(m) };
    check_accepted(&format!("x; {text}"), &r)?;
    let el = t0.elapsed();
    ensure!(el.as_secs() < 20, "reading and printing a marker with {n} operands took {el:?}");
    Ok(())
}

fn malformed(g: &mut G) -> R {
    let m = req(g, true);
    let mut text = render(g, &m);
    match g.below(8) {
        0 => {
            // URL requirement
            text = format!("{}{}@{}{}", m.name, ws(g), ws(g), g.pick(&["https://example.com/x-1.0.tar.gz", "file:///x", "x"]));
            if g.bool() {
                text += " ; os_name == 'x'";
            }
        }
        1 => text = format!("{} === 1.0", m.name),
        2 => text = format!("{}; {} == 'x'", m.name, g.pick(&["os_nam", "python-version", "PYTHON_VERSION", "platform", "foo", "os.version", "implementation.name", "extras"])),
        3 => text = format!("{}; os_name {} 'x'", m.name, g.pick(&["===", "=", "is", "notin", "not", "<>", "=>", "&&"])),
        _ => {
            text = gen::mutate(g, &text);
        }
    }
    g.note(format!("{text:?}"));
    match parse(&text, true) {
        Some(m) => {
            g.label("still legal");
            check_accepted(&text, &m)
        }
        None => {
            g.nontrivial = true;
            g.label("malformed");
            if let Ok(r) = text.parse::<PackageRequirement>() {
                return fail(format!("malformed requirement {text:?} accepted as {r:?}"));
            }
            ensure!(text.parse::<UserRequirement>().is_err(), "malformed user requirement {text:?} accepted");
            ensure!(text.parse::<PythonRequirement>().is_err(), "malformed python requirement {text:?} accepted");
            let j = serde_json::to_string(&text).unwrap();
            ensure!(serde_json::from_str::<PackageRequirement>(&j).is_err(), "malformed requirement {text:?} accepted from JSON");
            Ok(())
        }
    }
}

pub fn property() -> Property {
    Property {
        id: "C04",
        level: "exploration",
        assumptions: &[
            "PEP 508's grammar, extended as posy documents: 'and'/'or' chain without parentheses, PEP 345 and setuptools variable spellings are accepted; '===' and URL requirements are refused",
            "the text after a comparison operator is only checked for its character set at this point (its meaning is C03)",
        ],
        subs: vec![
            Sub { name: "wellformed", rule: "random requirement (names, extras, 0-3 clauses, marker tree) in a random legal spelling; parsed fields and marker structure against the model, user/python/package variants, print and JSON round trips; non-trivial = has extras, clauses or a marker", quick: 180_000, thorough: 1_500_000, threads: 8, run: wellformed },
            Sub { name: "markers", rule: "random standalone markers to depth 4; non-trivial = more than one comparison", quick: 90_000, thorough: 600_000, threads: 8, run: markers },
            Sub { name: "deep", rule: "nesting or chains of 1-40 levels, read, printed and reloaded within a time bound; non-trivial = more than 3 levels", quick: 1_500, thorough: 20_000, threads: 8, run: deep },
            Sub { name: "malformed", rule: "URL requirements, '===', unknown variables and operators, and random edits of legal requirements; accepted exactly if an independent recognizer accepts, and then with the same meaning; non-trivial = refused by the recognizer", quick: 300_000, thorough: 2_500_000, threads: 8, run: malformed },
        ],
    }
}
