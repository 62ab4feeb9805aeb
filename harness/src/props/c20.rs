//! C20: briefs, lock files and pre-release policies survive being saved and reloaded.
use crate::gen;
use crate::pep440;
use crate::pep508;
use crate::prop::*;
use posy::verif_hooks::{
    AllowPre, ArtifactHash, Blueprint, Brief, Extra, PackageName, PackageRequirement, PinnedPackage, PythonRequirement, Requirement,
    Specifiers, StandaloneMarkerExpr, UserRequirement, Version, WheelResolveMetadata, WheelResolveMetadataInner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::collections::{BTreeSet, HashMap, HashSet};

fn req_text(g: &mut G, extra: bool) -> (String, pep508::Req) {
    let r = pep508::req(g, extra);
    (pep508::render(g, &r), r)
}

fn name(g: &mut G) -> PackageName {
    gen::name(g, true).parse().unwrap()
}

fn version(g: &mut G) -> Version {
    let v = pep440::version(g, true);
    pep440::spell(g, &v).parse().unwrap()
}

fn hash(g: &mut G) -> ArtifactHash {
    let mode = g.pick(&["sha256", "sha256", "sha512", "md5"]);
    ArtifactHash::from_hex(mode, &gen::hex(&g.blob(16, 64))).unwrap()
}

fn text(g: &mut G) -> String {
    g.pick(&["https://x/a.whl", "", "a b\\c\"d", "é\u{1f600}\u{2028}", "\u{0}\n\r\t", "/x/%20y?z#w", "</script>", "\u{fffd}\u{7f}"]).to_string()
}

fn pin(g: &mut G) -> PinnedPackage {
    PinnedPackage { name: name(g), version: version(g), hashes: g.vec(0, 3, hash) }
}

fn specifiers(g: &mut G) -> Specifiers {
    if g.chance(1, 3) {
        return Specifiers(vec![]);
    }
    loop {
        let ps = g.vec(1, 3, pep508::spec_pair);
        let t = pep508::render_specs(g, &ps);
        match t.parse() {
            Ok(s) => return s,
            Err(_) if g.replaying => return Specifiers(vec![]),
            Err(_) => continue,
        }
    }
}

fn inner(g: &mut G) -> WheelResolveMetadataInner {
    WheelResolveMetadataInner {
        requires_dist: g.vec(0, 3, |g| {
            let t = req_text(g, true).0;
            t.parse::<PackageRequirement>().unwrap_or_else(|_| "a".parse().unwrap())
        }),
        requires_python: specifiers(g),
        extras: g.vec(0, 3, |g| gen::name(g, true).parse::<Extra>().unwrap()).into_iter().collect(),
    }
}

fn marker(g: &mut G) -> StandaloneMarkerExpr {
    let m = pep508::marker_any(g, 3, false);
    let t = pep508::render_marker(g, &m);
    t.parse().unwrap_or_else(|_| "os_name == 'a'".parse().unwrap())
}

pub(super) fn blueprint(g: &mut G) -> Blueprint {
    Blueprint {
        pybi: pin(g),
        wheels: g.vec(0, 4, |g| (pin(g), WheelResolveMetadata { provenance: text(g), inner: inner(g) })),
        marker_expressions: g.vec(0, 4, |g| (marker(g), g.bool())).into_iter().collect(),
    }
}

pub(super) fn brief(g: &mut G) -> (Brief, Vec<pep508::Req>) {
    let mut models = vec![];
    let requirements = g.vec(0, 4, |g| {
        let (t, m) = req_text(g, false);
        match t.parse::<UserRequirement>() {
            Ok(r) => {
                models.push(m);
                r
            }
            Err(_) => {
                let r = pep508::Req { name: "a".into(), extras: vec![], specs: vec![], marker: None };
                models.push(r);
                "a".parse().unwrap()
            }
        }
    });
    let python = PythonRequirement::try_from(Requirement { name: name(g), extras: vec![], specifiers: specifiers(g), env_marker_expr: None }).unwrap();
    (Brief { python, requirements, allow_pre: policy(g) }, models)
}

pub(super) fn policy(g: &mut G) -> AllowPre {
    match g.below(4) {
        0 => AllowPre::All,
        1 => AllowPre::default(),
        _ => AllowPre::Some(g.vec(0, 4, name).into_iter().collect()),
    }
}

/// JSON text as another program might write it: escapes, key order and layout at will.
fn write_json(g: &mut G, v: &Value, out: &mut String) {
    let ws = |g: &mut G, out: &mut String| {
        if g.chance(1, 6) {
            *out += g.pick(&[" ", "\n", "\r\n  ", "\t"]);
        }
    };
    ws(g, out);
    match v {
        Value::String(s) => {
            out.push('"');
            for c in s.chars() {
                let must = c < ' ' || c == '"' || c == '\\';
                if must || g.chance(1, 24) {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        *out += &format!("\\u{u:04x}");
                    }
                } else {
                    out.push(c);
                }
            }
            out.push('"');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write_json(g, x, out);
            }
            ws(g, out);
            out.push(']');
        }
        Value::Object(m) => {
            let mut keys: Vec<&String> = m.keys().collect();
            g.shuffle(&mut keys);
            out.push('{');
            for (i, k) in keys.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write_json(g, &Value::String(k.clone()), out);
                out.push(':');
                write_json(g, &m[k], out);
            }
            ws(g, out);
            out.push('}');
        }
        x => *out += &x.to_string(),
    }
    ws(g, out);
}

/// A reader that hands out a few bytes at a time.
struct Dribble<'a>(&'a [u8], usize);
impl std::io::Read for Dribble<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(buf.len()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// Stores `v` and hands back what every way of loading it yields.
fn loads<T: Serialize + DeserializeOwned>(g: &mut G, v: &T) -> Result<Vec<(&'static str, T)>, Fail> {
    let compact = serde_json::to_string(v).map_err(|e| ff(format!("can't be stored: {e}")))?;
    let pretty = serde_json::to_vec_pretty(v).map_err(|e| ff(format!("can't be stored: {e}")))?;
    let mut buf = vec![];
    serde_json::to_writer(&mut buf, v).map_err(|e| ff(format!("can't be stored: {e}")))?;
    let value = serde_json::to_value(v).map_err(|e| ff(format!("can't be stored as a value: {e}")))?;
    let mut other = String::new();
    write_json(g, &value, &mut other);
    g.note(trunc(&compact));
    let bad = |how: &str, e: serde_json::Error, t: &str| ff(format!("stored as {t} but {how} fails: {e}"));
    Ok(vec![
        ("from_str", serde_json::from_str(&compact).map_err(|e| bad("from_str", e, &compact))?),
        ("from_slice", serde_json::from_slice(&pretty).map_err(|e| bad("from_slice", e, &compact))?),
        ("from_reader", serde_json::from_reader(Dribble(&buf, 1 + g.usize(7))).map_err(|e| bad("from_reader", e, &compact))?),
        ("from_value", serde_json::from_value(value).map_err(|e| bad("from_value", e, &compact))?),
        ("an equivalent JSON text", serde_json::from_str(&other).map_err(|e| bad("an equivalent JSON text", e, &other))?),
        ("an equivalent JSON text, read", serde_json::from_reader(other.as_bytes()).map_err(|e| bad("reading an equivalent JSON text", e, &other))?),
    ])
}

fn trunc(s: &str) -> String {
    s.chars().take(600).collect()
}

fn same_policy(a: &AllowPre, b: &AllowPre) -> bool {
    match (a, b) {
        (AllowPre::All, AllowPre::All) => true,
        (AllowPre::Some(x), AllowPre::Some(y)) => {
            let t = |s: &HashSet<PackageName>| s.iter().map(|n| n.as_given().to_string()).collect::<BTreeSet<_>>();
            x == y && t(x) == t(y)
        }
        _ => false,
    }
}

fn policies(g: &mut G) -> R {
    let p = policy(g);
    g.nontrivial = !matches!(&p, AllowPre::Some(s) if s.is_empty());
    for (how, q) in loads(g, &p)? {
        ensure!(same_policy(&p, &q), "{p:?} comes back through {how} as {q:?}");
        let n = name(g);
        ensure!(p.allow_pre_for(&n) == q.allow_pre_for(&n), "the reloaded policy answers differently for {}", n.as_given());
    }
    Ok(())
}

fn briefs(g: &mut G) -> R {
    let (b, models) = brief(g);
    g.nontrivial = b.requirements.len() > 1 || b.requirements.iter().any(|r| r.env_marker_expr.is_some());
    for (how, c) in loads(g, &b)? {
        ensure!(b.python == c.python, "python requirement {} comes back through {how} as {}", b.python, c.python);
        ensure!(b.requirements == c.requirements, "requirements {:?} come back through {how} as {:?}", b.requirements, c.requirements);
        ensure!(same_policy(&b.allow_pre, &c.allow_pre), "{:?} comes back through {how} as {:?}", b.allow_pre, c.allow_pre);
        for (r, m) in c.requirements.iter().zip(&models) {
            let got = pep508::req_from_posy(r);
            let want = pep508::Req { marker: m.marker.clone().map(|m| m.flat()), ..m.clone() };
            ensure!(got == want, "the requirement written as {m:?} comes back through {how} as {got:?}");
        }
    }
    Ok(())
}

fn same_version(a: &Version, b: &Version) -> bool {
    a == b && a.to_string() == b.to_string()
}

fn same_pin(a: &PinnedPackage, b: &PinnedPackage) -> bool {
    a == b && a.name.as_given() == b.name.as_given() && same_version(&a.version, &b.version) && a.hashes == b.hashes
}

fn extras(s: &HashSet<Extra>) -> BTreeSet<String> {
    s.iter().map(|e| e.as_given().to_string()).collect()
}

fn blueprints(g: &mut G) -> R {
    let b = blueprint(g);
    g.nontrivial = !b.wheels.is_empty();
    if b.wheels.iter().any(|w| w.1.inner.requires_python.0.is_empty()) {
        g.label("no Requires-Python");
    }
    if !b.marker_expressions.is_empty() {
        g.label("with markers");
    }
    let text = serde_json::to_string(&b).map_err(|e| ff(format!("can't be stored: {e}")))?;
    ensure!(text == serde_json::to_string(&b).unwrap(), "stored twice, it differs");
    for (how, c) in loads(g, &b)? {
        ensure!(same_pin(&b.pybi, &c.pybi), "{:?} comes back through {how} as {:?}", b.pybi, c.pybi);
        ensure!(b.wheels.len() == c.wheels.len(), "{} wheels come back through {how} as {}", b.wheels.len(), c.wheels.len());
        for (x, y) in b.wheels.iter().zip(&c.wheels) {
            ensure!(same_pin(&x.0, &y.0), "{:?} comes back through {how} as {:?}", x.0, y.0);
            ensure!(x.1.provenance == y.1.provenance, "provenance {:?} comes back through {how} as {:?}", x.1.provenance, y.1.provenance);
            ensure!(x.1.inner == y.1.inner && extras(&x.1.inner.extras) == extras(&y.1.inner.extras), "{:?} comes back through {how} as {:?}", x.1.inner, y.1.inner);
        }
        let map = |m: &HashMap<StandaloneMarkerExpr, bool>| m.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeSet<_>>();
        ensure!(b.marker_expressions == c.marker_expressions && map(&b.marker_expressions) == map(&c.marker_expressions),
            "{:?} comes back through {how} as {:?}", b.marker_expressions, c.marker_expressions);
    }
    Ok(())
}

/// A stored file with one value spoilt is refused, not read as something else.
fn spoilt(g: &mut G) -> R {
    fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<(String, Value)>) {
        match v {
            Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| {
                at.push(i.to_string());
                paths(x, at, out);
                at.pop();
            }),
            Value::Object(m) => m.iter().for_each(|(k, x)| {
                at.push(k.clone());
                out.push((at.iter().map(|p| format!("/{}", p.replace('~', "~0").replace('/', "~1"))).collect(), x.clone()));
                paths(x, at, out);
                at.pop();
            }),
            _ => (),
        }
    }
    let lock = g.bool();
    let value = if lock {
        serde_json::to_value(blueprint(g))
    } else {
        serde_json::to_value(brief(g).0)
    }
    .map_err(|e| ff(format!("can't be stored: {e}")))?;
    let mut all = vec![];
    paths(&value, &mut vec![], &mut all);
    let (at, old) = g.choose(&all).clone();
    let mut v = value.clone();
    let key = at.rsplit('/').next().unwrap().to_string();
    let spoil = match key.as_str() {
        "name" | "version" | "python" | "requires-python" => serde_json::json!(*g.choose(&["", "-", "$", "1 2", ">=", "é"])),
        "hashes" => serde_json::json!([*g.choose(&["", "sha256", "sha256=x", "sha256=abc"])]),
        "requirements" | "requires-dist" => serde_json::json!([*g.choose(&["", "a @ http://x", "a >=", "a; b", "a; os_name ==", "a[", "-a"])]),
        "extras" => serde_json::json!([*g.choose(&["", "-x", "a b"])]),
        "allow_pre" if g.bool() => serde_json::json!(*g.choose(&[":ALL:", " :all:", ":all", ":all:x", ":All:", ":none:", "::all::"])),
        "allow_pre" => g.choose(&[serde_json::json!("all"), serde_json::json!(""), serde_json::json!(3), serde_json::json!({"a": 1}), serde_json::json!(["-"])]).clone(),
        _ => g.choose(&[serde_json::json!(3), serde_json::json!(null), serde_json::json!([[]]), serde_json::json!("x")]).clone(),
    };
    if spoil == old || (key == "requires-python" && spoil == "") || (key == "provenance" && spoil.is_string()) || (key == "python" && spoil == "1 2") {
        return Ok(());
    }
    *v.pointer_mut(&at).unwrap() = spoil.clone();
    let t = v.to_string();
    g.note(format!("{at} := {spoil}"));
    g.nontrivial = true;
    let refused = if lock { serde_json::from_str::<Blueprint>(&t).is_err() } else { serde_json::from_str::<Brief>(&t).is_err() };
    ensure!(refused, "a stored {} with {at} replaced by {spoil} is accepted: {t}", if lock { "lock file" } else { "brief" });
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C20",
        level: "exploration",
        assumptions: &["the storage format is JSON through serde_json, the only one the code uses"],
        subs: vec![
            Sub { name: "policy", rule: "pre-release policies, stored and loaded six ways; non-trivial: not the empty policy", quick: 20_000, thorough: 100_000, threads: 8, run: policies },
            Sub { name: "brief", rule: "briefs over all requirement shapes; non-trivial: several requirements or a marker", quick: 40_000, thorough: 300_000, threads: 8, run: briefs },
            Sub { name: "blueprint", rule: "lock files over versions, hashes, metadata, markers, provenance; non-trivial: pins a wheel", quick: 40_000, thorough: 300_000, threads: 8, run: blueprints },
            Sub { name: "spoilt", rule: "a stored file with one value made illegal; non-trivial: it differs", quick: 40_000, thorough: 200_000, threads: 8, run: spoilt },
        ],
    }
}
