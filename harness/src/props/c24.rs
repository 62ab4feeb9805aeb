//! C24: untrusted input is handled or refused, never a crash.
//!
//! Every reader is given documents from its own grammar with random damage ("text"), long
//! and deeply nested documents ("scale"), and damaged archives ("archives"). The oracle is
//! that it returns at all: a panic, an arithmetic overflow, an abort, a stack overflow and
//! an endless loop are all failures, and so is using more memory or computing time than
//! the size of the input explains.
use super::{c07, c08, c10, c16, c20};
use crate::archive::*;
use crate::gen;
use crate::meter::measure;
use crate::pep440;
use crate::pep508;
use crate::prop::*;
use posy::verif_hooks::*;
use std::borrow::Cow;
use std::collections::HashMap;
use std::convert::TryFrom;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::io::{Cursor, Read};

// ---- what is done with whatever a reader accepts ----

fn hash_of(v: &impl Hash) {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    std::hint::black_box(h.finish());
}

fn show(v: &(impl Display + Debug)) -> String {
    std::hint::black_box(format!("{v:?}"));
    v.to_string()
}

/// Displayed, and what's displayed read again if possible.
fn again<T: Display + Debug + Clone + PartialEq + for<'a> TryFrom<&'a str>>(v: &T) {
    let s = show(v);
    let c = v.clone();
    std::hint::black_box(&c == v);
    let r: Option<T> = T::try_from(s.as_str()).ok();
    if let Some(w) = r {
        std::hint::black_box(&w == v);
        show(&w);
    }
}

fn json<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T) {
    if let Ok(s) = serde_json::to_string(v) {
        std::hint::black_box(serde_json::from_str::<T>(&s).is_ok());
    }
}

struct Odd;

impl marker::Env for Odd {
    fn get_marker_var(&self, var: &str) -> Option<&str> {
        match var {
            "python_version" => Some("3.11"),
            "python_full_version" => Some("3.11.4"),
            "platform_release" => Some("not.a.version"),
            "platform_version" => Some("#1 SMP 4294967295"),
            "implementation_version" => Some("4294967295!4294967295.4294967295.dev4294967295"),
            "os_name" => Some(""),
            "extra" => None,
            "platform_machine" => None,
            _ => Some("linux"),
        }
    }
}

fn on_specifiers(s: &Specifiers) {
    again(s);
    json(s);
    for v in ["1.0", "0", "4294967295", "1!0.dev0", "4294967295!4294967295.4294967295.4294967295.post4294967295", "1.0+local"] {
        let _ = s.satisfied_by(&v.try_into().unwrap());
    }
    for x in &s.0 {
        show(x);
        if let Ok(rs) = x.to_ranges() {
            for r in rs {
                std::hint::black_box(r.start <= r.end);
                show(&r.start);
                show(&r.end);
            }
        }
    }
}

fn on_marker(m: &marker::EnvMarkerExpr) {
    std::hint::black_box(format!("{m:?} {m}"));
    let _ = m.eval(&Odd);
    let c = m.clone();
    std::hint::black_box(&c == m);
}

fn on_requirement(r: &Requirement) {
    show(r);
    on_specifiers(&r.specifiers);
    if let Some(m) = &r.env_marker_expr {
        on_marker(m);
    }
    hash_of(&r.name);
}

fn on_artifact_name(n: &ArtifactName) {
    again(n);
    std::hint::black_box(n.cmp(n));
    hash_of(n.distribution());
    for x in n.split_multiplatform_pybis() {
        std::hint::black_box((x.to_string(), &x < n));
    }
    if let Some(w) = n.inner_as::<WheelName>() {
        std::hint::black_box(w.all_tags().len());
    }
    if let Some(w) = n.inner_as::<PybiName>() {
        std::hint::black_box(w.all_tags().len());
    }
    on_version(n.version());
}

fn on_version(v: &Version) {
    again(v);
    hash_of(v);
    json(v);
    std::hint::black_box((v.cmp(v), v.is_prerelease(), v.next() > *v));
    let _ = v.next_public().map(|n| n > *v);
    for o in ["1.0", "0.dev0", "4294967295!0", "1.0+z.1"] {
        let o: Version = o.try_into().unwrap();
        std::hint::black_box((v.cmp(&o), o.cmp(v)));
    }
}

fn on_hash(h: &ArtifactHash) {
    again(h);
    json(h);
    hash_of(h);
    std::hint::black_box(h.key());
    if let Ok(mut c) = h.checker(std::io::sink()) {
        let _ = std::io::Write::write_all(&mut c, b"data");
        let _ = c.finish();
    }
}

fn on_wheel_metadata(m: &WheelCoreMetadata) {
    std::hint::black_box(format!("{m:?}"));
    for r in &m.requires_dist {
        on_requirement(r);
    }
    on_specifiers(&m.requires_python);
    for e in &m.extras {
        on_name(e.as_given(), e.normalized());
        hash_of(e);
    }
    on_version(&m.version);
}

fn on_pybi_metadata(m: &PybiCoreMetadata) {
    std::hint::black_box(format!("{m:?}"));
    on_version(&m.version);
    for p in ["manylinux_2_17_x86_64", "macosx_11_0_arm64"] {
        if let Ok(w) = PybiPlatform::new(p).wheel_platform(m) {
            std::hint::black_box(w.max_compatibility(w.tags().take(50)));
            std::hint::black_box(w.compatibility("py3-none-any"));
        }
    }
    for k in ["purelib", "scripts", "no such"] {
        let _ = m.path(k).map(on_path);
    }
    for v in m.environment_marker_variables.values() {
        if let Ok(v) = Version::try_from(v.as_str()) {
            on_version(&v);
        }
    }
}

fn on_name(given: &str, normal: &str) {
    std::hint::black_box(format!("{given} {normal:?}"));
}

fn on_path(p: &NicePathBuf) {
    again(p);
    json(p);
    std::hint::black_box((p.len(), p.to_native(), p.contains(p)));
    let _ = NiceSymlinkPaths::new(p, b"../x");
}

// ---- the readers ----

struct Reader {
    name: &'static str,
    seed: fn(&mut G) -> Vec<u8>,
    read: fn(&[u8]) -> bool,
    /// how long an input the "scale" sub-check gives it, in bytes
    limit: usize,
    /// repetitions to try, as (before, inner, after): before and after are repeated
    deep: &'static [(&'static str, &'static str, &'static str, &'static str, &'static str)],
}

fn utf8(b: &[u8]) -> Cow<'_, str> {
    String::from_utf8_lossy(b)
}

fn text<T>(b: &[u8], f: impl Fn(&T)) -> bool
where
    T: for<'a> TryFrom<&'a str, Error = eyre::Report>,
{
    match T::try_from(&utf8(b)) {
        Ok(v) => {
            f(&v);
            true
        }
        Err(e) => {
            std::hint::black_box((format!("{e:#}"), format!("{e:?}")));
            false
        }
    }
}

fn parsed<T>(r: Result<T, eyre::Report>, f: impl Fn(&T)) -> bool {
    match r {
        Ok(v) => {
            f(&v);
            true
        }
        Err(e) => {
            std::hint::black_box((format!("{e:#}"), format!("{e:?}")));
            false
        }
    }
}

fn loaded<T: serde::Serialize + serde::de::DeserializeOwned>(b: &[u8]) -> bool {
    match serde_json::from_slice::<T>(b) {
        Ok(v) => {
            json(&v);
            true
        }
        Err(e) => {
            std::hint::black_box(e.to_string());
            false
        }
    }
}

fn seed_version(g: &mut G) -> Vec<u8> {
    let v = pep440::version(g, true);
    pep440::spell(g, &v).into_bytes()
}

fn seed_req(g: &mut G) -> Vec<u8> {
    let extra = g.bool();
    let r = pep508::req(g, extra);
    pep508::render(g, &r).into_bytes()
}

fn seed_marker(g: &mut G) -> Vec<u8> {
    let m = pep508::marker_any(g, 3, false);
    pep508::render_marker(g, &m).into_bytes()
}

fn seed_specs(g: &mut G) -> Vec<u8> {
    let s = g.vec(1, 3, pep508::spec_pair);
    pep508::render_specs(g, &s).into_bytes()
}

fn dist_name(g: &mut G) -> String {
    let n = gen::name(g, false);
    let v = String::from_utf8(seed_version(g)).unwrap().trim().replace('-', "_");
    format!("{n}-{v}")
}

fn tags(g: &mut G) -> String {
    g.vec(1, 3, |g| g.pick(&["py3", "cp311", "none", "any", "manylinux_2_17_x86_64", "macosx_11_0_universal2", "", "PLATFORM", "macosx__universal2"]).to_string()).join(".")
}

fn seed_file(g: &mut G) -> Vec<u8> {
    let n = dist_name(g);
    match g.below(3) {
        0 => format!("{n}.{}", g.pick(&["zip", "tar.gz"])),
        1 => {
            let b = g.pick(&["", "-1", "-0x", "-4294967296a", "-b"]);
            format!("{n}{b}-{}-{}-{}.whl", tags(g), tags(g), tags(g))
        }
        _ => format!("{n}-{}.pybi", tags(g)),
    }
    .into_bytes()
}

fn seed_hash(g: &mut G) -> Vec<u8> {
    let n = *g.choose(&[32usize, 32, 16, 64, 15]);
    format!("{}={}", g.pick(&["sha256", "sha256", "sha512", "md5"]), gen::hex(&g.blob(n, n))).into_bytes()
}

fn seed_wheel_metadata(g: &mut G) -> Vec<u8> {
    let mut s = format!("Metadata-Version: {}\nName: {}\nVersion: {}\n", g.pick(&["2.1", "1.0", "2.99999999999"]), gen::name(g, true), utf8(&seed_version(g)).trim());
    for _ in 0..g.range(0, 3) {
        s += &format!("Requires-Dist: {}\n", utf8(&seed_req(g)));
    }
    if g.bool() {
        s += &format!("Requires-Python: {}\n", utf8(&seed_specs(g)));
    }
    for _ in 0..g.range(0, 2) {
        s += &format!("Provides-Extra: {}\n", gen::name(g, true));
    }
    if g.bool() {
        s += "Description: a\n  b\n\tc\n\nthe body\n";
    }
    s.into_bytes()
}

fn seed_pybi_metadata(g: &mut G) -> Vec<u8> {
    let mut s = format!("Metadata-Version: 2.1\nName: cpython\nVersion: {}\n", utf8(&seed_version(g)).trim());
    s += g.pick(&["Pybi-Environment-Marker-Variables: {\"python_version\": \"3.11\", \"os_name\": \"posix\"}\n", "Pybi-Environment-Marker-Variables: {}\n"]);
    for _ in 0..g.range(0, 3) {
        s += &format!("Pybi-Wheel-Tag: {}\n", g.pick(&["cp311-cp311-PLATFORM", "py3-none-any", "-PLATFORM", "PLATFORM"]));
    }
    s += g.pick(&["Pybi-Paths: {\"purelib\": \"lib/python3.11\", \"scripts\": \"bin\"}\n", "Pybi-Paths: {\"data\": \".\"}\n"]);
    s.into_bytes()
}

fn seed_path(g: &mut G) -> Vec<u8> {
    c08::path(g)
}

fn seed_entry_points(g: &mut G) -> Vec<u8> {
    let m = c07::make(g);
    c07::join(g, &m.lines).into_bytes()
}

fn seed_page(g: &mut G) -> Vec<u8> {
    c16::page(g).html.into_bytes()
}

fn seed_blueprint(g: &mut G) -> Vec<u8> {
    serde_json::to_vec(&c20::blueprint(g)).unwrap()
}

fn seed_brief(g: &mut G) -> Vec<u8> {
    serde_json::to_vec(&c20::brief(g).0).unwrap()
}

fn seed_policy(g: &mut G) -> Vec<u8> {
    serde_json::to_vec(&c20::policy(g)).unwrap()
}

fn seed_name(g: &mut G) -> Vec<u8> {
    gen::name(g, true).into_bytes()
}

fn seed_python(g: &mut G) -> Vec<u8> {
    format!("{} {}", gen::name(g, true), utf8(&seed_specs(g))).into_bytes()
}

const MARKERS: &[(&str, &str, &str, &str, &str)] = &[
    ("", "(", "os_name=='a'", ")", ""),
    ("", "( ", "os_name=='a'", "", ""),
    ("os_name=='a'", " and os_name=='a'", "", "", ""),
    ("os_name=='a'", " or os_name=='a'", "", "", ""),
    ("os_name=='a'", " or os_name=='a' and os_name=='b'", "", "", ""),
    ("", "(os_name=='a' and ", "os_name=='b'", ")", ""),
    ("", "(", "os_name=='a'", " or os_name=='b')", ""),
    ("os_name in '", "x", "", "", "'"),
    ("os_name in '", "x", "", "'", "'"),
    ("python_version < '1", ".0", "", "", "'"),
    ("python_version < '", "1", "", "", "'"),
];

const REQS: &[(&str, &str, &str, &str, &str)] = &[
    ("a;", "(", "os_name=='a'", ")", ""),
    ("a;os_name=='a'", " and os_name=='a'", "", "", ""),
    ("a;os_name=='a'", " or os_name=='a'", "", "", ""),
    ("a;", "(os_name=='a' or ", "os_name=='b'", ")", ""),
    ("a[", "x,", "x", "", "]"),
    ("a (", ">=1,", "<2", "", ")"),
    ("a>=1", ",!=1.0", "", "", ""),
    ("a", "-", "", "", "b"),
    ("a==", "1.", "", "", "0"),
    ("", "a", "", "", ""),
    ("a", " ", "", "", ";"),
    ("a;", "(", "", "", ""),
    ("a", "(", ">=1", ")", ""),
    ("a", "[", "x", "]", ""),
];

const SPECS: &[(&str, &str, &str, &str, &str)] = &[
    (">=1", ",!=1.5", "", "", ""),
    ("", "(", ">=1", ")", ""),
    ("~=", "1.", "", "", "0"),
    ("==", "1.", "", "", "*"),
    ("==1+", "a.", "", "", "b"),
    (">=", "9", "", "", ""),
    (">=1", " ", "", "", ""),
];

const JSON: &[(&str, &str, &str, &str, &str)] = &[
    ("", "[", "", "]", ""),
    ("", "{\"pybi\":", "1", "}", ""),
    ("{\"python\":\"a\",\"allow_pre\":\"all\",\"requirements\":[", "\"a\",", "\"a\"", "", "]}"),
    ("{\"python\":\"a", " ", "", "", "\"}"),
    ("{\"python\":\"a\",\"requirements\":[\"a;", "(", "os_name=='a'", ")", "\"]}"),
    ("{\"marker_expressions\":[[\"", "(", "os_name=='a'", ")", "\",true]]}"),
    ("", "\\u0000", "", "", ""),
];

const HTML: &[(&str, &str, &str, &str, &str)] = &[
    ("", "<div>", "<a href=a-1.zip>", "</div>", ""),
    ("", "<a href=a-1.zip>", "", "", ""),
    ("", "<a href=a-1.zip>x</a>", "", "", ""),
    ("", "<table>", "<a href=a-1.zip>", "", ""),
    ("<a ", "b=c ", "", "", "href=a-1.zip>"),
    ("<a href=a-1.zip#", "sha256=", "", "", ">"),
    ("<a href='", "../", "", "", "a-1.zip'>"),
    ("<a href='a-1-", "macosx_1_universal2.", "", "", "x.pybi'>"),
    ("", "<!--", "", "-->", ""),
    ("", "<base href='x/'>", "<a href=a-1.zip>", "", ""),
    ("<a href='", "%20", "", "", "a-1.zip'>"),
    ("", "&amp;", "", "", ""),
    ("", "<b>", "", "</i>", ""),
    ("<a data-yanked='", "x", "", "", "' href=a-1.zip>"),
];

const FILES: &[(&str, &str, &str, &str, &str)] = &[
    ("a-1-", "py3.", "", "", "py3-none-any.whl"),
    ("a-1-", "py3.", "py3-", "none.", "none-any.whl"),
    ("a-1-", "p.", "p-n-", "a.", "a.whl"),
    ("a-1-", "", "py3-none-", "any.", "any.whl"),
    ("a-1-", "macosx_1_universal2.", "", "", "x.pybi"),
    ("a-1-", "x.", "", "", "x.pybi"),
    ("a-", "1.", "", "", "0.zip"),
    ("", "a-", "", "", "1.tar.gz"),
    ("a-1-", "1", "", "", "-py3-none-any.whl"),
    ("a", "_", "", "", "b-1-py3-none-any.whl"),
    ("a-1", "", "", "-", "x.whl"),
];

const HEADERS: &[(&str, &str, &str, &str, &str)] = &[
    ("Metadata-Version: 2.1\nName: a\nVersion: 1\n", "Requires-Dist: b\n", "", "", ""),
    ("Metadata-Version: 2.1\nName: a\nVersion: 1\n", "Provides-Extra: b\n", "", "", ""),
    ("Metadata-Version: 2.1\nName: a\nVersion: 1\nDescription: x", "\n y", "", "", "\n"),
    ("Metadata-Version: 2.1\nName: a\nVersion: 1\nRequires-Dist: a;", "(", "os_name=='a'", ")", "\n"),
    ("Metadata-Version: 2.1\nName: a\nVersion: 1\nRequires-Dist: a;os_name=='a'", " or os_name=='a'", "", "", "\n"),
    ("Metadata-Version: 2.1\nName: a\nVersion: 1\n", "X: \n", "", "", ""),
    ("Metadata-Version: 2.1\nName: a\nVersion: 1\n", "\r", "", "", ""),
    ("Metadata-Version: 2.1\nName: a\nVersion: 1\nRequires-Python: ", ">=1,", "<2", "", "\n"),
    ("Metadata-Version: 2.1\nName: a\nVersion: ", "1.", "", "", "0\n"),
];

const PYBI: &[(&str, &str, &str, &str, &str)] = &[
    ("Metadata-Version: 2.1\nName: a\nVersion: 1\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {}\n", "Pybi-Wheel-Tag: x-PLATFORM\n", "", "", ""),
    ("Metadata-Version: 2.1\nName: a\nVersion: 1\nPybi-Environment-Marker-Variables: ", "{\"a\":", "1", "}", "\nPybi-Paths: {}\n"),
    ("Metadata-Version: 2.1\nName: a\nVersion: 1\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: ", "[", "", "]", "\n"),
    ("Metadata-Version: 2.1\nName: a\nVersion: 1\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {\"purelib\":\"", "a/", "", "", "\"}\n"),
    ("Metadata-Version: 2.1\nName: a\nVersion: 1\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {", "\"purelib\":\"a\",", "\"data\":\"b\"", "", "}\n"),
];

const EPS: &[(&str, &str, &str, &str, &str)] = &[
    ("[a]\n", "b=c\n", "", "", ""),
    ("", "[a]\n", "", "", ""),
    ("[a]\nb=c", ".d", "", "", ""),
    ("[a]\nb=c:d", ".e", "", "", ""),
    ("[a]\nb", " ", "", "", "=c"),
    ("", "[", "a", "]", "\n"),
    ("[a]\nb=c ", "[x]", "", "", ""),
    ("[a]\n", "#", "", "", ""),
    ("[a]\n", "\t", "", "", "x"),
    ("[a]\nb=", " ", "", "", "!"),
];

const PATHS: &[(&str, &str, &str, &str, &str)] = &[("", "a/", "", "../", "b"), ("", "a/../", "", "", "b"), ("", "./", "", "", "b"), ("", "a/", "", "", "b"), ("", "/", "", "", ""), ("a", "/", "", "", ""), ("", "../", "", "a/", ""), ("", "a", "", "", "")];

const VERSIONS: &[(&str, &str, &str, &str, &str)] = &[("1", ".0", "", "", ""), ("", "1", "", "", ""), ("1+a", ".b", "", "", ""), ("1", "a1", "", "", ""), ("", "0", "", "", "1"), ("1+", "9", "", "", ""), ("1.0", ".", "", "", "dev"), ("", "v", "", "", "1")];

const NAMES: &[(&str, &str, &str, &str, &str)] = &[("a", "-", "", "", "b"), ("", "a", "", "", ""), ("", "a.", "", "", "a"), ("", "-", "", "", "")];

fn readers() -> Vec<Reader> {
    let big = 200_000;
    vec![
        Reader { name: "project name", seed: seed_name, limit: big, deep: NAMES, read: |b| text::<PackageName>(b, |v| { on_name(v.as_given(), v.normalized()); hash_of(v); json(v); std::hint::black_box(v.cmp(v)); }) },
        Reader { name: "extra name", seed: seed_name, limit: big, deep: NAMES, read: |b| text::<Extra>(b, |v| { on_name(v.as_given(), v.normalized()); hash_of(v); json(v); std::hint::black_box(v == &v.clone()); }) },
        Reader { name: "version", seed: seed_version, limit: big, deep: VERSIONS, read: |b| text::<Version>(b, on_version) },
        Reader { name: "specifiers", seed: seed_specs, limit: big, deep: SPECS, read: |b| text::<Specifiers>(b, on_specifiers) },
        Reader { name: "user requirement", seed: seed_req, limit: big, deep: REQS, read: |b| text::<UserRequirement>(b, |r| { on_requirement(r); json(r) }) },
        Reader { name: "package requirement", seed: seed_req, limit: big, deep: REQS, read: |b| text::<PackageRequirement>(b, |r| { on_requirement(r); json(r) }) },
        Reader { name: "python requirement", seed: seed_python, limit: big, deep: REQS, read: |b| text::<PythonRequirement>(b, |r| { on_requirement(r); json(r) }) },
        Reader { name: "marker", seed: seed_marker, limit: big, deep: MARKERS, read: |b| text::<StandaloneMarkerExpr>(b, |m| { on_marker(&m.0); show(m); json(m); hash_of(m) }) },
        Reader { name: "file name", seed: seed_file, limit: big, deep: FILES, read: |b| text::<ArtifactName>(b, on_artifact_name) },
        Reader { name: "hash", seed: seed_hash, limit: big, deep: &[("sha256=", "00", "", "", ""), ("", "a", "", "", "=00")], read: |b| text::<ArtifactHash>(b, on_hash) },
        Reader { name: "wheel metadata", seed: seed_wheel_metadata, limit: big, deep: HEADERS, read: |b| parsed(WheelCoreMetadata::try_from(b), on_wheel_metadata) },
        Reader { name: "pybi metadata", seed: seed_pybi_metadata, limit: big, deep: PYBI, read: |b| parsed(PybiCoreMetadata::try_from(b), on_pybi_metadata) },
        Reader { name: "headers", seed: seed_wheel_metadata, limit: big, deep: HEADERS, read: |b| parsed(RFC822ish::parse(&utf8(b)), |_| ()) },
        Reader { name: "entry points", seed: seed_entry_points, limit: big, deep: EPS, read: |b| parsed(parse_entry_points(&utf8(b)), |m| { std::hint::black_box(format!("{m:?}")); }) },
        Reader { name: "path", seed: seed_path, limit: big, deep: PATHS, read: |b| parsed(NicePathBuf::try_from(b), on_path) },
        Reader {
            name: "symlink",
            seed: seed_path,
            limit: big,
            deep: PATHS,
            read: |b| {
                let src = NicePathBuf::try_from("a/b/c").unwrap();
                parsed(NiceSymlinkPaths::new(&src, b), |l| { std::hint::black_box(format!("{l:?}")); })
            },
        },
        // (the HTML parser takes quadratic time for elements left open, so less of it)
        Reader { name: "index page", seed: seed_page, limit: 20_000, deep: HTML, read: |b| {
            let url = url::Url::parse("https://index.test/simple/x/").unwrap();
            parsed(parse_html(&url, "text/html", b), |p| {
                std::hint::black_box(format!("{p:?}"));
                let mut map = Default::default();
                let _ = pack_by_version(p.clone(), &mut map);
                for a in &p.artifacts {
                    on_artifact_name(&a.name);
                    a.hash.iter().for_each(on_hash);
                    if let Some(r) = &a.requires_python {
                        let _ = Specifiers::try_from(r.as_str()).map(|s| on_specifiers(&s));
                    }
                }
            })
        } },
        Reader { name: "lock file", seed: seed_blueprint, limit: big, deep: JSON, read: loaded::<Blueprint> },
        Reader { name: "brief", seed: seed_brief, limit: big, deep: JSON, read: loaded::<Brief> },
        Reader { name: "pre-release policy", seed: seed_policy, limit: big, deep: JSON, read: loaded::<AllowPre> },
    ]
}

const TOKENS: &[&[u8]] = &[
    b"4294967295", b"4294967296", b"18446744073709551616", b"99999999999999999999999999", b"-1", b"0", b"..", b"../", b"/", b"\\", b"\0", b"\n", b"\r\n", b"\r", b"\x0b", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xef\xbb\xbf",
    b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"\xe2\x80\xa8", b"\xd9\xa1", b"\xc5\xbf", b"\xe2\x84\xaa", b"\xcc\x81", b"%00", b"%ff", b"%2f", b"%", b"&#0;", b"&#x110000;", b"&lt", b"<", b">", b"'", b"\"", b"(", b")", b"[", b"]", b"{", b"}", b" and ", b" or ", b" not in ",
    b" in ", b"==", b"===", b"~=", b"!=", b".*", b"+", b"!", b"-", b"_", b".", b",", b";", b"#", b"=", b":", b"@", b" ", b"\t", b"dev", b"post", b"rc", b"a", b"e", b"extra", b"null", b"true", b"1e999", b"\\u0000", b"\\ud800", b"sha256=", b"http://[::1", b"//", b"?", b"data:,x", b"<base href=''>",
    b"<meta name=pypi:repository-version content=1>", b"</a>", b"<!--", b".whl", b".pybi", b".tar.gz", b".zip", b"PLATFORM",
];

fn damage(g: &mut G, mut v: Vec<u8>, other: &[u8]) -> Vec<u8> {
    for _ in 0..g.weighted(&[2, 5, 4, 3, 2, 1, 1]) {
        let i = g.usize(v.len() + 1);
        let j = (i + g.usize(12)).min(v.len());
        match g.below(8) {
            0 => {
                v.drain(i..j);
            }
            1 | 2 => {
                let t = g.choose(TOKENS);
                v.splice(i..i, t.iter().copied());
            }
            3 => {
                let t = g.choose(TOKENS);
                v.splice(i..j, t.iter().copied());
            }
            4 => {
                let s = v[i..j].to_vec();
                let at = g.usize(v.len() + 1);
                for _ in 0..g.range(1, 5) {
                    v.splice(at..at, s.iter().copied());
                }
            }
            5 if !other.is_empty() => {
                let a = g.usize(other.len());
                let b = (a + g.usize(30)).min(other.len());
                v.splice(i..j, other[a..b].iter().copied());
            }
            6 => v.truncate(i),
            _ => {
                if i < v.len() {
                    v[i] = g.below(256) as u8;
                }
            }
        }
    }
    v
}

/// The engine itself, logging and so on.
const BASE: i64 = 8 << 20;

fn run(r: &Reader, doc: &[u8], g: &mut G, seconds: f64) -> R {
    let n = doc.len();
    let allowed = BASE + 600 * n as i64;
    let (ok, used) = measure(allowed * 8, || catching(|| (r.read)(doc)));
    let shown = || {
        let t = utf8(doc);
        if t.chars().count() > 300 { format!("{:?}... ({n} bytes)", t.chars().take(300).collect::<String>()) } else { format!("{t:?}") }
    };
    match ok {
        Err(p) => return fail(format!("{}: {p} on {}", r.name, shown())),
        Ok(true) => g.label("accepted"),
        Ok(false) => g.label("refused"),
    }
    ensure!(used.bytes <= allowed, "{}: {} bytes of memory for {n} bytes of input {}", r.name, used.bytes, shown());
    ensure!(used.seconds <= seconds, "{}: computes {:.1} s for {n} bytes of input {}", r.name, used.seconds, shown());
    if std::env::var_os("C24_STATS").is_some() {
        eprintln!("STAT {} {n} {} {:.4} {}", r.name, used.bytes / (n as i64 + 1), used.seconds, shown());
    }
    Ok(())
}

fn texts(g: &mut G) -> R {
    let rs = readers();
    let r = g.choose(&rs);
    let seed = (r.seed)(g);
    let other = (g.choose(&rs).seed)(g);
    let doc = damage(g, seed.clone(), &other);
    g.note(format!("{}: {:?}", r.name, utf8(&doc)));
    g.label(r.name);
    g.nontrivial = doc != seed;
    run(r, &doc, g, 2.0)
}

/// Long and deep documents.
fn scale(g: &mut G) -> R {
    let rs = readers();
    let r = g.choose(&rs);
    let size = *g.choose(&[400usize, 2_000, 10_000, 40_000, 100_000, 200_000]);
    let size = size.min(r.limit);
    let doc: Vec<u8> = if g.chance(3, 5) {
        let (a, b, c, d, e) = *g.choose(r.deep);
        let k = size / (b.len() + d.len()).max(1);
        g.note(format!("{}: {a:?} {k}*{b:?} {c:?} {k}*{d:?} {e:?}", r.name));
        format!("{a}{}{c}{}{e}", b.repeat(k), d.repeat(k)).into_bytes()
    } else {
        // repeat one or two pieces of an ordinary document
        let mut doc = (r.seed)(g);
        let two = g.bool();
        let mut what = vec![];
        for _ in 0..1 + two as usize {
            let i = g.usize(doc.len() + 1);
            let j = (i + 1 + g.usize(16)).min(doc.len());
            if i < j {
                what.push((i, j));
            }
        }
        what.sort();
        g.note(format!("{}: {:?}, repeating {what:?} to {size} bytes", r.name, utf8(&doc)));
        for (i, j) in what.iter().rev() {
            let piece = doc[*i..*j].to_vec();
            let k = size / what.len() / piece.len();
            let more = piece.repeat(k);
            doc.splice(*i..*i, more);
        }
        doc
    };
    g.label(r.name);
    g.nontrivial = doc.len() >= 2_000;
    run(r, &doc, g, 1.0 + doc.len() as f64 * 60e-6)
}

// ---- archives ----

struct Counting {
    bytes: u64,
    entries: u64,
}

const ENOUGH: u64 = 64 << 20;

impl WriteTree for &mut Counting {
    fn mkdir(&mut self, _: &NicePathBuf) -> Result<(), eyre::Report> {
        self.entries += 1;
        Ok(())
    }
    fn write_file(&mut self, _: &NicePathBuf, data: &mut dyn Read, _: bool) -> Result<(), eyre::Report> {
        self.entries += 1;
        let mut buf = [0u8; 16384];
        loop {
            let n = data.read(&mut buf)?;
            if n == 0 {
                return Ok(());
            }
            self.bytes += n as u64;
            if self.bytes > ENOUGH {
                return Err(eyre::eyre!("enough"));
            }
        }
    }
    fn write_symlink(&mut self, _: &NiceSymlinkPaths) -> Result<(), eyre::Report> {
        self.entries += 1;
        Ok(())
    }
}

/// Overwrites fields: most of an archive's structure is little-endian numbers and text.
fn damage_archive(g: &mut G, v: &mut Vec<u8>) {
    for _ in 0..g.range(1, 5) {
        if v.is_empty() {
            return;
        }
        // mostly at the structures
        let marks: Vec<usize> = v.windows(2).enumerate().filter(|(_, w)| w == b"PK").map(|(i, _)| i).collect();
        let i = if !marks.is_empty() && g.chance(2, 3) { (*g.choose(&marks) + 4 + g.usize(46)).min(v.len() - 1) } else { g.usize(v.len()) };
        match g.below(8) {
            0 => v[i] = g.below(256) as u8,
            1 => v[i] ^= 1 << g.below(8),
            2 | 3 => {
                let w = *g.choose(&[1usize, 2, 4, 8]);
                let x: u64 = *g.choose(&[0u64, 1, u64::MAX, 0x7fff_ffff, 0x8000_0000, 0x7fff_ffff_ffff_ffff, 0xffff_ff00, 0x0100_0000]);
                for (k, b) in x.to_le_bytes().iter().take(w).enumerate() {
                    if i + k < v.len() {
                        v[i + k] = *b;
                    }
                }
            }
            4 => {
                let j = (i + 1 + g.usize(40)).min(v.len());
                v.drain(i..j);
            }
            5 => {
                let j = (i + 1 + g.usize(40)).min(v.len());
                let s = v[i..j].to_vec();
                let at = g.usize(v.len() + 1);
                v.splice(at..at, s);
            }
            6 => v.truncate(i),
            _ => {
                let t = g.choose(TOKENS);
                v.splice(i..i, t.iter().copied());
            }
        }
    }
}

/// Makes entries of a zip's directory claim sizes that they don't have.
fn absurd_sizes(g: &mut G, z: &mut Vec<u8>) {
    let heads: Vec<usize> = z.windows(4).enumerate().filter(|(_, w)| w == b"PK\x01\x02").map(|(i, _)| i).collect();
    let Some(end) = z.windows(4).rposition(|w| w == b"PK\x05\x06") else { return };
    let mut grown = 0u32;
    for h in heads.into_iter().rev() {
        if h + 46 > end || !g.chance(1, 2) {
            continue;
        }
        // which of the packed and the unpacked size
        let which = g.range(1, 3);
        let size = *g.choose(&[1u64 << 31, u32::MAX as u64 - 1, 1 << 40, 1 << 62, u64::MAX]);
        let zip64 = size > u32::MAX as u64;
        let mut extra = vec![];
        for (bit, at) in [(2, 24), (1, 20)] {
            if which & bit != 0 {
                let v = if zip64 { u32::MAX } else { size as u32 };
                z[h + at..h + at + 4].copy_from_slice(&v.to_le_bytes());
                extra.extend(size.to_le_bytes());
            }
        }
        if zip64 {
            let u16_at = |z: &[u8], i: usize| u16::from_le_bytes([z[i], z[i + 1]]);
            let (name, old) = (u16_at(z, h + 28), u16_at(z, h + 30));
            let mut field = vec![1, 0];
            field.extend((extra.len() as u16).to_le_bytes());
            field.extend(extra);
            let Some(len) = old.checked_add(field.len() as u16) else { continue };
            z[h + 30..h + 32].copy_from_slice(&len.to_le_bytes());
            let at = (h + 46 + name as usize).min(z.len());
            grown += field.len() as u32;
            z.splice(at..at, field);
        }
    }
    let end = end + grown as usize;
    if end + 16 <= z.len() {
        let size = u32::from_le_bytes(z[end + 12..end + 16].try_into().unwrap()).wrapping_add(grown);
        z[end + 12..end + 16].copy_from_slice(&size.to_le_bytes());
    }
}

fn archives(g: &mut G) -> R {
    let kind = g.below(5);
    let mut ms: Vec<Member>;
    let filename;
    match kind {
        0 | 1 => {
            filename = if kind == 0 { "a-1.zip" } else { "a-1.tar.gz" }.to_string();
            ms = c08::members(g, kind == 1);
        }
        2 | 3 => {
            let m = c10::model(g);
            ms = m.all(g);
            filename = m.filename;
        }
        _ => {
            filename = "cpython-3.11-manylinux_2_17_x86_64.pybi".into();
            let md = if g.bool() { b"Metadata-Version: 2.1\nName: cpython\nVersion: 3.11\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {\"purelib\": \"lib\"}\n".to_vec() } else { seed_pybi_metadata(g) };
            ms = vec![Member::file("pybi-info/PYBI", b"Pybi-Version: 1.0\n"), Member::file("pybi-info/METADATA", &md)];
            ms.extend(c08::members(g, false));
        }
    }
    // a large member, that compresses well
    if g.chance(1, 12) {
        ms.push(Member::file("large", &vec![b'x'; *g.choose(&[10_000usize, 1_000_000, 4_000_000])]));
    }
    // damage to what the archive says about itself
    for m in &mut ms {
        let n = utf8(&m.name).to_string();
        if let Kind::File { data, .. } = &mut m.kind {
            if data.len() < 100_000 && (n.contains("-info/")) && g.chance(1, 4) {
                *data = damage(g, data.clone(), b"");
            }
        }
        if g.chance(1, 30) {
            m.name = damage(g, m.name.clone(), b"");
        }
    }
    let whole = g.chance(1, 4);
    let body = if kind == 1 {
        let f = *g.choose(&[TarFormat::V7, TarFormat::Ustar, TarFormat::Gnu, TarFormat::Pax]);
        let global = g.bool();
        let mut t = tar(&ms, f, global);
        if !whole && g.chance(2, 3) {
            damage_tar(g, &mut t);
        }
        let mut z = gz(&t, &[]);
        if !whole && g.chance(1, 3) {
            damage_archive(g, &mut z);
        }
        z
    } else {
        let st = zip_style(g, ms.len());
        let mut z = zip(&ms, &st);
        if !whole {
            if g.chance(1, 3) {
                absurd_sizes(g, &mut z);
            }
            if g.chance(2, 3) {
                damage_archive(g, &mut z);
            }
        }
        z
    };
    g.note(format!("{filename}: {} ({} bytes)", crate::archive::show(&ms), body.len()));
    g.label(match kind {
        0 => "zip sdist",
        1 => "tar.gz sdist",
        2 | 3 => "wheel",
        _ => "pybi",
    });
    g.nontrivial = true;
    let n = body.len();
    let mut tree = Counting { bytes: 0, entries: 0 };
    let (r, used) = measure(2 << 30, || {
        catching(|| -> Result<(), eyre::Report> {
            let name = ArtifactName::try_from(filename.as_str())?;
            let body = Box::new(Cursor::new(body));
            if let Some(n) = name.inner_as::<SdistName>() {
                Sdist::new(n.clone(), body)?.unpack(&mut &mut tree)
            } else if let Some(n) = name.inner_as::<WheelName>() {
                let w = Wheel::new(n.clone(), body)?;
                let _ = w.metadata().map(|m| on_wheel_metadata(&m.1)).map_err(|e| format!("{e:?}"));
                let paths: HashMap<String, NicePathBuf> = [("purelib", "lib"), ("platlib", "lib"), ("scripts", "bin"), ("data", "."), ("headers", "inc")].iter().map(|(k, v)| (k.to_string(), (*v).try_into().unwrap())).collect();
                w.unpack(&paths, &TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Both), &mut tree)
            } else {
                let p = Pybi::new(name.inner_as::<PybiName>().unwrap().clone(), body)?;
                let _ = p.metadata().map(|m| on_pybi_metadata(&m.1)).map_err(|e| format!("{e:?}"));
                p.unpack(&mut &mut tree)
            }
        })
    });
    match r {
        Err(p) => return fail(format!("{filename}: {p}")),
        Ok(Ok(())) => g.label("unpacked"),
        Ok(Err(e)) => {
            std::hint::black_box(format!("{e:?} {e:#}"));
            g.label("refused");
        }
    }
    let allowed = (32 << 20) + 40 * (n as i64 + tree.bytes.min(ENOUGH) as i64);
    ensure!(used.bytes <= allowed, "{} bytes of memory for {n} bytes that unpack to {} bytes in {} entries", used.bytes, tree.bytes, tree.entries);
    let s = 5.0 + (n as f64 + tree.bytes as f64) * 1e-6;
    ensure!(used.seconds <= s, "computes {:.1} s for {n} bytes that unpack to {} bytes in {} entries", used.seconds, tree.bytes, tree.entries);
    Ok(())
}

/// Overwrites header fields, and mends the checksums so that the damage is reached.
fn damage_tar(g: &mut G, t: &mut Vec<u8>) {
    let blocks = t.len() / 512;
    let heads: Vec<usize> = (0..blocks).map(|b| b * 512).filter(|&o| t[o..o + 512].iter().any(|x| *x != 0) && t[o + 148..o + 154].iter().all(|c| (b'0'..=b'7').contains(c))).collect();
    for _ in 0..g.range(1, 3) {
        if heads.is_empty() {
            return;
        }
        let o = *g.choose(&heads);
        let (at, len) = *g.choose(&[(0usize, 100usize), (100, 8), (108, 8), (124, 12), (124, 12), (136, 12), (156, 1), (156, 1), (157, 100), (257, 6), (263, 2), (345, 155)]);
        match g.below(4) {
            0 => {
                for k in 0..len {
                    t[o + at + k] = *g.choose(b"\0 7/.\xff\x80");
                    if len > 12 && k > 12 {
                        break;
                    }
                }
            }
            1 => t[o + at..o + at + len].fill(*g.choose(b"7\0\xff ")),
            2 => {
                // base 256
                t[o + at..o + at + len].fill(*g.choose(&[0u8, 0xff, 0x7f]));
                t[o + at] = *g.choose(&[0x80u8, 0xff, 0x81]);
            }
            _ => t[o + at + g.usize(len)] = g.below(256) as u8,
        }
        if g.chance(3, 4) {
            t[o + 148..o + 156].fill(b' ');
            let sum: u32 = t[o..o + 512].iter().map(|b| *b as u32).sum();
            t[o + 148..o + 155].copy_from_slice(format!("{sum:06o}\0").as_bytes());
        }
    }
    if g.chance(1, 6) {
        let n = g.usize(t.len());
        t.truncate(n);
    }
}

// ---- a whole index by strangers ----

const VERS: &[&str] = &[
    "1.0", "1.0", "2.0", "1.5", "0", "0.dev0", "4294967295", "4294967295!4294967295.4294967295.4294967295.post4294967295", "1.0.post4294967295", "1.dev4294967295", "2.0a4294967295", "1!0", "1.0+local.1", "1.0+4294967295", "3.0rc1", "1.0.0.0.0",
];

const CLAUSES: &[&str] = &[
    "", "", ">=1", "<2", "!=1.0", "==1.*", "<0.dev0", ">4294967295", "<4294967295!4294967295.4294967295.4294967295.post4294967295", ">=1.0.post4294967295", "<1.dev4294967295", "!=4294967294.*", "~=1.4294967295", "<=4294967295", "==1.0+local.1", ">=2.0a4294967295", "==2.0a4294967295.*", ">=1,<1", "(>=1)",
];

const BAD_CLAUSES: &[&str] = &["~=1", "===1", "==1.0.dev0.*", ">= nonsense", "==4294967296", "==4294967295.*", "!=4294967295.*", "~=4294967295.0", "==1.0.post4294967295", "<=1.dev4294967295", ">1.0.post4294967295"];

fn clause(g: &mut G, polite: bool) -> &'static str {
    match g.below(if polite { 6 } else { 7 }) {
        0..=3 => g.pick(&["", "", ">=0", "<4294967295", "!=1.5"]),
        4 | 5 => g.pick(CLAUSES),
        _ => g.pick(BAD_CLAUSES),
    }
}

const CONDITIONS: &[&str] = &["", "", "", "", ";extra=='x'", ";python_version>='3'", ";python_version>'4294967295'", ";'1' in python_version", ";implementation_version>='4294967295'", ";python_version=='3.*' or extra!='x'"];
const BAD_CONDITIONS: &[&str] = &[";platform_release>'4294967295.*'", ";os_name~='x'", ";implementation_version>='4294967295.*'", ";os_name in", ";python_version=='4294967295.*'"];

fn requirement(g: &mut G, polite: bool) -> String {
    let n = if polite { g.pick(&["a", "b", "c", "A"]) } else { g.pick(&["a", "b", "c", "A", "nowhere", PY]) };
    let e = if g.chance(1, 5) { g.pick(&["[x]", "[x,y]", "[]", "[X]"]) } else { "" };
    let c = if !polite && g.chance(1, 7) { g.pick(BAD_CONDITIONS) } else { g.pick(CONDITIONS) };
    format!("{n}{e}{}{c}", clause(g, polite))
}

const PY: &str = "cpython_unofficial";

fn worlds(g: &mut G) -> R {
    use crate::index::*;
    let mut described = String::new();
    let polite = g.chance(1, 2);
    let harm = if g.bool() { 0 } else { 1 };
    let mut site = Site::new();
    let mut damaged = 0;
    for n in [PY, "a", "b", "c"] {
        for _ in 0..g.range(1, 3) {
            let python = n == PY;
            let v = if python { g.pick(&["3.11", "3.12", "3.11", "3.10", "4294967295", "3.13a1"]) } else { g.pick(VERS) };
            let named = if g.chance(harm, 20) { g.pick(VERS) } else { v };
            let mut md = if python {
                let mut m = PybiMeta::new(n, v);
                if !polite && g.chance(1, 4) {
                    let k = g.pick(&["python_version", "python_full_version", "platform_release", "implementation_version"]);
                    if g.bool() {
                        m.markers.remove(k);
                    } else {
                        m.markers.insert(k.into(), g.pick(&["4294967295", "", "3.11+", "nonsense", "4294967295.4294967295"]).into());
                    }
                }
                if !polite && g.chance(1, 6) {
                    m.tags = g.vec(0, 3, |g| g.pick(&["-PLATFORM", "PLATFORM", "", "a-b-c-d", "py3-none-any"]).to_string());
                }
                m.text()
            } else {
                let mut m = Core::new(n, v);
                if g.chance(1, 4) {
                    m.requires_python = Some(clause(g, polite).into());
                }
                m.requires_dist = g.vec(0, 3, |g| requirement(g, polite));
                m.extras = g.vec(0, 3, |g| g.pick(&["x", "y", "X", "x-y"]).to_string());
                m.text()
            }
            .into_bytes();
            if g.chance(harm, 12) {
                md = damage(g, md, b"");
                damaged += 1;
            }
            let text = utf8(&md).to_string();
            let (name, ms) = if python {
                (format!("{n}-{named}-{}.pybi", g.pick(&["manylinux_2_17_x86_64", "manylinux_2_17_x86_64", "manylinux_2_17_x86_64", "any", "linux.manylinux_2_17_x86_64"])), pybi_members(&text, &[]))
            } else {
                (format!("{n}-{named}-{}.whl", g.pick(&["py3-none-any", "py3-none-any", "py2.py3-none-any", "py3-none-any", "py3-none-any", "cp310-abi3-any", "--"])), wheel_members(n, v, true, &text, &[]))
            };
            let mut bytes = pack(&ms);
            if g.chance(harm, 15) {
                damage_archive(g, &mut bytes);
                damaged += 1;
            }
            let mut f = File::new(name, bytes);
            f.at = format!("files/{n}/{}", site.files.len());
            f.at = format!("{}/{}", f.at, f.name);
            f.hashed = polite || g.chance(5, 6);
            if g.chance(1, 12) {
                f.yanked = Some("".into());
            }
            if g.chance(1, 5) {
                f.requires_python = Some(clause(g, polite).into());
            }
            described += &format!("{}{} rp={:?}: {:?}\n", f.name, if f.hashed { "" } else { " (no hash)" }, f.requires_python, text);
            site.add(&format!("simple/{}/", n.replace('_', "-")), f);
        }
    }
    // pages, as bytes
    let mut pages: HashMap<String, Vec<u8>> = HashMap::new();
    for (k, p) in &site.pages {
        if let Page::Files(fs) = p {
            let mut t = render(fs).into_bytes();
            if g.chance(harm, 8) {
                t = damage(g, t, b"");
                damaged += 1;
                described += &format!("{k}: {:?}\n", utf8(&t));
            }
            pages.insert(k.clone(), t);
        }
    }
    let roots = g.vec(1, 3, |g| requirement(g, polite));
    let python = format!("{PY}{}", g.pick(&["", "", ">=3", ">=3", "!=3.11", "<=4294967295", ">=3,!=4294967295"]));
    let pre = g.bool();
    g.note(format!("{described}{python} {roots:?} {pre}"));
    let ranges = g.bool();
    site.ranges = ranges;
    let go = move || -> Result<(&'static str, i64), Fail> {
        let requirements: Vec<UserRequirement> = roots.iter().filter_map(|r| r.as_str().try_into().ok()).collect();
        let Ok(python) = PythonRequirement::try_from(python.as_str()) else { return Ok(("refused", 0)) };
        let server = crate::server::Server::new(move |r| match pages.get(r.path.trim_start_matches('/')) {
            Some(t) => crate::server::Resp::new(200, t.clone()).with("Content-Type", "text/html"),
            None => answer(&site, r),
        });
        let home = Home::new();
        let db = home.db(&[server.url("simple/")]);
        let b = Brief { python, requirements, allow_pre: if pre { AllowPre::All } else { AllowPre::default() } };
        let p = PybiPlatform::new("manylinux_2_17_x86_64");
        let (r, used) = measure(2 << 30, || -> Result<bool, String> {
            match b.resolve(&db, &[&p], None, &[]) {
                Err(e) => {
                    std::hint::black_box(format!("{e:?} {e:#}"));
                    Ok(false)
                }
                Ok(lock) => {
                    // stored, loaded, and used again
                    let t = serde_json::to_string(&lock).map_err(|e| format!("can't be stored: {e}"))?;
                    let lock: Blueprint = serde_json::from_str(&t).map_err(|e| format!("{t} can't be loaded: {e}"))?;
                    let _ = b.resolve(&db, &[&p], Some(&lock), &[]).map_err(|e| format!("{e:?}"));
                    Ok(true)
                }
            }
        });
        match r {
            Ok(ok) => Ok((if ok { "resolved" } else { "refused" }, used.bytes)),
            Err(e) => fail(e),
        }
    };
    let (l, bytes) = in_time("resolve", move || unprivileged(go))??;
    g.label(l);
    g.label(if damaged > 0 { "damaged" } else { "odd" });
    g.nontrivial = l == "resolved" || damaged > 0;
    ensure!(bytes < 256 << 20, "takes {bytes} bytes of memory");
    Ok(())
}

/// The value of a header, as a stranger might send it.
fn header_value(g: &mut G, name: &str) -> String {
    const NUMBERS: &[&str] = &["0", "1", "-1", "+1", "18446744073709551615", "18446744073709551616", "9223372036854775807", "4294967295", "31556889864403199", "99999999999999999999999999", "1e9", "", " ", "0x10", "1.5", "NaN"];
    let n = |g: &mut G| if g.chance(1, 3) { g.below(20_000).to_string() } else { g.pick(NUMBERS).to_string() };
    let date = |g: &mut G| -> String {
        match g.below(6) {
            0 => "Thu, 01 Jan 1970 00:00:00 GMT".into(),
            1 => "Fri, 31 Dec 9999 23:59:59 GMT".into(),
            2 => "Wed, 31 Feb 2024 25:61:61 GMT".into(),
            3 => format!("Tue, 0{} Nov {} 08:12:31 GMT", g.range(1, 9), g.pick(&["0000", "1601", "2026", "10000", "99999999999"])),
            4 => format!("Tuesday, 0{}-Nov-94 08:49:37 GMT", g.range(1, 9)),
            _ => g.pick(&["0", "-1", "never", "", "Tue, ", "2024-01-01T00:00:00Z"]).into(),
        }
    };
    let v = match name {
        "Content-Range" => match g.below(5) {
            0 => format!("bytes {}-{}/{}", n(g), n(g), n(g)),
            1 => format!("bytes */{}", n(g)),
            2 => format!("bytes 0-1/{}", n(g)),
            3 => format!("{} 0-1/2", g.pick(&["octets", "", "Bytes", "bytes ", "bytes\t"])),
            _ => format!("bytes {}-{}/{}", n(g), n(g), g.pick(&["*", "", "/", "x"])),
        },
        "Cache-Control" => {
            let mut v = vec![];
            for _ in 0..g.range(1, 4) {
                let k = g.pick(&["max-age", "s-maxage", "stale-while-revalidate", "stale-if-error", "no-cache", "no-store", "private", "public", "immutable", "must-revalidate", "min-fresh", "max-stale", "pre-check", "post-check", "", "=", "\""]);
                v.push(match g.below(4) {
                    0 => k.to_string(),
                    1 => format!("{k}=\"{}\"", n(g)),
                    _ => format!("{k}={}", n(g)),
                });
            }
            v.join(g.pick(&[", ", ",", ";", " "]))
        }
        "Age" | "Content-Length" | "Retry-After" => n(g),
        "Date" | "Expires" | "Last-Modified" => date(g),
        "ETag" => g.pick(&["\"a\"", "W/\"a\"", "", "\"", "a,b", "*", "\"a\", \"b\""]).into(),
        "Location" => match g.below(3) {
            0 => g.pick(&["", "/", "?", "#", "//", "///", "http://", "http:", "https://[::1", "ftp://example.com/", "file:///etc/passwd", "data:,x", "mailto:x", "http://user:pw@127.0.0.1:1/", "http://127.0.0.1:0/", "http://127.0.0.1:99999/", "..", "/simple/x/", "/files/x", "http://xn--/", "http://\u{e9}/", "javascript:1", "/\u{e9}\u{ff}", "/%", "/%ff%00", "/ x", "/<>", "/{}", "/[]|^`"]).into(),
            1 => format!("/{}", "a/".repeat(g.below(3000) as usize)),
            _ => format!("/{}?{}", g.below(5), g.below(5)),
        },
        "Content-Type" => g.pick(&["text/html", "text/html; charset=utf-16", "text/html; charset=", "application/json", "text/html; charset=\"utf-8", "", "/", "a/b/c; d"]).into(),
        "Content-Encoding" => g.pick(&["gzip", "deflate", "br", "identity", "gzip, gzip", "", "x"]).into(),
        "Transfer-Encoding" => g.pick(&["chunked", "gzip, chunked", "identity", "", "chunked, chunked"]).into(),
        "Vary" => g.pick(&["*", "Accept", "Range, Accept-Encoding", "", ",,,", "\u{e9}"]).into(),
        "Accept-Ranges" => g.pick(&["bytes", "none", ""]).into(),
        "Warning" => g.pick(&["110 - \"stale\"", "199", "", "112 x \"\u{e9}\" \"Wed\""]).into(),
        _ => g.pick(&["", "x", "close", "keep-alive", "a=b; Path=/", "\u{e9}\u{80}\u{ff}", "\t"]).into(),
    };
    if g.chance(1, 10) {
        utf8(&damage(g, v.into_bytes(), b"0")).chars().map(|c| if c < ' ' || c as u32 > 255 { '\u{80}' } else { c }).collect()
    } else {
        v
    }
}

/// What a server answers may be anything.
fn hostile(g: &mut G, mut r: crate::server::Resp) -> crate::server::Resp {
    use crate::server::*;
    const HEADERS: &[&str] = &["Content-Range", "Content-Range", "Cache-Control", "Cache-Control", "Age", "Date", "Expires", "Last-Modified", "ETag", "Location", "Content-Type", "Content-Encoding", "Vary", "Retry-After", "Accept-Ranges", "Warning", "Connection", "Set-Cookie", "Pragma"];
    for _ in 0..g.range(1, 3) {
        match g.weighted(&[10, 4, 2, 2, 1, 1]) {
            0 => {
                let n = *g.choose(HEADERS);
                let v = header_value(g, n);
                // instead of the honest one, or as well
                if g.chance(3, 4) {
                    r.headers.retain(|(x, _)| x != n);
                }
                r.headers.push((n.into(), v));
            }
            1 => {
                r.status = if g.chance(1, 3) { g.range(100, 999) as u16 } else { *g.choose(&[100, 101, 103, 200, 201, 203, 204, 205, 206, 226, 300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 404, 407, 410, 412, 416, 418, 421, 429, 451, 500, 502, 503, 504, 511, 599, 600, 999]) };
                if (300..400).contains(&r.status) && g.chance(3, 4) {
                    let v = header_value(g, "Location");
                    r.headers.push(("Location".into(), v));
                }
            }
            2 => r.body = damage(g, r.body, b"HTTP/1.1 200 OK\r\n\r\n"),
            3 => {
                r.framing = match g.below(3) {
                    0 => Framing::Cut(g.usize(r.body.len() + 1)),
                    1 => Framing::Close,
                    _ => Framing::Chunked(vec![1 + g.below(300) as usize]),
                }
            }
            4 => {
                let n = g.range(1, 60) as usize;
                for i in 0..n {
                    r.headers.push((format!("X-{i}"), "y".repeat(g.below(400) as usize)));
                }
            }
            _ => {
                // bytes of its own
                let mut t = format!("HTTP/1.1 {} X\r\n", r.status).into_bytes();
                for (n, v) in &r.headers {
                    t.extend(format!("{n}: {v}\r\n").bytes());
                }
                let (n, v) = if g.bool() { ("Content-Length", if g.bool() { r.body.len().to_string() } else { header_value(g, "Content-Length") }) } else { ("Transfer-Encoding", header_value(g, "Transfer-Encoding")) };
                t.extend(format!("{n}: {v}\r\n\r\n").bytes());
                if g.chance(1, 8) {
                    // not a header
                    let at = t.len() - 2;
                    t.splice(at..at, g.pick(&["X\r\n", "Content-Length\r\n", ": x\r\n", "X : y\r\n", " folded\r\n", "X:\r\n"]).bytes());
                }
                let head = t.len();
                t.extend(&r.body);
                if g.bool() {
                    // in the head, where it matters
                    let rest = t.split_off(head);
                    t = damage(g, t, b"HTTP/1.1 200 OK\r\n\r\nffffffffffffffff\r\n");
                    t.extend(rest);
                }
                return Resp { status: 200, headers: vec![], body: t, framing: Framing::Raw };
            }
        }
    }
    r
}

/// Everything an index can be asked for, while it answers what it likes.
fn responses(g: &mut G) -> R {
    use crate::index::*;
    let mut site = Site::new();
    site.ranges = g.chance(4, 5);
    let pad = if g.bool() { 0 } else { g.range(1, 30_000) as usize };
    let filler: Vec<u8> = (0..pad).map(|i| (i.wrapping_mul(2_654_435_761) >> 13) as u8).collect();
    let page = "simple/x/";
    for (name, bytes) in [
        ("x-1-py3-none-any.whl", pack(&wheel_members("x", "1", true, &Core::new("x", "1").text(), &[Member::file("x/big", &filler)]))),
        ("x-1-manylinux_2_17_x86_64.pybi", pack(&pybi_members(&PybiMeta::new("x", "1").text(), &[]))),
        ("x-1.zip", b"sources".to_vec()),
    ] {
        let mut f = File::new(name, bytes);
        f.at = format!("files/{name}");
        f.hashed = g.bool();
        site.add(page, f);
    }
    // pages that have always moved, to themselves or to each other
    const PLACES: &[&str] = &["/simple/x/", "/files/x-1-py3-none-any.whl", "/files/x-1-manylinux_2_17_x86_64.pybi", "/files/x-1.zip", "/elsewhere", "/elsewhere/again"];
    let moved: Vec<(usize, u16, usize)> = if g.chance(1, 5) { g.vec(1, 5, |g| (g.usize(PLACES.len()), *g.choose(&[301, 302, 303, 307, 308]), g.usize(PLACES.len()))) } else { vec![] };
    // what each answer is, in order
    let rate = *g.choose(&[1u64, 2, 4]);
    let plan: Vec<Option<u64>> = (0..16).map(|_| g.chance(1, rate).then(|| g.below(1 << 40))).collect();
    let steps: Vec<u64> = g.vec(1, 5, |g| g.below(7));
    let log = std::sync::Arc::new(std::sync::Mutex::new((0usize, String::new())));
    let l2 = log.clone();
    let go = move || -> Result<(usize, i64), Fail> {
        crate::server::hurry();
        let mut k = 0;
        let server = crate::server::Server::new(move |r| {
            let honest = answer(&site, r);
            k += 1;
            if let Some((at, status, to)) = moved.iter().find(|m| PLACES[m.0] == r.path) {
                let mut l = l2.lock().unwrap();
                l.0 += 1;
                l.1 += &format!("{} {}: {status} to {}\n", r.method, PLACES[*at], PLACES[*to]);
                return crate::server::Resp::redirect(*status, PLACES[*to]);
            }
            let Some(seed) = plan[k % plan.len()] else { return honest };
            if k > 200 {
                return honest;
            }
            let bad = hostile(&mut G::aside(seed ^ k as u64), honest);
            let mut l = l2.lock().unwrap();
            l.0 += 1;
            let text = String::from_utf8_lossy(if bad.framing == crate::server::Framing::Raw { &bad.body[..bad.body.len().min(400)] } else { &[] }).to_string();
            l.1 += &format!("{} {}: {} {:?} {:?} {text:?}\n", r.method, r.path, bad.status, bad.headers, bad.framing);
            bad
        });
        let home = Home::new();
        let p = pkg("x");
        let mut done = 0;
        let ((), used) = measure(1 << 30, || {
            let mut db = home.db(&[server.url("simple/")]);
            for s in &steps {
                let arts: Vec<ArtifactInfo> = match db.available_artifacts(&p) {
                    Ok(m) => m.values().flatten().cloned().collect(),
                    Err(e) => {
                        std::hint::black_box(format!("{e:?} {e:#}"));
                        vec![]
                    }
                };
                let of = |e: &str| arts.iter().filter(|a| a.name.to_string().ends_with(e)).cloned().collect::<Vec<_>>();
                let ok = match s {
                    0 => true,
                    1 | 2 => db.get_metadata::<Wheel, _>(&of(".whl"), None).map_err(|e| format!("{e:?}")).is_ok(),
                    3 => db.get_metadata::<Pybi, _>(&of(".pybi"), None).map_err(|e| format!("{e:?}")).is_ok(),
                    4 => of(".whl").iter().all(|a| db.get_artifact::<Wheel>(a).map_err(|e| format!("{e:?}")).is_ok()),
                    5 => of(".pybi").iter().all(|a| db.get_artifact::<Pybi>(a).map_err(|e| format!("{e:?}")).is_ok()),
                    _ => {
                        db = home.db(&[server.url("simple/"), server.url("simple/")]);
                        true
                    }
                };
                done += ok as usize;
            }
        });
        Ok((done, used.bytes))
    };
    let r = in_time("requests", move || unprivileged(go));
    let (n, told) = std::mem::take(&mut *log.lock().unwrap());
    g.note(told.clone());
    let (done, bytes) = match r {
        Ok(r) => r?,
        Err(Fail { msg, .. }) if msg.contains("/ureq-") && msg.contains("/src/header.rs") && msg.contains("out of range for slice") => {
            return Err(Fail { msg, known: Some("a header line without a colon in an HTTP response makes ureq panic") });
        }
        Err(Fail { msg, .. }) => return fail(format!("{msg}\n{told}")),
    };
    g.nontrivial = n > 0;
    g.label(if done > 0 { "some of it works" } else { "nothing works" });
    ensure!(bytes < 64 << 20, "takes {bytes} bytes of memory\n{told}");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C24",
        level: "exploration",
        assumptions: &[
            "memory: 8 MB + 600 bytes per byte of input for documents; 32 MB + 40 bytes per byte of an archive and what it unpacks to",
            "computing time (of the thread, with overflow checks and without optimization): 1 s + 60 us per byte for documents",
            "how far compressed data expands is up to the compression format (1000:1 for deflate), and counts as proportional",
        ],
        subs: vec![
            Sub { name: "text", rule: "a document from a reader's grammar, changed by at least one edit", quick: 60_000, thorough: 3_000_000, threads: 8, run: texts },
            Sub { name: "scale", rule: "a document of at least 2,000 bytes made by repetition or nesting", quick: 2_500, thorough: 100_000, threads: 8, run: scale },
            Sub { name: "worlds", rule: "an index whose names, versions, metadata and requirements are at the limits of what is representable or beyond, some of its pages, files or metadata damaged, and a resolution that uses it; non-trivial: something is damaged or it resolves", quick: 4_000, thorough: 300_000, threads: 16, run: worlds },
            Sub { name: "responses", rule: "an index whose answers are changed in status, headers, framing or body, or are bytes of their own, while clients sharing a cache ask for listings, metadata and artifacts; non-trivial: at least one such answer was given", quick: 6_000, thorough: 500_000, threads: 16, run: responses },
            Sub { name: "archives", rule: "an archive of at least one member, damaged in three out of four cases", quick: 50_000, thorough: 1_000_000, threads: 8, run: archives },
        ],
    }
}
