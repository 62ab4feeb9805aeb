//! C22: building from source follows PEP 517, and only real results are cached.
use crate::archive::{self, Kind, Member};
use crate::index::*;
use crate::prop::*;
use crate::tags::expansion;
use posy::verif_hooks::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};

pub fn property() -> Property {
    Property {
        id: "C22",
        level: "exploration",
        assumptions: &[
            "interpreters are wrappers around the sandbox's python3",
            "wheels of one release have the same metadata whichever interpreter they were built with",
            "one posy at a time works in a build directory (posy's own is temporary)",
        ],
        subs: vec![
            Sub { name: "builds", rule: "one request (metadata, wheel, environment, or resolve and install) for one of up to three source distributions with generated pyproject.toml, backend kind, hooks, static and dynamic requirements on wheels and on each other, and at times a failing or lying backend; the backend logs what it sees; non-trivial: a hook ran", quick: 800, thorough: 20_000, threads: 12, run: |g| run(g, 1) },
            Sub { name: "histories", rule: "two to five such requests with the same directories, by the same or new posy processes, while backends fail or lie in between and then work again, for different interpreters and platforms; non-trivial: some result was reused or some request followed a failure", quick: 440, thorough: 12_000, threads: 12, run: |g| run(g, 5) },
            Sub { name: "pythons", rule: "two to six requests, with different interpreters, for one sdist whose backend makes different wheels with different interpreters: what fits already must be used, best first, and only otherwise may something be built, and that with the interpreter that it is for; non-trivial: at least two wheels were built", quick: 420, thorough: 8_000, threads: 12, run: super::c21::rebuilt },
        ],
    }
}

const BACKEND: &str = r#"
import os, sys, json, zipfile, importlib
NAMES = ["p0", "p1", "p2", "d0", "d1", "d2", "wheel"]
def _spec():
    with open("spec.json") as f:
        return json.load(f)
def _mode(s):
    with open(os.environ["POSY_TEST_CTL"]) as f:
        return json.load(f).get(s["name"] + "-" + s["version"], "ok")
def _python():
    root = os.path.dirname(os.path.dirname(os.environ["POSY_PYTHON"]))
    with open(os.path.join(root, "which.txt")) as f:
        return f.read()
def _log(s, hook, **kw):
    ids = {}
    for n in NAMES:
        try:
            ids[n] = importlib.import_module(n + ".which").ID
        except ImportError:
            pass
    d = dict(hook=hook, project=s["name"], version=s["version"], python=_python(), cwd=os.getcwd(), files=sorted(os.listdir(".")),
        path=[os.path.abspath(p) for p in sys.path], ids=ids, label=LABEL, mode=_mode(s), dirty=os.path.exists("scratch"), **kw)
    with open(os.environ["POSY_TEST_LOG"], "a") as f:
        f.write(json.dumps(d) + "\n")
def _fail(s, hook):
    m = _mode(s)
    if not m.endswith(" " + hook):
        return
    kind = m.split(" ")[0]
    open("scratch", "w").close()
    if kind == "raise":
        raise ValueError("no")
    if kind == "exit0":
        sys.exit(0)
    if kind == "exit1":
        sys.exit(1)
    if kind == "kill":
        os.kill(os.getpid(), 9)
def _metadata(s, name, version, more=""):
    return s["metadata"].replace("Name: " + s["name"], "Name: " + name).replace("Version: " + s["version"], "Version: " + version).replace("\n\n", "\n" + more + "\n", 1)
def get_requires_for_build_wheel(config_settings=None):
    s = _spec()
    _log(s, "get_requires")
    _fail(s, "get_requires")
    return s["dynamic"]
def prepare_metadata_for_build_wheel(metadata_directory, config_settings=None):
    s = _spec()
    _log(s, "prepare", listing=os.listdir(metadata_directory))
    m = _mode(s)
    name, version = s["name"], s["version"]
    if m == "lie prepare-name":
        name = "other"
    if m == "lie prepare-version":
        version = "9.9"
    d = name + "-" + version + ".dist-info"
    os.mkdir(os.path.join(metadata_directory, d))
    _fail(s, "prepare")
    if m != "lie prepare-nofile":
        with open(os.path.join(metadata_directory, d, "METADATA"), "w") as f:
            f.write(_metadata(s, name, version))
    _log(s, "prepared")
    return "nothing.dist-info" if m == "lie prepare-out" else d
def build_wheel(wheel_directory, config_settings=None, metadata_directory=None):
    s = _spec()
    md = None
    if metadata_directory is not None:
        md = dict(name=os.path.basename(metadata_directory), files=os.listdir(metadata_directory))
    _log(s, "build", listing=os.listdir(wheel_directory), md=md)
    m = _mode(s)
    name, version, tag = s["name"], s["version"], s["tag"]
    tag = tag.replace("CPXY", "cp" + "".join(_python().split(" ")[0].split(".")[:2]))
    if m == "lie wheel-name":
        name = "other"
    if m == "lie wheel-version":
        version = "9.9"
    fname = "%s-%s-%s.whl" % (name, version, tag)
    path = os.path.join(wheel_directory, fname)
    if m.endswith(" build"):
        with open(path, "wb") as f:
            f.write(b"PK")
        _fail(s, "build")
    if m == "lie inside-name":
        name = "other"
    if m == "lie inside-version":
        version = "9.9"
    if m == "lie notzip":
        with open(path, "wb") as f:
            f.write(b"not a wheel")
        return fname
    if m == "lie dir":
        os.mkdir(path)
        return fname
    if m == "lie nofile":
        return fname
    more = "Requires-Dist: surprise\n" if m == "lie metadata" else ""
    di = "%s-%s.dist-info" % (name, version)
    with zipfile.ZipFile(path, "w") as z:
        z.writestr(name + "/__init__.py", "")
        z.writestr(name + "/which.py", "ID = '%s-%s built with %s'\n" % (name, version, _python()))
        z.writestr(di + "/METADATA", _metadata(s, name, version, more))
        z.writestr(di + "/WHEEL", "Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: true\n")
        z.writestr(di + "/RECORD", "")
    with open(os.path.join(wheel_directory, "unrelated.txt"), "w") as f:
        f.write("x")
    _log(s, "built", file=fname)
    if m == "lie out":
        return "%s-%s-1-%s.whl" % (name, version, tag)
    return fname
"#;

/// Hides the hooks that the project is not supposed to have; `where` they are.
const MODULE: &str = "
if not _spec()['prepare']:
    del prepare_metadata_for_build_wheel
if _spec()['dynamic'] is None:
    del get_requires_for_build_wheel
";
const OBJECT: &str = "
class _Backend: pass
_b = _Backend()
_b.build_wheel = build_wheel
if _spec()['prepare']:
    _b.prepare_metadata_for_build_wheel = prepare_metadata_for_build_wheel
if _spec()['dynamic'] is not None:
    _b.get_requires_for_build_wheel = get_requires_for_build_wheel
del build_wheel, prepare_metadata_for_build_wheel, get_requires_for_build_wheel
";

fn python_script() -> &'static str {
    "#!/bin/sh\nhere=${0%/*}/..\nPYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONPATH=\"$here/lib/python/site-packages:$here/stubs\" exec python3 -X frozen_modules=off \"$@\" 2>>\"${POSY_TEST_ERR:-/dev/null}\"\n"
}

#[derive(Clone, Debug, PartialEq)]
enum Style {
    /// backend-path, where the module is, object
    InTree { paths: &'static str, at: &'static str, object: bool },
    /// from the bk package
    Package { object: bool },
    /// no pyproject.toml; or one with no [build-system]; or one with no build-backend
    Legacy(u8),
}

#[derive(Clone, Debug)]
struct Proj {
    name: String,
    version: String,
    style: Style,
    fixed: Vec<String>,
    dynamic: Option<Vec<String>>,
    prepare: bool,
    tag: &'static str,
    core: Core,
    /// there is a wheel for an unrelated platform, which has the same metadata
    foreign: bool,
}

impl Proj {
    fn key(&self) -> String {
        format!("{}-{}", self.name, self.version)
    }
    /// What the backend has been promised before anything dynamic.
    fn requires(&self) -> Vec<String> {
        let mut v = self.fixed.clone();
        match &self.style {
            Style::Legacy(0 | 1) => v = vec!["setuptools".into(), "wheel".into()],
            Style::Legacy(_) => v.push("setuptools".into()),
            Style::Package { .. } => v.push("bk".into()),
            _ => {}
        }
        v
    }
    fn sdist(&self) -> File {
        let top = self.key();
        let list = |v: &[String]| serde_json::to_string(v).unwrap();
        let req = list(&self.requires());
        let (toml, module): (Option<String>, Option<&str>) = match &self.style {
            Style::InTree { paths, at, object } => (
                Some(format!("[build-system]\nrequires = {req}\nbuild-backend = \"tb{}\"\nbackend-path = {paths}\n[tool.x]\ny = 1\n", if *object { ":_b" } else { "" })),
                Some(at),
            ),
            Style::Package { object } => (Some(format!("[build-system]\nbuild-backend = \"bk.{}\"\nrequires = {req}\n", if *object { "obj:_b" } else { "mod" })), None),
            Style::Legacy(0) => (None, None),
            Style::Legacy(1) => (Some("[project]\nname = \"x\"\n".into()), None),
            Style::Legacy(_) => (Some(format!("[build-system]\nrequires = {req}\n")), None),
        };
        let spec = json!({"name": self.name, "version": self.version, "dynamic": self.dynamic, "prepare": self.prepare, "tag": self.tag, "metadata": self.core.text()});
        let mut ms = vec![Member::file(&format!("{top}/spec.json"), spec.to_string().as_bytes()), Member::file(&format!("{top}/PKG-INFO"), b"Metadata-Version: 1.0\n")];
        if let Some(t) = toml {
            ms.push(Member::file(&format!("{top}/pyproject.toml"), t.as_bytes()));
        }
        if let Some(at) = module {
            let object = matches!(self.style, Style::InTree { object: true, .. });
            ms.push(Member::file(&format!("{top}/{at}"), format!("LABEL = 'in-tree'\n{BACKEND}{}", if object { OBJECT } else { MODULE }).as_bytes()));
        }
        // what must not be importable
        ms.push(Member::file(&format!("{top}/d2/which.py"), b"ID = 'from the source tree'\n"));
        ms.push(Member::file(&format!("{top}/d2/__init__.py"), b""));
        File::new(format!("{top}.tar.gz"), archive::gz(&archive::tar(&ms, archive::TarFormat::Ustar, false), &[]))
    }
    /// the source tree itself is importable
    fn sees_itself(&self) -> bool {
        matches!(self.style, Style::InTree { paths, .. } if paths.contains("\".\""))
    }
}

#[derive(Clone, Debug)]
struct World {
    /// version, for this machine, for Windows
    pythons: Vec<(String, bool, bool)>,
    projects: Vec<Proj>,
}

const PY: &str = "cpython_u";

fn templates(version: &str) -> Vec<String> {
    let v: Vec<&str> = version.split('.').collect();
    let c = format!("cp{}{}", v[0], v[1]);
    vec![format!("{c}-{c}-PLATFORM"), format!("{c}-abi3-PLATFORM"), "py3-none-PLATFORM".into(), format!("{c}-none-any"), "py3-none-any".into()]
}

fn simple_wheel(name: &str, version: &str, requires: &[&str], more: &[Member]) -> File {
    let mut core = Core::new(name, version);
    core.requires_dist = requires.iter().map(|s| s.to_string()).collect();
    let mut ms = vec![Member::file(&format!("{name}/__init__.py"), b""), Member::file(&format!("{name}/which.py"), format!("ID = '{name}-{version}'\n").as_bytes())];
    ms.extend(more.to_vec());
    File::new(format!("{name}-{version}-py3-none-any.whl"), pack(&wheel_members(name, version, true, &core.text(), &ms)))
}

fn fixed_files() -> &'static Vec<(String, File)> {
    static F: std::sync::OnceLock<Vec<(String, File)>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let mut v = vec![];
        let mut add = |n: &str, f: File| v.push((n.to_string(), f));
        add("d0", simple_wheel("d0", "1.0", &[], &[]));
        add("d0", simple_wheel("d0", "2.0", &[], &[]));
        add("d1", simple_wheel("d1", "1.0", &["d2"], &[]));
        add("d2", simple_wheel("d2", "1.0", &[], &[]));
        for ver in ["1.0", "2.0"] {
            let m = |tail: &str| format!("LABEL = 'bk-{ver}'\n{BACKEND}{tail}");
            add("bk", simple_wheel("bk", ver, &[], &[Member::file("bk/mod.py", m(MODULE).as_bytes()), Member::file("bk/obj.py", m(OBJECT).as_bytes())]));
        }
        let m = format!("LABEL = 'setuptools'\n{BACKEND}{}__legacy__ = _b\n", OBJECT);
        add("setuptools", simple_wheel("setuptools", "1.0", &[], &[Member::file("setuptools/build_meta.py", m.as_bytes())]));
        add("wheel", simple_wheel("wheel", "1.0", &[], &[]));
        v
    })
}

fn pybi(version: &str, platform: &str) -> File {
    let mut m = PybiMeta::new(PY, version);
    m.tags = templates(version);
    if platform.starts_with("win") {
        m.markers.insert("sys_platform".into(), "win32".into());
    }
    let mut ms = pybi_files(&m, python_script());
    ms.extend(archive::python_stubs());
    ms.push(Member::file("which.txt", format!("{version} {platform}").as_bytes()));
    let ms = ms;
    File::new(format!("{PY}-{version}-{platform}.pybi"), pack(&pybi_members(&m.text(), &ms)))
}

fn site(w: &World) -> Site {
    let mut s = Site::new();
    for (v, here, win) in &w.pythons {
        if *here {
            s.add("simple/cpython-u/", pybi(v, "manylinux_2_17_x86_64"));
        }
        if *win {
            s.add("simple/cpython-u/", pybi(v, "win_amd64"));
        }
    }
    for (n, f) in fixed_files() {
        s.add(&format!("simple/{n}/"), f.clone());
    }
    for p in &w.projects {
        s.add(&format!("simple/{}/", p.name), p.sdist());
        if p.foreign {
            let ms = wheel_members(&p.name, &p.version, true, &p.core.text(), &[]);
            s.add(&format!("simple/{}/", p.name), File::new(format!("{}-{}-cp310-cp310-macosx_11_0_arm64.whl", p.name, p.version), pack(&ms)));
        }
    }
    s
}

fn build_req(g: &mut G, me: usize, n: usize, cycles: bool) -> String {
    let later: Vec<usize> = if cycles && g.chance(1, 3) { (0..n).collect() } else { (me + 1..n).collect() };
    let base = if !later.is_empty() && g.chance(1, 3) {
        let k = later[g.usize(later.len())];
        format!("p{k}{}", g.pick(&["", "", "<2", ">=2"]))
    } else {
        g.pick(&["d0", "d0>=2", "d0<2", "d1", "d2", "d0==1.0", "wheel"]).to_string()
    };
    match g.below(10) {
        0 => format!("{base} ; python_version < '3'"),
        1 => format!("{base} ; python_version >= '3'"),
        _ => base,
    }
}

fn world(g: &mut G) -> World {
    let mut pythons = vec![("3.10.4".to_string(), true, g.chance(1, 4))];
    for v in ["3.10.7", "3.11.2"] {
        if g.chance(1, 3) {
            pythons.push((v.to_string(), g.chance(3, 4), g.chance(1, 3)));
        }
    }
    if g.chance(1, 8) {
        pythons.push(("3.12.0rc1".into(), true, false));
    }
    let n = g.range(1, 3) as usize;
    let cycles = g.chance(1, 5);
    let mut projects = vec![];
    for i in 0..n {
        let name = format!("p{i}");
        let mut requires_dist = vec![];
        if g.chance(1, 5) {
            requires_dist.push(g.pick(&["d0", "d1", "d2 ; extra == 'e'"]).to_string());
        }
        let two = g.chance(1, 5);
        for v in if two { vec!["1.0", "2.0"] } else { vec!["1.0"] } {
            let style = match g.weighted(&[4, 3, 2]) {
                0 => {
                    let (paths, at) = *g.choose(&[("[\".\"]", "tb.py"), ("[\"be\"]", "be/tb.py"), ("[\"be\", \".\"]", "be/tb.py"), ("[\"./be/../be/x\"]", "be/x/tb.py")]);
                    Style::InTree { paths, at, object: g.chance(1, 3) }
                }
                1 => Style::Package { object: g.chance(1, 3) },
                _ => Style::Legacy(g.below(3) as u8),
            };
            let fixed = if matches!(style, Style::Legacy(0 | 1)) { vec![] } else { g.vec(0, 2, |g| build_req(g, i, n, cycles)) };
            let dynamic = match g.below(3) {
                0 => None,
                1 => Some(vec![]),
                _ => Some(g.vec(1, 2, |g| build_req(g, i, n, cycles))),
            };
            let mut core = Core::new(&name, v);
            core.requires_dist = requires_dist.clone();
            if g.chance(1, 6) {
                core.requires_python = Some(">=3.8".into());
            }
            projects.push(Proj {
                name: name.clone(),
                version: v.to_string(),
                style,
                fixed,
                dynamic,
                prepare: g.chance(3, 5),
                tag: g.pick(&["py3-none-any", "py3-none-any", "CPXY-CPXY-linux_x86_64", "py3-none-linux_x86_64", "CPXY-none-any"]),
                core,
                foreign: g.chance(1, 6),
            });
        }
    }
    World { pythons, projects }
}

const MODES: &[&str] = &[
    "raise get_requires", "exit0 get_requires", "kill get_requires", "raise prepare", "exit0 prepare", "exit1 prepare", "kill prepare", "raise build", "exit0 build", "exit1 build", "kill build",
    "lie prepare-name", "lie prepare-version", "lie prepare-nofile", "lie prepare-out", "lie wheel-name", "lie wheel-version", "lie inside-name", "lie inside-version", "lie notzip", "lie dir", "lie nofile", "lie out", "lie metadata",
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Goal {
    Meta,
    Wheel,
    Env,
    Full,
}

#[derive(Clone, Debug)]
struct Request {
    goal: Goal,
    project: usize,
    python: String,
    platform: String,
    modes: BTreeMap<String, &'static str>,
    new_process: bool,
}

/// newest versions of everything reachable that satisfy all requirements
fn solve(w: &World, reqs: &[String]) -> Option<BTreeMap<String, String>> {
    let mut all: Vec<(String, String)> = vec![];
    let mut todo: Vec<String> = reqs.to_vec();
    let mut seen = BTreeSet::new();
    while let Some(r) = todo.pop() {
        if r.contains("python_version < '3'") || r.contains("extra") {
            continue;
        }
        let r = r.split(';').next().unwrap().trim().to_string();
        let k = r.find(|c| "<>=".contains(c)).unwrap_or(r.len());
        let (name, spec) = (r[..k].to_string(), r[k..].to_string());
        all.push((name.clone(), spec));
        if seen.insert(name.clone()) {
            if name == "d1" {
                todo.push("d2".into());
            }
            if let Some(p) = w.projects.iter().find(|p| p.name == name) {
                todo.extend(p.core.requires_dist.clone());
            }
        }
    }
    let mut out = BTreeMap::new();
    for name in seen {
        let versions: Vec<String> = match name.as_str() {
            "d0" | "bk" => vec!["2.0".into(), "1.0".into()],
            _ if name.starts_with('p') => w.projects.iter().rev().filter(|p| p.name == name).map(|p| p.version.clone()).collect(),
            _ => vec!["1.0".into()],
        };
        let ok = |v: &String| {
            all.iter().filter(|a| a.0 == name).all(|a| match a.1.as_str() {
                "" => true,
                "<2" => v == "1.0",
                ">=2" => v == "2.0",
                "==1.0" => v == "1.0",
                x => panic!("{x}"),
            })
        };
        out.insert(name.clone(), versions.into_iter().find(ok)?);
    }
    Some(out)
}

impl World {
    fn find(&self, name: &str, version: &str) -> &Proj {
        self.projects.iter().find(|p| p.name == name && p.version == version).unwrap()
    }
    /// The environments a build of `p` goes through.
    fn envs(&self, p: &Proj) -> Vec<Option<BTreeMap<String, String>>> {
        let mut v = vec![solve(self, &p.requires())];
        if let Some(d) = p.dynamic.as_ref().filter(|d| !d.is_empty()) {
            let mut r = p.requires();
            r.extend(d.clone());
            v.push(solve(self, &r));
        }
        v
    }
    /// Everything that takes part works, and nothing needs itself.
    fn works(&self, p: &Proj, stack: &mut Vec<String>, modes: &BTreeMap<String, &'static str>) -> bool {
        if stack.contains(&p.name) || modes.contains_key(&p.key()) {
            return false;
        }
        stack.push(p.name.clone());
        let ok = self.envs(p).iter().all(|e| match e {
            None => false,
            Some(e) => e.iter().filter(|x| x.0.starts_with('p')).all(|(n, v)| self.works(self.find(n, v), stack, modes)),
        });
        stack.pop();
        ok
    }
    /// Can't be built, whatever is cached elsewhere; `done` are those that have been.
    fn cannot(&self, p: &Proj, goal: Goal, stack: &mut Vec<String>, modes: &BTreeMap<String, &'static str>, done: &BTreeSet<String>) -> bool {
        if done.contains(&p.key()) || (goal == Goal::Meta && p.foreign) {
            return false;
        }
        if stack.contains(&p.name) {
            return true;
        }
        let builds = goal != Goal::Meta || !p.prepare;
        let bad = match modes.get(&p.key()).copied().unwrap_or("ok") {
            "ok" => false,
            m if m.ends_with(" get_requires") => p.dynamic.is_some(),
            m if m.contains("prepare") => goal == Goal::Meta && p.prepare,
            "lie metadata" => goal == Goal::Env,
            _ => builds,
        };
        if bad {
            return true;
        }
        stack.push(p.name.clone());
        let r = self.envs(p).iter().any(|e| match e {
            None => true,
            Some(e) => e.iter().filter(|x| x.0.starts_with('p')).any(|(n, v)| self.cannot(self.find(n, v), Goal::Wheel, stack, modes, done)),
        });
        stack.pop();
        r
    }
    /// The interpreter that builds for this target.
    fn builder(&self, python: &str) -> Option<String> {
        let here: Vec<&String> = self.pythons.iter().filter(|p| p.1).map(|p| &p.0).collect();
        if here.iter().any(|p| *p == python) {
            return Some(python.into());
        }
        if python.contains("rc") {
            return None;
        }
        let minor = |v: &str| v.split('.').take(2).map(|x| x.to_string()).collect::<Vec<_>>();
        let finals: Vec<&String> = here.into_iter().filter(|v| !v.contains("rc")).collect();
        finals.iter().rev().find(|v| minor(v) == minor(python)).or(finals.last()).map(|v| v.to_string())
    }
}

fn native() -> &'static Vec<String> {
    static N: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    N.get_or_init(|| PybiPlatform::native_platforms().unwrap().iter().map(|p| p.core_tag().to_string()).collect())
}

/// the platform that wheels built for this one are labelled with
fn build_platform(platform: &str) -> String {
    if native().iter().any(|n| expansion(n).contains(&platform.to_string())) {
        return platform.to_string();
    }
    native().iter().find(|n| expansion(n).contains(&"manylinux_2_17_x86_64".to_string())).unwrap().clone()
}

fn tags(python: &str, platform: &str) -> Vec<String> {
    let e = expansion(platform);
    templates(python).iter().flat_map(|t| match t.strip_suffix("PLATFORM") {
        Some(p) => e.iter().map(|x| format!("{p}{x}")).collect(),
        None => vec![t.clone()],
    }).collect()
}

/// the tag of the wheel this makes
fn result_tag(w: &World, p: &Proj, python: &str, platform: &str) -> Option<String> {
    let b = w.builder(python)?;
    let v: Vec<&str> = b.split('.').collect();
    Some(p.tag.replace("CPXY", &format!("cp{}{}", v[0], v[1])).replace("linux_x86_64", &build_platform(platform)))
}

fn wheels_in(dir: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.extension().map_or(false, |x| x == "whl") {
            out.push(p);
        } else if p.is_dir() {
            wheels_in(&p, out);
        }
    }
    out.sort();
}

/// Everything in the wheel cache must be a wheel that an honest backend made.
fn check_cache(w: &World, home: &Home) -> Result<Vec<String>, Fail> {
    let mut files = vec![];
    wheels_in(&home.cache().join("local-wheels"), &mut files);
    let mut names = vec![];
    for f in files {
        let name = f.file_name().unwrap().to_str().unwrap().to_string();
        let bad = |why: String| ff(format!("{name} in the wheel cache: {why}"));
        let mut z = zip::ZipArchive::new(std::fs::File::open(&f).map_err(|e| bad(e.to_string()))?).map_err(|e| bad(e.to_string()))?;
        let parts: Vec<&str> = name.split('-').collect();
        let (n, v) = (parts[0], parts[1]);
        if !w.projects.iter().any(|p| p.name == n && p.version == v) {
            return Err(bad("there is no such release".into()));
        }
        let mut text = String::new();
        std::io::Read::read_to_string(&mut z.by_name(&format!("{n}/which.py")).map_err(|e| bad(e.to_string()))?, &mut text).unwrap();
        if !text.starts_with(&format!("ID = '{n}-{v} ")) || !z.file_names().any(|x| x == format!("{n}-{v}.dist-info/METADATA")) {
            return Err(bad(format!("it has {text:?} and {:?}", z.file_names().collect::<Vec<_>>())));
        }
        names.push(name);
    }
    Ok(names)
}

fn run(g: &mut G, n: usize) -> R {
    let w = world(g);
    let mut requests: Vec<Request> = vec![];
    let mut targets: Vec<(String, String)> = vec![];
    for (v, here, win) in &w.pythons {
        if *here {
            targets.push((v.clone(), "manylinux_2_17_x86_64".into()));
            targets.push((v.clone(), "manylinux_2_20_x86_64".into()));
        }
        if *win {
            targets.push((v.clone(), "win_amd64".into()));
        }
    }
    for i in 0..if n == 1 { 1 } else { g.range(2, n as u64) } {
        let (python, platform) = if i > 0 && g.chance(3, 5) {
            let r = g.choose(&requests);
            (r.python.clone(), r.platform.clone())
        } else {
            g.choose(&targets).clone()
        };
        let project = if i > 0 && g.chance(2, 3) { requests[i as usize - 1].project } else { g.usize(w.projects.len()) };
        let mut modes = BTreeMap::new();
        for (k, p) in w.projects.iter().enumerate() {
            if g.chance(if k == project { 1 } else { 0 }, 2) || g.chance(1, 12) {
                modes.insert(p.key(), g.pick(MODES));
            }
        }
        requests.push(Request { goal: *g.choose(&[Goal::Meta, Goal::Wheel, Goal::Env, Goal::Full]), project, python, platform, modes, new_process: g.chance(1, 3) });
    }
    g.note(format!(
        "pythons (here, Windows) {:?}\nprojects {:?}\nrequests {:?}",
        w.pythons,
        w.projects.iter().map(|p| format!("{} {:?} requires {:?} dynamic {:?} prepare {} tag {} metadata {:?} foreign {}", p.key(), p.style, p.requires(), p.dynamic, p.prepare, p.tag, p.core.requires_dist, p.foreign)).collect::<Vec<_>>(),
        requests.iter().map(|r| format!("{:?} of {} for {} {}, {:?}{}", r.goal, w.projects[r.project].key(), r.python, r.platform, r.modes, if r.new_process { ", new process" } else { "" })).collect::<Vec<_>>()
    ));
    let (hooks, interesting) = in_time("building", move || histories(w, requests))??;
    g.nontrivial = if n == 1 { hooks > 0 } else { interesting };
    g.label(if hooks > 0 { "hooks ran" } else { "no hooks ran" });
    Ok(())
}

fn histories(w: World, requests: Vec<Request>) -> Result<(usize, bool), Fail> {
    let index = Index::new(site(&w));
    let urls = [index.server.url("simple/")];
    let home = Home::new();
    let dir = archive::scratch();
    let (ctl, logf) = (dir.path().join("ctl"), dir.path().join("log"));
    std::env::set_var("POSY_TEST_CTL", &ctl);
    std::env::set_var("POSY_TEST_LOG", &logf);
    let python_name = pkg(PY);
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut built_for: BTreeSet<(String, String, String)> = BTreeSet::new();
    let mut lied_metadata = BTreeSet::new();
    let mut hooks = 0;
    let mut interesting = false;
    let mut failures = 0;
    let mut seen = 0;
    let mut stores = vec![KVDirStore::new(&dir.path().join("b0")).unwrap()];
    for i in 0..requests.len() {
        stores.push(KVDirStore::new(&dir.path().join(format!("b{}", i + 1))).unwrap());
    }
    let mut store = 0;
    let mut db = PackageDB::new(&urls, &home.cache(), &home.forest, &stores[0]).unwrap();
    for (i, r) in requests.iter().enumerate() {
        let p = &w.projects[r.project];
        if i > 0 && r.new_process {
            store += 1;
            db = PackageDB::new(&urls, &home.cache(), &home.forest, &stores[store]).unwrap();
        }
        std::fs::write(&ctl, serde_json::to_string(&r.modes).unwrap()).unwrap();
        let before = check_cache(&w, &home)?;
        let platform = PybiPlatform::new(&r.platform);
        let refs = [&platform];
        let version = ver(&r.python);
        let who = format!("request {i} ({:?} of {} for {} {})", r.goal, p.key(), r.python, r.platform);
        let target_tags = tags(&r.python, &r.platform);
        let blueprint = || Blueprint {
            pybi: PinnedPackage { name: pkg(PY), version: ver(&r.python), hashes: [if r.platform == "win_amd64" { "win_amd64" } else { "manylinux_2_17_x86_64" }].iter().map(|t| pybi(&r.python, t).artifact_hash()).collect() },
            wheels: vec![(
                PinnedPackage { name: pkg(&p.name), version: ver(&p.version), hashes: vec![p.sdist().artifact_hash()] },
                WheelResolveMetadata {
                    provenance: "http://x/".into(),
                    inner: WheelResolveMetadataInner {
                        requires_dist: p.core.requires_dist.iter().map(|r| r.as_str().try_into().unwrap()).collect(),
                        requires_python: match &p.core.requires_python {
                            Some(r) => r.as_str().try_into().unwrap(),
                            None => Specifiers(vec![]),
                        },
                        extras: Default::default(),
                    },
                },
            )],
            marker_expressions: HashMap::new(),
        };
        let installed = |env: &Env| -> R {
            let k = env.lib_dirs.iter().position(|d| d.join(&p.name).is_dir());
            let Some(k) = k else { return fail(format!("{who}: {} isn't installed in {:?}", p.name, env.lib_dirs)) };
            let t = std::fs::read_to_string(env.lib_dirs[k].join(&p.name).join("which.py")).unwrap_or_default();
            ensure!(t.starts_with(&format!("ID = '{} ", p.key())), "{who}: installed {t:?}");
            Ok(())
        };
        let result: Result<(), String> = match r.goal {
            Goal::Meta | Goal::Wheel => {
                let builder = WheelBuilder::new(&db, &python_name, &version, &refs, &[]).map_err(|e| ff(format!("{e:?}")))?;
                let all = db.artifacts_for_version(&pkg(&p.name), &ver(&p.version)).map_err(|e| ff(format!("{e:?}")))?;
                if r.goal == Goal::Meta {
                    let ais: Vec<&ArtifactInfo> = all.iter().collect();
                    match db.get_metadata::<Wheel, _>(&ais, Some(&builder)) {
                        Ok((_, m)) => {
                            if let Err(f) = check_meta(&p.core, &m) {
                                if !lied_metadata.contains(&p.key()) && r.modes.get(&p.key()) != Some(&"lie metadata") {
                                   return fail(format!("{who}: {}", f.msg));
                                }
                            }
                            Ok(())
                        }
                        Err(e) => Err(format!("{e:?}")),
                    }
                } else {
                    let Some(ai) = all.iter().find(|a| a.is::<Sdist>()) else { return fail("no sdist on the page") };
                    let mut m = PybiMeta::new(PY, &r.python);
                    m.tags = templates(&r.python);
                    let wp = platform.wheel_platform(&m.text().as_bytes().try_into().unwrap()).unwrap();
                    match db.get_locally_built_binary::<Wheel>(ai, &builder, &wp).unwrap() {
                        Ok(wheel) => {
                            let n = wheel.name();
                            ensure!(n.distribution == pkg(&p.name) && n.version == ver(&p.version), "{who} gave {n}");
                            ensure!(n.all_tags().iter().any(|t| target_tags.contains(t)), "{who} gave {n}, which isn't compatible");
                            match wheel.metadata() {
                                Ok((_, m)) => {
                                    if let Err(f) = check_meta(&p.core, &m) {
                                        if !lied_metadata.contains(&p.key()) && r.modes.get(&p.key()) != Some(&"lie metadata") {
                                            return fail(format!("{who}: {}", f.msg));
                                        }
                                    }
                                }
                                Err(e) => return fail(format!("{who} gave {n}, which has no metadata: {e:?}")),
                            }
                            Ok(())
                        }
                        Err(e) => Err(format!("{e:?}")),
                    }
                }
            }
            Goal::Env => match home.forest.get_env(&db, &blueprint(), &refs, &[]) {
                Ok(env) => {
                    installed(&env)?;
                    Ok(())
                }
                Err(e) => Err(format!("{e:?}")),
            },
            Goal::Full => {
                let brief = Brief {
                    python: format!("{PY}=={}", r.python).as_str().try_into().unwrap(),
                    requirements: vec![format!("{}=={}", p.name, p.version).as_str().try_into().unwrap()],
                    allow_pre: if r.python.contains("rc") { AllowPre::Some([pkg(PY)].into()) } else { Default::default() },
                };
                match brief.resolve(&db, &refs, None, &[]) {
                    Ok(b) => match home.forest.get_env(&db, &b, &refs, &[]) {
                        Ok(env) => {
                            installed(&env)?;
                            Ok(())
                        }
                        Err(e) => Err(format!("installing: {e:?}")),
                    },
                    Err(e) => Err(format!("resolving: {e:?}")),
                }
            }
        };
        // what happened
        let log: Vec<Value> = std::fs::read_to_string(&logf).unwrap_or_default().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
        let new = log[seen..].to_vec();
        seen = log.len();
        hooks += new.len();
        for e in &new {
            check_hook(&w, r, e, !lied_metadata.is_empty()).map_err(|f| ff(format!("{who}: {}", f.msg)))?;
        }
        let after = check_cache(&w, &home)?;
        for b in &before {
            ensure!(after.contains(b), "{who} removed {b} from the wheel cache");
        }
        // reuse
        let tag_of = |n: &String| n.trim_end_matches(".whl").splitn(3, '-').nth(2).unwrap().to_string();
        for e in new.iter().filter(|e| e["hook"] == "build") {
            let (n, v) = (e["project"].as_str().unwrap(), e["version"].as_str().unwrap());
            let mine = before.iter().filter(|b| b.starts_with(&format!("{n}-{v}-")));
            for b in mine {
                let t = tag_of(b);
                if t == "py3-none-any" {
                    return fail(format!("{who}: {n} {v} was built again, though {b} is in the cache"));
                }
                if n == p.name && v == p.version && r.goal != Goal::Meta && target_tags.contains(&t) {
                    return fail(format!("{who}: built again, though {b} is in the cache"));
                }
                if n == p.name && v == p.version && r.goal == Goal::Meta && built_for.contains(&(p.key(), r.python.clone(), r.platform.clone())) {
                    return fail(format!("{who}: built again for its metadata, though {b} is in the cache"));
                }
            }
        }
        let mut times: BTreeMap<String, usize> = BTreeMap::new();
        for e in new.iter().filter(|e| e["hook"] == "built") {
            *times.entry(format!("{}-{}", e["project"].as_str().unwrap(), e["version"].as_str().unwrap())).or_default() += 1;
        }
        // success?
        let goal = if r.goal == Goal::Full { Goal::Env } else { r.goal };
        let compatible = goal == Goal::Meta || result_tag(&w, p, &r.python, &r.platform).map_or(false, |t| target_tags.contains(&t));
        let runtime = r.goal != Goal::Full
            || solve(&w, &[format!("{}=={}", p.name, p.version).replace("==2.0", ">=2")]).map_or(false, |e| e.iter().filter(|x| x.0.starts_with('p') && *x.0 != p.name).count() == 0);
        let works = w.works(p, &mut vec![], &r.modes);
        let rc = r.python.contains("rc");
        if result.is_ok() && new.is_empty() && !done.is_empty() || failures > 0 && !new.is_empty() {
            interesting = true;
        }
        match &result {
            Ok(()) => {
                let bad = w.cannot(p, goal, &mut vec![], &r.modes, &done);
                ensure!(!bad, "{who} succeeded, which should not be possible");
                ensure!(compatible || before.iter().chain(&after).any(|b| b.starts_with(&format!("{}-", p.key())) && target_tags.contains(&tag_of(b))), "{who} succeeded, though what is built there isn't compatible with the target");
                for (k, c) in &times {
                    // (it may be built for this machine to get its metadata, and then for the target)
                    let made = after.iter().filter(|a| a.starts_with(&format!("{k}-")) && !before.contains(a)).count();
                    ensure!(*c <= made, "{who}: {k} was built {c} times, for {made} wheels");
                }
                if goal != Goal::Meta {
                    built_for.insert((p.key(), r.python.clone(), r.platform.clone()));
                }
            }
            Err(e) => {
                failures += 1;
                ensure!(!works || !compatible || !runtime || !lied_metadata.is_empty(), "{who} failed{}: {e}", if rc { " (pre-release)" } else { "" });
            }
        }
        for e in &new {
            let k = format!("{}-{}", e["project"].as_str().unwrap(), e["version"].as_str().unwrap());
            if e["mode"] == "lie metadata" && e["hook"] == "built" {
                lied_metadata.insert(k.clone());
            }
            if ["built", "prepared"].contains(&e["hook"].as_str().unwrap()) && ["ok", "lie metadata"].contains(&e["mode"].as_str().unwrap()) {
                done.insert(k);
            } else if e["hook"] == "prepared" && !e["mode"].as_str().unwrap().contains("prepare") {
                done.insert(k);
            } else if e["hook"] == "built" && (e["mode"].as_str().unwrap().contains("prepare") || e["mode"].as_str().unwrap().ends_with("get_requires")) {
                done.insert(k);
            }
        }
    }
    Ok((hooks, interesting))
}

/// What a backend saw when it was called.
fn check_hook(w: &World, r: &Request, e: &Value, misled: bool) -> R {
    let hook = e["hook"].as_str().unwrap();
    let p = w.find(e["project"].as_str().unwrap(), e["version"].as_str().unwrap());
    let at = format!("{hook} of {}", p.key());
    let strs = |v: &Value| v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>()).unwrap_or_default();
    let files = strs(&e["files"]);
    ensure!(files.contains(&"spec.json".to_string()) && files.contains(&"PKG-INFO".to_string()), "{at} ran in {}, which has {files:?}", e["cwd"]);
    ensure!(e["dirty"] == false, "{at} ran in a tree in which a build has failed before");
    // interpreter
    if p.name == w.projects[r.project].name {
        if let Some(b) = w.builder(&r.python) {
            ensure!(e["python"] == format!("{b} manylinux_2_17_x86_64"), "{at} ran on {}, expected {b}", e["python"]);
        }
    }
    // the backend
    let want = match &p.style {
        Style::InTree { .. } => "in-tree".to_string(),
        Style::Package { .. } => "bk-2.0".to_string(),
        Style::Legacy(_) => "setuptools".to_string(),
    };
    ensure!(e["label"] == want.as_str(), "{at}: the backend is {}, expected {want}", e["label"]);
    // what can be imported
    let envs = w.envs(p);
    let env = match if hook == "get_requires" { envs.first() } else { envs.last() }.unwrap() {
        Some(e) => e,
        None => return fail(format!("{at} ran, though its requirements can't be satisfied")),
    };
    let ids: BTreeMap<String, String> = e["ids"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().split(' ').next().unwrap().to_string())).collect();
    let mut want: BTreeMap<String, String> = env.iter().filter(|x| x.0.starts_with('p') || x.0.starts_with('d') || *x.0 == "wheel").map(|(n, v)| (n.clone(), format!("{n}-{v}"))).collect();
    if p.sees_itself() {
        want.insert("d2".into(), "from".into());
    }
    // (a wheel that had requirements that its project doesn't otherwise have can affect what is chosen)
    ensure!(ids == want || misled, "{at} can import {ids:?}, expected {want:?}");
    let path = strs(&e["path"]);
    let cwd = e["cwd"].as_str().unwrap().to_string();
    ensure!(path.contains(&cwd) == p.sees_itself(), "{at}: sys.path is {path:?} in {cwd}");
    if hook == "build" || hook == "prepare" {
        ensure!(strs(&e["listing"]).is_empty(), "{at}: the directory to write to isn't empty: {}", e["listing"]);
    }
    if hook == "build" && !e["md"].is_null() {
        let d = format!("{}.dist-info", p.key());
        ensure!(e["md"]["name"] == d.as_str() && strs(&e["md"]["files"]) == ["METADATA"], "{at}: metadata_directory isn't what prepare_metadata_for_build_wheel made: {}", e["md"]);
    }
    Ok(())
}

#[allow(unused)]
fn unused(_: Kind) {}
