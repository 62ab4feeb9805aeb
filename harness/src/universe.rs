//! Small package universes, and what a resolution of them must look like.
use crate::gen;
use crate::index::*;
use crate::pep440::{self, Spec, Ver};
use crate::pep508::{self, Env, Kind, M, V};
use crate::prop::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const NAMES: [&str; 5] = ["aa", "b-b", "cc", "d-d-d", "e1"];
pub const PYTHON: &str = "cpython-u";
const EXTRAS: [&str; 3] = ["x", "y-y", "z"];
const PY: [&str; 4] = ["3.8.1", "3.10.4", "3.11.0", "3.12.0rc1"];

/// A requirement. `to` is an index into NAMES.
#[derive(Clone, Debug)]
pub struct Dep {
    pub to: usize,
    pub extras: Vec<String>,
    pub specs: Vec<Spec>,
    pub marker: Option<M>,
    pub text: String,
}

/// What a release's metadata says.
#[derive(Clone, Debug)]
pub struct Meta {
    pub deps: Vec<Dep>,
    pub extras: Vec<String>,
    pub requires_python: Option<Vec<Spec>>,
    pub core: Core,
}

#[derive(Clone, Debug)]
pub struct Artifact {
    pub file: File,
    /// parsed form of the index's data-requires-python
    pub requires_python: Option<Vec<Spec>>,
    /// None: an sdist
    pub meta: Option<Meta>,
}

#[derive(Clone, Debug)]
pub struct Rel {
    pub ver: Ver,
    pub files: Vec<Artifact>,
}

impl Rel {
    pub fn meta(&self) -> &Meta {
        self.files.iter().find_map(|f| f.meta.as_ref()).unwrap()
    }
    pub fn hashes(&self) -> BTreeSet<String> {
        self.files.iter().filter(|f| f.file.hashed).map(|f| f.file.hash()).collect()
    }
}

#[derive(Clone, Debug)]
pub struct PyRel {
    pub ver: Ver,
    /// with the tag of what it is for
    pub files: Vec<(File, &'static str, PybiMeta)>,
}

#[derive(Clone, Debug)]
pub struct Hint {
    pub ver: Ver,
    pub hashes: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Universe {
    /// by index into NAMES
    pub projects: Vec<Vec<Rel>>,
    pub pythons: Vec<PyRel>,
    pub platforms: Vec<&'static str>,
    pub python_specs: Vec<Spec>,
    pub roots: Vec<Dep>,
    /// None: all
    pub allow_pre: Option<Vec<String>>,
    pub hints: BTreeMap<String, Hint>,
}

#[derive(Clone, Copy)]
pub struct Options {
    /// files of a release may disagree
    pub divergent: bool,
    pub hints: bool,
    /// longer chains and more constraints
    pub dense: bool,
}

fn clauses(g: &mut G, pool: &[Ver], want_sat: Option<&Ver>) -> Vec<Spec> {
    let n = g.weighted(&[4, 8, 3, 1]);
    let mut out = vec![];
    for _ in 0..n {
        for _ in 0..6 {
            let mut v = g.choose(pool).clone();
            if g.chance(1, 6) {
                v = pep440::near(g, &v, true);
            }
            let s = Spec { op: pep440::OPS[g.usize(7)], ver: v, wildcard: g.chance(1, 6) };
            let mut s = s;
            if !s.legal() {
                s.ver.local.clear();
            }
            if !s.legal() {
                s.wildcard = false;
            }
            if !s.legal() {
                continue;
            }
            if let Some(w) = want_sat {
                if !s.matches(w) && g.chance(9, 10) {
                    continue;
                }
            }
            out.push(s);
            break;
        }
    }
    out
}

fn specs_text(s: &[Spec]) -> Vec<(String, String)> {
    s.iter().map(|s| (s.op.to_string(), format!("{}{}", s.ver.canonical(), if s.wildcard { ".*" } else { "" }))).collect()
}

fn lit(s: &str) -> V {
    V::Lit(s.into())
}
fn var(s: &str) -> V {
    V::Var(s.into())
}
fn op(o: &str, l: V, r: V) -> M {
    M::Op { op: o.into(), lhs: l, rhs: r }
}

fn marker(g: &mut G, extra: bool, depth: usize) -> M {
    if depth > 0 && g.chance(1, 3) {
        let n = g.range(2, 3);
        let xs = (0..n).map(|_| marker(g, extra, depth - 1)).collect();
        return if g.bool() { M::And(xs) } else { M::Or(xs) }.flat();
    }
    if extra && g.chance(1, 2) {
        let i = g.usize(3);
        let e = gen::respell(g, EXTRAS[i]);
        let o = if g.chance(1, 6) { "!=" } else { "==" };
        return if g.chance(1, 4) { op(o, lit(&e), var("extra")) } else { op(o, var("extra"), lit(&e)) };
    }
    match g.below(6) {
        0 => op(g.pick(&[">=", "<", "<=", ">", "=="]), var("python_version"), lit(g.pick(&["3.8", "3.10", "3.11"]))),
        1 => op(g.pick(&["==", "!="]), var("sys_platform"), lit(g.pick(&["linux", "darwin"]))),
        2 => op(g.pick(&["==", "!="]), var("platform_release"), lit(g.pick(&["f0", "f1", "f2"]))),
        3 => op(g.pick(&["==", "!="]), var("platform_machine"), lit(g.pick(&["x86_64", "arm64"]))),
        4 => op(g.pick(&["==", "!="]), var("os_name"), lit(g.pick(&["posix", "nt"]))),
        _ => op(g.pick(&[">=", "<"]), var("python_full_version"), lit(g.pick(&["3.8.1", "3.10.4", "3.12"]))),
    }
}

fn lits() -> HashMap<String, Kind> {
    ["3.8", "3.10", "3.11", "3.12", "3.8.1", "3.10.4"]
        .iter()
        .map(|s| (s.to_string(), Kind::Version(Ver::rel(&s.split('.').map(|x| x.parse().unwrap()).collect::<Vec<_>>()))))
        .collect()
}

fn py_ver(s: &str) -> Ver {
    match s {
        "3.12.0rc1" => Ver { pre: Some(('r', 1)), ..Ver::rel(&[3, 12, 0]) },
        s => Ver::rel(&s.split('.').map(|x| x.parse().unwrap()).collect::<Vec<_>>()),
    }
}

fn py_specs(g: &mut G) -> Vec<Spec> {
    let v = |g: &mut G| g.choose(&[Ver::rel(&[3, 8]), Ver::rel(&[3, 10]), Ver::rel(&[3, 11]), Ver::rel(&[3, 12]), Ver::rel(&[2, 7])]).clone();
    (0..g.range(1, 2))
        .map(|_| {
            let ver = v(g);
            match g.below(6) {
                0 => Spec { op: "<", ver, wildcard: false },
                1 => Spec { op: "!=", ver, wildcard: true },
                _ => Spec { op: ">=", ver: if g.chance(2, 3) { Ver::rel(&[3, 8]) } else { ver }, wildcard: false },
            }
        })
        .collect()
}

fn plain(specs: &[Spec]) -> String {
    specs.iter().map(|s| s.canonical()).collect::<Vec<_>>().join(", ")
}

fn dep(g: &mut G, pools: &[Vec<Ver>], to: usize, extra_markers: bool, o: &Options) -> Dep {
    let pool = if pools[to].is_empty() { vec![Ver::rel(&[1])] } else { pools[to].clone() };
    // most requirements agree on one version, so that many universes have solutions
    let sat = if g.chance(5, 6) { pool[0].clone() } else { g.choose(&pool).clone() };
    let mut specs = clauses(g, &pool, Some(&sat));
    if !o.dense && g.chance(1, 3) {
        specs.clear();
    }
    let mut extras = vec![];
    if g.chance(1, 5) {
        for _ in 0..g.range(1, 2) {
            let k = if g.chance(1, 4) { 3 } else { 2 };
            let i = g.usize(k);
            extras.push(gen::respell(g, EXTRAS[i]));
        }
    }
    let marker = if extra_markers && g.chance(1, 2) {
        let i = g.usize(2);
        Some(if g.chance(2, 3) { op("==", var("extra"), lit(&gen::respell(g, EXTRAS[i]))) } else { marker(g, true, 2) })
    } else if g.chance(1, 4) {
        Some(marker(g, extra_markers, 2))
    } else {
        None
    };
    let r = pep508::Req { name: gen::respell(g, NAMES[to]), extras: extras.clone(), specs: specs_text(&specs), marker: marker.clone() };
    let text = pep508::render(g, &r).trim().to_string();
    Dep { to, extras: extras.iter().map(|e| gen::normalize(e)).collect(), specs, marker, text }
}

fn meta(g: &mut G, pools: &[Vec<Ver>], me: usize, v: &Ver, o: &Options) -> Meta {
    let n = pools.len();
    let mut deps = vec![];
    let mut extras = vec![];
    for (i, e) in EXTRAS.iter().enumerate() {
        if g.chance([11, 9, 4][i], 12) {
            extras.push(e.to_string());
        }
    }
    let k = if o.dense { g.len(0, 4) } else { g.weighted(&[3, 3, 2, 1]) };
    for _ in 0..k {
        // mostly towards later projects, but cycles happen too
        let to = if me + 1 < n && g.chance(5, 6) { g.range(me as u64 + 1, n as u64 - 1) as usize } else { g.usize(n) };
        if to == me && !g.chance(1, 4) {
            continue;
        }
        deps.push(dep(g, pools, to, !extras.is_empty(), o));
    }
    let requires_python = g.chance(1, 6).then(|| py_specs(g));
    let mut core = Core::new(&gen::respell(g, NAMES[me]), &v.canonical());
    core.requires_dist = deps.iter().map(|d| d.text.clone()).collect();
    core.extras = extras.iter().map(|e| gen::respell(g, e)).collect();
    core.requires_python = requires_python.as_ref().map(|s| plain(s));
    Meta { deps, extras, requires_python, core }
}

/// Another spelling of the same version, sometimes.
fn respelled(g: &mut G, v: &Ver) -> String {
    if !g.chance(1, 5) {
        return v.canonical();
    }
    let mut w = v.clone();
    match g.below(3) {
        0 => w.release.push(0),
        1 if w.release.len() > 1 && w.release.last() == Some(&0) => {
            w.release.pop();
        }
        _ => return format!("0{}", v.canonical()),
    }
    w.canonical()
}

fn pool(g: &mut G) -> Vec<Ver> {
    let n = g.weighted(&[1, 6, 12, 12, 10]);
    let mut out: Vec<Ver> = vec![];
    for _ in 0..n {
        let mut v = Ver::rel(g.choose(&[&[1, 0][..], &[1, 1], &[1, 5], &[2, 0], &[2, 1], &[3, 0], &[0, 9], &[1, 0, 1], &[10, 0]]));
        match g.weighted(&[12, 2, 1, 1, 1]) {
            1 => v.pre = Some((*g.choose(&['a', 'r']), g.range(1, 2))),
            2 => v.post = Some(g.range(1, 2)),
            3 => v.dev = Some(1),
            4 => v.local = vec![pep440::Seg::Num(1)],
            _ => {}
        }
        if !out.iter().any(|x| x.eq(&v)) {
            out.push(v);
        }
    }
    out
}

/// How well an interpreter's file fits a platform: less is better.
pub fn fits(tag: &str, platform: &str) -> Option<usize> {
    let l: &[&str] = match platform {
        "manylinux_2_17_x86_64" => &["manylinux_2_17_x86_64", "manylinux_2_12_x86_64", "manylinux_2_5_x86_64"],
        "macosx_11_0_x86_64" => &["macosx_11_0_x86_64", "macosx_10_15_x86_64", "macosx_10_9_x86_64"],
        "macosx_11_0_arm64" => &["macosx_11_0_arm64"],
        _ => &[],
    };
    l.iter().position(|t| *t == tag)
}

impl Universe {
    pub fn new(g: &mut G, o: Options) -> Universe {
        let n = g.range(1, 5) as usize;
        let pools: Vec<Vec<Ver>> = (0..n).map(|_| pool(g)).collect();
        let mut count = 0;
        let projects: Vec<Vec<Rel>> = (0..n)
            .map(|p| {
                pools[p]
                    .iter()
                    .map(|v| {
                        let shared = meta(g, &pools, p, v, &o);
                        let mut files = vec![];
                        let kinds = ["py3-none-any", "py2.py3-none-any", "cp310-cp310-win_amd64", "1-cp310-cp310-manylinux_2_17_x86_64"];
                        let first = g.usize(4);
                        for i in 0..g.weighted(&[0, 5, 2, 1]) {
                            let m = if o.divergent && i > 0 && g.bool() { meta(g, &pools, p, v, &o) } else { shared.clone() };
                            count += 1;
                            let nm = escaped(&gen::normalize(NAMES[p]));
                            // files of one release may spell its version differently
                            let sv = respelled(g, v);
                            let mut m = m;
                            m.core.version = sv.clone();
                            let ms = wheel_members(&nm, &sv, true, &m.core.text(), &[crate::archive::Member::file(&format!("{nm}/n{count}.py"), b"")]);
                            let mut file = File::new(format!("{nm}-{sv}-{}.whl", kinds[(first + i) % 4]), pack(&ms));
                            let mut rp = m.requires_python.clone();
                            if g.chance(1, 6) {
                                rp = if g.bool() { None } else { Some(py_specs(g)) };
                            }
                            file.requires_python = rp.as_ref().map(|s| plain(s));
                            files.push(Artifact { file, requires_python: rp, meta: Some(m) });
                        }
                        if g.chance(1, 5) {
                            count += 1;
                            let mut file = File::new(format!("{}-{}.tar.gz", escaped(NAMES[p]), respelled(g, v)), format!("sdist {count}").into_bytes());
                            let rp = shared.requires_python.clone();
                            file.requires_python = rp.as_ref().map(|s| plain(s));
                            files.push(Artifact { file, requires_python: rp, meta: None });
                        }
                        let all = g.chance(1, 12);
                        for f in &mut files {
                            f.file.at = f.file.at.replace('+', "%2B");
                            f.file.hashed = !g.chance(1, 10);
                            if all || g.chance(1, 12) {
                                f.file.yanked = Some(g.pick(&["", "bad"]).to_string());
                            }
                        }
                        Rel { ver: v.clone(), files }
                    })
                    .collect()
            })
            .collect();

        let platforms: Vec<&'static str> = match g.weighted(&[4, 1, 1, 2]) {
            0 => vec!["manylinux_2_17_x86_64"],
            1 => vec!["macosx_11_0_arm64"],
            2 => vec!["macosx_11_0_x86_64"],
            _ => vec!["macosx_11_0_arm64", "macosx_11_0_x86_64"],
        };
        let mut pythons: Vec<PyRel> = vec![];
        let first = g.usize(4);
        for i in 0..g.weighted(&[0, 3, 4, 3]) {
            let s = PY[(first + i) % 4];
            let mut files = vec![];
            for tag in ["manylinux_2_17_x86_64", "macosx_11_0_arm64", "macosx_11_0_x86_64", "win_amd64", "manylinux_2_12_x86_64", "manylinux_2_5_x86_64", "macosx_10_15_x86_64", "macosx_10_9_x86_64"] {
                let main = tag == platforms[0];
                let chance = if fits(tag, platforms[0]).is_some() { (1, 4) } else { (1, 6) };
                if !main && !g.chance(chance.0, chance.1) || main && g.chance(1, 15) {
                    continue;
                }
                let mut m = PybiMeta::new(PYTHON, s);
                let mac = tag.starts_with("macosx");
                m.markers.insert("python_version".into(), s.split('.').take(2).collect::<Vec<_>>().join("."));
                m.markers.insert("sys_platform".into(), if mac { "darwin" } else { "linux" }.into());
                m.markers.insert("platform_release".into(), format!("f{}", g.below(3)));
                m.markers.insert("os_name".into(), if tag == "win_amd64" { "nt" } else { "posix" }.into());
                if mac {
                    m.markers.remove("platform_machine");
                }
                let mut f = File::new(format!("{}-{s}-{tag}.pybi", escaped(PYTHON)), pack(&pybi_members(&m.text(), &[crate::archive::Member::file("tag", tag.as_bytes())])));
                f.hashed = !g.chance(1, 10);
                files.push((f, tag, m));
            }
            if g.chance(1, 8) {
                for f in &mut files {
                    f.0.yanked = Some("bad".into());
                }
            }
            if !files.is_empty() {
                pythons.push(PyRel { ver: py_ver(s), files });
            }
        }
        let python_specs = if g.chance(1, 3) {
            vec![]
        } else {
            let v = if pythons.is_empty() || g.chance(1, 8) { py_ver(PY[(first + g.usize(2)) % 4]) } else { g.choose(&pythons).ver.clone() };
            vec![Spec { op: g.pick(&[">=", "<=", "=="]), ver: v, wildcard: false }]
                .into_iter()
                .map(|mut s| {
                    s.op = pep440::OPS.iter().find(|o| **o == s.op).unwrap();
                    s
                })
                .collect()
        };
        let roots: Vec<Dep> = (0..g.weighted(&[0, 4, 3, 2]))
            .map(|i| {
                let to = if i == 0 && g.bool() { 0 } else { g.usize(n) };
                let mut d = dep(g, &pools, to, false, &o);
                // an 'extra' in a user's requirement is an error
                if d.marker.as_ref().map_or(false, |m| m.uses_extra()) {
                    d.marker = None;
                    d.text = d.text.split(';').next().unwrap().to_string();
                }
                d
            })
            .collect();
        let allow_pre = match g.weighted(&[6, 2, 2]) {
            0 => Some(vec![]),
            1 => None,
            _ => Some((0..g.range(1, 2)).map(|_| if g.chance(1, 3) { PYTHON.to_string() } else { NAMES[g.usize(n)].to_string() }).collect()),
        };
        let mut u = Universe { projects, pythons, platforms, python_specs, roots, allow_pre, hints: BTreeMap::new() };
        if o.hints && g.chance(3, 4) {
            for p in 0..n {
                if !g.chance(2, 3) || u.projects[p].is_empty() {
                    continue;
                }
                let rel = g.choose(&u.projects[p]).clone();
                let mut hashes: Vec<String> = rel.hashes().into_iter().collect();
                match g.weighted(&[10, 3, 2, 1]) {
                    0 => (),
                    1 => hashes.truncate(1),
                    // its files have been replaced since
                    2 => hashes = vec![format!("sha256={}", "ab".repeat(32))],
                    _ => hashes.clear(),
                }
                let ver = if g.chance(1, 10) { pep440::near(g, &rel.ver, true) } else { rel.ver };
                u.hints.insert(NAMES[p].into(), Hint { ver, hashes });
            }
            if g.bool() && !u.pythons.is_empty() {
                let r = g.choose(&u.pythons).clone();
                let gone = g.chance(1, 6);
                u.hints.insert(PYTHON.into(), Hint { ver: r.ver, hashes: if gone { vec![] } else { r.files.iter().filter(|f| f.0.hashed).map(|f| f.0.hash()).collect() } });
            }
        }
        u
    }

    pub fn site(&self) -> Site {
        let mut s = Site::new();
        for (p, rels) in self.projects.iter().enumerate() {
            for r in rels {
                for f in &r.files {
                    s.add(&format!("simple/{}/", NAMES[p]), f.file.clone());
                }
            }
        }
        for r in &self.pythons {
            for f in &r.files {
                s.add(&format!("simple/{PYTHON}/"), f.0.clone());
            }
        }
        s
    }

    pub fn describe(&self) -> String {
        let mut t = String::new();
        let show = |f: &File| format!("{}{}{}", f.name, if f.hashed { "" } else { " (no hash)" }, if f.yanked.is_some() { " (yanked)" } else { "" });
        for r in &self.pythons {
            for (f, _, m) in &r.files {
                t += &format!("{} platform_release={}\n", show(f), m.markers["platform_release"]);
            }
        }
        for rels in &self.projects {
            for r in rels {
                for f in &r.files {
                    t += &format!("{} index-rp={:?}", show(&f.file), f.file.requires_python);
                    if let Some(m) = &f.meta {
                        t += &format!(" rp={:?} extras={:?} deps={:?}", m.core.requires_python, m.extras, m.core.requires_dist);
                    }
                    t += "\n";
                }
            }
        }
        t + &format!(
            "platforms {:?}, python {:?}, roots {:?}, allow_pre {:?}, hints {:?}",
            self.platforms,
            plain(&self.python_specs),
            self.roots.iter().map(|d| &d.text).collect::<Vec<_>>(),
            self.allow_pre,
            self.hints.iter().map(|(k, h)| format!("{k}=={}", h.ver.canonical())).collect::<Vec<_>>()
        )
    }

    /// Whether the pre-release policy lets this one be used; None: unclear, because
    /// there are final releases but they can't be used.
    fn pre_ok(&self, name: &str, v: &Ver, all: &[&Ver]) -> bool {
        !v.is_pre() || self.allow_pre.as_ref().map_or(true, |l| l.iter().any(|x| x == name)) || all.iter().all(|v| v.is_pre())
    }

    fn hinted(&self, name: &str, f: &File) -> bool {
        f.hashed && self.hints.get(name).map_or(false, |h| h.hashes.contains(&f.hash()))
    }

    /// Interpreters that may be used, most preferred first, with the file for the
    /// first platform that has one.
    pub fn python(&self) -> Option<(&PyRel, &PybiMeta, &'static str)> {
        let all: Vec<&Ver> = self.pythons.iter().map(|r| &r.ver).collect();
        let mut ok: Vec<&PyRel> = self
            .pythons
            .iter()
            .filter(|r| {
                self.pre_ok(PYTHON, &r.ver, &all)
                    && r.files.iter().any(|f| f.0.yanked.is_none() || self.hinted(PYTHON, &f.0))
                    && self.python_specs.iter().all(|s| s.matches(&r.ver))
                    && r.files.iter().any(|f| self.platforms.iter().any(|p| fits(f.1, p).is_some()))
            })
            .collect();
        self.prefer(PYTHON, &mut ok, |r| &r.ver);
        let r = ok.first()?;
        let (tag, f) = self.platforms.iter().find_map(|p| r.files.iter().filter_map(|f| fits(f.1, p).map(|n| (n, f))).min_by_key(|x| x.0).map(|x| (*p, x.1)))?;
        Some((r, &f.2, tag))
    }

    fn prefer<T>(&self, name: &str, v: &mut [&T], ver: impl Fn(&T) -> &Ver) {
        let hint = self.hints.get(name).map(|h| h.ver.clone());
        let hinted = |t: &T| hint.as_ref().map_or(false, |h| h.eq(ver(t)));
        v.sort_by(|a, b| hinted(b).cmp(&hinted(a)).then(ver(b).cmp(ver(a))));
    }

    /// The marker environment of that interpreter on that platform.
    pub fn env(&self, m: &PybiMeta, tag: &str) -> BTreeMap<String, String> {
        let mut e = m.markers.clone();
        if !e.contains_key("platform_machine") {
            e.insert("platform_machine".into(), if tag.ends_with("arm64") { "arm64" } else { "x86_64" }.into());
        }
        e
    }

    /// Releases of a project that policies and Python versions allow, most preferred first.
    pub fn allowed(&self, p: usize, python: &Ver) -> Vec<&Rel> {
        let all: Vec<&Ver> = self.projects[p].iter().map(|r| &r.ver).collect();
        let fits = |rp: &Option<Vec<Spec>>| rp.as_ref().map_or(true, |s| s.iter().all(|s| s.matches(python)));
        let mut ok: Vec<&Rel> = self.projects[p]
            .iter()
            .filter(|r| {
                self.pre_ok(NAMES[p], &r.ver, &all)
                    && r.files.iter().any(|f| (f.file.yanked.is_none() || self.hinted(NAMES[p], &f.file)) && fits(&f.requires_python))
                    && fits(&r.meta().requires_python)
            })
            .collect();
        self.prefer(NAMES[p], &mut ok, |r| &r.ver);
        ok
    }

    /// Whether finals exist that can't be used, while pre-releases could
    pub fn unclear_pre(&self, p: usize, python: &Ver) -> bool {
        let rels = &self.projects[p];
        rels.iter().any(|r| r.ver.is_pre()) && rels.iter().any(|r| !r.ver.is_pre()) && !self.allowed(p, python).iter().any(|r| !r.ver.is_pre())
    }
}

/// For pep508::eval
pub fn model_env(vars: &BTreeMap<String, String>, extra: &str) -> Env {
    let mut e = Env { vars: HashMap::new(), lits: lits() };
    for (k, v) in vars {
        let kind = match k.as_str() {
            "python_version" | "python_full_version" => Kind::Version(py_ver(v)),
            _ => Kind::Text,
        };
        e.vars.insert(k.clone(), (v.clone(), kind));
    }
    e.vars.insert("extra".into(), (extra.into(), Kind::Text));
    e
}

pub fn holds(d: &Dep, vars: &BTreeMap<String, String>, extra: &str) -> bool {
    match &d.marker {
        None => true,
        Some(m) => pep508::eval(&model_env(vars, extra), m).0.unwrap(),
    }
}

/// What a chosen release looks like to the closure.
#[derive(Clone)]
pub struct Picked<'a> {
    pub ver: &'a Ver,
    pub deps: &'a [Dep],
    pub extras: &'a [String],
}

pub enum Closure {
    /// these are needed, and everything fits
    Complete(BTreeSet<usize>),
    /// this one is needed but not chosen
    Needs(usize),
    Conflict(String),
}

/// Follows requirements from the roots through the chosen releases.
pub fn closure<'a>(roots: &[Dep], vars: &BTreeMap<String, String>, pick: &dyn Fn(usize) -> Option<Picked<'a>>) -> Closure {
    let mut seen: BTreeSet<(usize, Option<String>)> = BTreeSet::new();
    let mut todo: Vec<(usize, Option<String>)> = vec![];
    let mut needs = None;
    let mut follow = |who: &str, d: &Dep, todo: &mut Vec<(usize, Option<String>)>| -> Option<String> {
        if let Some(p) = pick(d.to) {
            if let Some(s) = d.specs.iter().find(|s| !s.matches(p.ver)) {
                return Some(format!("{who} requires {:?}, but {} {} was chosen ({})", d.text, NAMES[d.to], p.ver.canonical(), s.canonical()));
            }
            if let Some(e) = d.extras.iter().find(|e| !p.extras.contains(e)) {
                return Some(format!("{who} requires {:?}, but {} {} has no extra {e}", d.text, NAMES[d.to], p.ver.canonical()));
            }
        } else if needs.is_none() {
            needs = Some(d.to);
        }
        todo.push((d.to, None));
        todo.extend(d.extras.iter().map(|e| (d.to, Some(e.clone()))));
        None
    };
    for d in roots {
        if holds(d, vars, "") {
            if let Some(c) = follow("the user", d, &mut todo) {
                return Closure::Conflict(c);
            }
        }
    }
    while let Some(n) = todo.pop() {
        if !seen.insert(n.clone()) {
            continue;
        }
        let Some(p) = pick(n.0) else { continue };
        let extra = n.1.clone().unwrap_or_default();
        let who = format!("{}[{extra}] {}", NAMES[n.0], p.ver.canonical());
        for d in p.deps {
            if holds(d, vars, &extra) {
                if let Some(c) = follow(&who, d, &mut todo) {
                    return Closure::Conflict(c);
                }
            }
        }
    }
    match needs {
        Some(p) => Closure::Needs(p),
        None => Closure::Complete(seen.into_iter().map(|x| x.0).collect()),
    }
}

/// An exhaustive search. `allowed` lists the candidates of each project.
pub fn search<'a>(roots: &[Dep], vars: &BTreeMap<String, String>, allowed: &[Vec<&'a Rel>], chosen: &mut BTreeMap<usize, &'a Rel>) -> bool {
    let pick = |p: usize| chosen.get(&p).map(|r| picked(r));
    match closure(roots, vars, &pick) {
        Closure::Complete(_) => true,
        Closure::Conflict(_) => false,
        Closure::Needs(p) => {
            for r in &allowed[p] {
                chosen.insert(p, r);
                if search(roots, vars, allowed, chosen) {
                    return true;
                }
                chosen.remove(&p);
            }
            false
        }
    }
}

pub fn picked(r: &Rel) -> Picked<'_> {
    let m = r.meta();
    Picked { ver: &r.ver, deps: &m.deps, extras: &m.extras }
}

pub fn python_version(env: &BTreeMap<String, String>) -> Ver {
    py_ver(&env["python_full_version"])
}
