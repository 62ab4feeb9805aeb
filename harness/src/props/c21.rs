//! C21: an environment contains exactly the locked artifacts, best fit chosen.
use crate::tags::expansion;
use crate::archive::{self, Kind, Member};
use crate::index::{Core, *};
use crate::prop::*;
use posy::verif_hooks::*;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;

pub fn property() -> Property {
    Property {
        id: "C21",
        level: "exploration",
        assumptions: &[
            "artifacts are well-formed (C09 and C10 have the others)",
            "artifacts whose best tags are the same are equally good",
            "interpreters that build sdists are wrappers around the sandbox's python3",
        ],
        subs: vec![
            Sub { name: "choice", rule: "one request each, on an index with up to eight pybis and up to eight wheels per release with related tags, some not locked or without a hash, for one to three platforms; the installed files tell which artifact was chosen, compared with an independent ranking; non-trivial: at least two candidates of different rank for some pin", quick: 8_000, thorough: 400_000, threads: 16, run: choice },
            Sub { name: "histories", rule: "two to five requests on one forest, repeated, for other blueprints or platforms, after the index changed, or while a download is corrupt; every directory handed out is compared with the model, and all earlier ones with what they were; locks whose metadata doesn't match must be refused; sdists are really built; non-trivial: at least two requests succeed", quick: 1_500, thorough: 60_000, threads: 16, run: histories },
            Sub { name: "rebuilt", rule: "two to five requests for one sdist, whose backend makes different wheels with different interpreters, on one or two forests with a common cache of builds: what fits already must be used, best first, and only otherwise may something be built; non-trivial: at least two wheels were built", quick: 250, thorough: 10_000, threads: 12, run: rebuilt },
            Sub { name: "running", rule: "one request as above for this machine's platform, or for no wheels at all; then the environment's python is started with the environment's variables in a directory with importable and .pth files of its own: it must see exactly the locked packages, in order, .pth files of those included; every script is started by name; non-trivial: a package was imported", quick: 600, thorough: 20_000, threads: 8, run: running },
        ],
    }
}

const PLATFORMS: &[&str] = &["manylinux_2_17_x86_64", "manylinux_2_12_x86_64", "musllinux_1_1_x86_64", "macosx_11_0_arm64", "macosx_10_15_x86_64", "win_amd64", "win32"];
const TEMPLATES: &[&str] = &["cp310-cp310-PLATFORM", "cp310-abi3-PLATFORM", "cp39-abi3-PLATFORM", "py3-none-PLATFORM", "cp310-none-any", "py3-none-any"];
pub const PY: &str = "cpython_u";

#[derive(Clone, Debug)]
struct PyFile {
    file: File,
    arches: Vec<String>,
    templates: Vec<String>,
    id: String,
}

#[derive(Clone, Debug)]
struct WFile {
    file: File,
    /// fully expanded
    tags: Vec<String>,
    sdist: bool,
    core: Core,
    id: String,
    /// installed path -> contents, where they are the wheel's own
    lib: BTreeMap<String, String>,
    bin: Vec<String>,
}

#[derive(Clone, Debug)]
struct Pin {
    project: usize,
    version: usize,
    hashes: Vec<String>,
    core: Core,
    from: Option<usize>,
}

#[derive(Clone, Debug)]
struct Lock {
    python: usize,
    hashes: Vec<String>,
    pins: Vec<Pin>,
}

#[derive(Clone, Debug)]
struct World {
    pythons: Vec<(String, Vec<PyFile>)>,
    projects: Vec<Vec<(String, Vec<WFile>)>>,
}

/// A `python` that runs the sandbox's interpreter as posy's would run.
pub fn python_script() -> &'static str {
    "#!/bin/sh\nhere=$(cd \"$(dirname \"$0\")/..\" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONPATH=\"$here/lib/python/site-packages:$here/stubs\" exec python3 -X frozen_modules=off \"$@\"\n"
}

fn arch(g: &mut G, platforms: &[&str]) -> String {
    if g.chance(5, 6) {
        let p = g.choose(platforms).to_string();
        let e = expansion(&p);
        // near the top, so that ranks differ by little
        let k = if g.bool() { e.len().min(4) } else { e.len() };
        e[g.usize(k)].clone()
    } else {
        g.pick(PLATFORMS).to_string()
    }
}

fn wheel(g: &mut G, name: &str, version: &str, tag: &str, core: &Core, count: usize) -> WFile {
    let id = format!("{name}-{version}-{count}");
    let n = escaped(name);
    let purelib = g.bool();
    let code = format!("ID = '{id}'\ndef main():\n    print(ID)\n");
    let mut more = vec![Member::file(&format!("{n}/which.py"), code.as_bytes())];
    let mut lib = BTreeMap::from([(format!("{n}/which.py"), code)]);
    let mut bin = vec![];
    if g.chance(1, 3) {
        more.push(Member::file(&format!("{n}-{version}.dist-info/entry_points.txt"), format!("[console_scripts]\n{n}-run = {n}.which:main\n").as_bytes()));
        lib.insert(format!("{n}-{version}.dist-info/entry_points.txt"), format!("[console_scripts]\n{n}-run = {n}.which:main\n"));
        bin.push(format!("{n}-run"));
        bin.push(format!("{n}-run.exe"));
    }
    if g.chance(1, 4) {
        let s = g.pick(&["purelib", "platlib"]).to_string();
        more.push(Member::file(&format!("{n}-{version}.data/{s}/{n}_extra.py"), b"e = 1"));
        lib.insert(format!("{n}_extra.py"), "e = 1".into());
    }
    if g.chance(1, 4) {
        more.push(Member::file(&format!("{n}-{version}.data/scripts/{n}.sh"), b"#!/bin/sh\necho hi\n"));
        bin.push(format!("{n}.sh"));
    }
    if g.chance(1, 4) {
        for (k, v) in [(format!("{n}.pth"), format!("{n}_more\n")), (format!("{n}_more/{n}_pth.py"), format!("ID = '{id}'\n"))] {
            more.push(Member::file(&k, v.as_bytes()));
            lib.insert(k, v);
        }
    }
    if g.chance(1, 6) {
        more.push(Member::file(&format!("{n}-{version}.dist-info/LICENSE"), b"l"));
        lib.insert(format!("{n}-{version}.dist-info/LICENSE"), "l".into());
    }
    lib.insert(format!("{n}-{version}.dist-info/METADATA"), core.text());
    bin.sort();
    let ms = wheel_members(&n, version, purelib, &core.text(), &more);
    let mut tags = vec![];
    let parts: Vec<&str> = tag.split('-').collect();
    let three = &parts[parts.len() - 3..];
    for a in three[0].split('.') {
        for b in three[1].split('.') {
            for c in three[2].split('.') {
                tags.push(format!("{a}-{b}-{c}"));
            }
        }
    }
    WFile { file: File::new(format!("{n}-{version}-{tag}.whl"), pack(&ms)), tags, sdist: false, core: core.clone(), id, lib, bin }
}

/// An sdist whose backend hands out a wheel it has brought along.
pub fn sdist_with(name: &str, version: &str, wheel_name: &str, wheel: &[u8]) -> Vec<u8> {
    let top = format!("{}-{version}", escaped(name));
    let backend = format!(
        "import shutil, os\ndef build_wheel(wheel_directory, config_settings=None, metadata_directory=None):\n    shutil.copy(os.path.join('prebuilt', {wheel_name:?}), wheel_directory)\n    return {wheel_name:?}\n"
    );
    let ms = vec![
        Member::file(&format!("{top}/pyproject.toml"), b"[build-system]\nrequires = []\nbuild-backend = \"backend\"\nbackend-path = [\".\"]\n"),
        Member::file(&format!("{top}/backend.py"), backend.as_bytes()),
        Member::file(&format!("{top}/prebuilt/{wheel_name}"), wheel),
        Member::file(&format!("{top}/PKG-INFO"), b"Metadata-Version: 2.1\n"),
    ];
    archive::gz(&archive::tar(&ms, archive::TarFormat::Ustar, false), &[])
}

fn python_file(name: &str, version: &str, arches: &[String], templates: &[String], count: usize) -> PyFile {
    let mut m = PybiMeta::new(PY, version);
    m.tags = templates.to_vec();
    let id = format!("pybi {count}");
    let mut ms = pybi_files(&m, python_script());
    ms.extend(archive::python_stubs());
    ms.push(Member::file("which.txt", id.as_bytes()));
    PyFile { file: File::new(name.to_string(), pack(&pybi_members(&m.text(), &ms))), arches: arches.to_vec(), templates: templates.to_vec(), id }
}

fn world(g: &mut G, platforms: &[&str], sdists: bool) -> World {
    let mut count = 0;
    let pythons = (0..g.range(1, 2))
        .map(|i| {
            let v = format!("3.{}.4", 10 + i);
            let mut files: Vec<PyFile> = vec![];
            for _ in 0..g.range(1, 5) {
                count += 1;
                let mut arches = vec![arch(g, platforms)];
                if sdists {
                    // interpreters for building are needed
                    arches = vec![expansion(platforms[0])[g.usize(3)].clone()];
                } else if g.chance(1, 5) {
                    arches.push(arch(g, platforms));
                    arches.sort();
                    arches.dedup();
                }
                let name = format!("{PY}-{v}-{}.pybi", arches.join("."));
                if files.iter().any(|f| f.file.name == name) {
                    continue;
                }
                let mut templates: Vec<String> = TEMPLATES.iter().filter(|_| g.chance(3, 4)).map(|s| s.to_string()).collect();
                if g.chance(1, 4) {
                    g.shuffle(&mut templates);
                }
                if templates.is_empty() {
                    templates.push("py3-none-any".into());
                }
                let mut f = python_file(&name, &v, &arches, &templates, count);
                f.file.hashed = !g.chance(1, 12);
                files.push(f);
            }
            (v, files)
        })
        .collect();
    let projects = (0..g.range(1, 3))
        .map(|p| {
            let name = ["aa", "b-b", "cc"][p as usize];
            (0..g.range(1, 2))
                .map(|v| {
                    let version = format!("{}.0", v + 1);
                    let mut core = Core::new(name, &version);
                    if g.chance(1, 3) {
                        core.requires_dist = vec![g.pick(&["zz>=1", "zz; python_version >= '3'", "zz[x]", "yy ; extra == 'e'"]).into()];
                    }
                    if g.chance(1, 4) {
                        core.extras = vec!["e".into()];
                    }
                    if g.chance(1, 4) {
                        core.requires_python = Some(">=3.8".into());
                    }
                    let mut files: Vec<WFile> = vec![];
                    for _ in 0..g.weighted(&[1, 3, 4, 4, 3, 2, 1]) {
                        count += 1;
                        let a = match g.below(4) {
                            0 => "any".to_string(),
                            _ => arch(g, platforms),
                        };
                        let mut t = match g.below(6) {
                            0 => format!("cp310-cp310-{a}"),
                            1 => format!("cp310-abi3-{a}"),
                            2 => format!("cp39-abi3-{a}"),
                            3 => format!("py2.py3-none-{a}"),
                            4 => format!("cp310.cp311-none-{a}"),
                            _ => format!("py3-none-{a}"),
                        };
                        if g.chance(1, 6) {
                            t += &format!(".{}", arch(g, platforms));
                        }
                        if g.chance(1, 8) {
                            t = format!("{}-{t}", g.range(1, 3));
                        }
                        let mut c = core.clone();
                        if g.chance(1, 15) {
                            c.requires_dist.push("other".into());
                        }
                        let mut w = wheel(g, name, &version, &t, &c, count);
                        if files.iter().any(|f| f.file.name == w.file.name) {
                            continue;
                        }
                        w.file.hashed = !g.chance(1, 12);
                        files.push(w);
                    }
                    if sdists && (files.is_empty() || g.chance(1, 2)) {
                        count += 1;
                        let mut w = wheel(g, name, &version, "py3-none-any", &core, count);
                        let bytes = sdist_with(name, &version, &w.file.name, &w.file.bytes);
                        w.file = File::new(format!("{}-{version}.tar.gz", escaped(name)), bytes);
                        w.sdist = true;
                        files.push(w);
                    }
                    (version, files)
                })
                .collect()
        })
        .collect();
    World { pythons, projects }
}

fn site(w: &World) -> Site {
    let mut s = Site::new();
    for (_, fs) in &w.pythons {
        for f in fs {
            s.add("simple/cpython-u/", f.file.clone());
        }
    }
    for (p, rels) in w.projects.iter().enumerate() {
        for (_, fs) in rels {
            for f in fs {
                s.add(&format!("simple/{}/", ["aa", "b-b", "cc"][p]), f.file.clone());
            }
        }
    }
    s
}

fn some_hashes(g: &mut G, files: Vec<&File>) -> Vec<String> {
    let keep_all = g.chance(2, 3);
    let mut v: Vec<String> = files.into_iter().filter(|_| keep_all || g.chance(2, 3)).map(|f| f.hash()).collect();
    if g.chance(1, 6) {
        v.push(File::new("gone", b"gone".to_vec()).hash());
    }
    v
}

fn lock(g: &mut G, w: &World) -> Lock {
    let python = g.usize(w.pythons.len());
    let hashes = some_hashes(g, w.pythons[python].1.iter().map(|f| &f.file).collect());
    let mut pins = vec![];
    for p in 0..w.projects.len() {
        if g.chance(1, 5) {
            continue;
        }
        let v = g.usize(w.projects[p].len());
        let (version, files) = &w.projects[p][v];
        let hashes = some_hashes(g, files.iter().map(|f| &f.file).collect());
        let mut core = match files.iter().find(|f| f.file.hashed) {
            Some(f) => f.core.clone(),
            None => Core::new(["aa", "b-b", "cc"][p], version),
        };
        if g.chance(1, 12) {
            match g.below(3) {
                0 => core.requires_dist.push("more".into()),
                1 => core.requires_python = Some(">=3.9".into()),
                _ => core.extras.push("f".into()),
            }
        }
        // (the file the metadata is said to come from)
        let from = if g.bool() { None } else { Some(g.usize(files.len().max(1))) };
        pins.push(Pin { project: p, version: v, hashes, core, from });
    }
    g.shuffle(&mut pins);
    Lock { python, hashes, pins }
}

fn blueprint(w: &World, l: &Lock, site: &url::Url) -> Blueprint {
    let hs = |v: &[String]| v.iter().map(|h| h.as_str().try_into().unwrap()).collect();
    Blueprint {
        pybi: PinnedPackage { name: pkg(PY), version: ver(&w.pythons[l.python].0), hashes: hs(&l.hashes) },
        wheels: l
            .pins
            .iter()
            .map(|p| {
                let c = &p.core;
                (
                    PinnedPackage { name: pkg(["aa", "B_b", "cc"][p.project]), version: ver(&w.projects[p.project][p.version].0), hashes: hs(&p.hashes) },
                    WheelResolveMetadata {
                        provenance: match p.from.and_then(|i| w.projects[p.project][p.version].1.get(i)) {
                            Some(f) => {
                                let mut u = site.join(&f.file.at).unwrap();
                                u.set_fragment(f.file.hashed.then(|| f.file.hash()).as_deref());
                                u.to_string()
                            }
                            None => "http://x/".into(),
                        },
                        inner: WheelResolveMetadataInner {
                            requires_dist: c.requires_dist.iter().map(|r| r.as_str().try_into().unwrap()).collect(),
                            requires_python: match &c.requires_python {
                                Some(r) => r.as_str().try_into().unwrap(),
                                None => Specifiers(vec![]),
                            },
                            extras: c.extras.iter().map(|e| e.as_str().try_into().unwrap()).collect(),
                        },
                    },
                )
            })
            .collect(),
        marker_expressions: HashMap::new(),
    }
}

/// The best of those (the first of `rank`), all of them where several are equally good.
fn best<'a, T>(files: impl Iterator<Item = &'a T>, rank: impl Fn(&T) -> Option<usize>) -> Vec<&'a T> {
    let mut out: (usize, Vec<&'a T>) = (usize::MAX, vec![]);
    for f in files {
        match rank(f) {
            Some(r) if r < out.0 => out = (r, vec![f]),
            Some(r) if r == out.0 => out.1.push(f),
            _ => {}
        }
    }
    out.1
}

fn wheel_tags(templates: &[String], platform: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for t in templates {
        let more = match t.strip_suffix("-PLATFORM") {
            Some(p) => expansion(platform).into_iter().map(|x| format!("{p}-{x}")).collect(),
            None => vec![t.clone()],
        };
        for m in more {
            if !out.contains(&m) {
                out.push(m);
            }
        }
    }
    out
}

/// A universal2 interpreter is an interpreter for each of its two architectures.
fn slices(arches: &[String]) -> Vec<String> {
    arches
        .iter()
        .flat_map(|a| match a.strip_suffix("_universal2") {
            Some(p) if a.starts_with("macosx_") => vec![format!("{p}_arm64"), format!("{p}_x86_64")],
            _ => vec![a.clone()],
        })
        .collect()
}

/// The interpreters that may be chosen, and the platform.
fn pythons<'w>(w: &'w World, l: &Lock, platforms: &[String]) -> Option<(Vec<&'w PyFile>, String)> {
    for p in platforms {
        let e = expansion(p);
        let b = best(w.pythons[l.python].1.iter().filter(|f| f.file.hashed && l.hashes.contains(&f.file.hash())), |f| slices(&f.arches).iter().filter_map(|a| e.iter().position(|x| x == a)).min());
        if !b.is_empty() {
            return Some((b, p.clone()));
        }
    }
    None
}

fn wheels<'w>(w: &'w World, pin: &Pin, tags: &[String]) -> Vec<&'w WFile> {
    let files = &w.projects[pin.project][pin.version].1;
    let usable = || files.iter().filter(|f| f.file.hashed && pin.hashes.contains(&f.file.hash()));
    let b = best(usable().filter(|f| !f.sdist), |f| f.tags.iter().filter_map(|t| tags.iter().position(|x| x == t)).min());
    if !b.is_empty() {
        return b;
    }
    if !tags.iter().any(|t| t == "py3-none-any") {
        return vec![];
    }
    usable().filter(|f| f.sdist).collect()
}

type Snapshot = BTreeMap<String, String>;

fn snapshot(dir: &Path) -> Snapshot {
    fn go(dir: &Path, at: &str, out: &mut Snapshot) {
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let n = format!("{at}{}", e.file_name().to_string_lossy());
            let m = e.metadata().unwrap();
            if m.is_dir() {
                go(&e.path(), &format!("{n}/"), out);
            } else {
                use std::os::unix::fs::MetadataExt;
                let b = std::fs::read(e.path()).unwrap_or_default();
                out.insert(n, if b.len() < 2000 && std::str::from_utf8(&b).is_ok() { format!("{:o} {}", m.mode() & 0o777, String::from_utf8(b).unwrap()) } else { format!("{:o} {:016x}", m.mode() & 0o777, fnv(&b)) });
            }
        }
    }
    let mut out = BTreeMap::new();
    go(dir, "", &mut out);
    out
}

fn contents(s: &Snapshot, name: &str) -> Option<String> {
    s.get(name).map(|x| x.split_once(' ').unwrap().1.to_string())
}

/// Compares an environment with what it should be. Err: what is wrong.
fn compare(w: &World, l: &Lock, platforms: &[String], env: &Env) -> R {
    let Some((pys, platform)) = pythons(w, l, platforms) else { return fail("an environment was made, but no interpreter is locked and compatible") };
    let root = match env.python.parent().and_then(|p| p.parent()) {
        Some(r) => r.to_path_buf(),
        None => return fail(format!("python is {:?}", env.python)),
    };
    ensure!(env.platform_core_tag == expansion(&platform)[0], "the environment is for {:?}, expected {platform:?}", env.platform_core_tag);
    let s = snapshot(&root);
    let got = contents(&s, "which.txt");
    let Some(py) = pys.iter().find(|p| Some(&p.id) == got.as_ref()) else {
        return fail(format!("the interpreter is {got:?}, but for {platform} the best is {:?}", pys.iter().map(|p| (&p.id, &p.file.name)).collect::<Vec<_>>()));
    };
    ensure!(env.python == root.join("bin/python") && env.python.is_file(), "python is {:?}", env.python);
    ensure!(s.get("bin/python").map_or(false, |x| x.starts_with("755 ") || x.starts_with("777 ") || x.starts_with("775 ")), "bin/python isn't executable: {:?}", s.get("bin/python"));
    ensure!(contents(&s, "lib/python/site.py").as_deref() == Some(crate::index::SITE_PY.replace("\nENABLE_USER_SITE = None\n", "\nENABLE_USER_SITE = False\n").as_str()), "site.py is {:?}", contents(&s, "lib/python/site.py"));
    ensure!(s.contains_key("lib/python/EXTERNALLY-MANAGED") && s.contains_key("lib/python/site-packages/sitecustomize.py"), "posy's additions to the interpreter are missing: {:?}", s.keys());
    let extra: Vec<_> = s.keys().filter(|k| !k.starts_with("pybi-info/") && !k.starts_with("stubs/") && !["which.txt", "bin/python", "lib/python/site.py", "lib/python/EXTERNALLY-MANAGED", "lib/python/site-packages/sitecustomize.py"].contains(&k.as_str())).collect();
    ensure!(extra.is_empty(), "the interpreter has files it shouldn't have: {extra:?}");

    let tags = wheel_tags(&py.templates, &platform);
    let got_tags: Vec<String> = env.wheel_platform.tags().cloned().collect();
    ensure!(got_tags == tags, "wheel tags {got_tags:?}, expected {tags:?}");
    ensure!(env.lib_dirs.len() == l.pins.len(), "{} packages were installed, the lock has {}", env.lib_dirs.len(), l.pins.len());
    ensure!(env.bin_dirs.len() == l.pins.len() + 1 && env.bin_dirs[0] == root.join("bin"), "bin_dirs are {:?}", env.bin_dirs);
    for (i, pin) in l.pins.iter().enumerate() {
        let options = wheels(w, pin, &tags);
        let name = ["aa", "b-b", "cc"][pin.project];
        let version = &w.projects[pin.project][pin.version].0;
        let n = escaped(name);
        let (lib, bin) = (snapshot(&env.lib_dirs[i]), snapshot(&env.bin_dirs[i + 1]));
        let got = contents(&lib, &format!("{n}/which.py"));
        let Some(f) = options.iter().find(|f| f.lib.get(&format!("{n}/which.py")) == got.as_ref()) else {
            return fail(format!("{name} {version}: {got:?} is installed, the best locked fit for {tags:?} is {:?}", options.iter().map(|f| (&f.id, &f.file.name)).collect::<Vec<_>>()));
        };
        ensure!(same_meta(&f.core, &pin.core), "{name} {version}: metadata {:?} was installed, though {:?} was locked", f.core, pin.core);
        for (k, v) in &f.lib {
            ensure!(contents(&lib, k).as_ref() == Some(v), "{name} {version}: {k} is {:?}, expected {v:?}", contents(&lib, k));
        }
        let d = format!("{n}-{version}.dist-info/");
        let extra: Vec<_> = lib.keys().filter(|k| !f.lib.contains_key(*k) && ![format!("{d}INSTALLER"), format!("{d}WHEEL"), format!("{d}RECORD")].contains(k)).collect();
        ensure!(extra.is_empty(), "{name} {version}: files that don't belong to it: {extra:?}");
        let got_bin: Vec<&String> = bin.keys().collect();
        ensure!(got_bin == f.bin.iter().collect::<Vec<_>>(), "{name} {version}: scripts {got_bin:?}, expected {:?}", f.bin);
    }
    Ok(())
}

fn same_meta(a: &Core, b: &Core) -> bool {
    a.requires_dist == b.requires_dist && a.requires_python == b.requires_python && a.extras == b.extras
}

/// Must this request succeed, whatever ties are broken how?
fn must(w: &World, l: &Lock, platforms: &[String]) -> bool {
    match pythons(w, l, platforms) {
        None => false,
        Some((pys, platform)) => pys.iter().all(|py| {
            let tags = wheel_tags(&py.templates, &platform);
            l.pins.iter().all(|pin| {
                let o = wheels(w, pin, &tags);
                !o.is_empty() && o.iter().all(|f| same_meta(&f.core, &pin.core))
            })
        }),
    }
}

struct Request {
    lock: Lock,
    platforms: Vec<String>,
    fresh_db: bool,
    /// this file's download is broken meanwhile
    corrupt: Option<String>,
    /// appears on the index before the request, in place of the file of the same name
    new: Option<(usize, usize, WFile)>,
    new_python: Option<(usize, PyFile)>,
}

/// Puts the file where one of the same name is, or at the end.
fn put(files: &mut Vec<WFile>, f: WFile) {
    match files.iter_mut().find(|x| x.file.name == f.file.name) {
        Some(x) => *x = f,
        None => files.push(f),
    }
}

pub fn choice(g: &mut G) -> R {
    run(g, 1)
}

pub fn histories(g: &mut G) -> R {
    run(g, 5)
}

fn run(g: &mut G, n: usize) -> R {
    let sdists = n > 1 && g.chance(1, 3);
    let mut platforms: Vec<String> = if sdists {
        let mut v = vec!["manylinux_2_17_x86_64".to_string()];
        if g.bool() {
            v.push("manylinux_2_12_x86_64".into());
        }
        v
    } else {
        (0..g.range(1, 3)).map(|_| g.pick(PLATFORMS).to_string()).collect()
    };
    let mut seen = vec![];
    platforms.retain(|p| {
        let new = !seen.contains(p);
        seen.push(p.clone());
        new
    });
    let refs: Vec<&str> = platforms.iter().map(|s| s.as_str()).collect();
    let w = world(g, &refs, sdists);
    let mut now = w.clone();
    let mut requests: Vec<Request> = vec![];
    let mut count = 1000;
    for i in 0..if n == 1 { 1 } else { g.range(2, n as u64) } {
        let repeat = i > 0 && g.chance(1, 3);
        let lock = if repeat { requests[g.usize(requests.len())].lock.clone() } else { lock(g, &now) };
        let ps = if i > 0 && g.chance(1, 4) {
            let mut p = platforms.clone();
            if sdists { p.truncate(1) } else { g.shuffle(&mut p) };
            p
        } else {
            platforms.clone()
        };
        let corrupt = if n > 1 && g.chance(1, 6) {
            let files: Vec<&WFile> = now.projects.iter().flatten().flat_map(|r| &r.1).collect();
            if files.is_empty() { None } else { Some(files[g.usize(files.len())].file.at.clone()) }
        } else {
            None
        };
        let new = if i > 0 && g.chance(1, 4) {
            let p = g.usize(now.projects.len());
            let v = g.usize(now.projects[p].len());
            count += 1;
            let version = now.projects[p][v].0.clone();
            let core = Core::new(["aa", "b-b", "cc"][p], &version);
            let a = expansion(&platforms[0])[0].clone();
            // a new one, or other contents for one that is there
            let names: Vec<String> = now.projects[p][v].1.iter().filter(|x| !x.sdist).map(|x| x.file.name.clone()).collect();
            let tag = if names.is_empty() || g.bool() {
                format!("9-cp310-cp310-{a}")
            } else {
                let n = &names[g.usize(names.len())];
                n[..n.len() - 4].splitn(3, '-').nth(2).unwrap().to_string()
            };
            let f = wheel(g, ["aa", "b-b", "cc"][p], &version, &tag, &core, count);
            put(&mut now.projects[p][v].1, f.clone());
            Some((p, v, f))
        } else {
            None
        };
        let new_python = if i > 0 && g.chance(1, 8) {
            let v = g.usize(now.pythons.len());
            let (version, files) = &mut now.pythons[v];
            let k = g.usize(files.len());
            count += 1;
            let f = python_file(&files[k].file.name.clone(), version, &files[k].arches.clone(), &files[k].templates.clone(), count);
            files[k] = f.clone();
            Some((v, f))
        } else {
            None
        };
        requests.push(Request { lock, platforms: ps, fresh_db: g.bool(), corrupt, new, new_python });
    }
    g.note(format!(
        "pythons {:?}\nprojects {:?}\nrequests {:?}",
        w.pythons.iter().map(|(v, fs)| (v, fs.iter().map(|f| format!("{} ({}) {:?}{}", f.file.name, f.id, f.templates, if f.file.hashed { "" } else { " no hash" })).collect::<Vec<_>>())).collect::<Vec<_>>(),
        w.projects.iter().map(|rels| rels.iter().map(|(_, fs)| fs.iter().map(|f| format!("{} ({}){}", f.file.name, f.id, if f.file.hashed { "" } else { " no hash" })).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        requests
            .iter()
            .map(|r| {
                let known = |hs: &[String], fs: Vec<(&String, String)>| fs.into_iter().filter(|f| hs.contains(&f.1)).map(|f| f.0.clone()).collect::<Vec<_>>();
                format!(
                    "python {} {:?}, pins {:?}, platforms {:?}, corrupt {:?}, new {:?} {:?}",
                    w.pythons[r.lock.python].0,
                    known(&r.lock.hashes, w.pythons[r.lock.python].1.iter().map(|f| (&f.id, f.file.hash())).collect()),
                    r.lock.pins.iter().map(|p| known(&p.hashes, now.projects[p.project][p.version].1.iter().map(|f| (&f.id, f.file.hash())).collect())).collect::<Vec<_>>(),
                    r.platforms,
                    r.corrupt,
                    r.new.as_ref().map(|n| &n.2.file.name),
                    r.new_python.as_ref().map(|n| &n.1.file.name)
                )
            })
            .collect::<Vec<_>>()
    ));
    // is there a choice to make?
    let choice = requests.iter().any(|r| match pythons(&w, &r.lock, &r.platforms) {
        None => false,
        Some((pys, platform)) => {
            let tags = wheel_tags(&pys[0].templates, &platform);
            r.lock.pins.iter().any(|pin| {
                let mut ranks: Vec<usize> = w.projects[pin.project][pin.version].1.iter().filter_map(|f| f.tags.iter().filter_map(|t| tags.iter().position(|x| x == t)).min()).collect();
                ranks.sort();
                ranks.dedup();
                ranks.len() > 1
            })
        }
    });
    let ok = in_time("get_env", move || -> Result<usize, Fail> {
        let index = Index::new(site(&w));
        let urls = [index.server.url("simple/")];
        let home = Home::new();
        let mut w = w;
        let mut db = home.db(&urls);
        let mut made: Vec<(usize, Vec<std::path::PathBuf>, Vec<Snapshot>)> = vec![];
        // requests from here on: nothing that was listed has gone away
        let mut since = 0;
        let mut count = 0;
        for (i, r) in requests.iter().enumerate() {
            if let Some((p, v, f)) = &r.new {
                if w.projects[*p][*v].1.iter().any(|x| x.file.name == f.file.name) {
                    since = i;
                }
                put(&mut w.projects[*p][*v].1, f.clone());
            }
            if let Some((v, f)) = &r.new_python {
                since = i;
                *w.pythons[*v].1.iter_mut().find(|x| x.file.name == f.file.name).unwrap() = f.clone();
            }
            if r.new.is_some() || r.new_python.is_some() {
                *index.site.lock().unwrap() = site(&w);
            }
            if r.fresh_db || r.new.is_some() || r.new_python.is_some() {
                db = home.db(&urls);
            }
            let real = r.corrupt.as_ref().and_then(|at| {
                let mut s = index.site.lock().unwrap();
                let b = s.files.get(at).cloned()?;
                let mut bad = b.as_ref().clone();
                let k = bad.len() / 2;
                bad[k] ^= 1;
                s.files.insert(at.clone(), bad.into());
                Some((at.clone(), b))
            });
            let ps: Vec<PybiPlatform> = r.platforms.iter().map(|p| PybiPlatform::new(p)).collect();
            let got = home.forest.get_env(&db, &blueprint(&w, &r.lock, &index.server.url("")), &ps.iter().collect::<Vec<_>>(), &[]);
            if let Some((at, b)) = real {
                index.site.lock().unwrap().files.insert(at, b);
            }
            match &got {
                Ok(env) => {
                    count += 1;
                    compare(&w, &r.lock, &r.platforms, env).map_err(|f| ff(format!("request {i}: {}", f.msg)))?;
                    let dirs: Vec<std::path::PathBuf> = std::iter::once(env.python.parent().unwrap().parent().unwrap().to_path_buf()).chain(env.lib_dirs.iter().map(|d| d.parent().unwrap().to_path_buf())).collect();
                    // the same request again: the same directories
                    for (j, d, _) in &made {
                        let q = &requests[*j];
                        if *j >= since && format!("{:?}", q.lock) == format!("{:?}", r.lock) && q.platforms == r.platforms {
                            ensure!(*d == dirs, "request {i} repeats request {j}, but got other directories: {dirs:?} instead of {d:?}");
                        }
                    }
                    let snaps = dirs.iter().map(|d| snapshot(d)).collect();
                    made.push((i, dirs, snaps));
                }
                Err(e) => ensure!(r.corrupt.is_some() || !must(&w, &r.lock, &r.platforms), "request {i} was refused: {e:?}"),
            }
            for (j, dirs, snaps) in &made {
                for (d, s) in dirs.iter().zip(snaps) {
                    let now = snapshot(d);
                    if now != *s {
                        let diff: Vec<_> = now.iter().filter(|x| s.get(x.0) != Some(x.1)).map(|x| x.0.clone()).chain(s.keys().filter(|k| !now.contains_key(*k)).cloned()).collect();
                        return fail(format!("request {i} changed {d:?}, made for request {j}: {diff:?}"));
                    }
                }
            }
        }
        Ok(count)
    })??;
    if ok > 0 {
        g.label("made");
    }
    g.nontrivial = if n == 1 { ok > 0 && choice } else { ok >= 2 };
    Ok(())
}

const PROBE: &str = "import sys, json, os, importlib
ids = {}
for n in ['aa', 'b_b', 'cc']:
    for m in [n + '.which', n + '_pth', n + '_extra']:
        try:
            ids[m] = getattr(importlib.import_module(m), 'ID', '')
        except ImportError:
            pass
print(json.dumps({'path': sys.path, 'ids': ids, 'intruded': hasattr(sys, 'intruded')}))
";

/// An sdist whose backend makes the wheel that belongs to the interpreter it runs on.
fn sdist_per_python(name: &str, version: &str, which: &[(String, String)], wheels: &BTreeMap<String, Vec<u8>>) -> Vec<u8> {
    let top = format!("{}-{version}", escaped(name));
    let map: BTreeMap<&String, &String> = which.iter().map(|(a, b)| (a, b)).collect();
    let backend = format!(
        "import shutil, os, sys\nWHICH = {map:?}\ndef build_wheel(wheel_directory, config_settings=None, metadata_directory=None):\n    for p in sys.path:\n        t = os.path.join(p, '..', '..', '..', 'which.txt')\n        if os.path.exists(t):\n            name = WHICH[open(t).read()]\n            shutil.copy(os.path.join('prebuilt', name), wheel_directory)\n            return name\n    raise Exception('no which.txt')\n"
    );
    let mut ms = vec![
        Member::file(&format!("{top}/pyproject.toml"), b"[build-system]\nrequires = []\nbuild-backend = \"backend\"\nbackend-path = [\".\"]\n"),
        Member::file(&format!("{top}/backend.py"), backend.as_bytes()),
        Member::file(&format!("{top}/PKG-INFO"), b"Metadata-Version: 2.1\n"),
    ];
    for (n, b) in wheels {
        ms.push(Member::file(&format!("{top}/prebuilt/{n}"), b));
    }
    archive::gz(&archive::tar(&ms, archive::TarFormat::Ustar, false), &[])
}

const MADE: &[&str] = &["py3-none-any", "py2.py3-none-any", "cp310-none-any", "cp311-none-any", "cp310.cp311-none-any", "cp310-abi3-manylinux_2_17_x86_64", "cp310-cp310-manylinux_2_17_x86_64", "cp311-cp311-linux_x86_64", "cp310-none-manylinux_2_12_x86_64", "py2.py3-none-linux_x86_64", "py3-none-manylinux_2_5_x86_64.manylinux1_x86_64"];

pub fn rebuilt(g: &mut G) -> R {
    const HERE: &str = "manylinux_2_17_x86_64";
    let native = PybiPlatform::native_platforms().map_err(|e| ff(format!("{e:#}")))?[0].core_tag().to_string();
    // (minor, micro, platform, file)
    let mut pythons: Vec<(usize, usize, &str, PyFile)> = vec![];
    for m in 10..10 + g.range(2, 3) as usize {
        let mut all = vec![(4, if g.chance(2, 3) { HERE } else { "win_amd64" })];
        if all[0].1 != HERE || g.chance(1, 6) {
            all.extend([2, 6].into_iter().filter(|_| g.bool()).map(|x| (x, HERE)));
        }
        for (micro, platform) in all {
            let c = format!("cp3{m}");
            let mut templates = vec![format!("{c}-{c}-PLATFORM"), "cp310-abi3-PLATFORM".into(), format!("{c}-none-PLATFORM"), "py3-none-PLATFORM".into(), format!("{c}-none-any"), "py3-none-any".into()];
            let mut rest = templates.split_off(1);
            rest.retain(|_| g.chance(7, 8));
            if g.chance(1, 4) {
                g.shuffle(&mut rest);
            }
            templates.extend(rest);
            let v = format!("3.{m}.{micro}");
            let name = format!("{PY}-{v}-{platform}.pybi");
            let k = pythons.len();
            pythons.push((m, micro, platform, python_file(&name, &v, &[platform.to_string()], &templates, k)));
        }
    }
    let core = Core::new("aa", "1.0");
    // the wheels it makes
    let mut wheels: Vec<WFile> = vec![];
    let mut made = vec![];
    for (i, (m, _, _, p)) in pythons.iter().enumerate() {
        let t = if g.chance(2, 3) { MADE.iter().filter(|t| t.contains(&format!("cp3{m}"))).nth(g.usize(3)).unwrap_or(&MADE[0]) } else { &MADE[g.usize(MADE.len())] };
        let w = wheel(g, "aa", "1.0", t, &core, i);
        made.push((p.id.clone(), w.file.name.clone()));
        // (the same name means the same wheel)
        if !wheels.iter().any(|x| x.file.name == w.file.name) {
            wheels.push(w);
        }
    }
    let prebuilt = wheels.iter().map(|w| (w.file.name.clone(), w.file.bytes.as_ref().clone())).collect();
    let sdist = File::new("aa-1.0.tar.gz", sdist_per_python("aa", "1.0", &made, &prebuilt));
    let requests: Vec<(usize, usize, bool)> = (0..g.range(2, 6)).map(|_| (g.usize(pythons.len()), g.weighted(&[3, 1]), g.bool())).collect();
    g.note(format!("pythons {:?}\nwheels {made:?}\nrequests (python, forest, new db) {requests:?}", pythons.iter().map(|(m, u, p, f)| (m, u, p, &f.templates)).collect::<Vec<_>>()));
    let built = in_time("get_env", move || -> Result<usize, Fail> {
        let mut s = Site::new();
        for (_, _, _, f) in &pythons {
            s.add("simple/cpython-u/", f.file.clone());
        }
        s.add("simple/aa/", sdist.clone());
        let index = Index::new(s);
        let urls = [index.server.url("simple/")];
        let home = Home::new();
        let second = posy::verif_hooks::EnvForest::new(&home.dir.path().join("second")).unwrap();
        let forests = [&home.forest, &second];
        let mut db = home.db(&urls);
        // what is in each forest, and in the cache of builds: name, and which of the wheels it is
        type Known = Vec<(String, usize)>;
        let mut there: Vec<Known> = vec![vec![], vec![]];
        let mut cache: Known = vec![];
        for (i, (py, forest, fresh)) in requests.iter().enumerate() {
            if *fresh {
                db = home.db(&urls);
            }
            let (minor, micro, platform, f) = &pythons[*py];
            let tags = wheel_tags(&f.templates, platform);
            let rank = |(name, _): &(String, usize)| {
                let parts: Vec<&str> = name.trim_end_matches(".whl").split('-').skip(2).collect();
                let (bs, cs) = (parts[1], parts[2]);
                let of = |a: &str, b: &str, c: &str| tags.iter().position(|x| *x == format!("{a}-{b}-{c}"));
                parts[0].split('.').flat_map(|a| bs.split('.').flat_map(move |b| cs.split('.').map(move |c| (a, b, c)))).filter_map(|(a, b, c)| of(a, b, c)).min()
            };
            let fits = |names: &Known| -> Known { best(names.iter(), |n| rank(n)).into_iter().cloned().collect() };
            let mut want = fits(&there[*forest]);
            if want.is_empty() {
                want = fits(&cache);
            }
            if want.is_empty() {
                // to be built: with this Python, or the newest of the same minor version, or
                // the newest, that runs here
                let here = pythons.iter().filter(|p| p.2 == HERE);
                let with = here.max_by_key(|p| ((p.0, p.1) == (*minor, *micro), p.0 == *minor, p.0, p.1));
                if let Some(with) = with {
                    let name = &made.iter().find(|m| m.0 == with.3.id).unwrap().1;
                    let which = wheels.iter().position(|w| w.file.name == *name).unwrap();
                    // wheels for the platform it was built on are marked so
                    let on = if *platform == HERE { HERE } else { &native };
                    let name = match name.trim_end_matches(".whl").rsplit_once('-') {
                        Some((a, b)) if b != "any" => format!("{a}-{on}.whl"),
                        _ => name.clone(),
                    };
                    // (kept even if it's no good)
                    match cache.iter_mut().find(|c| c.0 == name) {
                        Some(c) => c.1 = which,
                        None => cache.push((name.clone(), which)),
                    }
                    want = fits(&vec![(name, which)]);
                }
            }
            let blueprint = Blueprint {
                pybi: PinnedPackage { name: pkg(PY), version: ver(&format!("3.{minor}.{micro}")), hashes: vec![f.file.hash().as_str().try_into().unwrap()] },
                wheels: vec![(
                    PinnedPackage { name: pkg("aa"), version: ver("1.0"), hashes: vec![sdist.hash().as_str().try_into().unwrap()] },
                    WheelResolveMetadata { provenance: "http://x/".into(), inner: WheelResolveMetadataInner { requires_dist: vec![], requires_python: Specifiers(vec![]), extras: Default::default() } },
                )],
                marker_expressions: HashMap::new(),
            };
            let p = PybiPlatform::new(platform);
            match forests[*forest].get_env(&db, &blueprint, &[&p], &[]) {
                Ok(env) => {
                    let got = contents(&snapshot(&env.lib_dirs[0]), "aa/which.py");
                    let Some(w) = wheels.iter().position(|w| w.lib.get("aa/which.py") == got.as_ref()) else { return fail(format!("request {i}: {got:?} is installed")) };
                    let Some(x) = want.iter().find(|x| x.1 == w) else {
                        return fail(format!("request {i}: {} is installed, expected one of {want:?} (forest: {:?}, cache: {cache:?})", wheels[w].file.name, there[*forest]));
                    };
                    if !there[*forest].contains(x) {
                        there[*forest].push(x.clone());
                    }
                }
                Err(e) => ensure!(want.is_empty(), "request {i} was refused, though {want:?} would do: {e:?}"),
            }
        }
        Ok(cache.len())
    })??;
    g.nontrivial = built >= 2;
    Ok(())
}

fn running(g: &mut G) -> R {
    let platforms = vec!["manylinux_2_17_x86_64".to_string()];
    let sdists = g.chance(1, 4);
    let w = world(g, &["manylinux_2_17_x86_64"], sdists);
    let mut l = lock(g, &w);
    if g.chance(1, 8) {
        l.pins.clear();
    }
    let relative = g.chance(1, 4);
    g.note(format!("pins {:?} of {:?}", l.pins.iter().map(|p| (p.project, p.version, p.hashes.len())).collect::<Vec<_>>(), w.projects.iter().map(|rels| rels.iter().map(|(_, fs)| fs.iter().map(|f| format!("{} ({}){}", f.file.name, f.id, if f.file.hashed { "" } else { " no hash" })).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>()));
    if !must(&w, &l, &platforms) {
        g.label("not possible");
        return Ok(());
    }
    let ran = in_time("running", move || -> Result<usize, Fail> {
        let index = Index::new(site(&w));
        let home = Home::new();
        let db = home.db(&[index.server.url("simple/")]);
        let p = PybiPlatform::new(&platforms[0]);
        let env = home.forest.get_env(&db, &blueprint(&w, &l, &index.server.url("")), &[&p], &[]).map_err(|e| ff(format!("refused: {e:?}")))?;
        compare(&w, &l, &platforms, &env)?;
        let dir = tempfile::tempdir().unwrap();
        let cwd = dir.path().join("cwd");
        std::fs::create_dir(&cwd).unwrap();
        std::fs::write(cwd.join("intruder.pth"), "import sys; sys.intruded = 1\n").unwrap();
        for n in ["aa", "b_b", "cc"] {
            std::fs::create_dir(cwd.join(n)).unwrap();
            std::fs::write(cwd.join(n).join("which.py"), "ID = 'intruder'\n").unwrap();
            std::fs::write(cwd.join(n).join("__init__.py"), "").unwrap();
        }
        std::fs::write(dir.path().join("probe.py"), PROBE).unwrap();
        let start = |program: &std::ffi::OsStr, args: &[&str]| -> Result<String, Fail> {
            let mut c = std::process::Command::new(program);
            c.args(args).current_dir(&cwd).stdin(std::process::Stdio::null());
            c.envs(env.env_vars().map_err(|e| ff(format!("env_vars: {e:?}")))?);
            let o = c.output().map_err(|e| ff(format!("starting {program:?}: {e}")))?;
            let out = String::from_utf8_lossy(&o.stdout).to_string();
            ensure!(o.status.success() && o.stderr.is_empty(), "{program:?} {args:?}: {:?}, {out:?}, {:?}", o.status, String::from_utf8_lossy(&o.stderr));
            Ok(out)
        };
        let script = if relative { "../probe.py".to_string() } else { dir.path().join("probe.py").to_str().unwrap().to_string() };
        let out = start(if relative { std::ffi::OsStr::new("python") } else { env.python.as_os_str() }, &[&script])?;
        let v: serde_json::Value = serde_json::from_str(&out).map_err(|e| ff(format!("{out:?}: {e}")))?;
        ensure!(v["intruded"] == false, "a .pth file in the current directory was executed");
        let path: Vec<std::path::PathBuf> = v["path"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
        let ours: Vec<&std::path::PathBuf> = path.iter().filter(|p| env.lib_dirs.contains(p)).collect();
        ensure!(ours == env.lib_dirs.iter().collect::<Vec<_>>(), "sys.path has {ours:?}, expected {:?}", env.lib_dirs);
        ensure!(!path.contains(&cwd) && !path.iter().any(|p| p.as_os_str().is_empty() || p == Path::new(".")), "the current directory is on sys.path: {path:?}");
        let mut want = BTreeMap::new();
        for (i, pin) in l.pins.iter().enumerate() {
            let n = escaped(["aa", "b-b", "cc"][pin.project]);
            let lib = snapshot(&env.lib_dirs[i]);
            let which = contents(&lib, &format!("{n}/which.py")).unwrap();
            let id = which.split('\'').nth(1).unwrap().to_string();
            if lib.contains_key(&format!("{n}.pth")) {
                want.insert(format!("{n}_pth"), id.clone());
            }
            if lib.contains_key(&format!("{n}_extra.py")) {
                want.insert(format!("{n}_extra"), String::new());
            }
            for b in snapshot(&env.bin_dirs[i + 1]).keys().filter(|b| !b.ends_with(".exe")) {
                let out = start(std::ffi::OsStr::new(b), &[])?;
                ensure!(out == if b.ends_with(".sh") { "hi\n".to_string() } else { format!("{id}\n") }, "{b} printed {out:?}");
            }
            want.insert(format!("{n}.which"), id);
        }
        let got: BTreeMap<String, String> = v["ids"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect();
        ensure!(got == want, "Python finds {got:?}, expected {want:?}");
        Ok(l.pins.len())
    })??;
    g.nontrivial = ran > 0;
    Ok(())
}

#[allow(unused)]
fn unused(_: Kind) {}
