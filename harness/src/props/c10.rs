//! C10: wheels install to the right places, complete, and defective wheels are refused.
use crate::archive::*;
use crate::gen;
use crate::prop::*;
use posy::verif_hooks::{Artifact, BinaryArtifact, FindPython, NicePathBuf, ScriptPlatform, TrampolineMaker, Wheel, WheelName, WriteTreeFS};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Cursor;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub struct Ep {
    name: String,
    gui: bool,
    module: String,
    object: String,
}

/// What a file under .data/scripts is.
#[derive(Clone, Debug, PartialEq)]
enum Script {
    Python { gui: bool, body: Vec<u8> },
    Other,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub filename: String,
    name: String,
    version: String,
    dist_info: String,
    data: String,
    purelib: bool,
    pub members: Vec<Member>,
    /// scripts among them: member name -> what it is
    scripts: BTreeMap<String, Script>,
    eps: Vec<Ep>,
    metadata: Vec<u8>,
    wheel: String,
    entry_points: Option<String>,
}

const SCHEMES: &[&str] = &["purelib", "platlib", "scripts", "data", "headers"];

fn versions(g: &mut G) -> (String, String) {
    let (a, b) = *g.choose(&[("1.0", "1.0"), ("1.0", "1.0.0"), ("2!1.0a1", "2!1.0.a1"), ("0.1.dev3", "0.1dev3"), ("1.0+local.1", "1.0+local.1"), ("3.post1", "3.post1"), ("1.0rc1", "1.0.rc1")]);
    if g.bool() {
        (a.into(), b.into())
    } else {
        (b.into(), a.into())
    }
}

fn script(g: &mut G) -> (Vec<u8>, Script) {
    let body = match g.below(4) {
        0 => vec![],
        1 => b"import sys\nprint('hi', sys.argv[1:])\n".to_vec(),
        2 => g.blob(1, 60),
        _ => (0..g.range(1, 9000)).map(|i| b'a' + (i % 26) as u8).collect(),
    };
    match g.weighted(&[6, 3, 4]) {
        k @ (0 | 1) => {
            let gui = k == 1;
            let mut v = if gui { b"#!pythonw".to_vec() } else { b"#!python".to_vec() };
            let rest: &[u8] = if gui { g.pick::<[u8]>(&[b"", b" -E"]) } else { g.pick::<[u8]>(&[b"", b"3", b" -E", b" "]) };
            v.extend(rest);
            let crlf = g.chance(1, 5);
            v.extend(if crlf { &b"\r\n"[..] } else { b"\n" });
            v.extend(&body);
            (v, Script::Python { gui, body })
        }
        _ => {
            let mut v = g.pick::<[u8]>(&[b"", b"#!/bin/sh\n", b"#!pytho", b"#", b"#!/usr/bin/python\n", b" #!python\n", b"\x7fELF", b"#!Python\n", b"\n#!python\n", b"#! python\n"]).to_vec();
            if !v.is_empty() || g.bool() {
                v.extend(&body);
            }
            if v.starts_with(b"#!python") {
                v.insert(0, b'\n');
            }
            (v, Script::Other)
        }
    }
}

pub fn model(g: &mut G) -> Model {
    let name = gen::name(g, false);
    let respelled = gen::respell(g, &name).replace('-', "_");
    let (version, v2) = versions(g);
    let dist_info = format!("{}-{}.dist-info", if g.bool() { &name } else { &respelled }, if g.bool() { &version } else { &v2 });
    let data = if g.bool() { format!("{}.data", dist_info.strip_suffix(".dist-info").unwrap()) } else { format!("{respelled}-{v2}.data") };
    let filename = format!("{name}-{version}-py3-none-any.whl");
    let purelib = g.bool();
    let mut members = vec![];
    let mut scripts = BTreeMap::new();
    let mut n = 0;
    let mut dirs = BTreeSet::new();
    for _ in 0..g.range(0, 8) {
        n += 1;
        let near = match g.below(6) {
            // close to, but not, the names with a meaning
            0 => format!("{data}.d/scripts/"),
            1 => format!("{data}x/data/"),
            2 => format!("pkg/{data}/scripts/"),
            3 => format!("{dist_info}.old/"),
            4 => format!("pkg/{dist_info}/"),
            _ => format!("{dist_info}/licenses/"),
        };
        let dir = if g.chance(1, 5) { near.as_str() } else { g.pick(&["", "pkg/", "pkg/sub/", "other/", "pkg/data.d/", "scripts/", "purelib/", "data/"]) };
        let leaf = g.pick(&["mod.py", "__init__.py", "x", "lib.so", "WHEEL", "entry_points.txt", "\u{e9}.txt", "INSTALLER"]);
        let exec = g.chance(1, 4);
        match g.weighted(&[5, 3, 3]) {
            0 => {
                let data = g.blob(0, 60);
                members.push(Member { name: format!("{dir}n{n}{leaf}").into_bytes(), kind: Kind::File { data, exec } });
            }
            1 => {
                let s = g.pick(&["purelib", "platlib", "data", "headers"]);
                let body = g.pick::<[u8]>(&[b"", b"content", b"#!python\nnot a script\n", b"#!pythonw\n"]).to_vec();
                members.push(Member { name: format!("{data}/{s}/{dir}n{n}{leaf}").into_bytes(), kind: Kind::File { data: body, exec } });
            }
            _ => {
                let (body, s) = script(g);
                let name = format!("{data}/scripts/{}s{n}{}", if g.chance(1, 6) { "sub/" } else { "" }, g.pick(&["", ".py", ".sh"]));
                scripts.insert(name.clone(), s);
                members.push(Member { name: name.into_bytes(), kind: Kind::File { data: body, exec } });
            }
        }
    }
    if g.bool() {
        for m in &members {
            let s = String::from_utf8(m.name.clone()).unwrap();
            for (i, _) in s.match_indices('/') {
                if g.bool() {
                    dirs.insert(format!("{}/", &s[..i]));
                }
            }
        }
        if g.chance(1, 3) {
            dirs.insert(format!("emptydir{n}/"));
        }
        if g.chance(1, 4) {
            dirs.insert(format!("{dist_info}/"));
        }
        if g.chance(1, 4) {
            dirs.insert(format!("{data}/{}/", g.pick(SCHEMES)));
            dirs.insert(format!("{data}/"));
        }
    }
    for d in dirs {
        members.push(Member { name: d.into_bytes(), kind: Kind::Dir });
    }
    // entry points
    let mut eps = vec![];
    let mut text = String::new();
    let with_eps = g.chance(2, 3);
    if with_eps {
        if g.chance(1, 3) {
            text += "# comment\n\n[other.group]\nplugin = some.module\nzz = a.b:c [x]\n";
        }
        for gui in [false, true] {
            let k = g.range(0, 2);
            if k == 0 {
                continue;
            }
            text += if gui { "[gui_scripts]\n" } else { "[console_scripts]\n" };
            for _ in 0..k {
                n += 1;
                let e = Ep {
                    name: format!("e{n}{}", g.pick(&["", "-x", ".y", "_z", "3.10"])),
                    gui,
                    module: format!("epmod{n}{}", g.pick(&["", ".inner", "._a.b2"])),
                    object: g.pick(&["main", "f", "Cls.meth", "_a._b.c9"]).to_string(),
                };
                text += &match g.below(4) {
                    0 => format!("{}={}:{}\n", e.name, e.module, e.object),
                    1 => format!("{} = {} : {}\n", e.name, e.module, e.object),
                    2 => format!("  {} = {}:{} [extra1,extra2]\n", e.name, e.module, e.object),
                    _ => format!("{} = {}:{}\n\n; c\n", e.name, e.module, e.object),
                };
                eps.push(e);
            }
        }
    }
    let metadata = format!("Metadata-Version: 2.1\nName: {}\nVersion: {}\nSummary: x\n\nbody", if g.bool() { &name } else { &respelled }, if g.bool() { &version } else { &v2 }).into_bytes();
    let wheel = format!("Wheel-Version: {}\nGenerator: x\nRoot-Is-Purelib: {purelib}\nTag: py3-none-any\n", g.pick(&["1.0", "1.0", "1.1", "1.9"]));
    Model { filename, name, version, dist_info, data, purelib, members, scripts, eps, metadata, wheel, entry_points: if with_eps { Some(text) } else { None } }
}

impl Model {
    /// all members, the special ones too, in any order
    pub fn all(&self, g: &mut G) -> Vec<Member> {
        let mut ms = self.members.clone();
        ms.push(Member::file(&format!("{}/WHEEL", self.dist_info), self.wheel.as_bytes()));
        ms.push(Member::file(&format!("{}/METADATA", self.dist_info), &self.metadata));
        ms.push(Member::file(&format!("{}/RECORD", self.dist_info), b"x,,\n"));
        if let Some(e) = &self.entry_points {
            ms.push(Member::file(&format!("{}/entry_points.txt", self.dist_info), e.as_bytes()));
        }
        if g.bool() {
            g.shuffle(&mut ms);
        }
        ms
    }
}

fn paths(g: &mut G) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let lib = g.pick(&["lib/python3.10/site-packages", "Lib/site-packages", "x"]).to_string();
    m.insert("purelib".to_string(), lib.clone());
    m.insert("platlib".to_string(), if g.bool() { lib } else { "lib64/site".into() });
    m.insert("scripts".into(), g.pick(&["bin", "Scripts", "a/b"]).into());
    m.insert("data".into(), g.pick(&[".", "share"]).into());
    m.insert("headers".into(), "include/python3.10".into());
    m.insert("stdlib".into(), "lib/python3.10".into());
    m
}

fn nice(paths: &BTreeMap<String, String>) -> HashMap<String, NicePathBuf> {
    paths.iter().map(|(k, v)| (k.clone(), v.as_str().try_into().unwrap())).collect()
}

enum Want {
    Bytes(Vec<u8>),
    /// a launcher for this python code (None: generated)
    Launcher { gui: bool, body: Option<Vec<u8>>, windows: bool },
    Plain(Vec<u8>, bool),
    Dir,
}

fn join(base: &str, rest: &str) -> String {
    let base = if base == "." { "" } else { base };
    [base, rest].iter().filter(|s| !s.is_empty()).map(|s| s.trim_end_matches('/')).collect::<Vec<_>>().join("/")
}

fn expected(m: &Model, all: &[Member], paths: &BTreeMap<String, String>, plat: ScriptPlatform) -> BTreeMap<String, Want> {
    let root = &paths[if m.purelib { "purelib" } else { "platlib" }];
    let mut want = BTreeMap::new();
    let launch = |want: &mut BTreeMap<String, Want>, at: String, gui: bool, body: Option<Vec<u8>>| {
        if plat != ScriptPlatform::Windows {
            want.insert(at.clone(), Want::Launcher { gui, body: body.clone(), windows: false });
        }
        if plat != ScriptPlatform::Unix {
            want.insert(format!("{at}.exe"), Want::Launcher { gui, body, windows: true });
        }
    };
    for x in all {
        let s = std::str::from_utf8(&x.name).unwrap();
        let to = match s.strip_prefix(&format!("{}/", m.data)) {
            None => join(root, s),
            Some("") => continue,
            Some(rest) => {
                let (scheme, rest) = rest.split_once('/').unwrap();
                join(&paths[scheme], rest)
            }
        };
        match &x.kind {
            Kind::Dir => {
                want.insert(to, Want::Dir);
            }
            Kind::File { data, .. } => match m.scripts.get(s) {
                Some(Script::Python { gui, body }) => launch(&mut want, to, *gui, Some(body.clone())),
                Some(Script::Other) => {
                    want.insert(to, Want::Plain(data.clone(), true));
                }
                None => {
                    want.insert(to, Want::Bytes(data.clone()));
                }
            },
            _ => unreachable!(),
        }
    }
    for e in &m.eps {
        launch(&mut want, join(&paths["scripts"], &e.name), e.gui, None);
    }
    want.insert(join(root, &format!("{}/INSTALLER", m.dist_info)), Want::Plain(b"posy\n".to_vec(), false));
    for k in want.keys().cloned().collect::<Vec<_>>() {
        for (i, _) in k.match_indices('/') {
            want.entry(k[..i].to_string()).or_insert(Want::Dir);
        }
    }
    want.remove("");
    want
}

fn stub(gui: bool) -> &'static [u8] {
    static S: OnceLock<[Vec<u8>; 2]> = OnceLock::new();
    let s = S.get_or_init(|| {
        let d = "/repo/src/trampolines/windows-trampolines";
        [std::fs::read(format!("{d}/posy-trampoline-console.exe")).unwrap(), std::fs::read(format!("{d}/posy-trampoline-gui.exe")).unwrap()]
    });
    &s[gui as usize]
}

fn zip_main(data: &[u8]) -> Result<Vec<u8>, String> {
    let mut z = zip::ZipArchive::new(Cursor::new(data)).map_err(|e| e.to_string())?;
    if z.len() != 1 {
        return Err(format!("{} members", z.len()));
    }
    let mut v = vec![];
    std::io::copy(&mut z.by_name("__main__.py").map_err(|e| e.to_string())?, &mut v).map_err(|e| e.to_string())?;
    Ok(v)
}

fn compare(want: &BTreeMap<String, Want>, got: &Tree) -> R {
    for (k, w) in want {
        let Some(n) = got.get(k) else { return fail(format!("{k:?} is missing")) };
        let bad = |what: &str| fail(format!("{k:?} is {}, expected {what}", n.show()));
        match (w, n) {
            (Want::Dir, Node::Dir) => (),
            (Want::Dir, _) => return bad("a directory"),
            (Want::Bytes(b), Node::File { data, .. }) if b == data => (),
            (Want::Bytes(_), _) => return bad("the archive's bytes"),
            (Want::Plain(b, x), Node::File { data, exec }) if b == data && x == exec => (),
            (Want::Plain(b, x), _) => return bad(&format!("{} bytes {:?}, executable: {x}", b.len(), String::from_utf8_lossy(&b[..b.len().min(30)]))),
            (Want::Launcher { gui, body, windows: false }, Node::File { data, exec: true }) => {
                if !data.starts_with(b"#!/") {
                    return bad("a launcher");
                }
                if let Some(b) = body {
                    if !data.ends_with(b) {
                        return bad("a launcher ending in the script's code");
                    }
                    // nothing of the #!python line is left in
                    let head = String::from_utf8_lossy(&data[..data.len() - b.len()]).to_string();
                    ensure!(!head.contains("#!python"), "{k:?}: the launcher still has the placeholder line: {head:?}");
                }
                let _ = gui;
            }
            (Want::Launcher { gui, body, windows: true }, Node::File { data, exec: true }) => {
                if !data.starts_with(stub(*gui)) || data.starts_with(stub(!*gui)) {
                    return bad(&format!("the windows {} launcher", if *gui { "gui" } else { "console" }));
                }
                match (zip_main(&data[stub(*gui).len()..]), body) {
                    (Err(e), _) => return fail(format!("{k:?}: bad zip behind the launcher: {e}")),
                    (Ok(m), Some(b)) if m != *b => return fail(format!("{k:?}: __main__.py is {:?}", String::from_utf8_lossy(&m))),
                    _ => (),
                }
            }
            (Want::Launcher { .. }, _) => return bad("an executable launcher"),
        }
    }
    for (k, n) in got {
        ensure!(want.contains_key(k), "{k:?} ({}) appeared from nowhere", n.show());
    }
    Ok(())
}

fn open(filename: &str, f: impl std::io::Read + std::io::Seek + Send + 'static) -> Result<Wheel, eyre::Report> {
    Wheel::new(WheelName::try_from(filename)?, Box::new(f))
}

fn describe(m: &Model, all: &[Member]) -> String {
    format!("{} {} | {:?} | {:?} | {}", m.filename, m.dist_info, m.wheel, m.entry_points, show(all))
}

fn install(g: &mut G) -> R {
    let m = model(g);
    let all = m.all(g);
    let paths = paths(g);
    let plat = *g.choose(&[ScriptPlatform::Unix, ScriptPlatform::Unix, ScriptPlatform::Both, ScriptPlatform::Windows]);
    g.note(format!("{} | {paths:?} {plat:?}", describe(&m, &all)));
    g.nontrivial = !m.eps.is_empty() || m.members.iter().any(|x| x.name.starts_with(m.data.as_bytes()));
    let st = zip_style(g, all.len());
    let body = zip(&all, &st);
    let src = Chunky::new(g, body);
    let dir = scratch();
    let w = match open(&m.filename, src) {
        Ok(w) => w,
        Err(e) => return fail(format!("refused: {e:#}")),
    };
    match w.metadata() {
        Err(e) => return fail(format!("metadata refused: {e:#}")),
        Ok((blob, md)) => {
            ensure!(blob == m.metadata, "metadata() gives {:?}", String::from_utf8_lossy(&blob));
            ensure!(md.name.normalized() == gen::normalize(&m.name), "metadata name is {}", md.name.as_given());
        }
    }
    if let Err(e) = w.unpack(&nice(&paths), &TrampolineMaker::new(FindPython::FromEnv, plat), WriteTreeFS::new(dir.path())) {
        return fail(format!("refused: {e:#}"));
    }
    let got = read_tree(dir.path()).unwrap();
    compare(&expected(&m, &all, &paths, plat), &got)
}

fn python() -> &'static str {
    static P: OnceLock<&'static str> = OnceLock::new();
    P.get_or_init(|| ["/usr/bin/python3", "/usr/local/bin/python3", "/opt/veriftools/pyvenv/bin/python3"].into_iter().find(|p| Path::new(p).exists()).expect("a python3"))
}

/// Launchers are started for real.
fn run(g: &mut G) -> R {
    let mut m = model(g);
    m.scripts.retain(|_, s| matches!(s, Script::Python { .. }));
    let keep = m.scripts.clone();
    let data = format!("{}/scripts/", m.data);
    m.members.retain(|x| {
        let n = String::from_utf8_lossy(&x.name).to_string();
        !n.starts_with(&data) || keep.contains_key(&n)
    });
    // scripts get a body that reports what it sees
    let tell = b"import sys, os\nassert __name__ == '__main__'\nprint(repr(sys.argv[1:]))\nsys.exit(7)\n";
    for x in &mut m.members {
        let n = String::from_utf8_lossy(&x.name).to_string();
        if let Some(Script::Python { gui, body }) = m.scripts.get_mut(&n) {
            *body = if g.bool() { tell.to_vec() } else { [&b"'''doc'''\nfrom __future__ import annotations\n"[..], tell].concat() };
            if body.starts_with(b"'''") && g.bool() {
                // the unix launcher's own text takes the place of the docstring
                *body = [&b"# -*- coding: utf-8 -*-\n"[..], tell].concat();
            } else if body.starts_with(b"'''") {
                *body = [&b"from __future__ import annotations\n"[..], tell].concat();
            }
            x.kind = Kind::File { data: [if *gui { &b"#!pythonw\n"[..] } else { b"#!python\n" }, body].concat(), exec: true };
        }
    }
    for (i, e) in m.eps.iter().enumerate() {
        let parts: Vec<&str> = e.module.split('.').collect();
        for k in 1..parts.len() {
            m.members.push(Member::file(&format!("{}/__init__.py", parts[..k].join("/")), b""));
        }
        let mut src = "import sys\n".to_string();
        let objs: Vec<&str> = e.object.split('.').collect();
        let mut indent = String::new();
        for c in &objs[..objs.len() - 1] {
            src += &format!("{indent}class {c}:\n");
            indent += " ";
        }
        if objs.len() > 1 {
            src += &format!("{indent}@staticmethod\n");
        }
        src += &format!("{indent}def {}():\n{indent} print(repr(sys.argv[1:]), __name__)\n{indent} return {}\n", objs[objs.len() - 1], i + 3);
        m.members.push(Member::file(&format!("{}.py", parts.join("/")), src.as_bytes()));
    }
    let all = m.all(g);
    let paths = paths(g);
    let plat = *g.choose(&[ScriptPlatform::Unix, ScriptPlatform::Both]);
    let args: Vec<String> = g.vec(0, 2, |g| g.pick(&["a", "", "b c", "'q\"", "$HOME", "*", "-x", "\u{e9}"]).to_string());
    let spaced = g.bool();
    g.note(format!("{args:?} {plat:?} {spaced} {}", describe(&m, &all)));
    let want = expected(&m, &all, &paths, plat);
    let launchers = want.iter().filter(|(_, w)| matches!(w, Want::Launcher { .. })).count();
    g.nontrivial = launchers > 0;
    let body = zip(&all, &zip_style(g, all.len()));
    let dir = scratch();
    let w = open(&m.filename, Cursor::new(body)).map_err(|e| ff(format!("refused: {e:#}")))?;
    if let Err(e) = w.unpack(&nice(&paths), &TrampolineMaker::new(FindPython::FromEnv, plat), WriteTreeFS::new(dir.path())) {
        return fail(format!("refused: {e:#}"));
    }
    let root = &paths[if m.purelib { "purelib" } else { "platlib" }];
    // (homes of users can have spaces and more in their names)
    let side = scratch();
    let mut py = std::path::PathBuf::from(python());
    if spaced {
        py = side.path().join("Jo * $HOME").join("python3");
        std::fs::create_dir(py.parent().unwrap()).and_then(|_| std::os::unix::fs::symlink(python(), &py)).expect("a symlink");
    }
    for (k, w) in &want {
        let Want::Launcher { gui, windows, .. } = w else { continue };
        let path = dir.path().join(k);
        let mut c = if *windows {
            // (python runs the zip at the end; the stub in front needs Windows)
            let mut c = std::process::Command::new(python());
            c.arg(&path);
            c
        } else {
            std::process::Command::new(&path)
        };
        c.args(&args).env_clear().env("PYTHONPATH", dir.path().join(root)).env("PYTHONUTF8", "1").env("PYTHONDONTWRITEBYTECODE", "1").current_dir("/");
        // the one it must not use doesn't exist
        let (right, wrong) = (py.as_os_str(), std::ffi::OsStr::new("/nonexistent/python"));
        c.env("POSY_PYTHON", if *gui { wrong } else { right });
        c.env("POSY_PYTHONW", if *gui { right } else { wrong });
        // (a file just written is "busy" while some other thread's fork still holds it open)
        let mut tries = 0;
        let o = loop {
            match c.output() {
                Err(e) if e.raw_os_error() == Some(libc::ETXTBSY) && tries < 400 => {
                    tries += 1;
                    std::thread::sleep(std::time::Duration::from_millis(5));
                }
                r => break r.map_err(|e| ff(format!("{k:?} can't be run: {e}")))?,
            }
        };
        g.evals += 1;
        let e = m.eps.iter().enumerate().find(|(_, e)| {
            let at = join(&paths["scripts"], &e.name);
            *k == at || (*windows && *k == format!("{at}.exe"))
        });
        let list = format!("[{}]", args.iter().map(|a| if a.contains('\'') { r#"'\'q"'"#.to_string() } else { format!("'{a}'") }).collect::<Vec<_>>().join(", "));
        let (out, code) = match e {
            Some((i, e)) => (format!("{list} {}\n", e.module), i as i32 + 3),
            None => (format!("{list}\n"), 7),
        };
        ensure!(
            o.status.code() == Some(code) && String::from_utf8_lossy(&o.stdout) == out,
            "{k:?} run with {args:?}: exit {:?} (expected {code}), output {:?} (expected {out:?}), {}",
            o.status.code(),
            String::from_utf8_lossy(&o.stdout),
            String::from_utf8_lossy(&o.stderr)
        );
    }
    Ok(())
}

/// One thing wrong: refused.
fn defects(g: &mut G) -> R {
    let mut m = model(g);
    // (unlike any other generated name or version)
    let other = "zz9";
    let wheel0 = m.wheel.clone();
    let mut drop: Vec<String> = vec![];
    let mut add: Vec<Member> = vec![];
    let di = m.dist_info.clone();
    let data = m.data.clone();
    let ver = di.strip_suffix(".dist-info").unwrap().rsplit_once('-').unwrap().1.to_string();
    let dname = di.split_once('-').unwrap().0.to_string();
    let mut unpack_only = false;
    let what = match g.below(22) {
        0 => {
            m.dist_info = "pkg".into();
            "no .dist-info"
        }
        1 => {
            drop.push(format!("{di}/WHEEL"));
            "no WHEEL"
        }
        2 => {
            drop.push(format!("{di}/METADATA"));
            "no METADATA"
        }
        3 => {
            let d = match g.below(3) {
                0 => format!("{other}-1.0.dist-info"),
                1 => format!("{dname}-{ver}.0.dist-info").replace(".dist-info.0", ".0"),
                _ => format!("{}-{ver}.dist-info", dname.clone() + "x"),
            };
            add.push(Member::file(&format!("{d}/{}", g.pick(&["METADATA", "WHEEL", "x"])), b"Metadata-Version: 2.1\nName: a\nVersion: 1.0\n"));
            "two .dist-infos"
        }
        4 => {
            m.dist_info = format!("{other}-{ver}.dist-info");
            ".dist-info of another project"
        }
        5 => {
            m.dist_info = format!("{dname}-9.9.9.dist-info");
            ".dist-info of another version"
        }
        6 => {
            m.metadata = format!("Metadata-Version: 2.1\nName: {other}\nVersion: {}\n", m.version).into_bytes();
            "METADATA of another project"
        }
        7 => {
            m.metadata = format!("Metadata-Version: 2.1\nName: {}\nVersion: {}\n", m.name, g.pick(&["9.9.9", "1.0.1", "1.0.post7"])).into_bytes();
            "METADATA of another version"
        }
        8 => {
            m.metadata = format!("Metadata-Version: 2.1\nVersion: {}\n", m.version).into_bytes();
            "METADATA without a name"
        }
        9 => {
            m.metadata = format!("Metadata-Version: 2.1\nName: {}\n", m.name).into_bytes();
            "METADATA without a version"
        }
        10 => {
            m.wheel = format!("Wheel-Version: {}\nRoot-Is-Purelib: true\n", g.pick(&["2.0", "0.1", "10.0", "2.1", "11.1", "x", "01.0", "v1.0"]));
            "unsupported Wheel-Version"
        }
        11 => {
            m.wheel = "Root-Is-Purelib: true\n".into();
            "no Wheel-Version"
        }
        12 => {
            m.wheel = "Wheel-Version: 1.0\nTag: py3-none-any\n".into();
            "no Root-Is-Purelib"
        }
        13 => {
            m.wheel = format!("Wheel-Version: 1.0\nRoot-Is-Purelib: {}\n", g.pick(&["maybe", "", "1", "truefalse", "tru"]));
            "bad Root-Is-Purelib"
        }
        14 => {
            m.wheel = format!("{wheel0}Wheel-Version: {}\n", g.pick(&["1.0", "2.0"]));
            "two Wheel-Versions"
        }
        15 => {
            m.wheel = format!("Root-Is-Purelib: false\n{wheel0}");
            "two Root-Is-Purelibs"
        }
        16 => {
            unpack_only = true;
            add.push(Member::file(&format!("{data}/{}/x", g.pick(&["unknown", "Purelib", "script", "..x", "SCRIPTS"])), b"x"));
            "unknown scheme"
        }
        17 => {
            unpack_only = true;
            add.push(Member::file(&format!("{data}/loose"), b"x"));
            "file outside any scheme"
        }
        18 => {
            let d = match g.below(3) {
                0 => format!("{other}-{ver}.data"),
                1 => format!("{dname}-9.9.9.data"),
                _ => format!("{dname}.data"),
            };
            m.members.retain(|x| !x.name.starts_with(data.as_bytes()));
            add.push(Member::file(&format!("{d}/scripts/x"), b"x"));
            ".data of something else"
        }
        19 => {
            add.push(Member::file(&format!("{data}/data/zzx"), b"x"));
            add.push(Member::file(&format!("{other}-{ver}.data/scripts/x"), b"x"));
            "two .data directories"
        }
        20 => {
            unpack_only = true;
            let t = m.entry_points.clone().unwrap_or("[console_scripts]\n".into());
            m.entry_points = Some(match g.below(3) {
                0 => format!("{t}this line is malformed\n"),
                1 => format!("name = mod:f\n{t}"),
                _ => format!("{t}x = 1mod:f\n"),
            });
            "malformed entry_points.txt"
        }
        _ => {
            unpack_only = true;
            add.push(Member { name: b"zzlink".to_vec(), kind: Kind::Symlink(b"pkg".to_vec()) });
            "symlink"
        }
    };
    g.label(what);
    g.nontrivial = true;
    let mut all = m.all(g);
    all.retain(|x| !drop.contains(&String::from_utf8_lossy(&x.name).to_string()));
    for a in add {
        let at = g.usize(all.len() + 1);
        all.insert(at, a);
    }
    if what == "no .dist-info" {
        all.retain(|x| !x.name.windows(9).any(|w| w == b"dist-info"));
    }
    g.note(format!("{what}: {} METADATA {:?}", describe(&m, &all), String::from_utf8_lossy(&m.metadata)));
    let body = zip(&all, &zip_style(g, all.len()));
    let dir = scratch();
    let w = match open(&m.filename, Cursor::new(body)) {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    if !unpack_only {
        ensure!(w.metadata().is_err(), "{what}, but its metadata is accepted");
    }
    let p = paths(g);
    let r = w.unpack(&nice(&p), &TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Unix), WriteTreeFS::new(dir.path()));
    ensure!(r.is_err(), "{what}, but it is installed");
    Ok(())
}

pub fn property() -> Property {
    #[allow(unused_mut)]
    let mut p = Property {
        id: "C10",
        level: "exploration",
        assumptions: &[
            "the .data schemes are those in the interpreter's path map; RECORD is not verified and executable bits of files other than scripts are not looked at",
            "no wheel declares two scripts of the same name or contains its own INSTALLER",
            "Windows launchers are not started, only their zip is",
        ],
        subs: vec![
            Sub { name: "install", rule: "wheels rendered from a model (spellings of name/version, purelib or platlib root, .data files of each scheme, scripts of each kind, entry points, directory entries, zip layouts, short reads) installed under random path maps; non-trivial: has .data files or entry points", quick: 20_000, thorough: 250_000, threads: 8, run: install },
            Sub { name: "run", rule: "the same with every launcher started (arguments, exit status, module and object called, console/gui interpreter); non-trivial: has a launcher", quick: 500, thorough: 8_000, threads: 8, run },
            Sub { name: "defects", rule: "a good wheel with one of 22 kinds of defect; always non-trivial", quick: 20_000, thorough: 200_000, threads: 8, run: defects },
        ],
    };
    #[cfg(feature = "c21")]
    p.subs.push(Sub { name: "installed", rule: "wheels installed into environments, as in C21; non-trivial as in C21", quick: 1_500, thorough: 50_000, threads: 16, run: super::c21::choice });
    p
}
