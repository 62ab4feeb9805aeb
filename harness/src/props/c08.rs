//! C08: unpacking never touches anything outside its destination.
//!
//! The real file system is used from threads that have given up root (see
//! `archive::unprivileged`), below a scratch directory deep enough for every '..' that is
//! generated. What an absolute path would do is seen by a stand-in that only records.
use crate::archive::*;
use crate::prop::*;
use posy::verif_hooks::{
    unpack_tar_gz_carefully, unpack_zip_carefully, Artifact, FindPython, NicePathBuf, NiceSymlinkPaths, Pybi, ScriptPlatform, Sdist,
    TrampolineMaker, Wheel, WriteTree, WriteTreeFS,
};
use std::collections::HashMap;
use std::io::{Cursor, Read};
use std::path::PathBuf;

const PIECES: &[&str] = &["a", "b", "d", "e", "a", "b", ".."];
const ODD: &[&str] = &["..", "..", "..", ".", "", "...", "C:", "c:\\x", "..\\..\\x", "a\\b", "\u{e9}", "x ", "x.", "a\0b", "~", "$HOME", "%2e%2e", "..;", ".. ", " ..", "\u{2025}", "..\u{0}", "／", "．．"];

/// A path as hostile archives spell them. At most 6 '..'s.
pub fn path(g: &mut G) -> Vec<u8> {
    let mut s: Vec<u8> = vec![];
    if g.chance(1, 10) {
        s.extend(g.pick(&["/", "//", "/tmp/", "./", "\\", "C:\\", "\\\\h\\s\\", "C:/", "/../"]).as_bytes());
    }
    for i in 0..g.range(1, 4) {
        if i > 0 {
            s.push(b'/');
            if g.chance(1, 12) {
                s.push(b'/');
            }
        }
        if g.chance(1, 8) {
            s.extend(g.pick(ODD).as_bytes());
        } else {
            s.extend(g.pick(PIECES).as_bytes());
        }
    }
    if g.chance(1, 8) {
        s.push(b'/');
    }
    if g.chance(1, 60) {
        s.push(*g.choose(&[0xff, 0xc0, 0x80, 0, b'\n', 0x7f]));
    }
    s
}

fn target(g: &mut G) -> Vec<u8> {
    match g.below(6) {
        0 => g.pick(&["..", "../..", ".", "../../..", "a/..", "b/../..", "", "/", "../a/../.."]).as_bytes().to_vec(),
        1 => {
            let mut s = "../".repeat(g.range(1, 4) as usize).into_bytes();
            s.extend(path(g));
            s
        }
        _ => path(g),
    }
}

/// Half of the time the names are distinct and harmless except for one or so, so that
/// unpacking doesn't stop at the first member.
pub fn members(g: &mut G, tar: bool) -> Vec<Member> {
    if !tar && g.chance(1, 3) {
        return linked(g);
    }
    let gentle = g.chance(3, 5);
    let mut n = 0;
    g.vec(1, 9, |g| {
        n += 1;
        let odd = !gentle || g.chance(1, 6);
        let mut name = if odd {
            path(g)
        } else {
            let parents = g.pick(&["", "a/", "b/", "a/b/", "d/a/", "d/../a/"]);
            format!("{parents}f{n}").into_bytes()
        };
        let kind = match g.weighted(&[6, 2, if tar && !odd { 0 } else if odd { 5 } else { 2 }, if tar && odd { 2 } else { 0 }, if odd { 1 } else { 0 }]) {
            0 => Kind::File { data: g.pick(&["", "x", "evil"]).as_bytes().to_vec(), exec: g.bool() },
            1 => {
                name.push(b'/');
                Kind::Dir
            }
            2 if odd => Kind::Symlink(target(g)),
            2 => {
                // within the destination, or just out of it
                let deep = lexical(&name).map(|v| v.len()).unwrap_or(1);
                let ups = g.range(0, deep as u64 + 1) as usize;
                Kind::Symlink(format!("{}{}", "../".repeat(ups), g.pick(&["", "a", "b", "f1", "f2", "a/f1", "f2/..", "a/../.."])).into_bytes())
            }
            3 => Kind::Hardlink(target(g)),
            _ => {
                if tar {
                    Kind::Special(*g.choose(b"3467SVMDNAx"), vec![])
                } else {
                    Kind::Special(*g.choose(&[1, 2, 6, 12, 10, 15, 5]), target(g))
                }
            }
        };
        Member { name, kind }
    })
}

/// A few symlinks, some below others' paths, and maybe files beyond them.
fn linked(g: &mut G) -> Vec<Member> {
    let mut ms: Vec<Member> = vec![];
    for _ in 0..g.range(2, 5) {
        let mut name = match ms.len() {
            n if n > 0 && g.bool() => {
                let m = &ms[g.usize(n)];
                format!("{}/{}", String::from_utf8_lossy(&m.name).trim_end_matches('/'), g.pick(&["a", "b", "c"]))
            }
            _ => g.pick(&["a", "b", "a/b", "b/a", "a/b/c"]).to_string(),
        };
        let kind = match g.weighted(&[5, 2, 1]) {
            0 => Kind::Symlink(g.pick(&[".", "..", "a", "b", "../..", "../b", "../a", "a/..", "../a/..", "c"]).as_bytes().to_vec()),
            1 => Kind::File { data: b"evil".to_vec(), exec: false },
            _ => {
                name.push('/');
                Kind::Dir
            }
        };
        ms.push(Member { name: name.into_bytes(), kind });
    }
    if g.bool() {
        g.shuffle(&mut ms);
    }
    if g.chance(1, 40) {
        // in a crowd
        let (n, at, files) = (g.range(10, 400), g.usize(ms.len() + 1), g.chance(1, 3));
        let crowd: Vec<Member> = (0..n)
            .map(|i| Member { name: format!("z{i}").into_bytes(), kind: if files { Kind::File { data: b"f".to_vec(), exec: false } } else { Kind::Symlink(b"f".to_vec()) } })
            .collect();
        ms.splice(at..at, crowd);
    }
    ms
}

fn hostile(ms: &[Member]) -> bool {
    ms.iter().any(|m| !matches!(m.kind, Kind::File { .. } | Kind::Dir) || m.name.starts_with(b"/") || m.name.split(|b| *b == b'/').any(|p| p == b".."))
}

// ---- the path types themselves ----

fn lexical(bytes: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut v: Vec<Vec<u8>> = vec![];
    if bytes.first() == Some(&b'/') {
        return None;
    }
    for p in bytes.split(|b| *b == b'/') {
        match p {
            b"" | b"." => (),
            b".." => {
                v.pop()?;
            }
            p => v.push(p.to_vec()),
        }
    }
    Some(v)
}

fn unportable(p: &[u8]) -> bool {
    std::str::from_utf8(p).is_err() || p.iter().any(|b| b"<>:\"/\\|?*\x7f".contains(b) || *b < 0x20) || p.ends_with(b".") || p.ends_with(b" ")
}

fn paths(g: &mut G) -> R {
    let src = path(g);
    let tgt = target(g);
    g.note(format!("{:?} -> {:?}", String::from_utf8_lossy(&src), String::from_utf8_lossy(&tgt)));
    let lex = lexical(&src);
    // (a piece that is cancelled by a later '..' may or may not be looked at)
    let clean = src.split(|b| *b == b'/').all(|p| p == b"." || p == b".." || !unportable(p));
    let parsed: Result<NicePathBuf, _> = src.as_slice().try_into();
    g.nontrivial = src.windows(2).any(|w| w == b"..") || src.starts_with(b"/");
    let p = match (parsed, &lex) {
        (Ok(_), None) => return fail(format!("path {:?} leaves its parent and is accepted", String::from_utf8_lossy(&src))),
        (Err(e), Some(_)) if clean => return fail(format!("portable relative path {:?} is refused: {e:#}", String::from_utf8_lossy(&src))),
        (Err(_), _) => {
            g.label("path refused");
            return Ok(());
        }
        (Ok(p), Some(l)) => {
            let got: Vec<Vec<u8>> = p.pieces().iter().map(|s| s.as_bytes().to_vec()).collect();
            ensure!(&got == l, "path {:?} is read as {:?}", String::from_utf8_lossy(&src), p.pieces());
            for x in &got {
                ensure!(!unportable(x) && !x.is_empty(), "path {:?} has the unportable piece {:?}", String::from_utf8_lossy(&src), String::from_utf8_lossy(x));
            }
            p
        }
    };
    let native = p.to_native();
    ensure!(native.is_relative() && native.components().all(|c| matches!(c, std::path::Component::Normal(_) | std::path::Component::CurDir)), "{p} as a native path is {native:?}");
    match NiceSymlinkPaths::new(&p, &tgt) {
        Err(_) => {
            g.label("link refused");
            // an ordinary link between neighbours is fine
            let mut from: Vec<u8> = p.pieces()[..p.len().saturating_sub(1)].join("/").into_bytes();
            from.push(b'/');
            from.extend(&tgt);
            let up = tgt.split(|b| *b == b'/').any(|x| x == b"..");
            let plain = p.len() > 0 && !up && !tgt.is_empty() && !tgt.starts_with(b"/") && tgt.split(|b| *b == b'/').all(|x| x == b"." || !unportable(x));
            ensure!(!plain, "ordinary symlink {p} -> {:?} is refused", String::from_utf8_lossy(&tgt));
        }
        Ok(l) => {
            g.label("link accepted");
            ensure!(p.len() > 0, "the destination itself is made a symlink");
            ensure!(l.source == p, "symlink at {p} is placed at {}", l.source);
            let mut tree = Tree::new();
            tree.insert(p.to_string(), Node::Symlink(l.target.clone()));
            if let Some(how) = escape(&tree, &p.to_string()) {
                return fail(format!("symlink {p} -> {:?} is accepted as {:?}: {how}", String::from_utf8_lossy(&tgt), l.target));
            }
        }
    }
    Ok(())
}

// ---- a stand-in for the file system that only records ----

#[derive(Default)]
struct Mem {
    tree: Tree,
    bad: Option<String>,
}

impl Mem {
    fn at(&mut self, what: &str, p: &NicePathBuf) -> Result<String, eyre::Report> {
        for x in p.pieces() {
            if x.is_empty() || x == "." || x == ".." || x.contains(['/', '\\', '\0']) {
                self.bad.get_or_insert(format!("{what} with path component {x:?}"));
            }
        }
        for i in 1..p.len() {
            let parent = p.pieces()[..i].join("/");
            match self.tree.get(&parent) {
                None => {
                    self.tree.insert(parent, Node::Dir);
                }
                Some(Node::Dir) => (),
                Some(Node::Symlink(_)) => {
                    if let Some(how) = escape(&self.tree, &parent) {
                        self.bad.get_or_insert(format!("{what} {p} goes through the symlink {parent}: {how}"));
                    }
                }
                Some(_) => return Err(eyre::eyre!("not a directory")),
            }
        }
        let s = p.pieces().join("/");
        match self.tree.get(&s) {
            Some(Node::Dir) if what == "mkdir" => (),
            Some(_) => return Err(eyre::eyre!("exists")),
            None => (),
        }
        if s.is_empty() && what != "mkdir" {
            return Err(eyre::eyre!("exists"));
        }
        Ok(s)
    }
}

impl WriteTree for Mem {
    fn mkdir(&mut self, p: &NicePathBuf) -> Result<(), eyre::Report> {
        let s = self.at("mkdir", p)?;
        if !s.is_empty() {
            self.tree.insert(s, Node::Dir);
        }
        Ok(())
    }
    fn write_file(&mut self, p: &NicePathBuf, data: &mut dyn Read, exec: bool) -> Result<(), eyre::Report> {
        let s = self.at("file", p)?;
        let mut d = vec![];
        data.read_to_end(&mut d)?;
        self.tree.insert(s, Node::File { data: d, exec });
        Ok(())
    }
    fn write_symlink(&mut self, l: &NiceSymlinkPaths) -> Result<(), eyre::Report> {
        let s = self.at("symlink", &l.source)?;
        self.tree.insert(s, Node::Symlink(l.target.clone()));
        Ok(())
    }
}

fn recorded(g: &mut G) -> R {
    let is_tar = g.chance(1, 3);
    let ms = members(g, is_tar);
    g.note(format!("{}: {}", if is_tar { "tar" } else { "zip" }, show(&ms)));
    g.nontrivial = hostile(&ms);
    let mut mem = Mem::default();
    let r = if is_tar {
        let f = *g.choose(&[TarFormat::Ustar, TarFormat::Gnu, TarFormat::Pax]);
        unpack_tar_gz_carefully(Cursor::new(gz(&tar(&ms, f, false), &[])), &mut mem)
    } else {
        let st = zip_style(g, ms.len());
        match zip::ZipArchive::new(Cursor::new(zip(&ms, &st))) {
            Ok(mut z) => unpack_zip_carefully(&mut z, &mut mem),
            Err(e) => Err(e.into()),
        }
    };
    g.label(if r.is_ok() { "unpacked" } else { "refused" });
    if let Some(b) = mem.bad {
        return fail(b);
    }
    check_links(g, &mem.tree)
}

fn check_links(g: &mut G, t: &Tree) -> R {
    let mut any = false;
    for (k, n) in t {
        match n {
            Node::Symlink(to) => {
                any = true;
                if let Some(how) = escape(t, k) {
                    return fail(format!("the symlink {k:?} -> {to:?} left behind leads out of the destination: {how}"));
                }
            }
            Node::Other(m) => return fail(format!("{k:?} is a special file (mode {m:o})")),
            _ => (),
        }
    }
    if any {
        g.label("symlinks made");
    }
    Ok(())
}

// ---- the real file system ----

/// Unpacks below a scratch directory, and looks at everything around the destination.
fn contained(g: &mut G, fill: impl FnOnce(PathBuf) -> Result<(), eyre::Report> + Send) -> Result<Tree, Fail> {
    let dir = scratch();
    let root = dir.path().to_path_buf();
    let mut dest = root.clone();
    // deeper than the '..'s generated
    for d in ["a", "b", "d", "e", "a", "b", "d", "e", "a", "dest"] {
        dest.push(d);
    }
    let (r, before, after, tree) = unprivileged_in(&root, || {
        std::fs::create_dir_all(&dest).unwrap();
        let mut at = root.clone();
        for d in dest.strip_prefix(&root).unwrap().components() {
            std::fs::write(at.join("decoy"), b"untouched").unwrap();
            std::os::unix::fs::symlink("decoy", at.join("x")).unwrap();
            at.push(d);
        }
        let before = fingerprint(&root, &dest).unwrap();
        let r = fill(dest.clone()).map_err(|e| format!("{e:#}"));
        let after = fingerprint(&root, &dest).unwrap();
        let tree = read_tree(&dest).unwrap();
        // a hard link would share its inode with a decoy, whose link count is fingerprinted
        (r, before, after, tree)
    });
    g.label(if r.is_ok() { "unpacked" } else { "refused" });
    for (k, v) in &before {
        ensure!(after.get(k) == Some(v), "{} outside the destination changed from {v:?} to {:?}", k.strip_prefix(&root).unwrap().display(), after.get(k));
    }
    for k in after.keys() {
        ensure!(before.contains_key(k), "{} appeared outside the destination", k.strip_prefix(&root).unwrap().display());
    }
    check_links(g, &tree)?;
    Ok(tree)
}

fn unprivileged_in<T: Send>(root: &std::path::Path, f: impl FnOnce() -> T + Send) -> T {
    give_away(root);
    unprivileged(f)
}

fn fs(g: &mut G) -> R {
    let is_tar = g.chance(1, 4);
    let ms = members(g, is_tar);
    g.note(format!("{}: {}", if is_tar { "tar" } else { "zip" }, show(&ms)));
    g.nontrivial = hostile(&ms);
    let how = g.below(3);
    let data = if is_tar {
        let f = *g.choose(&[TarFormat::Ustar, TarFormat::Gnu, TarFormat::Pax]);
        gz(&tar(&ms, f, false), &[])
    } else {
        let st = zip_style(g, ms.len());
        zip(&ms, &st)
    };
    contained(g, move |dest| match (is_tar, how) {
        (true, 0) => Sdist::new("a-1.0.tar.gz".parse_name(), Box::new(Cursor::new(data)))?.unpack(&mut WriteTreeFS::new(dest)),
        (true, _) => unpack_tar_gz_carefully(Cursor::new(data), WriteTreeFS::new(dest)),
        (false, 0) => Sdist::new("a-1.0.zip".parse_name(), Box::new(Cursor::new(data)))?.unpack(&mut WriteTreeFS::new(dest)),
        (false, 1) => Pybi::new("a-1.0-any.pybi".parse_name(), Box::new(Cursor::new(data)))?.unpack(&mut WriteTreeFS::new(dest)),
        (false, _) => unpack_zip_carefully(&mut zip::ZipArchive::new(Cursor::new(data))?, &mut WriteTreeFS::new(dest)),
    })?;
    Ok(())
}

trait ParseName {
    fn parse_name<T: for<'a> TryFrom<&'a str>>(&self) -> T;
}
impl ParseName for str {
    fn parse_name<T: for<'a> TryFrom<&'a str>>(&self) -> T {
        match T::try_from(self) {
            Ok(t) => t,
            Err(_) => panic!("can't parse {self}"),
        }
    }
}

fn wheel(g: &mut G) -> R {
    let mut ms = members(g, false);
    let info = if g.chance(1, 12) { g.pick(&["..-1.0.dist-info", "/a-1.0.dist-info"]) } else { "a-1.0.dist-info" }.to_string();
    let data = "a-1.0.data".to_string();
    for m in &mut ms {
        // put some of the hostile members where wheels have special meanings
        let pre = match g.below(4) {
            0 => continue,
            1 | 2 => format!("{data}/{}/", if g.chance(1, 10) { g.pick(&["..", ".", "a"]) } else { g.pick(&["scripts", "scripts", "data", "purelib", "platlib", "headers"]) }),
            _ => format!("{info}/"),
        };
        m.name = [pre.as_bytes(), &m.name].concat();
        if matches!(m.kind, Kind::Symlink(_)) && g.chance(9, 10) {
            m.kind = Kind::File { data: b"#!python\nevil".to_vec(), exec: true };
        }
        if matches!(m.kind, Kind::File { .. }) && g.bool() {
            m.kind = Kind::File { data: b"#!pythonw\nevil".to_vec(), exec: true };
        }
    }
    ms.push(Member::file(&format!("{info}/WHEEL"), b"Wheel-Version: 1.0\nRoot-Is-Purelib: true\n"));
    ms.push(Member::file(&format!("{info}/METADATA"), b"Metadata-Version: 2.1\nName: a\nVersion: 1.0\n"));
    if g.chance(2, 3) {
        let mut t = format!("[{}]\n", g.pick(&["console_scripts", "gui_scripts"]));
        for _ in 0..g.range(1, 3) {
            let name = if g.bool() { path(g) } else { g.string(b"abcdefgh", 3, 6).into_bytes() };
            t += &format!("{} = m:f\n", String::from_utf8_lossy(&name));
        }
        g.note(format!("entry points {t:?}"));
        ms.push(Member::file(&format!("{info}/entry_points.txt"), t.as_bytes()));
    }
    let mut paths: HashMap<String, NicePathBuf> = HashMap::new();
    for k in ["scripts", "data", "purelib", "platlib", "headers", "..", "."] {
        if k.starts_with('.') && g.chance(3, 4) {
            continue;
        }
        let p = path(g);
        let p: NicePathBuf = if g.bool() { p.as_slice().try_into() } else { "lib".try_into() }.unwrap_or_else(|_| "bin".try_into().unwrap());
        paths.insert(k.into(), p);
    }
    g.note(format!("{}; paths {paths:?}", show(&ms)));
    g.nontrivial = hostile(&ms);
    let st = zip_style(g, ms.len());
    let body = zip(&ms, &st);
    let plat = *g.choose(&[ScriptPlatform::Unix, ScriptPlatform::Unix, ScriptPlatform::Both]);
    contained(g, move |dest| {
        let w = Wheel::new("a-1.0-py3-none-any.whl".parse_name(), Box::new(Cursor::new(body)))?;
        w.unpack(&paths, &TrampolineMaker::new(FindPython::FromEnv, plat), WriteTreeFS::new(dest))
    })?;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C08",
        level: "exploration",
        assumptions: &["the destination is a directory of its own that nothing else writes to, as in the callers", "POSIX file system semantics (no Windows run)"],
        subs: vec![
            Sub { name: "paths", rule: "path and symlink-target bytes: dot-dots, absolute, empty and non-portable pieces, bad encodings; non-trivial: has '..' or is absolute", quick: 200_000, thorough: 3_000_000, threads: 8, run: paths },
            Sub { name: "recorded", rule: "hostile zips and tars unpacked into a stand-in that records and simulates symlinks; non-trivial: has a link, special file, '..' or absolute name", quick: 60_000, thorough: 800_000, threads: 8, run: recorded },
            Sub { name: "fs", rule: "hostile zips and tars (as sdist, pybi or bare) unpacked on a file system by an unprivileged thread, surroundings fingerprinted; non-trivial as above", quick: 40_000, thorough: 300_000, threads: 8, run: fs },
            Sub { name: "wheel", rule: "wheels with hostile members, entry-point names, .data schemes and path maps installed likewise; non-trivial as above", quick: 30_000, thorough: 200_000, threads: 8, run: wheel },
        ],
    }
}
