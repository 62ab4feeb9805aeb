//! C09: unpacking a well-formed archive reproduces its content exactly.
use crate::archive::*;
use crate::prop::*;
use posy::verif_hooks::{unpack_tar_gz_carefully, unpack_zip_carefully, Artifact, Pybi, PybiName, Sdist, SdistName, WriteTreeFS};
use std::collections::BTreeSet;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::path::Path;

const NAMES: &[&str] = &["a", "b", "c", "README", "x.py", "__init__.py", ".hidden", "with space", "\u{e9}\u{4e2d}", "UPPER", "a.b.c", "-dash", "..dots", "lib", "bin", "~"];

fn content(g: &mut G) -> Vec<u8> {
    match g.weighted(&[2, 6, 3, 1]) {
        0 => vec![],
        1 => g.blob(1, 40),
        2 => {
            let unit = g.blob(1, 12);
            let n = g.range(1, 3000) as usize;
            unit.iter().cycle().take(n).copied().collect()
        }
        _ => {
            // around the sizes of buffers and tar blocks
            let n = *g.choose(&[511usize, 512, 513, 1024, 8191, 8192, 8193, 65536, 70000, 300_000]);
            let mut r = Rng::new(g.below(1 << 20));
            (0..n).map(|_| r.next() as u8).collect()
        }
    }
}

fn parents(p: &str) -> Vec<String> {
    p.match_indices('/').map(|(i, _)| p[..i].to_string()).collect()
}

/// A tree: every parent of an entry is a directory of it.
pub fn tree(g: &mut G, links: bool, long: bool) -> Tree {
    let mut t = Tree::new();
    for _ in 0..g.range(1, 9) {
        let depth = g.range(1, 4);
        let mut p = String::new();
        for i in 0..depth {
            if i > 0 {
                p.push('/');
            }
            p += g.pick(NAMES);
            if long && g.chance(1, 12) {
                p += &"n".repeat(g.range(40, 120) as usize);
            }
        }
        if t.contains_key(&p) || parents(&p).iter().any(|d| !matches!(t.get(d), None | Some(Node::Dir))) {
            continue;
        }
        let node = match g.weighted(&[6, 2, if links { 2 } else { 0 }]) {
            0 => Node::File { data: content(g), exec: g.bool() },
            1 => Node::Dir,
            _ => {
                let up = g.range(0, depth - 1) as usize;
                let s = format!("{}{}", "../".repeat(up), g.pick(&["a", "b", "a/b", "README", "lib", "missing", "c/a/x.py", ".", "a/"]));
                Node::Symlink(s)
            }
        };
        for d in parents(&p) {
            t.insert(d, Node::Dir);
        }
        t.insert(p, node);
    }
    t
}

/// The same target, spelled the shortest way.
fn norm(t: &str) -> String {
    let v: Vec<&str> = t.split('/').filter(|p| !p.is_empty() && *p != ".").collect();
    if v.is_empty() { ".".into() } else { v.join("/") }
}

fn normal(t: Tree) -> Tree {
    t.into_iter()
        .map(|(k, n)| match n {
            Node::Symlink(t) => (k, Node::Symlink(norm(&t))),
            n => (k, n),
        })
        .collect()
}

fn spell(g: &mut G, p: &str, dir: bool) -> Vec<u8> {
    let mut s = match g.weighted(&[6, 2, 1, 1]) {
        0 => p.to_string(),
        1 => format!("./{p}"),
        2 => p.replacen('/', "//", 1),
        _ => p.replacen('/', "/./", 1),
    };
    if dir {
        s.push('/');
    }
    s.into_bytes()
}

/// One rendering of a tree: any order, directories listed or not, possibly more than once.
pub fn render(g: &mut G, t: &Tree, plain: bool) -> Vec<Member> {
    let mut ms = vec![];
    for (p, n) in t {
        let implied = t.keys().any(|k| k.starts_with(&format!("{p}/")));
        let times = match n {
            Node::Dir if implied => g.weighted(&[3, 4, if plain { 0 } else { 1 }]),
            Node::Dir => 1 + g.weighted(&[5, if plain { 0 } else { 1 }]),
            _ => 1,
        };
        for _ in 0..times {
            let name = if plain { format!("{p}{}", if *n == Node::Dir { "/" } else { "" }).into_bytes() } else { spell(g, p, *n == Node::Dir) };
            ms.push(Member {
                name,
                kind: match n {
                    Node::Dir => Kind::Dir,
                    Node::File { data, exec } => Kind::File { data: data.clone(), exec: *exec },
                    Node::Symlink(s) => Kind::Symlink(s.clone().into_bytes()),
                    Node::Other(_) => unreachable!(),
                },
            });
        }
    }
    if !plain && g.chance(1, 4) {
        ms.push(Member { name: b"./".to_vec(), kind: Kind::Dir });
    }
    match g.below(3) {
        0 => (),
        1 => ms.reverse(),
        _ => g.shuffle(&mut ms),
    }
    ms
}

fn nontrivial(t: &Tree, ms: &[Member]) -> bool {
    t.len() > 1 && (ms.iter().any(|m| m.kind == Kind::Dir) || t.values().any(|n| matches!(n, Node::Symlink(_) | Node::File { exec: true, .. })))
}

fn check(want: Tree, dest: &Path, r: Result<(), eyre::Report>) -> R {
    if let Err(e) = r {
        return fail(format!("refused: {e:#}"));
    }
    let got = read_tree(dest).map_err(|e| ff(format!("can't read the result: {e}")))?;
    match diff(&normal(want), &normal(got)) {
        Some(d) => fail(d),
        None => Ok(()),
    }
}

/// `data` through one of the readers an artifact may come from.
fn source(g: &mut G, data: Vec<u8>) -> Box<Source> {
    Box::new(match g.below(3) {
        0 => Source::Mem(Cursor::new(data)),
        1 => Source::Slow(Chunky::new(g, data)),
        _ => {
            g.label("from a file");
            let mut f = tempfile::tempfile_in("/dev/shm").or_else(|_| tempfile::tempfile()).unwrap();
            f.write_all(&data).unwrap();
            std::io::Seek::rewind(&mut f).unwrap();
            Source::Disk(f)
        }
    })
}

pub enum Source {
    Mem(Cursor<Vec<u8>>),
    Slow(Chunky),
    Disk(std::fs::File),
}

impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self {
            Source::Mem(x) => x.read(b),
            Source::Slow(x) => x.read(b),
            Source::Disk(x) => x.read(b),
        }
    }
}
impl Seek for Source {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        match self {
            Source::Mem(x) => x.seek(p),
            Source::Slow(x) => x.seek(p),
            Source::Disk(x) => x.seek(p),
        }
    }
}

pub fn unpack_zip(g: &mut G, data: Vec<u8>, dest: &Path) -> Result<(), eyre::Report> {
    let how = g.below(3);
    let f = source(g, data);
    let mut w = WriteTreeFS::new(dest);
    match how {
        0 => Sdist::new(SdistName::try_from("a-1.0.zip")?, f)?.unpack(&mut w),
        1 => Pybi::new(PybiName::try_from("a-1.0-any.pybi")?, f)?.unpack(&mut w),
        _ => unpack_zip_carefully(&mut zip::ZipArchive::new(f)?, &mut w),
    }
}

pub fn unpack_tar(g: &mut G, data: Vec<u8>, dest: &Path) -> Result<(), eyre::Report> {
    let how = g.bool();
    let f = source(g, data);
    if how {
        unpack_tar_gz_carefully(f, WriteTreeFS::new(dest))
    } else {
        Sdist::new(SdistName::try_from("a-1.0.tar.gz")?, f)?.unpack(&mut WriteTreeFS::new(dest))
    }
}

fn zips(g: &mut G) -> R {
    let t = tree(g, true, false);
    let ms = render(g, &t, false);
    let st = zip_style(g, ms.len());
    g.note(format!("{} | {st:?}", show(&ms)));
    g.nontrivial = nontrivial(&t, &ms);
    let dir = scratch();
    let dest = dir.path().join("d");
    std::fs::create_dir(&dest).unwrap();
    let r = unpack_zip(g, zip(&ms, &st), &dest);
    check(t, &dest, r)
}

/// As other programs write them: every compression method the zip crate can make.
fn made_by_zip_crate(g: &mut G) -> R {
    use zip::write::FileOptions;
    let t = tree(g, true, false);
    let ms = render(g, &t, true);
    g.note(show(&ms));
    g.nontrivial = nontrivial(&t, &ms);
    let mut z = zip::ZipWriter::new(Cursor::new(vec![]));
    for m in &ms {
        let name = std::str::from_utf8(&m.name).unwrap();
        let o = FileOptions::default()
            .compression_method(*g.choose(&[zip::CompressionMethod::Stored, zip::CompressionMethod::Deflated, zip::CompressionMethod::Bzip2, zip::CompressionMethod::Zstd]))
            .large_file(g.chance(1, 3));
        match &m.kind {
            Kind::File { data, exec } => {
                z.start_file(name, o.unix_permissions(if *exec { *g.choose(&[0o755, 0o700, 0o775, 0o711]) } else { *g.choose(&[0o644, 0o600, 0o444, 0o664]) })).unwrap();
                z.write_all(data).unwrap();
            }
            Kind::Dir => z.add_directory(name, o.unix_permissions(0o755)).unwrap(),
            Kind::Symlink(t) => z.add_symlink(name, std::str::from_utf8(t).unwrap(), o).unwrap(),
            _ => unreachable!(),
        }
    }
    let data = z.finish().unwrap().into_inner();
    let dir = scratch();
    let dest = dir.path().join("d");
    std::fs::create_dir(&dest).unwrap();
    let r = unpack_zip(g, data, &dest);
    check(t, &dest, r)
}

fn tars(g: &mut G) -> R {
    let t = tree(g, false, true);
    let ms = render(g, &t, false);
    let mut f = *g.choose(&[TarFormat::Ustar, TarFormat::Gnu, TarFormat::Pax, TarFormat::V7]);
    if f == TarFormat::V7 && ms.iter().any(|m| m.name.len() > 100) {
        f = TarFormat::Gnu;
    }
    let global = f == TarFormat::Pax && g.bool();
    g.note(format!("{f:?}: {}", show(&ms)));
    g.nontrivial = nontrivial(&t, &ms);
    if ms.iter().any(|m| m.name.len() > 100) {
        g.label("long names");
    }
    let raw = tar(&ms, f, global);
    let cuts = if g.chance(1, 4) { g.vec(1, 3, |g| g.usize(raw.len())) } else { vec![] };
    let dir = scratch();
    let dest = dir.path().join("d");
    std::fs::create_dir(&dest).unwrap();
    let r = unpack_tar(g, gz(&raw, &cuts), &dest);
    check(t, &dest, r)
}

/// Entries of kinds posy doesn't support are refused, not left out.
fn unsupported(g: &mut G) -> R {
    let t = tree(g, false, false);
    let mut ms = render(g, &t, true);
    let kind = match g.below(7) {
        0 => Kind::Symlink(b"a".to_vec()),
        1 => Kind::Hardlink(ms[0].name.clone()),
        n => Kind::Special(b"346S"[(n - 2) as usize % 4], if n == 5 { content(g) } else { vec![] }),
    };
    let at = g.usize(ms.len() + 1);
    ms.insert(at, Member { name: b"zzz/unsupported".to_vec(), kind });
    let f = *g.choose(&[TarFormat::Gnu, TarFormat::Pax]);
    g.note(format!("{f:?}: {}", show(&ms)));
    g.nontrivial = true;
    let dir = scratch();
    let dest = dir.path().join("d");
    std::fs::create_dir(&dest).unwrap();
    if unpack_tar(g, gz(&tar(&ms, f, false), &[]), &dest).is_ok() {
        let names: BTreeSet<String> = read_tree(&dest).unwrap().into_keys().collect();
        return fail(format!("accepted, leaving {names:?}"));
    }
    Ok(())
}

/// Members that can't all be as the archive says are refused, not left out.
fn contradictions(g: &mut G) -> R {
    let is_tar = g.bool();
    let t = tree(g, !is_tar, false);
    let mut ms = render(g, &t, true);
    let at = g.usize(ms.len());
    let (name, is_dir) = match std::str::from_utf8(&ms[at].name).unwrap() {
        s if s.ends_with('/') => (s[..s.len() - 1].to_string(), true),
        s => (s.to_string(), false),
    };
    let file = |g: &mut G| Kind::File { data: content(g), exec: g.bool() };
    let other = match g.below(if is_dir { 1 } else { 3 }) {
        // a directory that's also a file; a file again
        0 => Member { kind: file(g), name: spell(g, &name, false) },
        1 => Member { kind: Kind::Dir, name: spell(g, &name, true) },
        _ => {
            // a file with files in it
            if let Kind::Symlink(_) = ms[at].kind {
                // (that could be, C08 is about it)
                ms[at].kind = file(g);
            }
            Member { kind: file(g), name: format!("{name}/{}", g.pick(NAMES)).into_bytes() }
        }
    };
    if other.kind == Kind::Dir && matches!(ms[at].kind, Kind::Symlink(_)) {
        ms[at].kind = file(g);
    }
    let to = g.usize(ms.len() + 1);
    ms.insert(to, other);
    g.note(format!("{}{}", if is_tar { "tar: " } else { "zip: " }, show(&ms)));
    g.nontrivial = true;
    let dir = scratch();
    let dest = dir.path().join("d");
    std::fs::create_dir(&dest).unwrap();
    let data = if is_tar { gz(&tar(&ms, *g.choose(&[TarFormat::Ustar, TarFormat::Gnu, TarFormat::Pax]), false), &[]) } else { zip(&ms, &zip_style(g, ms.len())) };
    let r = if is_tar { unpack_tar(g, data, &dest) } else { unpack_zip(g, data, &dest) };
    if r.is_ok() {
        let names: BTreeSet<String> = read_tree(&dest).unwrap().into_keys().collect();
        return fail(format!("accepted, leaving {names:?}"));
    }
    Ok(())
}

/// Damage anywhere is an error or harmless: never other content under the same names.
fn damaged(g: &mut G) -> R {
    let is_tar = g.bool();
    let t = tree(g, false, false);
    let ms = render(g, &t, true);
    let mut data = if is_tar { gz(&tar(&ms, TarFormat::Gnu, false), &[]) } else { zip(&ms, &zip_style(g, ms.len())) };
    let at = g.usize(data.len());
    // (a tar.gz has no checksum that is looked at before its content is written)
    let how = if is_tar || g.chance(1, 3) {
        data.truncate(at);
        format!("cut at {at}")
    } else {
        let bit = 1u8 << g.below(8);
        data[at] ^= bit;
        format!("bit {bit} of byte {at} flipped")
    };
    g.note(format!("{} {how}: {}", if is_tar { "tar" } else { "zip" }, show(&ms)));
    g.nontrivial = true;
    let dir = scratch();
    let dest = dir.path().join("d");
    std::fs::create_dir(&dest).unwrap();
    let r = if is_tar { unpack_tar(g, data, &dest) } else { unpack_zip(g, data, &dest) };
    if r.is_err() {
        g.label("refused");
        return Ok(());
    }
    g.label("harmless");
    let got = read_tree(&dest).unwrap();
    for (k, n) in &t {
        if let (Node::File { data: a, .. }, Some(Node::File { data: b, .. })) = (n, got.get(k)) {
            ensure!(a == b, "{k:?} has other content ({} bytes, expected {})", b.len(), a.len());
        }
    }
    Ok(())
}

pub fn property() -> Property {
    #[allow(unused_mut)]
    let mut p = Property {
        id: "C09",
        level: "exploration",
        assumptions: &["portable names only (posy refuses others), no two members with the same path except directories", "no encrypted or split archives"],
        subs: vec![
            Sub { name: "zips", rule: "zips rendered byte by byte from a model tree: any order, directories listed, implied, late or repeated, './' prefixes, stored/deflated, data descriptors, DOS or unix attributes, leading junk; short reads; non-trivial: several entries, with a directory entry, link or executable", quick: 40_000, thorough: 400_000, threads: 8, run: zips },
            Sub { name: "zip-crate", rule: "zips written by the zip crate with every compression method and zip64; non-trivial as above", quick: 4_000, thorough: 60_000, threads: 8, run: made_by_zip_crate },
            Sub { name: "tars", rule: "tar.gz rendered byte by byte (v7, ustar, gnu, pax; long names; several gzip members); non-trivial as above", quick: 40_000, thorough: 400_000, threads: 8, run: tars },
            Sub { name: "contradictions", rule: "archives with a member twice, or as a file and as a directory, or with members inside of a file; non-trivial: all", quick: 20_000, thorough: 200_000, threads: 8, run: contradictions },
            Sub { name: "unsupported", rule: "a tar with one link, device, fifo or sparse entry among others is refused; always non-trivial", quick: 2_000, thorough: 20_000, threads: 8, run: unsupported },
            Sub { name: "damaged", rule: "a zip with one bit flipped, or a zip or tar.gz with the end cut off: an error, or the same contents; always non-trivial", quick: 8_000, thorough: 100_000, threads: 8, run: damaged },
        ],
    };
    #[cfg(feature = "c21")]
    p.subs.push(Sub { name: "installed", rule: "wheels and pybis from a server or the cache, unpacked into environments as in C21; non-trivial as in C21", quick: 1_000, thorough: 50_000, threads: 16, run: super::c21::histories });
    p
}
