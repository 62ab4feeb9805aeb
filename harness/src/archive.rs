//! Archives built byte by byte, so that hostile and unusual ones can be made as well as
//! ordinary ones; model trees; and what a directory really contains.
use crate::prop::*;
use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    File { data: Vec<u8>, exec: bool },
    Dir,
    Symlink(Vec<u8>),
    /// tar only
    Hardlink(Vec<u8>),
    /// tar type byte / unix mode type bits in a zip, with data
    Special(u8, Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Member {
    pub name: Vec<u8>,
    pub kind: Kind,
}

impl Member {
    pub fn file(name: &str, data: &[u8]) -> Member {
        Member { name: name.into(), kind: Kind::File { data: data.to_vec(), exec: false } }
    }
    pub fn show(&self) -> String {
        let n = String::from_utf8_lossy(&self.name);
        match &self.kind {
            Kind::File { data, exec } => format!("{n:?}{} ({} bytes)", if *exec { "*" } else { "" }, data.len()),
            Kind::Dir => format!("{n:?} dir"),
            Kind::Symlink(t) => format!("{n:?} -> {:?}", String::from_utf8_lossy(t)),
            Kind::Hardlink(t) => format!("{n:?} => {:?}", String::from_utf8_lossy(t)),
            Kind::Special(t, _) => format!("{n:?} type {:?}", *t as char),
        }
    }
}

pub fn show(ms: &[Member]) -> String {
    ms.iter().map(|m| m.show()).collect::<Vec<_>>().join(", ")
}

fn crc32(data: &[u8]) -> u32 {
    let mut c = flate2::Crc::new();
    c.update(data);
    c.sum()
}

/// How the zip is laid out; all default to the plainest.
#[derive(Clone, Debug, Default)]
pub struct ZipStyle {
    pub deflate: Vec<bool>,
    /// members whose attributes are DOS ones (no mode recorded)
    pub dos: Vec<bool>,
    pub descriptors: bool,
    pub prefix: Vec<u8>,
    pub comment: Vec<u8>,
    pub extra: bool,
    /// central directory in another order than the data
    pub reorder: Vec<usize>,
    /// whether directory members get their mode bits (else only the trailing slash)
    pub dir_mode: bool,
}

pub fn zip_style(g: &mut G, n: usize) -> ZipStyle {
    let mut reorder: Vec<usize> = (0..n).collect();
    if g.chance(1, 4) {
        g.shuffle(&mut reorder);
    }
    ZipStyle {
        deflate: (0..n).map(|_| g.bool()).collect(),
        dos: (0..n).map(|_| g.chance(1, 5)).collect(),
        descriptors: g.chance(1, 4),
        prefix: if g.chance(1, 6) { g.blob(1, 40) } else { vec![] },
        comment: if g.chance(1, 6) { b"a comment".to_vec() } else { vec![] },
        extra: g.chance(1, 4),
        reorder,
        dir_mode: g.bool(),
    }
}

pub fn zip(ms: &[Member], st: &ZipStyle) -> Vec<u8> {
    let mut out = st.prefix.clone();
    let mut central: Vec<Vec<u8>> = vec![vec![]; ms.len()];
    let order: Vec<usize> = if st.reorder.len() == ms.len() { st.reorder.clone() } else { (0..ms.len()).collect() };
    for &i in &order {
        let m = &ms[i];
        let dos = st.dos.get(i).copied().unwrap_or(false);
        let (data, mode, dos_ok): (&[u8], u32, bool) = match &m.kind {
            Kind::File { data, exec } => (data, 0o100000 | if *exec { 0o755 } else { 0o644 }, !*exec),
            Kind::Dir => (b"", if st.dir_mode { 0o040755 } else { 0o755 }, true),
            Kind::Symlink(t) => (t, 0o120777, false),
            Kind::Hardlink(t) => (t, 0o100644, true),
            Kind::Special(t, d) => (d, (*t as u32) << 12 | 0o644, false),
        };
        let deflate = st.deflate.get(i).copied().unwrap_or(false) && !data.is_empty();
        let body = if deflate {
            let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::default());
            e.write_all(data).unwrap();
            e.finish().unwrap()
        } else {
            data.to_vec()
        };
        // (stored members keep their sizes in the local header)
        let desc = st.descriptors && deflate;
        let crc = crc32(data);
        let utf8 = std::str::from_utf8(&m.name).is_ok();
        let flags: u16 = if desc { 8 } else { 0 } | if utf8 { 0x800 } else { 0 };
        let offset = (out.len() - st.prefix.len()) as u32;
        let extra: &[u8] = if st.extra { b"\x99\x99\x04\x00abcd" } else { b"" };
        let mut common = vec![];
        common.extend(20u16.to_le_bytes()); // version needed
        common.extend(flags.to_le_bytes());
        common.extend((if deflate { 8u16 } else { 0 }).to_le_bytes());
        common.extend([0, 0, 0x21, 0x58]); // time, date
        let sizes = |zero: bool| {
            let mut v = vec![];
            v.extend((if zero { 0 } else { crc }).to_le_bytes());
            v.extend((if zero { 0 } else { body.len() as u32 }).to_le_bytes());
            v.extend((if zero { 0 } else { data.len() as u32 }).to_le_bytes());
            v
        };
        let lens = |e: usize| {
            let mut v = vec![];
            v.extend((m.name.len() as u16).to_le_bytes());
            v.extend((e as u16).to_le_bytes());
            v
        };
        out.extend(b"PK\x03\x04");
        out.extend(&common);
        out.extend(sizes(desc));
        out.extend(lens(extra.len()));
        out.extend(&m.name);
        out.extend(extra);
        out.extend(&body);
        if desc {
            out.extend(b"PK\x07\x08");
            out.extend(sizes(false));
        }
        let c = &mut central[i];
        c.extend(b"PK\x01\x02");
        let use_dos = dos && dos_ok;
        c.extend([20u8, if use_dos { 0 } else { 3 }]);
        c.extend(&common);
        c.extend(sizes(false));
        c.extend(lens(extra.len()));
        c.extend([0u8; 2]); // comment
        c.extend([0u8; 2]); // disk
        c.extend([0u8; 2]); // internal attributes
        let dosattr = if m.kind == Kind::Dir { 0x10u32 } else { 0 };
        c.extend((if use_dos { dosattr } else { mode << 16 | dosattr }).to_le_bytes());
        c.extend(offset.to_le_bytes());
        c.extend(&m.name);
        c.extend(extra);
    }
    let start = (out.len() - st.prefix.len()) as u32;
    let mut size = 0u32;
    for c in &central {
        out.extend(c);
        size += c.len() as u32;
    }
    out.extend(b"PK\x05\x06\0\0\0\0");
    out.extend((ms.len() as u16).to_le_bytes());
    out.extend((ms.len() as u16).to_le_bytes());
    out.extend(size.to_le_bytes());
    out.extend(start.to_le_bytes());
    out.extend((st.comment.len() as u16).to_le_bytes());
    out.extend(&st.comment);
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TarFormat {
    /// no magic, no type for files, directories are names with a trailing slash
    V7,
    Ustar,
    Gnu,
    Pax,
}

fn octal(buf: &mut [u8], v: u64) {
    let n = buf.len();
    let s = format!("{:0w$o}", v, w = n - 1);
    buf[..n - 1].copy_from_slice(s.as_bytes());
}

fn tar_header(name: &[u8], typ: u8, size: u64, mode: u32, link: &[u8], f: TarFormat, prefix: &[u8]) -> [u8; 512] {
    let mut h = [0u8; 512];
    let n = name.len().min(100);
    h[..n].copy_from_slice(&name[..n]);
    octal(&mut h[100..108], mode as u64);
    octal(&mut h[108..116], 1000);
    octal(&mut h[116..124], 1000);
    octal(&mut h[124..136], size);
    octal(&mut h[136..148], 1_500_000_000);
    h[156] = typ;
    let l = link.len().min(100);
    h[157..157 + l].copy_from_slice(&link[..l]);
    if f == TarFormat::V7 {
    } else if f == TarFormat::Gnu {
        h[257..265].copy_from_slice(b"ustar  \0");
    } else {
        h[257..265].copy_from_slice(b"ustar\x0000");
        let p = prefix.len().min(155);
        h[345..345 + p].copy_from_slice(&prefix[..p]);
    }
    if typ == b'S' && f == TarFormat::Gnu {
        // a "sparse" file of one piece
        octal(&mut h[386..398], 0);
        octal(&mut h[398..410], size);
        octal(&mut h[483..495], size);
    }
    h[148..156].copy_from_slice(b"        ");
    let sum: u64 = h.iter().map(|b| *b as u64).sum();
    let s = format!("{sum:06o}\0 ");
    h[148..156].copy_from_slice(s.as_bytes());
    h
}

fn tar_put(out: &mut Vec<u8>, h: [u8; 512], data: &[u8]) {
    out.extend(h);
    out.extend(data);
    while out.len() % 512 != 0 {
        out.push(0);
    }
}

fn pax_record(k: &str, v: &[u8]) -> Vec<u8> {
    let body = k.len() + v.len() + 3;
    let mut n = body + 1;
    while n != body + n.to_string().len() {
        n = body + n.to_string().len();
    }
    let mut r = format!("{n} {k}=").into_bytes();
    r.extend(v);
    r.push(b'\n');
    r
}

/// One archive in the given format. `global`: starts with a pax global header, as
/// `git archive` makes.
pub fn tar(ms: &[Member], f: TarFormat, global: bool) -> Vec<u8> {
    let mut out = vec![];
    if global {
        let r = pax_record("comment", b"0123456789abcdef");
        let h = tar_header(b"pax_global_header", b'g', r.len() as u64, 0o666, b"", TarFormat::Pax, b"");
        tar_put(&mut out, h, &r);
    }
    for m in ms {
        let (typ, data, mode, link): (u8, &[u8], u32, &[u8]) = match &m.kind {
            Kind::File { data, exec } => (if f == TarFormat::V7 { 0 } else { b'0' }, data, if *exec { 0o755 } else { 0o644 }, b""),
            Kind::Dir => (if f == TarFormat::V7 { 0 } else { b'5' }, b"", 0o755, b""),
            Kind::Symlink(t) => (b'2', b"", 0o777, t),
            Kind::Hardlink(t) => (b'1', b"", 0o644, t),
            Kind::Special(t, d) => (*t, d, 0o644, b""),
        };
        let long = m.name.len() > 100 || link.len() > 100;
        let mut prefix: &[u8] = b"";
        let mut name: &[u8] = &m.name;
        if long {
            let split = (0..m.name.len().min(155)).rev().find(|i| m.name[*i] == b'/' && m.name.len() - i - 1 <= 100 && m.name.len() - i - 1 > 0);
            match (f, split) {
                (TarFormat::Ustar, Some(i)) if link.len() <= 100 => {
                    prefix = &m.name[..i];
                    name = &m.name[i + 1..];
                }
                (TarFormat::Gnu, _) => {
                    for (t, v) in [(b'L', &m.name[..]), (b'K', link)] {
                        if v.len() > 100 {
                            let mut v = v.to_vec();
                            v.push(0);
                            let h = tar_header(b"././@LongLink", t, v.len() as u64, 0o644, b"", f, b"");
                            tar_put(&mut out, h, &v);
                        }
                    }
                }
                _ => {
                    let mut r = vec![];
                    if m.name.len() > 100 {
                        r.extend(pax_record("path", &m.name));
                    }
                    if link.len() > 100 {
                        r.extend(pax_record("linkpath", link));
                    }
                    let h = tar_header(b"PaxHeaders/x", b'x', r.len() as u64, 0o644, b"", TarFormat::Pax, b"");
                    tar_put(&mut out, h, &r);
                }
            }
        } else if f == TarFormat::Pax {
            let mut r = pax_record("mtime", b"1500000000.25");
            if m.name.iter().any(|b| *b >= 0x80) {
                r.extend(pax_record("path", &m.name));
            }
            let h = tar_header(b"PaxHeaders/x", b'x', r.len() as u64, 0o644, b"", TarFormat::Pax, b"");
            tar_put(&mut out, h, &r);
        }
        let size = if matches!(typ, 0 | b'0' | b'7') || !data.is_empty() { data.len() } else { 0 };
        tar_put(&mut out, tar_header(name, typ, size as u64, mode, link, f, prefix), data);
    }
    out.extend([0u8; 1024]);
    out
}

/// gzip, possibly in several members
pub fn gz(data: &[u8], cuts: &[usize]) -> Vec<u8> {
    let mut out = vec![];
    let mut at = 0;
    let mut cuts: Vec<usize> = cuts.iter().map(|c| (*c).min(data.len())).collect();
    cuts.sort();
    cuts.push(data.len());
    for c in cuts {
        let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
        e.write_all(&data[at..c]).unwrap();
        out.extend(e.finish().unwrap());
        at = c;
    }
    out
}

/// A file whose reads come back short, as from a socket or a pipe.
pub struct Chunky {
    pub inner: std::io::Cursor<Vec<u8>>,
    pub sizes: Vec<usize>,
    pub at: usize,
}
impl Chunky {
    pub fn new(g: &mut G, data: Vec<u8>) -> Chunky {
        let sizes = match g.below(3) {
            0 => vec![],
            1 => vec![g.range(1, 7) as usize],
            _ => g.vec(1, 4, |g| g.range(1, 200) as usize),
        };
        Chunky { inner: std::io::Cursor::new(data), sizes, at: 0 }
    }
}
impl Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = buf.len();
        if !self.sizes.is_empty() {
            n = n.min(self.sizes[self.at % self.sizes.len()]);
            self.at += 1;
        }
        self.inner.read(&mut buf[..n])
    }
}
impl Seek for Chunky {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.inner.seek(p)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    File { data: Vec<u8>, exec: bool },
    Dir,
    Symlink(String),
    Other(u32),
}

impl Node {
    pub fn show(&self) -> String {
        match self {
            Node::File { data, exec } => {
                let t = String::from_utf8_lossy(&data[..data.len().min(60)]).to_string();
                format!("{} of {} bytes {t:?}", if *exec { "executable file" } else { "file" }, data.len())
            }
            Node::Dir => "directory".into(),
            Node::Symlink(t) => format!("symlink to {t:?}"),
            Node::Other(m) => format!("special file (mode {m:o})"),
        }
    }
}

/// path relative to the root, '/'-separated -> node. The root itself is not listed.
pub type Tree = BTreeMap<String, Node>;

/// What is on disk below `root`, without following symlinks.
pub fn read_tree(root: &Path) -> std::io::Result<Tree> {
    let mut out = Tree::new();
    let mut todo = vec![(root.to_path_buf(), String::new())];
    while let Some((dir, rel)) = todo.pop() {
        for e in std::fs::read_dir(&dir)? {
            let e = e?;
            let name = String::from_utf8_lossy(e.file_name().as_bytes()).to_string();
            let r = if rel.is_empty() { name } else { format!("{rel}/{name}") };
            let m = std::fs::symlink_metadata(e.path())?;
            let t = m.file_type();
            let node = if t.is_symlink() {
                Node::Symlink(std::fs::read_link(e.path())?.to_string_lossy().to_string())
            } else if t.is_dir() {
                todo.push((e.path(), r.clone()));
                Node::Dir
            } else if t.is_file() {
                Node::File { data: std::fs::read(e.path())?, exec: m.permissions().mode() & 0o100 != 0 }
            } else {
                Node::Other(m.mode())
            };
            out.insert(r, node);
        }
    }
    Ok(out)
}

/// Everything below `root` except what is below `skip`, in detail (mode, owner, size, mtime,
/// link count, content).
pub fn fingerprint(root: &Path, skip: &Path) -> std::io::Result<BTreeMap<PathBuf, String>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![root.to_path_buf()];
    while let Some(p) = todo.pop() {
        let m = std::fs::symlink_metadata(&p)?;
        let t = m.file_type();
        let mut d = format!("mode {:o} uid {}", m.mode(), m.uid());
        if t.is_symlink() {
            d += &format!(" -> {:?}", std::fs::read_link(&p)?);
        } else if t.is_dir() {
            if p != skip {
                for e in std::fs::read_dir(&p)? {
                    todo.push(e?.path());
                }
            }
        } else {
            d += &format!(" nlink {} mtime {}.{} {:?}", m.nlink(), m.mtime(), m.mtime_nsec(), if t.is_file() { std::fs::read(&p)? } else { vec![] });
        }
        out.insert(p, d);
    }
    Ok(out)
}

pub fn diff(want: &Tree, got: &Tree) -> Option<String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Some(format!("{k:?} ({}) is missing", v.show())),
            Some(x) if x != v => return Some(format!("{k:?} is {}, expected {}", x.show(), v.show())),
            _ => (),
        }
    }
    for (k, v) in got {
        if !want.contains_key(k) {
            return Some(format!("{k:?} ({}) appeared from nowhere", v.show()));
        }
    }
    None
}

/// A scratch directory in memory, removed when dropped.
pub fn scratch() -> tempfile::TempDir {
    static BASE: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    let base = BASE.get_or_init(|| {
        let shm = PathBuf::from("/dev/shm");
        if tempfile::Builder::new().prefix("posyv").tempdir_in(&shm).is_ok() { shm } else { std::env::temp_dir() }
    });
    tempfile::Builder::new().prefix("posyv").tempdir_in(base).expect("scratch directory")
}

pub const NOBODY: u32 = 65534;

/// Runs `f` on a thread of its own that has given up root, so that whatever the code under
/// test does with paths, it can reach only files that belong to nobody.
pub fn unprivileged<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || {
                // the raw system calls change this thread only
                unsafe {
                    if libc::geteuid() == 0 {
                        libc::syscall(libc::SYS_setgroups, 0, std::ptr::null::<u32>());
                        let a = libc::syscall(libc::SYS_setresgid, NOBODY, NOBODY, NOBODY);
                        let b = libc::syscall(libc::SYS_setresuid, NOBODY, NOBODY, NOBODY);
                        assert!(a == 0 && b == 0, "can't drop privileges");
                    }
                }
                catching(f)
            })
            .unwrap();
        match h.join().unwrap() {
            Ok(v) => v,
            Err(m) => panic!("{m}"),
        }
    })
}

/// What opening `p` gives if its parent is the current directory while it's opened, but
/// not afterwards.
pub fn opened_from_nearby<T: Send>(p: &Path, open: impl FnOnce(&Path) -> T + Send) -> T {
    let (dir, name) = (p.parent().unwrap(), Path::new(p.file_name().unwrap()));
    std::thread::scope(|s| {
        s.spawn(move || {
            // gives this thread a current directory of its own
            if unsafe { libc::unshare(libc::CLONE_FS) } != 0 || std::env::set_current_dir(dir).is_err() {
                return open(p);
            }
            open(name)
        })
        .join()
        .unwrap()
    })
}

pub fn give_away(p: &Path) {
    if unsafe { libc::geteuid() } == 0 {
        std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY)).unwrap();
    }
}

/// Where a symlink inside `root` leads, following everything by hand: None if it stays
/// below root (or dangles or loops there), Some(how) if it leads out.
pub fn escape(tree: &Tree, link: &str) -> Option<String> {
    fn walk(tree: &Tree, at: &mut Vec<String>, path: &str, hops: &mut usize) -> Result<(), String> {
        if path.starts_with('/') {
            return Err(format!("absolute target {path:?}"));
        }
        for c in path.split('/') {
            match c {
                "" | "." => (),
                ".." => {
                    if at.pop().is_none() {
                        return Err(format!("'..' above the destination in {path:?}"));
                    }
                }
                c => {
                    at.push(c.to_string());
                    if let Some(Node::Symlink(t)) = tree.get(&at.join("/")) {
                        *hops += 1;
                        if *hops > 100 {
                            return Ok(());
                        }
                        at.pop();
                        walk(tree, at, t, hops)?;
                    }
                }
            }
        }
        Ok(())
    }
    let mut at = vec![];
    walk(tree, &mut at, link, &mut 0).err()
}

/// The sandbox's python3 without what is installed for it.
const STUB_SITE_PY: &str = r#"
import os, re, sys
with open(os.path.join(os.path.dirname(os.__file__), "site.py")) as f:
    exec(compile(re.sub(r"(?m)^if not sys\.flags\.no_site:\n    main\(\)", "", f.read()), "site.py", "exec"))
def getsitepackages(prefixes=None):
    return []
main()
"#;

/// What python_script needs besides; recent Pythons have no distutils.
pub fn python_stubs() -> Vec<Member> {
    vec![Member::file("stubs/distutils/__init__.py", b""), Member::file("stubs/distutils/sysconfig.py", b""), Member::file("stubs/site.py", STUB_SITE_PY.as_bytes())]
}
