//! What the checks of the file cache and of the directory cache share: keys, contents
//! that identify themselves, scripted operations, and a single-threaded zygote process
//! that runs them in forked children under the fault-injecting shim.
use crate::archive::{read_tree, Node, Tree};
use crate::prop::*;
use posy::verif_hooks::*;
use serde::{Deserialize, Serialize};
use std::io::{BufRead, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Key {
    Raw(Vec<u8>),
    Hash(String, Vec<u8>),
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl Key {
    pub fn show(&self) -> String {
        match self {
            Key::Raw(b) => format!("{:?}", String::from_utf8_lossy(b)),
            Key::Hash(m, b) => format!("{m}={}", hex(b)),
        }
    }
    pub fn hash(&self) -> ArtifactHash {
        match self {
            Key::Hash(m, b) => ArtifactHash::from_hex(m, &hex(b)).expect("a legal hash"),
            _ => unreachable!(),
        }
    }
}

/// Keys that are easily confused: equal up to one byte, prefixes of each other, same
/// digest under another algorithm, empty, with separators and dots in them.
pub fn keys(g: &mut G, n: usize) -> Vec<Key> {
    let mut out: Vec<Key> = vec![];
    let mut tries = 0;
    while out.len() < n {
        tries += 1;
        let k = if tries > 4 * n {
            Key::Raw(format!("key {tries}").into_bytes())
        } else if !out.is_empty() && g.chance(2, 3) {
            let old = g.choose(&out).clone();
            match old {
                Key::Raw(mut b) => {
                    match g.below(4) {
                        0 => b.push(*g.choose(&[b'/', b'.', 0, b'a', b' '])),
                        1 => {
                            b.pop();
                        }
                        2 if !b.is_empty() => {
                            let i = g.usize(b.len());
                            b[i] ^= 1 << g.below(8);
                        }
                        _ => b = b.iter().rev().copied().collect(),
                    }
                    Key::Raw(b)
                }
                Key::Hash(m, mut b) => {
                    if g.chance(1, 4) {
                        Key::Hash(g.pick(&["md5", "sha1", "sha512", "blake2b_256"]).into(), b)
                    } else {
                        // any byte, so that truncating or re-encoding a digest shows
                        let i = g.usize(b.len());
                        b[i] ^= 1 << g.below(8);
                        Key::Hash(m, b)
                    }
                }
            }
        } else if g.bool() {
            Key::Raw(match g.below(3) {
                0 => g.pick(&["", "a", "../x", "/etc/x", "a/b", ".", "tmp", "x.lock"]).as_bytes().to_vec(),
                1 => format!("https://example.com/{}", g.string(b"ab/.?=", 0, 12)).into_bytes(),
                _ => g.bytes(0, 8),
            })
        } else {
            Key::Hash("sha256".into(), g.blob(32, 32))
        };
        if !out.contains(&k) {
            out.push(k);
        }
    }
    out
}

/// Content that says what it is: 16 bytes of header, the rest determined by it.
pub fn content(id: u64, len: usize) -> Vec<u8> {
    let len = len.max(16);
    let mut v = Vec::with_capacity(len + 8);
    v.extend(id.to_le_bytes());
    v.extend((len as u64).to_le_bytes());
    let mut r = Rng::new(id ^ 0x5151);
    while v.len() < len {
        v.extend(r.next().to_le_bytes());
    }
    v.truncate(len);
    v
}

pub fn identify(v: &[u8]) -> Result<u64, String> {
    if v.len() < 16 {
        return Err(format!("{} bytes, not a complete content", v.len()));
    }
    let id = u64::from_le_bytes(v[..8].try_into().unwrap());
    let len = u64::from_le_bytes(v[8..16].try_into().unwrap());
    if len != v.len() as u64 {
        return Err(format!("content {id} has {} of its {len} bytes", v.len()));
    }
    if content(id, len as usize) != v {
        return Err(format!("content {id} is mixed with something else"));
    }
    Ok(id)
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Commit,
    /// the writer is dropped
    Abandon,
    Error,
    Panic,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fill {
    pub id: u64,
    pub len: usize,
    /// size of the pieces it is written in
    pub piece: usize,
    /// stop after that many bytes
    pub upto: usize,
    /// write rubbish first and come back (the HTTP cache writes its header like this)
    pub patch: bool,
    pub end: End,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    GetOrSet(Fill),
    Set(Fill),
    Get,
    LockRead,
    Remove,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub key: Key,
    pub act: Act,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Out {
    /// content handed back; whether the fill was run
    Read(Option<Vec<u8>>, bool),
    Done,
    Err(String),
    Panic,
}

/// Our own reading of what an operation gave us.
fn back(r: &mut dyn Read) -> eyre::Result<Vec<u8>> {
    slurp(r).map_err(|e| eyre::eyre!("reading back: {e}"))
}

fn pieces(f: &Fill, w: &mut dyn Write) -> std::io::Result<()> {
    let data = content(f.id, f.len);
    for c in data[..f.upto.min(data.len())].chunks(f.piece.max(1)) {
        w.write_all(c)?;
    }
    Ok(())
}

fn fill_plain(f: &Fill, w: &mut dyn Write) -> eyre::Result<()> {
    pieces(f, w)?;
    match f.end {
        End::Error => Err(eyre::eyre!("the fill failed")),
        End::Panic => panic!("the fill panicked"),
        _ => Ok(()),
    }
}

fn fill_seek(f: &Fill, w: &mut (impl Write + Seek)) -> eyre::Result<()> {
    if f.patch {
        w.write_all(&[b'?'; 16][..f.upto.min(16)])?;
        w.seek(SeekFrom::Start(0))?;
    }
    fill_plain(f, w)
}

macro_rules! on_key {
    ($key:expr, $k:ident => $e:expr) => {
        match $key {
            Key::Raw(b) => {
                let $k = &b.as_slice();
                $e
            }
            h => {
                let $k = &h.hash();
                $e
            }
        }
    };
}
pub(crate) use on_key;

fn file_op_inner<K: PathKey>(s: &KVFileStore, k: &K, act: &Act) -> eyre::Result<Out> {
    Ok(match act {
        Act::Get => Out::Read(
            match s.get(k) {
                Some(mut r) => Some(back(&mut r)?),
                None => None,
            },
            false,
        ),
        Act::LockRead => {
            let h = s.lock(k)?;
            let r = match h.reader() {
                Some(mut r) => Some(back(&mut r)?),
                None => None,
            };
            Out::Read(r, false)
        }
        Act::GetOrSet(f) => {
            let mut ran = false;
            let mut r = s.get_or_set(k, |w| {
                ran = true;
                fill_plain(f, w)
            })?;
            let v = back(&mut r)?;
            Out::Read(Some(v), ran)
        }
        Act::Set(f) => {
            let h = s.lock(k)?;
            let mut w = h.begin()?;
            fill_seek(f, &mut w)?;
            match f.end {
                End::Commit => {
                    let mut r = w.commit()?;
                    let v = back(&mut r)?;
                    Out::Read(Some(v), true)
                }
                _ => {
                    drop(w);
                    Out::Done
                }
            }
        }
        Act::Remove => {
            s.lock(k)?.remove()?;
            Out::Done
        }
    })
}

pub fn file_op(s: &KVFileStore, op: &Op) -> Out {
    match catching(|| on_key!(&op.key, k => file_op_inner(s, k, &op.act))) {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => Out::Err(format!("{e:#}")),
        Err(_) => Out::Panic,
    }
}

/// The directory a dir-cache fill makes.
pub fn dir_content(id: u64, len: usize) -> Tree {
    let mut t = Tree::new();
    let n = 1 + (id % 4) as usize;
    for i in 0..n {
        t.insert(format!("f{i}"), Node::File { data: content(id.wrapping_mul(31) + i as u64, len), exec: i % 2 == 1 });
    }
    t.insert("sub".into(), Node::Dir);
    t.insert("sub/empty".into(), Node::Dir);
    t.insert("sub/id".into(), Node::File { data: id.to_le_bytes().to_vec(), exec: false });
    t.insert("sub/link".into(), Node::Symlink("../f0".into()));
    t
}

pub fn dir_fill(f: &Fill, at: &Path) -> eyre::Result<()> {
    use std::os::unix::fs::PermissionsExt;
    let t = dir_content(f.id, f.len);
    let steps = t.len();
    for (i, (name, node)) in t.iter().enumerate() {
        if i >= f.upto.min(steps) && f.end != End::Commit {
            break;
        }
        let p = at.join(name);
        match node {
            Node::Dir => std::fs::create_dir(&p)?,
            Node::Symlink(to) => std::os::unix::fs::symlink(to, &p)?,
            Node::Other(_) => unreachable!(),
            Node::File { data: d, exec: x } => {
                let mut w = std::fs::File::create(&p)?;
                for c in d.chunks(f.piece.max(1)) {
                    w.write_all(c)?;
                }
                w.set_permissions(std::fs::Permissions::from_mode(if *x { 0o755 } else { 0o644 }))?;
            }
        }
    }
    match f.end {
        End::Commit => Ok(()),
        End::Panic => panic!("the fill panicked"),
        _ => Err(eyre::eyre!("the fill failed")),
    }
}

/// Reads back which content a directory has.
pub fn dir_identify(p: &Path, len_of: impl Fn(u64) -> usize) -> Result<u64, String> {
    let t = read_tree(p).map_err(|e| format!("can't be read: {e}"))?;
    let id = match t.get("sub/id") {
        Some(Node::File { data, .. }) if data.len() == 8 => u64::from_le_bytes(data.clone().try_into().unwrap()),
        _ => return Err(format!("incomplete: has only {:?}", t.keys().collect::<Vec<_>>())),
    };
    match crate::archive::diff(&dir_content(id, len_of(id)), &t) {
        Some(d) => Err(format!("content {id} is incomplete or mixed: {d}")),
        None => Ok(id),
    }
}

pub fn dir_op(s: &KVDirStore, op: &Op) -> (Out, Option<PathBuf>) {
    let r = catching(|| {
        on_key!(&op.key, k => match &op.act {
            Act::GetOrSet(f) | Act::Set(f) => {
                let mut ran = false;
                let p = s.get_or_set(k, |at| {
                    ran = true;
                    dir_fill(f, at)
                })?;
                Ok((Out::Read(None, ran), Some(p)))
            }
            _ => {
                let l = s.lock(k)?;
                let p: &Path = l.as_ref();
                let there = p.exists();
                Ok((Out::Done, there.then(|| p.to_path_buf())))
            }
        })
    });
    match r {
        Ok(Ok(x)) => x,
        Ok(Err::<_, eyre::Report>(e)) => (Out::Err(format!("{e:#}")), None),
        Err(_) => (Out::Panic, None),
    }
}

// ---------------------------------------------------------------- the zygote

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    None,
    KillBefore,
    KillAfter,
    Errno(i32),
    Interrupt,
    Short,
}

impl Fault {
    fn code(self) -> (i32, i32) {
        match self {
            Fault::None => (0, 0),
            Fault::KillBefore => (1, 0),
            Fault::KillAfter => (2, 0),
            Fault::Errno(e) => (3, e),
            Fault::Interrupt => (4, 0),
            Fault::Short => (5, 0),
        }
    }
}

#[derive(Serialize, Deserialize)]
pub enum Request {
    One { dir: bool, base: PathBuf, op: Op, at: u64, fault: Fault },
    Race(Race),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Race {
    pub dir: bool,
    pub base: PathBuf,
    pub keys: Vec<Key>,
    /// per process: threads, rounds, and the call at which it is killed (0: never)
    pub procs: Vec<(usize, usize, u64)>,
    pub seed: u64,
    pub removes: bool,
    pub failing: bool,
    pub delays: bool,
    pub maxlen: usize,
}

#[derive(Debug, Serialize, Deserialize)]
pub struct Reply {
    /// None: killed on purpose
    pub out: Option<Out>,
    pub path: Option<PathBuf>,
    pub seen: u64,
    /// how often a file was renamed into place before its data was synced
    pub unsynced: u64,
    pub trace: String,
    /// what went wrong in a race, or a process that ended unexpectedly
    pub errors: Vec<String>,
    pub stats: Vec<u64>,
}

extern "C" {
    fn dlsym(h: *mut libc::c_void, name: *const libc::c_char) -> *mut libc::c_void;
}

struct Shim {
    prefix: extern "C" fn(*const libc::c_char),
    arm: extern "C" fn(libc::c_long, i32, i32),
    disarm: extern "C" fn() -> libc::c_long,
    trace: extern "C" fn() -> *const libc::c_char,
    unsynced: extern "C" fn() -> libc::c_long,
    on_kill: extern "C" fn(*const AtomicU64, u64),
    delays: extern "C" fn(u64),
}

fn shim() -> Shim {
    unsafe fn get<T: Copy>(name: &str) -> T {
        let c = std::ffi::CString::new(name).unwrap();
        let p = dlsym(std::ptr::null_mut(), c.as_ptr());
        assert!(!p.is_null(), "the shim is not loaded");
        std::mem::transmute_copy(&p)
    }
    unsafe {
        Shim { prefix: get("shim_prefix"), arm: get("shim_arm"), disarm: get("shim_disarm"), trace: get("shim_trace"), unsynced: get("shim_unsynced"), on_kill: get("shim_on_kill"), delays: get("shim_delays") }
    }
}

fn run_one(dir: bool, base: &Path, op: &Op) -> (Out, Option<PathBuf>) {
    if dir {
        match KVDirStore::new(base) {
            Ok(s) => dir_op(&s, op),
            Err(e) => (Out::Err(format!("{e:#}")), None),
        }
    } else {
        match KVFileStore::new(base) {
            Ok(s) => (file_op(&s, op), None),
            Err(e) => (Out::Err(format!("{e:#}")), None),
        }
    }
}

/// Per key, in memory that all processes of a race share.
#[repr(C)]
#[derive(Default)]
struct Shared {
    owner: AtomicU64,
    /// last event (commit or remove) that is known to be done / was begun, under the lock
    next: AtomicU64,
    committed: AtomicU64,
    /// content id the key holds after `committed` (0: none)
    holds: AtomicU64,
    pending: AtomicU64,
    pending_to: AtomicU64,
    begun: AtomicU64,
    removal_begun: AtomicU64,
    // directories
    fill_owner: AtomicU64,
    fills: AtomicU64,
    fills_failed: AtomicU64,
    tag: AtomicU64,
    users: AtomicU64,
    // statistics
    ops: AtomicU64,
    contended: AtomicU64,
}

fn fork_child(pipe_to: &mut Vec<(i32, std::fs::File, u64)>, kill: u64, body: impl FnOnce() -> Reply) {
    use std::os::fd::FromRawFd;
    let mut fds = [0; 2];
    unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(60);
            let r = body();
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&serde_json::to_vec(&r).unwrap());
            libc::_exit(0);
        }
        libc::close(fds[1]);
        pipe_to.push((pid, std::fs::File::from_raw_fd(fds[0]), kill));
    }
}

fn collect(children: Vec<(i32, std::fs::File, u64)>) -> Vec<Reply> {
    let mut out = vec![];
    for (pid, mut f, kill) in children {
        let mut buf = vec![];
        let _ = f.read_to_end(&mut buf);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let nothing = || Reply { out: None, path: None, seen: 0, unsynced: 0, trace: String::new(), errors: vec![], stats: vec![] };
        out.push(if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            serde_json::from_slice(&buf).unwrap_or_else(|e| Reply { errors: vec![format!("bad reply: {e}")], ..nothing() })
        } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL && kill > 0 {
            nothing()
        } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
            Reply { errors: vec!["a process was still waiting after 60 s".into()], ..nothing() }
        } else {
            Reply { errors: vec![format!("a process ended with status {st:#x}")], ..nothing() }
        });
    }
    out
}

pub fn zygote() -> i32 {
    let sh = shim();
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
            return 0;
        }
        let req: Request = serde_json::from_str(&line).expect("request");
        let reply = match req {
            Request::One { dir, base, op, at, fault } => {
                let mut cs = vec![];
                let c = std::ffi::CString::new(base.to_str().unwrap()).unwrap();
                fork_child(&mut cs, matches!(fault, Fault::KillBefore | Fault::KillAfter) as u64, || {
                    (sh.prefix)(c.as_ptr());
                    let (m, e) = fault.code();
                    (sh.arm)(at as libc::c_long, m, e);
                    let (out, path) = run_one(dir, &base, &op);
                    let seen = (sh.disarm)() as u64;
                    let trace = unsafe { std::ffi::CStr::from_ptr((sh.trace)()) }.to_string_lossy().into_owned();
                    Reply { out: Some(out), path, seen, unsynced: (sh.unsynced)() as u64, trace, errors: vec![], stats: vec![] }
                });
                collect(cs).pop().unwrap()
            }
            Request::Race(race) => run_race(&sh, &race),
        };
        let mut o = std::io::stdout().lock();
        let _ = writeln!(o, "{}", serde_json::to_string(&reply).unwrap());
        let _ = o.flush();
    }
}

fn run_race(sh: &Shim, race: &Race) -> Reply {
    let n = race.keys.len();
    let bytes = n * std::mem::size_of::<Shared>();
    let shared: &[Shared] = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), bytes, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const Shared, n)
    };
    let mut cs = vec![];
    let c = std::ffi::CString::new(race.base.to_str().unwrap()).unwrap();
    let mut worker = 0u64;
    for (pi, &(threads, rounds, kill)) in race.procs.iter().enumerate() {
        let first = worker + 1;
        worker += threads as u64;
        fork_child(&mut cs, kill, || {
            (sh.prefix)(c.as_ptr());
            if race.delays {
                (sh.delays)(race.seed.wrapping_add(pi as u64 * 77) | 1);
            }
            (sh.arm)(if kill > 0 { kill as libc::c_long } else { -1 }, if kill > 0 { 1 } else { 0 }, 0);
            let mut errors: Vec<String> = vec![];
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads as u64)
                    .map(|t| {
                        let me = first + t;
                        s.spawn(move || {
                            // dropped at the end of the thread
                            catching(|| if race.dir { dir_worker(sh, race, shared, me, rounds, kill > 0) } else { file_worker(sh, race, shared, me, rounds, kill > 0) })
                                .unwrap_or_else(|p| Err(format!("worker panicked: {p}")))
                        })
                    })
                    .collect();
                for h in hs {
                    if let Err(e) = h.join().unwrap() {
                        errors.push(e)
                    }
                }
            });
            (sh.disarm)();
            Reply { out: Some(Out::Done), path: None, seen: 0, unsynced: 0, trace: String::new(), errors, stats: vec![] }
        });
    }
    let rs = collect(cs);
    let killed = rs.iter().zip(&race.procs).filter(|(r, p)| p.2 > 0 && r.out.is_none() && r.errors.is_empty()).count() as u64;
    let mut errors: Vec<String> = rs.into_iter().flat_map(|r| r.errors).collect();
    // what is left
    if errors.is_empty() {
        for (k, s) in race.keys.iter().zip(shared) {
            let e = if race.dir { dir_final(race, k, s, killed) } else { file_final(race, k, s) };
            if let Err(e) = e {
                errors.push(format!("afterwards: {e}"));
            }
        }
    }
    let ops = shared.iter().map(|s| s.ops.load(SeqCst)).sum();
    let contended = shared.iter().map(|s| s.contended.load(SeqCst)).sum();
    unsafe { libc::munmap(shared.as_ptr() as *mut libc::c_void, bytes) };
    Reply { out: Some(Out::Done), path: None, seen: 0, unsynced: 0, trace: String::new(), errors, stats: vec![ops, contended, killed] }
}

fn len_of(race: &Race, id: u64) -> usize {
    let mut r = Rng::new(id ^ race.seed);
    16 + (r.next() as usize) % race.maxlen.max(1)
}

/// Checks, with the key's lock held, that it holds what it should.
fn expect_holds(s: &Shared, found: Option<u64>, key: &Key) -> Result<(), String> {
    let found = found.unwrap_or(0);
    let holds = s.holds.load(SeqCst);
    let p = s.pending.load(SeqCst);
    if p != 0 {
        // whoever began that event was killed; it either happened or not
        let to = s.pending_to.load(SeqCst);
        if found == to {
            s.holds.store(to, SeqCst);
            s.committed.store(p, SeqCst);
        } else if found != holds {
            return Err(format!("key {} holds {found} after a kill; {holds} before it, {to} was being put there", key.show()));
        }
        s.pending.store(0, SeqCst);
        return Ok(());
    }
    if found != holds {
        return Err(format!("key {} holds {found}, but the last committed content is {holds}", key.show()));
    }
    Ok(())
}

fn file_worker(sh: &Shim, race: &Race, shared: &[Shared], me: u64, rounds: usize, killable: bool) -> Result<(), String> {
    let mut rng = Rng::new(race.seed ^ me.wrapping_mul(0x1234567));
    let store = KVFileStore::new(&race.base).map_err(|e| format!("{e:#}"))?;
    for _ in 0..rounds {
        let ki = rng.next() as usize % race.keys.len();
        let (key, s) = (&race.keys[ki], &shared[ki]);
        if killable {
            (sh.on_kill)(&s.owner, me);
        }
        s.ops.fetch_add(1, SeqCst);
        let e = |what: &str, e: &dyn std::fmt::Display| format!("{what} of {} failed: {e}", key.show());
        let r: Result<(), String> = on_key!(key, k => match rng.next() % 8 {
            // an unlocked read
            0 | 1 | 2 => {
                let before = s.committed.load(SeqCst);
                let got = match store.get(k) {
                    Some(mut r) => Some(slurp(&mut r).map_err(|x| e("reading", &x))?),
                    None => None,
                };
                match got {
                    Some(v) => {
                        let id = identify(&v).map_err(|x| format!("a read of {} returned {x}", key.show()))?;
                        let begun = s.begun.load(SeqCst);
                        if id < before || id > begun {
                            Err(format!("a read of {} returned content {id}; event {before} was over before it began, {begun} is the last begun", key.show()))
                        } else {
                            Ok(())
                        }
                    }
                    None => {
                        if before > 0 && s.removal_begun.load(SeqCst) < before {
                            Err(format!("a read of {} found nothing, although content {before} was committed and not removed", key.show()))
                        } else {
                            Ok(())
                        }
                    }
                }
            }
            // lock, look, change
            _ => {
                let viaset = rng.next() % 3 == 0;
                let remove = race.removes && rng.next() % 4 == 0;
                let abandon = race.failing && rng.next() % 4 == 0;
                let piece = 1 + rng.next() as usize % 70000;
                let locked = |s: &Shared| -> Result<(), String> {
                    let was = s.owner.swap(me, SeqCst);
                    if was != 0 {
                        return Err(format!("workers {was} and {me} hold the lock of {} at the same time", key.show()));
                    }
                    Ok(())
                };
                let released = |s: &Shared| -> Result<(), String> {
                    let was = s.owner.swap(0, SeqCst);
                    if was != me {
                        return Err(format!("worker {was} got the lock of {} while {me} held it", key.show()));
                    }
                    Ok(())
                };
                let begin = |s: &Shared, to: Option<u64>| -> u64 {
                    let ev = s.next.fetch_add(1, SeqCst) + 1;
                    s.pending_to.store(to.map_or(0, |_| ev), SeqCst);
                    if to.is_none() {
                        s.removal_begun.store(ev, SeqCst);
                    }
                    s.begun.store(ev, SeqCst);
                    s.pending.store(ev, SeqCst);
                    ev
                };
                let done = |s: &Shared, ev: u64| {
                    s.holds.store(s.pending_to.load(SeqCst), SeqCst);
                    s.committed.store(ev, SeqCst);
                    s.pending.store(0, SeqCst);
                };
                if viaset && !abandon {
                    // nobody else may be filling; if something is there it must be complete
                    let mut ev = 0;
                    let mut bad = None;
                    let r = store.get_or_set(k, |w| {
                        if let Err(x) = locked(s) {
                            bad = Some(x);
                        }
                        if let Err(x) = expect_holds(s, None, key) {
                            bad = Some(format!("get_or_set ran its fill: {x}"));
                        }
                        ev = begin(s, Some(0));
                        for c in content(ev, len_of(race, ev)).chunks(piece) {
                            w.write_all(c)?;
                        }
                        // (the lock is still held during the commit, but this is the last that we see)
                        if let Err(x) = released(s) {
                            bad = Some(x);
                        }
                        Ok(())
                    });
                    match (r, bad) {
                        (_, Some(b)) => Err(b),
                        (Err(x), _) => Err(e("get_or_set", &format!("{x:#}"))),
                        (Ok(mut r), _) => {
                            let v = slurp(&mut r).map_err(|x| e("reading", &x))?;
                            let id = identify(&v).map_err(|x| format!("get_or_set of {} returned {x}", key.show()))?;
                            if ev != 0 && id != ev {
                                return Err(format!("get_or_set of {} wrote {ev} and returned {id}", key.show()));
                            }
                            Ok(())
                        }
                    }
                } else {
                    let t = std::time::Instant::now();
                    let before = s.committed.load(SeqCst);
                    let h = match rng.next() % 3 {
                        0 => match store.lock_if_exists(k) {
                            Some(h) => h,
                            None if before == 0 || s.removal_begun.load(SeqCst) >= before => continue,
                            None => return Err(format!("{} can't be locked although it holds something", key.show())),
                        },
                        _ => store.lock(k).map_err(|x| e("locking", &format!("{x:#}")))?,
                    };
                    if t.elapsed().as_micros() > 200 {
                        s.contended.fetch_add(1, SeqCst);
                    }
                    locked(s)?;
                    let found = match h.reader() {
                        Some(mut r) => {
                            let v = slurp(&mut r).map_err(|x| e("reading", &x))?;
                            Some(identify(&v).map_err(|x| format!("under the lock, {} holds {x}", key.show()))?)
                        }
                        None => None,
                    };
                    expect_holds(s, found, key)?;
                    if remove {
                        if found.is_some() {
                            begin(s, None);
                            // the lock is released inside, so say so first; whoever comes
                            // next finds out whether the removal happened
                            released(s)?;
                            h.remove().map_err(|x| e("removing", &format!("{x:#}")))?;
                        } else {
                            released(s)?;
                            drop(h);
                        }
                    } else {
                        let mut w = h.begin().map_err(|x| e("begin", &format!("{x:#}")))?;
                        if abandon {
                            w.write_all(&content(u64::MAX, 100)[..50]).map_err(|x| e("writing", &x))?;
                            drop(w);
                        } else {
                            let ev = begin(s, Some(0));
                            for c in content(ev, len_of(race, ev)).chunks(piece) {
                                w.write_all(c).map_err(|x| e("writing", &x))?;
                            }
                            drop(w.commit().map_err(|x| e("commit", &format!("{x:#}")))?);
                            done(s, ev);
                        }
                        released(s)?;
                        drop(h);
                    }
                    Ok(())
                }
            }
        });
        if killable {
            (sh.on_kill)(std::ptr::null(), 0);
        }
        r?;
    }
    Ok(())
}

fn file_final(race: &Race, key: &Key, s: &Shared) -> Result<(), String> {
    let store = KVFileStore::new(&race.base).map_err(|e| format!("{e:#}"))?;
    let v = on_key!(key, k => store.get(k).map(|mut r| slurp(&mut r))).transpose().map_err(|e| e.to_string())?;
    let id = v.map(|v| identify(&v)).transpose().map_err(|x| format!("{} holds {x}", key.show()))?;
    expect_holds(s, id, key)
}

fn dir_worker(sh: &Shim, race: &Race, shared: &[Shared], me: u64, rounds: usize, killable: bool) -> Result<(), String> {
    let mut rng = Rng::new(race.seed ^ me.wrapping_mul(0x7654321));
    let store = KVDirStore::new(&race.base).map_err(|e| format!("{e:#}"))?;
    for round in 0..rounds {
        // everybody goes through the keys in about the same order, to meet
        let ki = (round + (rng.next() % 3 == 0) as usize) % race.keys.len();
        let (key, s) = (&race.keys[ki], &shared[ki]);
        if killable {
            (sh.on_kill)(&s.fill_owner, me);
        }
        s.ops.fetch_add(1, SeqCst);
        if s.users.fetch_add(1, SeqCst) > 0 {
            s.contended.fetch_add(1, SeqCst);
        }
        let fails = race.failing && rng.next() % 3 == 0;
        let id = me << 16 | round as u64;
        let end = if !fails { End::Commit } else if rng.next() % 2 == 0 { End::Error } else { End::Panic };
        let f = Fill { id, len: len_of(race, id), piece: 1 + rng.next() as usize % 50000, upto: rng.next() as usize % 8, patch: false, end };
        let mut bad = None;
        let r = catching(|| {
            on_key!(key, k => store.get_or_set(k, |at| {
                let was = s.fill_owner.swap(me, SeqCst);
                if was != 0 {
                    bad = Some(format!("workers {was} and {me} fill {} at the same time", key.show()));
                }
                if s.tag.load(SeqCst) != 0 {
                    bad = Some(format!("{} is filled again although it was there already", key.show()));
                }
                s.fills.fetch_add(1, SeqCst);
                if f.end != End::Commit {
                    s.fills_failed.fetch_add(1, SeqCst);
                    s.fill_owner.store(0, SeqCst);
                    return dir_fill(&f, at);
                }
                let r = dir_fill(&f, at);
                s.fill_owner.store(0, SeqCst);
                r
            }))
        });
        s.users.fetch_sub(1, SeqCst);
        if let Some(b) = bad {
            return Err(b);
        }
        match r {
            Ok(Ok(p)) => {
                let got = dir_identify(&p, |id| len_of(race, id)).map_err(|x| format!("{} visible but {x}", key.show()))?;
                if let Err(t) = s.tag.compare_exchange(0, got, SeqCst, SeqCst) {
                    if t != got {
                        return Err(format!("{} changed from content {t} to {got}", key.show()));
                    }
                }
            }
            Ok(Err(e)) if fails && format!("{e:#}").contains("the fill failed") => {}
            Err(_) if fails => {}
            Ok(Err(e)) => return Err(format!("get_or_set of {} failed: {e:#}", key.show())),
            Err(p) => return Err(format!("get_or_set of {} panicked: {p}", key.show())),
        }
        if killable {
            (sh.on_kill)(std::ptr::null(), 0);
        }
    }
    Ok(())
}

fn dir_final(race: &Race, key: &Key, s: &Shared, killed: u64) -> Result<(), String> {
    let store = KVDirStore::new(&race.base).map_err(|e| format!("{e:#}"))?;
    let there = on_key!(key, k => store.lock(k)).map_err(|e| format!("{e:#}"))?.exists();
    let (fills, failed, tag) = (s.fills.load(SeqCst), s.fills_failed.load(SeqCst), s.tag.load(SeqCst));
    if fills > failed + killed + 1 {
        return Err(format!("{} was filled {fills} times; {failed} of the fills failed and {killed} processes were killed", key.show()));
    }
    if tag != 0 && !there {
        return Err(format!("{} vanished", key.show()));
    }
    let id = 7;
    let p = on_key!(key, k => store.get_or_set(k, |at| dir_fill(&Fill { id, len: len_of(race, id), piece: 100, upto: 0, patch: false, end: End::Commit }, at))).map_err(|e| format!("{e:#}"))?;
    let got = dir_identify(&p, |id| len_of(race, id))?;
    if tag != 0 && got != tag {
        return Err(format!("{} changed from content {tag} to {got}", key.show()));
    }
    if (got == id) == there {
        return Err(format!("{}: visible before: {there}, but content is {got}", key.show()));
    }
    Ok(())
}

/// A zygote process, one per checking thread.
pub struct Zygote {
    child: Child,
    to: ChildStdin,
    from: std::io::BufReader<ChildStdout>,
}

impl Zygote {
    fn start() -> Zygote {
        use std::os::unix::process::CommandExt;
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(["helper", "kv-zygote"]).env("LD_PRELOAD", verif_dir().join("target/shim.so")).stdin(Stdio::piped()).stdout(Stdio::piped());
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("zygote");
        let to = child.stdin.take().unwrap();
        let from = std::io::BufReader::new(child.stdout.take().unwrap());
        Zygote { child, to, from }
    }
    fn ask(&mut self, r: &Request) -> Reply {
        writeln!(self.to, "{}", serde_json::to_string(r).unwrap()).expect("zygote");
        self.to.flush().unwrap();
        let mut line = String::new();
        self.from.read_line(&mut line).expect("zygote");
        serde_json::from_str(&line).expect("the zygote died")
    }
}

impl Drop for Zygote {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn ask(r: &Request) -> Reply {
    thread_local! { static Z: std::cell::RefCell<Option<Zygote>> = const { std::cell::RefCell::new(None) }; }
    Z.with(|z| z.borrow_mut().get_or_insert_with(Zygote::start).ask(r))
}

pub fn fill(g: &mut G, id: u64) -> Fill {
    let len = match g.below(4) {
        0 => 16,
        1 => g.range(16, 200) as usize,
        2 => g.range(200, 9000) as usize,
        _ => g.range(9000, 120_000) as usize,
    };
    let end = *g.choose(&[End::Commit, End::Commit, End::Commit, End::Commit, End::Abandon, End::Error, End::Panic]);
    let piece = match g.below(3) {
        0 => len,
        1 => (len / 3).max(1),
        _ => g.range(1 + len as u64 / 40, len as u64) as usize,
    };
    Fill { id, len, piece, upto: if end == End::Commit { usize::MAX } else { g.usize(len + 1) }, patch: g.chance(1, 4), end }
}

/// Kinds of fault tried at every call an operation makes.
pub const FAULTS: &[Fault] = &[Fault::KillBefore, Fault::KillAfter, Fault::Errno(libc::ENOSPC), Fault::Errno(libc::EIO), Fault::Interrupt, Fault::Short];

pub fn copy_tree(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let t = e.file_type().unwrap();
        let d = to.join(e.file_name());
        if t.is_dir() {
            copy_tree(&e.path(), &d)
        } else if t.is_symlink() {
            std::os::unix::fs::symlink(std::fs::read_link(e.path()).unwrap(), d).unwrap()
        } else {
            std::fs::copy(e.path(), d).unwrap();
        }
    }
}
