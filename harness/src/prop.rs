//! A small property-testing engine.
//!
//! Every random choice of a case is drawn from a `G`, which records it on a tape of
//! integers. A failing case is shrunk by editing the tape (dropping runs of choices,
//! zeroing them, making them smaller) and re-running the property on the edited tape, so
//! whatever a generator builds -- documents, archives, operation histories, servers --
//! shrinks as one value, and the tape alone replays the failure. Case `i` of a sub-check
//! is a pure function of (VERIF_SEED, property, sub-check, i).

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// In the child that re-runs a fatal case: the choices, written as they are made.
fn tape_log() -> Option<&'static std::fs::File> {
    static LOG: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
    LOG.get_or_init(|| std::env::var_os("HARNESS_TAPE_LOG").and_then(|p| std::fs::File::create(p).ok())).as_ref()
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Source of choices for one case.
pub struct G {
    quiet: bool,
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub desc: String,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    /// tier of this run, for generators whose size depends on it
    pub thorough: bool,
    pub replaying: bool,
    /// extra evaluations made by this case, beyond one
    pub evals: u64,
}

impl G {
    pub fn fresh(seed: u64, thorough: bool) -> G {
        G { tape: vec![], pos: 0, rng: Some(Rng::new(seed)), desc: String::new(), labels: vec![], nontrivial: false, thorough, replaying: false, evals: 1, quiet: false }
    }
    /// Choices of its own, which aren't part of the case's.
    pub fn aside(seed: u64) -> G {
        G { quiet: true, ..G::fresh(seed, false) }
    }
    pub fn replay(tape: Vec<u64>, thorough: bool) -> G {
        G { tape, pos: 0, rng: None, desc: String::new(), labels: vec![], nontrivial: false, thorough, replaying: true, evals: 1, quiet: false }
    }
    pub fn tape(&self) -> &[u64] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
    /// A choice in 0..n; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos].min(n - 1)
        } else if let Some(rng) = &mut self.rng {
            let v = if n == u64::MAX { rng.next() } else { rng.next() % n };
            self.tape.push(v);
            v
        } else {
            self.tape.push(0);
            0
        };
        self.tape[self.pos] = v;
        self.pos += 1;
        if let Some(f) = tape_log().filter(|_| !self.quiet) {
            use std::io::Write;
            let _ = (&mut &*f).write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &'a [&'a T]) -> &'a T {
        xs[self.usize(xs.len())]
    }
    pub fn choose<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// index by weight
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// A length in lo..=hi, biased towards small ones.
    pub fn len(&mut self, lo: usize, hi: usize) -> usize {
        let mut n = lo;
        while n < hi && self.below(4) != 0 {
            n += 1;
        }
        n
    }
    pub fn vec<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let n = self.len(lo, hi);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn string(&mut self, alphabet: &[u8], lo: usize, hi: usize) -> String {
        let n = self.len(lo, hi);
        (0..n).map(|_| alphabet[self.usize(alphabet.len())] as char).collect()
    }
    pub fn bytes(&mut self, lo: usize, hi: usize) -> Vec<u8> {
        let n = self.range(lo as u64, hi as u64) as usize;
        (0..n).map(|_| self.below(256) as u8).collect()
    }
    /// n bytes that cost one choice
    pub fn blob(&mut self, lo: usize, hi: usize) -> Vec<u8> {
        let n = self.range(lo as u64, hi as u64) as usize;
        let mut r = Rng::new(self.below(1 << 32));
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            v.extend_from_slice(&r.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // 0 = leave in place
            let j = i - self.usize(i + 1);
            v.swap(i, j);
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if !self.desc.is_empty() {
            self.desc.push_str(" | ");
        }
        self.desc.push_str(s.as_ref());
        // in case the process doesn't live to tell
        if let Some(p) = std::env::var_os("HARNESS_NOTE_LOG") {
            let _ = std::fs::write(p, &self.desc);
        }
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// set if this failure is an instance of a listed known finding
    pub known: Option<&'static str>,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), known: None })
}

pub fn ff(msg: impl Into<String>) -> Fail {
    Fail { msg: msg.into(), known: None }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond { return $crate::prop::fail(format!($($arg)+)); }
    };
}

pub struct Sub {
    pub name: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub run: fn(&mut G) -> R,
}

/// Properties whose cases are pure computation: one that does not come back is a violation
/// and not a problem of the machinery.
pub fn pure(id: &str) -> bool {
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C16", "C17", "C20", "C24"].contains(&id)
}

/// Cases that start programs they have just written run in processes of their own: a
/// program is "busy" while a fork made by some other thread has it open for writing.
pub fn isolated(id: &str, sub: &str) -> bool {
    ["C21", "C22"].contains(&id) || [("C17", "choice"), ("C09", "installed"), ("C10", "installed")].contains(&(id, sub))
}

/// What came of a case.
#[derive(Default, serde::Serialize, serde::Deserialize)]
struct Outcome {
    evals: u64,
    labels: Vec<String>,
    nontrivial: Option<u64>,
    desc: String,
    tape: Vec<u64>,
    fail: Option<String>,
    known: Option<String>,
}

/// Whether the finding is in the committed list.
fn listed(id: &str, key: &str) -> bool {
    static LIST: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let list = LIST.get_or_init(|| std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default());
    let start = format!("known: property={id} {key}");
    list.lines().any(|l| l.starts_with(&start))
}

fn one_case(p: &Property, sub: &Sub, i: u64, thorough: bool) -> Outcome {
    let mut g = G::fresh(case_seed(p.id, sub.name, i), thorough);
    let r = run_case(sub, &mut g);
    let mut o = Outcome { evals: g.evals, labels: g.labels.drain(..).map(|l| l.to_string()).collect(), ..Default::default() };
    if g.nontrivial {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        if g.desc.is_empty() { g.tape.hash(&mut h) } else { g.desc.hash(&mut h) };
        o.nontrivial = Some(h.finish());
    }
    if let Err(f) = r {
        o.known = f.known.filter(|k| listed(p.id, k)).map(|k| k.to_string());
        if o.known.is_none() {
            o.tape = g.tape().to_vec();
        }
        o.fail = Some(f.msg);
    }
    if o.fail.is_some() || (g.nontrivial && i < 400) {
        o.desc = std::mem::take(&mut g.desc);
    }
    o
}

/// Runs the cases whose numbers come in on standard input.
pub fn worker(p: &Property, sub: &str) -> i32 {
    use std::io::{BufRead, Write};
    let sub = p.subs.iter().find(|s| s.name == sub).expect("unknown sub");
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(Ok(i)) = line.map(|l| l.trim().parse::<u64>()) else { return 2 };
        let o = one_case(p, sub, i, is_thorough());
        say(serde_json::to_string(&o).unwrap());
        let _ = std::io::stdout().flush();
    }
    0
}

struct Process {
    child: std::process::Child,
    to: std::process::ChildStdin,
    from: std::io::BufReader<std::process::ChildStdout>,
}

impl Process {
    fn start(id: &str, sub: &str) -> Process {
        let mut child = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["worker", id, sub])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .env_remove("HARNESS_PROGRESS")
            .spawn()
            .expect("spawn self");
        Process { to: child.stdin.take().unwrap(), from: std::io::BufReader::new(child.stdout.take().unwrap()), child }
    }
    fn case(&mut self, i: u64) -> Outcome {
        use std::io::{BufRead, Write};
        let mut line = String::new();
        let ok = writeln!(self.to, "{i}").is_ok() && self.from.read_line(&mut line).is_ok();
        match serde_json::from_str(&line) {
            Ok(o) if ok => o,
            _ => {
                eprintln!("case {i} ended its process: {:?}", self.child.wait());
                std::process::exit(97)
            }
        }
    }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static QUIET: RefCell<bool> = RefCell::new(false);
}

/// posy prints some explanations to standard output; ours goes where that was, theirs
/// nowhere.
pub fn mute_stdout() {
    use std::os::fd::FromRawFd;
    unsafe {
        let saved = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 10);
        let null = libc::open(b"/dev/null\0".as_ptr().cast(), libc::O_WRONLY | libc::O_CLOEXEC);
        if saved >= 0 && null >= 0 {
            let _ = OUT.set(std::fs::File::from_raw_fd(saved));
            libc::dup2(null, 1);
            libc::close(null);
        }
    }
}

pub static OUT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

pub fn say(s: String) {
    use std::io::Write;
    match OUT.get() {
        Some(mut f) => {
            let _ = f.write_all(format!("{s}\n").as_bytes());
        }
        None => println!("{s}"),
    }
}

macro_rules! say {
    ($($t:tt)*) => { $crate::prop::say(format!($($t)*)) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = format!("{info}");
        if QUIET.with(|q| *q.borrow()) {
            PANIC_MSG.with(|m| *m.borrow_mut() = msg);
        } else {
            old(info)
        }
    }));
}

/// Run `f`, turning a panic into an Err with its message.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    PANIC_MSG.with(|m| m.borrow_mut().clear());
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

fn run_case(sub: &Sub, g: &mut G) -> R {
    match catching(|| (sub.run)(g)) {
        Ok(r) => r,
        Err(p) => fail(format!("panicked: {p}")),
    }
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn is_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn case_seed(id: &str, sub: &str, i: u64) -> u64 {
    let mut r = Rng::new(fnv(format!("{}/{}/{}/{}", seed(), id, sub, i).as_bytes()));
    r.next()
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    known: HashMap<String, (u64, String)>,
}

fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

/// Where each worker thread says which case it is on, so that the supervisor can find the
/// case that killed the process.
pub struct Progress {
    file: Option<std::fs::File>,
}
impl Progress {
    pub fn open() -> Progress {
        Progress {
            file: std::env::var_os("HARNESS_PROGRESS").and_then(|p| std::fs::OpenOptions::new().write(true).create(true).open(p).ok()),
        }
    }
    fn set(&self, thread: usize, sub: u64, case: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.file {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(sub + 1).to_le_bytes());
            b[8..].copy_from_slice(&case.to_le_bytes());
            let _ = f.write_all_at(&b, thread as u64 * 16);
        }
    }
}

pub fn read_progress(p: &Path) -> Vec<(usize, u64)> {
    let data = std::fs::read(p).unwrap_or_default();
    data.chunks_exact(16)
        .filter_map(|c| {
            let sub = u64::from_le_bytes(c[..8].try_into().unwrap());
            let case = u64::from_le_bytes(c[8..].try_into().unwrap());
            (sub > 0).then(|| (sub as usize - 1, case))
        })
        .collect()
}

fn shrink(p: &Property, sub: &Sub, tape: Vec<u64>, first: Fail, thorough: bool) -> (Vec<u64>, Fail, String) {
    let deadline = Instant::now() + Duration::from_secs(60);
    let mut runs = 0u64;
    let mut best = tape;
    let mut best_fail = first;
    let mut best_desc = String::new();
    // canonicalize
    let attempt = |t: &[u64], runs: &mut u64| -> Option<(Vec<u64>, Fail, String)> {
        *runs += 1;
        let mut g = G::replay(t.to_vec(), thorough);
        match run_case(sub, &mut g) {
            Err(f) if !f.known.is_some_and(|k| listed(p.id, k)) => {
                let tp = g.tape().to_vec();
                Some((tp, f, std::mem::take(&mut g.desc)))
            }
            _ => None,
        }
    };
    if let Some((t, f, d)) = attempt(&best.clone(), &mut runs) {
        best = t;
        best_fail = f;
        best_desc = d;
    } else {
        best_fail.msg.push_str(" [not reproduced when replayed]");
        return (best, best_fail, best_desc);
    }
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.clone();
        // delete runs
        let mut size = (best.len() / 2).max(1).min(64);
        while size > 0 {
            let mut i = 0;
            while i + size <= best.len() {
                if Instant::now() > deadline || runs > 20000 {
                    return (best, best_fail, best_desc);
                }
                let mut t = best.clone();
                t.drain(i..i + size);
                match attempt(&t, &mut runs) {
                    Some((t, f, d)) if better(&t, &best) => {
                        best = t;
                        best_fail = f;
                        best_desc = d;
                    }
                    _ => {
                        // also try decrementing an earlier count together with the deletion
                        i += 1;
                    }
                }
            }
            size /= 2;
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            if Instant::now() > deadline || runs > 20000 {
                return (best, best_fail, best_desc);
            }
            let v = best[i];
            if v > 0 {
                let mut cands = vec![0, 1, v / 2, v - 1];
                cands.dedup();
                for c in cands {
                    if c >= best[i] {
                        continue;
                    }
                    let mut t = best.clone();
                    t[i] = c;
                    if let Some((t, f, d)) = attempt(&t, &mut runs) {
                        if better(&t, &best) {
                            best = t;
                            best_fail = f;
                            best_desc = d;
                            break;
                        }
                    }
                    // a smaller count plus dropping what it counted
                    for k in 1..=6usize {
                        if i + 1 + k > best.len() || best[i] == 0 {
                            break;
                        }
                        let mut t = best.clone();
                        t[i] = c;
                        t.drain(i + 1..i + 1 + k);
                        if let Some((t, f, d)) = attempt(&t, &mut runs) {
                            if better(&t, &best) {
                                best = t;
                                best_fail = f;
                                best_desc = d;
                                break;
                            }
                        }
                        if Instant::now() > deadline || runs > 20000 {
                            break;
                        }
                    }
                    if i >= best.len() {
                        break;
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return (best, best_fail, best_desc);
        }
    }
}

fn write_replay(id: &str, sub: &str, tape: &[u64], msg: &str, desc: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = serde_json::json!({"property": id, "sub": sub, "thorough": is_thorough(), "tape": tape, "message": msg, "case": desc});
    let h = fnv(format!("{sub}{tape:?}").as_bytes());
    let path = dir.join(format!("{id}-{sub}-{h:016x}.json"));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    path
}

fn report_violation(id: &str, sub: &str, tape: &[u64], f: &Fail, desc: &str) {
    let path = write_replay(id, sub, tape, &f.msg, desc);
    say!("--- {id}/{sub}: {}", trunc(&f.msg, 4000));
    say!("    case: {}", trunc(desc, 4000));
    say!("    replay: bash /verif/check.sh replay {}", path.display());
    say!("VIOLATION property={} replay={}", id, path.display());
}

/// Runs all of a property's sub-checks. Returns the process exit status.
pub fn run_property(p: &Property) -> i32 {
    let t0 = Instant::now();
    let thorough = is_thorough();
    let progress = Progress::open();
    let only = std::env::var("HARNESS_SUB").ok();
    let scale: f64 = std::env::var("HARNESS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let mut violations = 0;
    let mut total_evals = 0;
    let mut total_nt = 0;
    let mut rules = vec![];
    let mut samples = vec![];
    let mut subs_ev = vec![];
    let mut known_lines: BTreeMap<String, String> = BTreeMap::new();
    for (si, sub) in p.subs.iter().enumerate() {
        if only.as_deref().map_or(false, |o| o != sub.name) {
            continue;
        }
        let ts = Instant::now();
        let n = (((if thorough { sub.thorough } else { sub.quick }) as f64) * scale).ceil() as u64;
        let first_fail = AtomicU64::new(u64::MAX);
        let next = AtomicU64::new(0);
        let failure: Mutex<Option<(u64, Vec<u64>, Fail, String)>> = Mutex::new(None);
        let stats = Mutex::new(Stats::default());
        std::thread::scope(|s| {
            for t in 0..sub.threads.max(1) {
                let (first_fail, next, failure, stats, progress) = (&first_fail, &next, &failure, &stats, &progress);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        let mut local = Stats::default();
                        let mut process = isolated(p.id, sub.name).then(|| Process::start(p.id, sub.name));
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || i > first_fail.load(Ordering::SeqCst) {
                                break;
                            }
                            progress.set(t, si as u64, i);
                            crate::watchdog::begin(t, p.id, sub.name, i);
                            let o = match &mut process {
                                Some(w) => w.case(i),
                                None => one_case(p, sub, i, thorough),
                            };
                            crate::watchdog::end(t);
                            local.evals += o.evals;
                            for l in o.labels {
                                *local.labels.entry(l).or_default() += 1;
                            }
                            if let Some(h) = o.nontrivial {
                                local.nontrivial.insert(h);
                                if i < 400 {
                                    local.samples.push((i, trunc(&o.desc, 700)));
                                }
                            }
                            if let Some(msg) = o.fail {
                                if let Some(k) = o.known {
                                    let e = local.known.entry(k).or_insert((0, String::new()));
                                    e.0 += 1;
                                    if e.1.is_empty() {
                                        e.1 = msg;
                                    }
                                    continue;
                                }
                                first_fail.fetch_min(i, Ordering::SeqCst);
                                let mut fl = failure.lock().unwrap();
                                if fl.as_ref().map_or(true, |x| x.0 > i) {
                                    *fl = Some((i, o.tape, Fail { msg, known: None }, o.desc));
                                }
                            }
                        }
                        let mut st = stats.lock().unwrap();
                        st.evals += local.evals;
                        st.nontrivial.extend(local.nontrivial);
                        for (k, v) in local.labels {
                            *st.labels.entry(k).or_default() += v;
                        }
                        st.samples.extend(local.samples);
                        for (k, v) in local.known {
                            let e = st.known.entry(k).or_insert((0, v.1));
                            e.0 += v.0;
                        }
                    })
                    .unwrap();
            }
        });
        let mut st = stats.into_inner().unwrap();
        st.samples.sort();
        if let Some((i, tape, f, desc)) = failure.into_inner().unwrap() {
            violations += 1;
            eprintln!("{}/{}: case {} failed: {}; shrinking...", p.id, sub.name, i, trunc(&f.msg, 1000));
            let (t, f2, d2) = shrink(p, sub, tape.clone(), f.clone(), thorough);
            if f2.msg.contains("[not reproduced when replayed]") {
                report_violation(p.id, sub.name, &tape, &f2, &desc);
            } else {
                report_violation(p.id, sub.name, &t, &f2, &d2);
            }
        }
        let k: u64 = st.known.values().map(|v| v.0).sum();
        for (key, (_, m)) in &st.known {
            known_lines.entry(key.clone()).or_insert(m.clone());
        }
        eprintln!(
            "{}/{}: {} evaluations, {} distinct non-trivial, {} known-finding hits, {:.1}s {:?}",
            p.id, sub.name, st.evals, st.nontrivial.len(), k, ts.elapsed().as_secs_f64(), st.labels
        );
        total_evals += st.evals;
        total_nt += st.nontrivial.len() as u64;
        rules.push(format!("{}: {}", sub.name, sub.rule));
        let ss: Vec<&String> = st.samples.iter().take(4).map(|s| &s.1).collect();
        for s in ss.iter() {
            samples.push(serde_json::json!({"sub": sub.name, "case": s}));
        }
        subs_ev.push(serde_json::json!({
            "name": sub.name, "evaluations": st.evals, "distinct_nontrivial": st.nontrivial.len(),
            "classes": st.labels, "known_finding_cases_excluded": k, "wall_s": ts.elapsed().as_secs_f64(),
        }));
    }
    for (k, m) in &known_lines {
        say!("KNOWN-FINDING: property={} {} ({})", p.id, k, trunc(m, 300).replace('\n', " "));
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed(),
        "level": p.level,
        "coverage": {
            "evaluations": total_evals,
            "distinct_nontrivial": total_nt,
            "rule": rules.join(" || "),
            "samples": samples,
            "subchecks": subs_ev,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("can't write evidence: {e}");
        return 2;
    }
    if violations > 0 { 1 } else { 0 }
}

/// Replays one case. `Ok(Some)`: it fails.
pub fn replay_tape(p: &Property, sub: &str, tape: Vec<u64>, thorough: bool) -> Option<(R, String, Vec<u64>)> {
    let sub = p.subs.iter().find(|s| s.name == sub)?;
    let mut g = G::replay(tape, thorough);
    let r = run_case(sub, &mut g);
    Some((r, std::mem::take(&mut g.desc), g.tape().to_vec()))
}

pub fn replay_file(props: &[Property], path: &Path) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("can't read {}", path.display());
        return 2;
    };
    let v: serde_json::Value = serde_json::from_str(&text).unwrap();
    let id = v["property"].as_str().unwrap();
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let (r, desc, _) = replay_tape(p, v["sub"].as_str().unwrap(), tape, v["thorough"].as_bool().unwrap_or(false)).expect("unknown sub");
    say!("case: {desc}");
    match r {
        Ok(()) => {
            say!("passes");
            0
        }
        Err(f) => {
            say!("fails: {}", f.msg);
            say!("VIOLATION property={} replay={}", id, path.display());
            1
        }
    }
}

/// One generated case by index (used by the supervisor, in a child process). With `dump`,
/// prints the tape choices as they are made... the tape is written before the case runs.
pub fn single_case(p: &Property, sub: usize, case: u64) -> i32 {
    let sub = &p.subs[sub];
    let mut g = G::fresh(case_seed(p.id, sub.name, case), is_thorough());
    match run_case(sub, &mut g) {
        Ok(()) => 0,
        Err(f) => {
            say!("{}", f.msg);
            1
        }
    }
}

/// Shrinks and reports a case that kills the process; `dies` runs a tape in a child.
pub fn crash_violation(p: &Property, sub: usize, tape: Vec<u64>, how: &str, dies: &dyn Fn(&[u64]) -> Option<String>) -> i32 {
    let sub = &p.subs[sub];
    let deadline = Instant::now() + Duration::from_secs(90);
    let mut best = tape;
    let mut desc = String::new();
    if let Some(d) = dies(&best) {
        desc = d;
        let mut size = (best.len() / 2).max(1);
        while size > 0 && Instant::now() < deadline {
            let mut i = 0;
            while i + size <= best.len() && Instant::now() < deadline {
                let mut t = best.clone();
                t.drain(i..i + size);
                match dies(&t) {
                    Some(d) => {
                        best = t;
                        desc = d;
                    }
                    None => i += size,
                }
            }
            size /= 2;
        }
    }
    report_violation(p.id, sub.name, &best, &Fail { msg: how.to_string(), known: None }, if desc.is_empty() { "(crashes before it can be described)" } else { &desc });
    1
}

/// Runs `f` on its own thread and gives up on it after a minute.
pub fn in_time<T: Send + 'static>(what: &str, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = catching(f);
        let _ = tx.send(r);
    });
    match rx.recv_timeout(std::time::Duration::from_secs(60)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(p)) => fail(format!("{what}: panicked: {p}")),
        Err(_) => fail(format!("{what}: still not done after 60 s")),
    }
}

pub fn slurp(r: &mut dyn std::io::Read) -> std::io::Result<Vec<u8>> {
    let mut v = vec![];
    r.read_to_end(&mut v)?;
    Ok(v)
}
