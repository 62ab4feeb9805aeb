//! A scriptable HTTP server on the loopback, and how posy's HTTP client is set up on it.
use posy::verif_hooks::*;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    /// path and query
    pub path: String,
    pub headers: Vec<(String, String)>,
}

impl Req {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Framing {
    Length,
    /// sizes of the chunks, repeated
    Chunked(Vec<usize>),
    /// until the connection is closed
    Close,
    /// the declared length is that of the body, but only so much of it is sent
    Cut(usize),
    /// the body is the whole answer, status line and all
    Raw,
    /// with pauses of so many ms, and so many bytes of the body after each but the first
    Slow(Vec<(usize, u64)>),
}

#[derive(Clone, Debug)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub framing: Framing,
}

impl Resp {
    pub fn new(status: u16, body: impl Into<Vec<u8>>) -> Resp {
        Resp { status, headers: vec![], body: body.into(), framing: Framing::Length }
    }
    pub fn with(mut self, name: &str, value: impl Into<String>) -> Resp {
        self.headers.push((name.into(), value.into()));
        self
    }
    pub fn redirect(status: u16, to: impl Into<String>) -> Resp {
        Resp::new(status, "moved").with("Location", to)
    }
}

type Handler = Box<dyn FnMut(&Req) -> Resp + Send>;

struct State {
    handler: Mutex<Handler>,
    log: Mutex<Vec<Req>>,
    stop: AtomicBool,
}

pub struct Server {
    state: Arc<State>,
    addr: std::net::SocketAddr,
}

fn connection(mut s: TcpStream, st: &State) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(std::time::Duration::from_secs(120)))?;
    let mut r = BufReader::new(s.try_clone()?);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let mut w = line.split_whitespace();
        let (method, path) = (w.next().unwrap_or("").to_string(), w.next().unwrap_or("").to_string());
        let mut headers = vec![];
        loop {
            let mut h = String::new();
            if r.read_line(&mut h)? == 0 {
                return Ok(());
            }
            let h = h.trim_end();
            if h.is_empty() {
                break;
            }
            if let Some((n, v)) = h.split_once(':') {
                headers.push((n.trim().to_string(), v.trim().to_string()));
            }
        }
        let req = Req { method, path, headers };
        let len: u64 = req.header("content-length").and_then(|v| v.parse().ok()).unwrap_or(0);
        std::io::copy(&mut r.by_ref().take(len), &mut std::io::sink())?;
        if st.stop.load(Ordering::SeqCst) {
            return Ok(());
        }
        st.log.lock().unwrap().push(req.clone());
        let resp = (st.handler.lock().unwrap())(&req);
        if resp.framing == Framing::Raw {
            s.write_all(&resp.body)?;
            let _ = s.shutdown(std::net::Shutdown::Both);
            return Ok(());
        }
        let mut out = format!("HTTP/1.1 {} X\r\n", resp.status).into_bytes();
        for (n, v) in &resp.headers {
            out.extend(n.as_bytes());
            out.extend(b": ");
            // header values are bytes, one per char here
            out.extend(v.chars().map(|c| c as u32 as u8));
            out.extend(b"\r\n");
        }
        let bodiless = req.method == "HEAD" || resp.status == 304 || resp.status == 204;
        let mut close = resp.headers.iter().any(|(n, v)| n == "Connection" && v == "close");
        match &resp.framing {
            Framing::Raw => unreachable!(),
            Framing::Length => {
                if resp.status != 304 && resp.status != 204 {
                    out.extend(format!("Content-Length: {}\r\n", resp.body.len()).bytes());
                }
                out.extend(b"\r\n");
                if !bodiless {
                    out.extend(&resp.body);
                }
            }
            Framing::Slow(pieces) => {
                out.extend(format!("Content-Length: {}\r\n\r\n", resp.body.len()).bytes());
                let mut rest: &[u8] = if bodiless { &[] } else { &resp.body };
                for (n, ms) in pieces {
                    std::thread::sleep(std::time::Duration::from_millis(*ms));
                    s.write_all(&out)?;
                    let (now, later) = rest.split_at((*n).min(rest.len()));
                    out = now.to_vec();
                    rest = later;
                }
                out.extend(rest);
            }
            Framing::Cut(n) => {
                out.extend(format!("Content-Length: {}\r\n\r\n", resp.body.len()).bytes());
                if !bodiless {
                    out.extend(&resp.body[..(*n).min(resp.body.len())]);
                    close = true;
                }
            }
            Framing::Close => {
                out.extend(b"Connection: close\r\n\r\n");
                if !bodiless {
                    out.extend(&resp.body);
                }
                close = true;
            }
            Framing::Chunked(sizes) => {
                if !bodiless {
                    out.extend(b"Transfer-Encoding: chunked\r\n\r\n");
                    let mut rest = &resp.body[..];
                    let mut i = 0;
                    while !rest.is_empty() {
                        let n = sizes.get(i % sizes.len().max(1)).copied().unwrap_or(1000).clamp(1, rest.len());
                        out.extend(format!("{n:x}\r\n").bytes());
                        out.extend(&rest[..n]);
                        out.extend(b"\r\n");
                        rest = &rest[n..];
                        i += 1;
                    }
                    out.extend(b"0\r\n\r\n");
                } else {
                    out.extend(b"\r\n");
                }
            }
        }
        s.write_all(&out)?;
        if close {
            let _ = s.shutdown(std::net::Shutdown::Both);
            return Ok(());
        }
    }
}

impl Server {
    pub fn new(handler: impl FnMut(&Req) -> Resp + Send + 'static) -> Server {
        // Every server gets its own loopback address: ports of one address run out when
        // thousands of servers come and go.
        static COUNT: AtomicU32 = AtomicU32::new(0);
        let mut tries = 0;
        let l = loop {
            let n = COUNT.fetch_add(1, Ordering::SeqCst).wrapping_add(std::process::id().wrapping_mul(40_503));
            let ip = std::net::Ipv4Addr::new(127, 1 + (n >> 16) as u8 % 250, 1 + (n >> 8) as u8 % 250, 1 + n as u8 % 250);
            match TcpListener::bind((ip, 0)) {
                Ok(l) => break l,
                Err(e) if tries > 100 => {
                    eprintln!("no loopback address to listen on: {e}");
                    std::process::exit(3)
                }
                Err(_) => {
                    tries += 1;
                    std::thread::sleep(std::time::Duration::from_millis(20));
                }
            }
        };
        let addr = l.local_addr().unwrap();
        let state = Arc::new(State { handler: Mutex::new(Box::new(handler)), log: Mutex::new(vec![]), stop: AtomicBool::new(false) });
        let st = state.clone();
        std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn(move || {
                for c in l.incoming() {
                    if st.stop.load(Ordering::SeqCst) {
                        return;
                    }
                    let Ok(c) = c else { continue };
                    let st = st.clone();
                    let _ = std::thread::Builder::new().stack_size(512 << 10).spawn(move || {
                        let _ = connection(c, &st);
                    });
                }
            })
            .expect("server thread");
        Server { state, addr }
    }
    pub fn serve(&self, handler: impl FnMut(&Req) -> Resp + Send + 'static) {
        *self.state.handler.lock().unwrap() = Box::new(handler);
    }
    pub fn url(&self, path: &str) -> url::Url {
        url::Url::parse(&format!("http://{}/{}", self.addr, path.trim_start_matches('/'))).unwrap()
    }
    /// The next `n` connections are refused.
    pub fn refuse(&self, n: usize) {
        let mut r = REFUSING.lock().unwrap();
        r.retain(|(a, _)| *a != self.addr);
        r.push((self.addr, n));
        ANY_REFUSING.store(true, Ordering::SeqCst);
    }
    /// Requests received since the last call.
    pub fn take(&self) -> Vec<Req> {
        std::mem::take(&mut *self.state.log.lock().unwrap())
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        REFUSING.lock().unwrap().retain(|(a, _)| *a != self.addr);
        self.state.stop.store(true, Ordering::SeqCst);
        *self.state.handler.lock().unwrap() = Box::new(|_| Resp::new(404, ""));
        let _ = TcpStream::connect(self.addr);
    }
}

pub fn http(dir: &Path) -> Http {
    Http::new(KVFileStore::new(&dir.join("http")).unwrap(), KVFileStore::new(&dir.join("by-hash")).unwrap())
}

/// What a directory holds, minus lock files and empty directories.
pub fn stored_files(dir: &Path) -> Vec<std::path::PathBuf> {
    let mut out = vec![];
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p)
            } else if p.extension().map_or(true, |x| x != "lock") {
                out.push(p)
            }
        }
    }
    out.sort();
    out
}

thread_local! {
    static HURRY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static NAPS: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) };
}

/// Sleeps of this thread take a five-hundredth of their time from now on.
pub fn hurry() {
    HURRY.with(|h| h.set(true));
}

/// How long (ms) this thread would have slept, each time, since the last call.
pub fn naps() -> Vec<u64> {
    NAPS.with(|n| std::mem::take(&mut *n.borrow_mut()))
}

fn nap(clock: libc::clockid_t, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i64 {
    // SAFETY: a system call with the arguments of the caller, who keeps its contract
    unsafe {
        if flags == 0 && !req.is_null() && HURRY.try_with(|h| h.get()).unwrap_or(false) {
            let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
            let _ = NAPS.try_with(|n| n.borrow_mut().push(ns / 1_000_000));
            let short = libc::timespec { tv_sec: (ns / 500 / 1_000_000_000) as libc::time_t, tv_nsec: (ns / 500 % 1_000_000_000) as _ };
            return libc::syscall(libc::SYS_clock_nanosleep, clock, 0, &short, std::ptr::null_mut::<libc::timespec>());
        }
        libc::syscall(libc::SYS_clock_nanosleep, clock, flags, req, rem)
    }
}

/// In place of the C library's.
#[no_mangle]
pub extern "C" fn clock_nanosleep(clock: libc::clockid_t, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if nap(clock, flags, req, rem) == 0 { 0 } else { std::io::Error::last_os_error().raw_os_error().unwrap_or(0) }
}

/// Addresses that refuse their next so many connections.
static REFUSING: Mutex<Vec<(std::net::SocketAddr, usize)>> = Mutex::new(vec![]);
static ANY_REFUSING: AtomicBool = AtomicBool::new(false);

/// In place of the C library's.
#[no_mangle]
pub extern "C" fn connect(fd: i32, addr: *const libc::sockaddr, len: libc::socklen_t) -> i32 {
    // SAFETY: a system call with the arguments of the caller, who keeps its contract
    unsafe {
        if ANY_REFUSING.load(Ordering::SeqCst) && (*addr).sa_family as i32 == libc::AF_INET && len as usize >= std::mem::size_of::<libc::sockaddr_in>() {
            let a = &*(addr as *const libc::sockaddr_in);
            let a: std::net::SocketAddr = (std::net::Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr)), u16::from_be(a.sin_port)).into();
            let mut r = REFUSING.lock().unwrap();
            if let Some((_, n)) = r.iter_mut().find(|(to, n)| *to == a && *n > 0) {
                *n -= 1;
                *libc::__errno_location() = libc::ECONNREFUSED;
                return -1;
            }
        }
        libc::syscall(libc::SYS_connect, fd, addr, len) as i32
    }
}

/// In place of the C library's.
#[no_mangle]
pub extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if nap(libc::CLOCK_REALTIME, 0, req, rem) == 0 { 0 } else { -1 }
}
