//! C14: the HTTP cache never changes what a request means.
use crate::archive::scratch;
use crate::prop::*;
use crate::server::*;
use posy::verif_hooks::*;
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant, SystemTime};

pub fn property() -> Property {
    Property {
        id: "C14",
        level: "exploration",
        assumptions: &[
            "the origin is honest: it answers 304 only if the validator sent is that of what it has, and a version of a page keeps its headers",
            "a response with Last-Modified but no explicit lifetime may or may not be served without asking (RFC 9111 4.2.2); one with no information at all may not",
            "a response marked immutable without max-age may be taken as fresh for a day, even with an Expires in the past (http-cache-semantics' choice)",
            "lifetimes are tested with Age headers and with pauses of about a second",
            "the origin answers with statuses that are not retried (no 500, 503, 520, 527)",
        ],
        subs: vec![
            Sub { name: "history", rule: "requests (GET, HEAD, cache modes, request headers, several clients) against pages that change between versions, with every combination of cache headers, validators, redirects and broken transfers; every result is compared with what the origin has, what it was asked, and what the headers allow; non-trivial: at least one answer without asking, one revalidated by 304 and one change noticed", quick: 12_000, thorough: 400_000, threads: 16, run: history },
            Sub { name: "aging", rule: "the same with lifetimes of one second and real pauses; non-trivial: an entry served without asking before, and asked for again after, its lifetime", quick: 250, thorough: 5_000, threads: 64, run: aging },
            Sub { name: "concurrent", rule: "several clients on one cache while a page changes: each answer is a complete version, one that was current during the request if the headers demand asking; non-trivial: at least two versions were seen", quick: 400, thorough: 20_000, threads: 8, run: concurrent },
        ],
    }
}

#[derive(Clone, Debug, PartialEq)]
enum What {
    Page(u16, usize, Framing),
    Redirect(u16, usize),
    /// no Location
    Nowhere(u16),
    Cut(usize, usize),
}

/// One version of what is at an URL.
#[derive(Clone, Debug)]
struct Version {
    what: What,
    headers: Vec<(String, String)>,
    etag: Option<String>,
    modified: Option<String>,
    /// repeats the ETag / the other headers in a 304
    etag_304: bool,
    headers_304: bool,
    ignores_conditions: bool,
}

impl Version {
    fn body(&self, url: usize, v: usize) -> Vec<u8> {
        let n = match &self.what {
            What::Page(_, n, _) | What::Cut(n, _) => *n,
            _ => 0,
        };
        let mut b = format!("<{url}.{v}>").into_bytes();
        b.extend((0..n).map(|i| ((i * 31 + v * 7 + url) % 251) as u8));
        b
    }
    fn status(&self) -> u16 {
        match &self.what {
            What::Page(s, ..) | What::Redirect(s, _) | What::Nowhere(s) => *s,
            What::Cut(..) => 200,
        }
    }
    fn cc(&self) -> BTreeMap<String, Option<String>> {
        let mut out = BTreeMap::new();
        for (n, v) in &self.headers {
            if n.eq_ignore_ascii_case("cache-control") {
                for p in v.split(',') {
                    let (k, v) = match p.split_once('=') {
                        Some((k, v)) => (k, Some(v.trim().trim_matches('"').to_string())),
                        None => (p, None),
                    };
                    out.insert(k.trim().to_ascii_lowercase(), v);
                }
            }
        }
        out
    }
    fn header(&self, n: &str) -> Option<&str> {
        self.headers.iter().find(|h| h.0.eq_ignore_ascii_case(n)).map(|h| h.1.as_str())
    }
    fn no_store(&self) -> bool {
        self.cc().contains_key("no-store")
    }
    /// The explicit lifetime, if any.
    fn lifetime(&self) -> Option<f64> {
        if let Some(v) = self.cc().get("max-age") {
            return Some(v.as_ref().and_then(|v| v.parse().ok()).unwrap_or(0.0));
        }
        let e = self.header("expires")?;
        let from = self.header("date").and_then(|d| parse_date(d)).unwrap_or_else(now);
        // (a missing Date counts from receipt; all these are far from that)
        Some(parse_date(e).map_or(0.0, |e| e as f64 - from as f64))
    }
    fn age(&self) -> f64 {
        self.header("age").and_then(|a| a.parse().ok()).unwrap_or(0.0)
    }
    fn silent(&self) -> bool {
        self.lifetime().is_none() && self.modified.is_none() && !self.cc().contains_key("immutable") && !self.cc().contains_key("s-maxage")
    }
}

fn now() -> i64 {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs() as i64
}

/// RFC 9110's IMF-fixdate
fn date(t: i64) -> String {
    let days = t.div_euclid(86_400);
    let s = t.rem_euclid(86_400);
    // civil from days (Hinnant)
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (m <= 2) as i64;
    let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][days.rem_euclid(7) as usize];
    let mn = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1];
    format!("{wd}, {d:02} {mn} {y} {:02}:{:02}:{:02} GMT", s / 3600, s / 60 % 60, s % 60)
}

/// Only what `date` printed.
fn parse_date(s: &str) -> Option<i64> {
    let w: Vec<&str> = s.split([' ', ':']).collect();
    if w.len() != 8 {
        return None;
    }
    let d: i64 = w[1].parse().ok()?;
    let m = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"].iter().position(|x| *x == w[2])? as i64 + 1;
    let y: i64 = w[3].parse().ok()?;
    let (h, mi, se): (i64, i64, i64) = (w[4].parse().ok()?, w[5].parse().ok()?, w[6].parse().ok()?);
    let y2 = y - (m <= 2) as i64;
    let era = y2.div_euclid(400);
    let yoe = y2.rem_euclid(400);
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    Some((era * 146_097 + doe - 719_468) * 86_400 + h * 3600 + mi * 60 + se)
}

fn recase(g: &mut G, s: &str) -> String {
    match g.below(8) {
        0 => s.to_uppercase(),
        1 => {
            let mut up = true;
            s.chars()
                .map(|c| {
                    let r = if up { c.to_ascii_uppercase() } else { c };
                    up = c == '-';
                    r
                })
                .collect()
        }
        _ => s.to_string(),
    }
}

fn version(g: &mut G, v: usize, urls: usize, seconds: &[u64]) -> Version {
    let what = match g.below(12) {
        0 => What::Page(*g.choose(&[404u16, 410, 403, 203, 300, 405, 414]), g.usize(300), Framing::Length),
        1 | 2 => What::Redirect(*g.choose(&[301u16, 302, 303, 307, 308]), g.usize(urls)),
        3 if g.chance(1, 3) => What::Nowhere(*g.choose(&[301u16, 302, 308])),
        4 if g.bool() => What::Cut(100 + g.usize(20_000), g.usize(100)),
        _ => {
            let n = match g.below(4) {
                0 => 0,
                1 => g.usize(100),
                2 => 8000 + g.usize(400),
                _ => g.usize(60_000),
            };
            let f = match g.below(3) {
                0 => Framing::Length,
                1 => Framing::Chunked(g.vec(1, 3, |g| 1 + g.usize(9000))),
                _ => Framing::Close,
            };
            What::Page(200, n, f)
        }
    };
    let mut cc: Vec<String> = vec![];
    let life = g.below(4);
    if life == 0 || life == 1 {
        let n = *g.choose(seconds);
        cc.push(if g.chance(1, 8) { format!("max-age=\"{n}\"") } else { format!("max-age={n}") });
    }
    for (d, p) in [("no-cache", 6), ("no-store", 6), ("private", 10), ("public", 10), ("must-revalidate", 10), ("immutable", 12), ("proxy-revalidate", 20), ("no-transform", 20), ("stale-if-error=100", 20)] {
        if g.chance(1, p) {
            cc.push(d.into());
        }
    }
    g.shuffle(&mut cc);
    let cc: Vec<String> = cc.iter().map(|c| recase(g, c)).collect();
    let mut headers: Vec<(String, String)> = vec![];
    if !cc.is_empty() {
        if cc.len() > 1 && g.chance(1, 4) {
            headers.push(("Cache-Control".into(), cc[0].clone()));
            headers.push(("cache-control".into(), cc[1..].join(",")));
        } else {
            headers.push((recase(g, "cache-control"), cc.join(g.pick(&[", ", ",", " , "]))));
        }
    }
    let t = now();
    if g.chance(1, 3) {
        headers.push(("Date".into(), date(t)));
    }
    if life == 2 {
        let e = *g.choose(&[t + 10_000, t - 10_000, 0]);
        headers.push(("Expires".into(), if e == 0 { "0".into() } else { date(e) }));
    }
    if g.chance(1, 6) {
        headers.push(("Age".into(), g.choose(&[0u64, 10, 1000, 50_000]).to_string()));
    }
    match g.below(12) {
        0 => headers.push(("Vary".into(), "Accept".into())),
        1 => headers.push(("vary".into(), "accept-encoding, ACCEPT".into())),
        2 if g.bool() => headers.push(("Vary".into(), "*".into())),
        3 => {
            headers.push(("Vary".into(), "Accept".into()));
            headers.push(("Vary".into(), "Cookie".into()));
        }
        _ => (),
    }
    headers.push(("X-Version".into(), v.to_string()));
    if g.chance(1, 10) {
        headers.push(("Connection".into(), "keep-alive".into()));
    }
    let etag = match g.below(4) {
        0 => None,
        1 => Some(format!("W/\"v{v}\"")),
        _ => Some(format!("\"v{v}\"")),
    };
    let modified = g.bool().then(|| date(t - 1_000_000 + v as i64 * 1000));
    Version { what, headers, etag, modified, etag_304: g.chance(4, 5), headers_304: g.chance(4, 5), ignores_conditions: g.chance(1, 6) }
}

struct Asked {
    method: String,
    url: usize,
    version: usize,
    status: u16,
}

/// What the origin has, newest last, and what it was asked.
struct World {
    pages: Vec<Vec<Version>>,
    asked: Vec<Asked>,
}

fn handle(w: &mut World, r: &Req) -> Resp {
    let Some(url) = (0..PLACES.len()).find(|n| r.path.strip_prefix('/') == Some(place(*n))) else { return Resp::new(404, "") };
    let Some(vs) = w.pages.get(url) else { return Resp::new(404, "") };
    let n = vs.len() - 1;
    let v = &vs[n];
    let same = if let Some(inm) = r.header("if-none-match") {
        let weak = |s: &str| s.trim().trim_start_matches("W/").to_string();
        v.etag.as_ref().map_or(false, |e| inm.split(',').any(|x| weak(x) == weak(e)))
    } else if let Some(ims) = r.header("if-modified-since") {
        match (&v.modified, parse_date(ims)) {
            (Some(m), Some(t)) => parse_date(m).unwrap() <= t,
            _ => false,
        }
    } else {
        false
    };
    let mut out;
    if same && !v.ignores_conditions {
        out = Resp::new(304, "");
        if v.headers_304 {
            out.headers = v.headers.clone();
        }
        if v.etag_304 {
            out.headers.extend(v.etag.clone().map(|e| ("ETag".to_string(), e)));
        }
    } else {
        let body = v.body(url, n);
        out = match &v.what {
            What::Page(s, _, f) => Resp { framing: f.clone(), ..Resp::new(*s, body) },
            What::Redirect(s, to) => Resp::new(*s, body).with("Location", location(url, *to, n, r.header("host").unwrap_or(""))),
            What::Nowhere(s) => Resp::new(*s, body),
            What::Cut(_, at) => Resp { framing: Framing::Cut(*at), ..Resp::new(200, body) },
        };
        out.headers.extend(v.headers.clone());
        out.headers.extend(v.etag.clone().map(|e| ("ETag".to_string(), e)));
        out.headers.extend(v.modified.clone().map(|e| ("Last-Modified".to_string(), e)));
    }
    w.asked.push(Asked { method: r.method.clone(), url, version: n, status: out.status });
    out
}

/// where a page is: in directories of different depth, some of them easily confused
const PLACES: [&str; 7] = ["p0?v=1", "p0?v=2", "e/f/p2", "p0", "d/p0", "P0", "p0/"];

fn place(i: usize) -> &'static str {
    PLACES[i]
}

/// a way to say, from a page, where another one is
fn location(from: usize, to: usize, n: usize, host: &str) -> String {
    let to = place(to);
    let up = "../".repeat(place(from).matches('/').count());
    match n % 4 {
        0 => format!("/{to}"),
        1 => format!("{up}{to}#part"),
        2 => format!("http://{host}/{to}"),
        _ => format!("{up}./{to}"),
    }
}

#[derive(Clone, Debug)]
enum Op {
    Change(usize, Version),
    Get { url: usize, head: bool, mode: CacheMode, accept: Option<&'static str>, cc: Option<&'static str> },
    Reopen,
    Sleep(u64),
}

/// What posy may have stored for a page.
#[derive(Clone)]
struct Entry {
    version: usize,
    /// when it was received or validated: between these
    from: Instant,
    to: Instant,
    accept: Option<&'static str>,
    /// it is surely still there
    sure: bool,
}

#[derive(Default)]
struct Seen {
    cached: u32,
    validated: u32,
    changed: u32,
    aged: bool,
}

fn get(g: &mut G, urls: usize) -> Op {
    Op::Get {
        url: g.usize(urls),
        head: g.chance(1, 8),
        mode: *g.choose(&[CacheMode::Default, CacheMode::Default, CacheMode::Default, CacheMode::Default, CacheMode::OnlyIfCached, CacheMode::NoStore]),
        accept: *g.choose(&[None, None, None, Some("text/html"), Some("*/*")]),
        cc: if g.chance(1, 10) { Some(g.pick(&["no-cache", "max-age=0"])) } else { None },
    }
}

fn history(g: &mut G) -> R {
    let urls = *g.choose(&[1usize, 1, 1, 2, 2, 4, 7]);
    let secs = [0u64, 1000, 1000, 100_000];
    let first: Vec<Version> = (0..urls).map(|_| version(g, 0, urls, &secs)).collect();
    let mut count = vec![1; urls];
    let ops = g.vec(4, 24, |g| match g.below(10) {
        0 | 1 | 2 => {
            let u = g.usize(urls);
            count[u] += 1;
            Op::Change(u, version(g, count[u] - 1, urls, &secs))
        }
        3 if g.chance(1, 3) => Op::Reopen,
        _ => get(g, urls),
    });
    g.note(format!("at first {first:?}; {ops:?}"));
    let seen = play(first, ops)?;
    g.nontrivial = seen.cached > 0 && seen.validated > 0 && seen.changed > 0;
    if seen.cached > 0 {
        g.label("answered without asking");
    }
    if seen.validated > 0 {
        g.label("revalidated");
    }
    if seen.changed > 0 {
        g.label("change noticed");
    }
    Ok(())
}

fn aging(g: &mut G) -> R {
    let mut v = version(g, 0, 1, &[1]);
    v.what = What::Page(200, g.usize(1000), Framing::Length);
    if v.lifetime() != Some(1.0) {
        v.headers.retain(|h| !["cache-control", "expires", "age"].contains(&h.0.to_ascii_lowercase().as_str()));
        let life = g.below(3);
        v.headers.push(match life {
            0 => ("Cache-Control".into(), "max-age=1".into()),
            1 => ("Cache-Control".into(), "public, max-age=1".into()),
            _ => ("Cache-Control".into(), "must-revalidate,max-age=1".into()),
        });
    }
    let one = |mode| Op::Get { url: 0, head: false, mode, accept: None, cc: None };
    let mut ops = vec![one(CacheMode::Default), one(*g.choose(&[CacheMode::Default, CacheMode::OnlyIfCached]))];
    if g.bool() {
        let mut w = version(g, 1, 1, &[1]);
        w.what = What::Page(200, g.usize(1000), Framing::Length);
        ops.push(Op::Change(0, w));
        ops.push(one(CacheMode::Default));
    }
    ops.push(Op::Sleep(1100));
    ops.extend(g.vec(1, 3, |g| one(*g.choose(&[CacheMode::Default, CacheMode::OnlyIfCached, CacheMode::Default]))));
    if g.chance(1, 3) {
        ops.push(Op::Sleep(1100));
        ops.push(one(CacheMode::Default));
    }
    g.note(format!("at first {v:?}; {ops:?}"));
    let seen = play(vec![v], ops)?;
    g.nontrivial = seen.cached > 0 && seen.aged;
    Ok(())
}

fn play(first: Vec<Version>, ops: Vec<Op>) -> Result<Seen, Fail> {
    let world = Arc::new(Mutex::new(World { pages: first.into_iter().map(|v| vec![v]).collect(), asked: vec![] }));
    let w2 = world.clone();
    let server = Server::new(move |r| handle(&mut w2.lock().unwrap(), r));
    let dir = scratch();
    let path = dir.path().to_path_buf();
    in_time("requests", move || run(&path, &server, &world, &ops))?.map_err(ff)
}

fn contents(dir: &Path) -> BTreeMap<std::path::PathBuf, Vec<u8>> {
    stored_files(dir).into_iter().map(|p| (p.clone(), std::fs::read(&p).unwrap_or_default())).collect()
}

fn run(path: &Path, server: &Server, world: &Mutex<World>, ops: &[Op]) -> Result<Seen, String> {
    let mut client = http(path);
    let mut entries: BTreeMap<(String, usize), Entry> = BTreeMap::new();
    let mut seen = Seen::default();
    for (i, op) in ops.iter().enumerate() {
        let (url, head, mode, accept, cc) = match op {
            Op::Change(u, v) => {
                world.lock().unwrap().pages[*u].push(v.clone());
                continue;
            }
            Op::Reopen => {
                client = http(path);
                continue;
            }
            Op::Sleep(ms) => {
                std::thread::sleep(Duration::from_millis(*ms));
                continue;
            }
            Op::Get { url, head, mode, accept, cc } => (*url, *head, *mode, *accept, *cc),
        };
        let method = if head { "HEAD" } else { "GET" };
        let at = format!("step {i} {op:?}");
        let mut rq = ::http::Request::builder().method(method).uri(server.url(place(url)).as_str());
        if let Some(a) = accept {
            rq = rq.header("Accept", a);
        }
        if let Some(c) = cc {
            rq = rq.header("Cache-Control", c);
        }
        let files = if mode == CacheMode::NoStore { Some(contents(path)) } else { None };
        world.lock().unwrap().asked.clear();
        let t0 = Instant::now();
        let r = client.request(rq.body(()).unwrap(), mode);
        let got = match r {
            Err(e) => Err((e.downcast_ref::<NotCached>().is_some(), format!("{e:?}"))),
            Ok(mut r) => {
                let u = r.extensions().get::<url::Url>().map(|u| u.to_string());
                match slurp(r.body_mut()) {
                    Err(e) => Err((false, e.to_string())),
                    Ok(b) => Ok((r.status().as_u16(), b, r.headers().get("x-version").map(|v| v.to_str().unwrap().to_string()), u)),
                }
            }
        };
        let t1 = Instant::now();
        let w = world.lock().unwrap();
        if let Some(a) = w.asked.iter().find(|a| a.method != method) {
            return Err(format!("{at}: asks with {}", a.method));
        }
        if mode == CacheMode::OnlyIfCached && !w.asked.is_empty() {
            return Err(format!("{at}: cache-only, but the origin is asked for {:?}", w.asked.iter().map(|a| a.url).collect::<Vec<_>>()));
        }
        if let Some(f) = files {
            if f != contents(path) {
                return Err(format!("{at}: no-store, but the cache has changed"));
            }
        }
        // follow what must have happened, hop by hop
        let mut asked = w.asked.iter().peekable();
        let mut cur = url;
        let mut expected = None; // Some(Ok(url, version)) | Some(Err(why))
        for hop in 0..=5 {
            let key = (method.to_string(), cur);
            let mut version = None;
            let mut n_asked = 0;
            let mut not_modified = false;
            // a 304 that is of no use may be asked again
            while asked.peek().map_or(false, |a| a.url == cur) && (n_asked == 0 || not_modified) {
                let a = asked.next().unwrap();
                n_asked += 1;
                not_modified = a.status == 304;
                version = Some(a.version);
            }
            let from_cache = version.is_none();
            if from_cache {
                let Some(e) = entries.get(&key) else {
                    expected = Some(Err(format!("page {cur} was never stored")));
                    break;
                };
                let v = &w.pages[cur][e.version];
                let cc_v = v.cc();
                let stale = {
                    let least = t0.duration_since(e.to).as_secs_f64() + v.age();
                    // (immutable without max-age counts as a day, whatever Expires says)
                    let immutable = cc_v.contains_key("immutable") && !cc_v.contains_key("max-age");
                    !immutable && v.lifetime().map_or(v.silent(), |l| least >= l)
                };
                let why = if mode == CacheMode::NoStore {
                    Some("no-store means asking")
                } else if cc_v.contains_key("no-store") || cc_v.contains_key("no-cache") {
                    Some("its headers demand asking")
                } else if stale {
                    Some("it is stale")
                } else if v.header("vary") == Some("*") || (v.header("vary").is_some() && e.accept != accept) {
                    Some("it varies")
                } else if cc.is_some() {
                    Some("the request demands asking")
                } else {
                    None
                };
                if let Some(why) = why {
                    expected = Some(Err(format!("page {cur} version {}: {why}", e.version)));
                    break;
                }
                version = Some(e.version);
            }
            let ver = version.unwrap();
            let v = &w.pages[cur][ver];
            if !from_cache && mode == CacheMode::Default {
                let old = entries.remove(&key);
                if let Some(o) = &old {
                    seen.changed += (o.version != ver) as u32;
                    seen.aged |= t0.duration_since(o.to).as_secs_f64() > 1.0;
                }
                seen.validated += not_modified as u32;
                let complete = head || not_modified || !matches!(v.what, What::Cut(..));
                if complete && !v.no_store() {
                    entries.insert(key, Entry { version: ver, from: t0, to: t1, accept, sure: true });
                } else if !complete {
                    // what was stored before may still be there
                    if let Some(mut o) = old {
                        o.sure = false;
                        entries.insert(key, o);
                    }
                }
            }
            if from_cache {
                seen.cached += 1;
            }
            if let What::Redirect(_, to) = v.what {
                if hop == 5 {
                    expected = Some(Err("too many redirects".into()));
                } else {
                    cur = to;
                    continue;
                }
            } else if matches!(v.what, What::Cut(..)) && !head && !from_cache && !not_modified {
                expected = Some(Err("the transfer broke".into()));
            } else {
                expected = Some(Ok((cur, ver)));
            }
            break;
        }
        if let Some(a) = asked.next() {
            return Err(format!("{at}: asks for page {} for no reason", a.url));
        }
        match (expected.unwrap(), got) {
            (Err(_), Err((not_cached, e))) => {
                if mode == CacheMode::OnlyIfCached && !not_cached && !e.contains("redirection limit") {
                    return Err(format!("{at}: {e} instead of NotCached"));
                }
            }
            (Err(why), Ok((s, b, _, _))) => return Err(format!("{at}: answered {s} with {:?}, but {why}", String::from_utf8_lossy(&b[..b.len().min(20)]))),
            (Ok((u, v)), Ok((s, b, x, fin))) => {
                let p = &w.pages[u][v];
                let body = if head { vec![] } else { p.body(u, v) };
                if b != body {
                    return Err(format!("{at}: {} bytes {:?} (status {s}) instead of page {u} version {v} ({} bytes)", b.len(), String::from_utf8_lossy(&b[..b.len().min(20)]), body.len()));
                }
                if s != p.status() {
                    return Err(format!("{at}: status {s} instead of {}", p.status()));
                }
                if x != Some(v.to_string()) {
                    return Err(format!("{at}: the headers are of version {x:?}, the body of {v}"));
                }
                let want = server.url(place(u)).to_string();
                if fin.as_ref() != Some(&want) {
                    return Err(format!("{at}: comes from {want}, but is said to be from {fin:?}"));
                }
            }
            (Ok((u, v)), Err((_, e))) => {
                // cache-only need not answer unless it is certain that it can
                let certain = mode != CacheMode::OnlyIfCached || {
                    let sure = |u: usize| {
                        entries.get(&(method.to_string(), u)).map_or(false, |e| {
                            let p = &w.pages[u][e.version];
                            let c = p.cc();
                            let most = t1.duration_since(e.from).as_secs_f64() + p.age();
                            !head
                                && e.sure
                                && p.status() == 200
                                && p.header("vary").is_none()
                                && c.contains_key("max-age")
                                && p.lifetime().map_or(false, |l| most < l)
                                && !["no-cache", "no-store", "private", "proxy-revalidate"].iter().any(|k| c.contains_key(*k))
                                && cc.is_none()
                        })
                    };
                    u == url && sure(u)
                };
                if certain {
                    return Err(format!("{at}: fails, though page {u} version {v} is to be had: {e}"));
                }
            }
        }
        // what must not be stored is nowhere
        for a in &w.asked {
            let v = &w.pages[a.url][a.version];
            if v.no_store() {
                let marker = format!("<{}.{}>", a.url, a.version).into_bytes();
                for (p, c) in contents(path) {
                    if c.windows(marker.len()).any(|x| x == marker) {
                        return Err(format!("{at}: page {} version {} must not be stored, but is in {}", a.url, a.version, p.display()));
                    }
                }
            }
        }
    }
    Ok(seen)
}

fn concurrent(g: &mut G) -> R {
    let clients = g.range(2, 5);
    let rounds = g.range(2, 5);
    let changes = g.range(1, 4);
    let header = *g.choose(&["max-age=0", "no-cache", "max-age=1000", "no-store", ""]);
    let etag = g.bool();
    let size = *g.choose(&[10usize, 9000, 70_000]);
    let delay = g.below(3);
    g.note(format!("{clients} clients, {rounds} rounds, {changes} changes, Cache-Control {header:?}, ETag {etag}, {size} bytes, {delay} ms"));
    let body = move |v: u64| -> Vec<u8> {
        let mut b = format!("<{v}>").into_bytes();
        b.extend((0..size).map(|i| (i as u64 * 31 + v * 7) as u8));
        b
    };
    let current = Arc::new(Mutex::new(0u64));
    let c2 = current.clone();
    let server = Server::new(move |r| {
        let v = *c2.lock().unwrap();
        std::thread::sleep(Duration::from_millis(delay));
        let tag = format!("\"{v}\"");
        let mut x = if etag && r.header("if-none-match") == Some(&tag) { Resp::new(304, "") } else { Resp::new(200, body(v)) };
        if etag {
            x = x.with("ETag", tag);
        }
        if !header.is_empty() {
            x = x.with("Cache-Control", header);
        }
        x
    });
    let must_ask = header != "max-age=1000";
    let dir = scratch();
    let path = dir.path().to_path_buf();
    let url = server.url("p");
    let seen = in_time("concurrent requests", move || -> Result<usize, String> {
        let _server = server;
        std::thread::scope(|s| {
            let ts: Vec<_> = (0..clients)
                .map(|t| {
                    let (path, url, current) = (&path, &url, &current);
                    s.spawn(move || -> Result<Vec<u64>, String> {
                        let http = http(path);
                        let mut out = vec![];
                        for k in 0..rounds {
                            let v0 = *current.lock().unwrap();
                            let rq = ::http::Request::builder().uri(url.as_str()).body(()).unwrap();
                            let mut r = http.request(rq, CacheMode::Default).map_err(|e| format!("client {t} round {k}: {e:?}"))?;
                            let b = slurp(r.body_mut()).map_err(|e| format!("client {t} round {k}: {e}"))?;
                            let v1 = *current.lock().unwrap();
                            let lo = if must_ask { v0 } else { 0 };
                            let Some(v) = (lo..=v1).find(|v| body(*v) == b) else {
                                return Err(format!("client {t} round {k}: {} bytes {:?} (status {}), none of the versions {lo}..={v1}", b.len(), String::from_utf8_lossy(&b[..b.len().min(10)]), r.status()));
                            };
                            out.push(v);
                        }
                        Ok(out)
                    })
                })
                .collect();
            for _ in 0..changes {
                std::thread::sleep(Duration::from_millis(1 + delay));
                *current.lock().unwrap() += 1;
            }
            let mut all = std::collections::BTreeSet::new();
            for t in ts {
                let vs = t.join().map_err(|_| "a client panicked".to_string())??;
                if vs.windows(2).any(|w| w[0] > w[1]) {
                    return Err(format!("a client sees versions {vs:?}"));
                }
                all.extend(vs);
            }
            Ok(all.len())
        })
    })?
    .map_err(ff)?;
    g.nontrivial = seen >= 2;
    Ok(())
}
