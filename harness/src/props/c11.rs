//! C11: a hash-pinned download never yields or remembers the wrong bytes.
use crate::archive::scratch;
use crate::gen;
use crate::prop::*;
use crate::server::*;
use posy::verif_hooks::*;
use std::collections::BTreeSet;
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    #[allow(unused_mut)]
    let mut p = Property {
        id: "C11",
        level: "exploration",
        assumptions: &[
            "sha256 has no collisions among the generated contents",
            "files of the cache are not changed by anyone but posy",
            "algorithms other than sha256 are not supported; if sha384 or sha512 ever are, only the true digest may pass",
        ],
        subs: vec![
            Sub { name: "download", rule: "histories of requests with right, wrong, foreign and unsupported hashes in every cache mode, while the server's content, redirects, errors and truncations change; oracle: sha256 of what is returned, and a model of what has been verified; non-trivial: both an accepted and a refused download, and a hit in the cache", quick: 20_000, thorough: 400_000, threads: 16, run: download },
            Sub { name: "concurrent", rule: "several clients on one cache ask for the same hash while a part of the server's answers is wrong; non-trivial: some clients failed and some succeeded", quick: 2_000, thorough: 40_000, threads: 8, run: concurrent },
            Sub { name: "checker", rule: "the verifying writer with the right digest, every single-bit error in it, its prefixes and extensions, other algorithms, and writers that write short or fail; non-trivial: always", quick: 3_000, thorough: 300_000, threads: 0, run: checker },
            Sub { name: "strings", rule: "hash strings printed and parsed back, and damaged ones, which must never verify anything; non-trivial: legal or nearly so", quick: 60_000, thorough: 6_000_000, threads: 0, run: strings },
        ],
    };
    #[cfg(feature = "c23")]
    p.subs.push(Sub { name: "routes", rule: "artifacts with and without hashes through the package database, as in C23; non-trivial as in C23", quick: 1_500, thorough: 100_000, threads: 16, run: super::c23::routes });
    p
}

fn sha256(b: &[u8]) -> Vec<u8> {
    ring::digest::digest(&ring::digest::SHA256, b).as_ref().to_vec()
}

#[derive(Clone, Debug, PartialEq)]
enum Serve {
    Content(usize, Framing),
    Error(u16, usize),
    Redirect(u16, usize),
    RedirectNowhere(u16),
    /// the connection breaks after some bytes of this
    Cut(usize, usize),
    /// the same, but nothing tells that it is incomplete
    CutSilently(usize, usize),
}

#[derive(Clone, Debug)]
enum Hash {
    None,
    Of(usize),
    /// of nothing that the server ever sends
    Other,
    /// first bytes only
    Short(usize, usize),
    Long(usize),
    Unsupported(&'static str, usize),
}

#[derive(Clone, Debug)]
enum Op {
    Serve(usize, Serve),
    Get { url: usize, hash: Hash, mode: CacheMode, keep: bool, lazy: bool },
    Reopen,
    Second,
}

fn true_hash(mode: &str, b: &[u8]) -> Option<Vec<u8>> {
    use ring::digest::*;
    Some(match mode {
        "sha256" | "SHA256" | "sha-256" | "Sha256" => digest(&SHA256, b),
        "sha384" => digest(&SHA384, b),
        "sha512" => digest(&SHA512, b),
        "sha1" => digest(&SHA1_FOR_LEGACY_USE_ONLY, b),
        _ => return None,
    }
    .as_ref()
    .to_vec())
}

const UNSUPPORTED: &[&str] = &["sha1", "md5", "sha384", "sha512", "SHA256", "sha-256", "sha3-256", "sha2", "sha25", "sha2566", "x", "blake2b_256"];

fn contents(g: &mut G) -> Vec<Vec<u8>> {
    let base = match g.below(4) {
        0 => g.blob(1, 40),
        1 => g.blob(100, 2000),
        2 => g.blob(8100, 8300),
        _ => g.blob(4000, 70_000),
    };
    let mut flipped = base.clone();
    let i = g.usize(flipped.len());
    flipped[i] ^= 1 << g.below(8);
    let mut cut = base.clone();
    cut.truncate(g.usize(base.len()));
    let mut longer = base.clone();
    longer.extend(g.bytes(1, 3));
    let mut out = vec![base, flipped, cut, longer, vec![], g.blob(1, 5000)];
    // distinct, so that hashes tell them apart
    let mut seen = BTreeSet::new();
    out.retain(|c| seen.insert(c.clone()));
    out
}

fn framing(g: &mut G) -> Framing {
    match g.below(3) {
        0 => Framing::Length,
        1 => Framing::Chunked(g.vec(1, 3, |g| 1 + g.usize(9000))),
        _ => Framing::Close,
    }
}

fn serve(g: &mut G, n: usize, urls: usize) -> Serve {
    let c = if g.chance(2, 3) { 0 } else { g.usize(n) };
    match g.below(10) {
        0 => Serve::Error(*g.choose(&[404u16, 403, 410, 400, 502, 206]), c),
        1 => Serve::Redirect(*g.choose(&[301u16, 302, 303, 307, 308]), g.usize(urls)),
        2 if g.chance(1, 3) => Serve::RedirectNowhere(302),
        2 => Serve::Redirect(302, g.usize(urls)),
        3 => Serve::Cut(c, g.usize(3000)),
        4 => Serve::CutSilently(c, g.usize(3000)),
        _ => Serve::Content(c, framing(g)),
    }
}

/// What following redirects comes to: the content, `None` if that must fail.
/// The second is content that may be accepted or not.
fn outcome(served: &[Serve], contents: &[Vec<u8>], mut url: usize) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
    for _ in 0..6 {
        match &served[url] {
            Serve::Content(c, _) => return (Some(contents[*c].clone()), None),
            // (the right bytes, though the server says it has nothing)
            Serve::Error(_, c) => return (None, Some(contents[*c].clone())),
            Serve::RedirectNowhere(_) => return (None, Some(b"moved".to_vec())),
            Serve::Cut(c, n) => return if *n >= contents[*c].len() { (Some(contents[*c].clone()), None) } else { (None, None) },
            Serve::CutSilently(c, n) => {
                let k = (*n).min(contents[*c].len());
                return (Some(contents[*c][..k].to_vec()), None);
            }
            Serve::Redirect(_, to) => url = *to,
        }
    }
    (None, None)
}

fn respond(s: &Serve, contents: &[Vec<u8>], cc: &str) -> Resp {
    let mut r = match s {
        Serve::Content(c, f) => Resp { framing: f.clone(), ..Resp::new(200, contents[*c].clone()) },
        Serve::Error(st, c) => Resp::new(*st, contents[*c].clone()),
        Serve::Redirect(st, to) => Resp::redirect(*st, format!("/{to}")),
        Serve::RedirectNowhere(st) => Resp::new(*st, "moved"),
        Serve::Cut(c, n) => Resp { framing: Framing::Cut(*n), ..Resp::new(200, contents[*c].clone()) },
        Serve::CutSilently(c, n) => {
            let k = (*n).min(contents[*c].len());
            Resp { framing: Framing::Close, ..Resp::new(200, contents[*c][..k].to_vec()) }
        }
    };
    if !cc.is_empty() {
        r = r.with("Cache-Control", cc);
    }
    r
}

fn download(g: &mut G) -> R {
    let contents = contents(g);
    let n = contents.len();
    let urls = g.range(1, 3) as usize;
    let first: Vec<Serve> = (0..urls).map(|_| serve(g, n, urls)).collect();
    let ops = g.vec(3, 14, |g| match g.below(10) {
        0 | 1 | 2 => {
            let u = g.usize(urls);
            Op::Serve(u, serve(g, n, urls))
        }
        3 if g.bool() => Op::Reopen,
        3 => Op::Second,
        _ => {
            // for its metadata, which is done in pieces if the server can (it can't)
            let lazy = g.chance(1, 5);
            Op::Get {
            lazy,
            url: g.usize(urls),
            hash: match g.below(16) {
                0 => Hash::None,
                1 => Hash::Other,
                2 => Hash::Short(g.usize(n), g.range(0, 31) as usize),
                3 => Hash::Long(g.usize(n)),
                4 => Hash::Unsupported(g.pick(UNSUPPORTED), g.usize(n)),
                5 | 6 | 7 => Hash::Of(g.usize(n)),
                _ => Hash::Of(0),
            },
            mode: if lazy { CacheMode::Default } else { *g.choose(&[CacheMode::Default, CacheMode::Default, CacheMode::Default, CacheMode::OnlyIfCached, CacheMode::NoStore]) },
            keep: g.chance(1, 4),
            }
        }
    });
    let cc = *g.choose(&["", "max-age=1000", "no-store", "max-age=0"]);
    g.note(format!("contents of {:?} bytes, {cc:?}, at first {first:?}; {ops:?}", contents.iter().map(|c| c.len()).collect::<Vec<_>>()));

    let served = Arc::new(Mutex::new(first));
    let c2 = contents.clone();
    let s2 = served.clone();
    let server = Server::new(move |r| {
        let i: usize = r.path.trim_start_matches('/').parse().unwrap_or(99);
        match s2.lock().unwrap().get(i) {
            Some(s) => respond(s, &c2, cc),
            None => Resp::new(404, "?"),
        }
    });
    let dir = scratch();
    let path = dir.path().to_path_buf();
    let labels = in_time("downloading", move || -> Result<(bool, bool, bool), String> {
        history(&path, &server, &served, &contents, &ops).map_err(|e| e)
    })?
    .map_err(ff)?;
    if labels.0 {
        g.label("accepted");
    }
    if labels.1 {
        g.label("refused");
    }
    if labels.2 {
        g.label("hit");
    }
    g.nontrivial = labels.0 && labels.1 && labels.2;
    Ok(())
}

fn history(path: &PathBuf, server: &Server, served: &Mutex<Vec<Serve>>, contents: &[Vec<u8>], ops: &[Op]) -> Result<(bool, bool, bool), String> {
    let mut client = http(path);
    let mut others = vec![];
    let mut verified: BTreeSet<usize> = BTreeSet::new();
    let mut kept = vec![];
    let (mut accepted, mut refused, mut hit) = (false, false, false);
    // all that the server may ever have sent
    let sends = |v: &[u8]| contents.iter().any(|c| c.starts_with(v)) || v == b"moved";
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Serve(u, s) => served.lock().unwrap()[*u] = s.clone(),
            Op::Reopen => client = http(path),
            Op::Second => others.push(std::mem::replace(&mut client, http(path))),
            Op::Get { url, hash, mode, keep, lazy } => {
                let at = format!("step {i} {op:?}");
                let (mut must, mut may) = outcome(&served.lock().unwrap(), contents, *url);
                // (it makes another request first, and may give up when that goes wrong)
                let shaky = *lazy && !matches!(served.lock().unwrap()[*url], Serve::Content(..));
                if shaky {
                    may = may.or(must.take());
                }
                let (h, want): (Option<ArtifactHash>, Option<usize>) = match hash {
                    Hash::None => (None, None),
                    Hash::Of(c) => (Some(ArtifactHash { mode: "sha256".into(), raw_data: sha256(&contents[*c]) }), Some(*c)),
                    Hash::Other => (Some(ArtifactHash { mode: "sha256".into(), raw_data: sha256(b"nobody sends this") }), None),
                    Hash::Short(c, k) => (Some(ArtifactHash { mode: "sha256".into(), raw_data: sha256(&contents[*c])[..(*k).max(3)].to_vec() }), None),
                    Hash::Long(c) => {
                        let mut v = sha256(&contents[*c]);
                        v.push(0);
                        (Some(ArtifactHash { mode: "sha256".into(), raw_data: v }), None)
                    }
                    Hash::Unsupported(m, c) => {
                        let v = true_hash(m, &contents[*c]).unwrap_or_else(|| sha256(&contents[*c]));
                        (Some(ArtifactHash { mode: m.to_string(), raw_data: v }), None)
                    }
                };
                let before = stored_files(path);
                server.take();
                let r = if *lazy {
                    client.get_lazy(&ArtifactInfo {
                        name: ArtifactName::try_from("a-1-py3-none-any.whl").unwrap(),
                        url: server.url(&url.to_string()),
                        hash: h.clone(),
                        requires_python: None,
                        dist_info_metadata: DistInfoMetadata { available: false, hash: None },
                        yanked: Yanked { yanked: false, reason: None },
                    })
                } else {
                    client.get_hashed(&server.url(&url.to_string()), h.as_ref(), *mode)
                };
                let asked = server.take().len();
                let after = stored_files(path);
                let not_cached = matches!(&r, Err(e) if e.downcast_ref::<NotCached>().is_some());
                let got = match r {
                    Err(e) => Err(format!("{e:?}")),
                    Ok(mut f) => match slurp(&mut f) {
                        Err(e) => Err(format!("{e}")),
                        Ok(v) => {
                            let mid = v.len() as u64 / 2;
                            f.seek(SeekFrom::Start(mid)).map_err(|e| format!("{at}: {e}"))?;
                            let mut rest = vec![];
                            f.read_to_end(&mut rest).map_err(|e| format!("{at}: {e}"))?;
                            if rest != v[mid as usize..] {
                                return Err(format!("{at}: read again from {mid}, {} other bytes come", rest.len()));
                            }
                            if *keep {
                                kept.push((f, i, v.clone()));
                            }
                            Ok(v)
                        }
                    },
                };
                if *mode == CacheMode::OnlyIfCached && asked > 0 {
                    return Err(format!("{at}: cache-only, but {asked} requests are made"));
                }
                if *mode == CacheMode::NoStore && before != after {
                    return Err(format!("{at}: no-store, but the cache has changed"));
                }
                match hash {
                    Hash::None => match &got {
                        Ok(v) if !sends(v) => return Err(format!("{at}: {} bytes that the server never sends", v.len())),
                        Ok(v) if *mode == CacheMode::NoStore && Some(v) != must.as_ref() && Some(v) != may.as_ref() => return Err(format!("{at}: {} bytes, not what the server has now", v.len())),
                        Err(e) if *mode == CacheMode::NoStore && must.is_some() => return Err(format!("{at}: fails: {e}")),
                        Err(e) if *mode == CacheMode::OnlyIfCached && !not_cached && asked > 0 => return Err(format!("{at}: fails: {e}")),
                        _ => (),
                    },
                    Hash::Of(_) => {
                        let c = want.unwrap();
                        if let Ok(v) = &got {
                            if *v != contents[c] {
                                return Err(format!("{at}: {} bytes that do not match the hash", v.len()));
                            }
                        }
                        let is_cached = verified.contains(&c);
                        match mode {
                            CacheMode::Default if is_cached => {
                                if (asked > 0 && !lazy) || (got.is_err() && !shaky) {
                                    return Err(format!("{at}: verified before, but {asked} requests are made and it gives {:?}", got.map(|v| v.len())));
                                }
                                hit = true;
                            }
                            CacheMode::OnlyIfCached if is_cached => {
                                got.map_err(|e| format!("{at}: verified before, but {e}"))?;
                                hit = true;
                            }
                            CacheMode::OnlyIfCached => {
                                if !not_cached {
                                    return Err(format!("{at}: never verified, but gives {:?}", got.map(|v| v.len())));
                                }
                            }
                            _ => {
                                let right = must.as_ref() == Some(&contents[c]);
                                let maybe = may.as_ref() == Some(&contents[c]);
                                match got {
                                    Err(e) if right => return Err(format!("{at}: the server has it, but {e}")),
                                    Ok(_) if !right && !maybe => return Err(format!("{at}: the server does not have it, but it is returned")),
                                    Ok(_) => {
                                        accepted = true;
                                        if *mode == CacheMode::Default {
                                            verified.insert(c);
                                        }
                                    }
                                    Err(_) => refused = true,
                                }
                            }
                        }
                    }
                    Hash::Unsupported(m, c) if ["sha384", "sha512", "SHA256", "sha-256"].contains(m) => {
                        if let Ok(v) = &got {
                            if *v != contents[*c] {
                                return Err(format!("{at}: {} bytes that do not match the hash", v.len()));
                            }
                        }
                    }
                    _ => {
                        if let Ok(v) = got {
                            return Err(format!("{at}: nothing has this hash, but {} bytes are returned", v.len()));
                        }
                        refused = true;
                    }
                }
            }
        }
    }
    // what is remembered: all that was verified, nothing else
    server.take();
    for (c, v) in contents.iter().enumerate() {
        let h = ArtifactHash { mode: "sha256".into(), raw_data: sha256(v) };
        let r = client.get_hashed(&server.url("0"), Some(&h), CacheMode::OnlyIfCached);
        match r {
            Ok(mut f) => {
                let got = slurp(&mut f).map_err(|e| e.to_string())?;
                if got != *v {
                    return Err(format!("at the end, the cache has {} bytes that do not match the hash of content {c}", got.len()));
                }
                if !verified.contains(&c) {
                    return Err(format!("at the end, the cache has content {c}, never downloaded"));
                }
            }
            Err(e) if verified.contains(&c) => return Err(format!("at the end, content {c} is no longer there: {e:?}")),
            Err(_) => (),
        }
    }
    if !server.take().is_empty() {
        return Err("cache-only requests at the end contact the server".into());
    }
    for (mut f, i, v) in kept {
        f.rewind().map_err(|e| e.to_string())?;
        if slurp(&mut f).map_err(|e| e.to_string())? != v {
            return Err(format!("what step {i} returned reads differently at the end"));
        }
    }
    Ok((accepted, refused, hit))
}

fn concurrent(g: &mut G) -> R {
    let contents = contents(g);
    let c = contents[0].clone();
    let clients = g.range(2, 6);
    let rounds = g.range(1, 3);
    // what the k-th request gets
    let plan: Vec<Serve> = g.vec(3, 8, |g| {
        if g.bool() {
            Serve::Content(0, framing(g))
        } else {
            match serve(g, contents.len(), 1) {
                Serve::Redirect(..) => Serve::Content(1, Framing::Length),
                s => s,
            }
        }
    });
    let delay = g.below(4);
    g.note(format!("{clients} clients, {rounds} rounds, contents of {:?} bytes, answers {plan:?}, each after {delay} ms", contents.iter().map(|c| c.len()).collect::<Vec<_>>()));
    let k = AtomicU64::new(0);
    let c2 = contents.clone();
    let server = Server::new(move |_| {
        let i = k.fetch_add(1, Ordering::SeqCst) as usize;
        std::thread::sleep(std::time::Duration::from_millis(delay));
        respond(&plan[i % plan.len()], &c2, "max-age=1000")
    });
    let dir = scratch();
    let path = dir.path().to_path_buf();
    let url = server.url("f");
    let hash = ArtifactHash { mode: "sha256".into(), raw_data: sha256(&c) };
    let (ok, bad) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let (ok2, bad2) = (ok.clone(), bad.clone());
    let p2 = path.clone();
    let h2 = hash.clone();
    let c3 = c.clone();
    let u2 = url.clone();
    in_time("concurrent downloads", move || -> Result<(), String> {
        let c = c3;
        std::thread::scope(|s| {
            let ts: Vec<_> = (0..clients)
                .map(|t| {
                    let (path, hash, url, c, ok, bad) = (&p2, &h2, &u2, &c, &ok2, &bad2);
                    s.spawn(move || -> Result<(), String> {
                        let http = http(path);
                        for r in 0..rounds {
                            match http.get_hashed(url, Some(hash), CacheMode::Default) {
                                Ok(mut f) => {
                                    let v = slurp(&mut f).map_err(|e| format!("client {t} round {r}: {e}"))?;
                                    if v != *c {
                                        return Err(format!("client {t} round {r}: {} bytes that do not match the hash", v.len()));
                                    }
                                    ok.fetch_add(1, Ordering::SeqCst);
                                }
                                Err(_) => {
                                    bad.fetch_add(1, Ordering::SeqCst);
                                }
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            ts.into_iter().try_for_each(|t| t.join().unwrap_or_else(|_| Err("panicked".into())))
        })
    })?
    .map_err(ff)?;
    let (ok, bad) = (ok.load(Ordering::SeqCst), bad.load(Ordering::SeqCst));
    server.take();
    let last = http(&path).get_hashed(&url, Some(&hash), CacheMode::OnlyIfCached);
    ensure!(server.take().is_empty(), "cache-only, but the server is asked");
    match last {
        Ok(mut f) => {
            ensure!(ok > 0, "every download failed, but the cache has an entry");
            ensure!(slurp(&mut f).map_err(|e| ff(e.to_string()))? == c, "the cache has other bytes");
        }
        Err(e) => ensure!(ok == 0, "{ok} downloads succeeded, but nothing is cached: {e:?}"),
    }
    g.nontrivial = ok > 0 && bad > 0;
    Ok(())
}

/// Takes a few bytes at a time, and may fail at some point.
struct Awkward {
    out: Vec<u8>,
    most: usize,
    fail_at: usize,
    flushed: usize,
}

impl Write for Awkward {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.out.len() >= self.fail_at {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let k = b.len().min(self.most).min(self.fail_at - self.out.len());
        self.out.extend(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.flushed += 1;
        Ok(())
    }
}

fn verify(h: &ArtifactHash, content: &[u8], piece: usize) -> bool {
    let Ok(mut c) = h.checker(std::io::sink()) else { return false };
    for p in content.chunks(piece.max(1)) {
        if c.write_all(p).is_err() {
            return false;
        }
    }
    c.finish().is_ok()
}

fn checker(g: &mut G) -> R {
    let content = if g.bool() { g.bytes(0, 100) } else { g.blob(0, 3000) };
    let digest = sha256(&content);
    let piece = 1 + g.usize(400);
    g.nontrivial = true;
    g.note(format!("{} bytes in pieces of {piece}", content.len()));
    let h = |raw: Vec<u8>| ArtifactHash { mode: "sha256".into(), raw_data: raw };
    ensure!(verify(&h(digest.clone()), &content, piece), "the right digest does not verify");
    match g.below(6) {
        0 => {
            for bit in 0..256 {
                let mut d = digest.clone();
                d[bit / 8] ^= 1 << (bit % 8);
                ensure!(!verify(&h(d), &content, piece), "verified although bit {bit} of the hash is wrong");
            }
            g.evals += 255;
        }
        1 => {
            for k in 0..32 {
                ensure!(!verify(&h(digest[..k].to_vec()), &content, piece), "verified by the first {k} bytes of the hash");
                ensure!(!verify(&h(digest[32 - k..].to_vec()), &content, piece), "verified by the last {k} bytes of the hash");
            }
            for x in [0u8, 255] {
                let mut d = digest.clone();
                d.push(x);
                ensure!(!verify(&h(d), &content, piece), "verified by the hash and another byte");
            }
            let mut d = digest.clone();
            d.extend(&digest);
            ensure!(!verify(&h(d), &content, piece), "verified by the hash twice");
        }
        2 => {
            let other = {
                let mut c = content.clone();
                match g.below(3) {
                    0 if !c.is_empty() => {
                        let i = g.usize(c.len());
                        c[i] ^= 1 << g.below(8);
                    }
                    1 if !c.is_empty() => {
                        let i = g.usize(c.len());
                        c.remove(i);
                    }
                    _ => c.push(0),
                }
                c
            };
            if other != content {
                ensure!(!verify(&h(digest), &other, piece), "other content of {} bytes verified", other.len());
            }
        }
        3 => {
            let m = *g.choose(UNSUPPORTED);
            for raw in [digest.clone(), true_hash(m, &content).unwrap_or_default(), sha256(b""), vec![], vec![0; 32]] {
                let x = ArtifactHash { mode: m.into(), raw_data: raw.clone() };
                if verify(&x, &content, piece) {
                    ensure!(["SHA256", "sha-256", "sha384", "sha512"].contains(&m) && Some(&raw) == true_hash(m, &content).as_ref(), "verified by {}={}", m, gen::hex(&raw));
                }
            }
        }
        _ => {
            let fail_at = if g.bool() { usize::MAX } else { g.usize(content.len() + 2) };
            let most = 1 + g.usize(50);
            let mut w = Awkward { out: vec![], most, fail_at, flushed: 0 };
            let x = h(digest);
            let mut c = x.checker(&mut w).map_err(|e| ff(format!("{e}")))?;
            let mut failed = false;
            for p in content.chunks(piece) {
                if c.write_all(p).is_err() {
                    failed = true;
                    break;
                }
            }
            let fl = c.flush().is_ok();
            let fin = c.finish().is_ok();
            ensure!(failed == (fail_at < content.len()), "an error of the inner writer is {}", if failed { "made up" } else { "lost" });
            ensure!(fl && w.flushed > 0, "flush does not reach the inner writer");
            ensure!(w.out == content[..fail_at.min(content.len())], "the inner writer gets other bytes");
            ensure!(fin == (w.out == content), "finish says {fin} after {} of {} bytes", w.out.len(), content.len());
        }
    }
    Ok(())
}

fn strings(g: &mut G) -> R {
    let mode = if g.chance(3, 4) { "sha256".to_string() } else if g.bool() { g.pick(UNSUPPORTED).to_string() } else { g.string(b"abc019_-AZ", 1, 8) };
    let k = match g.below(4) {
        0 => g.range(16, 64) as usize,
        1 => g.range(0, 15) as usize,
        _ => 32,
    };
    let raw = if g.chance(1, 3) { sha256(b"content")[..k.min(32)].to_vec() } else { g.vec(k, k, |g| g.below(256) as u8) };
    let mut hex = gen::hex(&raw);
    if g.chance(1, 3) {
        hex = hex.to_uppercase();
    }
    let mut s = format!("{mode}={hex}");
    let damaged = g.chance(1, 2);
    if damaged {
        s = match g.below(5) {
            0 => format!("{hex}={mode}"),
            1 => s.replace('=', g.pick(&["", ":", "==", " = ", "= ", "-"])),
            2 => format!("{}{s}", g.pick(&["/", "../", " ", "\0", "=", "sha256="])),
            _ => gen::mutate(g, &s),
        };
    }
    g.note(format!("{s:?}"));
    let parsed = ArtifactHash::try_from(s.as_str());
    // the text decides, however it was damaged
    let legal = s.split_once('=').map_or(false, |(m, h)| m == "sha256" && h.len() == 64 && h.bytes().all(|b| b.is_ascii_hexdigit()));
    g.nontrivial = parsed.is_ok() || damaged;
    match &parsed {
        Ok(h) => {
            let back = ArtifactHash::try_from(h.to_string().as_str()).map_err(|e| ff(format!("{:?}, printed as {:?}, is refused: {e}", s, h.to_string())))?;
            ensure!(back == *h, "{s:?} printed and parsed is {back:?}");
            let js = serde_json::to_string(h).unwrap();
            let back: ArtifactHash = serde_json::from_str(&js).map_err(|e| ff(format!("{s:?}, stored as {js}, is refused: {e}")))?;
            ensure!(back == *h, "{s:?} stored and loaded is {back:?}");
            let (m, x) = s.split_once('=').ok_or_else(|| ff(format!("{s:?} accepted")))?;
            ensure!(h.mode == m && gen::hex(&h.raw_data) == x.to_lowercase(), "{s:?} is read as {h:?}");
            let again = h.clone();
            ensure!(again == *h, "a clone differs");
            if !legal {
                // never lets anything through, and never leaves the cache's directory
                ensure!(!verify(h, b"content", 100) || ["SHA256", "sha-256"].contains(&m), "{s:?} verifies something");
                let dir = scratch();
                let http = http(&dir.path().join("c"));
                let url = url::Url::parse("http://127.0.0.1:9/").unwrap();
                let r = catching(std::panic::AssertUnwindSafe(|| http.get_hashed(&url, Some(h), CacheMode::OnlyIfCached).is_ok())).map_err(|p| ff(format!("looking up {s:?} panics: {p}")))?;
                ensure!(!r, "{s:?} is found in an empty cache");
                let top: Vec<_> = std::fs::read_dir(dir.path()).unwrap().flatten().map(|e| e.file_name()).collect();
                ensure!(top == ["c"], "looking up {s:?} made {top:?}");
                let mut v = vec![];
                for p in ["http", "by-hash"] {
                    v.extend(stored_files(&dir.path().join("c").join(p)));
                }
                ensure!(v.is_empty(), "looking up {s:?} left {v:?}");
            }
        }
        Err(e) => ensure!(!legal, "{s:?} is refused: {e}"),
    }
    Ok(())
}
