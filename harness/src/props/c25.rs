//! C25: temporary trouble at the index changes nothing.
use crate::archive::{unprivileged, Member};
use crate::index::{Core, *};
use crate::prop::*;
use crate::server::*;
use posy::verif_hooks::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    Property {
        id: "C25",
        level: "exploration",
        assumptions: &[
            "temporary: at most five failures in a row of what is asked for; a status 500, 503, 520 or 527, or a connection refused, or closed or reset before there is an answer",
            "slow: some seconds (posy waits 15 s for the next piece)",
            "posy's pauses between attempts take a five-hundredth of their time in the harness",
            "an answer that breaks off in its body isn't asked for again; it must be an error",
        ],
        subs: vec![
            Sub { name: "trouble", rule: "histories of listings, metadata and artifact requests, by clients that share a cache, to an index with a script of failures, compared with the same history without failures; non-trivial: something failed and was asked for again, and something was delivered", quick: 8_000, thorough: 400_000, threads: 16, run: trouble },
            Sub { name: "single", rule: "one request to a server with a script of statuses, closed connections and complete answers; what comes back, how often it is asked for and the pauses in between are compared with the model; non-trivial: at least one failure", quick: 10_000, thorough: 400_000, threads: 16, run: single },
            Sub { name: "slow", rule: "files, in every mode, from a server that takes up to some seconds for them, with pauses anywhere; non-trivial: it took more than a second", quick: 48, thorough: 2_000, threads: 24, run: slow },
        ],
    }
}

const TEMPORARY: &[u16] = &[500, 503, 520, 527];

#[derive(Clone, Debug, PartialEq)]
enum Fault {
    Status(u16),
    /// the connection is closed before there is an answer
    Close,
    /// ... or after the beginning of one
    Begin(usize),
    /// the body breaks off (this is not asked for again)
    Cut,
}

fn fault(g: &mut G, cut: bool) -> Fault {
    match g.weighted(&[6, 2, 1, cut as u64]) {
        0 => Fault::Status(*g.choose(TEMPORARY)),
        1 => Fault::Close,
        2 => Fault::Begin(g.below(14) as usize),
        _ => Fault::Cut,
    }
}

fn fails(f: &Fault, honest: Resp) -> Resp {
    let page = b"<html><body><a href='/files/alpha-99-py3-none-any.whl'>alpha-99-py3-none-any.whl</a></body></html>".to_vec();
    match f {
        // not without contents, and they may be kept (by whoever doesn't look at the status)
        Fault::Status(s) => Resp::new(*s, page).with("Content-Type", "text/html").with("Cache-Control", "max-age=1000"),
        Fault::Close => Resp { status: 0, headers: vec![], body: vec![], framing: Framing::Raw },
        Fault::Begin(n) => Resp { status: 0, headers: vec![], body: b"HTTP/1.1 200 OK"[..*n].to_vec(), framing: Framing::Raw },
        Fault::Cut => {
            let n = honest.body.len() / 2;
            Resp { framing: Framing::Cut(n), ..honest }
        }
    }
}

/// How a series of requests for the same thing goes wrong before it doesn't.
#[derive(Clone, Debug)]
enum Series {
    Fine,
    Temporary(Vec<Fault>),
    /// until the server is repaired
    Lasting(Fault),
}

#[derive(Clone, Debug)]
enum Op {
    Listing(usize),
    Meta(usize, bool),
    Fetch(usize, usize),
    NewClient,
    /// the next so many connections are refused
    Refuse(usize),
}

const PROJECTS: &[&str] = &["alpha", "beta", "nope"];

fn do_op(db: &PackageDB, op: &Op) -> Result<String, String> {
    let show = |e: eyre::Report| format!("{e:?}");
    let arts = |p: usize| db.available_artifacts(&pkg(PROJECTS[p])).map_err(show);
    let one = |a: &ArtifactInfo| format!("{} {} {:?} {:?}", a.name, a.url.path(), a.hash.as_ref().map(|h| h.to_string()), a.requires_python);
    match op {
        Op::NewClient | Op::Refuse(_) => Ok(String::new()),
        Op::Listing(p) => Ok(arts(*p)?.iter().map(|(v, a)| format!("{v}: {:?}\n", a.iter().map(one).collect::<Vec<_>>())).collect()),
        Op::Meta(p, pybi) => {
            let all: Vec<ArtifactInfo> = arts(*p)?.values().next().cloned().unwrap_or_default();
            if all.iter().all(|a| if *pybi { !a.is::<Pybi>() } else { !a.is::<Wheel>() }) {
                return Ok("none".into());
            }
            if *pybi {
                let (a, m) = db.get_metadata::<Pybi, _>(&all, None).map_err(show)?;
                Ok(format!("{} {:?} {}", m.name.as_given(), one(a), m.version))
            } else {
                let (a, m) = db.get_metadata::<Wheel, _>(&all, None).map_err(show)?;
                let mut rd: Vec<String> = m.requires_dist.iter().map(|r| r.to_string()).collect();
                rd.sort();
                Ok(format!("{} {:?} {} {rd:?} {}", m.name.as_given(), one(a), m.version, m.requires_python))
            }
        }
        Op::Fetch(p, i) => {
            let all: Vec<ArtifactInfo> = arts(*p)?.values().flatten().cloned().collect();
            if all.is_empty() {
                return Ok("none".into());
            }
            let a = &all[i % all.len()];
            if a.is::<Sdist>() {
                db.get_artifact::<Sdist>(a).map_err(show)?;
                Ok(one(a))
            } else if a.is::<Pybi>() {
                let (blob, _) = db.get_artifact::<Pybi>(a).and_then(|w| w.metadata()).map_err(show)?;
                Ok(format!("{} {}", one(a), String::from_utf8_lossy(&blob)))
            } else {
                let (blob, _) = db.get_artifact::<Wheel>(a).and_then(|w| w.metadata()).map_err(show)?;
                Ok(format!("{} {}", one(a), String::from_utf8_lossy(&blob)))
            }
        }
    }
}

fn trouble(g: &mut G) -> R {
    let n_idx = g.range(1, 2) as usize;
    let mut site = Site::new();
    site.ranges = g.bool();
    for (pi, p) in PROJECTS[..2].iter().enumerate() {
        for i in 0..n_idx {
            if g.chance(1, 6) {
                continue;
            }
            for k in 0..g.range(1, 3) {
                let v = format!("{}.{i}", g.below(2));
                let pad = vec![b'x'; if g.chance(1, 3) { 30_000 } else { 10 }];
                let mut rng = crate::prop::Rng::new(k * 7 + pi as u64 + g.below(1000));
                let pad: Vec<u8> = pad.iter().map(|_| rng.next() as u8).collect();
                let (name, bytes) = match g.below(4) {
                    0 => (format!("{p}-{v}.tar.gz"), b"sources".to_vec()),
                    1 => (format!("{p}-{v}-{k}-manylinux_2_17_x86_64.pybi"), pack(&pybi_members(&PybiMeta::new(p, &v).text(), &[]))),
                    _ => {
                        let mut m = Core::new(p, &v);
                        m.requires_dist = g.vec(0, 2, |g| format!("dep{} >= {}", g.below(4), g.below(10)));
                        (format!("{p}-{v}-{k}-py3-none-any.whl"), pack(&wheel_members(p, &v, true, &m.text(), &[Member::file("p/blob", &pad)])))
                    }
                };
                let mut f = File::new(name, bytes);
                f.at = format!("files/{i}/{}", f.name);
                f.hashed = g.chance(2, 3);
                site.add(&format!("i{i}/simple/{p}/"), f);
            }
        }
    }
    let ops: Vec<Op> = g.vec(1, 8, |g| match g.weighted(&[2, 4, 4, 2, 1]) {
        0 => Op::Listing(g.usize(3)),
        1 => Op::Meta(g.usize(2), g.chance(1, 4)),
        2 => Op::Fetch(g.usize(2), g.usize(6)),
        3 => Op::NewClient,
        _ => Op::Refuse(1 + g.usize(3)),
    });
    let plan: Vec<Series> = g.vec(1, 12, |g| match g.weighted(&[3, 6, 1]) {
        0 => Series::Fine,
        1 => Series::Temporary(g.vec(1, 5, |g| fault(g, false))),
        _ => Series::Lasting(fault(g, true)),
    });
    // (never more than five failures in a row)
    let longest = plan.iter().map(|s| if let Series::Temporary(f) = s { f.len() } else { 0 }).max().unwrap_or(0);
    let ops: Vec<Op> = ops.into_iter().map(|o| if let Op::Refuse(k) = o { Op::Refuse(k.min(5 - longest)) } else { o }).collect();
    let cacheable = g.bool();
    g.note(format!("{:?}\n{ops:?}\n{plan:?} ranges {} cacheable {cacheable}", site.pages, site.ranges));
    let (failed, delivered) = in_time("requests", move || {
        unprivileged(move || -> Result<(usize, usize), Fail> {
            hurry();
            let honest = move |site: &Site, r: &Req| {
                let a = answer(site, r);
                if cacheable { a.with("Cache-Control", "max-age=1000") } else { a }
            };
            let s1 = site.clone();
            let fine = Server::new(move |r| honest(&s1, r));
            #[derive(Default)]
            struct St {
                /// what's going on with a method and path
                now: HashMap<String, (Series, usize)>,
                next: usize,
                failed: usize,
                lasting: usize,
                repaired: bool,
            }
            let st = Arc::new(Mutex::new(St::default()));
            let s2 = st.clone();
            let bad = Server::new(move |r| {
                let h = honest(&site, r);
                let mut st = s2.lock().unwrap();
                if st.repaired {
                    return h;
                }
                let key = format!("{} {}", r.method, r.path);
                if !st.now.contains_key(&key) {
                    let s = plan[st.next % plan.len()].clone();
                    st.next += 1;
                    st.now.insert(key.clone(), (s, 0));
                }
                let (s, i) = st.now[&key].clone();
                match s {
                    Series::Temporary(fs) if i < fs.len() => {
                        st.now.insert(key, (Series::Temporary(fs.clone()), i + 1));
                        st.failed += 1;
                        fails(&fs[i], h)
                    }
                    Series::Lasting(f) => {
                        st.failed += 1;
                        st.lasting += 1;
                        fails(&f, h)
                    }
                    _ => {
                        st.now.remove(&key);
                        h
                    }
                }
            });
            let urls = |s: &Server| (0..n_idx).map(|i| s.url(&format!("i{i}/simple/"))).collect::<Vec<_>>();
            let (h1, h2) = (Home::new(), Home::new());
            let (u1, u2) = (urls(&fine), urls(&bad));
            let (mut d1, mut d2) = (h1.db(&u1), h2.db(&u2));
            let mut delivered = 0;
            for (step, op) in ops.iter().enumerate() {
                if let Op::Refuse(k) = op {
                    bad.refuse(*k);
                }
                // (the others may have connections left)
                if matches!(op, Op::NewClient | Op::Refuse(_)) {
                    d1 = h1.db(&u1);
                    d2 = h2.db(&u2);
                    continue;
                }
                let want = do_op(&d1, op).map_err(|e| ff(format!("step {step} {op:?} without trouble: {e}")))?;
                st.lock().unwrap().lasting = 0;
                match do_op(&d2, op) {
                    Ok(got) => {
                        ensure!(got == want, "step {step} {op:?}: with trouble {got}\n without {want}");
                        delivered += 1;
                    }
                    Err(e) => {
                        let lasting = st.lock().unwrap().lasting;
                        ensure!(lasting > 0, "step {step} {op:?} gave up on temporary trouble: {e}");
                        // repaired, it works, whatever happened before
                        st.lock().unwrap().repaired = true;
                        let mut again = do_op(&d2, op);
                        if again.is_err() {
                            again = do_op(&h2.db(&u2), op);
                        }
                        st.lock().unwrap().repaired = false;
                        match again {
                            Ok(got) => ensure!(got == want, "step {step} {op:?}: after trouble {got}\n without {want}"),
                            Err(e) => return fail(format!("step {step} {op:?} still fails after the trouble is over: {e}")),
                        }
                    }
                }
            }
            let failed = st.lock().unwrap().failed;
            Ok((failed, delivered))
        })
    })??;
    g.nontrivial = failed > 0 && delivered > 0;
    Ok(())
}

/// One request, and how often it's made.
fn single(g: &mut G) -> R {
    let n = g.below(9) as usize;
    let faults: Vec<Fault> = (0..n).map(|_| fault(g, false)).collect();
    let end = match g.weighted(&[4, 3, 1]) {
        0 => 200,
        1 => *g.choose(&[404u16, 400, 401, 403, 408, 410, 416, 418, 421, 425, 429, 451, 501, 502, 504, 505, 507, 511, 521, 526, 528, 599]),
        _ => *g.choose(&[201, 203, 204, 206, 300, 304, 305]),
    };
    let mode = g.below(3);
    let head = g.chance(1, 4);
    let refused = if g.chance(1, 3) { g.below(8) as usize } else { 0 };
    g.note(format!("{refused} refused, {faults:?} then {end}, {}{}", if head { "HEAD" } else { "GET" }, ["", ", not stored", ", hashed"][mode as usize]));
    let only_statuses = faults.iter().all(|f| matches!(f, Fault::Status(_)));
    let lasting = n + refused > 5;
    let f2 = faults.clone();
    let (got, asked, naps) = in_time("request", move || {
        unprivileged(move || {
            hurry();
            let mut k = 0;
            let server = Server::new(move |_| {
                k += 1;
                let h = Resp::new(end, "the contents").with("Cache-Control", "max-age=1000");
                match f2.get(k - 1) {
                    Some(f) => fails(f, h),
                    None => h,
                }
            });
            server.refuse(refused);
            let home = Home::new();
            let http = Http::new(KVFileStore::new(&home.dir.path().join("h1")).unwrap(), KVFileStore::new(&home.dir.path().join("h2")).unwrap());
            let _ = naps();
            let url = server.url("f");
            let hash: ArtifactHash = format!("sha256={}", sha(b"the contents").iter().map(|b| format!("{b:02x}")).collect::<String>()).as_str().try_into().unwrap();
            let got: Result<(u16, Vec<u8>), String> = if mode == 2 && !head {
                http.get_hashed(&url, Some(&hash), CacheMode::Default).map_err(|e| format!("{e:?}")).and_then(|mut r| {
                    let mut b = vec![];
                    std::io::Read::read_to_end(&mut r, &mut b).map_err(|e| e.to_string())?;
                    Ok((0, b))
                })
            } else {
                let r = ::http::Request::builder().method(if head { "HEAD" } else { "GET" }).uri(url.as_str()).body(()).unwrap();
                http.request(r, if mode == 1 { CacheMode::NoStore } else { CacheMode::Default }).map_err(|e| format!("{e:?}")).and_then(|r| {
                    let s = r.status().as_u16();
                    let mut b = vec![];
                    std::io::Read::read_to_end(&mut r.into_body(), &mut b).map_err(|e| e.to_string())?;
                    Ok((s, b))
                })
            };
            (got, server.take().len(), naps())
        })
    })?;
    g.nontrivial = n + refused > 0;
    g.label(if lasting { "gives up" } else if n + refused > 0 { "recovers" } else { "no trouble" });
    ensure!((asked >= 1 || refused > 5) && asked <= n + 1, "asked {asked} times");
    if only_statuses {
        let want = (n + refused).min(5) + 1;
        ensure!(asked == want.saturating_sub(refused), "asked {asked} times after {refused} refused connections, expected {want}");
        ensure!(naps.len() == want - 1, "paused {} times between {want} requests: {naps:?} ms", naps.len());
    }
    ensure!(naps.len() <= 5, "paused {} times: {naps:?} ms", naps.len());
    ensure!(naps.windows(2).all(|w| w[0] < w[1]), "the pauses don't grow: {naps:?} ms");
    ensure!(naps.iter().all(|n| (100..=10_000).contains(n)), "pauses of {naps:?} ms");
    let body: &[u8] = if head || end == 204 || end == 304 { b"" } else { b"the contents" };
    if !lasting {
        match got {
            Ok((0, b)) => {
                ensure!((200..300).contains(&end), "{end} was taken for a file");
                ensure!(b == b"the contents", "contents {:?}", String::from_utf8_lossy(&b));
            }
            Ok((s, b)) => ensure!(s == end && b == body, "status {s} with {:?}, expected {end}", String::from_utf8_lossy(&b)),
            Err(e) => ensure!(mode == 2 && !head && (end != 200 && end != 201 && end != 203 && end != 206), "refused after {asked} requests: {e}"),
        }
    } else {
        match got {
            // closed connections don't all count, because of the ones kept for later
            Ok((0, b)) => ensure!(!only_statuses && asked == n + 1 && b == b"the contents", "contents {:?} in spite of lasting trouble", String::from_utf8_lossy(&b)),
            Ok((s, _)) if only_statuses => ensure!(refused < 6 && Fault::Status(s) == faults[5 - refused], "status {s} after {asked} requests"),
            Ok((s, _)) => ensure!(asked == n + 1 && s == end || TEMPORARY.contains(&s), "status {s} after {asked} requests"),
            Err(_) => ensure!(!only_statuses || mode == 2 || refused > 5, "an answer was lost"),
        }
    }
    Ok(())
}

/// A slow server isn't a broken one.
fn slow(g: &mut G) -> R {
    let body = g.blob(1, 40_000);
    let pieces: Vec<(usize, u64)> = g.vec(1, 4, |g| (g.usize(20_000), g.below(1500)));
    let mode = g.below(3);
    let total: u64 = pieces.iter().map(|p| p.1).sum();
    g.note(format!("{} bytes, {pieces:?}{}", body.len(), ["", ", not stored", ", hashed"][mode as usize]));
    g.nontrivial = total > 1000;
    let (b2, hash) = (body.clone(), sha(&body));
    let got = in_time("request", move || {
        unprivileged(move || {
            let server = Server::new(move |_| Resp { framing: Framing::Slow(pieces.clone()), ..Resp::new(200, b2.clone()) });
            let home = Home::new();
            let http = Http::new(KVFileStore::new(&home.dir.path().join("h1")).unwrap(), KVFileStore::new(&home.dir.path().join("h2")).unwrap());
            let url = server.url("f");
            let hash: ArtifactHash = format!("sha256={}", hash.iter().map(|b| format!("{b:02x}")).collect::<String>()).as_str().try_into().unwrap();
            let mut b = vec![];
            let r = match mode {
                2 => http.get_hashed(&url, Some(&hash), CacheMode::Default).map(|mut r| std::io::Read::read_to_end(&mut r, &mut b)),
                m => {
                    let r = ::http::Request::builder().uri(url.as_str()).body(()).unwrap();
                    http.request(r, if m == 1 { CacheMode::NoStore } else { CacheMode::Default }).map(|r| std::io::Read::read_to_end(&mut r.into_body(), &mut b))
                }
            };
            match r {
                Err(e) => Err(format!("{e:?}")),
                Ok(Err(e)) => Err(format!("{e:?}")),
                Ok(Ok(_)) => Ok(b),
            }
        })
    })?;
    match got {
        Err(e) => fail(format!("a slow server's file is refused: {e}")),
        Ok(b) => {
            ensure!(b == body, "{} bytes instead of {}", b.len(), body.len());
            Ok(())
        }
    }
}
