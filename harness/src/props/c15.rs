//! Remote and partial views of files.
use crate::archive::scratch;
use crate::gen;
use crate::prop::*;
use crate::server::*;
use posy::verif_hooks::*;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::sync::{Arc, Mutex};

pub fn property() -> Property {
    #[allow(unused_mut)]
    let mut p = Property {
        id: "C15",
        level: "exploration",
        assumptions: &[
            "a read may return fewer bytes than asked for, as std::io::Read allows, but none only at the end",
            "a server that changes how it treats ranges between requests, or lies about a range, may get an error at any read, but never wrong data",
            "seeking beyond a window's end may be refused or may read as the end of file, but never shows what lies outside",
        ],
        subs: vec![
            Sub { name: "remote", rule: "seek/read histories on files of up to 60 KB through get_lazy, against a Cursor on the same bytes, with servers that honour ranges (in any framing), ignore them, reject them or the HEAD request, redirect, or lack some of it; non-trivial: at least one read was served by a range request and at least one seek backwards happened", quick: 18_000, thorough: 200_000, threads: 16, run: remote },
            Sub { name: "lying", rule: "the same with one range answer replaced by a wrong one (other offset, more or fewer bytes, other total, no or nonsense Content-Range, complete file, empty, cut off, another status): right bytes or an error, no panic; non-trivial: the wrong answer was asked for", quick: 18_000, thorough: 200_000, threads: 16, run: lying },
            Sub { name: "window", rule: "seek/read histories on a window onto part of a file, against a Cursor on just that part; non-trivial: several reads and seeks, some reaching an edge", quick: 90_000, thorough: 3_000_000, threads: 0, run: window },
        ],
    };
    #[cfg(feature = "c23")]
    p.subs.push(Sub { name: "routes", rule: "metadata by partial download through the package database, as in C23; non-trivial as in C23", quick: 1_500, thorough: 100_000, threads: 16, run: super::c23::routes });
    p
}

#[derive(Clone, Debug)]
enum Step {
    Seek(SeekFrom),
    Read(usize),
    ReadToEnd,
}

fn step(g: &mut G, len: u64) -> Step {
    let edge = |g: &mut G| -> u64 {
        match g.below(6) {
            0 => 0,
            1 => len,
            2 => len.saturating_sub(1),
            3 => g.below(len + 1),
            4 => len + g.below(5),
            // around the size of one fetch
            _ => (g.below(4) * 10_000 + g.below(5)).saturating_sub(2).min(len),
        }
    };
    match g.below(7) {
        0 => Step::Seek(SeekFrom::Start(edge(g))),
        1 => Step::Seek(SeekFrom::End(-(edge(g) as i64))),
        2 => {
            let d = edge(g) as i64;
            Step::Seek(SeekFrom::Current(if g.bool() { -d } else { d.min(20_000) }))
        }
        3 if g.chance(1, 6) => match g.below(4) {
            0 => Step::Seek(SeekFrom::End(g.below(100) as i64)),
            1 => Step::Seek(SeekFrom::Current(i64::MIN)),
            2 => Step::Seek(SeekFrom::End(i64::MIN)),
            _ => Step::Seek(SeekFrom::Current(i64::MAX)),
        },
        3 => Step::ReadToEnd,
        _ => Step::Read(match g.below(4) {
            0 => g.usize(4),
            1 => g.usize(2000),
            2 => 9_990 + g.usize(20),
            _ => g.usize(25_000),
        }),
    }
}

/// How many bytes a read is asked for at once, to vary buffer sizes.
fn read_n(r: &mut dyn Read, n: usize, buf: usize) -> std::io::Result<Vec<u8>> {
    let mut out = vec![];
    let mut b = vec![0xA5u8; buf.max(1)];
    while out.len() < n {
        let want = b.len().min(n - out.len());
        let k = r.read(&mut b[..want])?;
        if k == 0 {
            break;
        }
        out.extend_from_slice(&b[..k]);
    }
    Ok(out)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Honour,
    /// 200 and everything, always
    Ignore,
    /// honours GET, answers HEAD without the range
    IgnoreHead,
    /// refuses the HEAD request
    NoHead(u16),
    /// 416 to everything with a range
    Reject { total: bool },
    /// HEAD says the range is fine, GET sends everything
    HeadOnly,
    /// 200 if the range is the whole file
    WholeAsOk,
    /// sends everything for some of the ranges (by their first byte)
    Moody(u64),
}

fn parse_range(v: &str) -> Option<(u64, u64)> {
    let (a, b) = v.strip_prefix("bytes=")?.split_once('-')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}

fn framing(g: &mut G) -> Framing {
    match g.below(3) {
        0 => Framing::Length,
        1 => Framing::Chunked(g.vec(1, 4, |g| 1 + g.usize(5000))),
        _ => Framing::Close,
    }
}

fn partial(data: &[u8], a: u64, b: u64) -> Resp {
    let len = data.len() as u64;
    if a >= len || b < a {
        return Resp::new(416, "no such range").with("Content-Range", format!("bytes */{len}"));
    }
    let b = b.min(len - 1);
    Resp::new(206, &data[a as usize..=b as usize]).with("Content-Range", format!("bytes {a}-{b}/{len}"))
}

fn answer(mode: Mode, data: &[u8], r: &Req) -> Resp {
    let range = r.header("range").and_then(parse_range);
    let head = r.method == "HEAD";
    let Some((a, b)) = range else { return Resp::new(200, data) };
    match mode {
        Mode::Honour => partial(data, a, b),
        Mode::Ignore => Resp::new(200, data),
        Mode::IgnoreHead if head => Resp::new(200, data),
        Mode::NoHead(s) if head => Resp::new(s, "no"),
        Mode::IgnoreHead | Mode::NoHead(_) => partial(data, a, b),
        Mode::Reject { total } => {
            let x = Resp::new(416, "no");
            if total {
                x.with("Content-Range", format!("bytes */{}", data.len()))
            } else {
                x
            }
        }
        Mode::HeadOnly if head => partial(data, a, b),
        Mode::HeadOnly => Resp::new(200, data),
        Mode::WholeAsOk if a == 0 && b + 1 >= data.len() as u64 => Resp::new(200, data),
        Mode::WholeAsOk => partial(data, a, b),
        Mode::Moody(m) if !head && (a ^ m) % 3 == 0 => Resp::new(200, data),
        Mode::Moody(_) => partial(data, a, b),
    }
}

fn artifact(url: url::Url, hash: Option<&str>) -> ArtifactInfo {
    ArtifactInfo {
        name: ArtifactName::try_from("a-1-py3-none-any.whl").unwrap(),
        url,
        hash: hash.map(|h| h.parse().unwrap()),
        requires_python: None,
        dist_info_metadata: DistInfoMetadata { available: false, hash: None },
        yanked: Yanked { yanked: false, reason: None },
    }
}

fn file(g: &mut G) -> Vec<u8> {
    match g.below(5) {
        0 => g.blob(0, 3),
        1 => g.blob(1, 3000),
        2 => g.blob(9_995, 10_005),
        _ => g.blob(3000, 60_000),
    }
}

fn remote(g: &mut G) -> R {
    let data = file(g);
    let mode = match g.below(11) {
        0 | 1 | 2 | 3 => Mode::Honour,
        4 => Mode::Ignore,
        5 => Mode::IgnoreHead,
        6 => Mode::NoHead(*g.choose(&[405, 501, 404, 403, 400])),
        7 => Mode::Reject { total: g.bool() },
        8 => Mode::HeadOnly,
        9 => Mode::WholeAsOk,
        _ => Mode::Moody(g.below(3)),
    };
    let hops = if g.chance(1, 4) { g.range(1, 4) } else { 0 };
    let hash = g.chance(1, 3).then(|| format!("sha256={}", gen::hex(ring::digest::digest(&ring::digest::SHA256, &data).as_ref())));
    let fr = framing(g);
    let steps = g.vec(1, 14, |g| step(g, data.len() as u64));
    let buf = *g.choose(&[1_000_000usize, 8192, 1000, 100]);
    g.note(format!("{} bytes, {mode:?}, {hops} redirects, hash {}, {fr:?}, {steps:?}, buffer {buf}", data.len(), hash.is_some()));
    let d2 = data.clone();
    let status = *g.choose(&[302u16, 301, 307, 308]);
    let server = Server::new(move |r| {
        let n: u64 = r.path.trim_start_matches("/f").parse().unwrap_or(0);
        if n < hops {
            return Resp::redirect(status, format!("/f{}", n + 1));
        }
        let mut x = answer(mode, &d2, r);
        x.framing = fr.clone();
        x
    });
    let url = server.url("f0");
    // (what the server does to HEAD and GET alike can't be told from there being no file)
    let may_fail = matches!(mode, Mode::Reject { total: true }) && !data.is_empty();
    let dir = scratch();
    let path = dir.path().to_path_buf();
    let backward = {
        let data = data.clone();
        in_time("reading", move || -> Result<bool, String> {
            let http = http(&path);
            let mut lazy = match http.get_lazy(&artifact(url, hash.as_deref())) {
                Ok(l) => l,
                Err(e) if may_fail => {
                    let _ = format!("{e:?}");
                    return Ok(false);
                }
                Err(e) => return Err(format!("can't be opened: {e:?}")),
            };
            let mut model = Cursor::new(data.clone());
            let mut backward = false;
            for (i, s) in steps.iter().enumerate() {
                match s {
                    Step::Seek(p) => {
                        let before = model.position();
                        let (a, b) = (lazy.seek(*p), model.seek(*p));
                        match (&a, &b) {
                            (Ok(x), Ok(y)) if x == y => backward |= *y < before,
                            (Err(_), Err(_)) => (),
                            // beyond the end
                            (Err(_), Ok(y)) if *y > data.len() as u64 => drop(model.seek(SeekFrom::Start(before))),
                            _ => return Err(format!("step {i}: {s:?} gives {a:?}, on the file {b:?}")),
                        }
                    }
                    Step::Read(_) | Step::ReadToEnd => {
                        let n = if let Step::Read(n) = s { *n } else { usize::MAX };
                        let at = model.position();
                        let want = read_n(&mut model, n, buf).unwrap();
                        match read_n(&mut lazy, n, buf) {
                            Ok(got) if got == want => (),
                            Ok(got) => return Err(format!("step {i}: {s:?} at {at} returns {} bytes, on the file {} (first difference at {:?})", got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b))),
                            // files end at 2^63
                            Err(_) if at > 1 << 60 => break,
                            Err(_) if may_fail => return Ok(false),
                            Err(e) => return Err(format!("step {i}: {s:?} at {at} fails: {e}")),
                        }
                        let p = lazy.stream_position().map_err(|e| e.to_string())?;
                        if p != model.position() {
                            return Err(format!("step {i}: after {s:?}, position {p}, on the file {}", model.position()));
                        }
                    }
                }
            }
            Ok(backward)
        })?
        .map_err(ff)?
    };
    g.nontrivial = backward && server.take().iter().any(|r| r.method == "GET" && r.header("range").is_some());
    Ok(())
}

fn lying(g: &mut G) -> R {
    let data = g.blob(1, 50_000);
    let len = data.len() as u64;
    // which GET range request gets the wrong answer
    let which = g.below(3);
    let lie = g.below(17);
    let amount = match g.below(3) {
        0 => 1,
        1 => 1 + g.below(200),
        _ => 1 + g.below(12_000),
    };
    let steps = g.vec(2, 12, |g| step(g, len));
    let buf = *g.choose(&[1_000_000usize, 8192, 100]);
    let d2 = data.clone();
    let fr = framing(g);
    let asked = Arc::new(Mutex::new(0u64));
    let asked2 = asked.clone();
    let on_head = g.chance(1, 6);
    g.note(format!("{len} bytes, wrong answer {lie} ({amount}) to {} {which}, {steps:?}, buffer {buf}", if on_head { "HEAD, later" } else { "GET" }));
    let noise = g.blob(20_000, 20_000);
    let server = Server::new(move |r| {
        let Some((a, b)) = r.header("range").and_then(parse_range) else { return Resp::new(200, d2.clone()) };
        let mine = if r.method == "HEAD" {
            on_head
        } else {
            let mut n = asked2.lock().unwrap();
            *n += 1;
            !on_head && *n == which + 1
        };
        let mut x = partial(&d2, a, b);
        if mine && x.status == 206 {
            let b = b.min(len - 1);
            let slice = |a: u64, b: u64| d2[a as usize..=b as usize].to_vec();
            let wrong = |s: Vec<u8>, a: u64, b: u64, t: u64| Resp::new(206, s).with("Content-Range", format!("bytes {a}-{b}/{t}"));
            x = match lie {
                // an honest answer to another question
                0 => wrong(slice(a.saturating_sub(amount), b), a.saturating_sub(amount), b, len),
                1 if a + amount < b => wrong(slice(a + amount, b), a + amount, b, len),
                2 => wrong(slice(a, (a + amount - 1).min(b)), a, (a + amount - 1).min(b), len),
                3 => wrong(slice(a, (b + amount).min(len - 1)), a, (b + amount).min(len - 1), len),
                // more or less than it says
                4 => {
                    let mut s = slice(a, b);
                    s.extend(&noise[..amount as usize]);
                    wrong(s, a, b, len)
                }
                5 => {
                    let mut s = slice(a, b);
                    s.truncate(s.len().saturating_sub(amount as usize));
                    wrong(s, a, b, len)
                }
                // the file has changed its size
                6 => wrong(slice(a, b), a, b, len + amount),
                7 => wrong(noise[..(b - a + 1) as usize % 20_000].to_vec(), a, b, len.saturating_sub(amount).max(1)),
                // no sense
                8 => Resp::new(206, slice(a, b)),
                9 => Resp::new(206, slice(a, b)).with("Content-Range", *["", "bytes", "bytes x-y/z", "octets 0-1/2", "bytes 0-1/*", "bytes */100", "bytes 99999999999999999999-5/7", "bytes 0-1/99999999999999999999", "bytes -5-1/7"].get(amount as usize % 9).unwrap()),
                10 => Resp::new(200, d2.clone()),
                15 => Resp::new(200, if amount % 2 == 0 { d2[..d2.len().saturating_sub(amount as usize)].to_vec() } else { d2.iter().chain(&noise[..amount as usize]).copied().collect() }),
                11 => wrong(vec![], a, b, len),
                12 => {
                    let mut c = wrong(slice(a, b), a, b, len);
                    c.framing = Framing::Cut(c.body.len().saturating_sub(amount as usize));
                    return c;
                }
                13 => Resp::new(*[404u16, 403, 400, 416, 502, 204, 304].get(amount as usize % 7).unwrap(), noise[..100].to_vec()),
                14 => Resp::new(416, "no").with("Content-Range", format!("bytes */{}", len + amount)),
                _ => wrong(slice(a, b), a, a.saturating_sub(1), len),
            };
        }
        x.framing = fr.clone();
        x
    });
    let url = server.url("f");
    let dir = scratch();
    let path = dir.path().to_path_buf();
    // answers that are wrong in a way the client can see before it has used anything of
    // the file; the last word on what the file is, is then the GET of the whole
    in_time("reading", move || -> Result<(), String> {
        let http = http(&path);
        let mut lazy = match http.get_lazy(&artifact(url, None)) {
            Ok(l) => l,
            Err(_) => return Ok(()),
        };
        let true_len = lazy.seek(SeekFrom::End(0)).map_err(|e| e.to_string())?;
        if true_len != len {
            // the server lied about the size when first asked; any error will do later
            if !on_head {
                return Err(format!("length {true_len}, but the file has {len}"));
            }
        }
        lazy.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
        let mut model = Cursor::new(data.clone());
        for (i, s) in steps.iter().enumerate() {
            match s {
                Step::Seek(SeekFrom::End(_)) if true_len != len => continue,
                Step::Seek(p) => {
                    let before = model.position();
                    let (a, b) = (lazy.seek(*p), model.seek(*p));
                    match (&a, &b) {
                        (Ok(x), Ok(y)) if x == y => (),
                        (Err(_), Err(_)) => (),
                        (Err(_), Ok(y)) if *y > len => drop(model.seek(SeekFrom::Start(before))),
                        _ => return Err(format!("step {i}: {s:?} gives {a:?}, on the file {b:?}")),
                    }
                }
                Step::Read(_) | Step::ReadToEnd => {
                    let n = if let Step::Read(n) = s { *n } else { usize::MAX };
                    let at = model.position();
                    let want = read_n(&mut model, n, buf).unwrap();
                    match read_n(&mut lazy, n, buf) {
                        Ok(got) if got == want => (),
                        Ok(got) if true_len < len && want.starts_with(&got) => return Ok(()),
                        Ok(got) => return Err(format!("step {i}: {s:?} at {at} returns {} bytes, on the file {} (first difference at {:?})", got.len(), want.len(), got.iter().zip(&want).position(|(a, b)| a != b))),
                        // what it is like after an error is not said; start again
                        Err(_) => {
                            let p = model.position();
                            lazy.seek(SeekFrom::Start(p)).map_err(|e| e.to_string())?;
                        }
                    }
                }
            }
        }
        Ok(())
    })?
    .map_err(ff)?;
    g.nontrivial = on_head || *asked.lock().unwrap() > which;
    Ok(())
}

/// A file that doesn't always give as much as it's asked for.
struct Dribble {
    inner: Cursor<Vec<u8>>,
    at_most: usize,
}

impl Read for Dribble {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.at_most);
        self.inner.read(&mut buf[..n])
    }
}

impl Seek for Dribble {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.inner.seek(p)
    }
}

fn window(g: &mut G) -> R {
    let whole = g.blob(0, 60);
    let n = whole.len() as u64;
    let start = g.below(n + 1);
    let end = start + g.below(n - start + 1);
    let len = end - start;
    let pre = g.below(n + 1);
    let steps = g.vec(1, 14, |g| match g.below(8) {
        0 => Step::Seek(SeekFrom::Start(g.below(len + 2))),
        1 => Step::Seek(SeekFrom::End(-(g.below(len + 2) as i64))),
        2 => Step::Seek(SeekFrom::End(g.below(3) as i64)),
        3 => Step::Seek(SeekFrom::Current(g.below(2 * len + 3) as i64 - len as i64 - 1)),
        4 => Step::Seek(match g.below(6) {
            0 => SeekFrom::Start(u64::MAX),
            1 => SeekFrom::Start(u64::MAX - start),
            2 => SeekFrom::Current(i64::MIN),
            3 => SeekFrom::Current(i64::MAX),
            4 => SeekFrom::End(i64::MIN),
            _ => SeekFrom::End(i64::MAX),
        }),
        5 => Step::ReadToEnd,
        _ => Step::Read(g.usize(len as usize + 3)),
    });
    let dribble = if g.bool() { usize::MAX } else { g.range(1, 9) as usize };
    g.note(format!("bytes {start}..{end} of {n}, read up to {dribble} at once: {steps:?}"));
    let part = whole[start as usize..end as usize].to_vec();
    let mut inner = Dribble { inner: Cursor::new(whole), at_most: dribble };
    inner.inner.set_position(pre);
    let mut w = SeekSlice::new(inner, start, end).map_err(|e| ff(format!("{e}")))?;
    let mut model = Cursor::new(part);
    let mut edge = 0;
    for (i, s) in steps.iter().enumerate() {
        match s {
            Step::Seek(p) => {
                let before = model.position();
                let (a, b) = (w.seek(*p), model.seek(*p));
                match (&a, &b) {
                    (Ok(x), Ok(y)) if x == y => edge += (*y == 0 || *y == len) as u32,
                    (Err(_), Err(_)) => edge += 1,
                    // beyond the end
                    (Err(_), Ok(y)) if *y > len => {
                        model.set_position(before);
                        edge += 1;
                    }
                    _ => return fail(format!("step {i}: {s:?} at {before} gives {a:?}, on a file of these bytes {b:?}")),
                }
            }
            Step::Read(_) | Step::ReadToEnd => {
                let k = if let Step::Read(k) = s { *k } else { usize::MAX };
                let want = read_n(&mut model, k, 7).unwrap();
                let got = read_n(&mut w, k, 7).map_err(|e| ff(format!("step {i}: {s:?}: {e}")))?;
                ensure!(got == want, "step {i}: {s:?} returns {got:?}, on a file of these bytes {want:?}");
            }
        }
        let p = w.stream_position().map_err(|e| ff(format!("step {i}: position: {e}")))?;
        ensure!(p == model.position(), "step {i}: after {s:?}, position {p}, on a file of these bytes {}", model.position());
    }
    g.nontrivial = steps.len() >= 3 && edge > 0;
    Ok(())
}
