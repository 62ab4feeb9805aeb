//! The file cache.
use crate::archive::scratch;
use crate::kv::*;
use crate::prop::*;
use posy::verif_hooks::*;
use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom};

pub fn property() -> Property {
    Property {
        id: "C12",
        level: "exploration",
        assumptions: &[
            "crashes are process kills and failing system calls; of power failures, it is only checked that data is synced before it gets its final name",
            "flock and rename behave as on a local Linux file system",
        ],
        subs: vec![
            Sub { name: "model", rule: "a history of writes (committed, abandoned, failing, panicking), reads, get_or_set and removals over easily confused keys, with old readers kept open and the store reopened, against a map; non-trivial: at least one key was overwritten or removed and read afterwards", quick: 1500, thorough: 60_000, threads: 0, run: model },
            Sub { name: "keys", rule: "two families of up to 2000 keys that differ in one byte or in the algorithm only get distinct places, none inside another; non-trivial: always", quick: 40, thorough: 800, threads: 0, run: distinct },
            Sub { name: "crash", rule: "one operation on a store with history, run in a process of its own once per (system call it makes below the store) x (killed before, killed after, ENOSPC, EIO, EINTR, short transfer); old or new content, every other key untouched, store usable; non-trivial: the operation writes", quick: 120, thorough: 5000, threads: 0, run: crash },
            Sub { name: "race", rule: "several processes and threads use the same few keys, some are killed at a chosen system call, with delays injected at system calls; exclusion, last committed content under the lock, and order of unlocked reads checked throughout; non-trivial: locks were contended", quick: 500, thorough: 20_000, threads: 4, run: race },
        ],
    }
}

fn model(g: &mut G) -> R {
    let dir = scratch();
    let nk = 1 + g.len(1, 5);
    let ks = keys(g, nk);
    let mut store = KVFileStore::new(dir.path()).map_err(|e| ff(format!("{e:#}")))?;
    let mut want: BTreeMap<Key, Vec<u8>> = BTreeMap::new();
    let mut readers: Vec<(Box<dyn ReadSeek>, Vec<u8>, usize, String)> = vec![];
    let mut id = 0;
    let mut touched: Vec<Key> = vec![];
    let steps = g.range(2, 25);
    for step in 0..steps {
        let key = g.choose(&ks).clone();
        let old = want.get(&key).cloned();
        let what = g.weighted(&[6, 5, 4, 2, 3, 1, 2]);
        let at = |m: String| ff(format!("step {step}, key {}: {m}", key.show()));
        match what {
            // set
            0 | 1 => {
                id += 1;
                let f = fill(g, id);
                let act = if what == 0 { Act::Set(f.clone()) } else { Act::GetOrSet(f.clone()) };
                g.note(format!("{act:?} {}", key.show()));
                let new = content(f.id, f.len);
                let runs = what == 0 || old.is_none();
                let out = file_op(&store, &Op { key: key.clone(), act });
                // for get_or_set, a fill that returns Ok commits whatever it wrote
                let end = if what == 1 && f.end == End::Abandon { End::Commit } else { f.end };
                let new = if what == 1 { new[..f.upto.min(new.len())].to_vec() } else { new };
                match (runs, end) {
                    (false, _) => {
                        let o = old.clone().unwrap();
                        if out != Out::Read(Some(o.clone()), false) {
                            return Err(at(format!("get_or_set on an existing entry of {} bytes: {}", o.len(), show(&out))));
                        }
                    }
                    (true, End::Commit) => {
                        if out != Out::Read(Some(new.clone()), true) {
                            return Err(at(format!("a write of {} bytes: {}", new.len(), show(&out))));
                        }
                        if old.is_some() {
                            touched.push(key.clone());
                        }
                        want.insert(key.clone(), new);
                    }
                    (true, End::Abandon) => {
                        if out != Out::Done {
                            return Err(at(format!("abandoned write: {}", show(&out))));
                        }
                    }
                    (true, End::Error) => {
                        if !matches!(out, Out::Err(_)) {
                            return Err(at(format!("failing write: {}", show(&out))));
                        }
                    }
                    (true, End::Panic) => {
                        if out != Out::Panic {
                            return Err(at(format!("panicking write: {}", show(&out))));
                        }
                    }
                }
            }
            2 => {
                let act = if g.bool() { Act::Get } else { Act::LockRead };
                g.note(format!("{act:?} {}", key.show()));
                let out = file_op(&store, &Op { key: key.clone(), act });
                if touched.contains(&key) {
                    g.nontrivial = true;
                }
                if out != Out::Read(old.clone(), false) {
                    return Err(at(format!("read: {}, expected {}", show(&out), old.map_or("nothing".into(), |o| format!("{} bytes", o.len())))));
                }
            }
            3 => {
                g.note(format!("remove {}", key.show()));
                let out = file_op(&store, &Op { key: key.clone(), act: Act::Remove });
                match out {
                    Out::Done => (),
                    // nothing to remove
                    Out::Err(_) if old.is_none() => (),
                    o => return Err(at(format!("remove: {}", show(&o)))),
                }
                want.remove(&key);
                touched.push(key.clone());
            }
            // keep a reader open over what follows
            4 => {
                g.note(format!("open {}", key.show()));
                let got: Option<Box<dyn ReadSeek>> = on_key!(&key, k => match g.below(3) {
                    0 => store.get(k).map(|r| Box::new(r) as Box<dyn ReadSeek>),
                    1 => store.lock_if_exists(k).and_then(|h| h.reader().map(|r| Box::new(r.detach_unlocked()) as Box<dyn ReadSeek>)),
                    _ => store.lock(k).map_err(|e| at(format!("{e:#}")))?.reader().map(|r| Box::new(r.detach_unlocked()) as Box<dyn ReadSeek>),
                });
                match (got, old) {
                    (None, None) => (),
                    (Some(r), Some(o)) => readers.push((r, o, 0, key.show())),
                    (Some(_), None) => return Err(at("opened, but should not exist".into())),
                    (None, Some(_)) => return Err(at("can't be opened, but should exist".into())),
                }
            }
            5 => {
                g.note("reopen");
                let open = |b: &std::path::Path| KVFileStore::new(b).map_err(|e| format!("{e:#}"));
                store = if g.bool() { crate::archive::opened_from_nearby(dir.path(), open) } else { open(dir.path()) }.map_err(ff)?;
            }
            // use two keys at once: a writer on one is open while the other is used
            _ => {
                let other = g.choose(&ks).clone();
                if other == key {
                    continue;
                }
                id += 1;
                let f = fill(g, id);
                g.note(format!("{f:?} {} while using {}", key.show(), other.show()));
                let new = content(f.id, f.len);
                let r: Result<(), Fail> = on_key!(&key, k => {
                    let h = store.lock(k).map_err(|e| at(format!("{e:#}")))?;
                    let mut w = h.begin().map_err(|e| at(format!("{e:#}")))?;
                    std::io::Write::write_all(&mut w, &new).map_err(|e| at(format!("{e:#}")))?;
                    let o2 = f.id + 1_000_000;
                    let out = file_op(&store, &Op { key: other.clone(), act: Act::Set(Fill { id: o2, end: End::Commit, upto: usize::MAX, ..f.clone() }) });
                    if out != Out::Read(Some(content(o2, f.len)), true) {
                        return Err(at(format!("write to {} meanwhile: {}", other.show(), show(&out))));
                    }
                    want.insert(other.clone(), content(o2, f.len));
                    if f.end == End::Commit {
                        drop(w.commit().map_err(|e| at(format!("{e:#}")))?);
                    }
                    Ok(())
                });
                r?;
                if f.end == End::Commit {
                    want.insert(key.clone(), new);
                }
            }
        }
        // the readers opened earlier still see what they were opened on
        if !readers.is_empty() && g.bool() {
            let i = g.usize(readers.len());
            let (r, data, pos, k) = &mut readers[i];
            if g.chance(1, 3) {
                *pos = g.usize(data.len() + 1);
                r.seek(SeekFrom::Start(*pos as u64)).map_err(|e| ff(format!("seek: {e}")))?;
            }
            let n = g.usize(data.len() + 2);
            let mut buf = vec![];
            r.by_ref().take(n as u64).read_to_end(&mut buf).map_err(|e| ff(format!("read: {e}")))?;
            let end = data.len().min(*pos + n);
            ensure!(buf == data[*pos..end], "a reader of {k} opened earlier, at {pos}: {} bytes, not the {} it was opened on", buf.len(), end - *pos);
            *pos = end;
        }
    }
    for k in &ks {
        let out = file_op(&store, &Op { key: k.clone(), act: Act::Get });
        ensure!(out == Out::Read(want.get(k).cloned(), false), "at the end, key {}: {}", k.show(), show(&out));
    }
    for (mut r, data, _, k) in readers {
        r.rewind().map_err(|e| ff(format!("rewind: {e}")))?;
        let v = slurp(&mut r).map_err(|e| ff(format!("read: {e}")))?;
        ensure!(v == data, "at the end, a reader of {k} opened earlier has {} bytes instead of its {}", v.len(), data.len());
    }
    Ok(())
}

pub trait ReadSeek: Read + Seek {}
impl<T: Read + Seek> ReadSeek for T {}

fn show(o: &Out) -> String {
    match o {
        Out::Read(Some(v), ran) => format!("returned {} (fill run: {ran})", identify(v).map_or_else(|e| e, |i| format!("content {i} of {} bytes", v.len()))),
        o => format!("{o:?}"),
    }
}

fn distinct(g: &mut G) -> R {
    g.nontrivial = true;
    let n = if g.thorough { 2000 } else { 600 };
    let mut seen: BTreeMap<std::path::PathBuf, Key> = BTreeMap::new();
    let raw = g.blob(0, 60);
    let hash = g.blob(32, 64);
    let mut all = vec![Key::Raw(raw.clone()), Key::Hash("sha256".into(), hash.clone())];
    // every single-bit change of the two
    for i in 0..raw.len() * 8 {
        let mut b = raw.clone();
        b[i / 8] ^= 1 << (i % 8);
        all.push(Key::Raw(b));
    }
    for i in 0..hash.len() * 8 {
        let mut b = hash.clone();
        b[i / 8] ^= 1 << (i % 8);
        all.push(Key::Hash("sha256".into(), b));
    }
    // every value of one group of six bits, in case the places are named in a base of 64
    // and the letters of that are not all told apart
    let at = g.usize(hash.len() * 8 / 6);
    for v in 0..64usize {
        let mut b = hash.clone();
        for j in 0..6 {
            let bit = at * 6 + j;
            b[bit / 8] &= !(0x80 >> (bit % 8));
            if v >> (5 - j) & 1 == 1 {
                b[bit / 8] |= 0x80 >> (bit % 8);
            }
        }
        all.push(Key::Hash("sha256".into(), b));
    }
    for m in ["md5", "sha1", "sha512", "SHA256"] {
        all.push(Key::Hash(m.into(), hash.clone()));
    }
    let mut r = Rng::new(g.below(1 << 40));
    while all.len() < n {
        all.push(Key::Raw(format!("https://example.com/{}", r.next()).into_bytes()));
    }
    g.evals = all.len() as u64;
    g.note(format!("{} keys around {} and {}", all.len(), Key::Raw(raw).show(), Key::Hash("sha256".into(), hash).show()));
    for k in all {
        let p = match &k {
            Key::Raw(b) => b.as_slice().key(),
            h => h.hash().key(),
        };
        ensure!(p.is_relative() && p.components().all(|c| matches!(c, std::path::Component::Normal(_))), "key {} goes to {p:?}", k.show());
        if let Some(o) = seen.insert(p.clone(), k.clone()) {
            ensure!(o == k, "keys {} and {} share {p:?}", o.show(), k.show());
        }
    }
    for p in seen.keys() {
        for a in p.ancestors().skip(1) {
            ensure!(!seen.contains_key(a), "{a:?} is both an entry and the directory of another");
        }
    }
    Ok(())
}

fn crash(g: &mut G) -> R {
    let dir = scratch();
    let base = dir.path().join("store");
    let ks = keys(g, 3);
    let store = KVFileStore::new(&base).map_err(|e| ff(format!("{e:#}")))?;
    let mut want: BTreeMap<Key, Vec<u8>> = BTreeMap::new();
    for i in 0..g.range(0, 4) {
        let k = g.choose(&ks).clone();
        if g.chance(1, 5) {
            if want.remove(&k).is_some() {
                file_op(&store, &Op { key: k, act: Act::Remove });
            }
        } else {
            let f = Fill { end: End::Commit, upto: usize::MAX, ..fill(g, 100 + i) };
            want.insert(k.clone(), content(f.id, f.len));
            let o = file_op(&store, &Op { key: k.clone(), act: Act::Set(f) });
            ensure!(matches!(o, Out::Read(..)), "setting up {}: {}", k.show(), show(&o));
        }
    }
    drop(store);
    let key = ks[0].clone();
    let old = want.get(&key).cloned();
    let mut f = fill(g, 1);
    f.piece = f.piece.max(f.len / 4);
    let act = match g.weighted(&[5, 4, 1, 1]) {
        0 => Act::Set(f.clone()),
        1 => Act::GetOrSet(f.clone()),
        2 => Act::Get,
        _ => Act::Remove,
    };
    g.nontrivial = !matches!(act, Act::Get);
    g.note(format!("{act:?} on {} holding {}", key.show(), old.as_ref().map_or("nothing".into(), |o| format!("{} bytes", o.len()))));
    // what it should do when nothing goes wrong
    let new: Option<Vec<u8>> = match &act {
        Act::Set(f) if f.end == End::Commit => Some(content(f.id, f.len)),
        Act::GetOrSet(f) if old.is_none() && matches!(f.end, End::Commit | End::Abandon) => Some(content(f.id, f.len)[..f.upto.min(f.len)].to_vec()),
        Act::Remove => None,
        _ => old.clone(),
    };
    let op = Op { key: key.clone(), act: act.clone() };
    let attempt = |at: u64, fault: Fault| -> Result<Reply, Fail> {
        let run = dir.path().join("run");
        let _ = std::fs::remove_dir_all(&run);
        copy_tree(&base, &run);
        let rep = ask(&Request::One { dir: false, base: run.clone(), op: op.clone(), at, fault });
        let what = format!("{fault:?} at call {at} ({})", rep.trace.split(' ').nth(at.max(1) as usize - 1).unwrap_or("?"));
        ensure!(rep.errors.is_empty(), "{what}: {}", rep.errors.join("; "));
        ensure!(rep.unsynced == 0, "{what}: data was put in its place before it was synced, so a power failure can leave an incomplete entry there");
        let (run2, ks2) = (run.clone(), ks.clone());
        // afterwards, everything can be read and written without repair
        let after = in_time(&what, move || -> Result<Vec<Out>, String> {
            let store = KVFileStore::new(&run2).map_err(|e| format!("{e:#}"))?;
            let v = ks2.iter().map(|k| file_op(&store, &Op { key: k.clone(), act: Act::Get })).collect();
            for (i, k) in ks2.iter().enumerate() {
                let f = Fill { id: 900 + i as u64, len: 50, piece: 50, upto: usize::MAX, patch: false, end: End::Commit };
                for act in [Act::LockRead, Act::Set(f.clone()), Act::Get] {
                    let o = file_op(&store, &Op { key: k.clone(), act: act.clone() });
                    if matches!(o, Out::Err(_) | Out::Panic) || (matches!(act, Act::Get | Act::Set(_)) && !matches!(&o, Out::Read(Some(v), _) if *v == content(f.id, f.len))) {
                        return Err(format!("later {act:?} on {}: {}", k.show(), show(&o)));
                    }
                }
            }
            Ok(v)
        })?
        .map_err(|e| ff(format!("{what}: the store is not usable afterwards: {e}")))?;
        for (k, got) in ks.iter().zip(&after).skip(1) {
            ensure!(*got == Out::Read(want.get(k).cloned(), false), "{what}: another key, {}, changed: {}", k.show(), show(got));
        }
        let Out::Read(now, _) = &after[0] else { return fail(format!("{what}: afterwards: {}", show(&after[0]))) };
        let is = |x: &Option<Vec<u8>>| now == x;
        let shown = show(&after[0]);
        match &rep.out {
            // killed
            None => ensure!(is(&old) || is(&new), "{what}: afterwards, neither old nor new: {shown}"),
            Some(Out::Err(e)) if e.starts_with("reading back") && matches!(fault, Fault::Errno(_)) => ensure!(is(&old) || is(&new), "{what}: {e}; afterwards {shown}"),
            Some(Out::Err(e)) => {
                ensure!(is(&old), "{what}: failed ({e}), but changed the entry: {shown}");
                let own = match &act {
                    Act::Set(f) => f.end == End::Error,
                    Act::GetOrSet(f) => f.end == End::Error && old.is_none(),
                    Act::Remove => old.is_none(),
                    _ => false,
                };
                let tolerated = matches!(fault, Fault::Errno(_)) || own;
                ensure!(tolerated, "{what}: failed: {e}");
            }
            Some(Out::Panic) => ensure!(is(&old) && matches!(&act, Act::Set(f) | Act::GetOrSet(f) if f.end == End::Panic), "{what}: panicked; afterwards {shown}"),
            Some(Out::Done) => ensure!(is(&new), "{what}: done, but afterwards {shown}"),
            Some(Out::Read(v, ran)) => match &act {
                // an entry that can't be opened may be looked on as absent
                Act::Get => ensure!(*v == old || (v.is_none() && matches!(fault, Fault::Errno(_))), "{what}: read {} instead of the entry", show(rep.out.as_ref().unwrap())),
                Act::GetOrSet(f) if *ran && old.is_some() => {
                    ensure!(matches!(fault, Fault::Errno(_)), "{what}: the fill was run although the entry exists");
                    ensure!(*v == Some(content(f.id, f.len)[..f.upto.min(f.len)].to_vec()) && v == now, "{what}: returned {}, afterwards {shown}", show(rep.out.as_ref().unwrap()));
                }
                _ => ensure!(*v == new && is(&new), "{what}: returned {}, afterwards {shown}", show(rep.out.as_ref().unwrap())),
            },
        }
        Ok(rep)
    };
    let dry = attempt(0, Fault::None)?;
    let calls: Vec<&str> = dry.trace.split_whitespace().collect();
    let mut evals = 1;
    for (i, c) in calls.iter().enumerate() {
        for &fault in FAULTS {
            if fault == Fault::Short && !["read", "write"].contains(c) || fault == Fault::Interrupt && ["rename", "unlink", "mkdir"].contains(c) || fault == Fault::Errno(libc::ENOSPC) && ["read", "flock"].contains(c) {
                continue;
            }
            evals += 1;
            attempt(i as u64 + 1, fault)?;
        }
    }
    g.evals = evals;
    Ok(())
}

fn race(g: &mut G) -> R {
    let r = make_race(g, false);
    run_race_case(g, r)
}

pub fn make_race(g: &mut G, dir: bool) -> Race {
    let nk = 1 + g.len(0, 3);
    let ks = keys(g, nk);
    let rounds = g.range(8, if g.thorough { 60 } else { 30 }) as usize;
    let nproc = g.range(1, 4) as usize;
    let procs = (0..nproc)
        .map(|i| {
            let kill = if i > 0 && g.chance(1, 3) { g.range(1, 150) } else { 0 };
            let threads = if kill > 0 { 1 } else { g.range(if nproc == 1 { 2 } else { 1 }, 4) as usize };
            (threads, rounds, kill)
        })
        .collect();
    Race { dir, base: std::path::PathBuf::new(), keys: ks, procs, seed: g.below(1 << 40), removes: g.bool(), failing: g.bool(), delays: g.chance(2, 3), maxlen: *g.choose(&[1usize, 500, 40_000]) }
}

pub fn run_race_case(g: &mut G, mut r: Race) -> R {
    let dir = scratch();
    r.base = dir.path().join("store");
    g.note(format!("{} keys, processes (threads, rounds, killed at call): {:?}, removes {}, failures {}, delays {}, contents up to {} bytes", r.keys.len(), r.procs, r.removes, r.failing, r.delays, r.maxlen));
    // a schedule is not fully determined by its seed, so try harder when replaying
    let tries = if g.replaying { 5 } else { 1 };
    for _ in 0..tries {
        let _ = std::fs::remove_dir_all(&r.base);
        let rep = ask(&Request::Race(r.clone()));
        ensure!(rep.errors.is_empty(), "{}", rep.errors.join("; "));
        g.evals = rep.stats[0];
        g.nontrivial |= rep.stats[1] > 0;
        if rep.stats[2] > 0 {
            g.label("killed");
        }
    }
    Ok(())
}
