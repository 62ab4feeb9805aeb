//! The directory cache.
use super::c12::{make_race, run_race_case};
use crate::archive::{fingerprint, scratch};
use crate::kv::*;
use crate::prop::*;
use posy::verif_hooks::*;
use std::collections::BTreeMap;
use std::path::PathBuf;

pub fn property() -> Property {
    Property {
        id: "C13",
        level: "exploration",
        assumptions: &[
            "crashes are process kills and failing system calls; loss of unsynced data at a power failure is not modelled",
            "flock and rename behave as on a local Linux file system",
        ],
        subs: vec![
            Sub { name: "model", rule: "a history of fills that succeed, fail or panic over easily confused keys, with the store reopened, against a map; content, inode and times of visible entries never change; non-trivial: a key was asked for again after a failed or a finished fill", quick: 600, thorough: 30_000, threads: 0, run: model },
            Sub { name: "crash", rule: "one fill, run in a process of its own once per (system call it makes below the store) x (killed before, killed after, ENOSPC, EIO, EINTR, short transfer): a complete entry or none, and a later fill works; non-trivial: the fill would succeed", quick: 60, thorough: 3000, threads: 0, run: crash },
            Sub { name: "race", rule: "several processes and threads ask for the same keys, some fills fail or panic, some processes are killed at a chosen system call, with delays at system calls; one fill at a time, none after the entry is visible, all see the same content; non-trivial: several used a key at once", quick: 500, thorough: 20_000, threads: 4, run: race },
        ],
    }
}

fn dir_fill_plan(g: &mut G, id: u64) -> Fill {
    let mut f = fill(g, id);
    f.len = f.len.min(20_000);
    f.piece = f.piece.max(f.len / 2);
    f.upto = g.usize(9);
    if f.end == End::Abandon {
        f.end = End::Error;
    }
    f
}

fn model(g: &mut G) -> R {
    let dir = scratch();
    let nk = 1 + g.len(1, 4);
    let ks = keys(g, nk);
    let base = dir.path().join("s");
    let mut store = KVDirStore::new(&base).map_err(|e| ff(format!("{e:#}")))?;
    // key -> path, id, len, fingerprint
    let mut want: BTreeMap<Key, (PathBuf, u64, usize, BTreeMap<PathBuf, String>)> = BTreeMap::new();
    let mut failed: Vec<Key> = vec![];
    for step in 0..g.range(2, 16) {
        let key = g.choose(&ks).clone();
        let at = |m: String| ff(format!("step {step}, key {}: {m}", key.show()));
        if g.chance(1, 6) {
            let near = g.bool();
            g.note(if near { "reopen from nearby" } else { "reopen" });
            store = if near { crate::archive::opened_from_nearby(&base, |b| KVDirStore::new(b).map_err(|e| format!("{e:#}"))) } else { KVDirStore::new(&base).map_err(|e| format!("{e:#}")) }.map_err(ff)?;
        }
        if g.chance(1, 5) {
            g.note(format!("look {}", key.show()));
            let (o, p) = dir_op(&store, &Op { key: key.clone(), act: Act::Get });
            if o != Out::Done || p.is_some() != want.contains_key(&key) {
                return Err(at(format!("{o:?}, visible: {}, expected: {}", p.is_some(), want.contains_key(&key))));
            }
            continue;
        }
        let f = dir_fill_plan(g, step + 1);
        g.note(format!("{f:?} {}", key.show()));
        g.nontrivial |= want.contains_key(&key) || failed.contains(&key);
        let (out, path) = dir_op(&store, &Op { key: key.clone(), act: Act::GetOrSet(f.clone()) });
        match (want.get(&key), f.end) {
            (Some((p, ..)), _) => {
                if out != Out::Read(None, false) || path.as_ref() != Some(p) {
                    return Err(at(format!("entry exists at {p:?}, but {out:?} at {path:?}")));
                }
            }
            (None, End::Commit) => {
                let Some(p) = path else { return Err(at(format!("fill: {out:?}"))) };
                if out != Out::Read(None, true) {
                    return Err(at(format!("fill: {out:?}")));
                }
                let id = dir_identify(&p, |_| f.len).map_err(at)?;
                if id != f.id {
                    return Err(at(format!("filled with {}, has {id}", f.id)));
                }
                for (k, (q, ..)) in &want {
                    if *q == p || q.starts_with(&p) || p.starts_with(q) {
                        return Err(at(format!("shares {p:?} with key {}", k.show())));
                    }
                }
                let fp = fingerprint(&p, std::path::Path::new("")).map_err(|e| at(e.to_string()))?;
                want.insert(key.clone(), (p, f.id, f.len, fp));
            }
            (None, e) => {
                if !(e == End::Error && matches!(out, Out::Err(_)) || e == End::Panic && out == Out::Panic) {
                    return Err(at(format!("failing fill: {out:?}")));
                }
                let (_, p) = dir_op(&store, &Op { key: key.clone(), act: Act::Get });
                if p.is_some() {
                    return Err(at("visible after its fill failed".into()));
                }
                failed.push(key.clone());
            }
        }
        for (k, (p, _, _, fp)) in &want {
            let now = fingerprint(p, std::path::Path::new("")).map_err(|e| ff(format!("step {step}: entry {} is gone: {e}", k.show())))?;
            ensure!(now == *fp, "step {step}: entry {} changed", k.show());
        }
    }
    // a fill that has nothing to put in is a fill like others
    if g.chance(1, 4) {
        let key = b"(nothing)".as_slice();
        g.note("an empty entry");
        let mut runs = 0;
        let mut paths = vec![];
        for _ in 0..3 {
            match store.get_or_set(&key, |_| {
                runs += 1;
                Ok(())
            }) {
                Ok(p) => paths.push(p),
                Err(e) => return fail(format!("an empty entry: {e:#}")),
            }
        }
        ensure!(runs == 1, "an empty entry was filled {runs} times");
        ensure!(paths.iter().all(|p| *p == paths[0] && p.is_dir()), "an empty entry is at {paths:?}");
    }
    Ok(())
}

fn crash(g: &mut G) -> R {
    let dir = scratch();
    let base = dir.path().join("store");
    let ks = keys(g, 3);
    let store = KVDirStore::new(&base).map_err(|e| ff(format!("{e:#}")))?;
    let mut want: BTreeMap<Key, u64> = BTreeMap::new();
    const LEN: usize = 3000;
    for (i, k) in ks.iter().enumerate() {
        let there = if i == 0 { g.chance(1, 4) } else { g.bool() };
        if there {
            let id = 100 + i as u64;
            let (o, _) = dir_op(&store, &Op { key: k.clone(), act: Act::GetOrSet(Fill { id, len: LEN, piece: LEN, upto: 0, patch: false, end: End::Commit }) });
            ensure!(o == Out::Read(None, true), "setting up {}: {o:?}", k.show());
            want.insert(k.clone(), id);
        }
    }
    drop(store);
    let key = ks[0].clone();
    let old = want.get(&key).copied();
    let f = Fill { len: LEN, piece: LEN, ..dir_fill_plan(g, 1 + g.tape().len() as u64 % 4) };
    g.nontrivial = old.is_none() && f.end == End::Commit;
    g.note(format!("{f:?} on {} holding {old:?}", key.show()));
    let op = Op { key: key.clone(), act: Act::GetOrSet(f.clone()) };
    let attempt = |at: u64, fault: Fault| -> Result<Reply, Fail> {
        let run = dir.path().join("run");
        let _ = std::fs::remove_dir_all(&run);
        copy_tree(&base, &run);
        let rep = ask(&Request::One { dir: true, base: run.clone(), op: op.clone(), at, fault });
        let what = format!("{fault:?} at call {at} ({})", rep.trace.split(' ').nth(at.max(1) as usize - 1).unwrap_or("?"));
        ensure!(rep.errors.is_empty(), "{what}: {}", rep.errors.join("; "));
        let (run2, ks2, what2, want2) = (run, ks.clone(), what.clone(), want.clone());
        let now = in_time(&what, move || -> Result<Option<u64>, String> {
            let store = KVDirStore::new(&run2).map_err(|e| format!("{e:#}"))?;
            let mut first = None;
            for (i, k) in ks2.iter().enumerate() {
                let (o, p) = dir_op(&store, &Op { key: k.clone(), act: Act::Get });
                if o != Out::Done {
                    return Err(format!("{what2}: key {} can't be locked: {o:?}", k.show()));
                }
                let id = p.map(|p| dir_identify(&p, |_| LEN)).transpose().map_err(|e| format!("{what2}: key {} is visible, but {e}", k.show()))?;
                if i == 0 {
                    first = id;
                } else if id != want2.get(k).copied() {
                    return Err(format!("{what2}: another key, {}, changed from {:?} to {id:?}", k.show(), want2.get(k)));
                }
                let f = Fill { id: 900, len: LEN, piece: LEN, upto: 0, patch: false, end: End::Commit };
                let (o, p) = dir_op(&store, &Op { key: k.clone(), act: Act::GetOrSet(f) });
                if o != Out::Read(None, id.is_none()) {
                    return Err(format!("{what2}: a later fill of {}: {o:?}", k.show()));
                }
                let id2 = dir_identify(&p.unwrap(), |_| LEN).map_err(|e| format!("{what2}: after a later fill, key {}: {e}", k.show()))?;
                if id2 != id.unwrap_or(900) {
                    return Err(format!("{what2}: key {} went from {id:?} to {id2}", k.show()));
                }
            }
            Ok(first)
        })?
        .map_err(ff)?;
        let new = if old.is_some() { old } else if f.end == End::Commit { Some(f.id) } else { None };
        match &rep.out {
            None => ensure!(now == old || now == new, "{what}: holds {now:?}, neither {old:?} nor {new:?}"),
            Some(Out::Err(e)) => {
                ensure!(now == old, "{what}: failed ({e}), but now holds {now:?}");
                ensure!(matches!(fault, Fault::Errno(_)) || f.end == End::Error, "{what}: failed: {e}");
            }
            Some(Out::Panic) => ensure!(now == old && f.end == End::Panic, "{what}: panicked; holds {now:?}"),
            Some(Out::Read(_, ran)) => {
                ensure!(now == new, "{what}: done, but holds {now:?}");
                ensure!(*ran == old.is_none(), "{what}: fill run: {ran}, although the entry was {old:?}");
            }
            Some(Out::Done) => unreachable!(),
        }
        Ok(rep)
    };
    let dry = attempt(0, Fault::None)?;
    let calls: Vec<&str> = dry.trace.split_whitespace().collect();
    let mut evals = 1;
    for (i, c) in calls.iter().enumerate() {
        for &fault in FAULTS {
            if fault == Fault::Short && !["read", "write"].contains(c) || fault == Fault::Interrupt && !["open", "flock", "write", "read"].contains(c) || fault == Fault::Errno(libc::EIO) && g.below(3) != 0 {
                continue;
            }
            evals += 1;
            attempt(i as u64 + 1, fault)?;
        }
    }
    g.evals = evals;
    Ok(())
}

fn race(g: &mut G) -> R {
    let mut r = make_race(g, true);
    r.maxlen = r.maxlen.min(3000);
    run_race_case(g, r)
}
