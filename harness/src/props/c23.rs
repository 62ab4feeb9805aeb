//! C23: all routes to a project's artifacts and metadata agree.
use crate::archive::Member;
use crate::gen;
use crate::index::{Core, *};
use crate::pep440::{self, Ver};
use crate::prop::*;
use posy::verif_hooks::*;
use std::collections::BTreeMap;

pub fn property() -> Property {
    Property {
        id: "C23",
        level: "exploration",
        assumptions: &[
            "indexes are honest about hashes: a file listed with a hash has that hash, and a URL listed without one keeps its content (C11 covers the rest)",
            "index URLs end in a slash",
            "no builder: metadata of source distributions is C22's subject",
        ],
        subs: vec![
            Sub { name: "listing", rule: "one to three indexes whose pages (some missing, redirected, or answering an error) list wheels, sdists and pybis of the project under several spellings, of other projects, and other links; compared with the model: which artifacts, under which version, in which order; non-trivial: artifacts of at least two versions, and something that must be left out or merged", quick: 10_000, thorough: 300_000, threads: 16, run: listing },
            Sub { name: "routes", rule: "histories of metadata and artifact requests through several clients sharing one cache, with servers that honour ranges or not, files with and without hashes, artifacts whose inside belongs elsewhere, one file listed by two projects, and files replaced by others; non-trivial: metadata of one artifact obtained by at least two routes", quick: 10_000, thorough: 300_000, threads: 16, run: routes },
        ],
    }
}

fn file_name(g: &mut G, name: &str, v: &str) -> String {
    let n = escaped(name);
    match g.weighted(&[4, 2, 2, 2, 1]) {
        0 => format!("{n}-{v}-{}", g.pick(&["py3-none-any.whl", "cp310-cp310-manylinux_2_17_x86_64.whl", "1-py3-none-any.whl", "py2.py3-none-any.whl"])),
        1 => format!("{n}-{v}.tar.gz"),
        2 => format!("{n}-{v}.zip"),
        3 => format!("{n}-{v}-{}.pybi", g.pick(&["manylinux_2_17_x86_64", "macosx_11_0_arm64", "win_amd64"])),
        _ => format!("{n}-{v}-macosx_11_0_arm64.macosx_11_0_x86_64.pybi"),
    }
}

/// What available_artifacts should say of one file, one entry per platform of a pybi.
fn entries(f: &File, root: &url::Url) -> Vec<String> {
    let mut url = root.join(&f.at).unwrap();
    if f.hashed {
        url.set_fragment(Some(&f.hash()));
    }
    let n = if f.name.ends_with(".pybi") && f.name.matches('.').count() > f.name.split('-').nth(1).map_or(0, |v| v.matches('.').count()) + f.name.split('-').next().unwrap().matches('.').count() + 1 { 2 } else { 1 };
    let d = format!("{} hash {:?} rp {:?} yanked {:?}", url, f.hashed.then(|| f.hash()), f.requires_python, f.yanked);
    vec![d; n]
}

pub fn listing(g: &mut G) -> R {
    let name = gen::name(g, true);
    let norm = gen::normalize(&name);
    // other projects, some with confusingly similar names
    let mut others: Vec<String> = (0..2).map(|_| gen::name(g, true)).collect();
    others.push(format!("{name}x"));
    others.push(format!("{name}-2"));
    others.retain(|o| gen::normalize(o) != norm);
    let pool: Vec<Ver> = {
        let mut p: Vec<Ver> = vec![];
        for _ in 0..g.range(1, 4) {
            let v = pep440::version(g, true);
            if g.bool() {
                p.push(pep440::near(g, &v, true));
            }
            p.push(v);
        }
        p
    };
    if pool.is_empty() {
        return Ok(());
    }
    let n_idx = g.range(1, 3) as usize;
    let mut site = Site::new();
    let mut want: Vec<(Ver, String, File)> = vec![];
    let mut strangers = 0;
    let mut errors = false;
    let mut count = 0;
    for i in 0..n_idx {
        let page = format!("i{i}/simple/{norm}/");
        match g.weighted(&[2, 10, 2, 1]) {
            0 => continue,
            3 => {
                site.pages.insert(page, Page::Error(*g.choose(&[403, 401, 410, 502, 300, 301, 304, 307, 600])));
                errors = true;
                continue;
            }
            k => {
                let mut fs = vec![];
                for _ in 0..g.len(0, 7) {
                    let v = g.choose(&pool).clone();
                    let spelled = v.canonical();
                    let (mine, n) = if g.chance(1, 4) { (false, g.choose(&others).clone()) } else { (true, gen::respell(g, &name)) };
                    let n = if g.bool() { escaped(&n) } else { escaped(&gen::normalize(&n)) };
                    let fname = file_name(g, &n, &spelled);
                    count += 1;
                    let mut f = File::new(fname, format!("bytes {} {count}", g.below(3)).into_bytes());
                    f.at = format!("files/{count}/{}", f.name.replace('+', "%2B"));
                    f.hashed = g.chance(3, 4);
                    f.yanked = g.chance(1, 5).then(|| g.pick(&["", "bad"]).to_string());
                    f.requires_python = g.chance(1, 4).then(|| g.pick(&[">=3", "<3.8, >= 2", "nonsense"]).to_string());
                    if mine {
                        want.push((v, spelled, f.clone()));
                    } else {
                        strangers += 1;
                    }
                    fs.push(f);
                    if g.chance(1, 6) {
                        let mut f = File::new(*g.choose(&["readme.txt", "x", "a-1.0.rpm", "foo-1.0.exe", "-1.0.zip"]), b"x".to_vec());
                        f.at = format!("files/j{count}/{}", f.name);
                        fs.push(f);
                    }
                }
                if k == 2 {
                    let to = format!("moved/{i}/");
                    site.pages.insert(to.clone(), Page::Files(fs));
                    site.pages.insert(page, Page::Moved(to));
                } else {
                    site.pages.insert(page, Page::Files(fs));
                }
                // another project's page, which nobody asked for
                if let Some(o) = others.first() {
                    let mut f = File::new(format!("{}-1.0.zip", escaped(&name)), b"y".to_vec());
                    f.at = format!("files/o{i}/{}", f.name);
                    site.pages.entry(format!("i{i}/simple/{}/", gen::normalize(o))).or_insert(Page::Files(vec![f]));
                }
            }
        }
    }
    g.note(format!("{name:?} on {:?}", site.pages));
    let index = Index::new(site);
    let urls: Vec<url::Url> = (0..n_idx).map(|i| index.server.url(&format!("i{i}/simple/"))).collect();
    let root = index.server.url("");
    let asked = gen::respell(g, &name);
    let again = g.bool();
    let (got, twice) = in_time("available_artifacts", move || {
        let home = Home::new();
        let db = home.db(&urls);
        let p = pkg(&asked);
        let show = |r: eyre::Result<&indexmap::IndexMap<Version, Vec<ArtifactInfo>>>| r.map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"));
        let a = show(db.available_artifacts(&p));
        // again, from the same or from another client on the same cache
        let b = if again { show(db.available_artifacts(&p)) } else { show(home.db(&urls).available_artifacts(&p)) };
        // and version by version
        if let Ok(a) = &a {
            for (v, ais) in a {
                let x = db.artifacts_for_version(&p, v).map_err(|e| e.to_string())?;
                if x != ais.as_slice() {
                    return Err(format!("artifacts_for_version({v}) differs from available_artifacts"));
                }
            }
        }
        Ok((a, b))
    })?
    .or_else(|e: String| fail(e))?;
    drop(index);
    match (&got, &twice) {
        (Ok(a), Ok(b)) => ensure!(a == b, "asking twice gave {a:?} and {b:?}"),
        (Err(_), Err(_)) => (),
        _ => return fail(format!("asking twice gave {got:?} and {twice:?}")),
    }
    let got = match got {
        Err(e) => {
            ensure!(errors, "refused: {e}");
            g.label("refused");
            return Ok(());
        }
        Ok(g) => g,
    };
    ensure!(!errors, "an index answered with an error, and its artifacts were left out silently");
    // versions: descending, one entry each
    let mut groups: Vec<(Ver, Vec<String>)> = vec![];
    for (v, _, f) in &want {
        match groups.iter_mut().find(|x| x.0.eq(v)) {
            Some(x) => x.1.extend(entries(f, &root)),
            None => groups.push((v.clone(), entries(f, &root))),
        }
    }
    groups.sort_by(|a, b| b.0.cmp(&a.0));
    ensure!(
        got.len() == groups.len(),
        "versions {:?}, expected {:?}",
        got.iter().map(|x| x.0.to_string()).collect::<Vec<_>>(),
        groups.iter().map(|x| x.0.canonical()).collect::<Vec<_>>()
    );
    for ((v, ais), (w, list)) in got.iter().zip(&mut groups) {
        ensure!(*v == ver(&w.canonical()), "version {v} where {} was expected", w.canonical());
        let mut have: Vec<String> = ais.iter().map(|a| format!("{} hash {:?} rp {:?} yanked {:?}", a.url, a.hash.as_ref().map(|h| h.to_string()), a.requires_python, a.yanked.yanked.then(|| a.yanked.reason.clone().unwrap_or_default()))).collect();
        for a in ais {
            ensure!(a.name.version() == v, "{} is listed under version {v}", a.name);
            ensure!(a.name.distribution().normalized() == norm, "{} is listed as an artifact of {name}", a.name);
        }
        ensure!(ais.windows(2).all(|w| w[0].name <= w[1].name), "{v}: not in the order of their names");
        have.sort();
        list.sort();
        ensure!(have == *list, "version {v}:\n  got      {have:?}\n  expected {list:?}");
    }
    if groups.len() >= 2 && (strangers > 0 || n_idx > 1 || want.len() > groups.len()) {
        g.nontrivial = true;
    }
    Ok(())
}

/// One artifact on the index, and the truth about it.
#[derive(Clone, Debug)]
struct Art {
    file: File,
    project: usize,
    kind: K,
    /// what is inside, if it is fine
    truth: Truth,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Wheel,
    Pybi,
    Sdist,
}

#[derive(Clone, Debug)]
enum Truth {
    Wheel(Core),
    Pybi(PybiMeta),
    Bad(&'static str),
    None,
}

const PROJECTS: &[&str] = &["alpha", "be-ta"];

fn meta(g: &mut G, name: &str, version: &str) -> Core {
    let mut m = Core::new(name, version);
    for i in 0..g.below(3) {
        m.requires_dist.push(format!("dep{} >= {}.{}", g.below(5), i, g.below(100)));
    }
    if g.bool() {
        m.requires_python = Some(format!(">= 3.{}", g.below(12)));
    }
    if g.bool() {
        m.extras.push(format!("x{}", g.below(4)));
    }
    m
}

fn filler(g: &mut G) -> Vec<Member> {
    let n = match g.below(3) {
        0 => 0,
        1 => g.below(300) as usize,
        // more than what is fetched at once
        _ => 10_000 + g.below(30_000) as usize,
    };
    let tag = g.below(1 << 30);
    let mut x = crate::prop::Rng::new(tag);
    vec![Member::file("pkg/blob", &(0..n).map(|_| x.next() as u8).collect::<Vec<_>>()), Member::file(&format!("pkg/t{tag}.py"), b"")]
}

fn art(g: &mut G, project: usize, version: &str) -> Art {
    let name = PROJECTS[project];
    let other = PROJECTS[1 - project];
    let spelled = g.choose(&[name.to_string(), gen::normalize(name), name.to_uppercase(), name.replace('-', ".")]).clone();
    let v2 = if version == "1.0" { "1.0.0" } else { "2" };
    let inner_v = if g.chance(1, 4) { v2 } else { version };
    let kind = *g.choose(&[K::Wheel, K::Wheel, K::Wheel, K::Pybi, K::Sdist]);
    let more = filler(g);
    let tag = g.below(1000);
    let (fname, bytes, truth) = match kind {
        K::Wheel => {
            let mut m = meta(g, &spelled, inner_v);
            let mut dist_name = spelled.clone();
            let mut truth = None;
            match g.below(9) {
                0 => {
                    m.name = other.into();
                    truth = Some("METADATA of another project");
                }
                1 => {
                    m.version = if g.bool() { "9".into() } else { format!("{version}.1") };
                    truth = Some("METADATA of another version");
                }
                2 => {
                    dist_name = other.into();
                    m.name = other.into();
                    truth = Some("another project's wheel");
                }
                _ => (),
            }
            let ms = wheel_members(&dist_name, version, true, &m.text(), &more);
            (format!("{}-{version}-{tag}-py3-none-any.whl", escaped(name)), pack(&ms), truth.map_or(Truth::Wheel(m), Truth::Bad))
        }
        K::Pybi => {
            let mut m = PybiMeta::new(&spelled, inner_v);
            m.tags = vec![format!("t{}-none-any", g.below(1000))];
            let mut truth = None;
            match g.below(8) {
                0 => {
                    m.name = other.into();
                    truth = Some("METADATA of another project");
                }
                1 => {
                    m.version = "9".into();
                    truth = Some("METADATA of another version");
                }
                _ => (),
            }
            let ms = pybi_members(&m.text(), &more);
            (format!("{}-{version}-{tag}-manylinux_2_17_x86_64.pybi", escaped(name)), pack(&ms), truth.map_or(Truth::Pybi(m), Truth::Bad))
        }
        K::Sdist => (format!("{}-{version}.tar.gz", escaped(name)), format!("not looked into {tag}").into_bytes(), Truth::None),
    };
    let mut file = File::new(fname, bytes);
    file.hashed = g.chance(4, 5);
    Art { file, project, kind, truth }
}

pub fn routes(g: &mut G) -> R {
    let versions = ["1.0", "2.0"];
    let mut arts: Vec<Art> = vec![];
    for _ in 0..g.range(1, 5) {
        let (p, v) = (g.chance(1, 4) as usize, g.chance(1, 4) as usize);
        let a = art(g, p, versions[v]);
        // the same bytes may be listed by the other project or under another version too
        if a.kind != K::Sdist && g.chance(1, 3) {
            let mut b = a.clone();
            let (p2, v2) = if g.bool() { (1 - p, v) } else { (p, 1 - v) };
            b.project = p2;
            b.file.name = a.file.name.replacen(&format!("{}-{}", escaped(PROJECTS[p]), versions[v]), &format!("{}-{}", escaped(PROJECTS[p2]), versions[v2]), 1);
            b.file.at = format!("dup/{}/{}", arts.len(), b.file.name);
            b.truth = Truth::Bad("another project's or version's file");
            // what was bad there may be right here, but then its dist-info is in the way, or it may not; leave those out
            if !matches!(a.truth, Truth::Bad(_)) {
                arts.push(b);
            }
        }
        arts.push(a);
    }
    let publish = |arts: &[Art]| {
        let mut s = Site::new();
        for a in arts {
            s.add(&format!("simple/{}/", gen::normalize(PROJECTS[a.project])), a.file.clone());
        }
        s
    };
    #[derive(Clone, Debug)]
    enum Op {
        /// ask for wheel or pybi metadata of these (indices into the version's list are taken modulo)
        Meta { db: usize, project: usize, version: usize, kind: K, mask: u64, shuffle: u64 },
        Fetch { db: usize, project: usize, version: usize, nth: usize },
        Ranges(bool),
        Replace(Vec<Art>),
        NewDbs,
    }
    let mut ops = vec![];
    let mut cur = arts.clone();
    for _ in 0..g.range(2, 12) {
        let (db, project, version) = (g.usize(2), g.chance(1, 4) as usize, g.chance(1, 4) as usize);
        ops.push(match g.weighted(&[10, 4, 2, 2, 2]) {
            0 => Op::Meta { db, project, version, kind: if g.chance(1, 5) { K::Pybi } else { K::Wheel }, mask: g.below(16), shuffle: g.below(24) },
            1 => Op::Fetch { db, project, version, nth: g.usize(4) },
            2 => Op::Ranges(g.bool()),
            3 => {
                // a file is replaced by another of the same name
                let i = g.usize(cur.len());
                let (p, v) = (cur[i].project, if cur[i].file.name.contains("-1.0") { "1.0" } else { "2.0" });
                let new = art(g, p, v);
                if new.kind == cur[i].kind && !matches!(cur[i].truth, Truth::Bad("another project's or version's file")) {
                    let name = cur[i].file.name.clone();
                    cur[i] = new;
                    cur[i].file.name = name;
                    // without a hash, its URL has to be new
                    let h = cur[i].file.at.split('/').nth(1).unwrap().to_string();
                    cur[i].file.at = if cur[i].file.hashed { format!("files/same/{}", cur[i].file.name) } else { format!("files/{h}/{}", cur[i].file.name) };
                }
                Op::Replace(cur.clone())
            }
            _ => Op::NewDbs,
        });
    }
    g.note(format!("{:?}\nops {:?}", arts.iter().map(|a| (&a.file.name, a.project, a.file.hashed, &a.truth)).collect::<Vec<_>>(), ops.iter().map(|o| match o { Op::Replace(_) => "Replace".to_string(), o => format!("{o:?}") }).collect::<Vec<_>>()));
    let routes = in_time("routes", move || -> Result<usize, Fail> {
        let index = Index::new(publish(&arts));
        let url = [index.server.url("simple/")];
        let home = Home::new();
        let mut dbs = vec![home.db(&url), home.db(&url)];
        let mut arts = arts;
        // artifact URL -> routes it was reached by
        let mut seen: BTreeMap<String, Vec<&'static str>> = BTreeMap::new();
        // files that changed since a db looked are not its fault
        for (step, op) in ops.iter().enumerate() {
            match op {
                Op::Ranges(b) => index.site.lock().unwrap().ranges = *b,
                Op::Replace(a) => {
                    arts = a.clone();
                    let r = index.site.lock().unwrap().ranges;
                    let mut s = publish(&arts);
                    s.ranges = r;
                    *index.site.lock().unwrap() = s;
                    dbs = vec![home.db(&url), home.db(&url)];
                }
                Op::NewDbs => dbs = vec![home.db(&url), home.db(&url)],
                Op::Meta { db, project, version, kind, mask, shuffle } => {
                    let db = &dbs[*db];
                    let ais = db.artifacts_for_version(&pkg(PROJECTS[*project]), &ver(versions[*version])).map_err(|e| ff(format!("step {step}: {e:?}")))?;
                    let mut list: Vec<ArtifactInfo> = ais.iter().enumerate().filter(|(i, _)| mask == &0 || mask >> (i % 4) & 1 == 1).map(|x| x.1.clone()).collect();
                    if !list.is_empty() {
                        let k = *shuffle as usize % list.len();
                        list.rotate_left(k);
                    }
                    let of = |ai: &ArtifactInfo| arts.iter().find(|a| index.server.url(&a.file.at).path() == ai.url.path()).cloned();
                    let mut truths = vec![];
                    for ai in &list {
                        let Some(a) = of(ai) else { return fail(format!("step {step}: {} is not on the index", ai.url)) };
                        truths.push(a);
                    }
                    let reqs = index.server.take();
                    drop(reqs);
                    let (ok, got) = if *kind == K::Wheel {
                        match db.get_metadata::<Wheel, _>(&list, None) {
                            Err(e) => (Err(format!("{e:?}")), None),
                            Ok((ai, m)) => {
                                let a = of(ai).unwrap();
                                let r = match &a.truth {
                                    Truth::Wheel(t) => check_meta(t, &m),
                                    t => fail(format!("metadata {:?} {} was reported for {} ({t:?})", m.name.as_given(), m.version, a.file.name)),
                                };
                                (Ok(r), Some(ai.url.to_string()))
                            }
                        }
                    } else {
                        match db.get_metadata::<Pybi, _>(&list, None) {
                            Err(e) => (Err(format!("{e:?}")), None),
                            Ok((ai, m)) => {
                                let a = of(ai).unwrap();
                                let r = match &a.truth {
                                    Truth::Pybi(t) => {
                                        if m.name == pkg(&t.name) && m.version == ver(&t.version) && m.tags == t.tags && m.environment_marker_variables == t.markers.clone().into_iter().collect() {
                                            Ok(())
                                        } else {
                                            fail(format!("{m:?}, expected {t:?}"))
                                        }
                                    }
                                    t => fail(format!("pybi metadata {:?} {} was reported for {} ({t:?})", m.name.as_given(), m.version, a.file.name)),
                                };
                                (Ok(r), Some(ai.url.to_string()))
                            }
                        }
                    };
                    let eligible: Vec<&Art> = truths.iter().filter(|a| a.kind == *kind).collect();
                    let good = eligible.iter().filter(|a| matches!(a.truth, Truth::Wheel(_) | Truth::Pybi(_))).count();
                    match ok {
                        Ok(r) => r.map_err(|f| ff(format!("step {step}: {}", f.msg)))?,
                        Err(e) => ensure!(good == 0 || good < eligible.len(), "step {step}: metadata of {:?} was refused: {e}", list.iter().map(|a| a.name.to_string()).collect::<Vec<_>>()),
                    }
                    if let Some(u) = got {
                        let reqs = index.server.take();
                        let route = if reqs.is_empty() {
                            "cache"
                        } else if reqs.iter().any(|r| r.header("range").is_some()) {
                            "partial"
                        } else {
                            "whole"
                        };
                        seen.entry(u).or_default().push(route);
                    }
                }
                Op::Fetch { db, project, version, nth } => {
                    let db = &dbs[*db];
                    let ais = db.artifacts_for_version(&pkg(PROJECTS[*project]), &ver(versions[*version])).map_err(|e| ff(format!("step {step}: {e:?}")))?;
                    if ais.is_empty() {
                        continue;
                    }
                    let ai = &ais[nth % ais.len()];
                    let Some(a) = arts.iter().find(|a| index.server.url(&a.file.at).path() == ai.url.path()) else { return fail(format!("step {step}: {} is not on the index", ai.url)) };
                    let r = match a.kind {
                        K::Wheel => db.get_artifact::<Wheel>(ai).and_then(|w| w.metadata()).map(|(blob, m)| (blob, Some(m), None)),
                        K::Pybi => db.get_artifact::<Pybi>(ai).and_then(|w| w.metadata()).map(|(blob, m)| (blob, None, Some(m))),
                        K::Sdist => {
                            // is it refused as a wheel?
                            ensure!(db.get_artifact::<Wheel>(ai).is_err(), "step {step}: {} was opened as a wheel", ai.name);
                            db.get_artifact::<Sdist>(ai).map_err(|e| ff(format!("step {step}: {e:?}")))?;
                            continue;
                        }
                    };
                    match (&a.truth, r) {
                        (Truth::Bad(_), Err(_)) => (),
                        (Truth::Wheel(t), Ok((blob, Some(m), None))) => {
                            check_meta(t, &m).map_err(|f| ff(format!("step {step}: {}", f.msg)))?;
                            ensure!(blob == t.text().as_bytes(), "step {step}: raw metadata {:?}", String::from_utf8_lossy(&blob));
                            seen.entry(ai.url.to_string()).or_default().push("complete");
                        }
                        (Truth::Pybi(t), Ok((blob, None, Some(_)))) => ensure!(blob == t.text().as_bytes(), "step {step}: raw metadata {:?}", String::from_utf8_lossy(&blob)),
                        (t, Err(e)) => return fail(format!("step {step}: {} was refused: {e:?} ({t:?})", ai.name)),
                        (t, Ok(_)) => return fail(format!("step {step}: {} was accepted ({t:?})", ai.name)),
                    }
                }
            }
        }
        Ok(seen.values().map(|v| v.iter().collect::<std::collections::BTreeSet<_>>().len()).max().unwrap_or(0))
    })??;
    if routes >= 2 {
        g.nontrivial = true;
    }
    Ok(())
}
