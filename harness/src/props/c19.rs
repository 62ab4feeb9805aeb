//! C19: resolution finds a solution if there is one, preferring hints, then newest.
use crate::briefs::*;
use crate::index::*;
use crate::prop::*;
use crate::universe::*;
use posy::verif_hooks::*;
use std::collections::{BTreeMap, HashMap};

pub fn property() -> Property {
    Property {
        id: "C19",
        level: "exploration",
        assumptions: &[
            "every release has a wheel, and the files of one release agree about its metadata",
            "metadata, index pages and requirements are well-formed; markers use defined comparisons",
            "a project with final releases, none of which can be used, is left out: whether its pre-releases may then be used without being asked for is not specified",
        ],
        subs: vec![
            Sub { name: "search", rule: "generated universes as for C18; resolution must succeed exactly when an exhaustive search over the allowed releases succeeds, no single pin may be exchanged for a more preferred release, and repeating it, with the same or with fresh caches, or with its own result as the hint, must give the same result; non-trivial: at least two projects with a choice are reachable", quick: 6_000, thorough: 400_000, threads: 16, run: |g| run(g, Options { divergent: false, hints: true, dense: false }) },
            Sub { name: "backtracking", rule: "as above with more requirements per release; non-trivial: the all-preferred choice is not a solution", quick: 8_000, thorough: 500_000, threads: 16, run: backtracking },
        ],
    }
}

fn lock(b: &Blueprint) -> String {
    // the order of the wheels matters for nothing, but must not be left to chance either
    serde_json::to_string(b).unwrap_or_else(|e| format!("{e}"))
}

fn pins(b: &Blueprint) -> BTreeMap<String, String> {
    b.wheels.iter().map(|(p, _)| (p.name.normalized().to_string(), p.version.to_string())).collect()
}

pub fn backtracking(g: &mut G) -> R {
    run(g, Options { divergent: false, hints: true, dense: true })
}

fn run(g: &mut G, o: Options) -> R {
    let u = Universe::new(g, o);
    g.note(u.describe());
    let uu = u.clone();
    let warm = g.bool();
    type Res = Result<Blueprint, String>;
    let (first, again, relock): (Res, Res, Option<Res>) = in_time("resolve", move || -> Result<_, Fail> {
        let index = Index::new(uu.site());
        let home = Home::new();
        let urls = [index.server.url("simple/")];
        let b = brief(&uu).map_err(ff)?;
        let ps = platforms(&uu);
        let go = |home: &Home, like: Option<&Blueprint>| -> Res { b.resolve(&home.db(&urls), &ps.iter().collect::<Vec<_>>(), like, &[]).map_err(|e| format!("{e:?}")) };
        let l = like(&uu);
        let first = go(&home, l.as_ref());
        let again = if warm { go(&home, l.as_ref()) } else { go(&Home::new(), l.as_ref()) };
        let relock = first.as_ref().ok().map(|f| go(&home, Some(f)));
        Ok((first, again, relock))
    })??;

    match (&first, &again) {
        (Ok(a), Ok(b)) => ensure!(lock(a) == lock(b), "resolving twice gave\n{}\n{}", lock(a), lock(b)),
        (Err(_), Err(_)) => {}
        (a, b) => return fail(format!("resolving twice gave {:?} and {:?}", a.as_ref().map(lock), b.as_ref().map(lock))),
    }
    if let (Ok(a), Some(r)) = (&first, &relock) {
        match r {
            Ok(r) => ensure!(a.pybi == r.pybi && pins(a) == pins(r), "locked {:?}, and resolving again with that as the hint gives {:?}", pins(a), pins(r)),
            Err(e) => return fail(format!("locked {:?}, and resolving again with that as the hint fails: {e}", pins(a))),
        }
    }

    let Some((py, pm, tag)) = u.python() else {
        ensure!(first.is_err(), "resolved, but no interpreter is suitable");
        g.label("no interpreter");
        return Ok(());
    };
    let env = u.env(pm, tag);
    let python = python_version(&env);
    if (0..u.projects.len()).any(|p| u.unclear_pre(p, &python)) {
        g.label("unclear pre-releases");
        return Ok(());
    }
    let allowed: Vec<Vec<&Rel>> = (0..u.projects.len()).map(|p| u.allowed(p, &python)).collect();
    let mut chosen = BTreeMap::new();
    let exists = search(&u.roots, &env, &allowed, &mut chosen);
    let shown = |c: &BTreeMap<usize, &Rel>| c.iter().map(|(p, r)| format!("{} {}", NAMES[*p], r.ver.canonical())).collect::<Vec<_>>();
    let b = match (&first, exists) {
        (Ok(b), false) => return fail(format!("resolved to {:?}, but nothing satisfies the requirements", pins(b))),
        (Err(e), true) => return fail(format!("there is a solution, {:?}, but resolution fails: {e}", shown(&chosen))),
        (Err(e), false) => {
            ensure!(!e.trim().is_empty(), "no explanation");
            g.label("unsatisfiable");
            g.nontrivial = allowed.iter().filter(|a| a.len() > 1).count() >= 2;
            return Ok(());
        }
        (Ok(b), true) => b,
    };
    ensure!(b.pybi.version == ver(&py.ver.canonical()), "the interpreter is {}, but {} is preferred", b.pybi.version, py.ver.canonical());

    // what was chosen
    let mut have: HashMap<usize, &Rel> = HashMap::new();
    for (pin, _) in &b.wheels {
        let Some(p) = NAMES.iter().position(|n| pkg(n) == pin.name) else { return fail(format!("{pin}: not on the index")) };
        let Some(r) = u.projects[p].iter().find(|r| ver(&r.ver.canonical()) == pin.version) else { return fail(format!("{pin}: not on the index")) };
        have.insert(p, r);
    }
    // no pin can be exchanged for a more preferred one, everything else staying the same
    let mut choices = 0;
    for (p, r) in &have {
        if allowed[*p].len() > 1 {
            choices += 1;
        }
        for better in allowed[*p].iter().take_while(|x| !x.ver.eq(&r.ver)) {
            let pick = |q: usize| if q == *p { Some(picked(better)) } else { have.get(&q).map(|r| picked(r)) };
            if let Closure::Complete(_) = closure(&u.roots, &env, &pick) {
                return fail(format!("{} {} was chosen, but {} is preferred and would do as well (with {:?})", NAMES[*p], r.ver.canonical(), better.ver.canonical(), pins(b)));
            }
        }
    }
    // if the most preferred releases fit together, they are the answer
    let greedy = |q: usize| allowed[q].first().map(|r| picked(r));
    match closure(&u.roots, &env, &greedy) {
        Closure::Complete(s) => {
            for p in s {
                let best = allowed[p][0];
                ensure!(have.get(&p).map_or(false, |r| r.ver.eq(&best.ver)), "the most preferred releases satisfy everything, but instead of {} {}, {:?} was chosen", NAMES[p], best.ver.canonical(), pins(b));
            }
            g.label("all preferred");
            g.nontrivial = !o.dense && choices >= 2;
        }
        _ => {
            g.label("backtracked");
            g.nontrivial = o.dense || choices >= 2;
        }
    }
    Ok(())
}
