//! C03: versions and version specifiers follow PEP 440.
use crate::pep440::*;
use crate::prop::*;
use posy::verif_hooks::{CompareOp, Specifiers, Version};
use std::hash::{Hash, Hasher};

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

fn parse(s: &str) -> Result<Version, Fail> {
    s.parse().map_err(|e| ff(format!("legal version {s:?} refused: {e}")))
}

fn ordering(g: &mut G) -> R {
    let a = version(g, true);
    let b = if g.chance(3, 4) { near(g, &a, true) } else { version(g, true) };
    let (sa, sb) = (spell(g, &a), spell(g, &b));
    g.note(format!("{sa} vs {sb}"));
    g.nontrivial = a != b;
    let (pa, pb) = (parse(&sa)?, parse(&sb)?);
    let want = a.cmp(&b);
    g.label(match want {
        std::cmp::Ordering::Equal => "equal",
        _ => "different",
    });
    ensure!(pa.cmp(&pb) == want, "{sa} cmp {sb} = {:?}, PEP 440 says {want:?}", pa.cmp(&pb));
    ensure!((pa == pb) == (want == std::cmp::Ordering::Equal), "{sa} == {sb} is {}", pa == pb);
    ensure!(pa != pb || h(&pa) == h(&pb), "equal versions {sa}, {sb} hash differently");
    ensure!(pa.is_prerelease() == a.is_pre(), "{sa}.is_prerelease() = {}", pa.is_prerelease());
    ensure!(pa.to_string() == a.canonical(), "{sa} prints as {}, normal form is {}", pa, a.canonical());
    let back = parse(&pa.to_string())?;
    ensure!(back == pa, "{sa} prints as {pa}, which is a different version");
    let j: Version = serde_json::from_str(&serde_json::to_string(&pa).unwrap()).map_err(|e| ff(format!("{pa} does not reload: {e}")))?;
    ensure!(j == pa, "{pa} reloads as {j}");
    // nothing lies between a version and its successor (which is how the solver writes
    // "exactly this version")
    let succ = pa.next();
    ensure!(succ > pa, "next({pa}) = {succ:?} is not larger");
    ensure!(!(pb > pa && pb < succ), "next({pa}) = {succ:?}, but {pb} lies between");
    Ok(())
}

fn gen_spec(g: &mut G, v: &Ver) -> Spec {
    let op = *g.choose(&OPS);
    let mut ver = if g.chance(5, 6) { near(g, v, true) } else { version(g, true) };
    if g.chance(1, 4) {
        ver = v.clone();
    }
    let mut wildcard = (op == "==" || op == "!=") && g.chance(1, 2);
    if wildcard {
        ver.dev = None;
        ver.local.clear();
        if g.chance(3, 4) {
            ver.pre = None;
            ver.post = None;
            let n = g.range(1, ver.release.len() as u64) as usize;
            ver.release.truncate(n);
        }
    }
    // posy stores every number in 32 bits; stay clear of the largest ones where a bound is
    // computed by adding one
    for r in ver.release.iter_mut() {
        *r = (*r).min(4294967293);
    }
    let mut s = Spec { op, ver, wildcard };
    if !s.legal() {
        if op == "~=" && s.ver.release.len() < 2 {
            s.ver.release.push(num(g).min(4294967293));
        }
        s.ver.local.clear();
        wildcard = s.wildcard;
        let _ = wildcard;
    }
    s
}

fn spell_spec(g: &mut G, s: &Spec) -> String {
    let sp = g.pick(&["", " ", "  ", "\t"]).to_string();
    format!("{}{}{}{}", s.op, sp, spell(g, &s.ver), if s.wildcard { ".*" } else { "" })
}

fn matching(g: &mut G) -> R {
    let c = version(g, true);
    let n = if g.chance(1, 3) { g.range(2, 3) } else { 1 };
    let specs: Vec<Spec> = (0..n).map(|_| gen_spec(g, &c)).collect();
    let texts: Vec<String> = specs.iter().map(|s| spell_spec(g, s)).collect();
    let sep = g.pick(&[",", ", ", " ,", " , "]).to_string();
    let mut text = texts.join(&sep);
    if g.chance(1, 10) {
        text = format!("({text})");
    }
    let cs = spell(g, &c);
    g.note(format!("{cs} in {text:?}"));
    let want = specs.iter().all(|s| s.matches(&c));
    // non-trivial: the version is close enough to some clause for it to matter
    g.nontrivial = specs.iter().any(|s| s.ver.same_release(&c) || s.wildcard || s.op == "~=");
    g.label(if want { "match" } else { "no match" });
    for s in &specs {
        g.label(if s.wildcard { "wildcard" } else { s.op });
    }
    let pc = parse(&cs)?;
    let ps: Specifiers = text.parse().map_err(|e| ff(format!("legal specifier {text:?} refused: {e}")))?;
    let got = ps.satisfied_by(&pc).map_err(|e| ff(format!("legal specifier {text:?}: {e}")))?;
    ensure!(got == want, "{} satisfies {:?}: got {got}, PEP 440 says {want}", c.canonical(), specs.iter().map(|s| s.canonical()).collect::<Vec<_>>());
    // each clause, and the ranges it becomes
    for (s, p) in specs.iter().zip(&ps.0) {
        let want = s.matches(&c);
        let ranges = p.to_ranges().map_err(|e| ff(format!("{}: {e}", s.canonical())))?;
        let n = ranges.iter().filter(|r| r.contains(&pc)).count();
        ensure!((n > 0) == want, "ranges of {} contain {}: {}, PEP 440 says {want} ({ranges:?})", s.canonical(), c.canonical(), n > 0);
        ensure!(n <= 1, "ranges of {} overlap at {}", s.canonical(), c.canonical());
    }
    // printing
    let printed = ps.to_string();
    let back: Specifiers = printed.parse().map_err(|e| ff(format!("{text:?} prints as {printed:?}, which is refused: {e}")))?;
    ensure!(back == ps, "{text:?} prints as {printed:?}, which reads as something else");
    let j: Specifiers = serde_json::from_str(&serde_json::to_string(&ps).unwrap()).map_err(|e| ff(format!("{ps} does not reload: {e}")))?;
    ensure!(j == ps, "{ps} reloads as {j}");
    Ok(())
}

/// One specifier against a dense neighbourhood of versions: catches boundary slips that
/// need one particular neighbour.
fn boundary(g: &mut G) -> R {
    let mut base = Ver::rel(&[]);
    let n = g.range(1, 3);
    base.release = (0..n).map(|_| g.below(3)).collect();
    if g.chance(1, 10) {
        base.epoch = 1;
    }
    let base = suffixes(g, base, true);
    let spec = gen_spec(g, &base);
    g.note(spec.canonical());
    g.nontrivial = true;
    let ps: Specifiers = spec.canonical().parse().map_err(|e| ff(format!("{}: {e}", spec.canonical())))?;
    let mut rels = vec![spec.ver.release.clone()];
    for d in 0..spec.ver.release.len() {
        let mut r = spec.ver.release.clone();
        r[d] += 1;
        rels.push(r.clone());
        r.truncate(d + 1);
        rels.push(r);
        let mut r = spec.ver.release.clone();
        r[d] = r[d].saturating_sub(1);
        rels.push(r);
    }
    let mut r = spec.ver.release.clone();
    r.push(0);
    rels.push(r.clone());
    *r.last_mut().unwrap() = 1;
    rels.push(r);
    let nums = |x: Option<u64>| -> Vec<Option<u64>> {
        let n = x.unwrap_or(0);
        let mut v = vec![None, Some(0), Some(n), Some(n + 1), Some(n.saturating_sub(1))];
        v.dedup();
        v
    };
    let pre_n = spec.ver.pre.map(|p| p.1);
    let mut pres = vec![None];
    for k in ['a', 'b', 'r'] {
        for n in nums(pre_n).into_iter().flatten() {
            pres.push(Some((k, n)));
        }
    }
    let locals = [vec![], vec![Seg::Num(0)], vec![Seg::Str("a".into())], spec.ver.local.clone(), {
        let mut l = spec.ver.local.clone();
        l.push(Seg::Str("a".into()));
        l
    }];
    g.evals = 0;
    for rel in &rels {
        for pre in &pres {
            for post in nums(spec.ver.post) {
                for dev in nums(spec.ver.dev) {
                    for local in &locals {
                        let c = Ver { epoch: spec.ver.epoch, release: rel.clone(), pre: *pre, post, dev, local: local.clone() };
                        let pc = Version(pep440::Version {
                            epoch: c.epoch as u32,
                            release: c.release.iter().map(|x| *x as u32).collect(),
                            pre: c.pre.map(|(k, n)| match k {
                                'a' => pep440::PreRelease::A(n as u32),
                                'b' => pep440::PreRelease::B(n as u32),
                                _ => pep440::PreRelease::RC(n as u32),
                            }),
                            post: c.post.map(|n| n as u32),
                            dev: c.dev.map(|n| n as u32),
                            local: c
                                .local
                                .iter()
                                .map(|s| match s {
                                    Seg::Num(n) => pep440::LocalVersion::NumericComponent(*n as u32),
                                    Seg::Str(s) => pep440::LocalVersion::StringComponent(s.clone()),
                                })
                                .collect(),
                        });
                        g.evals += 1;
                        let got = ps.satisfied_by(&pc).map_err(|e| ff(format!("{ps}: {e}")))?;
                        let want = spec.matches(&c);
                        ensure!(got == want, "{} satisfies {}: got {got}, PEP 440 says {want}", c.canonical(), spec.canonical());
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn dump_case(seed: u64) {
    let mut g = G::fresh(seed, false);
    let c = version(&mut g, true);
    let s = gen_spec(&mut g, &c);
    let d = version(&mut g, true);
    println!("{}\t{}\t{}\t{}\t{:?}", c.canonical(), s.canonical(), s.matches(&c), d.canonical(), c.cmp(&d));
}

fn use_spec(text: &str) -> eyre::Result<()> {
    let specs: Specifiers = text.parse()?;
    for s in &specs.0 {
        s.to_ranges()?;
    }
    Ok(())
}

/// Clauses PEP 440 forbids must be refused, at the latest when they are used.
fn malformed(g: &mut G) -> R {
    let mut v = version(g, false);
    let text = match g.below(9) {
        0 => format!("{}{}.*", g.pick(&["<", ">", "<=", ">=", "~="]), Ver { dev: None, ..v }.canonical()),
        1 => {
            v.release.truncate(1);
            format!("~={}", v.canonical())
        }
        2 => format!("{}{}+{}", g.pick(&["<", ">", "<=", ">=", "~="]), v.canonical(), g.pick(&["a", "1", "ubuntu.1"])),
        3 => {
            v.dev = Some(small(g));
            format!("{}{}.*", g.pick(&["==", "!="]), v.canonical())
        }
        4 => format!("{}{}+{}.*", g.pick(&["==", "!="]), v.canonical(), g.pick(&["a", "1"])),
        5 => format!("{}{}", g.pick(&["=", "<>", "=>", "=<", "===", "!", "~", "~=="]), v.canonical()),
        6 => format!("{}{}", g.pick(&OPS), g.pick(&["", " ", "foo", "1..0", "1.0.*.*", "*", "1.0.", ".1", "1.0-", "1.0++a", "1.0+", "1!", "1.0a1b1", "1.0.dev1.post1", "1_0"])),
        7 => format!("{},{}", Spec { op: ">=", ver: v, wildcard: false }.canonical(), g.pick(&["foo", "1.0", "=1.0", ">= 1.0 <2"])),
        _ => {
            let s = gen_spec(g, &v);
            format!("{} {}", s.canonical(), g.pick(&["1.0", "x", ">", "; a", "@"]))
        }
    };
    g.note(format!("{text:?}"));
    g.nontrivial = true;
    ensure!(use_spec(&text).is_err(), "malformed specifier {text:?} accepted");
    Ok(())
}

fn bad_versions(g: &mut G) -> R {
    let v = version(g, true);
    let s = spell(g, &v);
    let t = match g.below(4) {
        0 => format!("{s}{}", g.pick(&["x", ".*", "+", "..1", "-", "!", " 1", "\u{661}", "+a b", ".post1.post2.post3", "\n.1"])),
        1 => format!("{}{s}", g.pick(&["x", "-", ".", "=", "a1.", "!", "+"])),
        2 => g.pick(&["", " ", "foo", "1.0 2.0", "1,0", "1.0a1a2", "1!2!3", "1.0.dev1.post1", "1.0+a+b", "1.0.dev0.dev1", "1.0\u{0}", "one", "1.0dev1post1", "a", "v", "1.-1x"]).to_string(),
        _ => s.replacen(|c: char| c.is_ascii_digit(), g.pick(&["x", "\u{b2}", " ", "/"]), 1),
    };
    g.note(format!("{t:?}"));
    // only strings that are certainly not versions
    let starts_ok = t.trim_start_matches(['v', 'V']).starts_with(|c: char| c.is_ascii_digit());
    let charset = t.chars().all(|c| c.is_ascii_alphanumeric() || ".-_+!".contains(c));
    let certain = t.is_empty() || !starts_ok || !charset || t.ends_with(['+', '!']) || t.contains("..") || t.matches('!').count() > 1 || t.matches('+').count() > 1;
    g.nontrivial = certain;
    if certain {
        let r: eyre::Result<Version> = t.parse();
        ensure!(r.is_err(), "{t:?} is not a version, but reads as {}", r.unwrap());
    }
    Ok(())
}

fn ops(g: &mut G) -> R {
    let op = *g.choose(&OPS);
    g.note(op);
    g.nontrivial = true;
    let p: CompareOp = op.parse().map_err(|e| ff(format!("{op}: {e}")))?;
    ensure!(p.to_string() == op, "{op} prints as {p}");
    Ok(())
}

pub fn property() -> Property {
    #[allow(unused_mut)]
    let mut p = Property {
        id: "C03",
        level: "exploration",
        assumptions: &[
            "the reference model of PEP 440 in pep440.rs (cross-checked against pypa/packaging during development)",
            "numbers below 2^32-2, the range in which posy's 32-bit representation is exact",
            "'<V' and '>V' exclude pre/post-releases of exactly V, the wording of the PEP",
        ],
        subs: vec![
            Sub { name: "order", rule: "two structurally related versions in random PEP 440 spellings; Ord/Eq/Hash/is_prerelease/Display/JSON/next() against the model; non-trivial = structures differ", quick: 225_000, thorough: 5_000_000, threads: 8, run: ordering },
            Sub { name: "match", rule: "1-3 clauses built near a version, random spelling, whitespace, parentheses; satisfied_by and to_ranges against the model, print/JSON round trip; non-trivial = some clause shares the release or is a prefix clause", quick: 225_000, thorough: 5_000_000, threads: 8, run: matching },
            Sub { name: "boundary", rule: "one clause against the product of neighbouring releases, pre/post/dev numbers and locals (evaluations counts versions); all non-trivial", quick: 250, thorough: 10_000, threads: 8, run: boundary },
            Sub { name: "malformed", rule: "clauses PEP 440 forbids; refused at parse or use; all non-trivial", quick: 45_000, thorough: 500_000, threads: 8, run: malformed },
            Sub { name: "not-versions", rule: "corrupted version strings; refused when certainly illegal; non-trivial = certainly illegal", quick: 45_000, thorough: 500_000, threads: 8, run: bad_versions },
            Sub { name: "operators", rule: "operators print back", quick: 50, thorough: 50, threads: 1, run: ops },
        ],
    };
    #[cfg(feature = "c19")]
    p.subs.push(Sub { name: "resolver", rule: "universes as in C18 with constraints on most requirements: what is resolved, and whether anything is, against an exhaustive search with the reference model of the specifiers; non-trivial: the newest versions do not fit together", quick: 3_000, thorough: 100_000, threads: 16, run: super::c19::backtracking });
    p
}
