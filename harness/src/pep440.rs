//! Reference model of PEP 440, written from the text of the PEP. Shares no code with posy
//! or with the pep440 crate: versions are generated as structures and spelled out, and
//! only posy parses strings.
use crate::prop::G;
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    Num(u64),
    Str(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ver {
    pub epoch: u64,
    pub release: Vec<u64>,
    /// 'a', 'b' or 'r'
    pub pre: Option<(char, u64)>,
    pub post: Option<u64>,
    pub dev: Option<u64>,
    pub local: Vec<Seg>,
}

impl Ver {
    pub fn rel(release: &[u64]) -> Ver {
        Ver { epoch: 0, release: release.to_vec(), pre: None, post: None, dev: None, local: vec![] }
    }
    fn trimmed(&self) -> &[u64] {
        let mut r = &self.release[..];
        while let Some((0, rest)) = r.split_last() {
            r = rest;
        }
        r
    }
    pub fn same_release(&self, o: &Ver) -> bool {
        self.epoch == o.epoch && self.trimmed() == o.trimmed()
    }
    pub fn public(&self) -> Ver {
        Ver { local: vec![], ..self.clone() }
    }
    pub fn is_pre(&self) -> bool {
        self.pre.is_some() || self.dev.is_some()
    }
    pub fn canonical(&self) -> String {
        let mut s = String::new();
        if self.epoch != 0 {
            s += &format!("{}!", self.epoch);
        }
        s += &self.release.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(".");
        if let Some((k, n)) = self.pre {
            s += &format!("{}{}", if k == 'r' { "rc" } else if k == 'a' { "a" } else { "b" }, n);
        }
        if let Some(n) = self.post {
            s += &format!(".post{n}");
        }
        if let Some(n) = self.dev {
            s += &format!(".dev{n}");
        }
        if !self.local.is_empty() {
            s += "+";
            s += &self
                .local
                .iter()
                .map(|x| match x {
                    Seg::Num(n) => n.to_string(),
                    Seg::Str(s) => s.clone(),
                })
                .collect::<Vec<_>>()
                .join(".");
        }
        s
    }
    /// PEP 440, "Summary of permitted suffixes and relative ordering".
    pub fn cmp(&self, o: &Ver) -> Ordering {
        fn phase(v: &Ver) -> (u8, u64) {
            match v.pre {
                Some(('a', n)) => (1, n),
                Some(('b', n)) => (2, n),
                Some((_, n)) => (3, n),
                // .devN of a final release sorts before all of its pre-releases
                None if v.post.is_none() && v.dev.is_some() => (0, 0),
                None => (4, 0),
            }
        }
        self.epoch
            .cmp(&o.epoch)
            .then_with(|| self.trimmed().cmp(o.trimmed()))
            .then_with(|| phase(self).cmp(&phase(o)))
            .then_with(|| match (self.post, o.post) {
                (None, None) => Ordering::Equal,
                (None, Some(_)) => Ordering::Less,
                (Some(_), None) => Ordering::Greater,
                (Some(a), Some(b)) => a.cmp(&b),
            })
            .then_with(|| match (self.dev, o.dev) {
                (None, None) => Ordering::Equal,
                (None, Some(_)) => Ordering::Greater,
                (Some(_), None) => Ordering::Less,
                (Some(a), Some(b)) => a.cmp(&b),
            })
            .then_with(|| {
                for i in 0.. {
                    match (self.local.get(i), o.local.get(i)) {
                        (None, None) => return Ordering::Equal,
                        (None, Some(_)) => return Ordering::Less,
                        (Some(_), None) => return Ordering::Greater,
                        (Some(a), Some(b)) => {
                            let c = match (a, b) {
                                (Seg::Num(a), Seg::Num(b)) => a.cmp(b),
                                (Seg::Str(a), Seg::Str(b)) => a.cmp(b),
                                (Seg::Num(_), Seg::Str(_)) => Ordering::Greater,
                                (Seg::Str(_), Seg::Num(_)) => Ordering::Less,
                            };
                            if c != Ordering::Equal {
                                return c;
                            }
                        }
                    }
                }
                unreachable!()
            })
    }
    pub fn eq(&self, o: &Ver) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub op: &'static str,
    pub ver: Ver,
    pub wildcard: bool,
}

pub const OPS: [&str; 7] = ["==", "!=", "<=", ">=", "<", ">", "~="];

impl Spec {
    /// Is this a clause PEP 440 gives a meaning to?
    pub fn legal(&self) -> bool {
        if self.wildcard {
            return (self.op == "==" || self.op == "!=") && self.ver.dev.is_none() && self.ver.local.is_empty();
        }
        if !self.ver.local.is_empty() && self.op != "==" && self.op != "!=" {
            return false;
        }
        !(self.op == "~=" && self.ver.release.len() < 2)
    }

    fn prefix(&self, c: &Ver) -> bool {
        let v = &self.ver;
        if v.epoch != c.epoch {
            return false;
        }
        if v.pre.is_none() && v.post.is_none() {
            return v.release.iter().enumerate().all(|(i, n)| c.release.get(i).copied().unwrap_or(0) == *n);
        }
        // X.aN.* / X.postN.*: same release, and agreement on every segment given
        v.same_release(c) && v.pre == c.pre && (v.post.is_none() || v.post == c.post)
    }

    pub fn matches(&self, c: &Ver) -> bool {
        let v = &self.ver;
        match self.op {
            "==" if self.wildcard => self.prefix(c),
            "!=" if self.wildcard => !self.prefix(c),
            "==" if v.local.is_empty() => c.public().eq(v),
            "==" => c.eq(v),
            "!=" if v.local.is_empty() => !c.public().eq(v),
            "!=" => !c.eq(v),
            "<=" => c.public().cmp(v) != Ordering::Greater,
            ">=" => c.public().cmp(v) != Ordering::Less,
            "<" => {
                // MUST NOT allow a pre-release of the specified version unless the
                // specified version is itself a pre-release
                let pre_of_v = !v.is_pre()
                    && v.same_release(c)
                    && match v.post {
                        None => c.is_pre(),
                        Some(_) => c.pre.is_none() && c.post == v.post && c.dev.is_some(),
                    };
                c.public().cmp(v) == Ordering::Less && !pre_of_v
            }
            ">" => {
                // MUST NOT allow a post-release of the given version unless V itself is a
                // post release; MUST NOT match a local version of the specified version
                let post_of_v = v.post.is_none() && v.dev.is_none() && v.same_release(c) && v.pre == c.pre && c.post.is_some();
                c.public().cmp(v) == Ordering::Greater && !post_of_v
            }
            "~=" => {
                let mut prefix = Ver::rel(&v.release[..v.release.len() - 1]);
                prefix.epoch = v.epoch;
                c.public().cmp(v) != Ordering::Less && Spec { op: "==", ver: prefix, wildcard: true }.matches(c)
            }
            _ => unreachable!(),
        }
    }

    pub fn canonical(&self) -> String {
        format!("{}{}{}", self.op, self.ver.canonical(), if self.wildcard { ".*" } else { "" })
    }
}

// ---- generators ----

/// Numbers clustered so that near misses are common.
pub fn num(g: &mut G) -> u64 {
    match g.weighted(&[12, 3, 1]) {
        0 => g.below(4),
        1 => *g.choose(&[5, 9, 10, 11, 99]),
        _ => *g.choose(&[100, 2020, 20230115, 4294967294]),
    }
}

pub fn small(g: &mut G) -> u64 {
    g.below(3)
}

pub fn version(g: &mut G, with_local: bool) -> Ver {
    let epoch = if g.chance(1, 12) { g.range(1, 2) } else { 0 };
    let n = g.range(1, 4);
    let release = (0..n).map(|_| num(g)).collect();
    suffixes(g, Ver { epoch, release, pre: None, post: None, dev: None, local: vec![] }, with_local)
}

pub fn suffixes(g: &mut G, mut v: Ver, with_local: bool) -> Ver {
    v.pre = if g.chance(1, 4) { Some((*g.choose(&['a', 'b', 'r']), small(g))) } else { None };
    v.post = if g.chance(1, 4) { Some(small(g)) } else { None };
    v.dev = if g.chance(1, 4) { Some(small(g)) } else { None };
    v.local = if with_local && g.chance(1, 5) { local(g) } else { vec![] };
    v
}

pub fn local(g: &mut G) -> Vec<Seg> {
    g.vec(1, 3, |g| {
        if g.bool() {
            Seg::Num(small(g))
        } else {
            Seg::Str(g.pick(&["a", "b", "ubuntu", "zzz", "1a", "cu118", "abc"]).to_string())
        }
    })
}

/// A version close to `v`: shares most of its components.
pub fn near(g: &mut G, v: &Ver, with_local: bool) -> Ver {
    let mut w = v.clone();
    for _ in 0..g.range(1, 2) {
        match g.below(11) {
            0 => w = suffixes(g, w, with_local),
            1 => w.release.push(0),
            2 => w.release.push(num(g)),
            3 => {
                if w.release.len() > 1 {
                    w.release.pop();
                }
            }
            4 => {
                let i = g.usize(w.release.len());
                w.release[i] = w.release[i].saturating_add(1).min(4294967294);
            }
            5 => {
                let i = g.usize(w.release.len());
                w.release[i] = w.release[i].saturating_sub(1);
            }
            6 => w.post = Some(small(g)),
            7 => w.dev = Some(small(g)),
            8 => w.pre = if w.pre.is_some() && g.bool() { None } else { Some((*g.choose(&['a', 'b', 'r']), small(g))) },
            9 => {
                if g.bool() {
                    w.post = None
                } else {
                    w.dev = None
                }
            }
            _ => {
                if with_local {
                    w.local = if g.chance(1, 3) { vec![] } else { local(g) }
                } else {
                    w.epoch = if w.epoch == 0 { 1 } else { 0 }
                }
            }
        }
    }
    w
}

/// Some spelling of `v` that PEP 440 normalizes to it.
pub fn spell(g: &mut G, v: &Ver) -> String {
    fn n(g: &mut G, x: u64) -> String {
        if g.chance(1, 10) { format!("0{x}") } else { x.to_string() }
    }
    fn case(g: &mut G, s: &str) -> String {
        if g.chance(1, 6) { s.to_uppercase() } else { s.to_string() }
    }
    let mut s = String::new();
    if g.chance(1, 10) {
        s += g.pick(&["v", "V"]);
    }
    if v.epoch != 0 || g.chance(1, 20) {
        s += &format!("{}!", n(g, v.epoch));
    }
    let rel: Vec<String> = v.release.iter().map(|x| n(g, *x)).collect();
    s += &rel.join(".");
    let mut pre_implicit = false;
    if let Some((k, x)) = v.pre {
        s += g.pick(&["", ".", "-", "_"]);
        let names: &[&str] = match k {
            'a' => &["a", "alpha"],
            'b' => &["b", "beta"],
            _ => &["rc", "c", "pre", "preview"],
        };
        let l = g.pick(names).to_string();
        s += &case(g, &l);
        let implicit = x == 0 && g.bool();
        if !implicit {
            s += g.pick(&["", ".", "-", "_"]);
            s += &n(g, x);
        }
        pre_implicit = implicit;
    }
    if let Some(x) = v.post {
        // (1.0a-1 would be 1.0a1)
        if !pre_implicit && g.chance(1, 4) {
            s += &format!("-{}", n(g, x));
        } else {
            s += g.pick(&[".", "", "-", "_"]);
            let l = g.pick(&["post", "rev", "r"]).to_string();
            s += &case(g, &l);
            if x != 0 || g.bool() {
                s += g.pick(&["", ".", "-", "_"]);
                s += &n(g, x);
            }
        }
    }
    if let Some(x) = v.dev {
        s += g.pick(&[".", "", "-", "_"]);
        s += &case(g, "dev");
        if x != 0 || g.bool() {
            s += g.pick(&["", ".", "-", "_"]);
            s += &n(g, x);
        }
    }
    if !v.local.is_empty() {
        s += "+";
        for (i, seg) in v.local.iter().enumerate() {
            if i > 0 {
                s += g.pick(&[".", "-", "_"]);
            }
            match seg {
                Seg::Num(x) => s += &n(g, *x),
                Seg::Str(t) => s += &case(g, t),
            }
        }
    }
    s
}
