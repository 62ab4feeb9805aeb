//! Reference model of PEP 508 requirements: structures, a renderer that uses every legal
//! spelling, and a recursive-descent recognizer written from the PEP's grammar (with the
//! documented extension that `and`/`or` chain without parentheses).
use crate::gen;
use crate::pep440;
use crate::prop::G;
use posy::verif_hooks::{marker, CompareOp, Requirement};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Var(String),
    Lit(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    And(Vec<M>),
    Or(Vec<M>),
    Op { op: String, lhs: V, rhs: V },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub name: String,
    pub extras: Vec<String>,
    pub specs: Vec<(String, String)>,
    pub marker: Option<M>,
}

pub const VARS: [&str; 12] = [
    "python_version", "python_full_version", "os_name", "sys_platform", "platform_release", "platform_system",
    "platform_version", "platform_machine", "platform_python_implementation", "implementation_name",
    "implementation_version", "extra",
];
/// PEP 345 and setuptools spellings
pub const ALIASES: [(&str, &str); 6] = [
    ("os.name", "os_name"),
    ("sys.platform", "sys_platform"),
    ("platform.version", "platform_version"),
    ("platform.machine", "platform_machine"),
    ("platform.python_implementation", "platform_python_implementation"),
    ("python_implementation", "platform_python_implementation"),
];
pub const MARKER_OPS: [&str; 9] = ["==", "!=", "<=", ">=", "<", ">", "~=", "in", "not in"];

impl M {
    /// and(and(a,b),c) and and(a,and(b,c)) mean the same
    pub fn flat(self) -> M {
        match self {
            M::And(xs) => {
                let mut out = vec![];
                for x in xs {
                    match x.flat() {
                        M::And(ys) => out.extend(ys),
                        y => out.push(y),
                    }
                }
                if out.len() == 1 { out.pop().unwrap() } else { M::And(out) }
            }
            M::Or(xs) => {
                let mut out = vec![];
                for x in xs {
                    match x.flat() {
                        M::Or(ys) => out.extend(ys),
                        y => out.push(y),
                    }
                }
                if out.len() == 1 { out.pop().unwrap() } else { M::Or(out) }
            }
            x => x,
        }
    }
    pub fn leaves(&self) -> usize {
        match self {
            M::And(x) | M::Or(x) => x.iter().map(|m| m.leaves()).sum(),
            _ => 1,
        }
    }
    pub fn any_leaf(&self, f: &dyn Fn(&str, &V, &V) -> bool) -> bool {
        match self {
            M::And(x) | M::Or(x) => x.iter().any(|m| m.any_leaf(f)),
            M::Op { op, lhs, rhs } => f(op, lhs, rhs),
        }
    }
    pub fn uses_extra(&self) -> bool {
        self.any_leaf(&|_, l, r| *l == V::Var("extra".into()) || *r == V::Var("extra".into()))
    }
}

pub fn op_text(op: &CompareOp) -> &'static str {
    match op {
        CompareOp::Equal => "==",
        CompareOp::NotEqual => "!=",
        CompareOp::LessThanEqual => "<=",
        CompareOp::GreaterThanEqual => ">=",
        CompareOp::StrictlyLessThan => "<",
        CompareOp::StrictlyGreaterThan => ">",
        CompareOp::Compatible => "~=",
    }
}

fn from_value(v: &marker::Value) -> V {
    match v {
        marker::Value::Variable(x) => V::Var(x.clone()),
        marker::Value::Literal(x) => V::Lit(x.clone()),
    }
}

/// posy's tree, flattened
pub fn from_posy(m: &marker::EnvMarkerExpr) -> M {
    use marker::EnvMarkerExpr as E;
    fn conv(m: &marker::EnvMarkerExpr) -> M {
        match m {
            E::And(a, b) => M::And(vec![conv(a), conv(b)]),
            E::Or(a, b) => M::Or(vec![conv(a), conv(b)]),
            E::Operator { op, lhs, rhs } => M::Op {
                op: match op {
                    marker::Op::Compare(c) => op_text(c).into(),
                    marker::Op::In => "in".into(),
                    marker::Op::NotIn => "not in".into(),
                },
                lhs: from_value(lhs),
                rhs: from_value(rhs),
            },
        }
    }
    conv(m).flat()
}

pub fn req_from_posy(r: &Requirement) -> Req {
    Req {
        name: r.name.as_given().to_string(),
        extras: r.extras.iter().map(|e| e.as_given().to_string()).collect(),
        specs: r.specifiers.0.iter().map(|s| (op_text(&s.op).to_string(), s.value.clone())).collect(),
        marker: r.env_marker_expr.as_ref().map(from_posy),
    }
}

// ---- rendering ----

pub fn ws(g: &mut G) -> String {
    g.pick(&["", " ", "", "\t", "  ", " \t "]).to_string()
}
fn ws1(g: &mut G) -> String {
    g.pick(&[" ", "\t", "  "]).to_string()
}

fn render_v(g: &mut G, v: &V) -> String {
    match v {
        V::Var(x) => {
            let al: Vec<&str> = ALIASES.iter().filter(|a| a.1 == x).map(|a| a.0).collect();
            if !al.is_empty() && g.chance(1, 4) { g.choose(&al).to_string() } else { x.clone() }
        }
        V::Lit(x) => {
            let q = if x.contains('"') {
                "'"
            } else if x.contains('\'') {
                "\""
            } else {
                g.pick(&["\"", "'"])
            };
            format!("{q}{x}{q}")
        }
    }
}

pub fn render_marker(g: &mut G, m: &M) -> String {
    // 0: top level/or context, 1: and context
    fn go(g: &mut G, m: &M, ctx: u8) -> String {
        let wordy = |s: &str| s.chars().last().map_or(false, |c| c.is_ascii_alphanumeric() || c == '_');
        let wordy0 = |s: &str| s.chars().next().map_or(false, |c| c.is_ascii_alphanumeric() || c == '_');
        let s = match m {
            M::Op { op, lhs, rhs } => {
                let (l, r) = (render_v(g, lhs), render_v(g, rhs));
                let word = op.ends_with("in");
                let o = if op == "not in" { format!("not{}in", ws1(g)) } else { op.clone() };
                let a = if word && wordy(&l) { ws1(g) } else { ws(g) };
                let b = if word && wordy0(&r) { ws1(g) } else { ws(g) };
                format!("{l}{a}{o}{b}{r}")
            }
            M::And(xs) | M::Or(xs) => {
                let and = matches!(m, M::And(_));
                let word = if and { "and" } else { "or" };
                let mut s = String::new();
                for (i, x) in xs.iter().enumerate() {
                    let t = go(g, x, if and { 1 } else { 0 });
                    if i > 0 {
                        s += &if wordy(&s) { ws1(g) } else { ws(g) };
                        s += word;
                        s += &if wordy0(&t) { ws1(g) } else { ws(g) };
                    }
                    s += &t;
                }
                if !and && ctx == 1 {
                    format!("({}{s}{})", ws(g), ws(g))
                } else {
                    s
                }
            }
        };
        if g.chance(1, 8) { format!("({}{s}{})", ws(g), ws(g)) } else { s }
    }
    go(g, m, 0)
}

pub fn render_specs(g: &mut G, specs: &[(String, String)]) -> String {
    let mut s = String::new();
    for (i, (op, v)) in specs.iter().enumerate() {
        if i > 0 {
            s += &ws(g);
            s += ",";
            s += &ws(g);
        }
        s += op;
        s += &ws(g);
        s += v;
    }
    if g.chance(1, 3) { format!("({}{s}{})", ws(g), ws(g)) } else { s }
}

pub fn render(g: &mut G, r: &Req) -> String {
    let mut s = ws(g);
    s += &r.name;
    if !r.extras.is_empty() || g.chance(1, 12) {
        s += &ws(g);
        s += "[";
        s += &ws(g);
        for (i, e) in r.extras.iter().enumerate() {
            if i > 0 {
                s += &ws(g);
                s += ",";
                s += &ws(g);
            }
            s += e;
        }
        s += &ws(g);
        s += "]";
    }
    s += &ws(g);
    if !r.specs.is_empty() {
        s += &render_specs(g, &r.specs);
        s += &ws(g);
    }
    if let Some(m) = &r.marker {
        s += ";";
        s += &ws(g);
        s += &render_marker(g, m);
    }
    s + &ws(g)
}

// ---- generators ----

/// What PEP 508 lets a quoted string contain, besides the other kind of quote.
const STR_CHARS: &[u8] = b" \tABCxyz019().{}-_*#:;,/?[]!~`@$%^&=+|<>";

pub fn literal(g: &mut G) -> String {
    match g.below(4) {
        0 => {
            let v = pep440::version(g, false);
            pep440::spell(g, &v)
        }
        1 => g.pick(&["linux", "win32", "posix", "CPython", "x86_64", "3.8", "and", " or ", "(", ")", "not in", "", "extra"]).to_string(),
        _ => {
            let mut s = g.string(STR_CHARS, 0, 6);
            if g.chance(1, 6) {
                let i = g.usize(s.len() + 1);
                s.insert(i, *g.choose(&['"', '\'']));
            }
            s
        }
    }
}

pub fn value(g: &mut G, extra: bool) -> V {
    if g.bool() {
        let n = if extra { 12 } else { 11 };
        V::Var(VARS[g.usize(n)].to_string())
    } else {
        V::Lit(literal(g))
    }
}

pub fn tree(g: &mut G, depth: usize, leaf: &mut dyn FnMut(&mut G) -> M) -> M {
    if depth == 0 || g.chance(1, 2) {
        return leaf(g);
    }
    let and = g.bool();
    let xs: Vec<M> = (0..g.range(2, 4)).map(|_| tree(g, depth - 1, leaf)).collect();
    if and { M::And(xs).flat() } else { M::Or(xs).flat() }
}

pub fn marker_any(g: &mut G, depth: usize, extra: bool) -> M {
    tree(g, depth, &mut |g| M::Op { op: g.choose(&MARKER_OPS).to_string(), lhs: value(g, extra), rhs: value(g, extra) })
}

const VERSION_CHARS: &[u8] = b"0123abZ-_.*+!";

pub fn spec_pair(g: &mut G) -> (String, String) {
    let op = g.choose(&pep440::OPS).to_string();
    let v = if g.chance(1, 6) {
        g.string(VERSION_CHARS, 1, 6)
    } else {
        let v = pep440::version(g, true);
        let mut t = pep440::spell(g, &v);
        if g.chance(1, 8) {
            t += ".*";
        }
        t
    };
    (op, v)
}

pub fn req(g: &mut G, extra: bool) -> Req {
    Req {
        name: gen::name(g, true),
        extras: if g.chance(1, 3) { g.vec(0, 3, |g| gen::name(g, true)) } else { vec![] },
        specs: if g.chance(2, 3) { g.vec(1, 3, spec_pair) } else { vec![] },
        marker: if g.chance(1, 2) { Some(marker_any(g, 3, extra)) } else { None },
    }
}

// ---- recognizer ----

struct P<'a> {
    s: &'a [u8],
    i: usize,
    extra: bool,
}
type O<T> = Option<T>;
fn wordc(c: u8) -> bool {
    c.is_ascii_alphanumeric()
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn peek(&self) -> u8 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn take(&mut self, f: impl Fn(u8) -> bool) -> String {
        let a = self.i;
        while self.i < self.s.len() && f(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8(self.s[a..self.i].to_vec()).unwrap()
    }
    fn ident(&mut self) -> O<String> {
        if !wordc(self.peek()) {
            return None;
        }
        let t = self.take(|c| wordc(c) || b"-_.".contains(&c));
        gen::legal_name(&t).then_some(t)
    }
    fn op(&mut self) -> O<String> {
        for o in ["<=", "<", "!=", "==", ">=", ">", "~="] {
            if self.eat(o) {
                return Some(o.into());
            }
        }
        None
    }
    fn specs(&mut self) -> O<Vec<(String, String)>> {
        let mut out = vec![];
        loop {
            self.ws();
            let op = self.op()?;
            self.ws();
            let v = self.take(|c| wordc(c) || b"-_.*+!".contains(&c));
            if v.is_empty() {
                return None;
            }
            out.push((op, v));
            self.ws();
            if !self.eat(",") {
                return Some(out);
            }
        }
    }
    fn value(&mut self) -> O<V> {
        self.ws();
        for (a, v) in ALIASES.iter() {
            if self.eat(a) {
                return Some(V::Var(v.to_string()));
            }
        }
        for v in VARS {
            if self.eat(v) {
                return if v == "extra" && !self.extra { None } else { Some(V::Var(v.into())) };
            }
        }
        let q = self.peek();
        if q != b'"' && q != b'\'' {
            return None;
        }
        self.i += 1;
        let other = if q == b'"' { b'\'' } else { b'"' };
        let t = self.take(|c| wordc(c) || c == other || b" \t(){}.-_*#:;,/?[]!~`@$%^&=+|<>".contains(&c));
        if self.peek() != q || self.i >= self.s.len() {
            return None;
        }
        self.i += 1;
        Some(V::Lit(t))
    }
    fn expr(&mut self, depth: usize) -> O<M> {
        if depth > 60 {
            return None;
        }
        self.ws();
        if self.eat("(") {
            let m = self.or(depth + 1)?;
            self.ws();
            return self.eat(")").then_some(m);
        }
        let lhs = self.value()?;
        self.ws();
        let op = if let Some(o) = self.op() {
            o
        } else if self.eat("in") {
            "in".into()
        } else if self.eat("not") {
            let a = self.i;
            self.ws();
            if self.i == a || !self.eat("in") {
                return None;
            }
            "not in".into()
        } else {
            return None;
        };
        let rhs = self.value()?;
        Some(M::Op { op, lhs, rhs })
    }
    fn and(&mut self, depth: usize) -> O<M> {
        let mut xs = vec![self.expr(depth)?];
        loop {
            let save = self.i;
            self.ws();
            if !self.eat("and") {
                self.i = save;
                return Some(M::And(xs));
            }
            xs.push(self.expr(depth)?);
        }
    }
    fn or(&mut self, depth: usize) -> O<M> {
        let mut xs = vec![self.and(depth)?];
        loop {
            let save = self.i;
            self.ws();
            if !self.eat("or") {
                self.i = save;
                return Some(M::Or(xs));
            }
            xs.push(self.and(depth)?);
        }
    }
}

pub fn parse(s: &str, extra: bool) -> Option<Req> {
    let mut p = P { s: s.as_bytes(), i: 0, extra };
    p.ws();
    let name = p.ident()?;
    p.ws();
    let mut extras = vec![];
    if p.eat("[") {
        p.ws();
        if !p.eat("]") {
            loop {
                extras.push(p.ident()?);
                p.ws();
                if p.eat("]") {
                    break;
                }
                if !p.eat(",") {
                    return None;
                }
                p.ws();
            }
        }
        p.ws();
    }
    let mut specs = vec![];
    if p.eat("(") {
        specs = p.specs()?;
        if !p.eat(")") {
            return None;
        }
    } else if b"<>=!~".contains(&p.peek()) {
        specs = p.specs()?;
    }
    p.ws();
    let mut m = None;
    if p.eat(";") {
        m = Some(p.or(0)?.flat());
    }
    p.ws();
    (p.i == s.len()).then_some(Req { name, extras, specs, marker: m })
}

pub fn parse_marker(s: &str) -> Option<M> {
    let mut p = P { s: s.as_bytes(), i: 0, extra: false };
    let m = p.or(0)?.flat();
    (p.i == s.len()).then_some(m)
}

/// How deeply a marker's parentheses nest, at most.
pub fn depth(s: &str) -> usize {
    let (mut d, mut max) = (0usize, 0usize);
    for c in s.chars() {
        match c {
            '(' => {
                d += 1;
                max = max.max(d)
            }
            ')' => d = d.saturating_sub(1),
            _ => {}
        }
    }
    max
}

// ---- evaluation ----

/// A marker operand's text, with what PEP 440 makes of it.
#[derive(Clone, Debug)]
pub enum Kind {
    Version(pep440::Ver),
    /// X.Y.*
    Wild(pep440::Ver),
    Text,
}

pub struct Env {
    pub vars: HashMap<String, (String, Kind)>,
    pub lits: HashMap<String, Kind>,
}

/// None: an error
pub fn eval_leaf(env: &Env, op: &str, lhs: &V, rhs: &V) -> Option<bool> {
    let get = |v: &V| -> Option<(String, Kind)> {
        match v {
            V::Var(x) => env.vars.get(x).cloned(),
            V::Lit(x) => Some((x.clone(), env.lits.get(x).cloned().unwrap_or(Kind::Text))),
        }
    };
    let (mut l, lk) = get(lhs)?;
    let (mut r, rk) = get(rhs)?;
    let is_extra = |v: &V| *v == V::Var("extra".into());
    let extra = is_extra(lhs) || is_extra(rhs);
    if extra {
        // PEP 685
        if is_extra(lhs) && gen::legal_name(&r) {
            r = gen::normalize(&r);
        }
        if is_extra(rhs) && gen::legal_name(&l) {
            l = gen::normalize(&l);
        }
    }
    match op {
        "in" => return Some(r.contains(&l)),
        "not in" => return Some(!r.contains(&l)),
        _ => {}
    }
    if let (Kind::Version(lv), false) = (&lk, extra) {
        let clause = match &rk {
            Kind::Version(rv) => Some(pep440::Spec { op: pep440::OPS.iter().find(|o| **o == op).unwrap(), ver: rv.clone(), wildcard: false }),
            Kind::Wild(rv) => Some(pep440::Spec { op: pep440::OPS.iter().find(|o| **o == op).unwrap(), ver: rv.clone(), wildcard: true }),
            Kind::Text => None,
        };
        if let Some(c) = clause {
            if c.legal() {
                return Some(c.matches(lv));
            }
        }
    }
    match op {
        "==" => Some(l == r),
        "!=" => Some(l != r),
        "<" => Some(l < r),
        "<=" => Some(l <= r),
        ">" => Some(l > r),
        ">=" => Some(l >= r),
        _ => None,
    }
}

/// (value under three-valued logic, whether any comparison is an error)
pub fn eval(env: &Env, m: &M) -> (Option<bool>, bool) {
    match m {
        M::Op { op, lhs, rhs } => {
            let r = eval_leaf(env, op, lhs, rhs);
            (r, r.is_none())
        }
        M::And(xs) | M::Or(xs) => {
            let dominant = matches!(m, M::Or(_));
            let rs: Vec<_> = xs.iter().map(|x| eval(env, x)).collect();
            let err = rs.iter().any(|r| r.1);
            // what posy (and Python) does: left to right, stopping at the first operand
            // that decides. An error before that is an error.
            for r in &rs {
                match r.0 {
                    None => return (None, err),
                    Some(v) if v == dominant => return (Some(v), err),
                    _ => {}
                }
            }
            (Some(!dominant), err)
        }
    }
}
