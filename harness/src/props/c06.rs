//! C06: package metadata documents are read faithfully.
use crate::gen;
use crate::pep440;
use crate::pep508;
use crate::prop::*;
use posy::verif_hooks::*;
use posy::verif_hooks::RFC822ish;
use std::collections::{BTreeSet, HashMap};

/// A document as its author means it: headers in order, and the body.
#[derive(Debug, Clone)]
pub struct Doc {
    pub headers: Vec<(String, String)>,
    pub body: Option<String>,
}

impl Doc {
    pub fn fields(&self) -> HashMap<String, Vec<String>> {
        let mut m: HashMap<String, Vec<String>> = HashMap::new();
        for (k, v) in &self.headers {
            m.entry(k.to_ascii_lowercase()).or_default().push(v.clone());
        }
        m
    }
}

pub fn respell_case(g: &mut G, s: &str) -> String {
    match g.below(4) {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        _ => s.to_string(),
    }
}

/// Text of the document. Lines end in `le`; values already contain their line endings.
pub fn render(g: &mut G, d: &Doc, les: &[&str]) -> String {
    let mut s = String::new();
    for (i, (k, v)) in d.headers.iter().enumerate() {
        if i > 0 {
            s += g.pick(les);
        }
        s += &respell_case(g, k);
        s += ":";
        s += g.pick(&[" ", "", "  ", "\t", " "]);
        s += v;
    }
    match &d.body {
        Some(b) => {
            s += g.pick(les);
            s += g.pick(les);
            s += b;
        }
        None => {
            if g.bool() && !d.headers.is_empty() {
                s += g.pick(les);
            }
        }
    }
    s
}

const VALUE_PIECES: &[&str] = &["a", "b:c", "word word", "Some-Text", ": ", "é", "\u{2028}", "x\ty", "#", "\"q\"", "http://x/y", "=", "日本", "\u{b}", "1.0 "];

fn value(g: &mut G, les: &[&str]) -> String {
    let mut s = String::new();
    let lines = if g.chance(1, 3) { g.range(1, 4) } else { 1 };
    for i in 0..lines {
        if i > 0 {
            s += g.pick(les);
            s += g.pick(&[" ", "\t", "        ", " |"]);
        }
        for _ in 0..g.len(0, 3) {
            s += g.pick(VALUE_PIECES);
        }
        if i == 0 {
            s = s.trim_start_matches([' ', '\t']).to_string();
        }
    }
    s
}

fn line_endings(g: &mut G) -> &'static [&'static str] {
    match g.below(4) {
        0 | 1 => &["\n"],
        2 => &["\r\n"],
        3 => &["\n", "\r\n"],
        _ => &["\r"],
    }
}

fn body(g: &mut G, cr: bool) -> Option<String> {
    if g.chance(1, 3) {
        return None;
    }
    let mut s = String::new();
    for _ in 0..g.len(0, 6) {
        s += g.pick(&["text", "\n", "\n\n", "Name: not-a-header", " indented", "\r\n", "é", ":"]);
    }
    if cr {
        // "\r" + "\n..." would read as one line ending
        s = s.trim_start_matches('\n').to_string();
    }
    Some(s)
}

const NAMES: &[&str] = &["Name", "A", "Requires-Dist", "Classifier", "x-custom!", "Summary", "a", "$%&'()*+,-./", "Z~", "0"];

fn document(g: &mut G) -> R {
    let cr = g.chance(1, 8);
    let les: &[&str] = if cr { &["\r"] } else { line_endings(g) };
    let headers = g.vec(1, 8, |g| {
        let n = g.pick(NAMES);
        (respell_case(g, n), value(g, les))
    });
    let d = Doc { headers, body: body(g, cr) };
    let text = render(g, &d, les);
    g.note(format!("{text:?}"));
    let multi = d.headers.iter().any(|h| h.1.contains(les[0]));
    g.nontrivial = d.headers.len() > 1;
    if multi {
        g.label("continuation lines");
    }
    if d.body.is_some() {
        g.label("body");
    }
    let mut p = RFC822ish::parse(&text).map_err(|e| ff(format!("legal document {text:?} refused: {e}")))?;
    ensure!(p.fields == d.fields(), "{text:?} read as {:?}\n expected {:?}", p.fields, d.fields());
    ensure!(p.body == d.body, "{text:?}: body read as {:?}, expected {:?}", p.body, d.body);
    // accessors
    for n in NAMES {
        let want = d.fields().get(&n.to_ascii_lowercase()).cloned().unwrap_or_default();
        let spelled = respell_case(g, n);
        if want.len() > 1 {
            let mut q = RFC822ish::parse(&text).unwrap();
            ensure!(q.take_the(&spelled).is_err(), "{text:?}: take_the({n}) picks one of {}", want.len());
            let mut q = RFC822ish::parse(&text).unwrap();
            ensure!(q.maybe_take_the(&spelled).is_err(), "{text:?}: maybe_take_the({n}) picks one of {}", want.len());
        } else {
            let mut q = RFC822ish::parse(&text).unwrap();
            let got = q.maybe_take_the(&spelled).map_err(|e| ff(format!("{text:?}: {n}: {e}")))?;
            ensure!(got.as_ref() == want.first(), "{text:?}: maybe_take_the({n}) = {got:?}");
            let mut q = RFC822ish::parse(&text).unwrap();
            ensure!(q.take_the(&spelled).ok().as_ref() == want.first(), "{text:?}: take_the({n})");
        }
        let got = p.take_all(&spelled);
        // (a name occurring twice in NAMES with different case has been taken already)
        ensure!(got == want || (got.is_empty() && (*n == "a")), "{text:?}: take_all({n}) = {got:?}, expected {want:?}");
    }
    Ok(())
}

/// Line-based reading of a document, written from the comments in rfc822ish.rs and from
/// what Python's email.parser does. None: refused.
fn reference(text: &str) -> Option<Doc> {
    // split into lines with their endings
    let mut lines: Vec<(&str, &str)> = vec![];
    let b = text.as_bytes();
    let (mut a, mut i) = (0, 0);
    while i < b.len() {
        let n = if b[i..].starts_with(b"\r\n") {
            2
        } else if b[i] == b'\n' || b[i] == b'\r' {
            1
        } else {
            0
        };
        if n > 0 {
            lines.push((&text[a..i], &text[i..i + n]));
            i += n;
            a = i;
        } else {
            i += 1;
        }
    }
    if a < b.len() {
        lines.push((&text[a..], ""));
    }
    let mut d = Doc { headers: vec![], body: None };
    let mut pos = 0;
    for (idx, (l, e)) in lines.iter().enumerate() {
        if l.is_empty() {
            if idx == 0 {
                // no headers at all: a lone newline is tolerated, and so is a body
                // after two of them
                if lines.len() == 1 {
                    return Some(d);
                }
                if lines[1].0.is_empty() {
                    d.body = Some(text[e.len() + lines[1].1.len()..].into());
                    return Some(d);
                }
                return None;
            }
            d.body = Some(text[pos + e.len()..].into());
            return Some(d);
        }
        if l.starts_with([' ', '\t']) {
            let prev_end = if idx > 0 { lines[idx - 1].1 } else { "" };
            let h = d.headers.last_mut()?;
            h.1 += prev_end;
            h.1 += l;
        } else {
            let (k, v) = l.split_once(':')?;
            if k.is_empty() || !k.bytes().all(|c| (0x21..=0x7e).contains(&c)) {
                return None;
            }
            d.headers.push((k.into(), v.trim_start_matches([' ', '\t']).into()));
        }
        pos += l.len() + e.len();
    }
    Some(d)
}

fn mutated(g: &mut G) -> R {
    let les = line_endings(g);
    let headers = g.vec(1, 5, |g| (g.pick(NAMES).to_string(), value(g, les)));
    let d = Doc { headers, body: body(g, false) };
    let mut text = render(g, &d, les);
    match g.below(6) {
        0 => text.insert_str(0, g.pick(&[" ", "\t x\n", "\n", "garbage\n", ": x\n", "a b: c\n", "é: x\n"])),
        1 => {
            let at: Vec<usize> = text.match_indices('\n').map(|m| m.0 + 1).collect();
            if !at.is_empty() {
                let i = *g.choose(&at);
                text.insert_str(i, g.pick(&["garbage\n", ": x\n", "a b: c\n", "é: x\n", "\r", "no colon", "\u{7f}: x\n", "a\u{1}: b\n"]));
            }
        }
        _ => text = gen::mutate(g, &text),
    }
    g.note(format!("{text:?}"));
    let want = reference(&text);
    g.nontrivial = true;
    g.label(if want.is_some() { "legal" } else { "illegal" });
    match (RFC822ish::parse(&text), want) {
        (Ok(p), Some(d)) => {
            ensure!(p.fields == d.fields(), "{text:?} read as {:?}\n expected {:?}", p.fields, d.fields());
            ensure!(p.body == d.body, "{text:?}: body read as {:?}, expected {:?}", p.body, d.body);
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(p), None) => fail(format!("malformed document {text:?} accepted as {:?} / {:?}", p.fields, p.body)),
        (Err(e), Some(d)) => fail(format!("legal document {text:?} ({d:?}) refused: {e}")),
    }
}

/// (text, legal)
fn metadata_version(g: &mut G) -> (String, bool) {
    if g.chance(5, 6) {
        (g.pick(&["2.1", "1.0", "1.2", "2.2", "2.3", "2.99", "1.1"]).into(), true)
    } else {
        (g.pick(&["3", "3.0", "3.1", "4", "10.0", "3.dev0", "3.0a1", "nonsense", "", "2.x"]).into(), false)
    }
}

fn filler(g: &mut G) -> (String, String) {
    let k = g.pick(&["Summary", "Classifier", "Description", "Author-Email", "X-Requires-Dist", "Requires", "License", "Provides-Dist", "Obsoletes-Dist", "Requires-External"]);
    (k.into(), value(g, &["\n"]))
}

fn wheel_metadata(g: &mut G) -> R {
    let name = gen::name(g, true);
    let ver = pep440::version(g, true);
    let (mv, mut legal) = metadata_version(g);
    let mut why = if legal { String::new() } else { format!("Metadata-Version {mv}") };
    let mut h: Vec<(String, String)> = vec![("Metadata-Version".into(), mv), ("Name".into(), name.clone()), ("Version".into(), pep440::spell(g, &ver))];
    let reqs: Vec<pep508::Req> = g.vec(0, 4, |g| pep508::req(g, true));
    for r in &reqs {
        // whitespace after the colon belongs to the separator
        let t = pep508::render(g, r);
        h.push(("Requires-Dist".into(), t.trim_start_matches([' ', '\t']).to_string()));
    }
    let rp: Option<Vec<(String, String)>> = if g.bool() {
        Some(g.vec(1, 3, |g| {
            let v = pep440::version(g, false);
            (g.pick(&[">=", "<", "!=", "==", "<=", ">"]).to_string(), pep440::spell(g, &v))
        }))
    } else {
        None
    };
    if let Some(specs) = &rp {
        let t = pep508::render_specs(g, specs);
        h.push(("Requires-Python".into(), t.trim_matches([' ', '\t']).to_string()));
    }
    let extras: Vec<String> = g.vec(0, 3, |g| gen::name(g, true));
    for e in &extras {
        h.push(("Provides-Extra".into(), e.clone()));
    }
    for _ in 0..g.len(0, 4) {
        h.push(filler(g));
    }
    // (order of the repeated headers among themselves is what must be kept)
    let mut order: Vec<usize> = (0..h.len()).collect();
    if g.bool() {
        g.shuffle(&mut order);
    }
    let mut h: Vec<(String, String)> = order.iter().map(|i| h[*i].clone()).collect();
    // damage
    if g.chance(1, 4) {
        let k = g.pick(&["Name", "Version", "Metadata-Version", "Requires-Python"]).to_string();
        let i = h.iter().position(|x| x.0 == k);
        match (g.below(3), i) {
            (0, Some(i)) if k != "Requires-Python" => {
                h.remove(i);
                why = format!("no {k}");
                legal = false;
            }
            (1, Some(i)) => {
                let dup = h[i].clone();
                let at = g.usize(h.len() + 1);
                h.insert(at, dup);
                why = format!("two {k}");
                legal = false;
            }
            (_, Some(i)) => {
                h[i].1 = g.pick(&["not legal!", "-", "?", "a b"]).to_string();
                why = format!("bad {k}");
                legal = false;
            }
            _ => {}
        }
    }
    if g.chance(1, 20) {
        h.push(((if g.bool() { "Requires-Dist" } else { "Provides-Extra" }).into(), "not legal!!".into()));
        why = "bad Requires-Dist or Provides-Extra".into();
        legal = false;
    }
    let d = Doc { headers: h, body: body(g, false) };
    let text = render(g, &d, &["\n"]);
    g.note(format!("{text:?}"));
    g.nontrivial = true;
    g.label(if legal { "legal" } else { "illegal" });
    let mut bytes = text.clone().into_bytes();
    // mangled UTF-8 in the body is tolerated
    if d.body.is_some() && g.chance(1, 6) {
        bytes.extend_from_slice(b"\xff\xfe latin \xe9");
    }
    let got: eyre::Result<WheelCoreMetadata> = bytes.as_slice().try_into();
    if !legal {
        ensure!(got.is_err(), "metadata with {why} accepted:\n{text}");
        return Ok(());
    }
    let m = got.map_err(|e| ff(format!("legal metadata refused: {e:?}\n{text}")))?;
    ensure!(m.name.as_given() == name, "name read as {:?}, expected {name:?}", m.name.as_given());
    ensure!(m.version.to_string() == ver.canonical(), "version read as {}, expected {}", m.version, ver.canonical());
    // expected requirements, in document order
    let mut want: Vec<pep508::Req> = vec![];
    for i in &order {
        if *i >= 3 && *i < 3 + reqs.len() {
            want.push(reqs[*i - 3].clone());
        }
    }
    let got: Vec<pep508::Req> = m.requires_dist.iter().map(|r| pep508::req_from_posy(r)).collect();
    ensure!(got == want, "requirements read as {got:?}\n expected {want:?}\n{text}");
    let got_rp: Vec<(String, String)> = m.requires_python.0.iter().map(|s| (pep508::op_text(&s.op).to_string(), s.value.clone())).collect();
    ensure!(got_rp == rp.clone().unwrap_or_default(), "Requires-Python read as {got_rp:?}, expected {rp:?}\n{text}");
    let got: BTreeSet<String> = m.extras.iter().map(|e| e.normalized().to_string()).collect();
    let want: BTreeSet<String> = extras.iter().map(|e| gen::normalize(e)).collect();
    ensure!(got == want && m.extras.len() == want.len(), "extras read as {got:?}, expected {want:?}\n{text}");
    Ok(())
}

/// A relative path spelling and its normalized pieces; None if it leaves the directory or
/// is not portable.
pub fn path(g: &mut G) -> (String, Option<Vec<String>>) {
    let mut s = vec![];
    let mut pieces: Option<Vec<String>> = Some(vec![]);
    for _ in 0..g.range(1, 4) {
        match g.weighted(&[60, 4, 4, 1]) {
            0 => {
                let p = g.pick(&["bin", "lib", "python3.11", "site-packages", "a b", "é", "...x", ".hidden", "x.dist-info"]).to_string();
                if let Some(v) = pieces.as_mut() {
                    v.push(p.clone())
                }
                s.push(p);
            }
            1 => s.push(".".into()),
            2 => {
                pieces = pieces.and_then(|mut v| v.pop().map(|_| v));
                s.push("..".into());
            }
            _ => {
                let p = g.pick(&["a:b", "a?", "x.", "x ", "a\\b", "a|b", "c\u{1}", "*", "...", "\"", "<", ">", "a\nb"]).to_string();
                pieces = None;
                s.push(p);
            }
        }
    }
    let mut t = s.join("/");
    if g.chance(1, 15) {
        t = format!("/{t}");
        pieces = None;
    } else if g.chance(1, 15) {
        t += "/";
    }
    (t, pieces)
}

fn pybi_metadata(g: &mut G) -> R {
    let name = g.pick(&["cpython", "CPython", "pypy", "Some_Python"]).to_string();
    let ver = pep440::version(g, false);
    let (mv, mut legal) = metadata_version(g);
    let mut why = if legal { String::new() } else { format!("Metadata-Version {mv}") };
    let mut vars: HashMap<String, String> = HashMap::new();
    for v in &pep508::VARS[..11] {
        if g.chance(2, 3) {
            vars.insert(v.to_string(), g.pick(&["3.8", "linux", "#1 \"quoted\" \\ SMP", "", "é", "a\nb", "{}"]).to_string());
        }
    }
    let tags: Vec<String> = g.vec(0, 4, |g| g.pick(&["cp311-cp311-PLATFORM", "py3-none-any", "cp311-abi3-PLATFORM", "py3-none-PLATFORM", "cp311-cp311-linux_x86_64"]).to_string());
    let mut paths: HashMap<String, String> = HashMap::new();
    let mut want_paths: HashMap<String, Vec<String>> = HashMap::new();
    for k in ["stdlib", "platstdlib", "purelib", "platlib", "include", "platinclude", "scripts", "data"] {
        if g.chance(2, 3) {
            let (t, p) = path(g);
            paths.insert(k.into(), t.clone());
            match p {
                Some(p) => {
                    want_paths.insert(k.into(), p);
                }
                None => {
                    legal = false;
                    why = format!("path {t:?}");
                }
            }
        }
    }
    let j = |g: &mut G, m: &HashMap<String, String>| -> String {
        let mut keys: Vec<&String> = m.keys().collect();
        keys.sort();
        let mut v: serde_json::Map<String, serde_json::Value> = Default::default();
        for k in keys {
            v.insert(k.clone(), m[k].clone().into());
        }
        if g.bool() {
            serde_json::to_string(&v).unwrap()
        } else {
            // over several lines
            serde_json::to_string_pretty(&v).unwrap().replace('\n', "\n ")
        }
    };
    let mut h: Vec<(String, String)> = vec![("Metadata-Version".into(), mv), ("Name".into(), name.clone()), ("Version".into(), pep440::spell(g, &ver))];
    h.push(("Pybi-Environment-Marker-Variables".into(), j(g, &vars)));
    h.push(("Pybi-Paths".into(), j(g, &paths)));
    for t in &tags {
        h.push(("Pybi-Wheel-Tag".into(), t.clone()));
    }
    for _ in 0..g.len(0, 2) {
        h.push(filler(g));
    }
    if g.chance(1, 4) {
        let i = g.usize(5);
        let k = h[i].0.clone();
        match g.below(3) {
            0 => {
                h.remove(i);
                why = format!("no {k}");
            }
            1 => {
                let d = h[i].clone();
                h.push(d);
                why = format!("two {k}");
            }
            _ => {
                let bad: &[&str] = if i < 3 { &["{", "not legal!", "[]"] } else { &["{", "not legal!", "[]", "{\"a\": 1}", "null"] };
                h[i].1 = g.pick(bad).to_string();
                why = format!("bad {k}");
            }
        }
        legal = false;
    }
    let d = Doc { headers: h, body: body(g, false) };
    let text = render(g, &d, &["\n"]);
    g.note(format!("{text:?}"));
    g.nontrivial = true;
    g.label(if legal { "legal" } else { "illegal" });
    let got: eyre::Result<PybiCoreMetadata> = text.as_bytes().try_into();
    if !legal {
        ensure!(got.is_err(), "pybi metadata with {why} accepted:\n{text}");
        return Ok(());
    }
    let m = got.map_err(|e| ff(format!("legal pybi metadata refused: {e:?}\n{text}")))?;
    ensure!(m.name.as_given() == name && m.version.to_string() == ver.canonical(), "read as {} {}\n{text}", m.name.as_given(), m.version);
    ensure!(m.environment_marker_variables == vars, "marker variables read as {:?}, expected {vars:?}\n{text}", m.environment_marker_variables);
    ensure!(m.tags == tags, "tags read as {:?}, expected {tags:?}", m.tags);
    let got: HashMap<String, Vec<String>> = m.paths.iter().map(|(k, v)| (k.clone(), v.pieces().to_vec())).collect();
    ensure!(got == want_paths, "paths read as {got:?}, expected {want_paths:?}\n{text}");
    for k in ["stdlib", "scripts", "data", "purelib"] {
        let got = m.path(k).ok().map(|p| p.pieces().to_vec());
        ensure!(got.as_ref() == want_paths.get(k), "path({k}) = {got:?}");
    }
    Ok(())
}

pub fn property() -> Property {
    #[allow(unused_mut)]
    let mut p = Property {
        id: "C06",
        level: "exploration",
        assumptions: &[
            "the document format is what Python's email.parser reads, except that posy refuses oddities email.parser skips over (a continuation line at the start, a line without a colon, an empty or non-printable field name)",
            "invalid UTF-8 is replaced, not refused",
        ],
        subs: vec![
            Sub { name: "document", rule: "1-8 headers with continuation lines, mixed line endings and odd values, and a body; every field, its order, and the accessors; non-trivial = more than one header", quick: 300_000, thorough: 1_500_000, threads: 8, run: document },
            Sub { name: "mutated", rule: "edited documents against an independent line-based reader, accepted alike and read alike; all non-trivial", quick: 400_000, thorough: 2_000_000, threads: 8, run: mutated },
            Sub { name: "wheel_metadata", rule: "core metadata built from a model (requirements, Requires-Python, extras, fillers, shuffled), 1 in 4 with a missing, duplicated or bad mandatory field; all non-trivial", quick: 200_000, thorough: 800_000, threads: 8, run: wheel_metadata },
            Sub { name: "pybi_metadata", rule: "pybi metadata with JSON marker variables and paths (also multi-line, non-portable or escaping paths), damaged 1 in 4; all non-trivial", quick: 200_000, thorough: 800_000, threads: 8, run: pybi_metadata },
        ],
    };
    #[cfg(feature = "c23")]
    p.subs.push(Sub { name: "routes", rule: "metadata of whole artifacts, as in C23; non-trivial as in C23", quick: 1_500, thorough: 100_000, threads: 16, run: super::c23::routes });
    p
}
