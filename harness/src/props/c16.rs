//! C16: project index pages are read completely and correctly.
use super::c01;
use crate::gen;
use crate::pep440;
use crate::prop::*;
use indexmap::IndexMap;
use posy::verif_hooks::*;

#[derive(Clone, Debug)]
struct Link {
    href: String,
    /// the filename, if this link is an artifact's
    file: Option<String>,
    pub(super) url: String,
    hash: Option<String>,
    requires_python: Option<String>,
    yanked: Option<String>,
    /// None: absent; Some(None): available without a hash
    metadata: Option<Option<String>>,
}

// ---- URLs: RFC 3986 section 5 over a structure ----

#[derive(Clone, Debug)]
struct U {
    scheme: String,
    host: String,
    /// directories of the path, without the last segment
    dirs: Vec<String>,
    last: String,
}

impl U {
    fn text(&self) -> String {
        let mut s = format!("{}://{}/", self.scheme, self.host);
        for d in &self.dirs {
            s += d;
            s += "/";
        }
        s + &self.last
    }
}

fn seg(g: &mut G) -> String {
    g.pick(&["simple", "a", "pkg", "files", "x-y", "v1.0", "b%20c", "%7Euser", "1"]).to_string()
}

fn base_url(g: &mut G) -> U {
    U {
        scheme: g.pick(&["https", "http"]).into(),
        host: g.pick(&["example.com", "pypi.org", "127.0.0.1:8080", "host.test:444"]).into(),
        dirs: g.vec(0, 3, seg),
        last: if g.bool() { String::new() } else { seg(g) },
    }
}

/// A reference with last segment `last`, and what it denotes against `base`.
fn reference(g: &mut G, base: &U, last: &str) -> (String, U) {
    let path = |dirs: &[String]| dirs.iter().map(|d| format!("{d}/")).collect::<String>();
    match g.below(6) {
        0 => {
            let mut u = base_url(g);
            u.last = last.into();
            (u.text(), u)
        }
        1 => {
            let mut u = base_url(g);
            u.last = last.into();
            u.scheme = base.scheme.clone();
            let t = u.text();
            (t[u.scheme.len() + 1..].to_string(), u)
        }
        2 => {
            let dirs = g.vec(0, 3, seg);
            (format!("/{}{last}", path(&dirs)), U { dirs, last: last.into(), ..base.clone() })
        }
        3 => {
            // up and down again; more '..' than there are directories stay at the root
            let up = g.range(1, 4) as usize;
            let dirs = g.vec(0, 2, seg);
            let mut d = base.dirs.clone();
            d.truncate(d.len().saturating_sub(up));
            d.extend(dirs.iter().cloned());
            (format!("{}{}{last}", "../".repeat(up), path(&dirs)), U { dirs: d, last: last.into(), ..base.clone() })
        }
        4 => {
            let dirs = g.vec(0, 2, seg);
            let mut d = base.dirs.clone();
            d.extend(dirs.iter().cloned());
            (format!("{}{}{last}", g.pick(&["./", "", "x/../"]), path(&dirs)), U { dirs: d, last: last.into(), ..base.clone() })
        }
        _ => {
            // (a bare relative reference must not look like it has a scheme)
            (last.to_string(), U { last: last.into(), ..base.clone() })
        }
    }
}

fn percent(g: &mut G, s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.bytes().enumerate() {
        let must = !(c.is_ascii_alphanumeric() || b"-_.+!".contains(&c));
        // index servers encode '+' (and pip, too)
        let p = must || (c == b'+' && g.chance(2, 3)) || (i > 0 && g.chance(1, 40));
        if p {
            if g.bool() { out += &format!("%{c:02X}") } else { out += &format!("%{c:02x}") }
        } else {
            out.push(c as char);
        }
    }
    out
}

fn hex(g: &mut G) -> String {
    let n = if g.chance(4, 5) { 32 } else { *g.choose(&[16, 20, 48, 64]) };
    gen::hex(&g.blob(n, n))
}

fn hash(g: &mut G) -> (String, String) {
    let m = if g.chance(4, 5) { "sha256" } else { g.pick(&["md5", "sha1", "sha384", "sha512", "blake2b"]) };
    let h = hex(g);
    let shown = if g.chance(1, 6) { h.to_uppercase() } else { h.clone() };
    (format!("{m}={shown}"), format!("{m}={h}"))
}

fn link(g: &mut G, base: &U) -> Link {
    let artifact = g.chance(4, 5);
    let file = if artifact { Some(c01::filename(g)) } else { None };
    let last = match &file {
        Some(f) => percent(g, f),
        None => g.pick(&["", "index.html", "foo.txt", "readme", "foo-1.0.exe", "foo-1.0.tar.bz2", "foo-1.0-py3.egg", "foo.whl", "foo-1.0.whl", "foo-1.0.tar.gz.asc", "foo-1.0-py3-none-any.whl.metadata", "foo.tar.gz"]).to_string(),
    };
    let (mut href, u) = reference(g, base, &last);
    let mut url = u.text();
    if g.chance(1, 15) {
        let q = g.pick(&["?x=1", "?a=b&c=d", "?"]);
        href += q;
        url += q;
    }
    let mut h = None;
    match g.below(8) {
        0 => {
            // fragments that are no hash
            let f = g.pick(&["#top", "#", "#sha256", "#sha256=nothex", "#sha256=abc"]);
            href += f;
            url += f;
        }
        1 => {}
        _ => {
            let (shown, want) = hash(g);
            href += &format!("#{shown}");
            url += &format!("#{shown}");
            h = Some(want);
        }
    }
    if g.chance(1, 12) {
        href = format!("{}{href}{}", g.pick(&[" ", "\n", "\t "]), g.pick(&["", " ", "\n"]));
    }
    let requires_python = if g.chance(1, 3) {
        let v = pep440::version(g, false);
        Some(format!("{}{}", g.pick(&[">=", "<", "~=", "!=", ">= ", " <"]), pep440::spell(g, &v)))
    } else {
        None
    };
    let yanked = if g.chance(1, 5) { Some(g.pick(&["", "broken", "a \"quoted\" reason & <more>", "don't", "é — 日本", "true", "false", "two\nlines"]).to_string()) } else { None };
    let metadata = match g.below(4) {
        0 => Some(None),
        1 => Some(Some(hash(g).0)),
        _ => None,
    };
    Link { href, file, url, hash: h, requires_python, yanked, metadata }
}

// ---- HTML spelling ----

fn entity(g: &mut G, s: &str, quote: Option<char>) -> String {
    let mut out = String::new();
    for c in s.chars() {
        let must = match quote {
            Some(q) => c == q || c == '&',
            None => c.is_whitespace() || "\"'=<>`&".contains(c),
        };
        if must || c == '<' || c == '>' || g.chance(1, 40) {
            let named = match c {
                '&' => "&amp;",
                '<' => "&lt;",
                '>' => "&gt;",
                '"' => "&quot;",
                _ => "",
            };
            match g.below(3) {
                0 if !named.is_empty() => out += named,
                1 => out += &format!("&#x{:x};", c as u32),
                _ => out += &format!("&#{};", c as u32),
            }
        } else {
            out.push(c);
        }
    }
    out
}

fn tagcase(g: &mut G, s: &str) -> String {
    match g.below(6) {
        0 => s.to_uppercase(),
        1 => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s.to_string(),
    }
}

fn attr(g: &mut G, k: &str, v: &str) -> String {
    let k = tagcase(g, k);
    if v.is_empty() && g.bool() {
        return k;
    }
    let eq = g.pick(&["=", "=", "=", " = ", "=\n"]);
    match g.below(4) {
        0 => format!("{k}{eq}'{}'", entity(g, v, Some('\''))),
        1 if !v.is_empty() => format!("{k}{eq}{}", entity(g, v, None)),
        _ => format!("{k}{eq}\"{}\"", entity(g, v, Some('"'))),
    }
}

fn tag(g: &mut G, name: &str, attrs: &[(String, String)]) -> String {
    let mut s = format!("<{}", tagcase(g, name));
    let mut order: Vec<usize> = (0..attrs.len()).collect();
    if g.bool() {
        g.shuffle(&mut order);
    }
    for i in order {
        s += g.pick(&[" ", " ", "\n  ", "\t"]);
        s += &attr(g, &attrs[i].0, &attrs[i].1);
    }
    // (a space, so that an unquoted value doesn't swallow a '/')
    s += g.pick(&["", " ", "\n"]);
    s + ">"
}

fn render_link(g: &mut G, l: &Link) -> String {
    let mut a: Vec<(String, String)> = vec![("href".into(), l.href.clone())];
    if let Some(r) = &l.requires_python {
        a.push(("data-requires-python".into(), r.clone()));
    }
    if let Some(y) = &l.yanked {
        a.push(("data-yanked".into(), y.clone()));
    }
    match &l.metadata {
        Some(None) => a.push(("data-dist-info-metadata".into(), "true".into())),
        Some(Some(h)) => a.push(("data-dist-info-metadata".into(), h.clone())),
        None => {}
    }
    if g.chance(1, 6) {
        a.push((g.pick(&["class", "rel", "data-gpg-sig", "title", "data-href"]).into(), g.pick(&["true", "internal", "foo-9.9.tar.gz", ""]).into()));
    }
    let text = g.pick(&["link", "foo-9.0.tar.gz", "", "a &lt; b", "<b>bold</b>", "<!-- <a href=\"foo-8.0.tar.gz\"> -->x"]);
    let t = tag(g, "a", &a);
    format!("{t}{text}</{}>", tagcase(g, "a"))
}

fn clutter(g: &mut G) -> String {
    g.pick(&[
        "", "", "\n", "<br>", "<br/>\n", " text &amp; text ", "<!-- <a href=\"foo-7.0.tar.gz\">no</a> -->", "<a name=\"x\">anchor</a>", "<p>para</p>",
        "<textarea><a href=\"foo-6.0.tar.gz\"></a></textarea>", "<script>document.write('<a href=\"foo-5.0.tar.gz\">')</script>", "<hr>", "<h1>Links for foo</h1>",
        "<img src=\"foo-4.0.tar.gz\">", "<link href=\"foo-3.0.tar.gz\">", "<style>a { }</style>",
    ])
    .to_string()
}

pub(super) struct Page {
    pub(super) html: String,
    pub(super) url: String,
    version: Option<String>,
    links: Vec<Link>,
}

pub(super) fn page(g: &mut G) -> Page {
    let doc = base_url(g);
    let mut base = doc.clone();
    let mut head = String::new();
    head += g.pick(&["", "<title>Links for foo <a href=\"foo-2.0.tar.gz\"></title>", "\n<meta charset=\"utf-8\">"]);
    let version = if g.chance(2, 3) { Some(if g.chance(4, 5) { g.pick(&["1.0", "1.1", "1.2", "1.99"]).to_string() } else { g.pick(&["2.0", "2.1", "10.0", "0.9", "11.1"]).to_string() }) } else { None };
    let mut parts: Vec<String> = vec![];
    if let Some(v) = &version {
        parts.push(tag(g, "meta", &[("name".into(), "pypi:repository-version".into()), ("content".into(), v.clone())]));
    }
    if g.chance(1, 4) {
        parts.push(tag(g, "meta", &[("name".into(), "generator".into()), ("content".into(), "7.0".into())]));
    }
    if g.chance(1, 3) {
        let mut bases = vec![];
        if g.chance(1, 4) {
            bases.push("<base target=\"_blank\">".to_string());
        }
        let last = if g.bool() { String::new() } else { seg(g) };
        let (href, u) = reference(g, &doc, &last);
        if !href.is_empty() {
            bases.push(tag(g, "base", &[("href".into(), href)]));
            base = u;
        }
        if g.chance(1, 4) && base.text() != doc.text() {
            bases.push("<base href=\"http://elsewhere.test/\">".into());
        }
        parts.extend(bases);
    }
    head += &parts.join(g.pick(&["", "\n"]));
    let mut body = String::new();
    let links = g.vec(0, 6, |g| link(g, &base));
    let list = g.below(3);
    for l in &links {
        body += &clutter(g);
        let t = render_link(g, l);
        match list {
            0 => body += &t,
            1 => body += &format!("<li>{t}</li>"),
            _ => body += &format!("<div>{t}</div>\n"),
        }
    }
    body += &clutter(g);
    if list == 1 {
        body = format!("<ul>{body}</ul>");
    }
    let doctype = g.pick(&["<!DOCTYPE html>", "", "<!DOCTYPE HTML PUBLIC \"-//W3C//DTD HTML 4.01//EN\">", "<!-- c --><!doctype html>\n"]);
    let html = match g.below(4) {
        // the html, head and body tags are optional
        0 if !body.is_empty() => format!("{doctype}{head}<body>{body}"),
        1 => format!("{doctype}<html lang=en><head>{head}</head><body class='x'>{body}</body></html>\n"),
        _ => format!("{doctype}<html>\n<head>{head}\n</head>\n<body>{body}</body></html>"),
    };
    Page { html, url: doc.text(), version, links }
}

fn whole_page(g: &mut G) -> R {
    let p = page(g);
    g.note(format!("at {}: {:?}", p.url, p.html));
    g.nontrivial = p.links.iter().any(|l| l.file.is_some());
    for l in &p.links {
        g.label(if l.file.is_some() { "artifact link" } else { "other link" });
        if l.file.is_some() && l.yanked.is_some() {
            g.label("yanked");
        }
    }
    let ctype = g.pick(&["text/html", "text/html; charset=utf-8", "Text/HTML", "text/html;charset=UTF-8"]);
    let url = url::Url::parse(&p.url).unwrap();
    let pi = parse_html(&url, ctype, p.html.as_bytes()).map_err(|e| ff(format!("legal page refused: {e:?}")))?;
    ensure!(pi.meta.version == p.version.clone().unwrap_or_else(|| "1.0".into()), "repository version read as {:?}, page says {:?}", pi.meta.version, p.version);
    let mut want: Vec<(&Link, ArtifactName)> = vec![];
    for l in &p.links {
        if let Some(f) = &l.file {
            let n: ArtifactName = f.as_str().try_into().map_err(|e| ff(format!("filename {f:?} refused: {e}")))?;
            for n in n.split_multiplatform_pybis() {
                want.push((l, n));
            }
        }
    }
    let names: Vec<String> = pi.artifacts.iter().map(|a| a.name.to_string()).collect();
    ensure!(names == want.iter().map(|w| w.1.to_string()).collect::<Vec<_>>(), "artifacts read as {names:?}\n expected {:?}", want.iter().map(|w| w.1.to_string()).collect::<Vec<_>>());
    for (a, (l, n)) in pi.artifacts.iter().zip(&want) {
        let f = l.file.as_ref().unwrap();
        ensure!(a.name == *n, "{f}: name {:?}", a.name);
        ensure!(a.url.as_str() == l.url, "{f}: URL {} expected {}", a.url, l.url);
        ensure!(a.hash.as_ref().map(|h| h.to_string()) == l.hash, "{f}: hash {:?} expected {:?}", a.hash.as_ref().map(|h| h.to_string()), l.hash);
        ensure!(a.requires_python == l.requires_python, "{f}: Requires-Python {:?} expected {:?}", a.requires_python, l.requires_python);
        ensure!(a.yanked.yanked == l.yanked.is_some(), "{f}: yanked {:?} expected {:?}", a.yanked, l.yanked);
        match &l.yanked {
            Some(r) if !r.is_empty() => ensure!(a.yanked.reason.as_ref() == Some(r), "{f}: yanked reason {:?} expected {r:?}", a.yanked.reason),
            _ => ensure!(a.yanked.reason.as_deref().unwrap_or("").is_empty(), "{f}: yanked reason {:?} expected none", a.yanked.reason),
        }
        ensure!(a.dist_info_metadata.available == l.metadata.is_some(), "{f}: metadata available {} expected {:?}", a.dist_info_metadata.available, l.metadata);
        let wh = l.metadata.clone().flatten().map(|h| {
            let (m, x) = h.split_once('=').unwrap();
            format!("{m}={}", x.to_lowercase())
        });
        ensure!(a.dist_info_metadata.hash.as_ref().map(|h| h.to_string()) == wh, "{f}: metadata hash {:?} expected {wh:?}", a.dist_info_metadata.hash);
    }
    // grouping by version
    let mut map: IndexMap<Version, Vec<ArtifactInfo>> = IndexMap::new();
    let supported = p.version.as_ref().map_or(true, |v| v.starts_with("1."));
    let r = pack_by_version(pi.clone(), &mut map);
    if !supported {
        g.label("unsupported repository version");
        ensure!(r.is_err(), "a page with repository version {:?} is accepted", p.version);
        return Ok(());
    }
    r.map_err(|e| ff(format!("page with repository version {:?} refused: {e}", p.version)))?;
    let total: usize = map.values().map(|v| v.len()).sum();
    ensure!(total == pi.artifacts.len(), "{} artifacts on the page, {total} after grouping by version", pi.artifacts.len());
    for (v, ais) in &map {
        let want: Vec<&ArtifactInfo> = pi.artifacts.iter().filter(|a| a.name.version() == v).collect();
        ensure!(ais.iter().collect::<Vec<_>>() == want, "version {v} groups {:?}", ais.iter().map(|a| a.name.to_string()).collect::<Vec<_>>());
    }
    Ok(())
}

fn content_type(g: &mut G) -> R {
    let (ct, ok) = *g.choose(&[
        ("text/html", true), ("TEXT/HTML", true), ("text/html; charset=iso-8859-1", true), ("application/json", false), ("text/plain", false),
        ("application/xhtml+xml", false), ("", false), ("html", false), ("text/htmlx", false), ("application/vnd.pypi.simple.v1+json", false), ("text/html5", false),
    ]);
    let p = page(g);
    g.note(format!("{ct:?}"));
    g.nontrivial = !ok;
    let r = parse_html(&url::Url::parse(&p.url).unwrap(), ct, p.html.as_bytes());
    ensure!(r.is_ok() == ok, "page of type {ct:?}: accepted is {}", r.is_ok());
    Ok(())
}

/// Damaged markup: whatever is read must still be something the page spells out.
fn damaged(g: &mut G) -> R {
    let p = page(g);
    let html = match g.below(3) {
        0 => {
            // unclosed anchors
            p.html.replace("</a>", "").replace("</A>", "")
        }
        _ => gen::mutate(g, &p.html),
    };
    g.note(format!("{html:?}"));
    g.nontrivial = true;
    let url = url::Url::parse(&p.url).unwrap();
    let pi = parse_html(&url, "text/html", html.as_bytes()).map_err(|e| ff(format!("page refused: {e:?}")))?;
    // html5ever tokenizes; every artifact must be one of those a conforming tokenizer finds
    for a in &pi.artifacts {
        let back: ArtifactName = a.name.to_string().as_str().try_into().map_err(|e| ff(format!("{:?} does not parse back: {e}", a.name.to_string())))?;
        ensure!(back == a.name, "{:?} parses back as {back:?}", a.name);
        ensure!(a.url.path_segments().is_some(), "{}: URL {}", a.name, a.url);
    }
    if html.len() < p.html.len() && html == p.html.replace("</a>", "").replace("</A>", "") && p.links.iter().all(|l| !l.href.is_empty()) {
        let mut want: Vec<String> = p.links.iter().filter(|l| l.file.is_some()).map(|l| l.url.clone()).collect();
        let mut got: Vec<String> = pi.artifacts.iter().map(|a| a.url.to_string()).collect();
        want.dedup();
        got.sort();
        got.dedup();
        want.sort();
        want.dedup();
        // (unsplit <textarea> and comments close themselves, so the set is unaffected)
        ensure!(got == want, "with unclosed anchors, links read are {got:?}\n expected {want:?}");
    }
    Ok(())
}

pub fn property() -> Property {
    #[allow(unused_mut)]
    let mut p = Property {
        id: "C16",
        level: "exploration",
        assumptions: &[
            "pages are UTF-8 (as posy assumes); <base> stands before the links, in <head>, as HTML requires",
            "an artifact link is one whose percent-decoded last path segment is a legal artifact filename (C01 decides that)",
            "a yanked attribute without a reason may be read as no reason or an empty one",
            "with markup that HTML calls an error (unclosed anchors) a link may be reported twice, but none lost",
        ],
        subs: vec![
            Sub { name: "page", rule: "page of 0-6 links (artifacts and others) in random HTML spelling: quoting, entities, tag case, attribute order, comments, scripts, optional tags, <base>, all kinds of relative references, percent-encoded filenames; every field of every link, in order, and grouping by version; non-trivial = at least one artifact link", quick: 240_000, thorough: 3_000_000, threads: 8, run: whole_page },
            Sub { name: "content_type", rule: "pages served under various content types; non-trivial = one that must be refused", quick: 4_000, thorough: 20_000, threads: 8, run: content_type },
            Sub { name: "damaged", rule: "pages with random edits or unclosed anchors; nothing invented, nothing lost; all non-trivial", quick: 120_000, thorough: 1_500_000, threads: 8, run: damaged },
        ],
    };
    #[cfg(feature = "c23")]
    p.subs.push(Sub { name: "listing", rule: "pages of several indexes through the package database, as in C23; non-trivial as in C23", quick: 3_000, thorough: 100_000, threads: 16, run: super::c23::listing });
    p
}
