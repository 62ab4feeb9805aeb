//! A package index on the loopback: pages, files, and the wheels, pybis and sdists in it.
use crate::archive::{self, Kind, Member};
use crate::gen;
use crate::prop::*;
use crate::server::*;
use posy::verif_hooks::*;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

/// Core metadata, as text fields.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Core {
    pub name: String,
    pub version: String,
    pub requires_python: Option<String>,
    pub requires_dist: Vec<String>,
    pub extras: Vec<String>,
}

impl Core {
    pub fn new(name: &str, version: &str) -> Core {
        Core { name: name.into(), version: version.into(), ..Default::default() }
    }
    pub fn text(&self) -> String {
        let mut t = format!("Metadata-Version: 2.1\nName: {}\nVersion: {}\n", self.name, self.version);
        if let Some(r) = &self.requires_python {
            t += &format!("Requires-Python: {r}\n");
        }
        for r in &self.requires_dist {
            t += &format!("Requires-Dist: {r}\n");
        }
        for e in &self.extras {
            t += &format!("Provides-Extra: {e}\n");
        }
        t + "\nAbout it.\n"
    }
}

/// A name as it appears in file names.
pub fn escaped(name: &str) -> String {
    name.replace('-', "_")
}

/// The members of a wheel: `meta` in `<name>-<version>.dist-info`, and `more`.
pub fn wheel_members(name: &str, version: &str, purelib: bool, meta: &str, more: &[Member]) -> Vec<Member> {
    let d = format!("{}-{version}.dist-info", escaped(name));
    let mut ms = more.to_vec();
    ms.push(Member::file(&format!("{d}/METADATA"), meta.as_bytes()));
    ms.push(Member::file(&format!("{d}/WHEEL"), format!("Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: {purelib}\n").as_bytes()));
    ms.push(Member::file(&format!("{d}/RECORD"), b""));
    ms
}

pub fn pack(ms: &[Member]) -> Vec<u8> {
    archive::zip(ms, &archive::ZipStyle { deflate: vec![true; ms.len()], ..Default::default() })
}

#[derive(Clone, Debug)]
pub struct PybiMeta {
    pub name: String,
    pub version: String,
    pub tags: Vec<String>,
    pub markers: BTreeMap<String, String>,
    pub paths: BTreeMap<String, String>,
}

impl PybiMeta {
    pub fn new(name: &str, version: &str) -> PybiMeta {
        let minor = version.split('.').take(2).collect::<Vec<_>>().join(".");
        let mut markers = BTreeMap::new();
        for (k, v) in [
            ("implementation_name", "cpython"),
            ("implementation_version", version),
            ("os_name", "posix"),
            ("platform_machine", "x86_64"),
            ("platform_system", "Linux"),
            ("python_full_version", version),
            ("platform_python_implementation", "CPython"),
            ("python_version", &minor),
            ("sys_platform", "linux"),
        ] {
            markers.insert(k.to_string(), v.to_string());
        }
        let mut paths = BTreeMap::new();
        for (k, v) in [("stdlib", "lib/python"), ("platstdlib", "lib/python"), ("purelib", "lib/python/site-packages"), ("platlib", "lib/python/site-packages"), ("include", "include"), ("scripts", "bin"), ("data", ".")] {
            paths.insert(k.to_string(), v.to_string());
        }
        PybiMeta { name: name.into(), version: version.into(), tags: vec!["cp310-cp310-PLATFORM".into(), "py3-none-PLATFORM".into(), "py3-none-any".into()], markers, paths }
    }
    pub fn text(&self) -> String {
        let mut t = format!("Metadata-Version: 2.1\nName: {}\nVersion: {}\n", self.name, self.version);
        t += &format!("Pybi-Environment-Marker-Variables: {}\n", serde_json::to_string(&self.markers).unwrap());
        t += &format!("Pybi-Paths: {}\n", serde_json::to_string(&self.paths).unwrap());
        for x in &self.tags {
            t += &format!("Pybi-Wheel-Tag: {x}\n");
        }
        t + "\n"
    }
}

pub fn pybi_members(meta: &str, more: &[Member]) -> Vec<Member> {
    let mut ms = more.to_vec();
    ms.push(Member::file("pybi-info/PYBI", b"Pybi-Version: 1.0\nGenerator: x\nTag: x\n"));
    ms.push(Member::file("pybi-info/METADATA", meta.as_bytes()));
    ms
}

/// A pybi that unpacks into something posy can use, with `python` as its interpreter.
/// An interpreter's site.py, which mentions what posy has to change in several ways.
pub const SITE_PY: &str = "import sys\n\n# \"ENABLE_USER_SITE = None\" means that nobody has decided.\nX_ENABLE_USER_SITE = None\nENABLE_USER_SITE = None\nX = 1\n\ndef check():\n    ENABLE_USER_SITE = None\n";

pub fn pybi_files(m: &PybiMeta, python: &str) -> Vec<Member> {
    let (std, pure, bin) = (&m.paths["stdlib"], &m.paths["purelib"], &m.paths["scripts"]);
    vec![
        Member { name: format!("{bin}/python").into(), kind: Kind::File { data: python.into(), exec: true } },
        Member::file(&format!("{std}/site.py"), SITE_PY.as_bytes()),
        Member { name: format!("{pure}/").into(), kind: Kind::Dir },
    ]
}

/// A file on an index.
#[derive(Clone, Debug)]
pub struct File {
    pub name: String,
    pub bytes: Arc<Vec<u8>>,
    /// whether the page has the hash
    pub hashed: bool,
    pub yanked: Option<String>,
    pub requires_python: Option<String>,
    /// where it is, relative to the server's root
    pub at: String,
}

impl File {
    pub fn new(name: impl Into<String>, bytes: Vec<u8>) -> File {
        let name = name.into();
        File { at: format!("files/{}/{name}", &gen::hex(&sha(&bytes))[..16]), name, bytes: Arc::new(bytes), hashed: true, yanked: None, requires_python: None }
    }
    pub fn hash(&self) -> String {
        format!("sha256={}", gen::hex(&sha(&self.bytes)))
    }
    /// As lock files have it.
    pub fn artifact_hash(&self) -> ArtifactHash {
        self.hash().as_str().try_into().unwrap()
    }
}

pub fn sha(b: &[u8]) -> Vec<u8> {
    ring::digest::digest(&ring::digest::SHA256, b).as_ref().to_vec()
}

#[derive(Clone, Debug)]
pub enum Page {
    Files(Vec<File>),
    Error(u16),
    /// to another path on this server
    Moved(String),
}

/// What a server has. Page paths have no leading slash and end in one.
#[derive(Clone, Debug)]
pub struct Site {
    pub pages: BTreeMap<String, Page>,
    pub files: BTreeMap<String, Arc<Vec<u8>>>,
    /// honours range requests
    pub ranges: bool,
}

impl Site {
    pub fn new() -> Site {
        Site { pages: BTreeMap::new(), files: BTreeMap::new(), ranges: true }
    }
    /// Puts a file on a project's page (and in the file area).
    pub fn add(&mut self, page: &str, f: File) {
        self.files.insert(f.at.clone(), f.bytes.clone());
        match self.pages.entry(page.to_string()).or_insert(Page::Files(vec![])) {
            Page::Files(v) => v.push(f),
            p => *p = Page::Files(vec![f]),
        }
    }
}

fn attr(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

pub fn render(files: &[File]) -> String {
    let mut t = String::from("<!DOCTYPE html><html><body>\n");
    for f in files {
        let mut url = format!("/{}", f.at);
        if f.hashed {
            url += &format!("#{}", f.hash());
        }
        t += &format!("<a href=\"{}\"", attr(&url));
        if let Some(y) = &f.yanked {
            t += &format!(" data-yanked=\"{}\"", attr(y));
        }
        if let Some(r) = &f.requires_python {
            t += &format!(" data-requires-python=\"{}\"", attr(r));
        }
        t += &format!(">{}</a><br/>\n", attr(&f.name));
    }
    t + "</body></html>"
}

pub fn answer(site: &Site, r: &Req) -> Resp {
    let path = r.path.trim_start_matches('/');
    if let Some(p) = site.pages.get(path) {
        return match p {
            Page::Files(fs) => {
                // every way of saying the same thing, and not saying it
                let resp = Resp::new(200, render(fs));
                match (path.len() + fs.len()) % 5 {
                    0 => resp,
                    1 => resp.with("Content-Type", "text/html; charset=utf-8"),
                    2 => resp.with("Content-Type", "Text/HTML;charset=UTF-8"),
                    _ => resp.with("Content-Type", "text/html"),
                }
            }
            Page::Error(s) => Resp::new(*s, "no"),
            Page::Moved(to) => Resp::redirect([302, 301, 308, 307, 303][(path.len() + to.len()) % 5], format!("/{to}")),
        };
    }
    let Some(b) = site.files.get(path) else { return Resp::new(404, "nothing here") };
    if site.ranges {
        if let Some((a, z)) = r.header("range").and_then(|v| v.strip_prefix("bytes=")).and_then(|v| v.split_once('-')) {
            let len = b.len() as u64;
            let (a, z) = match (a.parse::<u64>(), z.parse::<u64>()) {
                (Ok(a), Ok(z)) => (a, z.min(len.saturating_sub(1))),
                (Ok(a), _) => (a, len.saturating_sub(1)),
                (_, Ok(n)) => (len.saturating_sub(n), len.saturating_sub(1)),
                _ => return Resp::new(200, b.as_slice()),
            };
            if a >= len || z < a {
                return Resp::new(416, "").with("Content-Range", format!("bytes */{len}"));
            }
            return Resp::new(206, &b[a as usize..=z as usize]).with("Content-Range", format!("bytes {a}-{z}/{len}"));
        }
    }
    Resp::new(200, b.as_slice())
}

pub struct Index {
    pub server: Server,
    pub site: Arc<Mutex<Site>>,
}

impl Index {
    pub fn new(site: Site) -> Index {
        let site = Arc::new(Mutex::new(site));
        let s = site.clone();
        Index { server: Server::new(move |r| answer(&s.lock().unwrap(), r)), site }
    }
}

/// posy's directories.
pub struct Home {
    pub dir: tempfile::TempDir,
    pub forest: EnvForest,
    pub builds: KVDirStore,
}

impl Home {
    pub fn new() -> Home {
        let dir = archive::scratch();
        // (as main does)
        let forest = archive::opened_from_nearby(&dir.path().join("forest"), |p| EnvForest::new(p).unwrap());
        let builds = KVDirStore::new(&dir.path().join("builds")).unwrap();
        Home { dir, forest, builds }
    }
    pub fn db(&self, urls: &[url::Url]) -> PackageDB<'_> {
        PackageDB::new(urls, &self.cache(), &self.forest, &self.builds).unwrap()
    }
    pub fn cache(&self) -> PathBuf {
        self.dir.path().join("cache")
    }
}

pub fn pkg(name: &str) -> PackageName {
    name.try_into().unwrap_or_else(|e| panic!("{name:?}: {e}"))
}

pub fn ver(v: &str) -> Version {
    v.try_into().unwrap_or_else(|e| panic!("{v:?}: {e}"))
}

/// Compares what posy says a wheel's metadata is with the text in it.
pub fn check_meta(want: &Core, got: &WheelCoreMetadata) -> R {
    ensure!(got.name == pkg(&want.name), "metadata of {:?}, expected {:?}", got.name.as_given(), want.name);
    ensure!(got.version == ver(&want.version), "metadata of version {}, expected {}", got.version, want.version);
    check_deps(want, &got.requires_dist, &got.requires_python, &got.extras)
}

pub fn check_deps(want: &Core, requires_dist: &[PackageRequirement], requires_python: &Specifiers, extras: &std::collections::HashSet<Extra>) -> R {
    let reqs: Vec<PackageRequirement> = want.requires_dist.iter().map(|r| r.as_str().try_into().unwrap_or_else(|e| panic!("{r:?}: {e}"))).collect();
    ensure!(requires_dist == reqs, "Requires-Dist {:?}, expected {:?}", requires_dist.iter().map(|r| r.to_string()).collect::<Vec<_>>(), want.requires_dist);
    let rp: Specifiers = match &want.requires_python {
        Some(r) => r.as_str().try_into().unwrap_or_else(|e| panic!("{r:?}: {e}")),
        None => Specifiers(vec![]),
    };
    ensure!(*requires_python == rp, "Requires-Python {requires_python}, expected {:?}", want.requires_python);
    let ex: std::collections::HashSet<Extra> = want.extras.iter().map(|e| e.as_str().try_into().unwrap_or_else(|x| panic!("{e:?}: {x}"))).collect();
    ensure!(*extras == ex, "Provides-Extra {extras:?}, expected {:?}", want.extras);
    Ok(())
}
