//! What platform tags mean (PEPs 425, 600 and 656, and macOS), written from the rules.

fn numeric(s: &str) -> Option<u64> {
    (!s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())).then(|| s.parse().ok()).flatten()
}

fn legal_arch(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_')
}

/// What the tag means.
#[derive(Debug, PartialEq, Clone)]
pub enum Meaning {
    Linux { variant: &'static str, major: u64, minor: u64, arch: String },
    Mac { major: u64, minor: u64, arch: String },
    Other,
}

pub fn meaning(tag: &str) -> Meaning {
    for (old, minor) in [("manylinux2014_", 17), ("manylinux2010_", 12), ("manylinux1_", 5)] {
        if let Some(arch) = tag.strip_prefix(old) {
            if legal_arch(arch) {
                return Meaning::Linux { variant: "manylinux", major: 2, minor, arch: arch.into() };
            }
        }
    }
    for kind in ["manylinux", "musllinux", "macosx"] {
        let Some(rest) = tag.strip_prefix(kind).and_then(|r| r.strip_prefix('_')) else { continue };
        let mut it = rest.splitn(3, '_');
        let (Some(a), Some(b), Some(arch)) = (it.next(), it.next(), it.next()) else { continue };
        let (Some(major), Some(minor)) = (numeric(a), numeric(b)) else { continue };
        if !legal_arch(arch) {
            continue;
        }
        return if kind == "macosx" {
            if major < 10 { Meaning::Other } else { Meaning::Mac { major, minor, arch: arch.into() } }
        } else {
            Meaning::Linux { variant: kind, major, minor, arch: arch.into() }
        };
    }
    Meaning::Other
}

/// Every platform tag a machine supporting `core` supports, best first.
pub fn expansion(core: &str) -> Vec<String> {
    let mut out = vec![];
    match meaning(core) {
        Meaning::Linux { variant, major, minor, arch } => {
            let mut m = minor as i64;
            while m >= 0 {
                out.push(format!("{variant}_{major}_{m}_{arch}"));
                if variant == "manylinux" && major == 2 {
                    // PEP 600
                    if m == 17 {
                        out.push(format!("manylinux2014_{arch}"));
                    }
                    if m == 12 {
                        out.push(format!("manylinux2010_{arch}"));
                    }
                    if m == 5 {
                        out.push(format!("manylinux1_{arch}"));
                    }
                }
                m -= 1;
            }
        }
        Meaning::Mac { major, minor, arch } => {
            let arches: Vec<&str> = match arch.as_str() {
                "x86_64" => vec!["x86_64", "universal2", "intel", "fat64", "fat3", "universal"],
                "arm64" => vec!["arm64", "universal2"],
                a => vec![a],
            };
            let mut vers = vec![];
            let mut v = major;
            while v > 10 {
                vers.push((v, 0));
                v -= 1;
            }
            let mut m = if major == 10 { minor as i64 } else { 15 };
            while m >= 0 {
                vers.push((10, m as u64));
                m -= 1;
            }
            for (a, b) in vers {
                for arch in &arches {
                    out.push(format!("macosx_{a}_{b}_{arch}"));
                }
            }
        }
        Meaning::Other => out.push(core.to_string()),
    }
    out
}
