//! What the resolver is given for a universe.
use crate::index::*;
use crate::universe::*;
use posy::verif_hooks::*;
use std::collections::{HashMap, HashSet};

pub fn brief(u: &Universe) -> Result<Brief, String> {
    let spec = u.python_specs.iter().map(|s| s.canonical()).collect::<Vec<_>>().join(", ");
    Ok(Brief {
        python: format!("{PYTHON} {spec}").as_str().try_into().map_err(|e| format!("{spec}: {e:?}"))?,
        requirements: u.roots.iter().map(|d| d.text.as_str().try_into().map_err(|e| format!("{}: {e:?}", d.text))).collect::<Result<_, _>>()?,
        allow_pre: match &u.allow_pre {
            None => AllowPre::All,
            Some(l) => AllowPre::Some(l.iter().map(|n| pkg(n)).collect()),
        },
    })
}

/// An earlier lock file with those versions and hashes.
pub fn like(u: &Universe) -> Option<Blueprint> {
    if u.hints.is_empty() {
        return None;
    }
    let pin = |n: &str, h: &Hint| PinnedPackage { name: pkg(n), version: ver(&h.ver.canonical()), hashes: h.hashes.iter().map(|x| x.as_str().try_into().unwrap()).collect() };
    let nothing = || WheelResolveMetadata { provenance: "earlier".into(), inner: WheelResolveMetadataInner { requires_dist: vec![], requires_python: Specifiers(vec![]), extras: HashSet::new() } };
    Some(Blueprint {
        pybi: match u.hints.get(PYTHON) {
            Some(h) => pin(PYTHON, h),
            None => PinnedPackage { name: pkg("other-python"), version: ver("3"), hashes: vec![] },
        },
        wheels: u.hints.iter().filter(|x| x.0 != PYTHON).map(|(n, h)| (pin(n, h), nothing())).collect(),
        marker_expressions: HashMap::new(),
    })
}

pub fn platforms(u: &Universe) -> Vec<PybiPlatform> {
    u.platforms.iter().map(|t| PybiPlatform::new(t)).collect()
}
