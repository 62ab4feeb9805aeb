From 41fd0231f3ce5b0211d6d638b9430ec6488a3cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 01/63] Re-export internals for out-of-tree verification under
 cfg(posy_verif)

---
 src/main.rs                      | 11 +++++++++++
 src/package_db/mod.rs            |  7 +++++++
 src/package_db/simple_api/mod.rs |  6 ++++++
 src/platform_tags/mod.rs         |  5 +++++
 src/vocab/mod.rs                 |  6 ++++++
 5 files changed, 35 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 65ffa5d..eb80902 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -109,3 +109,14 @@ fn main() -> Result<()> {
         not_supported
     }
 }
+
+/// Everything the out-of-tree verification harness looks at. Only re-exports, and only
+/// compiled with `--cfg posy_verif`.
+#[cfg(posy_verif)]
+pub mod verif_hooks {
+    pub use crate::{
+        env::*, error::*, kvstore::*, package_db::verif_hooks::*, package_db::*,
+        platform_tags::verif_hooks::*, platform_tags::*, resolve::*, seek_slice::*,
+        trampolines::*, tree::*, util::*, vocab::verif_hooks::*, vocab::*,
+    };
+}
diff --git a/src/package_db/mod.rs b/src/package_db/mod.rs
index 462e3ee..dc0adb4 100644
--- a/src/package_db/mod.rs
+++ b/src/package_db/mod.rs
@@ -6,3 +6,10 @@ mod simple_api;
 pub use build_wheel::WheelBuilder;
 pub use package_db::PackageDB;
 pub use simple_api::ArtifactInfo;
+
+#[cfg(posy_verif)]
+pub mod verif_hooks {
+    pub use super::http::*;
+    pub use super::simple_api::verif_hooks::*;
+    pub use super::simple_api::*;
+}
diff --git a/src/package_db/simple_api/mod.rs b/src/package_db/simple_api/mod.rs
index c0e94d1..2a4cf41 100644
--- a/src/package_db/simple_api/mod.rs
+++ b/src/package_db/simple_api/mod.rs
@@ -5,3 +5,9 @@ mod project_info;
 pub use fetch::fetch_simple_api;
 use html::parse_html;
 pub use project_info::{pack_by_version, ArtifactInfo, ProjectInfo};
+
+#[cfg(posy_verif)]
+pub mod verif_hooks {
+    pub use super::html::*;
+    pub use super::project_info::*;
+}
diff --git a/src/platform_tags/mod.rs b/src/platform_tags/mod.rs
index c34ef32..c557c1a 100644
--- a/src/platform_tags/mod.rs
+++ b/src/platform_tags/mod.rs
@@ -33,3 +33,8 @@ use macos::core_platform_tags;
 mod expand;
 mod platform;
 pub use platform::{Platform, PybiPlatform, WheelPlatform};
+
+#[cfg(posy_verif)]
+pub mod verif_hooks {
+    pub use super::expand::*;
+}
diff --git a/src/vocab/mod.rs b/src/vocab/mod.rs
index 891ed6e..f9d379d 100644
--- a/src/vocab/mod.rs
+++ b/src/vocab/mod.rs
@@ -29,3 +29,9 @@ pub use self::requirement::{
 };
 pub use self::specifier::{CompareOp, Specifier, Specifiers};
 pub use self::version::{Version, VERSION_INFINITY, VERSION_ZERO};
+
+#[cfg(posy_verif)]
+pub mod verif_hooks {
+    pub use super::requirement::ParseExtra;
+    pub use super::rfc822ish::*;
+}
-- 
2.43.0


From 6b750f99a7dffb1a4983cd6f2c9a6ec3d5d2a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 02/63] fix: normalize runs of separators in package names, as
 PEP 503 says

a--b, a_.b and a-b are the same project, but each separator was replaced on its
own, so that they compared different.
---
 src/vocab/package_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 730a246..1378f21 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -28,7 +28,7 @@ impl TryFrom<&str> for PackageName {
         });
         // https://www.python.org/dev/peps/pep-0503/#normalized-names
         static NAME_NORMALIZE: Lazy<Regex> =
-            Lazy::new(|| Regex::new(r"[-_.]").unwrap());
+            Lazy::new(|| Regex::new(r"[-_.]+").unwrap());
 
         if !NAME_VALIDATE.is_match(as_given) {
             return Err(eyre!("Invalid package name {:?}", as_given));
-- 
2.43.0


From 8154efa8a9306992991c8ceeb94fa580071e408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 03/63] fix: ignore the given spelling when ordering package
 names

Ord looked at as_given while Eq and PartialOrd ignored it, so names that are equal
did not compare Equal (and were different keys of a BTreeMap).
---
 src/vocab/package_name.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 1378f21..f114a57 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -3,7 +3,12 @@ use crate::prelude::*;
 #[derive(Debug, Clone, DeserializeFromStr, Derivative)]
 #[derivative(Hash, PartialEq, Eq, PartialOrd, Ord)]
 pub struct PackageName {
-    #[derivative(Hash = "ignore", PartialEq = "ignore", PartialOrd = "ignore")]
+    #[derivative(
+        Hash = "ignore",
+        PartialEq = "ignore",
+        PartialOrd = "ignore",
+        Ord = "ignore"
+    )]
     as_given: String,
     normalized: String,
 }
-- 
2.43.0


From 1ddd5822fb3298795f41ef945471ca5bc9bec0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:36 +0000
Subject: [PATCH 04/63] fix: .post(N+1).dev0 comes right after .postN

1.0.post2.dev0 sorts before 1.0.post2, so '==1.0.post1' and '<=1.0.post1' wrongly
included it and '>1.0.post1' wrongly excluded it.
---
 src/vocab/specifier.rs | 1 +
 src/vocab/version.rs   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 8f8a56e..710e9f6 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -191,6 +191,7 @@ impl CompareOp {
                         low.0.dev = Some(dev + 1);
                     } else if let Some(post) = &version.0.post {
                         low.0.post = Some(post + 1);
+                        low.0.dev = Some(0);
                     } else {
                         // Otherwise, want to increment either the pre-release (a0 ->
                         // a1), or the "last" release segment. But working with
diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 60dafdd..724bb57 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -49,7 +49,7 @@ impl Version {
         //   then the next possible version is .dev(N+1)
         //
         // - You can't attach a .postN after a .postN. So if you already have
-        //   a .postN, then the next possible value is .post(N+1).
+        //   a .postN, then the next possible value is .post(N+1).dev0.
         //
         // - You *can* attach a .postN after anything else. And a .devN after that. So
         // to get the next possible value, attach a .post0.dev0.
@@ -57,6 +57,7 @@ impl Version {
             *dev += 1;
         } else if let Some(post) = &mut new.0.post {
             *post += 1;
+            new.0.dev = Some(0);
         } else {
             new.0.post = Some(0);
             new.0.dev = Some(0);
-- 
2.43.0


From 38b04bf2217df7ff9a738d321fe22621ce670004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:36 +0000
Subject: [PATCH 05/63] fix: '<X.postN' includes X and the earlier
 post-releases

The bound dropped the post-release number, so '<1.0.post1' excluded 1.0 and
1.0.post0 as well.
---
 src/vocab/specifier.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 710e9f6..d184717 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -210,7 +210,6 @@ impl CompareOp {
                     if (&version.0.pre, &version.0.dev) == (&None, &None) {
                         let mut new_max = version;
                         new_max.0.dev = Some(0);
-                        new_max.0.post = None;
                         new_max.0.local = vec![];
                         vec![VERSION_ZERO.clone()..new_max]
                     } else {
-- 
2.43.0


From 63fcbdb664669edac346ff36c58cecb1e611a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:36 +0000
Subject: [PATCH 06/63] fix: the lowest version is 0.dev0, not 0a0.dev0

PEP 440 sorts 0.devN before all pre-releases of 0, so '<1', '!=1', ... excluded it.
---
 src/vocab/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 724bb57..b641fd1 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -16,7 +16,7 @@ use crate::prelude::*;
 )]
 pub struct Version(pub pep440::Version);
 
-pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0a0.dev0".try_into().unwrap());
+pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0.dev0".try_into().unwrap());
 
 pub static VERSION_INFINITY: Lazy<Version> = Lazy::new(|| {
     // Technically there is no largest PEP 440 version. But this should be good
-- 
2.43.0


From accd0f4b09994d5080a3b44b3a24a6ff2d5fe615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 07/63] fix: version bounds treat local versions as PEP 440
 says

'==1.0+foo' matched every local version from 1.0+foo on, because the next version
after 1.0+foo was taken to be the one after 1.0. Give Version::next() (which is also
what pubgrub uses for exact pins) the meaning it documents, and use the version after
all local versions only where local versions have to be ignored.
---
 src/vocab/specifier.rs | 26 ++++++++++++++++++++------
 src/vocab/version.rs   | 17 ++++++++++++++++-
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index d184717..36cefc6 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -174,15 +174,29 @@ impl CompareOp {
             }
             match self {
                 // These two are simple
-                LessThanEqual => vec![VERSION_ZERO.clone()..version.next()],
+                LessThanEqual => vec![VERSION_ZERO.clone()..version.next_public()],
                 GreaterThanEqual => vec![version..VERSION_INFINITY.clone()],
                 // These are also pretty simple, because we took care of the wildcard
                 // cases up above.
-                Equal => vec![version.clone()..version.next()],
-                NotEqual => vec![
-                    VERSION_ZERO.clone()..version.clone(),
-                    version.next()..VERSION_INFINITY.clone(),
-                ],
+                //
+                // "If the specified version identifier is a public version identifier
+                // (no local version label), then the local version label of any
+                // candidate versions MUST be ignored when matching versions."
+                Equal | NotEqual => {
+                    let next = if version.0.local.is_empty() {
+                        version.next_public()
+                    } else {
+                        version.next()
+                    };
+                    if self == &Equal {
+                        vec![version..next]
+                    } else {
+                        vec![
+                            VERSION_ZERO.clone()..version,
+                            next..VERSION_INFINITY.clone(),
+                        ]
+                    }
+                }
                 // "The exclusive ordered comparison >V MUST NOT allow a post-release of
                 // the given version unless V itself is a post release."
                 StrictlyGreaterThan => {
diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index b641fd1..4a429cc 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -36,9 +36,24 @@ impl Version {
         self.0.pre.is_some() || self.0.dev.is_some()
     }
 
-    /// Returns the smallest PEP 440 version that is larger than self.
+    /// Returns the smallest version that is larger than self.
+    ///
+    /// Appending to the local part gives a larger version, and the smallest thing that
+    /// can be appended is an empty string. That isn't something anyone can write down,
+    /// but it sorts in the right place.
     pub fn next(&self) -> Version {
         let mut new = self.clone();
+        new.0
+            .local
+            .push(pep440::LocalVersion::StringComponent(String::new()));
+        new
+    }
+
+    /// Returns the smallest PEP 440 version that is larger than self and than all the
+    /// local versions (+foo) of self.
+    pub fn next_public(&self) -> Version {
+        let mut new = self.clone();
+        new.0.local = vec![];
         // The rules are here:
         //
         //   https://www.python.org/dev/peps/pep-0440/#summary-of-permitted-suffixes-and-relative-ordering
-- 
2.43.0


From 459a5f90b3ddf2ea124018f4485cfb7bc2ee4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 08/63] fix: refuse specifiers whose bound doesn't fit in 32
 bits

'==4294967295.*', '~=4294967295.0', '<=1.dev4294967295', ... overflowed: a panic, or
with overflow checks off a nonsense range.
---
 src/vocab/specifier.rs | 23 +++++++++++++----------
 src/vocab/version.rs   | 15 +++++++++++----
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 36cefc6..017f2e9 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -1,3 +1,4 @@
+use super::version::increment;
 use crate::prelude::*;
 use std::ops::Range;
 
@@ -148,16 +149,17 @@ impl CompareOp {
             // .* can actually appear after .postX or .aX, so we need to find the last
             // numeric entry in the version, and increment that.
             if let Some(post) = high.0.post {
-                high.0.post = Some(post + 1)
+                high.0.post = Some(increment(post)?)
             } else if let Some(pre) = high.0.pre {
                 use pep440::PreRelease::*;
                 high.0.pre = Some(match pre {
-                    RC(n) => RC(n + 1),
-                    A(n) => A(n + 1),
-                    B(n) => B(n + 1),
+                    RC(n) => RC(increment(n)?),
+                    A(n) => A(increment(n)?),
+                    B(n) => B(increment(n)?),
                 })
             } else {
-                *high.0.release.last_mut().unwrap() += 1;
+                let last = high.0.release.last_mut().unwrap();
+                *last = increment(*last)?;
             }
             high.0.dev = Some(0);
             match self {
@@ -174,7 +176,7 @@ impl CompareOp {
             }
             match self {
                 // These two are simple
-                LessThanEqual => vec![VERSION_ZERO.clone()..version.next_public()],
+                LessThanEqual => vec![VERSION_ZERO.clone()..version.next_public()?],
                 GreaterThanEqual => vec![version..VERSION_INFINITY.clone()],
                 // These are also pretty simple, because we took care of the wildcard
                 // cases up above.
@@ -184,7 +186,7 @@ impl CompareOp {
                 // candidate versions MUST be ignored when matching versions."
                 Equal | NotEqual => {
                     let next = if version.0.local.is_empty() {
-                        version.next_public()
+                        version.next_public()?
                     } else {
                         version.next()
                     };
@@ -202,9 +204,9 @@ impl CompareOp {
                 StrictlyGreaterThan => {
                     let mut low = version.clone();
                     if let Some(dev) = &version.0.dev {
-                        low.0.dev = Some(dev + 1);
+                        low.0.dev = Some(increment(*dev)?);
                     } else if let Some(post) = &version.0.post {
-                        low.0.post = Some(post + 1);
+                        low.0.post = Some(increment(*post)?);
                         low.0.dev = Some(0);
                     } else {
                         // Otherwise, want to increment either the pre-release (a0 ->
@@ -249,7 +251,8 @@ impl CompareOp {
                     // Unwraps here are safe because we confirmed that the vector has at
                     // least 2 elements above.
                     new_max.0.release.pop().unwrap();
-                    *new_max.0.release.last_mut().unwrap() += 1;
+                    let last = new_max.0.release.last_mut().unwrap();
+                    *last = increment(*last)?;
                     vec![version..new_max]
                 }
             }
diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 4a429cc..5d6713a 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -51,7 +51,7 @@ impl Version {
 
     /// Returns the smallest PEP 440 version that is larger than self and than all the
     /// local versions (+foo) of self.
-    pub fn next_public(&self) -> Version {
+    pub fn next_public(&self) -> Result<Version> {
         let mut new = self.clone();
         new.0.local = vec![];
         // The rules are here:
@@ -69,18 +69,25 @@ impl Version {
         // - You *can* attach a .postN after anything else. And a .devN after that. So
         // to get the next possible value, attach a .post0.dev0.
         if let Some(dev) = &mut new.0.dev {
-            *dev += 1;
+            *dev = increment(*dev)?;
         } else if let Some(post) = &mut new.0.post {
-            *post += 1;
+            *post = increment(*post)?;
             new.0.dev = Some(0);
         } else {
             new.0.post = Some(0);
             new.0.dev = Some(0);
         }
-        new
+        Ok(new)
     }
 }
 
+/// Adds one to a version component, without overflowing
+pub fn increment(component: u32) -> Result<u32> {
+    component
+        .checked_add(1)
+        .ok_or_else(|| eyre!("version component {} is too large", component))
+}
+
 impl TryFrom<&str> for Version {
     type Error = eyre::Report;
 
-- 
2.43.0


From a0bab2a8a8656443d73eccd150e71b2223b1d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:51 +0000
Subject: [PATCH 09/63] fix: allow whitespace before ')' around version
 constraints

---
 src/vocab/reqparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/reqparse.rs b/src/vocab/reqparse.rs
index bd19abb..1fd95a5 100644
--- a/src/vocab/reqparse.rs
+++ b/src/vocab/reqparse.rs
@@ -40,7 +40,7 @@ peg::parser! {
             = specs:(version_one() ++ (_ ",")) { Specifiers(specs) }
 
         pub rule versionspec() -> Specifiers
-            = ("(" vm:version_many() ")" { vm }) / version_many()
+            = ("(" vm:version_many() _ ")" { vm }) / version_many()
 
         rule urlspec() -> Requirement
             = "@" {? Err("direct url references not currently supported") }
-- 
2.43.0


From a0e52a73fd345cd053b70a791f19d53408f72ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:51 +0000
Subject: [PATCH 10/63] fix: don't parse nested markers in exponential time

---
 src/vocab/reqparse.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/vocab/reqparse.rs b/src/vocab/reqparse.rs
index 1fd95a5..51fff7e 100644
--- a/src/vocab/reqparse.rs
+++ b/src/vocab/reqparse.rs
@@ -131,14 +131,22 @@ peg::parser! {
               }
 
         rule marker_and(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_expr(parse_extra) _ "and" _ rhs:marker_and(parse_extra)
-                 { marker::EnvMarkerExpr::And(Box::new(lhs), Box::new(rhs)) }
-              / marker_expr(parse_extra)
+            = lhs:marker_expr(parse_extra) rhs:(_ "and" _ rhs:marker_and(parse_extra) { rhs })?
+                 {
+                     match rhs {
+                         Some(rhs) => marker::EnvMarkerExpr::And(Box::new(lhs), Box::new(rhs)),
+                         None => lhs,
+                     }
+                 }
 
         rule marker_or(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_and(parse_extra) _ "or" _ rhs:marker_or(parse_extra)
-                 { marker::EnvMarkerExpr::Or(Box::new(lhs), Box::new(rhs)) }
-              / marker_and(parse_extra)
+            = lhs:marker_and(parse_extra) rhs:(_ "or" _ rhs:marker_or(parse_extra) { rhs })?
+                 {
+                     match rhs {
+                         Some(rhs) => marker::EnvMarkerExpr::Or(Box::new(lhs), Box::new(rhs)),
+                         None => lhs,
+                     }
+                 }
 
         pub rule marker(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
             = marker_or(parse_extra)
-- 
2.43.0


From 31869d0ab4be5c06a980599d0c483c7c435e3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 11/63] fix: compare extras as names even if they look like
 versions

---
 src/vocab/requirement.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vocab/requirement.rs b/src/vocab/requirement.rs
index be8563e..606dfc8 100644
--- a/src/vocab/requirement.rs
+++ b/src/vocab/requirement.rs
@@ -142,12 +142,15 @@ pub mod marker {
                         Op::Compare(op) => {
                             // If both sides can be parsed as versions (or the RHS can
                             // be parsed as a wildcard with a wildcard-accepting op),
-                            // then we do a version comparison
-                            if let Ok(lhs_ver) = lhs_val.parse() {
-                                if let Ok(rhs_ranges) = op.to_ranges(rhs_val) {
-                                    return Ok(rhs_ranges
-                                        .into_iter()
-                                        .any(|r| r.contains(&lhs_ver)));
+                            // then we do a version comparison. (But extras are always
+                            // names, even if they look like a version.)
+                            if !lhs.is_extra() && !rhs.is_extra() {
+                                if let Ok(lhs_ver) = lhs_val.parse() {
+                                    if let Ok(rhs_ranges) = op.to_ranges(rhs_val) {
+                                        return Ok(rhs_ranges
+                                            .into_iter()
+                                            .any(|r| r.contains(&lhs_ver)));
+                                    }
                                 }
                             }
                             use CompareOp::*;
-- 
2.43.0


From ad6678e235d6d578eba296e832411df9c83b7cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:52 +0000
Subject: [PATCH 12/63] fix: a pre-release of the next major Metadata-Version
 is unsupported too

---
 src/vocab/core_metadata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vocab/core_metadata.rs b/src/vocab/core_metadata.rs
index 53f2204..d20eaa0 100644
--- a/src/vocab/core_metadata.rs
+++ b/src/vocab/core_metadata.rs
@@ -37,8 +37,9 @@ fn parse_common(input: &[u8]) -> Result<(PackageName, Version, RFC822ish)> {
     let input = String::from_utf8_lossy(input);
     let mut parsed = RFC822ish::parse(&input)?;
 
+    // (including its pre-releases)
     static NEXT_MAJOR_METADATA_VERSION: Lazy<Version> =
-        Lazy::new(|| "3".try_into().unwrap());
+        Lazy::new(|| "3.dev0".try_into().unwrap());
 
     // Quoth https://packaging.python.org/specifications/core-metadata:
     // "Automated tools consuming metadata SHOULD warn if metadata_version
-- 
2.43.0


From 45566c8941f3d21c381b1b76f40e99c04a2e0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 13/63] fix: refuse entry points outside any section, accept
 one-letter modules and objects

Both come together: the only thing that made a line before the first section
header fail was that its module name was a single letter. The name also has
to be non-empty, and does not include leading whitespace.
---
 src/vocab/entry_points.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index ebea403..9aaf31f 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -19,11 +19,12 @@ static ENTRY_LINE: Lazy<Regex> = Lazy::new(|| {
     Regex::new(
         r"(?x)
           ^
-          (?P<name> .*?)
+          \s*
+          (?P<name> [^\s=] .*?)
           \s* = \s*
-          (?P<module> [a-zA-Z_][a-zA-Z0-9_.]+)
+          (?P<module> [a-zA-Z_][a-zA-Z0-9_]* (\. [a-zA-Z_][a-zA-Z0-9_]*)*)
           \s*
-          (: \s* (?P<object> [a-zA-Z_][a-zA-Z0-9_.]+))?
+          (: \s* (?P<object> [a-zA-Z_][a-zA-Z0-9_]* (\. [a-zA-Z_][a-zA-Z0-9_]*)*))?
           \s*
           # 'Consumers should support parsing [extras] ... but may then ignore them'
           (\[ .* \])?
@@ -43,7 +44,7 @@ pub struct Entrypoint {
 }
 
 pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoint>>> {
-    let mut current_section_name = Some(String::new());
+    let mut current_section_name = None;
     let mut current_entries = Vec::<Entrypoint>::new();
     let mut result = HashMap::<String, Vec<Entrypoint>>::new();
     for line in contents.split('\n') {
-- 
2.43.0


From 8c40bfbfcd5809e798eac3b5127fb733deea4567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 14/63] fix: don't drop entry points when a section header is
 repeated

---
 src/vocab/entry_points.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index 9aaf31f..14b584e 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -54,7 +54,10 @@ pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoi
         } else if let Some(captures) = HEADER_LINE.captures(line.as_ref()) {
             let section_name = captures.name("name").unwrap().as_str();
             if !current_entries.is_empty() {
-                result.insert(current_section_name.unwrap(), current_entries);
+                result
+                    .entry(current_section_name.unwrap())
+                    .or_default()
+                    .extend(current_entries);
             }
             current_section_name = Some(section_name.into());
             current_entries = Vec::new();
@@ -75,7 +78,10 @@ pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoi
         }
     }
     if !current_entries.is_empty() {
-        result.insert(current_section_name.unwrap(), current_entries);
+        result
+            .entry(current_section_name.unwrap())
+            .or_default()
+            .extend(current_entries);
     }
     Ok(result)
 }
-- 
2.43.0


From ec37a4a615d8307645bb59d7780525c1f649bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 15/63] fix: entry point names can't contain '='

---
 src/vocab/entry_points.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index 14b584e..942e681 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -20,7 +20,7 @@ static ENTRY_LINE: Lazy<Regex> = Lazy::new(|| {
         r"(?x)
           ^
           \s*
-          (?P<name> [^\s=] .*?)
+          (?P<name> [^\s=] [^=]*?)
           \s* = \s*
           (?P<module> [a-zA-Z_][a-zA-Z0-9_]* (\. [a-zA-Z_][a-zA-Z0-9_]*)*)
           \s*
-- 
2.43.0


From 630af9c8e49b62a3a58a7d92af06d9efd8cb8f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 16/63] fix: decode percent-encoded filenames in index page
 links

---
 src/package_db/simple_api/html.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/package_db/simple_api/html.rs b/src/package_db/simple_api/html.rs
index 2c9bf42..7cfba34 100644
--- a/src/package_db/simple_api/html.rs
+++ b/src/package_db/simple_api/html.rs
@@ -76,6 +76,24 @@ fn parse_hash(s: &str) -> Option<ArtifactHash> {
     }
 }
 
+// The last path segment of a link is the URL-encoded filename (e.g. '%2B' for the '+' in a
+// local version).
+fn percent_decode(s: &str) -> Option<String> {
+    let mut bytes = s.as_bytes();
+    let mut decoded = Vec::with_capacity(bytes.len());
+    while let Some((&first, rest)) = bytes.split_first() {
+        bytes = rest;
+        match (first, rest) {
+            (b'%', [hi, lo, ..]) if hi.is_ascii_hexdigit() && lo.is_ascii_hexdigit() => {
+                decoded.extend(data_encoding::HEXLOWER_PERMISSIVE.decode(&[*hi, *lo]).ok()?);
+                bytes = &rest[2..];
+            }
+            _ => decoded.push(first),
+        }
+    }
+    String::from_utf8(decoded).ok()
+}
+
 impl Sink {
     fn try_parse_link(
         &self,
@@ -83,7 +101,8 @@ impl Sink {
         attrs: &Vec<Attribute>,
     ) -> Option<Vec<ArtifactInfo>> {
         let url = self.base.join(url_str).ok()?;
-        let name: ArtifactName = url.path_segments()?.next_back()?.try_into().ok()?;
+        let filename = percent_decode(url.path_segments()?.next_back()?)?;
+        let name: ArtifactName = filename.as_str().try_into().ok()?;
         let names = name.split_multiplatform_pybis();
         // We found a valid link
         let hash = url.fragment().and_then(parse_hash);
-- 
2.43.0


From b39658e2cfa82ab78515804389d53c3c74a80fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 17/63] fix: a <base> without href doesn't make later ones
 ignored

---
 src/package_db/simple_api/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/package_db/simple_api/html.rs b/src/package_db/simple_api/html.rs
index 7cfba34..1ce7c2c 100644
--- a/src/package_db/simple_api/html.rs
+++ b/src/package_db/simple_api/html.rs
@@ -175,10 +175,10 @@ impl TreeSink for Sink {
         }
 
         if name.expanded() == BASE_TAG {
-            // HTML spec says that only the first <base> is respected
+            // HTML spec says that only the first <base> with an href is respected
             if !self.changed_base {
-                self.changed_base = true;
                 if let Some(new_base_str) = get_attr(&HREF_ATTR, &attrs) {
+                    self.changed_base = true;
                     if let Ok(new_base) = self.base.join(new_base_str) {
                         self.base = new_base;
                     }
-- 
2.43.0


From ea5a52db01f8de4a6526226efea55de159660dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 18/63] fix: don't read junk after a legacy manylinux tag as
 part of it

---
 src/platform_tags/expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform_tags/expand.rs b/src/platform_tags/expand.rs
index bbcba6d..2e28216 100644
--- a/src/platform_tags/expand.rs
+++ b/src/platform_tags/expand.rs
@@ -7,7 +7,7 @@ static LINUX_RE: Lazy<Regex> = Lazy::new(|| {
 });
 
 static LEGACY_MANYLINUX_RE: Lazy<Regex> =
-    Lazy::new(|| Regex::new(r"^manylinux(2014|2010|1)_([a-zA-Z0-9_]*)").unwrap());
+    Lazy::new(|| Regex::new(r"^manylinux(2014|2010|1)_([a-zA-Z0-9_]*)$").unwrap());
 
 static MACOSX_RE: Lazy<Regex> =
     Lazy::new(|| Regex::new(r"^macosx_([0-9]+)_([0-9]+)_([a-zA-Z0-9_]*)$").unwrap());
-- 
2.43.0


From a6eb9b691065631281cdeff5a68b0065d047e81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 19/63] fix: an empty set of specifiers can be loaded back

---
 src/vocab/specifier.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 017f2e9..b93adc2 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -58,6 +58,10 @@ impl TryFrom<&str> for Specifiers {
     type Error = eyre::Report;
 
     fn try_from(input: &str) -> Result<Self, Self::Error> {
+        // the empty set is how "no constraint at all" is displayed
+        if input.trim().is_empty() {
+            return Ok(Specifiers::default());
+        }
         let specifiers_or_err = super::reqparse::versionspec(input);
         specifiers_or_err.wrap_err_with(|| {
             format!("failed to parse versions specifiers from {:?}", input)
-- 
2.43.0


From cd7ec5b6c93ba17d453bdfcd1b61c6edd2f9f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 20/63] fix: ':all:' pre-release policy loads from any reader

---
 src/resolve.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 60f687e..d7f601d 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -34,12 +34,12 @@ impl Default for AllowPre {
 
 #[derive(Serialize, Deserialize)]
 #[serde(untagged)]
-enum AllowPreSerdeHelper<'a> {
+enum AllowPreSerdeHelper {
     Some(HashSet<PackageName>),
-    Other(&'a str),
+    Other(String),
 }
 
-impl<'a> TryFrom<AllowPreSerdeHelper<'a>> for AllowPre {
+impl TryFrom<AllowPreSerdeHelper> for AllowPre {
     type Error = eyre::Report;
 
     fn try_from(value: AllowPreSerdeHelper) -> Result<Self, Self::Error> {
@@ -56,11 +56,11 @@ impl<'a> TryFrom<AllowPreSerdeHelper<'a>> for AllowPre {
     }
 }
 
-impl<'a> From<AllowPre> for AllowPreSerdeHelper<'a> {
+impl From<AllowPre> for AllowPreSerdeHelper {
     fn from(value: AllowPre) -> Self {
         match value {
             AllowPre::Some(pkgs) => AllowPreSerdeHelper::Some(pkgs),
-            AllowPre::All => AllowPreSerdeHelper::Other(":all:"),
+            AllowPre::All => AllowPreSerdeHelper::Other(":all:".into()),
         }
     }
 }
-- 
2.43.0


From 40ff4b90a188ec5fc1888cd6b0ccbdc9ed385fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 21/63] fix: load briefs stored without an allow_pre policy

---
 src/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index d7f601d..51ba08c 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -82,7 +82,7 @@ pub struct Brief {
     pub python: PythonRequirement,
     // don't need python_constraints because we always install exactly one python
     pub requirements: Vec<UserRequirement>,
-    #[serde(skip_serializing_if = "allow_pre_is_empty")]
+    #[serde(default, skip_serializing_if = "allow_pre_is_empty")]
     pub allow_pre: AllowPre,
     // XX TODO
     //pub constraints: Vec<UserRequirement>,
-- 
2.43.0


From 373e03ec835a9164c872fa8704ca4a1fd6218790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 22/63] fix: accept directories listed after their contents, or
 repeatedly

---
 src/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 7d6a689..d501f20 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -230,7 +230,8 @@ impl WriteTreeFS {
 impl WriteTree for WriteTreeFS {
     fn mkdir(&mut self, path: &NicePathBuf) -> Result<()> {
         context!("Creating {path}/");
-        Ok(fs::create_dir(self.full_path(path)?)?)
+        // Archives can list a directory after its contents, or more than once
+        Ok(fs::create_dir_all(self.full_path(path)?)?)
     }
 
     fn write_file(
-- 
2.43.0


From c0473d504b654c730ec71acf88999815f464641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 23/63] fix: refuse sparse files in sdists instead of dropping
 them

---
 src/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index d501f20..e645b18 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -331,11 +331,11 @@ pub fn unpack_tar_gz_carefully<T: Read + Seek, W: WriteTree>(
             // In theory we could support symlinks here (and we do support them in zip
             // files, by accident because we want to support them for pybis), but lets
             // wait until someone actually needs it.
-            Symlink | Link | Char | Block | Fifo => {
+            Symlink | Link | Char | Block | Fifo | GNUSparse => {
                 bail!("sdist entry {} has unsupported type {:?}", path, kind)
             }
             Directory => dest.mkdir(&path)?,
-            GNULongName | GNULongLink | GNUSparse | XGlobalHeader | XHeader => (),
+            GNULongName | GNULongLink | XGlobalHeader | XHeader => (),
             _ => {
                 dest.write_file(&path, &mut entry, is_executable)?;
             }
-- 
2.43.0


From 2b10412e5612eb16d911a8769b79ddb84e4cd098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 24/63] fix: recognize directories in pre-POSIX sdist tarballs

---
 src/tree.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tree.rs b/src/tree.rs
index e645b18..20d4b91 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -335,6 +335,13 @@ pub fn unpack_tar_gz_carefully<T: Read + Seek, W: WriteTree>(
                 bail!("sdist entry {} has unsupported type {:?}", path, kind)
             }
             Directory => dest.mkdir(&path)?,
+            // before ustar, directories were marked only by their trailing slash
+            Regular
+                if entry.header().as_ustar().is_none()
+                    && entry.path_bytes().ends_with(b"/") =>
+            {
+                dest.mkdir(&path)?
+            }
             GNULongName | GNULongLink | XGlobalHeader | XHeader => (),
             _ => {
                 dest.write_file(&path, &mut entry, is_executable)?;
-- 
2.43.0


From 8243cc6fb4cd6d12ee14a69c5e7bf928a98c0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 25/63] fix: don't glue the first line of scripts to the
 launcher's last

---
 src/trampolines/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trampolines/mod.rs b/src/trampolines/mod.rs
index f9f4f6e..063b8ce 100644
--- a/src/trampolines/mod.rs
+++ b/src/trampolines/mod.rs
@@ -61,6 +61,8 @@ impl TrampolineMaker {
             ScriptType::GUI => UNIX_TEMPLATE.replace("POSY_PYTHON", "POSY_PYTHONW"),
         };
         let mut out = prefix.into_bytes();
+        // (indoc strips the last newline)
+        out.push(b'\n');
         out.extend_from_slice(script);
         out
     }
-- 
2.43.0


From f4ca2b357b82c1047947b5bdc9c2def9ff13ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 26/63] fix: recognize #!python scripts however their data is
 chunked

---
 src/vocab/artifact_formats.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index 3af87a6..9f80476 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -565,12 +565,14 @@ where
     ) -> Result<()> {
         if let Some((fixed_path, is_script)) = self.analyze_path(path)? {
             if is_script {
-                // use BufReader to "peek" into the start of the executable. Some wheels
-                // contain large compiled binaries as "scripts", so it's nicer not to
-                // load the whole thing into memory until we know what we're dealing
-                // with.
-                let mut bufread = BufReader::new(&mut data);
-                let script_start = bufread.fill_buf()?;
+                // "peek" into the start of the executable. Some wheels contain large
+                // compiled binaries as "scripts", so it's nicer not to load the whole
+                // thing into memory until we know what we're dealing with.
+                let mut script_start = Vec::new();
+                (&mut data)
+                    .take("#!pythonw".len() as u64)
+                    .read_to_end(&mut script_start)?;
+                let mut bufread = BufReader::new(script_start.as_slice().chain(data));
                 if script_start.starts_with(b"#!python") {
                     // it's some kind of script, but which kind?
                     let script_type = if script_start.starts_with(b"#!pythonw") {
-- 
2.43.0


From b311ee01074b381a849fdf822eee706d848edf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:40 +0000
Subject: [PATCH 27/63] fix: refuse hashes that can't be used as a path safely

An algorithm name with separators in it (or '..') escaped from the cache
directories, and hashes of a byte or two made the path computation panic.
---
 src/vocab/artifact_hash.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vocab/artifact_hash.rs b/src/vocab/artifact_hash.rs
index f8b1c79..638141e 100644
--- a/src/vocab/artifact_hash.rs
+++ b/src/vocab/artifact_hash.rs
@@ -6,11 +6,25 @@ pub struct ArtifactHash {
     pub raw_data: Vec<u8>,
 }
 
+// size of an MD5, the shortest hash that anyone still uses
+const MIN_HASH_LEN: usize = 16;
+
 impl ArtifactHash {
     pub fn from_hex(mode: &str, hex: &str) -> Result<ArtifactHash> {
+        // These come from index pages and lock files, and we use them as on-disk paths
+        // (see PathKey), so nothing but a plain algorithm name and a hash that's long
+        // enough to be one is acceptable.
+        let is_name_byte = |b: u8| b.is_ascii_alphanumeric() || b == b'_' || b == b'-';
+        if mode.is_empty() || !mode.bytes().all(is_name_byte) {
+            bail!("invalid hash algorithm name {:?}", mode);
+        }
+        let raw_data = data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?;
+        if raw_data.len() < MIN_HASH_LEN {
+            bail!("{} hash {:?} is too short", mode, hex);
+        }
         Ok(ArtifactHash {
             mode: mode.into(),
-            raw_data: data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?,
+            raw_data,
         })
     }
 
-- 
2.43.0


From 608fbe546de247a3dc078e63239ee2d82bec52ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:47 +0000
Subject: [PATCH 28/63] fix: removing a cache entry that isn't there is not an
 error

The HTTP cache does that whenever the first response for a URL must not be
stored, so such requests failed.
---
 src/kvstore.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kvstore.rs b/src/kvstore.rs
index 21b1c89..3657b00 100644
--- a/src/kvstore.rs
+++ b/src/kvstore.rs
@@ -262,8 +262,11 @@ impl KVFileLock {
     // file we got matches the one on disk before returning? might be necessary for any
     // kind of GC anyway)
     pub fn remove(self) -> Result<()> {
-        fs::remove_file(self.path)?;
-        Ok(())
+        match fs::remove_file(self.path) {
+            // nothing there, so nothing to remove
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(()),
+            result => Ok(result?),
+        }
     }
 }
 
-- 
2.43.0


From 6aec0778bee894c60ae2c6ec62aa43949287ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 29/63] fix: allow seeking a SeekSlice to its end, and an empty
 one at all

---
 src/seek_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seek_slice.rs b/src/seek_slice.rs
index 9ba8bd2..f029a1d 100644
--- a/src/seek_slice.rs
+++ b/src/seek_slice.rs
@@ -42,7 +42,7 @@ impl<T: Seek> Seek for SeekSlice<T> {
         };
         match maybe_goal_idx {
             Some(goal_idx) => {
-                if goal_idx < self.start || goal_idx >= self.end {
+                if goal_idx < self.start || goal_idx > self.end {
                     Err(io::Error::new(
                         io::ErrorKind::InvalidInput,
                         "invalid seek to a negative or overflowing position",
-- 
2.43.0


From e7e901ee1f7e26c17edfc01b99dd6abb5c20b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 30/63] fix: check that a range response is the range that was
 asked for

---
 src/package_db/http/lazy_remote_file.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/package_db/http/lazy_remote_file.rs b/src/package_db/http/lazy_remote_file.rs
index dab8655..d3d1881 100644
--- a/src/package_db/http/lazy_remote_file.rs
+++ b/src/package_db/http/lazy_remote_file.rs
@@ -146,9 +146,19 @@ impl LazyRemoteFile {
                 bail!("Server didn't like my range request and I don't know why");
             }
             RangeResponse::Partial {
-                offset, mut data, ..
+                offset: got_offset,
+                total_len,
+                data,
             } => {
-                self.loaded.insert(offset, slurp(&mut data)?);
+                if got_offset != offset || total_len != self.length {
+                    bail!("server sent a different range than the one I requested");
+                }
+                let mut data = data.take(length.saturating_add(1));
+                let data = slurp(&mut data)?;
+                if data.len() as u64 != length {
+                    bail!("server sent the wrong amount of data for a range request");
+                }
+                self.loaded.insert(offset, data);
                 Ok(())
             }
             RangeResponse::Complete(_) => {
-- 
2.43.0


From e399ff8d1d4a92f946368b2df6cacf1af1c1fca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 31/63] fix: follow redirects for HEAD requests too

---
 src/package_db/http/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 697c56a..b3f8065 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -307,7 +307,8 @@ impl HttpInner {
         mut request: http::Request<()>,
         cache_mode: CacheMode,
     ) -> Result<http::Response<ReadPlusMaybeSeek>> {
-        let max_redirects = if request.method() == http::method::Method::GET {
+        use http::method::Method;
+        let max_redirects = if [Method::GET, Method::HEAD].contains(request.method()) {
             MAX_REDIRECTS
         } else {
             0
-- 
2.43.0


From d2ab47a58504f395729f976f5ba7a15d41470cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 32/63] fix: do not take an HTTP error page for the contents of
 an unhashed artifact

---
 src/package_db/http/http.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index b3f8065..d48b476 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -336,6 +336,20 @@ impl HttpInner {
         unreachable!()
     }
 
+    // like request, but an error page is an error instead of a file's contents
+    fn request_ok(
+        &self,
+        request: http::Request<()>,
+        cache_mode: CacheMode,
+    ) -> Result<http::Response<ReadPlusMaybeSeek>> {
+        let uri = request.uri().clone();
+        let response = self.request(request, cache_mode)?;
+        if !response.status().is_success() {
+            bail!("expected a file at {}, got HTTP status {}", uri, response.status());
+        }
+        Ok(response)
+    }
+
     pub fn get_hashed(
         &self,
         url: &Url,
@@ -346,8 +360,9 @@ impl HttpInner {
         match (maybe_hash, cache_mode) {
             (Some(hash), CacheMode::Default) => {
                 Ok(self.hash_cache.get_or_set(&hash, |mut w| {
-                    let mut body =
-                        self.request(request, CacheMode::NoStore)?.into_body();
+                    let mut body = self
+                        .request_ok(request, CacheMode::NoStore)?
+                        .into_body();
                     let mut checker = hash.checker(&mut w)?;
                     std::io::copy(&mut body, &mut checker)?;
                     checker.finish()?;
@@ -358,7 +373,7 @@ impl HttpInner {
                 self.hash_cache.get(&hash).ok_or_else(|| NotCached.into())
             }
             (_, CacheMode::NoStore) | (None, _) => Ok(self
-                .request(request, cache_mode)?
+                .request_ok(request, cache_mode)?
                 .into_body()
                 .force_seek()?),
         }
-- 
2.43.0


From 1c7ffdc5277bd16934cb0d0b90d9632e22c9dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:19 +0000
Subject: [PATCH 33/63] fix: fetch the whole file when a server refuses the
 probe for range support

---
 src/package_db/http/lazy_remote_file.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/package_db/http/lazy_remote_file.rs b/src/package_db/http/lazy_remote_file.rs
index d3d1881..99bb07f 100644
--- a/src/package_db/http/lazy_remote_file.rs
+++ b/src/package_db/http/lazy_remote_file.rs
@@ -116,10 +116,12 @@ fn fetch_range(
         // e.g. because we requested past the end or beginning (particularly likely on
         // our first fetch, where we don't know how large the file is)
         416 => match response.headers().get("Content-Range") {
-            None => bail!("416 response is missing Content-Range"),
+            None => Err(PosyError::LazyRemoteFileNotSupported)
+                .wrap_err("416 response is missing Content-Range")?,
             Some(content_range) => {
                 match CONTENT_RANGE_LEN_ONLY_RE.captures(content_range.as_bytes()) {
-                    None => bail!("failed to parse 416 Content-Range"),
+                    None => Err(PosyError::LazyRemoteFileNotSupported)
+                        .wrap_err("failed to parse 416 Content-Range")?,
                     Some(captures) => {
                         let total_len: u64 = str_capture(&captures, 1)?.parse()?;
                         RangeResponse::NotSatisfiable { total_len }
@@ -130,7 +132,9 @@ fn fetch_range(
         // 200 Ok -> server doesn't like Range: requests and is just sending the full
         // data
         200 => RangeResponse::Complete(Box::new(response.into_body())),
-        status => bail!("expected 200 or 206 HTTP response, not {}", status),
+        // (some servers can't do HEAD, but might still hand over the whole file)
+        status => Err(PosyError::LazyRemoteFileNotSupported)
+            .wrap_err_with(|| format!("expected 200 or 206 HTTP response, not {status}"))?,
     })
 }
 
-- 
2.43.0


From 29082c0ed630deadc975698ce5e8701cf2e8d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 34/63] fix: return an uncacheable artifact from its start, not
 its end

---
 src/package_db/http/http.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index d48b476..ab2801e 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -65,6 +65,7 @@ impl ReadPlusMaybeSeek {
             ReadPlusMaybeSeek::CannotSeek(mut inner) => {
                 let mut tmp = tempfile::tempfile()?;
                 std::io::copy(&mut inner, &mut tmp)?;
+                tmp.rewind()?;
                 Box::new(tmp)
             }
         })
-- 
2.43.0


From 0ff98651debf700f2ced1e4c9361f2f727263aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 35/63] fix: check the hash of artifacts that are not to be
 cached

---
 src/package_db/http/http.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index ab2801e..dc6f082 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -373,7 +373,16 @@ impl HttpInner {
             (Some(hash), CacheMode::OnlyIfCached) => {
                 self.hash_cache.get(&hash).ok_or_else(|| NotCached.into())
             }
-            (_, CacheMode::NoStore) | (None, _) => Ok(self
+            (Some(hash), CacheMode::NoStore) => {
+                let mut body = self.request_ok(request, cache_mode)?.into_body();
+                let mut tmp = tempfile::tempfile()?;
+                let mut checker = hash.checker(&mut tmp)?;
+                std::io::copy(&mut body, &mut checker)?;
+                checker.finish()?;
+                tmp.rewind()?;
+                Ok(Box::new(tmp))
+            }
+            (None, _) => Ok(self
                 .request_ok(request, cache_mode)?
                 .into_body()
                 .force_seek()?),
-- 
2.43.0


From 90535e8de062764406596bff439074073d45345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 36/63] fix: ask again if a server says 304 but not about the
 response that we have

---
 src/package_db/http/http.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index dc6f082..c66aec0 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -262,6 +262,7 @@ impl HttpInner {
                         if cache_mode == CacheMode::OnlyIfCached {
                             return Err(NotCached {}.into());
                         }
+                        let original_request = request;
                         let request = http::Request::from_parts(new_parts, ());
                         let response = do_request_ureq(&self.agent, &request)?;
                         match old_policy.after_response(
@@ -279,6 +280,23 @@ impl HttpInner {
                             }
                             AfterResponse::Modified(new_policy, new_parts) => {
                                 drop(old_body);
+                                if response.status() == http::StatusCode::NOT_MODIFIED {
+                                    // The server thinks that we have it already, but
+                                    // what we have doesn't match. Ask again, without
+                                    // conditions.
+                                    let response =
+                                        do_request_ureq(&self.agent, original_request)?;
+                                    let new_policy =
+                                        CachePolicy::new(original_request, &response);
+                                    let (parts, body) = response.into_parts();
+                                    return handle_new(
+                                        new_policy,
+                                        parts,
+                                        body,
+                                        CacheStatus::StaleAndChanged,
+                                        lock,
+                                    );
+                                }
                                 handle_new(
                                     new_policy,
                                     new_parts,
-- 
2.43.0


From 53cbe1d87bb27ec54a3fbfa2637160a0986b5c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:59 +0000
Subject: [PATCH 37/63] fix: recognize Cache-Control in any case, and
 Cache-Control and Vary on several lines

---
 src/package_db/http/ureq_glue.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/package_db/http/ureq_glue.rs b/src/package_db/http/ureq_glue.rs
index ac9df33..6db04bf 100644
--- a/src/package_db/http/ureq_glue.rs
+++ b/src/package_db/http/ureq_glue.rs
@@ -73,7 +73,19 @@ pub fn do_request_ureq(
     }
     let ureq_response = call_with_retry(ureq_req).or_any_status()?;
     let mut response = http::Response::builder().status(ureq_response.status());
+    // CachePolicy only recognizes these in lowercase, and can lose all but one line of
+    // them. (Both are case-insensitive comma-separated lists.)
+    const LIST_HEADERS: &[&str] = &["cache-control", "vary"];
+    for name in LIST_HEADERS {
+        let values = ureq_response.all(name);
+        if !values.is_empty() {
+            response = response.header(*name, values.join(", ").to_ascii_lowercase());
+        }
+    }
     for name in ureq_response.headers_names() {
+        if LIST_HEADERS.contains(&name.as_str()) {
+            continue;
+        }
         for value in ureq_response.all(&name) {
             response = response.header(&name, value);
         }
-- 
2.43.0


From 89972312e61bacf38a1195c69d920c682c3013ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:19 +0000
Subject: [PATCH 38/63] fix: ignore files of other projects on a project's
 index page

A page can list anything, and whatever parsed as an artifact was taken for a release of
the project that we asked for.
---
 src/package_db/package_db.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/package_db/package_db.rs b/src/package_db/package_db.rs
index 002a55b..631a6ee 100644
--- a/src/package_db/package_db.rs
+++ b/src/package_db/package_db.rs
@@ -72,7 +72,10 @@ impl<'db> PackageDB<'db> {
                     &self.http,
                     &index_url.join(&format!("{}/", p.normalized()))?,
                 )?;
-                if let Some(pi) = maybe_pi {
+                if let Some(mut pi) = maybe_pi {
+                    // Anything on this page that belongs to some other project doesn't
+                    // count.
+                    pi.artifacts.retain(|ai| ai.name.distribution() == p);
                     pack_by_version(pi, &mut packed)?;
                 }
             }
-- 
2.43.0


From 43e12f8e50973f5f9cc252f08cfd6a259a681070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:56 +0000
Subject: [PATCH 39/63] fix: check that cached metadata is for the release that
 was asked for

The metadata cache is keyed by the artifact's hash. When an index listed the same file
as an artifact of two projects or versions, then once the metadata had been cached for
the one, it was also reported for the other.
---
 src/package_db/package_db.rs  | 12 +++++++++++-
 src/vocab/artifact_formats.rs | 23 +++++++++++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/package_db/package_db.rs b/src/package_db/package_db.rs
index 631a6ee..09ea555 100644
--- a/src/package_db/package_db.rs
+++ b/src/package_db/package_db.rs
@@ -143,7 +143,17 @@ impl<'db> PackageDB<'db> {
         // cache metadata for wheels as well.
         for ai in artifacts.iter().map(|b| b.borrow()) {
             if let Some(cm) = self.metadata_from_cache(ai) {
-                return Ok((ai, T::parse_metadata(cm.as_slice())?));
+                let metadata = T::parse_metadata(cm.as_slice())?;
+                // The cache only knows about hashes, and an index might list the same
+                // file under several names. Reading the metadata out of the artifact
+                // would check that it matches the artifact's name, so do that here too.
+                if T::metadata_is_for(
+                    &metadata,
+                    ai.name.distribution(),
+                    ai.name.version(),
+                ) {
+                    return Ok((ai, metadata));
+                }
             }
         }
 
diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index 9f80476..35d9370 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -117,6 +117,13 @@ pub trait BinaryArtifact: Artifact {
     // useful (https://github.com/pypa/setuptools/issues/2685)
     fn parse_metadata(value: &[u8]) -> Result<Self::Metadata>;
 
+    // whether this is the metadata for the given release
+    fn metadata_is_for(
+        metadata: &Self::Metadata,
+        name: &PackageName,
+        version: &Version,
+    ) -> bool;
+
     // used to parse from an actual binary artifact; finds the right metadata directory,
     // and also parses/validates the WHEEL/PYBI metadata, not just the core metadata.
     // Also returns the raw core metadata file contents, because sometimes we want to
@@ -327,6 +334,14 @@ impl BinaryArtifact for Wheel {
         value.try_into()
     }
 
+    fn metadata_is_for(
+        metadata: &Self::Metadata,
+        name: &PackageName,
+        version: &Version,
+    ) -> bool {
+        &metadata.name == name && &metadata.version == version
+    }
+
     fn metadata(&self) -> Result<(Vec<u8>, Self::Metadata)> {
         context!("Reading metadata from {}", self.name);
         let WheelVitals {
@@ -373,6 +388,14 @@ impl BinaryArtifact for Pybi {
         value.try_into()
     }
 
+    fn metadata_is_for(
+        metadata: &Self::Metadata,
+        name: &PackageName,
+        version: &Version,
+    ) -> bool {
+        &metadata.name == name && &metadata.version == version
+    }
+
     fn metadata(&self) -> Result<(Vec<u8>, Self::Metadata)> {
         let mut z = self.z.borrow_mut();
         let format_metadata_blob = slurp_from_zip(&mut z, "pybi-info/PYBI")?;
-- 
2.43.0


From 0dd5033b4315b5f5a141d06bb0977e79d36e3d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:18 +0000
Subject: [PATCH 40/63] fix: don't take a pybi's cached metadata for a wheel's

If a release has both pybis and wheels, and a pybi's metadata had been cached, then it
was used as the wheel's metadata.
---
 src/package_db/package_db.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/package_db/package_db.rs b/src/package_db/package_db.rs
index 09ea555..e4ab216 100644
--- a/src/package_db/package_db.rs
+++ b/src/package_db/package_db.rs
@@ -140,8 +140,12 @@ impl<'db> PackageDB<'db> {
 
         // have we cached any of these artifacts' metadata before?
         // don't use matching() here because that filters for binary artifacts, and we
-        // cache metadata for wheels as well.
+        // cache metadata for sdists as well. (But not for other kinds of binary
+        // artifact: a pybi's metadata is no use if we're looking for a wheel's.)
         for ai in artifacts.iter().map(|b| b.borrow()) {
+            if !(ai.is::<T>() || (builder.is_some() && ai.is::<Sdist>())) {
+                continue;
+            }
             if let Some(cm) = self.metadata_from_cache(ai) {
                 let metadata = T::parse_metadata(cm.as_slice())?;
                 // The cache only knows about hashes, and an index might list the same
-- 
2.43.0


From c82c5433051fd78188fa80bcd43760fc9b1435da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 41/63] fix: respect all of a package's requirements on
 another, not just the last one

Requirements on the same package replaced each other, and the exact
requirement on "foo" that we add for "foo[bar]" replaced everything that
foo[bar] itself has to say about foo.
---
 src/resolve.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 51ba08c..1c11a7a 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -742,13 +742,27 @@ impl<'a> PubgrubState<'a> {
                 let pkg = ResPkg::Package(req.name.clone(), maybe_extra);
                 let range = specifiers_to_pubgrub(&req.specifiers)?;
                 trace!("adding dependency: {} {}", pkg, range);
-                dc.insert(pkg, range);
+                add_dependency(dc, pkg, range);
             }
         }
         Ok(())
     }
 }
 
+/// Several requirements might be about the same package, and then all of them have to be
+/// satisfied.
+fn add_dependency(
+    dc: &mut DependencyConstraints<ResPkg, Version>,
+    pkg: ResPkg,
+    range: Range<Version>,
+) {
+    let range = match dc.get(&pkg) {
+        Some(existing) => existing.intersection(&range),
+        None => range,
+    };
+    dc.insert(pkg, range);
+}
+
 fn specifiers_to_pubgrub(specs: &Specifiers) -> Result<Range<Version>> {
     let mut final_range = Range::any();
     for spec in &specs.0 {
@@ -863,7 +877,8 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                             inner.as_given()
                         ))?;
                     }
-                    dc.insert(
+                    add_dependency(
+                        &mut dc,
                         ResPkg::Package(name.clone(), None),
                         Range::exact(version.clone()),
                     );
-- 
2.43.0


From 5248786573dcd9a3b95969e767b320e0e06e1e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 42/63] fix: if a version lacks the extra that we need, try
 other versions

Previously the whole resolution was given up.
---
 src/resolve.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 1c11a7a..c45aa57 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -871,11 +871,14 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
 
                 if let Some(inner) = extra {
                     if !metadata.extras.contains(inner) {
-                        Err(eyre!(
-                            "package {} has no extra [{}]",
+                        // Maybe some other version does.
+                        warn!(
+                            "{} {} has no extra [{}]",
                             name.as_given(),
+                            version,
                             inner.as_given()
-                        ))?;
+                        );
+                        return Ok(Dependencies::Unknown);
                     }
                     add_dependency(
                         &mut dc,
-- 
2.43.0


From 56c80a333fcfbc89326848a06ab668d74d7342db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 43/63] fix: don't give up if some version depends on itself or
 contradicts itself

Such a version might still be usable (if it satisfies its own requirement),
and if it's not then some other version might be.
---
 src/resolve.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index c45aa57..1c2954f 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -887,6 +887,21 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                     );
                 }
 
+                // Pubgrub gives up entirely if it sees a package that depends on itself,
+                // or that has contradictory requirements. But the former is harmless if
+                // the requirement is satisfied, and otherwise it just means that this
+                // version can't be used.
+                if let Some(range) = dc.remove(pkg) {
+                    if !range.contains(version) {
+                        warn!("{} {} requires another version of itself", pkg, version);
+                        return Ok(Dependencies::Unknown);
+                    }
+                }
+                if dc.values().any(|range| range == &Range::none()) {
+                    warn!("{} {} has contradictory requirements", pkg, version);
+                    return Ok(Dependencies::Unknown);
+                }
+
                 trace!("<---- dependencies complete");
                 Ok(Dependencies::Known(dc))
             }
-- 
2.43.0


From 5ac3f1bd4bcb94d2f56d5b3102b83457b4587821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 44/63] fix: skip versions whose metadata, but not index page,
 rules out our python

Previously the whole resolution was given up.
---
 src/resolve.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 1c2954f..70c1c27 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -817,11 +817,12 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                         .requires_python
                         .satisfied_by(&self.python_full_version)?
                     {
-                        Err(eyre!(
+                        warn!(
                             "{} {}: bad requires-python, but pypi didn't tell us!",
                             name.as_given(),
                             version
-                        ))?;
+                        );
+                        continue;
                     }
                     trace!("<---- decision: {} {}", respkg.borrow(), version);
                     return Ok((respkg, Some(version.clone())));
-- 
2.43.0


From f50dd8c024d9fce17fb131c4adfd107c85b61b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 45/63] fix: write a package's extras to lock files in a
 consistent order

They came out in random order, so resolving the same thing again gave a
different file. (marker-expressions are already sorted.)
---
 src/resolve.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index 70c1c27..5dbffb3 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -158,9 +158,20 @@ pub struct WheelResolveMetadata {
 pub struct WheelResolveMetadataInner {
     pub requires_dist: Vec<PackageRequirement>,
     pub requires_python: Specifiers,
+    #[serde(serialize_with = "serialize_extras")]
     pub extras: HashSet<Extra>,
 }
 
+// in a consistent order, so lock files don't change when nothing did
+fn serialize_extras<S>(extras: &HashSet<Extra>, s: S) -> Result<S::Ok, S::Error>
+where
+    S: serde::Serializer,
+{
+    let mut sorted = extras.iter().collect::<Vec<_>>();
+    sorted.sort_unstable_by_key(|e| e.normalized());
+    s.collect_seq(sorted)
+}
+
 impl WheelResolveMetadata {
     pub fn from(ai: &ArtifactInfo, m: &WheelCoreMetadata) -> WheelResolveMetadata {
         let provenance = ai.url.to_string();
-- 
2.43.0


From 4243f6c95e58da961dc68952df5ca03bd935608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 46/63] fix: install the most suitable artifact, not the least
 suitable one

---
 src/env.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 1403593..a9b540e 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -58,7 +58,8 @@ where
                 None
             })
             .collect::<Vec<_>>();
-        scored_candidates.sort_unstable_by_key(|(_, score)| *score);
+        // higher score = better
+        scored_candidates.sort_by_key(|(_, score)| std::cmp::Reverse(*score));
         for (ai, _) in scored_candidates {
             if ai.hash.is_none() {
                 warn!("best scoring artifact {} has no hash", ai.name);
-- 
2.43.0


From 73daa037be378626d3c7fbd4e94610541f169767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 47/63] fix: only build sdists that are in the lock file

---
 src/env.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index a9b540e..deb390a 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -184,7 +184,11 @@ impl EnvForest {
                         if let Some(sdist_ai) = db
                             .artifacts_for_version(&pin.name, &pin.version)?
                             .iter()
-                            .find(|ai| ai.is::<Sdist>())
+                            .filter(|ai| ai.is::<Sdist>())
+                            .find(|ai| match &ai.hash {
+                                Some(hash) => pin.hashes.contains(hash),
+                                None => false,
+                            })
                         {
                             context!("using sdist from {}", sdist_ai.url);
                             let sdist_hash = sdist_ai.require_hash()?;
-- 
2.43.0


From a486f4f9b1214be435ea6f483aa2a48c45e721c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 48/63] fix: pass the prepared .dist-info to build_wheel, not
 its parent

---
 src/package_db/data-files/build-frontend.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index afa8566..98f749e 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -62,18 +62,24 @@ if not (work_dir / "get_requires_for_build_wheel").exists():
         exit(0)
 
 metadata_dir = work_dir / "prepare_metadata_for_build_wheel"
+metadata_out = work_dir / "prepare_metadata_for_build_wheel.out"
 
 if goal == "WheelMetadata" and hasattr(backend, "prepare_metadata_for_build_wheel"):
     metadata_dir.mkdir()
     dist_info = backend.prepare_metadata_for_build_wheel(str(metadata_dir))
-    (work_dir / "prepare_metadata_for_build_wheel.out").write_text(dist_info, "utf-8")
+    metadata_out.write_text(dist_info, "utf-8")
     exit(0)
 
+# PEP 517: this is the .dist-info directory that the backend made, not the directory
+# that we had it made in
+metadata_directory = None
+if metadata_out.exists():
+    metadata_directory = str(metadata_dir / metadata_out.read_text("utf-8"))
+
 wheel_dir = work_dir / "build_wheel"
 wheel_dir.mkdir()
 wheel_basename = backend.build_wheel(
-    str(wheel_dir),
-    metadata_directory=str(metadata_dir) if metadata_dir.exists() else None,
+    str(wheel_dir), metadata_directory=metadata_directory
 )
 
 (work_dir / "build_wheel.out").write_text(wheel_basename, "utf-8")
-- 
2.43.0


From ee4925d3044ca4202d0ae324a568fb326551db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 49/63] fix: don't rerun a backend forever if it exits in
 get_requires_for_build_wheel

---
 src/package_db/build_wheel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index da575b2..72e96e4 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -480,6 +480,10 @@ impl<'a> WheelBuilder<'a> {
         if !status.success() {
             bail!("Build failed (exit status: {status})");
         }
+        // Every successful run of the frontend gets at least this far
+        if !handle.join("get_requires_for_build_wheel").exists() {
+            bail!("Build failed (build backend exited early)");
+        }
 
         Ok(())
     }
-- 
2.43.0


From 524189625ede9517a3b5ca15bad3e00fa6dd5e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 50/63] fix: don't continue from what a failed build left
 behind

---
 src/package_db/build_wheel.rs | 49 +++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 72e96e4..685e12c 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -1,4 +1,4 @@
-use std::{ffi::OsString, fs, io, path::PathBuf};
+use std::{ffi::OsString, fs, io};
 
 use crate::{
     env::Env,
@@ -59,8 +59,7 @@ enum Pep517Goal {
 
 enum Pep517Succeeded {
     WheelMetadata {
-        handle: KVDirLock,
-        dist_info: PathBuf,
+        metadata: (Vec<u8>, WheelCoreMetadata),
     },
     Wheel {
         wheel: Wheel,
@@ -184,14 +183,7 @@ impl<'a> WheelBuilder<'a> {
             None,
             &new_build_stack,
         )? {
-            Pep517Succeeded::WheelMetadata {
-                handle: _handle,
-                dist_info,
-            } => {
-                let metadata_buf = fs::read(dist_info.join("METADATA"))?;
-                let metadata = metadata_buf.as_slice().try_into()?;
-                Ok((metadata_buf, metadata))
-            }
+            Pep517Succeeded::WheelMetadata { metadata } => Ok(metadata),
             Pep517Succeeded::Wheel { wheel } => Ok(wheel.metadata()?),
         }
     }
@@ -336,9 +328,32 @@ impl<'a> WheelBuilder<'a> {
         goal: Pep517Goal,
         wheel_cache_handle: Option<KVDirLock>,
         new_build_stack: &[&PackageName],
+    ) -> Result<Pep517Succeeded> {
+        let handle = self.db.build_store.lock(&sdist_ai.require_hash()?)?;
+        let result = self.pep517_in(
+            &handle,
+            sdist_ai,
+            goal,
+            wheel_cache_handle,
+            new_build_stack,
+        );
+        if result.is_err() && handle.exists() {
+            // Whatever a failed build leaves behind isn't something that a later
+            // attempt could continue from.
+            fs::remove_dir_all(&handle)?;
+        }
+        result
+    }
+
+    fn pep517_in(
+        &self,
+        handle: &KVDirLock,
+        sdist_ai: &ArtifactInfo,
+        goal: Pep517Goal,
+        wheel_cache_handle: Option<KVDirLock>,
+        new_build_stack: &[&PackageName],
     ) -> Result<Pep517Succeeded> {
         let sdist_hash = sdist_ai.require_hash()?;
-        let handle = self.db.build_store.lock(&sdist_hash)?;
 
         if !handle.exists() {
             let tempdir = handle.tempdir()?;
@@ -348,7 +363,7 @@ impl<'a> WheelBuilder<'a> {
             const BUILD_FRONTEND_PY: &[u8] =
                 include_bytes!("data-files/build-frontend.py");
             fs::write(tempdir.path().join("build-frontend.py"), BUILD_FRONTEND_PY)?;
-            fs::rename(&tempdir.into_path(), &*handle)?;
+            fs::rename(&tempdir.into_path(), &**handle)?;
         }
 
         let build_wheel = handle.join("build_wheel");
@@ -395,13 +410,15 @@ impl<'a> WheelBuilder<'a> {
                 let name = String::from_utf8(fs::read(
                     handle.join("prepare_metadata_for_build_wheel.out"),
                 )?)?;
+                let dist_info = prepare_metadata_for_build_wheel.join(name);
+                let metadata_buf = fs::read(dist_info.join("METADATA"))?;
+                let metadata = metadata_buf.as_slice().try_into()?;
                 return Ok(Pep517Succeeded::WheelMetadata {
-                    handle,
-                    dist_info: prepare_metadata_for_build_wheel.join(name),
+                    metadata: (metadata_buf, metadata),
                 });
             }
             // Otherwise, we're not done. Turn the crank again.
-            self.pep517_step(&handle, goal, new_build_stack)?;
+            self.pep517_step(handle, goal, new_build_stack)?;
         }
     }
 
-- 
2.43.0


From e370b8d0360a69d7cf530dc0df2561da50904252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 51/63] fix: check what a build backend made before caching it
 as a wheel

---
 src/package_db/build_wheel.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 685e12c..affa3d1 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -376,6 +376,11 @@ impl<'a> WheelBuilder<'a> {
                 let name =
                     String::from_utf8(fs::read(handle.join("build_wheel.out"))?)?;
                 let mut wheel_name: WheelName = name.parse()?;
+                if wheel_name.distribution != *sdist_ai.name.distribution()
+                    || wheel_name.version != *sdist_ai.name.version()
+                {
+                    bail!("building {} produced {}", sdist_ai.name, wheel_name);
+                }
                 let wheel_path = build_wheel.join(&name);
                 // Get the most-restrictive wheel tag compatible with the build
                 // environment.
@@ -395,11 +400,17 @@ impl<'a> WheelBuilder<'a> {
                 };
                 fs::create_dir_all(&wheel_cache_handle)?;
                 let target_path = wheel_cache_handle.join(wheel_name.to_string());
-                if fs::rename(&wheel_path, &target_path).is_err() {
-                    fs::copy(&wheel_path, &target_path)?;
+                let tempdir = wheel_cache_handle.tempdir()?;
+                let temp_path = tempdir.path().join(&name);
+                if fs::rename(&wheel_path, &temp_path).is_err() {
+                    fs::copy(&wheel_path, &temp_path)?;
                 }
-                let opened = fs::File::open(target_path)?;
+                let opened = fs::File::open(&temp_path)?;
                 let wheel = Wheel::new(wheel_name, Box::new(opened))?;
+                // Don't put it in the cache unless it really is a wheel, and for what
+                // its name says
+                wheel.metadata()?;
+                fs::rename(&temp_path, &target_path)?;
                 return Ok(Pep517Succeeded::Wheel { wheel });
             }
 
-- 
2.43.0


From 19f566221882fe6abc893f82ec6b6d504e47fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 52/63] fix: check that prepared metadata is about the project
 it was prepared for

---
 src/package_db/build_wheel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index affa3d1..e19ae29 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -423,7 +423,12 @@ impl<'a> WheelBuilder<'a> {
                 )?)?;
                 let dist_info = prepare_metadata_for_build_wheel.join(name);
                 let metadata_buf = fs::read(dist_info.join("METADATA"))?;
-                let metadata = metadata_buf.as_slice().try_into()?;
+                let metadata: WheelCoreMetadata = metadata_buf.as_slice().try_into()?;
+                let (name, version) =
+                    (sdist_ai.name.distribution(), sdist_ai.name.version());
+                if !Wheel::metadata_is_for(&metadata, name, version) {
+                    bail!("preparing metadata of {} produced some other project's metadata", sdist_ai.name);
+                }
                 return Ok(Pep517Succeeded::WheelMetadata {
                     metadata: (metadata_buf, metadata),
                 });
-- 
2.43.0


From c998f871e41b2f6fa4af8a57ae067b247b76df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 53/63] fix: don't share build directories between different
 pythons

---
 src/package_db/build_wheel.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index e19ae29..ee031d0 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -329,7 +329,14 @@ impl<'a> WheelBuilder<'a> {
         wheel_cache_handle: Option<KVDirLock>,
         new_build_stack: &[&PackageName],
     ) -> Result<Pep517Succeeded> {
-        let handle = self.db.build_store.lock(&sdist_ai.require_hash()?)?;
+        // What's in the build directory was made for one particular python
+        let key = format!(
+            "{}\n{}\n{}",
+            sdist_ai.require_hash()?,
+            self.target_python.normalized(),
+            self.target_python_version,
+        );
+        let handle = self.db.build_store.lock(&key.as_bytes())?;
         let result = self.pep517_in(
             &handle,
             sdist_ai,
-- 
2.43.0


From ae9c753f03d1ef4e967db9520d062f707b78eb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 54/63] fix: allow for building an sdist again after its wheel
 was moved to the cache

---
 src/package_db/build_wheel.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index ee031d0..f6e6e13 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -344,9 +344,11 @@ impl<'a> WheelBuilder<'a> {
             wheel_cache_handle,
             new_build_stack,
         );
-        if result.is_err() && handle.exists() {
-            // Whatever a failed build leaves behind isn't something that a later
-            // attempt could continue from.
+        // Whatever a failed build leaves behind isn't something that a later attempt
+        // could continue from. And when there's a wheel, it's now in the wheel cache, so
+        // there's nothing left to continue from either.
+        let reusable = matches!(result, Ok(Pep517Succeeded::WheelMetadata { .. }));
+        if !reusable && handle.exists() {
             fs::remove_dir_all(&handle)?;
         }
         result
-- 
2.43.0


From 0f904311707108e826f0dd043bd76d4805ba4619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:13 +0000
Subject: [PATCH 55/63] fix: get metadata from a wheel built before instead of
 building again

---
 src/package_db/build_wheel.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index f6e6e13..7b72739 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -153,7 +153,7 @@ impl<'a> WheelBuilder<'a> {
         match self.pep517(
             sdist_ai,
             Pep517Goal::Wheel,
-            Some(handle),
+            handle,
             &new_build_stack,
         )? {
             Pep517Succeeded::Wheel { wheel } => {
@@ -177,10 +177,23 @@ impl<'a> WheelBuilder<'a> {
         trace!("Getting metadata from source for {} {}", sdist_ai.name.distribution().as_given(), sdist_ai.name.version());
         let new_build_stack = self.new_build_stack(sdist_ai.name.distribution())?;
 
+        // if we've built any wheel from this before, then it has the metadata
+        let handle = self.db.wheel_cache.lock(sdist_ai.require_hash()?)?;
+        fs::create_dir_all(&handle)?;
+        for entry in fs::read_dir(&handle)? {
+            let entry = entry?;
+            if let Some(name) = entry.file_name().to_str() {
+                if name.ends_with(".whl") {
+                    let opened = fs::File::open(entry.path())?;
+                    return Wheel::new(name.parse()?, Box::new(opened))?.metadata();
+                }
+            }
+        }
+
         match self.pep517(
             sdist_ai,
             Pep517Goal::WheelMetadata,
-            None,
+            handle,
             &new_build_stack,
         )? {
             Pep517Succeeded::WheelMetadata { metadata } => Ok(metadata),
@@ -326,7 +339,7 @@ impl<'a> WheelBuilder<'a> {
         &self,
         sdist_ai: &ArtifactInfo,
         goal: Pep517Goal,
-        wheel_cache_handle: Option<KVDirLock>,
+        wheel_cache_handle: KVDirLock,
         new_build_stack: &[&PackageName],
     ) -> Result<Pep517Succeeded> {
         // What's in the build directory was made for one particular python
@@ -359,11 +372,9 @@ impl<'a> WheelBuilder<'a> {
         handle: &KVDirLock,
         sdist_ai: &ArtifactInfo,
         goal: Pep517Goal,
-        wheel_cache_handle: Option<KVDirLock>,
+        wheel_cache_handle: KVDirLock,
         new_build_stack: &[&PackageName],
     ) -> Result<Pep517Succeeded> {
-        let sdist_hash = sdist_ai.require_hash()?;
-
         if !handle.exists() {
             let tempdir = handle.tempdir()?;
             let sdist = self.db.get_artifact::<Sdist>(sdist_ai)?;
@@ -403,11 +414,6 @@ impl<'a> WheelBuilder<'a> {
                     wheel_name.arch_tags = vec![build_arch.into()]
                 }
                 // Store the wheel in the wheel cache
-                let wheel_cache_handle = match wheel_cache_handle {
-                    Some(h) => h,
-                    None => self.db.wheel_cache.lock(&sdist_hash)?,
-                };
-                fs::create_dir_all(&wheel_cache_handle)?;
                 let target_path = wheel_cache_handle.join(wheel_name.to_string());
                 let tempdir = wheel_cache_handle.tempdir()?;
                 let temp_path = tempdir.path().join(&name);
-- 
2.43.0


From 09e21781fe83ae33242664e13f77e03677a7aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 56/63] fix: allow for building wheels with a pre-release
 python

---
 src/package_db/build_wheel.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 7b72739..71ca489 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -207,6 +207,14 @@ impl<'a> WheelBuilder<'a> {
         like: Option<&Blueprint>,
         new_build_stack: &[&PackageName],
     ) -> Result<(Blueprint, Env)> {
+        let allow_pre = || {
+            if self.target_python_version.is_prerelease() {
+                AllowPre::Some([self.target_python.clone()].into())
+            } else {
+                Default::default()
+            }
+        };
+
         // if we've already resolved a version of this environment, then we can skip
         // over the tricky stuff and just re-use the pybi + any matching wheels
         if like.is_some() {
@@ -219,7 +227,7 @@ impl<'a> WheelBuilder<'a> {
                 })
                 .unwrap(),
                 requirements: reqs.into(),
-                allow_pre: Default::default(),
+                allow_pre: allow_pre(),
             }
             .resolve(
                 self.db,
@@ -285,15 +293,10 @@ impl<'a> WheelBuilder<'a> {
         let mut found_python = None;
 
         for candidate in candidate_pyreqs {
-            let allow_pre = if self.target_python_version.is_prerelease() {
-                AllowPre::Some([self.target_python.clone()].into())
-            } else {
-                Default::default()
-            };
             let brief = Brief {
                 python: candidate,
                 requirements: Vec::new(),
-                allow_pre,
+                allow_pre: allow_pre(),
             };
             let result =
                 brief.resolve(self.db, &self.build_platforms, None, new_build_stack);
@@ -318,7 +321,7 @@ impl<'a> WheelBuilder<'a> {
         let brief = Brief {
             python: pyreq,
             requirements: reqs.into(),
-            allow_pre: Default::default(),
+            allow_pre: allow_pre(),
         };
         let blueprint = brief.resolve(
             self.db,
-- 
2.43.0


From 61c06d8f8715976b9b87d8214d103059d8bc3ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:23 +0000
Subject: [PATCH 57/63] fix: don't deadlock if building a package requires
 installing it

---
 src/env.rs                    |  3 +++
 src/package_db/build_wheel.rs | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/env.rs b/src/env.rs
index deb390a..adce640 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -191,6 +191,9 @@ impl EnvForest {
                             })
                         {
                             context!("using sdist from {}", sdist_ai.url);
+                            // if we're in the middle of installing this in order to
+                            // build it, then we're already holding this lock
+                            wheel_builder.check_build_loop(&pin.name)?;
                             let sdist_hash = sdist_ai.require_hash()?;
                             let handle = self.store.lock(&sdist_hash)?;
                             fs::create_dir_all(&handle)?;
diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 71ca489..400ac42 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -92,10 +92,8 @@ impl<'a> WheelBuilder<'a> {
         })
     }
 
-    fn new_build_stack(
-        &'a self,
-        package: &'a PackageName,
-    ) -> Result<Vec<&'a PackageName>> {
+    /// Fails if we're already in the middle of building this package.
+    pub fn check_build_loop(&self, package: &PackageName) -> Result<()> {
         if let Some(idx) = self.build_stack.iter().position(|p| p == &package) {
             let bad = self.build_stack[idx..]
                 .iter()
@@ -103,6 +101,14 @@ impl<'a> WheelBuilder<'a> {
                 .collect::<String>();
             bail!("build dependency loop: {bad}{}", package.as_given());
         }
+        Ok(())
+    }
+
+    fn new_build_stack(
+        &'a self,
+        package: &'a PackageName,
+    ) -> Result<Vec<&'a PackageName>> {
+        self.check_build_loop(package)?;
         let mut new_build_stack = self.build_stack.clone();
         new_build_stack.push(package);
         Ok(new_build_stack)
-- 
2.43.0


From 0062b120e81a6d0023941d303813c76e58ec21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 58/63] fix: don't use the current directory as site directory
 if there are no packages

---
 src/env.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/env.rs b/src/env.rs
index adce640..49681ee 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -312,6 +312,8 @@ impl EnvForest {
         bin_dirs.extend(wheel_roots.iter().map(|root| root.join("bin")));
 
         let lib_dirs = wheel_roots.iter().map(|root| root.join("lib")).collect();
+        let python_lib_dir =
+            pybi_root.join(pybi_metadata.path("purelib")?.to_native());
 
         Ok(Env {
             platform_core_tag: pybi_platform.core_tag().into(),
@@ -320,6 +322,7 @@ impl EnvForest {
             pythonw,
             bin_dirs,
             lib_dirs,
+            python_lib_dir,
         })
     }
 }
@@ -333,6 +336,7 @@ pub struct Env {
     pub pythonw: PathBuf,
     pub bin_dirs: Vec<PathBuf>,
     pub lib_dirs: Vec<PathBuf>,
+    pub python_lib_dir: PathBuf,
 }
 
 impl Env {
@@ -349,10 +353,14 @@ impl Env {
         vars.push(("PATH", new_path));
         vars.push(("POSY_PYTHON", self.python.clone().into_os_string()));
         vars.push(("POSY_PYTHONW", self.pythonw.clone().into_os_string()));
-        vars.push((
-            "POSY_PYTHON_PACKAGES",
-            std::env::join_paths(&self.lib_dirs)?,
-        ));
+        // Our sitecustomize.py would take an empty string for the current directory. So if
+        // there are no packages, name a directory that's on sys.path in any case.
+        let packages = if self.lib_dirs.is_empty() {
+            std::slice::from_ref(&self.python_lib_dir)
+        } else {
+            self.lib_dirs.as_slice()
+        };
+        vars.push(("POSY_PYTHON_PACKAGES", std::env::join_paths(packages)?));
 
         Ok(vars)
     }
-- 
2.43.0


From 24892cae19e7a4e445604cb67b63c7d037e208c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 59/63] fix: refuse absurdly deep environment markers instead
 of overflowing the stack

---
 src/vocab/reqparse.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/vocab/reqparse.rs b/src/vocab/reqparse.rs
index 51fff7e..07eba1d 100644
--- a/src/vocab/reqparse.rs
+++ b/src/vocab/reqparse.rs
@@ -3,6 +3,11 @@ use crate::prelude::*;
 pub use self::parser::{marker, requirement, versionspec};
 use super::requirement::ParseExtra;
 
+// The parser is recursive, and so is everything that later handles the expressions it
+// makes. This is far more than any real requirement has, and far less than it takes to
+// overflow the stack.
+const MAX_MARKER_DEPTH: usize = 100;
+
 peg::parser! {
     grammar parser() for str {
         rule wsp()
@@ -109,8 +114,17 @@ peg::parser! {
                    / python_str())
               { v }
 
-        rule marker_expr(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = _ "(" m:marker(parse_extra) _ ")" { m }
+        rule marker_depth_ok(depth: usize)
+            = {?
+                if depth > MAX_MARKER_DEPTH {
+                    Err("a less complex marker expression")
+                } else {
+                    Ok(())
+                }
+              }
+
+        rule marker_expr(parse_extra: ParseExtra, depth: usize) -> marker::EnvMarkerExpr
+            = _ "(" m:marker_or(parse_extra, depth + 1) _ ")" { m }
               / lhs:marker_value(parse_extra) op:marker_op() rhs:marker_value(parse_extra)
               {
                   use marker::EnvMarkerExpr::Operator;
@@ -130,8 +144,9 @@ peg::parser! {
                   }
               }
 
-        rule marker_and(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_expr(parse_extra) rhs:(_ "and" _ rhs:marker_and(parse_extra) { rhs })?
+        rule marker_and(parse_extra: ParseExtra, depth: usize) -> marker::EnvMarkerExpr
+            = marker_depth_ok(depth) lhs:marker_expr(parse_extra, depth)
+              rhs:(_ "and" _ rhs:marker_and(parse_extra, depth + 1) { rhs })?
                  {
                      match rhs {
                          Some(rhs) => marker::EnvMarkerExpr::And(Box::new(lhs), Box::new(rhs)),
@@ -139,8 +154,9 @@ peg::parser! {
                      }
                  }
 
-        rule marker_or(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_and(parse_extra) rhs:(_ "or" _ rhs:marker_or(parse_extra) { rhs })?
+        rule marker_or(parse_extra: ParseExtra, depth: usize) -> marker::EnvMarkerExpr
+            = marker_depth_ok(depth) lhs:marker_and(parse_extra, depth)
+              rhs:(_ "or" _ rhs:marker_or(parse_extra, depth + 1) { rhs })?
                  {
                      match rhs {
                          Some(rhs) => marker::EnvMarkerExpr::Or(Box::new(lhs), Box::new(rhs)),
@@ -149,7 +165,7 @@ peg::parser! {
                  }
 
         pub rule marker(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = marker_or(parse_extra)
+            = marker_or(parse_extra, 0)
 
         rule quoted_marker(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
             = ";" _ m:marker(parse_extra) { m }
-- 
2.43.0


From 5cf570ab013097df818933434ec77f1f1c02c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 60/63] fix: refuse overlong binary file names, whose tags take
 too much memory

---
 src/vocab/artifact_name.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vocab/artifact_name.rs b/src/vocab/artifact_name.rs
index b4bfa15..ef00808 100644
--- a/src/vocab/artifact_name.rs
+++ b/src/vocab/artifact_name.rs
@@ -119,6 +119,10 @@ impl BinaryName for PybiName {
     }
 }
 
+// No file system that we might put these on allows longer names. And it keeps the number
+// of tags reasonable, which matters because we multiply them out.
+const MAX_NAME_LEN: usize = 255;
+
 fn generic_parse(
     value: &str,
     suffix: &str,
@@ -136,6 +140,9 @@ fn generic_parse(
     if !VALID_CHARS.is_match(value) {
         bail!("Invalid characters in {} name: {:?}", suffix, value);
     }
+    if value.len() > MAX_NAME_LEN {
+        bail!("{} name is too long: {:?}", suffix, value);
+    }
     let stem = value
         .strip_suffix(suffix)
         .ok_or_else(|| eyre!("expected {:?} to end in .{}", value, suffix))?;
-- 
2.43.0


From bef821fe4c6e90473212a7d368381a5ae39c6e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 61/63] fix: accept a whole file as the answer to a range
 request

---
 src/package_db/http/lazy_remote_file.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/package_db/http/lazy_remote_file.rs b/src/package_db/http/lazy_remote_file.rs
index 99bb07f..c3b54b2 100644
--- a/src/package_db/http/lazy_remote_file.rs
+++ b/src/package_db/http/lazy_remote_file.rs
@@ -165,8 +165,16 @@ impl LazyRemoteFile {
                 self.loaded.insert(offset, data);
                 Ok(())
             }
-            RangeResponse::Complete(_) => {
-                bail!("server abruptly stopped understanding range requests?!?")
+            RangeResponse::Complete(data) => {
+                // Servers are free to ignore Range:, and some do if it happens to cover
+                // the whole file.
+                let mut data = data.take(self.length.saturating_add(1));
+                let data = slurp(&mut data)?;
+                if data.len() as u64 != self.length {
+                    bail!("server sent the wrong amount of data for the whole file");
+                }
+                self.loaded = BTreeMap::from([(0, data)]);
+                Ok(())
             }
         }
     }
-- 
2.43.0


From e2d33bf377e9f51773dd6bcec7fa9add96c4e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 62/63] fix: an index's redirect to nowhere, or other odd
 answer, was taken for an empty page

---
 src/package_db/simple_api/fetch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/package_db/simple_api/fetch.rs b/src/package_db/simple_api/fetch.rs
index 729229b..8659e9f 100644
--- a/src/package_db/simple_api/fetch.rs
+++ b/src/package_db/simple_api/fetch.rs
@@ -23,7 +23,7 @@ pub fn fetch_simple_api(http: &Http, url: &Url) -> Result<Option<ProjectInfo>> {
     if response.status().as_u16() == 404 {
         return Ok(None);
     }
-    if response.status().as_u16() >= 400 {
+    if !response.status().is_success() {
         bail!("error fetching {url}: {}", response.status().as_str());
     }
     let url = response.extensions().get::<Url>().unwrap().to_owned();
-- 
2.43.0


From c28ae20022ea6f0fc502799b53a2eed9e6265b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 63/63] fix: a build number of more than 32 bits was dropped,
 and with it the wheel's build tag

---
 src/vocab/artifact_name.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vocab/artifact_name.rs b/src/vocab/artifact_name.rs
index ef00808..6304bd5 100644
--- a/src/vocab/artifact_name.rs
+++ b/src/vocab/artifact_name.rs
@@ -162,9 +162,14 @@ fn generic_parse(
         // unwrap safe because: the regex cannot fail
         let captures = BUILD_TAG_SPLIT.captures(build_tag).unwrap();
         build_number = captures.get(1).and_then(|m| m.as_str().parse().ok());
-        // unwrap safe because: this group will always match something, even
-        // if only the empty string
-        build_name = captures.get(2).unwrap().as_str().into();
+        build_name = if build_number.is_some() {
+            // unwrap safe because: this group will always match something, even
+            // if only the empty string
+            captures.get(2).unwrap().as_str().into()
+        } else {
+            // no digits, or too many of them to be a number
+            build_tag.into()
+        };
     } else {
         build_number = None;
         build_name = "".to_owned();
-- 
2.43.0

