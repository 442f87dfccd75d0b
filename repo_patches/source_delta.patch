From 14ce66cc2694bcc632031d00a013da5f9f198a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 01/24] verification hook: patch file names, behind
 cfg(artefacta_verif)

---
 src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ff2c321..5b1b43b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -30,6 +30,23 @@ pub mod cli;
 #[cfg(test)]
 pub(crate) mod test_helpers;
 
+/// Access for the verification harness, absent from normal builds
+#[cfg(artefacta_verif)]
+pub mod verif {
+    use crate::index::{Patch, Version};
+
+    /// Name of the file that holds the patch between two builds
+    pub fn patch_file_name(from: Version, to: Version) -> String {
+        Patch::new(from, to).file_name()
+    }
+
+    /// Builds that a patch file name stands for
+    pub fn patch_versions(path: &str) -> Option<(Version, Version)> {
+        let patch = Patch::from_path(path).ok()?;
+        Some((patch.from, patch.to))
+    }
+}
+
 pub async fn sync(index: &ArtefactIndex) -> Result<()> {
     index.push().await.context("sync new local files to remote")
 }
-- 
2.43.0


From 78ff0cfd7c0566fb73c43424d3d826ab1e320986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 02/24] fix: versions ending in .tar or .patch lose their
 ending in file names

---
 src/paths.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index 71c7fc0..344c74d 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -18,10 +18,12 @@ pub fn file_name(path: impl AsRef<Path>) -> Result<String> {
         .with_context(|| format!("no file stem for `{:?}`", path))?;
     let name = path_as_string(file_name)?;
 
-    // get rid of pesky .tar suffixes
-    let name = name.trim_end_matches(".tar");
-    // get rid of pesky .patch suffixes
-    let name = name.trim_end_matches(".patch");
+    // get rid of one pesky .tar or .patch suffix; whatever comes before is part
+    // of the version's name, even if it looks like a suffix as well
+    let name = name
+        .strip_suffix(".tar")
+        .or_else(|| name.strip_suffix(".patch"))
+        .unwrap_or(&name);
 
     Ok(name.to_string())
 }
-- 
2.43.0


From 8785b446cf811d4140f8f907bf8b303fd877bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 03/24] fix: versions with path separators or NUL name files
 outside the store

---
 src/index/version.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/index/version.rs b/src/index/version.rs
index 28fdae8..c3f1eed 100644
--- a/src/index/version.rs
+++ b/src/index/version.rs
@@ -28,6 +28,7 @@ impl fmt::Display for Version {
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum InvalidVersion {
     ThreeDashes,
+    PathSeparator,
 }
 
 impl StdError for InvalidVersion {}
@@ -39,6 +40,10 @@ impl fmt::Display for InvalidVersion {
                 f,
                 "Invalid version format: `---` must not appear in version"
             ),
+            InvalidVersion::PathSeparator => write!(
+                f,
+                "Invalid version format: path separators and NUL must not appear in version"
+            ),
         }
     }
 }
@@ -50,6 +55,10 @@ impl FromStr for Version {
         if s.contains("---") {
             return Err(InvalidVersion::ThreeDashes);
         }
+        // The version becomes part of file names in the stores.
+        if s.contains(|c| c == '\0' || std::path::is_separator(c)) {
+            return Err(InvalidVersion::PathSeparator);
+        }
         Ok(Version { data: s.into() })
     }
 }
-- 
2.43.0


From 743261d77931ee83745eac7e43daf04b8fd8fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:25 +0000
Subject: [PATCH 04/24] fix: versions starting or ending with a dash make patch
 file names ambiguous

---
 src/index/version.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/index/version.rs b/src/index/version.rs
index c3f1eed..6901b8d 100644
--- a/src/index/version.rs
+++ b/src/index/version.rs
@@ -29,6 +29,7 @@ impl fmt::Display for Version {
 pub enum InvalidVersion {
     ThreeDashes,
     PathSeparator,
+    DashAtEnd,
 }
 
 impl StdError for InvalidVersion {}
@@ -44,6 +45,10 @@ impl fmt::Display for InvalidVersion {
                 f,
                 "Invalid version format: path separators and NUL must not appear in version"
             ),
+            InvalidVersion::DashAtEnd => write!(
+                f,
+                "Invalid version format: version must not start or end with `-`"
+            ),
         }
     }
 }
@@ -59,6 +64,10 @@ impl FromStr for Version {
         if s.contains(|c| c == '\0' || std::path::is_separator(c)) {
             return Err(InvalidVersion::PathSeparator);
         }
+        // In `a----b.patch` the versions could not be told apart.
+        if s.starts_with('-') || s.ends_with('-') {
+            return Err(InvalidVersion::DashAtEnd);
+        }
         Ok(Version { data: s.into() })
     }
 }
-- 
2.43.0


From ba25ff26b84cdda04d361361c2ecafd453cdd459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 05/24] fix: the build for a tag is picked at random if several
 match

---
 src/index.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index 645752d..bc0c9de 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -372,7 +372,9 @@ impl Index {
         self.patch_graph
             .builds
             .keys()
-            .find(|build| crate::git::tag_to_slice(build.as_str()) == parsed_tag)
+            .filter(|build| crate::git::tag_to_slice(build.as_str()) == parsed_tag)
+            // prefer the exact name; the map's order is random
+            .min_by_key(|build| (build.as_str() != tag, *build))
             .cloned()
             .with_context(|| format!("no build found matching tag `{}`", tag))
     }
-- 
2.43.0


From 4d2ca665ad5aa88db91425aa28583ff4aee96c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 06/24] fix: S3 locations without bucket or endpoint are
 accepted, ports dropped

---
 src/storage/s3.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/storage/s3.rs b/src/storage/s3.rs
index de24a1d..99a46b3 100644
--- a/src/storage/s3.rs
+++ b/src/storage/s3.rs
@@ -41,6 +41,19 @@ impl<'a> TryFrom<&'a Url> for Bucket {
             host_parts.next().context("read bucket name")?.to_owned(),
             host_parts.next().context("read endpoint")?.to_owned(),
         );
+        ensure!(!bucket.is_empty(), "S3 URI needs to contain a bucket name");
+        ensure!(!endpoint.is_empty(), "S3 URI needs to contain an endpoint");
+        ensure!(
+            url.username().is_empty()
+                && url.password().is_none()
+                && url.query().is_none()
+                && url.fragment().is_none(),
+            "S3 URI must consist of bucket, endpoint and path only"
+        );
+        let endpoint = match url.port() {
+            Some(port) => format!("{}:{}", endpoint, port),
+            None => endpoint,
+        };
 
         let path = url.path().to_owned();
 
-- 
2.43.0


From 1be36bc42d7c665977c0faf5179a4681dca98e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:06 +0000
Subject: [PATCH 07/24] fix: tags are not in natural order if a letter follows
 a number, and long numbers overflow

---
 src/git.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/git.rs b/src/git.rs
index 2a93967..ee59c0b 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -1,5 +1,6 @@
 use erreur::{Context, Result};
 use smol_str::SmolStr;
+use std::cmp::Ordering;
 
 #[derive(Debug, Clone)]
 pub struct Tag {
@@ -36,6 +37,37 @@ pub fn tag_to_slice(tag: &str) -> Vec<SmolStr> {
         .collect()
 }
 
+/// Compares numbers in the tags by their value, of any length, and all else by character
+fn natural_order(a: &str, b: &str) -> Ordering {
+    fn number(s: &str) -> (&str, &str) {
+        let end = s
+            .find(|c: char| !c.is_ascii_digit())
+            .unwrap_or_else(|| s.len());
+        s.split_at(end)
+    }
+
+    let (mut rest_a, mut rest_b) = (a, b);
+    while let (Some(x), Some(y)) = (rest_a.chars().next(), rest_b.chars().next()) {
+        let order = if x.is_ascii_digit() && y.is_ascii_digit() {
+            let (num_a, next_a) = number(rest_a);
+            let (num_b, next_b) = number(rest_b);
+            rest_a = next_a;
+            rest_b = next_b;
+            let num_a = num_a.trim_start_matches('0');
+            let num_b = num_b.trim_start_matches('0');
+            num_a.len().cmp(&num_b.len()).then(num_a.cmp(num_b))
+        } else {
+            rest_a = &rest_a[x.len_utf8()..];
+            rest_b = &rest_b[y.len_utf8()..];
+            x.cmp(&y)
+        };
+        if order != Ordering::Equal {
+            return order;
+        }
+    }
+    rest_a.len().cmp(&rest_b.len()).then(a.cmp(b))
+}
+
 /// assume versions are in format `….c.b.a` (or `…-c-b-a`)
 pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>> {
     fn dec(x: &SmolStr) -> Option<SmolStr> {
@@ -46,7 +78,7 @@ pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>>
 
     let tags = {
         let mut tags = tags.to_vec();
-        tags.sort_by(|a, b| human_sort::compare(a, b));
+        tags.sort_by(|a, b| natural_order(a, b));
         tags
     };
     let parsed_tags = tags.iter().map(|tag| tag_to_slice(tag)).collect::<Vec<_>>();
-- 
2.43.0


From 95f7464036563fe4e78ac3b19f857f6b4f4fa805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 08/24] fix: dangling links, directories and odd files in a
 store break every command

---
 src/storage/mod.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 9cd5d80..d83ea40 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -4,7 +4,7 @@ pub use std::{
     convert::{TryFrom, TryInto},
     fmt,
     fs::{self, read_dir},
-    io::{BufWriter, Write},
+    io::{BufWriter, ErrorKind, Write},
     path::{Path, PathBuf},
     str::FromStr,
     sync::Arc,
@@ -138,19 +138,32 @@ impl Storage {
                 .with_context(|| format!("could not read directory `{}`", path.display()))?
                 .map(|entry| -> Result<_> {
                     let entry = entry.context("could not read file entry")?;
+                    if entry.file_name().to_str().is_none() {
+                        log::debug!("ignoring `{:?}`, not valid UTF-8", entry.path());
+                        return Ok(None);
+                    }
                     let path = entry.path();
-                    let path = path.canonicalize().with_context(|| {
-                        format!("cannot canonicalize path `{}`", path.display())
-                    })?;
-                    let metadata = entry.metadata().with_context(|| {
-                        format!("could not read metadata of `{}`", path.display())
-                    })?;
-
-                    Ok((metadata, path_as_string(path)?))
+                    // does not follow links, which might well be dangling
+                    let metadata = match entry.metadata() {
+                        // temporary files of other processes come and go
+                        Err(e) if e.kind() == ErrorKind::NotFound => return Ok(None),
+                        metadata => metadata.with_context(|| {
+                            format!("could not read metadata of `{}`", path.display())
+                        })?,
+                    };
+                    if !metadata.is_file() {
+                        return Ok(None);
+                    }
+                    let path = match path.canonicalize() {
+                        Err(e) if e.kind() == ErrorKind::NotFound => return Ok(None),
+                        path => path.context("cannot canonicalize path of file entry")?,
+                    };
+
+                    Ok(Some((metadata, path_as_string(path)?)))
                 })
                 .collect::<Result<Vec<_>>>()?
                 .into_iter()
-                .filter(|(metadata, _)| !metadata.file_type().is_symlink())
+                .flatten()
                 .map(|(metadata, path)| Entry {
                     storage: self.clone(),
                     path,
-- 
2.43.0


From 45c4f9dcdd7880b155e8a1a5b72a22e56fd0ee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 09/24] fix: files that are not named like builds or patches
 break every command

---
 src/index/graph.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 555877a..2ed12a4 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -47,7 +47,14 @@ impl PatchGraph {
             if entry.path.ends_with('/') {
                 continue;
             }
-            let version = paths::build_version_from_path(&entry.path)?;
+            let version = match paths::build_version_from_path(&entry.path) {
+                Ok(version) => version,
+                e => {
+                    log::warn!("`{}` is not the name of a build. ignoring.", entry.path);
+                    e.log_and_discard();
+                    continue;
+                }
+            };
             self.add_build(&version, entry.clone(), location)
                 .with_context(|| format!("add build `{}`", entry.path))?;
         }
@@ -57,7 +64,14 @@ impl PatchGraph {
             if entry.path.ends_with('/') {
                 continue;
             }
-            let Patch { from, to, .. } = Patch::from_path(&entry.path)?;
+            let Patch { from, to, .. } = match Patch::from_path(&entry.path) {
+                Ok(patch) => patch,
+                e => {
+                    log::warn!("`{}` is not the name of a patch. ignoring.", entry.path);
+                    e.log_and_discard();
+                    continue;
+                }
+            };
             match self.add_patch(&from, &to, entry.clone(), location) {
                 Ok(_) => log::debug!("added patch `{}`", entry.path),
                 e => {
-- 
2.43.0


From f35b7c20e79d21c3015535b9ae6127b40d73e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:39 +0000
Subject: [PATCH 10/24] fix: patches in the remote store are ignored if a build
 is only in the local store

---
 src/index.rs       | 16 ++++++++--------
 src/index/graph.rs | 23 +++++++++++++++++------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index bc0c9de..e55c63b 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -40,18 +40,18 @@ impl Index {
             .context("invalid local storage path")
             .note("`mkdir -pv` is your friend")?;
         let mut patch_graph = PatchGraph::empty();
+        let remote_files = remote.list_files().await.context("list files")?;
+        let local_files = local.list_files().await.context("list files")?;
+        // a patch in one store can be between builds in the other
         patch_graph
-            .update_from_file_list(
-                &remote.list_files().await.context("list files")?,
-                Location::Remote,
-            )
+            .add_builds_from_file_list(&remote_files, Location::Remote)
             .with_context(|| format!("build patch graph from `{:?}`", remote))?;
         patch_graph
-            .update_from_file_list(
-                &local.list_files().await.context("list files")?,
-                Location::Local,
-            )
+            .update_from_file_list(&local_files, Location::Local)
             .with_context(|| format!("build patch graph from `{:?}`", local))?;
+        patch_graph
+            .update_from_file_list(&remote_files, Location::Remote)
+            .with_context(|| format!("build patch graph from `{:?}`", remote))?;
 
         Ok(Index {
             local,
diff --git a/src/index/graph.rs b/src/index/graph.rs
index 2ed12a4..034caba 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -30,17 +30,16 @@ impl PatchGraph {
         Self::default()
     }
 
-    pub fn update_from_file_list(&mut self, list: &[Entry], location: Location) -> Result<()> {
+    pub(crate) fn add_builds_from_file_list(
+        &mut self,
+        list: &[Entry],
+        location: Location,
+    ) -> Result<()> {
         let builds: Vec<_> = list
             .iter()
             .filter(|entry| entry.path.ends_with(".tar.zst"))
             .filter(|entry| entry.size > 0)
             .collect();
-        let patches: Vec<_> = list
-            .iter()
-            .filter(|entry| entry.path.ends_with(".patch.zst"))
-            .filter(|entry| entry.size > 0)
-            .collect();
 
         log::trace!("Builds: {:?}", builds);
         for entry in builds {
@@ -59,6 +58,18 @@ impl PatchGraph {
                 .with_context(|| format!("add build `{}`", entry.path))?;
         }
 
+        Ok(())
+    }
+
+    pub fn update_from_file_list(&mut self, list: &[Entry], location: Location) -> Result<()> {
+        self.add_builds_from_file_list(list, location)?;
+
+        let patches: Vec<_> = list
+            .iter()
+            .filter(|entry| entry.path.ends_with(".patch.zst"))
+            .filter(|entry| entry.size > 0)
+            .collect();
+
         log::trace!("Patches: {:?}", patches);
         for entry in patches {
             if entry.path.ends_with('/') {
-- 
2.43.0


From d32e717a6e6831b63d015892376496954ae583d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 11/24] fix: empty files, links and directories in the local
 store are used as artefacts

---
 src/index.rs       |  5 ++++-
 src/storage/mod.rs | 14 ++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index e55c63b..6781d47 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -178,7 +178,10 @@ impl Index {
         let file = self.local.get_file(path).await.context("fetch local file");
 
         match file {
-            Ok(FileEntry::InFilesystem(local)) => Ok(local),
+            Ok(FileEntry::InFilesystem(local)) => {
+                ensure!(local.size > 0, "local file `{}` is empty", local.path);
+                Ok(local)
+            }
             Ok(_) => unreachable!("local storage always returns local files"),
             Err(e) => Err(e).context("get local build"),
         }
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index d83ea40..207fe1d 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -211,10 +211,16 @@ impl Storage {
             InnerStorage::Filesystem(root) => {
                 let path = root.join(path);
                 ensure!(path.exists(), "Path `{}` does not exist", path.display());
-                let size = path
-                    .metadata()
-                    .with_context(|| format!("read metadata of `{}`", path.display()))?
-                    .len();
+                // as when listing files, links and directories do not count
+                let metadata = path
+                    .symlink_metadata()
+                    .with_context(|| format!("read metadata of `{}`", path.display()))?;
+                ensure!(
+                    metadata.is_file(),
+                    "Path `{}` is not a regular file",
+                    path.display()
+                );
+                let size = metadata.len();
 
                 Ok(File::InFilesystem(Entry {
                     storage: self.clone(),
-- 
2.43.0


From 344d52473f91b1eb37a5b25aa98fc23fde663310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 12/24] fix: files are copied into a store under their final
 name

---
 src/partial_file.rs | 12 ++++++++++++
 src/storage/mod.rs  | 16 ++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index dd30cc2..50b762e 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -38,6 +38,18 @@ impl PartialFile {
         })
     }
 
+    pub fn set_permissions(&self, permissions: fs::Permissions) -> Result<()> {
+        self.partial_file
+            .get_ref()
+            .set_permissions(permissions)
+            .with_context(|| {
+                format!(
+                    "cannot set permissions of partial file `{}`",
+                    self.partial_path.display()
+                )
+            })
+    }
+
     pub fn finish(mut self) -> Result<File> {
         self.partial_file.flush().with_context(|| {
             format!(
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 207fe1d..87320d1 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -4,7 +4,7 @@ pub use std::{
     convert::{TryFrom, TryInto},
     fmt,
     fs::{self, read_dir},
-    io::{BufWriter, ErrorKind, Write},
+    io::{self, BufWriter, ErrorKind, Write},
     path::{Path, PathBuf},
     str::FromStr,
     sync::Arc,
@@ -321,9 +321,21 @@ impl Storage {
 
                 match file {
                     File::InFilesystem(entry) => {
-                        fs::copy(&entry.path, &new_path).with_context(|| {
+                        let mut source = fs::File::open(&entry.path)
+                            .with_context(|| format!("open `{}`", entry.path))?;
+                        let permissions = source
+                            .metadata()
+                            .with_context(|| format!("read metadata of `{}`", entry.path))?
+                            .permissions();
+                        let mut new_file = PartialFile::create(&new_path)
+                            .with_context(|| format!("create `{}`", new_path.display()))?;
+                        io::copy(&mut source, &mut new_file).with_context(|| {
                             format!("copy `{}` to `{}`", entry.path, new_path.display())
                         })?;
+                        new_file
+                            .set_permissions(permissions)
+                            .context("set permissions of new file")?;
+                        new_file.finish().context("finish writing to new file")?;
                     }
                     File::Inline(_, content) => {
                         let mut new_file = PartialFile::create(&new_path)
-- 
2.43.0


From 25e819e91401a5c4a6d6644e7e100df5eff73385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 13/24] fix: adding an empty build replaces the build that was
 there

---
 src/index.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 6781d47..14ad33f 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -414,6 +414,16 @@ impl Index {
         let version: Version = file_name.parse()?;
         let new_path = local.join(format!("{}.tar.zst", version.as_str()));
 
+        let size = match file {
+            FileEntry::InFilesystem(entry) => entry.size,
+            FileEntry::Inline(_, content) => content.len() as u64,
+        };
+        ensure!(
+            size > 0,
+            "Asked to add `{}` but it's empty (size 0). That's not gonna be useful.",
+            path.display()
+        );
+
         self.local
             .add_file(file, &new_path)
             .await
@@ -422,12 +432,6 @@ impl Index {
         let entry = Entry::from_path(&new_path, self.local.clone())
             .context("create entry for new build file")?;
 
-        ensure!(
-            entry.size > 0,
-            "Just added `{}` but it's empty (size 0). That's not gonna be useful.",
-            entry.path
-        );
-
         self.patch_graph
             .add_build(&version, entry.clone(), Location::Local)
             .with_context(|| format!("add build `{}`", path.display()))?;
-- 
2.43.0


From ea607c1a3f2c0c14ebae30ae254aea06b1f0d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:43 +0000
Subject: [PATCH 14/24] fix: patches of an upgrade are applied in the order of
 their names

---
 src/index/graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 034caba..66dbb0a 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -219,7 +219,7 @@ impl PatchGraph {
             |_| 0,
         )
         .with_context(|| format!("no A& solution for patch from `{:?}` to `{:?}`", from, to))?;
-        let mut path: Vec<_> = steps
+        let path: Vec<_> = steps
             .windows(2)
             .map(|x| {
                 let from = self.graph[x[0]].version.clone();
@@ -227,7 +227,6 @@ impl PatchGraph {
                 Patch::new(from, to)
             })
             .collect();
-        path.sort();
 
         Ok((cost, path))
     }
-- 
2.43.0


From 9ef180b2631d3d14f63e6a22c7d03fd5781ba103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 15/24] fix: an upgrade fetches patches for builds that are
 there and replaces them

---
 src/index.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index 14ad33f..6102507 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -238,9 +238,13 @@ impl Index {
         {
             UpgradePath::ApplyPatches(patches) => {
                 log::debug!("found upgrade path via patches: {:?}", patches);
+                let already_there = patches
+                    .iter()
+                    .rposition(|patch| self.patch_graph.has_local_build(patch.to.clone()))
+                    .map_or(0, |last| last + 1);
                 let needed_patches = patches
                     .into_iter()
-                    .skip_while(|patch| self.patch_graph.has_local_build(patch.to.clone()))
+                    .skip(already_there)
                     .collect::<Vec<Patch>>();
                 log::debug!(
                     "using already existing local builds, we need to fetch: {:?}",
-- 
2.43.0


From 8adb7a15b3d7ec72a1ad40fc1a395a5a4ebef397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:45 +0000
Subject: [PATCH 16/24] fix: install fails or does nothing if the installed
 build is gone

---
 src/index.rs |  5 +++++
 src/lib.rs   | 28 +++++++++++++++++++++-------
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 6102507..8eb734c 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -327,6 +327,11 @@ impl Index {
         Ok(entry)
     }
 
+    /// Is this build known, be it locally or remotely?
+    pub fn has_build(&self, version: &Version) -> bool {
+        self.patch_graph.has_build(version.clone())
+    }
+
     /// Get build (adds to local cache if not present)
     pub async fn get_build(&mut self, version: Version) -> Result<Entry> {
         ensure!(
diff --git a/src/lib.rs b/src/lib.rs
index 5b1b43b..04dd29b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -66,14 +66,28 @@ pub async fn install(
             );
 
             if current_version == target_version {
-                log::info!("version `{}` already installed", target_version);
-                return Ok(());
+                let build = index
+                    .get_build(target_version.clone())
+                    .await
+                    .context("get build")?;
+                let installed = current.canonicalize().ok();
+                if installed.is_some() && installed == Path::new(&build.path).canonicalize().ok() {
+                    log::info!("version `{}` already installed", target_version);
+                    return Ok(());
+                }
+                build
+            } else if index.has_build(&current_version) {
+                index
+                    .upgrade_to_build(current_version, target_version.clone())
+                    .await
+                    .context("get build")?
+            } else {
+                log::debug!("installed build `{}` is gone", current_version);
+                index
+                    .get_build(target_version.clone())
+                    .await
+                    .context("get build")?
             }
-
-            index
-                .upgrade_to_build(current_version, target_version.clone())
-                .await
-                .context("get build")?
         }
         Err(e) => {
             log::debug!("could not read `current` symlink: {}", e);
-- 
2.43.0


From dd3c28d9a4355df7758584d4944f0543f0edc061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:45 +0000
Subject: [PATCH 17/24] fix: `current` is missing for a moment while a build is
 installed

---
 src/lib.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04dd29b..5138fca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,4 @@
-use std::{convert::TryFrom, fs, path::Path};
+use std::{convert::TryFrom, fs, path::Path, process};
 
 use cli::AddBuild;
 use erreur::{ensure, Context, Help, Result};
@@ -103,17 +103,27 @@ pub async fn install(
     #[cfg(windows)]
     use std::os::windows::fs::symlink_file as symlink;
 
-    if current.exists() {
-        fs::remove_file(&current).context("clear old `current` symlink")?;
+    // Replace `current` in one step, so that it is there at any time
+    let new_link = current.with_file_name(format!("._artefacta-temp-current-{}", process::id()));
+    if new_link.symlink_metadata().is_ok() {
+        fs::remove_file(&new_link).context("clear left over symlink")?;
     }
-
-    symlink(&target_build.path, &current).with_context(|| {
+    symlink(&target_build.path, &new_link).with_context(|| {
         format!(
             "create symlink pointing at new build: {} to {}",
             target_build.path,
-            current.display()
+            new_link.display()
         )
     })?;
+    if let Err(e) = fs::rename(&new_link, &current) {
+        let _ = fs::remove_file(&new_link);
+        return Err(e).with_context(|| {
+            format!(
+                "replace `{}` with symlink pointing at new build",
+                current.display()
+            )
+        });
+    }
     log::info!(
         "successfully installed `{}` as `{}`",
         target_version,
-- 
2.43.0


From daa03cc5698bbcb58b4ee50e0f4ab184588b4479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:46 +0000
Subject: [PATCH 18/24] fix: processes working on one store write to the same
 temporary file

---
 src/partial_file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index 50b762e..121baba 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -4,6 +4,7 @@ use std::{
     fs::{self, File},
     io::{BufWriter, Write},
     path::{Path, PathBuf},
+    process,
     time::SystemTime,
 };
 
@@ -118,7 +119,8 @@ fn generate_partial_file_name(path: &Path) -> Result<PathBuf> {
         let timestamp = SystemTime::now()
             .duration_since(SystemTime::UNIX_EPOCH)
             .context("cannot get timestamp")?;
-        format!("artefacta-temp-{}", timestamp.as_secs())
+        // other processes might write to the same target at the same time
+        format!("artefacta-temp-{}-{}", timestamp.as_secs(), process::id())
     };
     let new_file_name = {
         let mut res = OsString::from("._");
-- 
2.43.0


From 534840c7e4850886a1598dfc85621de17e20d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:46 +0000
Subject: [PATCH 19/24] fix: truncated patches give truncated builds

---
 src/apply_patch.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/apply_patch.rs b/src/apply_patch.rs
index 8571aed..b4e4eb3 100644
--- a/src/apply_patch.rs
+++ b/src/apply_patch.rs
@@ -4,7 +4,6 @@ use std::{
     io::{BufReader, Cursor, Read},
     path::Path,
 };
-use zstd::stream::read::Decoder as ZstdDecoder;
 
 pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result<impl Read> {
     let archive = archive.as_ref();
@@ -12,7 +11,8 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
 
     let patch_file =
         File::open(patch).with_context(|| format!("open file `{}`", patch.display()))?;
-    let patch_decompressed = ZstdDecoder::new(patch_file)
+    // All of it at once: to bipatch, a truncated stream is just a shorter patch
+    let patch_decompressed = zstd::stream::decode_all(patch_file)
         .with_context(|| format!("read zstd compressed file `{}`", patch.display()))?;
 
     let archive_file =
@@ -20,7 +20,7 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
     let archive_decompressed = zstd::stream::decode_all(BufReader::new(archive_file))
         .with_context(|| format!("read zstd compressed file `{}`", archive.display()))?;
 
-    bipatch::Reader::new(patch_decompressed, Cursor::new(archive_decompressed))
+    bipatch::Reader::new(Cursor::new(patch_decompressed), Cursor::new(archive_decompressed))
         .context("read patch")
 }
 
-- 
2.43.0


From 91266e2d5b00a1cf6031e4f9a0e0220c571bcf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:13 +0000
Subject: [PATCH 20/24] fix: only the first page of an S3 location is listed

---
 src/storage/mod.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 87320d1..b5ea75f 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -175,20 +175,30 @@ impl Storage {
 
                 let client: S3Client = bucket.try_into().context("build S3 client")?;
 
-                let res = client
-                    .list_objects_v2(ListObjectsV2Request {
-                        bucket: bucket.bucket.to_owned(),
-                        prefix: Some(bucket.path.trim_start_matches('/').to_string()),
-                        ..Default::default()
-                    })
-                    .await
-                    .context("list files in bucket")?;
-                if res.is_truncated.unwrap_or_default() {
-                    log::debug!("didn't get all the files -- pagination not implemented!");
+                let mut objects = Vec::new();
+                let mut continuation_token = None;
+                loop {
+                    let res = client
+                        .list_objects_v2(ListObjectsV2Request {
+                            bucket: bucket.bucket.to_owned(),
+                            prefix: Some(bucket.path.trim_start_matches('/').to_string()),
+                            continuation_token,
+                            ..Default::default()
+                        })
+                        .await
+                        .context("list files in bucket")?;
+                    objects.extend(res.contents.unwrap_or_default());
+
+                    if !res.is_truncated.unwrap_or_default() {
+                        break;
+                    }
+                    continuation_token = Some(
+                        res.next_continuation_token
+                            .context("got an incomplete file list that can't be continued")?,
+                    );
                 }
 
-                res.contents
-                    .unwrap_or_default()
+                objects
                     .iter()
                     .map(|obj| {
                         Ok(Entry {
-- 
2.43.0


From 57e8c9d76d25109971dcc7d37ee1919ebd03eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 21/24] fix: objects of other S3 locations are taken for builds
 and patches

---
 src/storage/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index b5ea75f..0983b8f 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -175,13 +175,14 @@ impl Storage {
 
                 let client: S3Client = bucket.try_into().context("build S3 client")?;
 
+                let prefix = bucket.key_for("");
                 let mut objects = Vec::new();
                 let mut continuation_token = None;
                 loop {
                     let res = client
                         .list_objects_v2(ListObjectsV2Request {
                             bucket: bucket.bucket.to_owned(),
-                            prefix: Some(bucket.path.trim_start_matches('/').to_string()),
+                            prefix: Some(prefix.clone()),
                             continuation_token,
                             ..Default::default()
                         })
@@ -200,6 +201,13 @@ impl Storage {
 
                 objects
                     .iter()
+                    .filter(|obj| match obj.key.as_ref() {
+                        // what lies deeper belongs to another location
+                        Some(key) => key
+                            .strip_prefix(&prefix)
+                            .map_or(false, |name| !name.contains('/')),
+                        None => true,
+                    })
                     .map(|obj| {
                         Ok(Entry {
                             storage: self.clone(),
-- 
2.43.0


From d100f33a4c6a146d27e901449a98fac92d49580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:45 +0000
Subject: [PATCH 22/24] Revert "verification hook: patch file names, behind
 cfg(artefacta_verif)"

This reverts commit 14ce66cc2694bcc632031d00a013da5f9f198a2e.
---
 src/lib.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5138fca..d1e9e7c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -30,23 +30,6 @@ pub mod cli;
 #[cfg(test)]
 pub(crate) mod test_helpers;
 
-/// Access for the verification harness, absent from normal builds
-#[cfg(artefacta_verif)]
-pub mod verif {
-    use crate::index::{Patch, Version};
-
-    /// Name of the file that holds the patch between two builds
-    pub fn patch_file_name(from: Version, to: Version) -> String {
-        Patch::new(from, to).file_name()
-    }
-
-    /// Builds that a patch file name stands for
-    pub fn patch_versions(path: &str) -> Option<(Version, Version)> {
-        let patch = Patch::from_path(path).ok()?;
-        Some((patch.from, patch.to))
-    }
-}
-
 pub async fn sync(index: &ArtefactIndex) -> Result<()> {
     index.push().await.context("sync new local files to remote")
 }
-- 
2.43.0


From a6d9c57419a412ad31d035f0f1124873a4e11d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 23/24] fix: finishing a file can report failure after it
 replaced the target

---
 src/partial_file.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index 121baba..392543e 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -58,6 +58,13 @@ impl PartialFile {
                 self.partial_path.display()
             )
         })?;
+        // once it is renamed nothing can fail any more
+        let file = File::open(&self.partial_path).with_context(|| {
+            format!(
+                "cannot open finished file `{}`",
+                self.partial_path.display()
+            )
+        })?;
         fs::rename(&self.partial_path, &self.target_path).with_context(|| {
             format!(
                 "cannot finish partial file `{}`, renaming it to `{}` failed",
@@ -66,8 +73,7 @@ impl PartialFile {
             )
         })?;
         self.finished = true;
-        File::open(&self.target_path)
-            .with_context(|| format!("cannot open finished file `{}`", self.target_path.display()))
+        Ok(file)
     }
 }
 
-- 
2.43.0


From 471a14a28038be53dc1aee798eb04106f6594b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 24/24] fix: predecessor tags are found by number, whatever its
 size or leading zeros

Components beyond 32 bits (time stamps, say) and components with leading
zeros (as in 2023.04.10) never got a predecessor, as the number before was
compared as 32-bit text.
---
 src/git.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/git.rs b/src/git.rs
index ee59c0b..ba125b1 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -70,10 +70,12 @@ fn natural_order(a: &str, b: &str) -> Ordering {
 
 /// assume versions are in format `….c.b.a` (or `…-c-b-a`)
 pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>> {
-    fn dec(x: &SmolStr) -> Option<SmolStr> {
-        let num = x.parse::<u32>().ok()?;
-        let prev = num.checked_sub(1)?;
-        Some(SmolStr::from(prev.to_string()))
+    fn number(x: &str) -> Option<u128> {
+        if x.bytes().all(|c| c.is_ascii_digit()) {
+            x.parse().ok()
+        } else {
+            None
+        }
     }
 
     let tags = {
@@ -85,23 +87,20 @@ pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>>
     let current = tag_to_slice(current);
     let to_patch: Vec<String> = (0..current.len())
         .filter_map(|pos_from_end| {
-            if let Some(x) = current.iter().rev().nth(pos_from_end).and_then(dec) {
-                let pos = current.len() - pos_from_end - 1;
-                let prev = {
-                    let mut prev = current.to_vec();
-                    prev[pos] = x;
-                    prev
-                };
-
+            let pos = current.len() - pos_from_end - 1;
+            if let Some(prev) = number(&current[pos]).and_then(|x| x.checked_sub(1)) {
                 if let Some((idx, _)) = parsed_tags
                     .iter()
                     .enumerate()
-                    .filter(|(_idx, tag)| tag.starts_with(&prev[..=pos]))
+                    .filter(|(_idx, tag)| {
+                        tag.starts_with(&current[..pos])
+                            && tag.get(pos).and_then(|x| number(x)) == Some(prev)
+                    })
                     .last()
                 {
                     return Some(tags[idx].clone());
                 } else {
-                    log::debug!("no matching tag for {:?}", prev);
+                    log::debug!("no matching tag for {} in place {}", prev, pos);
                 }
             }
             None
-- 
2.43.0

