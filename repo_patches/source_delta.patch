From 24f8184427b34f9b01c21f98a986cd776dbfef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 01/25] fix: keep patches of an upgrade path in the order they
 apply

The path was sorted by version name, so that with names that do not sort in
upgrade order the patches were applied in the wrong order (and with it more
builds than needed were fetched).
---
 src/index/graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 555877a..c95a8b9 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -194,7 +194,7 @@ impl PatchGraph {
             |_| 0,
         )
         .with_context(|| format!("no A& solution for patch from `{:?}` to `{:?}`", from, to))?;
-        let mut path: Vec<_> = steps
+        let path = steps
             .windows(2)
             .map(|x| {
                 let from = self.graph[x[0]].version.clone();
@@ -202,7 +202,6 @@ impl PatchGraph {
                 Patch::new(from, to)
             })
             .collect();
-        path.sort();
 
         Ok((cost, path))
     }
-- 
2.43.0


From 26554f57300c345d951b1956a02243e14da3b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 02/25] fix: use remote patches between builds that are only
 available locally

Patches of the remote were read before the builds of the local store were
known, so a patch from or to a local-only build was dropped.
---
 src/index.rs       | 18 ++++++++++--------
 src/index/graph.rs | 23 +++++++++++++++++------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 645752d..7fd809e 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -39,18 +39,20 @@ impl Index {
         let local = Storage::try_from(local.as_ref())
             .context("invalid local storage path")
             .note("`mkdir -pv` is your friend")?;
+        let remote_files = remote.list_files().await.context("list files")?;
+        let local_files = local.list_files().await.context("list files")?;
+
         let mut patch_graph = PatchGraph::empty();
+        // Remote patches can belong to builds that are only available locally,
+        // so these have to be known first.
         patch_graph
-            .update_from_file_list(
-                &remote.list_files().await.context("list files")?,
-                Location::Remote,
-            )
+            .update_builds_from_file_list(&local_files, Location::Local)
+            .with_context(|| format!("build patch graph from `{:?}`", local))?;
+        patch_graph
+            .update_from_file_list(&remote_files, Location::Remote)
             .with_context(|| format!("build patch graph from `{:?}`", remote))?;
         patch_graph
-            .update_from_file_list(
-                &local.list_files().await.context("list files")?,
-                Location::Local,
-            )
+            .update_from_file_list(&local_files, Location::Local)
             .with_context(|| format!("build patch graph from `{:?}`", local))?;
 
         Ok(Index {
diff --git a/src/index/graph.rs b/src/index/graph.rs
index c95a8b9..5914167 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -30,17 +30,16 @@ impl PatchGraph {
         Self::default()
     }
 
-    pub fn update_from_file_list(&mut self, list: &[Entry], location: Location) -> Result<()> {
+    pub fn update_builds_from_file_list(
+        &mut self,
+        list: &[Entry],
+        location: Location,
+    ) -> Result<()> {
         let builds: Vec<_> = list
             .iter()
             .filter(|entry| entry.path.ends_with(".tar.zst"))
             .filter(|entry| entry.size > 0)
             .collect();
-        let patches: Vec<_> = list
-            .iter()
-            .filter(|entry| entry.path.ends_with(".patch.zst"))
-            .filter(|entry| entry.size > 0)
-            .collect();
 
         log::trace!("Builds: {:?}", builds);
         for entry in builds {
@@ -52,6 +51,18 @@ impl PatchGraph {
                 .with_context(|| format!("add build `{}`", entry.path))?;
         }
 
+        Ok(())
+    }
+
+    pub fn update_from_file_list(&mut self, list: &[Entry], location: Location) -> Result<()> {
+        self.update_builds_from_file_list(list, location)?;
+
+        let patches: Vec<_> = list
+            .iter()
+            .filter(|entry| entry.path.ends_with(".patch.zst"))
+            .filter(|entry| entry.size > 0)
+            .collect();
+
         log::trace!("Patches: {:?}", patches);
         for entry in patches {
             if entry.path.ends_with('/') {
-- 
2.43.0


From 16fcc0f3fffbde7a34d802bf5bdd834e592e1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 03/25] fix: start an upgrade at the last build of the path
 that is local

Only a run of local builds at the start of the path was skipped. With a
missing build before a local one, all later patches were fetched again and
the local builds (even the requested one) written anew.
---
 src/index.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index 7fd809e..a00381d 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -237,9 +237,13 @@ impl Index {
         {
             UpgradePath::ApplyPatches(patches) => {
                 log::debug!("found upgrade path via patches: {:?}", patches);
+                let already_local = patches
+                    .iter()
+                    .rposition(|patch| self.patch_graph.has_local_build(patch.to.clone()))
+                    .map_or(0, |last_local| last_local + 1);
                 let needed_patches = patches
                     .into_iter()
-                    .skip_while(|patch| self.patch_graph.has_local_build(patch.to.clone()))
+                    .skip(already_local)
                     .collect::<Vec<Patch>>();
                 log::debug!(
                     "using already existing local builds, we need to fetch: {:?}",
-- 
2.43.0


From c03f7f2edcc394a1a495c9bf29f3577526c2a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 04/25] fix: reject --calc-patch-from with the version that is
 being added

create-patch rejects a patch between the same versions, adding a build
created one.
---
 src/cli.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli.rs b/src/cli.rs
index 90165bb..365e415 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -95,6 +95,12 @@ impl AddBuild {
 
         if let Some(old_build) = self.calculate_patch_from.as_ref() {
             let new_build: Version = paths::file_name(&entry.path)?.parse()?;
+            ensure!(
+                *old_build != new_build,
+                "Rejecting to create patch between same versions ({}->{})",
+                old_build,
+                new_build
+            );
             index
                 .calculate_patch(old_build.clone(), new_build)
                 .await
-- 
2.43.0


From 71f5b089bb89f14aa8c00d2c44ac03ee7729e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 05/25] fix: do not take a truncated patch file for a shorter
 patch

bipatch's reader treats an unexpected end of its input as the end of the
patch, so a patch file cut off at a zstd block boundary was applied without
an error and produced a truncated build. Decompress it completely first.
---
 src/apply_patch.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/apply_patch.rs b/src/apply_patch.rs
index 8571aed..662d411 100644
--- a/src/apply_patch.rs
+++ b/src/apply_patch.rs
@@ -4,7 +4,6 @@ use std::{
     io::{BufReader, Cursor, Read},
     path::Path,
 };
-use zstd::stream::read::Decoder as ZstdDecoder;
 
 pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result<impl Read> {
     let archive = archive.as_ref();
@@ -12,7 +11,10 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
 
     let patch_file =
         File::open(patch).with_context(|| format!("open file `{}`", patch.display()))?;
-    let patch_decompressed = ZstdDecoder::new(patch_file)
+    // Decompress all of it up front: the patch reader takes an unexpected end of
+    // its input for the end of the patch, so reading from a truncated file would
+    // look like success.
+    let patch_decompressed = zstd::stream::decode_all(BufReader::new(patch_file))
         .with_context(|| format!("read zstd compressed file `{}`", patch.display()))?;
 
     let archive_file =
@@ -20,8 +22,11 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
     let archive_decompressed = zstd::stream::decode_all(BufReader::new(archive_file))
         .with_context(|| format!("read zstd compressed file `{}`", archive.display()))?;
 
-    bipatch::Reader::new(patch_decompressed, Cursor::new(archive_decompressed))
-        .context("read patch")
+    bipatch::Reader::new(
+        Cursor::new(patch_decompressed),
+        Cursor::new(archive_decompressed),
+    )
+    .context("read patch")
 }
 
 #[cfg(test)]
-- 
2.43.0


From b83c7c01715f220b9818d852a0fd02eaef918b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 06/25] fix: give every partial file a name of its own

Two processes writing the same artefact within one second used the same
partial file, and could publish a mix of both or fail when one renamed it.
---
 src/partial_file.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index dd30cc2..7ffadf2 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -4,6 +4,8 @@ use std::{
     fs::{self, File},
     io::{BufWriter, Write},
     path::{Path, PathBuf},
+    process,
+    sync::atomic::{AtomicUsize, Ordering},
     time::SystemTime,
 };
 
@@ -99,19 +101,28 @@ impl Drop for PartialFile {
 }
 
 fn generate_partial_file_name(path: &Path) -> Result<PathBuf> {
-    let target_file_name = path
-        .file_name()
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+    path.file_name()
         .with_context(|| format!("cannot get file name from path `{}`", path.display()))?;
+    // Has to be different for every process and every file, or else two
+    // processes that create the same artefact write to the same partial file.
     let temp_prefix = {
         let timestamp = SystemTime::now()
             .duration_since(SystemTime::UNIX_EPOCH)
             .context("cannot get timestamp")?;
-        format!("artefacta-temp-{}", timestamp.as_secs())
+        format!(
+            "artefacta-temp-{}-{}-{}",
+            timestamp.as_nanos(),
+            process::id(),
+            COUNTER.fetch_add(1, Ordering::Relaxed),
+        )
     };
+    // Does not contain the name of the target as that might already be as long
+    // as a file name can be.
     let new_file_name = {
         let mut res = OsString::from("._");
         res.push(&temp_prefix);
-        res.push(target_file_name);
         res.push(".part");
         res
     };
-- 
2.43.0


From c9967ac2fae5178ac87b3ab4aa3a00d9e93243cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 07/25] fix: copy files into a store by way of a partial file

fs::copy writes to the target directly, so an interrupted or failed copy left
a truncated file under the name of a build or patch, which was then used.
---
 src/partial_file.rs | 14 +++++++++++++-
 src/storage/mod.rs  | 19 +++++++++++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index 7ffadf2..cf2dba6 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -1,7 +1,7 @@
 use erreur::{Context, Result};
 use std::{
     ffi::OsString,
-    fs::{self, File},
+    fs::{self, File, Permissions},
     io::{BufWriter, Write},
     path::{Path, PathBuf},
     process,
@@ -40,6 +40,18 @@ impl PartialFile {
         })
     }
 
+    pub fn set_permissions(&self, permissions: Permissions) -> Result<()> {
+        self.partial_file
+            .get_ref()
+            .set_permissions(permissions)
+            .with_context(|| {
+                format!(
+                    "could not set permissions of `{}`",
+                    self.partial_path.display()
+                )
+            })
+    }
+
     pub fn finish(mut self) -> Result<File> {
         self.partial_file.flush().with_context(|| {
             format!(
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 9cd5d80..6b69690 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -4,7 +4,7 @@ pub use std::{
     convert::{TryFrom, TryInto},
     fmt,
     fs::{self, read_dir},
-    io::{BufWriter, Write},
+    io::{self, BufWriter, Write},
     path::{Path, PathBuf},
     str::FromStr,
     sync::Arc,
@@ -302,7 +302,7 @@ impl Storage {
 
                 match file {
                     File::InFilesystem(entry) => {
-                        fs::copy(&entry.path, &new_path).with_context(|| {
+                        copy_file(Path::new(&entry.path), &new_path).with_context(|| {
                             format!("copy `{}` to `{}`", entry.path, new_path.display())
                         })?;
                     }
@@ -381,6 +381,21 @@ impl Storage {
     }
 }
 
+/// Copy file such that `to` is never visible with only a part of the content
+fn copy_file(from: &Path, to: &Path) -> Result<()> {
+    let metadata = fs::metadata(from).context("read metadata")?;
+    ensure!(metadata.is_file(), "`{}` is not a file", from.display());
+
+    let mut source = fs::File::open(from).context("open source file")?;
+    let mut new_file = PartialFile::create(to)?;
+    io::copy(&mut source, &mut new_file).context("copy content of file")?;
+    new_file
+        .set_permissions(metadata.permissions())
+        .context("copy permissions of file")?;
+    new_file.finish().context("finish writing to new file")?;
+    Ok(())
+}
+
 #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub enum File {
     InFilesystem(Entry),
-- 
2.43.0


From e48c30edbfb8f4d08ef4549aa1c40ffae61b66d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 08/25] fix: never use or leave behind empty files as builds

An empty local file hid the build of the same name on the remote, and adding
an empty file failed only after it had been copied into the local store.
---
 src/index.rs       | 12 ++++++------
 src/storage/mod.rs |  8 ++++++++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index a00381d..0d45938 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -415,6 +415,12 @@ impl Index {
         let version: Version = file_name.parse()?;
         let new_path = local.join(format!("{}.tar.zst", version.as_str()));
 
+        ensure!(
+            file.size() > 0,
+            "Asked to add `{}` but it's empty (size 0). That's not gonna be useful.",
+            path.display()
+        );
+
         self.local
             .add_file(file, &new_path)
             .await
@@ -423,12 +429,6 @@ impl Index {
         let entry = Entry::from_path(&new_path, self.local.clone())
             .context("create entry for new build file")?;
 
-        ensure!(
-            entry.size > 0,
-            "Just added `{}` but it's empty (size 0). That's not gonna be useful.",
-            entry.path
-        );
-
         self.patch_graph
             .add_build(&version, entry.clone(), Location::Local)
             .with_context(|| format!("add build `{}`", path.display()))?;
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 6b69690..030738c 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -202,6 +202,7 @@ impl Storage {
                     .metadata()
                     .with_context(|| format!("read metadata of `{}`", path.display()))?
                     .len();
+                ensure!(size > 0, "`{}` is empty", path.display());
 
                 Ok(File::InFilesystem(Entry {
                     storage: self.clone(),
@@ -403,6 +404,13 @@ pub enum File {
 }
 
 impl File {
+    pub fn size(&self) -> u64 {
+        match self {
+            File::InFilesystem(entry) => entry.size,
+            File::Inline(_, content) => content.len() as u64,
+        }
+    }
+
     pub fn copy_to_local(self, _storage: Storage) -> Result<Self> {
         todo!()
     }
-- 
2.43.0


From 5799ab656c244b2605c606a4c2ae156a941c07ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 09/25] fix: ignore files in a store that are not builds or
 patches

Broken symbolic links (like a `current` whose build has been removed), names
that are not valid UTF-8 or not valid versions, and files that vanish while
the store is read made every command fail. Directories with a name like a
build and links were taken for builds.
---
 src/index/graph.rs | 18 ++++++++++++++++--
 src/storage/mod.rs | 41 ++++++++++++++++++++++++++++-------------
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 5914167..420b1f6 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -46,7 +46,14 @@ impl PatchGraph {
             if entry.path.ends_with('/') {
                 continue;
             }
-            let version = paths::build_version_from_path(&entry.path)?;
+            let version = match paths::build_version_from_path(&entry.path) {
+                Ok(version) => version,
+                e => {
+                    log::warn!("ignoring `{}`, not the name of a build", entry.path);
+                    e.log_and_discard();
+                    continue;
+                }
+            };
             self.add_build(&version, entry.clone(), location)
                 .with_context(|| format!("add build `{}`", entry.path))?;
         }
@@ -68,7 +75,14 @@ impl PatchGraph {
             if entry.path.ends_with('/') {
                 continue;
             }
-            let Patch { from, to, .. } = Patch::from_path(&entry.path)?;
+            let Patch { from, to, .. } = match Patch::from_path(&entry.path) {
+                Ok(patch) => patch,
+                e => {
+                    log::warn!("ignoring `{}`, not the name of a patch", entry.path);
+                    e.log_and_discard();
+                    continue;
+                }
+            };
             match self.add_patch(&from, &to, entry.clone(), location) {
                 Ok(_) => log::debug!("added patch `{}`", entry.path),
                 e => {
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 030738c..a093b41 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -139,18 +139,32 @@ impl Storage {
                 .map(|entry| -> Result<_> {
                     let entry = entry.context("could not read file entry")?;
                     let path = entry.path();
-                    let path = path.canonicalize().with_context(|| {
-                        format!("cannot canonicalize path `{}`", path.display())
-                    })?;
-                    let metadata = entry.metadata().with_context(|| {
-                        format!("could not read metadata of `{}`", path.display())
-                    })?;
-
-                    Ok((metadata, path_as_string(path)?))
+                    let metadata = match entry.metadata() {
+                        // e.g. a temporary file of some other process
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => return Ok(None),
+                        metadata => metadata.with_context(|| {
+                            format!("could not read metadata of `{}`", path.display())
+                        })?,
+                    };
+                    if !metadata.file_type().is_file() {
+                        return Ok(None);
+                    }
+                    if entry.file_name().to_str().is_none() {
+                        log::debug!("ignoring `{:?}`, name is not valid UTF-8", path);
+                        return Ok(None);
+                    }
+                    let path = match path.canonicalize() {
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => return Ok(None),
+                        canonical => canonical.with_context(|| {
+                            format!("cannot canonicalize path `{}`", path.display())
+                        })?,
+                    };
+
+                    Ok(Some((metadata, path_as_string(path)?)))
                 })
                 .collect::<Result<Vec<_>>>()?
                 .into_iter()
-                .filter(|(metadata, _)| !metadata.file_type().is_symlink())
+                .flatten()
                 .map(|(metadata, path)| Entry {
                     storage: self.clone(),
                     path,
@@ -198,10 +212,11 @@ impl Storage {
             InnerStorage::Filesystem(root) => {
                 let path = root.join(path);
                 ensure!(path.exists(), "Path `{}` does not exist", path.display());
-                let size = path
-                    .metadata()
-                    .with_context(|| format!("read metadata of `{}`", path.display()))?
-                    .len();
+                let metadata = path
+                    .symlink_metadata()
+                    .with_context(|| format!("read metadata of `{}`", path.display()))?;
+                ensure!(metadata.is_file(), "`{}` is not a file", path.display());
+                let size = metadata.len();
                 ensure!(size > 0, "`{}` is empty", path.display());
 
                 Ok(File::InFilesystem(Entry {
-- 
2.43.0


From 0a04fbd230c35c01873ff257ed65f1f1e638836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 10/25] fix: replace `current` atomically and only trust it if
 it leads to a build

Installing removed the old symlink before creating the new one, so there was
none after an interrupted or failed install. A symlink whose build has been
removed made install fail, or claim that the version is already installed.
---
 src/index.rs        |  5 +++++
 src/lib.rs          | 52 +++++++++++++++++++++++++++++++--------------
 src/partial_file.rs |  2 +-
 3 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 0d45938..9730a94 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -373,6 +373,11 @@ impl Index {
             .context("fetch newly added local build")
     }
 
+    /// Build that is present in local storage
+    pub fn local_build(&self, version: &Version) -> Option<&Entry> {
+        self.patch_graph.local_build(version.clone())
+    }
+
     pub fn get_build_for_tag(&self, tag: &str) -> Result<Version> {
         let parsed_tag = crate::git::tag_to_slice(tag);
         self.patch_graph
diff --git a/src/lib.rs b/src/lib.rs
index ff2c321..f3ccf66 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -34,20 +34,37 @@ pub async fn sync(index: &ArtefactIndex) -> Result<()> {
     index.push().await.context("sync new local files to remote")
 }
 
+/// Version whose local build the `current` symlink leads to
+fn installed_version(index: &ArtefactIndex, current: &Path) -> Result<Version> {
+    let curent_path = fs::read_link(&current).context("could not read `current` symlink")?;
+    let current_version = paths::build_version_from_path(&curent_path)?;
+    log::debug!(
+        "identified version `{}` from path `{}`",
+        current_version,
+        curent_path.display()
+    );
+
+    let build = index
+        .local_build(&current_version)
+        .with_context(|| format!("no local build of `{}`", current_version))?;
+    let installed_build = current
+        .canonicalize()
+        .with_context(|| format!("cannot canonicalize path `{}`", current.display()))?;
+    ensure!(
+        installed_build == Path::new(&build.path),
+        "`{}` is not in local store",
+        installed_build.display()
+    );
+    Ok(current_version)
+}
+
 pub async fn install(
     index: &mut ArtefactIndex,
     target_version: Version,
     current: &Path,
 ) -> Result<()> {
-    let target_build = match fs::read_link(&current) {
-        Ok(curent_path) => {
-            let current_version = paths::build_version_from_path(&curent_path)?;
-            log::debug!(
-                "identified version `{}` from path `{}`",
-                current_version,
-                curent_path.display()
-            );
-
+    let target_build = match installed_version(index, current) {
+        Ok(current_version) => {
             if current_version == target_version {
                 log::info!("version `{}` already installed", target_version);
                 return Ok(());
@@ -59,7 +76,7 @@ pub async fn install(
                 .context("get build")?
         }
         Err(e) => {
-            log::debug!("could not read `current` symlink: {}", e);
+            log::debug!("`current` does not lead to a build: {}", e);
             index
                 .get_build(target_version.clone())
                 .await
@@ -72,17 +89,20 @@ pub async fn install(
     #[cfg(windows)]
     use std::os::windows::fs::symlink_file as symlink;
 
-    if current.exists() {
-        fs::remove_file(&current).context("clear old `current` symlink")?;
-    }
-
-    symlink(&target_build.path, &current).with_context(|| {
+    // Replace the old symlink in one step, so that there always is one
+    let new_link = partial_file::generate_partial_file_name(current)
+        .context("generate name for new `current` symlink")?;
+    symlink(&target_build.path, &new_link).with_context(|| {
         format!(
             "create symlink pointing at new build: {} to {}",
             target_build.path,
-            current.display()
+            new_link.display()
         )
     })?;
+    if let Err(e) = fs::rename(&new_link, &current) {
+        let _ = fs::remove_file(&new_link);
+        return Err(e).context("replace old `current` symlink");
+    }
     log::info!(
         "successfully installed `{}` as `{}`",
         target_version,
diff --git a/src/partial_file.rs b/src/partial_file.rs
index cf2dba6..afb71d9 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -112,7 +112,7 @@ impl Drop for PartialFile {
     }
 }
 
-fn generate_partial_file_name(path: &Path) -> Result<PathBuf> {
+pub(crate) fn generate_partial_file_name(path: &Path) -> Result<PathBuf> {
     static COUNTER: AtomicUsize = AtomicUsize::new(0);
 
     path.file_name()
-- 
2.43.0


From 6f30914dbe18751fe986c485cac43914279fba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 11/25] fix: keep .tar and .patch that are part of a version

A build added as version `1.tar` or `1.patch` was taken for version `1`
by the next command.
---
 src/paths.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index 71c7fc0..34fa45a 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -18,10 +18,12 @@ pub fn file_name(path: impl AsRef<Path>) -> Result<String> {
         .with_context(|| format!("no file stem for `{:?}`", path))?;
     let name = path_as_string(file_name)?;
 
-    // get rid of pesky .tar suffixes
-    let name = name.trim_end_matches(".tar");
-    // get rid of pesky .patch suffixes
-    let name = name.trim_end_matches(".patch");
+    // get rid of pesky .tar and .patch suffixes, but only the one that belongs to
+    // the file extension: everything else is part of the version
+    let name = name
+        .strip_suffix(".tar")
+        .or_else(|| name.strip_suffix(".patch"))
+        .unwrap_or(&name);
 
     Ok(name.to_string())
 }
-- 
2.43.0


From 98098bfd8e9bb778729bb753cf03361bf982bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 12/25] fix: refuse versions with path separators or a dash at
 the end

With a separator the package was written outside of the temporary directory
or the store. Versions with a dash at the end share the names of patch files
with versions that have one at the start.
---
 src/index/version.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/index/version.rs b/src/index/version.rs
index 28fdae8..2063824 100644
--- a/src/index/version.rs
+++ b/src/index/version.rs
@@ -28,6 +28,8 @@ impl fmt::Display for Version {
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum InvalidVersion {
     ThreeDashes,
+    DashAtEnd,
+    PathSeparator,
 }
 
 impl StdError for InvalidVersion {}
@@ -39,6 +41,13 @@ impl fmt::Display for InvalidVersion {
                 f,
                 "Invalid version format: `---` must not appear in version"
             ),
+            InvalidVersion::DashAtEnd => {
+                write!(f, "Invalid version format: version must not end with `-`")
+            }
+            InvalidVersion::PathSeparator => write!(
+                f,
+                "Invalid version format: path separators must not appear in version"
+            ),
         }
     }
 }
@@ -50,6 +59,13 @@ impl FromStr for Version {
         if s.contains("---") {
             return Err(InvalidVersion::ThreeDashes);
         }
+        // `a-` to `b` would have the same patch file name as `a` to `-b`
+        if s.ends_with('-') {
+            return Err(InvalidVersion::DashAtEnd);
+        }
+        if s.contains(std::path::is_separator) {
+            return Err(InvalidVersion::PathSeparator);
+        }
         Ok(Version { data: s.into() })
     }
 }
-- 
2.43.0


From 986ba3d0bda4d8be6a88c71ba9020f667a566860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 13/25] fix: only take a file for a patch if it has the name of
 that patch

`a---b.patch.zst` counted as the patch from `a` to `b`, which is looked for
as `a-b.patch.zst`: it was chosen for upgrades but never found, and kept the
real one from being uploaded.
---
 src/index/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 420b1f6..9ce2a28 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -76,7 +76,7 @@ impl PatchGraph {
                 continue;
             }
             let Patch { from, to, .. } = match Patch::from_path(&entry.path) {
-                Ok(patch) => patch,
+                Ok(patch) if entry.path.rsplit('/').next() == Some(&patch.file_name()) => patch,
                 e => {
                     log::warn!("ignoring `{}`, not the name of a patch", entry.path);
                     e.log_and_discard();
-- 
2.43.0


From 0b8d5b1239eeb8ff29e42a37836d608abbb67cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 14/25] fix: list all objects of an S3 store and no others

Only the first page of the listing was used, objects under longer prefixes
that start with the configured one and objects in sub-directories were taken
for builds, and in a bucket's root directory the keys used for reading and
writing (`/name`) were not those that had been listed (`name`).
---
 src/storage/mod.rs | 42 ++++++++++++++++++++++++++++++------------
 src/storage/s3.rs  |  4 +++-
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index a093b41..8f31c9f 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -176,21 +176,39 @@ impl Storage {
 
                 let client: S3Client = bucket.try_into().context("build S3 client")?;
 
-                let res = client
-                    .list_objects_v2(ListObjectsV2Request {
-                        bucket: bucket.bucket.to_owned(),
-                        prefix: Some(bucket.path.trim_start_matches('/').to_string()),
-                        ..Default::default()
-                    })
-                    .await
-                    .context("list files in bucket")?;
-                if res.is_truncated.unwrap_or_default() {
-                    log::debug!("didn't get all the files -- pagination not implemented!");
+                let prefix = bucket.key_for("");
+                let mut objects = Vec::new();
+                let mut continuation_token = None;
+                loop {
+                    let res = client
+                        .list_objects_v2(ListObjectsV2Request {
+                            bucket: bucket.bucket.to_owned(),
+                            prefix: Some(prefix.clone()),
+                            continuation_token: continuation_token.take(),
+                            ..Default::default()
+                        })
+                        .await
+                        .context("list files in bucket")?;
+                    objects.extend(res.contents.unwrap_or_default());
+                    if !res.is_truncated.unwrap_or_default() {
+                        break;
+                    }
+                    log::debug!("didn't get all the files yet, asking for more");
+                    continuation_token = Some(
+                        res.next_continuation_token
+                            .context("got an incomplete file list but no continuation token")?,
+                    );
                 }
 
-                res.contents
-                    .unwrap_or_default()
+                objects
                     .iter()
+                    // Only files directly in the root path
+                    .filter(|obj| match obj.key.as_deref() {
+                        Some(key) => key
+                            .strip_prefix(prefix.as_str())
+                            .map_or(false, |name| !name.contains('/')),
+                        None => true,
+                    })
                     .map(|obj| {
                         Ok(Entry {
                             storage: self.clone(),
diff --git a/src/storage/s3.rs b/src/storage/s3.rs
index de24a1d..6284826 100644
--- a/src/storage/s3.rs
+++ b/src/storage/s3.rs
@@ -22,7 +22,9 @@ impl Bucket {
             .trim_start_matches('/')
             .trim_end_matches('/')
             .to_owned();
-        root.push('/');
+        if !root.is_empty() {
+            root.push('/');
+        }
         root.push_str(path);
         root
     }
-- 
2.43.0


From 578934c798b774b3bcb44ffecda1e9be226b4760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 15/25] fix: ignore tags that do not point to a commit

A single tag of a tree or a blob made auto-patch fail.
---
 src/git.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/git.rs b/src/git.rs
index 2a93967..749fb7e 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -13,7 +13,7 @@ pub fn get_tags(repo: &git2::Repository) -> Result<Vec<Tag>> {
         .context("cannot load references from repo")?
         .filter_map(|x| x.ok())
         .filter(|r| r.is_tag())
-        .map(|reference| {
+        .map(|reference| -> Result<Tag> {
             let commit = reference.peel_to_commit().with_context(|| {
                 format!("cannot get commit for reference {:?}", reference.name())
             })?;
@@ -26,6 +26,12 @@ pub fn get_tags(repo: &git2::Repository) -> Result<Vec<Tag>> {
                 id: commit.id(),
             })
         })
+        // Tags can also point to trees and blobs, these are not versions
+        .filter_map(|tag| {
+            tag.map_err(|e| log::warn!("ignoring tag: {}", e))
+                .ok()
+                .map(Ok)
+        })
         .collect()
 }
 
-- 
2.43.0


From ed27ae8cbdb5c1ba0610404959641b4e51ed4d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 16/25] fix: find the newest tag by comparing version
 components

The tags were sorted as text with numbers in it, so that separators and case
had an influence on what is newest, 19 was newer than 109, and long numbers
(like a date with time) made the comparison panic. Numbers with leading zeros
or too large for 32 bits had no predecessor.
---
 src/git.rs | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/git.rs b/src/git.rs
index 749fb7e..2201855 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -42,20 +42,52 @@ pub fn tag_to_slice(tag: &str) -> Vec<SmolStr> {
         .collect()
 }
 
+/// Component of a version in a form that compares like people would: sequences
+/// of digits as (length, digits without leading zeros), everything else as text
+type Component = Vec<(bool, usize, SmolStr)>;
+
+fn comparable(component: &SmolStr) -> Component {
+    let is_digit = |c: char| c.is_ascii_digit();
+    let mut rest = component.as_str();
+    let mut parts = Vec::new();
+    while let Some(first) = rest.chars().next() {
+        let is_number = is_digit(first);
+        let end = rest
+            .find(|c| is_digit(c) != is_number)
+            .unwrap_or_else(|| rest.len());
+        let (part, tail) = rest.split_at(end);
+        if is_number {
+            let part = part.trim_start_matches('0');
+            parts.push((false, part.len(), part.into()));
+        } else {
+            parts.push((true, 0, part.into()));
+        }
+        rest = tail;
+    }
+    parts
+}
+
+fn comparable_tag(tag: &str) -> Vec<Component> {
+    tag_to_slice(tag).iter().map(comparable).collect()
+}
+
 /// assume versions are in format `….c.b.a` (or `…-c-b-a`)
 pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>> {
     fn dec(x: &SmolStr) -> Option<SmolStr> {
-        let num = x.parse::<u32>().ok()?;
+        let num = x.parse::<u64>().ok()?;
         let prev = num.checked_sub(1)?;
         Some(SmolStr::from(prev.to_string()))
     }
 
     let tags = {
         let mut tags = tags.to_vec();
-        tags.sort_by(|a, b| human_sort::compare(a, b));
+        tags.sort_by_cached_key(|tag| comparable_tag(tag));
         tags
     };
-    let parsed_tags = tags.iter().map(|tag| tag_to_slice(tag)).collect::<Vec<_>>();
+    let parsed_tags = tags
+        .iter()
+        .map(|tag| comparable_tag(tag))
+        .collect::<Vec<_>>();
     let current = tag_to_slice(current);
     let to_patch: Vec<String> = (0..current.len())
         .filter_map(|pos_from_end| {
@@ -64,7 +96,7 @@ pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>>
                 let prev = {
                     let mut prev = current.to_vec();
                     prev[pos] = x;
-                    prev
+                    prev.iter().map(comparable).collect::<Vec<_>>()
                 };
 
                 if let Some((idx, _)) = parsed_tags
-- 
2.43.0


From 2e91cc1c610d388f5da5075df931ba44e534dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 17/25] fix: prefer the build with exactly the name of the tag

Of several builds whose names only differ in case or separators a random one
was used.
---
 src/index.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index 9730a94..f674384 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -383,7 +383,9 @@ impl Index {
         self.patch_graph
             .builds
             .keys()
-            .find(|build| crate::git::tag_to_slice(build.as_str()) == parsed_tag)
+            .filter(|build| crate::git::tag_to_slice(build.as_str()) == parsed_tag)
+            // prefer the very same name, and always pick the same of several similar ones
+            .min_by_key(|build| (build.as_str() != tag, build.as_str()))
             .cloned()
             .with_context(|| format!("no build found matching tag `{}`", tag))
     }
-- 
2.43.0


From a0a4c348b516f3b5bf1d8e9b668e80762921cdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 18/25] fix: refuse to create a patch from a build without
 content

The suffix array of the diff algorithm panics on it.
---
 src/index.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index.rs b/src/index.rs
index f674384..b6dfc5e 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -109,6 +109,11 @@ impl Index {
             .context("get old build")?;
         let old_build = read_file(old_build).context("read old build")?;
         let old_build = crate::decompress(Cursor::new(old_build))?;
+        ensure!(
+            !old_build.is_empty(),
+            "can't calculate a patch from `{}`, its content is empty",
+            from
+        );
 
         let new_build = self.get_build(to.clone()).await.context("get new build")?;
         let new_build_size = new_build.size;
-- 
2.43.0


From bfeefae1108d6092ae5b40ab4c2a4f4ca0efdf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:20 +0000
Subject: [PATCH 19/25] fix: refuse arguments that are not valid UTF-8 instead
 of panicking

---
 src/cli.rs | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 365e415..e758dc0 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -2,6 +2,7 @@ use crate::{paths, Storage, Version};
 use erreur::{ensure, Context, Result, StdResult};
 use std::{
     convert::Infallible,
+    ffi::{OsStr, OsString},
     fmt,
     path::{Path, PathBuf},
     str::FromStr,
@@ -15,7 +16,11 @@ pub struct Cli {
     #[structopt(long = "local", env = "ARTEFACTA_LOCAL_STORE")]
     pub local_store: PathBuf,
     /// Path/URL or remote storage
-    #[structopt(long = "remote", env = "ARTEFACTA_REMOTE_STORE")]
+    #[structopt(
+        long = "remote",
+        env = "ARTEFACTA_REMOTE_STORE",
+        parse(try_from_os_str = parse_utf8)
+    )]
     pub remote_store: Storage,
     #[structopt(subcommand)]
     pub cmd: Command,
@@ -29,6 +34,7 @@ pub enum Command {
     /// Install new build
     Install {
         /// Version of the build to install
+        #[structopt(parse(try_from_os_str = parse_utf8))]
         version: Version,
     },
     /// Add a new build
@@ -37,23 +43,29 @@ pub enum Command {
     /// Package a new build and add it
     AddPackage {
         /// Version of the build
+        #[structopt(parse(try_from_os_str = parse_utf8))]
         version: Version,
         #[structopt(flatten)]
         build: AddBuild,
     },
     /// Create a patch from one version to another
-    CreatePatch { from: Version, to: Version },
+    CreatePatch {
+        #[structopt(parse(try_from_os_str = parse_utf8))]
+        from: Version,
+        #[structopt(parse(try_from_os_str = parse_utf8))]
+        to: Version,
+    },
     /// Create patches by looking at the git repo
     AutoPatch {
         /// Git repository in which to look for tags
-        #[structopt(long, default_value)]
+        #[structopt(long, default_value, parse(from_os_str))]
         repo_root: WorkingDir,
         /// Version to created patches to
-        #[structopt(env = "CI_COMMIT_REF_NAME")]
+        #[structopt(env = "CI_COMMIT_REF_NAME", parse(try_from_os_str = parse_utf8))]
         current: Version,
         /// Prefix for finding builds, used like "$prefix$tag". When setting
         /// this, omit the prefix from the current flag.
-        #[structopt(long, default_value)]
+        #[structopt(long, default_value, parse(try_from_os_str = parse_utf8))]
         prefix: String,
     },
     /// Sync all new local files to remote store
@@ -70,10 +82,22 @@ pub struct AddBuild {
     #[structopt(long = "upload")]
     pub upload: bool,
     /// Calculate path from this build version
-    #[structopt(long = "calc-patch-from")]
+    #[structopt(long = "calc-patch-from", parse(try_from_os_str = parse_utf8))]
     pub calculate_patch_from: Option<Version>,
 }
 
+/// Parse an argument that has to be valid UTF-8
+fn parse_utf8<T>(arg: &OsStr) -> StdResult<T, OsString>
+where
+    T: FromStr,
+    T::Err: fmt::Display,
+{
+    arg.to_str()
+        .ok_or_else(|| OsString::from("not valid UTF-8"))?
+        .parse()
+        .map_err(|e: T::Err| e.to_string().into())
+}
+
 impl AddBuild {
     pub async fn add_to(&self, index: &mut crate::ArtefactIndex) -> Result<()> {
         // TODO: Also set exitcode::NOINPUT in this case
@@ -136,6 +160,12 @@ impl FromStr for WorkingDir {
     }
 }
 
+impl From<&OsStr> for WorkingDir {
+    fn from(s: &OsStr) -> Self {
+        WorkingDir(s.into())
+    }
+}
+
 impl fmt::Display for WorkingDir {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "{}", self.0.display())
-- 
2.43.0


From 3fb3d8f6481e526af3e3556c647765cfb9d16bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 20/25] fix: do not panic when the working directory does not
 exist

---
 src/cli.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index e758dc0..f68b0fe 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -148,7 +148,9 @@ pub struct WorkingDir(PathBuf);
 
 impl Default for WorkingDir {
     fn default() -> Self {
-        WorkingDir(std::env::current_dir().expect("cannot access current working directory"))
+        // Relative, so that it works in a directory that was removed or whose name
+        // is not valid UTF-8
+        WorkingDir(PathBuf::from("."))
     }
 }
 
-- 
2.43.0


From cff984b80f81aacd47b8b41eb266d9f52713493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:57 +0000
Subject: [PATCH 21/25] fix: do not panic when a server reports absurd object
 sizes

---
 src/index/graph.rs | 9 ++++++---
 src/storage/mod.rs | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 9ce2a28..11b472b 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -207,7 +207,7 @@ impl PatchGraph {
         self.patches.contains_key(&(from, to))
     }
 
-    fn patches_needed(&self, from: Version, to: Version) -> Result<(u64, Vec<Patch>)> {
+    fn patches_needed(&self, from: Version, to: Version) -> Result<(u128, Vec<Patch>)> {
         let from_idx = *self.builds.get(&from).context("unknown `from` version")?;
         let to_idx = *self.builds.get(&to).context("unknown `to` version")?;
 
@@ -215,7 +215,8 @@ impl PatchGraph {
             &self.graph,
             from_idx,
             |f| f == to_idx,
-            |edge| edge.weight().size(),
+            // u128 because the sum of sizes might not fit into u64
+            |edge| u128::from(edge.weight().size()),
             |_| 0,
         )
         .with_context(|| format!("no A& solution for patch from `{:?}` to `{:?}`", from, to))?;
@@ -245,7 +246,9 @@ impl PatchGraph {
         });
 
         match res {
-            Ok((size, path)) if build_size > size => Ok(UpgradePath::ApplyPatches(path)),
+            Ok((size, path)) if u128::from(build_size) > size => {
+                Ok(UpgradePath::ApplyPatches(path))
+            }
             _ => Ok(UpgradePath::InstallBuild(next_build)),
         }
     }
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 8f31c9f..402db98 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -215,8 +215,8 @@ impl Storage {
                             path: obj.key.clone().context("got an object with no key")?,
                             size: obj
                                 .size
-                                .map(|s| s as u64)
-                                .context("got an object with no size")?,
+                                .and_then(|s| s.try_into().ok())
+                                .context("got an object with no valid size")?,
                         })
                     })
                     .collect::<Result<Vec<_>>>()
-- 
2.43.0


From d1f63f0a7d8ac113f0056d309bb3b7e095bf0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:26 +0000
Subject: [PATCH 22/25] fix: accept paths that are not valid UTF-8 as arguments

---
 src/cli.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index f68b0fe..1e4fc76 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -13,7 +13,7 @@ use structopt::StructOpt;
 #[derive(Debug, StructOpt)]
 pub struct Cli {
     /// Path to local storage directory
-    #[structopt(long = "local", env = "ARTEFACTA_LOCAL_STORE")]
+    #[structopt(long = "local", env = "ARTEFACTA_LOCAL_STORE", parse(from_os_str))]
     pub local_store: PathBuf,
     /// Path/URL or remote storage
     #[structopt(
@@ -77,6 +77,7 @@ pub enum Command {
 #[derive(Debug, StructOpt)]
 pub struct AddBuild {
     /// Path to the build
+    #[structopt(parse(from_os_str))]
     pub path: PathBuf,
     /// Upload to remote storage
     #[structopt(long = "upload")]
-- 
2.43.0


From 5a44ae965762975729f80367255ef25a9443158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 23/25] fix: do not take a patch that ends within a number for
 a complete one

---
 src/apply_patch.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/apply_patch.rs b/src/apply_patch.rs
index 662d411..f5ea5c1 100644
--- a/src/apply_patch.rs
+++ b/src/apply_patch.rs
@@ -1,4 +1,4 @@
-use erreur::{Context, Result};
+use erreur::{ensure, Context, Result};
 use std::{
     fs::File,
     io::{BufReader, Cursor, Read},
@@ -16,6 +16,15 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
     // look like success.
     let patch_decompressed = zstd::stream::decode_all(BufReader::new(patch_file))
         .with_context(|| format!("read zstd compressed file `{}`", patch.display()))?;
+    // The same goes for a number that is cut off: every but the last byte of a
+    // number has its highest bit set, and a complete patch ends with a number.
+    ensure!(
+        patch_decompressed
+            .last()
+            .map_or(true, |last| last & 0x80 == 0),
+        "patch file `{}` is incomplete",
+        patch.display()
+    );
 
     let archive_file =
         File::open(archive).with_context(|| format!("open file `{}`", archive.display()))?;
-- 
2.43.0


From b7830647bc08439a1c60aa4abcd2601671698b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:28 +0000
Subject: [PATCH 24/25] fix: do not validate environment variables that an
 argument overrides

---
 src/cli.rs  | 39 ++++++++++++++++++++++++++++++---------
 src/main.rs |  5 +++--
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 1e4fc76..cd8cb47 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -1,5 +1,5 @@
 use crate::{paths, Storage, Version};
-use erreur::{ensure, Context, Result, StdResult};
+use erreur::{ensure, Context, Report, Result, StdResult};
 use std::{
     convert::Infallible,
     ffi::{OsStr, OsString},
@@ -16,12 +16,11 @@ pub struct Cli {
     #[structopt(long = "local", env = "ARTEFACTA_LOCAL_STORE", parse(from_os_str))]
     pub local_store: PathBuf,
     /// Path/URL or remote storage
-    #[structopt(
-        long = "remote",
-        env = "ARTEFACTA_REMOTE_STORE",
-        parse(try_from_os_str = parse_utf8)
-    )]
-    pub remote_store: Storage,
+    //
+    // Parsed later on: clap also validates the value of the environment variable if
+    // it is not used because the option was given.
+    #[structopt(long = "remote", env = "ARTEFACTA_REMOTE_STORE", parse(from_os_str))]
+    remote_store: OsString,
     #[structopt(subcommand)]
     pub cmd: Command,
     /// Print more debug output
@@ -61,8 +60,10 @@ pub enum Command {
         #[structopt(long, default_value, parse(from_os_str))]
         repo_root: WorkingDir,
         /// Version to created patches to
-        #[structopt(env = "CI_COMMIT_REF_NAME", parse(try_from_os_str = parse_utf8))]
-        current: Version,
+        //
+        // Parsed later on, see `remote_store`
+        #[structopt(env = "CI_COMMIT_REF_NAME", parse(from_os_str))]
+        current: OsString,
         /// Prefix for finding builds, used like "$prefix$tag". When setting
         /// this, omit the prefix from the current flag.
         #[structopt(long, default_value, parse(try_from_os_str = parse_utf8))]
@@ -87,6 +88,26 @@ pub struct AddBuild {
     pub calculate_patch_from: Option<Version>,
 }
 
+impl Cli {
+    pub fn remote_store(&self) -> Result<Storage> {
+        parse_utf8(&self.remote_store)
+            .map_err(|e| Report::msg(e.to_string_lossy().into_owned()))
+            .with_context(|| {
+                format!(
+                    "invalid remote store `{}`",
+                    self.remote_store.to_string_lossy()
+                )
+            })
+    }
+}
+
+/// Parse the version given to `auto-patch`
+pub fn parse_version(version: &OsStr) -> Result<Version> {
+    parse_utf8(version)
+        .map_err(|e| Report::msg(e.to_string_lossy().into_owned()))
+        .with_context(|| format!("invalid version `{}`", version.to_string_lossy()))
+}
+
 /// Parse an argument that has to be valid UTF-8
 fn parse_utf8<T>(arg: &OsStr) -> StdResult<T, OsString>
 where
diff --git a/src/main.rs b/src/main.rs
index a956673..efd1738 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,5 @@
 use artefacta::{
-    cli::{Cli, Command},
+    cli::{parse_version, Cli, Command},
     ArtefactIndex,
 };
 use erreur::{Context, Help, Result};
@@ -13,7 +13,7 @@ async fn main() -> Result<()> {
     setup_logging(args.verbose);
 
     log::debug!("{:?}", args);
-    let mut index = ArtefactIndex::new(&args.local_store, args.remote_store.clone())
+    let mut index = ArtefactIndex::new(&args.local_store, args.remote_store()?)
         .await
         .context("open artifact store")
         .note("Always use absolute paths. This is serious business, there is no room for doubt.")?;
@@ -40,6 +40,7 @@ async fn main() -> Result<()> {
             current,
             prefix,
         } => {
+            let current = parse_version(&current)?;
             artefacta::auto_patch(&mut index, repo_root.as_ref(), current, &prefix).await?;
         }
         Command::Add(build) => artefacta::add(&mut index, build).await?,
-- 
2.43.0


From 640171bf8df987fdc2905a40f7d0b37bfe21af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 25/25] fix: do not package files that change their length into
 a corrupt archive

---
 src/packaging.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/packaging.rs b/src/packaging.rs
index 5e04761..fa81114 100644
--- a/src/packaging.rs
+++ b/src/packaging.rs
@@ -1,9 +1,9 @@
 //! Package build using `tar` in the most deterministic way possible.
 
-use erreur::{Context, Result};
+use erreur::{ensure, Context, Result};
 use std::{
     fs,
-    io::{BufReader, Write},
+    io::{BufReader, Read, Write},
     path::Path,
 };
 use walkdir::WalkDir;
@@ -84,13 +84,17 @@ fn add_file<W: Write>(
         .set_device_minor(0)
         .context("set device minor header")?;
 
-    let file = BufReader::new(fs::File::open(file.path()).context("open file")?);
+    // The file might have changed since, but the archive is only valid if the
+    // content is as long as its header says.
+    let mut file =
+        BufReader::new(fs::File::open(file.path()).context("open file")?).take(metadata.len());
 
     // Note: This also sets the file path in the header, and then appends header
     // and payload to the archive.
     archive
-        .append_data(&mut header, path, file)
+        .append_data(&mut header, path, &mut file)
         .context("append file")?;
+    ensure!(file.limit() == 0, "file became shorter while reading it");
     Ok(())
 }
 
-- 
2.43.0

