From 9fa0e4c29e9cc3c03e2e0e4360049876ebc6fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:58 +0000
Subject: [PATCH 01/40] fix: write the corners of box properties without a
 property header, as they are read

---
 unreal_asset/unreal_asset_properties/src/vector_property.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/vector_property.rs b/unreal_asset/unreal_asset_properties/src/vector_property.rs
index 54bd823..e00cfbc 100644
--- a/unreal_asset/unreal_asset_properties/src/vector_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/vector_property.rs
@@ -548,8 +548,7 @@ impl PropertyTrait for BoxProperty {
         include_header: bool,
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
-        let total_size =
-            self.v1.write(asset, include_header)? + self.v2.write(asset, include_header)?;
+        let total_size = self.v1.write(asset, false)? + self.v2.write(asset, false)?;
         asset.write_bool(self.is_valid)?;
         Ok(total_size + size_of::<bool>())
     }
@@ -587,8 +586,7 @@ impl PropertyTrait for Box2DProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
 
-        let total_size =
-            self.v1.write(asset, include_header)? + self.v2.write(asset, include_header)?;
+        let total_size = self.v1.write(asset, false)? + self.v2.write(asset, false)?;
 
         asset.write_bool(self.is_valid)?;
         Ok(total_size + size_of::<bool>())
-- 
2.43.0


From 578d41e601761845075c62f86d5a47e79e64e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:58 +0000
Subject: [PATCH 02/40] fix: write MeshToMeshVertData weight and padding once,
 as they are read

---
 .../unreal_asset_properties/src/cloth_lod_property.rs  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index cb94c9b..1741ad1 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -89,13 +89,13 @@ impl MeshToMeshVertData {
                 false => asset.write_u16::<LE>(0),
             }?;
             size += size_of::<u16>();
-
-            asset.write_f32::<LE>(self.weight.0)?;
-            size += size_of::<f32>();
-            asset.write_u32::<LE>(0)?;
-            size += size_of::<u32>();
         }
 
+        asset.write_f32::<LE>(self.weight.0)?;
+        size += size_of::<f32>();
+        asset.write_u32::<LE>(0)?;
+        size += size_of::<u32>();
+
         Ok(size)
     }
 }
-- 
2.43.0


From e350c233bfb6fb845266d04792d1276faeecd111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:58 +0000
Subject: [PATCH 03/40] fix: write ClothLodDataProperty without a struct
 header, as it is read

---
 .../unreal_asset_properties/src/cloth_lod_property.rs         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index 1741ad1..977b0fa 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -183,11 +183,11 @@ impl PropertyTrait for ClothLodDataProperty {
     fn write<Writer: ArchiveWriter<impl PackageIndexTrait>>(
         &self,
         asset: &mut Writer,
-        include_header: bool,
+        _include_header: bool,
     ) -> Result<usize, Error> {
         let mut size = self.struct_property.write_with_type(
             asset,
-            include_header,
+            false,
             Some(FName::from_slice("Generic")),
         )?;
 
-- 
2.43.0


From ce072fac36d81ab02ea1e70641fc978fdecbdff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:58 +0000
Subject: [PATCH 04/40] fix: write the sub face index of FontData

---
 .../src/slate_core/font_data_property.rs                      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
index c829ac8..17c87c3 100644
--- a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
@@ -121,6 +121,10 @@ impl FontData {
                     PropertyError::property_field_none("loading_policy", "Some(ELoadingPolicy)")
                 })? as u8)?;
             }
+
+            asset.write_i32::<LE>(self.sub_face_index.ok_or_else(|| {
+                PropertyError::property_field_none("sub_face_index", "Some(i32)")
+            })?)?;
         }
         Ok(())
     }
-- 
2.43.0


From fee0173052ba20af855d36d07f4535c44c5f9e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:58 +0000
Subject: [PATCH 05/40] fix: reserve the length field of UniqueNetIdProperty
 instead of overwriting its type

---
 .../src/game_framework/unique_net_id_property.rs                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
index 75764b6..e6603de 100644
--- a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
@@ -71,6 +71,7 @@ impl PropertyTrait for UniqueNetIdProperty {
         match &self.value {
             Some(value) => {
                 let mut length = 3 * size_of::<i32>();
+                asset.write_i32::<LE>(0)?; // length, filled in below
                 asset.write_fname(&value.ty)?;
                 length += asset.write_fstring(value.contents.as_deref())?;
 
-- 
2.43.0


From 0d2d3e81b1d18965876fc0c23eec3991dfe9cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:59 +0000
Subject: [PATCH 06/40] fix: keep the struct guid of struct arrays when writing

---
 unreal_asset/unreal_asset_properties/src/array_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 5c62eb0..3b3ca9e 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -286,7 +286,7 @@ impl ArrayProperty {
                 )?;
                 if asset.get_object_version() >= ObjectVersion::VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG
                 {
-                    asset.write_guid(&property.property_guid.unwrap_or_default())?;
+                    asset.write_guid(&property.struct_guid.unwrap_or_default())?;
                 }
                 if asset.get_object_version()
                     >= ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG
-- 
2.43.0


From 404095a050195ef8fd8b5dd516fff3e7b2717704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:59 +0000
Subject: [PATCH 07/40] fix: keep every removed key of a MapProperty

---
 unreal_asset/unreal_asset_properties/src/map_property.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 7d6871a..9aa704a 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -156,8 +156,7 @@ impl MapProperty {
         let type_2 = type_2.ok_or_else(|| Error::invalid_file("No type2".to_string()))?;
 
         for _ in 0..num_keys_to_remove as usize {
-            let mut vec = Vec::with_capacity(num_keys_to_remove as usize);
-            vec.push(MapProperty::map_type_to_class(
+            let key = MapProperty::map_type_to_class(
                 asset,
                 type_1.clone(),
                 name.clone(),
@@ -165,8 +164,10 @@ impl MapProperty {
                 0,
                 false,
                 true,
-            )?);
-            keys_to_remove = Some(vec);
+            )?;
+            keys_to_remove
+                .get_or_insert_with(|| Vec::with_capacity(num_keys_to_remove as usize))
+                .push(key);
         }
 
         let num_entries = asset.read_i32::<LE>()?;
-- 
2.43.0


From 34d38b00e4f2403398c31a6b70735a0906bec1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:59 +0000
Subject: [PATCH 08/40] fix: write the number of imported classes of
 AssetPackageData

---
 .../unreal_asset_registry/src/objects/asset_package_data.rs      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs b/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
index ecce2b5..9374361 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
@@ -146,6 +146,7 @@ impl AssetPackageData {
                 RegistryError::version("Imported classes".to_string(), self.version)
             })?;
 
+            asset.write_i32::<LE>(imported_classes.len() as i32)?;
             for immported_class in imported_classes {
                 asset.write_fname(immported_class)?;
             }
-- 
2.43.0


From c6080909d935fa6c0d930df02381a3b7403ea1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:11 +0000
Subject: [PATCH 09/40] fix: keep empty type names of movie scene pointer
 properties, read them without a header

---
 .../movie_scene_eval_template_ptr_property.rs     | 15 +++++----------
 ...vie_scene_track_implementation_ptr_property.rs | 13 ++++---------
 2 files changed, 9 insertions(+), 19 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
index 1a43da5..acabaaa 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
@@ -33,16 +33,11 @@ impl MovieSceneEvalTemplatePtrProperty {
 
         let type_name_fname = asset.add_fname("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
-        let type_name = StrProperty::new(
-            asset,
-            type_name_fname,
-            new_ancestry.clone(),
-            include_header,
-            0,
-        )?;
-
-        if type_name.value.is_some() {
-            value.push(type_name.into());
+        let type_name = StrProperty::new(asset, type_name_fname, new_ancestry.clone(), false, 0)?;
+        let has_type_name = type_name.value.is_some();
+        value.push(type_name.into());
+
+        if has_type_name {
             let mut unversioned_header = UnversionedHeader::new(asset)?;
             while let Some(data) = Property::new(
                 asset,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
index c41ad45..7876517 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
@@ -33,16 +33,11 @@ impl MovieSceneTrackImplementationPtrProperty {
 
         let type_name_fname = asset.add_fname("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
-        let type_name = StrProperty::new(
-            asset,
-            type_name_fname,
-            new_ancestry.clone(),
-            include_header,
-            0,
-        )?;
+        let type_name = StrProperty::new(asset, type_name_fname, new_ancestry.clone(), false, 0)?;
+        let has_type_name = type_name.value.is_some();
+        value.push(type_name.into());
 
-        if type_name.value.is_some() {
-            value.push(type_name.into());
+        if has_type_name {
             let mut unversioned_header = UnversionedHeader::new(asset)?;
             while let Some(data) = Property::new(
                 asset,
-- 
2.43.0


From f5ae4cf6b44e81827740198f2048c89401c5877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 10/40] fix: write the timestamp field of version 1 pak
 entries, which is always read

---
 unreal_pak/src/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index 516f0d1..70d761d 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -180,6 +180,11 @@ impl Header {
         writer.write_u64::<LE>(header.decompressed_size)?;
         writer.write_u32::<LE>(header.compression_method.as_u32(pak_version, compression)?)?;
 
+        // timestamp
+        if pak_version <= PakVersion::Initial {
+            writer.write_u64::<LE>(0)?;
+        }
+
         writer.write_all(&header.hash)?;
 
         if pak_version >= PakVersion::CompressionEncryption {
-- 
2.43.0


From f4a42d8a94d0fc852a86781476fd8233dee392c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 11/40] fix: store absolute compression block offsets in old
 paks, as they are read

---
 unreal_pak/src/header.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index 70d761d..6b5bc8f 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -77,15 +77,11 @@ impl Header {
                 let block_count = reader.read_u32::<LE>()? as usize;
                 let mut compression_blocks_inner = Vec::with_capacity(block_count);
 
+                // convert old absolute to relative offsets
+                let base = Self::block_base(pak_version, offset);
                 for _ in 0..block_count {
-                    // convert old absolute to relative offsets
-                    let start_offset = reader.read_u64::<LE>()?
-                        - if pak_version < PakVersion::RelativeChunkOffsets {
-                            offset
-                        } else {
-                            0
-                        };
-                    let end_offset = reader.read_u64::<LE>()?;
+                    let start_offset = reader.read_u64::<LE>()? - base;
+                    let end_offset = reader.read_u64::<LE>()? - base;
                     compression_blocks_inner.push(Block {
                         start: start_offset,
                         size: end_offset - start_offset,
@@ -191,9 +187,10 @@ impl Header {
             if !matches!(header.compression_method, Compression::None) {
                 if let Some(compression_blocks) = &header.compression_blocks {
                     writer.write_u32::<LE>(compression_blocks.len() as u32)?;
+                    let base = Self::block_base(pak_version, header.offset);
                     for block in compression_blocks {
-                        writer.write_u64::<LE>(block.start)?;
-                        writer.write_u64::<LE>(block.start + block.size)?;
+                        writer.write_u64::<LE>(block.start + base)?;
+                        writer.write_u64::<LE>(block.start + block.size + base)?;
                     }
                 }
             }
@@ -205,6 +202,15 @@ impl Header {
         Ok(())
     }
 
+    /// What the stored offsets of compression blocks are relative to
+    fn block_base(pak_version: PakVersion, offset: u64) -> u64 {
+        if pak_version < PakVersion::RelativeChunkOffsets {
+            offset
+        } else {
+            0
+        }
+    }
+
     pub(crate) fn calculate_header_len(pak_version: PakVersion, block_count: Option<u32>) -> u64 {
         let mut len = 0;
 
-- 
2.43.0


From 66061acf8acc8b19a69353e8bb927bb4f4b714eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 12/40] fix: read paks which are shorter than the largest
 possible footer

---
 unreal_pak/src/index.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 2f7d197..3df10c8 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -160,8 +160,14 @@ impl Footer {
         // magic offset (from bottom) can only be 0x2C (v2-v7), 0xAC (v8a), 0xCC (v8b,v11), 0xCD (v9)
         let possible_offsets = vec![-0x2C, -0xAC, -0xCC, -0xCD];
 
+        let file_len = reader.seek(SeekFrom::End(0))?;
+
         let mut magic_offset = None;
         for offset in possible_offsets {
+            // the file may be too short to have this kind of footer
+            if file_len < i64::unsigned_abs(offset) {
+                continue;
+            }
             reader.seek(SeekFrom::End(offset))?;
             if reader.read_u32::<BE>()? == PAK_MAGIC {
                 magic_offset = Some(offset);
-- 
2.43.0


From 903d49ec36864481117d2f025220b144e28e5d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 13/40] fix: write the compression method table of UE 4.22 paks

---
 unreal_pak/src/index.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 3df10c8..fb1ff28 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -259,6 +259,9 @@ impl Footer {
         // compression methods
         if footer.pak_version >= PakVersion::FnameBasedCompressionMethod {
             writer.write_all(footer.compression_methods.as_bytes().as_slice())?;
+        } else if footer.pak_version == PakVersion::FnameBasedCompressionMethodInitial {
+            // this version only has 4 entries
+            writer.write_all(&footer.compression_methods.as_bytes()[..4 * 0x20])?;
         }
 
         Ok(())
-- 
2.43.0


From 4408e74cee1933dfff238275f6fedb5e9f20cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 14/40] fix: flush the writer when finishing a pak, so that
 write errors are reported

---
 unreal_pak/src/pakwriter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_pak/src/pakwriter.rs b/unreal_pak/src/pakwriter.rs
index 7b3ce9e..12f0995 100644
--- a/unreal_pak/src/pakwriter.rs
+++ b/unreal_pak/src/pakwriter.rs
@@ -101,6 +101,9 @@ where
             footer,
         };
 
-        Index::write(&mut self.writer, index)
+        Index::write(&mut self.writer, index)?;
+        self.writer.flush()?;
+
+        Ok(())
     }
 }
-- 
2.43.0


From 8164ba3fd3845754be03a8e1c5c812ac1083a3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 15/40] fix: fail when a directory can not be listed while
 creating a pak

---
 unreal_pak_cli/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index 4421695..38b6a2e 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -187,7 +187,13 @@ fn main() {
             // Get all files and write them to the .pak file
             let files = WalkDir::new(&indir)
                 .into_iter()
-                .filter_map(|entry| entry.ok())
+                .map(|entry| match entry {
+                    Ok(entry) => entry,
+                    Err(err) => {
+                        eprintln!("Error listing {indir:?}! Error: {err}");
+                        exit(1);
+                    }
+                })
                 .filter(|entry| entry.file_type().is_file())
                 .collect::<Vec<_>>();
             //files.sort_unstable_by_key(|entry| entry.file_name().to_owned());
-- 
2.43.0


From a15318d97d3925e4880ef690309dc4e68c54769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 16/40] fix: refuse to extract pak entries outside of the
 output folder

---
 unreal_pak_cli/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index 38b6a2e..ba6c177 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -1,6 +1,6 @@
 use std::fs::{File, OpenOptions};
 use std::io::{BufReader, BufWriter, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::process::exit;
 use std::time::SystemTime;
 
@@ -99,6 +99,15 @@ fn main() {
             for (i, (file_name, data)) in pak.iter().enumerate() {
                 match data {
                     Ok(data) => {
+                        // entries must not end up outside of the output folder
+                        if !Path::new(file_name)
+                            .components()
+                            .all(|c| matches!(c, Component::Normal(_) | Component::CurDir))
+                        {
+                            eprintln!("Invalid path in record {i}: {file_name:?}!");
+                            exit(1);
+                        }
+
                         let path = output_folder.join(file_name);
                         let dir_path = match path.parent() {
                             Some(dir) => dir,
-- 
2.43.0


From 04981fddd1b49fab34d41f2e3512145ce7fbcbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:23 +0000
Subject: [PATCH 17/40] fix: leave out the legacy UE3 version exactly where it
 is not read

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 8505604..2855c99 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1006,7 +1006,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         cursor.write_u32::<BE>(UE4_ASSET_MAGIC)?;
         cursor.write_i32::<LE>(self.legacy_file_version)?;
 
-        if self.legacy_file_version != 4 {
+        if self.legacy_file_version != -4 {
             match self.asset_data.summary.unversioned {
                 true => cursor.write_i32::<LE>(0)?,
                 false => cursor.write_i32::<LE>(864)?,
-- 
2.43.0


From 9ad1bfb6124bdbdbb1458b22872c15e9d50be2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:23 +0000
Subject: [PATCH 18/40] fix: write the compatible engine version instead of the
 recorded one twice

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 2855c99..16484c0 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1090,7 +1090,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION
         {
-            self.engine_version_recorded.write(cursor)?;
+            self.engine_version_compatible.write(cursor)?;
         }
 
         cursor.write_u32::<LE>(self.compression_flags)?;
-- 
2.43.0


From 82d4b753f6845135dc29cf0a7f12cacd993d76ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:23 +0000
Subject: [PATCH 19/40] fix: do not panic when reading a single chunk id

---
 unreal_asset/src/asset.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 16484c0..f2fa836 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -712,8 +712,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         } else if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE
         {
-            self.chunk_ids = vec![];
-            self.chunk_ids[0] = self.read_i32::<LE>()?;
+            self.chunk_ids = vec![self.read_i32::<LE>()?];
         }
 
         if self.asset_data.object_version
-- 
2.43.0


From b0baee12be6747f7f5fa7fd1ce85b55327a09998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:23 +0000
Subject: [PATCH 20/40] fix: write the number of soft package references that
 are actually written

---
 unreal_asset/src/asset.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index f2fa836..2ee93af 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1062,7 +1062,10 @@ impl<'a, C: Read + Seek> Asset<C> {
 
         if self.asset_data.object_version >= ObjectVersion::VER_UE4_ADD_STRING_ASSET_REFERENCES_MAP
         {
-            cursor.write_i32::<LE>(self.soft_package_reference_count)?;
+            cursor.write_i32::<LE>(match self.soft_package_reference_list {
+                Some(ref list) => list.len() as i32,
+                None => self.soft_package_reference_count,
+            })?;
             cursor.write_i32::<LE>(asset_header.soft_package_reference_offset)?;
         }
 
-- 
2.43.0


From 064bedc91f7aff6ed5a98a5e7d76965ac7fdc7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:23 +0000
Subject: [PATCH 21/40] fix: read the hash of empty names, which is always
 written

---
 unreal_asset/unreal_asset_base/src/reader/archive_reader.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 14ba2a0..d36bb9e 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -110,7 +110,6 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         .ok_or_else(|| Error::no_data("name_map_string is None".to_string()))?;
 
         let hash = match self.get_object_version() >= ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED
-            && !string.is_empty()
         {
             true => self.read_u32::<LE>()?,
             false => 0,
-- 
2.43.0


From 417aaf2277693dacaf8f041ab0ca3ccce2778689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:23 +0000
Subject: [PATCH 22/40] fix: an import index one past the end has no import

---
 unreal_asset/src/asset.rs                | 2 +-
 unreal_asset/src/asset_archive_writer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 2ee93af..1967550 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -826,7 +826,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         }
 
         let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
+        if index < 0 || index >= self.imports.len() as i32 {
             return None;
         }
 
diff --git a/unreal_asset/src/asset_archive_writer.rs b/unreal_asset/src/asset_archive_writer.rs
index f332d1f..f76a7f0 100644
--- a/unreal_asset/src/asset_archive_writer.rs
+++ b/unreal_asset/src/asset_archive_writer.rs
@@ -56,7 +56,7 @@ impl<'parent_writer, 'asset, ParentWriter: ArchiveWriter<PackageIndex>>
         }
 
         let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
+        if index < 0 || index >= self.imports.len() as i32 {
             return None;
         }
 
-- 
2.43.0


From e2fac858301c64f1af9407c3bf9f0778025ca5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:30 +0000
Subject: [PATCH 23/40] fix: read definitions of bool properties as such

---
 unreal_asset/unreal_asset_exports/src/properties/uproperty.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
index cd420f7..77584c9 100644
--- a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
+++ b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
@@ -183,6 +183,7 @@ impl UProperty {
                 }
                 "InterfaceProperty" => UInterfaceProperty::new(asset)?.into(),
                 "MapProperty" => UMapProperty::new(asset)?.into(),
+                "BoolProperty" => UBoolProperty::new(asset)?.into(),
                 "ByteProperty" => UByteProperty::new(asset)?.into(),
                 "StructProperty" => UStructProperty::new(asset)?.into(),
                 "DoubleProperty" => UDoubleProperty::new(asset)?.into(),
-- 
2.43.0


From 10b95f2cd2f9c2e1e1b06be19846e680b7289fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:30 +0000
Subject: [PATCH 24/40] fix: set the animation custom version when an engine
 version is set

---
 unreal_asset/unreal_asset_base/src/custom_version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/custom_version.rs b/unreal_asset/unreal_asset_base/src/custom_version.rs
index f5b3686..3ad6d97 100644
--- a/unreal_asset/unreal_asset_base/src/custom_version.rs
+++ b/unreal_asset/unreal_asset_base/src/custom_version.rs
@@ -48,7 +48,6 @@ lazy_static! {
         ( (0xD7296918, 0x1DD64BDD, 0x9DE264A8, 0x3CC13884).into(), (String::from("FVRObjectVersion"), None) ),
         ( (0xC2A15278, 0xBFE74AFE, 0x6C1790FF, 0x531DF755).into(), (String::from("FLoadTimesObjectVersion"), None) ),
         ( (0x6EACA3D4, 0x40EC4CC1, 0xB7868BED, 0x9428FC5).into(),  (String::from("FGeometryObjectVersion"), None) ),
-        ( (0x29E575DD, 0xE0A34627, 0x9D10D276, 0x232CDCEA).into(), (String::from("FAnimPhysObjectVersion"), None) ),
         ( (0xAF43A65D, 0x7FD34947, 0x98733E8E, 0xD9C1BB05).into(), (String::from("FAnimObjectVersion"), None) ),
         ( (0x6B266CEC, 0x1EC74B8F, 0xA30BE4D9, 0x0942FC07).into(), (String::from("FReflectionCaptureObjectVersion"), None) ),
         ( (0x0DF73D61, 0xA23F47EA, 0xB72789E9, 0x0C41499A).into(), (String::from("FAutomationObjectVersion"), None) ),
@@ -73,6 +72,7 @@ lazy_static! {
         ( (0xaafe32bd, 0x53954c14, 0xb66a5e25, 0x1032d1dd).into(), (String::from("FProceduralFoliageCustomVersion"), None) ),
         ( (0xab965196, 0x45d808fc, 0xb7d7228d, 0x78ad569e).into(), (String::from("FLiveLinkCustomVersion"), None) ),
 
+        ( FAnimPhysObjectVersion::GUID,                             (String::from(FAnimPhysObjectVersion::FRIENDLY_NAME), Some(FAnimPhysObjectVersion::VERSION_MAPPINGS)) ),
         ( FCoreObjectVersion::GUID,                                 (String::from(FCoreObjectVersion::FRIENDLY_NAME), Some(FCoreObjectVersion::VERSION_MAPPINGS)) ),
         ( FEditorObjectVersion::GUID,                               (String::from(FEditorObjectVersion::FRIENDLY_NAME), Some(FEditorObjectVersion::VERSION_MAPPINGS)) ),
         ( FFrameworkObjectVersion::GUID,                            (String::from(FFrameworkObjectVersion::FRIENDLY_NAME), Some(FFrameworkObjectVersion::VERSION_MAPPINGS)) ),
-- 
2.43.0


From 8780a90db4360ef5557d31cdfba21e3c898770a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 25/40] fix: write_fstring counts the terminator of a UTF-16
 string

The returned size becomes the length field of the StrProperty tag, which was
two bytes short for every non-ASCII string.
---
 unreal_helpers/src/write_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/write_ext.rs b/unreal_helpers/src/write_ext.rs
index 0879720..d9d9735 100644
--- a/unreal_helpers/src/write_ext.rs
+++ b/unreal_helpers/src/write_ext.rs
@@ -69,7 +69,7 @@ impl<W: Write> UnrealWriteExt for W {
                 self.write_all(aligned)?;
 
                 self.write_all(&[0u8; 2])?;
-                Ok(size_of::<i32>() + aligned.len())
+                Ok(size_of::<i32>() + aligned.len() + 2)
             } else {
                 self.write_i32::<LE>(string.len() as i32 + 1)?;
                 let bytes = string.as_bytes();
-- 
2.43.0


From 6fdb333e844e26b667cac5ce33a369348e6549a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 26/40] fix: ExAssert counts its 16 bit line number as two
 bytes

The bytecode size of a function containing ExAssert was two bytes too large.
---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 860d899..e6f33ec 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -1597,7 +1597,7 @@ impl KismetExpressionTrait for ExAssert {
     ) -> Result<usize, Error> {
         asset.write_u16::<LE>(self.line_number)?;
         asset.write_bool(self.debug_mode)?;
-        let offset = size_of::<u32>()
+        let offset = size_of::<u16>()
             + size_of::<bool>()
             + KismetExpression::write(self.assert_expression.as_ref(), asset)?;
         Ok(offset)
-- 
2.43.0


From 6d56b6260ba203fd7f10b2aea8186ccf92fc5a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 27/40] fix: inner struct tag of an array counts exactly its
 elements

The length was computed from a fixed tag size that is wrong for arrays written
without a header and for versions without the property guid byte.
---
 .../src/array_property.rs                      | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 3b3ca9e..b7921ac 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -273,11 +273,11 @@ impl ArrayProperty {
                 },
             }?;
 
-            let mut length_loc = None;
+            let mut length_and_data_loc = None;
             if asset.get_object_version() >= ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO {
                 asset.write_fname(&property.name)?;
                 asset.write_fname(&asset.get_name_map().get_mut().add_fname("StructProperty"))?;
-                length_loc = Some(asset.position());
+                let length_loc = asset.position();
                 asset.write_i64::<LE>(0)?;
                 asset.write_fname(
                     property.struct_type.as_ref().ok_or_else(|| {
@@ -293,6 +293,7 @@ impl ArrayProperty {
                 {
                     asset.write_u8(0)?;
                 }
+                length_and_data_loc = Some((length_loc, asset.position()));
             }
 
             for property in &self.value {
@@ -306,19 +307,10 @@ impl ArrayProperty {
                 struct_property.write(asset, false)?;
             }
 
-            if asset.get_object_version() >= ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO {
-                let length_loc = length_loc.expect("Corrupted memory");
-                let full_len = asset.position() - length_loc;
+            if let Some((length_loc, data_loc)) = length_and_data_loc {
                 let new_loc = asset.position();
                 asset.seek(SeekFrom::Start(length_loc))?;
-                let length = full_len
-                    - 32
-                    - match include_header {
-                        true => 1,
-                        false => 0,
-                    };
-
-                asset.write_i32::<LE>(length as i32)?;
+                asset.write_i32::<LE>((new_loc - data_loc) as i32)?;
                 asset.seek(SeekFrom::Start(new_loc))?;
             }
         } else {
-- 
2.43.0


From 78302ad503601d4df703e199e7ba23fdc65181e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:53 +0000
Subject: [PATCH 28/40] fix: ExInstrumentationEvent counts its name like every
 other script name

A script name takes 12 bytes in memory; the bytecode size was 4 bytes short.
---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index e6f33ec..25b42e5 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -3274,7 +3274,7 @@ impl KismetExpressionTrait for ExInstrumentationEvent {
             asset.write_fname(self.event_name.as_ref().ok_or_else(|| {
                 Error::no_data("event_type is InlineEvent but event_name is None".to_string())
             })?)?;
-            return Ok(1 + 2 * size_of::<i32>());
+            return Ok(1 + 12); // FScriptName's iCode offset
         }
 
         Ok(1)
-- 
2.43.0


From 11af5661e8c9cf03eccbd8ef4f26adf1e14ba6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:10 +0000
Subject: [PATCH 29/40] fix: IndexedMap: an insertion after a removal no longer
 takes over the index of another element

---
 .../src/containers/indexed_map/mod.rs                  | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 0a6d807..10b0d71 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -568,17 +568,23 @@ where
             return &mut self.store[*storage_place];
         }
 
+        // removals leave gaps, so the amount of elements could be an index that is in use already
+        let insertion_index = self
+            .index_map
+            .last_key_value()
+            .map_or(0, |(index, _)| index + 1);
+
         let key_rc = KeyItem(Rc::new(key));
         let indexed_value = IndexedValue {
             value,
             key_map_index: key_rc.rc_clone(),
-            index_map_index: self.key_map.len(),
+            index_map_index: insertion_index,
             index_iter_map_index: self.index_iter_map.len(),
         };
         let store_place = self.store.insert(indexed_value);
 
         self.key_map.insert(key_rc, store_place);
-        self.index_map.insert(self.key_map.len() - 1, store_place);
+        self.index_map.insert(insertion_index, store_place);
         self.index_iter_map.push(store_place);
         &mut self.store[store_place]
     }
-- 
2.43.0


From 407e8b3a120dba8ad10a2924e62cbe2a4d7e1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:10 +0000
Subject: [PATCH 30/40] fix: IndexedMap: removing an element renumbers the
 iteration positions of those after it

---
 .../unreal_asset_base/src/containers/indexed_map/mod.rs        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 10b0d71..fa85559 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -686,6 +686,9 @@ where
         let value = self.store.remove(store_place);
 
         self.index_iter_map.remove(value.index_iter_map_index);
+        for place in &self.index_iter_map[value.index_iter_map_index..] {
+            self.store[*place].index_iter_map_index -= 1;
+        }
         self.index_map.remove(&value.index_map_index);
         self.key_map.remove(value.key_map_index.0.as_ref());
 
-- 
2.43.0


From 03e68fcaf5d0f33cd319cf779d0d575795061f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:10 +0000
Subject: [PATCH 31/40] fix: IndexedMap: iterators yield the insertion index,
 not the slot the element is stored in

---
 .../src/containers/indexed_map/mod.rs         | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index fa85559..4d1431c 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -162,7 +162,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next()?;
         let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -173,7 +177,11 @@ where
     fn next_back(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next_back()?;
         let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -222,10 +230,11 @@ where
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -242,10 +251,11 @@ where
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -282,7 +292,7 @@ where
         let value = self.store.remove(index);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
@@ -298,7 +308,7 @@ where
         let value = self.store.remove(index);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
-- 
2.43.0


From 5fa64e922a226451c12398515c4721c00d8a9790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:10 +0000
Subject: [PATCH 32/40] fix: IndexedMap: maps that hold different values are
 not equal

---
 .../src/containers/indexed_map/mod.rs                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 4d1431c..4987f22 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -773,15 +773,19 @@ where
 impl<K, V> PartialEq for IndexedMap<K, V>
 where
     K: Eq + Hash,
+    V: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        self.key_map == other.key_map
-            && self.index_map == other.index_map
-            && self.index_iter_map == other.index_iter_map
+        self.len() == other.len() && self.iter().eq(other.iter())
     }
 }
 
-impl<K, V> Eq for IndexedMap<K, V> where K: Eq + Hash {}
+impl<K, V> Eq for IndexedMap<K, V>
+where
+    K: Eq + Hash,
+    V: Eq,
+{
+}
 
 impl<K, V> Clone for IndexedMap<K, V>
 where
-- 
2.43.0


From df3aa7dcb855ab6030daff4d0a6c1db400fbd4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:52 +0000
Subject: [PATCH 33/40] fix: a name table with repeated names keeps the index
 of every name

---
 unreal_asset/unreal_asset_base/src/containers/name_map.rs   | 2 +-
 unreal_asset/unreal_asset_registry/src/name_table_reader.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/name_map.rs b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
index c70f46e..c678716 100644
--- a/unreal_asset/unreal_asset_base/src/containers/name_map.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
@@ -36,7 +36,7 @@ impl NameMap {
         name_map.get_mut().name_map_index_list = Vec::with_capacity(name_batch.len());
 
         for name in name_batch {
-            name_map.get_mut().add_name_reference(name.clone(), false);
+            name_map.get_mut().add_name_reference(name.clone(), true);
         }
 
         name_map
diff --git a/unreal_asset/unreal_asset_registry/src/name_table_reader.rs b/unreal_asset/unreal_asset_registry/src/name_table_reader.rs
index 21929f4..ddc9d3c 100644
--- a/unreal_asset/unreal_asset_registry/src/name_table_reader.rs
+++ b/unreal_asset/unreal_asset_registry/src/name_table_reader.rs
@@ -44,7 +44,7 @@ impl<'reader, Reader: ArchiveReader<PackageIndex>> NameTableReader<'reader, Read
                 let name = reader.read_fstring()?.ok_or_else(|| {
                     Error::invalid_file(format!("Name table entry {i} is missing a name"))
                 })?;
-                name_map.get_mut().add_name_reference(name, false);
+                name_map.get_mut().add_name_reference(name, true);
 
                 if reader.get_object_version() >= ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED {
                     let _non_case_preserving_hash = reader.read_u16::<LE>()?;
-- 
2.43.0


From 74a5d8bda33da0bc4e721d849371161151fc21dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:52 +0000
Subject: [PATCH 34/40] fix: NameMap: a search never returns the index of a
 different name

---
 unreal_asset/unreal_asset_base/src/containers/name_map.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/name_map.rs b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
index c678716..3e57ba2 100644
--- a/unreal_asset/unreal_asset_base/src/containers/name_map.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
@@ -47,7 +47,11 @@ impl NameMap {
         let mut s = DefaultHasher::new();
         name.hash(&mut s);
 
-        self.name_map_lookup.get_by_key(&s.finish()).copied()
+        // the lookup is by hash, which other names can have, and names can be changed in place
+        self.name_map_lookup
+            .get_by_key(&s.finish())
+            .copied()
+            .filter(|index| self.get_name_reference(*index) == name)
     }
 
     /// Add an FName reference
-- 
2.43.0


From d17768e9ecdf79de0f59aaac584b1b9828c448ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:02 +0000
Subject: [PATCH 35/40] fix: read as many evaluation tree items as are stored

The number of entries was used for the items as well.
---
 .../src/movies/movie_scene_evaluation.rs                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
index 9479bd0..cd38712 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
@@ -145,7 +145,7 @@ where
         let items_amount = asset.read_i32::<LE>()?;
         let mut items = Vec::with_capacity(items_amount as usize);
 
-        for _ in 0..entries_amount {
+        for _ in 0..items_amount {
             items.push(item_reader(asset)?);
         }
 
-- 
2.43.0


From 226751c446549acbd0eca70453fe4d9712be4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:02 +0000
Subject: [PATCH 36/40] fix: accept every stored node index in registry
 dependencies

The index was compared with the list being filled, which refused every
registry before AddedDependencyFlags that has a dependency.
---
 unreal_asset/unreal_asset_registry/src/objects/depends_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 4430fda..45acad0 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -460,7 +460,7 @@ impl DependsNode {
     ) -> Result<(), Error> {
         for _ in 0..num {
             let index = asset.read_i32::<LE>()?;
-            if index < 0 || nodes.len() <= index as usize {
+            if index < 0 || preallocated_depends_node_buffer.len() <= index as usize {
                 return Err(RegistryError::InvalidIndex(index).into());
             }
 
-- 
2.43.0


From ce8292907069cc3cfb6c8b95cce0cfecc504b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:02 +0000
Subject: [PATCH 37/40] fix: store the size of the registry dependency section
 without the size field

Reading skips the section from behind the size, so that the package data
was looked for 8 bytes too late.
---
 unreal_asset/unreal_asset_registry/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index 49045d8..58c45a2 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -8,6 +8,7 @@
 //! but some games might require modifying it before your assets will get loaded
 
 use std::io::{Cursor, Seek, SeekFrom};
+use std::mem::size_of;
 
 use byteorder::{ReadBytesExt, WriteBytesExt, LE};
 
@@ -137,7 +138,7 @@ impl AssetRegistryState {
 
             let end_pos = writer.position();
             writer.set_position(pos)?;
-            writer.write_i64::<LE>(end_pos as i64 - pos as i64)?;
+            writer.write_i64::<LE>((end_pos - pos) as i64 - size_of::<i64>() as i64)?;
             writer.set_position(end_pos)?;
         }
 
-- 
2.43.0


From 98cf26d762054b952f1744e671a90207f846d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:46 +0000
Subject: [PATCH 38/40] fix: Chain: a read crossing into the second part
 continued where that was left

After seeking into the second part and back into the first, a read across the
boundary read the second part from its old position instead of its start.
---
 unreal_asset/unreal_asset_base/src/containers/chain.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/chain.rs b/unreal_asset/unreal_asset_base/src/containers/chain.rs
index 4652949..96856ae 100644
--- a/unreal_asset/unreal_asset_base/src/containers/chain.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/chain.rs
@@ -80,7 +80,11 @@ impl<C: Read + Seek> Seek for Chain<C> {
             Some(sec) => match pos {
                 SeekFrom::Start(offset) => {
                     self.pos = match offset < self.first_len {
-                        true => self.first.seek(pos)?,
+                        true => {
+                            // reading on into the second one starts at its beginning
+                            sec.rewind()?;
+                            self.first.seek(pos)?
+                        }
                         false => {
                             self.first_len + sec.seek(SeekFrom::Start(offset - self.first_len))?
                         }
-- 
2.43.0


From 729fb8b9581c1c80e6ebfdeb52f04bb32885113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:51 +0000
Subject: [PATCH 39/40] fix: metadata with an invalid dependency version made
 from_slice panic instead of returning an error

---
 unreal_mod_metadata/src/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index f08b941..bcfa4f7 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -32,7 +32,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(de::Error::custom)
         }
 
         fn visit_map<M>(self, map: M) -> Result<T, M::Error>
-- 
2.43.0


From 397fff78b522db129e28a7e11a342d7b31bb5040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:27 +0000
Subject: [PATCH 40/40] fix: comparing or hashing metadata with integrator
 arrays or objects panicked, and the result depended on the order of hash maps

---
 unreal_mod_metadata/src/lib.rs | 36 +++++++++++++++++++++++++++-------
 unreal_mod_metadata/src/v2.rs  | 30 ++++++++++------------------
 2 files changed, 39 insertions(+), 27 deletions(-)

diff --git a/unreal_mod_metadata/src/lib.rs b/unreal_mod_metadata/src/lib.rs
index 5904712..3a0a0ee 100644
--- a/unreal_mod_metadata/src/lib.rs
+++ b/unreal_mod_metadata/src/lib.rs
@@ -1,7 +1,9 @@
+use std::hash::{Hash, Hasher};
 use std::str::FromStr;
 
 use semver::VersionReq;
 use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
+use serde_json::Value;
 
 use error::Error;
 
@@ -13,16 +15,36 @@ pub use crate::v2::Metadata;
 #[macro_export]
 macro_rules! hash_value {
     ($name:expr, $state:expr) => {
-        match $name {
-            Value::String(s) => s.hash($state),
-            Value::Number(n) => n.hash($state),
-            Value::Bool(b) => b.hash($state),
-            Value::Null => (),
-            _ => unreachable!(),
-        }
+        $crate::hash_json($name, $state)
     };
 }
 
+/// Hash a json value, values that are equal hash alike
+pub fn hash_json<H: Hasher>(value: &Value, state: &mut H) {
+    match value {
+        Value::String(s) => s.hash(state),
+        Value::Number(n) => n.hash(state),
+        Value::Bool(b) => b.hash(state),
+        Value::Null => (),
+        Value::Array(elements) => {
+            elements.len().hash(state);
+            for element in elements {
+                hash_json(element, state);
+            }
+        }
+        Value::Object(members) => {
+            let mut members: Vec<_> = members.iter().collect();
+            members.sort_by_key(|(name, _)| *name);
+
+            members.len().hash(state);
+            for (name, member) in members {
+                name.hash(state);
+                hash_json(member, state);
+            }
+        }
+    }
+}
+
 #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, Default, Serialize, Deserialize)]
 pub enum SyncMode {
     #[default]
diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index bcfa4f7..5f586fc 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -1,5 +1,5 @@
-use std::collections::{hash_map::DefaultHasher, HashMap};
-use std::hash::{Hash, Hasher};
+use std::collections::HashMap;
+use std::hash::Hash;
 use std::marker::PhantomData;
 use std::str::FromStr;
 
@@ -96,13 +96,17 @@ impl Hash for Metadata {
         self.download.hash(state);
 
         self.dependencies.len().hash(state);
-        for (element_name, element) in &self.dependencies {
+        let mut dependencies: Vec<_> = self.dependencies.iter().collect();
+        dependencies.sort_by_key(|(element_name, _)| *element_name);
+        for (element_name, element) in dependencies {
             element_name.hash(state);
             element.hash(state);
         }
 
         self.integrator.len().hash(state);
-        for (element_name, element) in &self.integrator {
+        let mut integrator: Vec<_> = self.integrator.iter().collect();
+        integrator.sort_by_key(|(element_name, _)| *element_name);
+        for (element_name, element) in integrator {
             element_name.hash(state);
             hash_value!(element, state);
         }
@@ -113,7 +117,7 @@ impl Hash for Metadata {
 
 impl PartialEq for Metadata {
     fn eq(&self, other: &Self) -> bool {
-        let cmp = self.schema_version == other.schema_version
+        self.schema_version == other.schema_version
             && self.name == other.name
             && self.mod_id == other.mod_id
             && self.author == other.author
@@ -125,21 +129,7 @@ impl PartialEq for Metadata {
             && self.download == other.download
             && self.dependencies == other.dependencies
             && self.cpp_loader_dlls == other.cpp_loader_dlls
-            && self.integrator.len() == other.integrator.len();
-
-        let mut hasher = DefaultHasher::new();
-        for (element_name, element) in &self.integrator {
-            element_name.hash(&mut hasher);
-            hash_value!(element, &mut hasher);
-        }
-
-        let mut other_hasher = DefaultHasher::new();
-        for (element_name, element) in &other.integrator {
-            element_name.hash(&mut other_hasher);
-            hash_value!(element, &mut other_hasher);
-        }
-
-        cmp && (hasher.finish() == other_hasher.finish())
+            && self.integrator == other.integrator
     }
 }
 
-- 
2.43.0

