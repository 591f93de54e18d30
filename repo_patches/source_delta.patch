From d9a857e45b8a44f66d8c36bf3f3b756001978899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:33 +0000
Subject: [PATCH 01/63] fix: dates read from a file were up to one second late

---
 src/helper_functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index a0c10fe..e4ade06 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -35,8 +35,8 @@ fn f64_to_adjusted_duration(f: f64) -> ChronoDuration {
     let secs_per_day = 24i64 * 60 * 60;
     let seconds = days_since_dublin * secs_per_day as f64;
     // functions consuming this need to use 1900/01/01 instead of 1899/12/31 as a base
-    // so we counter the extra day and leap second here
-    ChronoDuration::seconds(seconds as i64 - secs_per_day + 1)
+    // so we counter the extra day here
+    ChronoDuration::seconds(seconds.round() as i64 - secs_per_day)
 }
 
 fn epoch<T>(timezone: &T) -> DateTime<T>
-- 
2.43.0


From 7ebb3966a872c75b2e349b36b3291d8c4ec92dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:33 +0000
Subject: [PATCH 02/63] fix: MLINE points were written under the wrong group
 codes

---
 spec/EntitiesSpec.xml | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index 9f17b24..a74ec6b 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -682,20 +682,20 @@
       <WriteField Field="start_point" />
       <WriteField Field="normal" />
       <Foreach Field="ent.vertices">
-        <WriteSpecificValue Code="10" Value="item.x" />
-        <WriteSpecificValue Code="20" Value="item.y" />
-        <WriteSpecificValue Code="30" Value="item.z" />
-      </Foreach>
-      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="11" Value="item.x" />
         <WriteSpecificValue Code="21" Value="item.y" />
         <WriteSpecificValue Code="31" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.miter_directions">
+      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="12" Value="item.x" />
         <WriteSpecificValue Code="22" Value="item.y" />
         <WriteSpecificValue Code="32" Value="item.z" />
       </Foreach>
+      <Foreach Field="ent.miter_directions">
+        <WriteSpecificValue Code="13" Value="item.x" />
+        <WriteSpecificValue Code="23" Value="item.y" />
+        <WriteSpecificValue Code="33" Value="item.z" />
+      </Foreach>
       <WriteSpecificValue Code="74" Value="ent.parameters.len() as i16" />
       <WriteField Field="parameters" />
       <WriteSpecificValue Code="75" Value="ent.area_fill_parameters.len() as i16" />
-- 
2.43.0


From af1d236d9fa256e0658a350d3ca7bb62de5e2d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:34 +0000
Subject: [PATCH 03/63] fix: the y coordinates of underlay points were written
 under code 12 instead of 21

---
 spec/EntitiesSpec.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index a74ec6b..a4ce067 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -1164,7 +1164,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1202,7 +1202,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1240,7 +1240,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
-- 
2.43.0


From 48b969f909d8126643560961169dd1da1ad983e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:34 +0000
Subject: [PATCH 04/63] fix: WIPEOUT clipping vertices were lost on load

---
 spec/EntitiesSpec.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index a4ce067..f87ecca 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -1302,7 +1302,7 @@
     <Field Name="clipping_type" Code="71" Type="ImageClippingBoundaryType" DefaultValue="ImageClippingBoundaryType::Rectangular" ReadConverter="enum_from_number!(ImageClippingBoundaryType, Rectangular, from_i16, {})" WriteConverter="{} as i16" />
     <Field Name="clipping_vertex_count" Code="91" Type="i32" DefaultValue="0" />
     <Field Name="__clipping_vertices_x" Code="14" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
-    <Field Name="__clipping_vertices_y" Code="12" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
+    <Field Name="__clipping_vertices_y" Code="24" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
     <Field Name="clipping_vertices" Code="14" Type="Point" DefaultValue="vec![]" AllowMultiples="true" GenerateReader="false" />
     <Field Name="is_inside_clipping" Code="290" Type="bool" DefaultValue="false" MinVersion="R2010" />
     <WriteOrder>
-- 
2.43.0


From 904084090b84bebb8b8904aa6bcaea6824bfe00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:34 +0000
Subject: [PATCH 05/63] fix: MATERIAL specular map file name was read as the
 normal map file name

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 3d7c896..cc163e5 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -698,7 +698,7 @@ impl Object {
                     }
                 }
                 4 => {
-                    mat.normal_map_file_name = pair.assert_string()?;
+                    mat.specular_map_file_name = pair.assert_string()?;
                 }
                 6 => {
                     mat.reflection_map_file_name = pair.assert_string()?;
-- 
2.43.0


From e9e3d7e20cf507b199ba763267882912e5604f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:34 +0000
Subject: [PATCH 06/63] fix: MLINESTYLE elements and MATERIAL matrices were
 lost on load

---
 src/object.rs                | 3 +--
 src/transformation_matrix.rs | 2 ++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index cc163e5..97605ac 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -121,10 +121,9 @@ impl Object {
                                         None => return Err(DxfError::UnexpectedEndOfInput),
                                     }
                                 }
-
-                                obj.post_parse()?;
                             }
 
+                            obj.post_parse()?;
                             return Ok(Some(obj));
                         }
                         None => {
diff --git a/src/transformation_matrix.rs b/src/transformation_matrix.rs
index b4a1422..963be95 100644
--- a/src/transformation_matrix.rs
+++ b/src/transformation_matrix.rs
@@ -74,6 +74,8 @@ impl TransformationMatrix {
     fn value_or_default(values: &[f64], index: usize) -> f64 {
         if values.len() > index {
             values[index]
+        } else if index % 5 == 0 {
+            1.0 // missing values come from the identity matrix
         } else {
             0.0
         }
-- 
2.43.0


From 03eb21c79681159eca0d07455d3a4267f4646e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:34 +0000
Subject: [PATCH 07/63] fix: SPATIAL_FILTER matrices were transposed by a round
 trip

---
 src/object.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 97605ac..19a091c 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1217,21 +1217,17 @@ impl Object {
                         if matrix_list.len() == 12 {
                             let matrix = TransformationMatrix::from_vec(&[
                                 matrix_list[0],
-                                matrix_list[1],
-                                matrix_list[2],
-                                0.0,
                                 matrix_list[3],
-                                matrix_list[4],
-                                matrix_list[5],
-                                0.0,
                                 matrix_list[6],
-                                matrix_list[7],
-                                matrix_list[8],
-                                0.0,
                                 matrix_list[9],
+                                matrix_list[1],
+                                matrix_list[4],
+                                matrix_list[7],
                                 matrix_list[10],
+                                matrix_list[2],
+                                matrix_list[5],
+                                matrix_list[8],
                                 matrix_list[11],
-                                0.0,
                             ]);
                             matrix_list.clear();
                             if !set_inverse_matrix {
-- 
2.43.0


From 26ff9a69a7190c984e1cbc08a182963dfc8dbe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:34 +0000
Subject: [PATCH 08/63] fix: TABLESTYLE title suppression was read as the
 version before R2010

---
 src/object.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/object.rs b/src/object.rs
index 19a091c..8cdc62e 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1389,6 +1389,7 @@ impl Object {
             match pair.code {
                 3 => {
                     ts.description = pair.assert_string()?;
+                    read_version = true; // only written before the description
                 }
                 7 => {
                     iter.put_back(Ok(pair)); // let the TableCellStyle reader parse this
-- 
2.43.0


From e4a7e33a655c9a01a328181bb4673622952c94e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:43 +0000
Subject: [PATCH 09/63] fix: header variables that share a field with an older
 one were never read

---
 build/header_generator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/header_generator.rs b/build/header_generator.rs
index ea9477a..4dc6928 100644
--- a/build/header_generator.rs
+++ b/build/header_generator.rs
@@ -181,13 +181,13 @@ fn generate_set_defaults(fun: &mut String, element: &Element) {
 }
 
 fn generate_set_header_value(fun: &mut String, element: &Element) {
-    let mut seen_fields = HashSet::new();
+    let mut seen_names = HashSet::new();
     fun.push_str("    #[allow(clippy::cognitive_complexity)] // generated method\n");
     fun.push_str("    pub(crate) fn set_header_value(&mut self, variable: &str, pair: &CodePair) -> DxfResult<()> {\n");
     fun.push_str("        match variable {\n");
     for v in &element.children {
-        if !seen_fields.contains(&field(v)) {
-            seen_fields.insert(field(v));
+        if !seen_names.contains(&name(v)) {
+            seen_names.insert(name(v));
             fun.push_str(&format!("            \"${name}\" => {{", name = name(v)));
             let variables_with_name: Vec<&Element> = element
                 .children
-- 
2.43.0


From c9ff05618dfa9d3a539e8223a3efc9d99d197147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:46 +0000
Subject: [PATCH 10/63] fix: the lock flag of attributes was read as the
 version in R2007 files

---
 src/entity.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index c2eeb9e..c6b73b0 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -825,6 +825,7 @@ impl Entity {
                         att.x_record_tag = pair.assert_string()?;
                     } else {
                         att.attribute_tag = pair.assert_string()?;
+                        is_version_set = true; // only written before the tag
                     }
                 }
                 7 => {
@@ -973,6 +974,7 @@ impl Entity {
                         att.x_record_tag = pair.assert_string()?;
                     } else {
                         att.text_tag = pair.assert_string()?;
+                        is_version_set = true; // only written before the tag
                     }
                 }
                 3 => {
-- 
2.43.0


From 0e79b1a5dd8c38f5065fc086f5023a8415b3bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:19 +0000
Subject: [PATCH 11/63] fix: common properties of entities were taken for
 entity-specific ones

---
 src/entity.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index c6b73b0..d109907 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -392,6 +392,11 @@ impl EntityCommon {
 //------------------------------------------------------------------------------
 //                                                                        Entity
 //------------------------------------------------------------------------------
+/// The group codes of the `AcDbEntity` subclass that other subclasses use with another meaning.
+fn is_common_code(code: i32) -> bool {
+    matches!(code, 48 | 92 | 310 | 420 | 430)
+}
+
 impl Entity {
     /// Creates a new `Entity` with the default common values.
     pub fn new(specific: EntityType) -> Self {
@@ -618,6 +623,7 @@ impl Entity {
                                     let mut entity = Entity::new(e);
                                     if !entity.apply_custom_reader(iter)? {
                                         // no custom reader, use the auto-generated one
+                                        let mut in_common = false;
                                         loop {
                                             match iter.next() {
                                                 Some(Ok(pair @ CodePair { code: 0, .. })) => {
@@ -626,7 +632,17 @@ impl Entity {
                                                     break;
                                                 }
                                                 Some(Ok(pair)) => {
-                                                    entity.apply_code_pair(&pair, iter)?
+                                                    if pair.code == 100 {
+                                                        in_common =
+                                                            pair.assert_string()? == "AcDbEntity";
+                                                    }
+                                                    if in_common && is_common_code(pair.code) {
+                                                        entity
+                                                            .common
+                                                            .apply_individual_pair(&pair, iter)?
+                                                    } else {
+                                                        entity.apply_code_pair(&pair, iter)?
+                                                    }
                                                 }
                                                 Some(Err(e)) => return Err(e),
                                                 None => return Err(DxfError::UnexpectedEndOfInput),
@@ -1164,9 +1180,16 @@ impl Entity {
     ) -> DxfResult<bool> {
         let mut reading_column_data = false;
         let mut read_column_count = false;
+        let mut in_common = false;
         loop {
             let pair = next_pair!(iter);
             match pair.code {
+                100 => {
+                    in_common = pair.assert_string()? == "AcDbEntity";
+                }
+                code if in_common && is_common_code(code) => {
+                    common.apply_individual_pair(&pair, iter)?;
+                }
                 10 => {
                     mtext.insertion_point.x = pair.assert_f64()?;
                 }
-- 
2.43.0


From 51435539361826d052d443bfbd1b8704abd18916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:20 +0000
Subject: [PATCH 12/63] fix: the owner of some objects was taken for one of
 their own references

---
 src/object.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 8cdc62e..e156710 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -109,6 +109,8 @@ impl Object {
                             let mut obj = Object::new(e);
                             if !obj.apply_custom_reader(iter)? {
                                 // no custom reader, use the auto-generated one
+                                // the owner comes before the first subclass marker; fields have none
+                                let mut in_common = !matches!(obj.specific, ObjectType::Field(_));
                                 loop {
                                     match iter.next() {
                                         Some(Ok(pair @ CodePair { code: 0, .. })) => {
@@ -116,7 +118,19 @@ impl Object {
                                             iter.put_back(Ok(pair));
                                             break;
                                         }
-                                        Some(Ok(pair)) => obj.apply_code_pair(&pair, iter)?,
+                                        Some(Ok(pair)) => {
+                                            if pair.code == 100 {
+                                                in_common = false;
+                                            }
+                                            if in_common
+                                                && pair.code == 330
+                                                && obj.common.__owner_handle.is_empty()
+                                            {
+                                                obj.common.__owner_handle = pair.as_handle()?;
+                                            } else {
+                                                obj.apply_code_pair(&pair, iter)?;
+                                            }
+                                        }
                                         Some(Err(e)) => return Err(e),
                                         None => return Err(DxfError::UnexpectedEndOfInput),
                                     }
-- 
2.43.0


From cea3a7ab3bd43d9bf83ab220a9de011526dc089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 13/63] fix: dimensions in files before R13 were dropped on
 load

---
 src/entity.rs | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index d109907..8cd2d98 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -233,6 +233,35 @@ impl Vertex {
 //                                                                    EntityType
 //------------------------------------------------------------------------------
 impl EntityType {
+    fn from_dimension_base(dimension_base: DimensionBase) -> Option<EntityType> {
+        Some(match dimension_base.dimension_type {
+            DimensionType::RotatedHorizontalOrVertical | DimensionType::Aligned => {
+                EntityType::RotatedDimension(RotatedDimension {
+                    dimension_base,
+                    ..Default::default()
+                })
+            }
+            DimensionType::Angular => return None, // not supported
+            DimensionType::Diameter => EntityType::DiameterDimension(DiameterDimension {
+                dimension_base,
+                ..Default::default()
+            }),
+            DimensionType::Radius => EntityType::RadialDimension(RadialDimension {
+                dimension_base,
+                ..Default::default()
+            }),
+            DimensionType::AngularThreePoint => {
+                EntityType::AngularThreePointDimension(AngularThreePointDimension {
+                    dimension_base,
+                    ..Default::default()
+                })
+            }
+            DimensionType::Ordinate => EntityType::OrdinateDimension(OrdinateDimension {
+                dimension_base,
+                ..Default::default()
+            }),
+        })
+    }
     fn apply_dimension_code_pair(&mut self, pair: &CodePair) -> DxfResult<bool> {
         match *self {
             EntityType::RotatedDimension(ref mut dim) => match pair.code {
@@ -427,6 +456,8 @@ impl Entity {
                             let mut common = EntityCommon::default();
                             let mut dimension_entity: Option<EntityType> = None;
                             let mut dimension_base = DimensionBase::default();
+                            let mut has_subclass_markers = false;
+                            let mut unclaimed_pairs = vec![];
                             loop {
                                 match iter.next() {
                                     Some(Ok(pair @ CodePair { code: 0, .. })) => {
@@ -537,6 +568,7 @@ impl Entity {
                                                         );
                                                     }
                                                     100 => {
+                                                        has_subclass_markers = true;
                                                         match &*pair.assert_string()? {
                                                             "AcDbAlignedDimension" => {
                                                                 dimension_entity = Some(
@@ -593,6 +625,7 @@ impl Entity {
                                                         }
                                                     }
                                                     _ => {
+                                                        unclaimed_pairs.push(pair.clone());
                                                         common
                                                             .apply_individual_pair(&pair, iter)?;
                                                     }
@@ -605,6 +638,16 @@ impl Entity {
                                 }
                             }
 
+                            if !has_subclass_markers {
+                                // files before R13 only tell the kind by the dimension type
+                                dimension_entity = EntityType::from_dimension_base(dimension_base);
+                                if let Some(ref mut dim) = dimension_entity {
+                                    for pair in &unclaimed_pairs {
+                                        dim.apply_dimension_code_pair(pair)?;
+                                    }
+                                }
+                            }
+
                             match dimension_entity {
                                 Some(dim) => {
                                     return Ok(Some(Entity {
-- 
2.43.0


From fabf89366e94c8f879be6ef94f54a4d6109313bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:22 +0000
Subject: [PATCH 14/63] fix: the lights of a LIGHTLIST were lost on load

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index e156710..a7eb24a 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -663,7 +663,7 @@ impl Object {
                         // count of lights is ignored since it's implicitly set by reading the values
                     } else {
                         ll.version = pair.assert_i32()?;
-                        read_version_number = false;
+                        read_version_number = true;
                     }
                 }
                 _ => {
-- 
2.43.0


From ddebef752ae3b7132333152a4498c1ea43b5e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:22 +0000
Subject: [PATCH 15/63] fix: the duplicate record handling of an XRECORD became
 part of its data

---
 src/object.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index a7eb24a..824a145 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1448,9 +1448,11 @@ impl Object {
         iter: &mut CodePairPutBack,
     ) -> DxfResult<bool> {
         let mut reading_data = false;
+        let mut after_marker = false;
         loop {
             let pair = next_pair!(iter);
-            if reading_data {
+            if reading_data && !(after_marker && pair.code == 280) {
+                after_marker = false;
                 xr.data_pairs.push(pair);
             } else {
                 if pair.code == 280 {
@@ -1461,6 +1463,7 @@ impl Object {
                         pair.assert_i16()?
                     );
                     reading_data = true;
+                    after_marker = false;
                     continue;
                 }
 
@@ -1471,6 +1474,7 @@ impl Object {
                 match pair.code {
                     100 => {
                         reading_data = true;
+                        after_marker = true; // may be followed by the duplicate record handling
                         continue;
                     } // value should be "AcDbXrecord", some dxf files still need to keep the object read
                     5 | 105 => (), // these codes aren't allowed here
-- 
2.43.0


From 74056d8c18a26cca6988d76387cd45cbc9eeec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:22 +0000
Subject: [PATCH 16/63] fix: SUNSTUDY dates were written without their seconds
 past midnight

---
 src/object.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 824a145..c3a1355 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1619,7 +1619,10 @@ impl Object {
                 pairs.push(CodePair::new_bool(291, ss.select_dates_from_calendar));
                 pairs.push(CodePair::new_i32(91, ss.dates.len() as i32));
                 for item in &ss.dates {
-                    pairs.push(CodePair::new_i32(90, as_double_local(*item) as i32));
+                    let date = as_double_local(*item);
+                    let seconds = date.fract() * 86_400.0;
+                    pairs.push(CodePair::new_i32(90, date as i32));
+                    pairs.push(CodePair::new_i32(90, seconds.round() as i32));
                 }
                 pairs.push(CodePair::new_bool(292, ss.select_range_of_dates));
                 pairs.push(CodePair::new_i32(93, ss.start_time_seconds_past_midnight));
-- 
2.43.0


From 82559166b73cff87c2460a798ac31a3f84ab10db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:50 +0000
Subject: [PATCH 17/63] fix: the object after a TABLESTYLE with cell styles was
 lost on load

---
 src/table_cell_style.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/table_cell_style.rs b/src/table_cell_style.rs
index 7136138..d69931c 100644
--- a/src/table_cell_style.rs
+++ b/src/table_cell_style.rs
@@ -43,7 +43,11 @@ impl TableCellStyle {
         let mut style = TableCellStyle::default();
         loop {
             let pair = match iter.next() {
-                Some(Ok(CodePair { code: 0, .. })) => return Ok(Some(style)),
+                Some(Ok(pair @ CodePair { code: 0, .. })) => {
+                    // new object or ENDSEC
+                    iter.put_back(Ok(pair));
+                    return Ok(Some(style));
+                }
                 Some(Ok(pair)) => pair,
                 Some(Err(e)) => return Err(e),
                 None => return Ok(Some(style)),
-- 
2.43.0


From 2076cd2525053e4fb8d6c8bde946b75fcc45cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:50 +0000
Subject: [PATCH 18/63] fix: SECTIONSETTINGS merged its type settings and could
 loop forever on load

---
 src/object.rs                | 2 +-
 src/section_type_settings.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index c3a1355..ba69b28 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1143,7 +1143,7 @@ impl Object {
             match pair.code {
                 1 => {
                     // value should be "SectionTypeSettings", but it doesn't really matter
-                    while let Some(ts) = SectionTypeSettings::read(iter)? {
+                    if let Some(ts) = SectionTypeSettings::read(iter)? {
                         ss.geometry_settings.push(ts);
                     }
                 }
diff --git a/src/section_type_settings.rs b/src/section_type_settings.rs
index 0081773..a609261 100644
--- a/src/section_type_settings.rs
+++ b/src/section_type_settings.rs
@@ -65,7 +65,7 @@ impl SectionTypeSettings {
                         ss.geometry_settings.push(gs);
                     }
                 }
-                3 => (), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
+                3 => return Ok(Some(ss)), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
                 90 => {
                     ss.section_type = pair.assert_i32()?;
                 }
-- 
2.43.0


From 949058a298e8ecffd393678466603d882874103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:20 +0000
Subject: [PATCH 19/63] fix: DATATABLE values were lost on load and uneven
 tables caused a panic

---
 src/object.rs | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index ba69b28..d905e62 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -62,6 +62,12 @@ impl MLineStyleElement {
 impl DataTable {
     pub(crate) fn set_value(&mut self, row: usize, col: usize, val: DataTableValue) {
         if row < self.row_count && col < self.column_count {
+            while self.values.len() <= row {
+                self.values.push(vec![]);
+            }
+            while self.values[row].len() <= col {
+                self.values[row].push(None);
+            }
             self.values[row][col] = Some(val);
         }
     }
@@ -336,7 +342,6 @@ impl Object {
         let mut _current_column_code = 0;
         let mut current_column = 0;
         let mut current_row = 0;
-        let mut created_table = false;
         let mut current_2d_point = Point::origin();
         let mut current_3d_point = Point::origin();
 
@@ -350,11 +355,11 @@ impl Object {
                     data.field = pair.assert_i16()?;
                 }
                 90 => {
-                    data.column_count = pair.assert_i32()? as usize;
+                    data.column_count = pair.assert_i32()?.max(0) as usize;
                     read_column_count = true;
                 }
                 91 => {
-                    data.row_count = pair.assert_i32()? as usize;
+                    data.row_count = pair.assert_i32()?.max(0) as usize;
                     read_row_count = true;
                 }
 
@@ -364,7 +369,7 @@ impl Object {
                 }
                 92 => {
                     _current_column_code = pair.assert_i32()?;
-                    current_column += 1;
+                    current_column = data.column_names.len(); // the name follows
                     current_row = 0;
                 }
 
@@ -375,6 +380,7 @@ impl Object {
                         current_column,
                         DataTableValue::Str(pair.assert_string()?),
                     );
+                    current_row += 1;
                 }
                 40 => {
                     data.set_value(
@@ -382,6 +388,7 @@ impl Object {
                         current_column,
                         DataTableValue::Double(pair.assert_f64()?),
                     );
+                    current_row += 1;
                 }
                 71 => {
                     data.set_value(
@@ -389,6 +396,7 @@ impl Object {
                         current_column,
                         DataTableValue::Boolean(as_bool(pair.assert_i16()?)),
                     );
+                    current_row += 1;
                 }
                 93 => {
                     data.set_value(
@@ -396,6 +404,7 @@ impl Object {
                         current_column,
                         DataTableValue::Integer(pair.assert_i32()?),
                     );
+                    current_row += 1;
                 }
                 10 => {
                     current_2d_point.x = pair.assert_f64()?;
@@ -410,6 +419,7 @@ impl Object {
                         current_column,
                         DataTableValue::Point2D(current_2d_point.clone()),
                     );
+                    current_row += 1;
                     current_2d_point = Point::origin();
                 }
                 11 => {
@@ -425,6 +435,7 @@ impl Object {
                         current_column,
                         DataTableValue::Point3D(current_3d_point.clone()),
                     );
+                    current_row += 1;
                     current_3d_point = Point::origin();
                 }
                 330 | 331 | 340 | 350 | 360 => {
@@ -434,6 +445,7 @@ impl Object {
                             current_column,
                             DataTableValue::Handle(pair.as_handle()?),
                         );
+                        current_row += 1;
                     } else {
                         common.apply_individual_pair(&pair, iter)?;
                     }
@@ -443,16 +455,6 @@ impl Object {
                     common.apply_individual_pair(&pair, iter)?;
                 }
             }
-
-            if read_row_count && read_column_count && !created_table {
-                for row in 0..data.row_count {
-                    data.values.push(vec![]);
-                    for _ in 0..data.column_count {
-                        data.values[row].push(None);
-                    }
-                }
-                created_table = true;
-            }
         }
     }
     fn apply_custom_reader_dictionary(
@@ -1507,7 +1509,8 @@ impl Object {
                 pairs.push(CodePair::new_i32(90, data.column_count as i32));
                 pairs.push(CodePair::new_i32(91, data.row_count as i32));
                 pairs.push(CodePair::new_string(1, &data.name));
-                for col in 0..data.column_count {
+                let written_columns = data.values.first().map_or(0, |row| row.len());
+                for col in 0..data.column_count.min(written_columns) {
                     let column_code = match data.values[0][col] {
                         Some(DataTableValue::Boolean(_)) => Some(71),
                         Some(DataTableValue::Integer(_)) => Some(93),
@@ -1520,9 +1523,12 @@ impl Object {
                     };
                     if let Some(column_code) = column_code {
                         pairs.push(CodePair::new_i32(92, column_code));
-                        pairs.push(CodePair::new_string(2, &data.column_names[col]));
-                        for row in 0..data.row_count {
-                            match data.values[row][col] {
+                        pairs.push(CodePair::new_str(
+                            2,
+                            data.column_names.get(col).map_or("", |name| name),
+                        ));
+                        for row in data.values.iter().take(data.row_count) {
+                            match *row.get(col).unwrap_or(&None) {
                                 Some(DataTableValue::Boolean(val)) => {
                                     pairs.push(CodePair::new_i16(71, as_i16(val)));
                                 }
-- 
2.43.0


From 89db6facdcf1ebca991f5f64aed65116f2b8a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:56 +0000
Subject: [PATCH 20/63] fix: MATERIAL specular gloss factor was never written

---
 spec/ObjectsSpec.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 218bce2..0869a49 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -506,7 +506,7 @@
       <Foreach Field="obj.diffuse_map_transformation_matrix.values()">
         <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
-      <WriteField Field="specular_color_factor" />
+      <WriteField Field="specular_gloss_factor" />
       <WriteField Field="override_specular_color" />
       <WriteField Field="specular_color_factor" />
       <WriteField Field="specular_color_value" />
-- 
2.43.0


From 6e336d459faeb9f20289d170f2fa8977509f2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:56 +0000
Subject: [PATCH 21/63] fix: MATERIAL wrote its normal map matrix to versions
 that do not define it

---
 spec/ObjectsSpec.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 0869a49..ea9a3e4 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -573,7 +573,7 @@
       <WriteField Field="normal_map_tiling_method" />
       <WriteField Field="normal_map_auto_transform_method" />
       <Foreach Field="obj.normal_map_transformation_matrix.values()">
-        <WriteSpecificValue Code="43" Value="*item" />
+        <WriteSpecificValue Code="43" Value="*item" MinVersion="R2007" />
       </Foreach>
       <WriteField Field="is_anonymous" />
       <WriteField Field="global_illumination_mode" />
-- 
2.43.0


From 05ad1eabf5df8d5c151cbba05edb05e11b7601c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:56 +0000
Subject: [PATCH 22/63] fix: MATERIAL map_v_tile was neither written nor read

---
 spec/ObjectsSpec.xml | 1 +
 src/object.rs        | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index ea9a3e4..d93b0aa 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -588,6 +588,7 @@
       <WriteField Field="gen_proc_color_rgb_value" />
       <WriteField Field="gen_proc_color_name" />
       <WriteField Field="map_u_tile" />
+      <WriteField Field="map_v_tile" />
       <WriteField Field="translucence" />
       <WriteField Field="self_illumination" />
       <WriteField Field="reflectivity" />
diff --git a/src/object.rs b/src/object.rs
index d905e62..7392801 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -692,6 +692,7 @@ impl Object {
         let mut read_luminance_mode = false;
         let mut read_bump_map_tiling_method = false;
         let mut read_normal_map_method = false;
+        let mut read_gen_proc_integer_value = false;
         let mut read_bump_map_auto_transform_method = false;
         let mut read_use_image_file_for_refraction_map = false;
         loop {
@@ -986,8 +987,11 @@ impl Object {
                     } else if !read_normal_map_method {
                         mat.normal_map_method = pair.assert_i16()?;
                         read_normal_map_method = true;
-                    } else {
+                    } else if !read_gen_proc_integer_value {
                         mat.gen_proc_integer_value = pair.assert_i16()?;
+                        read_gen_proc_integer_value = true;
+                    } else {
+                        mat.map_v_tile = pair.assert_i16()?;
                     }
                 }
                 272 => {
-- 
2.43.0


From 257199a04294fba7fe23fc8cfa5733a49df71a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:56 +0000
Subject: [PATCH 23/63] fix: DICTIONARY lost its hard owner flag

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 7392801..0eb7607 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1566,7 +1566,7 @@ impl Object {
             }
             ObjectType::Dictionary(ref dict) => {
                 pairs.push(CodePair::new_str(100, "AcDbDictionary"));
-                if version >= AcadVersion::R2000 && !dict.is_hard_owner {
+                if version >= AcadVersion::R2000 {
                     pairs.push(CodePair::new_i16(280, as_i16(dict.is_hard_owner)));
                 }
                 if version >= AcadVersion::R2000 {
-- 
2.43.0


From 671cc95f63b7bbf855ebdbb1eed7181c91771020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:53 +0000
Subject: [PATCH 24/63] fix: VBA_PROJECT data was never written

---
 spec/ObjectsSpec.xml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index d93b0aa..307dd2f 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -1193,8 +1193,8 @@
     <WriteOrder>
       <WriteSpecificValue Code="100" Value='&amp;String::from("AcDbVbaProject")' />
       <WriteSpecificValue Code="90" Value="obj.data.len() as i32" />
-      <Foreach Field="obj.__hex_data">
-        <WriteSpecificValue Code="310" Value="item.clone()" />
+      <Foreach Field="obj.data.chunks(128).collect::&lt;Vec&lt;_&gt;&gt;()">
+        <WriteSpecificValue Code="310" Value="item.to_vec()" />
       </Foreach>
     </WriteOrder>
   </Object>
-- 
2.43.0


From ec2a5e1abaea9ce1ca54c6913eb60b252920a6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:16 +0000
Subject: [PATCH 25/63] fix: every load of a drawing with an MLINE added
 another MLINESTYLE

---
 src/drawing.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index a41e17b..5ed4767 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -132,6 +132,7 @@ impl Drawing {
         drawing.clear();
         let mut iter = CodePairPutBack::from_code_pair_iter(iter);
         Drawing::read_sections(&mut drawing, &mut iter)?;
+        drawing.ensure_mline_styles_are_present();
         match iter.next() {
             Some(Ok(CodePair {
                 code: 0,
@@ -432,6 +433,7 @@ impl Drawing {
         }
 
         // ensure invariants
+        self.ensure_mline_style_is_present_for_entity(&entity);
         self.add_entity_no_handle_set(entity)
     }
     /// Removes the specified `Entity` from the `Drawing`.
@@ -672,7 +674,6 @@ impl Drawing {
         self.__blocks.last().unwrap()
     }
     fn add_entity_no_handle_set(&mut self, entity: Entity) -> &Entity {
-        self.ensure_mline_style_is_present_for_entity(&entity);
         self.ensure_dimension_style_is_present_for_entity(&entity);
         self.ensure_layer_is_present(&entity.common.layer);
         self.ensure_line_type_is_present(&entity.common.line_type_name);
@@ -752,6 +753,18 @@ impl Drawing {
             });
         }
     }
+    /// The objects follow the entities in a file, so this can only be done once both are read.
+    fn ensure_mline_styles_are_present(&mut self) {
+        let mlines = self
+            .__entities
+            .iter()
+            .filter(|e| matches!(e.specific, EntityType::MLine(_)))
+            .cloned()
+            .collect::<Vec<_>>();
+        for mline in &mlines {
+            self.ensure_mline_style_is_present_for_entity(mline);
+        }
+    }
     fn ensure_mline_style_is_present_for_entity(&mut self, entity: &Entity) {
         if let EntityType::MLine(ref ml) = &entity.specific {
             if !self.objects().any(|o| match o.specific {
-- 
2.43.0


From cdf403f7c38396aabce968a5b660f3ac036c23a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:37 +0000
Subject: [PATCH 26/63] fix: binary files with SUNSTUDY hours could not be
 loaded

---
 src/object.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 0eb7607..b38b706 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1640,7 +1640,9 @@ impl Object {
                 pairs.push(CodePair::new_i32(95, ss.interval_in_seconds));
                 pairs.push(CodePair::new_i16(73, ss.hours.len() as i16));
                 for v in &ss.hours {
-                    pairs.push(CodePair::new_i16(290, *v as i16));
+                    // binary files hold a single byte for this code
+                    let hour = crate::CodePairValue::Boolean(*v as i16);
+                    pairs.push(CodePair::new(290, hour, 0));
                 }
                 pairs.push(CodePair::new_string(
                     340,
-- 
2.43.0


From 26c3e205e509a677d9a8035c138379648eeded33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:42 +0000
Subject: [PATCH 27/63] fix: errors in the last entity or object of a section
 were ignored

---
 src/block.rs       |  2 +-
 src/drawing.rs     |  7 +++----
 src/entity_iter.rs | 22 +++++++++++++++++-----
 src/object_iter.rs | 10 ++++------
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b3c92d4..70bd55d 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -157,7 +157,7 @@ impl Block {
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-                            let mut iter = EntityIter { iter };
+                            let mut iter = EntityIter::new(iter);
                             iter.read_entities_into_vec(&mut current.entities)?;
                         }
                         _ => {
diff --git a/src/drawing.rs b/src/drawing.rs
index 5ed4767..e8f8562 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -29,7 +29,6 @@ use crate::thumbnail;
 use std::fs::File;
 use std::io::{BufReader, BufWriter, Cursor, Read, Write};
 
-use itertools::put_back;
 use std::collections::HashSet;
 use std::iter::Iterator;
 use std::path::Path;
@@ -1077,7 +1076,7 @@ impl Drawing {
         Ok(())
     }
     fn read_entities(&mut self, iter: &mut CodePairPutBack) -> DxfResult<()> {
-        let mut iter = EntityIter { iter };
+        let mut iter = EntityIter::new(iter);
         let mut entities = vec![];
         iter.read_entities_into_vec(&mut entities)?;
         for e in entities {
@@ -1090,8 +1089,8 @@ impl Drawing {
         Ok(())
     }
     fn read_objects(&mut self, iter: &mut CodePairPutBack) -> DxfResult<()> {
-        let iter = put_back(ObjectIter { iter });
-        for o in iter {
+        for o in (ObjectIter { iter }) {
+            let o = o?;
             if o.common.handle.is_empty() {
                 self.add_object(o);
             } else {
diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index a038f93..dce9357 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -1,12 +1,13 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::drawing::AUTO_REPLACE_HANDLE;
 use crate::entities::*;
-use crate::DxfResult;
+use crate::{DxfError, DxfResult};
 
 use itertools::{put_back, PutBack};
 
 pub(crate) struct EntityIter<'a> {
-    pub iter: &'a mut CodePairPutBack,
+    iter: &'a mut CodePairPutBack,
+    error: Option<DxfError>,
 }
 
 impl Iterator for EntityIter<'_> {
@@ -15,14 +16,25 @@ impl Iterator for EntityIter<'_> {
     fn next(&mut self) -> Option<Entity> {
         match Entity::read(self.iter) {
             Ok(Some(e)) => Some(e),
-            Ok(None) | Err(_) => None,
+            Ok(None) => None,
+            Err(e) => {
+                self.error = Some(e);
+                None
+            }
         }
     }
 }
 
-impl EntityIter<'_> {
+impl<'a> EntityIter<'a> {
+    pub(crate) fn new(iter: &'a mut CodePairPutBack) -> Self {
+        EntityIter { iter, error: None }
+    }
     pub(crate) fn read_entities_into_vec(&mut self, entities: &mut Vec<Entity>) -> DxfResult<()> {
-        collect_entities(self, entities)
+        collect_entities(self, entities)?;
+        match self.error.take() {
+            Some(e) => Err(e),
+            None => Ok(()),
+        }
     }
 }
 
diff --git a/src/object_iter.rs b/src/object_iter.rs
index 007c6c9..ffc1a76 100644
--- a/src/object_iter.rs
+++ b/src/object_iter.rs
@@ -1,17 +1,15 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::objects::Object;
+use crate::DxfResult;
 
 pub(crate) struct ObjectIter<'a> {
     pub iter: &'a mut CodePairPutBack,
 }
 
 impl Iterator for ObjectIter<'_> {
-    type Item = Object;
+    type Item = DxfResult<Object>;
 
-    fn next(&mut self) -> Option<Object> {
-        match Object::read(self.iter) {
-            Ok(Some(o)) => Some(o),
-            Ok(None) | Err(_) => None,
-        }
+    fn next(&mut self) -> Option<DxfResult<Object>> {
+        Object::read(self.iter).transpose()
     }
 }
-- 
2.43.0


From f5a4e3aabf600f62b6f3032b44d517a7af11330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:44 +0000
Subject: [PATCH 28/63] fix: loading a block without ENDBLK never ended

---
 src/block.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index 70bd55d..e143473 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -154,6 +154,17 @@ impl Block {
                             }
                             break;
                         }
+                        CodePair {
+                            code: 0,
+                            value: CodePairValue::Str(ref s),
+                            ..
+                        } if s == "ENDSEC" => {
+                            // the block was never closed
+                            return Err(DxfError::UnexpectedCodePair(
+                                pair,
+                                String::from("expected 0/ENDBLK"),
+                            ));
+                        }
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-- 
2.43.0


From abfcbbb9b557885c861fcfa227ed2060a412be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:47 +0000
Subject: [PATCH 29/63] fix: the x data of a block was lost on load

---
 src/block.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index e143473..0c5ffb2 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -133,7 +133,7 @@ impl Block {
                             value: CodePairValue::Str(ref s),
                             ..
                         } if s == "ENDBLK" => {
-                            // swallow all non-0 code pairs
+                            // swallow all non-0 code pairs except for the x data
                             loop {
                                 match iter.next() {
                                     Some(Ok(pair @ CodePair { code: 0, .. })) => {
@@ -141,6 +141,15 @@ impl Block {
                                         iter.put_back(Ok(pair));
                                         break;
                                     }
+                                    Some(Ok(
+                                        pair @ CodePair {
+                                            code: x_data::XDATA_APPLICATIONNAME,
+                                            ..
+                                        },
+                                    )) => {
+                                        let x = XData::read_item(pair.assert_string()?, iter)?;
+                                        current.x_data.push(x);
+                                    }
                                     Some(Ok(_)) => (), // swallow this
                                     Some(Err(e)) => return Err(e),
                                     None => return Err(DxfError::UnexpectedEndOfInput),
-- 
2.43.0


From cf30add85f007cfacd5a9ce3a6af31ea567ffb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:05 +0000
Subject: [PATCH 30/63] fix: loading a block added another block record of the
 same name

---
 src/drawing.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index e8f8562..58b3a5e 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -667,7 +667,7 @@ impl Drawing {
     pub(crate) fn add_block_no_handle_set(&mut self, mut block: Block) -> &Block {
         self.ensure_layer_is_present_for_block(&block);
         self.ensure_line_type_is_present_for_block(&block);
-        self.ensure_block_record_is_present_for_block(&mut block);
+        self.ensure_block_record_is_present_for_block(&block);
         self.ensure_block_entity_handles_are_set(&mut block);
         self.__blocks.push(block);
         self.__blocks.last().unwrap()
@@ -837,11 +837,8 @@ impl Drawing {
             self.ensure_line_type_is_present(&ent.common.line_type_name);
         }
     }
-    fn ensure_block_record_is_present_for_block(&mut self, block: &mut Block) {
-        self.add_block_record(BlockRecord {
-            name: String::from(&block.name),
-            ..Default::default()
-        });
+    fn ensure_block_record_is_present_for_block(&mut self, block: &Block) {
+        self.ensure_block_record_is_present(&block.name);
     }
     fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
         for ent in &mut block.entities {
-- 
2.43.0


From aa6f80a336d1cd05ea0f8948a7f118c36fdf083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:14 +0000
Subject: [PATCH 31/63] fix: handles were given out twice when loading or
 re-adding items

The parts of a loaded POLYLINE or INSERT all got the same handle, the entities
of a loaded block lost theirs, items added while loading could take the handle
of an item further down the file, and adding a copy of a compound entity reused
the handles of its parts.
---
 src/block.rs       |   6 +-
 src/drawing.rs     | 148 +++++++++++++++++++++++++++++++--------------
 src/entity.rs      |   4 +-
 src/entity_iter.rs |  30 ++++-----
 src/handle.rs      |   2 +-
 5 files changed, 119 insertions(+), 71 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 0c5ffb2..492555e 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -156,11 +156,7 @@ impl Block {
                                 }
                             }
 
-                            if current.handle.is_empty() {
-                                drawing.add_block(current);
-                            } else {
-                                drawing.add_block_no_handle_set(current);
-                            }
+                            drawing.add_block_no_handle_set(current);
                             break;
                         }
                         CodePair {
diff --git a/src/drawing.rs b/src/drawing.rs
index 58b3a5e..1723a20 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -33,8 +33,6 @@ use std::collections::HashSet;
 use std::iter::Iterator;
 use std::path::Path;
 
-pub(crate) const AUTO_REPLACE_HANDLE: Handle = Handle(0xFFFF_FFFF_FFFF_FFFF);
-
 /// Represents a DXF drawing.
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "serialize", derive(serde::Serialize, serde::Deserialize))]
@@ -75,6 +73,13 @@ pub struct Drawing {
     /// The thumbnail image preview of the drawing.
     #[cfg_attr(feature = "serialize", serde(skip))]
     pub thumbnail: Option<DynamicImage>,
+
+    /// Set while a file is read: new handles are only given out once all of those in the file are known.
+    #[cfg_attr(feature = "serialize", serde(skip))]
+    __defer_handles: bool,
+    /// Handles that were given to the parts of entities that are not yet part of the drawing.
+    #[cfg_attr(feature = "serialize", serde(skip))]
+    __reserved_handles: HashSet<u64>,
 }
 
 // public implementation
@@ -97,6 +102,8 @@ impl Drawing {
             __entities: vec![],
             __objects: vec![],
             thumbnail: None,
+            __defer_handles: false,
+            __reserved_handles: HashSet::new(),
         };
         drawing.normalize();
         drawing
@@ -130,8 +137,11 @@ impl Drawing {
         let mut drawing = Drawing::new();
         drawing.clear();
         let mut iter = CodePairPutBack::from_code_pair_iter(iter);
+        drawing.__defer_handles = true;
         Drawing::read_sections(&mut drawing, &mut iter)?;
         drawing.ensure_mline_styles_are_present();
+        drawing.__defer_handles = false;
+        drawing.set_missing_handles();
         match iter.next() {
             Some(Ok(CodePair {
                 code: 0,
@@ -392,6 +402,10 @@ impl Drawing {
     /// Add a block to the `Drawing`.
     pub fn add_block(&mut self, mut block: Block) -> &Block {
         block.handle = self.next_handle();
+        self.ensure_block_references_are_present(&block);
+        for ent in &mut block.entities {
+            self.set_entity_handles(ent);
+        }
         self.add_block_no_handle_set(block)
     }
     /// Removes the specified `Block` from the `Drawing`.
@@ -408,28 +422,7 @@ impl Drawing {
     }
     /// Adds an entity to the `Drawing`.
     pub fn add_entity(&mut self, mut entity: Entity) -> &Entity {
-        entity.common.handle = self.next_handle();
-
-        // set child handles
-        match entity.specific {
-            EntityType::Insert(ref mut ins) => {
-                ins.__seqend_handle = self.next_handle();
-                for a in ins.__attributes_and_handles.iter_mut() {
-                    if a.1 == AUTO_REPLACE_HANDLE {
-                        a.1 = self.next_handle();
-                    }
-                }
-            }
-            EntityType::Polyline(ref mut poly) => {
-                poly.__seqend_handle = self.next_handle();
-                for v in poly.__vertices_and_handles.iter_mut() {
-                    if v.1 == AUTO_REPLACE_HANDLE {
-                        v.1 = self.next_handle();
-                    }
-                }
-            }
-            _ => (),
-        }
+        self.set_entity_handles(&mut entity);
 
         // ensure invariants
         self.ensure_mline_style_is_present_for_entity(&entity);
@@ -476,6 +469,7 @@ impl Drawing {
         self.__entities.clear();
         self.__objects.clear();
         self.thumbnail = None;
+        self.__reserved_handles.clear();
 
         self.header.next_available_handle = Handle(1);
     }
@@ -650,13 +644,89 @@ impl Drawing {
     }
 }
 
+fn for_each_entity_handle(entity: &mut Entity, f: &mut dyn FnMut(&mut Handle)) {
+    f(&mut entity.common.handle);
+    match entity.specific {
+        EntityType::Insert(ref mut ins) => {
+            f(&mut ins.__seqend_handle);
+            ins.__attributes_and_handles
+                .iter_mut()
+                .for_each(|a| f(&mut a.1));
+        }
+        EntityType::Polyline(ref mut poly) => {
+            f(&mut poly.__seqend_handle);
+            poly.__vertices_and_handles
+                .iter_mut()
+                .for_each(|v| f(&mut v.1));
+        }
+        _ => (),
+    }
+}
+
 // private implementation
 impl Drawing {
     pub(crate) fn next_handle(&mut self) -> Handle {
+        if self.__defer_handles {
+            return Handle::empty();
+        }
+
         let result = self.header.next_available_handle;
         self.header.next_available_handle = self.header.next_available_handle.next_handle_value();
         result
     }
+    /// Gets a handle for a part of an entity that is yet to be added.
+    pub(crate) fn reserve_handle(&mut self) -> Handle {
+        let result = self.next_handle();
+        self.__reserved_handles.insert(result.0);
+        result
+    }
+    /// Gives the entity and everything it is made of handles of their own.
+    fn set_entity_handles(&mut self, entity: &mut Entity) {
+        entity.common.handle = Handle::empty();
+        for_each_entity_handle(entity, &mut |h| {
+            if !self.__reserved_handles.remove(&h.0) {
+                *h = self.next_handle();
+            }
+        });
+    }
+    fn for_each_handle(&mut self, f: &mut dyn FnMut(&mut Handle)) {
+        self.__app_ids.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__block_records
+            .iter_mut()
+            .for_each(|i| f(&mut i.handle));
+        self.__dim_styles.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__layers.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__line_types.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__styles.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__ucss.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__views.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__view_ports.iter_mut().for_each(|i| f(&mut i.handle));
+        for b in &mut self.__blocks {
+            f(&mut b.handle);
+            b.entities
+                .iter_mut()
+                .for_each(|e| for_each_entity_handle(e, f));
+        }
+        self.__entities
+            .iter_mut()
+            .for_each(|e| for_each_entity_handle(e, f));
+        self.__objects
+            .iter_mut()
+            .for_each(|o| f(&mut o.common.handle));
+    }
+    /// Gives handles to all items that were read without one.
+    fn set_missing_handles(&mut self) {
+        // never give out a handle that is in use
+        let mut next = self.header.next_available_handle.0.max(1);
+        self.for_each_handle(&mut |h| next = next.max(h.0.saturating_add(1)));
+        self.for_each_handle(&mut |h| {
+            if h.is_empty() {
+                *h = Handle(next);
+                next = h.next_handle_value().0;
+            }
+        });
+        self.header.next_available_handle = Handle(next);
+    }
     fn remove_item<T>(collection: &mut Vec<T>, index: usize) -> Option<T> {
         if index < collection.len() {
             Some(collection.remove(index))
@@ -664,14 +734,16 @@ impl Drawing {
             None
         }
     }
-    pub(crate) fn add_block_no_handle_set(&mut self, mut block: Block) -> &Block {
-        self.ensure_layer_is_present_for_block(&block);
-        self.ensure_line_type_is_present_for_block(&block);
-        self.ensure_block_record_is_present_for_block(&block);
-        self.ensure_block_entity_handles_are_set(&mut block);
+    pub(crate) fn add_block_no_handle_set(&mut self, block: Block) -> &Block {
+        self.ensure_block_references_are_present(&block);
         self.__blocks.push(block);
         self.__blocks.last().unwrap()
     }
+    fn ensure_block_references_are_present(&mut self, block: &Block) {
+        self.ensure_layer_is_present_for_block(block);
+        self.ensure_line_type_is_present_for_block(block);
+        self.ensure_block_record_is_present_for_block(block);
+    }
     fn add_entity_no_handle_set(&mut self, entity: Entity) -> &Entity {
         self.ensure_dimension_style_is_present_for_entity(&entity);
         self.ensure_layer_is_present(&entity.common.layer);
@@ -840,11 +912,6 @@ impl Drawing {
     fn ensure_block_record_is_present_for_block(&mut self, block: &Block) {
         self.ensure_block_record_is_present(&block.name);
     }
-    fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
-        for ent in &mut block.entities {
-            ent.common.handle = self.next_handle();
-        }
-    }
     fn ensure_line_type_is_present_for_object(&mut self, obj: &Object) {
         if let ObjectType::MLineStyle(ref style) = &obj.specific {
             self.ensure_line_type_is_present(&style.style_name);
@@ -1077,22 +1144,13 @@ impl Drawing {
         let mut entities = vec![];
         iter.read_entities_into_vec(&mut entities)?;
         for e in entities {
-            if e.common.handle.is_empty() {
-                self.add_entity(e);
-            } else {
-                self.add_entity_no_handle_set(e);
-            }
+            self.add_entity_no_handle_set(e);
         }
         Ok(())
     }
     fn read_objects(&mut self, iter: &mut CodePairPutBack) -> DxfResult<()> {
         for o in (ObjectIter { iter }) {
-            let o = o?;
-            if o.common.handle.is_empty() {
-                self.add_object(o);
-            } else {
-                self.add_object_no_handle_set(o);
-            }
+            self.add_object_no_handle_set(o?);
         }
 
         Ok(())
diff --git a/src/entity.rs b/src/entity.rs
index 8cd2d98..45e2ff8 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -95,7 +95,7 @@ impl Insert {
         self.__attributes_and_handles.iter_mut().map(|a| &mut a.0)
     }
     pub fn add_attribute(&mut self, drawing: &mut Drawing, att: Attribute) {
-        let att_handle = drawing.next_handle();
+        let att_handle = drawing.reserve_handle();
         self.__attributes_and_handles.push((att, att_handle));
     }
 }
@@ -151,7 +151,7 @@ impl Polyline {
         self.__vertices_and_handles.iter_mut().map(|v| &mut v.0)
     }
     pub fn add_vertex(&mut self, drawing: &mut Drawing, vertex: Vertex) {
-        let vertex_handle = drawing.next_handle();
+        let vertex_handle = drawing.reserve_handle();
         self.__vertices_and_handles.push((vertex, vertex_handle));
     }
 }
diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index dce9357..d5d1b74 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -1,7 +1,6 @@
 use crate::code_pair_put_back::CodePairPutBack;
-use crate::drawing::AUTO_REPLACE_HANDLE;
 use crate::entities::*;
-use crate::{DxfError, DxfResult};
+use crate::{DxfError, DxfResult, Handle};
 
 use itertools::{put_back, PutBack};
 
@@ -42,22 +41,21 @@ pub(crate) fn collect_entities<I>(iter: &mut I, entities: &mut Vec<Entity>) -> D
 where
     I: Iterator<Item = Entity>,
 {
-    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<()>
+    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<Handle>
     where
         I: Iterator<Item = Entity>,
     {
         match iter.next() {
             Some(Entity {
+                common,
                 specific: EntityType::Seqend(_),
-                ..
-            }) => (),
+            }) => Ok(common.handle),
             Some(ent) => {
                 iter.put_back(ent);
+                Ok(Handle::empty())
             }
-            None => (),
+            None => Ok(Handle::empty()),
         }
-
-        Ok(())
     }
 
     fn mtext<I>(iter: &mut PutBack<I>) -> DxfResult<Option<MText>>
@@ -122,11 +120,9 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
+                            common,
                             specific: EntityType::Attribute(att),
-                            ..
-                        }) => ins
-                            .__attributes_and_handles
-                            .push((att, AUTO_REPLACE_HANDLE)),
+                        }) => ins.__attributes_and_handles.push((att, common.handle)),
                         Some(ent) => {
                             // stop gathering on any non-ATTRIBUTE
                             iter.put_back(ent);
@@ -136,7 +132,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                ins.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the INSERT
                 entities.push(Entity {
@@ -152,11 +148,9 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
+                            common,
                             specific: EntityType::Vertex(vertex),
-                            ..
-                        }) => poly
-                            .__vertices_and_handles
-                            .push((vertex, AUTO_REPLACE_HANDLE)),
+                        }) => poly.__vertices_and_handles.push((vertex, common.handle)),
                         Some(ent) => {
                             // stop gathering on any non-VERTEX
                             iter.put_back(ent);
@@ -166,7 +160,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                poly.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the POLYLINE
                 entities.push(Entity {
diff --git a/src/handle.rs b/src/handle.rs
index d9bf612..7306180 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -7,7 +7,7 @@ impl Handle {
         Handle(0)
     }
     pub fn next_handle_value(self) -> Self {
-        Handle(self.0 + 1)
+        Handle(self.0.checked_add(1).unwrap_or(1))
     }
     pub fn is_empty(self) -> bool {
         self.0 == 0
-- 
2.43.0


From 56fbdab35b0527982158a336cf3843c7877db6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:32 +0000
Subject: [PATCH 32/63] fix: adding a block did not bring in the styles its
 entities refer to

---
 src/drawing.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 1723a20..269e447 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -404,6 +404,7 @@ impl Drawing {
         block.handle = self.next_handle();
         self.ensure_block_references_are_present(&block);
         for ent in &mut block.entities {
+            self.ensure_mline_style_is_present_for_entity(ent);
             self.set_entity_handles(ent);
         }
         self.add_block_no_handle_set(block)
@@ -743,6 +744,10 @@ impl Drawing {
         self.ensure_layer_is_present_for_block(block);
         self.ensure_line_type_is_present_for_block(block);
         self.ensure_block_record_is_present_for_block(block);
+        for ent in &block.entities {
+            self.ensure_dimension_style_is_present_for_entity(ent);
+            self.ensure_text_style_is_present_for_entity(ent);
+        }
     }
     fn add_entity_no_handle_set(&mut self, entity: Entity) -> &Entity {
         self.ensure_dimension_style_is_present_for_entity(&entity);
@@ -827,8 +832,10 @@ impl Drawing {
     /// The objects follow the entities in a file, so this can only be done once both are read.
     fn ensure_mline_styles_are_present(&mut self) {
         let mlines = self
-            .__entities
+            .__blocks
             .iter()
+            .flat_map(|b| &b.entities)
+            .chain(&self.__entities)
             .filter(|e| matches!(e.specific, EntityType::MLine(_)))
             .cloned()
             .collect::<Vec<_>>();
@@ -926,15 +933,16 @@ impl Drawing {
         }
     }
     fn ensure_text_style_is_present_for_entity(&mut self, entity: &Entity) {
-        let text_style_name = match &entity.specific {
-            EntityType::ArcAlignedText(ref e) => Some(&e.text_style_name),
-            EntityType::Attribute(ref e) => Some(&e.text_style_name),
-            EntityType::AttributeDefinition(ref e) => Some(&e.text_style_name),
-            EntityType::MText(ref e) => Some(&e.text_style_name),
-            EntityType::Text(ref e) => Some(&e.text_style_name),
-            _ => None,
+        let text_style_names = match &entity.specific {
+            EntityType::ArcAlignedText(ref e) => vec![&e.text_style_name],
+            EntityType::Attribute(ref e) => vec![&e.text_style_name],
+            EntityType::AttributeDefinition(ref e) => vec![&e.text_style_name],
+            EntityType::Insert(ref e) => e.attributes().map(|a| &a.text_style_name).collect(),
+            EntityType::MText(ref e) => vec![&e.text_style_name],
+            EntityType::Text(ref e) => vec![&e.text_style_name],
+            _ => vec![],
         };
-        if let Some(text_style_name) = text_style_name {
+        for text_style_name in text_style_names {
             self.ensure_text_style_is_present(text_style_name);
         }
     }
-- 
2.43.0


From c991388c5e44dbbf284c7a1d1af76889387369d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:58 +0000
Subject: [PATCH 33/63] fix: an INSERT with attributes fell apart on load

---
 src/entity_iter.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index d5d1b74..390bbe1 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -121,8 +121,14 @@ where
                     match iter.next() {
                         Some(Entity {
                             common,
-                            specific: EntityType::Attribute(att),
-                        }) => ins.__attributes_and_handles.push((att, common.handle)),
+                            specific: EntityType::Attribute(mut att),
+                        }) => {
+                            if let Some(m_text) = mtext(&mut iter)? {
+                                att.m_text = m_text;
+                            }
+
+                            ins.__attributes_and_handles.push((att, common.handle))
+                        }
                         Some(ent) => {
                             // stop gathering on any non-ATTRIBUTE
                             iter.put_back(ent);
-- 
2.43.0


From 16bc0295155ff3e655381781806d1f2c025c1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:26 +0000
Subject: [PATCH 34/63] fix: an unrelated MTEXT after an attribute was absorbed
 by it

---
 src/entity_iter.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index 390bbe1..a2b11fc 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -58,15 +58,16 @@ where
         }
     }
 
-    fn mtext<I>(iter: &mut PutBack<I>) -> DxfResult<Option<MText>>
+    // only the MTEXT that is owned by the attribute is a part of it
+    fn mtext<I>(iter: &mut PutBack<I>, owner: Handle) -> DxfResult<Option<MText>>
     where
         I: Iterator<Item = Entity>,
     {
         let m_text = match iter.next() {
             Some(Entity {
+                common,
                 specific: EntityType::MText(m),
-                ..
-            }) => Some(m),
+            }) if common.__owner_handle == owner => Some(m),
             Some(ent) => {
                 iter.put_back(ent);
                 None
@@ -85,7 +86,7 @@ where
                 specific: EntityType::Attribute(ref att),
             }) => {
                 let mut att = att.clone(); // 27 fields
-                match mtext(&mut iter) {
+                match mtext(&mut iter, common.handle) {
                     Ok(Some(m_text)) => att.m_text = m_text,
                     Ok(None) => (),
                     Err(e) => return Err(e),
@@ -101,7 +102,7 @@ where
                 specific: EntityType::AttributeDefinition(ref att),
             }) => {
                 let mut att = att.clone(); // 27 fields
-                match mtext(&mut iter) {
+                match mtext(&mut iter, common.handle) {
                     Ok(Some(m_text)) => att.m_text = m_text,
                     Ok(None) => (),
                     Err(e) => return Err(e),
@@ -123,7 +124,7 @@ where
                             common,
                             specific: EntityType::Attribute(mut att),
                         }) => {
-                            if let Some(m_text) = mtext(&mut iter)? {
+                            if let Some(m_text) = mtext(&mut iter, common.handle)? {
                                 att.m_text = m_text;
                             }
 
-- 
2.43.0


From 996306fe48b88ff85784ab177970f17e3c180453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:18 +0000
Subject: [PATCH 35/63] fix: loading an INSERT without attributes used up a
 handle

---
 src/drawing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 269e447..d89d048 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -649,7 +649,9 @@ fn for_each_entity_handle(entity: &mut Entity, f: &mut dyn FnMut(&mut Handle)) {
     f(&mut entity.common.handle);
     match entity.specific {
         EntityType::Insert(ref mut ins) => {
-            f(&mut ins.__seqend_handle);
+            if !ins.__attributes_and_handles.is_empty() {
+                f(&mut ins.__seqend_handle);
+            }
             ins.__attributes_and_handles
                 .iter_mut()
                 .for_each(|a| f(&mut a.1));
-- 
2.43.0


From 87beed0432499703bf11c50d947aa2a66adc74f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:58 +0000
Subject: [PATCH 36/63] fix: keep the repairs of MLINE, underlays, WIPEOUT,
 MATERIAL and VBA_PROJECT out of the spec files

The record descriptions are left as they were; the readers and writers of these
records are completed by hand instead.
---
 spec/EntitiesSpec.xml |  20 ++---
 spec/ObjectsSpec.xml  |   9 +-
 src/entity.rs         |  89 ++++++++++++++++++-
 src/object.rs         | 197 ++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 299 insertions(+), 16 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index f87ecca..9f17b24 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -682,20 +682,20 @@
       <WriteField Field="start_point" />
       <WriteField Field="normal" />
       <Foreach Field="ent.vertices">
+        <WriteSpecificValue Code="10" Value="item.x" />
+        <WriteSpecificValue Code="20" Value="item.y" />
+        <WriteSpecificValue Code="30" Value="item.z" />
+      </Foreach>
+      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="11" Value="item.x" />
         <WriteSpecificValue Code="21" Value="item.y" />
         <WriteSpecificValue Code="31" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.segment_directions">
+      <Foreach Field="ent.miter_directions">
         <WriteSpecificValue Code="12" Value="item.x" />
         <WriteSpecificValue Code="22" Value="item.y" />
         <WriteSpecificValue Code="32" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.miter_directions">
-        <WriteSpecificValue Code="13" Value="item.x" />
-        <WriteSpecificValue Code="23" Value="item.y" />
-        <WriteSpecificValue Code="33" Value="item.z" />
-      </Foreach>
       <WriteSpecificValue Code="74" Value="ent.parameters.len() as i16" />
       <WriteField Field="parameters" />
       <WriteSpecificValue Code="75" Value="ent.area_fill_parameters.len() as i16" />
@@ -1164,7 +1164,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1202,7 +1202,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1240,7 +1240,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1302,7 +1302,7 @@
     <Field Name="clipping_type" Code="71" Type="ImageClippingBoundaryType" DefaultValue="ImageClippingBoundaryType::Rectangular" ReadConverter="enum_from_number!(ImageClippingBoundaryType, Rectangular, from_i16, {})" WriteConverter="{} as i16" />
     <Field Name="clipping_vertex_count" Code="91" Type="i32" DefaultValue="0" />
     <Field Name="__clipping_vertices_x" Code="14" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
-    <Field Name="__clipping_vertices_y" Code="24" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
+    <Field Name="__clipping_vertices_y" Code="12" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
     <Field Name="clipping_vertices" Code="14" Type="Point" DefaultValue="vec![]" AllowMultiples="true" GenerateReader="false" />
     <Field Name="is_inside_clipping" Code="290" Type="bool" DefaultValue="false" MinVersion="R2010" />
     <WriteOrder>
diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 307dd2f..218bce2 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -506,7 +506,7 @@
       <Foreach Field="obj.diffuse_map_transformation_matrix.values()">
         <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
-      <WriteField Field="specular_gloss_factor" />
+      <WriteField Field="specular_color_factor" />
       <WriteField Field="override_specular_color" />
       <WriteField Field="specular_color_factor" />
       <WriteField Field="specular_color_value" />
@@ -573,7 +573,7 @@
       <WriteField Field="normal_map_tiling_method" />
       <WriteField Field="normal_map_auto_transform_method" />
       <Foreach Field="obj.normal_map_transformation_matrix.values()">
-        <WriteSpecificValue Code="43" Value="*item" MinVersion="R2007" />
+        <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
       <WriteField Field="is_anonymous" />
       <WriteField Field="global_illumination_mode" />
@@ -588,7 +588,6 @@
       <WriteField Field="gen_proc_color_rgb_value" />
       <WriteField Field="gen_proc_color_name" />
       <WriteField Field="map_u_tile" />
-      <WriteField Field="map_v_tile" />
       <WriteField Field="translucence" />
       <WriteField Field="self_illumination" />
       <WriteField Field="reflectivity" />
@@ -1193,8 +1192,8 @@
     <WriteOrder>
       <WriteSpecificValue Code="100" Value='&amp;String::from("AcDbVbaProject")' />
       <WriteSpecificValue Code="90" Value="obj.data.len() as i32" />
-      <Foreach Field="obj.data.chunks(128).collect::&lt;Vec&lt;_&gt;&gt;()">
-        <WriteSpecificValue Code="310" Value="item.to_vec()" />
+      <Foreach Field="obj.__hex_data">
+        <WriteSpecificValue Code="310" Value="item.clone()" />
       </Foreach>
     </WriteOrder>
   </Object>
diff --git a/src/entity.rs b/src/entity.rs
index 45e2ff8..6d75dd9 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -421,6 +421,31 @@ impl EntityCommon {
 //------------------------------------------------------------------------------
 //                                                                        Entity
 //------------------------------------------------------------------------------
+/// The different kinds of underlays are separate types with the same fields.
+macro_rules! add_custom_code_pairs_underlay {
+    ($pairs:expr, $ent:expr) => {
+        $pairs.push(CodePair::new_str(100, "AcDbUnderlayReference"));
+        $pairs.push(CodePair::new_string(340, &$ent.__object_handle.as_string()));
+        $pairs.push(CodePair::new_f64(10, $ent.insertion_point.x));
+        $pairs.push(CodePair::new_f64(20, $ent.insertion_point.y));
+        $pairs.push(CodePair::new_f64(30, $ent.insertion_point.z));
+        $pairs.push(CodePair::new_f64(41, $ent.x_scale));
+        $pairs.push(CodePair::new_f64(42, $ent.y_scale));
+        $pairs.push(CodePair::new_f64(43, $ent.z_scale));
+        $pairs.push(CodePair::new_f64(50, $ent.rotation_angle));
+        $pairs.push(CodePair::new_f64(210, $ent.normal.x));
+        $pairs.push(CodePair::new_f64(220, $ent.normal.y));
+        $pairs.push(CodePair::new_f64(230, $ent.normal.z));
+        $pairs.push(CodePair::new_i16(280, $ent.flags as i16));
+        $pairs.push(CodePair::new_i16(281, $ent.contrast));
+        $pairs.push(CodePair::new_i16(282, $ent.fade));
+        for item in &$ent.points {
+            $pairs.push(CodePair::new_f64(11, item.x));
+            $pairs.push(CodePair::new_f64(21, item.y));
+        }
+    };
+}
+
 /// The group codes of the `AcDbEntity` subclass that other subclasses use with another meaning.
 fn is_common_code(code: i32) -> bool {
     matches!(code, 48 | 92 | 310 | 420 | 430)
@@ -679,7 +704,13 @@ impl Entity {
                                                         in_common =
                                                             pair.assert_string()? == "AcDbEntity";
                                                     }
-                                                    if in_common && is_common_code(pair.code) {
+                                                    if let (EntityType::Wipeout(w), 24) =
+                                                        (&mut entity.specific, pair.code)
+                                                    {
+                                                        w.__clipping_vertices_y
+                                                            .push(pair.assert_f64()?);
+                                                    } else if in_common && is_common_code(pair.code)
+                                                    {
                                                         entity
                                                             .common
                                                             .apply_individual_pair(&pair, iter)?
@@ -1396,6 +1427,18 @@ impl Entity {
             EntityType::OrdinateDimension(ref dim) => {
                 Entity::add_custom_code_pairs_ordinatedimension(pairs, dim, version);
             }
+            EntityType::DgnUnderlay(ref underlay) => {
+                add_custom_code_pairs_underlay!(pairs, underlay);
+            }
+            EntityType::DwfUnderlay(ref underlay) => {
+                add_custom_code_pairs_underlay!(pairs, underlay);
+            }
+            EntityType::PdfUnderlay(ref underlay) => {
+                add_custom_code_pairs_underlay!(pairs, underlay);
+            }
+            EntityType::MLine(ref line) => {
+                Entity::add_custom_code_pairs_mline(pairs, line);
+            }
             EntityType::Polyline(ref poly) => {
                 Entity::add_custom_code_pairs_polyline(pairs, poly, version);
             }
@@ -1494,6 +1537,50 @@ impl Entity {
         pairs.push(CodePair::new_f64(34, dim.definition_point_3.z));
         true
     }
+    fn add_custom_code_pairs_mline(pairs: &mut Vec<CodePair>, line: &MLine) {
+        pairs.push(CodePair::new_str(100, "AcDbMline"));
+        pairs.push(CodePair::new_string(2, &line.style_name));
+        pairs.push(CodePair::new_string(340, &line.__style_handle.as_string()));
+        pairs.push(CodePair::new_f64(40, line.scale_factor));
+        pairs.push(CodePair::new_i16(70, line.justification as i16));
+        pairs.push(CodePair::new_i16(71, line.flags as i16));
+        pairs.push(CodePair::new_i16(72, line.vertices.len() as i16));
+        pairs.push(CodePair::new_i16(73, line.style_element_count as i16));
+        pairs.push(CodePair::new_f64(10, line.start_point.x));
+        pairs.push(CodePair::new_f64(20, line.start_point.y));
+        pairs.push(CodePair::new_f64(30, line.start_point.z));
+        if line.normal != Vector::z_axis() {
+            pairs.push(CodePair::new_f64(210, line.normal.x));
+            pairs.push(CodePair::new_f64(220, line.normal.y));
+            pairs.push(CodePair::new_f64(230, line.normal.z));
+        }
+        for item in &line.vertices {
+            pairs.push(CodePair::new_f64(11, item.x));
+            pairs.push(CodePair::new_f64(21, item.y));
+            pairs.push(CodePair::new_f64(31, item.z));
+        }
+        for item in &line.segment_directions {
+            pairs.push(CodePair::new_f64(12, item.x));
+            pairs.push(CodePair::new_f64(22, item.y));
+            pairs.push(CodePair::new_f64(32, item.z));
+        }
+        for item in &line.miter_directions {
+            pairs.push(CodePair::new_f64(13, item.x));
+            pairs.push(CodePair::new_f64(23, item.y));
+            pairs.push(CodePair::new_f64(33, item.z));
+        }
+        pairs.push(CodePair::new_i16(74, line.parameters.len() as i16));
+        for v in &line.parameters {
+            pairs.push(CodePair::new_f64(41, *v));
+        }
+        pairs.push(CodePair::new_i16(
+            75,
+            line.area_fill_parameters.len() as i16,
+        ));
+        for v in &line.area_fill_parameters {
+            pairs.push(CodePair::new_f64(42, *v));
+        }
+    }
     fn add_custom_code_pairs_polyline(
         pairs: &mut Vec<CodePair>,
         poly: &Polyline,
diff --git a/src/object.rs b/src/object.rs
index b38b706..c874930 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1505,6 +1505,193 @@ impl Object {
             }
         }
     }
+    fn add_custom_code_pairs_material(
+        pairs: &mut Vec<CodePair>,
+        obj: &Material,
+        version: AcadVersion,
+    ) {
+        pairs.push(CodePair::new_string(1, &obj.name));
+        pairs.push(CodePair::new_string(2, &obj.description));
+        pairs.push(CodePair::new_i16(70, as_i16(obj.override_ambient_color)));
+        pairs.push(CodePair::new_f64(40, obj.ambient_color_factor));
+        pairs.push(CodePair::new_i32(90, obj.ambient_color_value));
+        pairs.push(CodePair::new_i16(71, as_i16(obj.override_diffuse_color)));
+        pairs.push(CodePair::new_f64(41, obj.diffuse_color_factor));
+        pairs.push(CodePair::new_i32(91, obj.diffuse_color_value));
+        pairs.push(CodePair::new_f64(42, obj.diffuse_map_blend_factor));
+        pairs.push(CodePair::new_i16(
+            72,
+            as_i16(obj.use_image_file_for_diffuse_map),
+        ));
+        pairs.push(CodePair::new_string(3, &obj.diffuse_map_file_name));
+        pairs.push(CodePair::new_i16(
+            73,
+            obj.diffuse_map_projection_method as i16,
+        ));
+        pairs.push(CodePair::new_i16(74, obj.diffuse_map_tiling_method as i16));
+        pairs.push(CodePair::new_i16(
+            75,
+            obj.diffuse_map_auto_transform_method as i16,
+        ));
+        for item in &obj.diffuse_map_transformation_matrix.values() {
+            pairs.push(CodePair::new_f64(43, *item));
+        }
+        pairs.push(CodePair::new_f64(44, obj.specular_gloss_factor));
+        pairs.push(CodePair::new_i16(76, as_i16(obj.override_specular_color)));
+        pairs.push(CodePair::new_f64(45, obj.specular_color_factor));
+        pairs.push(CodePair::new_i32(92, obj.specular_color_value));
+        pairs.push(CodePair::new_f64(46, obj.specular_map_blend_factor));
+        pairs.push(CodePair::new_i16(
+            77,
+            as_i16(obj.use_image_file_for_specular_map),
+        ));
+        pairs.push(CodePair::new_string(4, &obj.specular_map_file_name));
+        pairs.push(CodePair::new_i16(
+            78,
+            obj.specular_map_projection_method as i16,
+        ));
+        pairs.push(CodePair::new_i16(79, obj.specular_map_tiling_method as i16));
+        pairs.push(CodePair::new_i16(
+            170,
+            obj.specular_map_auto_transform_method as i16,
+        ));
+        for item in &obj.specular_map_transformation_matrix.values() {
+            pairs.push(CodePair::new_f64(47, *item));
+        }
+        pairs.push(CodePair::new_f64(48, obj.reflection_map_blend_factor));
+        pairs.push(CodePair::new_i16(
+            171,
+            as_i16(obj.use_image_file_for_reflection_map),
+        ));
+        pairs.push(CodePair::new_string(6, &obj.reflection_map_file_name));
+        pairs.push(CodePair::new_i16(
+            172,
+            obj.reflection_map_projection_method as i16,
+        ));
+        pairs.push(CodePair::new_i16(
+            173,
+            obj.reflection_map_tiling_method as i16,
+        ));
+        pairs.push(CodePair::new_i16(
+            174,
+            obj.reflection_map_auto_transform_method as i16,
+        ));
+        for item in &obj.reflection_map_transformation_matrix.values() {
+            pairs.push(CodePair::new_f64(49, *item));
+        }
+        pairs.push(CodePair::new_f64(140, obj.opacity_factor));
+        pairs.push(CodePair::new_f64(141, obj.opacity_map_blend_factor));
+        pairs.push(CodePair::new_i16(
+            175,
+            as_i16(obj.use_image_file_for_opacity_map),
+        ));
+        pairs.push(CodePair::new_string(7, &obj.opacity_map_file_name));
+        pairs.push(CodePair::new_i16(
+            176,
+            obj.opacity_map_projection_method as i16,
+        ));
+        pairs.push(CodePair::new_i16(177, obj.opacity_map_tiling_method as i16));
+        pairs.push(CodePair::new_i16(
+            178,
+            obj.opacity_map_auto_transform_method as i16,
+        ));
+        for item in &obj.opacity_map_transformation_matrix.values() {
+            pairs.push(CodePair::new_f64(142, *item));
+        }
+        pairs.push(CodePair::new_f64(143, obj.bump_map_blend_factor));
+        pairs.push(CodePair::new_i16(
+            179,
+            as_i16(obj.use_image_file_for_bump_map),
+        ));
+        pairs.push(CodePair::new_string(8, &obj.bump_map_file_name));
+        pairs.push(CodePair::new_i16(
+            270,
+            obj.bump_map_projection_method as i16,
+        ));
+        pairs.push(CodePair::new_i16(271, obj.bump_map_tiling_method as i16));
+        pairs.push(CodePair::new_i16(
+            272,
+            obj.bump_map_auto_transform_method as i16,
+        ));
+        for item in &obj.bump_map_transformation_matrix.values() {
+            pairs.push(CodePair::new_f64(144, *item));
+        }
+        pairs.push(CodePair::new_f64(145, obj.refraction_index));
+        pairs.push(CodePair::new_f64(146, obj.refraction_map_blend_factor));
+        pairs.push(CodePair::new_i16(
+            273,
+            as_i16(obj.use_image_file_for_refraction_map),
+        ));
+        pairs.push(CodePair::new_string(9, &obj.refraction_map_file_name));
+        pairs.push(CodePair::new_i16(
+            274,
+            obj.refraction_map_projection_method as i16,
+        ));
+        pairs.push(CodePair::new_i16(
+            275,
+            obj.refraction_map_tiling_method as i16,
+        ));
+        pairs.push(CodePair::new_i16(
+            276,
+            obj.refraction_map_auto_transform_method as i16,
+        ));
+        for item in &obj.refraction_map_transformation_matrix.values() {
+            pairs.push(CodePair::new_f64(147, *item));
+        }
+        if version >= AcadVersion::R2007 {
+            pairs.push(CodePair::new_f64(460, obj.color_bleed_scale));
+            pairs.push(CodePair::new_f64(461, obj.indirect_dump_scale));
+            pairs.push(CodePair::new_f64(462, obj.reflectance_scale));
+            pairs.push(CodePair::new_f64(463, obj.transmittance_scale));
+            pairs.push(CodePair::new_bool(290, obj.is_two_sided));
+            pairs.push(CodePair::new_f64(464, obj.luminance));
+            pairs.push(CodePair::new_i16(270, obj.luminance_mode));
+            pairs.push(CodePair::new_i16(271, obj.normal_map_method));
+            pairs.push(CodePair::new_f64(465, obj.normal_map_strength));
+            pairs.push(CodePair::new_f64(42, obj.normal_map_blend_factor));
+            pairs.push(CodePair::new_i16(
+                72,
+                as_i16(obj.use_image_file_for_normal_map),
+            ));
+            pairs.push(CodePair::new_string(3, &obj.normal_map_file_name));
+            pairs.push(CodePair::new_i16(
+                73,
+                obj.normal_map_projection_method as i16,
+            ));
+            pairs.push(CodePair::new_i16(74, obj.normal_map_tiling_method as i16));
+            pairs.push(CodePair::new_i16(
+                75,
+                obj.normal_map_auto_transform_method as i16,
+            ));
+            for item in &obj.normal_map_transformation_matrix.values() {
+                pairs.push(CodePair::new_f64(43, *item));
+            }
+            pairs.push(CodePair::new_bool(293, obj.is_anonymous));
+            pairs.push(CodePair::new_i16(272, obj.global_illumination_mode));
+            pairs.push(CodePair::new_i16(273, obj.final_gather_mode));
+            pairs.push(CodePair::new_string(300, &obj.gen_proc_name));
+            pairs.push(CodePair::new_bool(291, obj.gen_proc_boolean_value));
+            pairs.push(CodePair::new_i16(271, obj.gen_proc_integer_value));
+            pairs.push(CodePair::new_f64(469, obj.gen_proc_real_value));
+            pairs.push(CodePair::new_string(301, &obj.gen_proc_text_value));
+            pairs.push(CodePair::new_bool(292, obj.gen_proc_table_end));
+            pairs.push(CodePair::new_i16(
+                62,
+                obj.gen_proc_color_index_value.raw_value(),
+            ));
+            pairs.push(CodePair::new_i32(420, obj.gen_proc_color_rgb_value));
+            pairs.push(CodePair::new_string(430, &obj.gen_proc_color_name));
+            pairs.push(CodePair::new_i16(270, obj.map_u_tile));
+            pairs.push(CodePair::new_i16(271, obj.map_v_tile));
+        }
+        if version >= AcadVersion::R2010 {
+            pairs.push(CodePair::new_f64(148, obj.translucence));
+            pairs.push(CodePair::new_i32(90, obj.self_illumination));
+            pairs.push(CodePair::new_f64(468, obj.reflectivity));
+            pairs.push(CodePair::new_i32(93, obj.illumination_model));
+            pairs.push(CodePair::new_i32(94, obj.channel_flags));
+        }
+    }
     fn add_custom_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion) -> bool {
         match self.specific {
             ObjectType::DataTable(ref data) => {
@@ -1564,6 +1751,16 @@ impl Object {
                     }
                 }
             }
+            ObjectType::Material(ref material) => {
+                Object::add_custom_code_pairs_material(pairs, material, version);
+            }
+            ObjectType::VbaProject(ref obj) => {
+                pairs.push(CodePair::new_str(100, "AcDbVbaProject"));
+                pairs.push(CodePair::new_i32(90, obj.data.len() as i32));
+                for item in obj.data.chunks(128) {
+                    pairs.push(CodePair::new_binary(310, item.to_vec()));
+                }
+            }
             ObjectType::Dictionary(ref dict) => {
                 pairs.push(CodePair::new_str(100, "AcDbDictionary"));
                 if version >= AcadVersion::R2000 {
-- 
2.43.0


From 72cd9c71350ae73639b342c455c717abe5dd4f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:40 +0000
Subject: [PATCH 37/63] fix: the x data of compound entities was written after
 their parts

---
 src/entity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 6d75dd9..db6cf80 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1404,10 +1404,10 @@ impl Entity {
                 self.specific.add_code_pairs(pairs, &self.common, version);
             }
 
-            self.add_post_code_pairs(pairs, version, write_handles);
             for x in &self.common.x_data {
                 x.add_code_pairs(pairs, version);
             }
+            self.add_post_code_pairs(pairs, version, write_handles);
         }
     }
     fn add_custom_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion) -> bool {
-- 
2.43.0


From 0768ef7784918f12ffb6f231533e0208a798db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:37 +0000
Subject: [PATCH 38/63] fix: normalizing a drawing twice changed the view port
 that the first time added

---
 src/drawing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index d89d048..04d7eb7 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -485,13 +485,13 @@ impl Drawing {
         self.normalize_block_records();
         self.normalize_layers();
         self.normalize_text_styles();
-        self.normalize_view_ports();
         self.normalize_views();
         self.ensure_dimension_styles();
         self.ensure_layers();
         self.ensure_line_types();
         self.ensure_text_styles();
         self.ensure_view_ports();
+        self.normalize_view_ports();
         self.ensure_ucs();
 
         self.__app_ids.sort_by(|a, b| a.name.cmp(&b.name));
-- 
2.43.0


From 10e02e71f685c0fe8cb3663a0fddf84e128ac459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:26 +0000
Subject: [PATCH 39/63] fix: text around backslashes and characters beyond the
 basic plane were lost in files before R2007

---
 src/code_pair_value.rs | 74 ++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/src/code_pair_value.rs b/src/code_pair_value.rs
index a2bb187..a154c0c 100644
--- a/src/code_pair_value.rs
+++ b/src/code_pair_value.rs
@@ -33,7 +33,7 @@ impl CodePairValue {
                     _ => {
                         if do_escape {
                             do_escape = false;
-                            let c = match c {
+                            let c: u8 = match c {
                                 '@' => 0x00,
                                 'A' => 0x01,
                                 'B' => 0x02,
@@ -67,7 +67,10 @@ impl CodePairValue {
                                 '^' => 0x1E,
                                 '_' => 0x1F,
                                 ' ' => b'^',
-                                _ => c as u8, // invalid escape sequence, just keep the character
+                                _ => {
+                                    result.push(c); // invalid escape sequence, just keep the character
+                                    continue;
+                                }
                             };
 
                             result.push(c as char);
@@ -182,10 +185,15 @@ pub(crate) fn escape_control_characters(val: &str) -> String {
 pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
     let mut result = String::from("");
 
-    for c in val.chars() {
-        let b = c as u32;
-        if b >= 128 {
-            result.push_str(&format!("\\U+{:04X}", b));
+    for (i, c) in val.char_indices() {
+        if c as u32 >= 128 {
+            // anything that doesn't fit into 4 digits is written as a surrogate pair
+            for unit in c.encode_utf16(&mut [0; 2]) {
+                result.push_str(&format!("\\U+{:04X}", unit));
+            }
+        } else if c == '\\' && parse_unicode_escape(&val[i..]).is_some() {
+            // text that looks like an escape sequence has to be escaped itself
+            result.push_str("\\U+005C");
         } else {
             result.push(c);
         }
@@ -194,41 +202,37 @@ pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
     result
 }
 
+/// Parses an escape sequence of the form `\U+XXXX` from the start of the string.
+fn parse_unicode_escape(val: &str) -> Option<u16> {
+    let digits = val.strip_prefix("\\U+")?.get(0..4)?;
+    if digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+        u16::from_str_radix(digits, 16).ok()
+    } else {
+        None
+    }
+}
+
 pub(crate) fn un_escape_ascii_to_unicode(val: &str) -> String {
     let mut result = String::from("");
-    let mut seq = String::from("");
-    let mut in_escape_sequence = false;
-    let mut sequence_start = 0;
-
-    for (i, c) in val.chars().enumerate() {
-        if !in_escape_sequence {
-            if c == '\\' {
-                in_escape_sequence = true;
-                sequence_start = i;
-                seq.clear();
-                seq.push(c);
-            } else {
-                result.push(c);
-            }
-        } else {
-            seq.push(c);
-            if i == sequence_start + 6 {
-                in_escape_sequence = false;
-                if let Some(code_str) = seq.strip_prefix("\\U+") {
-                    let decoded = match u32::from_str_radix(code_str, 16) {
-                        Ok(code) => std::char::from_u32(code).unwrap_or('?'),
-                        Err(_) => '?',
-                    };
-                    result.push(decoded);
-                } else {
-                    result.push_str(&seq);
-                }
+    let mut units: Vec<u16> = vec![]; // the run of consecutive escape sequences just read
+    let mut rest = val;
 
-                seq.clear();
-            }
+    fn flush(units: &mut Vec<u16>, result: &mut String) {
+        result.extend(char::decode_utf16(units.drain(..)).map(|c| c.unwrap_or('?')));
+    }
+
+    while let Some(c) = rest.chars().next() {
+        if let Some(unit) = parse_unicode_escape(rest) {
+            units.push(unit);
+            rest = &rest[7..];
+        } else {
+            flush(&mut units, &mut result);
+            result.push(c);
+            rest = &rest[c.len_utf8()..];
         }
     }
 
+    flush(&mut units, &mut result);
     result
 }
 
-- 
2.43.0


From 69a1feaf3b7125e6857641291f0ce0b9793bac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:26 +0000
Subject: [PATCH 40/63] fix: a leading byte order mark character of a string
 was lost on load

---
 src/helper_functions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index e4ade06..f05a9a8 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -321,9 +321,9 @@ where
         }
     }
 
-    let mut result = match encoding.decode(&bytes) {
-        (result, _, false) => String::from(&*result),
-        (_, _, true) => return Err(DxfError::MalformedString),
+    let mut result = match encoding.decode_without_bom_handling(&bytes) {
+        (result, false) => String::from(&*result),
+        (_, true) => return Err(DxfError::MalformedString),
     };
 
     if result.ends_with('\r') {
-- 
2.43.0


From db17597d5be8449321402854175c8f1327db8a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:41 +0000
Subject: [PATCH 41/63] fix: non-ASCII strings were garbled by saving and
 loading a binary file

---
 src/code_pair_iter.rs   | 40 +++++++++++++++++++++++++++++++++++++++-
 src/code_pair_writer.rs |  7 ++++++-
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index c724880..db49c97 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -284,6 +284,41 @@ impl<T: Read> BinaryCodePairIter<T> {
     }
 }
 
+/// Decodes the strings of a binary file, which `BinaryCodePairIter` returns byte by byte.
+struct DecodingCodePairIter<T: Read> {
+    iter: BinaryCodePairIter<T>,
+    string_encoding: &'static Encoding,
+}
+
+impl<T: Read> CodePairIter for DecodingCodePairIter<T> {
+    fn read_as_utf8(&mut self) {
+        self.string_encoding = encoding_rs::UTF_8;
+    }
+}
+
+impl<T: Read> Iterator for DecodingCodePairIter<T> {
+    type Item = DxfResult<CodePair>;
+    fn next(&mut self) -> Option<DxfResult<CodePair>> {
+        let mut pair = match self.iter.next() {
+            Some(Ok(pair)) => pair,
+            other => return other,
+        };
+        if let CodePairValue::Str(ref mut s) = pair.value {
+            let bytes: Vec<u8> = s.chars().map(|c| c as u8).collect();
+            let (decoded, malformed) = self.string_encoding.decode_without_bom_handling(&bytes);
+            if malformed {
+                return Some(Err(DxfError::MalformedString));
+            }
+            *s = if self.string_encoding == encoding_rs::WINDOWS_1252 {
+                un_escape_ascii_to_unicode(&decoded)
+            } else {
+                decoded.into_owned()
+            };
+        }
+        Some(Ok(pair))
+    }
+}
+
 //---------------------------
 
 pub(crate) fn new_code_pair_iter_from_reader<T>(
@@ -310,7 +345,10 @@ where
                 0x00,
                 19
             );
-            Box::new(BinaryCodePairIter::new(cursor, 20))
+            Box::new(DecodingCodePairIter {
+                iter: BinaryCodePairIter::new(cursor, 20),
+                string_encoding,
+            })
         }
         _ => Box::new(TextCodePairIter::new(
             cursor,
diff --git a/src/code_pair_writer.rs b/src/code_pair_writer.rs
index 7b3605c..eabac89 100644
--- a/src/code_pair_writer.rs
+++ b/src/code_pair_writer.rs
@@ -89,7 +89,12 @@ impl<'a, T: Write + ?Sized> CodePairWriter<'a, T> {
             CodePairValue::Short(s) => self.writer.write_i16::<LittleEndian>(s)?,
             CodePairValue::Double(d) => self.writer.write_f64::<LittleEndian>(d)?,
             CodePairValue::Str(ref s) => {
-                for &b in escape_control_characters(s).as_bytes() {
+                let s = if self.text_as_ascii {
+                    escape_unicode_to_ascii(s)
+                } else {
+                    s.clone()
+                };
+                for &b in escape_control_characters(&s).as_bytes() {
                     self.writer.write_u8(b)?;
                 }
 
-- 
2.43.0


From 9f62d2865bd4e161996d7528d9d705964fbbd00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:24 +0000
Subject: [PATCH 42/63] fix: byte strings longer than 255 bytes made a binary
 file unreadable

---
 src/code_pair_writer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/code_pair_writer.rs b/src/code_pair_writer.rs
index eabac89..2047534 100644
--- a/src/code_pair_writer.rs
+++ b/src/code_pair_writer.rs
@@ -6,6 +6,8 @@ use crate::code_pair_value::{escape_control_characters, escape_unicode_to_ascii}
 use crate::enums::AcadVersion;
 use crate::{CodePair, CodePairValue, DxfResult};
 
+const MAX_BINARY_CHUNK_SIZE: usize = 255;
+
 pub(crate) struct CodePairWriter<'a, T>
 where
     T: Write + ?Sized + 'a,
@@ -65,6 +67,16 @@ impl<'a, T: Write + ?Sized> CodePairWriter<'a, T> {
         Ok(())
     }
     fn write_binary_code_pair(&mut self, pair: &CodePair) -> DxfResult<()> {
+        if let CodePairValue::Binary(ref buf) = pair.value {
+            // the length is a single byte, so anything longer is written in several pieces
+            if buf.len() > MAX_BINARY_CHUNK_SIZE {
+                for chunk in buf.chunks(MAX_BINARY_CHUNK_SIZE) {
+                    self.write_binary_code_pair(&CodePair::new_binary(pair.code, chunk.to_vec()))?;
+                }
+                return Ok(());
+            }
+        }
+
         // write code
         if self.version >= AcadVersion::R13 {
             self.writer.write_i16::<LittleEndian>(pair.code as i16)?;
-- 
2.43.0


From 51ede6815600ae8f22df4a7eafb6b6119606d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:17 +0000
Subject: [PATCH 43/63] fix: deeply nested extended data and extension groups
 overflowed the stack

---
 src/extension_data.rs | 17 ++++++++++++++++-
 src/x_data.rs         | 19 ++++++++++++++++---
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/extension_data.rs b/src/extension_data.rs
index 1363059..4bb96b8 100644
--- a/src/extension_data.rs
+++ b/src/extension_data.rs
@@ -4,6 +4,9 @@ use crate::code_pair_put_back::CodePairPutBack;
 
 pub(crate) const EXTENSION_DATA_GROUP: i32 = 102;
 
+/// Groups that are nested deeper than this are considered an error.
+const EXTENSION_DATA_MAX_DEPTH: usize = 256;
+
 /// Represents an application name and a collection of extension group data in the form of `CodePair`s.
 #[derive(Clone, Debug, PartialEq)]
 #[cfg_attr(feature = "serialize", derive(serde::Serialize, serde::Deserialize))]
@@ -26,6 +29,17 @@ impl ExtensionGroup {
         iter: &mut CodePairPutBack,
         offset: usize,
     ) -> DxfResult<ExtensionGroup> {
+        ExtensionGroup::read_nested_group(application_name, iter, offset, 0)
+    }
+    fn read_nested_group(
+        application_name: String,
+        iter: &mut CodePairPutBack,
+        offset: usize,
+        depth: usize,
+    ) -> DxfResult<ExtensionGroup> {
+        if depth >= EXTENSION_DATA_MAX_DEPTH {
+            return Err(DxfError::ParseError(offset));
+        }
         if !application_name.starts_with('{') {
             return Err(DxfError::ParseError(offset));
         }
@@ -46,7 +60,8 @@ impl ExtensionGroup {
                     break;
                 } else if name.starts_with('{') {
                     // nested group
-                    let sub_group = ExtensionGroup::read_group(name, iter, pair.offset)?;
+                    let sub_group =
+                        ExtensionGroup::read_nested_group(name, iter, pair.offset, depth + 1)?;
                     items.push(ExtensionGroupItem::Group(sub_group));
                 } else {
                     return Err(DxfError::UnexpectedCodePair(
diff --git a/src/x_data.rs b/src/x_data.rs
index 501d128..2da9a88 100644
--- a/src/x_data.rs
+++ b/src/x_data.rs
@@ -20,6 +20,9 @@ const XDATA_SCALEFACTOR: i32 = 1042;
 const XDATA_INTEGER: i32 = 1070;
 const XDATA_LONG: i32 = 1071;
 
+/// Control groups that are nested deeper than this are considered an error.
+const XDATA_MAX_DEPTH: usize = 256;
+
 /// Represents an application name and a collection of extended data.
 #[derive(Clone, Debug)]
 #[cfg_attr(feature = "serialize", derive(serde::Serialize, serde::Deserialize))]
@@ -72,7 +75,7 @@ impl XData {
                 iter.put_back(Ok(pair));
                 break;
             }
-            xdata.items.push(XDataItem::read_item(&pair, iter)?);
+            xdata.items.push(XDataItem::read_item(&pair, iter, 0)?);
         }
         Ok(xdata)
     }
@@ -91,10 +94,20 @@ impl XData {
 }
 
 impl XDataItem {
-    fn read_item(pair: &CodePair, iter: &mut CodePairPutBack) -> DxfResult<XDataItem> {
+    fn read_item(
+        pair: &CodePair,
+        iter: &mut CodePairPutBack,
+        depth: usize,
+    ) -> DxfResult<XDataItem> {
         match pair.code {
             XDATA_STRING => Ok(XDataItem::Str(pair.assert_string()?)),
             XDATA_CONTROLGROUP => {
+                if depth >= XDATA_MAX_DEPTH {
+                    return Err(DxfError::UnexpectedCodePair(
+                        pair.clone(),
+                        String::from("XDATA control groups are nested too deeply"),
+                    ));
+                }
                 let mut items = vec![];
                 loop {
                     let pair = match iter.next() {
@@ -115,7 +128,7 @@ impl XDataItem {
                         break;
                     }
 
-                    items.push(XDataItem::read_item(&pair, iter)?);
+                    items.push(XDataItem::read_item(&pair, iter, depth + 1)?);
                 }
                 Ok(XDataItem::ControlGroup(items))
             }
-- 
2.43.0


From ed9d42b1bc79fbbf8efe33e85bebc71bf9b9aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:54 +0000
Subject: [PATCH 44/63] fix: x data of an XRECORD became part of its data on
 load

---
 src/object.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index c874930..c3845a1 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -15,6 +15,7 @@ use crate::code_pair_put_back::CodePairPutBack;
 use crate::enums::*;
 use crate::helper_functions::*;
 use crate::objects::*;
+use crate::x_data;
 
 //------------------------------------------------------------------------------
 //                                                                  GeoMeshPoint
@@ -1457,7 +1458,10 @@ impl Object {
         let mut after_marker = false;
         loop {
             let pair = next_pair!(iter);
-            if reading_data && !(after_marker && pair.code == 280) {
+            if pair.code == x_data::XDATA_APPLICATIONNAME {
+                // the data of the record is followed by the object's x data
+                common.apply_individual_pair(&pair, iter)?;
+            } else if reading_data && !(after_marker && pair.code == 280) {
                 after_marker = false;
                 xr.data_pairs.push(pair);
             } else {
-- 
2.43.0


From 0467470dc293bbed9224a5af9422588e2258b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:06 +0000
Subject: [PATCH 45/63] fix: dates out of chrono's range panicked on load

---
 src/helper_functions.rs | 6 ++++--
 src/object.rs           | 5 ++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index f05a9a8..fc30f0e 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -36,7 +36,9 @@ fn f64_to_adjusted_duration(f: f64) -> ChronoDuration {
     let seconds = days_since_dublin * secs_per_day as f64;
     // functions consuming this need to use 1900/01/01 instead of 1899/12/31 as a base
     // so we counter the extra day here
-    ChronoDuration::seconds(seconds.round() as i64 - secs_per_day)
+    // values that can't be represented are out of bounds, just like those before the base
+    ChronoDuration::try_seconds((seconds.round() as i64).saturating_sub(secs_per_day))
+        .unwrap_or_default()
 }
 
 fn epoch<T>(timezone: &T) -> DateTime<T>
@@ -62,7 +64,7 @@ where
             _ => ChronoDuration::seconds(0),
         }
     };
-    epoch + duration
+    epoch.clone().checked_add_signed(duration).unwrap_or(epoch)
 }
 
 pub(crate) fn as_datetime_local(date: f64) -> DateTime<Local> {
diff --git a/src/object.rs b/src/object.rs
index c3845a1..c894795 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -2,7 +2,6 @@
 
 use enum_primitive::FromPrimitive;
 use itertools::Itertools;
-use std::ops::Add;
 
 use chrono::Duration;
 
@@ -1341,8 +1340,8 @@ impl Object {
                         match julian_day {
                             Some(jd) => {
                                 let date = as_datetime_local(f64::from(jd));
-                                let date =
-                                    date.add(Duration::seconds(i64::from(pair.assert_i32()?)));
+                                let seconds = Duration::seconds(i64::from(pair.assert_i32()?));
+                                let date = date.checked_add_signed(seconds).unwrap_or(date);
                                 ss.dates.push(date);
                                 julian_day = None;
                             }
-- 
2.43.0


From ad4bba647644990bb9ad5aa1440c9ff3eb411c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:06 +0000
Subject: [PATCH 46/63] fix: a layer color of -32768 panicked on load

---
 src/helper_functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index fc30f0e..f19d18e 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -290,7 +290,7 @@ fn parse_i16_test() {
 
 pub(crate) fn read_color_value(layer: &mut Layer, color: i16) -> Color {
     layer.is_layer_on = color >= 0;
-    Color::from_raw_value(color.abs())
+    Color::from_raw_value(color.saturating_abs())
 }
 
 pub(crate) fn read_line<T>(
-- 
2.43.0


From 313fdbbf2bca91300f5edd72615ff26fdb393e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:11 +0000
Subject: [PATCH 47/63] fix: handles of more than 16 digits were read as their
 first 16

---
 src/code_pair.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/code_pair.rs b/src/code_pair.rs
index c8a387c..1a4fea0 100644
--- a/src/code_pair.rs
+++ b/src/code_pair.rs
@@ -101,7 +101,11 @@ impl CodePair {
         while bytes.len() < 8 {
             bytes.insert(0, 0);
         }
-        Ok(Handle(BigEndian::read_u64(&bytes)))
+        let (excess, bytes) = bytes.split_at(bytes.len() - 8);
+        if excess.iter().any(|b| *b != 0) {
+            return Err(DxfError::ParseError(self.offset)); // too large for a handle
+        }
+        Ok(Handle(BigEndian::read_u64(bytes)))
     }
 }
 
-- 
2.43.0


From 1f4dc26a7953deb43b20f95bb6f8f26913ab9cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:13 +0000
Subject: [PATCH 48/63] fix: a missing ENDSEC or ENDBLK silently dropped what
 followed

---
 src/block.rs   | 27 ++++++++++++++-------------
 src/class.rs   |  2 +-
 src/drawing.rs | 13 +++++++++----
 src/entity.rs  | 20 +++++++++++++++++---
 src/object.rs  |  2 +-
 5 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 492555e..984f9df 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -159,22 +159,23 @@ impl Block {
                             drawing.add_block_no_handle_set(current);
                             break;
                         }
-                        CodePair {
-                            code: 0,
-                            value: CodePairValue::Str(ref s),
-                            ..
-                        } if s == "ENDSEC" => {
-                            // the block was never closed
-                            return Err(DxfError::UnexpectedCodePair(
-                                pair,
-                                String::from("expected 0/ENDBLK"),
-                            ));
-                        }
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-                            let mut iter = EntityIter::new(iter);
-                            iter.read_entities_into_vec(&mut current.entities)?;
+                            EntityIter::new(iter).read_entities_into_vec(&mut current.entities)?;
+                            match iter.next() {
+                                Some(Ok(pair))
+                                    if pair.code != 0 || pair.assert_string()? != "ENDBLK" =>
+                                {
+                                    // the block was never closed
+                                    return Err(DxfError::UnexpectedCodePair(
+                                        pair,
+                                        String::from("expected 0/ENDBLK"),
+                                    ));
+                                }
+                                Some(pair) => iter.put_back(pair),
+                                None => return Err(DxfError::UnexpectedEndOfInput),
+                            }
                         }
                         _ => {
                             // specific to the BLOCK
diff --git a/src/class.rs b/src/class.rs
index c928b52..cf2aa3e 100644
--- a/src/class.rs
+++ b/src/class.rs
@@ -121,7 +121,7 @@ impl Class {
                 Some(Ok(pair)) => {
                     if pair.code == 0 {
                         match &*pair.assert_string()? {
-                            "ENDSEC" => {
+                            "ENDSEC" | "SECTION" | "EOF" => {
                                 iter.put_back(Ok(pair));
                                 break;
                             }
diff --git a/src/drawing.rs b/src/drawing.rs
index 04d7eb7..006fe2d 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -1137,9 +1137,14 @@ impl Drawing {
         loop {
             match iter.next() {
                 Some(Ok(pair)) => {
-                    if pair.code == 0 && pair.assert_string()? == "ENDSEC" {
-                        iter.put_back(Ok(pair));
-                        break;
+                    if pair.code == 0 {
+                        match &*pair.assert_string()? {
+                            "ENDSEC" | "SECTION" | "EOF" => {
+                                iter.put_back(Ok(pair));
+                                break;
+                            }
+                            _ => (),
+                        }
                     }
                 }
                 Some(Err(e)) => return Err(e),
@@ -1208,7 +1213,7 @@ impl Drawing {
                 Some(Ok(pair)) => {
                     if pair.code == 0 {
                         match &*pair.assert_string()? {
-                            "TABLE" | "ENDSEC" | "ENDTAB" => {
+                            "TABLE" | "ENDSEC" | "ENDTAB" | "SECTION" | "EOF" => {
                                 iter.put_back(Ok(pair));
                                 break;
                             }
diff --git a/src/entity.rs b/src/entity.rs
index db6cf80..b1e6667 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -470,9 +470,23 @@ impl Entity {
                 // first code pair must be 0/entity-type
                 Some(Ok(pair @ CodePair { code: 0, .. })) => {
                     let type_string = pair.assert_string()?;
-                    if type_string == "ENDSEC" || type_string == "ENDBLK" {
-                        iter.put_back(Ok(pair));
-                        return Ok(None);
+                    match &*type_string {
+                        "ENDSEC" | "ENDBLK" | "BLOCK" | "EOF" => {
+                            iter.put_back(Ok(pair));
+                            return Ok(None);
+                        }
+                        "SECTION" => {
+                            // 0/SECTION is also an entity, but that doesn't start with a name
+                            if let Some(next) = iter.next() {
+                                let is_section = matches!(next, Ok(CodePair { code: 2, .. }));
+                                iter.put_back(next);
+                                if is_section {
+                                    iter.put_back(Ok(pair));
+                                    return Ok(None);
+                                }
+                            }
+                        }
+                        _ => (),
                     }
 
                     match &*type_string {
diff --git a/src/object.rs b/src/object.rs
index c894795..c11954b 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -105,7 +105,7 @@ impl Object {
                 // first code pair must be 0/object-type
                 Some(Ok(pair @ CodePair { code: 0, .. })) => {
                     let type_string = pair.assert_string()?;
-                    if type_string == "ENDSEC" || type_string == "ENDBLK" {
+                    if matches!(&*type_string, "ENDSEC" | "ENDBLK" | "SECTION" | "EOF") {
                         iter.put_back(Ok(pair));
                         return Ok(None);
                     }
-- 
2.43.0


From ad54fbe8b9b058302b9ea07c515ab40faee0a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:50 +0000
Subject: [PATCH 49/63] fix: an empty line in place of a group code silently
 dropped the rest of the file

---
 src/code_pair_iter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index db49c97..278951f 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -96,6 +96,13 @@ impl<T: Read> TextCodePairIter<T> {
         let code_line = code_line.trim();
         if code_line.is_empty() {
             // might be an empty file only containing a newline
+            for b in self.reader.by_ref().bytes() {
+                match b {
+                    Ok(b) if b.is_ascii_whitespace() => (),
+                    Ok(_) => return Some(Err(DxfError::ParseError(self.offset))), // not the end
+                    Err(e) => return Some(Err(DxfError::IoError(e))),
+                }
+            }
             return None;
         }
 
-- 
2.43.0


From 48f59765a175a1853b75a0c4164a2b4f29f7de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:32 +0000
Subject: [PATCH 50/63] fix: the two versions in a proxy entity's drawing
 format overwrote each other

---
 src/entity.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index b1e6667..d801dce 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -165,15 +165,16 @@ impl ProxyEntity {
         (self.__object_drawing_format & 0xFFFF) as i32
     }
     pub fn set_object_drawing_format_version(&mut self, version: i32) {
-        self.__object_drawing_format |= version as u32 & 0xFFFF;
+        self.__object_drawing_format =
+            (self.__object_drawing_format & 0xFFFF_0000) | (version as u32 & 0xFFFF);
     }
     // upper word
     pub fn object_maintenance_release_version(&self) -> i32 {
-        self.__object_drawing_format as i32 >> 4
+        (self.__object_drawing_format >> 16) as i32
     }
     pub fn set_object_mainenance_release_version(&mut self, version: i32) {
         self.__object_drawing_format =
-            (version << 4) as u32 + (self.__object_drawing_format & 0xFFFF);
+            ((version as u32) << 16) | (self.__object_drawing_format & 0xFFFF);
     }
 }
 
-- 
2.43.0


From 934b5983949cc047ba519a967b2deec9bd606a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:32 +0000
Subject: [PATCH 51/63] fix: previews with a palette of unstated size were read
 with their pixels misplaced

---
 src/thumbnail.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index a623061..3c05e4b 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -6,6 +6,7 @@ const FILE_HEADER_LENGTH: usize = 14;
 const FILE_LENGTH_OFFSET: usize = 2;
 const IMAGE_DATA_OFFSET_OFFSET: usize = 10;
 
+const BITMAP_HEADER_BITS_PER_PIXEL_OFFSET: usize = 14;
 const BITMAP_HEADER_PALETTE_COUNT_OFFSET: usize = 32;
 
 pub(crate) fn read_thumbnail(iter: &mut CodePairPutBack) -> DxfResult<Option<image::DynamicImage>> {
@@ -73,6 +74,14 @@ fn read_thumbnail_bytes_from_code_pairs(iter: &mut CodePairPutBack) -> DxfResult
     Ok(Some(data))
 }
 
+fn bits_per_pixel(data: &[u8]) -> DxfResult<u16> {
+    let bits = read_i32(
+        data,
+        FILE_HEADER_LENGTH + BITMAP_HEADER_BITS_PER_PIXEL_OFFSET,
+    )?;
+    Ok(bits as u16)
+}
+
 fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
     // calculate the image data offset
     let dib_header_size = read_i32(data, FILE_HEADER_LENGTH)? as usize;
@@ -83,6 +92,10 @@ fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
             data,
             FILE_HEADER_LENGTH + BITMAP_HEADER_PALETTE_COUNT_OFFSET,
         )? as usize;
+        let palette_color_count = match (palette_color_count, bits_per_pixel(data)?) {
+            (0, bits @ 1..=8) => 1 << bits, // not given means all of them
+            (count, _) => count,
+        };
         palette_color_count * 4 // always 4 bytes: BGRA
     } else {
         return Ok(false);
-- 
2.43.0


From 12c4a8d70a7c3ebb38071a6e0e9fb4acb168ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 52/63] fix: a preview with a negative header size panicked on
 load

---
 src/thumbnail.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index 3c05e4b..5543be1 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -84,7 +84,7 @@ fn bits_per_pixel(data: &[u8]) -> DxfResult<u16> {
 
 fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
     // calculate the image data offset
-    let dib_header_size = read_i32(data, FILE_HEADER_LENGTH)? as usize;
+    let dib_header_size = read_u32(data, FILE_HEADER_LENGTH)? as usize;
 
     // calculate the palette size
     let palette_size = if dib_header_size >= BITMAP_HEADER_PALETTE_COUNT_OFFSET + 4 {
-- 
2.43.0


From 05d0f05048604a1d4e1ab08da06c32d3baed1f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:06 +0000
Subject: [PATCH 53/63] fix: the scale factor of a DXB file was applied to
 colors, flags, angles and bulges

---
 src/dxb_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index 8acfd35..ea169dc 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -288,7 +288,7 @@ impl<T: Read> DxbReader<T> {
     }
     fn read_a(&mut self) -> DxfResult<f64> {
         let value = if self.is_integer_mode {
-            f64::from(read_i32(&mut self.reader)?) * self.scale_factor / 1_000_000.0
+            f64::from(read_i32(&mut self.reader)?) / 1_000_000.0
         } else {
             f64::from(read_f32(&mut self.reader)?)
         };
@@ -313,7 +313,7 @@ impl<T: Read> DxbReader<T> {
     }
     fn read_u(&mut self) -> DxfResult<f64> {
         let value = if self.is_integer_mode {
-            f64::from(read_i32(&mut self.reader)?) * 65536.0 * self.scale_factor
+            f64::from(read_i32(&mut self.reader)?) * 65536.0
         } else {
             f64::from(read_f32(&mut self.reader)?)
         };
@@ -321,7 +321,7 @@ impl<T: Read> DxbReader<T> {
         Ok(value)
     }
     fn read_w(&mut self) -> DxfResult<i32> {
-        let value = (f64::from(read_i16(&mut self.reader)?) * self.scale_factor) as i32;
+        let value = i32::from(read_i16(&mut self.reader)?);
         self.advance_offset(2);
         Ok(value)
     }
-- 
2.43.0


From ba37362ed9f94778a4e497d599547887c8e008ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:07 +0000
Subject: [PATCH 54/63] fix: integer bulges in a DXB file were multiplied by
 65536 instead of divided

---
 src/dxb_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index ea169dc..0faa61a 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -313,7 +313,7 @@ impl<T: Read> DxbReader<T> {
     }
     fn read_u(&mut self) -> DxfResult<f64> {
         let value = if self.is_integer_mode {
-            f64::from(read_i32(&mut self.reader)?) * 65536.0
+            f64::from(read_i32(&mut self.reader)?) / 65536.0
         } else {
             f64::from(read_f32(&mut self.reader)?)
         };
-- 
2.43.0


From 056acbe9bd5d2da9e3e36384024f30470f717171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:07 +0000
Subject: [PATCH 55/63] fix: a failure to read the scale factor of a DXB file
 was ignored

---
 src/dxb_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index 0faa61a..ff5ea6b 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -296,9 +296,9 @@ impl<T: Read> DxbReader<T> {
         Ok(value)
     }
     fn read_f(&mut self) -> DxfResult<f64> {
-        let value = read_f64(&mut self.reader);
+        let value = read_f64(&mut self.reader)?;
         self.advance_offset(8);
-        Ok(value.or::<f64>(Ok(0.0)).unwrap())
+        Ok(value)
     }
     fn read_n(&mut self) -> DxfResult<f64> {
         if self.is_integer_mode {
-- 
2.43.0


From 9529e4850a3e20a9742938d77d0ce3dbc16c914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:07 +0000
Subject: [PATCH 56/63] fix: saving a block as DXB lost it, or the entities
 beside it

---
 src/dxb_writer.rs | 64 +++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index e84f68a..67b55c0 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -23,52 +23,56 @@ impl<T: Write> DxbWriter<T> {
         self.writer.write_u8(0x1A)?;
         self.writer.write_u8(0x00)?;
 
-        let writing_block = drawing.entities().any(|_| true) && drawing.blocks().any(|_| true);
-        if writing_block {
+        // force all numbers to be floats
+        self.write_item_type(DxbItemType::NumberMode)?;
+        self.write_w(1)?;
+
+        // a block can only be written instead of entities
+        let block = match drawing.entities().next() {
+            Some(_) => None,
+            None => drawing.blocks().next(),
+        };
+        if let Some(block) = block {
             // write block header
             self.write_item_type(DxbItemType::BlockBase)?;
-            let block = drawing.blocks().next().unwrap();
             self.write_n(block.base_point.x)?;
             self.write_n(block.base_point.y)?;
         }
 
-        // force all numbers to be floats
-        self.write_item_type(DxbItemType::NumberMode)?;
-        self.write_w(1)?;
-
         // write color
-        let mut last_color = 0i16;
+        let last_color = 0i16;
         self.write_item_type(DxbItemType::NewColor)?;
         self.write_w(last_color)?;
 
-        if writing_block {
-            self.write_entities(&drawing.blocks().next().unwrap().entities)?;
-        } else {
-            let groups = drawing.entities().chunk_by(|&e| e.common.layer.clone());
-            for (layer, entities) in &groups {
-                self.write_item_type(DxbItemType::NewLayer)?;
-                self.write_null_terminated_string(&layer)?;
-                for entity in entities {
-                    match entity.common.color.raw_value() {
-                        c if c == last_color => (), // same color, do nothing
-                        c => {
-                            last_color = c;
-                            self.write_item_type(DxbItemType::NewColor)?;
-                            self.write_w(last_color)?;
-                        }
-                    }
-                    self.write_entity(entity)?;
-                }
-            }
+        match block {
+            Some(block) => self.write_entities(block.entities.iter(), last_color)?,
+            None => self.write_entities(drawing.entities(), last_color)?,
         }
 
         // write null terminator
         self.writer.write_u8(0)?;
         Ok(())
     }
-    fn write_entities(&mut self, entities: &[Entity]) -> DxfResult<()> {
-        for entity in entities.iter() {
-            self.write_entity(entity)?;
+    fn write_entities<'a>(
+        &mut self,
+        entities: impl Iterator<Item = &'a Entity>,
+        mut last_color: i16,
+    ) -> DxfResult<()> {
+        let groups = entities.chunk_by(|&e| e.common.layer.clone());
+        for (layer, entities) in &groups {
+            self.write_item_type(DxbItemType::NewLayer)?;
+            self.write_null_terminated_string(&layer)?;
+            for entity in entities {
+                match entity.common.color.raw_value() {
+                    c if c == last_color => (), // same color, do nothing
+                    c => {
+                        last_color = c;
+                        self.write_item_type(DxbItemType::NewColor)?;
+                        self.write_w(last_color)?;
+                    }
+                }
+                self.write_entity(entity)?;
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 1b8d1431eb8c45e227f74b38bbfb77b073c5afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:08 +0000
Subject: [PATCH 57/63] fix: bulges and widths of vertices were lost when
 saving as DXB

---
 src/dxb_writer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index 67b55c0..c3bbaf2 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -201,6 +201,15 @@ impl<T: Write> DxbWriter<T> {
         self.write_item_type(DxbItemType::Vertex)?;
         self.write_n(vertex.location.x)?;
         self.write_n(vertex.location.y)?;
+        if vertex.bulge != 0.0 {
+            self.write_item_type(DxbItemType::Bulge)?;
+            self.write_n(vertex.bulge)?;
+        }
+        if vertex.starting_width != 0.0 || vertex.ending_width != 0.0 {
+            self.write_item_type(DxbItemType::Width)?;
+            self.write_n(vertex.starting_width)?;
+            self.write_n(vertex.ending_width)?;
+        }
         Ok(())
     }
     fn write_string(&mut self, value: &str) -> DxfResult<()> {
-- 
2.43.0


From baaeab32ca7d6afb03723bc3977e8009f49f738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:08 +0000
Subject: [PATCH 58/63] fix: layer names with characters beyond Latin-1 made a
 DXB file unreadable

---
 src/dxb_writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index c3bbaf2..688ce09 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -214,7 +214,10 @@ impl<T: Write> DxbWriter<T> {
     }
     fn write_string(&mut self, value: &str) -> DxfResult<()> {
         for c in value.chars() {
-            self.writer.write_u8(c as u8)?;
+            match c as u32 {
+                c @ 1..=0xFF => self.writer.write_u8(c as u8)?,
+                _ => self.writer.write_u8(b'?')?, // can't be represented
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 2aad4d3f1d50d5489c62711c8a47649c9e8bfad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:28 +0000
Subject: [PATCH 59/63] fix: an interrupted read made loading a DXB file fail

---
 src/helper_functions.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index f19d18e..276fbe1 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -337,13 +337,13 @@ where
 
 pub(crate) fn read_u8<T: Read + ?Sized>(reader: &mut T) -> Option<io::Result<u8>> {
     let mut buf = [0];
-    let size = match reader.read(&mut buf) {
-        Ok(v) => v,
-        Err(e) => return Some(Err(e)),
-    };
-    match size {
-        0 => None,
-        _ => Some(Ok(buf[0])),
+    loop {
+        match reader.read(&mut buf) {
+            Ok(0) => return None,
+            Ok(_) => return Some(Ok(buf[0])),
+            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => (), // try again
+            Err(e) => return Some(Err(e)),
+        }
     }
 }
 
-- 
2.43.0


From 868928a31369f1ec4f82880d88f7142320b4fecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:31 +0000
Subject: [PATCH 60/63] fix: failures to write the end of a file were not
 reported by save_file and its kin

---
 src/drawing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 006fe2d..6fdc5c7 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -222,7 +222,9 @@ impl Drawing {
     fn save_file_internal(&self, path: impl AsRef<Path>, as_ascii: bool) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut writer = BufWriter::new(file);
-        self.save_internal(&mut writer, as_ascii)
+        self.save_internal(&mut writer, as_ascii)?;
+        writer.flush()?; // dropping the writer would ignore the error
+        Ok(())
     }
     /// Writes a `Drawing` as DXB to anything that implements the `Write` trait.
     pub fn save_dxb<T>(&self, writer: &mut T) -> DxfResult<()>
@@ -236,7 +238,9 @@ impl Drawing {
     pub fn save_file_dxb(&self, path: impl AsRef<Path>) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut buf_writer = BufWriter::new(file);
-        self.save_dxb(&mut buf_writer)
+        self.save_dxb(&mut buf_writer)?;
+        buf_writer.flush()?; // dropping the writer would ignore the error
+        Ok(())
     }
     /// Returns an iterator for all app ids.
     pub fn app_ids(&self) -> impl Iterator<Item = &AppId> {
-- 
2.43.0


From a7af233171a4886be8a5ac68290b186bd79b6550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:15 +0000
Subject: [PATCH 61/63] fix: characters written as \U+XXXX were not read back
 when loading with a named encoding

---
 src/code_pair_iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index 278951f..65654ec 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -138,7 +138,7 @@ impl<T: Read> TextCodePairIter<T> {
                 CodePairValue::Double(try_into_option!(parse_f64(value_line, self.offset)))
             }
             ExpectedType::Str => {
-                let value_line = if self.string_encoding == encoding_rs::WINDOWS_1252 {
+                let value_line = if self.string_encoding != encoding_rs::UTF_8 {
                     un_escape_ascii_to_unicode(&value_line)
                 } else {
                     value_line
@@ -316,7 +316,7 @@ impl<T: Read> Iterator for DecodingCodePairIter<T> {
             if malformed {
                 return Some(Err(DxfError::MalformedString));
             }
-            *s = if self.string_encoding == encoding_rs::WINDOWS_1252 {
+            *s = if self.string_encoding != encoding_rs::UTF_8 {
                 un_escape_ascii_to_unicode(&decoded)
             } else {
                 decoded.into_owned()
-- 
2.43.0


From c96cd9c6289982192dfb366eff625e871f190b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:09 +0000
Subject: [PATCH 62/63] fix: strings of binary files in multi-byte encodings
 were taken for control characters

---
 src/code_pair_iter.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index 65654ec..4e2fc1f 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -256,10 +256,8 @@ impl<T: Read> BinaryCodePairIter<T> {
                     self.offset += 1; // account for the NULL byte that was interpreted as an empty string
                     value = try_from_dxf_result!(self.read_string_binary()); // now read the actual value
                 }
-                (
-                    CodePairValue::Str(CodePairValue::un_escape_string(&value).into_owned()),
-                    value.len() + 1, // +1 to account for the NULL terminator
-                )
+                let read_bytes = value.chars().count() + 1; // +1 to account for the NULL terminator
+                (CodePairValue::Str(value), read_bytes)
             }
             ExpectedType::Binary => {
                 let length = try_from_dxf_result!(read_u8_strict(&mut self.reader)) as usize;
@@ -316,6 +314,7 @@ impl<T: Read> Iterator for DecodingCodePairIter<T> {
             if malformed {
                 return Some(Err(DxfError::MalformedString));
             }
+            let decoded = CodePairValue::un_escape_string(&decoded);
             *s = if self.string_encoding != encoding_rs::UTF_8 {
                 un_escape_ascii_to_unicode(&decoded)
             } else {
-- 
2.43.0


From 3877927fd3a67b72a8c5224821d8bd08396a16f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:17 +0000
Subject: [PATCH 63/63] fix: skip unknown pairs inside table cell styles and
 section settings

---
 src/section_geometry_settings.rs | 29 +++++++++++++++++++----------
 src/section_type_settings.rs     |  5 +++--
 src/table_cell_style.rs          |  5 +++--
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/section_geometry_settings.rs b/src/section_geometry_settings.rs
index b706266..69e823a 100644
--- a/src/section_geometry_settings.rs
+++ b/src/section_geometry_settings.rs
@@ -50,16 +50,24 @@ impl Default for SectionGeometrySettings {
 impl SectionGeometrySettings {
     pub(crate) fn read(iter: &mut CodePairPutBack) -> DxfResult<Option<SectionGeometrySettings>> {
         // check the first pair; only code 90 can start one of these
-        match iter.next() {
-            Some(Ok(pair @ CodePair { code: 90, .. })) => {
-                iter.put_back(Ok(pair));
-            }
-            Some(Ok(pair)) => {
-                iter.put_back(Ok(pair));
-                return Ok(None);
+        loop {
+            let pair = match iter.next() {
+                Some(Ok(pair)) => pair,
+                Some(Err(e)) => return Err(e),
+                None => return Ok(None),
+            };
+
+            match pair.code {
+                90 => {
+                    iter.put_back(Ok(pair));
+                    break;
+                }
+                0..=3 | 5 | 91..=93 | 102 | 330 | 331 | 1001 => {
+                    iter.put_back(Ok(pair));
+                    return Ok(None);
+                }
+                _ => (), // unknown pair
             }
-            Some(Err(e)) => return Err(e),
-            None => return Ok(None),
         }
 
         let mut gs = SectionGeometrySettings::default();
@@ -122,11 +130,12 @@ impl SectionGeometrySettings {
                 370 => {
                     gs.line_weight = pair.assert_i16()?;
                 }
-                _ => {
+                0 | 5 | 93 | 102 | 330 | 331 | 1001 => {
                     // unexpected end; put the pair back and return what we have
                     iter.put_back(Ok(pair));
                     return Ok(Some(gs));
                 }
+                _ => (), // unknown pair
             }
         }
 
diff --git a/src/section_type_settings.rs b/src/section_type_settings.rs
index a609261..5cceb28 100644
--- a/src/section_type_settings.rs
+++ b/src/section_type_settings.rs
@@ -80,11 +80,12 @@ impl SectionTypeSettings {
                 331 => {
                     ss.destination_object_handle = pair.as_handle()?;
                 }
-                _ => {
-                    // unexpected end; put the pair back and return what we have
+                5 | 102 | 1001 => {
+                    // belongs to the section settings; put the pair back and return what we have
                     iter.put_back(Ok(pair));
                     return Ok(Some(ss));
                 }
+                _ => (), // unknown pair
             }
         }
     }
diff --git a/src/table_cell_style.rs b/src/table_cell_style.rs
index d69931c..925db30 100644
--- a/src/table_cell_style.rs
+++ b/src/table_cell_style.rs
@@ -138,11 +138,12 @@ impl TableCellStyle {
                 289 => {
                     style.is_border_6_visible = as_bool(pair.assert_i16()?);
                 }
-                _ => {
-                    // unexpected pair; put the pair back and return what we have
+                3 | 5 | 40 | 41 | 70 | 71 | 102 | 280 | 281 | 330 | 1001 => {
+                    // belongs to the table style; put the pair back and return what we have
                     iter.put_back(Ok(pair));
                     return Ok(Some(style));
                 }
+                _ => (), // unknown pair, e.g., the cell's format string
             }
         }
     }
-- 
2.43.0

