From f500d2aaf5e8712a524d9464738fc3606cc4dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:08 +0000
Subject: [PATCH 01/12] fix: escape backslashes and control characters in JSON
 strings

---
 analyze/formats/json.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analyze/formats/json.rs b/analyze/formats/json.rs
index c7b5ead..0411c6c 100644
--- a/analyze/formats/json.rs
+++ b/analyze/formats/json.rs
@@ -14,8 +14,8 @@ impl<'a> JsonPrimitive for &'a str {
         for c in self.chars() {
             match c {
                 '"' => write!(w, "\\\"")?,
-                '\\' => write!(w, "\\")?,
-                '\n' => writeln!(w,)?,
+                '\\' => write!(w, "\\\\")?,
+                c if c < '\u{20}' => write!(w, "\\u{:04x}", c as u32)?,
                 c => write!(w, "{}", c)?,
             }
         }
-- 
2.43.0


From 522b40d76f462d2754e71e0c06ae283c3d079f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:08 +0000
Subject: [PATCH 02/12] fix: flush the output destination and report write
 errors

---
 twiggy/twiggy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/twiggy/twiggy.rs b/twiggy/twiggy.rs
index e1119cf..c7eb509 100644
--- a/twiggy/twiggy.rs
+++ b/twiggy/twiggy.rs
@@ -3,6 +3,7 @@
 #![deny(missing_docs)]
 #![deny(missing_debug_implementations)]
 
+use std::io::Write;
 use std::process;
 use structopt::StructOpt;
 use twiggy_analyze as analyze;
@@ -34,5 +35,7 @@ fn run(opts: &opt::Options) -> anyhow::Result<()> {
 
     let mut dest = opts.output_destination().open()?;
 
-    data.emit(&items, &mut *dest, opts.output_format())
+    data.emit(&items, &mut *dest, opts.output_format())?;
+    dest.flush()?;
+    Ok(())
 }
-- 
2.43.0


From f9cc071fda2d3fce45989f872094b0b79c1ce96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:08 +0000
Subject: [PATCH 03/12] fix: treat constant load addresses as unsigned

---
 parser/wasm_parse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index dee5313..03ae0ef 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -609,7 +609,9 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     | Operator::F32Load { memarg }
                     | Operator::F64Load { memarg } => {
                         if let Some(Operator::I32Const { value }) = prev {
-                            if let Some(data_id) = items.get_data(value as u64 + memarg.offset) {
+                            // The address operand is an unsigned 32 bit integer.
+                            let address = u64::from(value as u32).checked_add(memarg.offset);
+                            if let Some(data_id) = address.and_then(|a| items.get_data(a)) {
                                 edges.push((body_id, data_id));
                             }
                         }
-- 
2.43.0


From cb6b1cbb88737779d23584a51276261ca38c7e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:08 +0000
Subject: [PATCH 04/12] fix: do not compile exact names given to `monos` as
 regular expressions

---
 analyze/analyses/monos/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index b6c1a3a..02bd4d7 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -27,7 +27,11 @@ fn collect_monomorphizations<'a>(
 ) -> anyhow::Result<MonosMap<'a>> {
     let args_given = !opts.functions().is_empty();
     let using_regexps = opts.using_regexps();
-    let regexps = regex::RegexSet::new(opts.functions())?;
+    let regexps = if using_regexps {
+        regex::RegexSet::new(opts.functions())?
+    } else {
+        regex::RegexSet::empty()
+    };
 
     let unsorted_monos: BTreeMap<&'a str, BTreeSet<(String, u32)>> = items
         .iter()
-- 
2.43.0


From f105736e80be1bc11e931fc7ee5daf0a2b999595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:08 +0000
Subject: [PATCH 05/12] fix: count every item with the same name in `diff`

---
 analyze/analyses/diff.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/analyze/analyses/diff.rs b/analyze/analyses/diff.rs
index d7613f7..b8872f4 100644
--- a/analyze/analyses/diff.rs
+++ b/analyze/analyses/diff.rs
@@ -102,10 +102,12 @@ pub fn diff(
 
     // Given a set of items, create a HashMap of the items' names and sizes.
     fn get_names_and_sizes(items: &ir::Items) -> HashMap<&str, i64> {
-        items
-            .iter()
-            .map(|item| (item.name(), i64::from(item.size())))
-            .collect()
+        // Distinct items may share a name, in which case their sizes add up.
+        let mut sizes = HashMap::new();
+        for item in items.iter() {
+            *sizes.entry(item.name()).or_insert(0) += i64::from(item.size());
+        }
+        sizes
     }
 
     // Collect the names and sizes of the items in the old and new collections.
-- 
2.43.0


From 7f393f2ca5e1778363a2c466b1bc20a546baf121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:02 +0000
Subject: [PATCH 06/12] fix: record function references made by `return_call`,
 `ref.func` and global initializers

---
 parser/wasm_parse/mod.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 03ae0ef..fb1a896 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -352,7 +352,7 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
                     reader.parse_edges(items, ())?;
                 }
                 wasmparser::Payload::GlobalSection(mut reader) => {
-                    reader.parse_edges(items, ())?;
+                    reader.parse_edges(items, (&indices, idx))?;
                 }
                 wasmparser::Payload::ExportSection(mut reader) => {
                     reader.parse_edges(items, (&indices, idx))?;
@@ -579,7 +579,9 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
             for op in body.get_operators_reader()? {
                 let prev = cache.take();
                 match op? {
-                    Operator::Call { function_index } => {
+                    Operator::Call { function_index }
+                    | Operator::ReturnCall { function_index }
+                    | Operator::RefFunc { function_index } => {
                         let f_id = indices.functions[function_index as usize];
                         edges.push((body_id, f_id));
                     }
@@ -825,9 +827,29 @@ impl<'a> Parse<'a> for wasmparser::GlobalSectionReader<'a> {
         Ok(())
     }
 
-    type EdgesExtra = ();
+    type EdgesExtra = (&'a SectionIndices, usize);
+
+    fn parse_edges(
+        &mut self,
+        items: &mut ir::ItemsBuilder,
+        (indices, idx): Self::EdgesExtra,
+    ) -> anyhow::Result<()> {
+        for (i, g) in iterate_with_size(self).enumerate() {
+            let (g, _size) = g?;
+            let id = Id::entry(idx, i);
+            for op in g.init_expr.get_operators_reader() {
+                match op? {
+                    Operator::RefFunc { function_index } => {
+                        items.add_edge(id, indices.functions[function_index as usize]);
+                    }
+                    Operator::GlobalGet { global_index } => {
+                        items.add_edge(id, indices.globals[global_index as usize]);
+                    }
+                    _ => {}
+                }
+            }
+        }
 
-    fn parse_edges(&mut self, _: &mut ir::ItemsBuilder, _: ()) -> anyhow::Result<()> {
         Ok(())
     }
 }
-- 
2.43.0


From 895dde6db448f91aa9e5c91db96e2e86da316509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:36 +0000
Subject: [PATCH 07/12] fix: report out of range indices and truncated sections
 as errors instead of panicking

---
 parser/wasm_parse/mod.rs | 64 ++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index fb1a896..b57442f 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -7,7 +7,7 @@ use wasmparser::{self, Operator, SectionReader, Type};
 
 #[derive(Default)]
 pub struct SectionIndices {
-    type_: Option<usize>,
+    types: HashMap<u32, Id>,
     code: Option<usize>,
     functions: Vec<Id>,
     tables: Vec<Id>,
@@ -73,7 +73,9 @@ impl<'a> ModuleReader<'a> {
         Ok(CodeSection {
             index: index,
             reader: wasmparser::CodeSectionReader::new(
-                &self.data[byte_range.start..byte_range.end],
+                self.data
+                    .get(byte_range.start..byte_range.end)
+                    .ok_or_else(|| anyhow!("code section is truncated"))?,
                 byte_range.start,
             )?,
             byte_size: byte_range.end - start_offset,
@@ -256,8 +258,12 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
         let mut indices = SectionIndices::default();
         for IndexedSection(idx, section) in sections.iter() {
             match section {
-                wasmparser::Payload::TypeSection(_reader) => {
-                    indices.type_ = Some(*idx);
+                wasmparser::Payload::TypeSection(reader) => {
+                    for (i, ty) in reader.clone().into_iter().enumerate() {
+                        if let wasmparser::TypeDef::Func(_) = ty? {
+                            indices.types.insert(i as u32, Id::entry(*idx, i));
+                        }
+                    }
                 }
                 wasmparser::Payload::ImportSection(reader) => {
                     for (i, import) in reader.clone().into_iter().enumerate() {
@@ -322,7 +328,7 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
             (Some(function_section), Some(code_section)) => {
                 (function_section, code_section).parse_edges(items, &indices)?
             }
-            _ => panic!("function or code section is missing"),
+            _ => Err(anyhow!("function or code section is missing"))?,
         };
         for IndexedSection(idx, section) in sections.into_iter() {
             match section {
@@ -500,6 +506,12 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
     ) -> anyhow::Result<()> {
         let (func_section, code_section) = self;
 
+        if func_section.reader.get_count() != code_section.reader.get_count() {
+            return Err(anyhow!(
+                "function and code sections have inconsistent lengths"
+            ));
+        }
+
         let func_section_index = func_section.index;
         let func_items: Vec<ir::Item> = iterate_with_size(&mut func_section.reader)
             .enumerate()
@@ -561,12 +573,13 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
         // Function section reader parsing.
         for (func_i, type_ref) in iterate_with_size(&mut function_section.reader).enumerate() {
             let (type_ref, _) = type_ref?;
-            if let Some(type_idx) = indices.type_ {
-                let type_id = Id::entry(type_idx, type_ref as usize);
-                if let Some(code_idx) = indices.code {
-                    let body_id = Id::entry(code_idx, func_i);
-                    edges.push((body_id, type_id));
-                }
+            let type_id = *indices
+                .types
+                .get(&type_ref)
+                .ok_or_else(|| anyhow!("type index {} is out of range", type_ref))?;
+            if let Some(code_idx) = indices.code {
+                let body_id = Id::entry(code_idx, func_i);
+                edges.push((body_id, type_id));
             }
         }
 
@@ -582,7 +595,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     Operator::Call { function_index }
                     | Operator::ReturnCall { function_index }
                     | Operator::RefFunc { function_index } => {
-                        let f_id = indices.functions[function_index as usize];
+                        let f_id = lookup(&indices.functions, function_index)?;
                         edges.push((body_id, f_id));
                     }
 
@@ -592,7 +605,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     Operator::CallIndirect { .. } => continue,
 
                     Operator::GlobalGet { global_index } | Operator::GlobalSet { global_index } => {
-                        let g_id = indices.globals[global_index as usize];
+                        let g_id = lookup(&indices.globals, global_index)?;
                         edges.push((body_id, g_id));
                     }
 
@@ -840,10 +853,10 @@ impl<'a> Parse<'a> for wasmparser::GlobalSectionReader<'a> {
             for op in g.init_expr.get_operators_reader() {
                 match op? {
                     Operator::RefFunc { function_index } => {
-                        items.add_edge(id, indices.functions[function_index as usize]);
+                        items.add_edge(id, lookup(&indices.functions, function_index)?);
                     }
                     Operator::GlobalGet { global_index } => {
-                        items.add_edge(id, indices.globals[global_index as usize]);
+                        items.add_edge(id, lookup(&indices.globals, global_index)?);
                     }
                     _ => {}
                 }
@@ -879,16 +892,16 @@ impl<'a> Parse<'a> for wasmparser::ExportSectionReader<'a> {
             let exp_id = Id::entry(idx, i);
             match exp.kind {
                 wasmparser::ExternalKind::Function => {
-                    items.add_edge(exp_id, indices.functions[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.functions, exp.index)?);
                 }
                 wasmparser::ExternalKind::Table => {
-                    items.add_edge(exp_id, indices.tables[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.tables, exp.index)?);
                 }
                 wasmparser::ExternalKind::Memory => {
-                    items.add_edge(exp_id, indices.memories[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.memories, exp.index)?);
                 }
                 wasmparser::ExternalKind::Global => {
-                    items.add_edge(exp_id, indices.globals[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.globals, exp.index)?);
                 }
                 wasmparser::ExternalKind::Tag
                 | wasmparser::ExternalKind::Type
@@ -922,7 +935,7 @@ impl<'a> Parse<'a> for StartSection<'a> {
     ) -> anyhow::Result<()> {
         items.add_edge(
             Id::section(idx),
-            indices.functions[self.function_index as usize],
+            lookup(&indices.functions, self.function_index)?,
         );
         Ok(())
     }
@@ -954,7 +967,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
 
             match elem.kind {
                 wasmparser::ElementKind::Active { table_index, .. } => {
-                    items.add_edge(indices.tables[table_index as usize], elem_id);
+                    items.add_edge(lookup(&indices.tables, table_index)?, elem_id);
                 }
                 wasmparser::ElementKind::Declared => {}
                 wasmparser::ElementKind::Passive => {}
@@ -963,7 +976,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
                 let element_item = element_item?;
                 match element_item {
                     wasmparser::ElementItem::Func(func_idx) => {
-                        items.add_edge(elem_id, indices.functions[func_idx as usize]);
+                        items.add_edge(elem_id, lookup(&indices.functions, func_idx)?);
                     }
                     wasmparser::ElementItem::Null(_ty) => {}
                 }
@@ -1032,6 +1045,13 @@ fn iterate_with_size<'a, S: SectionWithLimitedItems + SectionReader>(
     })
 }
 
+/// Find the item that an index, as read from the input, refers to.
+fn lookup(ids: &[Id], index: u32) -> anyhow::Result<Id> {
+    ids.get(index as usize)
+        .copied()
+        .ok_or_else(|| anyhow!("index {} is out of range", index))
+}
+
 fn ty2str(t: Type) -> &'static str {
     match t {
         Type::I32 => "i32",
-- 
2.43.0


From 03d4997accb42ab8999c0c72c55e4a66244787db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:36 +0000
Subject: [PATCH 08/12] fix: report an inverted DWARF address range as an error

---
 parser/object_parse/die_parse/location_attrs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index d66bfba..51e7696 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -53,7 +53,10 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
             // If DW_AT_high_pc is encoded as an address, return the difference
             // between that value and the DW_AT_low_pc address.
             (Some(low_pc), Some(gimli::AttributeValue::Addr(high_pc))) => {
-                Ok(Some(high_pc - low_pc))
+                high_pc
+                    .checked_sub(low_pc)
+                    .map(Some)
+                    .ok_or_else(|| anyhow!("DW_AT_high_pc is less than DW_AT_low_pc"))
             }
             // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
             // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
-- 
2.43.0


From f43983b4b6e05d3d9aff396a2a8698a460cef34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:36 +0000
Subject: [PATCH 09/12] fix: implement CSV output for `twiggy garbage`

---
 analyze/analyses/garbage.rs | 50 +++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/garbage.rs b/analyze/analyses/garbage.rs
index 77fce23..77b542a 100644
--- a/analyze/analyses/garbage.rs
+++ b/analyze/analyses/garbage.rs
@@ -5,6 +5,8 @@ use petgraph::visit::Walker;
 
 use crate::formats::json;
 use crate::formats::table::{Align, Table};
+use csv;
+use serde_derive::Serialize;
 use twiggy_ir as ir;
 use twiggy_opt as opt;
 use twiggy_traits as traits;
@@ -137,8 +139,52 @@ impl traits::Emit for Garbage {
     }
 
     #[cfg(feature = "emit_csv")]
-    fn emit_csv(&self, _items: &ir::Items, _dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        unimplemented!();
+    fn emit_csv(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
+        let mut wtr = csv::Writer::from_writer(dest);
+
+        #[derive(Serialize, Debug)]
+        #[serde(rename_all = "PascalCase")]
+        struct CsvRecord {
+            name: String,
+            bytes: u32,
+            size_percent: f64,
+        }
+
+        let record = |name: String, bytes: u32| CsvRecord {
+            name,
+            bytes,
+            size_percent: f64::from(bytes) / f64::from(items.size()) * 100.0,
+        };
+
+        for &id in self.items.iter().take(self.limit) {
+            let item = &items[id];
+            wtr.serialize(record(item.name().to_string(), item.size()))?;
+        }
+
+        let (rem_size, rem_cnt) = self
+            .items
+            .iter()
+            .skip(self.limit)
+            .fold((0, 0), |(size, cnt), &id| (size + items[id].size(), cnt + 1));
+        if rem_cnt > 0 {
+            wtr.serialize(record(format!("... and {} more", rem_cnt), rem_size))?;
+        }
+
+        let total_size: u32 = self.items.iter().map(|&id| items[id].size()).sum();
+        let total_name = format!("Σ [{} Total Rows]", self.items.len());
+        wtr.serialize(record(total_name, total_size))?;
+
+        if !self.data_segments.is_empty() {
+            let name = format!(
+                "{} potential false-positive data segments",
+                self.data_segments.len()
+            );
+            let size: u32 = self.data_segments.iter().map(|&id| items[id].size()).sum();
+            wtr.serialize(record(name, size))?;
+        }
+
+        wtr.flush()?;
+        Ok(())
     }
 }
 
-- 
2.43.0


From ba93179abcc269a6d2754d9aea796074634ec5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:36 +0000
Subject: [PATCH 10/12] fix: count monomorphizations that share a name and a
 size

---
 analyze/analyses/monos/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index 02bd4d7..11a8103 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -1,5 +1,5 @@
 use std::cmp;
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::BTreeMap;
 
 use regex;
 use twiggy_ir as ir;
@@ -33,7 +33,7 @@ fn collect_monomorphizations<'a>(
         regex::RegexSet::empty()
     };
 
-    let unsorted_monos: BTreeMap<&'a str, BTreeSet<(String, u32)>> = items
+    let unsorted_monos: BTreeMap<&'a str, Vec<(String, u32)>> = items
         .iter()
         .filter_map(|item| {
             if let Some(generic) = item.monomorphization_of() {
@@ -50,15 +50,14 @@ fn collect_monomorphizations<'a>(
         .fold(BTreeMap::new(), |mut monos, (generic, inst)| {
             monos
                 .entry(generic)
-                .or_insert_with(BTreeSet::new)
-                .insert((inst.name().to_string(), inst.size()));
+                .or_insert_with(Vec::new)
+                .push((inst.name().to_string(), inst.size()));
             monos
         });
 
     Ok(unsorted_monos
         .into_iter()
-        .map(|(generic, inst_set)| {
-            let mut insts = inst_set.into_iter().collect::<Vec<_>>();
+        .map(|(generic, mut insts)| {
             insts.sort_by(|(a_name, a_size), (b_name, b_size)| {
                 b_size.cmp(a_size).then(a_name.cmp(b_name))
             });
-- 
2.43.0


From 37ab3def59bb527ad494900c2f46cb7a7e5ae109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:36 +0000
Subject: [PATCH 11/12] fix: only emit the requested dominator subtrees as CSV

---
 analyze/analyses/dominators/emit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 28b53d5..4734799 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -165,7 +165,9 @@ impl traits::Emit for DominatorTree {
         }
 
         let mut wtr = csv::Writer::from_writer(dest);
-        recursive_add_children(items, &self.opts, &self.tree, items.meta_root(), &mut wtr)?;
+        for id in &self.items {
+            recursive_add_children(items, &self.opts, &self.tree, *id, &mut wtr)?;
+        }
 
         if let Some(UnreachableItemsSummary {
             count,
-- 
2.43.0


From 084969cf4980a3e193b1ed8460259542844c7632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 12/12] fix: do not repeat a self-referencing item within one
 retaining path

---
 analyze/analyses/paths/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 70b84e0..1dc0717 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -109,6 +109,10 @@ fn create_entry(
     let name = item.name().to_string();
     let size = item.size();
 
+    // Temporarily add the current item to the set of discovered nodes, so that
+    // no path visits it again, not even directly through a self-reference.
+    seen.insert(id);
+
     // Collect the `ir::Id` values of this entry's children, depending on
     // whether we are ascending or descending the IR-tree.
     let children_ids: Vec<ir::Id> = if opts.descending() {
@@ -127,9 +131,7 @@ fn create_entry(
             .collect()
     };
 
-    // Temporarily add the current item to the set of discovered nodes, and
-    // create an entry for each child. Collect these into a `children` vector.
-    seen.insert(id);
+    // Create an entry for each child. Collect these into a `children` vector.
     let children = children_ids
         .into_iter()
         .map(|id| create_entry(id, items, opts, seen))
-- 
2.43.0

