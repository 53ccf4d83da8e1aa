From dd46018b5c3910b29bd0de9e6a4a4c8d9a075cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 01/28] fix: enumerate every object embedded in a struct, with
 its real access path

---
 idlc_codegen/src/counts.rs                    |  4 +-
 .../src/interface/functions/implementation.rs | 22 +++-----
 .../src/interface/functions/invoke.rs         | 20 ++-----
 .../src/interface/functions/signature.rs      | 12 +++++
 .../src/interface/functions/implementation.rs | 22 +++-----
 .../src/interface/functions/invoke.rs         | 11 ++--
 .../src/interface/functions/implementation.rs |  4 +-
 .../src/interface/functions/invoke.rs         |  4 +-
 .../src/interface/functions/signature.rs      |  7 ++-
 idlc_mir/src/mir.rs                           | 53 ++++++++++++-------
 10 files changed, 77 insertions(+), 82 deletions(-)

diff --git a/idlc_codegen/src/counts.rs b/idlc_codegen/src/counts.rs
index 75a25b4..c265aea 100644
--- a/idlc_codegen/src/counts.rs
+++ b/idlc_codegen/src/counts.rs
@@ -42,7 +42,7 @@ impl super::functions::ParameterVisitor for Counter {
     #[inline]
     fn visit_input_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.input_buffers += 1;
-        self.input_objects += u8::try_from(s.objects().len()).unwrap();
+        self.input_objects += u8::try_from(s.object_paths().len()).unwrap();
     }
 
     #[inline]
@@ -79,7 +79,7 @@ impl super::functions::ParameterVisitor for Counter {
     #[inline]
     fn visit_output_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.output_buffers += 1;
-        self.output_objects += u8::try_from(s.objects().len()).unwrap();
+        self.output_objects += u8::try_from(s.object_paths().len()).unwrap();
     }
 
     #[inline]
diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 35eb654..d1e1ea2 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -142,14 +142,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 r#"
             {{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},"#
             ));
-            let objects = ty.objects();
+            let objects = ty.object_paths();
             for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
+                let path = super::signature::struct_path(&object.0);
                 self.pre_call.push(format!(
                     r#"{ident}_cpy.{path} = Object_NULL;
     "#
@@ -157,7 +152,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 self.visit_input_object(
                     &idlc_mir::Ident {
                         ident: format!("{ident}_cpy.{}", path),
-                        span: object.0.last().unwrap().span,
+                        span: object.0.last().unwrap().0.span,
                     },
                     object.1,
                 );
@@ -275,14 +270,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"
         {{.b = ({OBJECTBUF}) {{  {name}, sizeof({ty_ident}) }} }},"#
         ));
-        let objects = ty.objects();
+        let objects = ty.object_paths();
         for object in objects {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+            let path = super::signature::struct_path(&object.0);
             self.initializations.push(format!(
                 r#"{name}->{path} = Object_NULL;
     "#
@@ -290,7 +280,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             self.visit_output_object(
                 &idlc_mir::Ident {
                     ident: format!("{name}->{}", path),
-                    span: object.0.last().unwrap().span,
+                    span: object.0.last().unwrap().0.span,
                 },
                 object.1,
             )
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 5db313c..e8dd836 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -163,14 +163,9 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 r#" \
                 {ty_ident} {name} = *({CONST} {ty_ident}*){ARGS}[{idx}].b.ptr;"#
             ));
-            let objects = ty.objects();
+            let objects = ty.object_paths();
             for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
+                let path = super::signature::struct_path(&object.0);
                 let idx = self.idx();
                 let field_ident = format!("{name}.{}", path);
                 self.pre.push(format!(
@@ -293,18 +288,13 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 r#" \
                 {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
             ));
-            let objects = ty.objects();
+            let objects = ty.object_paths();
             for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
+                let path = super::signature::struct_path(&object.0);
                 self.visit_output_object(
                     &idlc_mir::Ident {
                         ident: format!("{name}->{}", path),
-                        span: object.0.last().unwrap().span,
+                        span: object.0.last().unwrap().0.span,
                     },
                     object.1,
                 );
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 5247ad5..374dacc 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -30,6 +30,18 @@ pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
     acc
 }
 
+/// Access path of an object inside a struct, relative to that struct.
+pub fn struct_path(segments: &[idlc_mir::mir::PathSegment<'_>]) -> String {
+    segments
+        .iter()
+        .map(|(ident, index)| match index {
+            Some(i) => format!("{ident}[{i}]"),
+            None => ident.to_string(),
+        })
+        .collect::<Vec<String>>()
+        .join(".")
+}
+
 pub fn addition_iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
     let mut acc = String::new();
     for item in iter {
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index c743003..a0a2914 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -79,14 +79,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         "#
             ));
 
-            let objects = ty.objects();
+            let objects = ty.object_paths();
             for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
+                let path = idlc_codegen_c::interface::functions::signature::struct_path(&object.0);
                 self.0.pre_call.push(format!(
                     r#"{ident}_cpy.{path} = Object_NULL;
     "#
@@ -94,7 +89,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 self.visit_input_object(
                     &idlc_mir::Ident {
                         ident: format!("{ident}_cpy.{}", path),
-                        span: object.0.last().unwrap().span,
+                        span: object.0.last().unwrap().0.span,
                     },
                     object.1,
                 );
@@ -200,14 +195,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         {{.b = ({OBJECTBUF}) {{  &{name}, sizeof({ty_ident}) }} }},"#
         ));
 
-        let objects = ty.objects();
+        let objects = ty.object_paths();
         for object in objects {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+            let path = idlc_codegen_c::interface::functions::signature::struct_path(&object.0);
             self.0.initializations.push(format!(
                 r#"
     {name}.{path} = Object_NULL;"#
@@ -215,7 +205,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             self.visit_output_object(
                 &idlc_mir::Ident {
                     ident: format!("({name}.{})", path),
-                    span: object.0.last().unwrap().span,
+                    span: object.0.last().unwrap().0.span,
                 },
                 object.1,
             )
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index e48a7b8..c2f7660 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -147,18 +147,13 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
             ));
 
-            let objects = ty.objects();
+            let objects = ty.object_paths();
             for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join("->");
+                let path = idlc_codegen_c::interface::functions::signature::struct_path(&object.0);
                 self.0.visit_output_object(
                     &idlc_mir::Ident {
                         ident: format!("{name}->{}", path),
-                        span: object.0.last().unwrap().span,
+                        span: object.0.last().unwrap().0.span,
                     },
                     object.1,
                 );
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index 5d486aa..c701ee7 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -135,7 +135,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty: &str = &namespaced_struct(r#struct);
         let escaped_ident = EscapedIdent::new(ident);
 
-        let objects = r#struct.objects();
+        let objects = r#struct.object_paths();
         if objects.is_empty() {
             self.args.push(format!(
                 r#"{ARG} {{
@@ -267,7 +267,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             }}"#
         ));
 
-        let objects = r#struct.objects();
+        let objects = r#struct.object_paths();
         for (object, _) in objects {
             let path = super::signature::idents_to_struct_path(&object);
             let idx = self.args.len();
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 11ff7cf..ced0336 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -136,7 +136,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }}"#
         ));
 
-        let objects = r#struct.objects();
+        let objects = r#struct.object_paths();
         if objects.is_empty() {
             self.pre.push(format!(
                 "let {ident} = &*{ARGS}[{idx}].bi.ptr.cast::<{ty}>();"
@@ -196,7 +196,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }}"#
         ));
 
-        let objects = r#struct.objects();
+        let objects = r#struct.object_paths();
         if objects.is_empty() {
             self.post
                 .push(format!("*{ARGS}[{idx}].b.ptr.cast::<{ty}>() = {ident};\n"));
diff --git a/idlc_codegen_rust/src/interface/functions/signature.rs b/idlc_codegen_rust/src/interface/functions/signature.rs
index f1c35d1..46bdef1 100644
--- a/idlc_codegen_rust/src/interface/functions/signature.rs
+++ b/idlc_codegen_rust/src/interface/functions/signature.rs
@@ -29,10 +29,13 @@ pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
     acc
 }
 
-pub fn idents_to_struct_path(objects: &[&Ident]) -> String {
+pub fn idents_to_struct_path(objects: &[idlc_mir::mir::PathSegment<'_>]) -> String {
     objects
         .iter()
-        .fold(String::new(), |acc, x| acc + "." + x.as_ref())
+        .fold(String::new(), |acc, (ident, index)| match index {
+            Some(i) => format!("{acc}.{ident}[{i}]"),
+            None => format!("{acc}.{ident}"),
+        })
 }
 
 impl Signature {
diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index c72aa59..9599cc0 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -28,7 +28,7 @@ use idlc_ast::Ast;
 pub use idlc_ast::Ident;
 use idlc_ast_passes::idl_store::IDLStore;
 
-use std::collections::{HashMap, VecDeque};
+use std::collections::VecDeque;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 
@@ -180,34 +180,38 @@ pub struct StructInner {
     pub origin: Option<PathBuf>,
 }
 
+/// A field on the way to an object, and which element of it if it's an array.
+pub type PathSegment<'a> = (&'a Ident, Option<u16>);
+
 impl StructInner {
     #[inline]
     pub fn size(&self) -> usize {
         self.fields.iter().fold(0, |acc, e| acc + e.size())
     }
 
-    pub fn objects(&self) -> Vec<(Vec<&Ident>, Option<&str>)> {
+    /// Every object slot inside this struct, breadth first, with the elements of
+    /// an array in index order. The access path of a slot names the fields leading
+    /// to it, along with the element if that field is an array.
+    pub fn object_paths(&self) -> Vec<(Vec<PathSegment<'_>>, Option<&str>)> {
         let mut queue = VecDeque::new();
-        let mut parents = HashMap::new();
         let mut objects = Vec::new();
-        queue.push_back(self);
+        queue.push_back((self, Vec::new()));
 
-        while let Some(node) = queue.pop_front() {
+        while let Some((node, parents)) = queue.pop_front() {
             for field in &node.fields {
-                let (ty, _) = &field.val;
-                if let Type::Struct(s) = ty {
-                    parents.insert(s.as_ref(), (node, Some(&field.ident)));
-                    queue.push_back(s.as_ref());
-                } else if let Type::Interface(interface) = ty {
-                    // Reconstruct path information.
-                    let mut path = vec![&field.ident];
-                    let mut current = node;
-                    while let Some((parent, Some(parent_ident))) = parents.get(current) {
-                        path.push(*parent_ident);
-                        current = parent;
+                let (ty, count) = &field.val;
+                if matches!(ty, Type::Struct(s) if s.as_ref().is_primitive_struct()) {
+                    continue;
+                }
+                for i in 0..count.get() {
+                    let index = (count.get() > 1).then_some(i);
+                    let mut path = parents.clone();
+                    path.push((&field.ident, index));
+                    match ty {
+                        Type::Struct(s) => queue.push_back((s.as_ref(), path)),
+                        Type::Interface(interface) => objects.push((path, interface.as_deref())),
+                        _ => break,
                     }
-                    path.reverse();
-                    objects.push((path, interface.as_deref()));
                 }
             }
         }
@@ -215,8 +219,19 @@ impl StructInner {
         objects
     }
 
+    pub fn objects(&self) -> Vec<(Vec<&Ident>, Option<&str>)> {
+        self.object_paths()
+            .into_iter()
+            .map(|(path, ty)| (path.into_iter().map(|(ident, _)| ident).collect(), ty))
+            .collect()
+    }
+
     pub fn is_primitive_struct(&self) -> bool {
-        self.objects().is_empty()
+        !self.fields.iter().any(|field| match &field.val.0 {
+            Type::Interface(_) => true,
+            Type::Struct(s) => s.as_ref().contains_interfaces(),
+            _ => false,
+        })
     }
 
     pub fn contains_interfaces(&self) -> bool {
-- 
2.43.0


From 26c40630d10fa32cc68a8e9a60487a78fb0535ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 02/28] fix: verify interfaces in the library entry point too

---
 idlc/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/idlc/src/lib.rs b/idlc/src/lib.rs
index f4d5160..f93be63 100644
--- a/idlc/src/lib.rs
+++ b/idlc/src/lib.rs
@@ -5,6 +5,7 @@ use idlc_ast_passes::{cycles, functions, idl_store::IDLStore, struct_verifier, C
 use idlc_codegen::{Descriptor, Generator};
 use idlc_errors::trace;
 use idlc_mir::mir;
+use idlc_mir_passes::{interface_verifier, MirCompilerPass};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum Language {
@@ -34,6 +35,9 @@ impl Language {
 
         let mir = mir::parse_to_mir(&ast, &mut idl_store);
 
+        trace!("Verifying interfaces");
+        interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+
         match self {
             Self::Rust => Ok(idlc_codegen_rust::Generator::generate(&mir)),
         }
-- 
2.43.0


From 946315aba0efd291c7463b3b582bd1778c753aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 03/28] fix: reject methods that need more than 15 arguments of
 a kind

---
 idlc_codegen/src/counts.rs                    | 22 +++---
 .../src/interface/functions/signature.rs      |  4 +-
 .../src/interface/functions/signature.rs      |  4 +-
 idlc_mir/src/mir.rs                           | 13 +++
 idlc_mir_passes/src/interface_verifier.rs     | 79 +++++++++++++++++++
 5 files changed, 107 insertions(+), 15 deletions(-)

diff --git a/idlc_codegen/src/counts.rs b/idlc_codegen/src/counts.rs
index c265aea..1755b4a 100644
--- a/idlc_codegen/src/counts.rs
+++ b/idlc_codegen/src/counts.rs
@@ -5,12 +5,12 @@ use idlc_mir::{Count, Ident, Primitive, StructInner};
 
 #[derive(Debug, Clone, Copy, Default)]
 pub struct Counter {
-    pub input_buffers: u8,
-    pub input_objects: u8,
-    pub output_objects: u8,
-    pub output_buffers: u8,
-    pub total_bundled_input: u8,
-    pub total_bundled_output: u8,
+    pub input_buffers: u32,
+    pub input_objects: u32,
+    pub output_objects: u32,
+    pub output_buffers: u32,
+    pub total_bundled_input: u32,
+    pub total_bundled_output: u32,
 
     has_bundled_input: bool,
     has_bundled_output: bool,
@@ -42,7 +42,7 @@ impl super::functions::ParameterVisitor for Counter {
     #[inline]
     fn visit_input_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.input_buffers += 1;
-        self.input_objects += u8::try_from(s.object_paths().len()).unwrap();
+        self.input_objects += u32::try_from(s.object_paths().len()).unwrap();
     }
 
     #[inline]
@@ -52,7 +52,7 @@ impl super::functions::ParameterVisitor for Counter {
 
     #[inline]
     fn visit_input_object_array(&mut self, _: &Ident, _: Option<&str>, cnt: Count) {
-        self.input_objects += u8::try_from(cnt.get()).unwrap();
+        self.input_objects += u32::from(cnt.get());
     }
 
     #[inline]
@@ -79,7 +79,7 @@ impl super::functions::ParameterVisitor for Counter {
     #[inline]
     fn visit_output_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.output_buffers += 1;
-        self.output_objects += u8::try_from(s.object_paths().len()).unwrap();
+        self.output_objects += u32::try_from(s.object_paths().len()).unwrap();
     }
 
     #[inline]
@@ -89,7 +89,7 @@ impl super::functions::ParameterVisitor for Counter {
 
     #[inline]
     fn visit_output_object_array(&mut self, _: &Ident, _: Option<&str>, cnt: Count) {
-        self.output_objects += u8::try_from(cnt.get()).unwrap();
+        self.output_objects += u32::from(cnt.get());
     }
 }
 
@@ -108,6 +108,6 @@ impl Counter {
     #[inline]
     #[must_use]
     pub const fn total(&self) -> u32 {
-        (self.input_buffers + self.input_objects + self.output_buffers + self.output_objects) as u32
+        self.input_buffers + self.input_objects + self.output_buffers + self.output_objects
     }
 }
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 374dacc..eae57f4 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -14,8 +14,8 @@ pub struct Signature {
     bundled_outputs: Vec<String>,
     input_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: u32,
+    total_bundled_output: u32,
     is_no_typed_objects: bool,
 }
 
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 6d83820..510c893 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -15,8 +15,8 @@ pub struct Signature {
     input_obj_arg: Vec<String>,
     output_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: u32,
+    total_bundled_output: u32,
 }
 
 impl Signature {
diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index 9599cc0..fd97f5d 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -219,6 +219,19 @@ impl StructInner {
         objects
     }
 
+    /// How many object slots [`Self::object_paths`] finds, without listing them.
+    pub fn object_count(&self) -> usize {
+        self.fields.iter().fold(0, |acc, field| {
+            let (ty, count) = &field.val;
+            let objects = match ty {
+                Type::Struct(s) => s.as_ref().object_count(),
+                Type::Interface(_) => 1,
+                _ => 0,
+            };
+            acc.saturating_add(objects.saturating_mul(usize::from(count.get())))
+        })
+    }
+
     pub fn objects(&self) -> Vec<(Vec<&Ident>, Option<&str>)> {
         self.object_paths()
             .into_iter()
diff --git a/idlc_mir_passes/src/interface_verifier.rs b/idlc_mir_passes/src/interface_verifier.rs
index 5f44669..5efc2a5 100644
--- a/idlc_mir_passes/src/interface_verifier.rs
+++ b/idlc_mir_passes/src/interface_verifier.rs
@@ -7,6 +7,9 @@ use crate::MirCompilerPass;
 
 use idlc_mir::{InterfaceNode, Node, ParamTypeIn, ParamTypeOut, Struct, Type};
 
+/// An invocation states the number of its arguments in 4 bits for each kind of them.
+const MAX_ARGUMENTS_PER_KIND: usize = 15;
+
 pub struct InterfaceVerifier<'mir> {
     mir: &'mir idlc_mir::Mir,
 }
@@ -136,6 +139,12 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                     },
                                 }
                             }
+                            if let Some((kind, count)) = ArgumentCounts::new(f).exceeded() {
+                                idlc_errors::unrecoverable!(
+                                    "Interface `{}`, method `{}` needs {count} {kind}, only {MAX_ARGUMENTS_PER_KIND} can be passed",
+                                    src.ident, f.ident,
+                                );
+                            }
                             if (args_array_in && args_value_in)
                                 || (args_array_out && args_value_out)
                             {
@@ -152,6 +161,76 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
     }
 }
 
+/// How many arguments of each kind an invocation of a method passes.
+#[derive(Default)]
+struct ArgumentCounts {
+    input_buffers: usize,
+    output_buffers: usize,
+    input_objects: usize,
+    output_objects: usize,
+}
+
+impl ArgumentCounts {
+    fn new(function: &idlc_mir::Function) -> Self {
+        let mut me = Self::default();
+        let (mut small_input, mut small_output) = (false, false);
+        for param in &function.params {
+            let (buffers, objects, small) = if param.is_input() {
+                (
+                    &mut me.input_buffers,
+                    &mut me.input_objects,
+                    &mut small_input,
+                )
+            } else {
+                (
+                    &mut me.output_buffers,
+                    &mut me.output_objects,
+                    &mut small_output,
+                )
+            };
+            match param.r#type() {
+                Type::Interface(_) => {
+                    *objects += match param {
+                        idlc_mir::Param::In {
+                            r#type: ParamTypeIn::Array(_, Some(cnt)),
+                            ..
+                        }
+                        | idlc_mir::Param::Out {
+                            r#type: ParamTypeOut::Array(_, Some(cnt)),
+                            ..
+                        } => usize::from(cnt.get()),
+                        _ => 1,
+                    }
+                }
+                // Small parameters share one buffer.
+                Type::Primitive(_) | Type::Struct(Struct::Small(_)) if !param.is_array() => {
+                    *small = true;
+                }
+                Type::Struct(s) => {
+                    *buffers += 1;
+                    *objects = objects.saturating_add(s.as_ref().object_count());
+                }
+                Type::UntypedBuffer | Type::Primitive(_) => *buffers += 1,
+            }
+        }
+        me.input_buffers += usize::from(small_input);
+        me.output_buffers += usize::from(small_output);
+
+        me
+    }
+
+    fn exceeded(&self) -> Option<(&'static str, usize)> {
+        [
+            ("input buffers", self.input_buffers),
+            ("output buffers", self.output_buffers),
+            ("input objects", self.input_objects),
+            ("output objects", self.output_objects),
+        ]
+        .into_iter()
+        .find(|(_, count)| *count > MAX_ARGUMENTS_PER_KIND)
+    }
+}
+
 struct CollisionDetector<'a> {
     src: &'a idlc_mir::Interface,
     inner: HashSet<&'a idlc_ast::Ident>,
-- 
2.43.0


From 65cb578c96d064b89465c21e4a7994b924a79e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 04/28] fix: never bundle a struct that embeds objects

---
 idlc_mir/src/mir.rs                       | 8 +++++---
 idlc_mir_passes/src/interface_verifier.rs | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index fd97f5d..bcc1b3e 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -133,7 +133,8 @@ impl StructField {
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub enum Struct {
     /// This variant of struct can be bundled with other primitives as it's
-    /// guaranteed to be less than [`Struct::BUNDLED_SIZE_MAX`] bytes long.
+    /// guaranteed to be at most [`Struct::BUNDLED_SIZE_MAX`] bytes long and to
+    /// hold no objects.
     Small(StructInner),
     Big(StructInner),
 }
@@ -156,8 +157,9 @@ impl Struct {
     pub const BUNDLED_SIZE_MAX: usize = 16;
 
     #[inline]
-    pub const fn new(inner: StructInner, size: usize) -> Self {
-        if size <= Self::BUNDLED_SIZE_MAX {
+    pub fn new(inner: StructInner, size: usize) -> Self {
+        // Objects are never bundled, they have to travel as arguments of their own.
+        if size <= Self::BUNDLED_SIZE_MAX && !inner.contains_interfaces() {
             Self::Small(inner)
         } else {
             Self::Big(inner)
diff --git a/idlc_mir_passes/src/interface_verifier.rs b/idlc_mir_passes/src/interface_verifier.rs
index 5efc2a5..ee00164 100644
--- a/idlc_mir_passes/src/interface_verifier.rs
+++ b/idlc_mir_passes/src/interface_verifier.rs
@@ -71,7 +71,10 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                                 args_array_in = true;
                                             };
                                             if let Type::Struct(_) | Type::Primitive(_) = t {
-                                                if let Type::Struct(Struct::Big(s)) = t {
+                                                if let Type::Struct(
+                                                    Struct::Big(s) | Struct::Small(s),
+                                                ) = t
+                                                {
                                                     if s.contains_interfaces() {
                                                         idlc_errors::unrecoverable!(
                                                             "Struct with Object inside cannot be used as an array",
-- 
2.43.0


From aafda4ba9c94db258bacb65dbafe80f662fdbfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 05/28] fix: give Param a consistent order for objects of one
 direction

---
 idlc_mir/src/mir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index bcc1b3e..68617c1 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -435,7 +435,7 @@ impl Ord for Param {
                     } else if !self.is_array() && other.is_array() {
                         std::cmp::Ordering::Less
                     } else {
-                        std::cmp::Ordering::Greater
+                        std::cmp::Ordering::Equal
                     }
                 }
                 (Type::Interface(_), _) => std::cmp::Ordering::Greater,
-- 
2.43.0


From 2cc44a39b993ef8a505486f48d065263a15a8aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 06/28] fix: lay arguments out as BI, BO, OI, OO sections

---
 idlc_codegen/src/counts.rs                    |  63 ++++++++++
 idlc_codegen/src/functions.rs                 |  14 +--
 .../src/interface/functions/implementation.rs | 110 ++++++++----------
 .../src/interface/functions/invoke.rs         |  50 ++++----
 .../src/interface/functions/implementation.rs |  79 ++++++-------
 .../src/interface/functions/invoke.rs         |  12 +-
 .../src/interface/functions/implementation.rs |  87 ++++++++------
 .../src/interface/functions/invoke.rs         |  46 ++++----
 8 files changed, 252 insertions(+), 209 deletions(-)

diff --git a/idlc_codegen/src/counts.rs b/idlc_codegen/src/counts.rs
index 1755b4a..97a5910 100644
--- a/idlc_codegen/src/counts.rs
+++ b/idlc_codegen/src/counts.rs
@@ -93,6 +93,69 @@ impl super::functions::ParameterVisitor for Counter {
     }
 }
 
+/// Hands out the positions of a method's arguments. All input buffers come first,
+/// then all output buffers, all input objects and all output objects.
+#[derive(Debug, Clone, Copy, Default)]
+pub struct Sections {
+    input_buffer: usize,
+    output_buffer: usize,
+    input_object: usize,
+    output_object: usize,
+    total: usize,
+}
+
+impl Sections {
+    #[must_use]
+    pub fn new(function: &idlc_mir::Function) -> Self {
+        let counts = Counter::new(function);
+        let output_buffer = counts.input_buffers as usize;
+        let input_object = output_buffer + counts.output_buffers as usize;
+        let output_object = input_object + counts.input_objects as usize;
+
+        Self {
+            input_buffer: 0,
+            output_buffer,
+            input_object,
+            output_object,
+            total: counts.total() as usize,
+        }
+    }
+
+    #[inline]
+    #[must_use]
+    pub const fn total(&self) -> usize {
+        self.total
+    }
+
+    #[inline]
+    pub fn input_buffer(&mut self) -> usize {
+        Self::next(&mut self.input_buffer)
+    }
+
+    #[inline]
+    pub fn output_buffer(&mut self) -> usize {
+        Self::next(&mut self.output_buffer)
+    }
+
+    #[inline]
+    pub fn input_object(&mut self) -> usize {
+        Self::next(&mut self.input_object)
+    }
+
+    #[inline]
+    pub fn output_object(&mut self) -> usize {
+        Self::next(&mut self.output_object)
+    }
+
+    #[inline]
+    fn next(position: &mut usize) -> usize {
+        let idx = *position;
+        *position += 1;
+
+        idx
+    }
+}
+
 impl Counter {
     #[must_use]
     pub fn new(function: &idlc_mir::Function) -> Self {
diff --git a/idlc_codegen/src/functions.rs b/idlc_codegen/src/functions.rs
index 313261c..9afa720 100644
--- a/idlc_codegen/src/functions.rs
+++ b/idlc_codegen/src/functions.rs
@@ -121,17 +121,9 @@ impl<'a> Param<'a> {
         );
 
         if packed_primitives.n_outputs() > 1 {
-            let me = idlc_mir::Param::Out {
-                r#type: idlc_mir::ParamTypeOut::Array(Type::Primitive(Primitive::Uint8), None),
-                ident: idlc_mir::Ident::new_without_span(String::new()),
-            };
-            let idx = out.iter().position(|x| {
-                if let Param::Params(p) = *x {
-                    p >= &me
-                } else {
-                    false
-                }
-            });
+            let idx = out
+                .iter()
+                .position(|x| matches!(x, Param::Params(p) if p.is_output()));
 
             out.insert(
                 idx.unwrap_or(out.len()),
diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index d1e1ea2..634c701 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -1,6 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use idlc_codegen::counts::Sections;
 use idlc_mir::Ident;
 
 use crate::interface::variable_names::invoke::{ARGS, OBJECTBUF, OBJECTBUFIN, OP};
@@ -16,17 +17,18 @@ pub struct Implementation {
     pub pre_call: Vec<String>,
     pub post_call: Vec<String>,
 
-    idx: usize,
+    pub sections: Sections,
 }
 
 impl Implementation {
     pub fn new(function: &idlc_mir::Function) -> Self {
+        let sections = Sections::new(function);
         let mut me = Self {
-            args: vec![],
+            args: vec![String::new(); sections.total()],
             initializations: vec![],
             pre_call: vec![],
             post_call: vec![],
-            idx: 0,
+            sections,
         };
 
         idlc_codegen::functions::visit_params_with_bundling(function, &mut me);
@@ -51,57 +53,47 @@ impl Implementation {
     }
 }
 
-impl Implementation {
-    #[inline]
-    pub fn idx(&mut self) -> usize {
-        let idx = self.idx;
-        self.idx += 1;
-
-        idx
-    }
-}
-
 impl idlc_codegen::functions::ParameterVisitor for Implementation {
     fn visit_input_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        let _idx = self.idx();
+        let idx = self.sections.input_buffer();
         let name = format!("{}_ptr", ident);
         let ty = change_primitive(ty);
 
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"
         {{.bi = ({OBJECTBUFIN}) {{ {name}, {ident}_len * sizeof({ty}) }} }},"#
-        ));
+        );
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        let _idx = self.idx();
+        let idx = self.sections.input_buffer();
         let name = format!("{}_ptr", ident);
         let ty = ty.ident.to_string();
 
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"
         {{.bi = ({OBJECTBUFIN}) {{ {name}, {ident}_len * sizeof({ty}) }} }},"#
-        ));
+        );
     }
 
     fn visit_input_object_array(&mut self, ident: &Ident, _ty: Option<&str>, cnt: idlc_mir::Count) {
         for i in 0..cnt.into() {
-            let _idx = self.idx();
-            self.args.push(format!(
+            let idx = self.sections.input_object();
+            self.args[idx] = format!(
                 r#"
         {{.o = (*{ident}_ptr)[{i}] }},"#
-            ));
+            );
         }
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        let _idx = self.idx();
+        let idx = self.sections.input_buffer();
         let name = format!("{}_val", ident);
         let ty = change_primitive(ty);
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ &{name}, sizeof({ty}) }} }},"#
-        ));
+        );
     }
 
     fn visit_input_bundled(
@@ -115,7 +107,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         else {
             unreachable!()
         };
-        let _idx = self.idx();
+        let idx = self.sections.input_buffer();
         let bi_embedded = packer.bi_embedded();
         self.initializations.push(format!(
             r#"{definition} i;
@@ -123,14 +115,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             bi_embedded,
             packer.bi_assignments(),
         ));
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
-        ));
+        );
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        let _idx = self.idx();
+        let idx = self.sections.input_buffer();
         let name = format!("{}_ptr", ident);
         let ty_ident = ty.ident.to_string();
         if ty.contains_interfaces() {
@@ -138,10 +130,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 r#"{ty_ident} {ident}_cpy = *{name};
     "#
             ));
-            self.args.push(format!(
+            self.args[idx] = format!(
                 r#"
             {{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},"#
-            ));
+            );
             let objects = ty.object_paths();
             for object in objects {
                 let path = super::signature::struct_path(&object.0);
@@ -158,10 +150,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 );
             }
         } else {
-            self.args.push(format!(
+            self.args[idx] = format!(
                 r#"
             {{.bi = ({OBJECTBUFIN}) {{ {name}, sizeof({ty_ident}) }} }},"#
-            ));
+            );
         }
     }
 
@@ -170,39 +162,39 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let _idx = self.idx();
-        self.args.push(format!(
+        let idx = self.sections.input_object();
+        self.args[idx] = format!(
             r#"
         {{.o = {ident} }},"#
-        ));
+        );
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        let idx = self.idx();
+        let idx = self.sections.output_buffer();
         let name = format!("{}_ptr", ident);
         let ty = change_primitive(ty);
         self.post_call.push(format!(
             r#"
     *{ident}_lenout = {ARGS}[{idx}].b.size / sizeof({ty});"#
         ));
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ {name}, {ident}_len * sizeof({ty}) }} }},"#
-        ));
+        );
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        let idx = self.idx();
+        let idx = self.sections.output_buffer();
         let name = format!("{}_ptr", ident);
         let ty = ty.ident.to_string();
         self.post_call.push(format!(
             r#"
     *{ident}_lenout = {ARGS}[{idx}].b.size / sizeof({ty});"#
         ));
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ {name}, {ident}_len * sizeof({ty}) }} }},"#
-        ));
+        );
     }
 
     fn visit_output_object_array(
@@ -212,12 +204,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         cnt: idlc_mir::Count,
     ) {
         for i in 0..cnt.into() {
-            let idx = self.idx();
-            self.args.push(
-                r#"
+            let idx = self.sections.output_object();
+            self.args[idx] = r#"
         {.o = (Object) { NULL, NULL } },"#
-                    .to_string(),
-            );
+                .to_string();
             self.post_call.push(format!(
                 r#"
     (*{ident}_ptr)[{i}] = a[{idx}].o;"#,
@@ -226,13 +216,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        let _idx = self.idx();
+        let idx = self.sections.output_buffer();
         let name = format!("{}_ptr", ident);
         let ty = change_primitive(ty);
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ {name}, sizeof({ty}) }} }},"#
-        ));
+        );
     }
 
     fn visit_output_bundled(
@@ -248,7 +238,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         else {
             unreachable!()
         };
-        let _idx = self.idx();
+        let idx = self.sections.output_buffer();
 
         self.initializations.push(format!(
             r#"
@@ -256,20 +246,20 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 "#
         ));
         self.post_call.push(packer.post_bo_assignments());
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"
         {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
-        ));
+        );
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        let _idx = self.idx();
+        let idx = self.sections.output_buffer();
         let name = format!("{}_ptr", ident);
         let ty_ident = ty.ident.to_string();
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"
         {{.b = ({OBJECTBUF}) {{  {name}, sizeof({ty_ident}) }} }},"#
-        ));
+        );
         let objects = ty.object_paths();
         for object in objects {
             let path = super::signature::struct_path(&object.0);
@@ -292,7 +282,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let idx = self.idx();
+        let idx = self.sections.output_object();
         let mut name = format!("{ident}");
         if !ident.contains("->") {
             name = format!("*{name}");
@@ -301,11 +291,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"
     {name} = {ARGS}[{idx}].o;"#
         ));
-        self.args.push(
-            r#"
+        self.args[idx] = r#"
         {.o = Object_NULL },"#
-                .to_string(),
-        );
+            .to_string();
     }
 }
 
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index e8dd836..a10c1fa 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -6,6 +6,8 @@ use crate::{
     types::change_primitive,
 };
 
+use idlc_codegen::counts::Sections;
+
 use super::serialization::TransportBuffer;
 
 #[derive(Debug, Default, Clone)]
@@ -16,7 +18,7 @@ pub struct Invoke {
 
     is_no_typed_objects: bool,
 
-    idx: usize,
+    pub sections: Sections,
 }
 
 impl Invoke {
@@ -26,7 +28,7 @@ impl Invoke {
             pre: vec![],
             post: vec![],
             is_no_typed_objects,
-            idx: 0,
+            sections: Sections::new(function),
         };
 
         idlc_codegen::functions::visit_params_with_bundling(function, &mut me);
@@ -54,19 +56,9 @@ impl Invoke {
     }
 }
 
-impl Invoke {
-    #[inline]
-    pub fn idx(&mut self) -> usize {
-        let idx = self.idx;
-        self.idx += 1;
-
-        idx
-    }
-}
-
 impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
-        let idx = self.idx();
+        let idx = self.sections.input_buffer();
         let sz = ty.size();
         let ty: &str = change_primitive(ty);
         let name = format!("*{}_ptr", ident);
@@ -78,7 +70,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_untyped_buffer(&mut self, ident: &idlc_mir::Ident) {
-        let idx = self.idx();
+        let idx = self.sections.input_buffer();
         let ty = "void".to_string();
         let name = format!("*{}_ptr", ident);
         self.pre.push(format!(
@@ -89,7 +81,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
-        let idx = self.idx();
+        let idx = self.sections.input_buffer();
         let ty: &str = ty.ident.as_ref();
         let name = format!("*{}_ptr", ident);
         self.pre.push(format!(
@@ -112,7 +104,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
         let mut objs = String::new();
         for _ in 0..cnt.into() {
-            let idx = self.idx();
+            let idx = self.sections.input_object();
             objs.push_str(&format!(r"a[{idx}].o,"));
         }
         self.pre.push(format!(
@@ -122,7 +114,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_primitive(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
-        let idx = self.idx();
+        let idx = self.sections.input_buffer();
         let sz = ty.size();
         let ty: &str = change_primitive(ty);
         let name = format!("*{}_ptr", ident);
@@ -144,7 +136,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         else {
             unreachable!()
         };
-        let idx = self.idx();
+        let idx = self.sections.input_buffer();
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
@@ -153,7 +145,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
-        let idx = self.idx();
+        let idx = self.sections.input_buffer();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
         let ty_ident = ty.ident.to_string();
@@ -166,7 +158,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             let objects = ty.object_paths();
             for object in objects {
                 let path = super::signature::struct_path(&object.0);
-                let idx = self.idx();
+                let idx = self.sections.input_object();
                 let field_ident = format!("{name}.{}", path);
                 self.pre.push(format!(
                     r#" \
@@ -185,7 +177,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_object(&mut self, ident: &idlc_mir::Ident, ty: Option<&str>) {
-        let idx = self.idx();
+        let idx = self.sections.input_object();
         let ty = if self.is_no_typed_objects {
             "Object".to_string()
         } else {
@@ -199,7 +191,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
-        let idx = self.idx();
+        let idx = self.sections.output_buffer();
         let sz = ty.size();
         let ty: &str = change_primitive(ty);
         let name = format!("*{}_ptr", ident);
@@ -215,7 +207,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_untyped_buffer(&mut self, ident: &idlc_mir::Ident) {
-        let idx = self.idx();
+        let idx = self.sections.output_buffer();
         let ty = "void".to_string();
         let name = format!("*{}_ptr", ident);
         self.pre.push(format!(
@@ -230,7 +222,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
-        let idx = self.idx();
+        let idx = self.sections.output_buffer();
         let ty: &str = ty.ident.as_ref();
         let name = format!("*{}_ptr", ident);
         self.pre.push(format!(
@@ -259,7 +251,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut objs = String::new();
         let mut obj_assign = String::new();
         for i in 0..cnt.into() {
-            let idx = self.idx();
+            let idx = self.sections.output_object();
             objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
                 r#"a[{idx}].o = {name}[{i}]; \
@@ -278,7 +270,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
-        let idx = self.idx();
+        let idx = self.sections.output_buffer();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
         let ty_ident = ty.ident.to_string();
@@ -312,7 +304,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_primitive(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
-        let idx = self.idx();
+        let idx = self.sections.output_buffer();
         let sz = ty.size();
         let ty: &str = change_primitive(ty);
         let name = format!("*{}_ptr", ident);
@@ -334,7 +326,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         else {
             unreachable!()
         };
-        let idx = self.idx();
+        let idx = self.sections.output_buffer();
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
@@ -343,7 +335,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_object(&mut self, ident: &idlc_mir::Ident, ty: Option<&str>) {
-        let idx = self.idx();
+        let idx = self.sections.output_object();
         let mut name = format!("{ident}");
         let ty = if self.is_no_typed_objects {
             "Object".to_string()
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index a0a2914..016160a 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -1,6 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use idlc_codegen::counts::Sections;
 use idlc_codegen_c::interface::variable_names::invoke::{ARGS, OBJECTBUF, OBJECTBUFIN, OP};
 use idlc_mir::Ident;
 
@@ -12,6 +13,8 @@ pub struct Implementation(idlc_codegen_c::interface::functions::implementation::
 impl Implementation {
     pub fn new(function: &idlc_mir::Function) -> Self {
         let mut me = Self::default();
+        me.0.sections = Sections::new(function);
+        me.0.args = vec![String::new(); me.0.sections.total()];
         idlc_codegen::functions::visit_params_with_bundling(function, &mut me);
 
         me
@@ -29,11 +32,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_input_object_array(&mut self, ident: &Ident, _ty: Option<&str>, cnt: idlc_mir::Count) {
         for i in 0..cnt.into() {
-            let _idx = self.0.idx();
-            self.0.args.push(format!(
+            let idx = self.0.sections.input_object();
+            self.0.args[idx] = format!(
                 r#"
         {{.o = ({ident}_ref)[{i}].get() }},"#
-            ));
+            );
         }
     }
 
@@ -52,21 +55,21 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         else {
             unreachable!()
         };
-        let _idx = self.0.idx();
+        let idx = self.0.sections.input_buffer();
         let bi_embedded = packer.bi_embedded();
         self.0.initializations.push(format!(
             r#"{definition} i;{0}{1}"#,
             bi_embedded,
             packer.bi_assignments(),
         ));
-        self.0.args.push(format!(
+        self.0.args[idx] = format!(
             r#"
         {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
-        ));
+        );
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        let _idx = self.0.idx();
+        let idx = self.0.sections.input_buffer();
         let name = format!("{}_ref", ident);
         let ty_ident = ty.ident.to_string();
         if ty.contains_interfaces() {
@@ -74,10 +77,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 r#"
     {ty_ident} {ident}_cpy = {name};"#
             ));
-            self.0.args.push(format!(
+            self.0.args[idx] = format!(
                 r#"{{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},
         "#
-            ));
+            );
 
             let objects = ty.object_paths();
             for object in objects {
@@ -95,10 +98,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 );
             }
         } else {
-            self.0.args.push(format!(
+            self.0.args[idx] = format!(
                 r#"
         {{.bi = ({OBJECTBUFIN}) {{ &{name}, sizeof({ty_ident}) }} }},"#
-            ));
+            );
         }
     }
 
@@ -107,18 +110,18 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let _idx = self.0.idx();
+        let idx = self.0.sections.input_object();
         let name = format!("{}", ident);
         if name.contains('.') {
-            self.0.args.push(format!(
+            self.0.args[idx] = format!(
                 r#"
         {{.o = {name} }},"#
-            ));
+            );
         } else {
-            self.0.args.push(format!(
+            self.0.args[idx] = format!(
                 r#"
         {{.o = {name}.get() }},"#
-            ));
+            );
         }
     }
 
@@ -136,23 +139,15 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         _ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
-        let idx = self.0.idx();
-        for _ in 0..cnt.into() {
-            self.0.args.push(
-                r#"
+        for i in 0..cnt.into() {
+            let idx = self.0.sections.output_object();
+            self.0.args[idx] = r#"
         {.o = (Object) { NULL, NULL } },"#
-                    .to_string(),
-            );
-        }
-
-        self.0.post_call.push(format!(
-            r#"
-    for(size_t arg_idx=0;arg_idx<{cnt};arg_idx++)
-        ({ident}_ref)[arg_idx].consume(a[{idx}+arg_idx].o);"#,
-        ));
-
-        for _ in 1..cnt.into() {
-            let _idx = self.0.idx();
+                .to_string();
+            self.0.post_call.push(format!(
+                r#"
+    ({ident}_ref)[{i}].consume({ARGS}[{idx}].o);"#,
+            ));
         }
     }
 
@@ -173,27 +168,27 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         else {
             unreachable!()
         };
-        let _idx = self.0.idx();
+        let idx = self.0.sections.output_buffer();
 
         self.0.initializations.push(format!(
             r#"
     {definition} o = {{{initialization}}};"#
         ));
-        self.0.args.push(format!(
+        self.0.args[idx] = format!(
             r#"
         {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
-        ));
+        );
         self.0.post_call.push(packer.post_bo_assignments());
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        let _idx = self.0.idx();
+        let idx = self.0.sections.output_buffer();
         let name = format!("{}_ref", ident);
         let ty_ident = ty.ident.to_string();
-        self.0.args.push(format!(
+        self.0.args[idx] = format!(
             r#"
         {{.b = ({OBJECTBUF}) {{  &{name}, sizeof({ty_ident}) }} }},"#
-        ));
+        );
 
         let objects = ty.object_paths();
         for object in objects {
@@ -217,12 +212,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let idx = self.0.idx();
-        self.0.args.push(
-            r#"
+        let idx = self.0.sections.output_object();
+        self.0.args[idx] = r#"
         {.o = (Object) { NULL, NULL } },"#
-                .to_string(),
-        );
+            .to_string();
         if ident.contains('.') || ident.contains("->") {
             self.0.post_call.push(format!(
                 r#"
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index c2f7660..a17feac 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -3,6 +3,7 @@
 
 use idlc_codegen_c::interface::variable_names::invoke::{ARGS, OP};
 
+use idlc_codegen::counts::Sections;
 use idlc_mir::Ident;
 
 #[derive(Debug, Default, Clone)]
@@ -11,6 +12,7 @@ pub struct Invoke(idlc_codegen_c::interface::functions::invoke::Invoke);
 impl Invoke {
     pub fn new(function: &idlc_mir::Function) -> Self {
         let mut me = Self::default();
+        me.0.sections = Sections::new(function);
         idlc_codegen::functions::visit_params_with_bundling(function, &mut me);
 
         me
@@ -39,7 +41,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.unwrap_or("ProxyBase").to_string();
         let mut obj_args = String::new();
         for _ in 0..cnt.into() {
-            let idx = self.0.idx();
+            let idx = self.0.sections.input_object();
             obj_args.push_str(&format!(r"a[{idx}].o,"));
         }
         self.0.pre.push(format!(
@@ -71,7 +73,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {
-        let idx = self.0.idx();
+        let idx = self.0.sections.input_object();
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
@@ -105,7 +107,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut objs = String::new();
         let mut obj_assign = String::new();
         for i in 0..cnt.into() {
-            let idx = self.0.idx();
+            let idx = self.0.sections.output_object();
             objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
                 r#"
@@ -135,7 +137,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         // self.0.visit_output_big_struct(ident, ty);
-        let idx = self.0.idx();
+        let idx = self.0.sections.output_buffer();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
         let ty_ident = ty.ident.to_string();
@@ -171,7 +173,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {
-        let idx = self.0.idx();
+        let idx = self.0.sections.output_object();
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index c701ee7..cc06fb1 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -1,6 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use idlc_codegen::counts::Sections;
 use idlc_mir::Ident;
 
 use crate::interface::mink_primitives::{OK, PACK_COUNTS};
@@ -21,11 +22,18 @@ pub struct Implementation {
     initializations: Vec<String>,
     post_call: Vec<String>,
     args: Vec<String>,
+
+    sections: Sections,
 }
 
 impl Implementation {
     pub fn new(function: &idlc_mir::Function) -> Self {
-        let mut me = Self::default();
+        let sections = Sections::new(function);
+        let mut me = Self {
+            args: vec![String::new(); sections.total()],
+            sections,
+            ..Self::default()
+        };
 
         idlc_codegen::functions::visit_params_with_bundling(function, &mut me);
 
@@ -44,42 +52,43 @@ impl Implementation {
         self.post_call.concat()
     }
 
-    fn add_output_object(&mut self) {
-        self.args.push(format!(
+    fn add_output_object(&mut self, idx: usize) {
+        self.args[idx] = format!(
             r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new(None)
             }}"#
-        ));
+        );
     }
 }
 
 impl Implementation {
     fn generate_input_buffer(&mut self, ident: &Ident) {
+        let idx = self.sections.input_buffer();
         let ident = EscapedIdent::new(ident);
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
                     ptr: {ident}.as_ptr().cast(),
                     size: std::mem::size_of_val({ident})
                 }}
             }}"#
-        ));
+        );
     }
 
     fn generate_output_buffer(&mut self, ident: &Ident, ty: &str) {
+        let idx = self.sections.output_buffer();
         let ident = EscapedIdent::new(ident);
         self.post_call.push(format!(
-            "*{ident}_lenout = unsafe {{ {ARGS}[{idx}].b.size }} / std::mem::size_of::<{ty}>();",
-            idx = self.args.len()
+            "*{ident}_lenout = unsafe {{ {ARGS}[{idx}].b.size }} / std::mem::size_of::<{ty}>();"
         ));
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
                     ptr: {ident}.as_mut_ptr().cast(),
                     size: std::mem::size_of_val({ident})
                 }}
             }}"#
-        ));
+        );
     }
 }
 
@@ -93,22 +102,24 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
+        let idx = self.sections.input_buffer();
         let ty: &str = change_primitive(ty);
         let ident = EscapedIdent::new(ident);
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
                     ptr: std::ptr::addr_of!({ident}).cast(),
                     size: std::mem::size_of::<{ty}>(),
                 }}
             }}"#
-        ));
+        );
     }
 
     fn visit_input_bundled(
         &mut self,
         packed_primitives: &idlc_codegen::serialization::PackedPrimitives,
     ) {
+        let idx = self.sections.input_buffer();
         let packer = super::serialization::PackedPrimitives::new(packed_primitives);
         let Some(TransportBuffer { definition, size }) = packer.bi_definition() else {
             unreachable!()
@@ -120,7 +131,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             let mut bi = {BI_STRUCT}({idents});
             "#
         ));
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
                     ptr: std::ptr::addr_of!(bi).cast(),
@@ -128,40 +139,42 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 }}
             }}
             "#
-        ));
+        );
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, r#struct: &idlc_mir::StructInner) {
         let ty: &str = &namespaced_struct(r#struct);
         let escaped_ident = EscapedIdent::new(ident);
 
+        let idx = self.sections.input_buffer();
         let objects = r#struct.object_paths();
         if objects.is_empty() {
-            self.args.push(format!(
+            self.args[idx] = format!(
                 r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
                     ptr: ({escaped_ident} as *const {ty}).cast(),
                     size: std::mem::size_of::<{ty}>(),
                 }}
             }}"#
-            ));
+            );
         } else {
             self.initializations.push(format!(
                 r#"
                 let {escaped_ident} = std::mem::ManuallyDrop::new(std::cell::UnsafeCell::new(unsafe {{ std::ptr::read({escaped_ident}) }}));
             "#
             ));
-            self.args.push(format!(
+            self.args[idx] = format!(
                 r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
                     ptr: {escaped_ident}.get().cast(),
                     size: std::mem::size_of::<{ty}>(),
                 }}
             }}"#
-            ));
+            );
             for (object, _) in objects {
                 let path = super::signature::idents_to_struct_path(&object);
-                self.args.push(format!(
+                let idx = self.sections.input_object();
+                self.args[idx] = format!(
                     r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new(unsafe {{
                     let ptr = &mut (*{escaped_ident}.get()){path};
@@ -171,7 +184,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                     std::mem::transmute_copy(&obj)
                 }})
             }}"#
-                ));
+                );
             }
         }
     }
@@ -181,12 +194,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
+        let idx = self.sections.input_object();
         let ident = EscapedIdent::new(ident);
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new({ident}.map(|o| unsafe {{ std::mem::transmute_copy(o) }} ))
             }}"#
-        ));
+        );
     }
 
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
@@ -207,6 +221,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
+        let idx = self.sections.output_buffer();
         let ty: &str = change_primitive(ty);
         let ident = EscapedIdent::new(ident);
         self.initializations.push(format!(
@@ -214,20 +229,21 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         ));
         self.post_call
             .push(format!("let {ident} = unsafe {{ {ident}.assume_init() }};"));
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
                     ptr: std::ptr::addr_of_mut!({ident}).cast(),
                     size: std::mem::size_of::<{ty}>(),
                 }}
             }}"#
-        ));
+        );
     }
 
     fn visit_output_bundled(
         &mut self,
         packed_primitives: &idlc_codegen::serialization::PackedPrimitives,
     ) {
+        let idx = self.sections.output_buffer();
         let packer = super::serialization::PackedPrimitives::new(packed_primitives);
         let Some(TransportBuffer { definition, size }) = packer.bo_definition() else {
             unreachable!()
@@ -242,14 +258,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.post_call.push(format!(
             "let {BO_STRUCT}({idents}) = unsafe {{ bo.assume_init() }};"
         ));
-        self.args.push(format!(
+        self.args[idx] = format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
                     ptr: std::ptr::addr_of_mut!(bo).cast(),
                     size: {size},
                 }}
             }}"#
-        ));
+        );
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, r#struct: &idlc_mir::StructInner) {
@@ -258,19 +274,20 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.initializations.push(format!(
             "let mut {ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
         ));
-        self.args.push(format!(
+        let idx = self.sections.output_buffer();
+        self.args[idx] = format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
                     ptr: std::ptr::addr_of_mut!({escaped_ident}).cast(),
                     size: std::mem::size_of::<{ty}>(),
                 }}
             }}"#
-        ));
+        );
 
         let objects = r#struct.object_paths();
         for (object, _) in objects {
             let path = super::signature::idents_to_struct_path(&object);
-            let idx = self.args.len();
+            let idx = self.sections.output_object();
             self.post_call.push(format!(
                 r#"unsafe {{ std::ptr::write(
                     std::ptr::addr_of_mut!((*{escaped_ident}.as_mut_ptr()){path}),
@@ -279,7 +296,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             "#
             ));
 
-            self.add_output_object();
+            self.add_output_object(idx);
         }
         self.post_call.push(format!(
             "let {escaped_ident} = unsafe {{ {escaped_ident}.assume_init() }};"
@@ -291,12 +308,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let idx = self.args.len();
+        let idx = self.sections.output_object();
         let ident = EscapedIdent::new(ident);
         self.post_call.push(format!(
             "let {ident} = unsafe {{ std::mem::transmute(std::mem::ManuallyDrop::take(&mut {ARGS}[{idx}].o)) }};"
         ));
-        self.add_output_object();
+        self.add_output_object(idx);
     }
 
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
@@ -311,12 +328,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             "let mut {ident}: [std::mem::MaybeUninit<Option<{ty}>>; {cnt}] = unsafe {{ std::mem::MaybeUninit::uninit().assume_init() }};"
         ));
         for i in 0..cnt.get() {
-            let idx = self.args.len();
-            self.args.push(format!(
+            let idx = self.sections.output_object();
+            self.args[idx] = format!(
                 r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new(None)
             }}"#
-            ));
+            );
             self.post_call.push(format!("unsafe {{ {ident}[{i}].write(std::mem::transmute(std::mem::ManuallyDrop::take(&mut {ARGS}[{idx}].o))); }}"));
         }
         self.post_call.push(format!(
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index ced0336..1b6b170 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -1,6 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use idlc_codegen::counts::Sections;
 use idlc_mir::{Ident, StructInner};
 
 use crate::interface::mink_primitives::GENERIC_ERROR;
@@ -18,12 +19,15 @@ pub struct Invoke {
     pre: Vec<String>,
     post: Vec<String>,
 
-    idx: usize,
+    sections: Sections,
 }
 
 impl Invoke {
     pub fn new(function: &idlc_mir::Function) -> Self {
-        let mut me = Self::default();
+        let mut me = Self {
+            sections: Sections::new(function),
+            ..Self::default()
+        };
 
         idlc_codegen::functions::visit_params_with_bundling(function, &mut me);
         me
@@ -39,16 +43,8 @@ impl Invoke {
 }
 
 impl Invoke {
-    #[inline]
-    fn idx(&mut self) -> usize {
-        let idx = self.idx;
-        self.idx += 1;
-
-        idx
-    }
-
     fn generate_for_input_buffer(&mut self, ident: EscapedIdent, ty: &str) {
-        let idx = self.idx();
+        let idx = self.sections.input_buffer();
         self.pre.push(format!(
         r#"let {ident} = if {ARGS}[{idx}].bi.size == 0 {{
             &[]
@@ -58,7 +54,7 @@ impl Invoke {
     }
 
     fn generate_for_output_buffer(&mut self, ident: EscapedIdent, ty: &str) {
-        let idx = self.idx();
+        let idx = self.sections.output_buffer();
         self.pre.push(format!(
             r#"let {ident}_orig = {ARGS}[{idx}].b.size;
             let {ident}_lenout = &mut *std::ptr::addr_of_mut!({ARGS}[{idx}].b.size);"#
@@ -90,7 +86,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         let ty: &str = change_primitive(ty);
         let ident = EscapedIdent::new(ident);
-        let idx = self.idx();
+        let idx = self.sections.input_buffer();
         self.pre.push(format!(
             r#"if {ARGS}[{idx}].bi.size != std::mem::size_of::<{ty}>() {{
             return std::mem::transmute({GENERIC_ERROR}::INVALID);
@@ -110,7 +106,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let Some(TransportBuffer { definition, size }) = packer.bi_definition() else {
             unreachable!()
         };
-        let idx = self.idx();
+        let idx = self.sections.input_buffer();
         let idents = super::signature::iter_to_string(packer.bi_definition_idents());
         self.pre.push(definition);
         self.pre.push(format!(
@@ -121,7 +117,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             "#,
         ));
         self.pre.push(format!(
-            "let {BI_STRUCT}({idents}) = std::ptr::read(args[0].bi.ptr.cast::<{BI_STRUCT}>());"
+            "let {BI_STRUCT}({idents}) = std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{BI_STRUCT}>());"
         ));
         self.pre.push(packer.post_bi_assignments());
     }
@@ -129,7 +125,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_big_struct(&mut self, ident: &Ident, r#struct: &StructInner) {
         let ty: &str = &namespaced_struct(r#struct);
         let ident = EscapedIdent::new(ident);
-        let idx = self.idx();
+        let idx = self.sections.input_buffer();
         self.pre.push(format!(
             r#"if {ARGS}[{idx}].bi.size != std::mem::size_of::<{ty}>() {{
             return std::mem::transmute({GENERIC_ERROR}::INVALID);
@@ -147,7 +143,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             ));
             for (object, _) in objects {
                 let path = super::signature::idents_to_struct_path(&object);
-                let idx = self.idx();
+                let idx = self.sections.input_object();
                 self.pre.push(format!(
                     "std::ptr::write(&mut {ident}{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
                 ));
@@ -160,7 +156,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let idx = self.idx();
+        let idx = self.sections.input_object();
         let ident = EscapedIdent::new(ident);
         self.pre.push(format!(
             "let {ident} = std::mem::transmute({ARGS}[{idx}].o.as_ref());"
@@ -171,7 +167,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ident = EscapedIdent::new(ident);
         let mut definition = format!("let {ident} = &std::mem::ManuallyDrop::new([");
         for _ in 0..cnt.get() {
-            let idx = self.idx();
+            let idx = self.sections.input_object();
             definition += &format!("std::mem::transmute_copy(&{ARGS}[{idx}].o),",);
         }
         definition.push_str("]);");
@@ -189,7 +185,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_output_big_struct(&mut self, ident: &Ident, r#struct: &StructInner) {
         let ident = EscapedIdent::new(ident);
         let ty = &namespaced_struct(r#struct);
-        let idx = self.idx();
+        let idx = self.sections.output_buffer();
         self.pre.push(format!(
             r#"if {ARGS}[{idx}].b.size != std::mem::size_of::<{ty}>() {{
             return std::mem::transmute({GENERIC_ERROR}::SIZE_OUT);
@@ -206,7 +202,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 "let mut {ident} = std::mem::ManuallyDrop::new({ident});"
             ));
             for (object, _) in objects {
-                let idx = self.idx();
+                let idx = self.sections.output_object();
                 let path = super::signature::idents_to_struct_path(&object);
                 self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"));
                 self.post.push(format!(
@@ -225,7 +221,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_output_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         let ty = change_primitive(ty);
         let ident = EscapedIdent::new(ident);
-        let idx = self.idx();
+        let idx = self.sections.output_buffer();
         self.pre.push(format!(
             r#"if {ARGS}[{idx}].b.size != std::mem::size_of::<{ty}>() {{
             return std::mem::transmute({GENERIC_ERROR}::SIZE_OUT);
@@ -244,7 +240,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             unreachable!()
         };
 
-        let idx = self.idx();
+        let idx = self.sections.output_buffer();
         self.pre.push(definition);
         self.pre.push(format!(
             r#"
@@ -262,7 +258,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let idx = self.idx();
+        let idx = self.sections.output_object();
         let ident = EscapedIdent::new(ident);
         self.post.push(format!(
             "{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}));\n"
@@ -275,7 +271,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             "let {ident} = std::mem::ManuallyDrop::new({ident});"
         ));
         for i in 0..cnt.get() {
-            let idx = self.idx();
+            let idx = self.sections.output_object();
             self.post.push(format!(
             "{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute_copy(&{ident}[{i}]));"
         ));
-- 
2.43.0


From 5a31d11b616a6cbf099a284ba5857c1ef94fbce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 07/28] fix: lay bundles out without padding

---
 .../src/interface/functions/invoke.rs         |  7 +++-
 .../src/interface/functions/serialization.rs  | 42 +++++++++++++++++--
 .../src/interface/functions/signature.rs      | 10 ++---
 .../src/interface/functions/serialization.rs  |  4 +-
 .../src/interface/functions/signature.rs      | 10 ++---
 5 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index a10c1fa..effceec 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -138,9 +138,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
         let idx = self.sections.input_buffer();
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
+        let locals = packer.invoke_bi_locals();
         self.pre.push(format!(
             r#" \
-                {CONST} {definition} *i = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
+                {CONST} {definition} *i = (const struct {BI}*){ARGS}[{idx}].b.ptr;{locals}"#
         ));
     }
 
@@ -328,10 +329,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
         let idx = self.sections.output_buffer();
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
+        let (locals, assignments) = packer.invoke_bo_locals();
         self.pre.push(format!(
             r#" \
-                {definition} *o = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
+                {definition} *o = (struct {BO}*){ARGS}[{idx}].b.ptr;{locals}"#
         ));
+        self.post.push(assignments);
     }
 
     fn visit_output_object(&mut self, ident: &idlc_mir::Ident, ty: Option<&str>) {
diff --git a/idlc_codegen_c/src/interface/functions/serialization.rs b/idlc_codegen_c/src/interface/functions/serialization.rs
index 2cc462d..1425903 100644
--- a/idlc_codegen_c/src/interface/functions/serialization.rs
+++ b/idlc_codegen_c/src/interface/functions/serialization.rs
@@ -5,7 +5,7 @@ use std::borrow::Cow;
 
 use idlc_codegen::serialization::Type;
 
-use crate::interface::variable_names::invoke::{BI, BO};
+use crate::interface::variable_names::invoke::{BI, BO, CONST};
 
 use crate::types::change_primitive;
 
@@ -101,6 +101,42 @@ impl<'a> PackedPrimitives<'a> {
         assignments
     }
 
+    /// Copies of the bundled structs, for the pointers an implementation expects:
+    /// members of the packed bundle aren't aligned.
+    pub fn invoke_bi_locals(&self) -> String {
+        let mut locals = String::new();
+        for (ident, ty) in self.0.inputs_by_idents() {
+            if let Type::SmallStruct(s) = ty {
+                locals += &format!(
+                    r#" \
+                {CONST} {} _i_{ident} = i->m_{ident};"#,
+                    s.ident
+                );
+            }
+        }
+        locals
+    }
+
+    /// Locals the implementation writes to, and their transfer to the packed bundle.
+    pub fn invoke_bo_locals(&self) -> (String, String) {
+        let (mut locals, mut assignments) = (String::new(), String::new());
+        for (ident, ty) in self.0.outputs_by_idents() {
+            let ty = match ty {
+                &Type::Primitive(p) => Cow::Borrowed(change_primitive(p)),
+                Type::SmallStruct(s) => Cow::Owned(s.ident.to_string()),
+            };
+            locals += &format!(
+                r#" \
+                {ty} _o_{ident} = o->m_{ident};"#
+            );
+            assignments += &format!(
+                r#" \
+                o->m_{ident} = _o_{ident};"#
+            );
+        }
+        (locals, assignments)
+    }
+
     pub fn bo_embedded(&self) -> Vec<(idlc_mir::Ident, &idlc_mir::Ident, Option<&str>)> {
         let mut embedded_objs: Vec<(idlc_mir::Ident, &idlc_mir::Ident, Option<&str>)> = vec![];
         self.0.outputs_by_idents().for_each(|(ident, ty)| match ty {
@@ -191,12 +227,12 @@ impl<'a> PackedPrimitives<'a> {
         let definition = if is_invoke {
             format!(
                 r#"struct {in_out} {{ \{fields}
-                }}"#
+                }} __attribute__((packed))"#
             )
         } else {
             format!(
                 r#"struct {in_out} {{{fields}
-    }}"#
+    }} __attribute__((packed))"#
             )
         };
         Some(TransportBuffer {
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index eae57f4..7f68c50 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -170,7 +170,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.len() > 1
         {
             self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("&_i_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -187,7 +187,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.len() > 1
         {
             self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("&_i_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -276,7 +276,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
         {
             self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+                .push((format!("&_o_{}", ident), change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -291,7 +291,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
         {
             self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
+                .push((format!("&_o_{}", ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), ty.ident.to_string()));
@@ -305,7 +305,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
         {
             self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
+                .push((format!("&_o_{}", ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), ty.ident.to_string()));
diff --git a/idlc_codegen_cpp/src/interface/functions/serialization.rs b/idlc_codegen_cpp/src/interface/functions/serialization.rs
index c90d1e9..1ee84af 100644
--- a/idlc_codegen_cpp/src/interface/functions/serialization.rs
+++ b/idlc_codegen_cpp/src/interface/functions/serialization.rs
@@ -150,12 +150,12 @@ impl<'a> PackedPrimitives<'a> {
         let definition = if is_invoke {
             format!(
                 r#"struct {in_out} {{ \{fields}
-                }}"#
+                }} __attribute__((packed))"#
             )
         } else {
             format!(
                 r#"struct {in_out} {{{fields}
-    }}"#
+    }} __attribute__((packed))"#
             )
         };
         Some(TransportBuffer {
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 510c893..2c6a3a5 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -119,7 +119,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("_i_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -133,7 +133,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((format!("_i_{}", ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -214,7 +214,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+                .push((format!("&_o_{}", ident), change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -226,7 +226,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
+                .push((format!("_o_{}", ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), ty.ident.to_string()));
@@ -237,7 +237,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
+                .push((format!("_o_{}", ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), ty.ident.to_string()));
-- 
2.43.0


From 33f2fa0b640f0d10a55c5156c84257c401818d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 08/28] fix: hand over no output object of a failed call

---
 .../src/interface/functions/implementation.rs |  4 ++--
 .../src/interface/functions/invoke.rs         | 20 +++++++++----------
 .../src/interface/functions/signature.rs      |  2 +-
 .../src/interface/functions/invoke.rs         |  7 ++++---
 4 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 634c701..50445c1 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -210,7 +210,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 .to_string();
             self.post_call.push(format!(
                 r#"
-    (*{ident}_ptr)[{i}] = a[{idx}].o;"#,
+    (*{ident}_ptr)[{i}] = (result == Object_OK) ? a[{idx}].o : Object_NULL;"#,
             ));
         }
     }
@@ -289,7 +289,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         }
         self.post_call.push(format!(
             r#"
-    {name} = {ARGS}[{idx}].o;"#
+    {name} = (result == Object_OK) ? {ARGS}[{idx}].o : Object_NULL;"#
         ));
         self.args[idx] = r#"
         {.o = Object_NULL },"#
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index effceec..463ae6b 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -254,10 +254,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         for i in 0..cnt.into() {
             let idx = self.sections.output_object();
             objs.push_str("Object_NULL, ");
-            obj_assign.push_str(&format!(
-                r#"a[{idx}].o = {name}[{i}]; \
-                "#
-            ))
+            obj_assign.push_str(&format!(r#"a[{idx}].o = {name}[{i}]; "#))
         }
 
         self.pre.push(format!(
@@ -266,7 +263,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
         self.post.push(format!(
             r#" \
-                {obj_assign}"#
+                if (r == Object_OK) {{ {obj_assign}}}"#
         ));
     }
 
@@ -339,26 +336,29 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_output_object(&mut self, ident: &idlc_mir::Ident, ty: Option<&str>) {
         let idx = self.sections.output_object();
-        let mut name = format!("{ident}");
+        let name = format!("{ident}");
         let ty = if self.is_no_typed_objects {
             "Object".to_string()
         } else {
             ty.unwrap_or("Object").to_string()
         };
         if !ident.contains("->") && !ident.contains('.') {
-            name = format!("*{name}");
             self.pre.push(format!(
                 r#" \
-                {ty} {name} = &{ARGS}[{idx}].o;"#
+                {ty} {name} = Object_NULL;"#
+            ));
+            self.post.push(format!(
+                r#" \
+                if (r == Object_OK) {{ {ARGS}[{idx}].o = {name}; }}"#
             ));
         } else {
             self.pre.push(format!(
                 r#" \
-                {name} = {ARGS}[{idx}].o;"#
+                {name} = Object_NULL;"#
             ));
             self.post.push(format!(
                 r#" \
-                {ARGS}[{idx}].o = {name}; \
+                if (r == Object_OK) {{ {ARGS}[{idx}].o = {name}; }} \
                 {name} = Object_NULL;"#
             ));
         }
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 7f68c50..2988e27 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -319,6 +319,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             ty.unwrap_or("Object")
         };
         self.inputs.push((format!("*{}", ident), ty.to_string()));
-        self.outputs.push((format!("{}", ident), ty.to_string()));
+        self.outputs.push((format!("&{}", ident), ty.to_string()));
     }
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index a17feac..f1c94d8 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -111,7 +111,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
                 r#"
-                {ARGS}[{idx}].o=p_{ident}[{i}].extract();"#
+                    {ARGS}[{idx}].o=p_{ident}[{i}].extract();"#
             ));
         }
         self.0.pre.push(format!(
@@ -120,7 +120,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
         self.0.post.push(format!(
             r#" \
-{obj_assign}"#,
+                if (r == Object_OK) {{{obj_assign}
+                }}"#,
         ));
     }
 
@@ -181,7 +182,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
         self.0.post.push(format!(
             r#" \
-                {ARGS}[{idx}].o = p_{ident}.extract();"#
+                if (r == Object_OK) {{ {ARGS}[{idx}].o = p_{ident}.extract(); }}"#
         ));
     }
 }
-- 
2.43.0


From 8e11b03d3d37ced640206fafe697f84c1ebe23e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 09/28] fix: pass untyped object arrays as ProxyBase arrays in
 C++

---
 idlc_codegen_cpp/src/interface/functions/invoke.rs    | 6 ++----
 idlc_codegen_cpp/src/interface/functions/signature.rs | 4 ++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index f1c94d8..454b908 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -42,7 +42,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut obj_args = String::new();
         for _ in 0..cnt.into() {
             let idx = self.0.sections.input_object();
-            obj_args.push_str(&format!(r"a[{idx}].o,"));
+            obj_args.push_str(&format!(r"{ty}({ARGS}[{idx}].o),"));
         }
         self.0.pre.push(format!(
             r#" \
@@ -104,11 +104,9 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         cnt: idlc_mir::Count,
     ) {
         let ty = ty.unwrap_or("ProxyBase").to_string();
-        let mut objs = String::new();
         let mut obj_assign = String::new();
         for i in 0..cnt.into() {
             let idx = self.0.sections.output_object();
-            objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
                 r#"
                     {ARGS}[{idx}].o=p_{ident}[{i}].extract();"#
@@ -116,7 +114,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}[{cnt}] = {{ {objs} }};"#
+                {ty} p_{ident}[{cnt}];"#
         ));
         self.0.post.push(format!(
             r#" \
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 2c6a3a5..33e773c 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -95,7 +95,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = format!("{CONST} {}", ty.unwrap_or("Object"));
+        let ty = format!("{CONST} {}", ty.unwrap_or("ProxyBase"));
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
@@ -202,7 +202,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = ty.unwrap_or("Object").to_string();
+        let ty = ty.unwrap_or("ProxyBase").to_string();
         self.inputs.push((name, ty));
         self.output_obj_arg.push(format!("{}_len", ident));
         self.outputs
-- 
2.43.0


From 110919f66196ab0640b265ccc41ea245708210ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 10/28] fix: don't build a slice from the null argument pointer
 in Rust skeletons

---
 idlc_codegen_rust/src/interface/functions/invoke.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 1b6b170..589ae0e 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -300,6 +300,13 @@ pub fn emit(
     let pre = params.pre();
     let post = params.post();
 
+    // The argument pointer of an invocation without arguments may be null.
+    let args = if n_args == 0 {
+        String::new()
+    } else {
+        format!("let {ARGS} = std::slice::from_raw_parts_mut({ARGS}, {n_args});")
+    };
+
     let params = super::signature::iter_to_string(signature.param_idents());
     let returns = super::signature::iter_to_string(signature.return_idents());
 
@@ -309,7 +316,7 @@ pub fn emit(
         if {COUNTS} != {PACK_COUNTS}{counts:?} {{
             return std::mem::transmute({GENERIC_ERROR}::GENERIC)
         }}
-        let args = std::slice::from_raw_parts_mut({ARGS}, {n_args});
+        {args}
 
         {pre}
 
-- 
2.43.0


From 03c76df0981ef8bf8c9dfe175aea4915acc0a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 11/28] fix: keep names of generated locals apart from those of
 parameters

---
 .../src/interface/functions/implementation.rs | 34 +++++++++----------
 .../src/interface/functions/invoke.rs         | 28 +++++++--------
 .../src/interface/functions/serialization.rs  | 14 ++++----
 .../src/interface/functions/signature.rs      |  2 +-
 idlc_codegen_c/src/interface/mod.rs           | 16 ++++-----
 .../src/interface/variable_names.rs           |  6 ++--
 .../src/interface/functions/implementation.rs | 26 +++++++-------
 .../src/interface/functions/invoke.rs         | 26 +++++++-------
 .../src/interface/functions/serialization.rs  | 12 +++----
 .../src/interface/functions/signature.rs      | 10 +++---
 idlc_codegen_cpp/src/interface/mod.rs         |  4 +--
 idlc_codegen_rust/src/globals.rs              |  6 ++--
 .../src/interface/functions/implementation.rs | 12 +++----
 .../src/interface/functions/invoke.rs         | 18 +++++-----
 .../src/interface/functions/serialization.rs  |  9 +++--
 .../src/interface/functions/signature.rs      |  4 +--
 idlc_codegen_rust/src/interface/mod.rs        |  8 ++---
 .../src/interface/variable_names.rs           | 16 ++++-----
 18 files changed, 129 insertions(+), 122 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 50445c1..83c4251 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -110,14 +110,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let idx = self.sections.input_buffer();
         let bi_embedded = packer.bi_embedded();
         self.initializations.push(format!(
-            r#"{definition} i;
+            r#"{definition} _i;
 {0}{1}"#,
             bi_embedded,
             packer.bi_assignments(),
         ));
         self.args[idx] = format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{ &_i, {size} }} }},"#
         );
     }
 
@@ -127,23 +127,23 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty_ident = ty.ident.to_string();
         if ty.contains_interfaces() {
             self.initializations.push(format!(
-                r#"{ty_ident} {ident}_cpy = *{name};
+                r#"{ty_ident} _cpy_{ident} = *{name};
     "#
             ));
             self.args[idx] = format!(
                 r#"
-            {{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},"#
+            {{.bi = ({OBJECTBUFIN}) {{ &_cpy_{ident}, sizeof({ty_ident}) }} }},"#
             );
             let objects = ty.object_paths();
             for object in objects {
                 let path = super::signature::struct_path(&object.0);
                 self.pre_call.push(format!(
-                    r#"{ident}_cpy.{path} = Object_NULL;
+                    r#"_cpy_{ident}.{path} = Object_NULL;
     "#
                 ));
                 self.visit_input_object(
                     &idlc_mir::Ident {
-                        ident: format!("{ident}_cpy.{}", path),
+                        ident: format!("_cpy_{ident}.{}", path),
                         span: object.0.last().unwrap().0.span,
                     },
                     object.1,
@@ -210,7 +210,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 .to_string();
             self.post_call.push(format!(
                 r#"
-    (*{ident}_ptr)[{i}] = (result == Object_OK) ? a[{idx}].o : Object_NULL;"#,
+    (*{ident}_ptr)[{i}] = (_result == Object_OK) ? {ARGS}[{idx}].o : Object_NULL;"#,
             ));
         }
     }
@@ -242,13 +242,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
         self.initializations.push(format!(
             r#"
-    {definition} o = {{{initialization}}};
+    {definition} _o = {{{initialization}}};
 "#
         ));
         self.post_call.push(packer.post_bo_assignments());
         self.args[idx] = format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{  &_o, {size} }} }},"#
         );
     }
 
@@ -289,7 +289,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         }
         self.post_call.push(format!(
             r#"
-    {name} = (result == Object_OK) ? {ARGS}[{idx}].o : Object_NULL;"#
+    {name} = (_result == Object_OK) ? {ARGS}[{idx}].o : Object_NULL;"#
         ));
         self.args[idx] = r#"
         {.o = Object_NULL },"#
@@ -320,13 +320,13 @@ pub fn emit(
 
     if total > 0 {
         object_args = format!(
-            r#"ObjectArg a[] = {{{args}
+            r#"ObjectArg {ARGS}[] = {{{args}
     }};"#
         );
     }
 
     let returns = if total > 0 {
-        format!("Object_invoke(self, {iface_ident}_{OP}_{ident}, a, ObjectCounts_pack({0}, {1}, {2}, {3}));",
+        format!("Object_invoke(_self, {iface_ident}_{OP}_{ident}, {ARGS}, ObjectCounts_pack({0}, {1}, {2}, {3}));",
         counts.input_buffers,
         counts.output_buffers,
         counts.input_objects,
@@ -335,9 +335,9 @@ pub fn emit(
         return format!(
             r#"
 {documentation}
-static inline int32_t {current_iface_ident}_{ident}(Object self{params})
+static inline int32_t {current_iface_ident}_{ident}(Object _self{params})
 {{
-    return Object_invoke(self, {iface_ident}_{OP}_{ident}, 0, 0);
+    return Object_invoke(_self, {iface_ident}_{OP}_{ident}, 0, 0);
 }}
 "#
         );
@@ -346,12 +346,12 @@ static inline int32_t {current_iface_ident}_{ident}(Object self{params})
     format!(
         r#"
 {documentation}
-static inline int32_t {current_iface_ident}_{ident}(Object self{params})
+static inline int32_t {current_iface_ident}_{ident}(Object _self{params})
 {{
 {0}{1}{2}
-    int32_t result = {returns}
+    int32_t _result = {returns}
 {3}
-    return result;
+    return _result;
 }}
 "#,
         if !initializations.is_empty() {
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 463ae6b..f438936 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -105,7 +105,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut objs = String::new();
         for _ in 0..cnt.into() {
             let idx = self.sections.input_object();
-            objs.push_str(&format!(r"a[{idx}].o,"));
+            objs.push_str(&format!(r"{ARGS}[{idx}].o,"));
         }
         self.pre.push(format!(
             r#" \
@@ -141,7 +141,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let locals = packer.invoke_bi_locals();
         self.pre.push(format!(
             r#" \
-                {CONST} {definition} *i = (const struct {BI}*){ARGS}[{idx}].b.ptr;{locals}"#
+                {CONST} {definition} *_i = (const struct {BI}*){ARGS}[{idx}].b.ptr;{locals}"#
         ));
     }
 
@@ -254,7 +254,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         for i in 0..cnt.into() {
             let idx = self.sections.output_object();
             objs.push_str("Object_NULL, ");
-            obj_assign.push_str(&format!(r#"a[{idx}].o = {name}[{i}]; "#))
+            obj_assign.push_str(&format!(r#"{ARGS}[{idx}].o = {name}[{i}]; "#))
         }
 
         self.pre.push(format!(
@@ -263,7 +263,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
         self.post.push(format!(
             r#" \
-                if (r == Object_OK) {{ {obj_assign}}}"#
+                if (_r == Object_OK) {{ {obj_assign}}}"#
         ));
     }
 
@@ -329,7 +329,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let (locals, assignments) = packer.invoke_bo_locals();
         self.pre.push(format!(
             r#" \
-                {definition} *o = (struct {BO}*){ARGS}[{idx}].b.ptr;{locals}"#
+                {definition} *_o = (struct {BO}*){ARGS}[{idx}].b.ptr;{locals}"#
         ));
         self.post.push(assignments);
     }
@@ -349,7 +349,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             ));
             self.post.push(format!(
                 r#" \
-                if (r == Object_OK) {{ {ARGS}[{idx}].o = {name}; }}"#
+                if (_r == Object_OK) {{ {ARGS}[{idx}].o = {name}; }}"#
             ));
         } else {
             self.pre.push(format!(
@@ -358,7 +358,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             ));
             self.post.push(format!(
                 r#" \
-                if (r == Object_OK) {{ {ARGS}[{idx}].o = {name}; }} \
+                if (_r == Object_OK) {{ {ARGS}[{idx}].o = {name}; }} \
                 {name} = Object_NULL;"#
             ));
         }
@@ -384,19 +384,19 @@ pub fn emit(
     let params = super::signature::iter_to_string(signature.params());
     let call = if function.is_optional() {
         weak_declarations.push_str(&format!(
-            r#"int32_t prefix##{ident}(type ctx{params}) __attribute__((weak)); \
+            r#"int32_t _prefix##{ident}(_type _ctx{params}) __attribute__((weak)); \
         "#
         ));
         format!(
-            r"int32_t r; \
-                if (prefix##{ident} != NULL) {{ \
-                    r = prefix##{ident}(me{return_idents}); \
+            r"int32_t _r; \
+                if (_prefix##{ident} != NULL) {{ \
+                    _r = _prefix##{ident}(_me{return_idents}); \
                 }} else {{ \
                     return Object_ERROR_INVALID; \
                 }} \"
         )
     } else {
-        format!(r"int32_t r = prefix##{ident}(me{return_idents}); \")
+        format!(r"int32_t _r = _prefix##{ident}(_me{return_idents}); \")
     };
 
     let counts = format!(
@@ -407,13 +407,13 @@ pub fn emit(
     format!(
         r#" \
             case {iface_ident}_{OP}_{ident}: {{ \
-                if (k != ObjectCounts_pack{counts}{args}) {{ \
+                if (_k != ObjectCounts_pack{counts}{args}) {{ \
                     break; \
                 }} \
                 {pre} \
                 {call}
                 {post} \
-                return r; \
+                return _r; \
             }} "#
     )
 }
diff --git a/idlc_codegen_c/src/interface/functions/serialization.rs b/idlc_codegen_c/src/interface/functions/serialization.rs
index 1425903..f974c55 100644
--- a/idlc_codegen_c/src/interface/functions/serialization.rs
+++ b/idlc_codegen_c/src/interface/functions/serialization.rs
@@ -40,13 +40,13 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = {ident}_val;"#
+    _i.m_{ident} = {ident}_val;"#
                 );
             }
             Type::SmallStruct(_s) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = *{ident}_ptr;"#
+    _i.m_{ident} = *{ident}_ptr;"#
                 );
             }
         });
@@ -87,13 +87,13 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r"
-    *{ident}_ptr = o.m_{ident};"
+    *{ident}_ptr = _o.m_{ident};"
                 );
             }
             Type::SmallStruct(_) => {
                 assignments += &format!(
                     r"
-    *{ident}_ptr = o.m_{ident};"
+    *{ident}_ptr = _o.m_{ident};"
                 );
             }
         });
@@ -109,7 +109,7 @@ impl<'a> PackedPrimitives<'a> {
             if let Type::SmallStruct(s) = ty {
                 locals += &format!(
                     r#" \
-                {CONST} {} _i_{ident} = i->m_{ident};"#,
+                {CONST} {} _i_{ident} = _i->m_{ident};"#,
                     s.ident
                 );
             }
@@ -127,11 +127,11 @@ impl<'a> PackedPrimitives<'a> {
             };
             locals += &format!(
                 r#" \
-                {ty} _o_{ident} = o->m_{ident};"#
+                {ty} _o_{ident} = _o->m_{ident};"#
             );
             assignments += &format!(
                 r#" \
-                o->m_{ident} = _o_{ident};"#
+                _o->m_{ident} = _o_{ident};"#
             );
         }
         (locals, assignments)
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 2988e27..4068f82 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -155,7 +155,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.len() > 1
         {
             self.outputs
-                .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
+                .push((format!("_i->m_{}", ident), change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index 5e00404..cc33f53 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -179,25 +179,25 @@ pub fn emit_interface_invoke(interface: &Interface, is_no_typed_objects: bool) -
 #define __compiler_pragma_post
 #endif
 
-#define {ident}_DEFINE_INVOKE(func, prefix, type) \
-    int32_t func(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) \
+#define {ident}_DEFINE_INVOKE(_func, _prefix, _type) \
+    int32_t _func(ObjectCxt _h, ObjectOp _op, ObjectArg *_a, ObjectCounts _k) \
     {{ \
         __compiler_pragma_pre \
         {weak_declarations} \
         __compiler_pragma_post \
-        type me = (type) h; \
-        switch (ObjectOp_methodID(op)) {{ \
+        _type _me = (_type) _h; \
+        switch (ObjectOp_methodID(_op)) {{ \
             case Object_OP_release: {{ \
-                if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
+                if (_k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##release(me); \
+                return _prefix##release(_me); \
             }} \
             case Object_OP_retain: {{ \
-                if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
+                if (_k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##retain(me); \
+                return _prefix##retain(_me); \
             }} \
             {invokes} \
         }} \
diff --git a/idlc_codegen_c/src/interface/variable_names.rs b/idlc_codegen_c/src/interface/variable_names.rs
index 594985e..e7c4417 100644
--- a/idlc_codegen_c/src/interface/variable_names.rs
+++ b/idlc_codegen_c/src/interface/variable_names.rs
@@ -3,10 +3,10 @@
 
 pub mod invoke {
     pub const CONST: &str = "const";
-    pub const ARGS: &str = "a";
+    pub const ARGS: &str = "_a";
     pub const OBJECTBUF: &str = "ObjectBuf";
     pub const OBJECTBUFIN: &str = "ObjectBufIn";
     pub const OP: &str = "OP";
-    pub const BI: &str = "bi";
-    pub const BO: &str = "bo";
+    pub const BI: &str = "_bi";
+    pub const BO: &str = "_bo";
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index 016160a..9a68989 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -58,13 +58,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let idx = self.0.sections.input_buffer();
         let bi_embedded = packer.bi_embedded();
         self.0.initializations.push(format!(
-            r#"{definition} i;{0}{1}"#,
+            r#"{definition} _i;{0}{1}"#,
             bi_embedded,
             packer.bi_assignments(),
         ));
         self.0.args[idx] = format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{ &i, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{ &_i, {size} }} }},"#
         );
     }
 
@@ -75,10 +75,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         if ty.contains_interfaces() {
             self.0.initializations.push(format!(
                 r#"
-    {ty_ident} {ident}_cpy = {name};"#
+    {ty_ident} _cpy_{ident} = {name};"#
             ));
             self.0.args[idx] = format!(
-                r#"{{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},
+                r#"{{.bi = ({OBJECTBUFIN}) {{ &_cpy_{ident}, sizeof({ty_ident}) }} }},
         "#
             );
 
@@ -86,12 +86,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             for object in objects {
                 let path = idlc_codegen_c::interface::functions::signature::struct_path(&object.0);
                 self.0.pre_call.push(format!(
-                    r#"{ident}_cpy.{path} = Object_NULL;
+                    r#"_cpy_{ident}.{path} = Object_NULL;
     "#
                 ));
                 self.visit_input_object(
                     &idlc_mir::Ident {
-                        ident: format!("{ident}_cpy.{}", path),
+                        ident: format!("_cpy_{ident}.{}", path),
                         span: object.0.last().unwrap().0.span,
                     },
                     object.1,
@@ -172,11 +172,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
         self.0.initializations.push(format!(
             r#"
-    {definition} o = {{{initialization}}};"#
+    {definition} _o = {{{initialization}}};"#
         ));
         self.0.args[idx] = format!(
             r#"
-        {{.b = ({OBJECTBUF}) {{  &o, {size} }} }},"#
+        {{.b = ({OBJECTBUF}) {{  &_o, {size} }} }},"#
         );
         self.0.post_call.push(packer.post_bo_assignments());
     }
@@ -259,14 +259,14 @@ pub fn emit(
     if total > 0 {
         object_args = format!(
             r#"
-        ObjectArg a[] = {{{args}
+        ObjectArg {ARGS}[] = {{{args}
         }};"#
         );
     }
 
     let returns = if total > 0 {
         format!(
-            "invoke({OP}_{ident}, a, ObjectCounts_pack({0}, {1}, {2}, {3}));",
+            "invoke({OP}_{ident}, {ARGS}, ObjectCounts_pack({0}, {1}, {2}, {3}));",
             counts.input_buffers,
             counts.output_buffers,
             counts.input_objects,
@@ -281,10 +281,10 @@ pub fn emit(
 {documentation}
     virtual int32_t {ident}({params}) {{
 {0}{1}{2}
-        int32_t result = {returns}
-        if (Object_OK != result) {{ return result; }}
+        int32_t _result = {returns}
+        if (Object_OK != _result) {{ return _result; }}
 {post_call_assignments}
-        return result;
+        return _result;
     }}
 "#,
         if !initializations.is_empty() {
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index 454b908..0d13289 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -46,10 +46,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }
         self.0.pre.push(format!(
             r#" \
-                const union {ident} {{
-                    ~{ident}() {{}}
+                const union _u_{ident} {{
+                    ~_u_{ident}() {{}}
                     {ty} inner[{cnt}];
-                }} {ident} = {{.inner= {{ {obj_args} }}}};"#,
+                }} _p_{ident} = {{.inner= {{ {obj_args} }}}};"#,
         ));
     }
 
@@ -77,11 +77,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}({ARGS}[{idx}].o);"#
+                {ty} _p_{ident}({ARGS}[{idx}].o);"#
         ));
         self.0.post.push(format!(
             r#" \
-                p_{ident}.extract();"#
+                _p_{ident}.extract();"#
         ));
     }
 
@@ -109,16 +109,16 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             let idx = self.0.sections.output_object();
             obj_assign.push_str(&format!(
                 r#"
-                    {ARGS}[{idx}].o=p_{ident}[{i}].extract();"#
+                    {ARGS}[{idx}].o=_p_{ident}[{i}].extract();"#
             ));
         }
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}[{cnt}];"#
+                {ty} _p_{ident}[{cnt}];"#
         ));
         self.0.post.push(format!(
             r#" \
-                if (r == Object_OK) {{{obj_assign}
+                if (_r == Object_OK) {{{obj_assign}
                 }}"#,
         ));
     }
@@ -176,11 +176,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident};"#
+                {ty} _p_{ident};"#
         ));
         self.0.post.push(format!(
             r#" \
-                if (r == Object_OK) {{ {ARGS}[{idx}].o = p_{ident}.extract(); }}"#
+                if (_r == Object_OK) {{ {ARGS}[{idx}].o = _p_{ident}.extract(); }}"#
         ));
     }
 }
@@ -228,13 +228,13 @@ pub fn emit(
     format!(
         r#"
             case {OP}_{ident}: {{
-                if (k != ObjectCounts_pack{counts}{args}) {{
+                if (_k != ObjectCounts_pack{counts}{args}) {{
                     break;
                 }}
 {pre}
-                int32_t r = {ident}({return_idents});
+                int32_t _r = {ident}({return_idents});
 {post}
-                return r;
+                return _r;
             }}"#
     )
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/serialization.rs b/idlc_codegen_cpp/src/interface/functions/serialization.rs
index 1ee84af..a6519a0 100644
--- a/idlc_codegen_cpp/src/interface/functions/serialization.rs
+++ b/idlc_codegen_cpp/src/interface/functions/serialization.rs
@@ -40,19 +40,19 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    i.m_{ident} = {ident}_val;"#
+    _i.m_{ident} = {ident}_val;"#
                 );
             }
             Type::SmallStruct(s) => {
                 if s.contains_interfaces() {
                     assignments += &format!(
                         r#"
-    i.m_{ident} = {ident}_cpy;"#
+    _i.m_{ident} = _cpy_{ident};"#
                     );
                 } else {
                     assignments += &format!(
                         r#"
-    i.m_{ident} = {ident}_ref;"#
+    _i.m_{ident} = {ident}_ref;"#
                     );
                 }
             }
@@ -71,7 +71,7 @@ impl<'a> PackedPrimitives<'a> {
                     let ty = s.ident.to_string();
                     assignments += &format!(
                         r#"
-    {ty} {ident}_cpy = {ident}_ref;"#
+    {ty} _cpy_{ident} = {ident}_ref;"#
                     );
                 }
             }
@@ -94,13 +94,13 @@ impl<'a> PackedPrimitives<'a> {
             Type::Primitive(_) => {
                 assignments += &format!(
                     r#"
-    *{ident}_ptr = o.m_{ident};"#
+    *{ident}_ptr = _o.m_{ident};"#
                 );
             }
             Type::SmallStruct(_) => {
                 assignments += &format!(
                     r#"
-    {ident}_ref = o.m_{ident};"#
+    {ident}_ref = _o.m_{ident};"#
                 );
             }
         });
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 33e773c..5654a06 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -99,7 +99,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("{}.inner", ident), "size_t".to_string()));
+            .push((format!("_p_{}.inner", ident), "size_t".to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -107,7 +107,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
+                .push((format!("_i->m_{}", ident), change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
@@ -149,7 +149,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             format!("{CONST} {}", ty.unwrap_or("ProxyBase")),
         ));
         self.outputs
-            .push((format!("p_{}", ident), ty.unwrap_or("Object").to_string()));
+            .push((format!("_p_{}", ident), ty.unwrap_or("Object").to_string()));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
@@ -206,7 +206,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((name, ty));
         self.output_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("p_{}", ident), "size_t".to_string()));
+            .push((format!("_p_{}", ident), "size_t".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -248,6 +248,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("&{}", ident), ty.unwrap_or("ProxyBase").to_string()));
         self.outputs
-            .push((format!("p_{}", ident), ty.unwrap_or("Object").to_string()));
+            .push((format!("_p_{}", ident), ty.unwrap_or("Object").to_string()));
     }
 }
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index 419ffca..6e4431e 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -184,8 +184,8 @@ class {ident}ImplBase : protected ImplBase, public I{ident} {{
     virtual ~{ident}ImplBase() {{}}
 {weak_declarations}
   protected:
-    virtual int32_t invoke(ObjectOp op, ObjectArg* a, ObjectCounts k) {{
-        switch (ObjectOp_methodID(op)) {{
+    virtual int32_t invoke(ObjectOp _op, ObjectArg* _a, ObjectCounts _k) {{
+        switch (ObjectOp_methodID(_op)) {{
 {invokes}
             default: {{ return Object_ERROR_INVALID; }}
         }}
diff --git a/idlc_codegen_rust/src/globals.rs b/idlc_codegen_rust/src/globals.rs
index 65ee441..cab1bbf 100644
--- a/idlc_codegen_rust/src/globals.rs
+++ b/idlc_codegen_rust/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::change_primitive;
+use crate::{ident::EscapedIdent, types::change_primitive};
 
 pub fn emit_struct(r#struct: &StructInner) -> String {
     let mut inner = String::new();
@@ -11,7 +11,7 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
     let mut contains_interface = false;
 
     for field in &r#struct.fields {
-        let ident = &field.ident;
+        let ident = EscapedIdent::new(&field.ident);
         let count = field.val.1.get();
         let ty = match &field.val.0 {
             &idlc_mir::Type::Primitive(primitive) => change_primitive(primitive).to_string(),
@@ -48,7 +48,7 @@ pub struct {ident} {{
 }}
 "#,
         derives = derives[..derives.len() - contains_interface as usize].join(","),
-        ident = r#struct.ident,
+        ident = EscapedIdent::new(&r#struct.ident),
     )
 }
 
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index cc06fb1..ce1a29d 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -128,13 +128,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.initializations.push(format!(
             r#"
             {definition}
-            let mut bi = {BI_STRUCT}({idents});
+            let mut _bi = {BI_STRUCT}({idents});
             "#
         ));
         self.args[idx] = format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of!(bi).cast(),
+                    ptr: std::ptr::addr_of!(_bi).cast(),
                     size: {size},
                 }}
             }}
@@ -252,16 +252,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.initializations.push(format!(
             r#"
                 {definition}
-                let mut bo = std::mem::MaybeUninit::<{BO_STRUCT}>::uninit();
+                let mut _bo = std::mem::MaybeUninit::<{BO_STRUCT}>::uninit();
                 "#
         ));
         self.post_call.push(format!(
-            "let {BO_STRUCT}({idents}) = unsafe {{ bo.assume_init() }};"
+            "let {BO_STRUCT}({idents}) = unsafe {{ _bo.assume_init() }};"
         ));
         self.args[idx] = format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of_mut!(bo).cast(),
+                    ptr: std::ptr::addr_of_mut!(_bo).cast(),
                     size: {size},
                 }}
             }}"#
@@ -272,7 +272,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty: &str = &namespaced_struct(r#struct);
         let escaped_ident = EscapedIdent::new(ident);
         self.initializations.push(format!(
-            "let mut {ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
+            "let mut {escaped_ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
         ));
         let idx = self.sections.output_buffer();
         self.args[idx] = format!(
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 589ae0e..b01be9d 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -53,22 +53,24 @@ impl Invoke {
         }};"#));
     }
 
-    fn generate_for_output_buffer(&mut self, ident: EscapedIdent, ty: &str) {
+    fn generate_for_output_buffer(&mut self, ident: &Ident, ty: &str) {
+        let orig = format!("_orig_{ident}");
+        let ident = EscapedIdent::new(ident);
         let idx = self.sections.output_buffer();
         self.pre.push(format!(
-            r#"let {ident}_orig = {ARGS}[{idx}].b.size;
+            r#"let {orig} = {ARGS}[{idx}].b.size;
             let {ident}_lenout = &mut *std::ptr::addr_of_mut!({ARGS}[{idx}].b.size);"#
         ));
         self.pre.push(format!(
-        r#"let {ident} = if {ident}_orig == 0 {{
+        r#"let {ident} = if {orig} == 0 {{
             &mut []
         }} else {{
-            std::slice::from_raw_parts_mut({ARGS}[{idx}].b.ptr.cast::<{ty}>(), {ident}_orig / std::mem::size_of::<{ty}>())
+            std::slice::from_raw_parts_mut({ARGS}[{idx}].b.ptr.cast::<{ty}>(), {orig} / std::mem::size_of::<{ty}>())
         }};"#));
         self.post.push(format!(
             r#"
             *{ident}_lenout = {ident}_lenout.saturating_mul(std::mem::size_of::<{ty}>());
-            assert!(*{ident}_lenout <= {ident}_orig);
+            assert!(*{ident}_lenout <= {orig});
             "#
         ));
     }
@@ -175,11 +177,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        self.generate_for_output_buffer(EscapedIdent::new(ident), change_primitive(ty));
+        self.generate_for_output_buffer(ident, change_primitive(ty));
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
-        self.generate_for_output_buffer(EscapedIdent::new(ident), &namespaced_struct(ty));
+        self.generate_for_output_buffer(ident, &namespaced_struct(ty));
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, r#struct: &StructInner) {
@@ -320,7 +322,7 @@ pub fn emit(
 
         {pre}
 
-        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut cx| cx.r#{ident}({params})) {{
+        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut _cx| _cx.r#{ident}({params})) {{
             Ok(({returns})) => {{
                 {post}
                 {OK}
diff --git a/idlc_codegen_rust/src/interface/functions/serialization.rs b/idlc_codegen_rust/src/interface/functions/serialization.rs
index b2028fc..71833e0 100644
--- a/idlc_codegen_rust/src/interface/functions/serialization.rs
+++ b/idlc_codegen_rust/src/interface/functions/serialization.rs
@@ -7,6 +7,7 @@ use idlc_codegen::serialization::Type;
 
 use crate::{
     ident::EscapedIdent,
+    interface::variable_names::invoke::{BI_STRUCT, BO_STRUCT},
     types::{change_primitive, namespaced_struct},
 };
 
@@ -26,7 +27,7 @@ impl<'a> PackedPrimitives<'a> {
     }
 
     pub fn bi_definition(&self) -> Option<TransportBuffer> {
-        Self::generate_struct(self.0.input_types(), "BI", self.0.packed_input_size())
+        Self::generate_struct(self.0.input_types(), BI_STRUCT, self.0.packed_input_size())
     }
 
     pub fn bi_definition_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
@@ -58,7 +59,11 @@ impl<'a> PackedPrimitives<'a> {
     }
 
     pub fn bo_definition(&self) -> Option<TransportBuffer> {
-        Self::generate_struct(self.0.output_types(), "BO", self.0.packed_output_size())
+        Self::generate_struct(
+            self.0.output_types(),
+            BO_STRUCT,
+            self.0.packed_output_size(),
+        )
     }
 
     pub fn bo_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
diff --git a/idlc_codegen_rust/src/interface/functions/signature.rs b/idlc_codegen_rust/src/interface/functions/signature.rs
index 46bdef1..0593dbf 100644
--- a/idlc_codegen_rust/src/interface/functions/signature.rs
+++ b/idlc_codegen_rust/src/interface/functions/signature.rs
@@ -33,8 +33,8 @@ pub fn idents_to_struct_path(objects: &[idlc_mir::mir::PathSegment<'_>]) -> Stri
     objects
         .iter()
         .fold(String::new(), |acc, (ident, index)| match index {
-            Some(i) => format!("{acc}.{ident}[{i}]"),
-            None => format!("{acc}.{ident}"),
+            Some(i) => format!("{acc}.{}[{i}]", EscapedIdent::new(ident)),
+            None => format!("{acc}.{}", EscapedIdent::new(ident)),
         })
 }
 
diff --git a/idlc_codegen_rust/src/interface/mod.rs b/idlc_codegen_rust/src/interface/mod.rs
index ddfcd43..7a4bee8 100644
--- a/idlc_codegen_rust/src/interface/mod.rs
+++ b/idlc_codegen_rust/src/interface/mod.rs
@@ -128,7 +128,7 @@ pub fn emit(interface: &Interface) -> String {
     impl<T: I{ident} + 'static> From<T> for {ident} {{
         fn from(concrete: T) -> Self {{
             let cx = Box::new(unsafe {{ {wrapper}::new::<T>(Box::new(concrete)) }});
-            unsafe {{ Self({OBJECT}::create(MARKER, Box::into_raw(cx).cast())) }}
+            unsafe {{ Self({OBJECT}::create({MARKER}, Box::into_raw(cx).cast())) }}
         }}
     }}
 
@@ -136,13 +136,13 @@ pub fn emit(interface: &Interface) -> String {
     unsafe extern "C" fn invoke({h}: {CONTEXT}, {op}: {OP_ID}, {args}: *mut {ARG}, {counts}: {COUNTS}) -> i32 {{
         debug_assert_eq!({h}.align_offset(std::mem::align_of::<{wrapper}>()), 0);
         let {cx} = {h}.cast::<{wrapper}>();
-        match op {{
+        match {op} {{
             {invoke_arms}
             {OP_RELEASE} => {{
-                {WRAPPER}::release(cx)
+                {WRAPPER}::release({cx})
             }},
             {OP_RETAIN} => {{
-                {WRAPPER}::retain(cx)
+                {WRAPPER}::retain({cx})
             }},
             _ => {GENERIC_ERROR}::INVALID.into(),
         }}
diff --git a/idlc_codegen_rust/src/interface/variable_names.rs b/idlc_codegen_rust/src/interface/variable_names.rs
index 0994bb3..8402656 100644
--- a/idlc_codegen_rust/src/interface/variable_names.rs
+++ b/idlc_codegen_rust/src/interface/variable_names.rs
@@ -2,13 +2,13 @@
 // SPDX-License-Identifier: BSD-3-Clause
 
 pub(super) mod invoke {
-    pub const HANDLE: &str = "h";
-    pub const OP_ID: &str = "op";
-    pub const ARGS: &str = "args";
-    pub const COUNTS: &str = "counts";
-    pub const MARKER: &str = "MARKER";
-    pub const CONTEXT: &str = "cx";
+    pub const HANDLE: &str = "_h";
+    pub const OP_ID: &str = "_op";
+    pub const ARGS: &str = "_args";
+    pub const COUNTS: &str = "_counts";
+    pub const MARKER: &str = "_MARKER";
+    pub const CONTEXT: &str = "_cx";
 
-    pub const BI_STRUCT: &str = "BI";
-    pub const BO_STRUCT: &str = "BO";
+    pub const BI_STRUCT: &str = "_BI";
+    pub const BO_STRUCT: &str = "_BO";
 }
-- 
2.43.0


From 997cc4db2b79130c65dd5cd13728710162256f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 12/28] fix: derive a C++ interface from its direct base only

---
 idlc_codegen_cpp/src/interface/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index 6e4431e..45e951e 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -10,7 +10,6 @@ use idlc_codegen_c::types::{change_const_primitive, change_primitive};
 pub fn emit_interface_impl(interface: &Interface) -> String {
     let ident = interface.ident.to_string();
 
-    let mut base_iface = String::new();
     let mut constants = String::new();
     let mut errors = String::new();
     let mut op_codes = String::new();
@@ -19,7 +18,6 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
 
     // need to have all of the base-class functions, error-codes and const values
     interface.iter().skip(1).for_each(|iface| {
-        base_iface.push_str(&format!("I{} ", &iface.ident.to_string()));
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
@@ -108,9 +106,12 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
         }
     }
 
-    if !base_iface.is_empty() {
-        base_iface = format!(": public {base_iface}");
-    }
+    // The bases further up are inherited through the direct one.
+    let base_iface = interface
+        .base
+        .as_ref()
+        .map(|base| format!(": public I{} ", base.ident))
+        .unwrap_or_default();
 
     format!(
         r#"
-- 
2.43.0


From e8af90fc9905e7dd3eb2d62386261ac871fdf639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 13/28] fix: emit constants with their exact value and type in
 every backend

Floating-point constants didn't compile in C and C++ and lacked the
fraction in Rust; decimal literals with leading zeros became octal in C,
C++ and Java; the smallest values of signed types and hexadecimal negative
literals were read as unsigned; values beyond Java's signed types didn't
compile; hexadecimal literals of floating-point type were read as decimal.
---
 idlc_ast/src/ast.rs                    | 23 ++++++++--
 idlc_codegen/src/lib.rs                |  1 +
 idlc_codegen/src/literal.rs            | 63 ++++++++++++++++++++++++++
 idlc_codegen_c/src/globals.rs          |  7 ++-
 idlc_codegen_c/src/interface/mod.rs    | 12 ++---
 idlc_codegen_c/src/types.rs            | 26 +++++++++--
 idlc_codegen_cpp/src/generator.rs      |  9 ++--
 idlc_codegen_cpp/src/interface/mod.rs  | 12 ++---
 idlc_codegen_java/src/globals.rs       |  4 +-
 idlc_codegen_java/src/interface/mod.rs |  4 +-
 idlc_codegen_java/src/types.rs         | 18 ++++++++
 idlc_codegen_rust/src/globals.rs       |  9 +++-
 12 files changed, 152 insertions(+), 36 deletions(-)
 create mode 100644 idlc_codegen/src/literal.rs

diff --git a/idlc_ast/src/ast.rs b/idlc_ast/src/ast.rs
index f9f1ee8..a26da5a 100644
--- a/idlc_ast/src/ast.rs
+++ b/idlc_ast/src/ast.rs
@@ -261,7 +261,8 @@ impl Primitive {
         } else {
             10
         };
-        let value = &value.replace("0x", "");
+        let literal = value;
+        let value = &literal.replace("0x", "");
         match r#type {
             "uint8" => {
                 u8::from_str_radix(value, radix)?;
@@ -296,13 +297,21 @@ impl Primitive {
                 Ok(Self::Int64)
             }
             "float32" => {
-                if value.parse::<f32>()?.is_infinite() {
+                let value = match hex_to_float(literal) {
+                    Some(value) => value as f32,
+                    None => literal.parse::<f32>()?,
+                };
+                if value.is_infinite() {
                     return Err(Error::FloatIsInfinite);
                 }
                 Ok(Self::Float32)
             }
             "float64" => {
-                if value.parse::<f64>()?.is_infinite() {
+                let value = match hex_to_float(literal) {
+                    Some(value) => value,
+                    None => literal.parse::<f64>()?,
+                };
+                if value.is_infinite() {
                     return Err(Error::FloatIsInfinite);
                 }
                 Ok(Self::Float64)
@@ -312,6 +321,14 @@ impl Primitive {
     }
 }
 
+/// Value of a hexadecimal literal of floating-point type
+fn hex_to_float(literal: &str) -> Option<f64> {
+    let digits = literal.trim_start_matches('-').strip_prefix("0x")?;
+    digits.chars().try_fold(0.0, |value, digit| {
+        Some(value * 16.0 + f64::from(digit.to_digit(16)?))
+    })
+}
+
 impl TryFrom<&str> for Primitive {
     type Error = Error;
 
diff --git a/idlc_codegen/src/lib.rs b/idlc_codegen/src/lib.rs
index 43b40af..9b14936 100644
--- a/idlc_codegen/src/lib.rs
+++ b/idlc_codegen/src/lib.rs
@@ -4,6 +4,7 @@
 pub mod counts;
 pub mod documentation;
 pub mod functions;
+pub mod literal;
 pub mod marking;
 pub mod serialization;
 
diff --git a/idlc_codegen/src/literal.rs b/idlc_codegen/src/literal.rs
new file mode 100644
index 0000000..8962f54
--- /dev/null
+++ b/idlc_codegen/src/literal.rs
@@ -0,0 +1,63 @@
+// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
+// SPDX-License-Identifier: BSD-3-Clause
+
+//! Literals of constants in a form every target language reads the same way
+
+/// Splits a literal into its sign, whether it's hexadecimal, and its digits
+fn split(value: &str) -> (&'static str, bool, &str) {
+    let (sign, magnitude) = match value.strip_prefix('-') {
+        Some(magnitude) => ("-", magnitude),
+        None => ("", value),
+    };
+    match magnitude.strip_prefix("0x") {
+        Some(digits) => (sign, true, digits),
+        None => (sign, false, magnitude),
+    }
+}
+
+/// Value of an integer literal
+pub fn integer(value: &str) -> Option<i128> {
+    let (sign, is_hex, digits) = split(value);
+    i128::from_str_radix(&format!("{sign}{digits}"), if is_hex { 16 } else { 10 }).ok()
+}
+
+/// The literal without leading zeros, which mark an octal literal in the C family
+pub fn without_leading_zeros(value: &str) -> String {
+    let (sign, is_hex, digits) = split(value);
+    let zeros = digits.bytes().take_while(|&digit| digit == b'0').count();
+    let digits = match digits[zeros..].bytes().next() {
+        Some(digit) if digit.is_ascii_hexdigit() => &digits[zeros..],
+        _ => &digits[zeros - 1..],
+    };
+    format!("{sign}{}{digits}", if is_hex { "0x" } else { "" })
+}
+
+/// The literal in decimal notation with a fractional part, i.e. of a floating-point type in every
+/// language
+pub fn floating_point(value: &str) -> String {
+    let value = without_leading_zeros(value);
+    let (sign, is_hex, digits) = split(&value);
+    if digits.contains('.') {
+        return value;
+    }
+    if !is_hex {
+        return format!("{value}.0");
+    }
+
+    // Long multiplication, as there's no limit to the amount of digits.
+    let mut decimal = vec![0];
+    for digit in digits.chars().filter_map(|digit| digit.to_digit(16)) {
+        let mut carry = digit;
+        for place in &mut decimal {
+            carry += *place * 16;
+            *place = carry % 10;
+            carry /= 10;
+        }
+        while carry > 0 {
+            decimal.push(carry % 10);
+            carry /= 10;
+        }
+    }
+    let decimal: String = decimal.iter().rev().map(u32::to_string).collect();
+    format!("{sign}{decimal}.0")
+}
diff --git a/idlc_codegen_c/src/globals.rs b/idlc_codegen_c/src/globals.rs
index c73fbe9..f8cbddd 100644
--- a/idlc_codegen_c/src/globals.rs
+++ b/idlc_codegen_c/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::{change_const_primitive, change_primitive};
+use crate::types::{change_primitive, const_value};
 
 pub fn emit_include(include: &std::path::Path) -> String {
     let inc_name = include.display().to_string().replace(".idl", "");
@@ -35,8 +35,7 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
 
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_string();
-    let ty = change_const_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let value = const_value(r#const);
 
-    format!("#define {ident} {ty}({value})\n\n")
+    format!("#define {ident} {value}\n\n")
 }
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index cc33f53..7b89007 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -6,7 +6,7 @@ use idlc_mir::{Interface, InterfaceNode};
 pub mod functions;
 pub mod variable_names;
 
-use crate::types::change_const_primitive;
+use crate::types::const_value;
 
 pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) -> String {
     let ident = interface.ident.to_string();
@@ -21,11 +21,10 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
-                    "#define {}_{} {}({})\n",
+                    "#define {}_{} {}\n",
                     ident,
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
@@ -59,11 +58,10 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
         match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
-                    "#define {}_{} {}({})\n",
+                    "#define {}_{} {}\n",
                     ident,
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
diff --git a/idlc_codegen_c/src/types.rs b/idlc_codegen_c/src/types.rs
index 1c7c2de..53df5cf 100644
--- a/idlc_codegen_c/src/types.rs
+++ b/idlc_codegen_c/src/types.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-pub const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static str {
+const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static str {
     match primitive {
         idlc_mir::Primitive::Uint8 => "UINT8_C",
         idlc_mir::Primitive::Uint16 => "UINT16_C",
@@ -11,8 +11,28 @@ pub const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static
         idlc_mir::Primitive::Int16 => "INT16_C",
         idlc_mir::Primitive::Int32 => "INT32_C",
         idlc_mir::Primitive::Int64 => "INT64_C",
-        idlc_mir::Primitive::Float32 => "FLOAT",
-        idlc_mir::Primitive::Float64 => "DOUBLE",
+        idlc_mir::Primitive::Float32 | idlc_mir::Primitive::Float64 => "",
+    }
+}
+
+/// The value of a constant as an expression of its declared type
+pub fn const_value(r#const: &idlc_mir::Const) -> String {
+    use idlc_codegen::literal;
+    use idlc_mir::Primitive;
+
+    let ty = change_const_primitive(r#const.r#type);
+    let value = &r#const.value;
+    match r#const.r#type {
+        Primitive::Float32 => format!("({}f)", literal::floating_point(value)),
+        Primitive::Float64 => format!("({})", literal::floating_point(value)),
+        // The magnitude of the smallest value doesn't fit into the type.
+        Primitive::Int32 if literal::integer(value) == Some(i32::MIN.into()) => {
+            format!("(-{ty}({}) - 1)", i32::MAX)
+        }
+        Primitive::Int64 if literal::integer(value) == Some(i64::MIN.into()) => {
+            format!("(-{ty}({}) - 1)", i64::MAX)
+        }
+        _ => format!("{ty}({})", literal::without_leading_zeros(value)),
     }
 }
 
diff --git a/idlc_codegen_cpp/src/generator.rs b/idlc_codegen_cpp/src/generator.rs
index db09835..e457a6f 100644
--- a/idlc_codegen_cpp/src/generator.rs
+++ b/idlc_codegen_cpp/src/generator.rs
@@ -2,7 +2,7 @@
 // SPDX-License-Identifier: BSD-3-Clause
 
 use idlc_codegen_c::globals::emit_struct;
-use idlc_codegen_c::types::{change_const_primitive, change_primitive};
+use idlc_codegen_c::types::{change_primitive, const_value};
 use idlc_mir::Node;
 
 use crate::interface::{emit_interface_impl, emit_interface_invoke};
@@ -24,12 +24,9 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
                 Node::Const(c) => {
                     let ident = c.ident.to_string();
                     let cnt_ty = change_primitive(c.r#type);
-                    let ty = change_const_primitive(c.r#type);
-                    let value = &c.value;
+                    let value = const_value(c);
 
-                    result.push_str(&format!(
-                        "static const {cnt_ty} {ident} = {ty}({value});\n\n"
-                    ));
+                    result.push_str(&format!("static const {cnt_ty} {ident} = {value};\n\n"));
                 }
                 Node::Struct(s) => {
                     result.push_str(&emit_struct(s.as_ref()));
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index 45e951e..9c27e45 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -5,7 +5,7 @@ use idlc_mir::{Interface, InterfaceNode};
 
 mod functions;
 
-use idlc_codegen_c::types::{change_const_primitive, change_primitive};
+use idlc_codegen_c::types::{change_primitive, const_value};
 
 pub fn emit_interface_impl(interface: &Interface) -> String {
     let ident = interface.ident.to_string();
@@ -22,11 +22,10 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
                     r#"
-    static const {} {} = {}({});"#,
+    static constexpr {} {} = {};"#,
                     change_primitive(c.r#type),
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
@@ -59,11 +58,10 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
                     r#"
-    static const {} {} = {}({});"#,
+    static constexpr {} {} = {};"#,
                     change_primitive(c.r#type),
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
diff --git a/idlc_codegen_java/src/globals.rs b/idlc_codegen_java/src/globals.rs
index f6aec73..3980b4f 100644
--- a/idlc_codegen_java/src/globals.rs
+++ b/idlc_codegen_java/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::change_primitive;
+use crate::types::{change_primitive, const_value};
 
 pub fn emit_struct(r#struct: &StructInner) -> String {
     let mut contents = String::new();
@@ -45,7 +45,7 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_string(); // Const ident should be uppercase, but leave it for now for backward compatibility.
     let ty = change_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let value = const_value(r#const);
 
     format!(
         r#"{ty} {ident} = {value};
diff --git a/idlc_codegen_java/src/interface/mod.rs b/idlc_codegen_java/src/interface/mod.rs
index ea30fcd..1466a90 100644
--- a/idlc_codegen_java/src/interface/mod.rs
+++ b/idlc_codegen_java/src/interface/mod.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use crate::types::change_primitive;
+use crate::types::{change_primitive, const_value};
 
 use idlc_mir::{Interface, InterfaceNode};
 
@@ -24,7 +24,7 @@ pub fn emit_interface(interface: &Interface, input_name: &str) -> String {
             InterfaceNode::Const(r#const) => {
                 let const_ident = r#const.ident.to_uppercase();
                 let ty = change_primitive(r#const.r#type);
-                let value = &r#const.value;
+                let value = const_value(r#const);
                 constants.push_str(&format!(
                     r#"{ty} {ident}_{const_ident} = {value};
     "#
diff --git a/idlc_codegen_java/src/types.rs b/idlc_codegen_java/src/types.rs
index a7bcf58..6d2773e 100644
--- a/idlc_codegen_java/src/types.rs
+++ b/idlc_codegen_java/src/types.rs
@@ -15,6 +15,24 @@ pub const fn change_primitive(primitive: idlc_mir::Primitive) -> &'static str {
     }
 }
 
+/// The value of a constant as an expression of its type. Types of the IDL that Java lacks are carried
+/// by the type of the same width.
+pub fn const_value(r#const: &idlc_mir::Const) -> String {
+    use idlc_codegen::literal;
+    use idlc_mir::Primitive;
+
+    let value = &r#const.value;
+    match (r#const.r#type, literal::integer(value)) {
+        (Primitive::Float32, _) => format!("{}f", literal::floating_point(value)),
+        (Primitive::Float64, _) => literal::floating_point(value),
+        (_, None) => value.clone(),
+        (Primitive::Uint8 | Primitive::Int8, Some(value)) => (value as i8).to_string(),
+        (Primitive::Uint16 | Primitive::Int16, Some(value)) => (value as u16).to_string(),
+        (Primitive::Uint32 | Primitive::Int32, Some(value)) => (value as i32).to_string(),
+        (Primitive::Uint64 | Primitive::Int64, Some(value)) => format!("{}L", value as i64),
+    }
+}
+
 pub fn capitalize_first_letter(s: &str) -> String {
     if s == "byte" {
         return "".to_string();
diff --git a/idlc_codegen_rust/src/globals.rs b/idlc_codegen_rust/src/globals.rs
index cab1bbf..eb27524 100644
--- a/idlc_codegen_rust/src/globals.rs
+++ b/idlc_codegen_rust/src/globals.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use idlc_mir::{Const, StructInner};
+use idlc_mir::{Const, Primitive, StructInner};
 
 use crate::{ident::EscapedIdent, types::change_primitive};
 
@@ -55,7 +55,12 @@ pub struct {ident} {{
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_uppercase();
     let ty = change_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let value = match r#const.r#type {
+        Primitive::Float32 | Primitive::Float64 => {
+            idlc_codegen::literal::floating_point(&r#const.value)
+        }
+        _ => r#const.value.clone(),
+    };
 
     format!("pub const {ident}: {ty} = {value};\n")
 }
-- 
2.43.0


From c34afc72b14bf6ad7f72e4d4c30a1d4dd81fc146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 14/28] fix: define what C and C++ declarations use before its
 use

---
 idlc_codegen/src/lib.rs           |  1 +
 idlc_codegen/src/order.rs         | 82 +++++++++++++++++++++++++++++++
 idlc_codegen_c/src/generator.rs   | 24 +++++++--
 idlc_codegen_cpp/src/generator.rs |  8 +--
 4 files changed, 107 insertions(+), 8 deletions(-)
 create mode 100644 idlc_codegen/src/order.rs

diff --git a/idlc_codegen/src/lib.rs b/idlc_codegen/src/lib.rs
index 9b14936..c4ad2b9 100644
--- a/idlc_codegen/src/lib.rs
+++ b/idlc_codegen/src/lib.rs
@@ -6,6 +6,7 @@ pub mod documentation;
 pub mod functions;
 pub mod literal;
 pub mod marking;
+pub mod order;
 pub mod serialization;
 
 // TODO: Remove this when we indeed start banning idents matching reserved keywords
diff --git a/idlc_codegen/src/order.rs b/idlc_codegen/src/order.rs
new file mode 100644
index 0000000..2617562
--- /dev/null
+++ b/idlc_codegen/src/order.rs
@@ -0,0 +1,82 @@
+// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
+// SPDX-License-Identifier: BSD-3-Clause
+
+//! Order of definitions for languages that need a definition before its first use
+
+use idlc_mir::{Node, Type};
+
+/// Nodes of a file such that, as far as there's such an order, every definition follows the ones it
+/// makes use of. Other than that nodes stay in the order of the file.
+pub fn definition_order(nodes: &[std::rc::Rc<Node>]) -> Vec<&Node> {
+    let (includes, definitions): (Vec<_>, Vec<_>) = nodes
+        .iter()
+        .map(AsRef::as_ref)
+        .partition(|node| matches!(node, Node::Include(_)));
+
+    let mut ordered = includes;
+    let mut is_visited = vec![false; definitions.len()];
+    for i in 0..definitions.len() {
+        visit(i, &definitions, &mut is_visited, &mut ordered);
+    }
+
+    ordered
+}
+
+fn visit<'a>(
+    i: usize,
+    definitions: &[&'a Node],
+    is_visited: &mut [bool],
+    ordered: &mut Vec<&'a Node>,
+) {
+    if std::mem::replace(&mut is_visited[i], true) {
+        return;
+    }
+    for used in used_idents(definitions[i]) {
+        if let Some(j) = definitions.iter().position(|node| ident(node) == Some(used)) {
+            visit(j, definitions, is_visited, ordered);
+        }
+    }
+    ordered.push(definitions[i]);
+}
+
+fn ident(node: &Node) -> Option<&str> {
+    match node {
+        Node::Struct(s) => Some(s.as_ref().ident.as_ref()),
+        Node::Interface(i) => Some(i.ident.as_ref()),
+        Node::Include(_) | Node::Const(_) => None,
+    }
+}
+
+fn used_idents(node: &Node) -> Vec<&str> {
+    match node {
+        Node::Include(_) | Node::Const(_) => vec![],
+        Node::Struct(s) => s
+            .as_ref()
+            .fields
+            .iter()
+            .filter_map(|field| match &field.val.0 {
+                Type::Struct(s) => Some(s.as_ref().ident.as_ref()),
+                _ => None,
+            })
+            .collect(),
+        Node::Interface(i) => i
+            .iter()
+            .skip(1)
+            .map(|base| base.ident.as_ref())
+            .chain(
+                i.iter()
+                    .flat_map(|iface| &iface.nodes)
+                    .filter_map(|node| match node {
+                        idlc_mir::InterfaceNode::Function(f) => Some(&f.params),
+                        _ => None,
+                    })
+                    .flatten()
+                    .filter_map(|param| match param.r#type() {
+                        Type::Struct(s) => Some(s.as_ref().ident.as_ref()),
+                        Type::Interface(Some(ident)) => Some(ident.as_ref()),
+                        _ => None,
+                    }),
+            )
+            .collect(),
+    }
+}
diff --git a/idlc_codegen_c/src/generator.rs b/idlc_codegen_c/src/generator.rs
index b34dbbb..d2163c6 100644
--- a/idlc_codegen_c/src/generator.rs
+++ b/idlc_codegen_c/src/generator.rs
@@ -27,8 +27,14 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
         let mut result = String::new();
         result.push_str(&generate_common());
 
-        for node in &mir.nodes {
-            match node.as_ref() {
+        let mut is_declared = self.is_no_typed_objects;
+        for node in idlc_codegen::order::definition_order(&mir.nodes) {
+            // Interfaces may refer to each other
+            if !is_declared && !matches!(node, Node::Include(_)) {
+                result.push_str(&emit_interface_types(mir));
+                is_declared = true;
+            }
+            match node {
                 Node::Include(i) => {
                     result.push_str(&emit_include(i));
                 }
@@ -53,8 +59,8 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
         let input_name = &mir.tag.file_stem().unwrap().to_str().unwrap();
         result.push_str(&format!("#include \"{}.h\"\n", input_name));
 
-        for node in &mir.nodes {
-            match node.as_ref() {
+        for node in idlc_codegen::order::definition_order(&mir.nodes) {
+            match node {
                 Node::Include(i) => {
                     result.push_str(&emit_include(i));
                 }
@@ -69,6 +75,16 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
     }
 }
 
+fn emit_interface_types(mir: &idlc_mir::Mir) -> String {
+    mir.nodes
+        .iter()
+        .filter_map(|node| match node.as_ref() {
+            Node::Interface(i) => Some(format!("typedef Object {};\n", i.ident)),
+            _ => None,
+        })
+        .collect()
+}
+
 fn generate_common() -> String {
     format!(
         r#"// {MINKIDL_HEADER_COMMENT}
diff --git a/idlc_codegen_cpp/src/generator.rs b/idlc_codegen_cpp/src/generator.rs
index e457a6f..c45451c 100644
--- a/idlc_codegen_cpp/src/generator.rs
+++ b/idlc_codegen_cpp/src/generator.rs
@@ -15,8 +15,8 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
         let mut result = String::new();
         result.push_str(&generate_common());
 
-        for node in &mir.nodes {
-            match node.as_ref() {
+        for node in idlc_codegen::order::definition_order(&mir.nodes) {
+            match node {
                 Node::Include(i) => {
                     let inc_name = i.display().to_string().replace(".idl", "");
                     result.push_str(&format!("#include \"{}.hpp\"\n", inc_name));
@@ -50,8 +50,8 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
 "#
         ));
 
-        for node in &mir.nodes {
-            match node.as_ref() {
+        for node in idlc_codegen::order::definition_order(&mir.nodes) {
+            match node {
                 Node::Include(i) => {
                     let inc_name = i.display().to_string().replace(".idl", "");
                     result.push_str(&format!("#include \"{}.hpp\"\n", inc_name));
-- 
2.43.0


From 694813189243c6f292816ec99f5cfe422371a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 15/28] fix: keep const of object arrays without typed objects
 in C

---
 idlc_codegen_c/src/interface/functions/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 4068f82..223283f 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -137,7 +137,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(*{}_ptr)[{cnt}]", ident);
         let ty = if self.is_no_typed_objects {
-            "Object".to_string()
+            format!("{CONST} Object")
         } else {
             format!("{CONST} {}", ty.unwrap_or("Object"))
         };
-- 
2.43.0


From 7f83cac1697d28950639f01e005e34475581db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:25 +0000
Subject: [PATCH 16/28] fix: accept comments between any two tokens

---
 idlc_ast/src/pst.rs | 65 ++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index dc7d305..855e742 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -54,6 +54,19 @@ macro_rules! ast_unwrap {
     }};
 }
 
+/// Inner pairs of a rule but for comments, which may occur in between any of them.
+fn inner_tokens(pair: Pair<'_, Rule>) -> impl Iterator<Item = Pair<'_, Rule>> {
+    pair.into_inner()
+        .filter(|inner| inner.as_rule() != Rule::COMMENT)
+}
+
+fn parse_array_size(bounded_array: Pair<'_, Rule>) -> Count {
+    let size = ast_unwrap!(inner_tokens(bounded_array).next());
+    size.as_str().parse().unwrap_or_else(|e| {
+        idlc_errors::unrecoverable!("'{}' isn't a valid array size [{e}]", size.as_str())
+    })
+}
+
 impl From<pest::Span<'_>> for Span {
     fn from(value: pest::Span) -> Self {
         Self {
@@ -84,11 +97,11 @@ impl InterfaceNode {
         match pair.as_rule() {
             Rule::error => Self::Error(Ident {
                 span: pair.as_span().into(),
-                ident: pair.into_inner().nth(1).unwrap().as_str().to_string(),
+                ident: ast_unwrap!(inner_tokens(pair).nth(1)).as_str().to_string(),
             }),
             Rule::r#const => Self::Const(parse_const(pair, allow_undefined_behavior)),
             Rule::function => {
-                let mut inner = pair.into_inner();
+                let mut inner = inner_tokens(pair);
                 let mut attributes = Vec::new();
                 let function_keyword = ast_unwrap!(inner.next());
                 for attribute in function_keyword.into_inner() {
@@ -107,9 +120,7 @@ impl InterfaceNode {
                 let ident = ast_unwrap!(inner.next()).into();
                 let mut params = Vec::new();
                 for param in inner {
-                    if param.as_rule() == Rule::param {
-                        params.push(Param::from(param));
-                    }
+                    params.push(Param::from(param));
                 }
                 Self::Function(Function {
                     doc,
@@ -139,7 +150,7 @@ impl<'a> From<Pair<'a, Rule>> for FunctionAttribute {
 
 impl<'a> From<Pair<'a, Rule>> for Param {
     fn from(value: Pair<'a, Rule>) -> Self {
-        let mut params = value.into_inner();
+        let mut params = inner_tokens(value);
         let mutability = ast_unwrap!(params.next()).as_str();
         let r#type = ast_unwrap!(params.next());
         let ident = ast_unwrap!(params.next()).into();
@@ -178,7 +189,7 @@ impl From<Pair<'_, Rule>> for Type {
 impl From<Pair<'_, Rule>> for ParamTypeIn {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
+        let mut inner = inner_tokens(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
@@ -189,10 +200,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
-                Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
-                    Self::Array(r#type, Some(array_len))
-                }
+                Rule::bounded_array => Self::Array(r#type, Some(parse_array_size(pair))),
                 _ => unreachable!(),
             }
         } else {
@@ -203,7 +211,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
 impl From<Pair<'_, Rule>> for ParamTypeOut {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
+        let mut inner = inner_tokens(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
@@ -214,10 +222,7 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
-                Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
-                    Self::Array(r#type, Some(array_len))
-                }
+                Rule::bounded_array => Self::Array(r#type, Some(parse_array_size(pair))),
                 _ => unreachable!(),
             }
         } else {
@@ -248,24 +253,23 @@ impl<'a> TryFrom<Pair<'a, Rule>> for Documentation {
 }
 
 fn parse_include(pair: Pair<Rule>) -> Rc<Node> {
-    let path = ast_unwrap!(pair.into_inner().next());
+    let path = ast_unwrap!(inner_tokens(pair).next());
     Rc::new(Node::Include(PathBuf::from(path.as_str())))
 }
 
 fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
-    let mut struct_pst = pair.into_inner().skip(1);
+    let mut struct_pst = inner_tokens(pair).skip(1);
     let ident: Ident = ast_unwrap!(struct_pst.next()).into();
     let mut fields = Vec::<StructField>::new();
     for rule in struct_pst {
         match rule.as_rule() {
             Rule::struct_field => {
-                let mut iter = rule.into_inner();
+                let mut iter = inner_tokens(rule);
                 let r#type = Type::from(ast_unwrap!(iter.next()));
                 let next = ast_unwrap!(iter.next());
                 let (elem, ident) = match next.as_rule() {
                     Rule::bounded_array => {
-                        let array_len: Count =
-                            ast_unwrap!(next.clone().into_inner().as_str().parse());
+                        let array_len = parse_array_size(next.clone());
                         let ident = ast_unwrap!(iter.next()).as_str().to_string();
                         (array_len, ident)
                     }
@@ -284,9 +288,6 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
                     val: (r#type, elem),
                 });
             }
-            Rule::COMMENT => {
-                // Currently unsupported for structs due to varying styles
-            }
             r => unreachable!("Unknown rule `{r:?}`"),
         }
     }
@@ -294,7 +295,7 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
 }
 
 fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
-    let mut inner = pair.into_inner().skip(1);
+    let mut inner = inner_tokens(pair).skip(1);
 
     let ty = ast_unwrap!(inner.next()).as_str();
     let ident = ast_unwrap!(inner.next()).into();
@@ -317,15 +318,13 @@ fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
 fn parse_interface(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Rc<Node> {
     let span = Span::from(pair.as_span());
     let mut interface = pair.into_inner().skip(1);
-    let mut pairs = ast_unwrap!(interface.next()).into_inner();
+    let iname = ast_unwrap!(interface.find(|inner| inner.as_rule() != Rule::COMMENT));
+    let mut pairs = inner_tokens(iname);
     let ident = ast_unwrap!(pairs.next()).as_str().to_string();
-    let base = pairs
-        .next()
-        .filter(|base| base.as_rule() == Rule::ident)
-        .map(|base| Ident {
-            span: base.as_span().into(),
-            ident: base.as_str().to_string(),
-        });
+    let base = pairs.next().map(|base| Ident {
+        span: base.as_span().into(),
+        ident: base.as_str().to_string(),
+    });
 
     let mut iface_nodes = Vec::new();
     let mut comment: Option<Documentation> = None;
-- 
2.43.0


From e5ebc5884686fa78f6b703a38198cf90ceee09ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 17/28] fix: keep documentation followed by an ordinary comment

---
 idlc_ast/src/pst.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index 855e742..77d556a 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -336,7 +336,8 @@ fn parse_interface(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Rc<Node>
                 iface_nodes.push(node);
             }
             Rule::COMMENT => {
-                comment = Documentation::try_from(rule).ok();
+                // Ordinary comments don't detach documentation from its method
+                comment = Documentation::try_from(rule).ok().or(comment);
             }
             _ => unreachable!(),
         }
-- 
2.43.0


From 27a73a71f1186ca433cc561e880a7e5887c32aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 18/28] fix: refuse arrays of buffers

---
 idlc_ast/src/pst.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index 77d556a..9a7b66e 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -191,12 +191,6 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
         let mut inner = inner_tokens(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
-        if let Type::Custom(r#type) = &r#type {
-            if r#type == "buffer" {
-                return Self::Value(Type::UntypedBuffer);
-            }
-        }
-
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
@@ -204,7 +198,10 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
                 _ => unreachable!(),
             }
         } else {
-            Self::Value(r#type)
+            match r#type {
+                Type::Custom(ident) if &ident == "buffer" => Self::Value(Type::UntypedBuffer),
+                r#type => Self::Value(r#type),
+            }
         }
     }
 }
@@ -213,12 +210,6 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
         let mut inner = inner_tokens(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
-        if let Type::Custom(r#type) = &r#type {
-            if r#type == "buffer" {
-                return Self::Reference(Type::UntypedBuffer);
-            }
-        }
-
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
@@ -226,7 +217,10 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
                 _ => unreachable!(),
             }
         } else {
-            Self::Reference(r#type)
+            match r#type {
+                Type::Custom(ident) if &ident == "buffer" => Self::Reference(Type::UntypedBuffer),
+                r#type => Self::Reference(r#type),
+            }
         }
     }
 }
-- 
2.43.0


From 93337f4fe83798170c067415f76c6da6e66e8d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 19/28] fix: refuse object array pairs, oversized structs and
 equal names across kinds

---
 idlc_ast_passes/src/struct_verifier.rs    | 11 +++++++++--
 idlc_mir_passes/src/interface_verifier.rs | 12 ++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/idlc_ast_passes/src/struct_verifier.rs b/idlc_ast_passes/src/struct_verifier.rs
index 8e13ec7..77eeaae 100644
--- a/idlc_ast_passes/src/struct_verifier.rs
+++ b/idlc_ast_passes/src/struct_verifier.rs
@@ -36,6 +36,8 @@ pub enum Error {
         alignment: usize,
         size: usize,
     },
+    #[error("struct `{parent}` is too large")]
+    StructTooLarge { parent: String },
     #[error("struct `{parent}` contains duplicate field names: `{names:?}`")]
     StructFieldSameName { parent: Ident, names: Vec<Ident> },
 }
@@ -45,7 +47,7 @@ impl StructVerifier {
         let mut store: HashMap<String, (Size, Alignment)> = HashMap::new();
         for r#struct in toposort {
             let (node, _) = idl_store.struct_lookup(r#struct).unwrap();
-            let mut size = 0;
+            let mut size: usize = 0;
             let mut alignment = 0;
             let mut fields: HashSet<&Ident> = HashSet::new();
 
@@ -78,7 +80,12 @@ impl StructVerifier {
                     });
                 }
 
-                size += i_size * count;
+                size = i_size
+                    .checked_mul(count)
+                    .and_then(|i_size| size.checked_add(i_size))
+                    .ok_or_else(|| Error::StructTooLarge {
+                        parent: r#struct.to_string(),
+                    })?;
                 alignment = alignment.max(i_alignment);
             }
 
diff --git a/idlc_mir_passes/src/interface_verifier.rs b/idlc_mir_passes/src/interface_verifier.rs
index ee00164..7bd07d4 100644
--- a/idlc_mir_passes/src/interface_verifier.rs
+++ b/idlc_mir_passes/src/interface_verifier.rs
@@ -68,6 +68,12 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                                     );
                                                 }
 
+                                                if args_array_in {
+                                                    idlc_errors::unrecoverable!(
+                                                        "Interface `{}`, method `{}` has more than one object array in a direction",
+                                                        src.ident, f.ident,
+                                                    );
+                                                }
                                                 args_array_in = true;
                                             };
                                             if let Type::Struct(_) | Type::Primitive(_) = t {
@@ -113,6 +119,12 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                                         iface_name, f.ident
                                                     );
                                                 }
+                                                if args_array_out {
+                                                    idlc_errors::unrecoverable!(
+                                                        "Interface `{}`, method `{}` has more than one object array in a direction",
+                                                        src.ident, f.ident,
+                                                    );
+                                                }
                                                 args_array_out = true;
                                             };
                                             if let Type::Struct(_) | Type::Primitive(_) = t {
-- 
2.43.0


From 802a9d41335b550fafb2b5bfe6bcd7523ebb8d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 20/28] fix: verify included files as well, and names across
 kinds of declarations

---
 idlc/src/lib.rs                  | 23 ++++++++++-------
 idlc/src/main.rs                 | 42 ++++++++++++++++++--------------
 idlc_ast_passes/src/idl_store.rs | 17 +++++++++++++
 3 files changed, 55 insertions(+), 27 deletions(-)

diff --git a/idlc/src/lib.rs b/idlc/src/lib.rs
index f93be63..31557ca 100644
--- a/idlc/src/lib.rs
+++ b/idlc/src/lib.rs
@@ -24,19 +24,24 @@ impl Language {
         trace!("Running `IncludeChecker` pass");
         idl_store.run_pass(&ast)?;
 
-        trace!("Running `FunctionDuplicateParam` pass");
-        functions::Functions::new().run_pass(&ast)?;
+        for ast in idl_store.asts() {
+            trace!("Running `FunctionDuplicateParam` pass");
+            functions::Functions::new().run_pass(&ast)?;
 
-        trace!("Running `CycleChecking` pass");
-        let struct_ordering = cycles::Cycles::new(&idl_store).run_pass(&ast)?;
+            trace!("Running `CycleChecking` pass");
+            let struct_ordering = cycles::Cycles::new(&idl_store).run_pass(&ast)?;
 
-        trace!("Running `StructVerifier` pass");
-        struct_verifier::StructVerifier::run_pass(&idl_store, &struct_ordering)?;
-
-        let mir = mir::parse_to_mir(&ast, &mut idl_store);
+            trace!("Running `StructVerifier` pass");
+            struct_verifier::StructVerifier::run_pass(&idl_store, &struct_ordering)?;
+        }
 
         trace!("Verifying interfaces");
-        interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+        for ast in idl_store.asts() {
+            let mir = mir::parse_to_mir(&ast, &mut idl_store);
+            interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+        }
+
+        let mir = mir::parse_to_mir(&ast, &mut idl_store);
 
         match self {
             Self::Rust => Ok(idlc_codegen_rust::Generator::generate(&mir)),
diff --git a/idlc/src/main.rs b/idlc/src/main.rs
index 8b4bc25..0422e40 100644
--- a/idlc/src/main.rs
+++ b/idlc/src/main.rs
@@ -132,23 +132,26 @@ fn main() {
 
     timer::time!(check(idl_store.run_pass(&ast)), "`IncludeChecker` pass");
 
-    timer::time!(
-        check(idlc_ast_passes::functions::Functions::new().run_pass(&ast)),
-        "`FunctionDuplicateParam` pass"
-    );
-
-    let struct_ordering = timer::time!(
-        check(cycles::Cycles::new(&idl_store).run_pass(&ast)),
-        "`CycleCheck` pass"
-    );
-
-    timer::time!(
-        check(struct_verifier::StructVerifier::run_pass(
-            &idl_store,
-            &struct_ordering,
-        )),
-        "`StructVerifier` pass"
-    );
+    // What a file includes has to be valid as well.
+    for ast in idl_store.asts() {
+        timer::time!(
+            check(idlc_ast_passes::functions::Functions::new().run_pass(&ast)),
+            "`FunctionDuplicateParam` pass"
+        );
+
+        let struct_ordering = timer::time!(
+            check(cycles::Cycles::new(&idl_store).run_pass(&ast)),
+            "`CycleCheck` pass"
+        );
+
+        timer::time!(
+            check(struct_verifier::StructVerifier::run_pass(
+                &idl_store,
+                &struct_ordering,
+            )),
+            "`StructVerifier` pass"
+        );
+    }
 
     let mir = timer::time!(mir::parse_to_mir(&ast, &mut idl_store), "Mir");
     if dump == Some(Dumpable::Mir) {
@@ -157,7 +160,10 @@ fn main() {
     }
 
     trace!("Verifying interfaces");
-    interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+    for ast in idl_store.asts() {
+        let mir = mir::parse_to_mir(&ast, &mut idl_store);
+        interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+    }
 
     let marking_cnt = if args.marking.is_some() {
         std::fs::read_to_string(args.marking.unwrap()).expect("Failed to read marking file")
diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index ee7bb5f..1892495 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -155,6 +155,14 @@ impl IDLStore {
     fn gather_symbols_from_ast(ast: &Ast, map: &mut HashMap<Symbol, (Rc<Node>, PathBuf)>) {
         let tag = &ast.tag;
         for node in &ast.nodes {
+            if let Some(ident) = node.ident() {
+                let name = ident.to_string();
+                assert!(
+                    !map.contains_key(&Symbol::Struct(name.clone()))
+                        && !map.contains_key(&Symbol::Const(name)),
+                    "Duplicate symbol detected!"
+                );
+            }
             assert_eq!(
                 match node.as_ref() {
                     Node::Struct(s) => map.insert(
@@ -208,6 +216,15 @@ impl IDLStore {
         Rc::clone(self.ast_store.borrow().get(&include_path).unwrap())
     }
 
+    /// returns every AST of the store, ordered by path
+    #[must_use]
+    pub fn asts(&self) -> Vec<Rc<Ast>> {
+        let mut asts: Vec<_> = self.ast_store.borrow().values().cloned().collect();
+        asts.sort_by(|a, b| a.tag.cmp(&b.tag));
+
+        asts
+    }
+
     ///  inserts canonicalized path into the AST store along with its AST
     pub fn insert_canonical(&self, canonical: &Path, ast: &Ast) {
         Self::gather_symbols_from_ast(ast, &mut self.symbols.borrow_mut());
-- 
2.43.0


From 654bed87fe3a4d9954fdc6275ee7822cad5da88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 21/28] fix: look at each include, struct and interface only
 once

---
 idlc_ast_passes/src/cycles.rs    | 10 +++++++---
 idlc_ast_passes/src/graph.rs     | 14 +++++++-------
 idlc_ast_passes/src/idl_store.rs | 28 +++++++++++-----------------
 3 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/idlc_ast_passes/src/cycles.rs b/idlc_ast_passes/src/cycles.rs
index 6a54bc7..a2fa5fc 100644
--- a/idlc_ast_passes/src/cycles.rs
+++ b/idlc_ast_passes/src/cycles.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use std::rc::Rc;
+use std::{collections::HashSet, rc::Rc};
 
 use idlc_ast::{
     ast::Type,
@@ -13,6 +13,8 @@ use crate::{graph::Graph, idl_store::IDLStore, CompilerPass};
 pub struct Cycles<'ast> {
     struct_graph: Graph<String>,
     iface_graph: Graph<String>,
+    visited_structs: HashSet<String>,
+    visited_ifaces: HashSet<String>,
     idl_store: &'ast IDLStore,
 }
 
@@ -22,11 +24,13 @@ impl<'ast> Cycles<'ast> {
             idl_store,
             struct_graph: Graph::new(),
             iface_graph: Graph::new(),
+            visited_structs: HashSet::new(),
+            visited_ifaces: HashSet::new(),
         }
     }
 
     pub fn visit_iface_recurse(&mut self, iface: Rc<idlc_ast::Interface>) {
-        if self.iface_graph.cycle().is_some() {
+        if !self.visited_ifaces.insert(iface.ident.to_string()) {
             return;
         }
 
@@ -39,7 +43,7 @@ impl<'ast> Cycles<'ast> {
     }
 
     pub fn visit_struct_recurse(&mut self, r#struct: Rc<idlc_ast::Struct>) {
-        if self.struct_graph.cycle().is_some() {
+        if !self.visited_structs.insert(r#struct.ident.to_string()) {
             return;
         }
 
diff --git a/idlc_ast_passes/src/graph.rs b/idlc_ast_passes/src/graph.rs
index dbbad94..0fe8a4d 100644
--- a/idlc_ast_passes/src/graph.rs
+++ b/idlc_ast_passes/src/graph.rs
@@ -50,13 +50,13 @@ impl<T: Hash + Eq + Clone> Graph<T> {
         branch: &mut Vec<T>,
         order: &mut Vec<T>,
     ) -> Result<(), Cycle<T>> {
-        if branch.contains(node) {
-            let mut cycle: Vec<T> = branch.clone();
-            cycle.push(node.clone());
-            return Err(cycle);
-        }
-
-        if !visited.contains(node) {
+        if visited.contains(node) {
+            if branch.contains(node) {
+                let mut cycle: Vec<T> = branch.clone();
+                cycle.push(node.clone());
+                return Err(cycle);
+            }
+        } else {
             visited.insert(node.clone());
             branch.push(node.clone());
             let index = branch.len() - 1;
diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index 1892495..0fe4049 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -3,13 +3,13 @@
 
 //! Implementation of include cycle detection and symbol lookup
 //!
-use crate::graph::{Cycle, Graph};
+use crate::graph::Graph;
 
 use crate::CompilerPass;
 
 use std::{
     cell::RefCell,
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     path::{Path, PathBuf},
     rc::Rc,
 };
@@ -26,8 +26,8 @@ pub struct IDLStore {
     ast_store: RefCell<HashMap<PathBuf, Rc<Ast>>>,
     symbols: RefCell<HashMap<Symbol, (Rc<Node>, PathBuf)>>,
     current: Option<PathBuf>,
-    cycle: Option<Cycle<String>>,
     graph: Graph<String>,
+    walked: HashSet<PathBuf>,
     include_paths: Vec<PathBuf>,
     allow_undefined_behavior: bool,
 }
@@ -51,13 +51,11 @@ impl Visitor<'_> for IDLStore {
             current.clone().display().to_string(),
             cano_path.display().to_string(),
         );
-        self.cycle = self.graph.cycle();
-        if self.cycle.is_some() {
-            return;
+        // No matter how many paths lead to a file, its includes need to be looked at only once.
+        if self.walked.insert(cano_path.clone()) {
+            let inc_ast = self.get_or_insert(&cano_path);
+            walk_all(self, &inc_ast);
         }
-
-        let inc_ast = self.get_or_insert(&cano_path);
-        walk_all(self, &inc_ast);
         self.current = Some(current);
     }
 }
@@ -78,8 +76,8 @@ impl IDLStore {
             ast_store: RefCell::new(HashMap::new()),
             symbols: RefCell::new(HashMap::new()),
             current: None,
-            cycle: None,
             graph: Graph::new(),
+            walked: HashSet::new(),
             include_paths: include_paths.to_vec(),
             allow_undefined_behavior,
         }
@@ -112,12 +110,12 @@ impl IDLStore {
             return canonicalized;
         }
 
-        let mut possibilities = std::collections::HashSet::new();
+        let mut possibilities = HashSet::new();
         let mut first: Option<PathBuf> = None;
 
         for include_path in &self.include_paths {
             let possibility = include_path.join(path);
-            if possibility.exists() {
+            if possibility.is_file() {
                 let canonical = possibility.canonicalize().unwrap();
                 if first.is_none() {
                     first = Some(canonical.clone());
@@ -144,11 +142,7 @@ impl IDLStore {
 
     fn check_includes(&mut self, ast: &'_ idlc_ast::Ast) -> Result<Vec<String>, crate::Error> {
         walk_all(self, ast);
-        if let Some(cycle) = self.cycle.take() {
-            return Err(crate::Error::CyclicalInclude(cycle));
-        }
-
-        Ok(self.graph.toposort().unwrap())
+        self.graph.toposort().map_err(crate::Error::CyclicalInclude)
     }
 
     #[inline]
-- 
2.43.0


From c989c2295545960fc566d98306556e5556b1c478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:38 +0000
Subject: [PATCH 22/28] fix: don't overflow the stack on deep dependencies

---
 idlc/src/main.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/idlc/src/main.rs b/idlc/src/main.rs
index 0422e40..ac98848 100644
--- a/idlc/src/main.rs
+++ b/idlc/src/main.rs
@@ -103,7 +103,22 @@ enum Dumpable {
     Mir,
 }
 
+/// Includes, structs and interfaces may depend on each other to any depth, most of which is walked
+/// recursively. Only what is used of the stack is backed by memory.
+const STACK_SIZE: usize = 4 << 30;
+
 fn main() {
+    match std::thread::Builder::new()
+        .stack_size(STACK_SIZE)
+        .spawn(compile)
+    {
+        // The panic is already reported
+        Ok(compiler) => compiler.join().unwrap_or_else(|_| std::process::exit(101)),
+        Err(_) => compile(),
+    }
+}
+
+fn compile() {
     use clap::Parser as ClapParser;
     idlc_errors::init();
     let args = Cli::parse();
-- 
2.43.0


From f3c0df02dd7ed29f33fc232fe478b4277248f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 23/28] fix: keep documentation and marking text within its
 comment

A carriage return ended lines in IDL but not in the generated comments (Rust output then did
not parse, clang took the rest of a marking for code), a marking could close the Java comment it
is put into, unicode escapes were left to javac, and a '/*' or trailing backslash made C compilers
warn.
---
 idlc_codegen/src/comment.rs       | 29 +++++++++++++++++++++++++++++
 idlc_codegen/src/documentation.rs | 13 +++++++++++--
 idlc_codegen/src/lib.rs           |  1 +
 idlc_codegen/src/marking.rs       | 12 ++++++++++--
 4 files changed, 51 insertions(+), 4 deletions(-)
 create mode 100644 idlc_codegen/src/comment.rs

diff --git a/idlc_codegen/src/comment.rs b/idlc_codegen/src/comment.rs
new file mode 100644
index 0000000..6a58346
--- /dev/null
+++ b/idlc_codegen/src/comment.rs
@@ -0,0 +1,29 @@
+// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
+// SPDX-License-Identifier: BSD-3-Clause
+
+//! Keeps user supplied text within the comment it is put into.
+
+/// A carriage return ends a line in IDL and in comments of some target compilers.
+pub fn normalize_newlines(text: &str) -> String {
+    text.replace("\r\n", "\n").replace('\r', "\n")
+}
+
+/// Text of a line within a `//` comment of C and C++, which a trailing backslash would continue.
+pub fn c_line(line: &str) -> String {
+    let text = line.trim_end();
+    if text.ends_with('\\') || text.ends_with("??/") {
+        format!("{text}.")
+    } else {
+        line.to_string()
+    }
+}
+
+/// Text of a line within a `/* */` comment of C and C++, which don't nest.
+pub fn c_block(line: &str) -> String {
+    line.replace("/*", "/ *")
+}
+
+/// Text of a line within a `/* */` comment of Java, where unicode escapes are replaced first.
+pub fn java_block(line: &str) -> String {
+    line.replace("*/", "* /").replace("\\u", "\\ u")
+}
diff --git a/idlc_codegen/src/documentation.rs b/idlc_codegen/src/documentation.rs
index f0c6349..fc3cd5b 100644
--- a/idlc_codegen/src/documentation.rs
+++ b/idlc_codegen/src/documentation.rs
@@ -30,6 +30,14 @@ impl DocumentationStyle {
             Self::C | Self::Java => "*",
         }
     }
+
+    fn text(self, line: &str) -> String {
+        match self {
+            Self::Rust => line.to_string(),
+            Self::C => crate::comment::c_block(line),
+            Self::Java => crate::comment::java_block(line),
+        }
+    }
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -65,6 +73,7 @@ impl Documentation {
     fn new_with_idlc_doc(doc: &str, style: DocumentationStyle) -> Self {
         let mut documentation = style.start().to_string();
         documentation.push('\n');
+        let doc = crate::comment::normalize_newlines(doc);
         let last_line = doc.lines().last().unwrap();
         let indent = last_line.find('*').unwrap();
 
@@ -78,7 +87,7 @@ impl Documentation {
                     // substitute it with a space
                     if !docstring[1..].is_empty() {
                         documentation.push(' ');
-                        documentation.push_str(&docstring[1..]);
+                        documentation.push_str(&style.text(&docstring[1..]));
                     }
                 }
                 Some(_) => {
@@ -86,7 +95,7 @@ impl Documentation {
                     // with a space to maintain alignment.  `* ` accounts for 2
                     // spaces
                     documentation.push(' ');
-                    documentation.push_str(docstring);
+                    documentation.push_str(&style.text(docstring));
                 }
                 None => {}
             }
diff --git a/idlc_codegen/src/lib.rs b/idlc_codegen/src/lib.rs
index c4ad2b9..888270e 100644
--- a/idlc_codegen/src/lib.rs
+++ b/idlc_codegen/src/lib.rs
@@ -1,6 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+mod comment;
 pub mod counts;
 pub mod documentation;
 pub mod functions;
diff --git a/idlc_codegen/src/marking.rs b/idlc_codegen/src/marking.rs
index 5a0a5ee..8f13c29 100644
--- a/idlc_codegen/src/marking.rs
+++ b/idlc_codegen/src/marking.rs
@@ -29,6 +29,14 @@ impl MarkingStyle {
             Self::Java => "*",
         }
     }
+
+    fn text(self, line: &str) -> String {
+        match self {
+            Self::Rust => line.to_string(),
+            Self::C => crate::comment::c_line(line),
+            Self::Java => crate::comment::java_block(line),
+        }
+    }
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -58,10 +66,10 @@ impl Marking {
             return Self(String::new());
         }
         let mut documentation = style.start().to_string();
-        for line in marking.lines() {
+        for line in crate::comment::normalize_newlines(marking).lines() {
             documentation += style.prefix();
             documentation.push(' ');
-            documentation.push_str(line);
+            documentation.push_str(&style.text(line));
             documentation.push('\n');
         }
         documentation.push_str(style.end());
-- 
2.43.0


From 6fd1a655779efdb0cf8857997e919143a898c733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 24/28] fix: Java marshalling of structs, arrays, object arrays
 and several outputs

Locals of the proxies and skeletons can't clash with parameters, capacities are in elements,
object arrays start where the other objects end, nested structs and arrays are walked in full,
structs are named by the file they are in and null arrays don't shift the following arguments.
---
 idlc_codegen_java/src/globals.rs              |  29 ++-
 .../src/interface/functions/implementation.rs | 153 ++++++----------
 .../src/interface/functions/invoke.rs         | 170 ++++++++----------
 .../src/interface/functions/serialization.rs  | 109 ++++++-----
 .../src/interface/functions/signature.rs      |  43 +----
 idlc_codegen_java/src/types.rs                |  75 ++++++--
 6 files changed, 259 insertions(+), 320 deletions(-)

diff --git a/idlc_codegen_java/src/globals.rs b/idlc_codegen_java/src/globals.rs
index 3980b4f..fc18b91 100644
--- a/idlc_codegen_java/src/globals.rs
+++ b/idlc_codegen_java/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::{change_primitive, const_value};
+use crate::types::{change_primitive, const_value, struct_name};
 
 pub fn emit_struct(r#struct: &StructInner) -> String {
     let mut contents = String::new();
@@ -14,22 +14,35 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
         let count = field.val.1.get();
         let ty = match &field.val.0 {
             &idlc_mir::Type::Primitive(primitive) => change_primitive(primitive).to_string(),
-            idlc_mir::Type::Struct(s) => s.as_ref().ident.to_string(),
+            idlc_mir::Type::Struct(s) => struct_name(s.as_ref()),
             idlc_mir::Type::Interface(_) => {
                 unimplemented!("Java codegen doesn't support objects in struct")
             }
             _ => unreachable!(),
         };
-        contents.push_str(&if count == 1 {
-            format!(
+        let is_struct = matches!(field.val.0, idlc_mir::Type::Struct(_));
+        contents.push_str(&match (count, is_struct) {
+            (1, false) => format!(
                 r#"public {ty} {ident};
         "#
-            )
-        } else {
-            format!(
+            ),
+            (1, true) => format!(
+                r#"public {ty} {ident} = new {ty}();
+        "#
+            ),
+            (_, false) => format!(
+                r#"public {ty}[] {ident}=new {ty}[{count}];
+        "#
+            ),
+            (_, true) => format!(
                 r#"public {ty}[] {ident}=new {ty}[{count}];
+        {{
+            for (int i=0;i<{count};i++) {{
+                this.{ident}[i] = new {ty}();
+            }}
+        }}
         "#
-            )
+            ),
         });
     }
 
diff --git a/idlc_codegen_java/src/interface/functions/implementation.rs b/idlc_codegen_java/src/interface/functions/implementation.rs
index 58af14d..212d424 100644
--- a/idlc_codegen_java/src/interface/functions/implementation.rs
+++ b/idlc_codegen_java/src/interface/functions/implementation.rs
@@ -6,7 +6,9 @@ use idlc_mir::Ident;
 use crate::interface::mink_primitives::{
     BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{
+    capitalize_first_letter, change_primitive, get_struct, put_struct, struct_name,
+};
 
 use super::serialization::TransportBuffer;
 
@@ -14,8 +16,6 @@ use super::serialization::TransportBuffer;
 pub struct Implementation {
     initializations: Vec<String>,
     post_call: Vec<String>,
-    obj_arr_in: bool,
-    obj_arr_out: bool,
 
     bi_idx: usize,
     bo_idx: usize,
@@ -50,17 +50,17 @@ impl Implementation {
     }
 
     #[inline]
-    fn io_idx(&mut self) -> usize {
+    fn io_idx(&mut self, count: usize) -> usize {
         let io_idx = self.io_idx;
-        self.io_idx += 1;
+        self.io_idx += count;
 
         io_idx
     }
 
     #[inline]
-    fn oo_idx(&mut self) -> usize {
+    fn oo_idx(&mut self, count: usize) -> usize {
         let oo_idx = self.oo_idx;
-        self.oo_idx += 1;
+        self.oo_idx += count;
 
         oo_idx
     }
@@ -97,9 +97,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         };
         self.initializations.push(format!(
             r#"if({name} != null) {{
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
-                buffer_{name}.{to_buffer}put({name});
-                {BI}[{bi_idx}] = buffer_{name}.array();
+                {BYTE_BUFFER} buffer = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
+                buffer.{to_buffer}put({name});
+                {BI}[{bi_idx}] = buffer.array();
             }}
             "#
         ));
@@ -118,46 +118,27 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}(i.{field_ident});
-                    "#
-            ));
-        }
+        let fields = put_struct(ty, "buffer", "i");
 
         self.initializations.push(format!(
             r#"if({name} != null) {{
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
+                {BYTE_BUFFER} buffer = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
                 for ({0} i : {name}) {{
-                    {buffer_in}
+                    {fields}
                 }}
-                {BI}[{bi_idx}] = buffer_{name}.array();
+                {BI}[{bi_idx}] = buffer.array();
             }}
             "#,
-            ty.ident
+            struct_name(ty)
         ));
     }
 
-    fn visit_input_object_array(
-        &mut self,
-        ident: &Ident,
-        _ty: Option<&str>,
-        _cnt: idlc_mir::Count,
-    ) {
-        let _io_idx = self.io_idx();
+    fn visit_input_object_array(&mut self, ident: &Ident, _ty: Option<&str>, cnt: idlc_mir::Count) {
+        let io_idx = self.io_idx(cnt.get().into());
         let name = format!("{}_val", ident);
-        self.obj_arr_in = true;
         self.initializations.push(format!(
-            r#" for (int i=0; i<{name}.length; i++) {{
-                {OI}[i] = {name}[i];
+            r#"for (int i=0; i<{cnt}; i++) {{
+                {OI}[{io_idx}+i] = {name}[i];
             }}
             "#,
         ));
@@ -198,24 +179,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}({name}.{field_ident});
-            "#
-            ));
-        }
+        let fields = put_struct(ty, "buffer", &name);
 
         self.initializations.push(format!(
-            r#"{BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
-            {fields}
-            {BI}[{bi_idx}] = buffer_{name}.array();
+            r#"{{
+                {BYTE_BUFFER} buffer = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
+                {fields}
+                {BI}[{bi_idx}] = buffer.array();
+            }}
             "#
         ));
     }
@@ -224,7 +195,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let io_idx = self.io_idx();
+        let io_idx = self.io_idx(1);
         let name = format!("{}_val", ident);
         self.initializations.push(format!(
             r#"{OI}[{io_idx}] = {name};
@@ -279,22 +250,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bo_sz_idx = self.bo_sz_idx();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
-
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        let ty = ty.ident.to_string();
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"{name}[0][i].{field_ident} = buffer_{name}.get{capitalized_ty}();
-                    "#
-            ));
-        }
+        let fields = get_struct(ty, "buffer", &format!("{name}[0][i]"));
+        let ty = struct_name(ty);
 
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {ident}_len*{sz};
@@ -304,9 +261,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"if({name} != null) {{
                 int {ident}_lenout = Math.min({BO}[{bo_idx}].length/{sz}, {ident}_len);
                 {name}[0] = new {ty}[{ident}_lenout];
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-                for (int i=0;i<{ident}_len;i++) {{
-                    {buffer_in}
+                {BYTE_BUFFER} buffer = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
+                for (int i=0;i<{ident}_lenout;i++) {{
+                    {name}[0][i] = new {ty}();
+                    {fields}
                 }}
             }}
             "#,
@@ -319,12 +277,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         _ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
+        let oo_idx = self.oo_idx(cnt.get().into());
         let name = format!("{}_ptr", ident);
-        self.obj_arr_out = true;
         self.post_call.push(format!(
-            r#"
-            for (int i=0;i<{cnt};i++) {{
-                {name}[0][i] = {OO}[i];
+            r#"if({name} != null) {{
+                if ({name}[0] == null) {{
+                    {name}[0] = new IMinkObject[{cnt}];
+                }}
+                for (int i=0;i<{cnt};i++) {{
+                    {name}[0][i] = {OO}[{oo_idx}+i];
+                }}
             }}
             "#,
         ));
@@ -341,10 +303,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             "#,
         ));
         self.post_call.push(format!(
-            r#"{BYTE_BUFFER} {BUNDLE_OUT};
-            {BUNDLE_OUT} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-            if({name} != null) {{
-                {name}[0] = {BUNDLE_OUT}.get{ty}();
+            r#"if({name} != null) {{
+                {name}[0] = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER}).get{ty}();
             }}
             "#,
         ));
@@ -376,26 +336,19 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bo_sz_idx = self.bo_sz_idx();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{name}[0].{field_ident} = {BUNDLE_OUT}.get{capitalized_ty}();
-                "#
-            ));
-        }
+        let fields = get_struct(ty, "buffer", &format!("{name}[0]"));
+        let ty = struct_name(ty);
+
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {sz};
             "#,
         ));
         self.post_call.push(format!(
-            r#"{BYTE_BUFFER} {BUNDLE_OUT} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-            if ({name} != null) {{
+            r#"if ({name} != null) {{
+                if ({name}[0] == null) {{
+                    {name}[0] = new {ty}();
+                }}
+                {BYTE_BUFFER} buffer = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
                 {fields}
             }}
             "#,
@@ -406,7 +359,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
-        let oo_idx = self.oo_idx();
+        let oo_idx = self.oo_idx(1);
         let name = format!("{}_ptr", ident);
         self.post_call.push(format!(
             r#"if({name} != null) {{
@@ -465,8 +418,6 @@ pub fn emit(
             counts.input_objects
         ));
         "oi".to_string()
-    } else if implementation.obj_arr_in {
-        "oi".to_string()
     } else {
         "null".to_string()
     };
@@ -477,8 +428,6 @@ pub fn emit(
             counts.output_objects
         ));
         "oo".to_string()
-    } else if implementation.obj_arr_out {
-        "oo".to_string()
     } else {
         "null".to_string()
     };
diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index c8bdd39..3b300a7 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -4,7 +4,9 @@
 use crate::interface::mink_primitives::{
     BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, IMINK_OBJECT, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{
+    capitalize_first_letter, change_primitive, get_struct, put_struct, struct_name,
+};
 
 use super::serialization::TransportBuffer;
 
@@ -63,17 +65,17 @@ impl Invoke {
     }
 
     #[inline]
-    fn io_idx(&mut self) -> usize {
+    fn io_idx(&mut self, count: usize) -> usize {
         let io_idx = self.io_idx;
-        self.io_idx += 1;
+        self.io_idx += count;
 
         io_idx
     }
 
     #[inline]
-    fn oo_idx(&mut self) -> usize {
+    fn oo_idx(&mut self, count: usize) -> usize {
         let oo_idx = self.oo_idx;
-        self.oo_idx += 1;
+        self.oo_idx += count;
 
         oo_idx
     }
@@ -82,6 +84,7 @@ impl Invoke {
 impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let bi_idx = self.bi_idx();
+        let sz = ty.size();
         let ty = change_primitive(ty);
         let capitalized_ty = capitalize_first_letter(ty);
         let to_buffer = if !capitalized_ty.is_empty() {
@@ -91,31 +94,28 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
 
         self.pre.push(format!(
-            r#"{ty}[] {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}array();
+            r#"{ty}[] {ident}_val = new {ty}[{BI}[{bi_idx}].length/{sz}];
+                    {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}get({ident}_val);
                     "#
         ));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}[0].{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
-                    "#
-            ));
-        }
-        let ty = ty.ident.to_string();
+        let sz = ty.size();
+        let fields = get_struct(
+            ty,
+            &format!("{BUNDLE_IN}{bi_idx}"),
+            &format!("{ident}_val[i]"),
+        );
+        let ty = struct_name(ty);
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[1];
+            r#"{ty}[] {ident}_val = new {ty}[{BI}[{bi_idx}].length/{sz}];
                     {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
-                    {fields}
+                    for (int i=0;i<{ident}_val.length;i++) {{
+                        {ident}_val[i] = new {ty}();
+                        {fields}
+                    }}
                     "#
         ));
     }
@@ -124,12 +124,13 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         &mut self,
         ident: &idlc_mir::Ident,
         _ty: Option<&str>,
-        _cnt: idlc_mir::Count,
+        cnt: idlc_mir::Count,
     ) {
+        let io_idx = self.io_idx(cnt.get().into());
         self.pre.push(format!(
-            r#"IMinkObject[] {ident}_val = new IMinkObject[{OI}.length];
-                    for (int i=0;i<{OI}.length;i++) {{
-                        {ident}_val[i] = {OI}[i];
+            r#"IMinkObject[] {ident}_val = new IMinkObject[{cnt}];
+                    for (int i=0;i<{cnt};i++) {{
+                        {ident}_val[i] = {OI}[{io_idx}+i];
                     }}
                     "#
         ));
@@ -145,7 +146,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
                         break;
                     }}
-                    {ty} {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
+                    {ty} {ident}_val = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
                     "#
         ));
     }
@@ -173,25 +174,13 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bi_idx = self.bi_idx();
         let sz = ty.size();
 
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}.{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
-                    "#
-            ));
-        }
-        let ty = ty.ident.to_string();
+        let fields = get_struct(ty, &format!("{BUNDLE_IN}{bi_idx}"), &format!("{ident}_val"));
+        let ty = struct_name(ty);
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
                         break;
                     }}
-                    {ty} {ident} = new {ty}();
+                    {ty} {ident}_val = new {ty}();
                     {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
                     {fields}
                     "#
@@ -202,12 +191,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_input_object(&mut self, ident: &idlc_mir::Ident, _: Option<&str>) {
-        let io_idx = self.io_idx();
+        let io_idx = self.io_idx(1);
         let ty = IMINK_OBJECT.to_string();
 
         self.pre.push(format!(
-            r#"{ty} {ident};
-                    {ident} = {OI}[{io_idx}];
+            r#"{ty} {ident}_val;
+                    {ident}_val = {OI}[{io_idx}];
                     "#
         ));
     }
@@ -225,14 +214,16 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+            r#"{ty}[][] {ident}_ptr = new {ty}[1][];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
-                    buffer_{ident}.{to_buffer}put({ident}[0]);
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+            r#"{{
+                    {BYTE_BUFFER} buffer = {BYTE_BUFFER}.allocate({ident}_ptr[0].length*{sz}).order({BYTE_ORDER});
+                    buffer.{to_buffer}put({ident}_ptr[0]);
+                    {BO}[{bo_idx}] = buffer.array();
+                    }}
                     "#,
         ));
     }
@@ -241,12 +232,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         self.pre.push(format!(
-            r#"byte[][] {ident} = new byte[1][];
+            r#"byte[][] {ident}_ptr = new byte[1][];
                     int {ident}_len = boSizes[{bo_sz_idx}];
                     "#,
         ));
         self.post.push(format!(
-            r#"{BO}[{bo_idx}]={ident}[0];
+            r#"{BO}[{bo_idx}]={ident}_ptr[0];
                     "#,
         ));
     }
@@ -256,35 +247,23 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
 
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}(i.{field_ident});
-                    "#
-            ));
-        }
-
-        let ty = ty.ident.to_string();
+        let fields = put_struct(ty, "buffer", "i");
+        let ty = struct_name(ty);
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+            r#"{ty}[][] {ident}_ptr = new {ty}[1][];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
 
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
-                    for ({ty} i : {ident}[0]) {{
-                        {buffer_in}
+            r#"{{
+                    {BYTE_BUFFER} buffer = {BYTE_BUFFER}.allocate({ident}_ptr[0].length*{sz}).order({BYTE_ORDER});
+                    for ({ty} i : {ident}_ptr[0]) {{
+                        {fields}
+                    }}
+                    {BO}[{bo_idx}] = buffer.array();
                     }}
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
                     "#,
         ));
     }
@@ -295,15 +274,16 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         _ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
+        let oo_idx = self.oo_idx(cnt.get().into());
         let ty = IMINK_OBJECT.to_string();
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][{OO}.length];
-                    int {ident}_len = oo.length;
+            r#"{ty}[][] {ident}_ptr = new {ty}[1][{cnt}];
+                    int {ident}_len = {cnt};
                     "#,
         ));
         self.post.push(format!(
             r#"for (int i=0;i<{cnt};i++) {{
-                        oo[i] = {ident}[0][i];
+                        {OO}[{oo_idx}+i] = {ident}_ptr[0][i];
                     }}
                     "#
         ));
@@ -314,32 +294,22 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
 
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}({ident}[0].{field_ident});
-                    "#
-            ));
-        }
-        let ty = ty.ident.to_string();
+        let fields = put_struct(ty, "buffer", &format!("{ident}_ptr[0]"));
+        let ty = struct_name(ty);
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
                         break;
                     }}
-                    {ty}[] {ident} = new {ty}[1];
+                    {ty}[] {ident}_ptr = {{new {ty}()}};
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
+            r#"{{
+                    {BYTE_BUFFER} buffer = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
                     {fields}
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+                    {BO}[{bo_idx}] = buffer.array();
+                    }}
                     "#,
         ));
     }
@@ -358,11 +328,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
                         break;
                     }}
-                    {ty}[] {ident} = new {ty}[1];
+                    {ty}[] {ident}_ptr = new {ty}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{BO}[{bo_idx}] = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER}).put{capitalized_ty}({ident}[0]).array();
+            r#"{BO}[{bo_idx}] = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER}).put{capitalized_ty}({ident}_ptr[0]).array();
                     "#,
         ));
     }
@@ -396,14 +366,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_object(&mut self, ident: &idlc_mir::Ident, _: Option<&str>) {
-        let oo_idx = self.oo_idx();
+        let oo_idx = self.oo_idx(1);
         let ty = IMINK_OBJECT.to_string();
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[1];
+            r#"{ty}[] {ident}_ptr = new {ty}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{OO}[{oo_idx}] = {ident}[0];
+            r#"{OO}[{oo_idx}] = {ident}_ptr[0];
                     "#
         ));
     }
@@ -421,7 +391,7 @@ pub fn emit(
     let pre = invokes.pre();
     let post = invokes.post();
 
-    let returns = super::signature::iter_to_string(signature.return_idents());
+    let returns = super::signature::iter_to_string(signature.idents());
 
     format!(
         r#"case {iface_ident}_{OP_ID}_{ident}: {{
diff --git a/idlc_codegen_java/src/interface/functions/serialization.rs b/idlc_codegen_java/src/interface/functions/serialization.rs
index 17854ab..1f1d1f2 100644
--- a/idlc_codegen_java/src/interface/functions/serialization.rs
+++ b/idlc_codegen_java/src/interface/functions/serialization.rs
@@ -5,7 +5,9 @@ use idlc_codegen::serialization::Type;
 
 use crate::interface::mink_primitives::{BUNDLE_IN, BUNDLE_OUT};
 
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{
+    capitalize_first_letter, change_primitive, get_struct, put_struct, struct_name,
+};
 
 #[derive(Debug, Clone)]
 pub struct TransportBuffer {
@@ -37,14 +39,14 @@ impl<'a> PackedPrimitives<'a> {
             &Type::Primitive(p) => {
                 let ty = change_primitive(p);
                 assignments += &format!(
-                    r#"{ty}[] {ident} = new {ty}[1];
+                    r#"{ty}[] {ident}_ptr = new {ty}[1];
                     "#
                 );
             }
             Type::SmallStruct(s) => {
-                let ty = s.ident.to_string();
+                let ty = struct_name(s);
                 assignments += &format!(
-                    r#"{ty}[] {ident} = new {ty}[1];
+                    r#"{ty}[] {ident}_ptr = {{new {ty}()}};
                     "#
                 );
             }
@@ -74,79 +76,68 @@ impl<'a> PackedPrimitives<'a> {
 
         let mut fields = String::new();
         for (ident, ty) in pairs {
-            match ty {
+            let (is_input, is_output) = (in_out == BUNDLE_IN, in_out == BUNDLE_OUT);
+            fields.push_str(&match ty {
                 &Type::Primitive(p) => {
+                    let size = p.size();
                     let ty = change_primitive(p);
                     let capitalized_ty = capitalize_first_letter(ty);
-                    if is_invoke {
-                        if in_out == BUNDLE_IN {
-                            fields.push_str(&format!(
-                                r#"{ty} {ident}={in_out}.get{capitalized_ty}();
+                    if is_invoke && is_input {
+                        format!(
+                            r#"{ty} {ident}_val={in_out}.get{capitalized_ty}();
                     "#
-                            ));
-                        } else {
-                            fields.push_str(&format!(
-                                r#"{in_out}.put{capitalized_ty}({ident}[0]);
+                        )
+                    } else if is_invoke && is_output {
+                        format!(
+                            r#"{in_out}.put{capitalized_ty}({ident}_ptr[0]);
                     "#
-                            ));
-                        }
-                    } else if in_out == BUNDLE_IN {
-                        fields.push_str(&format!(
+                        )
+                    } else if is_input {
+                        format!(
                             r#"{in_out}.put{capitalized_ty}({ident}_val);
                 "#
-                        ));
+                        )
                     } else {
-                        fields.push_str(&format!(
+                        format!(
                             r#"if ({ident}_ptr != null) {{
                     {ident}_ptr[0] = {in_out}.get{capitalized_ty}();
+                }} else {{
+                    {in_out}.position({in_out}.position()+{size});
                 }}
                 "#
-                        ));
+                        )
                     }
                 }
                 Type::SmallStruct(s) => {
-                    let mut field_idents = Vec::new();
-                    let ty = s.ident.to_string();
-                    if is_invoke && in_out == BUNDLE_IN {
-                        fields.push_str(&format!(
-                            r#"{ty} {ident} = new {ty}();
-                    "#,
-                        ));
-                    }
-                    get_struct_pair(s, &mut field_idents, "".to_string());
-                    for (field_ident, field_ty) in field_idents {
-                        let mut capitalized_ty = String::new();
-                        if let idlc_mir::Type::Primitive(p) = field_ty {
-                            capitalized_ty = capitalize_first_letter(change_primitive(p));
-                        }
-                        if is_invoke {
-                            if in_out == BUNDLE_IN {
-                                fields.push_str(&format!(
-                                    r#"{ident}.{field_ident}={BUNDLE_IN}.get{capitalized_ty}();
-                    "#,
-                                ));
-                            } else {
-                                fields.push_str(&format!(
-                                    r#"{BUNDLE_OUT}.put{capitalized_ty}({ident}[0].{field_ident});
-                    "#,
-                                ));
-                            }
-                        } else if in_out == BUNDLE_IN {
-                            fields.push_str(&format!(
-                                r#"{in_out}.put{capitalized_ty}({ident}_val.{field_ident});
-            "#,
-                            ));
-                        } else {
-                            fields.push_str(&format!(
-                                r#"if ({ident}_ptr != null) {{
-                    {ident}_ptr[0].{field_ident} = {in_out}.get{capitalized_ty}();
+                    let size = s.size();
+                    let ty = struct_name(s);
+                    if is_invoke && is_input {
+                        let fields = get_struct(s, in_out, &format!("{ident}_val"));
+                        format!(
+                            r#"{ty} {ident}_val = new {ty}();
+                    {fields}
+                    "#
+                        )
+                    } else if is_invoke && is_output {
+                        put_struct(s, in_out, &format!("{ident}_ptr[0]"))
+                    } else if is_input {
+                        put_struct(s, in_out, &format!("{ident}_val"))
+                    } else {
+                        let fields = get_struct(s, in_out, &format!("{ident}_ptr[0]"));
+                        format!(
+                            r#"if ({ident}_ptr != null) {{
+                    if ({ident}_ptr[0] == null) {{
+                        {ident}_ptr[0] = new {ty}();
+                    }}
+                    {fields}
+                }} else {{
+                    {in_out}.position({in_out}.position()+{size});
                 }}
-                "#,
-                            ));
-                        }
+                "#
+                        )
                     }
                 }
-            };
+            });
         }
         let definition = fields;
         Some(TransportBuffer { definition, size })
diff --git a/idlc_codegen_java/src/interface/functions/signature.rs b/idlc_codegen_java/src/interface/functions/signature.rs
index 9b2246a..f9d029e 100644
--- a/idlc_codegen_java/src/interface/functions/signature.rs
+++ b/idlc_codegen_java/src/interface/functions/signature.rs
@@ -3,12 +3,11 @@
 
 use idlc_mir::{Ident, Primitive, StructInner};
 
-use crate::types::change_primitive;
+use crate::types::{change_primitive, struct_name};
 
 #[derive(Debug, Clone, Default)]
 pub struct Signature {
     inputs: Vec<(String, String)>,
-    returns: Vec<(String, String)>,
 }
 
 pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
@@ -41,8 +40,8 @@ impl Signature {
     }
 
     #[inline]
-    pub fn return_idents(&self) -> impl Iterator<Item = &str> {
-        self.returns.iter().map(|(ident, _)| ident.as_str())
+    pub fn idents(&self) -> impl Iterator<Item = &str> {
+        self.inputs.iter().map(|(ident, _)| ident.as_str())
     }
 }
 
@@ -50,13 +49,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
         let ty = format!("{}[]", change_primitive(ty));
         self.inputs.push((format!("{}_val", ident), ty.to_string()));
-        self.returns.push((ident.to_string(), ty));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
-        let new_ty = format!("{}[]", ty.ident);
+        let new_ty = format!("{}[]", struct_name(ty));
         self.inputs.push((format!("{}_val", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
 
     fn visit_input_object_array(
@@ -69,26 +66,20 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         let ty = format!("{IMINK_OBJECT}[]");
 
         self.inputs.push((format!("{}_val", ident), ty.to_string()));
-        self.returns
-            .push((format!("{}_val", ident), ty.to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
         self.inputs
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
-        self.returns
-            .push((ident.to_string(), change_primitive(ty).to_string()));
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
-            .push((format!("{}_val", ident), ty.ident.to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+            .push((format!("{}_val", ident), struct_name(ty)));
     }
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
-            .push((format!("{}_val", ident), ty.ident.to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+            .push((format!("{}_val", ident), struct_name(ty)));
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
@@ -96,8 +87,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
         self.inputs
             .push((format!("{}_val", ident), IMINK_OBJECT.to_string()));
-        self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
@@ -105,18 +94,13 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), ty.to_string()));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns.push((ident.to_string(), ty.to_string()));
-        self.returns.push((format!("{}_len", ident), ty));
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
-        let new_ty = format!("{}[][]", ty.ident);
+        let new_ty = format!("{}[][]", struct_name(ty));
         self.inputs.push((format!("{}_ptr", ident), new_ty));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
-        self.returns
-            .push((format!("{}_len", ident), ty.ident.to_string()));
     }
 
     fn visit_output_object_array(&mut self, ident: &Ident, _: Option<&str>, _cnt: idlc_mir::Count) {
@@ -126,27 +110,20 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), ty));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
-        self.returns
-            .push((format!("{}_len", ident), "int".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
         let ty = format!("{}[]", change_primitive(ty));
         self.inputs.push((format!("{}_ptr", ident), ty.to_string()));
-        self.returns.push((ident.to_string(), ty));
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
-        let new_ty = format!("{}[]", ty.ident);
+        let new_ty = format!("{}[]", struct_name(ty));
         self.inputs.push((format!("{}_ptr", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
-        let new_ty = format!("{}[]", ty.ident);
+        let new_ty = format!("{}[]", struct_name(ty));
         self.inputs.push((format!("{}_ptr", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
@@ -154,7 +131,5 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
         let ty = format!("{IMINK_OBJECT}[]");
         self.inputs.push((format!("{}_ptr", ident), ty));
-        self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
     }
 }
diff --git a/idlc_codegen_java/src/types.rs b/idlc_codegen_java/src/types.rs
index 6d2773e..4801705 100644
--- a/idlc_codegen_java/src/types.rs
+++ b/idlc_codegen_java/src/types.rs
@@ -40,27 +40,68 @@ pub fn capitalize_first_letter(s: &str) -> String {
     s.to_case(convert_case::Case::UpperCamel)
 }
 
-pub fn get_struct_pair(
+/// Name of a struct as seen from any generated file, structs are nested in the interface named after the
+/// IDL that defines them.
+pub fn struct_name(r#struct: &idlc_mir::StructInner) -> String {
+    let ident = &r#struct.ident;
+    r#struct
+        .origin
+        .as_ref()
+        .and_then(|origin| origin.file_stem())
+        .map_or_else(
+            || ident.to_string(),
+            |stem| format!("{}.{ident}", stem.to_string_lossy()),
+        )
+}
+
+/// Statements which write the fields of `place` to `buffer`.
+pub fn put_struct(r#struct: &idlc_mir::StructInner, buffer: &str, place: &str) -> String {
+    visit_primitives(r#struct, place, 0, &|ty, place| {
+        let ty = capitalize_first_letter(change_primitive(ty));
+        format!("{buffer}.put{ty}({place});\n")
+    })
+}
+
+/// Statements which read the fields of `place` from `buffer`.
+pub fn get_struct(r#struct: &idlc_mir::StructInner, buffer: &str, place: &str) -> String {
+    visit_primitives(r#struct, place, 0, &|ty, place| {
+        let ty = capitalize_first_letter(change_primitive(ty));
+        format!("{place} = {buffer}.get{ty}();\n")
+    })
+}
+
+fn visit_primitives(
     r#struct: &idlc_mir::StructInner,
-    result: &mut Vec<(String, idlc_mir::Type)>,
-    mut parent: String,
-) {
-    if !parent.is_empty() {
-        parent.push('.');
-    }
+    place: &str,
+    depth: usize,
+    emit: &dyn Fn(idlc_mir::Primitive, &str) -> String,
+) -> String {
+    let mut statements = String::new();
     for field in &r#struct.fields {
-        match &field.val.0 {
-            idlc_mir::Type::Primitive(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
-            }
-            idlc_mir::Type::Struct(idlc_mir::Struct::Big(s) | idlc_mir::Struct::Small(s)) => {
-                let new_parent = format!("{parent}{}", field.ident);
-                get_struct_pair(s, result, new_parent);
-            }
+        let count = field.val.1.get();
+        let is_array = count > 1;
+        let mut place = format!("{place}.{}", field.ident);
+        let mut inner_depth = depth;
+        if is_array {
+            place.push_str(&format!("[i{depth}]"));
+            inner_depth += 1;
+        }
+        let body = match &field.val.0 {
+            &idlc_mir::Type::Primitive(p) => emit(p, &place),
+            idlc_mir::Type::Struct(s) => visit_primitives(s.as_ref(), &place, inner_depth, emit),
             idlc_mir::Type::Interface(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
+                unimplemented!("Java codegen doesn't support objects in struct")
             }
-            _ => unreachable!(),
+            idlc_mir::Type::UntypedBuffer => unreachable!(),
+        };
+        if is_array {
+            statements.push_str(&format!(
+                "for (int i{depth} = 0; i{depth} < {count}; i{depth}++) {{\n{body}}}\n"
+            ));
+        } else {
+            statements.push_str(&body);
         }
     }
+
+    statements
 }
-- 
2.43.0


From f6c78321d98a753f9dc3cd13ec74d34dda6aaaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 25/28] fix: Java interface named after its file, malformed
 requests are reported

Globals go to the interface which has the file's name, others extend the file's interface only when
there's one and files don't extend all their includes. The switch of a skeleton has the methods of all
ancestors, what's left is an error.
---
 idlc_codegen_java/src/generator.rs     | 98 +++++++++++---------------
 idlc_codegen_java/src/interface/mod.rs | 31 ++++----
 2 files changed, 60 insertions(+), 69 deletions(-)

diff --git a/idlc_codegen_java/src/generator.rs b/idlc_codegen_java/src/generator.rs
index 15d188a..1bdab33 100644
--- a/idlc_codegen_java/src/generator.rs
+++ b/idlc_codegen_java/src/generator.rs
@@ -17,76 +17,62 @@ pub struct Generator;
 
 impl idlc_codegen::Generator for Generator {
     fn generate(mir: &idlc_mir::Mir) -> Descriptor {
-        let mut base = std::path::PathBuf::from(mir.tag.file_name().unwrap().to_str().unwrap());
-        base.set_extension("java");
         let mut interfaces = HashMap::new();
-        let prologue = &format!(
+        let prologue = format!(
             r#"// {MINKIDL_HEADER_COMMENT}
 package com.qualcomm.qti.mink;
 "#
         );
-        interfaces.insert(base.clone(), prologue.to_owned());
 
-        let input_name = &mir.tag.file_stem().unwrap().to_str().unwrap();
-        let mut includes = String::new();
+        let input_name = mir.tag.file_stem().unwrap().to_str().unwrap();
+        let mut globals = String::new();
+        let mut named_after_file = None;
         for node in &mir.nodes {
-            if let Node::Include(i) = node.as_ref() {
-                let inc_name = i.display().to_string().replace(".idl", "");
-                includes.push_str(&format!("{inc_name},"));
+            match node.as_ref() {
+                Node::Const(c) => globals.push_str(&emit_const(c)),
+                Node::Struct(s) => globals.push_str(&emit_struct(s.as_ref())),
+                Node::Interface(i) if i.ident.to_string() == input_name => {
+                    named_after_file = Some(i);
+                }
+                _ => (),
             }
         }
-        if !includes.is_empty() {
-            includes.pop();
-            includes = format!("extends {includes}");
-        }
-        interfaces.get_mut(&base).unwrap().push_str(&format!(
-            r#"public interface {input_name} {includes} {{
-    "#
-        ));
 
+        // There's only one Java interface by the name of the file, globals move to the interface from the
+        // IDL if it has that name and the others can't inherit them without inheriting the methods too.
+        let globals_base = if named_after_file.is_some() {
+            None
+        } else {
+            Some(input_name)
+        };
         for node in &mir.nodes {
-            match node.as_ref() {
-                Node::Const(c) => {
-                    interfaces.get_mut(&base).unwrap().push_str(&emit_const(c));
-                }
-                Node::Struct(s) => {
-                    interfaces
-                        .get_mut(&base)
-                        .unwrap()
-                        .push_str(&emit_struct(s.as_ref()));
-                }
-                Node::Interface(i) => {
-                    let mut interface_content = String::new();
+            if let Node::Interface(i) = node.as_ref() {
+                let globals = named_after_file
+                    .filter(|named_after_file| std::ptr::eq(*named_after_file, i))
+                    .map_or("", |_| globals.as_str());
+                let mut interface_content = prologue.clone();
 
-                    interface_content
-                        .push_str("import com.qualcomm.qti.qms.api.mink.IMinkObject;\n");
-                    interface_content
-                        .push_str("import com.qualcomm.qti.qms.api.mink.JMinkObject;\n");
-                    interface_content.push_str("import com.qualcomm.qti.qms.api.mink.MinkProxy;\n");
-                    interface_content.push_str("import java.nio.ByteBuffer;\n");
-                    interface_content.push_str("import java.nio.ByteOrder;\n\n");
-                    interface_content.push_str(&emit_interface(i, input_name));
-                    let name = format!("{}.java", i.ident);
-                    if name == base.to_str().unwrap() {
-                        interfaces
-                            .get_mut(&base)
-                            .unwrap()
-                            .push_str(&interface_content);
-                    } else {
-                        interfaces.insert(name.into(), format!("{prologue}{interface_content}"));
-                    }
-                }
-                _ => (),
+                interface_content.push_str("import com.qualcomm.qti.qms.api.mink.IMinkObject;\n");
+                interface_content.push_str("import com.qualcomm.qti.qms.api.mink.JMinkObject;\n");
+                interface_content.push_str("import com.qualcomm.qti.qms.api.mink.MinkProxy;\n");
+                interface_content.push_str("import java.nio.ByteBuffer;\n");
+                interface_content.push_str("import java.nio.ByteOrder;\n\n");
+                interface_content.push_str(&emit_interface(i, globals_base, globals));
+                interfaces.insert(format!("{}.java", i.ident).into(), interface_content);
             }
         }
-        interfaces.get_mut(&base).unwrap().push_str(
-            r#"
-}"#,
-        );
 
-        interfaces
-            .into_iter()
-            .filter(|(_, content)| content != prologue)
-            .collect()
+        if named_after_file.is_none() {
+            interfaces.insert(
+                format!("{input_name}.java").into(),
+                format!(
+                    r#"{prologue}public interface {input_name} {{
+    {globals}
+}}"#
+                ),
+            );
+        }
+
+        interfaces.into_iter().collect()
     }
 }
diff --git a/idlc_codegen_java/src/interface/mod.rs b/idlc_codegen_java/src/interface/mod.rs
index 1466a90..7e9c42d 100644
--- a/idlc_codegen_java/src/interface/mod.rs
+++ b/idlc_codegen_java/src/interface/mod.rs
@@ -8,7 +8,7 @@ use idlc_mir::{Interface, InterfaceNode};
 mod functions;
 pub mod mink_primitives;
 
-pub fn emit_interface(interface: &Interface, input_name: &str) -> String {
+pub fn emit_interface(interface: &Interface, globals_base: Option<&str>, globals: &str) -> String {
     use mink_primitives::{JMINK_OBJECT, MINK_OBJECT, MINK_PROXY, OP_ID, PROXY};
     let ident = &interface.ident;
 
@@ -65,14 +65,15 @@ pub fn emit_interface(interface: &Interface, input_name: &str) -> String {
         });
     });
 
-    let mut base_ident = input_name.to_string();
-    base_ident.push_str(
-        &interface
-            .base
-            .as_ref()
-            .map(|x| format!(",{}", x.ident.as_ref()))
-            .unwrap_or_default(),
-    );
+    let bases: Vec<&str> = globals_base
+        .into_iter()
+        .chain(interface.base.as_ref().map(|x| x.ident.as_ref()))
+        .collect();
+    let extends = if bases.is_empty() {
+        String::new()
+    } else {
+        format!("extends {} ", bases.join(","))
+    };
 
     let base_for_proxy = interface.base.as_ref().map_or(MINK_PROXY.to_string(), |x| {
         format!("{0}.{PROXY}", x.ident.as_ref())
@@ -87,7 +88,8 @@ pub fn emit_interface(interface: &Interface, input_name: &str) -> String {
     if interface.base.is_some() {
         format!(
             r#"
-public interface {ident} extends {base_ident} {{
+public interface {ident} {extends}{{
+    {globals}
     {constants}
     {errors}
     {op_codes}
@@ -107,9 +109,10 @@ public interface {ident} extends {base_ident} {{
             switch (methodID) {{
                 {invokes}
                 default: {{
-                    super.invoke(methodID, bi, boSizes, bo, oi, oo);
+                    break;
                 }}
             }}
+            throw new InvokeException(IMinkObject.ERROR_INVALID);
         }}
     }}
 }}
@@ -118,7 +121,8 @@ public interface {ident} extends {base_ident} {{
     } else {
         format!(
             r#"
-public interface {ident} extends {base_ident} {{
+public interface {ident} {extends}{{
+    {globals}
     {constants}
     {errors}
     {op_codes}
@@ -153,9 +157,10 @@ public interface {ident} extends {base_ident} {{
             switch (methodID) {{
                 {invokes}
                 default: {{
-                    throw new InvokeException(IMinkObject.ERROR_INVALID);
+                    break;
                 }}
             }}
+            throw new InvokeException(IMinkObject.ERROR_INVALID);
         }}
     }}
 }}
-- 
2.43.0


From 914594ad170237478acb8ff8156df18a87954e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 26/28] fix: define bases before their descendants even if they
 make use of those

---
 idlc_codegen/src/order.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/idlc_codegen/src/order.rs b/idlc_codegen/src/order.rs
index 2617562..4cd9843 100644
--- a/idlc_codegen/src/order.rs
+++ b/idlc_codegen/src/order.rs
@@ -5,8 +5,9 @@
 
 use idlc_mir::{Node, Type};
 
-/// Nodes of a file such that, as far as there's such an order, every definition follows the ones it
-/// makes use of. Other than that nodes stay in the order of the file.
+/// Nodes of a file such that every definition follows its bases and the structs it's made of and, as
+/// far as there's such an order, all that it makes use of. Other than that nodes stay in the order of
+/// the file.
 pub fn definition_order(nodes: &[std::rc::Rc<Node>]) -> Vec<&Node> {
     let (includes, definitions): (Vec<_>, Vec<_>) = nodes
         .iter()
@@ -16,7 +17,7 @@ pub fn definition_order(nodes: &[std::rc::Rc<Node>]) -> Vec<&Node> {
     let mut ordered = includes;
     let mut is_visited = vec![false; definitions.len()];
     for i in 0..definitions.len() {
-        visit(i, &definitions, &mut is_visited, &mut ordered);
+        visit(i, &definitions, &mut is_visited, &mut vec![], &mut ordered);
     }
 
     ordered
@@ -26,19 +27,38 @@ fn visit<'a>(
     i: usize,
     definitions: &[&'a Node],
     is_visited: &mut [bool],
+    users: &mut Vec<&'a str>,
     ordered: &mut Vec<&'a Node>,
 ) {
     if std::mem::replace(&mut is_visited[i], true) {
         return;
     }
+    users.extend(ident(definitions[i]));
     for used in used_idents(definitions[i]) {
-        if let Some(j) = definitions.iter().position(|node| ident(node) == Some(used)) {
-            visit(j, definitions, is_visited, ordered);
+        if let Some(j) = definitions
+            .iter()
+            .position(|node| ident(node) == Some(used))
+        {
+            // A descendant of what makes use of it can only come afterwards
+            if !bases(definitions[j]).any(|base| users.contains(&base)) {
+                visit(j, definitions, is_visited, users, ordered);
+            }
         }
     }
+    users.truncate(users.len() - ident(definitions[i]).iter().len());
     ordered.push(definitions[i]);
 }
 
+fn bases(node: &Node) -> impl Iterator<Item = &str> {
+    match node {
+        Node::Interface(i) => Some(i.iter().skip(1)),
+        _ => None,
+    }
+    .into_iter()
+    .flatten()
+    .map(|base| base.ident.as_ref())
+}
+
 fn ident(node: &Node) -> Option<&str> {
     match node {
         Node::Struct(s) => Some(s.as_ref().ident.as_ref()),
-- 
2.43.0


From 1bec1341376181fb918192838cf6c6e3184c52df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 27/28] fix: C++ proxies call their base by name

Members named invoke and parameters named invoke hid the base's invoke in
generated code, interfaces with members named get, consume or extract
couldn't be passed as parameters.
---
 .../src/interface/functions/implementation.rs        | 12 ++++++------
 idlc_codegen_cpp/src/interface/functions/invoke.rs   | 10 +++++-----
 .../src/interface/functions/signature.rs             |  2 +-
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index 9a68989..36d1390 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -35,7 +35,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             let idx = self.0.sections.input_object();
             self.0.args[idx] = format!(
                 r#"
-        {{.o = ({ident}_ref)[{i}].get() }},"#
+        {{.o = ({ident}_ref)[{i}].ProxyBase::get() }},"#
             );
         }
     }
@@ -120,7 +120,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         } else {
             self.0.args[idx] = format!(
                 r#"
-        {{.o = {name}.get() }},"#
+        {{.o = {name}.ProxyBase::get() }},"#
             );
         }
     }
@@ -146,7 +146,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 .to_string();
             self.0.post_call.push(format!(
                 r#"
-    ({ident}_ref)[{i}].consume({ARGS}[{idx}].o);"#,
+    ({ident}_ref)[{i}].ProxyBase::consume({ARGS}[{idx}].o);"#,
             ));
         }
     }
@@ -224,7 +224,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         } else {
             self.0.post_call.push(format!(
                 r#"
-    {ident}.consume({ARGS}[{idx}].o);"#
+    {ident}.ProxyBase::consume({ARGS}[{idx}].o);"#
             ));
         }
     }
@@ -266,14 +266,14 @@ pub fn emit(
 
     let returns = if total > 0 {
         format!(
-            "invoke({OP}_{ident}, {ARGS}, ObjectCounts_pack({0}, {1}, {2}, {3}));",
+            "ProxyBase::invoke({OP}_{ident}, {ARGS}, ObjectCounts_pack({0}, {1}, {2}, {3}));",
             counts.input_buffers,
             counts.output_buffers,
             counts.input_objects,
             counts.output_objects
         )
     } else {
-        format!("invoke({OP}_{ident}, 0, 0);")
+        format!("ProxyBase::invoke({OP}_{ident}, 0, 0);")
     };
 
     format!(
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index 0d13289..9c75637 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -48,8 +48,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#" \
                 const union _u_{ident} {{
                     ~_u_{ident}() {{}}
-                    {ty} inner[{cnt}];
-                }} _p_{ident} = {{.inner= {{ {obj_args} }}}};"#,
+                    {ty} _inner[{cnt}];
+                }} _p_{ident} = {{._inner= {{ {obj_args} }}}};"#,
         ));
     }
 
@@ -81,7 +81,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
         self.0.post.push(format!(
             r#" \
-                _p_{ident}.extract();"#
+                _p_{ident}.ProxyBase::extract();"#
         ));
     }
 
@@ -109,7 +109,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             let idx = self.0.sections.output_object();
             obj_assign.push_str(&format!(
                 r#"
-                    {ARGS}[{idx}].o=_p_{ident}[{i}].extract();"#
+                    {ARGS}[{idx}].o=_p_{ident}[{i}].ProxyBase::extract();"#
             ));
         }
         self.0.pre.push(format!(
@@ -180,7 +180,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ));
         self.0.post.push(format!(
             r#" \
-                if (_r == Object_OK) {{ {ARGS}[{idx}].o = _p_{ident}.extract(); }}"#
+                if (_r == Object_OK) {{ {ARGS}[{idx}].o = _p_{ident}.ProxyBase::extract(); }}"#
         ));
     }
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 5654a06..29c95d6 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -99,7 +99,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("_p_{}.inner", ident), "size_t".to_string()));
+            .push((format!("_p_{}._inner", ident), "size_t".to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
-- 
2.43.0


From 5b4faaf3eb3dd6e438311355a5d29b13bce48130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:06 +0000
Subject: [PATCH 28/28] fix: keep names of Rust locals and methods apart from
 those of the program

Methods named drop, into, as_ref were taken for those of the standard
traits when called by generated code; interfaces named like one of its
locals (e, f, cx, err, obj, value, T) didn't compile.
---
 idlc_codegen_rust/src/interface/error.rs      | 18 ++++++-------
 .../src/interface/functions/implementation.rs | 12 ++++-----
 .../src/interface/functions/invoke.rs         | 15 ++++++++---
 idlc_codegen_rust/src/interface/mod.rs        | 25 ++++++++++---------
 4 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/idlc_codegen_rust/src/interface/error.rs b/idlc_codegen_rust/src/interface/error.rs
index 1fc2eb6..a857cfa 100644
--- a/idlc_codegen_rust/src/interface/error.rs
+++ b/idlc_codegen_rust/src/interface/error.rs
@@ -11,21 +11,21 @@ pub struct Error(crate::object::Error);
 
 impl From<Error> for crate::object::Error {
     #[inline(always)]
-    fn from(e: Error) -> Self {
-        e.0
+    fn from(_e: Error) -> Self {
+        _e.0
     }
 }
 impl From<crate::object::Error> for Error {
     #[inline(always)]
-    fn from(e: crate::object::Error) -> Self {
-        Self(e)
+    fn from(_e: crate::object::Error) -> Self {
+        Self(_e)
     }
 }
 
 impl std::fmt::Display for Error {
     #[inline]
-    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        std::fmt::Debug::fmt(&self, f)
+    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        std::fmt::Debug::fmt(&self, _f)
     }
 }
 impl std::error::Error for Error {}
@@ -39,17 +39,17 @@ impl std::error::Error for Error {}
         defines += &format!(
             "pub const {ident}: Error = Error(unsafe {{ crate::object::Error::new_unchecked({value}) }});\n"
         );
-        match_arms += &format!("{ident} => write!(f, \"{upper_camel_case_ident}\"),\n",);
+        match_arms += &format!("{ident} => write!(_f, \"{upper_camel_case_ident}\"),\n",);
     }
 
     let debug_impl = format!(
         r#"
     impl std::fmt::Debug for Error {{
         #[inline]
-        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{
+        fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{
             match *self {{
                 {match_arms}
-                _ => write!(f, "{{}}", self.0)
+                _ => write!(_f, "{{}}", self.0)
             }}
         }}
     }}
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index ce1a29d..943f856 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -177,11 +177,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 self.args[idx] = format!(
                     r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new(unsafe {{
-                    let ptr = &mut (*{escaped_ident}.get()){path};
-                    let obj = std::mem::ManuallyDrop::new(std::ptr::read(ptr));
-                    std::ptr::write_volatile(ptr, std::mem::zeroed());
+                    let _ptr = &mut (*{escaped_ident}.get()){path};
+                    let _obj = std::mem::ManuallyDrop::new(std::ptr::read(_ptr));
+                    std::ptr::write_volatile(_ptr, std::mem::zeroed());
 
-                    std::mem::transmute_copy(&obj)
+                    std::mem::transmute_copy(&_obj)
                 }})
             }}"#
                 );
@@ -198,7 +198,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ident = EscapedIdent::new(ident);
         self.args[idx] = format!(
             r#"{ARG} {{
-                o: std::mem::ManuallyDrop::new({ident}.map(|o| unsafe {{ std::mem::transmute_copy(o) }} ))
+                o: std::mem::ManuallyDrop::new({ident}.map(|_o| unsafe {{ std::mem::transmute_copy(_o) }} ))
             }}"#
         );
     }
@@ -380,7 +380,7 @@ pub fn emit(
                     {post_call_assignments}
                     Ok(({return_idents}))
                 }},
-                err => Err(unsafe {{ std::mem::transmute(err) }})
+                _err => Err(unsafe {{ std::mem::transmute(_err) }})
             }}
         }}
     "#
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index b01be9d..0df2bfd 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -282,14 +282,21 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 }
 
 pub fn emit(
+    interface: &idlc_mir::Interface,
     function: &idlc_mir::Function,
     signature: &super::signature::Signature,
     counts: idlc_codegen::counts::Counter,
 ) -> String {
-    use crate::interface::mink_primitives::{ERROR_STRUCT, OK, PACK_COUNTS};
+    use crate::interface::mink_primitives::{ERROR_STRUCT, INTERFACES_BASE, OK, PACK_COUNTS};
     use crate::interface::variable_names::invoke::{CONTEXT, COUNTS};
 
     let ident = &function.ident;
+    // Called through the trait: the name may also be one of a method in scope.
+    let method = format!(
+        "{INTERFACES_BASE}::{}::I{}::r#{ident}",
+        interface.ident.to_lowercase(),
+        interface.ident
+    );
     let op_id = function.id;
     let n_args = counts.total();
     let counts = (
@@ -322,13 +329,13 @@ pub fn emit(
 
         {pre}
 
-        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut _cx| _cx.r#{ident}({params})) {{
+        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut _cx| {method}(&mut **_cx, {params})) {{
             Ok(({returns})) => {{
                 {post}
                 {OK}
             }},
-            Err(e) => {{
-                i32::from({ERROR_STRUCT}::from(e))
+            Err(_e) => {{
+                i32::from({ERROR_STRUCT}::from(_e))
             }}
         }}
 
diff --git a/idlc_codegen_rust/src/interface/mod.rs b/idlc_codegen_rust/src/interface/mod.rs
index 7a4bee8..e3498be 100644
--- a/idlc_codegen_rust/src/interface/mod.rs
+++ b/idlc_codegen_rust/src/interface/mod.rs
@@ -41,7 +41,7 @@ pub fn emit(interface: &Interface) -> String {
                     counts,
                     &signature,
                 ));
-                invoke_arms.push(functions::invoke::emit(f, &signature, counts));
+                invoke_arms.push(functions::invoke::emit(interface, f, &signature, counts));
                 trait_functions.push(functions::traits::emit(f, &documentation, &signature));
             }
         }
@@ -62,6 +62,7 @@ pub fn emit(interface: &Interface) -> String {
             .for_each(|f| {
                 let signature = functions::signature::Signature::new(f);
                 invoke_arms.push(functions::invoke::emit(
+                    iface,
                     f,
                     &signature,
                     idlc_codegen::counts::Counter::new(f),
@@ -115,25 +116,25 @@ pub fn emit(interface: &Interface) -> String {
 
         #[inline]
         fn deref(&self) -> &Self::Target {{
-            self.as_ref()
+            AsRef::as_ref(self)
         }}
     }}
 
     impl From<{ident}> for {upcast_target} {{
-        fn from(value: {ident}) -> {upcast_target} {{
-            unsafe {{ std::mem::transmute(value) }}
+        fn from(_value: {ident}) -> {upcast_target} {{
+            unsafe {{ std::mem::transmute(_value) }}
         }}
     }}
 
-    impl<T: I{ident} + 'static> From<T> for {ident} {{
-        fn from(concrete: T) -> Self {{
-            let cx = Box::new(unsafe {{ {wrapper}::new::<T>(Box::new(concrete)) }});
-            unsafe {{ Self({OBJECT}::create({MARKER}, Box::into_raw(cx).cast())) }}
+    impl<_T: I{ident} + 'static> From<_T> for {ident} {{
+        fn from(_concrete: _T) -> Self {{
+            let _cx = Box::new(unsafe {{ {wrapper}::new::<_T>(Box::new(_concrete)) }});
+            unsafe {{ Self({OBJECT}::create({MARKER}, Box::into_raw(_cx).cast())) }}
         }}
     }}
 
-    static {MARKER}: {INVOKE_FN} = invoke;
-    unsafe extern "C" fn invoke({h}: {CONTEXT}, {op}: {OP_ID}, {args}: *mut {ARG}, {counts}: {COUNTS}) -> i32 {{
+    static {MARKER}: {INVOKE_FN} = _invoke;
+    unsafe extern "C" fn _invoke({h}: {CONTEXT}, {op}: {OP_ID}, {args}: *mut {ARG}, {counts}: {COUNTS}) -> i32 {{
         debug_assert_eq!({h}.align_offset(std::mem::align_of::<{wrapper}>()), 0);
         let {cx} = {h}.cast::<{wrapper}>();
         match {op} {{
@@ -160,8 +161,8 @@ pub fn emit(interface: &Interface) -> String {
     /// This function is useful when an implementation gives out an _opaque_ [`{OBJECT}`]
     /// which it recieves later but needs to get the concrete struct behind the object.
     #[inline]
-    pub fn downcast_concrete<R, T: I{ident} + 'static>(obj: &{OBJECT}, f: impl FnMut(&T) -> R) -> Option<R> {{
-        {WRAPPER}::downcast_concrete::<R, T, dyn I{ident}>(obj, {MARKER}, f)
+    pub fn downcast_concrete<R, T: I{ident} + 'static>(_obj: &{OBJECT}, _f: impl FnMut(&T) -> R) -> Option<R> {{
+        {WRAPPER}::downcast_concrete::<R, T, dyn I{ident}>(_obj, {MARKER}, _f)
     }}
     "#,
         h = variable_names::invoke::HANDLE,
-- 
2.43.0

