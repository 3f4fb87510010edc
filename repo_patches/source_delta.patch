From f3552fb1e527e9b0a6bcb7ff8a5b01a2e4ae0bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:43 +0000
Subject: [PATCH 1/2] fix: report the exact size from the category set
 iterator's size_hint

The iterator returned by UnicodeCategorySet::iter() implements
ExactSizeIterator but kept the default size_hint of (0, None), so adaptors
that derive their length from it panicked, e.g. set.iter().take(2).len().
---
 crates/unicode-intervals/src/categories.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/unicode-intervals/src/categories.rs b/crates/unicode-intervals/src/categories.rs
index feac6d0..81e2c7d 100644
--- a/crates/unicode-intervals/src/categories.rs
+++ b/crates/unicode-intervals/src/categories.rs
@@ -498,6 +498,12 @@ impl Iterator for Iter {
         self.data.unset(index);
         Some(category)
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.data.len();
+        (len, Some(len))
+    }
 }
 
 impl ExactSizeIterator for Iter {
-- 
2.43.0


From 271a7b9e5ca9b7c4da60a8fdea5a19e32e023a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:12 +0000
Subject: [PATCH 2/2] fix: accept any iterable of category names in the Python
 bindings

The type stub declares Iterable[str] for query() and as_general_categories(),
but extracting Vec<String> requires a sequence, so sets, frozensets, dict
views and generators were rejected with TypeError. A bare str stays rejected.
---
 crates/unicode-intervals-py/src/lib.rs | 39 +++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/crates/unicode-intervals-py/src/lib.rs b/crates/unicode-intervals-py/src/lib.rs
index a5d00ee..1676234 100644
--- a/crates/unicode-intervals-py/src/lib.rs
+++ b/crates/unicode-intervals-py/src/lib.rs
@@ -1,4 +1,9 @@
-use pyo3::{exceptions::PyValueError, prelude::*, types::PyTuple, wrap_pyfunction};
+use pyo3::{
+    exceptions::{PyTypeError, PyValueError},
+    prelude::*,
+    types::{PyString, PyTuple},
+    wrap_pyfunction,
+};
 use std::sync::OnceLock;
 use unicode_intervals_core::{UnicodeCategory, UnicodeCategorySet, UnicodeVersion as CoreVersion};
 
@@ -90,10 +95,30 @@ impl PyUnicodeVersion {
     }
 }
 
-fn parse_categories(names: Option<Vec<String>>) -> PyResult<Option<UnicodeCategorySet>> {
+/// Category names from any iterable of strings, except a bare `str`.
+struct CategoryNames(Vec<String>);
+
+impl<'py> FromPyObject<'_, 'py> for CategoryNames {
+    type Error = PyErr;
+
+    fn extract(names: Borrowed<'_, 'py, PyAny>) -> PyResult<Self> {
+        if names.is_instance_of::<PyString>() {
+            return Err(PyTypeError::new_err(
+                "expected an iterable of category names, not a single `str`",
+            ));
+        }
+        names
+            .try_iter()?
+            .map(|name| name?.extract())
+            .collect::<PyResult<_>>()
+            .map(Self)
+    }
+}
+
+fn parse_categories(names: Option<CategoryNames>) -> PyResult<Option<UnicodeCategorySet>> {
     match names {
         None => Ok(None),
-        Some(list) => {
+        Some(CategoryNames(list)) => {
             let mut set = UnicodeCategorySet::new();
             for name in list {
                 let category: UnicodeCategory = name
@@ -118,8 +143,8 @@ fn parse_categories(names: Option<Vec<String>>) -> PyResult<Option<UnicodeCatego
 #[allow(clippy::too_many_arguments)]
 fn query(
     py: Python<'_>,
-    categories: Option<Vec<String>>,
-    exclude_categories: Option<Vec<String>>,
+    categories: Option<CategoryNames>,
+    exclude_categories: Option<CategoryNames>,
     min_codepoint: Option<u32>,
     max_codepoint: Option<u32>,
     include_characters: &str,
@@ -170,11 +195,11 @@ fn categories(py: Python<'_>, version: Option<PyUnicodeVersion>) -> PyResult<Py<
 #[pyo3(signature = (categories, version=None))]
 fn as_general_categories(
     py: Python<'_>,
-    categories: Vec<String>,
+    categories: CategoryNames,
     version: Option<PyUnicodeVersion>,
 ) -> PyResult<Py<PyTuple>> {
     let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
-    let expanded = unicode_intervals_core::as_general_categories(&categories, core_version)
+    let expanded = unicode_intervals_core::as_general_categories(&categories.0, core_version)
         .map_err(|e| PyValueError::new_err(e.to_string()))?;
     let names: Vec<String> = expanded.iter().map(ToString::to_string).collect();
     Ok(PyTuple::new(py, names)?.into())
-- 
2.43.0

