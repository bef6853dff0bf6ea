From 576492da6c18d866fee04705478088da05b73519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 01/19] fix: bound a page by its archetype's capacity

A page took the capacity of its id vector for the number of entities it can
hold. A recycled page keeps the larger vector of a former archetype (and a
vector may over-allocate), so entities were placed beyond the rows, over other
components and past the end of the page.
---
 src/archetype_data_page.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index c14ab55..31ccf2b 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -5,6 +5,7 @@ use crate::{archetype::ArchetypesUnion, mem_utils, Archetype, archetype_layout::
 #[derive(Debug)]
 pub struct ArchetypeDataPage {
     entities_ids: Vec<u32>,
+    entities_capacity: usize,
     components_data_ptr: *mut u8,
 }
 
@@ -21,12 +22,13 @@ impl ArchetypeDataPage {
         ArchetypeDataPage {
             components_data_ptr,
             entities_ids: Vec::new(),
+            entities_capacity: 0,
         }
     }
 
     pub(crate) fn set_layout(&mut self, archetype: &ArchetypeLayout) {
-        let capacity = archetype.entities_capacity();
-        self.entities_ids.reserve(capacity);
+        self.entities_capacity = archetype.entities_capacity();
+        self.entities_ids.reserve(self.entities_capacity);
     }
 
     #[inline(always)]
@@ -36,7 +38,7 @@ impl ArchetypeDataPage {
 
     #[inline(always)]
     pub(crate) fn entity_capacity(&self) -> usize {
-        self.entities_ids.capacity()
+        self.entities_capacity
     }
 
     #[inline(always)]
-- 
2.43.0


From c91897c2e4a5fe819fa6b5e69cc197b4de0bc0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 02/19] fix: take a revived archetype off the unsorted free
 list

free_archetypes is a stack in the order the archetypes emptied, so the binary
search missed entries and a slot in use could be handed to another archetype.
---
 src/archetypes_container.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/archetypes_container.rs b/src/archetypes_container.rs
index fc55188..2584fab 100644
--- a/src/archetypes_container.rs
+++ b/src/archetypes_container.rs
@@ -207,10 +207,9 @@ impl ArchetypesContainer {
     fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
         for (i, arch) in self.archetypes.iter().enumerate() {
             if arch.is_same_as(&archetype) {
-                match self.free_archetypes.binary_search(&i) {
-                    Ok(i) => { self.free_archetypes.remove(i); },
-                    Err(_) => {}
-                };
+                if let Some(i) = self.free_archetypes.iter().position(|f| *f == i) {
+                    self.free_archetypes.remove(i);
+                }
 
                 return i;
             }
-- 
2.43.0


From a6d52d13be9a88409ee16c7373911764d37c6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 03/19] fix: skip entities without components in ordered
 queries

An ordered query read the page of every group member, which is stale or never
written for an entity without components.
---
 src/query/ordered_component.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 547f86d..59741e4 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -88,6 +88,11 @@ impl Store {
         let mut entity_count = 0;
 
         while curr_entity != Entity::NULL_ID {
+            if unsafe { !self.has_archetype_unchecked(curr_entity) } {
+                curr_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
+                continue;
+            }
+
             let (curr_page_index, curr_index_in_page) = unsafe {
                 (
                     self.get_page_index_unchecked(curr_entity),
@@ -121,6 +126,10 @@ impl Store {
 
             let mut next_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
             while next_entity != Entity::NULL_ID {
+                if unsafe { !self.has_archetype_unchecked(next_entity) } {
+                    break;
+                }
+
                 let (next_page_index, next_index_in_page) = unsafe {
                     (
                         self.get_page_index_unchecked(next_entity),
-- 
2.43.0


From 48a8329d67af673e7a7861a23928391916d6bab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 04/19] fix: take the entity of an ordered query item from its
 own range

with_entities read the id from the range before the one in progress unless the
item was the last of its range.
---
 src/query/ordered_component.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 59741e4..afa08e6 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -22,6 +22,7 @@ pub struct OrderedComponentQueryIter<'a, T: ComponentQueryAccess> {
     range_pages: &'a [ComponentPageIterView<T>],
 
     next_range_index: u32,
+    current_range_index: u32,
     current_index_in_page: u32,
     next_offset_from_range: u32,
 
@@ -171,6 +172,7 @@ impl Store {
             entity_ranges: &query.index_in_page_ranges,
             range_pages: &query.range_to_page_views,
             next_range_index: 0,
+            current_range_index: 0,
             current_index_in_page: 0,
             next_offset_from_range: 0,
             len
@@ -188,6 +190,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
 
         let curr_range_index = self.next_range_index as usize;
         let current_range = unsafe { self.entity_ranges.get_unchecked(curr_range_index) };
+        self.current_range_index = self.next_range_index;
         self.current_index_in_page = current_range.start + self.next_offset_from_range;
 
         if self.current_index_in_page >= current_range.end - 1 {
@@ -221,7 +224,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for WithEntitiesIter<'a, T> {
             let page = *self
                 .source_iter
                 .range_pages
-                .get_unchecked(self.source_iter.next_range_index.saturating_sub(1) as usize);
+                .get_unchecked(self.source_iter.current_range_index as usize);
 
             let id = *page
                 .entity_ids
-- 
2.43.0


From 0d6b486903e49cd6dc144d071c96fa01d8e22357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 05/19] fix: keep entities without components out of entity
 query ranges

A range was extended over any living entity whose stale page index matched,
even when it has no components.
---
 src/query/entity_component.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/query/entity_component.rs b/src/query/entity_component.rs
index ffcd159..66a65c4 100644
--- a/src/query/entity_component.rs
+++ b/src/query/entity_component.rs
@@ -92,9 +92,13 @@ impl Store {
             while range_end < entities.len() {
                 let inner_entity = entities[range_end];
 
+                if !self.is_valid_entity_with_archetype(inner_entity) {
+                    break;
+                }
+
                 let page_index =
                     unsafe { self.get_page_index_unchecked(inner_entity.id) as usize };
-                if !self.is_alive(inner_entity) | (range_page_index != page_index) {
+                if range_page_index != page_index {
                     break;
                 }
 
-- 
2.43.0


From a96d80508533df3d7d9be83caa7db4b83036b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 06/19] fix: filter by tag without recursion

Every untagged entity in a row took a stack frame, so a long run of them
overflowed the stack.
---
 src/query/component.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index 73a974d..10aff64 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -188,12 +188,10 @@ impl<'a, Q: ComponentQueryAccess> Iterator for FilterTagIter<'a, Q> {
     type Item = (Entity, Q::AccessOutput<'a>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.source_iter.next().and_then(|(e, o)| unsafe {
-            if bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) {
-                Some((e, o))
-            } else {
-                self.next()
-            }
+        let entity_to_has_tag = self.entity_to_has_tag;
+
+        self.source_iter.find(|(e, _)| unsafe {
+            bitvec_utils::is_bit_on(entity_to_has_tag, e.id as usize)
         })
     }
 }
-- 
2.43.0


From d0f760c6698245f057c29598cf6dc441d96cfcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 07/19] fix: check every id in is_exclude_ids

The search narrowed as if the given ids were sorted, and stopped at the first
id that sorts after the last component.
---
 src/archetype.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/archetype.rs b/src/archetype.rs
index 8834b17..1be92d8 100644
--- a/src/archetype.rs
+++ b/src/archetype.rs
@@ -166,18 +166,10 @@ impl Archetype {
     pub fn is_exclude_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        let mut left_idx = 0;
         for id in ids_to_check {
-            let result = self_ids[left_idx..].binary_search(id);
-            match result {
-                Ok(_) => return false,
-                Err(found_idx) => {
-                    if found_idx >= self_ids.len() {
-                        break;
-                    } else {
-                        left_idx = found_idx;
-                    }
-                }
+            let result = self_ids.binary_search(id);
+            if result.is_ok() {
+                return false;
             }
         }
 
-- 
2.43.0


From 961a87790e818148d168d9539e6f6bc778024162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 08/19] fix: do not pass zero-sized layouts to the allocator

An empty resource store, and one of a zero-sized resource, allocated and freed
zero bytes and freed a null pointer, which is undefined behaviour.
---
 src/mem_utils.rs      | 23 +++++++++++++++++++----
 src/resource_store.rs |  2 +-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/mem_utils.rs b/src/mem_utils.rs
index cc8cf5c..d80b0b8 100644
--- a/src/mem_utils.rs
+++ b/src/mem_utils.rs
@@ -1,5 +1,5 @@
 use crate::mem_utils;
-use std::alloc::Layout;
+use std::{alloc::Layout, ptr::NonNull};
 
 pub trait PtrMutReallocExt<T> {
     unsafe fn realloc(self, old_capacity: usize, new_capacity: usize) -> Self;
@@ -11,11 +11,21 @@ pub trait PtrMutReallocExt<T> {
 }
 
 pub unsafe fn alloc<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc(mem_utils::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc(layout) as *mut T
 }
 
 pub unsafe fn alloc_zeroed<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc_zeroed(self::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc_zeroed(layout) as *mut T
 }
 
 pub unsafe fn realloc<T>(
@@ -48,7 +58,12 @@ pub unsafe fn realloc_with_uninit_capacity_zeroing<T>(
 }
 
 pub unsafe fn dealloc<T>(ptr: *mut T, capacity: usize) {
-    std::alloc::dealloc(ptr as *mut u8, mem_utils::layout_of::<T>(capacity))
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return;
+    }
+
+    std::alloc::dealloc(ptr as *mut u8, layout)
 }
 
 pub unsafe fn layout_of<T>(capacity: usize) -> Layout {
diff --git a/src/resource_store.rs b/src/resource_store.rs
index 5425ca2..69aef8c 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -10,7 +10,7 @@ pub struct ResourceStore<T> {
 impl<T> ResourceStore<T> {
     pub fn new() -> ResourceStore<T> {
         ResourceStore {
-            elements: std::ptr::null_mut(),
+            elements: std::ptr::NonNull::dangling().as_ptr(),
             entities_container: EntitiesContainer::new(0),
         }
     }
-- 
2.43.0


From 291eb14f4cccd6e0ce4b50a356dbd6f7a1337d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 09/19] fix: release the elements of a dropped resource store

---
 src/resource_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resource_store.rs b/src/resource_store.rs
index 69aef8c..0ea3649 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -88,5 +88,7 @@ impl<T> Drop for ResourceStore<T> {
 
             unsafe { ManuallyDrop::drop(&mut self.elements.add(i).read()) };
         }
+
+        unsafe { mem_utils::dealloc(self.elements, self.entities_container.capacity()) };
     }
 }
-- 
2.43.0


From 6b545ddaeefb47cb10680d878a69c4109498a5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 10/19] fix: align the page buffer

Offsets in a page are aligned for their component, but the page itself was
allocated with the alignment of a byte, so references to components could be
misaligned.
---
 src/archetype_data_page.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index 31ccf2b..6822984 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -1,4 +1,6 @@
-use crate::{archetype::ArchetypesUnion, mem_utils, Archetype, archetype_layout::ArchetypeLayout};
+use std::alloc::Layout;
+
+use crate::{archetype::ArchetypesUnion, Archetype, archetype_layout::ArchetypeLayout};
 
 /// Reusable page of the components data with a fixed size (4096 Bytes), related to the concrete archetype.
 /// It contains data for all components of the some entities subset
@@ -17,7 +19,7 @@ impl ArchetypeDataPage {
     pub const PAGE_SIZE_BYTES: usize = 4096 * 4;
 
     pub(crate) fn new() -> Self {
-        let components_data_ptr = unsafe { mem_utils::alloc(Self::PAGE_SIZE_BYTES) };
+        let components_data_ptr = unsafe { std::alloc::alloc(Self::buffer_layout()) };
 
         ArchetypeDataPage {
             components_data_ptr,
@@ -26,6 +28,17 @@ impl ArchetypeDataPage {
         }
     }
 
+    /// Aligned to its own size: no component which fits in a page needs more
+    #[inline(always)]
+    const fn buffer_layout() -> Layout {
+        unsafe {
+            Layout::from_size_align_unchecked(
+                Self::PAGE_SIZE_BYTES,
+                Self::PAGE_SIZE_BYTES,
+            )
+        }
+    }
+
     pub(crate) fn set_layout(&mut self, archetype: &ArchetypeLayout) {
         self.entities_capacity = archetype.entities_capacity();
         self.entities_ids.reserve(self.entities_capacity);
@@ -159,6 +172,6 @@ impl ArchetypeDataPage {
 
 impl Drop for ArchetypeDataPage {
     fn drop(&mut self) {
-        unsafe { mem_utils::dealloc(self.components_data_ptr, Self::PAGE_SIZE_BYTES) };
+        unsafe { std::alloc::dealloc(self.components_data_ptr, Self::buffer_layout()) };
     }
 }
-- 
2.43.0


From 57a1c586cf06849413c45c9fbc654d4d45ad141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 11/19] fix: refuse archetypes which do not fit in a page

A component too large for its share of a page gave a capacity of zero: rows
overlapped and ran past the page (caught only by debug assertions, after the
page was taken). Padding before over-aligned rows could also exceed the page,
failing an assertion for archetypes which do fit with fewer entities.
---
 src/archetype_layout.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/archetype_layout.rs b/src/archetype_layout.rs
index acf7d8c..9128e6d 100644
--- a/src/archetype_layout.rs
+++ b/src/archetype_layout.rs
@@ -16,6 +16,11 @@ impl ArchetypeLayout {
         let entities_capacity = unsafe {
             Self::calculate_entities_capacity(sizes, aligns, component_count)
         };
+        assert!(
+            entities_capacity > 0,
+            "Components of the archetype don't fit in a page: {source_archetype}"
+        );
+
         let offsets = unsafe {
             Self::calculate_offsets(sizes, aligns, component_count, entities_capacity)
         };
@@ -35,22 +40,43 @@ impl ArchetypeLayout {
         let ptr_size = std::mem::size_of::<usize>();
 
         let aligns = std::slice::from_raw_parts(aligns, component_count);
-        let max_align = aligns.into_iter().max().unwrap();
+        let max_align = *aligns.into_iter().max().unwrap();
+        if max_align > ArchetypeDataPage::PAGE_SIZE_BYTES {
+            return 0;
+        }
         let max_align = max_align % ptr_size;
 
         let bytes_per_components_row_approx =
             ArchetypeDataPage::PAGE_SIZE_BYTES / component_count - max_align;
 
         let sizes = std::slice::from_raw_parts(sizes, component_count);
-        let entities_capacity = sizes
+        let mut entities_capacity = sizes
             .iter()
             .map(|s| bytes_per_components_row_approx / *s)
             .min()
             .unwrap();
 
+        // The approximation leaves no place for the padding between over-aligned rows
+        while entities_capacity > 0
+            && Self::calculate_size(sizes, aligns, entities_capacity)
+                > ArchetypeDataPage::PAGE_SIZE_BYTES
+        {
+            entities_capacity -= 1;
+        }
+
         entities_capacity
     }
 
+    fn calculate_size(
+        sizes: &[usize],
+        aligns: &[usize],
+        entities_capacity: usize,
+    ) -> usize {
+        std::iter::zip(sizes, aligns).fold(0, |offset, (size, align)| {
+            offset.next_multiple_of(*align) + size * entities_capacity
+        })
+    }
+
     unsafe fn calculate_offsets(
         sizes: *const usize,
         aligns: *const usize,
-- 
2.43.0


From a68a457c59c2045366e5921f91d7f723c5e12e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 12/19] fix: lay out components of zero size

A struct whose fields are all zero-sized is a valid component, but laying it
out divided by its size.
---
 src/archetype_layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archetype_layout.rs b/src/archetype_layout.rs
index 9128e6d..8c9f0e3 100644
--- a/src/archetype_layout.rs
+++ b/src/archetype_layout.rs
@@ -52,7 +52,7 @@ impl ArchetypeLayout {
         let sizes = std::slice::from_raw_parts(sizes, component_count);
         let mut entities_capacity = sizes
             .iter()
-            .map(|s| bytes_per_components_row_approx / *s)
+            .map(|s| bytes_per_components_row_approx / (*s).max(1))
             .min()
             .unwrap();
 
-- 
2.43.0


From dc57fc0686e039498168f7a997a230fc1319cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 13/19] fix: allow to remove the last component of an entity

remove_components panicked on an empty archetype when nothing was left.
---
 src/archetype_builder.rs |  4 ++++
 src/store.rs             | 14 +++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/archetype_builder.rs b/src/archetype_builder.rs
index bac7741..2d0b9c4 100644
--- a/src/archetype_builder.rs
+++ b/src/archetype_builder.rs
@@ -54,6 +54,10 @@ impl ArchetypeBuilder {
         self
     }
 
+    pub(crate) fn is_empty(&self) -> bool {
+        self.component_types.is_empty()
+    }
+
     pub fn build(&mut self) -> Archetype {
         self.component_types.sort_by_key(|a| a.id());
 
diff --git a/src/store.rs b/src/store.rs
index f48a636..951d879 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -176,10 +176,18 @@ impl Store {
                 .get_archetypes()
                 .get_unchecked(prev_arch_index)
         };
-        let new_arch = ArchetypeBuilder::new()
+        let mut builder = ArchetypeBuilder::new();
+        builder
             .include_archetype(&prev_arch)
-            .exclude_components::<T>()
-            .build();
+            .exclude_components::<T>();
+
+        if builder.is_empty() {
+            self.swap_remove_internal(prev_entity_in_arch);
+            unsafe { self.disable_archetype_unchecked(entity.id) };
+            return;
+        }
+
+        let new_arch = builder.build();
 
         self.move_entity_to_other_archetype(entity, &new_arch);
     }
-- 
2.43.0


From 73186325ada1d3a50a91740b5a7f75f14b9fb303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 14/19] fix: check the id bounds in is_alive

Without debug assertions an id beyond the capacity (the null entity among them)
was read out of bounds.
---
 src/entities_container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities_container.rs b/src/entities_container.rs
index 071aae1..1afcb9a 100644
--- a/src/entities_container.rs
+++ b/src/entities_container.rs
@@ -120,7 +120,7 @@ impl EntitiesContainer {
     pub fn is_alive(&self, entity: Entity) -> bool {
         self.debug_validate_id_with_panic(entity.id);
 
-        unsafe {
+        self.validate_id(entity.id) && unsafe {
             self.validate_entity_version(entity)
                 & bitvec_utils::is_bit_on(
                     self.entity_to_is_alive_bitvec,
-- 
2.43.0


From 2daa4d355dd936d1121cfdfc33d561e2c2b527aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 15/19] fix: validate the handle before destroying an entity

The components of whatever lives under the id were removed from their page
before the handle was found to be dead (and with no check at all without debug
assertions).
---
 src/store.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/store.rs b/src/store.rs
index 951d879..7d2a8b8 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -83,6 +83,11 @@ impl Store {
     }
 
     pub fn destroy_entity(&mut self, entity: Entity) {
+        if self.is_alive(entity) == false {
+            debug_assert!(false, "Invalid entity version (It's dead)");
+            return;
+        }
+
         let entity_id = entity.id;
         let has_archetype = unsafe { self.has_archetype_unchecked(entity.id) };
 
-- 
2.43.0


From 9929a5f46a7917ca143e59b2f92651af158f4b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 16/19] fix: ignore tag calls through dead handles

Tags were read and changed by id alone, so a dead handle reached the entity
which reuses its id.
---
 src/tag_container.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tag_container.rs b/src/tag_container.rs
index e9af17c..63cdf05 100644
--- a/src/tag_container.rs
+++ b/src/tag_container.rs
@@ -96,17 +96,21 @@ impl TagContainer {
 impl Store {
     #[inline(always)]
     pub fn add_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.add_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.add_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn remove_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.remove_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.remove_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn has_tag<T: Tag + 'static>(&self, entity: Entity) -> bool {
-        self.tag_container.has_tag::<T>(entity.id)
+        self.is_alive(entity) && self.tag_container.has_tag::<T>(entity.id)
     }
 }
 
-- 
2.43.0


From e69479b98c59586a52d63a48926432b0d9620f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 17/19] fix: ignore order calls through dead handles

Orders were read and changed by id alone, so a dead handle reached the entity
which reuses its id, and a dead one could be linked into a group.
---
 src/order_group_container.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 5843087..49c1fbe 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -341,6 +341,10 @@ impl OrderGroupContainer {
 
 impl Store {
     pub fn add_entity_order_by<T: Tag>(&mut self, entity: Entity) {
+        if !self.is_alive(entity) {
+            return;
+        }
+
         self.order_group_container.add_id_ordered_by::<T>(entity.id);
     }
 
@@ -349,6 +353,10 @@ impl Store {
         entity: Entity,
         next_to_entity: Entity,
     ) {
+        if !self.is_alive(entity) || !self.is_alive(next_to_entity) {
+            return;
+        }
+
         self.order_group_container
             .add_id_next_to_ordered_by::<T>(entity.id, next_to_entity.id)
     }
@@ -358,16 +366,28 @@ impl Store {
         entity: Entity,
         previous_to_entity: Entity,
     ) {
+        if !self.is_alive(entity) || !self.is_alive(previous_to_entity) {
+            return;
+        }
+
         self.order_group_container
             .add_id_previous_to_ordered_by::<T>(entity.id, previous_to_entity.id);
     }
 
     pub fn remove_entity_order_by<T: Tag>(&mut self, entity: Entity) {
+        if !self.is_alive(entity) {
+            return;
+        }
+
         self.order_group_container
             .remove_id_ordered_by::<T>(entity.id);
     }
 
     pub fn get_next_entity_ordered_by<T: Tag>(&self, entity: Entity) -> Option<Entity> {
+        if !self.is_alive(entity) {
+            return None;
+        }
+
         self.order_group_container
             .get_next_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
@@ -377,6 +397,10 @@ impl Store {
         &self,
         entity: Entity,
     ) -> Option<Entity> {
+        if !self.is_alive(entity) {
+            return None;
+        }
+
         self.order_group_container
             .get_previous_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
-- 
2.43.0


From 761a44e1f2b6c99a6cdfab588b0ab7fd34f240fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 18/19] fix: catch adding the only member of an order group
 again

The only member has no links, so the debug assertions let it through and it was
linked to itself, an endless list.
---
 src/order_group_container.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 49c1fbe..a0bbde2 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -51,7 +51,7 @@ impl OrderGroupContainer {
                 let fwd_id = *forward_links.add(entity_id as usize);
                 let bwd_id = &mut *backward_links.add(entity_id as usize);
 
-                Self::assert_entity_has_no_order(entity_id, fwd_id, *bwd_id);
+                Self::assert_entity_has_no_order(entity_id, *head, fwd_id, *bwd_id);
 
                 *forward_links.add(*tail as usize) = entity_id;
                 *bwd_id = *tail;
@@ -68,15 +68,20 @@ impl OrderGroupContainer {
         let OrderGroupInfoMut {
             backward_links,
             forward_links,
+            head,
             tail,
-            ..
         } = unsafe { self.get_order_group_info_unchecked_mut(group_index) };
 
         unsafe {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
-            Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
+            Self::assert_entity_has_no_order(
+                entity_id,
+                *head,
+                *fwd_entity_id,
+                *bwd_entity_id,
+            );
 
             let fwd_after_id = &mut *forward_links.add(next_to_id as usize);
             if *fwd_after_id != Entity::NULL_ID {
@@ -112,7 +117,12 @@ impl OrderGroupContainer {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
-            Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
+            Self::assert_entity_has_no_order(
+                entity_id,
+                *head,
+                *fwd_entity_id,
+                *bwd_entity_id,
+            );
 
             let bwd_previous_to_id = &mut *backward_links.add(previous_to_id as usize);
             if *bwd_previous_to_id != Entity::NULL_ID {
@@ -129,7 +139,17 @@ impl OrderGroupContainer {
         }
     }
 
-    fn assert_entity_has_no_order(entity_id: u32, fwd_id: u32, bwd_id: u32) {
+    fn assert_entity_has_no_order(
+        entity_id: u32,
+        head_id: u32,
+        fwd_id: u32,
+        bwd_id: u32,
+    ) {
+        debug_assert!(
+            head_id != entity_id,
+            "Entity {entity_id} is already the first of the order. Added entity must have no orders"
+        );
+
         debug_assert!(
             fwd_id == Entity::NULL_ID,
             "Entity {entity_id} already reference to the next order of entity {fwd_id}. Added entity must have no orders"
-- 
2.43.0


From 432501432f5fa0d047dac66b3660394ebb173d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 19/19] fix: report the remaining length of query iterators

len() kept the initial count while items were taken and size_hint() disagreed
with it, which breaks the contract of ExactSizeIterator.
---
 src/query/component.rs           | 14 ++++++++------
 src/query/component_page_iter.rs |  9 +++++----
 src/query/ordered_component.rs   | 12 +++++++-----
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index 10aff64..affc347 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -24,7 +24,7 @@ pub struct ComponentsQueryIter<'a, T: ComponentQueryAccess> {
     current_page_iter: ComponentPageIter<'a, T>,
 
     current_page_index: usize,
-    queried_entities_count: usize,
+    remaining_entities_count: usize,
 }
 
 pub struct WithEntitiesIter<'a, T: ComponentQueryAccess> {
@@ -112,7 +112,7 @@ impl Store {
             store: &self,
             page_views: &query.page_views,
             current_page_index: 0,
-            queried_entities_count,
+            remaining_entities_count: queried_entities_count,
         }
     }
 }
@@ -124,6 +124,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
         let current_iter = &mut self.current_page_iter;
 
         if let Some(val) = current_iter.next() {
+            self.remaining_entities_count -= 1;
             return Some(val);
         }
 
@@ -133,6 +134,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
                 unsafe { self.page_views.get_unchecked(self.current_page_index) };
 
             self.current_page_iter = ComponentPageIter::new(*page_view);
+            self.remaining_entities_count -= 1;
 
             return self.current_page_iter.next();
         }
@@ -140,14 +142,14 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
         self.current_page_iter = ComponentPageIter::empty();
         return None;
     }
-}
 
-impl<'a, T: ComponentQueryAccess> ExactSizeIterator for ComponentsQueryIter<'a, T> {
-    fn len(&self) -> usize {
-        self.queried_entities_count
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.remaining_entities_count, Some(self.remaining_entities_count))
     }
 }
 
+impl<'a, T: ComponentQueryAccess> ExactSizeIterator for ComponentsQueryIter<'a, T> {}
+
 impl<'a, T: ComponentQueryAccess> ComponentsQueryIter<'a, T> {
     pub fn with_entities(self) -> WithEntitiesIter<'a, T> {
         let entities_versions = self.store.entities_container.entity_versions();
diff --git a/src/query/component_page_iter.rs b/src/query/component_page_iter.rs
index cc31c9f..5132e78 100644
--- a/src/query/component_page_iter.rs
+++ b/src/query/component_page_iter.rs
@@ -48,10 +48,11 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentPageIter<'a, T> {
         
         return Some(T::ptrs_to_refs(ptrs));
     }
-}
 
-impl<'a, T: ComponentQueryAccess> ExactSizeIterator for ComponentPageIter<'a, T> {
-    fn len(&self) -> usize {
-        self.view.entity_count
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let remaining = self.view.entity_count - self.next_entity_index;
+        (remaining, Some(remaining))
     }
 }
+
+impl<'a, T: ComponentQueryAccess> ExactSizeIterator for ComponentPageIter<'a, T> {}
diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index afa08e6..2d4978b 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -188,6 +188,8 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
             return None;
         }
 
+        self.len -= 1;
+
         let curr_range_index = self.next_range_index as usize;
         let current_range = unsafe { self.entity_ranges.get_unchecked(curr_range_index) };
         self.current_range_index = self.next_range_index;
@@ -205,6 +207,10 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
 
         return Some(T::ptrs_to_refs(ptrs));
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len, Some(self.len))
+    }
 }
 
 impl<'a, T: ComponentQueryAccess> OrderedComponentQueryIter<'a, T> {
@@ -240,8 +246,4 @@ impl<'a, T: ComponentQueryAccess> Iterator for WithEntitiesIter<'a, T> {
     }
 }
 
-impl<'a, T: ComponentQueryAccess> ExactSizeIterator for OrderedComponentQueryIter<'a, T> {
-    fn len(&self) -> usize {
-        self.len
-    }
-}
+impl<'a, T: ComponentQueryAccess> ExactSizeIterator for OrderedComponentQueryIter<'a, T> {}
-- 
2.43.0

