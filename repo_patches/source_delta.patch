From 5cc378fbffd9442791df797e7232c23dc75c0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 01/19] fix: never request or free zero-sized allocations

ResourceStore::new() kept a null element pointer and zero-capacity tables,
and passed both to the allocator on the first create() and on drop.
---
 src/mem_utils.rs      | 23 +++++++++++++++++++----
 src/resource_store.rs |  2 +-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/mem_utils.rs b/src/mem_utils.rs
index cc8cf5c..d80b0b8 100644
--- a/src/mem_utils.rs
+++ b/src/mem_utils.rs
@@ -1,5 +1,5 @@
 use crate::mem_utils;
-use std::alloc::Layout;
+use std::{alloc::Layout, ptr::NonNull};
 
 pub trait PtrMutReallocExt<T> {
     unsafe fn realloc(self, old_capacity: usize, new_capacity: usize) -> Self;
@@ -11,11 +11,21 @@ pub trait PtrMutReallocExt<T> {
 }
 
 pub unsafe fn alloc<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc(mem_utils::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc(layout) as *mut T
 }
 
 pub unsafe fn alloc_zeroed<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc_zeroed(self::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc_zeroed(layout) as *mut T
 }
 
 pub unsafe fn realloc<T>(
@@ -48,7 +58,12 @@ pub unsafe fn realloc_with_uninit_capacity_zeroing<T>(
 }
 
 pub unsafe fn dealloc<T>(ptr: *mut T, capacity: usize) {
-    std::alloc::dealloc(ptr as *mut u8, mem_utils::layout_of::<T>(capacity))
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return;
+    }
+
+    std::alloc::dealloc(ptr as *mut u8, layout)
 }
 
 pub unsafe fn layout_of<T>(capacity: usize) -> Layout {
diff --git a/src/resource_store.rs b/src/resource_store.rs
index 5425ca2..1b61b75 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -10,7 +10,7 @@ pub struct ResourceStore<T> {
 impl<T> ResourceStore<T> {
     pub fn new() -> ResourceStore<T> {
         ResourceStore {
-            elements: std::ptr::null_mut(),
+            elements: unsafe { mem_utils::alloc(0) },
             entities_container: EntitiesContainer::new(0),
         }
     }
-- 
2.43.0


From 4cf117fb6abead51642fbc30ecb2e6feae43df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 02/19] fix: release the element buffer when a ResourceStore is
 dropped

---
 src/resource_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resource_store.rs b/src/resource_store.rs
index 1b61b75..b78178b 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -88,5 +88,7 @@ impl<T> Drop for ResourceStore<T> {
 
             unsafe { ManuallyDrop::drop(&mut self.elements.add(i).read()) };
         }
+
+        unsafe { mem_utils::dealloc(self.elements, self.entities_container.capacity()) };
     }
 }
-- 
2.43.0


From 94acce22ff5e940315d098791738b91c91dd73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 03/19] fix: bound page slots by the layout's capacity, not the
 id vector's

Vec::reserve may allocate more than asked for, and a reused page kept the
larger capacity of its previous component set, so component data was
written past the end of the page.
---
 src/archetype_data_page.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index c14ab55..203ef4d 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -5,6 +5,7 @@ use crate::{archetype::ArchetypesUnion, mem_utils, Archetype, archetype_layout::
 #[derive(Debug)]
 pub struct ArchetypeDataPage {
     entities_ids: Vec<u32>,
+    entities_capacity: usize,
     components_data_ptr: *mut u8,
 }
 
@@ -21,12 +22,14 @@ impl ArchetypeDataPage {
         ArchetypeDataPage {
             components_data_ptr,
             entities_ids: Vec::new(),
+            entities_capacity: 0,
         }
     }
 
     pub(crate) fn set_layout(&mut self, archetype: &ArchetypeLayout) {
         let capacity = archetype.entities_capacity();
         self.entities_ids.reserve(capacity);
+        self.entities_capacity = capacity;
     }
 
     #[inline(always)]
@@ -36,7 +39,7 @@ impl ArchetypeDataPage {
 
     #[inline(always)]
     pub(crate) fn entity_capacity(&self) -> usize {
-        self.entities_ids.capacity()
+        self.entities_capacity
     }
 
     #[inline(always)]
-- 
2.43.0


From 4952379709dd6071e3e6a7a3cbb0256af33e31b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 04/19] fix: allocate page memory aligned for any component
 type

Pages were allocated as bytes, so references to over-aligned components
were misaligned.
---
 src/archetype_data_page.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index 203ef4d..4862760 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -9,6 +9,10 @@ pub struct ArchetypeDataPage {
     components_data_ptr: *mut u8,
 }
 
+/// Memory of a page. A type that fits the page can't have a bigger alignment than the page size
+#[repr(C, align(16384))]
+struct PageData([u8; ArchetypeDataPage::PAGE_SIZE_BYTES]);
+
 pub(crate) struct SwapRemoveInfo {
     pub id_to_replace: u32,
 }
@@ -17,7 +21,7 @@ impl ArchetypeDataPage {
     pub const PAGE_SIZE_BYTES: usize = 4096 * 4;
 
     pub(crate) fn new() -> Self {
-        let components_data_ptr = unsafe { mem_utils::alloc(Self::PAGE_SIZE_BYTES) };
+        let components_data_ptr = unsafe { mem_utils::alloc::<PageData>(1) as *mut u8 };
 
         ArchetypeDataPage {
             components_data_ptr,
@@ -160,6 +164,6 @@ impl ArchetypeDataPage {
 
 impl Drop for ArchetypeDataPage {
     fn drop(&mut self) {
-        unsafe { mem_utils::dealloc(self.components_data_ptr, Self::PAGE_SIZE_BYTES) };
+        unsafe { mem_utils::dealloc(self.components_data_ptr as *mut PageData, 1) };
     }
 }
-- 
2.43.0


From 40ab2fa256933bb4672b8088fdf1065e9113bc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 05/19] fix: find reused archetypes in the unsorted free list

Binary search could miss the archetype, which stayed listed as free and
was then overwritten while its entities were alive.
---
 src/archetypes_container.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/archetypes_container.rs b/src/archetypes_container.rs
index fc55188..743543a 100644
--- a/src/archetypes_container.rs
+++ b/src/archetypes_container.rs
@@ -207,9 +207,10 @@ impl ArchetypesContainer {
     fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
         for (i, arch) in self.archetypes.iter().enumerate() {
             if arch.is_same_as(&archetype) {
-                match self.free_archetypes.binary_search(&i) {
-                    Ok(i) => { self.free_archetypes.remove(i); },
-                    Err(_) => {}
+                // Free archetypes aren't sorted
+                match self.free_archetypes.iter().position(|free_idx| *free_idx == i) {
+                    Some(i) => { self.free_archetypes.remove(i); },
+                    None => {}
                 };
 
                 return i;
-- 
2.43.0


From 6c5876454709fb6768fd4c22cce9e049d5ff4ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 06/19] fix: validate the entity before destroying its
 components

Destroying a dead handle removed the components of the entity now using
its slot before the version check panicked.
---
 src/store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/store.rs b/src/store.rs
index f48a636..114fbce 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -83,6 +83,9 @@ impl Store {
     }
 
     pub fn destroy_entity(&mut self, entity: Entity) {
+        // Validates the entity, so it must go before any other change
+        self.entities_container.destroy_entity(entity);
+
         let entity_id = entity.id;
         let has_archetype = unsafe { self.has_archetype_unchecked(entity.id) };
 
@@ -97,7 +100,6 @@ impl Store {
             self.swap_remove_internal(entity_in_arch);
         }
 
-        self.entities_container.destroy_entity(entity);
         self.tag_container.remove_all_tags_for_entity(entity_id);
         self.order_group_container
             .remove_all_orders_for_id(entity_id);
-- 
2.43.0


From bc84a042cc99931eb6d465eadcfe10d6f1dff3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 07/19] fix: ignore dead entities in tag operations

A stale handle tagged, untagged and read the entity that reused its id,
and tags added to a dead id leaked to the next entity created with it.
---
 src/tag_container.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tag_container.rs b/src/tag_container.rs
index e9af17c..63cdf05 100644
--- a/src/tag_container.rs
+++ b/src/tag_container.rs
@@ -96,17 +96,21 @@ impl TagContainer {
 impl Store {
     #[inline(always)]
     pub fn add_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.add_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.add_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn remove_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.remove_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.remove_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn has_tag<T: Tag + 'static>(&self, entity: Entity) -> bool {
-        self.tag_container.has_tag::<T>(entity.id)
+        self.is_alive(entity) && self.tag_container.has_tag::<T>(entity.id)
     }
 }
 
-- 
2.43.0


From 9ef200907adff4f16839ae9858317b5816b524a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 08/19] fix: ignore dead entities in order group operations

A stale handle changed and read the order of the entity that reused its
id, and could link a dead id into a group.
---
 src/order_group_container.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 5843087..49c1fbe 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -341,6 +341,10 @@ impl OrderGroupContainer {
 
 impl Store {
     pub fn add_entity_order_by<T: Tag>(&mut self, entity: Entity) {
+        if !self.is_alive(entity) {
+            return;
+        }
+
         self.order_group_container.add_id_ordered_by::<T>(entity.id);
     }
 
@@ -349,6 +353,10 @@ impl Store {
         entity: Entity,
         next_to_entity: Entity,
     ) {
+        if !self.is_alive(entity) || !self.is_alive(next_to_entity) {
+            return;
+        }
+
         self.order_group_container
             .add_id_next_to_ordered_by::<T>(entity.id, next_to_entity.id)
     }
@@ -358,16 +366,28 @@ impl Store {
         entity: Entity,
         previous_to_entity: Entity,
     ) {
+        if !self.is_alive(entity) || !self.is_alive(previous_to_entity) {
+            return;
+        }
+
         self.order_group_container
             .add_id_previous_to_ordered_by::<T>(entity.id, previous_to_entity.id);
     }
 
     pub fn remove_entity_order_by<T: Tag>(&mut self, entity: Entity) {
+        if !self.is_alive(entity) {
+            return;
+        }
+
         self.order_group_container
             .remove_id_ordered_by::<T>(entity.id);
     }
 
     pub fn get_next_entity_ordered_by<T: Tag>(&self, entity: Entity) -> Option<Entity> {
+        if !self.is_alive(entity) {
+            return None;
+        }
+
         self.order_group_container
             .get_next_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
@@ -377,6 +397,10 @@ impl Store {
         &self,
         entity: Entity,
     ) -> Option<Entity> {
+        if !self.is_alive(entity) {
+            return None;
+        }
+
         self.order_group_container
             .get_previous_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
-- 
2.43.0


From 697e1df4a7fb7c990dfe8ac86dd4c1e76bb13c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 09/19] fix: skip entities without components in ordered
 queries

Their page index is stale or was never written.
---
 src/query/ordered_component.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 547f86d..59741e4 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -88,6 +88,11 @@ impl Store {
         let mut entity_count = 0;
 
         while curr_entity != Entity::NULL_ID {
+            if unsafe { !self.has_archetype_unchecked(curr_entity) } {
+                curr_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
+                continue;
+            }
+
             let (curr_page_index, curr_index_in_page) = unsafe {
                 (
                     self.get_page_index_unchecked(curr_entity),
@@ -121,6 +126,10 @@ impl Store {
 
             let mut next_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
             while next_entity != Entity::NULL_ID {
+                if unsafe { !self.has_archetype_unchecked(next_entity) } {
+                    break;
+                }
+
                 let (next_page_index, next_index_in_page) = unsafe {
                     (
                         self.get_page_index_unchecked(next_entity),
-- 
2.43.0


From 08d63899068266618883487d4497a15b662ad7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 10/19] fix: skip entities without components inside entity
 query ranges

An entity without components following one on its stale page was yielded
with another entity's components.
---
 src/query/entity_component.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/query/entity_component.rs b/src/query/entity_component.rs
index ffcd159..66a65c4 100644
--- a/src/query/entity_component.rs
+++ b/src/query/entity_component.rs
@@ -92,9 +92,13 @@ impl Store {
             while range_end < entities.len() {
                 let inner_entity = entities[range_end];
 
+                if !self.is_valid_entity_with_archetype(inner_entity) {
+                    break;
+                }
+
                 let page_index =
                     unsafe { self.get_page_index_unchecked(inner_entity.id) as usize };
-                if !self.is_alive(inner_entity) | (range_page_index != page_index) {
+                if range_page_index != page_index {
                     break;
                 }
 
-- 
2.43.0


From 68c9732108399b4d52e5fb9d9eab48dcdd582eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 11/19] fix: pair ordered query items with entities of their
 own range

Only the last item of a range advances next_range_index, so the others
were looked up in the range before theirs.
---
 src/query/ordered_component.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 59741e4..7867e8c 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -21,6 +21,7 @@ pub struct OrderedComponentQueryIter<'a, T: ComponentQueryAccess> {
     entity_ranges: &'a [Range<u32>],
     range_pages: &'a [ComponentPageIterView<T>],
 
+    current_range_index: u32,
     next_range_index: u32,
     current_index_in_page: u32,
     next_offset_from_range: u32,
@@ -170,6 +171,7 @@ impl Store {
 
             entity_ranges: &query.index_in_page_ranges,
             range_pages: &query.range_to_page_views,
+            current_range_index: 0,
             next_range_index: 0,
             current_index_in_page: 0,
             next_offset_from_range: 0,
@@ -186,7 +188,8 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
             return None;
         }
 
-        let curr_range_index = self.next_range_index as usize;
+        self.current_range_index = self.next_range_index;
+        let curr_range_index = self.current_range_index as usize;
         let current_range = unsafe { self.entity_ranges.get_unchecked(curr_range_index) };
         self.current_index_in_page = current_range.start + self.next_offset_from_range;
 
@@ -221,7 +224,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for WithEntitiesIter<'a, T> {
             let page = *self
                 .source_iter
                 .range_pages
-                .get_unchecked(self.source_iter.next_range_index.saturating_sub(1) as usize);
+                .get_unchecked(self.source_iter.current_range_index as usize);
 
             let id = *page
                 .entity_ids
-- 
2.43.0


From 99e1f59c38657c8018823a314346c9bfa5b64f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 12/19] fix: report the remaining length of query iterators

---
 src/query/component.rs           | 5 ++++-
 src/query/component_page_iter.rs | 2 +-
 src/query/ordered_component.rs   | 2 ++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index 73a974d..b1c4726 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -124,6 +124,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
         let current_iter = &mut self.current_page_iter;
 
         if let Some(val) = current_iter.next() {
+            self.queried_entities_count -= 1;
             return Some(val);
         }
 
@@ -134,7 +135,9 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
 
             self.current_page_iter = ComponentPageIter::new(*page_view);
 
-            return self.current_page_iter.next();
+            let val = self.current_page_iter.next();
+            self.queried_entities_count -= val.is_some() as usize;
+            return val;
         }
 
         self.current_page_iter = ComponentPageIter::empty();
diff --git a/src/query/component_page_iter.rs b/src/query/component_page_iter.rs
index cc31c9f..2fd73aa 100644
--- a/src/query/component_page_iter.rs
+++ b/src/query/component_page_iter.rs
@@ -52,6 +52,6 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentPageIter<'a, T> {
 
 impl<'a, T: ComponentQueryAccess> ExactSizeIterator for ComponentPageIter<'a, T> {
     fn len(&self) -> usize {
-        self.view.entity_count
+        self.view.entity_count - self.next_entity_index
     }
 }
diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 7867e8c..aa2a5e4 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -200,6 +200,8 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
             self.next_offset_from_range += 1;
         }
 
+        self.len -= 1;
+
         let page_view = unsafe { self.range_pages.get_unchecked(curr_range_index) };
         let ptrs = T::add_to_ptrs(&page_view.ptrs, self.current_index_in_page as usize);
 
-- 
2.43.0


From 814f627719a7b0d52468eec58d13ca3013fd5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 13/19] fix: skip untagged entities without recursion

A long run of untagged entities overflowed the stack.
---
 src/query/component.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index b1c4726..fdd3410 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -191,12 +191,12 @@ impl<'a, Q: ComponentQueryAccess> Iterator for FilterTagIter<'a, Q> {
     type Item = (Entity, Q::AccessOutput<'a>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.source_iter.next().and_then(|(e, o)| unsafe {
-            if bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) {
-                Some((e, o))
-            } else {
-                self.next()
+        while let Some((e, o)) = self.source_iter.next() {
+            if unsafe { bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) } {
+                return Some((e, o));
             }
-        })
+        }
+
+        None
     }
 }
-- 
2.43.0


From 36b309068a6b558f9122845bdf2531abf69aab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 14/19] fix: check every id in Archetype::is_exclude_ids

The narrowing search used slice-relative positions and assumed sorted
input, so included types were reported as excluded.
---
 src/archetype.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/archetype.rs b/src/archetype.rs
index 8834b17..1be92d8 100644
--- a/src/archetype.rs
+++ b/src/archetype.rs
@@ -166,18 +166,10 @@ impl Archetype {
     pub fn is_exclude_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        let mut left_idx = 0;
         for id in ids_to_check {
-            let result = self_ids[left_idx..].binary_search(id);
-            match result {
-                Ok(_) => return false,
-                Err(found_idx) => {
-                    if found_idx >= self_ids.len() {
-                        break;
-                    } else {
-                        left_idx = found_idx;
-                    }
-                }
+            let result = self_ids.binary_search(id);
+            if result.is_ok() {
+                return false;
             }
         }
 
-- 
2.43.0


From 7d31a94db5f0fe4da1623d95e23c8db9b576731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 15/19] fix: reject order group changes that break the list

Adding the only member again, adding next or previous to an entity that
is not in the group, or to itself, made cycles or unreachable members.
---
 src/order_group_container.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 49c1fbe..0df8388 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -43,6 +43,11 @@ impl OrderGroupContainer {
             tail,
         } = unsafe { self.get_order_group_info_unchecked_mut(group_index) };
 
+        debug_assert!(
+            *head != entity_id,
+            "Entity {entity_id} is already in the order group"
+        );
+
         if *head == Entity::NULL_ID {
             *head = entity_id;
             *tail = entity_id;
@@ -68,8 +73,8 @@ impl OrderGroupContainer {
         let OrderGroupInfoMut {
             backward_links,
             forward_links,
+            head,
             tail,
-            ..
         } = unsafe { self.get_order_group_info_unchecked_mut(group_index) };
 
         unsafe {
@@ -78,6 +83,16 @@ impl OrderGroupContainer {
 
             Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
 
+            debug_assert!(
+                *head != entity_id,
+                "Entity {entity_id} is already in the order group"
+            );
+            debug_assert!(
+                *tail == next_to_id
+                    || *forward_links.add(next_to_id as usize) != Entity::NULL_ID,
+                "Entity {next_to_id} to add next to is not in the order group"
+            );
+
             let fwd_after_id = &mut *forward_links.add(next_to_id as usize);
             if *fwd_after_id != Entity::NULL_ID {
                 *backward_links.add(*fwd_after_id as usize) = entity_id;
@@ -105,7 +120,7 @@ impl OrderGroupContainer {
             backward_links,
             forward_links,
             head,
-            ..
+            tail,
         } = unsafe { self.get_order_group_info_unchecked_mut(group_index) };
 
         unsafe {
@@ -114,6 +129,16 @@ impl OrderGroupContainer {
 
             Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
 
+            debug_assert!(
+                *tail != entity_id,
+                "Entity {entity_id} is already in the order group"
+            );
+            debug_assert!(
+                *head == previous_to_id
+                    || *backward_links.add(previous_to_id as usize) != Entity::NULL_ID,
+                "Entity {previous_to_id} to add previous to is not in the order group"
+            );
+
             let bwd_previous_to_id = &mut *backward_links.add(previous_to_id as usize);
             if *bwd_previous_to_id != Entity::NULL_ID {
                 *forward_links.add(*bwd_previous_to_id as usize) = entity_id;
-- 
2.43.0


From fb1bd183c2908fcc475b85a54fd0acd1ff2b6621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 16/19] fix: allow removing all components of an entity

It panicked while building an empty archetype.
---
 src/archetype_builder.rs |  4 ++++
 src/store.rs             | 14 +++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/archetype_builder.rs b/src/archetype_builder.rs
index bac7741..2d0b9c4 100644
--- a/src/archetype_builder.rs
+++ b/src/archetype_builder.rs
@@ -54,6 +54,10 @@ impl ArchetypeBuilder {
         self
     }
 
+    pub(crate) fn is_empty(&self) -> bool {
+        self.component_types.is_empty()
+    }
+
     pub fn build(&mut self) -> Archetype {
         self.component_types.sort_by_key(|a| a.id());
 
diff --git a/src/store.rs b/src/store.rs
index 114fbce..801758d 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -178,10 +178,18 @@ impl Store {
                 .get_archetypes()
                 .get_unchecked(prev_arch_index)
         };
-        let new_arch = ArchetypeBuilder::new()
+        let mut new_arch_builder = ArchetypeBuilder::new();
+        new_arch_builder
             .include_archetype(&prev_arch)
-            .exclude_components::<T>()
-            .build();
+            .exclude_components::<T>();
+
+        if new_arch_builder.is_empty() {
+            self.swap_remove_internal(prev_entity_in_arch);
+            unsafe { self.disable_archetype_unchecked(entity.id) };
+            return;
+        }
+
+        let new_arch = new_arch_builder.build();
 
         self.move_entity_to_other_archetype(entity, &new_arch);
     }
-- 
2.43.0


From e239e8fe1b938a7d80cc2b60123f013325dac1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 17/19] fix: answer archetype membership tests with repeated
 ids

---
 src/archetype.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/archetype.rs b/src/archetype.rs
index 1be92d8..ff4e1ba 100644
--- a/src/archetype.rs
+++ b/src/archetype.rs
@@ -127,10 +127,6 @@ impl Archetype {
     pub fn is_include_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        if self_ids.len() < ids_to_check.len() {
-            return false;
-        }
-
         for id in ids_to_check {
             let result = self_ids.binary_search(id);
             if result.is_err() {
@@ -144,18 +140,14 @@ impl Archetype {
     pub fn is_include_only_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        if self_ids.len() != ids_to_check.len() {
-            return false;
-        }
-
-        for id in ids_to_check {
-            let result = self_ids.binary_search(id);
-            if result.is_err() {
+        // The ids to check may be repeated, so their count says nothing
+        for id in self_ids {
+            if !ids_to_check.contains(id) {
                 return false;
             }
         }
 
-        return true;
+        return self.is_include_ids(ids_to_check);
     }
 
     #[inline(always)]
-- 
2.43.0


From a77be916d26813ff9fa7692c338de85fa423d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 18/19] fix: list each type once in archetypes made of a tuple

---
 src/component_tuple.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/component_tuple.rs b/src/component_tuple.rs
index 430d6d0..dd04006 100644
--- a/src/component_tuple.rs
+++ b/src/component_tuple.rs
@@ -250,9 +250,9 @@ macro_rules! components_tuple_impl {
 
             fn into_archetype() -> $crate::Archetype
             {
-                let components = &mut $crate::component_types!( $($T),* );
-                components.sort_by_key(|a| a.id());
-                $crate::Archetype::new(components)
+                // The builder keeps one of repeated types
+                let mut builder = $crate::ArchetypeBuilder::new();
+                Self::add_components_to_archetype_builder(&mut builder).build()
             }
 
             #[inline(always)]
-- 
2.43.0


From ceda1e0d80890729aec6e7854d1d47d2558de058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:31 +0000
Subject: [PATCH 19/19] fix: every component set of which a row fits a page can
 be stored

The capacity of a page was estimated from the greatest alignment times the number of
types, so for some sets it came to zero and for others to more rows than fit; both ended
in a panic. The padding of the columns before and the rows themselves bound it instead.
---
 src/archetype_layout.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/archetype_layout.rs b/src/archetype_layout.rs
index acf7d8c..04a348f 100644
--- a/src/archetype_layout.rs
+++ b/src/archetype_layout.rs
@@ -32,23 +32,19 @@ impl ArchetypeLayout {
         aligns: *const usize,
         component_count: usize,
     ) -> usize {
-        let ptr_size = std::mem::size_of::<usize>();
+        let mut row_size = 0;
+        let mut max_padding = 0;
 
-        let aligns = std::slice::from_raw_parts(aligns, component_count);
-        let max_align = aligns.into_iter().max().unwrap();
-        let max_align = max_align % ptr_size;
-
-        let bytes_per_components_row_approx =
-            ArchetypeDataPage::PAGE_SIZE_BYTES / component_count - max_align;
+        for i in 0..component_count {
+            row_size += *sizes.add(i);
+            max_padding += *aligns.add(i) - 1;
+        }
 
-        let sizes = std::slice::from_raw_parts(sizes, component_count);
-        let entities_capacity = sizes
-            .iter()
-            .map(|s| bytes_per_components_row_approx / *s)
-            .min()
-            .unwrap();
+        let bytes_for_rows =
+            ArchetypeDataPage::PAGE_SIZE_BYTES.saturating_sub(max_padding);
 
-        entities_capacity
+        // One row may fit even if there is no room for the maximum padding
+        std::cmp::max(bytes_for_rows / row_size, 1)
     }
 
     unsafe fn calculate_offsets(
-- 
2.43.0

