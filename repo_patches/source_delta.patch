From e49f73e7fe131284c7a71a9fd47e6a06a8f0f423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 01/14] fix: UntypedVec drops zero-sized elements exactly once

pop() on an empty UntypedVec of a ZST returned true and ran the destructor of
an element that does not exist, and dropping an UntypedVec never dropped the
ZST elements still in it (cap is always zero for them).
---
 untyped_vec/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 96c5f89..b9133a8 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -207,7 +207,7 @@ impl UntypedVec {
                 drop_fn(ptr);
             }
             true
-        } else if self.len >= self.type_info.layout.size() {
+        } else if self.len > 0 {
             self.len -= self.type_info.layout.size();
             let ptr = self.data.as_ptr();
             // Safe because we're offsetting inside of the allocation
@@ -362,9 +362,10 @@ impl UntypedVec {
 
 impl Drop for UntypedVec {
     fn drop(&mut self) {
-        if self.cap > 0 {
-            while self.pop() {}
+        // ZSTs never allocate but still need their elements dropping
+        while self.pop() {}
 
+        if self.cap > 0 {
             let layout = Layout::from_size_align(self.cap, self.type_info.layout.align()).unwrap();
             let ptr = self.data.as_ptr();
 
-- 
2.43.0


From 80c20354e36ac959fe6a895011a387611632eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 02/14] fix: UntypedVec::as_slice works for zero-sized elements

as_slice and as_slice_mut divided by the element size before checking for
ZSTs, so both panicked with a remainder by zero.
---
 untyped_vec/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index b9133a8..a411ec5 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -309,11 +309,11 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice<'a, T: 'static>(&'a self) -> &'a [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
 
         let slice_len = if self.type_info.layout.size() == 0 {
             self.len
         } else {
+            assert!(self.len % self.type_info.layout.size() == 0);
             self.len / self.type_info.layout.size()
         };
 
@@ -330,11 +330,11 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice_mut<'a, T: 'static>(&'a mut self) -> &'a mut [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
 
         let slice_len = if self.type_info.layout.size() == 0 {
             self.len
         } else {
+            assert!(self.len % self.type_info.layout.size() == 0);
             self.len / self.type_info.layout.size()
         };
 
-- 
2.43.0


From 1d0766de888b83c1133e6a032a1189454b1c1347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 03/14] fix: UntypedVec hands out aligned pointers without an
 allocation

The dangling pointer used before the first allocation (and always for ZSTs) is
only aligned to one byte, so creating a reference to a zero-sized element of a
more aligned type, running its destructor, or taking a slice of an empty vec
was undefined behaviour (debug builds abort: misaligned pointer dereference).
---
 untyped_vec/src/lib.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index a411ec5..250bc44 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -68,6 +68,16 @@ impl UntypedVec {
         self.len / self.type_info.layout.size()
     }
 
+    /// Pointer to the first element. Until something has been allocated (which never happens for ZSTs) ``data`` is not aligned
+    /// to the layout so a dangling pointer that is aligned gets returned instead.
+    fn data_ptr(&self) -> *mut u8 {
+        if self.cap == 0 {
+            core::ptr::null_mut::<u8>().wrapping_add(self.type_info.layout.align())
+        } else {
+            self.data.as_ptr()
+        }
+    }
+
     /// Length in bytes
     pub fn raw_len(&self) -> usize {
         self.len
@@ -149,7 +159,7 @@ impl UntypedVec {
 
         if self.type_info.layout.size() == 0 {
             if element < self.len {
-                Some(self.data.as_ptr())
+                Some(self.data_ptr())
             } else {
                 None
             }
@@ -176,7 +186,7 @@ impl UntypedVec {
 
         if self.type_info.layout.size() == 0 {
             if element < self.len {
-                Some(self.data.as_ptr())
+                Some(self.data_ptr())
             } else {
                 None
             }
@@ -200,7 +210,7 @@ impl UntypedVec {
     pub fn pop(&mut self) -> bool {
         if self.type_info.layout.size() == 0 && self.len > 0 {
             self.len -= 1;
-            let ptr = self.data.as_ptr();
+            let ptr = self.data_ptr();
             let ptr = ptr as *mut MaybeUninit<u8>;
 
             if let Some(drop_fn) = self.type_info.drop_fn {
@@ -320,7 +330,7 @@ impl UntypedVec {
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts(self.data.as_ptr() as *const T, slice_len)
+            std::slice::from_raw_parts(self.data_ptr() as *const T, slice_len)
         }
     }
 
@@ -341,7 +351,7 @@ impl UntypedVec {
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts_mut(self.data.as_ptr() as *mut T, slice_len)
+            std::slice::from_raw_parts_mut(self.data_ptr() as *mut T, slice_len)
         }
     }
 
@@ -349,14 +359,14 @@ impl UntypedVec {
     ///
     /// Must not mutate through this ptr or use it after it has been invalidated
     pub unsafe fn as_immut_ptr(&self) -> *const u8 {
-        self.data.as_ptr()
+        self.data_ptr()
     }
 
     /// # Safety
     ///
     /// Must not use this ptr after it has been invalidated
     pub unsafe fn as_mut_ptr(&mut self) -> *mut u8 {
-        self.data.as_ptr()
+        self.data_ptr()
     }
 }
 
-- 
2.43.0


From 84396f7c4796b64c60419745ae4f2bb1f681015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 04/14] fix: querying a component type no entity has ever had
 yields nothing

A type can have a component entity without ever having been part of an
archetype (get_or_create_type_id_ecsid, remove_component on an entity without
it), in which case World::query panicked looking up its lock instead of
returning an empty query.
---
 arche_tape/src/static_query.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arche_tape/src/static_query.rs b/arche_tape/src/static_query.rs
index 9496b25..bc05e22 100644
--- a/arche_tape/src/static_query.rs
+++ b/arche_tape/src/static_query.rs
@@ -237,6 +237,8 @@ impl<'a, T: Component> QueryParam<'a> for &'static mut T {
 
     fn fetch_type(world: &World) -> Option<FetchType> {
         let id = *world.type_id_to_ecs_id.get(&TypeId::of::<T>())?;
+        // A component that has never been part of an archetype has nothing to lock or fetch
+        world.lock_lookup.get(&id)?;
         Some(FetchType::Mut(id))
     }
 
@@ -259,6 +261,8 @@ impl<'a, T: Component> QueryParam<'a> for &'static T {
 
     fn fetch_type(world: &World) -> Option<FetchType> {
         let id = *world.type_id_to_ecs_id.get(&TypeId::of::<T>())?;
+        // A component that has never been part of an archetype has nothing to lock or fetch
+        world.lock_lookup.get(&id)?;
         Some(FetchType::Immut(id))
     }
 
-- 
2.43.0


From aea5c27745e5324d9e9ac72f91d115600fa9df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 05/14] fix: get_component_mut_dynamic returns None when the
 entity lacks the component

It already returned None for dead entities and dead components, but panicked
on a HashMap index for a live entity without the component.
---
 arche_tape/src/world.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 6381270..dbddb94 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -866,7 +866,7 @@ impl World {
         };
         let archetype = &mut self.archetypes[archetype_idx.0];
 
-        let component_storage_idx = archetype.comp_lookup[&comp_id];
+        let component_storage_idx = *archetype.comp_lookup.get(&comp_id)?;
 
         Some(
             archetype.component_storages[component_storage_idx]
-- 
2.43.0


From 6582491a8de42c9332f45a09cc6aa04fb317c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 06/14] fix: EntityBuilder rejects duplicate components before
 changing the world

With a duplicate component the archetype lookup could find an unrelated
archetype with the same number of components; the entity had already been
pushed into it when the assertion fired, leaving the other columns one element
short so that later queries read past their end.
---
 arche_tape/src/entity_builder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 707178d..141c3a2 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -228,6 +228,14 @@ impl<'a> EntityBuilder<'a> {
 
     pub fn build(&mut self) -> EcsId {
         use crate::world::{ArchIndex, EntityMeta, InstanceMeta};
+        // Dont add the same component twice, checked before anything in the world is changed
+        for (n, id) in self.comp_ids.iter().enumerate() {
+            assert!(
+                !self.comp_ids[..n].contains(id),
+                "Attempted to add the same component twice in EntityBuilder"
+            );
+        }
+
         if let Some(arch_index) = self.world.find_archetype_dynamic(&self.comp_ids) {
             self.world.archetypes[arch_index.0]
                 .entities
-- 
2.43.0


From 6216b0f4772394a747345f267a81216b304ed42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 07/14] fix: EntityBuilder neither leaks what it never built
 nor builds it twice

A builder that was dropped without being built (or whose build was refused)
leaked the components it had been given and left an entity alive that has no
meta. Calling build a second time moved the same component data into the world
again, so it was dropped twice.
---
 arche_tape/src/entity_builder.rs | 34 +++++++++++++++++++++++++++++++-
 arche_tape/src/world.rs          |  2 +-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 141c3a2..369a439 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -22,11 +22,32 @@ pub struct EntityBuilder<'a> {
 
     num_components: usize,
 
+    built: bool,
+
     world: &'a mut World,
 }
 
 impl<'a> Drop for EntityBuilder<'a> {
     fn drop(&mut self) {
+        // If it was never built the entity and its components aren't owned by the world
+        if self.built == false {
+            self.world.entities.despawn(self.entity);
+
+            let mut data_ptr = self.data.as_ptr();
+            for &comp_id in &self.comp_ids {
+                let component_meta = &self.world.get_entity_meta(comp_id).unwrap().component_meta;
+                // Components in ``self.data`` are not aligned so they're moved somewhere that is to be dropped
+                unsafe {
+                    UntypedVec::new_from_raw(TypeInfo::new(
+                        component_meta.layout,
+                        component_meta.drop_fn,
+                    ))
+                    .push_raw(data_ptr.cast());
+                    data_ptr = data_ptr.offset(component_meta.layout.size() as isize);
+                }
+            }
+        }
+
         // If it never allocated, don't drop
         if self.cap != 0 {
             if let None = self.world.entity_builder_reuse {
@@ -75,6 +96,7 @@ impl<'a> EntityBuilder<'a> {
             entity,
             world,
             num_components: 0,
+            built: false,
         }
     }
 
@@ -94,6 +116,7 @@ impl<'a> EntityBuilder<'a> {
             component_meta,
 
             num_components: 0,
+            built: false,
 
             world,
         }
@@ -129,6 +152,7 @@ impl<'a> EntityBuilder<'a> {
             component_meta,
 
             num_components: 0,
+            built: false,
 
             world,
         }
@@ -191,7 +215,6 @@ impl<'a> EntityBuilder<'a> {
         component: *mut u8,
         component_id: EcsId,
     ) -> Self {
-        self.comp_ids.push(component_id);
         let component_size = self
             .world
             .get_entity_meta(component_id)
@@ -214,6 +237,7 @@ impl<'a> EntityBuilder<'a> {
             );
         }
         self.len += component_size;
+        self.comp_ids.push(component_id);
         self.num_components += 1;
 
         self
@@ -228,6 +252,12 @@ impl<'a> EntityBuilder<'a> {
 
     pub fn build(&mut self) -> EcsId {
         use crate::world::{ArchIndex, EntityMeta, InstanceMeta};
+        // The entity and its components were already moved into the world
+        assert!(
+            self.built == false,
+            "Attempted to build an EntityBuilder twice"
+        );
+
         // Dont add the same component twice, checked before anything in the world is changed
         for (n, id) in self.comp_ids.iter().enumerate() {
             assert!(
@@ -236,6 +266,8 @@ impl<'a> EntityBuilder<'a> {
             );
         }
 
+        self.built = true;
+
         if let Some(arch_index) = self.world.find_archetype_dynamic(&self.comp_ids) {
             self.world.archetypes[arch_index.0]
                 .entities
diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index dbddb94..3232fba 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -263,7 +263,7 @@ pub struct World {
     pub(crate) archetype_bitset: Bitsetsss,
     pub(crate) entities_bitvec: Bitvec,
 
-    entities: Entities,
+    pub(crate) entities: Entities,
 
     ecs_id_meta: Vec<Option<EntityMeta>>,
     pub(crate) type_id_to_ecs_id: HashMap<TypeId, EcsId, crate::utils::TypeIdHasherBuilder>,
-- 
2.43.0


From 8a8b11cd33be733bbb991479b15576147d5647f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 08/14] fix: despawning an entity that is used as a component
 removes it from all entities

This is what the documentation of World::despawn says, but it was a todo!().
Despawning the entity of a component type also left the type mapped to the dead
id, so that adding the component silently did nothing and leaked it.
---
 arche_tape/src/world.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 3232fba..2a95a32 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -341,12 +341,21 @@ impl World {
             return false;
         }
 
-        // TODO: Remove `entity` component from all entities
-        for arch in &self.archetypes {
-            if let Some(_) = arch.comp_lookup.get(&entity) {
-                todo!();
+        // Remove the `entity` component from all entities, this never adds an archetype that has the component
+        for idx in 0..self.archetypes.len() {
+            if self.archetypes[idx].comp_lookup.get(&entity).is_none() {
+                continue;
             }
+
+            while let Some(&with_component) = self.archetypes[idx].entities.last() {
+                self.remove_component_dynamic(with_component, entity);
+            }
+
+            // The index may be reused by an EcsId that isn't in this archetype
+            self.archetype_bitset.set_bit(entity, idx, false);
         }
+        self.lock_lookup.remove(&entity);
+        self.type_id_to_ecs_id.retain(|_, id| *id != entity);
 
         let InstanceMeta { archetype, index } =
             self.get_entity_meta(entity).unwrap().instance_meta.clone();
-- 
2.43.0


From e5114038edaf45483f680a926ef7aab95b482783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:29 +0000
Subject: [PATCH 09/14] fix: a panicking component destructor no longer
 corrupts the archetype

despawn and remove_component dropped components in the middle of moving the
row, so a destructor that panicked left columns of different lengths and stale
entity metas behind, and later queries read past the end of the shorter ones.
Components are now dropped last and the row is removed from every storage.
---
 arche_tape/src/world.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 2a95a32..e922a46 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -178,13 +178,6 @@ impl Archetype {
     ) -> bool {
         assert!(self.entities[entity_idx] == entity);
         self.entities.swap_remove(entity_idx);
-        for storage in self
-            .component_storages
-            .iter_mut()
-            .map(|(_, cell)| cell.get_mut())
-        {
-            storage.swap_remove(entity_idx);
-        }
         entity_metas[entity.uindex()] = None;
 
         if let Some(&swapped_entity) = self.entities.get(entity_idx) {
@@ -195,6 +188,23 @@ impl Archetype {
                 .index = entity_idx;
         }
 
+        // Components are dropped last as their drop impl may panic, if it does the row still has to be removed from the
+        // rest of the storages or they'd no longer be the same length
+        struct RemoveRow<'a>(std::slice::IterMut<'a, (EcsId, UnsafeCell<UntypedVec>)>, usize);
+        impl<'a> RemoveRow<'a> {
+            fn remove(&mut self) {
+                while let Some((_, cell)) = self.0.next() {
+                    cell.get_mut().swap_remove(self.1);
+                }
+            }
+        }
+        impl<'a> Drop for RemoveRow<'a> {
+            fn drop(&mut self) {
+                self.remove();
+            }
+        }
+        RemoveRow(self.component_storages.iter_mut(), entity_idx).remove();
+
         false
     }
 
@@ -360,8 +370,8 @@ impl World {
         let InstanceMeta { archetype, index } =
             self.get_entity_meta(entity).unwrap().instance_meta.clone();
 
-        self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
         self.entities.despawn(entity);
+        self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
         true
     }
 
@@ -834,11 +844,6 @@ impl World {
             skipped_storage = Some(current_archetype.component_storages.len() - 1);
         }
 
-        current_archetype.component_storages[skipped_storage.unwrap()]
-            .1
-            .get_mut()
-            .swap_remove(entity_idx);
-
         target_archetype.entities.push(entity);
         self.ecs_id_meta[entity.uindex()]
             .as_mut()
@@ -856,6 +861,12 @@ impl World {
                 .instance_meta
                 .index = entity_idx;
         }
+
+        // The component is dropped last as its drop impl may panic
+        current_archetype.component_storages[skipped_storage.unwrap()]
+            .1
+            .get_mut()
+            .swap_remove(entity_idx);
     }
 
     pub fn get_component_mut_dynamic(&mut self, entity: EcsId, comp_id: EcsId) -> Option<*mut u8> {
-- 
2.43.0


From c7e8e94c70dc5b2bb4dfa692916868ec464489b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 10/14] fix: a panic while a query is alive no longer makes its
 components unqueryable

---
 arche_tape/src/dyn_query.rs    | 12 +++++++++---
 arche_tape/src/static_query.rs |  6 +++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/arche_tape/src/dyn_query.rs b/arche_tape/src/dyn_query.rs
index 28e305b..9bd8a09 100644
--- a/arche_tape/src/dyn_query.rs
+++ b/arche_tape/src/dyn_query.rs
@@ -1,6 +1,6 @@
 use crate::utils::EitherGuard;
 use crate::{world::Archetype, EcsId, World};
-use std::marker::PhantomData;
+use std::{marker::PhantomData, sync::PoisonError};
 
 struct IntraArchetypeIter<'a, const N: usize> {
     remaining: usize,
@@ -171,8 +171,14 @@ impl<'a, const N: usize> DynQuery<'a, N> {
             if let Some(&idx) = world.lock_lookup.get(ecs_id) {
                 let lock = &world.locks[idx];
                 match fetch {
-                    FetchType::Mut(_) => *guard = EitherGuard::Write(lock.write().unwrap()),
-                    FetchType::Immut(_) => *guard = EitherGuard::Read(lock.read().unwrap()),
+                    FetchType::Mut(_) => {
+                        *guard =
+                            EitherGuard::Write(lock.write().unwrap_or_else(PoisonError::into_inner))
+                    }
+                    FetchType::Immut(_) => {
+                        *guard =
+                            EitherGuard::Read(lock.read().unwrap_or_else(PoisonError::into_inner))
+                    }
                     _ => (),
                 }
             } else {
diff --git a/arche_tape/src/static_query.rs b/arche_tape/src/static_query.rs
index bc05e22..7ce5269 100644
--- a/arche_tape/src/static_query.rs
+++ b/arche_tape/src/static_query.rs
@@ -1,5 +1,5 @@
 use crate::{utils::EitherGuard, world::Archetype, Component, EcsId, FetchType, World};
-use std::{any::TypeId, marker::PhantomData};
+use std::{any::TypeId, marker::PhantomData, sync::PoisonError};
 
 // If we remove the 'static bound here we are required to manually annotate 'static lifetimes for StaticQuery's in
 // arguments of functions even though QueryTuple has a 'static bound in its trait definition
@@ -62,8 +62,8 @@ macro_rules! impl_query_tuple {
                     Some([$($T,)*]) => {
                         [$(
                             match $T {
-                                FetchType::Mut(id) => EitherGuard::Write(world.locks[world.lock_lookup[id]].write().unwrap()),
-                                FetchType::Immut(id) => EitherGuard::Read(world.locks[world.lock_lookup[id]].read().unwrap()),
+                                FetchType::Mut(id) => EitherGuard::Write(world.locks[world.lock_lookup[id]].write().unwrap_or_else(PoisonError::into_inner)),
+                                FetchType::Immut(id) => EitherGuard::Read(world.locks[world.lock_lookup[id]].read().unwrap_or_else(PoisonError::into_inner)),
                                 FetchType::EcsId => EitherGuard::None,
                             },
                         )*]
-- 
2.43.0


From 72d334ddb1a6d90c2570a4b1ff5215614423fe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 11/14] fix: a panicking destructor no longer makes a dropped
 UntypedVec leak its other elements and its memory

---
 untyped_vec/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 250bc44..ffee897 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -372,9 +372,23 @@ impl UntypedVec {
 
 impl Drop for UntypedVec {
     fn drop(&mut self) {
+        // If dropping an element panics the rest of them, and the allocation, still have to be dropped
+        struct DropRest<'a>(&'a mut UntypedVec);
+        impl<'a> Drop for DropRest<'a> {
+            fn drop(&mut self) {
+                while self.0.pop() {}
+                self.0.dealloc();
+            }
+        }
+
         // ZSTs never allocate but still need their elements dropping
-        while self.pop() {}
+        let rest = DropRest(self);
+        while rest.0.pop() {}
+    }
+}
 
+impl UntypedVec {
+    fn dealloc(&mut self) {
         if self.cap > 0 {
             let layout = Layout::from_size_align(self.cap, self.type_info.layout.align()).unwrap();
             let ptr = self.data.as_ptr();
-- 
2.43.0


From 3d2e3a8db441a8d7ab95a0a12078edcbf1908018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 12/14] fix: a panicking destructor no longer makes an
 abandoned builder leak its other components

---
 arche_tape/src/entity_builder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 369a439..06ecb3e 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -29,6 +29,9 @@ pub struct EntityBuilder<'a> {
 
 impl<'a> Drop for EntityBuilder<'a> {
     fn drop(&mut self) {
+        // Dropped last as the drop impl of a component may panic
+        let mut unbuilt = Vec::new();
+
         // If it was never built the entity and its components aren't owned by the world
         if self.built == false {
             self.world.entities.despawn(self.entity);
@@ -38,11 +41,12 @@ impl<'a> Drop for EntityBuilder<'a> {
                 let component_meta = &self.world.get_entity_meta(comp_id).unwrap().component_meta;
                 // Components in ``self.data`` are not aligned so they're moved somewhere that is to be dropped
                 unsafe {
-                    UntypedVec::new_from_raw(TypeInfo::new(
+                    let mut component = UntypedVec::new_from_raw(TypeInfo::new(
                         component_meta.layout,
                         component_meta.drop_fn,
-                    ))
-                    .push_raw(data_ptr.cast());
+                    ));
+                    component.push_raw(data_ptr.cast());
+                    unbuilt.push(component);
                     data_ptr = data_ptr.offset(component_meta.layout.size() as isize);
                 }
             }
-- 
2.43.0


From 5abc9ea64b5daeed1db8a2966607d43cdc58ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 13/14] fix: despawning a component is completed even if a
 destructor of its data panics

---
 arche_tape/src/world.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index e922a46..15af75c 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -351,6 +351,21 @@ impl World {
             return false;
         }
 
+        // If the drop impl of a component panics the rest of the entity still has to be despawned
+        struct DespawnRest<'a>(&'a mut World, EcsId);
+        impl<'a> Drop for DespawnRest<'a> {
+            fn drop(&mut self) {
+                if self.0.entities.is_alive(self.1) {
+                    self.0.despawn_alive(self.1);
+                }
+            }
+        }
+        let rest = DespawnRest(self, entity);
+        rest.0.despawn_alive(entity);
+        true
+    }
+
+    fn despawn_alive(&mut self, entity: EcsId) {
         // Remove the `entity` component from all entities, this never adds an archetype that has the component
         for idx in 0..self.archetypes.len() {
             if self.archetypes[idx].comp_lookup.get(&entity).is_none() {
@@ -372,7 +387,6 @@ impl World {
 
         self.entities.despawn(entity);
         self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
-        true
     }
 
     pub fn is_alive(&self, entity: EcsId) -> bool {
-- 
2.43.0


From ef16e83bbd41a4ac25cc2938879b94bbd2534ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 14/14] fix: a slot that has run out of generations is not
 reused, its ids would be issued a second time

---
 arche_tape/src/entities.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arche_tape/src/entities.rs b/arche_tape/src/entities.rs
index 5aa560a..e90933b 100644
--- a/arche_tape/src/entities.rs
+++ b/arche_tape/src/entities.rs
@@ -117,9 +117,12 @@ impl Entities {
     /// Returns true if entity was despawned
     pub fn despawn(&mut self, to_despawn: EcsId) -> bool {
         if self.is_alive(to_despawn) {
-            let (alive, _) = &mut self.generations[to_despawn.uindex()];
+            let (alive, gen) = &mut self.generations[to_despawn.uindex()];
             *alive = false;
-            self.despawned.push(to_despawn.uindex());
+            // A slot that has run out of generations is never reused or ids from it would be handed out a second time
+            if *gen != u32::MAX {
+                self.despawned.push(to_despawn.uindex());
+            }
             true
         } else {
             false
-- 
2.43.0

