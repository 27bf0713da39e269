From 75c93e8798b470fe5a7fa937d3684759902c71fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:11 +0000
Subject: [PATCH 01/53] fix: a struct with exactly 64 fields overflowed the
 field-set mask

---
 facet-reflect/src/wip/iset.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/iset.rs b/facet-reflect/src/wip/iset.rs
index e18feef..e4ef47c 100644
--- a/facet-reflect/src/wip/iset.rs
+++ b/facet-reflect/src/wip/iset.rs
@@ -46,7 +46,11 @@ impl ISet {
         if count > 64 {
             panic!("ISet can only track up to 64 fields. Count {count} is out of bounds.");
         }
-        let mask = (1 << count) - 1;
+        let mask = if count == 64 {
+            u64::MAX
+        } else {
+            (1 << count) - 1
+        };
         self.0 & mask == mask
     }
 
-- 
2.43.0


From 5ae36ae7b32ea5bdf9de4369eb8c30e070547eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:46 +0000
Subject: [PATCH 02/53] fix: stale field states survived moving a value into a
 list, map or option

The states tracked for the fields of a list element, map key/value or option
payload stayed behind after the element was moved into its container and its
memory freed. A later element allocated at the same address picked them up as
already initialized, and dropping the Wip dropped the freed fields again.
---
 facet-reflect/src/wip/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 6b16ef1..279c245 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -332,6 +332,9 @@ impl<'a> Wip<'a> {
     }
 
     unsafe fn mark_moved_out_of(&mut self, frame: &mut Frame) {
+        // the fields moved along with the value: the memory they were tracked at is about
+        // to be freed, and might be handed out again for another value of the same shape
+        self.evict_fields(frame);
         frame.dealloc_if_needed();
         ISet::clear(&mut frame.istate.fields);
         frame.istate.variant = None;
@@ -1685,6 +1688,12 @@ impl<'a> Wip<'a> {
     /// (because we're about to use `drop_in_place` on it — not
     /// yet though, we need to know the variant for enums, etc.)
     pub fn evict_tree(&mut self, frame: Frame) -> Frame {
+        self.evict_fields(&frame);
+        frame
+    }
+
+    /// Evict all the children of a frame from istates, recursively
+    fn evict_fields(&mut self, frame: &Frame) {
         match frame.shape.def {
             Def::Struct(sd) => {
                 for f in sd.fields {
@@ -1746,7 +1755,6 @@ impl<'a> Wip<'a> {
             }
             _ => {}
         }
-        frame
     }
 
     #[allow(rustdoc::broken_intra_doc_links)]
-- 
2.43.0


From 8730d787eb109d6864bff1e286e17e81cab3e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:46 +0000
Subject: [PATCH 03/53] fix: the frame of an option set to None could be
 written to, or dropped

pop_some_push_none pushes a frame that has the shape of the option's payload and
points at the option, and marked it as initialized. Writing through it (which was
supposed to fail) overwrote the option's bytes, and a Wip dropped after the frame
was popped ran the payload's drop_in_place on the None.
---
 facet-reflect/src/wip/enum_.rs |  1 +
 facet-reflect/src/wip/mod.rs   | 40 +++++++++++++++++++++++++++++-----
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/facet-reflect/src/wip/enum_.rs b/facet-reflect/src/wip/enum_.rs
index e543bd2..a227ae8 100644
--- a/facet-reflect/src/wip/enum_.rs
+++ b/facet-reflect/src/wip/enum_.rs
@@ -17,6 +17,7 @@ impl Wip<'_> {
     /// * `Ok(Self)` if the variant was successfully selected.
     /// * `Err(ReflectError)` if the current frame is not an enum or the variant index is out of bounds.
     pub fn variant(mut self, index: usize) -> Result<Self, ReflectError> {
+        self.check_not_none()?;
         let frame = self.frames.last_mut().unwrap();
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 279c245..2a597cf 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -344,6 +344,20 @@ impl<'a> Wip<'a> {
         self.istates.remove(&frame.id());
     }
 
+    /// Returns an error if the current frame stands for the `None` of an option: it has the
+    /// shape of the option's payload, but there's no payload to write to.
+    fn check_not_none(&self) -> Result<(), ReflectError> {
+        match self.frames.last() {
+            Some(frame) if frame.istate.mode == FrameMode::OptionNone => {
+                Err(ReflectError::OperationFailed {
+                    shape: frame.shape,
+                    operation: "tried to write to an option that was set to None",
+                })
+            }
+            _ => Ok(()),
+        }
+    }
+
     /// Returns the shape of the current frame
     pub fn shape(&self) -> &'static Shape {
         self.frames.last().unwrap().shape
@@ -601,6 +615,7 @@ impl<'a> Wip<'a> {
     /// * `Err(ReflectError)` if the current frame is not a struct or an enum with a selected variant,
     ///   or if the field doesn't exist.
     pub fn field(mut self, index: usize) -> Result<Self, ReflectError> {
+        self.check_not_none()?;
         let frame = self.frames.last_mut().unwrap();
         let shape = frame.shape;
 
@@ -777,6 +792,7 @@ impl<'a> Wip<'a> {
     where
         'a: 'val,
     {
+        self.check_not_none()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: src_shape,
@@ -885,6 +901,7 @@ impl<'a> Wip<'a> {
 
     /// Tries to parse the current frame's value from a string
     pub fn parse(mut self, s: &str) -> Result<Self, ReflectError> {
+        self.check_not_none()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -921,6 +938,7 @@ impl<'a> Wip<'a> {
 
     /// Puts a value using a provided DefaultInPlaceFn in the current frame.
     pub fn put_from_fn(mut self, default_in_place: DefaultInPlaceFn) -> Result<Self, ReflectError> {
+        self.check_not_none()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1037,6 +1055,7 @@ impl<'a> Wip<'a> {
 
     /// Creates an empty list without pushing any elements
     pub fn put_empty_list(mut self) -> Result<Self, ReflectError> {
+        self.check_not_none()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1077,6 +1096,7 @@ impl<'a> Wip<'a> {
 
     /// Creates an empty map without pushing any entries
     pub fn put_empty_map(mut self) -> Result<Self, ReflectError> {
+        self.check_not_none()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1117,6 +1137,7 @@ impl<'a> Wip<'a> {
 
     /// Begins pushback mode for a list/array, allowing elements to be added one by one
     pub fn begin_pushback(mut self) -> Result<Self, ReflectError> {
+        self.check_not_none()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1153,6 +1174,7 @@ impl<'a> Wip<'a> {
 
     /// Begins insertion mode for a map, allowing key-value pairs to be added one by one
     pub fn begin_map_insert(mut self) -> Result<Self, ReflectError> {
+        self.check_not_none()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1192,6 +1214,7 @@ impl<'a> Wip<'a> {
     /// This creates a new frame for the element. When this frame is popped,
     /// the element will be added to the list.
     pub fn push(mut self) -> Result<Self, ReflectError> {
+        self.check_not_none()?;
         // Make sure we're initializing a list
         let frame = self.frames.last().unwrap();
         let list_shape = frame.shape;
@@ -1239,6 +1262,7 @@ impl<'a> Wip<'a> {
 
     /// Prepare to push the `Some(T)` variant of an `Option<T>`.
     pub fn push_some(mut self) -> Result<Self, ReflectError> {
+        self.check_not_none()?;
         // Make sure we're initializing an option
         let frame = self.frames.last().unwrap();
         let option_shape = frame.shape;
@@ -1352,15 +1376,18 @@ impl<'a> Wip<'a> {
         // Now push a `None` frame
         let data = parent_frame.data;
 
-        let mut frame = Frame {
+        let frame = Frame {
             data,
             shape: od.t(),
-            field_index_in_parent: Some(0),
-            istate: IState::new(self.frames.len(), FrameMode::OptionNone, FrameFlags::EMPTY),
+            // the option itself was just marked as initialized
+            field_index_in_parent: None,
+            // there's no `T` in there: this must never look like it holds an initialized value
+            istate: IState::new(
+                self.frames.len(),
+                FrameMode::OptionNone,
+                FrameFlags::EMPTY | FrameFlags::MOVED,
+            ),
         };
-        unsafe {
-            frame.mark_fully_initialized();
-        }
 
         self.frames.push(frame);
 
@@ -1372,6 +1399,7 @@ impl<'a> Wip<'a> {
     /// This creates a new frame for the key. After setting the key value,
     /// call `push_map_value` to create a frame for the corresponding value.
     pub fn push_map_key(mut self) -> Result<Self, ReflectError> {
+        self.check_not_none()?;
         // Make sure we're initializing a map
         let frame = self.frames.last().unwrap();
         let map_shape = frame.shape;
-- 
2.43.0


From 1be714896a6f727e9f228ebad9c9e0c7481a8b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:57 +0000
Subject: [PATCH 04/53] fix: an enum put as a whole was never considered
 initialized

put, put_default and put_from_fn on an enum frame marked it as initialized only
if a variant happened to be selected already, so build failed with
NoVariantSelected although the value was there.
---
 facet-reflect/src/wip/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 2a597cf..b81b177 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -166,10 +166,14 @@ impl Frame {
             Def::Struct(sd) => {
                 self.istate.fields = ISet::all(sd.fields);
             }
-            Def::Enum(_) => {
-                if let Some(variant) = &self.istate.variant {
-                    self.istate.fields = ISet::all(variant.data.fields);
-                }
+            Def::Enum(def) => {
+                // the whole enum was written at once: its discriminant tells which variant it is
+                let value = unsafe {
+                    crate::Peek::unchecked_new(PtrConst::new(self.data.as_byte_ptr()), self.shape)
+                };
+                let variant = *crate::PeekEnum { value, def }.active_variant();
+                self.istate.fields = ISet::all(variant.data.fields);
+                self.istate.variant = Some(variant);
             }
             _ => {
                 self.istate.fields.set(0);
-- 
2.43.0


From d274ed390b7efd3f7745a8773e827af872b5a51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:54 +0000
Subject: [PATCH 05/53] fix: a failed build, or dropping a Wip, leaked or
 corrupted part of the value

A build that failed freed the root without dropping the fields that were set.
Dropping a Wip leaked the fields of enums, panicked when two zero-sized fields
shared an address, and dropped whatever was left over in an arbitrary order,
reading temporaries after freeing them. A field that was deselected halfway
(variant switched) still counted as set in its parent. All of it now goes
through a single routine that walks the tree of a frame; a successful build
uses it too, for temporaries that never made it into the value.
---
 facet-reflect/src/wip/mod.rs | 409 ++++++++++++-----------------------
 1 file changed, 138 insertions(+), 271 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index b81b177..e4fffd1 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -6,7 +6,7 @@ use alloc::string::ToString;
 use owo_colors::OwoColorize;
 
 use alloc::format;
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 use bitflags::bitflags;
 use core::{fmt, marker::PhantomData};
 use facet_core::{
@@ -135,31 +135,6 @@ impl Frame {
         }
     }
 
-    // Safety: only call if is fully initialized
-    unsafe fn drop_and_dealloc_if_needed(mut self) {
-        trace!(
-            "[Frame::drop] Dropping frame for shape {} at {:p}",
-            self.shape.blue(),
-            self.data.as_byte_ptr()
-        );
-        if let Some(drop_in_place) = self.shape.vtable.drop_in_place {
-            unsafe {
-                trace!(
-                    "[Frame::drop] Invoking drop_in_place for shape {} at {:p}",
-                    self.shape.green(),
-                    self.data.as_byte_ptr()
-                );
-                drop_in_place(self.data.assume_init());
-            }
-        } else {
-            trace!(
-                "[Frame::drop] No drop_in_place function for shape {}",
-                self.shape.blue(),
-            );
-        }
-        self.dealloc_if_needed();
-    }
-
     /// Marks the frame as fully initialized
     unsafe fn mark_fully_initialized(&mut self) {
         match self.shape.def {
@@ -335,6 +310,68 @@ impl<'a> Wip<'a> {
         }
     }
 
+    /// Records in the current frame whether the given frame, which was just popped off the
+    /// stack, is initialized — if it's one of its fields.
+    fn update_parent(&mut self, frame: &Frame) {
+        if let (Some(parent), Some(index)) = (self.frames.last_mut(), frame.field_index_in_parent) {
+            if frame.is_fully_initialized() {
+                parent.istate.fields.set(index);
+            } else {
+                parent.istate.fields.unset(index);
+            }
+        }
+    }
+
+    /// Drops everything that's initialized in a frame, and in its children (which aren't tracked
+    /// anymore after that). The frame's own memory is not deallocated.
+    fn deinit(&mut self, frame: &mut Frame) {
+        if frame.is_fully_initialized() {
+            self.evict_fields(frame);
+            if let Some(drop_in_place) = frame.shape.vtable.drop_in_place {
+                unsafe { drop_in_place(frame.data.assume_init()) };
+            }
+        } else {
+            let fields = match frame.shape.def {
+                Def::Struct(sd) => sd.fields,
+                Def::Enum(_) => match &frame.istate.variant {
+                    Some(variant) => variant.data.fields,
+                    None => &[],
+                },
+                _ => &[],
+            };
+            for (i, field) in fields.iter().enumerate() {
+                let field_ptr = unsafe { frame.data.field_uninit_at(field.offset) };
+                let field_id = ValueId::new(field.shape(), field_ptr.as_byte_ptr());
+                let saved = self.istates.remove(&field_id);
+                if frame.istate.fields.has(i) {
+                    if let Some(istate) = saved {
+                        self.evict_fields(&Frame::recompose(field_id, istate));
+                    }
+                    if let Some(drop_in_place) = field.shape().vtable.drop_in_place {
+                        unsafe { drop_in_place(field_ptr.assume_init()) };
+                    }
+                } else if let Some(istate) = saved {
+                    // if it's fully initialized, that's the state of a zero-sized sibling
+                    let mut field_frame = Frame::recompose(field_id, istate);
+                    if !field_frame.is_fully_initialized() {
+                        self.deinit(&mut field_frame);
+                    }
+                }
+            }
+        }
+
+        ISet::clear(&mut frame.istate.fields);
+        frame.istate.variant = None;
+    }
+
+    /// Like [Self::deinit], for the current frame.
+    fn deinit_current(&mut self) {
+        if let Some(mut frame) = self.frames.pop() {
+            self.deinit(&mut frame);
+            self.frames.push(frame);
+        }
+    }
+
     unsafe fn mark_moved_out_of(&mut self, frame: &mut Frame) {
         // the fields moved along with the value: the memory they were tracked at is about
         // to be freed, and might be handed out again for another value of the same shape
@@ -399,58 +436,36 @@ impl<'a> Wip<'a> {
         };
 
         let root_id = *root_id;
-        // We need to *keep* the root istate for the check, so we clone it or get it immutably.
-        // Let's retrieve it immutably first. The `istates` map will be dropped with `Wip` anyway.
-        let root_istate = self
-            .istates
-            .remove(&root_id)
-            .expect("Root ID found but not present in istates, this is a bug"); // Clone needed to avoid borrowing issues later potentially
-
-        let root_frame = Frame::recompose(root_id, root_istate);
-        let root_shape = root_frame.shape;
-        let root_data_ptr = root_frame.data; // Keep the root pointer for the final HeapValue
-
-        // 6. Transfer ownership of the root data to the HeapValue
-        // The root frame should have had the ALLOCATED flag if it was heap allocated.
-        // We need to ensure the Guard takes ownership correctly.
-        // Find the original root istate again to check the flag.
-        let guard = Guard {
-            ptr: root_data_ptr.as_mut_byte_ptr(),
-            layout: root_shape.layout,
-        };
+        let root_shape = root_id.shape;
+        let root_data_ptr = PtrUninit::new(root_id.ptr as *mut u8);
 
         // 3. Initialize `to_check`
-        let mut to_check = alloc::vec![root_frame];
+        let mut to_check = alloc::vec![root_id];
 
-        // 4. Traverse the tree
-        while let Some(frame) = to_check.pop() {
+        // 4. Traverse the tree (everything stays tracked, so that it's cleaned up if we bail out)
+        while let Some(id) = to_check.pop() {
+            let Some(istate) = self.istates.get(&id) else {
+                // not tracked: it was set along with its parent
+                continue;
+            };
             trace!(
                 "Checking frame: shape={} at {:p}, flags={:?}, mode={:?}",
-                frame.shape.blue(),
-                frame.data.as_byte_ptr(),
-                frame.istate.flags.bright_magenta(),
-                frame.istate.mode,
+                id.shape.blue(),
+                id.ptr,
+                istate.flags.bright_magenta(),
+                istate.mode,
             );
 
-            // Skip moved frames
-            if frame.istate.flags.contains(FrameFlags::MOVED) {
-                trace!(
-                    "{}",
-                    "Frame was moved out of, skipping initialization check".yellow()
-                );
-                continue;
-            }
-
             // Check initialization for the current frame
-            match frame.shape.def {
+            match id.shape.def {
                 Def::Struct(sd) => {
-                    if !frame.is_fully_initialized() {
+                    if !istate.fields.are_all_set(sd.fields.len()) {
                         // find the field that's not initialized
                         for i in 0..sd.fields.len() {
-                            if !frame.istate.fields.has(i) {
+                            if !istate.fields.has(i) {
                                 let field = &sd.fields[i];
                                 return Err(ReflectError::UninitializedField {
-                                    shape: frame.shape,
+                                    shape: id.shape,
                                     field_name: field.name,
                                 });
                             }
@@ -462,34 +477,22 @@ impl<'a> Wip<'a> {
                     }
 
                     // If initialized, push children to check stack
-                    #[allow(clippy::unused_enumerate_index)]
-                    for (_i, field) in sd.fields.iter().enumerate() {
+                    for field in sd.fields {
                         let field_shape = field.shape();
-                        let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                        let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
+                        let field_ptr = unsafe { id.ptr.add(field.offset) };
+                        let field_id = ValueId::new(field_shape, field_ptr);
 
-                        if let Some(field_istate) = self.istates.remove(&field_id) {
-                            debug!(
-                                "Queueing struct field check: #{} '{}' of {}: shape={}, ptr={:p}",
-                                _i.to_string().bright_cyan(),
-                                field.name.bright_blue(),
-                                frame.shape.blue(),
-                                field_shape.green(),
-                                field_ptr.as_byte_ptr()
-                            );
-                            let field_frame = Frame::recompose(field_id, field_istate);
-                            to_check.push(field_frame);
-                        }
+                        to_check.push(field_id);
                     }
                 }
                 Def::Enum(_ed) => {
-                    if let Some(variant) = &frame.istate.variant {
-                        if !frame.istate.fields.are_all_set(variant.data.fields.len()) {
+                    if let Some(variant) = &istate.variant {
+                        if !istate.fields.are_all_set(variant.data.fields.len()) {
                             // Find the uninitialized field
                             for (i, field) in variant.data.fields.iter().enumerate() {
-                                if !frame.istate.fields.has(i) {
+                                if !istate.fields.has(i) {
                                     return Err(ReflectError::UninitializedEnumField {
-                                        shape: frame.shape,
+                                        shape: id.shape,
                                         variant_name: variant.name,
                                         field_name: field.name,
                                     });
@@ -502,32 +505,19 @@ impl<'a> Wip<'a> {
                         }
 
                         // If initialized, push children to check stack
-                        #[allow(clippy::unused_enumerate_index)]
-                        for (_i, field) in variant.data.fields.iter().enumerate() {
+                        for field in variant.data.fields {
                             let field_shape = field.shape();
                             // Enum fields are potentially at different offsets depending on the variant layout.
-                            // We assume the `frame.data` points to the start of the enum's data payload
+                            // We assume the `id.ptr` points to the start of the enum's data payload
                             // (after the discriminant if applicable and handled by layout).
-                            let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                            let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-
-                            if let Some(field_istate) = self.istates.remove(&field_id) {
-                                debug!(
-                                    "Queueing enum field check: #{} '{}' of variant '{}' of {}: shape={}, ptr={:p}",
-                                    _i.to_string().bright_cyan(),
-                                    field.name.bright_blue(),
-                                    variant.name.yellow(),
-                                    frame.shape.blue(),
-                                    field_shape.green(),
-                                    field_ptr.as_byte_ptr()
-                                );
-                                let field_frame = Frame::recompose(field_id, field_istate);
-                                to_check.push(field_frame);
-                            }
+                            let field_ptr = unsafe { id.ptr.add(field.offset) };
+                            let field_id = ValueId::new(field_shape, field_ptr);
+
+                            to_check.push(field_id);
                         }
                     } else {
                         // No variant selected is an error during build
-                        return Err(ReflectError::NoVariantSelected { shape: frame.shape });
+                        return Err(ReflectError::NoVariantSelected { shape: id.shape });
                     }
                 }
                 // For types that manage their own contents (List, Map, Option, Scalar, etc.),
@@ -540,20 +530,16 @@ impl<'a> Wip<'a> {
                 | Def::SmartPointer(_)
                 | Def::Array(_)
                 | Def::Slice(_) => {
-                    if !frame.istate.fields.are_all_set(1) {
+                    if !istate.fields.are_all_set(1) {
                         // Check specific modes for better errors
-                        match frame.istate.mode {
+                        match istate.mode {
                             FrameMode::OptionNone => {
                                 // This should technically be marked initialized, but if not, treat as uninit Option
-                                return Err(ReflectError::UninitializedValue {
-                                    shape: frame.shape,
-                                });
+                                return Err(ReflectError::UninitializedValue { shape: id.shape });
                             }
                             // Add more specific checks if needed, e.g., for lists/maps that started but weren't finished?
                             _ => {
-                                return Err(ReflectError::UninitializedValue {
-                                    shape: frame.shape,
-                                });
+                                return Err(ReflectError::UninitializedValue { shape: id.shape });
                             }
                         }
                     }
@@ -568,8 +554,8 @@ impl<'a> Wip<'a> {
                 // Handle other Def variants if necessary
                 _ => {
                     // Default: Check if initialized using the standard method
-                    if !frame.istate.fields.are_all_set(1) {
-                        return Err(ReflectError::UninitializedValue { shape: frame.shape });
+                    if !istate.fields.are_all_set(1) {
+                        return Err(ReflectError::UninitializedValue { shape: id.shape });
                     }
                 }
             }
@@ -598,7 +584,14 @@ impl<'a> Wip<'a> {
             );
         }
 
-        FlatMap::clear(&mut self.istates); // Prevent Drop from running on the successfully built value.
+        // 6. Transfer ownership of the root data to the HeapValue: stop tracking it, so that Drop
+        // only cleans up temporaries that aren't part of the value.
+        let root_istate = self.istates.remove(&root_id).unwrap();
+        self.evict_fields(&Frame::recompose(root_id, root_istate));
+        let guard = Guard {
+            ptr: root_data_ptr.as_mut_byte_ptr(),
+            layout: root_shape.layout,
+        };
 
         Ok(HeapValue {
             guard: Some(guard),
@@ -661,6 +654,7 @@ impl<'a> Wip<'a> {
         };
 
         let field_data = unsafe { frame.data.field_uninit_at(field_offset) };
+        let already_set = frame.istate.fields.has(index);
 
         let mut frame = Frame {
             data: field_data,
@@ -677,7 +671,13 @@ impl<'a> Wip<'a> {
             index.yellow(),
             shape.blue(),
         );
-        if let Some(iset) = self.istates.remove(&frame.id()) {
+        // zero-sized siblings share their address (and so their saved state): don't mix them up
+        let saved = if frame.shape.layout.size() == 0 {
+            None
+        } else {
+            self.istates.remove(&frame.id())
+        };
+        if let Some(iset) = saved {
             trace!(
                 "[{}] Restoring saved state for {} (istate.mode = {:?}, istate.fields = {:?}, istate.flags = {:?}, istate.depth = {:?})",
                 self.frames.len(),
@@ -688,6 +688,9 @@ impl<'a> Wip<'a> {
                 iset.depth
             );
             frame.istate = iset;
+        } else if already_set {
+            // it was set along with its parent
+            unsafe { frame.mark_fully_initialized() };
         } else {
             trace!(
                 "[{}] no saved state for field {} ({}#{}) of {}",
@@ -1386,11 +1389,7 @@ impl<'a> Wip<'a> {
             // the option itself was just marked as initialized
             field_index_in_parent: None,
             // there's no `T` in there: this must never look like it holds an initialized value
-            istate: IState::new(
-                self.frames.len(),
-                FrameMode::OptionNone,
-                FrameFlags::EMPTY | FrameFlags::MOVED,
-            ),
+            istate: IState::new(self.frames.len(), FrameMode::OptionNone, FrameFlags::MOVED),
         };
 
         self.frames.push(frame);
@@ -1546,24 +1545,17 @@ impl<'a> Wip<'a> {
         #[cfg(feature = "log")]
         let frame_shape = frame.shape;
 
-        let init = frame.is_fully_initialized();
         trace!(
             "[{}] {} popped, {} initialized",
             self.frames.len(),
             frame_shape.blue(),
-            if init {
+            if frame.is_fully_initialized() {
                 "✅ fully".style(owo_colors::Style::new().green())
             } else {
                 "🚧 partially".style(owo_colors::Style::new().red())
             }
         );
-        if init {
-            if let Some(parent) = self.frames.last_mut() {
-                if let Some(index) = frame.field_index_in_parent {
-                    parent.istate.fields.set(index);
-                }
-            }
-        }
+        self.update_parent(&frame);
 
         // Handle special frame modes
         match frame.istate.mode {
@@ -1899,22 +1891,22 @@ impl Drop for Wip<'_> {
         trace!("🧹🧹🧹 WIP is dropping");
 
         while let Some(frame) = self.frames.pop() {
+            self.update_parent(&frame);
             self.track(frame);
         }
 
-        let Some((root_id, _)) = self.istates.iter().find(|(_k, istate)| istate.depth == 0) else {
-            trace!("No root found, we probably built already");
-            return;
-        };
-
-        let root_id = *root_id;
-        let root_istate = self.istates.remove(&root_id).unwrap();
-        let root = Frame::recompose(root_id, root_istate);
-        let mut to_clean = vec![root];
-
-        let mut _root_guard: Option<Guard> = None;
-
-        while let Some(mut frame) = to_clean.pop() {
+        // Everything that's left lives in memory we allocated: the root (unless it was built), or
+        // temporaries for list elements, map entries, etc. that never made it into their container.
+        let allocated = self
+            .istates
+            .iter()
+            .filter(|(_, istate)| istate.flags.contains(FrameFlags::ALLOCATED))
+            .map(|(id, _)| *id)
+            .collect::<Vec<_>>();
+
+        for id in allocated {
+            let istate = self.istates.remove(&id).unwrap();
+            let mut frame = Frame::recompose(id, istate);
             trace!(
                 "Cleaning frame: shape={} at {:p}, flags={:?}, mode={:?}, fully_initialized={}",
                 frame.shape.blue(),
@@ -1927,133 +1919,8 @@ impl Drop for Wip<'_> {
                     "❌"
                 }
             );
-
-            if frame.istate.flags.contains(FrameFlags::MOVED) {
-                trace!(
-                    "{}",
-                    "Frame was moved out of, nothing to dealloc/drop_in_place".yellow()
-                );
-                continue;
-            }
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    if frame.is_fully_initialized() {
-                        trace!(
-                            "Dropping fully initialized struct: {} at {:p}",
-                            frame.shape.green(),
-                            frame.data.as_byte_ptr()
-                        );
-                        let frame = self.evict_tree(frame);
-                        unsafe { frame.drop_and_dealloc_if_needed() };
-                    } else {
-                        let num_fields = sd.fields.len();
-                        trace!(
-                            "De-initializing struct {} at {:p} field-by-field ({} fields)",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr(),
-                            num_fields.to_string().bright_cyan()
-                        );
-                        for i in 0..num_fields {
-                            if frame.istate.fields.has(i) {
-                                let field = sd.fields[i];
-                                let field_shape = field.shape();
-                                let field_ptr = unsafe { frame.data.field_init_at(field.offset) };
-                                let field_id = ValueId::new(field_shape, field_ptr.as_byte_ptr());
-                                trace!(
-                                    "Recursively cleaning field #{} '{}' of {}: field_shape={}, field_ptr={:p}",
-                                    i.to_string().bright_cyan(),
-                                    field.name.bright_blue(),
-                                    frame.shape.blue(),
-                                    field_shape.green(),
-                                    field_ptr.as_byte_ptr()
-                                );
-                                let istate = self.istates.remove(&field_id).unwrap();
-                                let field_frame = Frame::recompose(field_id, istate);
-                                to_clean.push(field_frame);
-                            } else {
-                                trace!(
-                                    "Field #{} '{}' of {} was NOT initialized, skipping",
-                                    i.to_string().bright_cyan(),
-                                    sd.fields[i].name.bright_red(),
-                                    frame.shape.red()
-                                );
-                            }
-                        }
-
-                        // we'll also need to clean up if we're root
-                        if frame.istate.mode == FrameMode::Root {
-                            _root_guard = Some(Guard {
-                                ptr: frame.data.as_mut_byte_ptr(),
-                                layout: frame.shape.layout,
-                            });
-                        }
-                    }
-                }
-                Def::Enum(_ed) => {
-                    trace!(
-                        "{}",
-                        format!(
-                            "TODO: handle enum deallocation for {} at {:p}",
-                            frame.shape.yellow(),
-                            frame.data.as_byte_ptr()
-                        )
-                        .magenta()
-                    );
-
-                    // we'll also need to clean up if we're root
-                    if frame.istate.mode == FrameMode::Root {
-                        _root_guard = Some(Guard {
-                            ptr: frame.data.as_mut_byte_ptr(),
-                            layout: frame.shape.layout,
-                        });
-                    }
-                }
-                Def::Array(_)
-                | Def::Slice(_)
-                | Def::List(_)
-                | Def::Map(_)
-                | Def::SmartPointer(_)
-                | Def::Scalar(_)
-                | Def::Option(_) => {
-                    trace!(
-                        "Can drop all at once for shape {} (def variant: {:?}, frame mode {:?}) at {:p}",
-                        frame.shape.cyan(),
-                        frame.shape.def,
-                        frame.istate.mode.yellow(),
-                        frame.data.as_byte_ptr(),
-                    );
-
-                    if frame.is_fully_initialized() {
-                        unsafe { frame.drop_and_dealloc_if_needed() }
-                    } else {
-                        frame.dealloc_if_needed();
-                    }
-                }
-                _ => {}
-            }
-        }
-
-        // We might have some frames left over to deallocate for temporary allocations for keymap insertion etc.
-        let mut all_ids = self.istates.keys().copied().collect::<Vec<_>>();
-        for frame_id in all_ids.drain(..) {
-            let frame_istate = self.istates.remove(&frame_id).unwrap();
-
-            trace!(
-                "Checking leftover istate: id.shape={} id.ptr={:p} mode={:?}",
-                frame_id.shape.cyan(),
-                frame_id.ptr,
-                frame_istate.mode.yellow()
-            );
-            let mut frame = Frame::recompose(frame_id, frame_istate);
-
-            if frame.is_fully_initialized() {
-                trace!("It's fully initialized, we can drop it");
-                unsafe { frame.drop_and_dealloc_if_needed() };
-            } else if frame.istate.flags.contains(FrameFlags::ALLOCATED) {
-                trace!("Not initialized but allocated, let's free it");
-                frame.dealloc_if_needed();
-            }
+            self.deinit(&mut frame);
+            frame.dealloc_if_needed();
         }
     }
 }
-- 
2.43.0


From 3732fcacd844ab9f84d8f8bb578a1130e954cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:27 +0000
Subject: [PATCH 06/53] fix: setting a value twice leaked or overwrote what was
 there

A rejected put (wrong shape, field already set) leaked its argument, and when the
field was already set it was overwritten before being rejected. Setting a root,
element or option again, switching variants, or going back to None leaked the
previous value, and left the states of its fields behind.
---
 facet-reflect/src/wip/enum_.rs |   9 +--
 facet-reflect/src/wip/mod.rs   | 124 +++++++++++++++++----------------
 2 files changed, 69 insertions(+), 64 deletions(-)

diff --git a/facet-reflect/src/wip/enum_.rs b/facet-reflect/src/wip/enum_.rs
index a227ae8..e4da002 100644
--- a/facet-reflect/src/wip/enum_.rs
+++ b/facet-reflect/src/wip/enum_.rs
@@ -3,7 +3,7 @@ use facet_core::{Def, FieldError, Variant};
 use owo_colors::OwoColorize;
 
 use crate::trace;
-use crate::{ISet, ReflectError, Wip};
+use crate::{ReflectError, Wip};
 
 impl Wip<'_> {
     /// Selects a variant of an enum by index.
@@ -18,7 +18,7 @@ impl Wip<'_> {
     /// * `Err(ReflectError)` if the current frame is not an enum or the variant index is out of bounds.
     pub fn variant(mut self, index: usize) -> Result<Self, ReflectError> {
         self.check_not_none()?;
-        let frame = self.frames.last_mut().unwrap();
+        let frame = self.frames.last().unwrap();
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
             return Err(ReflectError::WasNotA {
@@ -36,8 +36,9 @@ impl Wip<'_> {
 
         let variant = def.variants[index];
 
-        // Reset the field initialization state since we're selecting a new variant
-        ISet::clear(&mut frame.istate.fields);
+        // Drop the fields of the variant that was selected before, if any
+        self.deinit_current();
+        let frame = self.frames.last_mut().unwrap();
 
         // Write the discriminant value based on the enum's representation
         let discriminant = variant.discriminant;
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index e4fffd1..39d71ef 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -1,8 +1,6 @@
 use crate::{ReflectError, ValueId};
 use crate::{debug, trace};
 #[cfg(feature = "log")]
-use alloc::string::ToString;
-#[cfg(feature = "log")]
 use owo_colors::OwoColorize;
 
 use alloc::format;
@@ -365,7 +363,7 @@ impl<'a> Wip<'a> {
     }
 
     /// Like [Self::deinit], for the current frame.
-    fn deinit_current(&mut self) {
+    pub(crate) fn deinit_current(&mut self) {
         if let Some(mut frame) = self.frames.pop() {
             self.deinit(&mut frame);
             self.frames.push(frame);
@@ -399,6 +397,23 @@ impl<'a> Wip<'a> {
         }
     }
 
+    /// Returns an error if the current frame can't be written to as a whole: a field can only be
+    /// set once.
+    fn check_can_put(&self) -> Result<(), ReflectError> {
+        self.check_not_none()?;
+        if let [.., parent, frame] = &self.frames[..] {
+            if let Some(index) = frame.field_index_in_parent {
+                if parent.istate.fields.has(index) {
+                    return Err(ReflectError::OperationFailed {
+                        shape: frame.shape,
+                        operation: "tried to set a field that was already set",
+                    });
+                }
+            }
+        }
+        Ok(())
+    }
+
     /// Returns the shape of the current frame
     pub fn shape(&self) -> &'static Shape {
         self.frames.last().unwrap().shape
@@ -779,7 +794,9 @@ impl<'a> Wip<'a> {
         let shape = T::SHAPE;
         let ptr_const = PtrConst::new(&t as *const T as *const u8);
         let res = self.put_shape(ptr_const, shape);
-        core::mem::forget(t); // avoid double drop; ownership moved into Wip
+        if res.is_ok() {
+            core::mem::forget(t); // avoid double drop; ownership moved into Wip
+        }
         res
     }
 
@@ -799,7 +816,7 @@ impl<'a> Wip<'a> {
     where
         'a: 'val,
     {
-        self.check_not_none()?;
+        self.check_can_put()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: src_shape,
@@ -844,50 +861,9 @@ impl<'a> Wip<'a> {
             });
         }
 
-        // de-initialize partially initialized fields, if any
-        if frame.istate.variant.is_some() || frame.istate.fields.is_any_set() {
-            debug!(
-                "De-initializing partially initialized fields for {}",
-                frame.shape
-            );
-
-            match frame.shape.def {
-                Def::Struct(sd) => {
-                    for (i, field) in sd.fields.iter().enumerate() {
-                        if frame.istate.fields.has(i) {
-                            if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                unsafe {
-                                    let field_ptr = frame.data.as_mut_byte_ptr().add(field.offset);
-                                    drop_fn(PtrMut::new(field_ptr));
-                                }
-                            }
-                        }
-                    }
-                }
-                Def::Enum(_) => {
-                    if let Some(variant) = &frame.istate.variant {
-                        for (i, field) in variant.data.fields.iter().enumerate() {
-                            if frame.istate.fields.has(i) {
-                                if let Some(drop_fn) = field.shape().vtable.drop_in_place {
-                                    unsafe {
-                                        let field_ptr =
-                                            frame.data.as_mut_byte_ptr().add(field.offset);
-                                        drop_fn(PtrMut::new(field_ptr));
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-                _ => {
-                    // For scalar types, nothing to do if not fully initialized
-                }
-            }
-
-            // Reset initialization state
-            frame.istate.variant = None;
-            ISet::clear(&mut frame.istate.fields);
-        }
+        // drop whatever was already there, if anything
+        self.deinit_current();
+        let frame = self.frames.last_mut().unwrap();
 
         unsafe {
             // Copy the contents from src to destination
@@ -908,7 +884,7 @@ impl<'a> Wip<'a> {
 
     /// Tries to parse the current frame's value from a string
     pub fn parse(mut self, s: &str) -> Result<Self, ReflectError> {
-        self.check_not_none()?;
+        self.check_can_put()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -925,6 +901,11 @@ impl<'a> Wip<'a> {
                 operation: "type does not implement Parse",
             });
         };
+
+        // drop whatever was already there, if anything
+        self.deinit_current();
+        let frame = self.frames.last_mut().unwrap();
+
         match unsafe { (parse_fn)(s, frame.data) } {
             Ok(_res) => {
                 unsafe {
@@ -945,7 +926,11 @@ impl<'a> Wip<'a> {
 
     /// Puts a value using a provided DefaultInPlaceFn in the current frame.
     pub fn put_from_fn(mut self, default_in_place: DefaultInPlaceFn) -> Result<Self, ReflectError> {
-        self.check_not_none()?;
+        self.check_can_put()?;
+
+        // drop whatever was already there, if anything
+        self.deinit_current();
+
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1062,7 +1047,7 @@ impl<'a> Wip<'a> {
 
     /// Creates an empty list without pushing any elements
     pub fn put_empty_list(mut self) -> Result<Self, ReflectError> {
-        self.check_not_none()?;
+        self.check_can_put()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1087,6 +1072,10 @@ impl<'a> Wip<'a> {
             });
         };
 
+        // drop whatever was already there, if anything
+        self.deinit_current();
+        let frame = self.frames.last_mut().unwrap();
+
         unsafe {
             default_in_place(frame.data);
             frame.mark_fully_initialized();
@@ -1103,7 +1092,7 @@ impl<'a> Wip<'a> {
 
     /// Creates an empty map without pushing any entries
     pub fn put_empty_map(mut self) -> Result<Self, ReflectError> {
-        self.check_not_none()?;
+        self.check_can_put()?;
         let Some(frame) = self.frames.last_mut() else {
             return Err(ReflectError::OperationFailed {
                 shape: <()>::SHAPE,
@@ -1128,6 +1117,10 @@ impl<'a> Wip<'a> {
             });
         };
 
+        // drop whatever was already there, if anything
+        self.deinit_current();
+        let frame = self.frames.last_mut().unwrap();
+
         unsafe {
             default_in_place(frame.data);
             frame.mark_fully_initialized();
@@ -1346,10 +1339,15 @@ impl<'a> Wip<'a> {
             });
         }
 
-        frame.dealloc_if_needed();
+        // 2. Drop what was set so far (if anything), and free the memory
+        self.deinit_current();
 
         // 3. Pop the frame (this discards, doesn't propagate up)
-        let _frame = self.frames.pop().expect("frame already checked");
+        let mut frame = self.frames.pop().expect("frame already checked");
+        frame.dealloc_if_needed();
+
+        // the parent option might have been set earlier, too
+        self.deinit_current();
 
         // 4. Set parent option (which we just popped into) to default (None)
         let parent_frame = self
@@ -1671,11 +1669,17 @@ impl<'a> Wip<'a> {
                                 parent_shape.blue()
                             );
                             unsafe {
-                                // Call the option's init_some function
-                                (option_def.vtable.init_some_fn)(
-                                    parent_frame.data,
-                                    PtrConst::new(frame.data.as_byte_ptr()),
-                                );
+                                let value = PtrConst::new(frame.data.as_byte_ptr());
+                                if parent_frame.istate.fields.is_any_set() {
+                                    // The option already had a value: this drops it
+                                    (option_def.vtable.replace_with_fn)(
+                                        parent_frame.data.assume_init(),
+                                        Some(value),
+                                    );
+                                } else {
+                                    // Call the option's init_some function
+                                    (option_def.vtable.init_some_fn)(parent_frame.data, value);
+                                }
                                 trace!("Marking parent frame as fully initialized");
                                 parent_frame.mark_fully_initialized();
 
-- 
2.43.0


From 8d5d42fe26b74f56e6ab31f910fb30624c6a1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 07/53] fix: cloning a value through its vtable wrote a
 reference instead of a clone

---
 facet-core/src/impls_alloc/btreemap.rs | 24 ++++++++++++++++++++----
 facet-core/src/impls_alloc/vec.rs      | 19 ++++++++++++++++---
 facet-core/src/impls_core/slice.rs     |  2 +-
 facet-core/src/impls_std/hashmap.rs    | 24 ++++++++++++++++++++----
 facet-core/src/spez/mod.rs             |  4 ++--
 5 files changed, 59 insertions(+), 14 deletions(-)

diff --git a/facet-core/src/impls_alloc/btreemap.rs b/facet-core/src/impls_alloc/btreemap.rs
index 7e3a2b4..0ddb130 100644
--- a/facet-core/src/impls_alloc/btreemap.rs
+++ b/facet-core/src/impls_alloc/btreemap.rs
@@ -1,4 +1,4 @@
-use core::{alloc::Layout, write};
+use core::{alloc::Layout, mem::MaybeUninit, write};
 
 use alloc::{
     boxed::Box,
@@ -7,7 +7,7 @@ use alloc::{
 
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, PtrConst, PtrMut,
-    Shape, ValueVTable,
+    PtrUninit, Shape, ValueVTable,
 };
 
 struct BTreeMapIterator<'mem, K> {
@@ -80,8 +80,24 @@ where
 
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<BTreeMap<K, V>>()) });
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<BTreeMap<K, V>>();
+                            let k_clone = K::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let v_clone = V::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut cloned = BTreeMap::<K, V>::new();
+                            for (key, val) in src {
+                                let mut k = MaybeUninit::<K>::uninit();
+                                k_clone(PtrConst::new(key), PtrUninit::from_maybe_uninit(&mut k));
+                                let k = k.assume_init();
+                                let mut v = MaybeUninit::<V>::uninit();
+                                v_clone(PtrConst::new(val), PtrUninit::from_maybe_uninit(&mut v));
+                                cloned.insert(k, v.assume_init());
+                            }
+                            dst.put(cloned)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
diff --git a/facet-core/src/impls_alloc/vec.rs b/facet-core/src/impls_alloc/vec.rs
index c5230bc..b1c749a 100644
--- a/facet-core/src/impls_alloc/vec.rs
+++ b/facet-core/src/impls_alloc/vec.rs
@@ -1,5 +1,5 @@
 use crate::*;
-use core::{alloc::Layout, hash::Hash as _};
+use core::{alloc::Layout, hash::Hash as _, mem::MaybeUninit};
 
 use alloc::vec::Vec;
 
@@ -30,8 +30,21 @@ where
                             }
                         })
                         .drop_in_place(|value| unsafe { value.drop_in_place::<Vec<T>>() })
-                        .default_in_place(|target| unsafe { target.put(Self::default()) })
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<Vec<T>>()) });
+                        .default_in_place(|target| unsafe { target.put(Self::default()) });
+
+                    if T::SHAPE.vtable.clone_into.is_some() {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<Vec<T>>();
+                            let t_clone = T::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut cloned = Vec::<T>::with_capacity(src.len());
+                            for item in src {
+                                let mut slot = MaybeUninit::<T>::uninit();
+                                t_clone(PtrConst::new(item), PtrUninit::from_maybe_uninit(&mut slot));
+                                cloned.push(slot.assume_init());
+                            }
+                            dst.put(cloned)
+                        });
+                    }
 
                     if T::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| {
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index cab0c32..1b31b4d 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -57,7 +57,7 @@ where
                         .clone_into(|src, dst| unsafe {
                             // This works because we're cloning a shared reference (&[T]), not the actual slice data.
                             // We're just copying the fat pointer (ptr + length) that makes up the slice reference.
-                            dst.put(src.get::<&[T]>())
+                            dst.put(*src.get::<&[T]>())
                         });
 
                     if T::SHAPE.vtable.debug.is_some() {
diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 9b23a66..f2ae541 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,9 +1,9 @@
 use alloc::collections::VecDeque;
-use core::{alloc::Layout, hash::Hash};
+use core::{alloc::Layout, hash::Hash, mem::MaybeUninit};
 use std::collections::HashMap;
 use std::hash::RandomState;
 
-use crate::ptr::{PtrConst, PtrMut};
+use crate::ptr::{PtrConst, PtrMut, PtrUninit};
 
 use crate::{
     ConstTypeId, Def, Facet, MapDef, MapIterVTable, MapVTable, MarkerTraits, ScalarAffinity,
@@ -85,8 +85,24 @@ where
                     builder =
                         builder.default_in_place(|target| unsafe { target.put(Self::default()) });
 
-                    builder = builder
-                        .clone_into(|src, dst| unsafe { dst.put(src.get::<HashMap<K, V>>()) });
+                    if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
+                    {
+                        builder = builder.clone_into(|src, dst| unsafe {
+                            let src = src.get::<HashMap<K, V>>();
+                            let k_clone = K::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let v_clone = V::SHAPE.vtable.clone_into.unwrap_unchecked();
+                            let mut cloned = HashMap::<K, V>::new();
+                            for (key, val) in src {
+                                let mut k = MaybeUninit::<K>::uninit();
+                                k_clone(PtrConst::new(key), PtrUninit::from_maybe_uninit(&mut k));
+                                let k = k.assume_init();
+                                let mut v = MaybeUninit::<V>::uninit();
+                                v_clone(PtrConst::new(val), PtrUninit::from_maybe_uninit(&mut v));
+                                cloned.insert(k, v.assume_init());
+                            }
+                            dst.put(cloned)
+                        });
+                    }
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
diff --git a/facet-core/src/spez/mod.rs b/facet-core/src/spez/mod.rs
index 0cabf70..eeb6196 100644
--- a/facet-core/src/spez/mod.rs
+++ b/facet-core/src/spez/mod.rs
@@ -160,9 +160,9 @@ pub trait SpezCloneIntoYes {
     /// has sufficient space allocated for type `T`.
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem>;
 }
-impl<T: Clone> SpezCloneIntoYes for &Spez<T> {
+impl<T: Clone> SpezCloneIntoYes for &Spez<&T> {
     unsafe fn spez_clone_into<'mem>(&self, target: PtrUninit<'mem>) -> PtrMut<'mem> {
-        unsafe { target.put(self.0.clone()) }
+        unsafe { target.put(T::clone(self.0)) }
     }
 }
 
-- 
2.43.0


From b6208dee6c75bd71cd42e01eab20504b8e2d66c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:01 +0000
Subject: [PATCH 08/53] fix: tuples were never dropped, and their Debug could
 call a missing function

---
 facet-core/src/impls_core/tuple.rs | 151 ++++++++++++++++++++++++++---
 facet-dev/src/tuples.rs            |  23 ++++-
 2 files changed, 158 insertions(+), 16 deletions(-)

diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index 2668fab..76c0a40 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -62,9 +62,10 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0>)
+                        .drop_in_place(|data| unsafe { data.drop_in_place::<(T0,)>() })
                         .marker_traits(T0::SHAPE.vtable.marker_traits);
 
-                    if Characteristic::Eq.all(&[T0::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0,)>() };
                             write!(f, "(")?;
@@ -74,7 +75,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0,)>() };
                             let b = unsafe { b.get::<(T0,)>() };
@@ -122,6 +125,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1>)
+                        .drop_in_place(|data| unsafe { data.drop_in_place::<(T0, T1)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -129,7 +133,7 @@ where
                                 .intersection(T1::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1)>() };
                             write!(f, "(")?;
@@ -144,7 +148,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1)>() };
                             let b = unsafe { b.get::<(T0, T1)>() };
@@ -206,6 +212,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2>)
+                        .drop_in_place(|data| unsafe { data.drop_in_place::<(T0, T1, T2)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -214,7 +221,7 @@ where
                                 .intersection(T2::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2)>() };
                             write!(f, "(")?;
@@ -234,7 +241,9 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2)>() };
                             let b = unsafe { b.get::<(T0, T1, T2)>() };
@@ -325,6 +334,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3>)
+                        .drop_in_place(|data| unsafe { data.drop_in_place::<(T0, T1, T2, T3)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -334,7 +344,7 @@ where
                                 .intersection(T3::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
+                    if Characteristic::Debug.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE]) {
                         builder = builder.debug(|value, f| {
                             let value = unsafe { value.get::<(T0, T1, T2, T3)>() };
                             write!(f, "(")?;
@@ -359,7 +369,10 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[T0::SHAPE, T1::SHAPE, T2::SHAPE, T3::SHAPE])
+                    {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3)>() };
@@ -465,6 +478,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -475,7 +491,7 @@ where
                                 .intersection(T4::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -511,7 +527,15 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4)>() };
@@ -642,6 +666,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4, T5)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -653,7 +680,7 @@ where
                                 .intersection(T5::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -695,7 +722,16 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5)>() };
@@ -842,6 +878,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -854,7 +893,7 @@ where
                                 .intersection(T6::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -902,7 +941,17 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6)>() };
@@ -1065,6 +1114,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1078,7 +1130,7 @@ where
                                 .intersection(T7::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1132,7 +1184,18 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7)>() };
@@ -1311,6 +1374,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1325,7 +1391,7 @@ where
                                 .intersection(T8::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1386,7 +1452,19 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8)>() };
@@ -1582,6 +1660,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1597,7 +1678,7 @@ where
                                 .intersection(T9::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1664,7 +1745,20 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
                             let b = unsafe { b.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9)>() };
@@ -1888,6 +1982,9 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>)
+                        .drop_in_place(|data| unsafe {
+                            data.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>()
+                        })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -1904,7 +2001,7 @@ where
                                 .intersection(T10::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -1978,7 +2075,21 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                        T10::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a =
                                 unsafe { a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10)>() };
@@ -2234,6 +2345,7 @@ where
                 &const {
                     let mut builder = ValueVTable::builder()
                         .type_name(type_name::<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>)
+                        .drop_in_place(|data| unsafe { data.drop_in_place::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>() })
                         .marker_traits({
                             T0::SHAPE
                                 .vtable
@@ -2251,7 +2363,7 @@ where
                                 .intersection(T11::SHAPE.vtable.marker_traits)
                         });
 
-                    if Characteristic::Eq.all(&[
+                    if Characteristic::Debug.all(&[
                         T0::SHAPE,
                         T1::SHAPE,
                         T2::SHAPE,
@@ -2331,7 +2443,22 @@ where
                             }?;
                             write!(f, ")")
                         });
+                    }
 
+                    if Characteristic::PartialEq.all(&[
+                        T0::SHAPE,
+                        T1::SHAPE,
+                        T2::SHAPE,
+                        T3::SHAPE,
+                        T4::SHAPE,
+                        T5::SHAPE,
+                        T6::SHAPE,
+                        T7::SHAPE,
+                        T8::SHAPE,
+                        T9::SHAPE,
+                        T10::SHAPE,
+                        T11::SHAPE,
+                    ]) {
                         builder = builder.eq(|a, b| {
                             let a = unsafe {
                                 a.get::<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11)>()
diff --git a/facet-dev/src/tuples.rs b/facet-dev/src/tuples.rs
index 3a24e50..62fdfcc 100644
--- a/facet-dev/src/tuples.rs
+++ b/facet-dev/src/tuples.rs
@@ -142,6 +142,10 @@ pub fn generate() -> String {
             "                        .type_name(type_name::<{}>)\n",
             type_params
         );
+        w!(
+            "                        .drop_in_place(|data| unsafe {{ data.drop_in_place::<({},)>() }})\n",
+            type_params
+        );
         w!("                        .marker_traits(");
         if n == 1 {
             w!("T0::SHAPE.vtable.marker_traits);\n\n")
@@ -156,8 +160,8 @@ pub fn generate() -> String {
             w!("                    }});\n\n");
         }
 
-        // Conditional debug and eq implementations
-        w!("                    if Characteristic::Eq.all(&[");
+        // Conditional debug implementation
+        w!("                    if Characteristic::Debug.all(&[");
         if n <= 5 {
             w!("{}", shape_list);
         } else {
@@ -199,9 +203,20 @@ pub fn generate() -> String {
         }
 
         w!("                            write!(f, \")\")\n");
-        w!("                        }});\n\n");
+        w!("                        }});\n");
+        w!("                    }}\n\n");
+
+        // Conditional eq implementation
+        w!("                    if Characteristic::PartialEq.all(&[");
+        if n <= 5 {
+            w!("{}", shape_list);
+        } else {
+            w!("\n");
+            w!("                        {},\n", shape_list);
+            w!("                    ");
+        }
+        w!("]) {{\n");
 
-        // eq implementation
         w!("                        builder = builder.eq(|a, b| {{\n");
         if n == 1 {
             w!("                            let a = unsafe {{ a.get::<(T0,)>() }};\n");
-- 
2.43.0


From ffbd6bc5a8d0522eaf560d86c257dc42f511b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 09/53] fix: the vtable of Weak treated it as an Arc

---
 facet-core/src/impls_alloc/smartptr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/impls_alloc/smartptr.rs b/facet-core/src/impls_alloc/smartptr.rs
index 2b34ad6..3d45cd0 100644
--- a/facet-core/src/impls_alloc/smartptr.rs
+++ b/facet-core/src/impls_alloc/smartptr.rs
@@ -74,9 +74,9 @@ unsafe impl<T: Facet> Facet for alloc::sync::Weak<T> {
                     )
                     .build(),
             ))
-            .vtable(value_vtable!(alloc::sync::Arc<T>, |f, _opts| write!(
+            .vtable(value_vtable!(alloc::sync::Weak<T>, |f, _opts| write!(
                 f,
-                "Arc"
+                "Weak"
             )))
             .build()
     };
-- 
2.43.0


From b5e26a7cf603b4b779b76debb0d2a340aa5ff44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 10/53] fix: paths (and other scalars) had the vtable of (), so
 were never dropped

---
 facet-core/src/impls_camino.rs      |  7 +++++--
 facet-core/src/impls_core/scalar.rs |  2 +-
 facet-core/src/impls_std/hashmap.rs |  2 +-
 facet-core/src/impls_std/path.rs    | 10 ++++++++--
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/facet-core/src/impls_camino.rs b/facet-core/src/impls_camino.rs
index c5cc1b8..39c4421 100644
--- a/facet-core/src/impls_camino.rs
+++ b/facet-core/src/impls_camino.rs
@@ -14,7 +14,10 @@ unsafe impl Facet for Utf8PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8PathBuf")))
+            .vtable(value_vtable!(Utf8PathBuf, |f, _opts| write!(
+                f,
+                "Utf8PathBuf"
+            )))
             .build()
     };
 }
@@ -29,7 +32,7 @@ unsafe impl Facet for &Utf8Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Utf8Path")))
+            .vtable(value_vtable!(&Utf8Path, |f, _opts| write!(f, "Utf8Path")))
             .build()
     };
 }
diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index 7270d78..a78932e 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -14,7 +14,7 @@ unsafe impl Facet for ConstTypeId {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "ConstTypeId")))
+            .vtable(value_vtable!(ConstTypeId, |f, _opts| write!(f, "ConstTypeId")))
             .build()
     };
 }
diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index f2ae541..1130f1d 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -220,7 +220,7 @@ unsafe impl Facet for RandomState {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "RandomState")))
+            .vtable(value_vtable!(RandomState, |f, _opts| write!(f, "RandomState")))
             .build()
     };
 }
diff --git a/facet-core/src/impls_std/path.rs b/facet-core/src/impls_std/path.rs
index 5cd04d6..1232a95 100644
--- a/facet-core/src/impls_std/path.rs
+++ b/facet-core/src/impls_std/path.rs
@@ -12,7 +12,10 @@ unsafe impl Facet for std::path::PathBuf {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PathBuf")))
+            .vtable(value_vtable!(std::path::PathBuf, |f, _opts| write!(
+                f,
+                "PathBuf"
+            )))
             .build()
     };
 }
@@ -27,7 +30,10 @@ unsafe impl Facet for &std::path::Path {
                     .affinity(ScalarAffinity::path().build())
                     .build(),
             ))
-            .vtable(value_vtable!((), |f, _opts| write!(f, "Path")))
+            .vtable(value_vtable!(&std::path::Path, |f, _opts| write!(
+                f,
+                "Path"
+            )))
             .build()
     };
 }
-- 
2.43.0


From 3bf6247627746ec24ef4128f93ca45513edf1ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:53 +0000
Subject: [PATCH 11/53] fix: NonZero had the vtable of the integer it wraps, so
 could become zero

---
 facet-core/src/impls_core/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index a78932e..40fda24 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -160,7 +160,7 @@ macro_rules! impl_facet_for_integer {
                     .def(Def::Scalar(
                         ScalarDef::builder().affinity($nz_affinity).build(),
                     ))
-                    .vtable(value_vtable!($type, |f, _opts| write!(
+                    .vtable(value_vtable!(NonZero<$type>, |f, _opts| write!(
                         f,
                         "core::num::NonZero<{}>",
                         stringify!($type)
-- 
2.43.0


From 369b48533409a46ffa93b74eb822c834f9dff2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 12/53] fix: putting a value from a peek copied its bits, so it
 was dropped twice

---
 facet-reflect/src/wip/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 39d71ef..3accee9 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -264,12 +264,34 @@ pub struct Wip<'a> {
 }
 
 impl<'a> Wip<'a> {
-    /// Puts the value from a Peek into the current frame.
+    /// Puts a clone of the value from a Peek into the current frame.
     pub fn put_peek<'mem>(self, peek: crate::Peek<'mem>) -> Result<Wip<'mem>, ReflectError>
     where
         'a: 'mem,
     {
-        self.put_shape(peek.data, peek.shape)
+        let shape = peek.shape;
+        let Some(clone_into) = shape.vtable.clone_into else {
+            return Err(ReflectError::OperationFailed {
+                shape,
+                operation: "tried to put a value that cannot be cloned from a peek",
+            });
+        };
+
+        // the peek only borrows its value: put a clone of it
+        let clone = shape.allocate();
+        unsafe { clone_into(peek.data, clone) };
+        let res = self.put_shape(PtrConst::new(clone.as_byte_ptr()), shape);
+        unsafe {
+            if res.is_err() {
+                if let Some(drop_in_place) = shape.vtable.drop_in_place {
+                    drop_in_place(clone.assume_init());
+                }
+            }
+            if shape.layout.size() > 0 {
+                alloc::alloc::dealloc(clone.as_mut_byte_ptr(), shape.layout);
+            }
+        }
+        res
     }
 
     /// Returns the number of frames on the stack
-- 
2.43.0


From 8321ae09b6b9d4e186c7176e6dbbaaf6c4207b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 13/53] fix: JSON numbers were read through an f64, without
 exponents, and panicked when malformed

---
 facet-json/src/deserialize.rs | 128 +++++++++++++++++++---------------
 1 file changed, 73 insertions(+), 55 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 174417a..dcc64f7 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -365,32 +365,53 @@ pub fn from_slice_wip<'input, 'a>(
                         }
                     }
                     b'0'..=b'9' | b'-' => {
-                        pos += 1;
-                        let start = pos - 1;
-                        while let Some(c) = input.get(pos) {
-                            match c {
-                                b'0'..=b'9' | b'.' => {
-                                    pos += 1;
-                                }
-                                _ => break,
-                            }
+                        let start = pos;
+                        if let Err(kind) = skip_over_number(&mut pos, input) {
+                            bail!(kind);
                         }
-                        let number = &input[start..pos];
-                        let number = core::str::from_utf8(number).unwrap();
-                        let number = number.parse::<f64>().unwrap();
+                        let token = core::str::from_utf8(&input[start..pos]).unwrap();
+                        let number = token.parse::<f64>().unwrap();
                         trace!("Parsed {:?}", number.yellow());
 
                         // Prefer try_put_f64 only if actually supported (can_put_f64)
                         if wip.can_put_f64() {
-                            wip = wip.try_put_f64(number).unwrap();
+                            let path = wip.path();
+                            let shape = wip.shape();
+                            let is_float = shape.is_type::<f32>() || shape.is_type::<f64>();
+                            let res = if is_float {
+                                let too_large = if shape.is_type::<f32>() {
+                                    !token.parse::<f32>().unwrap().is_finite()
+                                } else {
+                                    !number.is_finite()
+                                };
+                                if too_large {
+                                    bail!(JsonErrorKind::NumberOutOfRange(number));
+                                }
+                                wip.parse(token)
+                            } else if token == "-0" || token.contains(['.', 'e', 'E']) {
+                                wip.try_put_f64(number)
+                            } else {
+                                // an f64 can't represent all integers
+                                wip.parse(token)
+                            };
+                            wip = match res {
+                                Ok(wip) => wip,
+                                Err(_) => {
+                                    return Err(JsonParseErrorWithContext::new(
+                                        JsonErrorKind::NumberOutOfRange(number),
+                                        input,
+                                        pos,
+                                        path,
+                                    ));
+                                }
+                            };
                         } else {
                             // If string affinity (eg, expecting a string, but got number)
                             let shape = wip.shape();
                             if let Def::Scalar(sd) = shape.def {
                                 if let ScalarAffinity::String(_) = sd.affinity {
                                     if shape.is_type::<String>() {
-                                        let value = number.to_string();
-                                        bail!(JsonErrorKind::StringAsNumber(value));
+                                        bail!(JsonErrorKind::StringAsNumber(token.to_string()));
                                     }
                                 }
                             }
@@ -757,46 +778,7 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
             }
         }
         b'-' | b'0'..=b'9' => {
-            // Skip a number: -?\d+(\.\d+)?([eE][+-]?\d+)?
-            let start = *pos;
-            if bytes[*pos] == b'-' {
-                *pos += 1;
-            }
-            if *pos < bytes.len() && bytes[*pos] == b'0' {
-                *pos += 1;
-            } else {
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                }
-            }
-            if *pos < bytes.len() && bytes[*pos] == b'.' {
-                *pos += 1;
-                let mut has_digit = false;
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                    has_digit = true;
-                }
-                if !has_digit {
-                    return Err(JsonErrorKind::UnexpectedCharacter('.'));
-                }
-            }
-            if *pos < bytes.len() && (bytes[*pos] == b'e' || bytes[*pos] == b'E') {
-                *pos += 1;
-                if *pos < bytes.len() && (bytes[*pos] == b'+' || bytes[*pos] == b'-') {
-                    *pos += 1;
-                }
-                let mut has_digit = false;
-                while *pos < bytes.len() && (bytes[*pos] as char).is_ascii_digit() {
-                    *pos += 1;
-                    has_digit = true;
-                }
-                if !has_digit {
-                    return Err(JsonErrorKind::UnexpectedCharacter('e'));
-                }
-            }
-            if *pos == start {
-                return Err(JsonErrorKind::UnexpectedCharacter(bytes[start] as char));
-            }
+            skip_over_number(pos, input)?;
         }
         _ => {
             return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
@@ -804,3 +786,39 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     }
     Ok(())
 }
+
+/// Skips a number: -?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?
+fn skip_over_number(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
+    fn skip_over_digits(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
+        match input.get(*pos) {
+            Some(b'0'..=b'9') => {}
+            Some(&c) => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+            None => return Err(JsonErrorKind::UnexpectedEof("in a number")),
+        }
+        while let Some(b'0'..=b'9') = input.get(*pos) {
+            *pos += 1;
+        }
+        Ok(())
+    }
+
+    if let Some(b'-') = input.get(*pos) {
+        *pos += 1;
+    }
+    if let Some(b'0') = input.get(*pos) {
+        *pos += 1;
+    } else {
+        skip_over_digits(pos, input)?;
+    }
+    if let Some(b'.') = input.get(*pos) {
+        *pos += 1;
+        skip_over_digits(pos, input)?;
+    }
+    if let Some(b'e' | b'E') = input.get(*pos) {
+        *pos += 1;
+        if let Some(b'+' | b'-') = input.get(*pos) {
+            *pos += 1;
+        }
+        skip_over_digits(pos, input)?;
+    }
+    Ok(())
+}
-- 
2.43.0


From c036c0b78ab7e8f8cef679830ab2172eea145c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 14/53] fix: numbers that do not fit were truncated or
 saturated instead of rejected

---
 facet-reflect/src/wip/put_f64.rs | 46 ++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/facet-reflect/src/wip/put_f64.rs b/facet-reflect/src/wip/put_f64.rs
index 0c0e05a..13045d0 100644
--- a/facet-reflect/src/wip/put_f64.rs
+++ b/facet-reflect/src/wip/put_f64.rs
@@ -5,6 +5,12 @@ use core::num::{
 };
 use facet_core::{Def, ScalarAffinity};
 
+/// Returns true if the number is an integer between `min` and `max`
+fn fits(number: f64, min: i128, max: i128) -> bool {
+    let integer = number as i128;
+    integer as f64 == number && (min..=max).contains(&integer)
+}
+
 impl Wip<'_> {
     /// Returns true if the current frame can accept a f64 into a supported numeric type.
     pub fn can_put_f64(&self) -> bool {
@@ -45,7 +51,7 @@ impl Wip<'_> {
 
         // Match on the concrete Rust type
         if shape.is_type::<u8>() {
-            if (0.0..=u8::MAX as f64).contains(&number) {
+            if fits(number, u8::MIN as i128, u8::MAX as i128) {
                 self.put(number as u8)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -54,7 +60,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<u16>() {
-            if (0.0..=u16::MAX as f64).contains(&number) {
+            if fits(number, u16::MIN as i128, u16::MAX as i128) {
                 self.put(number as u16)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -63,7 +69,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<u32>() {
-            if (0.0..=u32::MAX as f64).contains(&number) {
+            if fits(number, u32::MIN as i128, u32::MAX as i128) {
                 self.put(number as u32)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -72,7 +78,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<u64>() {
-            if (0.0..=u64::MAX as f64).contains(&number) {
+            if fits(number, u64::MIN as i128, u64::MAX as i128) {
                 self.put(number as u64)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -81,7 +87,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<usize>() {
-            if (0.0..=usize::MAX as f64).contains(&number) {
+            if fits(number, usize::MIN as i128, usize::MAX as i128) {
                 self.put(number as usize)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -90,7 +96,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<i8>() {
-            if (i8::MIN as f64..=i8::MAX as f64).contains(&number) {
+            if fits(number, i8::MIN as i128, i8::MAX as i128) {
                 self.put(number as i8)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -99,7 +105,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<i16>() {
-            if (i16::MIN as f64..=i16::MAX as f64).contains(&number) {
+            if fits(number, i16::MIN as i128, i16::MAX as i128) {
                 self.put(number as i16)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -108,7 +114,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<i32>() {
-            if (i32::MIN as f64..=i32::MAX as f64).contains(&number) {
+            if fits(number, i32::MIN as i128, i32::MAX as i128) {
                 self.put(number as i32)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -117,7 +123,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<i64>() {
-            if (i64::MIN as f64..=i64::MAX as f64).contains(&number) {
+            if fits(number, i64::MIN as i128, i64::MAX as i128) {
                 self.put(number as i64)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -126,7 +132,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<isize>() {
-            if (isize::MIN as f64..=isize::MAX as f64).contains(&number) {
+            if fits(number, isize::MIN as i128, isize::MAX as i128) {
                 self.put(number as isize)
             } else {
                 Err(ReflectError::OperationFailed {
@@ -146,7 +152,7 @@ impl Wip<'_> {
         } else if shape.is_type::<f64>() {
             self.put(number)
         } else if shape.is_type::<NonZeroU8>() {
-            if (1.0..=u8::MAX as f64).contains(&number) {
+            if fits(number, 1, u8::MAX as i128) {
                 let value = NonZeroU8::new(number as u8).unwrap();
                 self.put(value)
             } else {
@@ -156,7 +162,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroU16>() {
-            if (1.0..=u16::MAX as f64).contains(&number) {
+            if fits(number, 1, u16::MAX as i128) {
                 let value = NonZeroU16::new(number as u16).unwrap();
                 self.put(value)
             } else {
@@ -166,7 +172,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroU32>() {
-            if (1.0..=u32::MAX as f64).contains(&number) {
+            if fits(number, 1, u32::MAX as i128) {
                 let value = NonZeroU32::new(number as u32).unwrap();
                 self.put(value)
             } else {
@@ -176,7 +182,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroU64>() {
-            if (1.0..=u64::MAX as f64).contains(&number) {
+            if fits(number, 1, u64::MAX as i128) {
                 let value = NonZeroU64::new(number as u64).unwrap();
                 self.put(value)
             } else {
@@ -186,7 +192,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroUsize>() {
-            if (1.0..=usize::MAX as f64).contains(&number) {
+            if fits(number, 1, usize::MAX as i128) {
                 let value = NonZeroUsize::new(number as usize).unwrap();
                 self.put(value)
             } else {
@@ -196,7 +202,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI8>() {
-            if (1.0..=i8::MAX as f64).contains(&number) {
+            if number != 0.0 && fits(number, i8::MIN as i128, i8::MAX as i128) {
                 let value = NonZeroI8::new(number as i8).unwrap();
                 self.put(value)
             } else {
@@ -206,7 +212,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI16>() {
-            if (1.0..=i16::MAX as f64).contains(&number) {
+            if number != 0.0 && fits(number, i16::MIN as i128, i16::MAX as i128) {
                 let value = NonZeroI16::new(number as i16).unwrap();
                 self.put(value)
             } else {
@@ -216,7 +222,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI32>() {
-            if (1.0..=i32::MAX as f64).contains(&number) {
+            if number != 0.0 && fits(number, i32::MIN as i128, i32::MAX as i128) {
                 let value = NonZeroI32::new(number as i32).unwrap();
                 self.put(value)
             } else {
@@ -226,7 +232,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroI64>() {
-            if (1.0..=i64::MAX as f64).contains(&number) {
+            if number != 0.0 && fits(number, i64::MIN as i128, i64::MAX as i128) {
                 let value = NonZeroI64::new(number as i64).unwrap();
                 self.put(value)
             } else {
@@ -236,7 +242,7 @@ impl Wip<'_> {
                 })
             }
         } else if shape.is_type::<NonZeroIsize>() {
-            if (1.0..=isize::MAX as f64).contains(&number) {
+            if number != 0.0 && fits(number, isize::MIN as i128, isize::MAX as i128) {
                 let value = NonZeroIsize::new(number as isize).unwrap();
                 self.put(value)
             } else {
-- 
2.43.0


From 68a67834b66994519a9645914dd19e0eb1cc25a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:19 +0000
Subject: [PATCH 15/53] fix: JSON string escapes were not decoded

---
 facet-json/src/deserialize.rs | 166 +++++++++++++++++++---------------
 1 file changed, 92 insertions(+), 74 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index dcc64f7..9a1b512 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -2,6 +2,7 @@ use facet_core::{Characteristic, Def, Facet, FieldAttribute, ScalarAffinity, Sha
 use facet_reflect::{HeapValue, Wip};
 use log::trace;
 
+use alloc::borrow::Cow;
 use alloc::format;
 use alloc::string::{String, ToString};
 use alloc::vec::Vec;
@@ -202,57 +203,14 @@ pub fn from_slice_wip<'input, 'a>(
                     }
                     b'"' => {
                         pos += 1;
-                        let start = pos;
                         // Our value is a string: collect bytes first
-                        let mut bytes = Vec::new();
-                        loop {
-                            let Some(c) = input.get(pos).copied() else {
-                                bail!(JsonErrorKind::UnexpectedEof("nothing after \""));
-                            };
-                            match c {
-                                b'"' => {
-                                    break;
-                                }
-                                b'\\' => {
-                                    // Handle escape sequences
-                                    if let Some(&next) = input.get(pos + 1) {
-                                        if bytes.is_empty() {
-                                            bytes.extend(&input[start..pos]);
-                                        }
-                                        bytes.push(next);
-                                        pos += 2;
-                                    } else {
-                                        bail!(JsonErrorKind::UnexpectedEof("nothing after \\"));
-                                    }
-                                }
-                                _ => {
-                                    if !bytes.is_empty() {
-                                        bytes.push(c);
-                                    }
-                                    pos += 1;
-                                }
-                            }
+                        let start = pos;
+                        if let Err(kind) = skip_over_string(&mut pos, input) {
+                            bail!(kind);
                         }
-                        let end = pos;
-                        pos += 1;
-
-                        let value = if bytes.is_empty() {
-                            match core::str::from_utf8(&input[start..end]) {
-                                Ok(it) => alloc::borrow::Cow::Borrowed(it),
-                                Err(e) => bail!(JsonErrorKind::InvalidUtf8(format!(
-                                    "Invalid UTF-8 sequence: {}",
-                                    e
-                                ))),
-                            }
-                        } else {
-                            // Convert collected bytes to string at once
-                            match alloc::string::String::from_utf8(bytes) {
-                                Ok(it) => alloc::borrow::Cow::Owned(it),
-                                Err(e) => bail!(JsonErrorKind::InvalidUtf8(format!(
-                                    "Invalid UTF-8 sequence: {}",
-                                    e
-                                ))),
-                            }
+                        let value = match unescape(&input[start..pos - 1]) {
+                            Ok(value) => value,
+                            Err(kind) => bail!(kind),
                         };
 
                         trace!(
@@ -727,31 +685,9 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
         b'"' => {
             // Skip a string, with escape processing
             *pos += 1;
-            while *pos < bytes.len() {
-                match bytes[*pos] {
-                    b'\\' => {
-                        // Could have EOF after backslash
-                        if *pos + 1 >= bytes.len() {
-                            return Err(JsonErrorKind::UnexpectedEof(
-                                "while skipping over value: EOF after backslash in string",
-                            ));
-                        }
-                        *pos += 2; // Skip backslash and the next character (escaped)
-                    }
-                    b'"' => {
-                        *pos += 1;
-                        break;
-                    }
-                    _ => {
-                        *pos += 1;
-                    }
-                }
-            }
-            if *pos > bytes.len() {
-                return Err(JsonErrorKind::UnexpectedEof(
-                    "while skipping over value: string ended unexpectedly",
-                ));
-            }
+            let start = *pos;
+            skip_over_string(pos, input)?;
+            unescape(&input[start..*pos - 1])?;
         }
         b't' => {
             // Expect "true"
@@ -822,3 +758,85 @@ fn skip_over_number(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind>
     }
     Ok(())
 }
+
+/// Skips the rest of a string, including the closing quote
+fn skip_over_string(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
+    loop {
+        match input.get(*pos) {
+            None => return Err(JsonErrorKind::UnexpectedEof("in a string")),
+            Some(b'"') => {
+                *pos += 1;
+                return Ok(());
+            }
+            Some(b'\\') => {
+                if *pos + 1 >= input.len() {
+                    return Err(JsonErrorKind::UnexpectedEof("nothing after \\"));
+                }
+                *pos += 2;
+            }
+            Some(&c) if c < 0x20 => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+            Some(_) => *pos += 1,
+        }
+    }
+}
+
+/// Decodes the contents of a string: what's between the quotes
+fn unescape(bytes: &[u8]) -> Result<Cow<'_, str>, JsonErrorKind> {
+    let mut rest = match core::str::from_utf8(bytes) {
+        Ok(it) => it,
+        Err(e) => {
+            return Err(JsonErrorKind::InvalidUtf8(format!(
+                "Invalid UTF-8 sequence: {}",
+                e
+            )));
+        }
+    };
+    if !rest.contains('\\') {
+        return Ok(Cow::Borrowed(rest));
+    }
+
+    /// Reads the four hexadecimal digits of a \u escape
+    fn hex4(s: &str) -> Option<u32> {
+        let digits = s.get(..4)?;
+        if !digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return None;
+        }
+        u32::from_str_radix(digits, 16).ok()
+    }
+
+    let mut value = String::with_capacity(rest.len());
+    while let Some(at) = rest.find('\\') {
+        value.push_str(&rest[..at]);
+        rest = &rest[at + 1..];
+        let Some(c) = rest.chars().next() else {
+            return Err(JsonErrorKind::UnexpectedEof("nothing after \\"));
+        };
+        rest = &rest[c.len_utf8()..];
+        match c {
+            '"' | '\\' | '/' => value.push(c),
+            'b' => value.push('\u{08}'),
+            'f' => value.push('\u{0C}'),
+            'n' => value.push('\n'),
+            'r' => value.push('\r'),
+            't' => value.push('\t'),
+            'u' => {
+                let mut code = hex4(rest).ok_or(JsonErrorKind::UnexpectedCharacter('u'))?;
+                rest = &rest[4..];
+                if (0xD800..0xDC00).contains(&code) {
+                    // the first half of a surrogate pair: the other one must follow
+                    let low = rest
+                        .strip_prefix("\\u")
+                        .and_then(hex4)
+                        .filter(|low| (0xDC00..0xE000).contains(low))
+                        .ok_or(JsonErrorKind::UnexpectedCharacter('u'))?;
+                    rest = &rest[6..];
+                    code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+                }
+                value.push(char::from_u32(code).ok_or(JsonErrorKind::UnexpectedCharacter('u'))?);
+            }
+            c => return Err(JsonErrorKind::UnexpectedCharacter(c)),
+        }
+    }
+    value.push_str(rest);
+    Ok(Cow::Owned(value))
+}
-- 
2.43.0


From 935d40ec986ebdf15055ca44712774b3b03d7da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 16/53] fix: malformed or mismatched JSON panicked, or was
 accepted

---
 facet-json/src/deserialize.rs       | 156 ++++++++++++++++++----------
 facet-json/src/deserialize/error.rs |   6 ++
 2 files changed, 105 insertions(+), 57 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 9a1b512..790de1b 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -1,4 +1,4 @@
-use facet_core::{Characteristic, Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
+use facet_core::{Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
 use facet_reflect::{HeapValue, Wip};
 use log::trace;
 
@@ -67,6 +67,38 @@ pub fn from_slice_wip<'input, 'a>(
         };
     }
 
+    macro_rules! reflect {
+        ($method:ident($($arg:expr),*)) => {{
+            let path = wip.path();
+            wip = match wip.$method($($arg),*) {
+                Ok(wip) => wip,
+                Err(e) => {
+                    return Err(JsonParseErrorWithContext::new(
+                        JsonErrorKind::Reflect(e),
+                        input,
+                        pos,
+                        path,
+                    ));
+                }
+            };
+        }};
+    }
+    macro_rules! build {
+        () => {{
+            // there can't be anything left but whitespace
+            while let Some(b' ' | b'\t' | b'\n' | b'\r') = input.get(pos) {
+                pos += 1;
+            }
+            if let Some(&c) = input.get(pos) {
+                bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+            }
+            let path = wip.path();
+            return wip.build().map_err(|e| {
+                JsonParseErrorWithContext::new(JsonErrorKind::Reflect(e), input, pos, path)
+            });
+        }};
+    }
+
     /// Indicates why we are expecting a value in the parsing stack.
     #[derive(Debug, Clone, Copy, PartialEq, Eq)]
     enum WhyValue {
@@ -128,7 +160,7 @@ pub fn from_slice_wip<'input, 'a>(
             Some(expect) => expect,
             None => {
                 if frame_count == 1 {
-                    return Ok(wip.build().unwrap());
+                    build!();
                 } else {
                     trace!("frame_count isn't 1, it's {}", frame_count);
                     bail!(JsonErrorKind::UnexpectedEof("frame_count isn't 1"));
@@ -137,8 +169,11 @@ pub fn from_slice_wip<'input, 'a>(
         };
         trace!("[{frame_count}] Expecting {:?}", expect.yellow());
 
-        let Some(c) = input.get(pos).copied() else {
-            bail!(JsonErrorKind::UnexpectedEof("no input at pos"));
+        let c = match input.get(pos).copied() {
+            Some(c) => c,
+            // popping an option doesn't need any input
+            None if expect == Expect::PopOption => 0,
+            None => bail!(JsonErrorKind::UnexpectedEof("no input at pos")),
         };
 
         let mut finished_value: Option<WhyValue> = None;
@@ -150,15 +185,29 @@ pub fn from_slice_wip<'input, 'a>(
                 finished_value = Some(WhyValue::ObjectValue);
             }
             Expect::Value(why) => {
-                if let Def::Option(_) = wip.shape().def {
-                    wip = wip.push_some().unwrap();
+                if why == WhyValue::ObjectKey && c != b'"' {
+                    bail!(JsonErrorKind::UnexpectedCharacter(c as char));
+                }
+
+                while let Def::Option(_) = wip.shape().def {
+                    reflect!(push_some());
                     stack.push(Expect::PopOption);
+                    if c == b'n' {
+                        // the outermost option is the one that's None
+                        break;
+                    }
                 }
 
                 match c {
                     b'{' => {
+                        if !matches!(wip.shape().def, Def::Struct(_)) {
+                            bail!(JsonErrorKind::UnexpectedCharacter('{'));
+                        }
                         trace!("Object starting");
                         pos += 1;
+                        while let Some(b' ' | b'\t' | b'\n' | b'\r') = input.get(pos) {
+                            pos += 1;
+                        }
                         let Some(c) = input.get(pos).copied() else {
                             bail!(JsonErrorKind::UnexpectedEof("nothing after {"));
                         };
@@ -179,12 +228,18 @@ pub fn from_slice_wip<'input, 'a>(
                         }
                     }
                     b'[' => {
+                        if !matches!(wip.shape().def, Def::List(_)) {
+                            bail!(JsonErrorKind::UnexpectedCharacter('['));
+                        }
                         pos += 1;
+                        while let Some(b' ' | b'\t' | b'\n' | b'\r') = input.get(pos) {
+                            pos += 1;
+                        }
                         let Some(c) = input.get(pos).copied() else {
                             bail!(JsonErrorKind::UnexpectedEof("nothing after ["));
                         };
 
-                        wip = wip.begin_pushback().unwrap();
+                        reflect!(begin_pushback());
                         match c {
                             b']' => {
                                 // an array just closed, somewhere
@@ -196,7 +251,7 @@ pub fn from_slice_wip<'input, 'a>(
                                 // okay, next we expect an item and a separator (or the end of the array)
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
                                 stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
+                                reflect!(push());
                                 continue; // we didn't finish a value so don't pop yet
                             }
                         }
@@ -224,9 +279,9 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyValue::TopLevel | WhyValue::ArrayElement | WhyValue::ObjectValue => {
                                 // skip the string parse impl
                                 if wip.current_is_type::<String>() {
-                                    wip = wip.put::<String>(value.into_owned()).unwrap();
+                                    reflect!(put(value.into_owned()));
                                 } else {
-                                    wip = wip.parse(&value).unwrap();
+                                    reflect!(parse(&value));
                                 }
                                 finished_value = Some(why);
                             }
@@ -253,7 +308,15 @@ pub fn from_slice_wip<'input, 'a>(
 
                                     if let Some(field) = field {
                                         trace!("found field {:?}", field.blue());
-                                        wip = wip.field_named(field.name).unwrap();
+                                        let index = struct_def
+                                            .fields
+                                            .iter()
+                                            .position(|f| f.name == field.name)
+                                            .unwrap_or_default();
+                                        if wip.is_field_set(index).unwrap_or_default() {
+                                            bail!(JsonErrorKind::DuplicateField(field.name));
+                                        }
+                                        reflect!(field(index));
                                     } else if shape.attributes.iter().any(|attr| {
                                         matches!(attr, ShapeAttribute::DenyUnknownFields)
                                     }) {
@@ -312,12 +375,8 @@ pub fn from_slice_wip<'input, 'a>(
                                         );
                                     }
                                 } else {
-                                    trace!(
-                                        "Getting field {}, not in a Struct, but in a... {}",
-                                        value.blue(),
-                                        wip.shape()
-                                    );
-                                    wip = wip.field_named(&value).expect("assuming only structs have a fixed set of fields (which is not true, cf. enums)");
+                                    // only structs have a fixed set of fields
+                                    bail!(JsonErrorKind::UnexpectedCharacter('"'));
                                 }
                             }
                         }
@@ -386,7 +445,7 @@ pub fn from_slice_wip<'input, 'a>(
                             match shape.def {
                                 Def::Scalar(sd) => match sd.affinity {
                                     ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(true).unwrap();
+                                        reflect!(put(true));
                                     }
                                     _ => {
                                         bail!(JsonErrorKind::UnexpectedCharacter('t'));
@@ -403,7 +462,7 @@ pub fn from_slice_wip<'input, 'a>(
                             match shape.def {
                                 Def::Scalar(sd) => match sd.affinity {
                                     ScalarAffinity::Boolean(_) => {
-                                        wip = wip.put::<bool>(false).unwrap();
+                                        reflect!(put(false));
                                     }
                                     _ => {
                                         bail!(JsonErrorKind::UnexpectedCharacter('f'));
@@ -425,7 +484,7 @@ pub fn from_slice_wip<'input, 'a>(
                             pos += 4;
 
                             // ok but we already pushed some! luckily wip has the method for us
-                            wip = wip.pop_some_push_none().unwrap();
+                            reflect!(pop_some_push_none());
                             finished_value = Some(why);
                         } else {
                             bail!(JsonErrorKind::UnexpectedCharacter('n'));
@@ -452,7 +511,7 @@ pub fn from_slice_wip<'input, 'a>(
                             WhyComma::Array => {
                                 stack.push(Expect::Separator(Separator::Comma(WhyComma::Array)));
                                 stack.push(Expect::Value(WhyValue::ArrayElement));
-                                wip = wip.push().unwrap();
+                                reflect!(push());
                             }
                             WhyComma::Object => {
                                 // looks like we're in for another round of object parsing
@@ -477,9 +536,7 @@ pub fn from_slice_wip<'input, 'a>(
                         match why {
                             WhyComma::Array => {
                                 // we finished the array, neat
-                                if frame_count > 1 {
-                                    wip = wip.pop().unwrap();
-                                }
+                                finished_value = Some(WhyValue::ArrayElement);
                             }
                             _ => {
                                 bail!(JsonErrorKind::UnexpectedCharacter(c as char));
@@ -524,22 +581,14 @@ pub fn from_slice_wip<'input, 'a>(
                                     {
                                         match attr {
                                             Some(fun) => {
-                                                wip = wip
-                                                    .field(i)
-                                                    .unwrap()
-                                                    .put_from_fn(*fun)
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
+                                                reflect!(field(i));
+                                                reflect!(put_from_fn(*fun));
+                                                reflect!(pop());
                                             }
                                             None => {
-                                                wip = wip
-                                                    .field(i)
-                                                    .unwrap()
-                                                    .put_default()
-                                                    .unwrap()
-                                                    .pop()
-                                                    .unwrap();
+                                                reflect!(field(i));
+                                                reflect!(put_default());
+                                                reflect!(pop());
                                             }
                                         }
                                     } else {
@@ -552,16 +601,13 @@ pub fn from_slice_wip<'input, 'a>(
 
                     if has_missing_fields {
                         trace!("struct has missing fields but we have default");
-                        if !wip.shape().is(Characteristic::Default) {
-                            todo!(
-                                "Default struct has missing fields, the `default` impl but it does not implement Default"
-                            )
-                        }
-                        let default_struct_val = Wip::alloc_shape(wip.shape())
+                        let default_struct_val = match Wip::alloc_shape(wip.shape())
                             .put_default()
-                            .unwrap()
-                            .build()
-                            .unwrap();
+                            .and_then(Wip::build)
+                        {
+                            Ok(val) => val,
+                            Err(e) => bail!(JsonErrorKind::Reflect(e)),
+                        };
                         let peek = default_struct_val.peek().into_struct().unwrap();
 
                         // For every missing field, take it from the peek and copy it into the wip
@@ -569,22 +615,18 @@ pub fn from_slice_wip<'input, 'a>(
                             for i in 0..sd.fields.len() {
                                 if !wip.is_field_set(i).unwrap() {
                                     let field_value = peek.field(i).unwrap();
-                                    wip = wip
-                                        .field(i)
-                                        .unwrap()
-                                        .put_peek(field_value)
-                                        .unwrap()
-                                        .pop()
-                                        .unwrap();
+                                    reflect!(field(i));
+                                    reflect!(put_peek(field_value));
+                                    reflect!(pop());
                                 }
                             }
                         }
                     }
 
-                    if frame_count == 1 {
-                        return Ok(wip.build().unwrap());
+                    if wip.frames_count() == 1 {
+                        build!();
                     } else {
-                        wip = wip.pop().unwrap();
+                        reflect!(pop());
                     }
                 }
             }
diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index bb5b994..24f52fc 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -45,6 +45,8 @@ impl<'input> JsonParseErrorWithContext<'input> {
             JsonErrorKind::StringAsNumber(s) => format!("Expected a string but got number: {}", s),
             JsonErrorKind::UnknownField(f) => format!("Unknown field: {}", f),
             JsonErrorKind::InvalidUtf8(e) => format!("Invalid UTF-8 encoding: {}", e),
+            JsonErrorKind::DuplicateField(f) => format!("Duplicate field: {}", f),
+            JsonErrorKind::Reflect(e) => format!("Could not set value: {}", e),
         }
     }
 }
@@ -66,6 +68,10 @@ pub enum JsonErrorKind {
     UnknownField(String),
     /// A string that could not be built into valid UTF-8 Unicode
     InvalidUtf8(String),
+    /// A field was set more than once
+    DuplicateField(&'static str),
+    /// The value in the input doesn't fit the type being deserialized
+    Reflect(facet_reflect::ReflectError),
 }
 
 #[cfg(not(feature = "rich-diagnostics"))]
-- 
2.43.0


From 44f8121c1ae060672ebbfd2e76208b3b0fc00218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 17/53] fix: JSON output was malformed for non-finite floats
 and some map keys

---
 facet-json/src/serialize.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index 3204072..6f79a3e 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -128,10 +128,20 @@ fn serialize_scalar<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()>
     // Float types
     else if peek.shape().is_type::<f32>() {
         let value = peek.get::<f32>().unwrap();
-        write!(writer, "{}", value)
+        if value.is_finite() {
+            write!(writer, "{}", value)
+        } else {
+            // JSON has no other way to write these
+            write!(writer, "null")
+        }
     } else if peek.shape().is_type::<f64>() {
         let value = peek.get::<f64>().unwrap();
-        write!(writer, "{}", value)
+        if value.is_finite() {
+            write!(writer, "{}", value)
+        } else {
+            // JSON has no other way to write these
+            write!(writer, "null")
+        }
     } else {
         Err(io::Error::new(
             io::ErrorKind::Other,
@@ -228,7 +238,7 @@ fn serialize_map<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
                     write_json_string(writer, key_str)?;
                 } else {
                     // For other scalar types, use their Display implementation
-                    write!(writer, "\"{}\"", key)?;
+                    write_json_string(writer, &key.to_string())?;
                 }
             }
             _ => {
-- 
2.43.0


From 8351d135758dc973960d958bb73bdf2237242d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:17 +0000
Subject: [PATCH 18/53] fix: JSON wrote struct variants like tuple variants,
 and the other way around

---
 facet-json/src/serialize.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/facet-json/src/serialize.rs b/facet-json/src/serialize.rs
index 6f79a3e..91211ee 100644
--- a/facet-json/src/serialize.rs
+++ b/facet-json/src/serialize.rs
@@ -1,5 +1,5 @@
 use core::num::NonZero;
-use facet_core::{Def, Facet, FieldAttribute};
+use facet_core::{Def, Facet, FieldAttribute, StructKind};
 use facet_reflect::Peek;
 use std::io::{self, Write};
 
@@ -280,19 +280,14 @@ fn serialize_enum<W: Write>(peek: &Peek<'_>, writer: &mut W) -> io::Result<()> {
         write!(writer, ":")?;
 
         // If it's a single-field tuple variant, output just the value
-        if variant.data.fields.len() == 1 {
+        let is_struct = variant.data.kind == StructKind::Struct;
+        if variant.data.fields.len() == 1 && !is_struct {
             let field = enum_peek.field(0).ok_or_else(|| {
                 io::Error::new(io::ErrorKind::Other, "Failed to access enum field")
             })?;
             serialize(&field, writer)?;
         } else {
             // Multi-field variant - output as an array or object depending on variant type
-            let is_struct = variant
-                .data
-                .fields
-                .iter()
-                .any(|f| !f.name.starts_with("__"));
-
             if is_struct {
                 // Struct variant - output as an object
                 write!(writer, "{{")?;
-- 
2.43.0


From a5e70fc166cafa7c0b39bc584fda15b9d923c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:14 +0000
Subject: [PATCH 19/53] fix: MessagePack could not read back the negative
 integers, i16, i8 and bool it can write

---
 facet-msgpack/src/from_msgpack.rs | 96 ++++++++++++++++---------------
 facet-msgpack/src/to_msgpack.rs   |  5 ++
 2 files changed, 55 insertions(+), 46 deletions(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 33a6c37..1edd0ea 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -136,33 +136,47 @@ impl<'input> Decoder<'input> {
         Ok(value)
     }
 
-    /// Decodes a MessagePack-encoded unsigned 64-bit integer.
+    /// Decodes a 64-bit unsigned integer in big-endian byte order.
+    /// This is a low-level method used by other decoders.
+    fn decode_raw_u64(&mut self) -> Result<u64, DecodeError> {
+        if self.offset + 8 > self.input.len() {
+            return Err(DecodeError::InsufficientData);
+        }
+        let value =
+            u64::from_be_bytes(self.input[self.offset..self.offset + 8].try_into().unwrap());
+        self.offset += 8;
+        Ok(value)
+    }
+
+    /// Decodes a MessagePack-encoded integer.
     /// Handles the following MessagePack types:
     /// - positive fixint (0x00 - 0x7f): single-byte positive integer
+    /// - negative fixint (0xe0 - 0xff): single-byte negative integer
     /// - uint8 (0xcc): 8-bit unsigned integer
     /// - uint16 (0xcd): 16-bit unsigned integer (big-endian)
     /// - uint32 (0xce): 32-bit unsigned integer (big-endian)
     /// - uint64 (0xcf): 64-bit unsigned integer (big-endian)
+    /// - int8 (0xd0): 8-bit signed integer
+    /// - int16 (0xd1): 16-bit signed integer (big-endian)
+    /// - int32 (0xd2): 32-bit signed integer (big-endian)
+    /// - int64 (0xd3): 64-bit signed integer (big-endian)
     ///
     /// Ref: <https://github.com/msgpack/msgpack/blob/master/spec.md#int-format-family>
-    fn decode_u64(&mut self) -> Result<u64, DecodeError> {
-        match self.decode_u8()? {
-            MSGPACK_UINT8 => Ok(self.decode_u8()? as u64),
-            MSGPACK_UINT16 => Ok(self.decode_u16()? as u64),
-            MSGPACK_UINT32 => Ok(self.decode_u32()? as u64),
-            MSGPACK_UINT64 => {
-                if self.offset + 8 > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                let value = u64::from_be_bytes(
-                    self.input[self.offset..self.offset + 8].try_into().unwrap(),
-                );
-                self.offset += 8;
-                Ok(value)
-            }
-            prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => Ok(prefix as u64),
-            _ => Err(DecodeError::UnexpectedType),
-        }
+    fn decode_int<N: TryFrom<i128>>(&mut self) -> Result<N, DecodeError> {
+        let value = match self.decode_u8()? {
+            MSGPACK_UINT8 => self.decode_u8()? as i128,
+            MSGPACK_UINT16 => self.decode_u16()? as i128,
+            MSGPACK_UINT32 => self.decode_u32()? as i128,
+            MSGPACK_UINT64 => self.decode_raw_u64()? as i128,
+            MSGPACK_INT8 => self.decode_u8()? as i8 as i128,
+            MSGPACK_INT16 => self.decode_u16()? as i16 as i128,
+            MSGPACK_INT32 => self.decode_u32()? as i32 as i128,
+            MSGPACK_INT64 => self.decode_raw_u64()? as i64 as i128,
+            prefix @ MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX => prefix as i128,
+            prefix if prefix as i8 >= MSGPACK_NEGFIXINT_MIN => prefix as i8 as i128,
+            _ => return Err(DecodeError::UnexpectedType),
+        };
+        N::try_from(value).map_err(|_| DecodeError::IntegerOverflow)
     }
 
     /// Decodes a MessagePack-encoded string.
@@ -410,39 +424,29 @@ impl<'input> Decoder<'input> {
                     let s = self.decode_string()?;
                     wip.put(s).unwrap()
                 } else if shape.is_type::<u64>() {
-                    let n = self.decode_u64()?;
+                    let n = self.decode_int::<u64>()?;
                     wip.put(n).unwrap()
                 } else if shape.is_type::<u32>() {
-                    let n = self.decode_u64()?;
-                    if n > u32::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u32).unwrap()
+                    let n = self.decode_int::<u32>()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<u16>() {
-                    let n = self.decode_u64()?;
-                    if n > u16::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u16).unwrap()
+                    let n = self.decode_int::<u16>()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<u8>() {
-                    let n = self.decode_u64()?;
-                    if n > u8::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as u8).unwrap()
+                    let n = self.decode_int::<u8>()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<i64>() {
-                    // This is a simplification - need to implement proper int decoding
-                    let n = self.decode_u64()?;
-                    if n > i64::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i64).unwrap()
+                    let n = self.decode_int::<i64>()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<i32>() {
-                    let n = self.decode_u64()?;
-                    if n > i32::MAX as u64 {
-                        return Err(DecodeError::IntegerOverflow);
-                    }
-                    wip.put(n as i32).unwrap()
+                    let n = self.decode_int::<i32>()?;
+                    wip.put(n).unwrap()
+                } else if shape.is_type::<i16>() {
+                    let n = self.decode_int::<i16>()?;
+                    wip.put(n).unwrap()
+                } else if shape.is_type::<i8>() {
+                    let n = self.decode_int::<i8>()?;
+                    wip.put(n).unwrap()
                 } else if shape.is_type::<bool>() {
                     let b = self.decode_bool()?;
                     wip.put(b).unwrap()
diff --git a/facet-msgpack/src/to_msgpack.rs b/facet-msgpack/src/to_msgpack.rs
index 456ad01..2085377 100644
--- a/facet-msgpack/src/to_msgpack.rs
+++ b/facet-msgpack/src/to_msgpack.rs
@@ -1,3 +1,5 @@
+use crate::constants::*;
+
 use facet_core::{Def, Facet};
 
 use facet_reflect::Peek;
@@ -21,6 +23,9 @@ fn serialize<W: Write>(pv: Peek<'_>, writer: &mut W) -> io::Result<()> {
             if pv.shape().is_type::<String>() {
                 let value = pv.get::<String>().unwrap();
                 write_str(writer, value)
+            } else if pv.shape().is_type::<bool>() {
+                let value = pv.get::<bool>().unwrap();
+                writer.write_all(&[if *value { MSGPACK_TRUE } else { MSGPACK_FALSE }])
             } else if pv.shape().is_type::<u64>() {
                 let value = pv.get::<u64>().unwrap();
                 write_u64(writer, *value)
-- 
2.43.0


From d148820cb92a43d9cf4932bff8f54b11e00b5b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 20/53] fix: malformed MessagePack panicked or was accepted,
 and some values could not be skipped

---
 facet-msgpack/src/from_msgpack.rs | 216 ++++++++++++------------------
 1 file changed, 87 insertions(+), 129 deletions(-)

diff --git a/facet-msgpack/src/from_msgpack.rs b/facet-msgpack/src/from_msgpack.rs
index 1edd0ea..34bd229 100644
--- a/facet-msgpack/src/from_msgpack.rs
+++ b/facet-msgpack/src/from_msgpack.rs
@@ -282,135 +282,88 @@ impl<'input> Decoder<'input> {
         Ok(self.input[self.offset] == MSGPACK_NIL)
     }
 
+    /// Skips the given number of bytes.
+    fn skip_bytes(&mut self, len: usize) -> Result<(), DecodeError> {
+        if len > self.input.len() - self.offset {
+            return Err(DecodeError::InsufficientData);
+        }
+        self.offset += len;
+        Ok(())
+    }
+
     /// Skips a MessagePack value of any type.
     /// This is used when encountering unknown field names in a struct.
     fn skip_value(&mut self) -> Result<(), DecodeError> {
-        let prefix = self.decode_u8()?;
-
-        match prefix {
-            // String formats
-            prefix @ MSGPACK_FIXSTR_MIN..=MSGPACK_FIXSTR_MAX => {
-                let len = (prefix & 0x1f) as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR8 => {
-                let len = self.decode_u8()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR16 => {
-                let len = self.decode_u16()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-            MSGPACK_STR32 => {
-                let len = self.decode_u32()? as usize;
-                if self.offset + len > self.input.len() {
-                    return Err(DecodeError::InsufficientData);
-                }
-                self.offset += len;
-                Ok(())
-            }
-
-            // Integer formats
-            MSGPACK_UINT8 => {
-                self.offset += 1;
-                Ok(())
-            }
-            MSGPACK_UINT16 => {
-                self.offset += 2;
-                Ok(())
-            }
-            MSGPACK_UINT32 => {
-                self.offset += 4;
-                Ok(())
-            }
-            MSGPACK_UINT64 => {
-                self.offset += 8;
-                Ok(())
-            }
-            MSGPACK_INT8 => {
-                self.offset += 1;
-                Ok(())
-            }
-            MSGPACK_INT16 => {
-                self.offset += 2;
-                Ok(())
-            }
-            MSGPACK_INT32 => {
-                self.offset += 4;
-                Ok(())
-            }
-            MSGPACK_INT64 => {
-                self.offset += 8;
-                Ok(())
-            }
-            // Fixed integers are already handled by decode_u8
-
-            // Boolean and nil
-            MSGPACK_NIL | MSGPACK_TRUE | MSGPACK_FALSE => Ok(()),
-
-            // Map format
-            prefix @ MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => {
-                let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
+        // how many values are left to skip: containers add to it
+        let mut left = 1u64;
+
+        while left > 0 {
+            left -= 1;
+
+            // how many bytes follow the prefix, not counting values
+            let bytes = match self.decode_u8()? {
+                // Fixed integers, boolean and nil
+                MSGPACK_POSFIXINT_MIN..=MSGPACK_POSFIXINT_MAX
+                | MSGPACK_NIL
+                | MSGPACK_TRUE
+                | MSGPACK_FALSE => 0,
+                prefix if prefix as i8 >= MSGPACK_NEGFIXINT_MIN => 0,
+
+                // String and binary formats
+                prefix @ MSGPACK_FIXSTR_MIN..=MSGPACK_FIXSTR_MAX => (prefix & 0x1f) as usize,
+                MSGPACK_STR8 | MSGPACK_BIN8 => self.decode_u8()? as usize,
+                MSGPACK_STR16 | MSGPACK_BIN16 => self.decode_u16()? as usize,
+                MSGPACK_STR32 | MSGPACK_BIN32 => self.decode_u32()? as usize,
+
+                // Integer and float formats
+                MSGPACK_UINT8 | MSGPACK_INT8 => 1,
+                MSGPACK_UINT16 | MSGPACK_INT16 => 2,
+                MSGPACK_UINT32 | MSGPACK_INT32 | MSGPACK_FLOAT32 => 4,
+                MSGPACK_UINT64 | MSGPACK_INT64 | MSGPACK_FLOAT64 => 8,
+
+                // Extension formats: there's a type before the data
+                MSGPACK_FIXEXT1 => 1 + 1,
+                MSGPACK_FIXEXT2 => 1 + 2,
+                MSGPACK_FIXEXT4 => 1 + 4,
+                MSGPACK_FIXEXT8 => 1 + 8,
+                MSGPACK_FIXEXT16 => 1 + 16,
+                MSGPACK_EXT8 => 1 + self.decode_u8()? as usize,
+                MSGPACK_EXT16 => 1 + self.decode_u16()? as usize,
+                MSGPACK_EXT32 => 1 + self.decode_u32()? as usize,
+
+                // Map format: that's a key and a value per entry
+                prefix @ MSGPACK_FIXMAP_MIN..=MSGPACK_FIXMAP_MAX => {
+                    left += 2 * (prefix & 0x0f) as u64;
+                    0
                 }
-                Ok(())
-            }
-            MSGPACK_MAP16 => {
-                let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
+                MSGPACK_MAP16 => {
+                    left += 2 * self.decode_u16()? as u64;
+                    0
                 }
-                Ok(())
-            }
-            MSGPACK_MAP32 => {
-                let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?; // Skip key
-                    self.skip_value()?; // Skip value
+                MSGPACK_MAP32 => {
+                    left += 2 * self.decode_u32()? as u64;
+                    0
                 }
-                Ok(())
-            }
 
-            // Array format
-            prefix @ MSGPACK_FIXARRAY_MIN..=MSGPACK_FIXARRAY_MAX => {
-                let len = (prefix & 0x0f) as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
+                // Array format
+                prefix @ MSGPACK_FIXARRAY_MIN..=MSGPACK_FIXARRAY_MAX => {
+                    left += (prefix & 0x0f) as u64;
+                    0
                 }
-                Ok(())
-            }
-            MSGPACK_ARRAY16 => {
-                let len = self.decode_u16()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
+                MSGPACK_ARRAY16 => {
+                    left += self.decode_u16()? as u64;
+                    0
                 }
-                Ok(())
-            }
-            MSGPACK_ARRAY32 => {
-                let len = self.decode_u32()? as usize;
-                for _ in 0..len {
-                    self.skip_value()?;
+                MSGPACK_ARRAY32 => {
+                    left += self.decode_u32()? as u64;
+                    0
                 }
-                Ok(())
-            }
 
-            _ => Err(DecodeError::UnexpectedType),
+                _ => return Err(DecodeError::UnexpectedType),
+            };
+            self.skip_bytes(bytes)?;
         }
+        Ok(())
     }
 
     fn deserialize_value(&mut self, wip: Wip<'input>) -> Result<Wip<'input>, DecodeError> {
@@ -422,34 +375,34 @@ impl<'input> Decoder<'input> {
                 trace!("Deserializing scalar");
                 if shape.is_type::<String>() {
                     let s = self.decode_string()?;
-                    wip.put(s).unwrap()
+                    wip.put(s).map_err(|_| DecodeError::InvalidData)?
                 } else if shape.is_type::<u64>() {
                     let n = self.decode_int::<u64>()?;
-                    wip.put(n).unwrap()
+                    wip.put(n).map_err(|_| DecodeError::InvalidData)?
                 } else if shape.is_type::<u32>() {
                     let n = self.decode_int::<u32>()?;
-                    wip.put(n).unwrap()
+                    wip.put(n).map_err(|_| DecodeError::InvalidData)?
                 } else if shape.is_type::<u16>() {
                     let n = self.decode_int::<u16>()?;
-                    wip.put(n).unwrap()
+                    wip.put(n).map_err(|_| DecodeError::InvalidData)?
                 } else if shape.is_type::<u8>() {
                     let n = self.decode_int::<u8>()?;
-                    wip.put(n).unwrap()
+                    wip.put(n).map_err(|_| DecodeError::InvalidData)?
                 } else if shape.is_type::<i64>() {
                     let n = self.decode_int::<i64>()?;
-                    wip.put(n).unwrap()
+                    wip.put(n).map_err(|_| DecodeError::InvalidData)?
                 } else if shape.is_type::<i32>() {
                     let n = self.decode_int::<i32>()?;
-                    wip.put(n).unwrap()
+                    wip.put(n).map_err(|_| DecodeError::InvalidData)?
                 } else if shape.is_type::<i16>() {
                     let n = self.decode_int::<i16>()?;
-                    wip.put(n).unwrap()
+                    wip.put(n).map_err(|_| DecodeError::InvalidData)?
                 } else if shape.is_type::<i8>() {
                     let n = self.decode_int::<i8>()?;
-                    wip.put(n).unwrap()
+                    wip.put(n).map_err(|_| DecodeError::InvalidData)?
                 } else if shape.is_type::<bool>() {
                     let b = self.decode_bool()?;
-                    wip.put(b).unwrap()
+                    wip.put(b).map_err(|_| DecodeError::InvalidData)?
                 } else {
                     return Err(DecodeError::UnsupportedType(format!("{}", shape)));
                 }
@@ -463,10 +416,15 @@ impl<'input> Decoder<'input> {
                     let key = self.decode_string()?;
                     match wip.field_index(&key) {
                         Some(index) => {
+                            // a field can only be set once
+                            if wip.is_field_set(index).unwrap_or_default() {
+                                return Err(DecodeError::InvalidData);
+                            }
+                            let field = wip.field(index).map_err(|_| DecodeError::InvalidData)?;
                             wip = self
-                                .deserialize_value(wip.field(index).unwrap())?
+                                .deserialize_value(field)?
                                 .pop()
-                                .unwrap();
+                                .map_err(|_| DecodeError::InvalidData)?;
                         }
                         None => {
                             // Skip unknown field value
-- 
2.43.0


From a542b29f4f7b9c0892a6077ef714f75c7d1f4b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 21/53] fix: TOML options were only read correctly in the last
 field of a struct

---
 facet-toml/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index e564cd0..0855d50 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -99,6 +99,7 @@ fn deserialize_as_struct<'a>(
                     wip = wip
                         .pop_some_push_none()
                         .map_err(|e| AnyErr(e.to_string()))?;
+                    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
                 } else {
                     return Err(AnyErr(format!("Expected field '{}'", field.name)));
                 }
@@ -366,6 +367,8 @@ fn deserialize_as_option<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
 
     wip = deserialize_item(wip, item)?;
 
+    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
+
     trace!("Finished deserializing {}", "option".blue());
 
     Ok(wip)
-- 
2.43.0


From 9b267967978e0063bc4d31a14fbb21b2e3118f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:37 +0000
Subject: [PATCH 22/53] fix: TOML enum variants given as a single value
 corrupted the fields after them

---
 facet-toml/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 0855d50..f0d551a 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -226,13 +226,13 @@ fn build_enum_from_variant_name<'a>(
             };
 
             wip = deserialize_item(wip, field)?;
-
-            wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
         } else if item.is_value() {
             wip = deserialize_item(wip, item)?;
         } else {
             return Err(format!("TOML {} is not a recognized type", item.type_name()).into());
         }
+
+        wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
     }
 
     Ok(wip)
-- 
2.43.0


From 0499250ce4d420006e2a5f287c3ce63c15e4dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:01 +0000
Subject: [PATCH 23/53] fix: TOML and YAML panicked on types they do not
 support

---
 facet-toml/src/lib.rs | 14 ++++++++------
 facet-yaml/src/lib.rs |  3 ---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index f0d551a..a932305 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -117,7 +117,9 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
     trace!("Deserializing {}", "enum".blue());
 
     let wip = match item {
-        Item::None => todo!(),
+        Item::None => {
+            return Err(AnyErr("Expected an enum variant, got nothing".to_string()));
+        }
 
         Item::Value(value) => {
             trace!("Entering {}", "value".cyan());
@@ -178,7 +180,9 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
             }
         }
 
-        Item::ArrayOfTables(_array_of_tables) => todo!(),
+        Item::ArrayOfTables(_array_of_tables) => {
+            return Err(AnyErr("Cannot parse enum from array of tables".to_string()));
+        }
     };
 
     trace!("Finished deserializing {}", "enum".blue());
@@ -374,12 +378,10 @@ fn deserialize_as_option<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
     Ok(wip)
 }
 
-fn deserialize_as_smartpointer<'a>(mut _wip: Wip<'a>, _item: &Item) -> Result<Wip<'a>, AnyErr> {
+fn deserialize_as_smartpointer<'a>(wip: Wip<'a>, _item: &Item) -> Result<Wip<'a>, AnyErr> {
     trace!("Deserializing {}", "smart pointer".blue());
 
-    trace!("Finished deserializing {}", "smart pointer".blue());
-
-    todo!();
+    Err(AnyErr(format!("Unsupported type: {}", wip.shape())))
 }
 
 fn deserialize_as_scalar<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
diff --git a/facet-yaml/src/lib.rs b/facet-yaml/src/lib.rs
index e402a67..0755915 100644
--- a/facet-yaml/src/lib.rs
+++ b/facet-yaml/src/lib.rs
@@ -92,8 +92,6 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Unsupported scalar type: {}", shape)));
             }
         }
-        Def::List(_) => todo!(),
-        Def::Map(_) => todo!(),
         Def::Struct(_) => {
             if let Yaml::Hash(hash) = value {
                 for (k, v) in hash {
@@ -113,7 +111,6 @@ fn deserialize_value<'a>(mut wip: Wip<'a>, value: &Yaml) -> Result<Wip<'a>, AnyE
                 return Err(AnyErr(format!("Expected a YAML hash, got: {:?}", value)));
             }
         }
-        Def::Enum(_) => todo!(),
         _ => return Err(AnyErr(format!("Unsupported type: {:?}", shape))),
     }
     Ok(wip)
-- 
2.43.0


From 2602a9c3ba97de1441c0abdb4df2dfd499daa184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:23 +0000
Subject: [PATCH 24/53] fix: TOML and YAML numbers that do not fit were
 truncated or wrapped

---
 facet-toml/src/lib.rs       | 20 ++++++++++----------
 facet-toml/src/to_scalar.rs | 10 ++++++++++
 facet-yaml/src/lib.rs       |  4 +++-
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index a932305..74d4421 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -419,52 +419,52 @@ fn deserialize_as_scalar<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
         }
         ScalarType::U8 => {
             wip = wip
-                .put(to_scalar::number::<u8>(item)?)
+                .put(to_scalar::integer::<u8>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U16 => {
             wip = wip
-                .put(to_scalar::number::<u16>(item)?)
+                .put(to_scalar::integer::<u16>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U32 => {
             wip = wip
-                .put(to_scalar::number::<u32>(item)?)
+                .put(to_scalar::integer::<u32>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::U64 => {
             wip = wip
-                .put(to_scalar::number::<u64>(item)?)
+                .put(to_scalar::integer::<u64>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::USize => {
             wip = wip
-                .put(to_scalar::number::<usize>(item)?)
+                .put(to_scalar::integer::<usize>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I8 => {
             wip = wip
-                .put(to_scalar::number::<i8>(item)?)
+                .put(to_scalar::integer::<i8>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I16 => {
             wip = wip
-                .put(to_scalar::number::<i16>(item)?)
+                .put(to_scalar::integer::<i16>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I32 => {
             wip = wip
-                .put(to_scalar::number::<i32>(item)?)
+                .put(to_scalar::integer::<i32>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::I64 => {
             wip = wip
-                .put(to_scalar::number::<i64>(item)?)
+                .put(to_scalar::integer::<i64>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::ISize => {
             wip = wip
-                .put(to_scalar::number::<isize>(item)?)
+                .put(to_scalar::integer::<isize>(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         #[cfg(feature = "std")]
diff --git a/facet-toml/src/to_scalar.rs b/facet-toml/src/to_scalar.rs
index f7654bc..4312f75 100644
--- a/facet-toml/src/to_scalar.rs
+++ b/facet-toml/src/to_scalar.rs
@@ -24,6 +24,16 @@ pub(crate) fn number<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
     }
 }
 
+/// Try to convert a TOML integer, or a float without a fractional part, to a Rust integer.
+pub(crate) fn integer<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
+    if let Some(float) = item.as_float() {
+        if float.fract() != 0.0 {
+            return Err(format!("Cannot convert float to {}", std::any::type_name::<T>()).into());
+        }
+    }
+    number(item)
+}
+
 /// Try to convert a TOML boolean to a Rust boolean.
 pub(crate) fn boolean(item: &Item) -> Result<bool, AnyErr> {
     let v = item
diff --git a/facet-yaml/src/lib.rs b/facet-yaml/src/lib.rs
index 0755915..86bf0a2 100644
--- a/facet-yaml/src/lib.rs
+++ b/facet-yaml/src/lib.rs
@@ -58,7 +58,9 @@ fn yaml_to_u64(ty: &Yaml) -> Result<u64, AnyErr> {
         Yaml::Real(r) => r
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse real as u64".into())),
-        Yaml::Integer(i) => Ok(*i as u64),
+        Yaml::Integer(i) => {
+            u64::try_from(*i).map_err(|_| AnyErr("Failed to convert integer to u64".into()))
+        }
         Yaml::String(s) => s
             .parse::<u64>()
             .map_err(|_| AnyErr("Failed to parse string as u64".into())),
-- 
2.43.0


From f04212ec51bcf832a0f6aead365481e859eb4139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 25/53] fix: TOML read the name of a variant as the data of
 that variant

---
 facet-toml/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 74d4421..4d8e011 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -158,7 +158,8 @@ fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr>
                 .as_str()
                 .ok_or_else(|| format!("Expected string, got: {}", value.type_name()))?;
 
-            build_enum_from_variant_name(wip, variant_name, item)?
+            // Just a name can't be the data of the variant as well
+            build_enum_from_variant_name(wip, variant_name, &Item::None)?
         }
 
         Item::Table(table) => {
-- 
2.43.0


From bcec526a22145e6117fcdc6a1e12a819e0940234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 26/53] fix: positional arguments after the first were ignored
 or rejected

---
 facet-args/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/facet-args/src/lib.rs b/facet-args/src/lib.rs
index c0cdbf3..e4cd086 100644
--- a/facet-args/src/lib.rs
+++ b/facet-args/src/lib.rs
@@ -63,16 +63,18 @@ pub fn from_slice<T: Facet>(s: &[&str]) -> T {
                 panic!("Expected struct definition");
             };
 
-            for (field_index, f) in sd.fields.iter().enumerate() {
-                if f.attributes
+            // the first positional field that isn't set yet
+            let field_index = sd.fields.iter().enumerate().position(|(field_index, f)| {
+                f.attributes
                     .iter()
                     .any(|a| matches!(a, FieldAttribute::Arbitrary(a) if a.contains("positional")))
-                {
-                    let field = wip.field(field_index).unwrap();
-                    wip = parse_field(field, token).unwrap();
-                    break;
-                }
-            }
+                    && !wip.is_field_set(field_index).unwrap()
+            });
+            let Some(field_index) = field_index else {
+                panic!("Unexpected positional argument: {}", token);
+            };
+            let field = wip.field(field_index).unwrap();
+            wip = parse_field(field, token).unwrap();
         }
     }
     wip.build().unwrap().materialize().unwrap()
-- 
2.43.0


From 7517f82cf51cacad4939cb239eac6c1d92397d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 27/53] fix: the pretty printer showed sensitive data of enum
 variants and arrays

---
 facet-pretty/src/printer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index ccef62f..46c8bf8 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -367,7 +367,9 @@ impl PrettyPrinter {
                             }
                         }
                         _ => {
-                            write!(f, "unsupported peek variant: {:?}", item.value)?;
+                            // Don't use the `Debug` of the value: it would show its sensitive fields
+                            write!(f, "unsupported peek variant: ")?;
+                            self.write_type_name(f, &item.value)?;
                         }
                     }
                 }
@@ -522,6 +524,15 @@ impl PrettyPrinter {
                             field_index: field_index + 1,
                         };
 
+                        // Check if field is sensitive
+                        if field.flags.contains(FieldFlags::SENSITIVE) {
+                            self.write_redacted(f, "[REDACTED]")?;
+                            self.write_punctuation(f, ",")?;
+                            writeln!(f)?;
+                            stack.push_back(item);
+                            continue;
+                        }
+
                         // Create finish and start items for processing the field value
                         let finish_item = StackItem {
                             value: field_value,
-- 
2.43.0


From 0b6f7c179cce03acfc71ede0f0155da0316e8611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 28/53] fix: the pretty printer left the terminal colored after
 a byte string

---
 facet-pretty/src/printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index 46c8bf8..ffc21b0 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -651,7 +651,9 @@ impl PrettyPrinter {
                     write!(f, "{:02x}", *byte)?;
 
                     // Reset color if needed
-                    // Reset color already handled by stylize
+                    if self.use_colors {
+                        write!(f, "\x1b[0m")?;
+                    }
 
                     // Push back current item to continue after formatting byte
                     item.state = StackState::ProcessBytesItem {
-- 
2.43.0


From 553c1d94fd22e629c7c8e86249ad8669fbe8a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 29/53] fix: skipping a deeply nested JSON value overflowed the
 stack, and took any value as a key

---
 facet-json/src/deserialize.rs | 198 ++++++++++++++++++----------------
 1 file changed, 105 insertions(+), 93 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 790de1b..7364326 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -634,6 +634,7 @@ pub fn from_slice_wip<'input, 'a>(
     }
 }
 
+/// Skips a value, without recursing: malicious input can nest values very deeply
 fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     let bytes = input;
 
@@ -647,122 +648,133 @@ fn skip_over_value(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
         }
     };
 
-    skip_whitespace(pos);
+    // Helper for skipping the key of an object, and the colon after it
+    let skip_key = |pos: &mut usize| {
+        skip_whitespace(pos);
+        match bytes.get(*pos) {
+            Some(b'"') => {}
+            Some(&c) => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+            None => {
+                return Err(JsonErrorKind::UnexpectedEof(
+                    "while skipping over value: EOF inside object",
+                ));
+            }
+        }
+        *pos += 1;
+        let start = *pos;
+        skip_over_string(pos, input)?;
+        unescape(&input[start..*pos - 1])?;
+        skip_whitespace(pos);
+        // Expect colon between key and value
+        if *pos >= bytes.len() || bytes[*pos] != b':' {
+            return Err(JsonErrorKind::UnexpectedEof(
+                "while skipping over value: object key with no colon or input ended",
+            ));
+        }
+        *pos += 1;
+        Ok(())
+    };
 
-    if *pos >= bytes.len() {
-        return Err(JsonErrorKind::UnexpectedEof(
-            "while skipping over value: input ended unexpectedly at root",
-        ));
-    }
+    // The objects and arrays we're in, outermost first: what closes each of them
+    let mut closers: Vec<u8> = Vec::new();
 
-    match bytes[*pos] {
-        b'{' => {
-            // Skip a full object, recursively
-            *pos += 1;
-            skip_whitespace(pos);
-            if *pos < bytes.len() && bytes[*pos] == b'}' {
+    loop {
+        skip_whitespace(pos);
+
+        if *pos >= bytes.len() {
+            return Err(JsonErrorKind::UnexpectedEof(
+                "while skipping over value: input ended unexpectedly at root",
+            ));
+        }
+
+        match bytes[*pos] {
+            b'{' => {
                 *pos += 1;
-                return Ok(());
-            }
-            loop {
-                // Skip key
-                skip_over_value(pos, input)?;
                 skip_whitespace(pos);
-                // Expect colon between key and value
-                if *pos >= bytes.len() || bytes[*pos] != b':' {
-                    return Err(JsonErrorKind::UnexpectedEof(
-                        "while skipping over value: object key with no colon or input ended",
-                    ));
+                if *pos < bytes.len() && bytes[*pos] == b'}' {
+                    *pos += 1;
+                } else {
+                    skip_key(pos)?;
+                    closers.push(b'}');
+                    continue;
                 }
+            }
+            b'[' => {
                 *pos += 1;
                 skip_whitespace(pos);
-                // Skip value
-                skip_over_value(pos, input)?;
-                skip_whitespace(pos);
-                if *pos >= bytes.len() {
-                    return Err(JsonErrorKind::UnexpectedEof(
-                        "while skipping over value: object value with EOF after",
-                    ));
-                }
-                if bytes[*pos] == b'}' {
-                    *pos += 1;
-                    break;
-                } else if bytes[*pos] == b',' {
+                if *pos < bytes.len() && bytes[*pos] == b']' {
                     *pos += 1;
-                    skip_whitespace(pos);
-                    continue;
                 } else {
-                    return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
+                    closers.push(b']');
+                    continue;
                 }
             }
-        }
-        b'[' => {
-            // Skip a full array, recursively
-            *pos += 1;
-            skip_whitespace(pos);
-            if *pos < bytes.len() && bytes[*pos] == b']' {
+            b'"' => {
+                // Skip a string, with escape processing
                 *pos += 1;
-                return Ok(());
+                let start = *pos;
+                skip_over_string(pos, input)?;
+                unescape(&input[start..*pos - 1])?;
             }
-            loop {
-                skip_over_value(pos, input)?;
-                skip_whitespace(pos);
-                if *pos >= bytes.len() {
-                    return Err(JsonErrorKind::UnexpectedEof(
-                        "while skipping over value: EOF inside array",
-                    ));
+            b't' => {
+                // Expect "true"
+                if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b"true" {
+                    *pos += 4;
+                } else {
+                    return Err(JsonErrorKind::UnexpectedCharacter('t'));
                 }
-                if bytes[*pos] == b']' {
-                    *pos += 1;
-                    break;
-                } else if bytes[*pos] == b',' {
-                    *pos += 1;
-                    skip_whitespace(pos);
-                    continue;
+            }
+            b'f' => {
+                // Expect "false"
+                if bytes.len() >= *pos + 5 && &bytes[*pos..*pos + 5] == b"false" {
+                    *pos += 5;
                 } else {
-                    return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
+                    return Err(JsonErrorKind::UnexpectedCharacter('f'));
                 }
             }
-        }
-        b'"' => {
-            // Skip a string, with escape processing
-            *pos += 1;
-            let start = *pos;
-            skip_over_string(pos, input)?;
-            unescape(&input[start..*pos - 1])?;
-        }
-        b't' => {
-            // Expect "true"
-            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b"true" {
-                *pos += 4;
-            } else {
-                return Err(JsonErrorKind::UnexpectedCharacter('t'));
+            b'n' => {
+                // Expect "null"
+                if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b"null" {
+                    *pos += 4;
+                } else {
+                    return Err(JsonErrorKind::UnexpectedCharacter('n'));
+                }
             }
-        }
-        b'f' => {
-            // Expect "false"
-            if bytes.len() >= *pos + 5 && &bytes[*pos..*pos + 5] == b"false" {
-                *pos += 5;
-            } else {
-                return Err(JsonErrorKind::UnexpectedCharacter('f'));
+            b'-' | b'0'..=b'9' => {
+                skip_over_number(pos, input)?;
             }
-        }
-        b'n' => {
-            // Expect "null"
-            if bytes.len() >= *pos + 4 && &bytes[*pos..*pos + 4] == b"null" {
-                *pos += 4;
-            } else {
-                return Err(JsonErrorKind::UnexpectedCharacter('n'));
+            _ => {
+                return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
             }
         }
-        b'-' | b'0'..=b'9' => {
-            skip_over_number(pos, input)?;
-        }
-        _ => {
-            return Err(JsonErrorKind::UnexpectedCharacter(bytes[*pos] as char));
+
+        // That value is complete: is what it's in?
+        loop {
+            let Some(&closer) = closers.last() else {
+                return Ok(());
+            };
+            skip_whitespace(pos);
+            match bytes.get(*pos) {
+                None => {
+                    return Err(JsonErrorKind::UnexpectedEof(
+                        "while skipping over value: EOF inside object or array",
+                    ));
+                }
+                Some(&c) if c == closer => {
+                    *pos += 1;
+                    closers.pop();
+                }
+                Some(b',') => {
+                    *pos += 1;
+                    if closer == b'}' {
+                        skip_key(pos)?;
+                    }
+                    break;
+                }
+                Some(&c) => return Err(JsonErrorKind::UnexpectedCharacter(c as char)),
+            }
         }
     }
-    Ok(())
 }
 
 /// Skips a number: -?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?
-- 
2.43.0


From 62e08f165c7e49947fe9e26a38b29a3c44773124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 30/53] fix: the pretty printer reported cycles between
 zero-sized values

---
 facet-pretty/src/printer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/facet-pretty/src/printer.rs b/facet-pretty/src/printer.rs
index ffc21b0..cec071d 100644
--- a/facet-pretty/src/printer.rs
+++ b/facet-pretty/src/printer.rs
@@ -148,7 +148,10 @@ impl PrettyPrinter {
                     if let Some(&ptr_type_depth) = visited.get(&item.value.id()) {
                         // If the current type_depth is significantly deeper than when we first saw this value,
                         // we have a true cycle, not just a transparent wrapper
-                        if item.type_depth > ptr_type_depth + 1 {
+                        // (values without a size can share an address, but never contain themselves)
+                        if item.type_depth > ptr_type_depth + 1
+                            && item.value.shape().layout.size() > 0
+                        {
                             self.write_type_name(f, &item.value)?;
                             self.write_punctuation(f, " { ")?;
                             self.write_comment(
-- 
2.43.0


From 37ddbad6bfe4422e9989364ad319304bbdf8cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 31/53] fix: steps on a builder whose last position was left
 panicked

---
 facet-reflect/src/wip/enum_.rs | 1 +
 facet-reflect/src/wip/mod.rs   | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/facet-reflect/src/wip/enum_.rs b/facet-reflect/src/wip/enum_.rs
index e4da002..d61ed51 100644
--- a/facet-reflect/src/wip/enum_.rs
+++ b/facet-reflect/src/wip/enum_.rs
@@ -87,6 +87,7 @@ impl Wip<'_> {
     /// * `Ok(Self)` if the variant was successfully selected.
     /// * `Err(ReflectError)` if the current frame is not an enum or no variant with the given name exists.
     pub fn variant_named(self, name: &str) -> Result<Self, ReflectError> {
+        self.check_not_none()?;
         let frame = self.frames.last().unwrap();
         let shape = frame.shape;
         let Def::Enum(def) = shape.def else {
diff --git a/facet-reflect/src/wip/mod.rs b/facet-reflect/src/wip/mod.rs
index 3accee9..a2e1456 100644
--- a/facet-reflect/src/wip/mod.rs
+++ b/facet-reflect/src/wip/mod.rs
@@ -406,7 +406,7 @@ impl<'a> Wip<'a> {
     }
 
     /// Returns an error if the current frame stands for the `None` of an option: it has the
-    /// shape of the option's payload, but there's no payload to write to.
+    /// shape of the option's payload, but there's no payload to write to. Likewise if there is no frame.
     fn check_not_none(&self) -> Result<(), ReflectError> {
         match self.frames.last() {
             Some(frame) if frame.istate.mode == FrameMode::OptionNone => {
@@ -415,7 +415,11 @@ impl<'a> Wip<'a> {
                     operation: "tried to write to an option that was set to None",
                 })
             }
-            _ => Ok(()),
+            Some(_) => Ok(()),
+            None => Err(ReflectError::OperationFailed {
+                shape: <()>::SHAPE,
+                operation: "tried to write to a value but there was no frame",
+            }),
         }
     }
 
@@ -778,6 +782,7 @@ impl<'a> Wip<'a> {
     /// * `Err(ReflectError)` if the current frame is not a struct or an enum with a selected variant,
     ///   or if the field doesn't exist.
     pub fn field_named(self, name: &str) -> Result<Self, ReflectError> {
+        self.check_not_none()?;
         let frame = self.frames.last().unwrap();
         let shape = frame.shape;
 
-- 
2.43.0


From 7af90cda03ce13436d4c122109bad79f3ef3fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 32/53] fix: JSON integers written with an exponent or a
 fraction were rounded through an f64

---
 facet-json/src/deserialize.rs | 38 ++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index 7364326..e282695 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -405,11 +405,12 @@ pub fn from_slice_wip<'input, 'a>(
                                     bail!(JsonErrorKind::NumberOutOfRange(number));
                                 }
                                 wip.parse(token)
-                            } else if token == "-0" || token.contains(['.', 'e', 'E']) {
-                                wip.try_put_f64(number)
                             } else {
                                 // an f64 can't represent all integers
-                                wip.parse(token)
+                                match integer_literal(token) {
+                                    Some(literal) => wip.parse(&literal),
+                                    None => bail!(JsonErrorKind::NumberOutOfRange(number)),
+                                }
                             };
                             wip = match res {
                                 Ok(wip) => wip,
@@ -813,6 +814,37 @@ fn skip_over_number(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind>
     Ok(())
 }
 
+/// Rewrites a number that is an integer, however it's spelled, without a fraction or an exponent
+fn integer_literal(token: &str) -> Option<Cow<'_, str>> {
+    let (sign, unsigned) = match token.strip_prefix('-') {
+        Some(rest) => ("-", rest),
+        None => ("", token),
+    };
+    let (mantissa, exponent) = unsigned.split_once(['e', 'E']).unwrap_or((unsigned, "0"));
+    let (whole, fraction) = mantissa.split_once('.').unwrap_or((mantissa, ""));
+    let digits = format!("{whole}{fraction}");
+    let digits = digits.trim_start_matches('0');
+    if digits.is_empty() {
+        // there is no negative zero among the integers
+        return Some(Cow::Borrowed("0"));
+    }
+    let significant = digits.trim_end_matches('0');
+    // An exponent that doesn't even fit is either way too large, or leaves a fraction
+    let zeros = exponent
+        .parse::<i64>()
+        .ok()?
+        .checked_sub(fraction.len() as i64)?
+        .checked_add((digits.len() - significant.len()) as i64)?;
+    // no integer type has more than 39 digits
+    if !(0..=40).contains(&zeros) {
+        return None;
+    }
+    Some(Cow::Owned(format!(
+        "{sign}{significant}{}",
+        "0".repeat(zeros as usize)
+    )))
+}
+
 /// Skips the rest of a string, including the closing quote
 fn skip_over_string(pos: &mut usize, input: &[u8]) -> Result<(), JsonErrorKind> {
     loop {
-- 
2.43.0


From f00aed618755e4c2ee9e1cc07282af5a014da135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 33/53] fix: equal hash maps hashed differently through their
 shape

---
 facet-core/src/impls_std/hashmap.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index 1130f1d..e6569e5 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -1,7 +1,11 @@
 use alloc::collections::VecDeque;
-use core::{alloc::Layout, hash::Hash, mem::MaybeUninit};
+use core::{
+    alloc::Layout,
+    hash::{Hash, Hasher},
+    mem::MaybeUninit,
+};
 use std::collections::HashMap;
-use std::hash::RandomState;
+use std::hash::{DefaultHasher, RandomState};
 
 use crate::ptr::{PtrConst, PtrMut, PtrUninit};
 
@@ -128,14 +132,19 @@ where
                             let v_hash = V::SHAPE.vtable.hash.unwrap_unchecked();
                             let mut hasher = HasherProxy::new(hasher_this, hasher_write_fn);
                             map.len().hash(&mut hasher);
+                            // equal maps don't iterate in the same order, so it can't matter
+                            let mut sum = 0u64;
                             for (k, v) in map {
-                                k.hash(&mut hasher);
+                                let mut entry = DefaultHasher::new();
+                                k.hash(&mut entry);
                                 (v_hash)(
                                     PtrConst::new(v as *const _),
-                                    hasher_this,
-                                    hasher_write_fn,
+                                    PtrMut::new(&mut entry as *mut DefaultHasher),
+                                    |this, bytes| this.as_mut::<DefaultHasher>().write(bytes),
                                 );
+                                sum = sum.wrapping_add(entry.finish());
                             }
+                            sum.hash(&mut hasher);
                         });
                     }
 
@@ -220,7 +229,10 @@ unsafe impl Facet for RandomState {
                     .affinity(ScalarAffinity::opaque().build())
                     .build(),
             ))
-            .vtable(value_vtable!(RandomState, |f, _opts| write!(f, "RandomState")))
+            .vtable(value_vtable!(RandomState, |f, _opts| write!(
+                f,
+                "RandomState"
+            )))
             .build()
     };
 }
-- 
2.43.0


From 1904ef093605341840a525fec45c9a9c1b160f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 34/53] fix: showing a JSON error panicked when it pointed into
 a character

---
 facet-json/src/deserialize/error.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/facet-json/src/deserialize/error.rs b/facet-json/src/deserialize/error.rs
index 24f52fc..609bcae 100644
--- a/facet-json/src/deserialize/error.rs
+++ b/facet-json/src/deserialize/error.rs
@@ -96,7 +96,7 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
 
         let source_id = "json";
 
-        let (span_start, span_end) = match &self.kind {
+        let (mut span_start, mut span_end) = match &self.kind {
             JsonErrorKind::StringAsNumber(s) => (self.pos - s.len(), self.pos),
             JsonErrorKind::UnknownField(f) => (self.pos - f.len() - 1, self.pos - 1),
             _ => {
@@ -108,6 +108,13 @@ impl core::fmt::Display for JsonParseErrorWithContext<'_> {
                 (self.pos, span_end)
             }
         };
+        // the name of the field may be shorter than it's spelled: don't point into characters
+        while !input_str.is_char_boundary(span_start) {
+            span_start -= 1;
+        }
+        while !input_str.is_char_boundary(span_end) {
+            span_end += 1;
+        }
 
         let mut report = Report::build(ReportKind::Error, (source_id, span_start..span_end))
             .with_message(format!("Error at {}", self.path.yellow()))
-- 
2.43.0


From 7e8544842994d566dcc92609737981d0cf9e1f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 35/53] fix: JSON null was refused for an option of a struct

---
 facet-json/src/deserialize.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/facet-json/src/deserialize.rs b/facet-json/src/deserialize.rs
index e282695..bd65ca2 100644
--- a/facet-json/src/deserialize.rs
+++ b/facet-json/src/deserialize.rs
@@ -1,5 +1,5 @@
 use facet_core::{Def, Facet, FieldAttribute, ScalarAffinity, ShapeAttribute};
-use facet_reflect::{HeapValue, Wip};
+use facet_reflect::{FrameMode, HeapValue, Wip};
 use log::trace;
 
 use alloc::borrow::Cow;
@@ -565,8 +565,9 @@ pub fn from_slice_wip<'input, 'a>(
                         .any(|attr| matches!(attr, ShapeAttribute::Default));
                     let mut has_missing_fields = false;
 
-                    // Ensure all struct fields are set before popping
-                    if let Def::Struct(sd) = wip.shape().def {
+                    // Ensure all struct fields are set before popping (there are none in a `None`)
+                    let is_none = wip.mode() == FrameMode::OptionNone;
+                    if let (Def::Struct(sd), false) = (wip.shape().def, is_none) {
                         for i in 0..sd.fields.len() {
                             if !wip.is_field_set(i).unwrap() {
                                 let missing_field: &'static str = sd.fields[i].name;
-- 
2.43.0


From 6b77bb74cefc0e7b4cbb4a1f1a4fd425b1d83909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 36/53] fix: Option offers clone_into when its contents do, so
 whole-struct defaults can be cloned

---
 facet-core/src/impls_core/option.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/facet-core/src/impls_core/option.rs b/facet-core/src/impls_core/option.rs
index 56aa84b..a9a11f1 100644
--- a/facet-core/src/impls_core/option.rs
+++ b/facet-core/src/impls_core/option.rs
@@ -76,6 +76,20 @@ unsafe impl<T: Facet> Facet for Option<T> {
                         });
                     }
 
+                    if T::SHAPE.vtable.clone_into.is_some() {
+                        vtable.clone_into = Some(|src, dst| unsafe {
+                            let cloned = src.get::<Self>().as_ref().map(|value| {
+                                let mut slot = MaybeUninit::<T>::uninit();
+                                (T::SHAPE.vtable.clone_into.unwrap_unchecked())(
+                                    PtrConst::new(value),
+                                    PtrUninit::from_maybe_uninit(&mut slot),
+                                );
+                                slot.assume_init()
+                            });
+                            dst.put(cloned)
+                        });
+                    }
+
                     if T::SHAPE.is_from_str() {
                         vtable.parse = Some(|str, target| {
                             let mut t = MaybeUninit::<T>::uninit();
-- 
2.43.0


From 827e2505cc728737fcaaf37ca4b5572c940aef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:10 +0000
Subject: [PATCH 37/53] fix: TOML refused struct variants whose optional fields
 are absent

---
 facet-toml/src/lib.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 4d8e011..031666e 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -94,12 +94,7 @@ fn deserialize_as_struct<'a>(
             Some(field_item) => wip = deserialize_item(wip, field_item)?,
             None => {
                 if let Def::Option(..) = field.shape().def {
-                    // TODO: how to push none
-                    wip = wip.push_some().map_err(|e| AnyErr(e.to_string()))?;
-                    wip = wip
-                        .pop_some_push_none()
-                        .map_err(|e| AnyErr(e.to_string()))?;
-                    wip = wip.pop().map_err(|e| AnyErr(e.to_string()))?;
+                    wip = put_none(wip)?;
                 } else {
                     return Err(AnyErr(format!("Expected field '{}'", field.name)));
                 }
@@ -113,6 +108,16 @@ fn deserialize_as_struct<'a>(
     Ok(wip)
 }
 
+/// Set the current option to none.
+fn put_none(mut wip: Wip<'_>) -> Result<Wip<'_>, AnyErr> {
+    // TODO: how to push none
+    wip = wip.push_some().map_err(|e| AnyErr(e.to_string()))?;
+    wip = wip
+        .pop_some_push_none()
+        .map_err(|e| AnyErr(e.to_string()))?;
+    wip.pop().map_err(|e| AnyErr(e.to_string()))
+}
+
 fn deserialize_as_enum<'a>(wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, AnyErr> {
     trace!("Deserializing {}", "enum".blue());
 
@@ -226,11 +231,16 @@ fn build_enum_from_variant_name<'a>(
             };
 
             // Try to get the TOML field matching the Rust name
-            let Some(field) = item.get(field_name) else {
-                return Err(format!("TOML field '{}' not found", field_name).into());
-            };
-
-            wip = deserialize_item(wip, field)?;
+            match item.get(field_name) {
+                Some(field_item) => wip = deserialize_item(wip, field_item)?,
+                None => {
+                    if let Def::Option(..) = field.shape().def {
+                        wip = put_none(wip)?;
+                    } else {
+                        return Err(format!("TOML field '{}' not found", field_name).into());
+                    }
+                }
+            }
         } else if item.is_value() {
             wip = deserialize_item(wip, item)?;
         } else {
-- 
2.43.0


From c711cb1e6fd3f2b34240e9bbb0d2a93d702ba033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:10 +0000
Subject: [PATCH 38/53] fix: TOML floats too large for an f32 became infinite

---
 facet-toml/src/lib.rs       | 2 +-
 facet-toml/src/to_scalar.rs | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/facet-toml/src/lib.rs b/facet-toml/src/lib.rs
index 031666e..39fdece 100644
--- a/facet-toml/src/lib.rs
+++ b/facet-toml/src/lib.rs
@@ -420,7 +420,7 @@ fn deserialize_as_scalar<'a>(mut wip: Wip<'a>, item: &Item) -> Result<Wip<'a>, A
         }
         ScalarType::F32 => {
             wip = wip
-                .put(to_scalar::number::<f32>(item)?)
+                .put(to_scalar::float32(item)?)
                 .map_err(|e| AnyErr(e.to_string()))?
         }
         ScalarType::F64 => {
diff --git a/facet-toml/src/to_scalar.rs b/facet-toml/src/to_scalar.rs
index 4312f75..678cc6e 100644
--- a/facet-toml/src/to_scalar.rs
+++ b/facet-toml/src/to_scalar.rs
@@ -34,6 +34,15 @@ pub(crate) fn integer<T: NumCast>(item: &Item) -> Result<T, AnyErr> {
     number(item)
 }
 
+/// Try to convert a TOML integer or float to an `f32`, unless it's too large for one.
+pub(crate) fn float32(item: &Item) -> Result<f32, AnyErr> {
+    let float = number::<f32>(item)?;
+    if float.is_infinite() && item.as_float().is_some_and(f64::is_finite) {
+        return Err("Cannot convert float to f32".into());
+    }
+    Ok(float)
+}
+
 /// Try to convert a TOML boolean to a Rust boolean.
 pub(crate) fn boolean(item: &Item) -> Result<bool, AnyErr> {
     let v = item
-- 
2.43.0


From 03d46eb4d69d90a129c3ab207c38b7ddd339f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:10 +0000
Subject: [PATCH 39/53] fix: any text but true was taken as false for a
 positional boolean argument

---
 facet-args/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/facet-args/src/lib.rs b/facet-args/src/lib.rs
index e4cd086..f5992a3 100644
--- a/facet-args/src/lib.rs
+++ b/facet-args/src/lib.rs
@@ -14,8 +14,8 @@ fn parse_field<'mem>(wip: Wip<'mem>, value: &str) -> Result<Wip<'mem>, ReflectEr
             if shape.is_type::<String>() {
                 wip.put(value.to_string())
             } else if shape.is_type::<bool>() {
-                log::trace!("Boolean field detected, setting to true");
-                wip.put(value.to_lowercase() == "true")
+                log::trace!("Boolean field detected");
+                wip.parse(&value.to_lowercase())
             } else {
                 wip.parse(value)
             }
-- 
2.43.0


From d159bd881c346a62bdb6c8eb9d9cf4b22721ee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:23 +0000
Subject: [PATCH 40/53] fix: deeply nested brackets in url-encoded keys
 overflowed the stack

---
 facet-urlencoded/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/facet-urlencoded/src/lib.rs b/facet-urlencoded/src/lib.rs
index 6dca4ad..bd0f675 100644
--- a/facet-urlencoded/src/lib.rs
+++ b/facet-urlencoded/src/lib.rs
@@ -108,6 +108,9 @@ fn initialize_nested_structures(nested: &mut NestedValues) {
     }
 }
 
+/// How deeply brackets in keys can be nested
+const MAX_DEPTH: usize = 128;
+
 /// Internal helper struct to represent nested values from URL-encoded data
 struct NestedValues {
     // Root level key-value pairs
@@ -125,8 +128,13 @@ impl NestedValues {
     }
 
     fn insert(&mut self, key: &str, value: String) {
+        self.insert_at(key, value, 0)
+    }
+
+    fn insert_at(&mut self, key: &str, value: String, depth: usize) {
         // For bracket notation like user[name] or user[address][city]
-        if let Some(open_bracket) = key.find('[') {
+        // (beyond the maximum depth, brackets are nothing special: such a key names no field)
+        if let Some(open_bracket) = key.find('[').filter(|_| depth < MAX_DEPTH) {
             if let Some(close_bracket) = key.find(']') {
                 if open_bracket < close_bracket {
                     let parent_key = &key[0..open_bracket];
@@ -144,7 +152,7 @@ impl NestedValues {
                     } else {
                         // Handle deeply nested case like user[address][city]=value
                         let new_key = format!("{}{}", nested_key, remainder);
-                        nested.insert(&new_key, value);
+                        nested.insert_at(&new_key, value, depth + 1);
                     }
                     return;
                 }
-- 
2.43.0


From bba208de9e50d8a4004a3473618db4898e7e894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 41/53] fix: every index of an array gave its first element

---
 facet-core/src/impls_core/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 71f00ce..0786c51 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -170,7 +170,7 @@ where
                                             "Index out of bounds: the len is {L} but the index is {index}"
                                         );
                                     }
-                                    PtrConst::new(ptr.as_ptr::<[T; L]>())
+                                    PtrConst::new(ptr.get::<[T; L]>().as_ptr().add(index))
                                 })
                                 .build()
                         },
-- 
2.43.0


From 83091571340f3a67e30a5918814d2ca60610e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 42/53] fix: a HashMap with a hasher of its own was treated as
 one with the default hasher

---
 facet-core/src/impls_std/hashmap.rs | 34 +++++++++++++++--------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/facet-core/src/impls_std/hashmap.rs b/facet-core/src/impls_std/hashmap.rs
index e6569e5..662ff62 100644
--- a/facet-core/src/impls_std/hashmap.rs
+++ b/facet-core/src/impls_std/hashmap.rs
@@ -5,7 +5,7 @@ use core::{
     mem::MaybeUninit,
 };
 use std::collections::HashMap;
-use std::hash::{DefaultHasher, RandomState};
+use std::hash::{BuildHasher, DefaultHasher, RandomState};
 
 use crate::ptr::{PtrConst, PtrMut, PtrUninit};
 
@@ -23,12 +23,12 @@ unsafe impl<K, V, S> Facet for HashMap<K, V, S>
 where
     K: Facet + core::cmp::Eq + core::hash::Hash + 'static,
     V: Facet + 'static,
-    S: Facet + Default,
+    S: Facet + Default + BuildHasher,
 {
     const SHAPE: &'static Shape = &const {
         Shape::builder()
             .id(ConstTypeId::of::<HashMap<K, V, S>>())
-            .layout(Layout::new::<HashMap<K, V>>())
+            .layout(Layout::new::<HashMap<K, V, S>>())
             .type_params(&[
                 TypeParam {
                     name: "K",
@@ -66,11 +66,13 @@ where
                                 write!(f, "HashMap<⋯>")
                             }
                         })
-                        .drop_in_place(|value| unsafe { value.drop_in_place::<HashMap<K, V>>() });
+                        .drop_in_place(|value| unsafe {
+                            value.drop_in_place::<HashMap<K, V, S>>()
+                        });
 
                     if K::SHAPE.vtable.debug.is_some() && V::SHAPE.vtable.debug.is_some() {
                         builder = builder.debug(|value, f| unsafe {
-                            let value = value.get::<HashMap<K, V>>();
+                            let value = value.get::<HashMap<K, V, S>>();
                             let k_debug = K::SHAPE.vtable.debug.unwrap_unchecked();
                             let v_debug = V::SHAPE.vtable.debug.unwrap_unchecked();
                             write!(f, "{{")?;
@@ -92,10 +94,10 @@ where
                     if K::SHAPE.vtable.clone_into.is_some() && V::SHAPE.vtable.clone_into.is_some()
                     {
                         builder = builder.clone_into(|src, dst| unsafe {
-                            let src = src.get::<HashMap<K, V>>();
+                            let src = src.get::<HashMap<K, V, S>>();
                             let k_clone = K::SHAPE.vtable.clone_into.unwrap_unchecked();
                             let v_clone = V::SHAPE.vtable.clone_into.unwrap_unchecked();
-                            let mut cloned = HashMap::<K, V>::new();
+                            let mut cloned = HashMap::<K, V, S>::with_hasher(S::default());
                             for (key, val) in src {
                                 let mut k = MaybeUninit::<K>::uninit();
                                 k_clone(PtrConst::new(key), PtrUninit::from_maybe_uninit(&mut k));
@@ -110,8 +112,8 @@ where
 
                     if V::SHAPE.vtable.eq.is_some() {
                         builder = builder.eq(|a, b| unsafe {
-                            let a = a.get::<HashMap<K, V>>();
-                            let b = b.get::<HashMap<K, V>>();
+                            let a = a.get::<HashMap<K, V, S>>();
+                            let b = b.get::<HashMap<K, V, S>>();
                             let v_eq = V::SHAPE.vtable.eq.unwrap_unchecked();
                             a.len() == b.len()
                                 && a.iter().all(|(key_a, val_a)| {
@@ -128,7 +130,7 @@ where
                     if V::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, hasher_this, hasher_write_fn| unsafe {
                             use crate::HasherProxy;
-                            let map = value.get::<HashMap<K, V>>();
+                            let map = value.get::<HashMap<K, V, S>>();
                             let v_hash = V::SHAPE.vtable.hash.unwrap_unchecked();
                             let mut hasher = HasherProxy::new(hasher_this, hasher_write_fn);
                             map.len().hash(&mut hasher);
@@ -163,25 +165,25 @@ where
                                         .put(Self::with_capacity_and_hasher(capacity, S::default()))
                                 })
                                 .insert(|ptr, key, value| unsafe {
-                                    let map = ptr.as_mut::<HashMap<K, V>>();
+                                    let map = ptr.as_mut::<HashMap<K, V, S>>();
                                     let key = key.read::<K>();
                                     let value = value.read::<V>();
                                     map.insert(key, value);
                                 })
                                 .len(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.len()
                                 })
                                 .contains_key(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.contains_key(key.get())
                                 })
                                 .get_value_ptr(|ptr, key| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     map.get(key.get()).map(|v| PtrConst::new(v as *const _))
                                 })
                                 .iter(|ptr| unsafe {
-                                    let map = ptr.get::<HashMap<K, V>>();
+                                    let map = ptr.get::<HashMap<K, V, S>>();
                                     let keys: VecDeque<&K> = map.keys().collect();
                                     let iter_state = Box::new(HashMapIterator { map: ptr, keys });
                                     PtrMut::new(Box::into_raw(iter_state) as *mut u8)
@@ -190,7 +192,7 @@ where
                                     MapIterVTable::builder()
                                         .next(|iter_ptr| unsafe {
                                             let state = iter_ptr.as_mut::<HashMapIterator<'_, K>>();
-                                            let map = state.map.get::<HashMap<K, V>>();
+                                            let map = state.map.get::<HashMap<K, V, S>>();
                                             while let Some(key) = state.keys.pop_front() {
                                                 if let Some(value) = map.get(key) {
                                                     return Some((
-- 
2.43.0


From 3e3a79236cdb57d0297e47a83b821562a5643426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 43/53] fix: looking up a key of another type in a map read it
 as the map's key type

---
 facet-reflect/src/peek/map.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/facet-reflect/src/peek/map.rs b/facet-reflect/src/peek/map.rs
index a5a2b51..b4b5d57 100644
--- a/facet-reflect/src/peek/map.rs
+++ b/facet-reflect/src/peek/map.rs
@@ -69,8 +69,18 @@ impl<'mem> PeekMap<'mem> {
         self.len() == 0
     }
 
+    /// Whether this is a value of the map's key type
+    fn is_key<K: facet_core::Facet>(&self, _key: &K) -> bool {
+        self.def.k.is_type::<K>()
+    }
+
     /// Check if the map contains a key
+    ///
+    /// A key of any other type than the map's is not in it.
     pub fn contains_key(&self, key: &impl facet_core::Facet) -> bool {
+        if !self.is_key(key) {
+            return false;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             (self.def.vtable.contains_key_fn)(self.value.data(), key_ptr)
@@ -78,7 +88,12 @@ impl<'mem> PeekMap<'mem> {
     }
 
     /// Get a value from the map for the given key
+    ///
+    /// A key of any other type than the map's is not in it.
     pub fn get<'k>(&self, key: &'k impl facet_core::Facet) -> Option<Peek<'mem>> {
+        if !self.is_key(key) {
+            return None;
+        }
         unsafe {
             let key_ptr = PtrConst::new(key);
             let value_ptr = (self.def.vtable.get_value_ptr_fn)(self.value.data(), key_ptr)?;
-- 
2.43.0


From c624b24aa66a0f4b5e9f655ce489ef5aa9b0dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 44/53] fix: the container attributes of an enum were missing
 from its shape

---
 facet-derive-emit/src/process_enum.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 4ba5668..8dea8d1 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -164,6 +164,7 @@ pub(crate) fn process_enum(parsed: Enum) -> TokenStream {
         String::new()
     };
     let maybe_container_doc = build_maybe_doc(&parsed.attributes);
+    let set_attributes = build_container_attributes(&parsed.attributes);
 
     // Generate the impl
     let output = format!(
@@ -196,6 +197,7 @@ unsafe impl<{generics_def}> ::facet::Facet for {enum_name}<{generics_use}> {wher
                 .repr(::facet::EnumRepr::{repr_type})
                 .build()))
             {maybe_container_doc}
+            {set_attributes}
             .build()
     }};
 }}
-- 
2.43.0


From 2e059ba0a6576978af1e4e4cc31f86b1cf0b9d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 45/53] fix: escapes in the new name of a renamed field were
 kept as they were written

---
 facet-derive-emit/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 27418d6..77d3060 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -169,9 +169,15 @@ pub(crate) fn gen_struct_field(
                     if let Some(equal_pos) = attr_str.find('=') {
                         let key = attr_str[..equal_pos].trim();
                         if key == "rename" {
-                            let value = attr_str[equal_pos + 1..].trim().trim_matches('"');
-                            attribute_list
-                                .push(format!(r#"::facet::FieldAttribute::Rename({:?})"#, value));
+                            let value = attr_str[equal_pos + 1..].trim();
+                            if value.ends_with(['"', '#']) {
+                                // a string literal, escapes and all: the compiler reads it
+                                attribute_list
+                                    .push(format!("::facet::FieldAttribute::Rename({value})"));
+                            } else {
+                                attribute_list
+                                    .push(format!("::facet::FieldAttribute::Rename({value:?})"));
+                            }
                         } else {
                             attribute_list.push(format!(
                                 r#"::facet::FieldAttribute::Arbitrary({:?})"#,
-- 
2.43.0


From 3300318a81e3134794bd09e33e8c78bd7437dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 46/53] fix: names written as raw identifiers were reported
 with their r# prefix

---
 facet-derive-emit/src/lib.rs          |  9 ++++++++-
 facet-derive-emit/src/process_enum.rs | 11 ++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 77d3060..09c8eae 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -114,6 +114,11 @@ pub(crate) fn build_maybe_doc(attrs: &[Attribute]) -> String {
     }
 }
 
+/// The name an identifier stands for: `r#type` is how the name `type` is written
+pub(crate) fn unraw(ident: &str) -> &str {
+    ident.strip_prefix("r#").unwrap_or(ident)
+}
+
 /// Generates field definitions for a struct
 ///
 /// `base_field_offset` applies a shift to the field offset, which is useful for
@@ -213,10 +218,12 @@ pub(crate) fn gen_struct_field(
         .map(|offset| format!(" + {offset}"))
         .unwrap_or_default();
 
+    let name = unraw(field_name);
+
     // Generate each field definition
     format!(
         "::facet::Field::builder()
-    .name(\"{field_name}\")
+    .name(\"{name}\")
     .shape(|| ::facet::{shape_of}(&|s: &{struct_name}<{generics}>| &s.{field_name}))
     .offset(::core::mem::offset_of!({struct_name}<{generics}>, {field_name}){maybe_base_field_offset})
     .flags({flags})
diff --git a/facet-derive-emit/src/process_enum.rs b/facet-derive-emit/src/process_enum.rs
index 8dea8d1..703a552 100644
--- a/facet-derive-emit/src/process_enum.rs
+++ b/facet-derive-emit/src/process_enum.rs
@@ -257,9 +257,8 @@ fn process_c_style_enum(
             EnumVariantData::Struct(struct_var) => struct_var.name.to_string(),
         })
         .map(|variant_name| {
-            format!(
-                "{variant_name}: std::mem::ManuallyDrop<__ShadowField{enum_name}_{variant_name}>"
-            )
+            let bare_name = unraw(&variant_name);
+            format!("{variant_name}: std::mem::ManuallyDrop<__ShadowField{enum_name}_{bare_name}>")
         })
         .collect::<Vec<_>>()
         .join(", ");
@@ -288,6 +287,7 @@ fn process_c_style_enum(
         match &var_like.value.variant {
             EnumVariantData::Unit(unit) => {
                 let variant_name = unit.name.to_string();
+                let variant_name = unraw(&variant_name);
                 let maybe_doc = build_maybe_doc(&unit.attributes);
 
                 // Generate shadow struct for this tuple variant to calculate offsets
@@ -308,6 +308,7 @@ fn process_c_style_enum(
             }
             EnumVariantData::Tuple(tuple) => {
                 let variant_name = tuple.name.to_string();
+                let variant_name = unraw(&variant_name);
                 let maybe_doc = build_maybe_doc(&tuple.attributes);
 
                 // Generate shadow struct for this tuple variant to calculate offsets
@@ -373,6 +374,7 @@ fn process_c_style_enum(
             }
             EnumVariantData::Struct(struct_var) => {
                 let variant_name = struct_var.name.to_string();
+                let variant_name = unraw(&variant_name);
                 let maybe_doc = build_maybe_doc(&struct_var.attributes);
 
                 // Generate shadow struct for this struct variant to calculate offsets
@@ -478,6 +480,7 @@ fn process_primitive_enum(
         match &var_like.value.variant {
             EnumVariantData::Unit(unit) => {
                 let variant_name = unit.name.to_string();
+                let variant_name = unraw(&variant_name);
                 let maybe_doc = build_maybe_doc(&unit.attributes);
 
                 variant_expressions.push(format!(
@@ -491,6 +494,7 @@ fn process_primitive_enum(
             }
             EnumVariantData::Tuple(tuple) => {
                 let variant_name = tuple.name.to_string();
+                let variant_name = unraw(&variant_name);
                 let maybe_doc = build_maybe_doc(&tuple.attributes);
 
                 // Generate shadow struct for this tuple variant to calculate offsets
@@ -554,6 +558,7 @@ fn process_primitive_enum(
             }
             EnumVariantData::Struct(struct_var) => {
                 let variant_name = struct_var.name.to_string();
+                let variant_name = unraw(&variant_name);
                 let maybe_doc = build_maybe_doc(&struct_var.attributes);
 
                 // Generate shadow struct for this struct variant to calculate offsets
-- 
2.43.0


From c120f15b60973212beb9880057ee2b278605d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 47/53] fix: PhantomData borrowed the operations of (),
 whatever it stands for

---
 facet-core/src/impls_core/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/facet-core/src/impls_core/scalar.rs b/facet-core/src/impls_core/scalar.rs
index 40fda24..e1fa9dd 100644
--- a/facet-core/src/impls_core/scalar.rs
+++ b/facet-core/src/impls_core/scalar.rs
@@ -45,7 +45,7 @@ unsafe impl<T: ?Sized> Facet for core::marker::PhantomData<T> {
                     .build(),
             ))
             // TODO: we might be able to do something with specialization re: the shape of T?
-            .vtable(value_vtable!((), |f, _opts| write!(f, "PhantomData")))
+            .vtable(value_vtable!(Self, |f, _opts| write!(f, "PhantomData")))
             .build()
     };
 }
-- 
2.43.0


From d09614a50fbab2515077cc25cc25d389ad3f102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 48/53] fix: a tuple of one was named and printed like the
 value inside it

---
 facet-core/src/impls_core/tuple.rs |  4 ++--
 facet-dev/src/tuples.rs            | 11 +++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/facet-core/src/impls_core/tuple.rs b/facet-core/src/impls_core/tuple.rs
index 76c0a40..9b27690 100644
--- a/facet-core/src/impls_core/tuple.rs
+++ b/facet-core/src/impls_core/tuple.rs
@@ -52,7 +52,7 @@ where
         where
             T0: Facet,
         {
-            write_type_name_list(f, opts, "(", ", ", ")", &[T0::SHAPE])
+            write_type_name_list(f, opts, "(", ", ", ",)", &[T0::SHAPE])
         }
 
         Shape::builder()
@@ -73,7 +73,7 @@ where
                                 let ptr = &value.0 as *const T0;
                                 (T0::SHAPE.vtable.debug.unwrap_unchecked())(PtrConst::new(ptr), f)
                             }?;
-                            write!(f, ")")
+                            write!(f, ",)")
                         });
                     }
 
diff --git a/facet-dev/src/tuples.rs b/facet-dev/src/tuples.rs
index 62fdfcc..01dfdff 100644
--- a/facet-dev/src/tuples.rs
+++ b/facet-dev/src/tuples.rs
@@ -101,8 +101,11 @@ pub fn generate() -> String {
         w!("            {}\n", where_predicates);
         w!("        {{\n");
         if n <= 3 {
+            // `(T)` is just `T`
+            let close = if n == 1 { ",)" } else { ")" };
             w!(
-                "            write_type_name_list(f, opts, \"(\", \", \", \")\", &[{}])\n",
+                "            write_type_name_list(f, opts, \"(\", \", \", \"{}\", &[{}])\n",
+                close,
                 shape_list
             );
         } else {
@@ -202,7 +205,11 @@ pub fn generate() -> String {
             w!("                            }}?;\n");
         }
 
-        w!("                            write!(f, \")\")\n");
+        if n == 1 {
+            w!("                            write!(f, \",)\")\n");
+        } else {
+            w!("                            write!(f, \")\")\n");
+        }
         w!("                        }});\n");
         w!("                    }}\n\n");
 
-- 
2.43.0


From 13d27798f6aad70b48c88db374d50bd73c86c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 49/53] fix: comparing reflected values of different types read
 one as the other

---
 facet-reflect/src/peek/value.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/facet-reflect/src/peek/value.rs b/facet-reflect/src/peek/value.rs
index 28e7097..cefc867 100644
--- a/facet-reflect/src/peek/value.rs
+++ b/facet-reflect/src/peek/value.rs
@@ -81,9 +81,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `false` if equality comparison is not supported for this scalar type
+    /// `None` if equality comparison is not supported for this scalar type, or if the other
+    /// scalar is of another type
     #[inline]
     pub fn eq(&self, other: &Peek<'_>) -> Option<bool> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
@@ -96,9 +100,13 @@ impl<'mem> Peek<'mem> {
     ///
     /// # Returns
     ///
-    /// `None` if comparison is not supported for this scalar type
+    /// `None` if comparison is not supported for this scalar type, or if the other scalar is of
+    /// another type
     #[inline]
     pub fn partial_cmp(&self, other: &Peek<'_>) -> Option<Ordering> {
+        if self.shape != other.shape {
+            return None;
+        }
         unsafe {
             self.shape
                 .vtable
-- 
2.43.0


From 24b0cccd9fe0cf6705b09593519f4c17165182bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 50/53] fix: arrays and slices were hashed without their
 length, unlike their own hash

---
 facet-core/src/impls_core/array.rs | 3 ++-
 facet-core/src/impls_core/slice.rs | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/facet-core/src/impls_core/array.rs b/facet-core/src/impls_core/array.rs
index 0786c51..74ae729 100644
--- a/facet-core/src/impls_core/array.rs
+++ b/facet-core/src/impls_core/array.rs
@@ -1,6 +1,6 @@
 use crate::*;
 use core::alloc::Layout;
-use core::{cmp::Ordering, iter::zip};
+use core::{cmp::Ordering, hash::Hash as _, iter::zip};
 
 unsafe impl<T, const L: usize> Facet for [T; L]
 where
@@ -145,6 +145,7 @@ where
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
                             let value = unsafe { value.get::<[T; L]>() };
+                            L.hash(&mut unsafe { HasherProxy::new(state, hasher) });
                             for value in value {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
diff --git a/facet-core/src/impls_core/slice.rs b/facet-core/src/impls_core/slice.rs
index 1b31b4d..00038b5 100644
--- a/facet-core/src/impls_core/slice.rs
+++ b/facet-core/src/impls_core/slice.rs
@@ -1,5 +1,5 @@
 use crate::*;
-use core::alloc::Layout;
+use core::{alloc::Layout, hash::Hash as _};
 
 unsafe impl<T> Facet for &[T]
 where
@@ -143,6 +143,9 @@ where
                     if T::SHAPE.vtable.hash.is_some() {
                         builder = builder.hash(|value, state, hasher| {
                             let value = unsafe { value.get::<&[T]>() };
+                            value
+                                .len()
+                                .hash(&mut unsafe { HasherProxy::new(state, hasher) });
                             for item in value.iter() {
                                 unsafe {
                                     (T::SHAPE.vtable.hash.unwrap_unchecked())(
-- 
2.43.0


From 416805adf231c92258182454182f236456cc28f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 51/53] fix: types in enum variants were emitted with their
 words run together

---
 facet-derive-parse/src/lib.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/facet-derive-parse/src/lib.rs b/facet-derive-parse/src/lib.rs
index ecc857c..139ea19 100644
--- a/facet-derive-parse/src/lib.rs
+++ b/facet-derive-parse/src/lib.rs
@@ -402,14 +402,37 @@ unsynn! {
     }
 }
 
+impl AngleTokenTree {
+    fn is_word(&self) -> bool {
+        matches!(
+            self.0,
+            Either::Second(TokenTree::Ident(_) | TokenTree::Literal(_))
+        )
+    }
+}
+
+/// Writes tokens out, keeping words apart, as in `&'a str` or `*const u8`.
+fn fmt_tokens<'a>(
+    tokens: impl Iterator<Item = &'a AngleTokenTree>,
+    f: &mut core::fmt::Formatter<'_>,
+) -> core::fmt::Result {
+    let mut after_word = false;
+    for token in tokens {
+        if after_word && token.is_word() {
+            write!(f, " ")?;
+        }
+        write!(f, "{token}")?;
+        after_word = token.is_word();
+    }
+    Ok(())
+}
+
 impl core::fmt::Display for AngleTokenTree {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
         match &self.0 {
             Either::First(it) => {
                 write!(f, "<")?;
-                for it in it.second.iter() {
-                    write!(f, "{}", it.second)?;
-                }
+                fmt_tokens(it.second.iter().map(|it| &it.second), f)?;
                 write!(f, ">")?;
             }
             Either::Second(it) => write!(f, "{}", it)?,
@@ -425,10 +448,7 @@ pub struct VerbatimDisplay<'a, C>(pub &'a VerbatimUntil<C>);
 
 impl<C> core::fmt::Display for VerbatimDisplay<'_, C> {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for tt in self.0.0.iter() {
-            write!(f, "{}", tt.value.second)?;
-        }
-        Ok(())
+        fmt_tokens(self.0.0.iter().map(|tt| &tt.value.second), f)
     }
 }
 
-- 
2.43.0


From e99ff9ce66674ac8d455d36595a82f75a66fde23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 52/53] fix: a list of attributes in one #[facet(...)] was
 dropped if a known one came first

---
 facet-derive-emit/src/lib.rs            | 161 +++++++++++++-----------
 facet-derive-emit/src/process_struct.rs |  10 +-
 facet-derive-parse/src/lib.rs           |   8 +-
 3 files changed, 96 insertions(+), 83 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 09c8eae..775c3e4 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -137,66 +137,73 @@ pub(crate) fn gen_struct_field(
     let mut shape_of = "shape_of";
     for attr in attrs {
         match &attr.body.content {
-            AttributeInner::Facet(facet_attr) => match &facet_attr.inner.content {
-                FacetInner::Sensitive(_ksensitive) => {
-                    flags = "::facet::FieldFlags::SENSITIVE";
-                    attribute_list.push("::facet::FieldAttribute::Sensitive".to_string());
-                }
-                FacetInner::Default(_) => {
-                    attribute_list.push("::facet::FieldAttribute::Default(None)".to_string());
-                }
-                FacetInner::DefaultEquals(inner) => {
-                    attribute_list.push(format!(
-                        r#"::facet::FieldAttribute::Default(Some(|ptr| {{
+            AttributeInner::Facet(facet_attr) => {
+                for inner in &facet_attr.inner.content.0 {
+                    match &inner.value {
+                        FacetInner::Sensitive(_ksensitive) => {
+                            flags = "::facet::FieldFlags::SENSITIVE";
+                            attribute_list.push("::facet::FieldAttribute::Sensitive".to_string());
+                        }
+                        FacetInner::Default(_) => {
+                            attribute_list
+                                .push("::facet::FieldAttribute::Default(None)".to_string());
+                        }
+                        FacetInner::DefaultEquals(inner) => {
+                            attribute_list.push(format!(
+                                r#"::facet::FieldAttribute::Default(Some(|ptr| {{
                             unsafe {{ ptr.put({}()) }}
                         }}))"#,
-                        inner
-                            .value
-                            .value()
-                            .trim_start_matches('"')
-                            .trim_end_matches('"') // FIXME: that's pretty bad
-                    ));
-                }
-                FacetInner::Transparent(_) => {
-                    // Not applicable on fields; ignore.
-                }
-                FacetInner::Invariants(_invariant_inner) => {
-                    panic!("fields cannot have invariants")
-                }
-                FacetInner::Opaque(_kopaque) => {
-                    shape_of = "shape_of_opaque";
-                }
-                FacetInner::DenyUnknownFields(_) => {
-                    // not applicable on fields
-                }
-                FacetInner::Other(tt) => {
-                    let attr_str = tt.tokens_to_string();
-                    if let Some(equal_pos) = attr_str.find('=') {
-                        let key = attr_str[..equal_pos].trim();
-                        if key == "rename" {
-                            let value = attr_str[equal_pos + 1..].trim();
-                            if value.ends_with(['"', '#']) {
-                                // a string literal, escapes and all: the compiler reads it
-                                attribute_list
-                                    .push(format!("::facet::FieldAttribute::Rename({value})"));
+                                inner
+                                    .value
+                                    .value()
+                                    .trim_start_matches('"')
+                                    .trim_end_matches('"') // FIXME: that's pretty bad
+                            ));
+                        }
+                        FacetInner::Transparent(_) => {
+                            // Not applicable on fields; ignore.
+                        }
+                        FacetInner::Invariants(_invariant_inner) => {
+                            panic!("fields cannot have invariants")
+                        }
+                        FacetInner::Opaque(_kopaque) => {
+                            shape_of = "shape_of_opaque";
+                        }
+                        FacetInner::DenyUnknownFields(_) => {
+                            // not applicable on fields
+                        }
+                        FacetInner::Other(tt) => {
+                            let attr_str = tt.tokens_to_string();
+                            if let Some(equal_pos) = attr_str.find('=') {
+                                let key = attr_str[..equal_pos].trim();
+                                if key == "rename" {
+                                    let value = attr_str[equal_pos + 1..].trim();
+                                    if value.ends_with(['"', '#']) {
+                                        // a string literal, escapes and all: the compiler reads it
+                                        attribute_list.push(format!(
+                                            "::facet::FieldAttribute::Rename({value})"
+                                        ));
+                                    } else {
+                                        attribute_list.push(format!(
+                                            "::facet::FieldAttribute::Rename({value:?})"
+                                        ));
+                                    }
+                                } else {
+                                    attribute_list.push(format!(
+                                        r#"::facet::FieldAttribute::Arbitrary({:?})"#,
+                                        attr_str
+                                    ));
+                                }
                             } else {
-                                attribute_list
-                                    .push(format!("::facet::FieldAttribute::Rename({value:?})"));
+                                attribute_list.push(format!(
+                                    r#"::facet::FieldAttribute::Arbitrary({:?})"#,
+                                    attr_str
+                                ));
                             }
-                        } else {
-                            attribute_list.push(format!(
-                                r#"::facet::FieldAttribute::Arbitrary({:?})"#,
-                                attr_str
-                            ));
                         }
-                    } else {
-                        attribute_list.push(format!(
-                            r#"::facet::FieldAttribute::Arbitrary({:?})"#,
-                            attr_str
-                        ));
                     }
                 }
-            },
+            }
             AttributeInner::Doc(doc_inner) => doc_lines.push(doc_inner.value.value()),
             AttributeInner::Repr(_) => {
                 // muffin
@@ -301,29 +308,33 @@ fn build_container_attributes(attributes: &[Attribute]) -> String {
 
     for attr in attributes {
         match &attr.body.content {
-            AttributeInner::Facet(facet_attr) => match facet_attr.inner.content {
-                FacetInner::DenyUnknownFields(_) => {
-                    items.push("::facet::ShapeAttribute::DenyUnknownFields");
-                }
-                FacetInner::DefaultEquals(_) | FacetInner::Default(_) => {
-                    items.push("::facet::ShapeAttribute::Default");
-                }
-                FacetInner::Transparent(_) => {
-                    items.push("::facet::ShapeAttribute::Transparent");
-                }
-                FacetInner::Sensitive(_) => {
-                    // TODO
-                }
-                FacetInner::Invariants(_) => {
-                    // dealt with elsewhere
-                }
-                FacetInner::Opaque(_) => {
-                    // TODO
-                }
-                FacetInner::Other(_) => {
-                    // TODO: add to arbitrary invariants
+            AttributeInner::Facet(facet_attr) => {
+                for inner in &facet_attr.inner.content.0 {
+                    match inner.value {
+                        FacetInner::DenyUnknownFields(_) => {
+                            items.push("::facet::ShapeAttribute::DenyUnknownFields");
+                        }
+                        FacetInner::DefaultEquals(_) | FacetInner::Default(_) => {
+                            items.push("::facet::ShapeAttribute::Default");
+                        }
+                        FacetInner::Transparent(_) => {
+                            items.push("::facet::ShapeAttribute::Transparent");
+                        }
+                        FacetInner::Sensitive(_) => {
+                            // TODO
+                        }
+                        FacetInner::Invariants(_) => {
+                            // dealt with elsewhere
+                        }
+                        FacetInner::Opaque(_) => {
+                            // TODO
+                        }
+                        FacetInner::Other(_) => {
+                            // TODO: add to arbitrary invariants
+                        }
+                    }
                 }
-            },
+            }
             _ => {
                 // do nothing.
             }
diff --git a/facet-derive-emit/src/process_struct.rs b/facet-derive-emit/src/process_struct.rs
index e5c0d5e..95371e1 100644
--- a/facet-derive-emit/src/process_struct.rs
+++ b/facet-derive-emit/src/process_struct.rs
@@ -84,10 +84,12 @@ pub(crate) fn process_struct(parsed: Struct) -> TokenStream {
         .attributes
         .iter()
         .filter_map(|attr| match &attr.body.content {
-            AttributeInner::Facet(facet_attr) => match &facet_attr.inner.content {
-                FacetInner::Invariants(invariant_inner) => Some(invariant_inner),
-                _ => None,
-            },
+            AttributeInner::Facet(facet_attr) => Some(&facet_attr.inner.content.0),
+            _ => None,
+        })
+        .flatten()
+        .filter_map(|inner| match &inner.value {
+            FacetInner::Invariants(invariant_inner) => Some(invariant_inner),
             _ => None,
         })
         .collect::<Vec<_>>();
diff --git a/facet-derive-parse/src/lib.rs b/facet-derive-parse/src/lib.rs
index 139ea19..6c53ad6 100644
--- a/facet-derive-parse/src/lib.rs
+++ b/facet-derive-parse/src/lib.rs
@@ -111,11 +111,11 @@ unsynn! {
     pub struct FacetAttr {
         /// The keyword for the facet attribute.
         pub _facet: KFacet,
-        /// The inner content of the facet attribute.
-        pub inner: ParenthesisGroupContaining<FacetInner>,
+        /// The inner contents of the facet attribute, separated by commas.
+        pub inner: ParenthesisGroupContaining<CommaDelimitedVec<FacetInner>>,
     }
 
-    /// Represents the inner content of a facet attribute.
+    /// Represents one of the inner contents of a facet attribute.
     pub enum FacetInner {
         /// A sensitive attribute that specifies sensitivity information.
         Sensitive(KSensitive),
@@ -131,7 +131,7 @@ unsynn! {
         Default(KDefault),
         /// A transparent attribute for containers
         Transparent(KTransparent),
-        /// Any other attribute represented as a sequence of token trees.
+        /// Any other attribute represented as a sequence of token trees (to the end of the list).
         Other(Vec<TokenTree>),
     }
 
-- 
2.43.0


From d7f528771da8abeb32c8a26642844d64dade4bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 53/53] fix: documentation given as a raw string literal was
 lost

---
 facet-derive-emit/src/lib.rs  | 6 +++---
 facet-derive-parse/src/lib.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/facet-derive-emit/src/lib.rs b/facet-derive-emit/src/lib.rs
index 775c3e4..4c74759 100644
--- a/facet-derive-emit/src/lib.rs
+++ b/facet-derive-emit/src/lib.rs
@@ -102,7 +102,7 @@ pub(crate) fn build_maybe_doc(attrs: &[Attribute]) -> String {
     let doc_lines: Vec<_> = attrs
         .iter()
         .filter_map(|attr| match &attr.body.content {
-            AttributeInner::Doc(doc_inner) => Some(doc_inner.value.value()),
+            AttributeInner::Doc(doc_inner) => Some(doc_inner.value.to_string()),
             _ => None,
         })
         .collect();
@@ -133,7 +133,7 @@ pub(crate) fn gen_struct_field(
     // Determine field flags
     let mut flags = "::facet::FieldFlags::EMPTY";
     let mut attribute_list: Vec<String> = vec![];
-    let mut doc_lines: Vec<&str> = vec![];
+    let mut doc_lines: Vec<String> = vec![];
     let mut shape_of = "shape_of";
     for attr in attrs {
         match &attr.body.content {
@@ -204,7 +204,7 @@ pub(crate) fn gen_struct_field(
                     }
                 }
             }
-            AttributeInner::Doc(doc_inner) => doc_lines.push(doc_inner.value.value()),
+            AttributeInner::Doc(doc_inner) => doc_lines.push(doc_inner.value.to_string()),
             AttributeInner::Repr(_) => {
                 // muffin
             }
diff --git a/facet-derive-parse/src/lib.rs b/facet-derive-parse/src/lib.rs
index 6c53ad6..6f7b0e4 100644
--- a/facet-derive-parse/src/lib.rs
+++ b/facet-derive-parse/src/lib.rs
@@ -161,8 +161,8 @@ unsynn! {
         pub _kw_doc: KDoc,
         /// The equality operator.
         pub _eq: Eq,
-        /// The documentation content as a literal string.
-        pub value: LiteralString,
+        /// The documentation content as a literal string (raw or not).
+        pub value: Literal,
     }
 
     /// Represents the inner content of a `repr` attribute, typically used for specifying
-- 
2.43.0

