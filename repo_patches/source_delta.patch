From fda68050726ce7870f0d5b6bc23e9289e07a6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 01/21] fix: sample with a context larger than the animation

The cache of a context with spare capacity was initialised and decompressed
over the context's own track count instead of the animation's, which panicked
or read key frames of another track.
---
 src/sampling_job.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index a87a9de..5e023d6 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -577,18 +577,19 @@ impl SamplingContext {
         UpdateArgs {
             num_tracks: animation.num_tracks(),
             num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.translation_entries, inner.max_tracks) },
+            entries: unsafe { slice::from_raw_parts_mut(inner.translation_entries, animation.num_aligned_tracks()) },
             outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, inner.max_outdated) },
             next: &mut inner.translation_next,
         }
     }
 
     #[inline]
-    fn translation_decompress_args(&self) -> DecompressArgs<'_, InterpSoaFloat3> {
+    fn translation_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaFloat3> {
         let inner = self.inner();
+        let num_outdated = animation.num_soa_tracks().div_ceil(8);
         DecompressArgs {
             entries: unsafe { slice::from_raw_parts(inner.translation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, inner.max_outdated) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, num_outdated) },
             values: unsafe { slice::from_raw_parts_mut(inner.translations, inner.max_soa_tracks) },
         }
     }
@@ -599,18 +600,19 @@ impl SamplingContext {
         UpdateArgs {
             num_tracks: animation.num_tracks(),
             num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.rotation_entries, inner.max_tracks) },
+            entries: unsafe { slice::from_raw_parts_mut(inner.rotation_entries, animation.num_aligned_tracks()) },
             outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, inner.max_outdated) },
             next: &mut inner.rotation_next,
         }
     }
 
     #[inline]
-    fn rotation_decompress_args(&self) -> DecompressArgs<'_, InterpSoaQuaternion> {
+    fn rotation_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaQuaternion> {
         let inner = self.inner();
+        let num_outdated = animation.num_soa_tracks().div_ceil(8);
         DecompressArgs {
             entries: unsafe { slice::from_raw_parts(inner.rotation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, inner.max_outdated) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, num_outdated) },
             values: unsafe { slice::from_raw_parts_mut(inner.rotations, inner.max_soa_tracks) },
         }
     }
@@ -621,18 +623,19 @@ impl SamplingContext {
         UpdateArgs {
             num_tracks: animation.num_tracks(),
             num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.scale_entries, inner.max_tracks) },
+            entries: unsafe { slice::from_raw_parts_mut(inner.scale_entries, animation.num_aligned_tracks()) },
             outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, inner.max_outdated) },
             next: &mut inner.scale_next,
         }
     }
 
     #[inline]
-    fn scale_decompress_args(&self) -> DecompressArgs<'_, InterpSoaFloat3> {
+    fn scale_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaFloat3> {
         let inner = self.inner();
+        let num_outdated = animation.num_soa_tracks().div_ceil(8);
         DecompressArgs {
             entries: unsafe { slice::from_raw_parts(inner.scale_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, inner.max_outdated) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, num_outdated) },
             values: unsafe { slice::from_raw_parts_mut(inner.scales, inner.max_soa_tracks) },
         }
     }
@@ -1115,17 +1118,17 @@ where
 
         let args = ctx.as_mut().translation_update_args(anim);
         Self::update_cache(args, anim, &anim.translations_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().translation_decompress_args();
+        let args = ctx.as_mut().translation_decompress_args(anim);
         Self::decompress_float3(args, anim.timepoints(), &anim.translations_ctrl(), anim.translations());
 
         let args = ctx.as_mut().rotation_update_args(anim);
         Self::update_cache(args, anim, &anim.rotations_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().rotation_decompress_args();
+        let args = ctx.as_mut().rotation_decompress_args(anim);
         Self::decompress_quat(args, anim.timepoints(), &anim.rotations_ctrl(), anim.rotations());
 
         let args = ctx.as_mut().scale_update_args(anim);
         Self::update_cache(args, anim, &anim.scales_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().scale_decompress_args();
+        let args = ctx.as_mut().scale_decompress_args(anim);
         Self::decompress_float3(args, anim.timepoints(), &anim.scales_ctrl(), anim.scales());
 
         Self::interpolates(anim, ctx.as_mut(), self.ratio, &mut output)?;
-- 
2.43.0


From 640650b28d21ccee5445a57aaacb7e8195445f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 02/21] fix: zero the memory of a new sampling context

A new context exposed uninitialised memory through its accessors, equality,
clone and serialization.
---
 src/sampling_job.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 5e023d6..ff0ed48 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -307,7 +307,10 @@ impl SamplingContext {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(size, mem::size_of::<f32x4>());
-            let mut ptr = alloc::alloc(layout);
+            let mut ptr = alloc::alloc_zeroed(layout);
+            if ptr.is_null() {
+                alloc::handle_alloc_error(layout);
+            }
             let mut ctx = SamplingContext(ptr as *mut SamplingContextInner);
             let inner = ctx.inner_mut();
             *inner = SamplingContextInner::default();
-- 
2.43.0


From b2ee1128ca947506f15bbcd6b35ef4fa227c43d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 03/21] fix: do not read past the end of the seek table entries

---
 src/sampling_job.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index ff0ed48..364ef58 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -1401,17 +1401,11 @@ fn decode_gv4<'t>(buffer: &'t [u8], output: &mut [u32]) -> &'t [u8] {
 
     #[inline(always)]
     fn load(input: &[u8]) -> u32 {
-        // In C++ code (ozz-animation), load() access to input overflows near the end of the buffer.
-        // But the code logic ensures that this doesn't cause problems.
-        // Here, we're completely following the logic of the original C++ library.
-        let p = input.as_ptr();
-        unsafe {
-            let i0 = *p as u32;
-            let i1 = (*p.add(1) as u32) << 8;
-            let i2 = (*p.add(2) as u32) << 16;
-            let i3 = (*p.add(3) as u32) << 24;
-            i0 | i1 | i2 | i3
-        }
+        // The last values of a stream may have less than 4 bytes left, the missing ones are masked out below.
+        let mut bytes = [0u8; 4];
+        let len = input.len().min(4);
+        bytes[..len].copy_from_slice(&input[..len]);
+        u32::from_le_bytes(bytes)
     }
 
     let prefix = buffer[0];
-- 
2.43.0


From 3a683936146155e9cf9eac4531908ddc17625689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 04/21] fix: decode the largest half-precision values to their
 value, not infinity

---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 04afc31..d2629d0 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -930,7 +930,7 @@ pub(crate) fn simd_f16_to_f32(half4: [u16; 4]) -> f32x4 {
     let expmant = MASK_NO_SIGN & int4;
     let shifted = expmant << 13;
     let scaled = fx4(shifted) * MAGIC;
-    let was_infnan = i32x4::simd_ge(expmant, WAS_INFNAN).to_int();
+    let was_infnan = i32x4::simd_gt(expmant, WAS_INFNAN).to_int();
     let sign = (int4 ^ expmant) << 16;
     let infnanexp = was_infnan & EXP_INFNAN;
     let sign_inf = sign | infnanexp;
-- 
2.43.0


From 4144a342e019639aa80df460ec67cdabdd5d8d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:59 +0000
Subject: [PATCH 05/21] fix: read a serialized sampling context from any serde
 source

Reading required strings borrowed from the input and max_tracks before every
other field, so readers and values failed, and panicked on arrays of a wrong length.
---
 src/sampling_job.rs | 125 +++++++++++++++++++++++++-------------------
 1 file changed, 70 insertions(+), 55 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 364ef58..3798f01 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -833,6 +833,39 @@ const _: () = {
         }
     }
 
+    // The fields may come in any order, and from sources that cannot lend out their strings.
+    #[derive(Default)]
+    struct SamplingContextFields {
+        max_tracks: Option<usize>,
+        animation_id: u64,
+        ratio: f32,
+
+        translations: Option<Vec<InterpSoaFloat3>>,
+        translation_entries: Option<Vec<u32>>,
+        translation_outdated: Option<Vec<u8>>,
+        translation_next: usize,
+
+        rotations: Option<Vec<InterpSoaQuaternion>>,
+        rotation_entries: Option<Vec<u32>>,
+        rotation_outdated: Option<Vec<u8>>,
+        rotation_next: usize,
+
+        scales: Option<Vec<InterpSoaFloat3>>,
+        scale_entries: Option<Vec<u32>>,
+        scale_outdated: Option<Vec<u8>>,
+        scale_next: usize,
+    }
+
+    fn copy_field<T: Copy, E: de::Error>(target: &mut [T], source: Option<Vec<T>>) -> Result<(), E> {
+        if let Some(source) = source {
+            if source.len() != target.len() {
+                return Err(E::invalid_length(source.len(), &"as many elements as max_tracks requires"));
+            }
+            target.copy_from_slice(&source);
+        }
+        Ok(())
+    }
+
     struct SamplingContextVisitor;
 
     impl<'de> Visitor<'de> for SamplingContextVisitor {
@@ -843,66 +876,48 @@ const _: () = {
         }
 
         fn visit_map<V: MapAccess<'de>>(self, mut map: V) -> Result<Self::Value, V::Error> {
-            let mut max_tracks: Option<usize> = None;
-            while let Some(key) = map.next_key::<&str>()? {
-                if key == "max_tracks" {
-                    max_tracks = Some(map.next_value()?);
-                    break;
-                } else {
-                    map.next_value::<serde::de::IgnoredAny>()?;
+            let mut fields = SamplingContextFields::default();
+            while let Some(key) = map.next_key::<String>()? {
+                match key.as_str() {
+                    "max_tracks" => fields.max_tracks = Some(map.next_value()?),
+                    "animation_id" => fields.animation_id = map.next_value()?,
+                    "ratio" => fields.ratio = map.next_value()?,
+                    "translations" => fields.translations = Some(map.next_value()?),
+                    "translation_entries" => fields.translation_entries = Some(map.next_value()?),
+                    "translation_outdated" => fields.translation_outdated = Some(map.next_value()?),
+                    "translation_next" => fields.translation_next = map.next_value()?,
+                    "rotations" => fields.rotations = Some(map.next_value()?),
+                    "rotation_entries" => fields.rotation_entries = Some(map.next_value()?),
+                    "rotation_outdated" => fields.rotation_outdated = Some(map.next_value()?),
+                    "rotation_next" => fields.rotation_next = map.next_value()?,
+                    "scales" => fields.scales = Some(map.next_value()?),
+                    "scale_entries" => fields.scale_entries = Some(map.next_value()?),
+                    "scale_outdated" => fields.scale_outdated = Some(map.next_value()?),
+                    "scale_next" => fields.scale_next = map.next_value()?,
+                    _ => {
+                        map.next_value::<de::IgnoredAny>()?;
+                    }
                 }
             }
-            let mut ctx: SamplingContext = match max_tracks {
+
+            let mut ctx: SamplingContext = match fields.max_tracks {
                 Some(max_tracks) => SamplingContext::new(max_tracks),
                 None => return Err(de::Error::custom("Miss field max_tracks")),
             };
-
-            while let Some(key) = map.next_key()? {
-                match key {
-                    "animation_id" => ctx.set_animation_id(map.next_value()?),
-                    "ratio" => ctx.set_ratio(map.next_value()?),
-                    "translations" => {
-                        ctx.translations_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaFloat3>>()?);
-                    }
-                    "translation_entries" => {
-                        ctx.translation_entries_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "translation_outdated" => {
-                        ctx.translation_outdated_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "translation_next" => ctx.set_translation_next(map.next_value()?),
-                    "rotations" => {
-                        ctx.rotations_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaQuaternion>>()?);
-                    }
-                    "rotation_entries" => {
-                        ctx.rotation_entries_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "rotation_outdated" => {
-                        ctx.rotation_outdated_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "rotation_next" => ctx.set_rotation_next(map.next_value()?),
-                    "scales" => {
-                        ctx.scales_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaFloat3>>()?);
-                    }
-                    "scale_entries" => {
-                        ctx.scale_entries_mut().copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "scale_outdated" => {
-                        ctx.scale_outdated_mut().copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "scale_next" => ctx.set_scale_next(map.next_value()?),
-                    _ => {
-                        map.next_value::<serde::de::IgnoredAny>()?;
-                    }
-                }
-            }
+            ctx.set_animation_id(fields.animation_id);
+            ctx.set_ratio(fields.ratio);
+            copy_field(ctx.translations_mut(), fields.translations)?;
+            copy_field(ctx.translation_entries_mut(), fields.translation_entries)?;
+            copy_field(ctx.translation_outdated_mut(), fields.translation_outdated)?;
+            ctx.set_translation_next(fields.translation_next);
+            copy_field(ctx.rotations_mut(), fields.rotations)?;
+            copy_field(ctx.rotation_entries_mut(), fields.rotation_entries)?;
+            copy_field(ctx.rotation_outdated_mut(), fields.rotation_outdated)?;
+            ctx.set_rotation_next(fields.rotation_next);
+            copy_field(ctx.scales_mut(), fields.scales)?;
+            copy_field(ctx.scale_entries_mut(), fields.scale_entries)?;
+            copy_field(ctx.scale_outdated_mut(), fields.scale_outdated)?;
+            ctx.set_scale_next(fields.scale_next);
             Ok(ctx)
         }
     }
-- 
2.43.0


From be0a6076579c839222eb501a7644fb21d07e32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:59 +0000
Subject: [PATCH 06/21] fix: load the archive of an empty skeleton

---
 src/skeleton.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skeleton.rs b/src/skeleton.rs
index 9e675d9..75db8a8 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -124,6 +124,9 @@ impl Skeleton {
     pub fn from_archive(archive: &mut Archive<impl Read>) -> Result<Skeleton, OzzError> {
         let meta = Skeleton::read_meta(archive, false)?;
         let mut skeleton = Skeleton::new(meta);
+        if skeleton.num_joints() == 0 {
+            return Ok(skeleton); // nothing follows the count of an empty skeleton
+        }
 
         let _char_count: u32 = archive.read()?;
         for idx in 0..skeleton.num_joints() {
-- 
2.43.0


From 7ed35e37d67d94079936d56afdcac220d4385531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:20 +0000
Subject: [PATCH 07/21] fix: handle empty and failed allocations of skeletons
 and animations

An asset without content asked the allocator for zero bytes, which is undefined
behaviour, and a refused allocation was written through.
---
 src/animation.rs | 16 ++++++++++++----
 src/skeleton.rs  | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index c7e08c4..d47cfd7 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -222,9 +222,11 @@ pub struct Animation {
 impl Drop for Animation {
     fn drop(&mut self) {
         if !self.timepoints.is_null() {
-            unsafe {
-                let layout = Layout::from_size_align_unchecked(self.size, mem::size_of::<f32>());
-                alloc::dealloc(self.timepoints as *mut u8, layout);
+            if self.size != 0 {
+                unsafe {
+                    let layout = Layout::from_size_align_unchecked(self.size, mem::size_of::<f32>());
+                    alloc::dealloc(self.timepoints as *mut u8, layout);
+                }
             }
             self.timepoints = std::ptr::null_mut();
             self.translations = std::ptr::null_mut();
@@ -560,7 +562,13 @@ impl Animation {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(animation.size, mem::size_of::<f32>());
-            let mut ptr = alloc::alloc(layout);
+            let mut ptr = match layout.size() {
+                0 => std::ptr::NonNull::<f32>::dangling().as_ptr() as *mut u8,
+                _ => alloc::alloc_zeroed(layout),
+            };
+            if ptr.is_null() {
+                alloc::handle_alloc_error(layout);
+            }
 
             animation.timepoints = ptr as *mut f32;
             ptr = ptr.add(animation.timepoints_count as usize * mem::size_of::<f32>());
diff --git a/src/skeleton.rs b/src/skeleton.rs
index 75db8a8..780bae0 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -41,9 +41,11 @@ unsafe impl Sync for Skeleton {}
 impl Drop for Skeleton {
     fn drop(&mut self) {
         if !self.joint_rest_poses.is_null() {
-            unsafe {
-                let layout = Layout::from_size_align_unchecked(self.size, mem::align_of::<SoaTransform>());
-                alloc::dealloc(self.joint_rest_poses as *mut u8, layout);
+            if self.size != 0 {
+                unsafe {
+                    let layout = Layout::from_size_align_unchecked(self.size, mem::align_of::<SoaTransform>());
+                    alloc::dealloc(self.joint_rest_poses as *mut u8, layout);
+                }
             }
             self.joint_rest_poses = std::ptr::null_mut();
             self.joint_parents = std::ptr::null_mut();
@@ -193,7 +195,13 @@ impl Skeleton {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(skeleton.size, ALIGN);
-            let mut ptr = alloc::alloc(layout);
+            let mut ptr = match layout.size() {
+                0 => std::ptr::NonNull::<SoaTransform>::dangling().as_ptr() as *mut u8,
+                _ => alloc::alloc_zeroed(layout),
+            };
+            if ptr.is_null() {
+                alloc::handle_alloc_error(layout);
+            }
 
             skeleton.joint_rest_poses = ptr as *mut SoaTransform;
             ptr = ptr.add(mem::size_of::<SoaTransform>() * skeleton.num_soa_joints());
-- 
2.43.0


From 5e5cad9a3dc701be2d3961e8d85c54ad3943f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:24 +0000
Subject: [PATCH 08/21] fix: blend nothing into an output longer than the
 skeleton

---
 src/blending_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 0113f78..252feb9 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -390,7 +390,7 @@ where
             if bp_weight > 0.0 {
                 if ctx.num_passes == 0 {
                     ctx.accumulated_weight = 1.0;
-                    output.copy_from_slice(joint_rest_poses);
+                    output[..joint_rest_poses.len()].copy_from_slice(joint_rest_poses);
                 } else {
                     ctx.accumulated_weight = threshold;
                     let simd_bp_weight = f32x4::splat(bp_weight);
-- 
2.43.0


From d0826da339d98c93d5da21e11598f2fcbbfeb559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:24 +0000
Subject: [PATCH 09/21] fix: accept the largest start and end joints in local
 to model

---
 src/local_to_model_job.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/local_to_model_job.rs b/src/local_to_model_job.rs
index 8e31875..59ecd04 100644
--- a/src/local_to_model_job.rs
+++ b/src/local_to_model_job.rs
@@ -229,8 +229,8 @@ where
             return Err(OzzError::InvalidJob);
         }
 
-        let begin = i32::max(0, self.from + (self.from_excluded as i32)) as usize;
-        let end = i32::max(0, i32::min(self.to + 1, skeleton.num_joints() as i32)) as usize;
+        let begin = i32::max(0, self.from.saturating_add(self.from_excluded as i32)) as usize;
+        let end = i32::max(0, i32::min(self.to.saturating_add(1), skeleton.num_joints() as i32)) as usize;
 
         let mut idx = begin;
         let mut process = idx < end && (!self.from_excluded || skeleton.joint_parent(idx) as i32 >= self.from);
-- 
2.43.0


From 9725cb12e4906689f3a868fe2a4e915f92bd3fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:24 +0000
Subject: [PATCH 10/21] fix: make the borrowed blending job usable

---
 src/blending_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 252feb9..10d9297 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -127,7 +127,7 @@ where
     output: Option<O>,
 }
 
-pub type BlendingJobRef<'t> = BlendingJob<&'t Skeleton, &'t [SoaTransform], &'t mut SoaTransform>;
+pub type BlendingJobRef<'t> = BlendingJob<&'t Skeleton, &'t [SoaTransform], &'t mut [SoaTransform]>;
 pub type BlendingJobRc<'t> = BlendingJob<Rc<Skeleton>, Rc<RefCell<Vec<SoaTransform>>>, Rc<RefCell<Vec<SoaTransform>>>>;
 pub type BlendingJobArc = BlendingJob<Arc<Skeleton>, Arc<RwLock<Vec<SoaTransform>>>, Arc<RwLock<Vec<SoaTransform>>>>;
 
-- 
2.43.0


From 667c718daf7bbad5b22c295f481583df68979b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:24 +0000
Subject: [PATCH 11/21] fix: refuse a buffer that is already borrowed instead
 of panicking

---
 src/base.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base.rs b/src/base.rs
index d5b00ee..f1415a1 100644
--- a/src/base.rs
+++ b/src/base.rs
@@ -326,7 +326,7 @@ impl<T: 'static + Debug + Clone> OzzBuf<T> for Rc<RefCell<Vec<T>>> {
 
     #[inline(always)]
     fn buf(&self) -> Result<ObCellRef<T>, OzzError> {
-        Ok(ObCellRef(self.borrow()))
+        self.try_borrow().map(ObCellRef).map_err(|_| OzzError::InvalidJob)
     }
 }
 
@@ -346,7 +346,7 @@ impl<T: 'static + Debug + Clone> OzzMutBuf<T> for Rc<RefCell<Vec<T>>> {
 
     #[inline(always)]
     fn mut_buf(&mut self) -> Result<ObCellRefMut<T>, OzzError> {
-        Ok(ObCellRefMut(self.borrow_mut()))
+        self.try_borrow_mut().map(ObCellRefMut).map_err(|_| OzzError::InvalidJob)
     }
 }
 
-- 
2.43.0


From 1709381773e154ef2b31227e8d3c8573d6081b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:42 +0000
Subject: [PATCH 12/21] fix: check every layer of a blend before writing its
 output

---
 src/blending_job.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 10d9297..0295953 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -306,6 +306,12 @@ where
 
         let mut ok = self.threshold > 0.0;
         ok &= output.len() >= skeleton.num_soa_joints();
+        for layer in self.layers.iter().chain(&self.additive_layers) {
+            ok &= layer.transform.buf()?.len() >= skeleton.num_soa_joints();
+            if !layer.joint_weights.is_empty() {
+                ok &= layer.joint_weights.len() >= skeleton.num_soa_joints();
+            }
+        }
         if !ok {
             return Err(OzzError::InvalidJob);
         }
-- 
2.43.0


From 8c4d28a0afd685c1d69668c56c0c89a9723df734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:59 +0000
Subject: [PATCH 13/21] fix: validate a skinning job before running it

---
 src/skinning_job.rs | 52 ++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/skinning_job.rs b/src/skinning_job.rs
index 9b51d3c..472d91d 100644
--- a/src/skinning_job.rs
+++ b/src/skinning_job.rs
@@ -338,36 +338,40 @@ where
 
     /// Validates `SkinningJob` parameters.
     pub fn validate(&self) -> bool {
-        (|| {
-            let mut ok = self.influences_count > 0;
-            ok &= !self.joint_matrices.as_ref()?.buf().ok()?.is_empty();
+        self.check().unwrap_or(false)
+    }
 
-            let joint_indices = self.joint_indices.as_ref()?.buf().ok()?;
-            ok &= joint_indices.len() >= self.vertex_count * self.influences_count;
+    fn check(&self) -> Result<bool, OzzError> {
+        fn len<T: Debug + Clone, B: OzzBuf<T>>(buf: &Option<B>) -> Result<usize, OzzError> {
+            Ok(buf.as_ref().ok_or(OzzError::InvalidJob)?.buf()?.len())
+        }
 
-            if self.influences_count > 1 {
-                let joint_weights = self.joint_weights.as_ref()?.buf().ok()?;
-                ok &= joint_weights.len() >= self.vertex_count * (self.influences_count - 1);
-            }
+        let mut ok = self.influences_count > 0;
+        ok &= len(&self.joint_matrices)? > 0;
+        ok &= len(&self.joint_indices)? >= self.vertex_count.saturating_mul(self.influences_count);
+        if self.influences_count > 1 {
+            ok &= len(&self.joint_weights)? >= self.vertex_count.saturating_mul(self.influences_count - 1);
+        }
 
-            ok &= self.in_positions.as_ref()?.buf().ok()?.len() >= self.vertex_count;
-            ok &= self.out_positions.as_ref()?.buf().ok()?.len() >= self.vertex_count;
+        ok &= len(&self.in_positions)? >= self.vertex_count;
+        ok &= len(&self.out_positions)? >= self.vertex_count;
 
-            if let Some(in_normals) = &self.in_normals {
-                ok &= in_normals.buf().ok()?.len() >= self.vertex_count;
-                ok &= self.out_normals.as_ref()?.buf().ok()?.len() >= self.vertex_count;
+        if self.in_normals.is_some() {
+            ok &= len(&self.in_normals)? >= self.vertex_count;
+            ok &= len(&self.out_normals)? >= self.vertex_count;
+            if let Some(it_matrices) = &self.joint_it_matrices {
+                it_matrices.buf()?;
+            }
 
-                if let Some(in_tangents) = &self.in_tangents {
-                    ok &= in_tangents.buf().ok()?.len() >= self.vertex_count;
-                    ok &= self.out_tangents.as_ref()?.buf().ok()?.len() >= self.vertex_count;
-                }
-            } else {
-                ok &= self.in_tangents.is_none();
+            if self.in_tangents.is_some() {
+                ok &= len(&self.in_tangents)? >= self.vertex_count;
+                ok &= len(&self.out_tangents)? >= self.vertex_count;
             }
+        } else {
+            ok &= self.in_tangents.is_none();
+        }
 
-            Some(ok)
-        })()
-        .unwrap_or(false)
+        Ok(ok)
     }
 }
 
@@ -529,7 +533,7 @@ where
     /// Runs skinning job's task.
     /// The validate job before any operation is performed.
     pub fn run(&mut self) -> Result<(), OzzError> {
-        if self.influences_count == 0 {
+        if !self.check()? {
             return Err(OzzError::InvalidJob);
         }
 
-- 
2.43.0


From c618a8d9c88b61295b9a026d42be82a3e3a49a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:59 +0000
Subject: [PATCH 14/21] fix: serialize four-wide vectors and quaternions so
 that every serde format reads them back

---
 src/math.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index d2629d0..60801a7 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -220,16 +220,12 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::ser::SerializeSeq;
     use serde::{Deserialize, Serialize, Serializer};
 
     impl Serialize for SoaVec3 {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(3))?;
-            seq.serialize_element(&self.x.as_array())?;
-            seq.serialize_element(&self.y.as_array())?;
-            seq.serialize_element(&self.z.as_array())?;
-            seq.end()
+            // A fixed-size array, as which it is read back.
+            [self.x.to_array(), self.y.to_array(), self.z.to_array()].serialize(serializer)
         }
     }
 
@@ -459,17 +455,18 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::ser::SerializeSeq;
     use serde::{Deserialize, Serialize, Serializer};
 
     impl Serialize for SoaQuat {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(3))?;
-            seq.serialize_element(&self.x.as_array())?;
-            seq.serialize_element(&self.y.as_array())?;
-            seq.serialize_element(&self.z.as_array())?;
-            seq.serialize_element(&self.w.as_array())?;
-            seq.end()
+            // A fixed-size array, as which it is read back.
+            [
+                self.x.to_array(),
+                self.y.to_array(),
+                self.z.to_array(),
+                self.w.to_array(),
+            ]
+            .serialize(serializer)
         }
     }
 
-- 
2.43.0


From 9b055725651593d9c4d97375c2b3830975114571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:01 +0000
Subject: [PATCH 15/21] fix: serialize sampling contexts in a way binary serde
 formats can write and read

---
 src/sampling_job.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 3798f01..ec29a97 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -122,15 +122,11 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 mod serde_interp {
-    use serde::ser::SerializeSeq;
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{Deserialize, Deserializer, Serialize, Serializer};
     use std::simd::prelude::*;
 
     pub(crate) fn serialize<S: Serializer>(value: &[f32x4; 2], serializer: S) -> Result<S::Ok, S::Error> {
-        let mut seq = serializer.serialize_seq(Some(2))?;
-        seq.serialize_element(value[0].as_array())?;
-        seq.serialize_element(value[1].as_array())?;
-        seq.end()
+        [value[0].to_array(), value[1].to_array()].serialize(serializer)
     }
 
     pub(crate) fn deserialize<'de, D: Deserializer<'de>>(deserializer: D) -> Result<[f32x4; 2], D::Error> {
@@ -804,7 +800,7 @@ const _: () = {
 
     impl Serialize for SamplingContext {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut map = serializer.serialize_map(None)?;
+            let mut map = serializer.serialize_map(Some(18))?;
             map.serialize_entry("size", &self.size())?;
             map.serialize_entry("max_tracks", &self.max_tracks())?;
             map.serialize_entry("max_soa_tracks", &self.max_soa_tracks())?;
@@ -894,6 +890,10 @@ const _: () = {
                     "scale_entries" => fields.scale_entries = Some(map.next_value()?),
                     "scale_outdated" => fields.scale_outdated = Some(map.next_value()?),
                     "scale_next" => fields.scale_next = map.next_value()?,
+                    // Follow from max_tracks, and cannot be skipped in formats that are not self-describing.
+                    "size" | "max_soa_tracks" | "max_outdated" => {
+                        map.next_value::<usize>()?;
+                    }
                     _ => {
                         map.next_value::<de::IgnoredAny>()?;
                     }
-- 
2.43.0


From 3557f7c80fa53025b6e72dc5ad56f63c8e5b5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:16 +0000
Subject: [PATCH 16/21] fix: sine and cosine of huge or non-finite arguments
 convert within the integer range

---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 60801a7..ec2b523 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -1140,7 +1140,7 @@ pub(crate) fn fx4_sin_cos(v: f32x4) -> (f32x4, f32x4) {
     // XXX11b	-cos(x')	 sin(x')
     //
     // So: sin_sign = bit2, cos_sign = bit1 ^ bit2, bit1 determines if we use sin or cos Taylor expansion
-    let quadrant_int: i32x4 = unsafe { quadrant.to_int_unchecked() };
+    let quadrant_int: i32x4 = quadrant.cast(); // saturates: the argument may be anything
     let bit1 = quadrant_int << 31;
     let bit2 = (quadrant_int << 30) & SIGN;
 
-- 
2.43.0


From d7681ec699888b2b6ab4cb6ac1dd677065fa21a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:13 +0000
Subject: [PATCH 17/21] fix: read any byte as a bool without undefined
 behaviour

---
 src/archive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/archive.rs b/src/archive.rs
index 528133e..213b7e4 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -167,7 +167,6 @@ macro_rules! primitive_reader {
     };
 }
 
-primitive_reader!(bool);
 primitive_reader!(u8);
 primitive_reader!(i8);
 primitive_reader!(u16);
@@ -179,6 +178,14 @@ primitive_reader!(i64);
 primitive_reader!(f32);
 primitive_reader!(f64);
 
+impl ArchiveRead<bool> for bool {
+    // Any non-zero byte is true: a `bool` holding another byte than 0 or 1 is undefined behaviour.
+    #[inline]
+    fn read<R: Read>(archive: &mut Archive<R>) -> Result<bool, OzzError> {
+        Ok(u8::read(archive)? != 0)
+    }
+}
+
 impl ArchiveRead<Vec2> for Vec2 {
     #[inline]
     fn read<R: Read>(archive: &mut Archive<R>) -> Result<Vec2, OzzError> {
-- 
2.43.0


From 5fc45267a62015b8e817a547767a55573b613ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 18/21] fix: validate archived sampling contexts

check_archived_root() accepted any bytes as an archived SamplingContext: its arrays could lie outside the
archive, and their lengths not match max_tracks, so that deserializing read foreign memory or panicked. And it
refused well-formed archives whose root happens not to lie at a multiple of 16.
---
 src/sampling_job.rs | 50 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index ec29a97..0368fe4 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -666,6 +666,7 @@ pub struct ArchivedSamplingContext {
 const _: () = {
     use bytecheck::CheckBytes;
     use rkyv::ser::{ScratchSpace, Serializer};
+    use rkyv::validation::ArchiveContext;
     use rkyv::vec::{ArchivedVec, VecResolver};
     use rkyv::{from_archived, out_field, Archive, Deserialize, Fallible, Serialize};
     use std::io::{Error, ErrorKind};
@@ -779,15 +780,54 @@ const _: () = {
         }
     }
 
-    impl<C: ?Sized> CheckBytes<C> for ArchivedSamplingContext {
+    impl<C> CheckBytes<C> for ArchivedSamplingContext
+    where
+        C: ArchiveContext + ?Sized,
+        C::Error: std::error::Error,
+    {
         type Error = Error;
 
         #[inline]
-        unsafe fn check_bytes<'a>(value: *const Self, _: &mut C) -> Result<&'a Self, Self::Error> {
-            if value as usize % mem::align_of::<f32x4>() != 0 {
-                return Err(Error::new(ErrorKind::InvalidData, "must be aligned to 16 bytes"));
+        unsafe fn check_bytes<'a>(value: *const Self, context: &mut C) -> Result<&'a Self, Self::Error> {
+            if value as usize % mem::align_of::<ArchivedSamplingContext>() != 0 {
+                return Err(Error::new(ErrorKind::InvalidData, "unaligned ArchivedSamplingContext"));
             }
-            Ok(&*value)
+
+            // The arrays are checked in the order in which they are serialized.
+            macro_rules! check_vec {
+                ($field:ident, $type:ty) => {
+                    ArchivedVec::<$type>::check_bytes(std::ptr::addr_of!((*value).$field), context).map_err(|_| {
+                        Error::new(ErrorKind::InvalidData, concat!("invalid array ", stringify!($field)))
+                    })?;
+                };
+            }
+            check_vec!(translations, InterpSoaFloat3);
+            check_vec!(rotations, InterpSoaQuaternion);
+            check_vec!(scales, InterpSoaFloat3);
+            check_vec!(translation_entries, u32);
+            check_vec!(rotation_entries, u32);
+            check_vec!(scale_entries, u32);
+            check_vec!(translation_outdated, u8);
+            check_vec!(rotation_outdated, u8);
+            check_vec!(scale_outdated, u8);
+
+            let value = &*value;
+            let max_soa_tracks = (value.max_tracks as usize).div_ceil(4);
+            let max_tracks = max_soa_tracks * 4;
+            let max_outdated = max_soa_tracks.div_ceil(8);
+            if value.translations.len() != max_soa_tracks
+                || value.rotations.len() != max_soa_tracks
+                || value.scales.len() != max_soa_tracks
+                || value.translation_entries.len() != max_tracks
+                || value.rotation_entries.len() != max_tracks
+                || value.scale_entries.len() != max_tracks
+                || value.translation_outdated.len() != max_outdated
+                || value.rotation_outdated.len() != max_outdated
+                || value.scale_outdated.len() != max_outdated
+            {
+                return Err(Error::new(ErrorKind::InvalidData, "array lengths don't match max_tracks"));
+            }
+            Ok(value)
         }
     }
 };
-- 
2.43.0


From ff824e936779ec52c58fcb5c5e3759f7cbe477b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:40 +0000
Subject: [PATCH 19/21] fix: a saved sampling context is checked before memory
 is reserved for it

A serialized context whose max_tracks was damaged made deserializing abort the process (memory allocation
failed) or read beyond the new context, instead of returning an error.
---
 src/sampling_job.rs | 50 +++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 0368fe4..12641c9 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -892,14 +892,12 @@ const _: () = {
         scale_next: usize,
     }
 
-    fn copy_field<T: Copy, E: de::Error>(target: &mut [T], source: Option<Vec<T>>) -> Result<(), E> {
-        if let Some(source) = source {
-            if source.len() != target.len() {
-                return Err(E::invalid_length(source.len(), &"as many elements as max_tracks requires"));
-            }
-            target.copy_from_slice(&source);
+    fn array_field<T, E: de::Error>(name: &'static str, source: Option<Vec<T>>, len: usize) -> Result<Vec<T>, E> {
+        let source = source.ok_or_else(|| E::missing_field(name))?;
+        if source.len() != len {
+            return Err(E::invalid_length(source.len(), &"as many elements as max_tracks requires"));
         }
-        Ok(())
+        Ok(source)
     }
 
     struct SamplingContextVisitor;
@@ -940,23 +938,39 @@ const _: () = {
                 }
             }
 
-            let mut ctx: SamplingContext = match fields.max_tracks {
-                Some(max_tracks) => SamplingContext::new(max_tracks),
+            let max_tracks: usize = match fields.max_tracks {
+                Some(max_tracks) => max_tracks,
                 None => return Err(de::Error::custom("Miss field max_tracks")),
             };
+
+            // Nothing is allocated for max_tracks until the arrays are known to be there.
+            let soa = max_tracks.div_ceil(4);
+            let aligned = soa.saturating_mul(4);
+            let outdated = soa.div_ceil(8);
+            let translations = array_field("translations", fields.translations, soa)?;
+            let translation_entries = array_field("translation_entries", fields.translation_entries, aligned)?;
+            let translation_outdated = array_field("translation_outdated", fields.translation_outdated, outdated)?;
+            let rotations = array_field("rotations", fields.rotations, soa)?;
+            let rotation_entries = array_field("rotation_entries", fields.rotation_entries, aligned)?;
+            let rotation_outdated = array_field("rotation_outdated", fields.rotation_outdated, outdated)?;
+            let scales = array_field("scales", fields.scales, soa)?;
+            let scale_entries = array_field("scale_entries", fields.scale_entries, aligned)?;
+            let scale_outdated = array_field("scale_outdated", fields.scale_outdated, outdated)?;
+
+            let mut ctx = SamplingContext::new(max_tracks);
             ctx.set_animation_id(fields.animation_id);
             ctx.set_ratio(fields.ratio);
-            copy_field(ctx.translations_mut(), fields.translations)?;
-            copy_field(ctx.translation_entries_mut(), fields.translation_entries)?;
-            copy_field(ctx.translation_outdated_mut(), fields.translation_outdated)?;
+            ctx.translations_mut().copy_from_slice(&translations);
+            ctx.translation_entries_mut().copy_from_slice(&translation_entries);
+            ctx.translation_outdated_mut().copy_from_slice(&translation_outdated);
             ctx.set_translation_next(fields.translation_next);
-            copy_field(ctx.rotations_mut(), fields.rotations)?;
-            copy_field(ctx.rotation_entries_mut(), fields.rotation_entries)?;
-            copy_field(ctx.rotation_outdated_mut(), fields.rotation_outdated)?;
+            ctx.rotations_mut().copy_from_slice(&rotations);
+            ctx.rotation_entries_mut().copy_from_slice(&rotation_entries);
+            ctx.rotation_outdated_mut().copy_from_slice(&rotation_outdated);
             ctx.set_rotation_next(fields.rotation_next);
-            copy_field(ctx.scales_mut(), fields.scales)?;
-            copy_field(ctx.scale_entries_mut(), fields.scale_entries)?;
-            copy_field(ctx.scale_outdated_mut(), fields.scale_outdated)?;
+            ctx.scales_mut().copy_from_slice(&scales);
+            ctx.scale_entries_mut().copy_from_slice(&scale_entries);
+            ctx.scale_outdated_mut().copy_from_slice(&scale_outdated);
             ctx.set_scale_next(fields.scale_next);
             Ok(ctx)
         }
-- 
2.43.0


From d3cb09bd9fdc1380bbff9756bb3ea4e40fc6bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:16 +0000
Subject: [PATCH 20/21] fix: damaged serde documents of skeletons and
 animations give an error

Documents whose arrays don't match in length made deserializing panic, and a damaged number of joint names made
it abort the process by reserving memory for them.
---
 src/animation.rs | 11 +++++++++++
 src/skeleton.rs  | 41 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index d47cfd7..a3e8dcb 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -1079,6 +1079,7 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
+    use serde::de::Error;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
     impl Serialize for Animation {
@@ -1091,6 +1092,16 @@ const _: () = {
     impl<'de> Deserialize<'de> for Animation {
         fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Animation, D::Error> {
             let raw = AnimationRaw::deserialize(deserializer)?;
+            let keys = [
+                (raw.translations.len(), raw.t_ratios.len(), raw.t_previouses.len()),
+                (raw.rotations.len(), raw.r_ratios.len(), raw.r_previouses.len()),
+                (raw.scales.len(), raw.s_ratios.len(), raw.s_previouses.len()),
+            ];
+            for (values, ratios, previouses) in keys {
+                if ratios != values || previouses != values {
+                    return Err(D::Error::custom("ratios and previouses don't match the number of keys"));
+                }
+            }
             Ok(Animation::from_raw(&raw))
         }
     }
diff --git a/src/skeleton.rs b/src/skeleton.rs
index 780bae0..c066ecc 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -9,6 +9,8 @@ use std::{mem, slice};
 
 use crate::archive::Archive;
 use crate::base::{DeterministicState, OzzError, OzzIndex};
+#[cfg(feature = "serde")]
+use crate::base::SKELETON_MAX_JOINTS;
 use crate::math::SoaTransform;
 
 /// Rexported `BiHashMap` in bimap crate.
@@ -67,6 +69,7 @@ pub struct SkeletonMeta {
 pub(crate) struct SkeletonRaw {
     pub joint_rest_poses: Vec<SoaTransform>,
     pub joint_parents: Vec<i16>,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_joint_names"))]
     pub joint_names: JointHashMap,
 }
 
@@ -404,6 +407,7 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
+    use serde::de::Error;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
     impl Serialize for Skeleton {
@@ -416,11 +420,48 @@ const _: () = {
     impl<'de> Deserialize<'de> for Skeleton {
         fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Skeleton, D::Error> {
             let raw = SkeletonRaw::deserialize(deserializer)?;
+            if raw.joint_rest_poses.len() != raw.joint_parents.len().div_ceil(4) {
+                return Err(D::Error::invalid_length(
+                    raw.joint_rest_poses.len(),
+                    &"as many rest poses as joint_parents requires",
+                ));
+            }
             Ok(Skeleton::from_raw(&raw))
         }
     }
 };
 
+// Unlike `JointHashMap`'s own, doesn't reserve whatever capacity the document asks for.
+#[cfg(feature = "serde")]
+fn deserialize_joint_names<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<JointHashMap, D::Error> {
+    use serde::de::{MapAccess, Visitor};
+
+    struct JointNamesVisitor;
+
+    impl<'de> Visitor<'de> for JointNamesVisitor {
+        type Value = JointHashMap;
+
+        fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
+            formatter.write_str("a map of joint names")
+        }
+
+        fn visit_map<V: MapAccess<'de>>(self, mut entries: V) -> Result<JointHashMap, V::Error> {
+            let capacity = entries.size_hint().unwrap_or(0).min(SKELETON_MAX_JOINTS as usize);
+            let mut joint_names = JointHashMap::with_capacity_and_hashers(
+                capacity,
+                DeterministicState::new(),
+                DeterministicState::new(),
+            );
+            while let Some((name, joint)) = entries.next_entry()? {
+                joint_names.insert(name, joint);
+            }
+            Ok(joint_names)
+        }
+    }
+
+    deserializer.deserialize_map(JointNamesVisitor)
+}
+
 #[cfg(test)]
 mod tests {
     use std::simd::prelude::*;
-- 
2.43.0


From 1c823152d38ead533dae8a3bea60b0630e4dec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:21 +0000
Subject: [PATCH 21/21] fix: a sampling context too large for the address space
 is refused

---
 src/sampling_job.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 12641c9..18b3573 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -285,6 +285,8 @@ impl SamplingContext {
     pub fn new(max_tracks: usize) -> SamplingContext {
         const ALIGN: usize = mem::size_of::<f32x4>();
         let max_soa_tracks = max_tracks.div_ceil(4);
+        // Every soa track takes less than 512 bytes in total.
+        assert!(max_soa_tracks <= isize::MAX as usize / 512, "capacity overflow");
         let max_tracks = max_soa_tracks * 4;
         let max_outdated = max_soa_tracks.div_ceil(8);
         let translation_size = mem::size_of::<InterpSoaFloat3>() * max_soa_tracks
-- 
2.43.0

