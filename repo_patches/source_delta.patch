From 8c7988ff1140e335a5d3d55484f7cbc65d9ef784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 1/3] fix: align controls before appending a stream to the hash
 table

stream_inputs after constant_inputs panicked, because entries added by
constant_inputs carry no control.
---
 poseidon-circuit/src/hash.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poseidon-circuit/src/hash.rs b/poseidon-circuit/src/hash.rs
index 0f6cae6..968fc55 100644
--- a/poseidon-circuit/src/hash.rs
+++ b/poseidon-circuit/src/hash.rs
@@ -306,6 +306,8 @@ impl<F: PrimeField> PoseidonHashTable<F> {
         .collect();
 
         assert_eq!(new_inps.len(), ctrl_series.len());
+        // align controls with the inputs added so far (they may lack any control)
+        self.controls.resize(self.inputs.len(), 0);
         self.inputs.append(&mut new_inps);
         self.controls.append(&mut ctrl_series);
         assert_eq!(self.inputs.len(), self.controls.len());
-- 
2.43.0


From 0b2c0384dd96500aa9e6b04afde9bc3a85f37752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:18 +0000
Subject: [PATCH 2/3] fix: tie the last row's index to its permutation

---
 poseidon-circuit/src/hash.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/poseidon-circuit/src/hash.rs b/poseidon-circuit/src/hash.rs
index 968fc55..d8b14c8 100644
--- a/poseidon-circuit/src/hash.rs
+++ b/poseidon-circuit/src/hash.rs
@@ -104,7 +104,11 @@ impl<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>> SpongeConfig<F, PC> {
             vec![
                 q_custom.clone() * meta.query_advice(hash_inp[0], Rotation::cur()),
                 q_custom.clone() * meta.query_advice(hash_inp[1], Rotation::cur()),
-                q_custom * meta.query_advice(control, Rotation::cur()),
+                q_custom.clone() * meta.query_advice(control, Rotation::cur()),
+                // no enabled row follows to check the index of the last row
+                q_custom
+                    * (meta.query_advice(hash_index, Rotation::cur())
+                        - meta.query_advice(hash_out, Rotation::cur())),
             ]
         });
 
-- 
2.43.0


From f4c46c16f164bac58f446a8e29a0d2381b302c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 3/3] fix: refuse a table larger than its capacity in parallel
 assignment too

---
 poseidon-circuit/src/hash.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poseidon-circuit/src/hash.rs b/poseidon-circuit/src/hash.rs
index d8b14c8..f312fe5 100644
--- a/poseidon-circuit/src/hash.rs
+++ b/poseidon-circuit/src/hash.rs
@@ -783,6 +783,8 @@ where
                 |mut region| self.fill_hash_tbl_custom(&mut region),
             )?;
             let data = self.data;
+            // as in the serial assignment: no entry beyond the capacity may be dropped silently
+            assert!(self.calcs >= data.inputs.len() && self.calcs >= data.controls.len());
 
             let inputs_i = data
                 .inputs
-- 
2.43.0

