From 31ea8375c98edc3d2047b61a48c33453bd1e0aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:35 +0000
Subject: [PATCH 1/4] fix: a variant is available in every ISA version from its
 minimal one on

is_available_for_version compared the wrong way round, so variants_for_version
returned an empty list for every opcode in ISA version 1.
---
 src/definitions/opcode_trait.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/opcode_trait.rs b/src/definitions/opcode_trait.rs
index a71ee48..b7c5e2f 100644
--- a/src/definitions/opcode_trait.rs
+++ b/src/definitions/opcode_trait.rs
@@ -90,7 +90,7 @@ pub trait OpcodeVariantProps: Sized + 'static + Send + Sync {
     fn minimal_version(&self) -> ISAVersion;
     fn max_variant_idx_for_version(version: ISAVersion) -> usize;
     fn is_available_for_version(&self, version: ISAVersion) -> bool {
-        self.minimal_version() >= version
+        self.minimal_version() <= version
     }
     fn is_added_in_version(&self, version: ISAVersion) -> bool {
         self.minimal_version() == version
-- 
2.43.0


From 91cf63bdfff13f77843e8419ce6497a7e287319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 2/4] fix: the last pointer opcode variant is Shrink, not Pack

max_variant_idx disagreed with max_variant_idx_for_version and with the
variants that variants_data lists for the same opcode.
---
 src/definitions/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/ptr.rs b/src/definitions/ptr.rs
index 609ba64..7fb899d 100644
--- a/src/definitions/ptr.rs
+++ b/src/definitions/ptr.rs
@@ -65,7 +65,7 @@ impl OpcodeProps for PtrOpcode {
         }
     }
     fn max_variant_idx(&self, _version: ISAVersion) -> usize {
-        PtrOpcode::Pack.variant_index()
+        PtrOpcode::Shrink.variant_index()
     }
     fn input_operands(&self, _version: ISAVersion) -> Vec<Operand> {
         vec![
-- 
2.43.0


From f9ebbac95834fe34888df0788b5f497f938796f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 3/4] fix: the default opcode variant is the no-op of the
 opcode table

The default used operand types that no table entry of the no-op has, so
serializing a default DecodedOpcode panicked with an unknown variant.
---
 src/definitions/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/definitions/mod.rs b/src/definitions/mod.rs
index bcb8041..791e9d6 100644
--- a/src/definitions/mod.rs
+++ b/src/definitions/mod.rs
@@ -166,8 +166,8 @@ impl std::default::Default for OpcodeVariant {
     fn default() -> Self {
         OpcodeVariant {
             opcode: Opcode::Nop(NopOpcode),
-            src0_operand_type: Operand::RegOnly,
-            dst0_operand_type: Operand::RegOnly,
+            src0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly),
+            dst0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly),
             flags: [false; NUM_NON_EXCLUSIVE_FLAGS],
         }
     }
-- 
2.43.0


From 508ff7f77a0fb8be8ff66c1592b1171782082e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 4/4] fix: heap accesses of ISA version 1 use an immediate

Version 1 lets heap reads and writes take the offset from an immediate, but
their variant data went on declaring that no immediate is used.
---
 src/definitions/uma.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/definitions/uma.rs b/src/definitions/uma.rs
index 3ac129e..d090340 100644
--- a/src/definitions/uma.rs
+++ b/src/definitions/uma.rs
@@ -89,7 +89,18 @@ impl OpcodeProps for UMAOpcode {
                 full_variants_product(0..=Self::max_variant_idx_for_version(version), 1, 0)
             }
             ISAVersion(1) => {
-                full_variants_product(0..=Self::max_variant_idx_for_version(version), 1, 0)
+                // heap accesses may take the offset from an immediate
+                let heap_accesses =
+                    UMAOpcode::HeapRead.variant_index()..=UMAOpcode::AuxHeapWrite.variant_index();
+                let fat_pointer_read = UMAOpcode::FatPointerRead.variant_index();
+                let mut result = full_variants_product(heap_accesses, 1, 1);
+                result.extend(full_variants_product(
+                    fat_pointer_read..=fat_pointer_read,
+                    1,
+                    0,
+                ));
+
+                result
             }
             _ => unimplemented!(),
         }
-- 
2.43.0

