From bc63528b3b0675b1d841f3ebcc1b1ee3d4636dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 01/16] fix: SoC vendor attributes iterator never terminated

It bumped `count` instead of `current`, so it started past the last
attribute sub-leaf and never stopped. Yield sub-leafs 4..=MaxSOCID_Index.
---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 36fabf0..98bd4f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5892,11 +5892,11 @@ impl<R: CpuIdReader> Iterator for SoCVendorAttributesIter<R> {
 
     /// Iterate over all SoC vendor specific attributes.
     fn next(&mut self) -> Option<CpuIdResult> {
-        if self.current > self.count {
+        if self.current >= self.count {
             return None;
         }
-        self.count += 1;
-        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.count))
+        self.current += 1;
+        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.current))
     }
 }
 
-- 
2.43.0


From f805f0339072e42e90a7bbf268bb72d8f8e875e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 02/16] fix: cache descriptors after an unknown one were
 dropped

CacheInfoIter got stuck on the first byte without an entry in
CACHE_INFO_TABLE and ended the iteration early.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 98bd4f0..658916c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1239,14 +1239,15 @@ impl Iterator for CacheInfoIter {
             return self.next();
         }
 
+        self.current += 1;
         for cache_info in CACHE_INFO_TABLE.iter() {
             if cache_info.num == byte {
-                self.current += 1;
                 return Some(*cache_info);
             }
         }
 
-        None
+        // Not a descriptor we know about, continue with the remaining bytes.
+        self.next()
     }
 }
 
-- 
2.43.0


From 5186789701728f507fc89998ff74ec7f94d4d1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 03/16] fix: family_id() overflowed for large extended family
 ids

The family is an 8-bit quantity, compute it modulo 256 instead of panicking
when overflow checks are enabled.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 658916c..849e394 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1966,7 +1966,7 @@ impl FeatureInfo {
         if just_use_base {
             base_family_id
         } else {
-            base_family_id + extended_family_id
+            base_family_id.wrapping_add(extended_family_id)
         }
     }
 
-- 
2.43.0


From 700b3af4c0d42f985d794ce1e115d323335e9397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 04/16] fix: CacheParameter::sets() overflowed for ECX =
 u32::MAX

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 849e394..d37d9de 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2834,7 +2834,7 @@ impl CacheParameter {
     /// # Platforms
     /// ✅ AMD ✅ Intel
     pub fn sets(&self) -> usize {
-        (self.ecx + 1) as usize
+        self.ecx as usize + 1
     }
 
     /// Write-Back Invalidate/Invalidate (Bit 0)
-- 
2.43.0


From 024f7c46f1a26d6cbcc63731f2f275836148d7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 05/16] fix: extended topology iteration panicked on newer
 level types

Level types above 5 (e.g., DieGrp on leaf 0x1F) hit unreachable!(). Report
them as TopologyType::Unknown instead.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d37d9de..e6b0114 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4434,7 +4434,7 @@ impl ExtendedTopologyLevel {
             3 => TopologyType::Module,
             4 => TopologyType::Tile,
             5 => TopologyType::Die,
-            _ => unreachable!(),
+            _ => TopologyType::Unknown,
         }
     }
 
@@ -4460,6 +4460,8 @@ pub enum TopologyType {
     Module = 3,
     Tile = 4,
     Die = 5,
+    /// A level type that is not (yet) known to the library
+    Unknown,
 }
 
 impl fmt::Display for TopologyType {
@@ -4471,6 +4473,7 @@ impl fmt::Display for TopologyType {
             TopologyType::Module => "Module",
             TopologyType::Tile => "Tile",
             TopologyType::Die => "Die",
+            TopologyType::Unknown => "Unknown",
         };
 
         f.write_str(data)
-- 
2.43.0


From 08d6e1b0b3088368d0c6fa51d6ff62c68afe3c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 06/16] fix: don't read the RDT leafs if the CPU doesn't
 advertise them

---
 src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e6b0114..7f58ecd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -632,9 +632,8 @@ impl<R: CpuIdReader> CpuId<R> {
     /// # Platforms
     /// ❌ AMD ✅ Intel
     pub fn get_rdt_monitoring_info(&self) -> Option<RdtMonitoringInfo<R>> {
-        let res = self.read.cpuid1(EAX_RDT_MONITORING);
-
         if self.leaf_is_supported(EAX_RDT_MONITORING) {
+            let res = self.read.cpuid1(EAX_RDT_MONITORING);
             Some(RdtMonitoringInfo {
                 read: self.read.clone(),
                 ebx: res.ebx,
@@ -650,9 +649,8 @@ impl<R: CpuIdReader> CpuId<R> {
     /// # Platforms
     /// ❌ AMD ✅ Intel
     pub fn get_rdt_allocation_info(&self) -> Option<RdtAllocationInfo<R>> {
-        let res = self.read.cpuid1(EAX_RDT_ALLOCATION);
-
         if self.leaf_is_supported(EAX_RDT_ALLOCATION) {
+            let res = self.read.cpuid1(EAX_RDT_ALLOCATION);
             Some(RdtAllocationInfo {
                 read: self.read.clone(),
                 ebx: res.ebx,
-- 
2.43.0


From 26f25f673f1c5260f65c66078584ba7249cb8f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 07/16] fix: mawau_value() always returned 0

Bits 17-21 were cleared by from_bits_truncate() before they could be read.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7f58ecd..86cbb89 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -524,7 +524,8 @@ impl<R: CpuIdReader> CpuId<R> {
             Some(ExtendedFeatures {
                 _eax: res.eax,
                 ebx: ExtendedFeaturesEbx::from_bits_truncate(res.ebx),
-                ecx: ExtendedFeaturesEcx::from_bits_truncate(res.ecx),
+                // The register also holds a multi-bit field (MAWAU), don't drop it.
+                ecx: ExtendedFeaturesEcx::from_bits_retain(res.ecx),
                 edx: ExtendedFeaturesEdx::from_bits_truncate(res.edx),
                 eax1: ExtendedFeaturesEax1::from_bits_truncate(res1.eax),
                 _ebx1: res1.ebx,
-- 
2.43.0


From d6e524cc68baf2721d95f8526ccfc463c0389ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 08/16] fix: extended state iterator skipped components without
 a flag name

The set of valid sub-leafs is given by all bits of XCR0 | IA32_XSS, not only
by the ones we have a name for (e.g., APX state, bit 19).
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 86cbb89..2d54bf6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -614,13 +614,14 @@ impl<R: CpuIdReader> CpuId<R> {
             let res1 = self.read.cpuid2(EAX_EXTENDED_STATE_INFO, 1);
             Some(ExtendedStateInfo {
                 read: self.read.clone(),
-                eax: ExtendedStateInfoXCR0Flags::from_bits_truncate(res.eax),
+                // Keep all bits, they decide which sub-leafs are valid.
+                eax: ExtendedStateInfoXCR0Flags::from_bits_retain(res.eax),
                 ebx: res.ebx,
                 ecx: res.ecx,
                 _edx: res.edx,
                 eax1: res1.eax,
                 ebx1: res1.ebx,
-                ecx1: ExtendedStateInfoXSSFlags::from_bits_truncate(res1.ecx),
+                ecx1: ExtendedStateInfoXSSFlags::from_bits_retain(res1.ecx),
                 _edx1: res1.edx,
             })
         } else {
-- 
2.43.0


From 608a7918ee449e3ed578e0edbaa0cc39ff690aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 09/16] fix: report AMX_INT8 instead of AMX_TILE in the
 AMX_INT8 row

---
 src/display.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.rs b/src/display.rs
index 7ff6d3d..dfe2b2e 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -545,7 +545,7 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
                 RowGen::tuple("AMX_TILE: Tile Architecture support", info.has_amx_tile()),
                 RowGen::tuple(
                     "AMX_INT8: Tile Computational Operation on 8-bit integers",
-                    info.has_amx_tile(),
+                    info.has_amx_int8(),
                 ),
                 RowGen::tuple(
                     "AVX512DQ: double & quadword instructions",
-- 
2.43.0


From ab4026c28de952e08358f05da3f2218aa550f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 10/16] fix: raw dump omitted the last leaf of every range

EAX of leaf 0, 0x4000_0000 and 0x8000_0000 is the highest supported leaf, it is
included in the range.
---
 src/display.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index dfe2b2e..e2795c5 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -11,18 +11,18 @@ pub fn raw<R: crate::CpuIdReader>(cpuid: R) {
     let _leafs_with_subleafs = &[0x04, 0x0d, 0x0f, 0x10, 0x12];
 
     let max_leafs = cpuid.cpuid1(0x0).eax;
-    for idx in 0..max_leafs {
+    for idx in 0..=max_leafs {
         let res = cpuid.cpuid1(idx);
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, res);
     }
 
     let max_hypervisor_leafs = cpuid.cpuid1(0x4000_0000).eax;
-    for idx in 0x4000_0000..max_hypervisor_leafs {
+    for idx in 0x4000_0000..=max_hypervisor_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 
     let max_extended_leafs = cpuid.cpuid1(0x8000_0000).eax;
-    for idx in 0x8000_0000..max_extended_leafs {
+    for idx in 0x8000_0000..=max_extended_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 }
-- 
2.43.0


From 02df66b8918836f733c1a0dd53279bcd81c46612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:47 +0000
Subject: [PATCH 11/16] fix: DatIter wrapped around if the last sub-leaf is
 u32::MAX

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2d54bf6..af367aa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5653,7 +5653,11 @@ impl<R: CpuIdReader> Iterator for DatIter<R> {
             let res = self
                 .read
                 .cpuid2(EAX_DETERMINISTIC_ADDRESS_TRANSLATION_INFO, self.current);
-            self.current += 1;
+            match self.current.checked_add(1) {
+                Some(next) => self.current = next,
+                // That was the last possible sub-leaf, we're done:
+                None => self.count = 0,
+            }
 
             // A sub-leaf index is also invalid if EDX[4:0] returns 0.
             if get_bits(res.edx, 0, 4) == 0 {
-- 
2.43.0


From 5fd06321c5236c618f0416f7ef156b5b18570c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:47 +0000
Subject: [PATCH 12/16] fix: synthesized cache size in the report could
 overflow

---
 src/display.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index e2795c5..81f9616 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -372,10 +372,11 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
         for cache in iter {
             print_subtitle(&skin, format!("L{} Cache:", cache.level()).as_str());
 
-            let size = (cache.associativity()
-                * cache.physical_line_partitions()
-                * cache.coherency_line_size()
-                * cache.sets()) as u64;
+            let size = cache
+                .associativity()
+                .saturating_mul(cache.physical_line_partitions())
+                .saturating_mul(cache.coherency_line_size())
+                .saturating_mul(cache.sets()) as u64;
 
             table2(
                 &skin,
-- 
2.43.0


From 79febbac35c899b061201f478c126a8bb6bdf3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 13/16] fix: documented cache descriptors were missing from
 CACHE_INFO_TABLE

---
 src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index af367aa..57cecd3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1428,7 +1428,7 @@ impl fmt::Display for CacheInfo {
 }
 
 /// This table is taken from Intel manual (Section CPUID instruction).
-pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
+pub const CACHE_INFO_TABLE: [CacheInfo; 112] = [
     CacheInfo {
         num: 0x00,
         typ: CacheInfoType::General,
@@ -1485,6 +1485,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x0E,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0x1D,
+        typ: CacheInfoType::Cache,
+    },
     CacheInfo {
         num: 0x21,
         typ: CacheInfoType::Cache,
@@ -1637,6 +1641,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x63,
         typ: CacheInfoType::TLB,
     },
+    CacheInfo {
+        num: 0x64,
+        typ: CacheInfoType::TLB,
+    },
     CacheInfo {
         num: 0x66,
         typ: CacheInfoType::Cache,
@@ -1737,6 +1745,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x87,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0xA0,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xB0,
         typ: CacheInfoType::TLB,
@@ -1781,6 +1793,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0xC2,
         typ: CacheInfoType::DTLB,
     },
+    CacheInfo {
+        num: 0xC4,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xCA,
         typ: CacheInfoType::STLB,
-- 
2.43.0


From 4c652760894e4406d98bf099341a0ca9721b3b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 14/16] fix: descriptors 0x6A to 0x6D describe TLBs

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 57cecd3..8130492 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1659,19 +1659,19 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 112] = [
     },
     CacheInfo {
         num: 0x6A,
-        typ: CacheInfoType::Cache,
+        typ: CacheInfoType::TLB,
     },
     CacheInfo {
         num: 0x6B,
-        typ: CacheInfoType::Cache,
+        typ: CacheInfoType::DTLB,
     },
     CacheInfo {
         num: 0x6C,
-        typ: CacheInfoType::Cache,
+        typ: CacheInfoType::DTLB,
     },
     CacheInfo {
         num: 0x6D,
-        typ: CacheInfoType::Cache,
+        typ: CacheInfoType::DTLB,
     },
     CacheInfo {
         num: 0x70,
-- 
2.43.0


From 5736650fd49591901f4caedaeb05c0845a4131f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 15/16] fix: topology and EPC section iterators resumed after
 reporting their end

---
 src/extended.rs |  2 +-
 src/lib.rs      | 22 +++++++++++++---------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/extended.rs b/src/extended.rs
index d79df32..3e85a41 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -2507,12 +2507,12 @@ impl<R: CpuIdReader> Iterator for ExtendedCpuTopologyIter<R> {
 
     fn next(&mut self) -> Option<ExtendedCpuTopologyLevel> {
         let res = self.read.cpuid2(EAX_EXTENDED_CPU_TOPOLOGY, self.level);
-        self.level += 1;
 
         let ect = ExtendedCpuTopologyLevel::new(res);
         if ect.level_type() == HierarchyLevelType::Reserved {
             None
         } else {
+            self.level += 1;
             Some(ect)
         }
     }
diff --git a/src/lib.rs b/src/lib.rs
index 8130492..23f0d57 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4505,7 +4505,6 @@ impl<R: CpuIdReader> Iterator for ExtendedTopologyIter<R> {
         } else {
             self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO, self.level)
         };
-        self.level += 1;
 
         let et = ExtendedTopologyLevel {
             eax: res.eax,
@@ -4516,7 +4515,10 @@ impl<R: CpuIdReader> Iterator for ExtendedTopologyIter<R> {
 
         match et.level_type() {
             TopologyType::Invalid => None,
-            _ => Some(et),
+            _ => {
+                self.level += 1;
+                Some(et)
+            }
         }
     }
 }
@@ -5358,14 +5360,16 @@ impl<R: CpuIdReader> Iterator for SgxSectionIter<R> {
 
     fn next(&mut self) -> Option<SgxSectionInfo> {
         let res = self.read.cpuid2(EAX_SGX, self.current);
-        self.current += 1;
         match get_bits(res.eax, 0, 3) {
-            0b0001 => Some(SgxSectionInfo::Epc(EpcSection {
-                eax: res.eax,
-                ebx: res.ebx,
-                ecx: res.ecx,
-                edx: res.edx,
-            })),
+            0b0001 => {
+                self.current += 1;
+                Some(SgxSectionInfo::Epc(EpcSection {
+                    eax: res.eax,
+                    ebx: res.ebx,
+                    ecx: res.ecx,
+                    edx: res.edx,
+                }))
+            }
             _ => None,
         }
     }
-- 
2.43.0


From f9d44d73b4c068332625017f1693cc88ed7ef462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 16/16] fix: an ended state enumeration counted on and resumed
 after 2^32 calls

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 23f0d57..4e0219d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4791,10 +4791,10 @@ impl<R: CpuIdReader> Iterator for ExtendedStateIter<R> {
     type Item = ExtendedState;
 
     fn next(&mut self) -> Option<ExtendedState> {
-        self.level += 1;
-        if self.level > 31 {
+        if self.level >= 31 {
             return None;
         }
+        self.level += 1;
 
         let bit = 1 << self.level;
         if (self.supported_xcr0 & bit > 0) || (self.supported_xss & bit > 0) {
-- 
2.43.0

