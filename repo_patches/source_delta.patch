From 91dd3ba882c6f1a277ca6d9940e994c33c2c976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:17 +0000
Subject: [PATCH 01/25] fix: never read packed layouts beyond the formatted
 section

Bios, System, BaseBoard, Processor, Cache, PortConnector and BiosLanguage
reinterpreted the formatted section as a packed struct without checking
that it is long enough, reading out of bounds for short structures.
---
 src/lib.rs                           | 17 +++++++++++++++++
 src/structures/000_bios.rs           |  3 +++
 src/structures/001_system.rs         |  3 +++
 src/structures/002_baseboard.rs      | 14 ++++++++++++--
 src/structures/004_processor.rs      |  6 ++++++
 src/structures/007_cache.rs          |  3 +++
 src/structures/008_port_connector.rs |  1 +
 src/structures/013_bios_language.rs  |  2 ++
 8 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4b6db4b..15391dc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -84,6 +84,23 @@ macro_rules! lib_ensure {
     };
 }
 
+/// Ensure that the formatted section of `$structure` can hold a `$ty`, so that `let_as_struct!` does
+/// not read beyond it.
+#[doc(hidden)]
+macro_rules! ensure_formatted_section {
+    ($structure:expr, $ty:ty) => {
+        lib_ensure!(
+            $structure.data.len() >= core::mem::size_of::<$ty>(),
+            $crate::MalformedStructureError::InvalidFormattedSectionLength(
+                $structure.info,
+                $structure.handle,
+                "minimum of ",
+                (core::mem::size_of::<$crate::HeaderPacked>() + core::mem::size_of::<$ty>()) as u8,
+            )
+        );
+    };
+}
+
 #[macro_use]
 pub mod bitfield;
 
diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index c566d60..e922bab 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -127,6 +127,7 @@ impl<'buffer> Bios<'buffer> {
 
         match structure.version {
             v if v >= (3, 1).into() => {
+                ensure_formatted_section!(structure, BiosPacked3_1);
                 let_as_struct!(packed, BiosPacked3_1, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -156,6 +157,7 @@ impl<'buffer> Bios<'buffer> {
                 })
             }
             v if v >= (2, 4).into() => {
+                ensure_formatted_section!(structure, BiosPacked2_4);
                 let_as_struct!(packed, BiosPacked2_4, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -185,6 +187,7 @@ impl<'buffer> Bios<'buffer> {
                 })
             }
             _ => {
+                ensure_formatted_section!(structure, BiosPacked2_0);
                 let_as_struct!(packed, BiosPacked2_0, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
diff --git a/src/structures/001_system.rs b/src/structures/001_system.rs
index 603bc16..27432cf 100644
--- a/src/structures/001_system.rs
+++ b/src/structures/001_system.rs
@@ -108,6 +108,7 @@ impl<'buffer> System<'buffer> {
         }
 
         if structure.version < (2, 1).into() {
+            ensure_formatted_section!(structure, SystemPacked2_0);
             let_as_struct!(packed, SystemPacked2_0, structure.data);
 
             Ok(System {
@@ -122,6 +123,7 @@ impl<'buffer> System<'buffer> {
                 family: None,
             })
         } else if structure.version < (2, 4).into() {
+            ensure_formatted_section!(structure, SystemPacked2_1);
             let_as_struct!(packed, SystemPacked2_1, structure.data);
 
             Ok(System {
@@ -136,6 +138,7 @@ impl<'buffer> System<'buffer> {
                 family: None,
             })
         } else {
+            ensure_formatted_section!(structure, SystemPacked2_4);
             let_as_struct!(packed, SystemPacked2_4, structure.data);
 
             Ok(System {
diff --git a/src/structures/002_baseboard.rs b/src/structures/002_baseboard.rs
index df02bbd..03b027a 100644
--- a/src/structures/002_baseboard.rs
+++ b/src/structures/002_baseboard.rs
@@ -117,7 +117,17 @@ impl<'buffer> BaseBoard<'buffer> {
             board_type: u8,
         }
 
-        let_as_struct!(packed, BaseBoardPacked, structure.data);
+        // The fields up to the serial number are mandatory, the remaining ones depend on the length
+        // of the formatted section
+        lib_ensure!(
+            structure.data.len() >= 4,
+            MalformedStructureError::InvalidFormattedSectionLength(structure.info, structure.handle, "minimum of ", 8)
+        );
+        let mut bytes = [0u8; core::mem::size_of::<BaseBoardPacked>()];
+        for (byte, value) in bytes.iter_mut().zip(structure.data) {
+            *byte = *value;
+        }
+        let_as_struct!(packed, BaseBoardPacked, bytes);
 
         let asset = if structure.data.len() > 4 {
             Some(structure.find_string(packed.asset)?)
@@ -134,7 +144,7 @@ impl<'buffer> BaseBoard<'buffer> {
         } else {
             None
         };
-        let chassis_handle = if structure.data.len() > 7 {
+        let chassis_handle = if structure.data.len() > 8 {
             Some(packed.chassis_handle)
         } else {
             None
diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 7489fd0..617c1c3 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -616,6 +616,7 @@ impl<'buffer> Processor<'buffer> {
         }
 
         if structure.version < (2, 1).into() {
+            ensure_formatted_section!(structure, ProcessorPacked2_0);
             let_as_struct!(packed, ProcessorPacked2_0, structure.data);
 
             Ok(Processor {
@@ -644,6 +645,7 @@ impl<'buffer> Processor<'buffer> {
                 processor_characteristics: None,
             })
         } else if structure.version < (2, 3).into() {
+            ensure_formatted_section!(structure, ProcessorPacked2_1);
             let_as_struct!(packed, ProcessorPacked2_1, structure.data);
 
             Ok(Processor {
@@ -672,6 +674,7 @@ impl<'buffer> Processor<'buffer> {
                 processor_characteristics: None,
             })
         } else if structure.version < (2, 5).into() {
+            ensure_formatted_section!(structure, ProcessorPacked2_3);
             let_as_struct!(packed, ProcessorPacked2_3, structure.data);
 
             Ok(Processor {
@@ -700,6 +703,7 @@ impl<'buffer> Processor<'buffer> {
                 processor_characteristics: None,
             })
         } else if structure.version < (2, 6).into() {
+            ensure_formatted_section!(structure, ProcessorPacked2_5);
             let_as_struct!(packed, ProcessorPacked2_5, structure.data);
 
             Ok(Processor {
@@ -728,6 +732,7 @@ impl<'buffer> Processor<'buffer> {
                 processor_characteristics: None,
             })
         } else if structure.version < (3, 0).into() {
+            ensure_formatted_section!(structure, ProcessorPacked2_6);
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
             // smbios spec specifies 0xFE as an indicator to obtain processor
             // family from the Processor Family 2 field.
@@ -763,6 +768,7 @@ impl<'buffer> Processor<'buffer> {
                 )),
             })
         } else {
+            ensure_formatted_section!(structure, ProcessorPacked3_0);
             let_as_struct!(packed, ProcessorPacked3_0, structure.data);
             // smbios spec specifies 0xFE as an indicator to obtain processor
             // family from the Processor Family 2 field.
diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index 7b1c8b7..1a3f640 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -213,6 +213,7 @@ impl<'buffer> Cache<'buffer> {
 
         match structure.version {
             v if v > (3, 1).into() => {
+                ensure_formatted_section!(structure, CachePacked3_1);
                 let_as_struct!(packed, CachePacked3_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -231,6 +232,7 @@ impl<'buffer> Cache<'buffer> {
                 })
             }
             v if v > (2, 1).into() => {
+                ensure_formatted_section!(structure, CachePacked2_1);
                 let_as_struct!(packed, CachePacked2_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -249,6 +251,7 @@ impl<'buffer> Cache<'buffer> {
                 })
             }
             v if v > (2, 0).into() => {
+                ensure_formatted_section!(structure, CachePacked2_0);
                 let_as_struct!(packed, CachePacked2_0, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
diff --git a/src/structures/008_port_connector.rs b/src/structures/008_port_connector.rs
index 07f2763..e57155d 100644
--- a/src/structures/008_port_connector.rs
+++ b/src/structures/008_port_connector.rs
@@ -136,6 +136,7 @@ impl<'a> PortConnector<'a> {
             external_connector_type: u8,
             port_type: u8,
         }
+        ensure_formatted_section!(structure, PortConnectorPacked);
         let_as_struct!(packed, PortConnectorPacked, structure.data);
 
         Ok(PortConnector {
diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 4879e47..3bef333 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -50,6 +50,7 @@ impl<'a> BiosLanguage<'a> {
 
         match structure.version {
             v if v >= (2, 1).into() => {
+                ensure_formatted_section!(structure, BiosLanguagePacked2_1);
                 let_as_struct!(packed, BiosLanguagePacked2_1, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
@@ -59,6 +60,7 @@ impl<'a> BiosLanguage<'a> {
                 })
             }
             _ => {
+                ensure_formatted_section!(structure, BiosLanguagePacked2_0);
                 let_as_struct!(packed, BiosLanguagePacked2_0, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
-- 
2.43.0


From e9b57a611680f189942a7efe8951e72566191ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:30 +0000
Subject: [PATCH 02/25] fix: report truncated structures as BadSize instead of
 panicking

Structures::next sliced the buffer with offsets taken from the table and
panicked (or overflowed) when a structure, or the declared table length,
exceeds the buffer, or when a structure is shorter than its own header.
---
 src/lib.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 15391dc..9510783 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -539,21 +539,30 @@ impl<'buffer> Iterator for Structures<'buffer> {
 
 impl<'buffer> Structures<'buffer> {
     fn next_raw(&mut self) -> Option<Result<RawStructure<'buffer>, MalformedStructureError>> {
-        if (self.idx + mem::size_of::<HeaderPacked>() as u32) > self.smbios_len {
+        const HEADER_LEN: usize = mem::size_of::<HeaderPacked>();
+
+        if self.smbios_len.saturating_sub(self.idx) < HEADER_LEN as u32 {
             return None;
         }
 
-        let working = &self.buffer[(self.idx as usize)..];
+        let idx = self.idx as usize;
+        let working = self.buffer.get(idx..).unwrap_or(&[]);
+        if working.len() < HEADER_LEN {
+            return Some(Err(MalformedStructureError::BadSize(self.idx, HEADER_LEN as u8)));
+        }
         let_as_struct!(header, HeaderPacked, working);
 
-        let strings_idx: u32 = self.idx + header.len as u32;
-        if strings_idx >= self.smbios_len {
+        let strings_idx = idx + header.len as usize;
+        if (header.len as usize) < HEADER_LEN
+            || strings_idx >= self.smbios_len as usize
+            || strings_idx > self.buffer.len()
+        {
             return Some(Err(MalformedStructureError::BadSize(self.idx, header.len)));
         }
 
-        let term = find_nulnul(&self.buffer[(strings_idx as usize)..]);
+        let term = find_nulnul(&self.buffer[strings_idx..]);
         let strings_len = match term {
-            Some(terminator) => (terminator + 1) as u32,
+            Some(terminator) => terminator + 1,
             None => {
                 return Some(Err(MalformedStructureError::UnterminatedStrings(self.idx)));
             }
@@ -564,11 +573,12 @@ impl<'buffer> Structures<'buffer> {
             info: header.kind.into(),
             length: header.len,
             handle: header.handle,
-            data: &self.buffer[(self.idx + mem::size_of::<HeaderPacked>() as u32) as usize..strings_idx as usize],
-            strings: &self.buffer[strings_idx as usize..(strings_idx + strings_len) as usize],
+            data: &self.buffer[idx + HEADER_LEN..strings_idx],
+            strings: &self.buffer[strings_idx..strings_idx + strings_len],
         };
 
-        self.idx = strings_idx + strings_len;
+        // An offset that does not fit is beyond `smbios_len` and stops the iteration
+        self.idx = (strings_idx + strings_len).try_into().unwrap_or(u32::MAX);
 
         Some(Ok(structure))
     }
-- 
2.43.0


From 02b58ef4c723cb006ba34a792e2fb70d2d13bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:30 +0000
Subject: [PATCH 03/25] fix: compare entry point length without truncating the
 buffer length

A valid entry point was rejected with BadSize when the number of bytes
following it, modulo 256, was less than the entry point length.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9510783..550bcde 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -242,7 +242,7 @@ impl EntryPoint {
                 );
 
                 lib_ensure!(
-                    sub_buffer.len() as u8 >= entry_point.len(),
+                    sub_buffer.len() >= entry_point.len() as usize,
                     InvalidEntryPointError::BadSize(sub_buffer.len() as u8)
                 );
 
-- 
2.43.0


From cbff458d5a24b64ed2eb5cfa4865757c33a38957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:44 +0000
Subject: [PATCH 04/25] fix: do not overflow the contained elements length

count * record_length was computed as u8: enclosures with more than 255
bytes of contained elements panicked or decoded the wrong bytes.
---
 src/structures/003_enclosure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index a50ede4..6ba9b49 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -421,7 +421,7 @@ impl<'buffer> ContainedElements<'buffer> {
             });
         }
 
-        let length = (count * record_length) as usize;
+        let length = count as usize * record_length as usize;
         let chunks = data.get(0..length)?.chunks(record_length as usize);
         *data = &data[length..];
         Some(Self {
-- 
2.43.0


From db9cca96bae8482dc6915b5bfa2ecf5ec2781b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:00 +0000
Subject: [PATCH 05/25] fix: contained elements and peer devices must not be
 read out of bounds

A contained element record length below 3, or a peer group slice below 5
bytes, made the packed read run past the end of the slice.
---
 src/structures/003_enclosure.rs    | 7 ++++++-
 src/structures/009_system_slots.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index 6ba9b49..7096bb9 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -468,7 +468,12 @@ impl From<&[u8]> for ContainedElement {
             minimum: u8,
             maximum: u8,
         }
-        let_as_struct!(packed, ContainedElement2_3, data);
+        // A record shorter than the layout has its missing bytes taken as zero
+        let mut bytes = [0u8; core::mem::size_of::<ContainedElement2_3>()];
+        for (byte, value) in bytes.iter_mut().zip(data) {
+            *byte = *value;
+        }
+        let_as_struct!(packed, ContainedElement2_3, bytes);
         ContainedElement {
             type_: packed.type_.into(),
             minimum: packed.minimum,
diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 3e32189..64dcd38 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -797,7 +797,12 @@ impl From<u8> for SlotCharacteristics2 {
 
 impl<'a> From<&'a [u8]> for Device {
     fn from(data: &'a [u8]) -> Device {
-        let_as_struct!(packed, DevicePacked, data);
+        // A group shorter than the layout has its missing bytes taken as zero
+        let mut bytes = [0u8; core::mem::size_of::<DevicePacked>()];
+        for (byte, value) in bytes.iter_mut().zip(data) {
+            *byte = *value;
+        }
+        let_as_struct!(packed, DevicePacked, bytes);
         Device {
             segment_group_number: packed.segment_group_number,
             bus_number: packed.bus_number,
-- 
2.43.0


From ba39386ba6dd0fe02efdc3201bf1c81a2674d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:14 +0000
Subject: [PATCH 06/25] fix: accept a zero event log type descriptor length

chunks(0) panicked when the length of each log type descriptor is zero.
---
 src/structures/015_system_event_log/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 0c8711b..e585b74 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -356,7 +356,8 @@ impl fmt::Display for LogHeaderFormat {
 
 impl<'a> SupportedEventLogTypeDescriptors<'a> {
     fn new(data: &'a [u8], size: usize) -> Self {
-        Self(data.chunks(size))
+        // A descriptor size of zero comes with no data at all
+        Self(data.chunks(size.max(1)))
     }
 }
 impl PartialEq for SupportedEventLogTypeDescriptors<'_> {
-- 
2.43.0


From 7d8a218cc582040739dd4ee41d5ad4b3c2534233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 07/25] fix: reject group associations without a group name
 byte

The item slice length underflowed for a formatted section of 4 bytes.
---
 src/structures/014_group_associations.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/structures/014_group_associations.rs b/src/structures/014_group_associations.rs
index e78e9f7..5eee4d7 100644
--- a/src/structures/014_group_associations.rs
+++ b/src/structures/014_group_associations.rs
@@ -41,15 +41,14 @@ pub struct GroupItem {
 impl<'a> GroupAssociations<'a> {
     pub(crate) fn try_from(structure: RawStructure<'a>) -> Result<Self, MalformedStructureError> {
         let handle = structure.handle;
-        let slice =
-            structure
-                .get_slice(0x05, structure.length as usize - 0x05)
-                .ok_or(InvalidFormattedSectionLength(
-                    InfoType::GroupAssociations,
-                    handle,
-                    "",
-                    structure.length,
-                ))?;
+        let slice = structure
+            .get_slice(0x05, (structure.length as usize).saturating_sub(0x05))
+            .ok_or(InvalidFormattedSectionLength(
+                InfoType::GroupAssociations,
+                handle,
+                "",
+                structure.length,
+            ))?;
         Ok(GroupAssociations {
             handle,
             group_name: structure.get_string(0x04)?,
-- 
2.43.0


From 5456093d41c1447f442d438bc6adadd9894cb4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:35 +0000
Subject: [PATCH 08/25] fix: report a short physical memory array instead of
 panicking

---
 src/structures/016_physical_memory_array.rs | 29 ++++++++++++++-------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index c446863..68f148f 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -200,12 +200,9 @@ impl PhysicalMemoryArray {
         let mut mem_pointer = 0;
         if structure.version > (2, 1).into() {
             pma.handle = structure.handle;
-            pma.location = MemoryArrayLocation::from(structure.data[mem_pointer]);
-            mem_pointer += 1;
-            pma.r#use = MemoryArrayUse::from(structure.data[mem_pointer]);
-            mem_pointer += 1;
-            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(structure.data[mem_pointer]);
-            mem_pointer += 1;
+            pma.location = MemoryArrayLocation::from(get_byte(&mut mem_pointer, structure.data)?);
+            pma.r#use = MemoryArrayUse::from(get_byte(&mut mem_pointer, structure.data)?);
+            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(get_byte(&mut mem_pointer, structure.data)?);
             pma.maximum_capacity = get_optional_dword(&mut mem_pointer, structure.data, 0x80000000)?;
             pma.memory_error_information_handle = get_optional_word(&mut mem_pointer, structure.data, 0xFFFE)?;
             pma.number_of_memory_devices = get_word(&mut mem_pointer, structure.data)?;
@@ -248,9 +245,21 @@ fn get_optional_word(pointer: &mut usize, data: &[u8], none_val: u16) -> Result<
     }
 }
 
+fn get_byte(pointer: &mut usize, data: &[u8]) -> Result<u8, MalformedStructureError> {
+    let byte = u8::from_le_bytes(
+        data.get(*pointer..(*pointer + 1))
+            .unwrap_or(&[])
+            .try_into()
+            .map_err(MalformedStructureError::InvalidSlice)?,
+    );
+    *pointer += 1;
+    Ok(byte)
+}
+
 fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureError> {
     let word = u16::from_le_bytes(
-        data[*pointer..(*pointer + 2)]
+        data.get(*pointer..(*pointer + 2))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -260,7 +269,8 @@ fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureE
 
 fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructureError> {
     let dword = u32::from_le_bytes(
-        data[*pointer..(*pointer + 4)]
+        data.get(*pointer..(*pointer + 4))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -270,7 +280,8 @@ fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructure
 
 fn get_qword(pointer: &mut usize, data: &[u8]) -> Result<u64, MalformedStructureError> {
     let qword = u64::from_le_bytes(
-        data[*pointer..(*pointer + 8)]
+        data.get(*pointer..(*pointer + 8))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
-- 
2.43.0


From 9ad658e89a1b853afcb20dbe1e946504050adf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:37 +0000
Subject: [PATCH 09/25] fix: decode the physical memory array from SMBIOS 2.1
 and 2.7 on

The fields defined since 2.1 (and the extended capacity since 2.7) were
dropped for tables of exactly these versions, including the handle.
---
 src/structures/016_physical_memory_array.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index 68f148f..8b5e742 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -196,18 +196,21 @@ pub struct PhysicalMemoryArray {
 
 impl PhysicalMemoryArray {
     pub(crate) fn try_from(structure: RawStructure) -> Result<Self, MalformedStructureError> {
-        let mut pma = PhysicalMemoryArray::default();
+        let mut pma = PhysicalMemoryArray {
+            handle: structure.handle,
+            ..Default::default()
+        };
         let mut mem_pointer = 0;
-        if structure.version > (2, 1).into() {
-            pma.handle = structure.handle;
+        if structure.version >= (2, 1).into() {
             pma.location = MemoryArrayLocation::from(get_byte(&mut mem_pointer, structure.data)?);
             pma.r#use = MemoryArrayUse::from(get_byte(&mut mem_pointer, structure.data)?);
-            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(get_byte(&mut mem_pointer, structure.data)?);
+            pma.memory_error_correction =
+                MemoryArrayErrorCorrectionTypes::from(get_byte(&mut mem_pointer, structure.data)?);
             pma.maximum_capacity = get_optional_dword(&mut mem_pointer, structure.data, 0x80000000)?;
             pma.memory_error_information_handle = get_optional_word(&mut mem_pointer, structure.data, 0xFFFE)?;
             pma.number_of_memory_devices = get_word(&mut mem_pointer, structure.data)?;
         }
-        if structure.version > (2, 7).into() {
+        if structure.version >= (2, 7).into() {
             pma.extended_maximum_capacity = if pma.maximum_capacity.is_none() {
                 get_optional_qword(&mut mem_pointer, structure.data, 0)?
             } else {
-- 
2.43.0


From ee099d1e7e7d276c67997b6e04c7a2f055ebcb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:05 +0000
Subject: [PATCH 10/25] fix: decode the cache structure at the versions
 defining its fields

A version 2.0 table hit unreachable!(), and versions 2.1 and 3.1 lost the
fields these versions introduced.
---
 src/structures/007_cache.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index 1a3f640..e98ea99 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -212,7 +212,7 @@ impl<'buffer> Cache<'buffer> {
         }
 
         match structure.version {
-            v if v > (3, 1).into() => {
+            v if v >= (3, 1).into() => {
                 ensure_formatted_section!(structure, CachePacked3_1);
                 let_as_struct!(packed, CachePacked3_1, structure.data);
                 Ok(Cache {
@@ -231,7 +231,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: Some(packed.installed_size_2.into()),
                 })
             }
-            v if v > (2, 1).into() => {
+            v if v >= (2, 1).into() => {
                 ensure_formatted_section!(structure, CachePacked2_1);
                 let_as_struct!(packed, CachePacked2_1, structure.data);
                 Ok(Cache {
@@ -250,7 +250,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            v if v > (2, 0).into() => {
+            _ => {
                 ensure_formatted_section!(structure, CachePacked2_0);
                 let_as_struct!(packed, CachePacked2_0, structure.data);
                 Ok(Cache {
@@ -269,7 +269,6 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            _ => unreachable!(),
         }
     }
 }
-- 
2.43.0


From 51126df179645fac733a9df119b3488f7bcdcaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:19 +0000
Subject: [PATCH 11/25] fix: converting a ROM size of 16 MB or greater must not
 panic

The conversion panicked when the extended size is absent (every table
before 3.1 with a basic size of FFh) or uses a reserved unit.
---
 src/structures/000_bios.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index e922bab..c0db2e0 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -328,10 +328,12 @@ impl From<RomSize> for u64 {
             match unit {
                 0b00 => size << 20,
                 0b01 => size << 30,
-                _ => unimplemented!(),
+                // Reserved unit: only the lower bound given by the basic field is known
+                _ => 16 << 20,
             }
         } else {
-            unreachable!();
+            // No extended size: only the lower bound is known
+            16 << 20
         }
     }
 }
-- 
2.43.0


From e0e6989d986b38912b3713e96f2511cb6d735450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:21 +0000
Subject: [PATCH 12/25] fix: do not overflow the battery design capacity

---
 src/structures/022_portable_battery.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/022_portable_battery.rs b/src/structures/022_portable_battery.rs
index c1d4600..21676a5 100644
--- a/src/structures/022_portable_battery.rs
+++ b/src/structures/022_portable_battery.rs
@@ -236,7 +236,7 @@ impl From<DesignCapacity> for u64 {
     fn from(dc: DesignCapacity) -> Self {
         match dc {
             DesignCapacity::Unknown => 0,
-            DesignCapacity::Data { value, multiplier } => (value * multiplier as u16).into(),
+            DesignCapacity::Data { value, multiplier } => value as u64 * multiplier as u64,
         }
     }
 }
-- 
2.43.0


From 0c95c738b599142b2b3835968e74dd9ef0cd8c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:23 +0000
Subject: [PATCH 13/25] fix: do not overflow the installable languages index

The string index overflowed after 255 calls, restarting the iteration
from the empty string number 0.
---
 src/structures/013_bios_language.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 3bef333..2fd51ae 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -82,9 +82,11 @@ impl<'a> InstallableLanguages<'a> {
 impl<'a> Iterator for InstallableLanguages<'a> {
     type Item = &'a str;
     fn next(&mut self) -> Option<Self::Item> {
-        let index = self.index;
-        self.index += 1;
-        self.structure.find_string(index).ok()
+        // Index 0 is not a string number: the iteration stops after string number 255
+        let index = Some(self.index).filter(|index| *index != 0)?;
+        let language = self.structure.find_string(index).ok()?;
+        self.index = index.wrapping_add(1);
+        Some(language)
     }
 }
 
-- 
2.43.0


From 9d3c914917ced80563e51b1f50be325c32a5d4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:36 +0000
Subject: [PATCH 14/25] fix: report single bit reserved groups following
 another reserved group

The carried over group got an empty range such as 2..=0.
---
 src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitfield.rs b/src/bitfield.rs
index 9272f3a..80b78b9 100644
--- a/src/bitfield.rs
+++ b/src/bitfield.rs
@@ -291,7 +291,7 @@ impl<'a, T> Reserved<'a, T> {
 impl<'a, T: Into<u128> + Copy + fmt::Debug> Iterator for Reserved<'a, T> {
     type Item = ReservedRange<'a>;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut end = 0;
+        let mut end = self.start;
         for Flag {
             position: Position(p),
             type_,
-- 
2.43.0


From 26a33151676f7e811668aead187be2850c160859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:46 +0000
Subject: [PATCH 15/25] fix: memory device form factors 1 to 8 were off by one

SMBIOS Table 75: 01h Other, 02h Unknown, 03h SIMM, ..., 08h Proprietary
Card, 09h DIMM.
---
 src/structures/017_memory_device.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 41cea72..1774b77 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -122,15 +122,14 @@ pub enum FormFactor {
 impl From<u8> for FormFactor {
     fn from(_type: u8) -> FormFactor {
         match _type {
-            0 => FormFactor::Other,
-            1 => FormFactor::Unknown,
-            2 => FormFactor::Simm,
-            3 => FormFactor::Sip,
-            4 => FormFactor::Chip,
-            5 => FormFactor::Dip,
-            6 => FormFactor::Zip,
-            7 => FormFactor::ProprietaryCard,
-            8 => FormFactor::Dimm,
+            1 => FormFactor::Other,
+            2 => FormFactor::Unknown,
+            3 => FormFactor::Simm,
+            4 => FormFactor::Sip,
+            5 => FormFactor::Chip,
+            6 => FormFactor::Dip,
+            7 => FormFactor::Zip,
+            8 => FormFactor::ProprietaryCard,
             9 => FormFactor::Dimm,
             10 => FormFactor::Tsop,
             11 => FormFactor::RowOfChips,
-- 
2.43.0


From fc6ca5d32cb56c3b412404162296b551966d2bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:12 +0000
Subject: [PATCH 16/25] fix: decode U.2 slot types

1Fh, 20h, 24h and 25h are the SFF-8639 (U.2) slots, not plain PCI Express.
---
 src/structures/009_system_slots.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 64dcd38..0b58d10 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -437,13 +437,13 @@ impl From<u8> for SlotType {
             0x1C => SlotType::MxmType4,
             0x1D => SlotType::Mxm3TypeA,
             0x1E => SlotType::Mxm3TypeB,
-            0x1F => SlotType::PciExpressGen2,
-            0x20 => SlotType::PciExpressGen3,
+            0x1F => SlotType::U2PciExpressGen2,
+            0x20 => SlotType::U2PciExpressGen3,
             0x21 => SlotType::PciExpressMini52pin1,
             0x22 => SlotType::PciExpressMini52pin2,
             0x23 => SlotType::PciExpressMini76pin,
-            0x24 => SlotType::PciExpressGen4,
-            0x25 => SlotType::PciExpressGen5,
+            0x24 => SlotType::U2PciExpressGen4,
+            0x25 => SlotType::U2PciExpressGen5,
             0x26 => SlotType::OcpNic3Small,
             0x27 => SlotType::OcpNic3Large,
             0x28 => SlotType::OcpNicPriorTo3,
-- 
2.43.0


From 6cd5dcb8a27b8cf11a99f8e56159a7f55d7253a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:14 +0000
Subject: [PATCH 17/25] fix: report the processor characteristics of SMBIOS 2.5
 tables

---
 src/structures/004_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 617c1c3..e416ffc 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -729,7 +729,9 @@ impl<'buffer> Processor<'buffer> {
                 core_count: Some(packed.core_count as u16),
                 core_enabled: Some(packed.core_enabled as u16),
                 thread_count: Some(packed.thread_count as u16),
-                processor_characteristics: None,
+                processor_characteristics: Some(ProcessorCharacteristics::from_bits_truncate(
+                    packed.processor_characteristics,
+                )),
             })
         } else if structure.version < (3, 0).into() {
             ensure_formatted_section!(structure, ProcessorPacked2_6);
-- 
2.43.0


From f283989dcf2df5a2b309550f118f76b631221d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:17 +0000
Subject: [PATCH 18/25] fix: report the BIOS characteristics extension byte 1
 from SMBIOS 2.1 on

---
 src/structures/000_bios.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index c0db2e0..bdc3329 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -186,7 +186,7 @@ impl<'buffer> Bios<'buffer> {
                     }),
                 })
             }
-            _ => {
+            v => {
                 ensure_formatted_section!(structure, BiosPacked2_0);
                 let_as_struct!(packed, BiosPacked2_0, structure.data);
                 Ok(Bios {
@@ -200,7 +200,11 @@ impl<'buffer> Bios<'buffer> {
                         extended: None,
                     },
                     bios_characteristics: Characteristics(packed.bios_characteristics),
-                    bios_characteristics_exttension_1: None,
+                    bios_characteristics_exttension_1: if v >= (2, 1).into() {
+                        structure.get::<u8>(0x12).ok().map(CharacteristicsExtension1)
+                    } else {
+                        None
+                    },
                     bios_characteristics_exttension_2: None,
                     bios_revision: None,
                     firmware_revision: None,
-- 
2.43.0


From dc31685025fb3dea64fb0e969cca2a73acab49dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:19 +0000
Subject: [PATCH 19/25] fix: find strings following one that is not valid UTF-8

find_string() reported an invalid index for every string after the first
one that is not UTF-8, although the index is within the strings table.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 550bcde..349f716 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -651,8 +651,12 @@ impl<'buffer> RawStructure<'buffer> {
         if idx == 0 {
             Ok("")
         } else {
-            self.strings()
+            // Strings that are not valid UTF-8 still count
+            self.strings
+                .split(|elm| *elm == 0)
+                .take_while(|slice| !slice.is_empty())
                 .nth((idx - 1) as usize)
+                .and_then(|slice| str::from_utf8(slice).ok())
                 .ok_or(MalformedStructureError::InvalidStringIndex(self.info, self.handle, idx))
         }
     }
-- 
2.43.0


From 8a3b3681d8df798218438813c99b891c6ca89949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:58 +0000
Subject: [PATCH 20/25] verif hooks: guarded access to private constructors
 (cfg kani / dmi_verif)

---
 src/lib.rs         |  5 +++
 src/verif_hooks.rs | 91 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 96 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 349f716..4332819 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,6 +55,7 @@
 //! - End-of-Table (Type 127)
 
 #![no_std]
+#![allow(unexpected_cfgs)]
 
 #[cfg(any(feature = "std", test))]
 #[macro_use]
@@ -107,6 +108,10 @@ pub mod bitfield;
 pub mod structures;
 pub use structures::*;
 
+#[cfg(all(any(kani, dmi_verif), not(dmi_verif_nohooks)))]
+#[doc(hidden)]
+pub mod verif_hooks;
+
 #[derive(Copy, Clone, Debug, Eq, Hash, PartialEq)]
 enum EntryPointFormat {
     V2,
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..25ff207
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,91 @@
+//! Verification hooks, compiled only under the `kani` verifier or with `--cfg dmi_verif`.
+//!
+//! They expose private constructors and functions so that contracts on them can be checked for
+//! arbitrary inputs. Nothing here is part of the crate's API.
+
+use crate::*;
+
+/// A raw structure with arbitrary parts.
+pub fn raw<'a>(
+    version: SmbiosVersion,
+    info: InfoType,
+    length: u8,
+    handle: u16,
+    data: &'a [u8],
+    strings: &'a [u8],
+) -> RawStructure<'a> {
+    RawStructure {
+        version,
+        info,
+        length,
+        handle,
+        data,
+        strings,
+    }
+}
+
+/// The strings section of a raw structure.
+pub fn raw_strings<'a>(raw: &RawStructure<'a>) -> &'a [u8] {
+    raw.strings
+}
+
+/// A structures iterator in an arbitrary state.
+pub fn structures_at(version: SmbiosVersion, smbios_len: u32, idx: u32, buffer: &[u8]) -> Structures<'_> {
+    Structures {
+        smbios_version: version,
+        smbios_len,
+        idx,
+        buffer,
+    }
+}
+
+/// The declared length and offset of a structures iterator.
+pub fn structures_state(structures: &Structures<'_>) -> (u32, u32) {
+    (structures.smbios_len, structures.idx)
+}
+
+pub fn next_raw<'a>(structures: &mut Structures<'a>) -> Option<Result<RawStructure<'a>, MalformedStructureError>> {
+    structures.next_raw()
+}
+
+pub fn find_nulnul(buf: &[u8]) -> Option<usize> {
+    crate::find_nulnul(buf)
+}
+
+/// Offset of the entry point anchor, and whether it is a 64-bit one.
+pub fn find_signature(buffer: &[u8]) -> Option<(bool, usize)> {
+    crate::find_signature(buffer).map(|(kind, start)| (matches!(kind, EntryPointFormat::V3), start))
+}
+
+macro_rules! decoders {
+    ($($name:ident: $ty:ty;)*) => {
+        $(
+            pub fn $name<'a>(raw: RawStructure<'a>) -> Result<$ty, MalformedStructureError> {
+                <$ty>::try_from(raw)
+            }
+        )*
+    };
+}
+
+decoders! {
+    bios: Bios<'a>;
+    system: System<'a>;
+    baseboard: BaseBoard<'a>;
+    enclosure: Enclosure<'a>;
+    processor: Processor<'a>;
+    cache: Cache<'a>;
+    port_connector: PortConnector<'a>;
+    system_slots: SystemSlots<'a>;
+    oem_strings: OemStrings<'a>;
+    system_configuration_options: SystemConfigurationOptions<'a>;
+    bios_language: BiosLanguage<'a>;
+    group_associations: GroupAssociations<'a>;
+    system_event_log: SystemEventLog<'a>;
+    physical_memory_array: PhysicalMemoryArray;
+    memory_device: MemoryDevice<'a>;
+    memory_error_32: MemoryError32;
+    memory_array_mapped_address: MemoryArrayMappedAddress;
+    memory_device_mapped_address: MemoryDeviceMappedAddress;
+    built_in_pointing_device: BuiltInPointingDevice;
+    portable_battery: PortableBattery<'a>;
+}
-- 
2.43.0


From 0ede40b54becef630207980f203a30471c85451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:03 +0000
Subject: [PATCH 21/25] verif hooks: guarded accessors to private decoded parts

---
 src/structures/003_enclosure.rs    |  7 +++++++
 src/structures/007_cache.rs        | 14 ++++++++++++++
 src/structures/009_system_slots.rs |  7 +++++++
 3 files changed, 28 insertions(+)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index 7096bb9..dfa00d4 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -481,6 +481,13 @@ impl From<&[u8]> for ContainedElement {
         }
     }
 }
+#[cfg(all(any(kani, dmi_verif), not(dmi_verif_nohooks)))]
+#[doc(hidden)]
+impl ContainedElement {
+    pub fn verif_parts(&self) -> (ContainedElementType, u8, u8) {
+        (self.type_, self.minimum, self.maximum)
+    }
+}
 impl fmt::Display for ContainedElement {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "{} ({}-{})", self.type_, self.minimum, self.maximum)
diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index e98ea99..e6a087d 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -285,6 +285,20 @@ impl From<u16> for CacheConfiguration {
     }
 }
 
+#[cfg(all(any(kani, dmi_verif), not(dmi_verif_nohooks)))]
+#[doc(hidden)]
+impl CacheConfiguration {
+    pub fn verif_parts(&self) -> (CacheLevel, bool, CacheLocation, bool, CacheOperationalMode) {
+        (
+            self.level.clone(),
+            self.socketed,
+            self.location.clone(),
+            self.enabled_at_boot_time,
+            self.operational_mode.clone(),
+        )
+    }
+}
+
 impl From<u16> for CacheSize {
     fn from(word: u16) -> CacheSize {
         let val = word & (!(1 << 15));
diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 0b58d10..4275606 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -877,6 +877,13 @@ impl From<u16> for SlotPitch {
         Self(word)
     }
 }
+#[cfg(all(any(kani, dmi_verif), not(dmi_verif_nohooks)))]
+#[doc(hidden)]
+impl SlotPitch {
+    pub fn verif_value(&self) -> u16 {
+        self.0
+    }
+}
 impl fmt::Display for SlotPitch {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if self.0 == 0 {
-- 
2.43.0


From c078cdf0f060993b973cfb40ec71f1e78653bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:25 +0000
Subject: [PATCH 22/25] verif hooks: guarded contract stand-in for the
 signature search

---
 src/verif_hooks.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 25ff207..5a0f49f 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -57,6 +57,21 @@ pub fn find_signature(buffer: &[u8]) -> Option<(bool, usize)> {
     crate::find_signature(buffer).map(|(kind, start)| (matches!(kind, EntryPointFormat::V3), start))
 }
 
+/// What `find_signature_contract` answers.
+#[cfg(kani)]
+pub static mut SIGNATURE: Option<(bool, usize)> = None;
+
+/// The contract of `find_signature`, standing for it in the contract of its caller.
+#[cfg(kani)]
+#[allow(private_interfaces)]
+pub fn find_signature_contract(_buffer: &[u8]) -> Option<(EntryPointFormat, usize)> {
+    match unsafe { SIGNATURE } {
+        Some((true, start)) => Some((EntryPointFormat::V3, start)),
+        Some((false, start)) => Some((EntryPointFormat::V2, start)),
+        None => None,
+    }
+}
+
 macro_rules! decoders {
     ($($name:ident: $ty:ty;)*) => {
         $(
-- 
2.43.0


From 8850d63ea39d5397c479f34e8afb762f8321e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:01 +0000
Subject: [PATCH 23/25] fix: decode the PC-98 and CXL memory array locations

The specification numbers them A0h to A4h, not 0Bh to 0Fh.
---
 src/structures/016_physical_memory_array.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index 8b5e742..bf280c4 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -42,11 +42,11 @@ impl From<u8> for MemoryArrayLocation {
             8 => Self::PcmciaAddOnCard,
             9 => Self::ProprietaryAddOnCard,
             10 => Self::NuBus,
-            11 => Self::Pc98c20AddOnCard,
-            12 => Self::Pc98c24AddOnCard,
-            13 => Self::Pc98eAddOnCard,
-            14 => Self::Pc98LocalBusAddOnCard,
-            15 => Self::CxlAddOnCard,
+            0xA0 => Self::Pc98c20AddOnCard,
+            0xA1 => Self::Pc98c24AddOnCard,
+            0xA2 => Self::Pc98eAddOnCard,
+            0xA3 => Self::Pc98LocalBusAddOnCard,
+            0xA4 => Self::CxlAddOnCard,
             t => Self::Undefined(t),
         }
     }
-- 
2.43.0


From 5fb522233d37cb91988a9d767c9e46cfc47d2872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:58 +0000
Subject: [PATCH 24/25] fix: yield event log type descriptors longer than two
 bytes

The structure states the length of its descriptors; the iterator ended at once unless it was two.
---
 src/structures/015_system_event_log/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index e585b74..2f3d3bb 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -10,7 +10,6 @@
 //! changed, the application can retrieve the entire event log and determine the changes since the
 //! last time it read the event log.
 
-use core::convert::TryInto;
 use core::fmt;
 use core::hash::{Hash, Hasher};
 use core::slice::Chunks;
@@ -375,10 +374,11 @@ impl Iterator for SupportedEventLogTypeDescriptors<'_> {
     type Item = EventLogTypeDescriptor;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // A descriptor may be longer than the fields known
         let next = self.0.next()?;
-        next.try_into().ok().map(|a: [u8; 2]| EventLogTypeDescriptor {
-            log_type: a[0].into(),
-            variable_data_format_type: a[1].into(),
+        Some(EventLogTypeDescriptor {
+            log_type: (*next.first()?).into(),
+            variable_data_format_type: (*next.get(1)?).into(),
         })
     }
 }
-- 
2.43.0


From d7b9f37133509e8d6feacead66c3e11f97d71203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:54 +0000
Subject: [PATCH 25/25] Guarded verification hooks: iterator states and the
 loop invariant of find_nulnul

---
 src/lib.rs                                 |  2 ++
 src/structures/003_enclosure.rs            | 14 ++++++++++++++
 src/structures/009_system_slots.rs         | 14 ++++++++++++++
 src/structures/013_bios_language.rs        |  8 ++++++++
 src/structures/014_group_associations.rs   |  8 ++++++++
 src/structures/015_system_event_log/mod.rs | 14 ++++++++++++++
 src/verif_hooks.rs                         | 11 +++++++++++
 7 files changed, 71 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4332819..294b1db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -56,6 +56,7 @@
 
 #![no_std]
 #![allow(unexpected_cfgs)]
+#![cfg_attr(all(kani, dmi_verif_loops), feature(stmt_expr_attributes, proc_macro_hygiene))]
 
 #[cfg(any(feature = "std", test))]
 #[macro_use]
@@ -470,6 +471,7 @@ impl std::error::Error for MalformedStructureError {
 #[doc(hidden)]
 /// Finds the final nul nul terminator of a buffer and returns the index of the final nul
 fn find_nulnul(buf: &[u8]) -> Option<usize> {
+    #[cfg_attr(all(kani, dmi_verif_loops), kani::loop_invariant(verif_hooks::no_nulnul_before(buf, kani::index)))]
     for i in 0..buf.len() {
         if i + 1 >= buf.len() {
             return None;
diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index dfa00d4..00273eb 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -459,6 +459,20 @@ impl Iterator for ContainedElements<'_> {
     }
 }
 
+#[cfg(all(any(kani, dmi_verif), not(dmi_verif_nohooks)))]
+#[doc(hidden)]
+impl<'buffer> ContainedElements<'buffer> {
+    /// The records not yet yielded
+    pub fn verif_rest(&self) -> impl Iterator<Item = &'buffer [u8]> + Clone + 'buffer {
+        self.chunks.clone()
+    }
+    /// The state after `n` records
+    pub fn verif_skip(&mut self, n: usize) {
+        if let Some(last) = n.checked_sub(1) {
+            self.chunks.nth(last);
+        }
+    }
+}
 impl From<&[u8]> for ContainedElement {
     fn from(data: &[u8]) -> ContainedElement {
         #[repr(C)]
diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 4275606..41ccef7 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -872,6 +872,20 @@ impl Iterator for PeerDevices<'_> {
     }
 }
 
+#[cfg(all(any(kani, dmi_verif), not(dmi_verif_nohooks)))]
+#[doc(hidden)]
+impl<'a> PeerDevices<'a> {
+    /// The records not yet yielded
+    pub fn verif_rest(&self) -> impl Iterator<Item = &'a [u8]> + Clone + 'a {
+        self.0.clone()
+    }
+    /// The state after `n` records
+    pub fn verif_skip(&mut self, n: usize) {
+        if let Some(last) = n.checked_sub(1) {
+            self.0.nth(last);
+        }
+    }
+}
 impl From<u16> for SlotPitch {
     fn from(word: u16) -> Self {
         Self(word)
diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 2fd51ae..6abd1fa 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -90,6 +90,14 @@ impl<'a> Iterator for InstallableLanguages<'a> {
     }
 }
 
+#[cfg(all(any(kani, dmi_verif), not(dmi_verif_nohooks)))]
+#[doc(hidden)]
+impl InstallableLanguages<'_> {
+    pub fn verif_index(&mut self) -> &mut u8 {
+        &mut self.index
+    }
+}
+
 impl BitField<'_> for LanguageFlags {
     type Size = u8;
     fn value(&self) -> Self::Size {
diff --git a/src/structures/014_group_associations.rs b/src/structures/014_group_associations.rs
index 5eee4d7..537c9d9 100644
--- a/src/structures/014_group_associations.rs
+++ b/src/structures/014_group_associations.rs
@@ -76,6 +76,14 @@ impl Iterator for GroupItems<'_> {
     }
 }
 
+#[cfg(all(any(kani, dmi_verif), not(dmi_verif_nohooks)))]
+#[doc(hidden)]
+impl GroupItems<'_> {
+    pub fn verif_index(&mut self) -> &mut usize {
+        &mut self.index
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use pretty_assertions::assert_eq as pretty_assert_eq;
diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 2f3d3bb..627cfae 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -383,6 +383,20 @@ impl Iterator for SupportedEventLogTypeDescriptors<'_> {
     }
 }
 
+#[cfg(all(any(kani, dmi_verif), not(dmi_verif_nohooks)))]
+#[doc(hidden)]
+impl<'a> SupportedEventLogTypeDescriptors<'a> {
+    /// The records not yet yielded
+    pub fn verif_rest(&self) -> impl Iterator<Item = &'a [u8]> + Clone + 'a {
+        self.0.clone()
+    }
+    /// The state after `n` records
+    pub fn verif_skip(&mut self, n: usize) {
+        if let Some(last) = n.checked_sub(1) {
+            self.0.nth(last);
+        }
+    }
+}
 impl From<[u8; 2]> for EventLogTypeDescriptor {
     fn from(a: [u8; 2]) -> Self {
         Self {
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 5a0f49f..56bc847 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -52,6 +52,17 @@ pub fn find_nulnul(buf: &[u8]) -> Option<usize> {
     crate::find_nulnul(buf)
 }
 
+/// An arbitrary index of the buffer searched by `find_nulnul`.
+#[cfg(all(kani, dmi_verif_loops))]
+pub static mut WITNESS: usize = 0;
+
+/// Loop invariant of `find_nulnul`: the arbitrary index is no double NUL before `index`.
+#[cfg(all(kani, dmi_verif_loops))]
+pub fn no_nulnul_before(buf: &[u8], index: usize) -> bool {
+    let at = unsafe { WITNESS };
+    at >= index || buf.len() < 2 || at > buf.len() - 2 || buf[at] != 0 || buf[at + 1] != 0
+}
+
 /// Offset of the entry point anchor, and whether it is a 64-bit one.
 pub fn find_signature(buffer: &[u8]) -> Option<(bool, usize)> {
     crate::find_signature(buffer).map(|(kind, start)| (matches!(kind, EntryPointFormat::V3), start))
-- 
2.43.0

