From e79766b7b7ecf83ccce63ce916f3ce3e7c10edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 01/33] fix: zero the whole provided buffer when constructing a
 message in it

---
 midi2_proc/src/generate_message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2_proc/src/generate_message.rs b/midi2_proc/src/generate_message.rs
index 6264864..4200bfc 100644
--- a/midi2_proc/src/generate_message.rs
+++ b/midi2_proc/src/generate_message.rs
@@ -514,7 +514,7 @@ fn new_with_buffer_impl(
                 let buffer_ref_mut = &mut buffer;
                 let sz = <Self as crate::traits::MinSize<B>>::MIN_SIZE;
                 buffer_ref_mut.resize(sz);
-                for b in &mut buffer_ref_mut.buffer_mut()[..sz] {
+                for b in buffer_ref_mut.buffer_mut() {
                     *b = <<B as crate::buffer::Buffer>::Unit as crate::buffer::Unit>::zero();
                 }
                 #initialise_properties
@@ -544,7 +544,7 @@ fn try_new_with_buffer_impl(
                 let buffer_ref_mut = &mut buffer;
                 let sz = <Self as crate::traits::MinSize<B>>::MIN_SIZE;
                 buffer_ref_mut.try_resize(sz)?;
-                for b in &mut buffer_ref_mut.buffer_mut()[..sz] {
+                for b in buffer_ref_mut.buffer_mut() {
                     *b = <<B as crate::buffer::Buffer>::Unit as crate::buffer::Unit>::zero();
                 }
                 #initialise_properties
-- 
2.43.0


From 3f85fe9b55fdf0846ed6253126d4d2fff32f0fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:56 +0000
Subject: [PATCH 02/33] fix: flex data status and bank validation ignores what
 follows the message

---
 midi2/src/flex_data.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 13ad909..8485fa8 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -926,11 +926,7 @@ impl<const STATUS: u8, B: Ump> Property<B> for StatusProperty<STATUS> {
 impl<'a, const STATUS: u8, B: Ump> ReadProperty<'a, B> for StatusProperty<STATUS> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
-            .chunks_exact(4)
-            .all(|packet| packet[0].octet(3) == STATUS)
-        {
+        if message_packets(buffer.buffer()).all(|packet| packet[0].octet(3) == STATUS) {
             Ok(())
         } else {
             Err(crate::error::InvalidData("Incorrect message status"))
@@ -957,11 +953,7 @@ impl<const BANK: u8, B: Ump> Property<B> for BankProperty<BANK> {
 impl<'a, const BANK: u8, B: Ump> ReadProperty<'a, B> for BankProperty<BANK> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
-            .chunks_exact(4)
-            .all(|packet| packet[0].octet(2) == BANK)
-        {
+        if message_packets(buffer.buffer()).all(|packet| packet[0].octet(2) == BANK) {
             Ok(())
         } else {
             Err(crate::error::InvalidData("Incorrect message bank"))
@@ -1165,6 +1157,16 @@ fn flex_data_dyn_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
         + 4
 }
 
+// the leading packets of the buffer, up to and including
+// the first one which completes a message
+fn message_packets(buffer: &[u32]) -> impl Iterator<Item = &[u32]> {
+    let size = buffer
+        .chunks_exact(4)
+        .position(|p| matches!(u8::from(p[0].crumb(4)), COMPLETE_FORMAT | END_FORMAT))
+        .map_or(buffer.len(), |index| (index + 1) * 4);
+    buffer[..size].chunks_exact(4)
+}
+
 fn bank_from_buffer(buffer: &[u32]) -> u8 {
     buffer[0].octet(2)
 }
-- 
2.43.0


From 6527c333ca0fb2fa8f25a6d2662603abca27fd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:06 +0000
Subject: [PATCH 03/33] fix: flex data text reads every byte of its own message
 and nothing past it

---
 midi2/src/flex_data.rs      | 6 +++++-
 midi2/src/flex_data/text.rs | 8 +++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 8485fa8..157fe02 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -1160,11 +1160,15 @@ fn flex_data_dyn_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
 // the leading packets of the buffer, up to and including
 // the first one which completes a message
 fn message_packets(buffer: &[u32]) -> impl Iterator<Item = &[u32]> {
+    message_slice(buffer).chunks_exact(4)
+}
+
+fn message_slice(buffer: &[u32]) -> &[u32] {
     let size = buffer
         .chunks_exact(4)
         .position(|p| matches!(u8::from(p[0].crumb(4)), COMPLETE_FORMAT | END_FORMAT))
         .map_or(buffer.len(), |index| (index + 1) * 4);
-    buffer[..size].chunks_exact(4)
+    &buffer[..size]
 }
 
 fn bank_from_buffer(buffer: &[u32]) -> u8 {
diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index d097c26..9c04fae 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -135,7 +135,9 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 12, Some(self.buffer.len() * 12))
+        // zero bytes are skipped, any number of the remaining bytes could be zero
+        let capacity = self.buffer.len() / 4 * 12;
+        (0, Some(capacity - self.packet_index * 12 - self.byte_index))
     }
 }
 
@@ -143,7 +145,7 @@ impl core::iter::FusedIterator for TextBytesIterator<'_> {}
 
 impl TextBytesIterator<'_> {
     fn finished(&self) -> bool {
-        self.packet_index == self.buffer.len() / 4 - 1 && self.byte_index == 11
+        self.packet_index >= self.buffer.len() / 4
     }
     fn advance(&mut self) {
         self.byte_index += 1;
@@ -170,7 +172,7 @@ impl<'a, B: Ump> Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: flex_data::message_slice(buffer.buffer()),
             packet_index: 0,
             byte_index: 0,
         }
-- 
2.43.0


From 5c2ac9f1ffab179b432db81be35f3dd43b3fc5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:30 +0000
Subject: [PATCH 04/33] fix: ump stream messages are validated and read from
 their own packets only

---
 midi2/src/ump_stream.rs                     | 27 +++++++++++++++++----
 midi2/src/ump_stream/function_block_name.rs |  5 ++--
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 8123312..ecebb55 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -123,9 +123,8 @@ impl<const STATUS: u16, B: Ump> property::Property<B> for StatusProperty<STATUS>
 impl<'a, const STATUS: u16, B: Ump> property::ReadProperty<'a, B> for StatusProperty<STATUS> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
-            .chunks_exact(4)
+        if message_slice(buffer.buffer())
+            .chunks(4)
             .all(|packet| status_from_buffer(packet) == STATUS)
         {
             Ok(())
@@ -271,7 +270,13 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 14, Some(self.buffer.len() * 14))
+        // zero bytes are skipped, any number of the remaining bytes could be zero
+        let packet_capacity = 14 - self.offset;
+        let capacity = self.buffer.len() / 4 * packet_capacity;
+        (
+            0,
+            Some(capacity - self.packet_index * packet_capacity - self.byte_index),
+        )
     }
 }
 
@@ -306,7 +311,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: message_slice(buffer.buffer()),
             packet_index: 0,
             byte_index: 0,
             offset: 0,
@@ -430,6 +435,18 @@ fn message_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
         + 4
 }
 
+// the leading packets of the buffer, up to and including
+// the first one which completes a message
+fn message_slice(buffer: &[u32]) -> &[u32] {
+    use crate::detail::BitOps;
+
+    let size = buffer
+        .chunks(4)
+        .position(|p| matches!(u8::from(p[0].crumb(2)), COMPLETE_FORMAT | END_FORMAT))
+        .map_or(buffer.len(), |index| buffer.len().min((index + 1) * 4));
+    &buffer[..size]
+}
+
 fn status_from_buffer(buffer: &[u32]) -> u16 {
     ((buffer[0] & 0x03FF_0000) >> 16) as u16
 }
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 04f0d4b..83a1bac 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -47,8 +47,7 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for FunctionBlockProperty {
         use crate::detail::BitOps;
 
         let function_block = buffer.buffer()[0].octet(2);
-        if !buffer
-            .buffer()
+        if !ump_stream::message_slice(buffer.buffer())
             .chunks_exact(4)
             .all(|packet| packet[0].octet(2) == function_block)
         {
@@ -89,7 +88,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         ump_stream::TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: ump_stream::message_slice(buffer.buffer()),
             packet_index: 0,
             byte_index: 0,
             offset: 1,
-- 
2.43.0


From 2468c10c3be637767b583a4d27f6534c7e0ece4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:41 +0000
Subject: [PATCH 05/33] fix: FunctionBlockDiscovery can be constructed in a one
 word buffer

---
 midi2/src/ump_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index ecebb55..9c91ea2 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -139,7 +139,7 @@ impl<const STATUS: u16, B: Ump + BufferMut> property::WriteProperty<B> for Statu
         Ok(())
     }
     fn write(buffer: &mut B, _v: Self::Type) {
-        for packet in buffer.buffer_mut().chunks_exact_mut(4) {
+        for packet in buffer.buffer_mut().chunks_mut(4) {
             packet[0] &= !0x03FF_0000;
             packet[0] |= (STATUS as u32) << 16;
         }
@@ -350,7 +350,7 @@ fn set_format_fields(buffer: &mut [u32]) {
     use crate::ux::u2;
 
     let mut packets = buffer
-        .chunks_exact_mut(4)
+        .chunks_mut(4)
         .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
         .peekable();
 
-- 
2.43.0


From ece3a2aed2478bc1a63080f6356a79f7d7782b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:16 +0000
Subject: [PATCH 06/33] fix: FunctionBlockName keeps its block number in every
 packet when the name grows

---
 midi2/src/ump_stream.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 9c91ea2..49f3f16 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -229,7 +229,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.resize(buffer_size);
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
     }
 
@@ -241,7 +241,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.try_resize(buffer_size)?;
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
 
         Ok(())
@@ -403,16 +403,21 @@ fn required_buffer_size_for_str<const OFFSET: usize>(s: &str) -> usize {
     }
 }
 
-fn write_message_header_data(buffer: &mut [u32], size: usize) {
+fn write_message_header_data<const OFFSET: usize>(buffer: &mut [u32], size: usize) {
     use crate::detail::BitOps;
     use crate::ux::u4;
 
     let status = status_from_buffer(buffer);
+    // the byte ahead of the text, which is common to all packets
+    let prefix = buffer[0].octet(2);
 
     for packet in buffer[..size].chunks_exact_mut(4) {
         packet[0].set_nibble(0, u4::new(UMP_MESSAGE_TYPE));
         packet[0] &= !0x03FF_0000;
         packet[0] |= (status as u32) << 16;
+        if OFFSET == 1 {
+            packet[0].set_octet(2, prefix);
+        }
     }
 
     for packet in buffer[size..].chunks_exact_mut(4) {
-- 
2.43.0


From 5204b9de13aaeb2b9ff39c0d36c043b1dd208a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:28 +0000
Subject: [PATCH 07/33] fix: reject multi packet messages whose last packet is
 cut short

---
 midi2/src/detail/helpers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 148bfb1..1114f63 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -78,6 +78,11 @@ pub fn validate_sysex_group_statuses<
     }
 
     while let Some(chunk) = iter.next() {
+        if chunk.len() < stride {
+            return Err(InvalidData(
+                crate::detail::common_err_strings::ERR_SLICE_TOO_SHORT,
+            ));
+        }
         if iter.peek().is_some() && !is_continue(chunk) {
             return Err(InvalidData(ERR_SYSEX_EXPECTED_CONTINUE));
         }
-- 
2.43.0


From a87b816c7156004f117c2de801b33401c8a96191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:32 +0000
Subject: [PATCH 08/33] fix: set the flex data optional channel in every packet
 of the message

---
 midi2/src/flex_data.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 157fe02..4d10b91 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -1015,9 +1015,10 @@ impl<'a, B: Ump> ReadProperty<'a, B> for OptionalChannelProperty {
 
 impl<B: Ump + BufferMut> WriteProperty<B> for OptionalChannelProperty {
     fn write(buffer: &mut B, v: Self::Type) {
-        let buffer_slice = buffer.buffer_mut();
-        let data = buffer_slice;
-        optional_channel_to_slice(data, v);
+        let size = message_slice(buffer.buffer()).len();
+        for packet in buffer.buffer_mut()[..size].chunks_exact_mut(4) {
+            optional_channel_to_slice(packet, v);
+        }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
-- 
2.43.0


From 31e9dd069a27cb3d9b32670b59193adca5be453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:03 +0000
Subject: [PATCH 09/33] fix: byte sizes of TimeCode, SongPositionPointer and
 TuneRequest

---
 midi2/src/system_common.rs                       | 2 +-
 midi2/src/system_common/song_position_pointer.rs | 2 +-
 midi2/src/system_common/time_code.rs             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/system_common.rs b/midi2/src/system_common.rs
index f3122ac..500ce5e 100644
--- a/midi2/src/system_common.rs
+++ b/midi2/src/system_common.rs
@@ -20,7 +20,7 @@ mod tune_request {
         Via(system_common::SystemCommon),
         FixedSize,
         MinSizeUmp(1),
-        MinSizeBytes(2)
+        MinSizeBytes(1)
     )]
     struct TuneRequest {
         #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
diff --git a/midi2/src/system_common/song_position_pointer.rs b/midi2/src/system_common/song_position_pointer.rs
index ea23dd6..1753655 100644
--- a/midi2/src/system_common/song_position_pointer.rs
+++ b/midi2/src/system_common/song_position_pointer.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF2;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(2)
+    MinSizeBytes(3)
 )]
 struct SongPositionPointer {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
diff --git a/midi2/src/system_common/time_code.rs b/midi2/src/system_common/time_code.rs
index 97ba7cd..74ece8b 100644
--- a/midi2/src/system_common/time_code.rs
+++ b/midi2/src/system_common/time_code.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF1;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(3)
+    MinSizeBytes(2)
 )]
 struct TimeCode {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
-- 
2.43.0


From 737e710c39390d653bf9a19d4780276da46e1fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 10/33] fix: splicing into a full buffer keeps the payload
 behind the splice in place

---
 midi2/src/detail/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 1114f63..5d32e2b 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -234,7 +234,7 @@ mod detail {
                     ) {
                         // failed. we'll work with what we've got
                         running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
-                        to = splice_begin + running_data_size_estimate - splice_size;
+                        to = splice_begin + running_data_size_estimate;
                     };
                 }
 
-- 
2.43.0


From d8c9e62809fb9bbb9566d948b375f65f3510f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:32 +0000
Subject: [PATCH 11/33] fix: payload splices take iterators with unbounded
 length hints

---
 midi2/src/detail/helpers.rs | 8 ++++----
 midi2/src/sysex7.rs         | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 5d32e2b..1dfc2df 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -176,20 +176,20 @@ mod detail {
         let splice_size = splice_end - splice_begin;
 
         let mut running_data_size_estimate = match data.size_hint() {
-            (_, Some(upper)) => upper,
+            (lower, Some(upper)) if lower == upper => upper,
             // not the optimal case - could lead to additional copying
-            (lower, None) => lower,
+            (lower, _) => lower,
         };
         let mut written = 0;
         let mut additional_size_for_overflow = 1;
         let mut data = data.peekable();
 
-        if splice_end < splice_end + running_data_size_estimate - splice_size {
+        if running_data_size_estimate > splice_size {
             // we need to grow
             // initial buffer resize
             if let Err(SysexTryResizeError(sz)) = resize(
                 sysex,
-                running_data_size_estimate + initial_size - splice_size,
+                running_data_size_estimate.saturating_add(initial_size - splice_size),
             ) {
                 // failed. we'll work with what we've got
                 running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index e754d17..819c04e 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -558,7 +558,7 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
                 let old_payload_size = self.payload_size();
-                let mut buffer_sz = payload_size + 2;
+                let mut buffer_sz = payload_size.saturating_add(2);
                 let result = self.0.try_resize(buffer_sz).map_err(|_| {
                     buffer_sz = self.0.buffer().len();
                     crate::traits::SysexTryResizeError(buffer_sz.saturating_sub(2))
-- 
2.43.0


From cebb9cf1ab0a17c775ee3c52d747e9f4bfb57dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:22 +0000
Subject: [PATCH 12/33] fix: detect sysex messages with partly filled packets
 before editing them

---
 midi2/src/sysex7.rs | 8 +-------
 midi2/src/sysex8.rs | 7 +------
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 819c04e..e029a1e 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -664,13 +664,7 @@ fn is_compact<B: crate::buffer::Buffer>(sysex: &Sysex7<B>) -> bool {
         crate::buffer::UNIT_ID_U8 => true,
         crate::buffer::UNIT_ID_U32 => {
             use crate::detail::BitOps;
-            for chunk in sysex
-                .0
-                .buffer()
-                .specialise_u32()
-                .chunks_exact(4)
-                .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-            {
+            for chunk in sysex.data().specialise_u32().chunks_exact(2) {
                 let status: u8 = chunk[0].nibble(2).into();
                 let is_begin = status == 0x1;
                 let is_continue = status == 0x2;
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 0328a6a..bfeae4c 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -582,12 +582,7 @@ fn buffer_size_from_payload_size(payload_size: usize) -> usize {
 // will determine whether the payload data in the message is maximally
 // compact in the underlying buffer
 fn is_compact<B: crate::buffer::Buffer<Unit = u32>>(sysex: &Sysex8<B>) -> bool {
-    for chunk in sysex
-        .0
-        .buffer()
-        .chunks_exact(4)
-        .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-    {
+    for chunk in sysex.data().chunks_exact(4) {
         let status: u8 = chunk[0].nibble(2).into();
         let is_begin = status == 0x1;
         let is_continue = status == 0x2;
-- 
2.43.0


From 1a012f0c2c9842fa85271c00470cba1554c8e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:35 +0000
Subject: [PATCH 13/33] fix: sysex7 byte messages reject payload bytes with the
 high bit set

---
 midi2/src/sysex7.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index e029a1e..1eafe76 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -98,7 +98,9 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
             crate::buffer::UNIT_ID_U8 => buffer
                 .specialise_u8()
                 .iter()
-                .position(|b| *b == 0xF7)
+                .skip(1)
+                .find(|b| **b >= 0x80)
+                .filter(|b| **b == END_BYTE)
                 .map(|_| ())
                 .ok_or(crate::error::InvalidData(ERR_NO_END_BYTE)),
             crate::buffer::UNIT_ID_U32 => Ok(()),
-- 
2.43.0


From 0b3302ce77065aed1374ed57a1e80c5e7f30652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:49 +0000
Subject: [PATCH 14/33] fix: sysex packet sizes are validated within the
 message only

---
 midi2/src/sysex7.rs |  1 +
 midi2/src/sysex8.rs | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 1eafe76..a2f05e8 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -175,6 +175,7 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
             if buffer
                 .specialise_u32()
                 .chunks_exact(2)
+                .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
                 .any(|p| u8::from(p[0].nibble(3)) > 6)
             {
                 Err(crate::error::InvalidData(ERR_INVALID_PACKET_SIZE))
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index bfeae4c..e9ffa27 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -66,10 +66,15 @@ impl<B: crate::buffer::Ump> crate::detail::property::Property<B> for ValidPacket
 impl<'a, B: crate::buffer::Ump> crate::detail::property::ReadProperty<'a, B> for ValidPacketSizes {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer.buffer().chunks_exact(4).any(|p| {
-            let number_bytes = u8::from(p[0].nibble(3));
-            !(1..=14).contains(&number_bytes)
-        }) {
+        if buffer
+            .buffer()
+            .chunks_exact(4)
+            .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
+            .any(|p| {
+                let number_bytes = u8::from(p[0].nibble(3));
+                !(1..=14).contains(&number_bytes)
+            })
+        {
             Err(crate::error::InvalidData(
                 ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
             ))
-- 
2.43.0


From a3820a337dfaf6b4a9b19af49f0c5a7f24bed92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 15/33] fix: sysex payload iterators stop at the end of their
 message

---
 midi2/src/sysex7.rs | 8 ++++----
 midi2/src/sysex8.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index a2f05e8..e206d03 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -439,7 +439,7 @@ impl<B: crate::buffer::Buffer> Sysex<B> for Sysex7<B> {
                     .map(PayloadIterator::<B::Unit>::packet_size)
                     .sum::<usize>();
                 PayloadIterator {
-                    data: self.0.buffer(),
+                    data: self.data(),
                     payload_index: 0,
                     packet_index: 0,
                     size_cache,
@@ -887,7 +887,7 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
         match U::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
-                self.payload_index += n;
+                self.payload_index = self.payload_index.saturating_add(n);
                 self.next()
             }
             crate::buffer::UNIT_ID_U32 => {
@@ -950,7 +950,7 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.size_cache, Some(self.size_cache))
+        (self.len(), Some(self.len()))
     }
 }
 
@@ -1005,7 +1005,7 @@ impl<U: crate::buffer::Unit> core::iter::FusedIterator for PayloadIterator<'_, U
 impl<U: crate::buffer::Unit> core::iter::ExactSizeIterator for PayloadIterator<'_, U> {
     fn len(&self) -> usize {
         match U::UNIT_ID {
-            crate::buffer::UNIT_ID_U8 => self.data[self.payload_index..].len(),
+            crate::buffer::UNIT_ID_U8 => self.data.len().saturating_sub(self.payload_index),
             crate::buffer::UNIT_ID_U32 => self.size_cache,
             _ => unreachable!(),
         }
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index e9ffa27..f140ad1 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -281,7 +281,7 @@ impl core::iter::Iterator for PayloadIterator<'_> {
         if ret.is_none() {
             // if we failed it means we ran out of data
             // so we set the iterator into finished state
-            self.packet_index = self.data.len() / 2;
+            self.packet_index = self.data.len() / 4;
             self.size_cache = 0;
         }
         ret
@@ -344,7 +344,7 @@ impl<B: crate::buffer::Ump> Sysex<B> for Sysex8<B> {
         <B as crate::buffer::Buffer>::Unit: 'a,
     {
         PayloadIterator {
-            data: self.0.buffer(),
+            data: self.data(),
             packet_index: 0,
             payload_index: 0,
             size_cache: self
-- 
2.43.0


From c05ee7014f34a7a87db9d7578144a86e0d1efb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 16/33] fix: sysex8 stream id is written where it is read and
 to new packets

---
 midi2/src/sysex8.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index f140ad1..dc73d69 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -182,7 +182,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             .chunks_exact_mut(4)
             .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
         {
-            packet[0].set_octet(3, id);
+            packet[0].set_octet(2, id);
         }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
@@ -522,6 +522,7 @@ fn try_resize<
         .take(buffer_size / 4)
         .peekable();
     let mut group = None;
+    let mut stream_id = None;
 
     const MESSAGE_TYPE: u4 = u4::new(UMP_MESSAGE_TYPE);
     const STATUS_COMPLETE: u4 = u4::new(0x0);
@@ -533,6 +534,7 @@ fn try_resize<
     if let Some(first_packet) = iter.next() {
         first_packet[0].set_nibble(0, MESSAGE_TYPE);
         group = Some(first_packet[0].nibble(1));
+        stream_id = Some(stream_id_from_packet(first_packet));
         if iter.peek().is_some() {
             // start packet
             first_packet[0].set_nibble(2, STATUS_START);
@@ -547,6 +549,7 @@ fn try_resize<
     while let Some(chunk) = iter.next() {
         chunk[0].set_nibble(0, MESSAGE_TYPE);
         chunk[0].set_nibble(1, group.unwrap());
+        chunk[0].set_octet(2, stream_id.unwrap());
         if iter.peek().is_some() {
             // middle packet
             chunk[0].set_nibble(2, STATUS_CONTINUE);
-- 
2.43.0


From 59f632fdaca2b75f34751d07e12a3a891ddce17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:47 +0000
Subject: [PATCH 17/33] fix: growing a sysex7 byte message again after it
 shrank in a fixed buffer

---
 midi2/src/sysex7.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index e206d03..2b6bf7a 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -537,8 +537,8 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 let old_payload_size = self.payload_size();
                 self.0.resize(buffer_sz);
                 if payload_size > old_payload_size {
-                    // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                    // erase the old end byte and any stale data after it
+                    self.0.specialise_u8_mut()[old_payload_size + 1..buffer_sz].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
             }
@@ -566,9 +566,9 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                     buffer_sz = self.0.buffer().len();
                     crate::traits::SysexTryResizeError(buffer_sz.saturating_sub(2))
                 });
-                if buffer_sz > old_payload_size {
-                    // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                if buffer_sz > old_payload_size + 1 {
+                    // erase the old end byte and any stale data after it
+                    self.0.specialise_u8_mut()[old_payload_size + 1..buffer_sz].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
                 result
-- 
2.43.0


From cb82c84aa131afe2dcd1c1fe329e5e4f0c795eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:02 +0000
Subject: [PATCH 18/33] fix: no overflow computing the sysex8 buffer size

---
 midi2/src/sysex8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index dc73d69..eb38a4b 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -580,7 +580,7 @@ fn buffer_size_from_payload_size(payload_size: usize) -> usize {
         if payload_size == 0 {
             4
         } else {
-            payload_size * 4 / 13
+            payload_size / 13 * 4
         }
     } else {
         4 * (payload_size / 13 + 1)
-- 
2.43.0


From 68c3c8f6de4916136a52230f717e6e6fee7c6b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 19/33] fix: sysex packet payload iterators skip within the
 packet

---
 midi2/src/sysex7/packet.rs | 4 ++--
 midi2/src/sysex8/packet.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/midi2/src/sysex7/packet.rs b/midi2/src/sysex7/packet.rs
index 9797cd6..9bf11e4 100644
--- a/midi2/src/sysex7/packet.rs
+++ b/midi2/src/sysex7/packet.rs
@@ -94,8 +94,8 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index = (self.index + n).min(6);
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 2) / 4].septet((self.index + n + 2) % 4);
diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 21a807e..98f2afc 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -122,12 +122,12 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index += n;
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 3) / 4].octet((self.index + n + 3) % 4);
-        self.index = (self.index + n).min(13);
+        self.index += n + 1;
         Some(v)
     }
 
-- 
2.43.0


From 89b86ed455eb0c5ed7d9a15408be9c7b39a89d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:26 +0000
Subject: [PATCH 20/33] fix: sysex8 packets with an impossible byte count

---
 midi2/src/sysex8/packet.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 98f2afc..92d037c 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -31,7 +31,15 @@ impl<'a> core::convert::TryFrom<&'a [u32]> for Packet {
             ));
         }
 
-        status_from_data(data)?;
+        let status = status_from_data(data)?;
+
+        if !(1..=14).contains(&u8::from(data[0].nibble(3)))
+            && status != Status::UnexpectedEnd(PreviousDataValidity::Invalid)
+        {
+            return Err(error::InvalidData(
+                sysex8::ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
+            ));
+        }
 
         Ok(Packet({
             let mut buffer = [0x0; 4];
@@ -152,9 +160,11 @@ impl core::iter::ExactSizeIterator for PayloadIterator<'_> {
 impl PayloadIterator<'_> {
     fn packet_size(&self) -> usize {
         use crate::detail::BitOps;
-        let len = u8::from(self.data[0].nibble(3)) as usize - 1;
-        debug_assert!(len <= 13);
-        len
+        match u8::from(self.data[0].nibble(3)) {
+            len @ 1..=14 => len as usize - 1,
+            // an unexpected end packet has no payload
+            _ => 0,
+        }
     }
 }
 
-- 
2.43.0


From 9f9f3f8c92c51aaad9d89925cfdba9f54d2fbd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:36 +0000
Subject: [PATCH 21/33] fix: flex data aggregate recognises the performer, date
 and location texts

---
 midi2/src/flex_data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 4d10b91..12a14c7 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -874,11 +874,11 @@ impl<'a> TryFrom<&'a [u32]> for FlexData<&'a [u32]> {
             0x01_09 => PrimaryPerformerName(
                 primary_performer_name::PrimaryPerformerName::try_from(value)?,
             ),
-            0x01_10 => AccompanyingPerformerName(
+            0x01_0A => AccompanyingPerformerName(
                 accompanying_performer_name::AccompanyingPerformerName::try_from(value)?,
             ),
-            0x01_11 => RecordingDate(recording_date::RecordingDate::try_from(value)?),
-            0x01_12 => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
+            0x01_0B => RecordingDate(recording_date::RecordingDate::try_from(value)?),
+            0x01_0C => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
             0x02_00 => UnknownPerformanceText(
                 unknown_performance_text::UnknownPerformanceText::try_from(value)?,
             ),
-- 
2.43.0


From 7227f76e8c8dca976785fe4ca72e95868eff06c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:47 +0000
Subject: [PATCH 22/33] fix: chorus send level and the fifth effect depth
 controllers

---
 midi2/src/channel_voice2/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/midi2/src/channel_voice2/controller.rs b/midi2/src/channel_voice2/controller.rs
index bf385c5..5073580 100644
--- a/midi2/src/channel_voice2/controller.rs
+++ b/midi2/src/channel_voice2/controller.rs
@@ -118,8 +118,9 @@ pub fn to_index_and_data(c: Controller) -> (u8, u32) {
         Controller::ReverbSendLevel(data) => (91, data),
         Controller::EffectDepth { index: 2, data } => (92, data),
         Controller::EffectDepth { index: 3, data } => (93, data),
-        Controller::ChorusSendLevel(data) => (91, data),
+        Controller::ChorusSendLevel(data) => (93, data),
         Controller::EffectDepth { index: 4, data } => (94, data),
+        Controller::EffectDepth { index: 5, data } => (95, data),
         _ => unreachable!(),
     }
 }
-- 
2.43.0


From c748acf9cc6866f6c5a64df0d78895fec27b6e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 23/33] fix: a key signature of zero flats can be written

---
 midi2/src/flex_data/set_key_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/flex_data/set_key_signature.rs b/midi2/src/flex_data/set_key_signature.rs
index e45f479..e2d5990 100644
--- a/midi2/src/flex_data/set_key_signature.rs
+++ b/midi2/src/flex_data/set_key_signature.rs
@@ -76,7 +76,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             0,
             match v {
                 SharpsFlats::Sharps(v) => u4::from(v),
-                SharpsFlats::Flats(v) => u4::new((!u8::from(v) & 0b0000_1111) + 1),
+                SharpsFlats::Flats(v) => u4::new((!u8::from(v) + 1) & 0b0000_1111),
                 SharpsFlats::NonStandard => u4::new(0x8),
             },
         );
-- 
2.43.0


From a0e41cfcd6a35571f1111ff72cce2c88144aa580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:32 +0000
Subject: [PATCH 24/33] fix: CI device ids include channel sixteen

---
 midi2/src/ci/device_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/ci/device_id.rs b/midi2/src/ci/device_id.rs
index 93aac5e..394d8ec 100644
--- a/midi2/src/ci/device_id.rs
+++ b/midi2/src/ci/device_id.rs
@@ -19,7 +19,7 @@ impl DeviceId {
             Ok(DeviceId::FunctionBlock)
         } else if v == 0x7E {
             Ok(DeviceId::Group)
-        } else if v < 0x0F {
+        } else if v <= 0x0F {
             Ok(DeviceId::Channel(v.try_into().unwrap()))
         } else {
             Err(crate::error::InvalidData(
-- 
2.43.0


From 879ad001ef107b28a08749a7fd43e8bde95d89de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:11 +0000
Subject: [PATCH 25/33] fix: sysex edits which fit a limited buffer no longer
 overflow for want of a length hint

---
 midi2/src/detail/helpers.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 1dfc2df..798d5b1 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -234,6 +234,18 @@ mod detail {
                     ) {
                         // failed. we'll work with what we've got
                         running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
+                        if running_data_size_estimate <= written {
+                            // that is nothing, so perhaps we asked for too much.
+                            // try for no more than the next byte
+                            additional_size_for_overflow = 1;
+                            running_data_size_estimate =
+                                match resize(sysex, written + 1 + initial_size - splice_size) {
+                                    Ok(()) => written + 1,
+                                    Err(SysexTryResizeError(sz)) => {
+                                        sz.saturating_sub(initial_size - splice_size)
+                                    }
+                                };
+                        }
                         to = splice_begin + running_data_size_estimate;
                     };
                 }
-- 
2.43.0


From ae84b46d076ca3c4d92cbfad4e3791b63386244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:06 +0000
Subject: [PATCH 26/33] fix: sysex7 payload writes replace whole octets of a
 reused buffer

---
 midi2/src/sysex7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 2b6bf7a..5f1b15d 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -594,7 +594,7 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 let buffer_index = 2 * (payload_index / 6);
                 let byte_index = payload_index % 6;
                 self.0.specialise_u32_mut()[buffer_index + (byte_index + 2) / 4]
-                    .set_septet((byte_index + 2) % 4, datum);
+                    .set_octet((byte_index + 2) % 4, datum.into());
             }
             _ => unreachable!(),
         }
-- 
2.43.0


From 8e1a4fccdde7684a3709d2f7b7e5082c2dcef5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:37 +0000
Subject: [PATCH 27/33] fix: bank and status of UnknownMetadataText can be read
 like those of every flex data message

---
 midi2/src/flex_data/unknown_metadata_text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/midi2/src/flex_data/unknown_metadata_text.rs b/midi2/src/flex_data/unknown_metadata_text.rs
index 376a06c..972ddc8 100644
--- a/midi2/src/flex_data/unknown_metadata_text.rs
+++ b/midi2/src/flex_data/unknown_metadata_text.rs
@@ -41,6 +41,8 @@ struct UnknownMetadataText {
     text: std::string::String,
 }
 
+impl<B: crate::buffer::Ump> flex_data::FlexDataMessage<B> for UnknownMetadataText<B> {}
+
 impl<B: crate::buffer::Ump> crate::traits::Size<B> for UnknownMetadataText<B> {
     fn size(&self) -> usize {
         flex_data::flex_data_dyn_size(&self.0)
-- 
2.43.0


From 4e8b16e039458902d4a6bdadb9af7cba16ecedff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:40 +0000
Subject: [PATCH 28/33] fix: writing a key signature of zero flats no longer
 overflows

---
 midi2/src/flex_data/set_key_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/flex_data/set_key_signature.rs b/midi2/src/flex_data/set_key_signature.rs
index e2d5990..9845121 100644
--- a/midi2/src/flex_data/set_key_signature.rs
+++ b/midi2/src/flex_data/set_key_signature.rs
@@ -76,7 +76,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             0,
             match v {
                 SharpsFlats::Sharps(v) => u4::from(v),
-                SharpsFlats::Flats(v) => u4::new((!u8::from(v) + 1) & 0b0000_1111),
+                SharpsFlats::Flats(v) => u4::new(u8::from(v).wrapping_neg() & 0b0000_1111),
                 SharpsFlats::NonStandard => u4::new(0x8),
             },
         );
-- 
2.43.0


From 805194ae71905f96668321db02f4316a14ed2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:15 +0000
Subject: [PATCH 29/33] fix: CI messages which end before their last field are
 rejected

---
 midi2_proc/src/generate_ci.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/midi2_proc/src/generate_ci.rs b/midi2_proc/src/generate_ci.rs
index 3850a26..be368f0 100644
--- a/midi2_proc/src/generate_ci.rs
+++ b/midi2_proc/src/generate_ci.rs
@@ -548,6 +548,9 @@ fn try_from_slice_impl(root_ident: &syn::Ident, properties: &[Property]) -> Toke
                     return Err(crate::error::InvalidData("Incorrect CI version"));
                 }
                 let sysex7 = crate::sysex7::Sysex7::try_from(buffer)?;
+                if crate::traits::Data::data(&sysex7).len() < <Self as crate::traits::MinSize<&[u8]>>::MIN_SIZE {
+                    return Err(crate::error::InvalidData(crate::detail::common_err_strings::ERR_SLICE_TOO_SHORT));
+                }
                 let buffer = sysex7.buffer_access();
                 #validation_steps
                 Ok(#root_ident(sysex7))
-- 
2.43.0


From 36e4019a1e5d80e02a2d399769eb3e83caf678c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:33 +0000
Subject: [PATCH 30/33] fix: text messages which are not valid utf8 are
 rejected without the standard library too

---
 midi2/src/detail/helpers.rs                 | 24 +++++++++++++++++++++
 midi2/src/flex_data/text.rs                 |  4 ++--
 midi2/src/ump_stream.rs                     |  4 ++--
 midi2/src/ump_stream/function_block_name.rs |  4 ++--
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 798d5b1..35dc671 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -33,6 +33,30 @@ pub const ERR_SYSEX_EXPECTED_CONTINUE: &str = "Expected Continue packet";
 pub const ERR_SYSEX_EXPECTED_END: &str = "Expected End packet";
 pub const ERR_EMPTY_MESSAGE: &str = "The message buffer is empty";
 
+#[cfg(any(feature = "flex-data", feature = "ump-stream"))]
+pub fn validate_utf8(bytes: impl Iterator<Item = u8>) -> Result<(), crate::error::InvalidData> {
+    const ERR: crate::error::InvalidData =
+        crate::error::InvalidData("Payload bytes do not represent a valid utf string");
+    // the bytes of one character
+    let mut character = [0; 4];
+    let mut length = 0;
+    for byte in bytes {
+        character[length] = byte;
+        length += 1;
+        match core::str::from_utf8(&character[..length]) {
+            Ok(_) => length = 0,
+            // more bytes are needed to complete the character
+            Err(e) if e.error_len().is_none() => {}
+            Err(_) => return Err(ERR),
+        }
+    }
+    if length == 0 {
+        Ok(())
+    } else {
+        Err(ERR)
+    }
+}
+
 // assumes that buffer contains valid messages
 #[cfg(any(
     feature = "sysex7",
diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index 9c04fae..e070c5e 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -177,8 +177,8 @@ impl<'a, B: 'a + Ump> ReadProperty<'a, B> for TextReadBytesProperty<'a> {
             byte_index: 0,
         }
     }
-    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
-        Ok(())
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        crate::detail::helpers::validate_utf8(TextReadBytesProperty::read(buffer))
     }
 }
 
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 49f3f16..4045b7c 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -317,8 +317,8 @@ impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a
             offset: 0,
         }
     }
-    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
-        Ok(())
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        crate::detail::helpers::validate_utf8(TextReadBytesProperty::read(buffer))
     }
 }
 
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 83a1bac..0de12c8 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -94,8 +94,8 @@ impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a
             offset: 1,
         }
     }
-    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
-        Ok(())
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        crate::detail::helpers::validate_utf8(TextReadBytesProperty::read(buffer))
     }
 }
 
-- 
2.43.0


From 15f5a09211c4c208a08e42aa52414185660e68fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:28 +0000
Subject: [PATCH 31/33] fix: keep formats of stream text within the message
 when the buffer holds more

---
 midi2/src/ump_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 4045b7c..729a25f 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -230,7 +230,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
         write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
-        set_format_fields(buffer.buffer_mut());
+        set_format_fields(&mut buffer.buffer_mut()[..buffer_size]);
     }
 
     fn try_resize(buffer: &mut B, value: &Self::Type) -> Result<(), crate::error::BufferOverflow>
@@ -242,7 +242,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
         write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
-        set_format_fields(buffer.buffer_mut());
+        set_format_fields(&mut buffer.buffer_mut()[..buffer_size]);
 
         Ok(())
     }
-- 
2.43.0


From a607a8476cba3ab56e4697467141594f47ff3a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:58 +0000
Subject: [PATCH 32/33] fix: compare messages by their data and not by what
 lies behind it in the buffer

---
 midi2/src/buffer.rs                |  2 +-
 midi2_proc/src/generate_message.rs | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/midi2/src/buffer.rs b/midi2/src/buffer.rs
index cfffac5..3d5b95d 100644
--- a/midi2/src/buffer.rs
+++ b/midi2/src/buffer.rs
@@ -108,7 +108,7 @@ use crate::error::BufferOverflow;
 ///
 /// A [Buffer] with `U = u32` is a [Ump] buffer.
 #[allow(private_bounds)]
-pub trait Unit: Copy + UnitPrivate {
+pub trait Unit: Copy + Eq + UnitPrivate {
     fn zero() -> Self;
 }
 
diff --git a/midi2_proc/src/generate_message.rs b/midi2_proc/src/generate_message.rs
index 4200bfc..011111e 100644
--- a/midi2_proc/src/generate_message.rs
+++ b/midi2_proc/src/generate_message.rs
@@ -243,9 +243,19 @@ fn message(
     }
 
     quote! {
-        #[derive(PartialEq, Eq, Clone, Copy, midi2_proc::Debug)]
+        #[derive(Clone, Copy, midi2_proc::Debug)]
         #doc_attributes
         pub struct #root_ident<B: #constraint>(B);
+
+        // The backing buffer may hold more than the message,
+        // so it's the message's data which is compared.
+        impl<B: #constraint> PartialEq for #root_ident<B> {
+            fn eq(&self, other: &Self) -> bool {
+                crate::traits::Data::data(self) == crate::traits::Data::data(other)
+            }
+        }
+
+        impl<B: #constraint> Eq for #root_ident<B> {}
     }
 }
 
-- 
2.43.0


From aee184becdc597468f3d3a03398fabc4df01e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:27 +0000
Subject: [PATCH 33/33] fix: clear unused bytes of system exclusive messages
 which fit one packet

---
 midi2/src/sysex7.rs | 33 +++++++++++++++++++++++++++------
 midi2/src/sysex8.rs | 21 +++++++++++++++++++--
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 5f1b15d..6f95e34 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -542,11 +542,14 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
             }
-            crate::buffer::UNIT_ID_U32 => try_resize_ump(self, payload_size, |s, sz| {
-                s.0.resize(sz);
-                Ok(())
-            })
-            .unwrap(),
+            crate::buffer::UNIT_ID_U32 => {
+                try_resize_ump(self, payload_size, |s, sz| {
+                    s.0.resize(sz);
+                    Ok(())
+                })
+                .unwrap();
+                clear_unused_bytes_ump(self);
+            }
             _ => unreachable!(),
         }
     }
@@ -574,7 +577,9 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 result
             }
             crate::buffer::UNIT_ID_U32 => {
-                try_resize_ump(self, payload_size, |s, sz| s.0.try_resize(sz))
+                let result = try_resize_ump(self, payload_size, |s, sz| s.0.try_resize(sz));
+                clear_unused_bytes_ump(self);
+                result
             }
             _ => unreachable!(),
         }
@@ -806,6 +811,22 @@ fn try_resize_ump<
     resize_result.map_err(|_| crate::traits::SysexTryResizeError(payload_size))
 }
 
+// zero off the end of the packet of a message which fits a single one
+fn clear_unused_bytes_ump<B: crate::buffer::Buffer + crate::buffer::BufferMut>(
+    sysex: &mut Sysex7<B>,
+) {
+    let Some(first_packet) = sysex.0.specialise_u32_mut().chunks_exact_mut(2).next() else {
+        return;
+    };
+    let is_complete = u8::from(first_packet[0].nibble(2)) == 0x0;
+    if is_complete {
+        let payload_size = usize::from(u8::from(first_packet[0].nibble(3)));
+        for i in payload_size..6 {
+            first_packet[(i + 2) / 4].set_octet((i + 2) % 4, 0x0);
+        }
+    }
+}
+
 fn buffer_size_from_payload_size_ump(payload_size: usize) -> usize {
     if payload_size.is_multiple_of(6) {
         if payload_size == 0 {
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index eb38a4b..dd46c5f 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -429,7 +429,8 @@ impl<B: crate::buffer::Ump> SysexInternal<B> for Sysex8<B> {
             s.0.resize(sz);
             Ok(())
         })
-        .unwrap()
+        .unwrap();
+        clear_unused_bytes(self);
     }
 
     fn try_resize(
@@ -439,7 +440,9 @@ impl<B: crate::buffer::Ump> SysexInternal<B> for Sysex8<B> {
     where
         B: crate::buffer::BufferMut + crate::buffer::BufferTryResize,
     {
-        try_resize(self, payload_size, |s, sz| s.0.try_resize(sz))
+        let result = try_resize(self, payload_size, |s, sz| s.0.try_resize(sz));
+        clear_unused_bytes(self);
+        result
     }
 
     fn write_datum(&mut self, datum: Self::Byte, payload_index: usize)
@@ -575,6 +578,20 @@ fn try_resize<
     resize_result.map_err(|_| crate::traits::SysexTryResizeError(payload_size))
 }
 
+// zero off the end of the packet of a message which fits a single one
+fn clear_unused_bytes<B: crate::buffer::Ump + crate::buffer::BufferMut>(sysex: &mut Sysex8<B>) {
+    let Some(first_packet) = sysex.0.buffer_mut().chunks_exact_mut(4).next() else {
+        return;
+    };
+    let is_complete = u8::from(first_packet[0].nibble(2)) == 0x0;
+    if is_complete {
+        let payload_size = usize::from(u8::from(first_packet[0].nibble(3))) - 1;
+        for i in payload_size..13 {
+            first_packet[(i + 3) / 4].set_octet((i + 3) % 4, 0x0);
+        }
+    }
+}
+
 fn buffer_size_from_payload_size(payload_size: usize) -> usize {
     if payload_size.is_multiple_of(13) {
         if payload_size == 0 {
-- 
2.43.0

