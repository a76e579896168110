From 5f6b8eade8cde25472986e93a8d405fb3bfd7a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 01/30] fix: read section headers and indicators fully even if
 the reader returns short reads

---
 src/reader.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1f63572..786b550 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -227,13 +227,29 @@ macro_rules! check_size {
     }};
 }
 
+/// Reads until `buf` is filled or the end of data is reached, and returns the
+/// number of bytes read. Unlike this, a single call of [`Read::read`] can return
+/// fewer bytes than available or be interrupted.
+fn read_fully<R: Read>(reader: &mut R, buf: &mut [u8]) -> io::Result<usize> {
+    let mut size = 0;
+    while size < buf.len() {
+        match reader.read(&mut buf[size..]) {
+            Ok(0) => break,
+            Ok(n) => size += n,
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(size)
+}
+
 impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
     fn read_sect0(&mut self) -> Result<Option<(usize, Indicator)>, ParseError> {
         let mut buf = [0; 4096];
         let mut offset = 0;
 
         loop {
-            let size = self.read(&mut buf[..])?;
+            let size = read_fully(self, &mut buf[..])?;
             if size < SECT0_IS_SIZE {
                 return Ok(None);
             }
@@ -256,7 +272,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect8(&mut self) -> Result<Option<()>, ParseError> {
         let mut buf = [0; SECT8_ES_SIZE];
-        let size = self.read(&mut buf[..])?;
+        let size = read_fully(self, &mut buf[..])?;
         check_size!(size, buf.len());
 
         if buf[..] != SECT8_ES_MAGIC[..] {
@@ -268,7 +284,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect_header(&mut self) -> Result<Option<SectHeader>, ParseError> {
         let mut buf = [0; SECT_HEADER_SIZE];
-        let size = self.read(&mut buf[..])?;
+        let size = read_fully(self, &mut buf[..])?;
         check_size!(size, buf.len());
 
         let sect_size = read_as!(u32, buf, 0) as usize;
-- 
2.43.0


From b4720d7a5dab29b75ca104bff039ba53621cf45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 02/30] fix: report inconsistent message and section sizes
 instead of underflowing

---
 src/reader.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 786b550..ba7ecf1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -90,19 +90,22 @@ where
             .reader
             .read_sect0()
             .transpose()?
-            .map(|(offset, indicator)| {
-                self.whole_size += offset;
-                let offset = self.whole_size;
+            .and_then(|(offset, indicator)| {
+                let offset = self.whole_size + offset;
                 let message_size = indicator.total_length as usize;
-                self.whole_size += message_size;
-                let sect_info = SectionInfo {
+                let rest_size = message_size.checked_sub(SECT0_IS_SIZE);
+                let whole_size = offset.checked_add(message_size);
+                let (rest_size, whole_size) = rest_size.zip(whole_size).ok_or_else(|| {
+                    ParseError::ReadError(format!("invalid total length: {message_size}"))
+                })?;
+                self.rest_size = rest_size;
+                self.whole_size = whole_size;
+                Ok(SectionInfo {
                     num: 0,
                     offset,
                     size: SECT0_IS_SIZE,
                     body: Some(SectionBody::Section0(indicator)),
-                };
-                self.rest_size = message_size - SECT0_IS_SIZE;
-                sect_info
+                })
             });
         Some(result)
     }
@@ -134,6 +137,12 @@ where
         match result {
             Ok(header) => {
                 let offset = self.whole_size - self.rest_size;
+                if header.0 > self.rest_size {
+                    return Some(Err(ParseError::ReadError(format!(
+                        "section size {} exceeds the rest of the message: {}",
+                        header.0, self.rest_size
+                    ))));
+                }
                 match self.reader.read_sect_payload(&header) {
                     Ok(body) => {
                         let body = Some(body);
@@ -295,7 +304,9 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect_payload(&mut self, header: &SectHeader) -> Result<SectionBody, ParseError> {
         let (size, num) = header;
-        let body_size = size - SECT_HEADER_SIZE;
+        let body_size = size
+            .checked_sub(SECT_HEADER_SIZE)
+            .ok_or_else(|| ParseError::ReadError(format!("section size is too small: {size}")))?;
         let body = match num {
             1 => SectionBody::Section1(Identification::from_payload(
                 self.read_slice_without_offset_check(body_size)?,
@@ -335,7 +346,9 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
         let mut buf = [0; 1]; // octet 6
         self.read_exact(&mut buf[..])?;
 
-        let len_extra = body_size - buf.len();
+        let len_extra = body_size
+            .checked_sub(buf.len())
+            .ok_or_else(|| ParseError::ReadError("section 6 is too short".to_owned()))?;
         if len_extra > 0 {
             let mut buf = vec![0; len_extra];
             self.read_exact(&mut buf[..])?;
-- 
2.43.0


From e9a3e754f2c268b8eee1ba3c05a8d8b5108254c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 03/30] fix: make SubmessageIterator::nth relative to the
 current position

---
 src/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index de57476..801bdc5 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -327,12 +327,12 @@ impl<'a, R> Iterator for SubmessageIterator<'a, R> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.context.submessages.len() - self.pos;
+        let size = self.context.submessages.len().saturating_sub(self.pos);
         (size, Some(size))
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.pos = n;
+        self.pos = self.pos.saturating_add(n);
         self.next()
     }
 }
-- 
2.43.0


From ea835f8cbb3adc4c37da2d2de22584fe203f65de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 04/30] fix: count bitmap points over the whole grid, not
 within an octet

---
 src/decoder/bitmap.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/decoder/bitmap.rs b/src/decoder/bitmap.rs
index 23eeff5..b2c80b4 100644
--- a/src/decoder/bitmap.rs
+++ b/src/decoder/bitmap.rs
@@ -5,7 +5,9 @@ use crate::{decoder::DecodeError, error::GribError};
 pub(crate) struct BitmapDecodeIterator<B: Iterator, I> {
     bitmap: Peekable<B>,
     values: I,
-    len: usize,
+    // number of points which have not been output yet
+    rest: usize,
+    // position of the next point in the current octet of the bitmap
     offset: usize,
 }
 
@@ -21,7 +23,7 @@ where
         Ok(Self {
             bitmap: bitmap.peekable(),
             values,
-            len,
+            rest: len,
             offset: 0,
         })
     }
@@ -36,9 +38,10 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         let offset = self.offset;
-        if offset >= self.len {
+        if self.rest == 0 {
             return None;
         }
+        self.rest -= 1;
         let byte = if self.offset < 7 {
             self.offset += 1;
             self.bitmap.peek()?
@@ -50,13 +53,16 @@ where
         if has_zero_at_offset(byte, &offset) {
             Some(f32::NAN)
         } else {
-            self.values.next()
+            let value = self.values.next();
+            if value.is_none() {
+                self.rest = 0;
+            }
+            value
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.len - self.offset;
-        (size, Some(size))
+        (self.rest, Some(self.rest))
     }
 }
 
-- 
2.43.0


From d29d844ff831ddabd4746dc3e141cc72d2c9e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 05/30] fix: report data representations that are too short or
 too wide to decode

---
 src/decoder/complex.rs      | 11 +++++++----
 src/decoder/complex/diff.rs | 12 ++++++++----
 src/decoder/jpeg2000.rs     |  2 +-
 src/decoder/param.rs        | 22 +++++++++++++++++++---
 src/decoder/png.rs          |  2 +-
 src/decoder/run_length.rs   |  7 +++++++
 src/decoder/simple.rs       |  2 +-
 7 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 34d09eb..7921d1b 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -34,8 +34,8 @@ pub(crate) fn decode_7_2(
     GribError,
 > {
     let sect5_data = &target.sect5_payload;
-    let simple_param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
-    let complex_param = ComplexPackingParam::from_buf(&sect5_data[16..42]);
+    let simple_param = SimplePackingParam::from_buf(sect5_data.get(6..).unwrap_or_default())?;
+    let complex_param = ComplexPackingParam::from_buf(sect5_data.get(16..).unwrap_or_default())?;
 
     if complex_param.group_splitting_method_used != 1
         || complex_param.missing_value_management_used > 2
@@ -60,8 +60,11 @@ pub(crate) fn decode_7_3(
     GribError,
 > {
     let sect5_data = &target.sect5_payload;
-    let simple_param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
-    let complex_param = ComplexPackingParam::from_buf(&sect5_data[16..42]);
+    let simple_param = SimplePackingParam::from_buf(sect5_data.get(6..).unwrap_or_default())?;
+    let complex_param = ComplexPackingParam::from_buf(sect5_data.get(16..).unwrap_or_default())?;
+    if sect5_data.len() < 44 {
+        return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+    }
     let spdiff_order = read_as!(u8, sect5_data, 42);
     let spdiff_order = Table5_6::try_from(spdiff_order).map_err(|e| {
         let number = e.number;
diff --git a/src/decoder/complex/diff.rs b/src/decoder/complex/diff.rs
index b7c94c3..7f90c6a 100644
--- a/src/decoder/complex/diff.rs
+++ b/src/decoder/complex/diff.rs
@@ -23,10 +23,14 @@ impl<'a> SpatialDifferencingExtraDescriptors<'a> {
         let num_octets = usize::from(num_octets);
         let byte_length = usize::from(spdiff_order + 1) * num_octets;
 
-        Ok(Self {
-            slice: &parent_slice[..byte_length],
-            num_octets,
-        })
+        let slice =
+            parent_slice
+                .get(..byte_length)
+                .ok_or(DecodeError::ComplexPackingDecodeError(
+                    ComplexPackingDecodeError::LengthMismatch,
+                ))?;
+
+        Ok(Self { slice, num_octets })
     }
 
     // total number of octets for descriptors
diff --git a/src/decoder/jpeg2000.rs b/src/decoder/jpeg2000.rs
index e6c1cf6..e702cd9 100644
--- a/src/decoder/jpeg2000.rs
+++ b/src/decoder/jpeg2000.rs
@@ -24,7 +24,7 @@ pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<SimplePackingDecodeIteratorWrapper<impl Iterator<Item = i32>>, GribError> {
     let sect5_data = &target.sect5_payload;
-    let simple_param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
+    let simple_param = SimplePackingParam::from_buf(sect5_data.get(6..).unwrap_or_default())?;
 
     if simple_param.nbit == 0 {
         eprintln!(
diff --git a/src/decoder/param.rs b/src/decoder/param.rs
index 1b46493..8d7fe8b 100644
--- a/src/decoder/param.rs
+++ b/src/decoder/param.rs
@@ -1,4 +1,5 @@
 use crate::{
+    decoder::DecodeError,
     helpers::{read_as, GribInt},
     GribError,
 };
@@ -12,6 +13,9 @@ pub(crate) struct SimplePackingParam {
 
 impl SimplePackingParam {
     pub(crate) fn from_buf(buf: &[u8]) -> Result<Self, GribError> {
+        if buf.len() < 10 {
+            return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+        }
         let ref_val = read_as!(f32, buf, 0);
         let exp = read_as!(u16, buf, 4).as_grib_int();
         let dig = read_as!(u16, buf, 6).as_grib_int();
@@ -26,6 +30,15 @@ impl SimplePackingParam {
             ));
         }
 
+        // Packed values are handled as 32-bit integers.
+        if nbit > 32 {
+            return Err(GribError::DecodeError(
+                crate::DecodeError::SimplePackingDecodeError(
+                    super::simple::SimplePackingDecodeError::NotSupported,
+                ),
+            ));
+        }
+
         Ok(Self {
             ref_val,
             exp,
@@ -52,7 +65,10 @@ pub(crate) struct ComplexPackingParam {
 }
 
 impl ComplexPackingParam {
-    pub(crate) fn from_buf(buf: &[u8]) -> Self {
+    pub(crate) fn from_buf(buf: &[u8]) -> Result<Self, GribError> {
+        if buf.len() < 26 {
+            return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+        }
         let group_splitting_method_used = read_as!(u8, buf, 0);
         let missing_value_management_used = read_as!(u8, buf, 1);
         let ngroup = read_as!(u32, buf, 10);
@@ -62,7 +78,7 @@ impl ComplexPackingParam {
         let group_len_inc = read_as!(u8, buf, 20);
         let group_len_last = read_as!(u32, buf, 21);
         let group_len_nbit = read_as!(u8, buf, 25);
-        Self {
+        Ok(Self {
             group_splitting_method_used,
             missing_value_management_used,
             ngroup,
@@ -72,6 +88,6 @@ impl ComplexPackingParam {
             group_len_inc,
             group_len_last,
             group_len_nbit,
-        }
+        })
     }
 }
diff --git a/src/decoder/png.rs b/src/decoder/png.rs
index 3ed7a36..d61808d 100644
--- a/src/decoder/png.rs
+++ b/src/decoder/png.rs
@@ -17,7 +17,7 @@ pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<SimplePackingDecodeIteratorWrapper<impl Iterator<Item = u32> + '_>, GribError> {
     let sect5_data = &target.sect5_payload;
-    let param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
+    let param = SimplePackingParam::from_buf(sect5_data.get(6..).unwrap_or_default())?;
 
     let buf = read_image_buffer(&target.sect7_payload).map_err(|e| {
         GribError::DecodeError(DecodeError::PngDecodeError(PngDecodeError::PngError(
diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index 33888c1..af41270 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -16,6 +16,9 @@ pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<std::vec::IntoIter<f32>, GribError> {
     let sect5_data = &target.sect5_payload;
+    if sect5_data.len() < 12 {
+        return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+    }
     let nbit = read_as!(u8, sect5_data, 6);
     let maxv = read_as!(u16, sect5_data, 7);
     let max_level = read_as!(u16, sect5_data, 9);
@@ -25,6 +28,10 @@ pub(crate) fn decode(
     level_map.push(f32::NAN);
     let mut pos = 12;
 
+    if sect5_data.len() < pos + usize::from(max_level) * std::mem::size_of::<u16>() {
+        return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+    }
+
     for _ in 0..max_level {
         let val: f32 = read_as!(u16, sect5_data, pos).into();
         let num_digits: i32 = num_digits.into();
diff --git a/src/decoder/simple.rs b/src/decoder/simple.rs
index b7aeecc..661e638 100644
--- a/src/decoder/simple.rs
+++ b/src/decoder/simple.rs
@@ -49,7 +49,7 @@ pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<SimplePackingDecodeIteratorWrapper<impl Iterator<Item = u32> + '_>, GribError> {
     let sect5_data = &target.sect5_payload;
-    let param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
+    let param = SimplePackingParam::from_buf(sect5_data.get(6..).unwrap_or_default())?;
 
     let decoder = if param.nbit == 0 {
         SimplePackingDecodeIteratorWrapper::FixedValue(FixedValueIterator::new(
-- 
2.43.0


From c8b1bc8edfe03101e671858cddf5189da6d9b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 06/30] fix: decode complex packing in 64 bits and check the
 sizes of its group tables

---
 src/decoder.rs              |   4 +
 src/decoder/complex.rs      | 145 ++++++++++++++++++++++++------------
 src/decoder/complex/diff.rs |  65 +++++++++-------
 3 files changed, 139 insertions(+), 75 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 5ece124..927f89f 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -120,6 +120,10 @@ impl Grib2SubmessageDecoder {
         ))
     }
 
+    pub(crate) fn num_points_total(&self) -> usize {
+        self.num_points_total
+    }
+
     /// Dispatches a decoding process and gets an iterator of decoded values.
     pub fn dispatch(
         &self,
diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 7921d1b..77d67bc 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -18,7 +18,7 @@ use crate::{
         DecodeError, Grib2SubmessageDecoder,
     },
     error::*,
-    helpers::{read_as, GribInt},
+    helpers::read_as,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -30,7 +30,7 @@ pub enum ComplexPackingDecodeError {
 pub(crate) fn decode_7_2(
     target: &Grib2SubmessageDecoder,
 ) -> Result<
-    SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i32>> + '_>,
+    SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i64>> + '_>,
     GribError,
 > {
     let sect5_data = &target.sect5_payload;
@@ -47,7 +47,14 @@ pub(crate) fn decode_7_2(
 
     let sect7_data = &target.sect7_payload;
 
-    let unpacked_data = decode_complex_packing(complex_param, sect7_data, 0, simple_param.nbit, 0);
+    let unpacked_data = decode_complex_packing(
+        complex_param,
+        sect7_data,
+        0,
+        simple_param.nbit,
+        0,
+        target.num_points_total(),
+    )?;
     let decoder = SimplePackingDecodeIterator::new(unpacked_data, &simple_param);
     let decoder = SimplePackingDecodeIteratorWrapper::SimplePacking(decoder);
     Ok(decoder)
@@ -56,7 +63,7 @@ pub(crate) fn decode_7_2(
 pub(crate) fn decode_7_3(
     target: &Grib2SubmessageDecoder,
 ) -> Result<
-    SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i32>> + '_>,
+    SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i64>> + '_>,
     GribError,
 > {
     let sect5_data = &target.sect5_payload;
@@ -93,9 +100,10 @@ pub(crate) fn decode_7_3(
         sect7_data,
         sect7_params.len(),
         simple_param.nbit,
-        sect7_params.minimum(),
-    );
-    let first_values = sect7_params.first_values();
+        i64::from(sect7_params.minimum()),
+        target.num_points_total(),
+    )?;
+    let first_values = sect7_params.first_values().map(i64::from);
     let first_values = first_values.collect::<Vec<_>>().into_iter();
     let spdiff_unpacked = match spdiff_order {
         Table5_6::FirstOrderSpatialDifferencing => SpatialDifferencingDecodeIterator::FirstOrder(
@@ -116,57 +124,80 @@ fn decode_complex_packing(
     sect7_data: &[u8],
     sect7_offset: usize,
     nbit: u8,
-    z_min: i32,
-) -> impl Iterator<Item = DecodedValue<i32>> + '_ {
-    fn get_octet_length(nbit: u8, ngroup: u32) -> usize {
-        let total_bit: u32 = ngroup * u32::from(nbit);
-        let total_octet = (total_bit + 0b111) >> 3;
-        total_octet as usize
+    z_min: i64,
+    num_points: usize,
+) -> Result<impl Iterator<Item = DecodedValue<i64>> + '_, GribError> {
+    fn get_octet_length(nbit: u8, ngroup: usize) -> usize {
+        (ngroup * usize::from(nbit)).div_ceil(8)
+    }
+
+    let not_supported =
+        DecodeError::ComplexPackingDecodeError(ComplexPackingDecodeError::NotSupported);
+    let length_mismatch =
+        DecodeError::ComplexPackingDecodeError(ComplexPackingDecodeError::LengthMismatch);
+
+    let ngroup = complex_param.ngroup as usize;
+    if ngroup > num_points {
+        return Err(length_mismatch.into());
+    }
+    // Packed values are handled as 32-bit integers.
+    if complex_param.group_width_nbit > 32 || complex_param.group_len_nbit > 32 {
+        return Err(not_supported.into());
     }
 
     let params_end_octet = sect7_offset;
-    let group_refs_end_octet = params_end_octet + get_octet_length(nbit, complex_param.ngroup);
-    let group_widths_end_octet = group_refs_end_octet
-        + get_octet_length(complex_param.group_width_nbit, complex_param.ngroup);
-    let group_lens_end_octet = group_widths_end_octet
-        + get_octet_length(complex_param.group_len_nbit, complex_param.ngroup);
+    let group_refs_end_octet = params_end_octet + get_octet_length(nbit, ngroup);
+    let group_widths_end_octet =
+        group_refs_end_octet + get_octet_length(complex_param.group_width_nbit, ngroup);
+    let group_lens_end_octet =
+        group_widths_end_octet + get_octet_length(complex_param.group_len_nbit, ngroup);
+    if group_lens_end_octet > sect7_data.len() {
+        return Err(length_mismatch.into());
+    }
 
     let group_refs_iter = BitStream::new(
         &sect7_data[params_end_octet..group_refs_end_octet],
         usize::from(nbit),
-        complex_param.ngroup as usize,
+        ngroup,
     );
-    let group_refs_iter = group_refs_iter.take(complex_param.ngroup as usize);
+    let group_refs_iter = group_refs_iter.take(ngroup);
 
-    let group_widths_iter = BitStream::new(
-        &sect7_data[group_refs_end_octet..group_widths_end_octet],
-        usize::from(complex_param.group_width_nbit),
-        complex_param.ngroup as usize,
-    );
-    let group_widths_iter = group_widths_iter
-        .take(complex_param.ngroup as usize)
-        .map(move |v| u32::from(complex_param.group_width_ref) + v);
+    let group_widths_iter = || {
+        BitStream::new(
+            &sect7_data[group_refs_end_octet..group_widths_end_octet],
+            usize::from(complex_param.group_width_nbit),
+            ngroup,
+        )
+        .take(ngroup)
+        .map(move |v| u64::from(complex_param.group_width_ref) + u64::from(v))
+    };
+    if group_widths_iter().any(|width| width > 32) {
+        return Err(not_supported.into());
+    }
 
     let group_lens_iter = BitStream::new(
         &sect7_data[group_widths_end_octet..group_lens_end_octet],
         usize::from(complex_param.group_len_nbit),
-        (complex_param.ngroup - 1) as usize,
+        ngroup.saturating_sub(1),
     );
     let group_lens_iter = group_lens_iter
-        .take((complex_param.ngroup - 1) as usize)
-        .map(move |v| complex_param.group_len_ref + u32::from(complex_param.group_len_inc) * v)
-        .chain(iter::once(complex_param.group_len_last));
+        .take(ngroup.saturating_sub(1))
+        .map(move |v| {
+            u64::from(complex_param.group_len_ref)
+                + u64::from(complex_param.group_len_inc) * u64::from(v)
+        })
+        .chain(iter::once(u64::from(complex_param.group_len_last)));
 
-    ComplexPackingValueDecodeIterator::new(
+    Ok(ComplexPackingValueDecodeIterator::new(
         group_refs_iter,
-        group_widths_iter,
+        group_widths_iter(),
         group_lens_iter,
         complex_param.missing_value_management_used,
         nbit,
         z_min,
         sect7_data[group_lens_end_octet..].to_vec(),
     )
-    .flatten()
+    .flatten())
 }
 
 #[derive(Clone)]
@@ -176,7 +207,7 @@ struct ComplexPackingValueDecodeIterator<I, J, K> {
     length_iter: K,
     missing_value_management: u8,
     nbit: u8,
-    z_min: i32,
+    z_min: i64,
     data: Vec<u8>,
     pos: usize,
     start_offset_bits: usize,
@@ -189,7 +220,7 @@ impl<I, J, K> ComplexPackingValueDecodeIterator<I, J, K> {
         length_iter: K,
         missing_value_management: u8,
         nbit: u8,
-        z_min: i32,
+        z_min: i64,
         data: Vec<u8>,
     ) -> Self {
         Self {
@@ -215,7 +246,7 @@ where
     O: ToPrimitive,
     P: ToPrimitive,
 {
-    type Item = Vec<DecodedValue<i32>>;
+    type Item = GroupValues;
 
     fn next(&mut self) -> Option<Self::Item> {
         match (
@@ -226,22 +257,23 @@ where
             (Some(_ref), Some(width), Some(length)) if width.to_usize().unwrap() == 0 => {
                 // The specification states as follows: "For groups with a constant value,
                 // associated field width is 0, and no incremental data are physically present."
-                let _ref = _ref.to_i32().unwrap();
+                let _ref = _ref.to_i64().unwrap();
                 let length = length.to_usize().unwrap();
                 let missing1 = (1 << self.nbit) - 1;
                 let missing2 = missing1 - 1;
 
-                if self.missing_value_management > 0 && _ref == missing1 {
-                    Some(vec![Missing1; length])
+                let value = if self.missing_value_management > 0 && _ref == missing1 {
+                    Missing1
                 } else if self.missing_value_management == 2 && _ref == missing2 {
-                    Some(vec![Missing2; length])
+                    Missing2
                 } else {
-                    Some(vec![Normal(_ref + self.z_min); length])
-                }
+                    Normal(_ref + self.z_min)
+                };
+                Some(GroupValues::Constant(iter::repeat(value).take(length)))
             }
             (Some(_ref), Some(width), Some(length)) => {
                 let (_ref, width, length) = (
-                    _ref.to_i32().unwrap(),
+                    _ref.to_i64().unwrap(),
                     width.to_usize().unwrap(),
                     length.to_usize().unwrap(),
                 );
@@ -251,27 +283,44 @@ where
                 let missing1 = (1 << width) - 1;
                 let missing2 = missing1 - 1;
                 let group_values =
-                    NBitwiseIterator::new(&self.data[self.pos..pos_end + offset_byte], width)
+                    NBitwiseIterator::new(self.data.get(self.pos..pos_end + offset_byte)?, width)
                         .with_offset(self.start_offset_bits)
                         .take(length)
                         .map(|v| {
+                            let v = i64::from(v);
                             if self.missing_value_management > 0 && v == missing1 {
                                 Missing1
                             } else if self.missing_value_management == 2 && v == missing2 {
                                 Missing2
                             } else {
-                                Normal(v.as_grib_int() + _ref + self.z_min)
+                                Normal(v + _ref + self.z_min)
                             }
                         })
                         .collect::<Vec<_>>();
                 self.pos = pos_end;
                 self.start_offset_bits = offset_bits;
-                Some(group_values)
+                Some(GroupValues::Packed(group_values.into_iter()))
             }
             _ => None,
         }
     }
 }
 
+enum GroupValues {
+    Constant(iter::Take<iter::Repeat<DecodedValue<i64>>>),
+    Packed(std::vec::IntoIter<DecodedValue<i64>>),
+}
+
+impl Iterator for GroupValues {
+    type Item = DecodedValue<i64>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        match self {
+            Self::Constant(inner) => inner.next(),
+            Self::Packed(inner) => inner.next(),
+        }
+    }
+}
+
 mod diff;
 mod missing;
diff --git a/src/decoder/complex/diff.rs b/src/decoder/complex/diff.rs
index 7f90c6a..921439c 100644
--- a/src/decoder/complex/diff.rs
+++ b/src/decoder/complex/diff.rs
@@ -1,3 +1,8 @@
+use num::{
+    traits::{WrappingAdd, WrappingSub},
+    ToPrimitive, Zero,
+};
+
 use super::{
     missing::DecodedValue::{self, Normal},
     ComplexPackingDecodeError,
@@ -83,17 +88,18 @@ impl Iterator for FirstValues<'_, '_> {
     }
 }
 
-pub(crate) enum SpatialDifferencingDecodeIterator<I, J> {
-    FirstOrder(FirstOrderSpatialDifferencingDecodeIterator<I, J>),
-    SecondOrder(SecondOrderSpatialDifferencingDecodeIterator<I, J>),
+pub(crate) enum SpatialDifferencingDecodeIterator<I, J, N> {
+    FirstOrder(FirstOrderSpatialDifferencingDecodeIterator<I, J, N>),
+    SecondOrder(SecondOrderSpatialDifferencingDecodeIterator<I, J, N>),
 }
 
-impl<I, J> Iterator for SpatialDifferencingDecodeIterator<I, J>
+impl<I, J, N> Iterator for SpatialDifferencingDecodeIterator<I, J, N>
 where
-    I: Iterator<Item = DecodedValue<i32>>,
-    J: Iterator<Item = i32>,
+    I: Iterator<Item = DecodedValue<N>>,
+    J: Iterator<Item = N>,
+    N: ToPrimitive + Copy + WrappingAdd + WrappingSub,
 {
-    type Item = DecodedValue<i32>;
+    type Item = DecodedValue<N>;
 
     fn next(&mut self) -> Option<Self::Item> {
         match self {
@@ -103,30 +109,31 @@ where
     }
 }
 
-pub(crate) struct FirstOrderSpatialDifferencingDecodeIterator<I, J> {
+pub(crate) struct FirstOrderSpatialDifferencingDecodeIterator<I, J, N> {
     iter: I,
     first_values: J,
     count: u32,
-    prev: i32,
+    prev: N,
 }
 
-impl<I, J> FirstOrderSpatialDifferencingDecodeIterator<I, J> {
+impl<I, J, N: Zero> FirstOrderSpatialDifferencingDecodeIterator<I, J, N> {
     pub(crate) fn new(iter: I, first_values: J) -> Self {
         Self {
             iter,
             first_values,
             count: 0,
-            prev: 0,
+            prev: N::zero(),
         }
     }
 }
 
-impl<I, J> Iterator for FirstOrderSpatialDifferencingDecodeIterator<I, J>
+impl<I, J, N> Iterator for FirstOrderSpatialDifferencingDecodeIterator<I, J, N>
 where
-    I: Iterator<Item = DecodedValue<i32>>,
-    J: Iterator<Item = i32>,
+    I: Iterator<Item = DecodedValue<N>>,
+    J: Iterator<Item = N>,
+    N: ToPrimitive + Copy + WrappingAdd + WrappingSub,
 {
-    type Item = DecodedValue<i32>;
+    type Item = DecodedValue<N>;
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
@@ -138,7 +145,7 @@ where
                     Some(Normal(self.prev))
                 }
                 _ => {
-                    let v = v + self.prev;
+                    let v = v.wrapping_add(&self.prev);
                     self.prev = v;
                     Some(Normal(v))
                 }
@@ -148,32 +155,33 @@ where
     }
 }
 
-pub(crate) struct SecondOrderSpatialDifferencingDecodeIterator<I, J> {
+pub(crate) struct SecondOrderSpatialDifferencingDecodeIterator<I, J, N> {
     iter: I,
     first_values: J,
     count: u32,
-    prev1: i32,
-    prev2: i32,
+    prev1: N,
+    prev2: N,
 }
 
-impl<I, J> SecondOrderSpatialDifferencingDecodeIterator<I, J> {
+impl<I, J, N: Zero> SecondOrderSpatialDifferencingDecodeIterator<I, J, N> {
     pub(crate) fn new(iter: I, first_values: J) -> Self {
         Self {
             iter,
             first_values,
             count: 0,
-            prev1: 0,
-            prev2: 0,
+            prev1: N::zero(),
+            prev2: N::zero(),
         }
     }
 }
 
-impl<I, J> Iterator for SecondOrderSpatialDifferencingDecodeIterator<I, J>
+impl<I, J, N> Iterator for SecondOrderSpatialDifferencingDecodeIterator<I, J, N>
 where
-    I: Iterator<Item = DecodedValue<i32>>,
-    J: Iterator<Item = i32>,
+    I: Iterator<Item = DecodedValue<N>>,
+    J: Iterator<Item = N>,
+    N: ToPrimitive + Copy + WrappingAdd + WrappingSub,
 {
-    type Item = DecodedValue<i32>;
+    type Item = DecodedValue<N>;
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
@@ -190,7 +198,10 @@ where
                     Some(Normal(self.prev1))
                 }
                 _ => {
-                    let v = v + 2 * self.prev1 - self.prev2;
+                    let v = v
+                        .wrapping_add(&self.prev1)
+                        .wrapping_add(&self.prev1)
+                        .wrapping_sub(&self.prev2);
                     self.prev2 = self.prev1;
                     self.prev1 = v;
                     Some(Normal(v))
-- 
2.43.0


From 130e1f716c976ca69bebcc49197b15decdfdb171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 07/30] fix: validate run-length parameters, read the decimal
 factor as signed and ignore padding bits

---
 src/decoder/run_length.rs | 44 ++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index af41270..b4ed503 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -1,7 +1,7 @@
 use crate::{
     decoder::{stream::NBitwiseIterator, DecodeError, Grib2SubmessageDecoder},
     error::*,
-    helpers::read_as,
+    helpers::{read_as, GribInt},
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -22,9 +22,9 @@ pub(crate) fn decode(
     let nbit = read_as!(u8, sect5_data, 6);
     let maxv = read_as!(u16, sect5_data, 7);
     let max_level = read_as!(u16, sect5_data, 9);
-    let num_digits = read_as!(u8, sect5_data, 11);
+    let num_digits = read_as!(u8, sect5_data, 11).as_grib_int();
 
-    let mut level_map = Vec::with_capacity(max_level.into());
+    let mut level_map = Vec::with_capacity(usize::from(max_level) + 1);
     level_map.push(f32::NAN);
     let mut pos = 12;
 
@@ -70,29 +70,39 @@ fn rleunpack(
     maxv: u16,
     expected_len: Option<usize>,
 ) -> Result<Box<[u16]>, RunLengthEncodingDecodeError> {
-    let mut out_buf = match expected_len {
-        Some(sz) => Vec::with_capacity(sz),
-        None => Vec::new(),
-    };
+    if nbit == 0 || nbit > 16 {
+        return Err(RunLengthEncodingDecodeError::NotSupported);
+    }
+
+    let mut out_buf = Vec::new();
 
-    let rlbase = maxv + 1;
-    let lngu: usize = ((1u16 << nbit) - rlbase).into();
+    let rlbase = u32::from(maxv) + 1;
+    let lngu = (1u32 << nbit).saturating_sub(rlbase) as usize;
     let mut cached = None;
     let mut exp: usize = 1;
     let iter = NBitwiseIterator::new(input, usize::from(nbit));
 
-    for value in iter {
-        let value = value as u16;
-        if rlbase > value {
-            out_buf.push(value);
-            cached = Some(value);
+    for (i, value) in iter.enumerate() {
+        let rest = expected_len.map(|len| len - out_buf.len());
+        // fewer than 8 bits are left after the last point: padding of the last octet
+        if rest == Some(0) && value == 0 && input.len() * 8 - i * usize::from(nbit) < 8 {
+            break;
+        }
+
+        let (value, length) = if rlbase > value {
+            cached = Some(value as u16);
             exp = 1;
+            (value as u16, 1)
         } else {
             let prev = cached.ok_or(RunLengthEncodingDecodeError::InvalidFirstValue)?;
-            let length: usize = ((value - rlbase) as usize) * exp;
-            out_buf.append(&mut vec![prev; length]);
-            exp *= lngu;
+            let length = ((value - rlbase) as usize).saturating_mul(exp);
+            exp = exp.saturating_mul(lngu);
+            (prev, length)
+        };
+        if rest.is_some_and(|rest| length > rest) {
+            return Err(RunLengthEncodingDecodeError::LengthMismatch);
         }
+        out_buf.resize(out_buf.len() + length, value);
     }
 
     if let Some(len) = expected_len {
-- 
2.43.0


From abb905b45f5d31d77cbcde7cc0d403fcdfb79a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 08/30] fix: take PNG samples by the depth of the image and
 skip line padding

---
 src/decoder/png.rs | 54 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/decoder/png.rs b/src/decoder/png.rs
index d61808d..41264a2 100644
--- a/src/decoder/png.rs
+++ b/src/decoder/png.rs
@@ -1,3 +1,5 @@
+use png::ColorType;
+
 use crate::{
     decoder::{
         param::SimplePackingParam,
@@ -11,6 +13,13 @@ use crate::{
 pub enum PngDecodeError {
     NotSupported,
     PngError(String),
+    LengthMismatch,
+}
+
+impl From<png::DecodingError> for PngDecodeError {
+    fn from(e: png::DecodingError) -> Self {
+        Self::PngError(e.to_string())
+    }
 }
 
 pub(crate) fn decode(
@@ -19,12 +28,6 @@ pub(crate) fn decode(
     let sect5_data = &target.sect5_payload;
     let param = SimplePackingParam::from_buf(sect5_data.get(6..).unwrap_or_default())?;
 
-    let buf = read_image_buffer(&target.sect7_payload).map_err(|e| {
-        GribError::DecodeError(DecodeError::PngDecodeError(PngDecodeError::PngError(
-            e.to_string(),
-        )))
-    })?;
-
     if param.nbit == 0 {
         eprintln!(
             "WARNING: nbit = 0 for PNG decoder is not tested.
@@ -44,17 +47,50 @@ pub(crate) fn decode(
         );
     }
 
-    let iter = NBitwiseIterator::new(buf, usize::from(param.nbit));
+    let (buf, nbit) = read_image_buffer(&target.sect7_payload, target.num_points_encoded)
+        .map_err(|e| GribError::DecodeError(DecodeError::PngDecodeError(e)))?;
+
+    let iter = NBitwiseIterator::new(buf, nbit);
     let iter = SimplePackingDecodeIterator::new(iter, &param);
     let iter = SimplePackingDecodeIteratorWrapper::SimplePacking(iter);
     Ok(iter)
 }
 
-fn read_image_buffer(buf: &[u8]) -> Result<Vec<u8>, png::DecodingError> {
+// Returns pixels of the image, and the number of bits of each of them.
+fn read_image_buffer(buf: &[u8], num_points: usize) -> Result<(Vec<u8>, usize), PngDecodeError> {
     let reader = std::io::Cursor::new(&buf);
     let decoder = png::Decoder::new(reader);
     let mut reader = decoder.read_info()?;
+
+    let (color_type, bit_depth) = reader.output_color_type();
+    if !matches!(
+        color_type,
+        ColorType::Grayscale | ColorType::Rgb | ColorType::Rgba
+    ) {
+        return Err(PngDecodeError::NotSupported);
+    }
+    let nbit = color_type.samples() * bit_depth as usize;
+    if nbit > 32 {
+        return Err(PngDecodeError::NotSupported);
+    }
+
+    let width = reader.info().width as usize;
+    let height = reader.info().height as usize;
+    if width.saturating_mul(height) > num_points {
+        return Err(PngDecodeError::LengthMismatch);
+    }
+
     let mut out_buf = vec![0; reader.output_buffer_size()];
     let _info = reader.next_frame(&mut out_buf)?;
-    Ok(out_buf)
+
+    if width * nbit % 8 > 0 {
+        // Lines are padded to octets in the buffer.
+        let pixels = out_buf
+            .chunks(reader.output_line_size(width as u32))
+            .flat_map(|line| NBitwiseIterator::new(line, nbit).take(width))
+            .map(|pixel| pixel as u8)
+            .collect();
+        return Ok((pixels, 8));
+    }
+    Ok((out_buf, nbit))
 }
-- 
2.43.0


From e1fc2d7156b7c335b3a38d1ff34c65cfa5c0ee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 09/30] fix: do not read beyond the samples of a JPEG 2000
 component

---
 src/decoder/jpeg2000.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/decoder/jpeg2000.rs b/src/decoder/jpeg2000.rs
index e702cd9..b3c5789 100644
--- a/src/decoder/jpeg2000.rs
+++ b/src/decoder/jpeg2000.rs
@@ -78,9 +78,11 @@ fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeS
     let height = value_for_discard_level(height, factor);
 
     if let [comp_gray] = image.components() {
-        let vec = unsafe {
-            std::slice::from_raw_parts(comp_gray.data, (width * height) as usize).to_vec()
-        };
+        if comp_gray.data.is_null() || (comp_gray.w, comp_gray.h) != (width, height) {
+            return Err(Jpeg2000CodeStreamDecodeError::LengthMismatch);
+        }
+        let len = width as usize * height as usize;
+        let vec = unsafe { std::slice::from_raw_parts(comp_gray.data, len).to_vec() };
         Ok(vec.into_iter())
     } else {
         Err(Jpeg2000CodeStreamDecodeError::NotSupported)
-- 
2.43.0


From e8f1099d3bebb291e6a277eca0eceef989063fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 10/30] fix: return None for product definitions too short to
 hold the requested field

---
 src/datatypes/sections.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index 242550d..51bfecc 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -437,7 +437,8 @@ impl ProdDefinition {
             let unit = self.payload.get(unit_index).copied();
             let start = unit_index + 1;
             let end = unit_index + 5;
-            let time = u32::from_be_bytes(self.payload[start..end].try_into().unwrap());
+            let time = self.payload.get(start..end)?;
+            let time = read_as!(u32, time, 0);
             unit.map(|v| ForecastTime::from_numbers(v, time))
         } else {
             None
@@ -487,8 +488,8 @@ impl ProdDefinition {
         let scale_factor = self.payload.get(index + 1).map(|v| (*v).as_grib_int());
         let start = index + 2;
         let end = index + 6;
-        let scaled_value =
-            u32::from_be_bytes(self.payload[start..end].try_into().unwrap()).as_grib_int();
+        let scaled_value = self.payload.get(start..end)?;
+        let scaled_value = read_as!(u32, scaled_value, 0).as_grib_int();
         surface_type
             .zip(scale_factor)
             .map(|(stype, factor)| FixedSurface::new(stype, factor, scaled_value))
-- 
2.43.0


From 234a157c9b45f7565a8fc9c97426ef1e6811cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 11/30] fix: read generating process and forecast time of
 templates 4.44, 4.47, 4.83 and 4.254 from their own octets

---
 src/datatypes/sections.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index 51bfecc..a6043fd 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -374,8 +374,7 @@ impl ProdDefinition {
             let index = match self.prod_tmpl_num() {
                 0..=39 => Some(2),
                 40..=43 => Some(4),
-                44..=46 => Some(15),
-                47 => Some(2),
+                44..=47 => Some(15),
                 48..=49 => Some(26),
                 51 => Some(2),
                 // 53 and 54 is variable and not supported as of now
@@ -388,12 +387,9 @@ impl ProdDefinition {
                 70..=73 => Some(7),
                 76..=79 => Some(5),
                 80..=81 => Some(27),
-                82 => Some(16),
-                83 => Some(2),
-                84 => Some(16),
+                82..=84 => Some(16),
                 85 => Some(15),
                 86..=91 => Some(2),
-                254 => Some(2),
                 1000..=1101 => Some(2),
                 _ => None,
             }?;
@@ -437,8 +433,14 @@ impl ProdDefinition {
             let unit = self.payload.get(unit_index).copied();
             let start = unit_index + 1;
             let end = unit_index + 5;
-            let time = self.payload.get(start..end)?;
-            let time = read_as!(u32, time, 0);
+            let time = if self.prod_tmpl_num() == 44 {
+                // Template 4.44 has only 2 octets for the forecast time.
+                let time = self.payload.get(start..start + 2)?;
+                u32::from(read_as!(u16, time, 0))
+            } else {
+                let time = self.payload.get(start..end)?;
+                read_as!(u32, time, 0)
+            };
             unit.map(|v| ForecastTime::from_numbers(v, time))
         } else {
             None
-- 
2.43.0


From 5a89348e9d10cf0e05f37b74f4a963251bb1bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 12/30] fix: report grid definitions too short for their
 template

---
 src/datatypes/sections.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index a6043fd..01cec84 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -269,6 +269,7 @@ impl TryFrom<&GridDefinition> for GridDefinitionTemplateValues {
         match num {
             0 => {
                 let buf = &value.payload;
+                check_grid_template_length(buf, 67)?;
                 if buf.len() > 67 {
                     return Err(GribError::NotSupported(format!(
                         "template {num} with list of number of points"
@@ -280,18 +281,21 @@ impl TryFrom<&GridDefinition> for GridDefinitionTemplateValues {
             }
             20 => {
                 let buf = &value.payload;
+                check_grid_template_length(buf, 60)?;
                 Ok(GridDefinitionTemplateValues::Template20(
                     PolarStereographicGridDefinition::from_buf(&buf[9..]),
                 ))
             }
             30 => {
                 let buf = &value.payload;
+                check_grid_template_length(buf, 68)?;
                 Ok(GridDefinitionTemplateValues::Template30(
                     LambertGridDefinition::from_buf(&buf[9..]),
                 ))
             }
             40 => {
                 let buf = &value.payload;
+                check_grid_template_length(buf, 67)?;
                 if buf.len() > 67 {
                     return Err(GribError::NotSupported(format!(
                         "template {num} with list of number of points"
@@ -306,6 +310,16 @@ impl TryFrom<&GridDefinition> for GridDefinitionTemplateValues {
     }
 }
 
+fn check_grid_template_length(buf: &[u8], required: usize) -> Result<(), GribError> {
+    let size = buf.len();
+    if size < required {
+        return Err(GribError::InvalidValueError(format!(
+            "grid definition section is too short for the template: {size}"
+        )));
+    }
+    Ok(())
+}
+
 const START_OF_PROD_TEMPLATE: usize = 4;
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
-- 
2.43.0


From 066efa0b5a4a8f897a904cf67baabfab2c6c0e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 13/30] fix: handle grids with no points or with a single row
 or column

---
 src/grid.rs          | 2 ++
 src/grid/gaussian.rs | 6 +++---
 src/grid/helpers.rs  | 7 ++++---
 src/grid/latlon.rs   | 8 ++++----
 4 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/grid.rs b/src/grid.rs
index c77eea0..1418a54 100644
--- a/src/grid.rs
+++ b/src/grid.rs
@@ -62,6 +62,8 @@ impl GridPointIndexIterator {
         } else {
             (i_len, j_len)
         };
+        // If there are no points in a line, there are no lines to scan.
+        let major_len = if minor_len == 0 { 0 } else { major_len };
 
         Self {
             major_len,
diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index 9a439d6..493c941 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -74,7 +74,7 @@ impl GaussianGridDefinition {
         let lon = evenly_spaced_longitudes(
             self.first_point_lon,
             self.last_point_lon,
-            (self.ni - 1) as usize,
+            self.ni.saturating_sub(1) as usize,
             self.scanning_mode,
         );
 
@@ -83,8 +83,8 @@ impl GaussianGridDefinition {
     }
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
-        let lat_diff = self.last_point_lat - self.first_point_lat;
-        !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
+        let lat_diff = i64::from(self.last_point_lat) - i64::from(self.first_point_lat);
+        lat_diff == 0 || !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
     }
 
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
diff --git a/src/grid/helpers.rs b/src/grid/helpers.rs
index 1ec1d55..fd28b15 100644
--- a/src/grid/helpers.rs
+++ b/src/grid/helpers.rs
@@ -11,8 +11,8 @@ pub(crate) fn evenly_spaced_longitudes(
     div: usize,
     scanning_mode: ScanningMode,
 ) -> Vec<f32> {
-    let diff = end_microdegree - start_microdegree;
-    let is_consistent = !((diff > 0) ^ scanning_mode.scans_positively_for_i());
+    let diff = i64::from(end_microdegree) - i64::from(start_microdegree);
+    let is_consistent = diff == 0 || !((diff > 0) ^ scanning_mode.scans_positively_for_i());
 
     let (start, end) = (start_microdegree as f32, end_microdegree as f32);
     let (start, end) = if is_consistent {
@@ -39,7 +39,8 @@ pub(crate) fn evenly_spaced_degrees(
     end_microdegree: f32,
     div: usize,
 ) -> Vec<f32> {
-    let delta = (end_microdegree - start_microdegree) / div as f32;
+    // A single point has no neighbors to be apart from.
+    let delta = (end_microdegree - start_microdegree) / div.max(1) as f32;
     (0..=div)
         .map(move |x| (start_microdegree + x as f32 * delta) / 1_000_000_f32)
         .collect()
diff --git a/src/grid/latlon.rs b/src/grid/latlon.rs
index ca60a1e..f5699b6 100644
--- a/src/grid/latlon.rs
+++ b/src/grid/latlon.rs
@@ -122,12 +122,12 @@ impl LatLonGridDefinition {
         let lat = evenly_spaced_degrees(
             self.first_point_lat as f32,
             self.last_point_lat as f32,
-            (self.nj - 1) as usize,
+            self.nj.saturating_sub(1) as usize,
         );
         let lon = evenly_spaced_longitudes(
             self.first_point_lon,
             self.last_point_lon,
-            (self.ni - 1) as usize,
+            self.ni.saturating_sub(1) as usize,
             self.scanning_mode,
         );
 
@@ -136,8 +136,8 @@ impl LatLonGridDefinition {
     }
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
-        let lat_diff = self.last_point_lat - self.first_point_lat;
-        !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
+        let lat_diff = i64::from(self.last_point_lat) - i64::from(self.first_point_lat);
+        lat_diff == 0 || !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
     }
 
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
-- 
2.43.0


From c625bfd2463408fb2f84598599cbe715376f412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 14/30] fix: check the number of grid points before computing
 their coordinates

---
 src/context.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/context.rs b/src/context.rs
index 801bdc5..eac7d8a 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -670,6 +670,8 @@ Data Representation:                    {}
     pub fn latlons(&self) -> Result<GridPointIterator, GribError> {
         let grid_def = self.grid_def();
         let num_defined = grid_def.num_points() as usize;
+        // Coordinates are computed only if the number of grid points is right.
+        let _ = self.ij()?;
         let latlons = GridDefinitionTemplateValues::try_from(grid_def)?.latlons()?;
         let (num_decoded, _) = latlons.size_hint();
         if num_defined == num_decoded {
-- 
2.43.0


From 0e01d74ac9d59cd46c3a4f55aa5d9c35cd089cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 15/30] fix: divide scaled values of Earth axes by their scale
 factors

---
 src/grid/earth.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grid/earth.rs b/src/grid/earth.rs
index e526f9b..01d035d 100644
--- a/src/grid/earth.rs
+++ b/src/grid/earth.rs
@@ -17,7 +17,7 @@ impl EarthShapeDefinition {
             0 => (6367470.0, 6367470.0),
             1 => {
                 let radius = f64::from(self.scaled_value_of_radius_of_spherical_earth)
-                    * f64::powf(
+                    / f64::powf(
                         10.,
                         f64::from(self.scale_factor_of_radius_of_spherical_earth),
                     );
@@ -40,9 +40,9 @@ impl EarthShapeDefinition {
 
     fn radii_defined(&self) -> (f64, f64) {
         let major = f64::from(self.scaled_value_of_earth_major_axis)
-            * f64::powf(10., f64::from(self.scale_factor_of_earth_major_axis));
+            / f64::powf(10., f64::from(self.scale_factor_of_earth_major_axis));
         let minor = f64::from(self.scaled_value_of_earth_minor_axis)
-            * f64::powf(10., f64::from(self.scale_factor_of_earth_minor_axis));
+            / f64::powf(10., f64::from(self.scale_factor_of_earth_minor_axis));
         (major, minor)
     }
 
-- 
2.43.0


From eae7e278d56b4d686d54446b18cafeab2fd96e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 16/30] fix: tell OpenJPEG when the code stream is used up

---
 src/decoder/jpeg2000/ext.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoder/jpeg2000/ext.rs b/src/decoder/jpeg2000/ext.rs
index 9b71972..2ec8255 100644
--- a/src/decoder/jpeg2000/ext.rs
+++ b/src/decoder/jpeg2000/ext.rs
@@ -62,6 +62,11 @@ impl Stream {
 
             let bytes_left = len - offset;
 
+            // OpenJPEG expects -1 at the end of the stream and tries again otherwise.
+            if bytes_left == 0 {
+                return usize::MAX;
+            }
+
             let bytes_read = std::cmp::min(bytes_left, p_nb_bytes);
 
             let slice = &(*user_data).buf[offset..offset + bytes_read];
-- 
2.43.0


From 8e4d80d9cddb598b80d05590d89dff56bc3ab751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 17/30] fix: do not expand more run-length or image points than
 the grid has

---
 src/decoder/png.rs        | 3 ++-
 src/decoder/run_length.rs | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decoder/png.rs b/src/decoder/png.rs
index 41264a2..a86d577 100644
--- a/src/decoder/png.rs
+++ b/src/decoder/png.rs
@@ -47,7 +47,8 @@ pub(crate) fn decode(
         );
     }
 
-    let (buf, nbit) = read_image_buffer(&target.sect7_payload, target.num_points_encoded)
+    let num_points = target.num_points_encoded.min(target.num_points_total());
+    let (buf, nbit) = read_image_buffer(&target.sect7_payload, num_points)
         .map_err(|e| GribError::DecodeError(DecodeError::PngDecodeError(e)))?;
 
     let iter = NBitwiseIterator::new(buf, nbit);
diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index b4ed503..5b9586c 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -41,6 +41,10 @@ pub(crate) fn decode(
         pos += std::mem::size_of::<u16>();
     }
 
+    if target.num_points_encoded > target.num_points_total() {
+        return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+    }
+
     let decoded_levels = rleunpack(
         &target.sect7_payload,
         nbit,
-- 
2.43.0


From 70004ae0b328cce155270bb5ad7bfa52402cdfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 18/30] fix: do not keep the reader borrowed while a submessage
 is held

Holding two submessages of a file at a time (or collecting the iterator)
panicked because each of them held the reader mutably borrowed.
---
 src/context.rs | 6 +++---
 src/decoder.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index eac7d8a..3bc42fa 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,5 @@
 use std::{
-    cell::{RefCell, RefMut},
+    cell::RefCell,
     collections::HashSet,
     fmt::{self, Display, Formatter},
     io::{Cursor, Read, Seek},
@@ -321,7 +321,7 @@ impl<'a, R> Iterator for SubmessageIterator<'a, R> {
                 self.new_submessage_section(submessage_index.6)?,
                 self.new_submessage_section(submessage_index.7)?,
                 self.new_submessage_section(submessage_index.8)?,
-                self.context.reader.borrow_mut(),
+                &self.context.reader,
             ),
         ))
     }
@@ -359,7 +359,7 @@ pub struct SubMessage<'a, R>(
     pub SubMessageSection<'a>,
     pub SubMessageSection<'a>,
     pub SubMessageSection<'a>,
-    pub(crate) RefMut<'a, R>,
+    pub(crate) &'a RefCell<R>,
 );
 
 impl<R> SubMessage<'_, R> {
diff --git a/src/decoder.rs b/src/decoder.rs
index 927f89f..09b2cee 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -76,7 +76,7 @@ impl Grib2SubmessageDecoder {
 
     /// Sets up a decoder for grid point values of `submessage`.
     pub fn from<R: Grib2Read>(submessage: SubMessage<R>) -> Result<Self, GribError> {
-        let mut reader = submessage.9;
+        let mut reader = submessage.9.borrow_mut();
         let sect5 = submessage.5.body;
         let sect6 = submessage.6.body;
         let sect7 = submessage.7.body;
-- 
2.43.0


From 2c7ee66cce1e993685dd56fee3205c15ac5c98f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 19/30] fix: do not take reversed code ranges as ranges

The size of a range such as 5-3 underflowed.
---
 gen/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gen/src/lib.rs b/gen/src/lib.rs
index a42eb0b..b09ece8 100644
--- a/gen/src/lib.rs
+++ b/gen/src/lib.rs
@@ -51,6 +51,9 @@ impl FromStr for CodeRange {
 
         let pos = read_hyphen(input, pos)?;
         let (end, _pos) = read_number(input, pos)?;
+        if end < start {
+            return Err(CodeRangeParseError::Reversed);
+        }
 
         Ok(CodeRange { start, end })
     }
@@ -59,6 +62,7 @@ impl FromStr for CodeRange {
 pub enum CodeRangeParseError {
     NumberNotFound,
     HyphenNotFound,
+    Reversed,
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
-- 
2.43.0


From 9dbc56cb590ec9ed061153912c379f0c9daefebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 20/30] fix: check that rows without text continue the code
 table, too

Codes covered by no row were exported if rows without text happened to
be as many as the codes left out.
---
 gen/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gen/src/lib.rs b/gen/src/lib.rs
index b09ece8..55b3b1e 100644
--- a/gen/src/lib.rs
+++ b/gen/src/lib.rs
@@ -95,6 +95,7 @@ const {}: &[& str] = &{:#?};",
 
         let mut count = 0;
         let mut empty_count = 0;
+        let mut is_sparse = false;
 
         for entry in self.data.iter() {
             let (id, string) = entry;
@@ -117,7 +118,7 @@ const {}: &[& str] = &{:#?};",
                         empty_count -= 1;
                     }
 
-                    if count != range.start {
+                    if is_sparse || count != range.start {
                         return Vec::new(); // Sparse code tables are not
                                            // supported at the moment.
                     }
@@ -130,6 +131,7 @@ const {}: &[& str] = &{:#?};",
                     }
                     count += range.size();
                 } else {
+                    is_sparse |= count + empty_count != range.start;
                     empty_count += range.size();
                 }
             }
-- 
2.43.0


From 034c1f1875bbe50a4000885a9845601cf4a74172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 21/30] fix: keep all rows of a code table that are not next to
 each other

A later group of rows with the same subtitle replaced the earlier one.
---
 gen/src/grib2_codeflag_csv.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/gen/src/grib2_codeflag_csv.rs b/gen/src/grib2_codeflag_csv.rs
index 7baecf4..c9e09ef 100644
--- a/gen/src/grib2_codeflag_csv.rs
+++ b/gen/src/grib2_codeflag_csv.rs
@@ -78,15 +78,16 @@ impl CodeDB {
             let record: Record = record?;
             let category = record.subtitle.parse::<OptArg>()?;
 
-            let current = out_tables.last();
-            if current.is_none() || category != current.unwrap().0 {
-                let new_codetable = CodeTable::new(record.title);
-                out_tables.push((category, new_codetable));
-            }
+            let pos = match out_tables.iter().position(|(c, _)| *c == category) {
+                Some(pos) => pos,
+                None => {
+                    let new_codetable = CodeTable::new(record.title);
+                    out_tables.push((category, new_codetable));
+                    out_tables.len() - 1
+                }
+            };
 
-            out_tables
-                .last_mut()
-                .unwrap()
+            out_tables[pos]
                 .1
                 .data
                 .push((record.code_flag, record.description));
-- 
2.43.0


From 0dc90b89d84ef0bba04be8ea749fbb25caffbb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 22/30] fix: generate one variant for a parameter listed
 repeatedly with the same code

A repeated line made its variant disappear while the conversion still
referred to it.
---
 codegen/src/param_codes.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/codegen/src/param_codes.rs b/codegen/src/param_codes.rs
index ae6ccbb..93ef350 100644
--- a/codegen/src/param_codes.rs
+++ b/codegen/src/param_codes.rs
@@ -1,6 +1,6 @@
 use std::{
     borrow::Cow,
-    collections::{hash_map::Entry, HashMap},
+    collections::{hash_map::Entry, HashMap, HashSet},
     fmt,
     str::FromStr,
 };
@@ -37,7 +37,9 @@ impl Wgrib2Table {
             let value = code.id();
             match table.entry(key.to_string()) {
                 Entry::Occupied(first_value) => {
-                    remapper.insert(value, *first_value.get());
+                    if *first_value.get() != value {
+                        remapper.insert(value, *first_value.get());
+                    }
                 }
                 Entry::Vacant(entry) => {
                     entry.insert(value);
@@ -59,13 +61,19 @@ impl Wgrib2Table {
             }
         }
 
-        let entries = self
+        // The same code may be listed repeatedly.
+        let mut ids = HashSet::<u32>::with_capacity(self.codes.len());
+        let codes: Vec<_> = self
             .codes
+            .iter()
+            .filter(|entry| ids.insert(entry.id()))
+            .collect();
+        let entries = codes
             .iter()
             .filter(|entry| !self.remapper.contains_key(&entry.id()));
         let variant_idents =
             entries.map(|ent| ent.enum_variant(merger.get(&ent.id()).unwrap_or(&vec![])));
-        let mapper = self.codes.iter().map(|entry| {
+        let mapper = codes.iter().map(|entry| {
             let id = entry.id();
             let name = entry.enum_variant_ident();
             quote! { #id => Ok(Self::#name) }
-- 
2.43.0


From cf652c155261737cd9a5b97e6e092ab6d60190a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 23/30] fix: list fields that represent more points than their
 grid has

Subtracting the numbers of points panicked.
---
 cli/src/commands/list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/commands/list.rs b/cli/src/commands/list.rs
index 885d54d..61923b2 100644
--- a/cli/src/commands/list.rs
+++ b/cli/src/commands/list.rs
@@ -123,7 +123,7 @@ impl<R> Display for ListView<'_, R> {
                         forecast_time,
                         surfaces.0,
                         surfaces.1,
-                        num_grid_points - num_points_represented,
+                        num_grid_points.saturating_sub(num_points_represented),
                         num_grid_points,
                         grid_type,
                     )?;
-- 
2.43.0


From 289af9b6f25cd33df63e93e47fc39c4c170dd84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 24/30] fix: report message indices that are too large instead
 of panicking

---
 cli/src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/cli.rs b/cli/src/cli.rs
index 74c0517..aac21d9 100644
--- a/cli/src/cli.rs
+++ b/cli/src/cli.rs
@@ -80,9 +80,9 @@ impl std::str::FromStr for CliMessageIndex {
             )
         })?;
         let message_index = cap.get(1).unwrap();
-        let message_index = usize::from_str(message_index.as_str()).unwrap();
+        let message_index = usize::from_str(message_index.as_str())?;
         let submessage_index = cap.get(2).unwrap();
-        let submessage_index = usize::from_str(submessage_index.as_str()).unwrap();
+        let submessage_index = usize::from_str(submessage_index.as_str())?;
         let inner = (message_index, submessage_index);
         Ok(Self(inner))
     }
-- 
2.43.0


From 39cca413e05fcfffb957987901c543efdaf25d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 25/30] fix: report failures to write the end of exported data

Buffered data were written on drop, where errors are ignored.
---
 cli/src/commands/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/commands/decode.rs b/cli/src/commands/decode.rs
index 5050629..2e743c9 100644
--- a/cli/src/commands/decode.rs
+++ b/cli/src/commands/decode.rs
@@ -37,7 +37,8 @@ fn write_output(
 ) -> Result<()> {
     File::create(out_path).and_then(|f| {
         let mut stream = BufWriter::new(f);
-        values.try_for_each(|f| stream.write_all(&to_bytes(&f)))
+        values.try_for_each(|f| stream.write_all(&to_bytes(&f)))?;
+        stream.flush()
     })?;
     Ok(())
 }
-- 
2.43.0


From 5dd4f5f776eb75a794d20e3e2bd1c8ce8757af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:47 +0000
Subject: [PATCH 26/30] fix: numbers of grid points beyond a 32-bit usize

---
 src/context.rs | 4 ++--
 src/grid.rs    | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 3bc42fa..308806f 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -622,8 +622,8 @@ Data Representation:                    {}
         let grid_def = self.grid_def();
         let num_defined = grid_def.num_points() as usize;
         let ij = GridDefinitionTemplateValues::try_from(grid_def)?.ij()?;
-        let (num_decoded, _) = ij.size_hint();
-        if num_defined == num_decoded {
+        let (num_decoded, upper_bound) = ij.size_hint();
+        if upper_bound == Some(num_defined) {
             Ok(ij)
         } else {
             Err(GribError::InvalidValueError(format!(
diff --git a/src/grid.rs b/src/grid.rs
index 1418a54..c77a2a6 100644
--- a/src/grid.rs
+++ b/src/grid.rs
@@ -108,8 +108,13 @@ impl Iterator for GridPointIndexIterator {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = (self.major_len - self.major_pos) * self.minor_len - self.minor_pos;
-        (len, Some(len))
+        // A 32-bit `usize` cannot hold the numbers of points of all grids.
+        let len = (self.major_len - self.major_pos) as u64 * self.minor_len as u64
+            - self.minor_pos as u64;
+        match usize::try_from(len) {
+            Ok(len) => (len, Some(len)),
+            Err(_) => (usize::MAX, None),
+        }
     }
 }
 
-- 
2.43.0


From 5452e700c1f997c77223fd10a32a861d49f404f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 27/30] fix: no memory for sections that only claim to be large

---
 src/reader.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index ba7ecf1..75aeba5 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -252,6 +252,19 @@ fn read_fully<R: Read>(reader: &mut R, buf: &mut [u8]) -> io::Result<usize> {
     Ok(size)
 }
 
+/// Reads exactly `size` bytes. Since sizes written in the data can be far
+/// larger than the data, memory is allocated as bytes are read.
+fn read_vec<R: Read>(reader: &mut R, size: usize) -> io::Result<Vec<u8>> {
+    let mut buf = Vec::with_capacity(size.min(1 << 16));
+    if reader.take(size as u64).read_to_end(&mut buf)? < size {
+        return Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            "failed to fill whole buffer",
+        ));
+    }
+    Ok(buf)
+}
+
 impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
     fn read_sect0(&mut self) -> Result<Option<(usize, Indicator)>, ParseError> {
         let mut buf = [0; 4096];
@@ -336,8 +349,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
         self.seek(SeekFrom::Start(body_offset as u64))?;
 
         let body_size = sect.size - SECT_HEADER_SIZE;
-        let mut buf = vec![0; body_size];
-        self.read_exact(buf.as_mut_slice())?;
+        let buf = read_vec(self, body_size)?;
 
         Ok(buf.into_boxed_slice())
     }
@@ -350,8 +362,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
             .checked_sub(buf.len())
             .ok_or_else(|| ParseError::ReadError("section 6 is too short".to_owned()))?;
         if len_extra > 0 {
-            let mut buf = vec![0; len_extra];
-            self.read_exact(&mut buf[..])?;
+            let _ = read_vec(self, len_extra)?;
         }
 
         Ok(SectionBody::Section6(BitMap {
@@ -366,8 +377,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
     }
 
     fn read_slice_without_offset_check(&mut self, size: usize) -> Result<Box<[u8]>, ParseError> {
-        let mut buf = vec![0; size];
-        self.read_exact(&mut buf[..])?;
+        let buf = read_vec(self, size)?;
         Ok(buf.into_boxed_slice())
     }
 }
-- 
2.43.0


From 33f80254bd2dba7c109250a550ef69644f7b6315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:13 +0000
Subject: [PATCH 28/30] fix: total lengths and positions beyond a 32-bit usize

---
 src/reader.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 75aeba5..c9c00ef 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -91,13 +91,12 @@ where
             .read_sect0()
             .transpose()?
             .and_then(|(offset, indicator)| {
-                let offset = self.whole_size + offset;
-                let message_size = indicator.total_length as usize;
-                let rest_size = message_size.checked_sub(SECT0_IS_SIZE);
-                let whole_size = offset.checked_add(message_size);
-                let (rest_size, whole_size) = rest_size.zip(whole_size).ok_or_else(|| {
-                    ParseError::ReadError(format!("invalid total length: {message_size}"))
-                })?;
+                let message_size = indicator.total_length;
+                // Lengths and positions can be too large for a 32-bit `usize`.
+                let (offset, rest_size, whole_size) =
+                    self.sizes_of_message(offset, message_size).ok_or_else(|| {
+                        ParseError::ReadError(format!("invalid total length: {message_size}"))
+                    })?;
                 self.rest_size = rest_size;
                 self.whole_size = whole_size;
                 Ok(SectionInfo {
@@ -110,9 +109,20 @@ where
         Some(result)
     }
 
+    /// Returns the position of a message found `gap` bytes after the last one,
+    /// the size of it without Section 0, and the position of its end.
+    fn sizes_of_message(&self, gap: usize, message_size: u64) -> Option<(usize, usize, usize)> {
+        let message_size = usize::try_from(message_size).ok()?;
+        let offset = self.whole_size.checked_add(gap)?;
+        let rest_size = message_size.checked_sub(SECT0_IS_SIZE)?;
+        let whole_size = offset.checked_add(message_size)?;
+        Some((offset, rest_size, whole_size))
+    }
+
     fn reset_pos(&mut self) -> Result<(), io::Error> {
         let pos = self.reader.stream_position()?;
-        self.whole_size = pos as usize;
+        self.whole_size =
+            usize::try_from(pos).map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
         Ok(())
     }
 
-- 
2.43.0


From 9ada3e029fb241c6370f10b9b264f0028bc23459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:36 +0000
Subject: [PATCH 29/30] fix: lengths of groups beyond a 32-bit usize

---
 src/decoder/complex.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 77d67bc..6679bc2 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -127,8 +127,10 @@ fn decode_complex_packing(
     z_min: i64,
     num_points: usize,
 ) -> Result<impl Iterator<Item = DecodedValue<i64>> + '_, GribError> {
-    fn get_octet_length(nbit: u8, ngroup: usize) -> usize {
-        (ngroup * usize::from(nbit)).div_ceil(8)
+    // Lengths can be too large for a 32-bit `usize` until they are compared with
+    // that of the data.
+    fn get_octet_length(nbit: u8, ngroup: usize) -> u64 {
+        (ngroup as u64 * u64::from(nbit)).div_ceil(8)
     }
 
     let not_supported =
@@ -146,14 +148,17 @@ fn decode_complex_packing(
     }
 
     let params_end_octet = sect7_offset;
-    let group_refs_end_octet = params_end_octet + get_octet_length(nbit, ngroup);
-    let group_widths_end_octet =
-        group_refs_end_octet + get_octet_length(complex_param.group_width_nbit, ngroup);
-    let group_lens_end_octet =
-        group_widths_end_octet + get_octet_length(complex_param.group_len_nbit, ngroup);
-    if group_lens_end_octet > sect7_data.len() {
+    let group_refs_len = get_octet_length(nbit, ngroup);
+    let group_widths_len = get_octet_length(complex_param.group_width_nbit, ngroup);
+    let group_lens_len = get_octet_length(complex_param.group_len_nbit, ngroup);
+    if params_end_octet as u64 + group_refs_len + group_widths_len + group_lens_len
+        > sect7_data.len() as u64
+    {
         return Err(length_mismatch.into());
     }
+    let group_refs_end_octet = params_end_octet + group_refs_len as usize;
+    let group_widths_end_octet = group_refs_end_octet + group_widths_len as usize;
+    let group_lens_end_octet = group_widths_end_octet + group_lens_len as usize;
 
     let group_refs_iter = BitStream::new(
         &sect7_data[params_end_octet..group_refs_end_octet],
@@ -258,7 +263,7 @@ where
                 // The specification states as follows: "For groups with a constant value,
                 // associated field width is 0, and no incremental data are physically present."
                 let _ref = _ref.to_i64().unwrap();
-                let length = length.to_usize().unwrap();
+                let length = length.to_usize().unwrap_or(usize::MAX);
                 let missing1 = (1 << self.nbit) - 1;
                 let missing2 = missing1 - 1;
 
@@ -275,10 +280,11 @@ where
                 let (_ref, width, length) = (
                     _ref.to_i64().unwrap(),
                     width.to_usize().unwrap(),
-                    length.to_usize().unwrap(),
+                    length.to_u64().unwrap(),
                 );
-                let bits = self.start_offset_bits + width * length;
-                let (pos_end, offset_bits) = (self.pos + bits / 8, bits % 8);
+                let bits = self.start_offset_bits as u64 + width as u64 * length;
+                let pos_end = usize::try_from(self.pos as u64 + bits / 8).ok()?;
+                let (length, offset_bits) = (length as usize, (bits % 8) as usize);
                 let offset_byte = usize::from(offset_bits > 0);
                 let missing1 = (1 << width) - 1;
                 let missing2 = missing1 - 1;
-- 
2.43.0


From 69d9e6b7dcb391fd47938884bce16a5e6edbd4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 30/30] fix: Gaussian latitudes beyond a 32-bit usize

---
 src/grid/gaussian.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index 493c941..388c266 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -155,7 +155,9 @@ pub fn compute_gaussian_latitudes(div: usize) -> impl Iterator<Item = Option<f64
 //   Gauss-Legendre quadrature, Journal of Computational and Applied Mathematics,
 //   Volume 59, Issue 2, 1995, Pages 245-252, ISSN 0377-0427, https://doi.org/10.1016/0377-0427(94)00030-5.
 fn legendre_roots_iterator(n: usize) -> impl Iterator<Item = Option<f64>> {
-    let coeff = 1.0_f64 - 1.0 / (8 * n * n) as f64 + 1.0 / (8 * n * n * n) as f64;
+    // The cubes are too large for a 32-bit `usize`.
+    let n_f64 = n as f64;
+    let coeff = 1.0_f64 - 1.0 / (8.0 * n_f64 * n_f64) + 1.0 / (8.0 * n_f64 * n_f64 * n_f64);
     (0..n).map(move |i| {
         let guess = coeff * ((4 * i + 3) as f64 * std::f64::consts::PI / (4 * n + 2) as f64).cos();
         find_root(guess, |x| {
-- 
2.43.0

