From ce26762b695c4a1229345d941ea98024de8d3e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 01/13] fix: report VobSub image data that can't be decoded as
 an error

Decompressing the run-length data of a subtitle was unwrapped, so any image
data longer than a line or ending early panicked instead of giving an error
item. The conversion is now fallible and maps to VobSubError::Image.
---
 src/vobsub/decoder.rs | 22 +++++++++++++---------
 src/vobsub/img.rs     | 12 +++++++-----
 src/vobsub/sub.rs     |  2 +-
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 6357300..f3d99cf 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -1,4 +1,4 @@
-use super::{img::VobSubRleImage, VobSubIndexedImage};
+use super::{img::VobSubRleImage, VobSubError, VobSubIndexedImage};
 use crate::time::{TimePoint, TimeSpan};
 
 /// The default length of a subtitle if no end time is provided and no
@@ -12,12 +12,16 @@ const DEFAULT_SUBTITLE_LENGTH: f64 = 5.0;
 pub trait VobSubDecoder<'a> {
     type Output;
 
+    /// Create the output from the parsed data.
+    ///
+    /// # Errors
+    /// Will return [`VobSubError::Image`] if the image data can't be decoded.
     fn from_data(
         start_time: f64,
         end_time: Option<f64>,
         force: bool,
         image: VobSubRleImage<'a>,
-    ) -> Self::Output;
+    ) -> Result<Self::Output, VobSubError>;
 }
 
 /// Implement creation of a tuple of [`TimeSpan`] and [`VobSubIndexedImage`] from parsing.
@@ -29,14 +33,14 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         end_time: Option<f64>,
         _force: bool,
         rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        (
+    ) -> Result<Self::Output, VobSubError> {
+        Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
                 TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
             ),
-            VobSubIndexedImage::from(rle_image),
-        )
+            VobSubIndexedImage::try_from(rle_image)?,
+        ))
     }
 }
 
@@ -49,10 +53,10 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
         end_time: Option<f64>,
         _force: bool,
         _rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        Self::new(
+    ) -> Result<Self::Output, VobSubError> {
+        Ok(Self::new(
             TimePoint::from_secs(start_time),
             TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
-        )
+        ))
     }
 }
diff --git a/src/vobsub/img.rs b/src/vobsub/img.rs
index 28615cc..5fbf85f 100644
--- a/src/vobsub/img.rs
+++ b/src/vobsub/img.rs
@@ -270,15 +270,17 @@ impl ImageArea for VobSubIndexedImage {
     }
 }
 
-impl From<VobSubRleImage<'_>> for VobSubIndexedImage {
-    fn from(rle_image: VobSubRleImage) -> Self {
-        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data()).unwrap();
-        Self::new(
+impl TryFrom<VobSubRleImage<'_>> for VobSubIndexedImage {
+    type Error = Error;
+
+    fn try_from(rle_image: VobSubRleImage) -> Result<Self, Self::Error> {
+        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data())?;
+        Ok(Self::new(
             rle_image.area(),
             *rle_image.palette(),
             *rle_image.alpha(),
             decompressed_image,
-        )
+        ))
     }
 }
 
diff --git a/src/vobsub/sub.rs b/src/vobsub/sub.rs
index bc7f414..762928d 100644
--- a/src/vobsub/sub.rs
+++ b/src/vobsub/sub.rs
@@ -395,7 +395,7 @@ where
     let rle_image = VobSubRleImage::new(area, palette, alpha, image_data);
 
     // Return our parsed subtitle.
-    let result = D::from_data(start_time, end_time, force, rle_image);
+    let result = D::from_data(start_time, end_time, force, rle_image)?;
     trace!("Parsed subtitle: {:?}", &result);
     Ok(result)
 }
-- 
2.43.0


From 34a91a524809dc6bfedf1bce82577cc4fd69bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 02/13] fix: make the default end of a VobSub subtitle relative
 to its start

Without a stop date the end was set to 5 seconds after the start of the stream
instead of 5 seconds after the start of the subtitle.
---
 src/vobsub/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index f3d99cf..4d193f7 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -37,7 +37,7 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
-                TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+                TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
             ),
             VobSubIndexedImage::try_from(rle_image)?,
         ))
@@ -56,7 +56,7 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
     ) -> Result<Self::Output, VobSubError> {
         Ok(Self::new(
             TimePoint::from_secs(start_time),
-            TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+            TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
         ))
     }
 }
-- 
2.43.0


From 10a80321c8cf7a785ec6d3f6fca28f24afd20b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 03/13] fix: accept the standard prefixes of PTS and DTS in a
 PES header

When both time stamps are present MPEG-2 writes '0011' before the PTS and
'0001' before the DTS. Expecting '0010' before both made every such packet
unreadable, and its subtitle was silently lost.
---
 src/vobsub/mpeg2/pes.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/mpeg2/pes.rs b/src/vobsub/mpeg2/pes.rs
index 488ed18..fcaa81e 100644
--- a/src/vobsub/mpeg2/pes.rs
+++ b/src/vobsub/mpeg2/pes.rs
@@ -70,9 +70,10 @@ fn pts_only(input: &[u8]) -> IResult<&[u8], PtsDts> {
 /// Helper for `pts_dts`.  Parses the `PTS` and `DTS` case.
 fn pts_and_dts(input: &[u8]) -> IResult<&[u8], PtsDts> {
     bits(|input| {
-        let parse_tag = tag_bits(0b0010, 4u8);
+        let pts_tag = tag_bits(0b0011, 4u8);
+        let dts_tag = tag_bits(0b0001, 4u8);
         let (input, (_, pts, _, dts)): ((&[u8], usize), (_, _, _, _)) =
-            (&parse_tag, clock, &parse_tag, clock).parse(input)?;
+            (pts_tag, clock, dts_tag, clock).parse(input)?;
         Ok((
             input,
             PtsDts {
-- 
2.43.0


From 1b2a0aa0640ffea13664c61a88a2e0ef0b20f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 04/13] fix: don't lose a millisecond when converting seconds
 to a TimePoint

---
 src/time/time_point.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/time/time_point.rs b/src/time/time_point.rs
index a7b9969..8496c7b 100644
--- a/src/time/time_point.rs
+++ b/src/time/time_point.rs
@@ -14,14 +14,24 @@ impl TimePoint {
 
     /// Create a `TimePoint` from seconds
     ///
+    /// The part below the millisecond is truncated. A value that is only floating
+    /// point rounding away from a whole number of milliseconds (like `1.001`) is
+    /// that number of milliseconds.
+    ///
     /// # Panics
     ///
     /// Will panics if the `seconds` value fill as parameter is to big to be store as
     /// millisecond in a [`i64`].
     #[must_use]
     pub fn from_secs(seconds: f64) -> Self {
-        let msecs = cast::i64(seconds * 1000.0).unwrap();
-        Self(msecs)
+        let msecs = seconds * 1000.0;
+        let nearest = msecs.round();
+        let msecs = if (msecs - nearest).abs() <= nearest.abs() * (4.0 * f64::EPSILON) {
+            nearest
+        } else {
+            msecs
+        };
+        Self(cast::i64(msecs).unwrap())
     }
 
     /// Convert to seconds
-- 
2.43.0


From 60417ad985f8e04a0d28f785551125e256946410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 05/13] fix: write the smallest TimePoint without overflow

---
 src/time/time_point.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/time/time_point.rs b/src/time/time_point.rs
index 8496c7b..1262d2f 100644
--- a/src/time/time_point.rs
+++ b/src/time/time_point.rs
@@ -84,15 +84,15 @@ impl TimePoint {
     ///
     /// Will return error of writing if happen.
     pub fn fmt_separator(&self, f: &mut fmt::Formatter<'_>, separator: char) -> fmt::Result {
-        let t = if self.0 < 0 { -*self } else { *self };
+        // The components are negative (or zero) for a negative time.
         write!(
             f,
             "{}{:02}:{:02}:{:02}{separator}{:03}",
             if self.0 < 0 { "-" } else { "" },
-            t.hours(),
-            t.mins_comp(),
-            t.secs_comp(),
-            t.msecs_comp()
+            self.hours().unsigned_abs(),
+            self.mins_comp().unsigned_abs(),
+            self.secs_comp().unsigned_abs(),
+            self.msecs_comp().unsigned_abs()
         )
     }
 }
-- 
2.43.0


From 7f50f52eb165cf93dcacdc31fbab1d67debb4e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 06/13] fix: report a palette segment of invalid size as an
 error

---
 src/pgs/pds.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index fcb5615..fe9a244 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -7,6 +7,13 @@ pub enum Error {
     /// Read `PaletteDefinitionSegment` in a buffer failed.
     #[error("failed to read buffer with `PaletteDefinitionSegment`")]
     BufferParse(#[source] io::Error),
+
+    /// The size of the segment doesn't match with a whole number of palette entries.
+    #[error("invalid size '{size}' for a `PaletteDefinitionSegment`")]
+    InvalidSize {
+        /// Size of the segment
+        size: usize,
+    },
 }
 
 #[derive(Debug, Clone)]
@@ -60,11 +67,16 @@ pub(crate) fn read<R: Read>(
         .read_exact(&mut pds_buf)
         .map_err(Error::BufferParse)?;
 
+    if segments_size < 2 || (segments_size - 2) % 5 != 0 {
+        return Err(Error::InvalidSize {
+            size: segments_size,
+        });
+    }
+
     let palette_id = pds_buf[0];
     let palette_version_number = pds_buf[1];
 
     let nb_palette_entry: usize = (segments_size - 2) / 5;
-    assert_eq!((nb_palette_entry * 5) + 2, segments_size);
     let range = 0..nb_palette_entry;
     let palette_entries = range
         .map(|idx| {
-- 
2.43.0


From ec5fe2518df8f6ecb1622df95cf6baf3ebfa3cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 07/13] fix: look palette entries up by their identifier

---
 src/pgs/pds.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index fe9a244..71ccdca 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -19,27 +19,14 @@ pub enum Error {
 #[derive(Debug, Clone)]
 pub struct Palette {
     entries: Vec<PaletteEntry>,
-    offset: i16,
 }
 impl Palette {
-    fn new(entries: Vec<PaletteEntry>) -> Self {
-        let offset = compute_offset(&entries);
-        Self { entries, offset }
+    const fn new(entries: Vec<PaletteEntry>) -> Self {
+        Self { entries }
     }
 
-    #[expect(clippy::cast_sign_loss)]
     pub fn get(&self, id: u8) -> Option<&PaletteEntry> {
-        let idx = i16::from(id) + self.offset;
-        self.entries.get(idx as usize)
-    }
-}
-
-fn compute_offset(palette: &[PaletteEntry]) -> i16 {
-    //HACK offset is computed only on the first element, should be checked for all entries
-    if palette.is_empty() {
-        0
-    } else {
-        0 - i16::from(palette[0].entry_id)
+        self.entries.iter().find(|entry| entry.entry_id == id)
     }
 }
 
-- 
2.43.0


From 14b9c8877dfb5c2880fc3f9aeb75039d2e8b53b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 08/13] fix: don't panic on a palette or an object left without
 use

---
 src/pgs/decoder.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pgs/decoder.rs b/src/pgs/decoder.rs
index f4da975..6562d88 100644
--- a/src/pgs/decoder.rs
+++ b/src/pgs/decoder.rs
@@ -132,8 +132,6 @@ impl PgsDecoder for DecodeTimeImage {
             }
         }
 
-        assert!(palette.is_none()); // palette should be transferred into image before get out of the function.
-        assert!(prev_ods.is_none()); // Ods data should be converted into image before get out of the function.
         Ok(subtitle)
     }
 }
-- 
2.43.0


From 2515ddd391e6370e6bb1fd0f5b27ec621745bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 09/13] fix: report malformed object segments as errors

---
 src/pgs/ods.rs | 49 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/pgs/ods.rs b/src/pgs/ods.rs
index f78a608..0080dcf 100644
--- a/src/pgs/ods.rs
+++ b/src/pgs/ods.rs
@@ -36,6 +36,13 @@ pub enum Error {
     #[error("read Height of the image incarried by the `Object Definition Segment`(s)")]
     ReadHeight(#[source] io::Error),
 
+    /// The size of the segment doesn't match with the object data it should contain.
+    #[error("invalid segment size '{segment_size}' for object data of size '{data_size}'")]
+    InvalidSize {
+        segment_size: usize,
+        data_size: usize,
+    },
+
     /// The read of object data failed.
     #[error("try reading object data (buffer slice size: {buff_size})")]
     ObjectData {
@@ -130,17 +137,29 @@ pub fn read<Reader: BufRead + Seek>(
 
     match current_ods {
         None => {
-            assert!(
-                last_in_sequence_flag == LastInSequenceFlag::First
-                    || last_in_sequence_flag == LastInSequenceFlag::FirstAndLast
-            );
+            if last_in_sequence_flag == LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
             let data_size = read_obj_data_length(reader)?;
             let (width, height) = read_img_size(reader)?;
-            let data_size = data_size - 4; // don't know why for now !!! Object Data Length include Width + Height ?
+            let invalid_size = Error::InvalidSize {
+                segment_size: segments_size,
+                data_size,
+            };
+            // don't know why for now !!! Object Data Length include Width + Height ?
+            // Only read data from this segment, additional data are in the next segment, if there are any.
+            let (Some(data_size), Some(read_data_size)) =
+                (data_size.checked_sub(4), segments_size.checked_sub(11))
+            else {
+                return Err(invalid_size);
+            };
+            let all_data_here = last_in_sequence_flag == LastInSequenceFlag::FirstAndLast;
+            if read_data_size > data_size || (all_data_here && read_data_size != data_size) {
+                return Err(invalid_size);
+            }
             let mut object_data = vec![0; data_size]; // Create a `Vec` for contain data of object (image)
 
-            let read_data_size = segments_size - 11; // Only read data from this segment, additional data are in the next segment, if there are any.
             let data_buff = &mut object_data.as_mut_slice()[0..read_data_size];
             read_object_data(reader, data_buff)?;
 
@@ -151,9 +170,6 @@ pub fn read<Reader: BufRead + Seek>(
             };
 
             if last_in_sequence_flag == LastInSequenceFlag::FirstAndLast {
-                assert!(read_data_size == data_size);
-                assert!(segments_size == 11 + data_size);
-
                 Ok(ObjectDefinitionSegment::Complete(data))
             } else if last_in_sequence_flag == LastInSequenceFlag::First {
                 Ok(ObjectDefinitionSegment::Partial {
@@ -168,11 +184,20 @@ pub fn read<Reader: BufRead + Seek>(
             mut data,
             amount_of_data_read,
         }) => {
-            assert!(last_in_sequence_flag == LastInSequenceFlag::Last); //TODO: not first and not last ?
+            //TODO: not first and not last ?
+            if last_in_sequence_flag != LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
+            let data_size = data.object_data.len();
             let start_idx = amount_of_data_read;
-            let end_idx = start_idx + (segments_size - 4);
-            let read_slice = &mut data.object_data.as_mut_slice()[start_idx..end_idx];
+            let read_slice = segments_size
+                .checked_sub(4)
+                .and_then(|size| data.object_data.get_mut(start_idx..start_idx + size))
+                .ok_or(Error::InvalidSize {
+                    segment_size: segments_size,
+                    data_size,
+                })?;
             read_object_data(reader, read_slice)?;
             Ok(ObjectDefinitionSegment::Complete(data))
         }
-- 
2.43.0


From 616aa184d86a3952b20fea0f8740840ba3c719a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 10/13] fix: always iterate over exactly width x height pixels
 of a PGS image

---
 src/pgs/pgs_image.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/pgs/pgs_image.rs b/src/pgs/pgs_image.rs
index ac4c144..eab8bcd 100644
--- a/src/pgs/pgs_image.rs
+++ b/src/pgs/pgs_image.rs
@@ -29,6 +29,11 @@ impl RleEncodedImage {
         }
     }
 
+    /// Number of pixels of the image.
+    fn nb_pixels(&self) -> usize {
+        usize::from(self.width) * usize::from(self.height)
+    }
+
     /// Iterate on image pixels converted with a specified function.
     pub fn pixels<D: Primitive>(
         &self,
@@ -40,6 +45,7 @@ impl RleEncodedImage {
             current_color: LumaA([D::DEFAULT_MIN_VALUE, D::DEFAULT_MAX_VALUE]),
             default_color: LumaA([D::DEFAULT_MAX_VALUE, D::DEFAULT_MIN_VALUE]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_image_pixels: self.nb_pixels(),
             convert,
         }
     }
@@ -80,6 +86,7 @@ impl<'a> IntoIterator for &'a RleEncodedImage {
                 <u8 as Primitive>::DEFAULT_MIN_VALUE,
             ]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_image_pixels: self.nb_pixels(),
             convert: pe_to_luma_a,
         }
     }
@@ -167,12 +174,16 @@ where
 }
 
 /// struct to iterate on pixel of an `Rle` image.
+///
+/// It always yields `width * height` pixels: what the encoded data don't provide has
+/// the default color, and what they provide in addition is ignored.
 pub struct RlePixelIterator<'a, C> {
     rle_image: &'a RleEncodedImage,
     raw_data: &'a [u8],
     current_color: C,
     default_color: C,
     nb_remaining_pixels: u16,
+    nb_image_pixels: usize, // pixels of the image not yet provided
     convert: PixelConversion<C>,
 }
 
@@ -185,6 +196,8 @@ where
     type Item = Pix;
 
     fn next(&mut self) -> Option<Self::Item> {
+        self.nb_image_pixels = self.nb_image_pixels.checked_sub(1)?;
+
         if self.nb_remaining_pixels > 0 {
             self.nb_remaining_pixels -= 1;
             Some(self.current_color)
@@ -200,13 +213,12 @@ where
             self.nb_remaining_pixels = nb_pixel - 1;
             Some(self.current_color)
         } else {
-            None // End of pixels
+            Some(self.default_color) // End of the encoded data
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let nb_pixels = (self.rle_image.width() * self.rle_image.height()) as usize;
-        (nb_pixels, Some(nb_pixels))
+        (self.nb_image_pixels, Some(self.nb_image_pixels))
     }
 }
 
@@ -234,7 +246,7 @@ impl<C> RlePixelIterator<'_, C> {
             let next = color[0];
             if next == MARKER {
                 let mut l2 = [0; 1];
-                self.raw_data.read_exact(&mut l2).unwrap();
+                self.raw_data.read_exact(&mut l2).ok()?;
 
                 if l2[0] == MARKER {
                     //break; // End of line
@@ -243,7 +255,7 @@ impl<C> RlePixelIterator<'_, C> {
                     let nb_pixels = match CountMarker::from(byte) {
                         CountMarker::Long => {
                             let mut l3 = [0; 1];
-                            self.raw_data.read_exact(&mut l3).unwrap();
+                            self.raw_data.read_exact(&mut l3).ok()?;
                             let count_bytes = [byte & 0b0011_1111, l3[0]];
                             u16::from_be_bytes(count_bytes)
                         }
@@ -258,12 +270,14 @@ impl<C> RlePixelIterator<'_, C> {
                         ColorMarker::Color0 => COLOR_0,
                         ColorMarker::ColorN => {
                             let mut color = [0; 1];
-                            self.raw_data.read_exact(&mut color).unwrap();
+                            self.raw_data.read_exact(&mut color).ok()?;
                             color[0]
                         }
                     };
 
-                    return Some((color, nb_pixels));
+                    if nb_pixels > 0 {
+                        return Some((color, nb_pixels));
+                    }
                 }
             } else {
                 return Some((next, 1));
-- 
2.43.0


From 563b966cfc914e07ceffc15b68f2e11c2589db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 11/13] fix: compute the size of areas up to the last
 coordinate without overflow

---
 src/content/area.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/content/area.rs b/src/content/area.rs
index dbfb8d3..f0c5a59 100644
--- a/src/content/area.rs
+++ b/src/content/area.rs
@@ -33,13 +33,13 @@ impl Area {
     /// The width of the subtitle.
     #[must_use]
     pub const fn width(&self) -> u16 {
-        self.0.x2 + 1 - self.0.x1
+        self.0.x2 - self.0.x1 + 1
     }
 
     /// The height of the subtitle.
     #[must_use]
     pub const fn height(&self) -> u16 {
-        self.0.y2 + 1 - self.0.y1
+        self.0.y2 - self.0.y1 + 1
     }
 
     /// The size of the subtitle.
@@ -62,7 +62,13 @@ impl TryFrom<AreaValues> for Area {
         // Later on, we assume that all bounding boxes
         // have non-negative width and height and we'll
         // crash if they don't.
-        if coords_value.x2 <= coords_value.x1 || coords_value.y2 <= coords_value.y1 {
+        // The width and height (both corners are included) have to fit in a `u16`.
+        let is_full_range = |min, max| min == u16::MIN && max == u16::MAX;
+        if coords_value.x2 <= coords_value.x1
+            || coords_value.y2 <= coords_value.y1
+            || is_full_range(coords_value.x1, coords_value.x2)
+            || is_full_range(coords_value.y1, coords_value.y2)
+        {
             Err(ContentError::InvalidAreaBounding)
         } else {
             Ok(Self(coords_value))
-- 
2.43.0


From 41c383451bc6c88b5584b573e28ad441bc117214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 12/13] fix: answer the probe of a file shorter than the
 signature

---
 src/vobsub/probe.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vobsub/probe.rs b/src/vobsub/probe.rs
index 4fd7ff5..a38039c 100644
--- a/src/vobsub/probe.rs
+++ b/src/vobsub/probe.rs
@@ -11,9 +11,11 @@ fn has_magic(path: &Path, magic: &[u8]) -> Result<bool, VobSubError> {
         path: path.into(),
     };
 
-    let mut f = fs::File::open(path).map_err(mkerr)?;
-    let mut bytes = vec![0; magic.len()];
-    f.read_exact(&mut bytes).map_err(mkerr)?;
+    let f = fs::File::open(path).map_err(mkerr)?;
+    let mut bytes = Vec::with_capacity(magic.len());
+    f.take(magic.len() as u64)
+        .read_to_end(&mut bytes)
+        .map_err(mkerr)?;
     Ok(magic == &bytes[..])
 }
 
-- 
2.43.0


From a9263feb943d19350a5eb83506468a689a663edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:24 +0000
Subject: [PATCH 13/13] fix: stop announcing 500 items a PGS stream may not
 have

SupParser's size_hint gave 500 as the lower bound of the remaining items
whatever the stream holds, which breaks the contract of
Iterator::size_hint: the default (0, None) is all that is known.
---
 src/pgs/sup.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/pgs/sup.rs b/src/pgs/sup.rs
index 38e1b4b..403c52e 100644
--- a/src/pgs/sup.rs
+++ b/src/pgs/sup.rs
@@ -57,11 +57,6 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         Decoder::parse_next(&mut self.reader).transpose()
     }
-
-    // Set lower bound to promote the allocation of a minimum number of elements.
-    fn size_hint(&self) -> (usize, Option<usize>) {
-        (500, None)
-    }
 }
 
 impl<Reader, Decoder> FusedIterator for SupParser<Reader, Decoder>
-- 
2.43.0

