From d492f5ea2ae8fb58bddfee84c18834e2aa0f7fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 01/10] fix: reject MLX90640 EEPROM buffers shorter than the
 EEPROM

The length was compared in words against a number of bytes (and was one word
short), so truncated dumps passed the check and made the parser panic.
---
 mlx9064x/src/mlx90640/eeprom.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index b0ec12d..1a9d718 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -250,7 +250,8 @@ impl Mlx90640Calibration {
     /// The buffer must cover *all* of the EEPROM.
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
         let mut buf = data;
-        let eeprom_length = usize::from(EepromAddress::End - EepromAddress::Base);
+        // The end address is inclusive, and each address holds one word.
+        let eeprom_length = (usize::from(EepromAddress::End - EepromAddress::Base) + 1) * WORD_SIZE;
         if buf.len() < eeprom_length {
             return Err(LibraryError::Other(
                 "Not enough space left in buffer to be a full EEPROM dump",
-- 
2.43.0


From c48d031ffe366ec65e3ae0aa0777c73e188b705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 02/10] fix: keep the fractional part of the MLX90640
 alpha_PTAT

The EEPROM stores it in quarters; the integer division dropped them.
---
 mlx9064x/src/mlx90640/eeprom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 1a9d718..f2b2e13 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -262,7 +262,7 @@ impl Mlx90640Calibration {
         // alpha_PTAT and offset compensation correction scales
         let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
-        let alpha_ptat = alpha_ptat / 4 + 8;
+        let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
@@ -381,7 +381,7 @@ impl Mlx90640Calibration {
             k_v_ptat,
             k_t_ptat,
             v_ptat_25: v_ptat_25.into(),
-            alpha_ptat: alpha_ptat.into(),
+            alpha_ptat,
             gain: gain.into(),
             k_s_ta,
             corner_temperatures,
-- 
2.43.0


From 498edfdafcbd72a870f928cbee33273722ea131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 03/10] fix: don't overflow while summing MLX90640 pixel
 calibration values

The per-row, per-column and per-pixel terms are shifted left by up to 15 bits,
so their sums (and for K_Ta the shifted remainder) don't fit in an i16: large
scales panicked in debug builds and wrapped around in release builds. Sum with
32 bits, and saturate the offsets, which are exposed as i16.
---
 mlx9064x/src/mlx90640/eeprom.rs | 36 +++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index f2b2e13..2b08307 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -91,25 +91,25 @@ impl Mlx90640Calibration {
     /// preceding the scaling factors are returned (in that order).
     fn calculate_bulk_pixel_calibration(
         data: &mut &[u8],
-    ) -> ([i16; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
+    ) -> ([i32; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
         let (extra_value, row_scale, column_scale, remainder_scale) = {
             let scales = word_to_u4s(data);
             (scales[0], scales[1], scales[2], scales[3])
         };
-        let offset_average = data.get_i16();
+        let offset_average = i32::from(data.get_i16());
         let mut pixel_calibration = [offset_average; Mlx90640::NUM_PIXELS];
         const VALUES_PER_DATA_ROW: usize = 4;
         // Add row offsets
         for row_chunks in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH * VALUES_PER_DATA_ROW)
         {
             let rows_coefficients = word_to_i4s(data);
-            // Create a nice lazy iterator that converts the values to i16, scales them, and
+            // Create a nice lazy iterator that converts the values to i32, scales them, and
             // reverses that order of the data (because the data is laid out backwards in the
             // EEPROM).
             let rows_coefficients = rows_coefficients
                 .into_iter()
                 //let rows_coefficients = core::array::IntoIter::new(rows_coefficients)
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << row_scale)
                 .rev();
             for (row, coefficient) in row_chunks
@@ -128,7 +128,7 @@ impl Mlx90640Calibration {
             let column_coefficients = column_coefficients
                 .iter()
                 .copied()
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << column_scale)
                 .rev();
             for row in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH) {
@@ -183,7 +183,7 @@ impl Mlx90640Calibration {
     /// this value is chosen from four values, determined by if the row and column indices are even
     /// or odd. The rest of the calculation is performed later, with the rest of the per-pixel
     /// calculations.
-    fn generate_k_ta_pixels(data: &mut &[u8]) -> impl Iterator<Item = i16> {
+    fn generate_k_ta_pixels(data: &mut &[u8]) -> impl Iterator<Item = i32> {
         let source_data: ArrayVec<i8, 4> = (0..4).map(|_| data.get_i8()).collect();
         let source_data = source_data.into_inner().unwrap();
         Self::repeat_chessboard(source_data)
@@ -260,13 +260,13 @@ impl Mlx90640Calibration {
         // Skip the first 16 words, they're irrelevant
         buf.advance(WORD_SIZE * 16);
         // alpha_PTAT and offset compensation correction scales
-        let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
+        let (bulk_offset_pixels, offset_correction_remainder_scale, alpha_ptat) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
-            alpha_pixels.into_iter().map(f32::from).collect();
+            alpha_pixels.into_iter().map(|v| v as f32).collect();
         // Safe to unwrap as the length of pixel arrays are *all* Mlx90640::NUM_PIXELS long.
         let mut alpha_pixels = alpha_pixels.into_inner().unwrap();
         // Calculate the actual alpha scaling value from the exponent value. The alpha scaling
@@ -338,15 +338,19 @@ impl Mlx90640Calibration {
         let mut outlier_pixels = FlagArray::default();
         // Calculate the rest of the per-pixel data using the remainder/k_ta data
         let mut k_ta_pixels = [0f32; Mlx90640::NUM_PIXELS];
+        let mut offset_reference_pixels = [0i16; Mlx90640::NUM_PIXELS];
         offset_reference_pixels
             .iter_mut()
+            .zip(bulk_offset_pixels)
             .zip(alpha_pixels.iter_mut())
             .zip(lazy_k_ta_pixels)
             .zip(k_ta_pixels.iter_mut())
             .zip(failed_pixels.iter_mut())
             .zip(outlier_pixels.iter_mut())
             .for_each(
-                |(((((offset, alpha), k_ta_rc), k_ta), mut failed), mut outlier)| {
+                |((((((offset, bulk_offset), alpha), k_ta_rc), k_ta), mut failed), mut outlier)| {
+                    // The sums are done with 32 bits, as large scales overflow 16 bits.
+                    let mut full_offset = bulk_offset;
                     let high = buf.get_u8();
                     let low = buf.get_u8();
                     // If both bytes are 0, this is a failed pixel
@@ -354,24 +358,26 @@ impl Mlx90640Calibration {
                         failed.set(true);
                     } else {
                         // Normal dance to extend the sign bit from an i6 to an i8
-                        let offset_remainder = i16::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
-                        *offset += offset_remainder << offset_correction_remainder_scale;
+                        let offset_remainder = i32::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
+                        full_offset += offset_remainder << offset_correction_remainder_scale;
                         // alpha is going to be a little weird: not only is there the i6-shift-dance,
                         // but there's an extra shift right by 4 to drop the k_ta and outlier bits.
-                        let alpha_remainder = (i16::from_be_bytes([high & 0x03, low]) << 6) >> 10;
-                        *alpha += f32::from(alpha_remainder << alpha_correction_remainder_scale);
+                        let alpha_remainder =
+                            i32::from((i16::from_be_bytes([high & 0x03, low]) << 6) >> 10);
+                        *alpha += (alpha_remainder << alpha_correction_remainder_scale) as f32;
                         *alpha /= alpha_scale;
                         // To try to keep floating point errors down as long as possible, do all the
                         // operations for the numerator as ints, then convert to floats for the final
                         // division.
-                        let k_ta_remainder = i16::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
+                        let k_ta_remainder = i32::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
                         let k_ta_numerator =
-                            f32::from(k_ta_rc + (k_ta_remainder << k_ta_scale2_exp));
+                            (k_ta_rc + (k_ta_remainder << k_ta_scale2_exp)) as f32;
                         *k_ta = k_ta_numerator / k_ta_scale1;
                         // If the last bit of the low byte is set, this is an outlier (or deviant)
                         // pixel.
                         outlier.set(is_bit_set(low, 0))
                     }
+                    *offset = full_offset.clamp(i16::MIN.into(), i16::MAX.into()) as i16;
                 },
             );
         Ok(Self {
-- 
2.43.0


From 4b3c8353e3797018a395747b77e95fe5896befa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 04/10] fix: read the MLX90640 sensitivity average as an
 unsigned value

The datasheet defines alpha_average as an unsigned word, unlike the offset
average. Averages of 0x8000 and up gave negative sensitivities.
---
 mlx9064x/src/mlx90640/eeprom.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 2b08307..9cd939b 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -87,17 +87,20 @@ impl Mlx90640Calibration {
     /// Remainder data will be added in afterwards. This function is used for both offset and
     /// sensitivity (alpha) arrays. The given buffer must be at the word containing the column, row
     /// and remainder scaling factors.
+    /// `average` converts the word holding the average: the offset average is signed, the sensitivity
+    /// average is unsigned.
     /// The calculated array, the remainder scaling factor, and the value occupying the 4 bits
     /// preceding the scaling factors are returned (in that order).
     fn calculate_bulk_pixel_calibration(
         data: &mut &[u8],
+        average: fn([u8; WORD_SIZE]) -> i32,
     ) -> ([i32; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
         let (extra_value, row_scale, column_scale, remainder_scale) = {
             let scales = word_to_u4s(data);
             (scales[0], scales[1], scales[2], scales[3])
         };
-        let offset_average = i32::from(data.get_i16());
-        let mut pixel_calibration = [offset_average; Mlx90640::NUM_PIXELS];
+        let average = average([data.get_u8(), data.get_u8()]);
+        let mut pixel_calibration = [average; Mlx90640::NUM_PIXELS];
         const VALUES_PER_DATA_ROW: usize = 4;
         // Add row offsets
         for row_chunks in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH * VALUES_PER_DATA_ROW)
@@ -261,10 +264,14 @@ impl Mlx90640Calibration {
         buf.advance(WORD_SIZE * 16);
         // alpha_PTAT and offset compensation correction scales
         let (bulk_offset_pixels, offset_correction_remainder_scale, alpha_ptat) =
-            Self::calculate_bulk_pixel_calibration(&mut buf);
+            Self::calculate_bulk_pixel_calibration(&mut buf, |word| {
+                i16::from_be_bytes(word).into()
+            });
         let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
-            Self::calculate_bulk_pixel_calibration(&mut buf);
+            Self::calculate_bulk_pixel_calibration(&mut buf, |word| {
+                u16::from_be_bytes(word).into()
+            });
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
             alpha_pixels.into_iter().map(|v| v as f32).collect();
         // Safe to unwrap as the length of pixel arrays are *all* Mlx90640::NUM_PIXELS long.
@@ -370,8 +377,7 @@ impl Mlx90640Calibration {
                         // operations for the numerator as ints, then convert to floats for the final
                         // division.
                         let k_ta_remainder = i32::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
-                        let k_ta_numerator =
-                            (k_ta_rc + (k_ta_remainder << k_ta_scale2_exp)) as f32;
+                        let k_ta_numerator = (k_ta_rc + (k_ta_remainder << k_ta_scale2_exp)) as f32;
                         *k_ta = k_ta_numerator / k_ta_scale1;
                         // If the last bit of the low byte is set, this is an outlier (or deviant)
                         // pixel.
-- 
2.43.0


From 39b985aca8ee174a71554f1a5fc0e95f36a2079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 05/10] fix: return an error for MLX90641 EEPROM buffers that
 are too short

Mlx90641Calibration::from_data() panicked on them, unlike the MLX90640.
---
 mlx9064x/src/mlx90641/eeprom.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 44da0cb..103ea96 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -28,6 +28,10 @@ use super::Mlx90641;
 /// The number of corner temperatures an MLX90641 has.
 const NUM_CORNER_TEMPERATURES: usize = 8;
 
+/// The size of the EEPROM in bytes. The end address is inclusive.
+const EEPROM_LENGTH: usize =
+    (EepromAddress::End as usize - EepromAddress::Base as usize + 1) * WORD_SIZE;
+
 type FlagSlice = BitSlice<usize>;
 type FlagArray = BitArray<[usize; Mlx90641::NUM_PIXELS / usize::BITS as usize]>;
 
@@ -83,6 +87,11 @@ pub struct Mlx90641Calibration {
 
 impl Mlx90641Calibration {
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
+        if data.len() < EEPROM_LENGTH {
+            return Err(LibraryError::Other(
+                "Not enough space left in buffer to be a full EEPROM dump",
+            ));
+        }
         let mut buf = data;
         // Much like the MLX90640 implementation, this is a mess of a function as the data is
         // scattered across the EEPROM.
@@ -215,8 +224,6 @@ where
 
     fn from_i2c(bus: &mut I2C, i2c_address: u8) -> Result<Self, Error<I2C>> {
         // Dump the EEPROM. Both cameras use the same size and starting offset for their EEPROM.
-        const EEPROM_LENGTH: usize =
-            (EepromAddress::End as usize - EepromAddress::Base as usize + 1) * 2;
         let mut eeprom_buf = [0u8; EEPROM_LENGTH];
         let eeprom_base: Address = EepromAddress::Base.into();
         bus.write_read(i2c_address, &eeprom_base.as_bytes(), &mut eeprom_buf)
-- 
2.43.0


From adaa4dd74c483f0b619b4b89bdb73cb5076115be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 06/10] fix: use all 16 bits of the MLX90641 offset average

The average is assembled from two EEPROM words into a 16-bit value, but was
then cut down to 11 bits, which broke averages outside of -1024..=1023.
---
 mlx9064x/src/mlx90641/eeprom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 103ea96..a0a552e 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -352,7 +352,7 @@ impl PerPixelCalibration {
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
         let offset_scale = 2i16.pow(offset_scale as u32);
         let offset_average_bytes = get_combined_word(&mut buf)?;
-        let offset_average = i16_from_i11(&offset_average_bytes[..]);
+        let offset_average = i16::from_be_bytes(offset_average_bytes);
         // the next two words are reserved.
         buf.advance(WORD_SIZE * 2);
         let k_ta_average = get_hamming_i16(&mut buf)?;
-- 
2.43.0


From 7e8986027a725464db78a56d1c3084ddbcb32467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 07/10] fix: don't overflow while calculating MLX90641 pixel
 offsets

The scale is a 6-bit exponent; scales of 5 and up can overflow an i16 (and 15
and up overflow the scale itself), which panicked in debug builds and wrapped
around in release builds. Calculate with 32 bits and saturate.
---
 mlx9064x/src/mlx90641/eeprom.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index a0a552e..9c0e356 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -350,7 +350,9 @@ impl PerPixelCalibration {
         buf.advance(EepromAddress::OffsetCompensationScale.offset_from_base() * WORD_SIZE);
         // Offset scale is the upper 6 bits. The other bits are reserved.
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
-        let offset_scale = 2i16.pow(offset_scale as u32);
+        // Offset deltas are at most 10 bits plus the sign, so everything scaled by more than 20 bits
+        // is out of range of an i16 anyways.
+        let offset_scale = 2i32.pow(u32::from(offset_scale).min(20));
         let offset_average_bytes = get_combined_word(&mut buf)?;
         let offset_average = i16::from_be_bytes(offset_average_bytes);
         // the next two words are reserved.
@@ -435,16 +437,13 @@ impl PerPixelCalibration {
                 k_ta_pixels.push(Default::default());
                 k_v_pixels.push(Default::default());
             } else {
-                // NOTE: There's a chance this will overflow, if offset_scale is too large
-                let offset_delta_0 = offset_0_raw * offset_scale;
-                let offset_delta_1 = offset_1_raw * offset_scale;
-                // The contents of the offset pixels are initialized to offset_average
-                offset_reference_pixels
-                    .0
-                    .push(offset_average + offset_delta_0);
-                offset_reference_pixels
-                    .1
-                    .push(offset_average + offset_delta_1);
+                // Large scales overflow 16 bits, so sum with 32 bits and saturate
+                let offset_fn = |raw_value: i16| {
+                    let offset = i32::from(offset_average) + i32::from(raw_value) * offset_scale;
+                    offset.clamp(i16::MIN.into(), i16::MAX.into()) as i16
+                };
+                offset_reference_pixels.0.push(offset_fn(offset_0_raw));
+                offset_reference_pixels.1.push(offset_fn(offset_1_raw));
                 // The datasheet is a little hard to read for this, but alpha_EE is divided by
                 // (2^{11} - 1) = 2047
                 alpha_pixels.push((f32::from(alpha_raw) / 2047f32) * alpha_reference);
-- 
2.43.0


From 2568e4e3fd8e88dc0733a76fd3da2a21c9480cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 08/10] fix: don't overflow when calculating the supply voltage
 difference

Both values are full 16-bit values, so their difference doesn't fit in an i16.
---
 mlx9064x/src/calculations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 75bd682..7b0b0a6 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -159,7 +159,7 @@ const KELVINS_TO_CELSIUS: f32 = 273.15;
 /// while $V_{DD_{pix}}$ (`v_dd_pixel`) is read from the camera's RAM.
 #[doc = include_str!("katex.html")]
 pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i16) -> f32 {
-    f32::from(v_dd_pixel - calibration.v_dd_25()) / f32::from(calibration.k_v_dd())
+    (f32::from(v_dd_pixel) - f32::from(calibration.v_dd_25())) / f32::from(calibration.k_v_dd())
 }
 
 /// Calculate $V_{DD}$
-- 
2.43.0


From 80dfc040d9eb137d21b5e871b177b8c69146e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 09/10] fix: apply the ADC resolution correction to V_DD as
 documented

The datasheet scales only the RAM value by the correction, not V_DD_25, so
V_DD was wrong whenever the camera used a resolution other than the one it was
calibrated with.
---
 mlx9064x/src/calculations.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 7b0b0a6..d5600ff 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -172,7 +172,8 @@ pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i
 /// \begin{align*}
 /// V\_{DD} &= \frac{\text{Resolution}\_\text{corr} \* V\_{DD\_{pix}} - V\_{DD\_{25}}}{K\_{V\_{DD}}} +
 ///          V\_{DD\_0}\newline
-///         &= \text{Resolution}\_\text{corr} * \Delta V + V\_{DD\_0}
+///         &= \text{Resolution}\_\text{corr} * \Delta V +
+///            \frac{(\text{Resolution}\_\text{corr} - 1) * V\_{DD\_{25}}}{K\_{V\_{DD}}} + V\_{DD\_0}
 /// \end{align*}
 ///
 /// $V_{DD_{0}}$ is retrieved from the `calibration` argument, while $\Delta V$ (`delta_v`) is the
@@ -187,7 +188,11 @@ pub fn v_dd<'a, Clb: CalibrationData<'a>>(
     resolution_correction: f32,
     delta_v: f32,
 ) -> f32 {
-    delta_v * resolution_correction + calibration.v_dd_0()
+    // delta_v is relative to V_DD_25, which isn't scaled by the resolution correction.
+    let v_dd_25_ratio = f32::from(calibration.v_dd_25()) / f32::from(calibration.k_v_dd());
+    delta_v * resolution_correction
+        + (resolution_correction - 1f32) * v_dd_25_ratio
+        + calibration.v_dd_0()
 }
 
 /// Calculate $V\_{PTAT\_{art}}$
-- 
2.43.0


From 42cace3c68e14d8a8e07f28e9ab829f3cb3332bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 10/10] fix: keep the cached settings when writing the control
 register fails

The access pattern and resolution were updated before the write, so after a bus
error frames were processed with settings the camera doesn't have.
---
 mlx9064x/src/driver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/driver.rs b/mlx9064x/src/driver.rs
index 2bd10e1..6659b2b 100644
--- a/mlx9064x/src/driver.rs
+++ b/mlx9064x/src/driver.rs
@@ -161,8 +161,9 @@ where
     }
 
     fn set_control_register(&mut self, register: ControlRegister) -> Result<(), Error<I2C>> {
-        self.update_control_register(&register);
         register.to_i2c(&mut self.bus, self.address)?;
+        // Only keep the new settings once the camera has them
+        self.update_control_register(&register);
         Ok(())
     }
 
-- 
2.43.0

