From 127454b7b3dc1b79ff30257a37f6df38855afa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:56 +0000
Subject: [PATCH 01/31] fix: ljpeg: don't resolve 16 bit differences from bits
 that were not peeked at

---
 src/decoders/ljpeg/huffman.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index 9d128cb..c394601 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -235,10 +235,12 @@ impl HuffTable {
       }
 
       if rv == 16 {
-        self.bigtable[i] = if self.dng_bug {
-          (-(32768 << 8)) | (16 + l as i32)
+        // Only usable if everything it consumes is part of the bits we've peeked at
+        let len = if self.dng_bug {16 + l} else {l};
+        self.bigtable[i] = if len > BIG_TABLE_BITS {
+          0xff
         } else {
-          (-(32768 << 8)) | l as i32
+          (-(32768 << 8)) | len as i32
         };
         continue
       }
-- 
2.43.0


From 4e9b53633d85ad5f77d282defee484c4e42c7973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:56 +0000
Subject: [PATCH 02/31] fix: keep lookup table interpolation inside the 16 bit
 range

---
 src/decoders/basics.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index cd1ef7d..434c4f9 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -112,8 +112,9 @@ impl LookupTable {
       let center = table[i];
       let lower = if i > 0 {table[i-1]} else {center};
       let upper = if i < (table.len()-1) {table[i+1]} else {center};
-      let base = if center == 0 {0} else {center - ((upper - lower + 2) / 4)};
-      let delta = upper - lower;
+      let delta = upper.saturating_sub(lower);
+      // Steep curves can go below zero close to black so stop there
+      let base = if center == 0 {0} else {center.saturating_sub(((delta as u32 + 2) / 4) as u16)};
       tbl[i] = (center, base, delta);
     }
     LookupTable {
@@ -132,6 +133,6 @@ impl LookupTable {
     let delta = sdelta as u32;
     let pixel = base + ((delta * (*rand & 2047) + 1024) >> 12);
     *rand = 15700 * (*rand & 65535) + (*rand >> 16);
-    pixel as u16
+    if pixel > 65535 {65535} else {pixel as u16}
   }
 }
-- 
2.43.0


From 78112c530b9a4e33c4862778453686e358ed070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:56 +0000
Subject: [PATCH 03/31] fix: dng: decode 4 component ljpeg tiles into their own
 position

---
 src/decoders/ljpeg/decompressors.rs | 28 ++++++++++++++--------------
 src/decoders/ljpeg/mod.rs           |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/decoders/ljpeg/decompressors.rs b/src/decoders/ljpeg/decompressors.rs
index 430e71f..b39484e 100644
--- a/src/decoders/ljpeg/decompressors.rs
+++ b/src/decoders/ljpeg/decompressors.rs
@@ -92,7 +92,7 @@ pub fn decode_ljpeg_3components(ljpeg: &LjpegDecompressor, out: &mut [u16], x: u
   Ok(())
 }
 
-pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], width: usize, height: usize) -> Result<(),String> {
+pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], x: usize, stripwidth:usize, width: usize, height: usize) -> Result<(),String> {
   if ljpeg.sof.width*4 < width || ljpeg.sof.height < height {
     return Err(format!("ljpeg: trying to decode {}x{} into {}x{}",
                        ljpeg.sof.width*4, ljpeg.sof.height,
@@ -105,21 +105,21 @@ pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], widt
   let mut pump = BitPumpJPEG::new(ljpeg.buffer);
 
   let base_prediction = 1 << (ljpeg.sof.precision - ljpeg.point_transform -1);
-  out[0] = (base_prediction + try!(htable1.huff_decode(&mut pump))) as u16;
-  out[1] = (base_prediction + try!(htable2.huff_decode(&mut pump))) as u16;
-  out[2] = (base_prediction + try!(htable3.huff_decode(&mut pump))) as u16;
-  out[3] = (base_prediction + try!(htable4.huff_decode(&mut pump))) as u16;
+  out[x] =   (base_prediction + try!(htable1.huff_decode(&mut pump))) as u16;
+  out[x+1] = (base_prediction + try!(htable2.huff_decode(&mut pump))) as u16;
+  out[x+2] = (base_prediction + try!(htable3.huff_decode(&mut pump))) as u16;
+  out[x+3] = (base_prediction + try!(htable4.huff_decode(&mut pump))) as u16;
   let skip_x = ljpeg.sof.width - width/4;
 
   for row in 0..height {
-    let startcol = if row == 0 {4} else {0};
-    for col in (startcol..width).step(4) {
-      let pos = if col == 0 {
+    let startcol = if row == 0 {x+4} else {x};
+    for col in (startcol..(width+x)).step(4) {
+      let pos = if col == x {
         // At start of line predictor starts with start of previous line
-        (row-1)*width
+        (row-1)*stripwidth+x
       } else {
         // All other cases use the two previous pixels in the same line
-        row*width+col-4
+        row*stripwidth+col-4
       };
 
       let (p1,p2,p3,p4) = (out[pos],out[pos+1],out[pos+2],out[pos+3]);
@@ -128,10 +128,10 @@ pub fn decode_ljpeg_4components(ljpeg: &LjpegDecompressor, out: &mut [u16], widt
       let diff2 = try!(htable2.huff_decode(&mut pump));
       let diff3 = try!(htable3.huff_decode(&mut pump));
       let diff4 = try!(htable4.huff_decode(&mut pump));
-      out[row*width+col] = ((p1 as i32) + diff1) as u16;
-      out[row*width+col+1] = ((p2 as i32) + diff2) as u16;
-      out[row*width+col+2] = ((p3 as i32) + diff3) as u16;
-      out[row*width+col+3] = ((p4 as i32) + diff4) as u16;
+      out[row*stripwidth+col] = ((p1 as i32) + diff1) as u16;
+      out[row*stripwidth+col+1] = ((p2 as i32) + diff2) as u16;
+      out[row*stripwidth+col+2] = ((p3 as i32) + diff3) as u16;
+      out[row*stripwidth+col+3] = ((p4 as i32) + diff4) as u16;
     }
     // Skip extra encoded differences if the ljpeg frame is wider than the output
     for _ in 0..skip_x {
diff --git a/src/decoders/ljpeg/mod.rs b/src/decoders/ljpeg/mod.rs
index 5e0e0f5..b4421a4 100644
--- a/src/decoders/ljpeg/mod.rs
+++ b/src/decoders/ljpeg/mod.rs
@@ -256,7 +256,7 @@ impl<'a> LjpegDecompressor<'a> {
         match self.sof.cps {
           2 => decode_ljpeg_2components(self, out, x, stripwidth, width, height),
           3 => decode_ljpeg_3components(self, out, x, stripwidth, width, height),
-          4 => decode_ljpeg_4components(self, out, width, height),
+          4 => decode_ljpeg_4components(self, out, x, stripwidth, width, height),
           c => return Err(format!("ljpeg: {} component files not supported", c).to_string()),
         }
       },
-- 
2.43.0


From 9d56a18ee346c0259f3037b26171beeb36fe0a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:06 +0000
Subject: [PATCH 04/31] fix: clampbits must saturate to 2^bits-1, not to -1

The arithmetic shift turned every value above the range into -1, so
anything using less than 16 bits got 65535 instead of the maximum.
---
 src/decoders/basics.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index 434c4f9..a3b4b16 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -10,7 +10,8 @@ pub use decoders::pumps::*;
 pub fn clampbits(val: i32, bits: u32) -> i32 {
   let temp = val >> bits;
   if temp != 0 {
-    !temp >> (32-bits)
+    // Needs to be a logical shift so that overflow saturates to (1<<bits)-1
+    ((!temp as u32) >> (32-bits)) as i32
   } else {
     val
   }
-- 
2.43.0


From 05d367b1993e411fd5d0ce31475cd1503395f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:52 +0000
Subject: [PATCH 05/31] fix: decode the rows after the split in lossy NEF files

The values in the after split trees hold both a length and a shift. Using
them as a plain length made every such file fail to decode.
---
 src/decoders/nef.rs | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/decoders/nef.rs b/src/decoders/nef.rs
index 894402c..e654b7e 100644
--- a/src/decoders/nef.rs
+++ b/src/decoders/nef.rs
@@ -209,7 +209,7 @@ impl<'a> NefDecoder<'a> {
     }
   }
 
-  fn create_hufftable(&self, num: usize, bps: usize) -> Result<HuffTable,String> {
+  fn create_hufftable(&self, num: usize, bps: usize, after_split: bool) -> Result<HuffTable,String> {
     let mut htable = HuffTable::empty(bps);
 
     let mut acc = 0 as usize;
@@ -223,10 +223,32 @@ impl<'a> NefDecoder<'a> {
       htable.huffval[i] = NIKON_TREE[num][i+16] as u32;
     }
 
-    try!(htable.initialize(true));
+    // The values in the after split trees aren't plain lengths so they can't
+    // be used to pre-calculate differences
+    try!(htable.initialize(!after_split));
     Ok(htable)
   }
 
+  // The values in the after split trees are the length of the difference and,
+  // in the top bits, how many of its low bits have not been stored
+  fn decode_diff(htable: &HuffTable, pump: &mut BitPumpMSB, after_split: bool) -> Result<i32,String> {
+    if !after_split {
+      return htable.huff_decode(pump)
+    }
+
+    let val = try!(htable.huff_len(pump));
+    let len = val & 15;
+    let shift = val >> 4;
+    if len == 0 {
+      return Ok(0)
+    }
+    let mut diff = (((pump.get_bits(len - shift) as i32) << 1) + 1) << shift >> 1;
+    if (diff & (1 << (len - 1))) == 0 {
+      diff -= (1 << len) - (if shift == 0 {1} else {0});
+    }
+    Ok(diff)
+  }
+
   fn decode_compressed(&self, src: &[u8], width: usize, height: usize, bps: usize) -> Result<Vec<u16>, String> {
     let metaifd = fetch_ifd!(self.tiff, Tag::NefMeta1);
     let meta = if let Some(meta) = metaifd.find_entry(Tag::NefMeta2) {meta} else {
@@ -249,7 +271,7 @@ impl<'a> NefDecoder<'a> {
     }
 
     // Create the huffman table used to decode
-    let mut htable = try!(self.create_hufftable(huff_select, bps));
+    let mut htable = try!(self.create_hufftable(huff_select, bps, false));
 
     // Setup the predictors
     let mut pred_up1: [i32;2] = [stream.get_u16() as i32, stream.get_u16() as i32];
@@ -289,18 +311,20 @@ impl<'a> NefDecoder<'a> {
     let mut pump = BitPumpMSB::new(src);
     let mut random = pump.peek_bits(24);
 
+    let mut after_split = false;
     for row in 0..height {
       if split > 0 && row == split {
-        htable = try!(self.create_hufftable(huff_select+1, bps));
+        after_split = true;
+        htable = try!(self.create_hufftable(huff_select+1, bps, after_split));
       }
-      pred_up1[row&1] += try!(htable.huff_decode(&mut pump));
-      pred_up2[row&1] += try!(htable.huff_decode(&mut pump));
+      pred_up1[row&1] += try!(Self::decode_diff(&htable, &mut pump, after_split));
+      pred_up2[row&1] += try!(Self::decode_diff(&htable, &mut pump, after_split));
       let mut pred_left1 = pred_up1[row&1];
       let mut pred_left2 = pred_up2[row&1];
       for col in (0..width).step(2) {
         if col > 0 {
-          pred_left1 += try!(htable.huff_decode(&mut pump));
-          pred_left2 += try!(htable.huff_decode(&mut pump));
+          pred_left1 += try!(Self::decode_diff(&htable, &mut pump, after_split));
+          pred_left2 += try!(Self::decode_diff(&htable, &mut pump, after_split));
         }
         out[row*width+col+0] = curve.dither(clampbits(pred_left1,15) as u16, &mut random);
         out[row*width+col+1] = curve.dither(clampbits(pred_left2,15) as u16, &mut random);
-- 
2.43.0


From 3e8eade4e12daa4f0da168c9cbd21b0c762b47cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:23 +0000
Subject: [PATCH 06/31] fix: 10 bit unpacking must take the low bits of the
 third sample from the fourth byte

---
 src/decoders/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/packed.rs b/src/decoders/packed.rs
index 0b270d6..fc7a18e 100644
--- a/src/decoders/packed.rs
+++ b/src/decoders/packed.rs
@@ -52,7 +52,7 @@ pub fn decode_10le(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
 
       o[0] = g1 << 2  | g2 >> 6;
       o[1] = (g2 & 0x3f) << 4 | g3 >> 4;
-      o[2] = (g3 & 0x0f) << 6 | g3 >> 2;
+      o[2] = (g3 & 0x0f) << 6 | g4 >> 2;
       o[3] = (g4 & 0x03) << 8 | g5;
     }
   }))
-- 
2.43.0


From c437879a008b1f446b6311c7054760926fde1ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:23 +0000
Subject: [PATCH 07/31] fix: dng: uncompressed 16 bit data follows the byte
 order of the file

---
 src/decoders/dng.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 98aab16..7e132b4 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -156,7 +156,11 @@ impl<'a> DngDecoder<'a> {
     let src = &self.buffer[offset..];
 
     match fetch_tag!(raw, Tag::BitsPerSample).get_u32(0) {
-      16  => Ok(decode_16le(src, width, height)),
+      16  => if self.tiff.little_endian() {
+        Ok(decode_16le(src, width, height))
+      } else {
+        Ok(decode_16be(src, width, height))
+      },
       12  => Ok(decode_12be(src, width, height)),
       10  => Ok(decode_10le(src, width, height)),
       8   => {
-- 
2.43.0


From af79ad34326c0ca24c4c8f347160fc9bbcb789e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:41 +0000
Subject: [PATCH 08/31] fix: three component images must be read three samples
 per pixel

---
 src/imageops/gofloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imageops/gofloat.rs b/src/imageops/gofloat.rs
index dc1d483..9e39976 100644
--- a/src/imageops/gofloat.rs
+++ b/src/imageops/gofloat.rs
@@ -24,7 +24,7 @@ pub fn convert(img: &RawImage) -> OpBuffer {
     // We're in an RGB image, turn it into four channel
     let mut out = OpBuffer::new(width, height, 4);
     out.mutate_lines(&(|line: &mut [f32], row| {
-      for (o, i) in line.chunks_mut(4).zip(img.data[img.width*(row+y)+x..].chunks(3)) {
+      for (o, i) in line.chunks_mut(4).zip(img.data[(img.width*(row+y)+x)*3..].chunks(3)) {
         o[0] = i[0] as f32;
         o[1] = i[1] as f32;
         o[2] = i[2] as f32;
-- 
2.43.0


From 45c09d4fdd90b66010011bbde7b2ca333b5b8e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:41 +0000
Subject: [PATCH 09/31] fix: step rows by the vertical and columns by the
 horizontal factor when scaling down

---
 src/imageops/demosaic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index b8de1ce..24bd0dd 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -97,8 +97,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
   let mut out = OpBuffer::new(nwidth, nheight, 4);
   let crop_cfa = img.cropped_cfa();
 
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
@@ -133,8 +133,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
 
 pub fn scale_down(buf: &OpBuffer, nwidth: usize, nheight: usize) -> OpBuffer {
   let mut out = OpBuffer::new(nwidth, nheight, buf.colors);
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
-- 
2.43.0


From a3f1b4bcc712db037b56a362bec44db49d15fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:41 +0000
Subject: [PATCH 10/31] fix: scaling down must never produce an empty image

---
 src/imageops/demosaic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index 24bd0dd..37f6105 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -10,9 +10,9 @@ pub fn demosaic_and_scale(img: &RawImage, buf: &OpBuffer, maxwidth: usize, maxhe
     let xscale = (buf.width as f32) / (maxwidth as f32);
     let yscale = (buf.height as f32) / (maxheight as f32);
     if yscale > xscale {
-      (yscale, ((buf.width as f32)/yscale) as usize, maxheight)
+      (yscale, cmp::max(1, ((buf.width as f32)/yscale) as usize), maxheight)
     } else {
-      (xscale, maxwidth, ((buf.height as f32)/xscale) as usize)
+      (xscale, maxwidth, cmp::max(1, ((buf.height as f32)/xscale) as usize))
     }
   };
 
-- 
2.43.0


From dfb7ccaf16cd88a7e30d74553633bda8740f8899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:41 +0000
Subject: [PATCH 11/31] fix: the X component of the D65 white point is 0.95047

---
 src/decoders/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/image.rs b/src/decoders/image.rs
index 4e3b311..631a1a1 100644
--- a/src/decoders/image.rs
+++ b/src/decoders/image.rs
@@ -125,7 +125,7 @@ impl RawImage {
   }
 
   fn xyz_matrix_and_neutralwb(&self) -> ([[f32;4];3],[f32;4]) {
-    let d65_white = [0.9547,1.0,1.08883];
+    let d65_white = [0.95047,1.0,1.08883];
     let rgb_to_xyz = [
     // sRGB D65
       [ 0.412453, 0.357580, 0.180423 ],
-- 
2.43.0


From 97bbfea39002087cac83320f3e88a63b5362065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:52 +0000
Subject: [PATCH 12/31] fix: keep neutral colors neutral by using the right
 white points around Lab

---
 src/imageops/colorspaces.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/colorspaces.rs b/src/imageops/colorspaces.rs
index eaa0532..4c6a9a0 100644
--- a/src/imageops/colorspaces.rs
+++ b/src/imageops/colorspaces.rs
@@ -79,8 +79,8 @@ fn xyz_to_rec709_matrix() -> [[f32;3];3] {
 }
 
 fn xyz_to_lab(x: f32, y: f32, z: f32) -> (f32,f32,f32) {
-  // D50 White
-  let xw = 0.9642; let yw = 1.000; let zw = 0.8249;
+  // The XYZ values from cam_to_xyz() are already relative to white
+  let xw = 1.000; let yw = 1.000; let zw = 1.000;
 
   let l = 116.0 * labf(y/yw) - 16.0;
   let a = 500.0 * (labf(x/xw) - labf(y/yw));
@@ -118,8 +118,8 @@ fn labf(val: f32) -> f32 {
 }
 
 fn lab_to_xyz(l: f32, a: f32, b: f32) -> (f32,f32,f32) {
-  // D50 White
-  let xw = 0.9642; let yw = 1.000; let zw = 0.8249;
+  // D65 White, the one the rec709 matrix expects
+  let xw = 0.95047; let yw = 1.000; let zw = 1.08883;
 
   let cl = l * 100.0;
   let ca = (a * 256.0) - 128.0;
-- 
2.43.0


From 63c4caa713301a5f124446b2767ac9a14bc80d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:59 +0000
Subject: [PATCH 13/31] fix: average the masked border without losing precision

---
 src/decoders/image.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/decoders/image.rs b/src/decoders/image.rs
index 631a1a1..1615635 100644
--- a/src/decoders/image.rs
+++ b/src/decoders/image.rs
@@ -64,26 +64,25 @@ pub struct SRGBImage {
 impl RawImage {
   #[doc(hidden)] pub fn new(camera: Camera, width: usize, height: usize, wb_coeffs: [f32;4], image: Vec<u16>) -> RawImage {
     let blacks = if camera.blackareah.1 != 0 || camera.blackareav.1 != 0 {
-      let mut avg = [0 as f32; 4];
-      let mut count = [0 as f32; 4];
+      // Sum as integers, a f32 runs out of precision on full size images
+      let mut avg = [0 as u64; 4];
+      let mut count = [0 as u64; 4];
       for row in camera.blackareah.0 .. camera.blackareah.0+camera.blackareah.1 {
         for col in 0..width {
           let color = camera.cfa.color_at(row,col);
-          avg[color] += image[row*width+col] as f32;
-          count[color] += 1.0;
+          avg[color] += image[row*width+col] as u64;
+          count[color] += 1;
         }
       }
       for row in 0..height {
         for col in camera.blackareav.0 .. camera.blackareav.0+camera.blackareav.1 {
           let color = camera.cfa.color_at(row,col);
-          avg[color] += image[row*width+col] as f32;
-          count[color] += 1.0;
+          avg[color] += image[row*width+col] as u64;
+          count[color] += 1;
         }
       }
-      [(avg[0]/count[0]) as u16,
-       (avg[1]/count[1]) as u16,
-       (avg[2]/count[2]) as u16,
-       (avg[3]/count[3]) as u16]
+      let level = |i: usize| if count[i] == 0 {0} else {(avg[i]/count[i]) as u16};
+      [level(0), level(1), level(2), level(3)]
     } else {
       camera.blacklevels
     };
-- 
2.43.0


From 5f39a1a9da75e7a892ad8aced05effebce530308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:59 +0000
Subject: [PATCH 14/31] fix: pef: blue black level is the fourth of the RGGB
 levels

---
 src/decoders/pef.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/pef.rs b/src/decoders/pef.rs
index 2150809..97baa9e 100644
--- a/src/decoders/pef.rs
+++ b/src/decoders/pef.rs
@@ -52,8 +52,9 @@ impl<'a> PefDecoder<'a> {
   fn get_blacklevels(&self) -> Option<[u16;4]> {
     match self.tiff.find_entry(Tag::PefBlackLevels) {
       Some(levels) => {
+        // The levels are in RGGB order while the image uses RGBE
         Some([levels.get_f32(0) as u16,levels.get_f32(1) as u16,
-             levels.get_f32(2) as u16,levels.get_f32(3) as u16])
+             levels.get_f32(3) as u16,levels.get_f32(2) as u16])
       },
       None => None,
     }
-- 
2.43.0


From 59bbfe7312b3e76f883371ba09de149960f1b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:59 +0000
Subject: [PATCH 15/31] fix: orientation values that don't fit in 16 bits are
 invalid

---
 src/decoders/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoders/mod.rs b/src/decoders/mod.rs
index 59abd25..81c8dd3 100644
--- a/src/decoders/mod.rs
+++ b/src/decoders/mod.rs
@@ -227,7 +227,10 @@ impl Orientation {
   /// value or contains no orientation data `Orientation::Unknown` is returned
   fn from_tiff(tiff: &TiffIFD) -> Orientation {
     match tiff.find_entry(Tag::Orientation) {
-      Some(entry) => Orientation::from_u16(entry.get_usize(0) as u16),
+      Some(entry) => match entry.get_usize(0) {
+        val if val <= 8 => Orientation::from_u16(val as u16),
+        _ => Orientation::Unknown,
+      },
       None => Orientation::Unknown,
     }
   }
-- 
2.43.0


From 23fa981c45cc567b6b5a14b5bdde317be5ccd0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:41 +0000
Subject: [PATCH 16/31] fix: dng: put the black levels of the filter pattern
 positions on their colors

---
 src/decoders/dng.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 7e132b4..6c85f07 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -61,6 +61,8 @@ impl<'a> Decoder for DngDecoder<'a> {
       }
     };
 
+    let cfa = if linear {CFA::new("")} else {try!(self.get_cfa(raw))};
+
     Ok(RawImage {
       make: make,
       model: model,
@@ -71,10 +73,10 @@ impl<'a> Decoder for DngDecoder<'a> {
       cpp: cpp,
       wb_coeffs: try!(self.get_wb()),
       data: image,
-      blacklevels: try!(self.get_blacklevels(raw)),
+      blacklevels: try!(self.get_blacklevels(raw, &cfa)),
       whitelevels: try!(self.get_whitelevels(raw)),
       xyz_to_cam: try!(self.get_color_matrix()),
-      cfa: if linear {CFA::new("")} else {try!(self.get_cfa(raw))},
+      cfa: cfa,
       crops: try!(self.get_crops(raw, width, height)),
       orientation: orientation,
     })
@@ -90,15 +92,23 @@ impl<'a> DngDecoder<'a> {
     }
   }
 
-  fn get_blacklevels(&self, raw: &TiffIFD) -> Result<[u16;4], String> {
+  fn get_blacklevels(&self, raw: &TiffIFD, cfa: &CFA) -> Result<[u16;4], String> {
     if let Some(levels) = raw.find_entry(Tag::BlackLevels) {
-      if levels.count() < 4 {
-        let black = levels.get_f32(0) as u16;
-        Ok([black, black, black, black])
+      let mut blacks = [levels.get_f32(0) as u16; 4];
+      if cfa.is_valid() {
+        // One level for each position in the pattern, the first of each color counts
+        if levels.count() == cfa.width*cfa.height {
+          for i in (0..levels.count()).rev() {
+            blacks[cfa.color_at(i/cfa.width, i%cfa.width)] = levels.get_f32(i) as u16;
+          }
+        }
       } else {
-        Ok([levels.get_f32(0) as u16,levels.get_f32(1) as u16,
-            levels.get_f32(2) as u16,levels.get_f32(3) as u16])
+        // One level for each component
+        for i in 0..cmp::min(levels.count(), 4) {
+          blacks[i] = levels.get_f32(i) as u16;
+        }
       }
+      Ok(blacks)
     } else {
       Ok([0,0,0,0])
     }
-- 
2.43.0


From 3e4335ef80be7478a561c49247f334dabdc96a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:37 +0000
Subject: [PATCH 17/31] fix: refuse images of impossible size instead of
 aborting on allocation

The sizes come straight from the file, so a damaged one could ask for any
amount of memory. A failed allocation aborts the process, which neither
decode_safe() nor the caller can catch.
---
 src/decoders/arw.rs    |  2 +-
 src/decoders/basics.rs |  4 ++--
 src/decoders/cr2.rs    |  4 ++--
 src/decoders/crw.rs    |  2 +-
 src/decoders/dcr.rs    |  2 +-
 src/decoders/dng.rs    |  2 +-
 src/decoders/mod.rs    | 15 +++++++++++++++
 src/decoders/mos.rs    |  2 +-
 src/decoders/nef.rs    |  2 +-
 src/decoders/orf.rs    |  2 +-
 src/decoders/packed.rs |  4 ++--
 src/decoders/pef.rs    |  2 +-
 src/decoders/raf.rs    |  4 ++--
 src/decoders/srw.rs    |  6 +++---
 src/decoders/tfr.rs    |  2 +-
 15 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/decoders/arw.rs b/src/decoders/arw.rs
index aeccb3b..2bc49eb 100644
--- a/src/decoders/arw.rs
+++ b/src/decoders/arw.rs
@@ -141,7 +141,7 @@ impl<'a> ArwDecoder<'a> {
 
   fn decode_arw1(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
     let mut pump = BitPumpMSB::new(buf);
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image!(width, height);
 
     let mut sum: i32 = 0;
     for x in 0..width {
diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index a3b4b16..7eb3404 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -84,7 +84,7 @@ pub static LITTLE_ENDIAN: Endian = Endian{big: false};
 pub fn decode_threaded<F>(width: usize, height: usize, closure: &F) -> Vec<u16>
   where F : Fn(&mut [u16], usize)+Sync {
 
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out: Vec<u16> = alloc_image!(width, height);
   out.par_chunks_mut(width).enumerate().for_each(|(row, line)| {
     closure(line, row);
   });
@@ -94,7 +94,7 @@ pub fn decode_threaded<F>(width: usize, height: usize, closure: &F) -> Vec<u16>
 pub fn decode_threaded_multiline<F>(width: usize, height: usize, lines: usize, closure: &F) -> Vec<u16>
   where F : Fn(&mut [u16], usize)+Sync {
 
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out: Vec<u16> = alloc_image!(width, height);
   out.par_chunks_mut(width*lines).enumerate().for_each(|(row, line)| {
     closure(line, row*lines);
   });
diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index f8f2688..2c76c14 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -44,7 +44,7 @@ impl<'a> Decoder for Cr2Decoder<'a> {
       let mut width = ljpegwidth;
       let mut height = decompressor.height();
       let cpp = if decompressor.super_h() == 2 {3} else {1};
-      let mut ljpegout = vec![0 as u16; width*height];
+      let mut ljpegout = alloc_image!(width, height);
       try!(decompressor.decode(&mut ljpegout, 0, width, width, height));
 
       // Linearize the output (applies only to D2000 as far as I can tell)
@@ -87,7 +87,7 @@ impl<'a> Decoder for Cr2Decoder<'a> {
         if canoncol.get_usize(0) == 0 {
           (width, height, cpp, ljpegout)
         } else {
-          let mut out = vec![0 as u16; width*height];
+          let mut out = alloc_image!(width, height);
           let mut fieldwidths = Vec::new();
           for _ in 0..canoncol.get_usize(0) {
             fieldwidths.push(canoncol.get_usize(1));
diff --git a/src/decoders/crw.rs b/src/decoders/crw.rs
index 88777d6..3b715f7 100644
--- a/src/decoders/crw.rs
+++ b/src/decoders/crw.rs
@@ -189,7 +189,7 @@ impl<'a> CrwDecoder<'a> {
   }
 
   fn decode_compressed(&self, cam: &Camera, width: usize, height: usize) -> Result<Vec<u16>,String> {
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image!(width, height);
 
     let dectable = fetch_tag!(self.ciff, CiffTag::DecoderTable).get_usize(0);
     if dectable > 2 {
diff --git a/src/decoders/dcr.rs b/src/decoders/dcr.rs
index e18b32a..8143bd9 100644
--- a/src/decoders/dcr.rs
+++ b/src/decoders/dcr.rs
@@ -61,7 +61,7 @@ impl<'a> DcrDecoder<'a> {
   }
 
   fn decode_kodak65000(buf: &[u8], curve: &LookupTable, width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image!(width, height);
     let mut input = ByteStream::new(buf, LITTLE_ENDIAN);
 
     let mut random: u32 = 0;
diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 6c85f07..493f12d 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -196,7 +196,7 @@ impl<'a> DngDecoder<'a> {
       }
       let offset = offsets.get_usize(0);
       let src = &self.buffer[offset..];
-      let mut out = vec![0 as u16; width*height];
+      let mut out = alloc_image!(width, height);
       let decompressor = try!(LjpegDecompressor::new(src));
       try!(decompressor.decode(&mut out, 0, width, width, height));
       Ok(out)
diff --git a/src/decoders/mod.rs b/src/decoders/mod.rs
index 81c8dd3..f45b83b 100644
--- a/src/decoders/mod.rs
+++ b/src/decoders/mod.rs
@@ -24,6 +24,21 @@ macro_rules! fetch_ifd {
   );
 }
 
+// Allocate the samples of an image, refusing sizes that no image has (more than 50000 pixels wide
+// or tall or more than 500MP, with up to 3 components in each row). A failed allocation aborts the
+// process, which isn't something the caller can recover from.
+macro_rules! alloc_image {
+  ($width:expr, $height:expr) => (
+    {
+      let (width, height): (usize, usize) = ($width, $height);
+      if width > 150000 || height > 50000 || width * height > 1500000000 {
+        panic!("Image is too large: {}x{}", width, height);
+      }
+      vec![0 as u16; width*height]
+    }
+  );
+}
+
 extern crate toml;
 use self::toml::Value;
 mod image;
diff --git a/src/decoders/mos.rs b/src/decoders/mos.rs
index 27ba117..18f8fc5 100644
--- a/src/decoders/mos.rs
+++ b/src/decoders/mos.rs
@@ -89,7 +89,7 @@ impl<'a> MosDecoder<'a> {
     let decompressor = try!(LjpegDecompressor::new_full(src, true, true));
     let ljpegout = try!(decompressor.decode_leaf(width, height));
     if cam.find_hint("interlaced") {
-      let mut out = vec![0 as u16; width*height];
+      let mut out = alloc_image!(width, height);
       for (row,line) in ljpegout.chunks(width).enumerate() {
         let orow = if row & 1 == 1 {height-1-row/2} else {row/2};
         out[orow*width .. (orow+1)*width].copy_from_slice(line);
diff --git a/src/decoders/nef.rs b/src/decoders/nef.rs
index e654b7e..278a502 100644
--- a/src/decoders/nef.rs
+++ b/src/decoders/nef.rs
@@ -307,7 +307,7 @@ impl<'a> NefDecoder<'a> {
     }
     let curve = LookupTable::new(&points[0..max]);
 
-    let mut out = vec![0 as u16; width * height];
+    let mut out = alloc_image!(width, height);
     let mut pump = BitPumpMSB::new(src);
     let mut random = pump.peek_bits(24);
 
diff --git a/src/decoders/orf.rs b/src/decoders/orf.rs
index 2ab2802..59550a9 100644
--- a/src/decoders/orf.rs
+++ b/src/decoders/orf.rs
@@ -67,7 +67,7 @@ impl<'a> OrfDecoder<'a> {
    */
 
   pub fn decode_compressed(buf: &'a [u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image!(width, height);
 
     /* Build a table to quickly look up "high" value */
     let mut bittable: [u8; 4096] = [0; 4096];
diff --git a/src/decoders/packed.rs b/src/decoders/packed.rs
index fc7a18e..f4d638d 100644
--- a/src/decoders/packed.rs
+++ b/src/decoders/packed.rs
@@ -74,7 +74,7 @@ pub fn decode_12be(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
 }
 
 pub fn decode_12be_msb16(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out: Vec<u16> = alloc_image!(width, height);
 
   for (o, i) in out.chunks_mut(4).zip(buf.chunks(6)) {
     let g1:  u16 = i[ 0] as u16;
@@ -109,7 +109,7 @@ pub fn decode_12le_16bitaligned(buf: &[u8], width: usize, height: usize) -> Vec<
 }
 
 pub fn decode_12be_msb32(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out: Vec<u16> = alloc_image!(width, height);
 
   for (o, i) in out.chunks_mut(8).zip(buf.chunks(12)) {
     let g1:  u16 = i[ 0] as u16;
diff --git a/src/decoders/pef.rs b/src/decoders/pef.rs
index 97baa9e..c0b9dfc 100644
--- a/src/decoders/pef.rs
+++ b/src/decoders/pef.rs
@@ -122,7 +122,7 @@ impl<'a> PefDecoder<'a> {
     let mut pred_left1: i32;
     let mut pred_left2: i32;
 
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image!(width, height);
     for row in 0..height {
       pred_up1[row & 1] += try!(htable.huff_decode(&mut pump));
       pred_up2[row & 1] += try!(htable.huff_decode(&mut pump));
diff --git a/src/decoders/raf.rs b/src/decoders/raf.rs
index ae8dae2..6c7e64b 100644
--- a/src/decoders/raf.rs
+++ b/src/decoders/raf.rs
@@ -109,7 +109,7 @@ impl<'a> RafDecoder<'a> {
       let rotatedwidth = cropheight + cropwidth/2;
       let rotatedheight = rotatedwidth-1;
 
-      let mut out: Vec<u16> = vec![0; rotatedwidth * rotatedheight];
+      let mut out: Vec<u16> = alloc_image!(rotatedwidth, rotatedheight);
       for row in 0..cropheight {
         let inb = &src[(row+y)*width+x..];
         for col in 0..cropwidth {
@@ -124,7 +124,7 @@ impl<'a> RafDecoder<'a> {
       let rotatedwidth = cropwidth + cropheight/2;
       let rotatedheight = rotatedwidth-1;
 
-      let mut out: Vec<u16> = vec![0; rotatedwidth * rotatedheight];
+      let mut out: Vec<u16> = alloc_image!(rotatedwidth, rotatedheight);
       for row in 0..cropheight {
         let inb = &src[(row+y)*width+x..];
         for col in 0..cropwidth {
diff --git a/src/decoders/srw.rs b/src/decoders/srw.rs
index 5d6c494..923ecf3 100644
--- a/src/decoders/srw.rs
+++ b/src/decoders/srw.rs
@@ -74,7 +74,7 @@ impl<'a> Decoder for SrwDecoder<'a> {
 
 impl<'a> SrwDecoder<'a> {
   pub fn decode_srw1(buf: &[u8], loffsets: &[u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image!(width, height);
 
     for row in 0..height {
       let mut len: [u32; 4] = [if row < 2 {7} else {4}; 4];
@@ -141,7 +141,7 @@ impl<'a> SrwDecoder<'a> {
   }
 
   pub fn decode_srw2(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image!(width, height);
 
     // This format has a variable length encoding of how many bits are needed
     // to encode the difference between pixels, we use a table to process it
@@ -213,7 +213,7 @@ impl<'a> SrwDecoder<'a> {
     // and Loring von Palleske (Samsung) for pointing to the open-source code of
     // Samsung's DNG converter at http://opensource.samsung.com/
 
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image!(width, height);
     let mut pump = BitPumpMSB32::new(buf);
 
     // Process the initial metadata bits, we only really use initVal, width and
diff --git a/src/decoders/tfr.rs b/src/decoders/tfr.rs
index 339be38..a83e8db 100644
--- a/src/decoders/tfr.rs
+++ b/src/decoders/tfr.rs
@@ -41,7 +41,7 @@ impl<'a> TfrDecoder<'a> {
   }
 
   fn decode_compressed(&self, src: &[u8], width: usize, height: usize) -> Result<Vec<u16>,String> {
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image!(width, height);
     let decompressor = try!(LjpegDecompressor::new_full(src, true, false));
     try!(decompressor.decode(&mut out, 0, width, width, height));
     Ok(out)
-- 
2.43.0


From 68eb09f3d6af19d05f119f45dff74ca7070cc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:39 +0000
Subject: [PATCH 18/31] fix: don't reserve memory for the length of the Sony
 private area before reading it

The length is whatever a damaged file says, up to 4GB, while reading past
the end of the file is caught further on.
---
 src/decoders/arw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/arw.rs b/src/decoders/arw.rs
index 2bc49eb..cedba23 100644
--- a/src/decoders/arw.rs
+++ b/src/decoders/arw.rs
@@ -259,7 +259,7 @@ impl<'a> ArwDecoder<'a> {
       pad[p] = u32::from_be(pad[p]);
     }
 
-    let mut out = Vec::with_capacity(length+4);
+    let mut out = Vec::new();
     for i in 0..(length/4+1) {
       let p = i + 127;
       pad[p & 127] = pad[(p+1) & 127] ^ pad[(p+1+64) & 127];
-- 
2.43.0


From b95717af82fea48c8ec5e02bab34bb2aa61e83a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:40 +0000
Subject: [PATCH 19/31] fix: don't wrap around when adding up block lengths

In release builds an MRW block of length 0xfffffff8 was walked over and over
without end, and the other sums could come out at a wrong position.
---
 src/decoders/mrw.rs  | 4 ++--
 src/decoders/tiff.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decoders/mrw.rs b/src/decoders/mrw.rs
index 049a74f..cbc6819 100644
--- a/src/decoders/mrw.rs
+++ b/src/decoders/mrw.rs
@@ -21,7 +21,7 @@ pub struct MrwDecoder<'a> {
 
 impl<'a> MrwDecoder<'a> {
   pub fn new(buf: &'a [u8], rawloader: &'a RawLoader) -> MrwDecoder<'a> {
-    let data_offset: usize = (BEu32(buf, 4) + 8) as usize;
+    let data_offset: usize = BEu32(buf, 4) as usize + 8;
     let mut raw_height: usize = 0;
     let mut raw_width: usize = 0;
     let mut packed = false;
@@ -52,7 +52,7 @@ impl<'a> MrwDecoder<'a> {
         }
         _ => {}
       }
-      currpos += (len+8) as usize;
+      currpos += len as usize + 8;
     }
 
     MrwDecoder { 
diff --git a/src/decoders/tiff.rs b/src/decoders/tiff.rs
index 8984cac..846dc86 100644
--- a/src/decoders/tiff.rs
+++ b/src/decoders/tiff.rs
@@ -124,7 +124,7 @@ pub struct TiffIFD<'a> {
 impl<'a> TiffIFD<'a> {
   pub fn new_file(buf: &'a[u8]) -> Result<TiffIFD<'a>, String> {
     if buf[0..8] == b"FUJIFILM"[..] {
-      let ifd1 = TiffIFD::new_root(buf, (BEu32(buf, 84)+12) as usize)?;
+      let ifd1 = TiffIFD::new_root(buf, BEu32(buf, 84) as usize + 12)?;
       let endian = ifd1.get_endian();
       let mut subifds = vec![ifd1];
       let mut entries = HashMap::new();
@@ -319,7 +319,7 @@ impl<'a> TiffIFD<'a> {
           endian: BIG_ENDIAN,
         });
       }
-      off += (len+4) as usize;
+      off += len as usize + 4;
     }
 
     Ok(TiffIFD {
-- 
2.43.0


From fe4c806fa025d71bf4dcb70b194e70b13ad9bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:47 +0000
Subject: [PATCH 20/31] fix: limit the number of IFDs read from a file

IFDs that point at themselves or each other are only cut off at depth 10, so
one with N such pointers was read N^10 times, which never ends in practice.
---
 src/decoders/tiff.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/decoders/tiff.rs b/src/decoders/tiff.rs
index 846dc86..2d76ced 100644
--- a/src/decoders/tiff.rs
+++ b/src/decoders/tiff.rs
@@ -1,3 +1,4 @@
+use std::cell::Cell;
 use std::collections::HashMap;
 use decoders::basics::*;
 use std::str;
@@ -97,6 +98,10 @@ pub enum Tag {
                           // 0-1-2-3-4-5-6-7-8-9-10-11-12-13
 const DATASHIFTS: [u8;14] = [0,0,0,1,2,3,0,0,1,2, 3, 2, 3, 2];
 
+// Limit on how many IFDs are read from one file. IFDs that point at each other or at themselves
+// many times over would otherwise be read a number of times that's exponential in the depth.
+const MAX_IFDS: usize = 1000;
+
 fn t (tag: Tag) -> u16 {
   tag as u16
 }
@@ -169,9 +174,10 @@ impl<'a> TiffIFD<'a> {
       0x4d4d => BIG_ENDIAN,
       x => {return Err(format!("TIFF: don't know marker 0x{:x}", x).to_string())},
     };
+    let budget = Cell::new(MAX_IFDS);
     let mut nextifd = endian.ru32(buf, offset+4) as usize;
     for _ in 0..100 { // Never read more than 100 IFDs
-      let ifd = try!(TiffIFD::new(&buf[offset..], nextifd, 0, offset, 0, endian));
+      let ifd = try!(TiffIFD::read(&buf[offset..], nextifd, 0, offset, 0, endian, &budget));
       nextifd = ifd.nextifd;
       subifds.push(ifd);
       if nextifd == 0 {
@@ -189,9 +195,18 @@ impl<'a> TiffIFD<'a> {
   }
 
   pub fn new(buf: &'a[u8], offset: usize, base_offset: usize, start_offset: usize, depth: u32, e: Endian) -> Result<TiffIFD<'a>, String> {
+    TiffIFD::read(buf, offset, base_offset, start_offset, depth, e, &Cell::new(MAX_IFDS))
+  }
+
+  fn read(buf: &'a[u8], offset: usize, base_offset: usize, start_offset: usize, depth: u32, e: Endian, budget: &Cell<usize>) -> Result<TiffIFD<'a>, String> {
     let mut entries = HashMap::new();
     let mut subifds = Vec::new();
 
+    if budget.get() == 0 {
+      return Err(format!("more than {} IFDs", MAX_IFDS).to_string())
+    }
+    budget.set(budget.get()-1);
+
     let num = e.ru16(buf, offset); // Directory entries in this IFD
     if num > 4000 {
       return Err(format!("too many entries in IFD ({})", num).to_string())
@@ -211,18 +226,20 @@ impl<'a> TiffIFD<'a> {
       || entry.tag == t(Tag::KdcIFD) {
         if depth < 10 { // Avoid infinite looping IFDs
           for i in 0..entry.count {
-            let ifd = TiffIFD::new(buf, entry.get_u32(i as usize) as usize, base_offset, start_offset, depth+1, e);
+            let ifd = TiffIFD::read(buf, entry.get_u32(i as usize) as usize, base_offset, start_offset, depth+1, e, budget);
             match ifd {
               Ok(val) => {subifds.push(val);},
+              Err(err) if budget.get() == 0 => {return Err(err)},
               Err(_) => {entries.insert(entry.tag, entry);}, // Ignore unparsable IFDs
             }
           }
         }
       } else if entry.tag == t(Tag::Makernote) {
         if depth < 10 { // Avoid infinite looping IFDs
-          let ifd = TiffIFD::new_makernote(buf, entry.doffset(), base_offset, depth+1, e);
+          let ifd = TiffIFD::new_makernote(buf, entry.doffset(), base_offset, depth+1, e, budget);
           match ifd {
             Ok(val) => {subifds.push(val);},
+            Err(err) if budget.get() == 0 => {return Err(err)},
             Err(_) => {entries.insert(entry.tag, entry);}, // Ignore unparsable IFDs
           }
         }
@@ -240,7 +257,7 @@ impl<'a> TiffIFD<'a> {
     })
   }
 
-  pub fn new_makernote(buf: &'a[u8], offset: usize, base_offset: usize, depth: u32, e: Endian) -> Result<TiffIFD<'a>, String> {
+  fn new_makernote(buf: &'a[u8], offset: usize, base_offset: usize, depth: u32, e: Endian, budget: &Cell<usize>) -> Result<TiffIFD<'a>, String> {
     let mut off = 0;
     let data = &buf[offset..];
     let mut endian = e;
@@ -267,13 +284,13 @@ impl<'a> TiffIFD<'a> {
     if data[0..6] == b"PENTAX"[..] {
       off += 8;
       let endian = if data[off..off+2] == b"II"[..] {LITTLE_ENDIAN} else {BIG_ENDIAN};
-      return TiffIFD::new(&buf[offset..], 10, base_offset, 0, depth, endian)
+      return TiffIFD::read(&buf[offset..], 10, base_offset, 0, depth, endian, budget)
     }
 
     if data[0..7] == b"Nikon\0\x02"[..] {
       off += 10;
       let endian = if data[off..off+2] == b"II"[..] {LITTLE_ENDIAN} else {BIG_ENDIAN};
-      return TiffIFD::new(&buf[off+offset..], 8, base_offset, 0, depth, endian)
+      return TiffIFD::read(&buf[off+offset..], 8, base_offset, 0, depth, endian, budget)
     }
 
     // Some have MM or II to indicate endianness - read that
@@ -285,7 +302,7 @@ impl<'a> TiffIFD<'a> {
       endian = BIG_ENDIAN;
     }
 
-    TiffIFD::new(buf, offset+off, base_offset, 0, depth, endian)
+    TiffIFD::read(buf, offset+off, base_offset, 0, depth, endian, budget)
   }
 
   pub fn new_fuji(buf: &'a[u8], offset: usize) -> Result<TiffIFD<'a>, String> {
-- 
2.43.0


From 4969fbb2c1e0c775e1402afcf456fb451bf85ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:49 +0000
Subject: [PATCH 21/31] fix: limit the number of CIFF directories read from a
 file

As with IFDs, a directory that contains itself N times was read N^9 times.
---
 src/decoders/ciff.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/decoders/ciff.rs b/src/decoders/ciff.rs
index 7ffdde1..cf6ba50 100644
--- a/src/decoders/ciff.rs
+++ b/src/decoders/ciff.rs
@@ -1,3 +1,4 @@
+use std::cell::Cell;
 use std::collections::HashMap;
 use decoders::basics::*;
 use decoders::Buffer;
@@ -21,6 +22,10 @@ pub enum CiffTag {
 }
 }
 
+// Limit on how many directories are read from one file. Directories that contain themselves many
+// times over would otherwise be read a number of times that's exponential in the depth.
+const MAX_IFDS: usize = 100;
+
 fn ct (tag: CiffTag) -> u16 {
   tag as u16
 }
@@ -48,13 +53,18 @@ pub fn is_ciff(buf: &[u8]) -> bool {
 impl<'a> CiffIFD<'a> {
   pub fn new_file(buf: &'a Buffer) -> Result<CiffIFD<'a>,String> {
     let data = &buf.buf;
-    CiffIFD::new(data, LEu32(data,2) as usize, buf.size, 1)
+    CiffIFD::new(data, LEu32(data,2) as usize, buf.size, 1, &Cell::new(MAX_IFDS))
   }
 
-  pub fn new(buf: &'a[u8], start: usize, end: usize, depth: u32) -> Result<CiffIFD<'a>, String> {
+  fn new(buf: &'a[u8], start: usize, end: usize, depth: u32, budget: &Cell<usize>) -> Result<CiffIFD<'a>, String> {
     let mut entries = HashMap::new();
     let mut subifds = Vec::new();
 
+    if budget.get() == 0 {
+      return Err(format!("CIFF: more than {} directories", MAX_IFDS).to_string())
+    }
+    budget.set(budget.get()-1);
+
     let valuedata_size = LEu32(buf, end-4) as usize;
     let dircount = LEu16(buf, start+valuedata_size) as usize;
 
@@ -63,9 +73,10 @@ impl<'a> CiffIFD<'a> {
       let e = try!(CiffEntry::new(buf, start, entry_offset));
       if e.typ == 0x2800 || e.typ == 0x3000 { // SubIFDs
         if depth < 10 { // Avoid infinite looping IFDs
-          let ifd = CiffIFD::new(buf, e.data_offset, e.data_offset+e.bytesize, depth+1);
+          let ifd = CiffIFD::new(buf, e.data_offset, e.data_offset+e.bytesize, depth+1, budget);
           match ifd {
             Ok(val) => {subifds.push(val);},
+            Err(err) if budget.get() == 0 => {return Err(err)},
             Err(_) => {entries.insert(e.tag, e);}, // Ignore unparsable IFDs
           }
         }
-- 
2.43.0


From 3645c997c61e42401f61c81eb24c745a482b4c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:50 +0000
Subject: [PATCH 22/31] fix: don't return images whose data doesn't match their
 size

The size of a CR2 sRaw is taken from tags when they exist, while the amount
of data is that of the compressed stream, and empty images came through as
well. RawImage::data is documented to have width*height*cpp elements.
---
 src/decoders/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decoders/mod.rs b/src/decoders/mod.rs
index f45b83b..fc16af3 100644
--- a/src/decoders/mod.rs
+++ b/src/decoders/mod.rs
@@ -450,7 +450,12 @@ impl RawLoader {
   pub fn decode(&self, reader: &mut Read) -> Result<RawImage,String> {
     let buffer = try!(Buffer::new(reader));
     let decoder = try!(self.get_decoder(&buffer));
-    decoder.image()
+    let image = try!(decoder.image());
+    if image.data.len() == 0 || image.data.len() != image.width*image.height*image.cpp {
+      return Err(format!("Image is supposedly {}x{} with {} components but has {} samples",
+                         image.width, image.height, image.cpp, image.data.len()).to_string())
+    }
+    Ok(image)
   }
 
   pub fn decode_safe(&self, path: &str) -> Result<RawImage,String> {
-- 
2.43.0


From afb602b7ac6da8863f368223eda97a1b9171f91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:52 +0000
Subject: [PATCH 23/31] fix: report an error when the crops leave nothing of
 the image

Damaged files can have an active area that's empty or outside of the image,
or an image smaller than the crops of its camera. Developing those panicked
or asked for absurd amounts of memory instead of returning an error.
---
 src/bin/rawloader.rs  |  5 ++++-
 src/decoders/image.rs | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/bin/rawloader.rs b/src/bin/rawloader.rs
index a2feb62..d6548fb 100644
--- a/src/bin/rawloader.rs
+++ b/src/bin/rawloader.rs
@@ -64,7 +64,10 @@ fn main() {
   println!("Image min: {}", min);
   println!("Image max: {}", max);
 
-  let decoded = image.to_rgb(0, 0).unwrap();
+  let decoded = match image.to_rgb(0, 0) {
+    Ok(val) => val,
+    Err(e) => {error(&e);unreachable!()},
+  };
 
   let uf = match File::create(outfile) {
     Ok(val) => val,
diff --git a/src/decoders/image.rs b/src/decoders/image.rs
index 1615635..3f0387f 100644
--- a/src/decoders/image.rs
+++ b/src/decoders/image.rs
@@ -217,6 +217,21 @@ impl RawImage {
     out
   }
 
+  // Check that there's something left of the image after cropping it
+  fn check_crops(&self) -> Result<(),String> {
+    let fits = |size: usize, before: usize, after: usize| {
+      match before.checked_add(after) {
+        Some(val) => val < size,
+        None => false,
+      }
+    };
+    if fits(self.width, self.crops[3], self.crops[1]) && fits(self.height, self.crops[0], self.crops[2]) {
+      Ok(())
+    } else {
+      Err(format!("Crops {:?} leave nothing of a {}x{} image", self.crops, self.width, self.height).to_string())
+    }
+  }
+
   /// Convert the image to a sRGB image by doing a demosaic and applying levels,
   /// whitebalance, a base curve, color conversions and gamma.
   ///
@@ -225,6 +240,7 @@ impl RawImage {
   /// image that is either maxwidth wide or maxheight tall and maintains the image ratio.
   /// Pass in maxwidth and maxheight as 0 if you want the maximum possible image size.
   pub fn to_rgb(&self, maxwidth: usize, maxheight: usize) -> Result<RGBImage,String> {
+    try!(self.check_crops());
     let buffer = imageops::simple_decode(self, maxwidth, maxheight);
 
     Ok(RGBImage{
@@ -242,6 +258,7 @@ impl RawImage {
   /// image that is either maxwidth wide or maxheight tall and maintains the image ratio.
   /// Pass in maxwidth and maxheight as 0 if you want the maximum possible image size.
   pub fn to_srgb(&self, maxwidth: usize, maxheight: usize) -> Result<SRGBImage,String> {
+    try!(self.check_crops());
     let buffer = imageops::simple_decode(self, maxwidth, maxheight);
     let mut image = vec![0 as u8; buffer.width*buffer.height*3];
     for (o, i) in image.chunks_mut(1).zip(buffer.data.iter()) {
@@ -263,6 +280,7 @@ impl RawImage {
   /// image that is either maxwidth wide or maxheight tall and maintains the image ratio.
   /// Pass in maxwidth and maxheight as 0 if you want the maximum possible image size.
   pub fn to_linear_rgb(&self, maxwidth: usize, maxheight: usize) -> Result<RGBImage,String> {
+    try!(self.check_crops());
     let buffer = imageops::simple_decode_linear(self, maxwidth, maxheight);
 
     Ok(RGBImage{
-- 
2.43.0


From fe05680f7c5bf3eb53fe0c912524db9868110cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:52 +0000
Subject: [PATCH 24/31] fix: report errors when writing the end of the output
 file

What was left in the buffer was written when dropping it, which ignores
errors.
---
 src/bin/rawloader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/rawloader.rs b/src/bin/rawloader.rs
index d6548fb..6ed7dba 100644
--- a/src/bin/rawloader.rs
+++ b/src/bin/rawloader.rs
@@ -84,4 +84,7 @@ fn main() {
       error(err.description());
     }
   }
+  if let Err(err) = f.flush() {
+    error(err.description());
+  }
 }
-- 
2.43.0


From 37d414a0d9693c4ea16e85e454237c03aabfefc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:21 +0000
Subject: [PATCH 25/31] fix: dng: refuse images that have neither one nor three
 components

Nothing else is documented to come out of decoding, and developing such an
image takes its samples for something else.
---
 src/decoders/dng.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 493f12d..2b373d8 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -37,6 +37,9 @@ impl<'a> Decoder for DngDecoder<'a> {
     let width = fetch_tag!(raw, Tag::ImageWidth).get_usize(0);
     let height = fetch_tag!(raw, Tag::ImageLength).get_usize(0);
     let cpp = fetch_tag!(raw, Tag::SamplesPerPixel).get_usize(0);
+    if cpp != 1 && cpp != 3 {
+      return Err(format!("Don't know how to read DNGs with {} components", cpp).to_string())
+    }
     let linear = fetch_tag!(raw, Tag::PhotometricInt).get_usize(0) == 34892;
 
     let image = match fetch_tag!(raw, Tag::Compression).get_u32(0) {
-- 
2.43.0


From 07cde8271fdcbcbfb516343091cb80bbf05e4f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:18 +0000
Subject: [PATCH 26/31] fix: dng: refuse uncompressed files whose strips are
 scattered

---
 src/decoders/dng.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 2b373d8..04c6893 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -165,7 +165,16 @@ impl<'a> DngDecoder<'a> {
   }
 
   pub fn decode_uncompressed(&self, raw: &TiffIFD, width: usize, height: usize) -> Result<Vec<u16>,String> {
-    let offset = fetch_tag!(raw, Tag::StripOffsets).get_usize(0);
+    let offsets = fetch_tag!(raw, Tag::StripOffsets);
+    if let Some(sizes) = raw.find_entry(Tag::StripByteCounts) {
+      // We read the strips in one go so they need to follow each other
+      for i in 1..cmp::min(offsets.count(), sizes.count()) {
+        if offsets.get_usize(i) != offsets.get_usize(i-1) + sizes.get_usize(i-1) {
+          return Err("DNG: files with more than one slice not supported yet".to_string())
+        }
+      }
+    }
+    let offset = offsets.get_usize(0);
     let src = &self.buffer[offset..];
 
     match fetch_tag!(raw, Tag::BitsPerSample).get_u32(0) {
-- 
2.43.0


From 723721d18868c2d236281bdd05893e758d6767d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:34 +0000
Subject: [PATCH 27/31] fix: srw: don't look for predictors outside the image

---
 src/decoders/srw.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/decoders/srw.rs b/src/decoders/srw.rs
index 923ecf3..302583e 100644
--- a/src/decoders/srw.rs
+++ b/src/decoders/srw.rs
@@ -103,12 +103,12 @@ impl<'a> SrwDecoder<'a> {
         for c in (0..16).step(2) {
           let l = len[(c >> 3)];
           let adj = pump.get_ibits_sextended(l);
-          let predictor = if dir { // Upward prediction
-              out[img_up+col+c]
-          } else { // Left to right prediction
-              if col == 0 { 128 } else { out[img+col-2] }
-          };
           if col+c < width { // No point in decoding pixels outside the image
+            let predictor = if dir { // Upward prediction
+                out[img_up+col+c]
+            } else { // Left to right prediction
+                if col == 0 { 128 } else { out[img+col-2] }
+            };
             out[img+col+c] = ((predictor as i32) + adj) as u16;
           }
         }
@@ -116,12 +116,12 @@ impl<'a> SrwDecoder<'a> {
         for c in (1..16).step(2) {
           let l = len[2 | (c >> 3)];
           let adj = pump.get_ibits_sextended(l);
-          let predictor = if dir { // Upward prediction
-              out[img_up2+col+c]
-          } else { // Left to right prediction
-              if col == 0 { 128 } else { out[img+col-1] }
-          };
           if col+c < width { // No point in decoding pixels outside the image
+            let predictor = if dir { // Upward prediction
+                out[img_up2+col+c]
+            } else { // Left to right prediction
+                if col == 0 { 128 } else { out[img+col-1] }
+            };
             out[img+col+c] = ((predictor as i32) + adj) as u16;
           }
         }
-- 
2.43.0


From 7f73c55410625834383f91419196c9b306626672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:25 +0000
Subject: [PATCH 28/31] fix: cr2: refuse a declared size the samples don't make
 up

The size of an sRAW comes from the ImageWidth and ImageLength tags, which
were never compared with what was decoded.  A file declaring a width of 0
and a height of 4294967295 kept the masked area loop going over four
billion rows.
---
 src/decoders/cr2.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index 2c76c14..c2d86d2 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -142,6 +142,11 @@ impl<'a> Decoder for Cr2Decoder<'a> {
       }
     };
 
+    // The size may have come from tags that have nothing to do with the data
+    if width == 0 || image.len() % width != 0 || image.len() / width != height {
+      return Err(format!("CR2: {} samples don't make up {}x{}", image.len(), width, height).to_string())
+    }
+
     let wb = self.get_wb(&camera)?;
     let mut img = RawImage::new(camera, width, height, wb, image);
     if cpp == 3 {
-- 
2.43.0


From 90ec7a976c9ee2a7e684818dcd8e8fde73668fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 29/31] fix: ljpeg: accept Huffman codes longer than the
 precision of the samples

---
 src/decoders/ljpeg/huffman.rs | 4 ++--
 src/decoders/ljpeg/mod.rs     | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index c394601..d801418 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -222,8 +222,8 @@ impl HuffTable {
           l += 1;
         }
 
-        //With garbage input we may reach the sentinel value l = 17.
-        if l > self.precision as u32 || self.valptr[l as usize] == 0xff {
+        // Nothing may match if it's a code that isn't used or in garbage input
+        if l > self.precision as u32 || code > self.maxcode[l as usize] || self.valptr[l as usize] == 0xff {
           self.bigtable[i] = 0xff;
           continue
         } else {
diff --git a/src/decoders/ljpeg/mod.rs b/src/decoders/ljpeg/mod.rs
index b4421a4..f10c44f 100644
--- a/src/decoders/ljpeg/mod.rs
+++ b/src/decoders/ljpeg/mod.rs
@@ -171,7 +171,8 @@ impl<'a> LjpegDecompressor<'a> {
     let mut dhts = Vec::new();
     for i in 0..4 {
       dhts.push(if dht_init[i] {
-        try!(HuffTable::new(dht_bits[i], dht_huffval[i], sof.precision, dng_bug))
+        // Codes can have up to 16 bits no matter what the precision of the samples is
+        try!(HuffTable::new(dht_bits[i], dht_huffval[i], 16, dng_bug))
       } else {
         HuffTable::empty(0)
       });
-- 
2.43.0


From a96f9cb99448e8d74fd9a5e59e2b394f96038c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:30 +0000
Subject: [PATCH 30/31] fix: ljpeg: skip the contents of application segments
 and comments

They were searched for markers, so a stream whose segments happened to
contain the bytes of another marker was misread or refused.
---
 src/decoders/ljpeg/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/decoders/ljpeg/mod.rs b/src/decoders/ljpeg/mod.rs
index f10c44f..ee8023c 100644
--- a/src/decoders/ljpeg/mod.rs
+++ b/src/decoders/ljpeg/mod.rs
@@ -13,6 +13,9 @@ enum Marker {
   EOI          = 0xd9, // end of image
   SOS          = 0xda, // start of scan
   DQT          = 0xdb, // quantization tables
+  APP0         = 0xe0, // application segments, up to APP15
+  APP15        = 0xef,
+  COM          = 0xfe, // comment
   Fill         = 0xff,
 }
 
@@ -165,6 +168,13 @@ impl<'a> LjpegDecompressor<'a> {
         return Err("ljpeg: reached EOI before SOS".to_string())
       } else if marker == m(Marker::DQT) {
         return Err("ljpeg: not a valid raw file, found DQT".to_string())
+      } else if marker == m(Marker::COM) || (marker >= m(Marker::APP0) && marker <= m(Marker::APP15)) {
+        // These can contain anything, including what looks like other markers
+        let length = input.get_u16() as usize;
+        if length < 2 {
+          return Err("ljpeg: invalid segment length".to_string())
+        }
+        input.consume_bytes(length - 2);
       }
     }
 
-- 
2.43.0


From 873706fbeeac6a24f929ab99c81208f4f48599d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:35 +0000
Subject: [PATCH 31/31] fix: ljpeg: refuse restart intervals instead of
 decoding garbage

The decoders of whole scans stop at the first restart marker and went on
with zero bits, returning wrong samples as if the picture was fine.
---
 src/decoders/ljpeg/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/decoders/ljpeg/mod.rs b/src/decoders/ljpeg/mod.rs
index ee8023c..97567d5 100644
--- a/src/decoders/ljpeg/mod.rs
+++ b/src/decoders/ljpeg/mod.rs
@@ -13,6 +13,7 @@ enum Marker {
   EOI          = 0xd9, // end of image
   SOS          = 0xda, // start of scan
   DQT          = 0xdb, // quantization tables
+  DRI          = 0xdd, // restart interval
   APP0         = 0xe0, // application segments, up to APP15
   APP15        = 0xef,
   COM          = 0xfe, // comment
@@ -127,6 +128,7 @@ pub struct LjpegDecompressor<'a> {
   sof: SOFInfo,
   predictor: usize,
   point_transform: usize,
+  restart_interval: usize,
   dhts: Vec<HuffTable>,
 }
 
@@ -147,6 +149,7 @@ impl<'a> LjpegDecompressor<'a> {
     let mut dht_huffval = [[0 as u32;256];4];
     let pred;
     let pt;
+    let mut restart_interval = 0;
     loop {
       let marker = try!(LjpegDecompressor::get_next_marker(&mut input, true));
       if marker == m(Marker::SOF3) {
@@ -168,6 +171,9 @@ impl<'a> LjpegDecompressor<'a> {
         return Err("ljpeg: reached EOI before SOS".to_string())
       } else if marker == m(Marker::DQT) {
         return Err("ljpeg: not a valid raw file, found DQT".to_string())
+      } else if marker == m(Marker::DRI) {
+        input.get_u16(); // skip header length
+        restart_interval = input.get_u16() as usize;
       } else if marker == m(Marker::COM) || (marker >= m(Marker::APP0) && marker <= m(Marker::APP15)) {
         // These can contain anything, including what looks like other markers
         let length = input.get_u16() as usize;
@@ -194,6 +200,7 @@ impl<'a> LjpegDecompressor<'a> {
       sof: sof,
       predictor: pred,
       point_transform: pt,
+      restart_interval: restart_interval,
       dhts: dhts,
     })
   }
@@ -256,6 +263,13 @@ impl<'a> LjpegDecompressor<'a> {
   }
 
   pub fn decode(&self, out: &mut [u16], x: usize, stripwidth: usize, width: usize, height: usize) -> Result<(),String> {
+    // Only the Leaf strips are read up to the next marker and start over
+    let (super_h, super_v) = (self.super_h(), self.super_v());
+    if self.predictor == 1 && self.restart_interval != 0 &&
+       self.restart_interval * super_h * super_v < self.sof.width * self.sof.height {
+      return Err("ljpeg: restart intervals not supported".to_string())
+    }
+
     if self.sof.components[0].super_h == 2 && self.sof.components[0].super_v == 2 {
       return decode_ljpeg_420(self, out, width, height)
     } else if self.sof.components[0].super_h == 2 && self.sof.components[0].super_v == 1 {
-- 
2.43.0

