From 10b98775a042cbd779f9263c91b9886dd891ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 01/23] fix: ByteWeights iterators yield byte 0 twice

When byte 0 was counted and byte 255 was not, the iterator wrapped its index
around and yielded byte 0 a second time, which also doubled its weight each
time two ByteWeights were added (and so in threaded_from_bytes).
---
 huff_coding/src/weights.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/weights.rs b/huff_coding/src/weights.rs
index 2edb2f6..c509ccd 100644
--- a/huff_coding/src/weights.rs
+++ b/huff_coding/src/weights.rs
@@ -402,10 +402,10 @@ pub mod byte_weights{
             }
 
             while self.weights.get(&(self.current_index as u8)).is_none(){
+                self.current_index += 1;
                 if self.current_index == 256{
                     return None
                 }
-                self.current_index += 1
             }
             let entry = Some((self.current_index as u8, *self.weights.get(&(self.current_index as u8)).unwrap()));
             if self.current_index != 256{self.current_index += 1;}
@@ -429,10 +429,10 @@ pub mod byte_weights{
                 }
     
                 while self.weights.get(&(self.current_index as u8)).is_none(){
+                    self.current_index += 1;
                     if self.current_index == 256{
                         return None
                     }
-                    self.current_index += 1
                 }
                 let entry = Some((self.current_index as u8, *self.weights.get(&(self.current_index as u8)).unwrap()));
                 if self.current_index != 256{self.current_index += 1;}
-- 
2.43.0


From ec71462e0d29ff0dc77b3ee12d6cdf5f818101a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 02/23] fix: ByteWeights::len goes stale when a weight is set
 to 0 through get_mut

A byte whose weight is 0 is absent for get and for the iterators, but was
still counted by len and is_empty, and counted twice when added again.
---
 huff_coding/src/weights.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/huff_coding/src/weights.rs b/huff_coding/src/weights.rs
index c509ccd..5a835e1 100644
--- a/huff_coding/src/weights.rs
+++ b/huff_coding/src/weights.rs
@@ -174,7 +174,6 @@ pub mod byte_weights{
     #[derive(Clone, Copy, Eq)]
     pub struct ByteWeights{
         weights: [usize; 256],
-        len: usize,
     }
 
     impl Weights<u8> for ByteWeights{
@@ -245,7 +244,6 @@ pub mod byte_weights{
         pub fn new() -> Self{
             Self{
                 weights: [0;256],
-                len: 0,
             }
         }
 
@@ -265,16 +263,13 @@ pub mod byte_weights{
         pub fn from_bytes(bytes: &[u8]) -> Self{
             // count bytes into an array
             let mut weights: [usize; 256] = [0;256];
-            let mut len = 0;
 
             for byte in bytes{
-                if weights[*byte as usize] == 0{len += 1;}
                 weights[*byte as usize] += 1;
             }
  
             ByteWeights{
                 weights,
-                len,
             }
         }
 
@@ -340,12 +335,12 @@ pub mod byte_weights{
 
         /// Return the number of different counted bytes stored in the `ByteWeights`
         pub fn len(&self) -> usize{
-            self.len
+            self.weights.iter().filter(|weight| **weight != 0).count()
         }
 
         /// Return true if len == 0
         pub fn is_empty(&self) -> bool{
-            self.len == 0
+            self.len() == 0
         }
 
         /// Returns an iterator over the bytes to their weights `(u8, usize)`
@@ -380,7 +375,6 @@ pub mod byte_weights{
                     }
                     None =>{
                         self.weights[b as usize] = f;
-                        self.len += 1;
                     }
                 }
             }
-- 
2.43.0


From 034b63e96812c54482d58cfca2d41d9069e26ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 03/23] fix: CompressData::try_from_bytes panics on invalid
 bytes instead of returning Err

A stored tree length below 2 (documented as an error), more than 7 padding
bits, or no compressed data after the tree made it panic.
---
 huff_coding/src/comp.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/huff_coding/src/comp.rs b/huff_coding/src/comp.rs
index 8df8a99..7b5871c 100644
--- a/huff_coding/src/comp.rs
+++ b/huff_coding/src/comp.rs
@@ -121,7 +121,8 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
     /// and data
     /// 2. When the stored tree length is lower than 2 (a [`HuffTree`][tree] with padding 
     /// can't be encoded in less than 2 bytes)
-    /// 3. When the [`HuffTree`][tree] stored in the bytes is invalid or has a different letter type
+    /// 3. When the stored number of padding bits is larger than 7
+    /// 4. When the [`HuffTree`][tree] stored in the bytes is invalid or has a different letter type
     /// than specified
     /// 
     /// [tree]:crate::tree::HuffTree
@@ -143,6 +144,9 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
         let padding_bits = bytes_try_get![0; "slice is empty"]?;
         let tree_padding_bits =  padding_bits >> 4;
         let data_padding_bits = padding_bits & 0b0000_1111;
+        if tree_padding_bits > 7 || data_padding_bits > 7{
+            return Err(CompressedDataFromBytesError::new("stored padding bits cannot be larger than 7"))
+        }
 
         // read 4 bytes of tree length
         let tree_len = u32::from_be_bytes(
@@ -151,7 +155,7 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
             .unwrap()
         ) as usize;
         if tree_len < 2{
-            panic!("stored tree length must be at least 2");
+            return Err(CompressedDataFromBytesError::new("stored tree length must be at least 2"))
         } 
 
         // read the tree
@@ -176,8 +180,13 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
                 )
             };
 
+        let comp_bytes = bytes_try_get![5 + tree_len..; "slice does not contain compressed data"]?;
+        if comp_bytes.is_empty(){
+            return Err(CompressedDataFromBytesError::new("slice does not contain compressed data"))
+        }
+
         Ok(CompressData::new(
-            bytes_try_get![5 + tree_len..; "slice does not contain compressed data"]?.to_vec(), 
+            comp_bytes.to_vec(), 
             data_padding_bits,
             tree
         ))
-- 
2.43.0


From e285a2913c120f5fca3f10197f239a1200096e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 04/23] fix: HuffTree::try_from_bin panics when a letter's
 bytes are invalid

A letter type whose try_from_be_bytes rejects the stored bytes made it panic
instead of returning FromBinError.
---
 huff_coding/src/tree/tree_inner.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/tree/tree_inner.rs b/huff_coding/src/tree/tree_inner.rs
index e2844ca..bf490a5 100644
--- a/huff_coding/src/tree/tree_inner.rs
+++ b/huff_coding/src/tree/tree_inner.rs
@@ -567,10 +567,16 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
                     else{bit_ptr -= 1};
                 }
                 
+                // create letter from letter_bytes, if they don't represent one return Err
+                let letter = match L::try_from_be_bytes(&letter_bytes){
+                    Ok(letter) => letter,
+                    Err(_) => return Err(FromBinError::new(
+                        "Provided BitVec contains an invalid letter"
+                    ))
+                };
                 // create letter branch (no children)
                 let branch = HuffBranch::new(
-                    // create letter from letter_bytes
-                    HuffLeaf::new(Some(L::try_from_be_bytes(&letter_bytes).unwrap()), 0),
+                    HuffLeaf::new(Some(letter), 0),
                     None,
                 );
                 Ok(branch)
-- 
2.43.0


From 2281e46f83621e85f56010862520267e9391b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:47 +0000
Subject: [PATCH 05/23] fix: HuffTree::try_from_bin overflows the stack on
 deeply nested trees

A short run of 1 bits (a 1 kB archive is enough for huff -d) recursed until
the process was killed. Nesting is now limited to 1024 branches.
---
 huff_coding/src/tree/tree_inner.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/huff_coding/src/tree/tree_inner.rs b/huff_coding/src/tree/tree_inner.rs
index bf490a5..d6cb45d 100644
--- a/huff_coding/src/tree/tree_inner.rs
+++ b/huff_coding/src/tree/tree_inner.rs
@@ -12,6 +12,10 @@ use std::{
     hash::BuildHasher,
 };
 
+/// How deeply nested a [`HuffTree`] read from binary can be
+/// (a tree built from positive weights is never deeper than 92)
+const MAX_BIN_DEPTH: usize = 1024;
+
 
 
 /// Struct representing a Huffman Tree with an alphabet of
@@ -516,6 +520,7 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
     /// let tree = HuffTree::<u128>::try_from_bin(bitvec![Msb0, u8; 0, 1])
     ///     .expect("this will return a FromBinError (provided BitVec is to small)");
     /// ```
+    /// or when the encoded tree is nested deeper than 1024 branches.
     /// 
     /// [branch]:crate::tree::branch::HuffBranch
     /// [letter_bytes]:crate::tree::letter::HuffLetterAsBytes
@@ -523,7 +528,7 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
         /// Recursively reads branches and their children from the given bits
         /// When finding a 1 -> recurses to get children,
         /// and when a 0 -> ends recursion returning a letter branch
-        fn read_branches_from_bits<L: HuffLetterAsBytes>(bits: &mut bitvec::slice::IterMut<Msb0, u8>) -> 
+        fn read_branches_from_bits<L: HuffLetterAsBytes>(bits: &mut bitvec::slice::IterMut<Msb0, u8>, depth: usize) -> 
         Result<HuffBranch<L>, FromBinError<L>>{
             // check whether the bit can be popped at all, if not return Err
             // remove first bit, if its 1 -> joint branch
@@ -533,12 +538,18 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
                         "Provided BitVec is too small for an encoded HuffTree"
                     ))
                 }{
+                // don't let the recursion overflow the stack
+                if depth == MAX_BIN_DEPTH{
+                    return Err(FromBinError::new(
+                        "Provided BitVec encodes a too deeply nested HuffTree"
+                    ))
+                }
                 // create joint branch, recurse to get its children
                 let branch = HuffBranch::new(
                     HuffLeaf::new(None, 0),
                     Some(( 
-                        read_branches_from_bits(bits)?, 
-                        read_branches_from_bits(bits)?
+                        read_branches_from_bits(bits, depth + 1)?, 
+                        read_branches_from_bits(bits, depth + 1)?
                     ))
                 );
                 Ok(branch)
@@ -586,7 +597,7 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
         let mut bin = bin;
         // recurse to create root, and set codes for all branches
         let mut bin_iter_mut = bin.iter_mut();
-        let mut root = read_branches_from_bits(&mut bin_iter_mut)?;
+        let mut root = read_branches_from_bits(&mut bin_iter_mut, 0)?;
 
         // return Err if not all bits used
         if bin_iter_mut.next().is_some(){
-- 
2.43.0


From c4bdf0ad9ad2ac818c53976ee3810e3249007f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 06/23] fix: compressing a file in more than one block corrupts
 the archive

When a block didn't end on a byte boundary, the next one was moved by the
number of padding bits instead of the number of used bits, and the padding
written to the header ignored the move.
---
 huff/src/comp.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 1b326dd..e8026a8 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -187,7 +187,7 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
     macro_rules! comp_data_from {
         ($buf:expr) => {{
             // get and own the compress data
-            let (mut comp_bytes, padding_bits, huff_tree) = 
+            let (mut comp_bytes, mut padding_bits, huff_tree) = 
                 compress_with_tree($buf, tree.clone())
                 .unwrap()
                 .into_inner();
@@ -196,8 +196,15 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             if prev_padding != 0{
                 writer.seek(SeekFrom::Current(-1)).unwrap();
 
-                comp_bytes = utils::offset_bytes(&comp_bytes, prev_padding as usize);
-                comp_bytes[0] |= prev_byte
+                // move the bytes past the bits already used in prev_byte,
+                // dropping the last byte if it ends up being just padding
+                comp_bytes = utils::offset_bytes(&comp_bytes, 8 - prev_padding as usize);
+                comp_bytes[0] |= prev_byte;
+                padding_bits += prev_padding;
+                if padding_bits > 7{
+                    comp_bytes.pop();
+                    padding_bits -= 8;
+                }
             }
 
             (comp_bytes, padding_bits, huff_tree)
-- 
2.43.0


From 1a2c0d98b0e75d15967764791a6ec334ba3f186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 07/23] fix: decompression decodes the padding bits when the
 data fills the last block

If the length of the compressed data was a multiple of the block size, the
padding bits were decoded into extra bytes at the end of the file.
---
 huff/src/comp.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index e8026a8..830ab3b 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -267,12 +267,15 @@ fn decompress_to_writer<R: Read, W: Write>(
     }
     // try to read exactly buf.len() bytes, decompressing them and writing
     while reader.read_exact(buf).is_ok(){
-        for byte in &buf[..]{
+        *reader_bytes_left -= buf.len();
+        // the padding bits are in the last byte of the last block
+        let last_byte_bits = if *reader_bytes_left == 0{8 - padding_bits} else{8};
+        for byte in &buf[..buf.len() - 1]{
             read_codes_in_byte!(byte;[0..8]);
         }
+        read_codes_in_byte!(buf[buf.len() - 1];[0..last_byte_bits]);
         writer.write_all(&decomp_buf)?;
         decomp_buf.clear();
-        *reader_bytes_left -= buf.len();
     }
     // if couldn't read exactly buf.len() bytes and there are some bytes left, 
     // decompress them minding the padding bits
-- 
2.43.0


From 221a3bddbc1e43dbd7dbd8cfba9725ceb71a86b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 08/23] fix: archives can't be decompressed with a block size
 smaller than their header

The header and the tree were read into the block buffer with a single read,
so a small --block-size (or a short read) failed on valid archives. An
archive with no compressed data after the tree is now also rejected.
---
 huff/src/comp.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 830ab3b..45a5839 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -80,7 +80,7 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     // read from src file
     let src = File::open(src_path)?;
     let mut src_bytes_left = src.metadata().unwrap().len() as usize;
-    let reader = BufReader::new(src);
+    let mut reader = BufReader::new(src);
 
     // write to dst file
     let dst = File::create(dst_path)?;
@@ -89,19 +89,19 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     // allocate a u8 buffer of size == block_size
     let mut buf = vec![0; block_size];
 
-    // read only first 5 bytes
-    let mut reader = reader.take(5);
-    let bytes_read = reader.read(&mut buf)?;
-    if bytes_read < 5{
+    // read only first 5 bytes (they may not fit in the block buffer)
+    if src_bytes_left < 5{
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
             ErrorKind::MissingHeaderInfo
         ))
     }
+    let mut header = [0; 5];
+    reader.read_exact(&mut header)?;
     src_bytes_left -= 5;
 
     // read padding info from the first byte
-    let padding = buf[0];
+    let padding = header[0];
     let tree_padding_bits =  padding >> 4;
     let data_padding_bits = padding & 0b0000_1111;
     if tree_padding_bits > 7 || data_padding_bits > 7{
@@ -112,28 +112,25 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     }
     // read tree_bin's length
     let tree_len = u32::from_be_bytes(
-        buf[1..5]
+        header[1..5]
         .try_into()
         .unwrap()
     ) as usize;
     
-    // read only next tree_len bytes
-    reader.set_limit(tree_len as u64);
-    let bytes_read = reader.read(&mut buf)?;
-    if bytes_read < tree_len{
+    // read only next tree_len bytes, some compressed data must be left after them
+    if src_bytes_left <= tree_len{
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
             ErrorKind::MissingHeaderInfo
         ))
     }
+    let mut tree_bytes = vec![0; tree_len];
+    reader.read_exact(&mut tree_bytes)?;
     src_bytes_left -= tree_len;
 
     // read the HuffTree
     let tree = match huff_coding::prelude::HuffTree::<u8>::try_from_bin({
-        let mut b = huff_coding::bitvec::prelude::BitVec::from_vec(
-            buf[..tree_len]
-            .to_vec()
-        );
+        let mut b = huff_coding::bitvec::prelude::BitVec::from_vec(tree_bytes);
         for _ in 0..tree_padding_bits{b.pop();}
         b
     }){
@@ -145,7 +142,6 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     };
 
     // decompress the remaining bytes
-    let mut reader = reader.into_inner();
     decompress_to_writer(
         &mut reader, &mut writer, 
         &mut src_bytes_left, &mut buf,
-- 
2.43.0


From 483a7792228addfa36a9855b8134882d3f602038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 09/23] fix: read errors are taken for the end of the file

Any error while reading the source ended the loop as if the file had ended
and stale buffer contents were compressed or decompressed in place of the
unread bytes, with a successful exit (and with -r, the source deleted).
---
 huff/src/comp.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 45a5839..f5df6ad 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -43,7 +43,7 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     let mut buf = vec![0; block_size];
 
     // create a HuffTree from the src file bytes
-    let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf);
+    let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf)?;
     let tree_bin = tree.as_bin();
     let tree_bin_padding = utils::calc_padding_bits(tree_bin.len());
     let tree_bin_bytes = tree_bin.into_vec();
@@ -154,17 +154,19 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
 
 /// Read bytes from reader, loading at most buf.len() bytes
 /// from it at one time, building a HuffTree from them
-pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &mut [u8]) -> HuffTree<u8>{
+pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &mut [u8]) -> Result<HuffTree<u8>, Error>{
     let mut bw = ByteWeights::new();
-    while reader.read_exact(buf).is_ok(){
+    while *reader_bytes_left >= buf.len(){
+        reader.read_exact(buf)?;
         bw += ByteWeights::threaded_from_bytes(&buf, 12);
         *reader_bytes_left -= buf.len();
     }
     if *reader_bytes_left > 0{
+        reader.read_exact(&mut buf[..*reader_bytes_left])?;
         bw += ByteWeights::threaded_from_bytes(&buf[..*reader_bytes_left], 12);
     }
 
-    HuffTree::from_weights(bw)
+    Ok(HuffTree::from_weights(bw))
 }
 
 /// Read bytes from reader, loading at most buf.len() bytes
@@ -206,8 +208,9 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             (comp_bytes, padding_bits, huff_tree)
         }};
     }
-    // try to read exactly buf.len() bytes, compressing them and repeating
-    while reader.read_exact(buf).is_ok(){
+    // read exactly buf.len() bytes, compressing them and repeating
+    while *reader_bytes_left >= buf.len(){
+        reader.read_exact(buf)?;
         let (comp_bytes, padding_bits, huff_tree) =  comp_data_from!(&buf);
         writer.write_all(&comp_bytes)?;
         
@@ -217,8 +220,9 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
 
         *reader_bytes_left -= buf.len();
     }
-    // if couldn't read exactly buf.len() bytes and there are some bytes left, compress them
+    // if there are less than buf.len() bytes left, compress them
     if *reader_bytes_left > 0{
+        reader.read_exact(&mut buf[..*reader_bytes_left])?;
         let (comp_bytes, padding_bits, _) =  comp_data_from!(&buf[..*reader_bytes_left]);
         writer.write_all(&comp_bytes)?;
 
@@ -261,8 +265,9 @@ fn decompress_to_writer<R: Read, W: Write>(
             }
         };
     }
-    // try to read exactly buf.len() bytes, decompressing them and writing
-    while reader.read_exact(buf).is_ok(){
+    // read exactly buf.len() bytes, decompressing them and writing
+    while *reader_bytes_left >= buf.len(){
+        reader.read_exact(buf)?;
         *reader_bytes_left -= buf.len();
         // the padding bits are in the last byte of the last block
         let last_byte_bits = if *reader_bytes_left == 0{8 - padding_bits} else{8};
@@ -273,9 +278,10 @@ fn decompress_to_writer<R: Read, W: Write>(
         writer.write_all(&decomp_buf)?;
         decomp_buf.clear();
     }
-    // if couldn't read exactly buf.len() bytes and there are some bytes left, 
+    // if there are less than buf.len() bytes left, 
     // decompress them minding the padding bits
     if *reader_bytes_left > 0{
+        reader.read_exact(&mut buf[..*reader_bytes_left])?;
         for byte in &buf[..*reader_bytes_left - 1]{
             read_codes_in_byte!(byte;[0..8]);
         }
-- 
2.43.0


From 43d01c9e5b9894afcc1dda17b6bf5713e5bae3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 10/23] fix: rejected source files wipe the destination

The destination was created or truncated before the source was looked at, so
an invalid archive (or an empty file, which made huff panic) destroyed an
existing destination. Empty files are now reported as an error.
---
 huff/src/comp.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index f5df6ad..32d2528 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -34,10 +34,12 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     let src = File::open(src_path)?;
     let mut src_bytes_left = src.metadata().unwrap().len() as usize;
     let mut reader = BufReader::new(src);
-
-    // write to dst file
-    let dst = File::create(dst_path)?;
-    let mut writer = BufWriter::new(dst);
+    if src_bytes_left == 0{
+        return Err(Error::new(
+            format!("{:?} is empty, there's nothing to compress", src_path),
+            ErrorKind::InvalidInput
+        ))
+    }
 
     // allocate a u8 buffer of size == block_size
     let mut buf = vec![0; block_size];
@@ -51,6 +53,10 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     // return reader to start
     reader.seek(SeekFrom::Start(0))?;
 
+    // write to dst file
+    let dst = File::create(dst_path)?;
+    let mut writer = BufWriter::new(dst);
+
     // write an empty byte, later to be filled by padding data
     writer.write_all(&[0])?;
     // write the tree_bin_bytes lenght as a 4 byte num
@@ -82,10 +88,6 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     let mut src_bytes_left = src.metadata().unwrap().len() as usize;
     let mut reader = BufReader::new(src);
 
-    // write to dst file
-    let dst = File::create(dst_path)?;
-    let mut writer = BufWriter::new(dst);
-
     // allocate a u8 buffer of size == block_size
     let mut buf = vec![0; block_size];
 
@@ -141,6 +143,10 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
         ))
     };
 
+    // write to dst file
+    let dst = File::create(dst_path)?;
+    let mut writer = BufWriter::new(dst);
+
     // decompress the remaining bytes
     decompress_to_writer(
         &mut reader, &mut writer, 
-- 
2.43.0


From 904ca832467204ef66972423e79a1c4351c2f047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 11/23] fix: huge block sizes overflow or abort instead of
 working or being rejected

A --block-size that doesn't fit in a usize overflowed (a block size of 0 and
an endless loop in release), and one larger than the available memory aborted
on allocation, even though no more than the file is ever loaded.
---
 huff/src/cli.rs  | 7 +++++--
 huff/src/comp.rs | 8 ++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 54ecb39..f6a57d9 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -96,7 +96,7 @@ macro_rules! parse_block_size {
         };
         
         mult.push_str(&chars.collect::<String>());
-        num * match &mult[..]{
+        num.checked_mul(match &mult[..]{
             "" => 1,
             "k" => 1_000,
             "m" => 1_000_000,
@@ -109,7 +109,10 @@ macro_rules! parse_block_size {
                     String::from("Invalid block size"), 
                     ErrorKind::InvalidInput
                 )),
-        }
+        }).ok_or_else(|| Error::new(
+            String::from("Invalid block size"), 
+            ErrorKind::InvalidInput
+        ))?
     }};
 }
 
diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 32d2528..b4bb4b6 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -41,8 +41,8 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
         ))
     }
 
-    // allocate a u8 buffer of size == block_size
-    let mut buf = vec![0; block_size];
+    // allocate a u8 buffer of size == block_size, but no larger than the file
+    let mut buf = vec![0; block_size.min(src_bytes_left)];
 
     // create a HuffTree from the src file bytes
     let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf)?;
@@ -88,8 +88,8 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     let mut src_bytes_left = src.metadata().unwrap().len() as usize;
     let mut reader = BufReader::new(src);
 
-    // allocate a u8 buffer of size == block_size
-    let mut buf = vec![0; block_size];
+    // allocate a u8 buffer of size == block_size, but no larger than the file
+    let mut buf = vec![0; block_size.min(src_bytes_left)];
 
     // read only first 5 bytes (they may not fit in the block buffer)
     if src_bytes_left < 5{
-- 
2.43.0


From 5a353c724e5fe0b8d146f6d1d9092f04fcc47053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 12/23] fix: answering Y to the [Y/N] replace prompt is taken
 as a no

---
 huff/src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index f6a57d9..249ae83 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -124,7 +124,7 @@ macro_rules! ask_replace {
 
             let mut yes_no = String::new();
             io::stdin().read_line(&mut yes_no)?;
-            if !yes_no.starts_with("y"){
+            if !yes_no.to_lowercase().starts_with("y"){
                 return Ok(());
             }
             println!();
-- 
2.43.0


From b589bb41acc62079c06df3ab6e438d696bb42291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 13/23] fix: huff panics on directory sources without a file
 name (huff ..)

---
 huff/src/cli.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 249ae83..af74c6e 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -23,19 +23,19 @@ pub const EXTENSION: &str = "hff";
 
 macro_rules! parse_paths {
     ($src_path: expr, $dst_path:expr) =>{
-        // copy file name from src if none is provided
-        if $dst_path == Path::new("./SRC_FILE.hff"){
-            $dst_path.set_file_name("");
-            $dst_path.push(Path::new($src_path.file_name().unwrap()));
-        }
-
         // check if src is a file
-        if $src_path.is_dir(){
+        if $src_path.is_dir() || $src_path.file_name().is_none(){
             return Err(Error::new(
                 format!("{:?} is a directory", $src_path), 
                 ErrorKind::NotFile
             ))
         }
+
+        // copy file name from src if none is provided
+        if $dst_path == Path::new("./SRC_FILE.hff"){
+            $dst_path.set_file_name("");
+            $dst_path.push(Path::new($src_path.file_name().unwrap()));
+        }
     };
     (comp; $src_path: expr, $dst_path:expr) =>{
         parse_paths!($src_path, $dst_path);
-- 
2.43.0


From 359fb18464d5d420f90b3bdc2b800470569ee257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 14/23] fix: huff destroys its source file when the destination
 is the same file

Only './' followed by the source path was recognised as the same path, so e.g.
huff -d x.hff x.hff, huff -d $PWD/x.hff or a link to the source truncated the
source before it was read.
---
 huff/src/cli.rs   | 22 +++++++++++++++++-----
 huff/src/utils.rs | 25 +++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index af74c6e..ac38d69 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -1,5 +1,6 @@
 use super::{
     comp,
+    utils,
     error::{
         Error,
         ErrorKind,
@@ -13,10 +14,7 @@ use std::{
         self,
         Write,
     },
-    path::{
-        Path,
-        PathBuf
-    }
+    path::Path,
 };
 
 pub const EXTENSION: &str = "hff";
@@ -62,7 +60,7 @@ macro_rules! parse_paths {
             ))
         }
         // remove the cli::EXTENSION extension if the dst_path is the same as src_path
-        if $dst_path == {let mut p = PathBuf::from("./"); p.push($src_path.clone()); p}{
+        if $dst_path.extension() == Some(OsStr::new(EXTENSION)) && utils::is_same_file(&$src_path, &$dst_path){
             $dst_path.set_extension("");
         }
 
@@ -116,6 +114,18 @@ macro_rules! parse_block_size {
     }};
 }
 
+/// writing to dst_path must not destroy src_path
+macro_rules! check_not_same {
+    ($src_path: expr, $dst_path:expr) => {
+        if utils::is_same_file(&$src_path, &$dst_path){
+            return Err(Error::new(
+                format!("{:?} and {:?} are the same file", $src_path, $dst_path), 
+                ErrorKind::InvalidInput
+            ))
+        }
+    };
+}
+
 macro_rules! ask_replace {
     ($path: expr, $noask:expr) => {
         if $path.exists() && !$noask{
@@ -143,6 +153,7 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     // the decompress flag is present
     if matches.is_present("decompress"){
         parse_paths!(decomp; src_path, dst_path);
+        check_not_same!(src_path, dst_path);
         // ask if should replace dst_file
         ask_replace!(dst_path, matches.is_present("noask"));
         // read src, decompress it, write the results to dst
@@ -151,6 +162,7 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     // if no major flags are present, just compress
     else{
         parse_paths!(comp; src_path, dst_path);
+        check_not_same!(src_path, dst_path);
         // ask if should replace dst_file
         ask_replace!(dst_path, matches.is_present("noask"));
         // read src, compress it, write the results to dst
diff --git a/huff/src/utils.rs b/huff/src/utils.rs
index 6459445..a3f0e0f 100644
--- a/huff/src/utils.rs
+++ b/huff/src/utils.rs
@@ -1,3 +1,8 @@
+use std::{
+    fs,
+    path::Path,
+};
+
 /// Move the provided bytes to the right by n bits
 pub fn offset_bytes(bytes: &[u8], n: usize) -> Vec<u8>{
     let empty_bytes = n / 8;
@@ -30,3 +35,23 @@ pub fn calc_padding_bits(bit_count: usize) -> u8{
     let n = (8 - bit_count % 8) as u8; 
     match n{8 => 0, _ => n}
 }
+
+/// Return true if both paths exist and lead to the same file
+/// (also when through symbolic or, on unix, hard links)
+pub fn is_same_file(path: &Path, other_path: &Path) -> bool{
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::MetadataExt;
+        match (fs::metadata(path), fs::metadata(other_path)){
+            (Ok(meta), Ok(other_meta)) => meta.dev() == other_meta.dev() && meta.ino() == other_meta.ino(),
+            _ => false,
+        }
+    }
+    #[cfg(not(unix))]
+    {
+        match (fs::canonicalize(path), fs::canonicalize(other_path)){
+            (Ok(path), Ok(other_path)) => path == other_path,
+            _ => false,
+        }
+    }
+}
-- 
2.43.0


From f3bb4cd39697a8a433450cbba4dea9d78e07779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:55 +0000
Subject: [PATCH 15/23] fix: huff panics when writing a block or removing the
 source fails

---
 huff/src/cli.rs  | 2 +-
 huff/src/comp.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index ac38d69..47b340e 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -169,7 +169,7 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
         comp::read_compress_write(&src_path, &dst_path, block_size)?;
     }
     if matches.is_present("replace"){
-        fs::remove_file(src_path).unwrap();
+        fs::remove_file(src_path)?;
     }
 
     if matches.is_present("time"){println!("{:?}", start.elapsed());}
diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index b4bb4b6..e7d1a15 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -198,7 +198,7 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             // if the previous compress data's padding isn't 0
             // write the comp_bytes minding the padding
             if prev_padding != 0{
-                writer.seek(SeekFrom::Current(-1)).unwrap();
+                writer.seek(SeekFrom::Current(-1))?;
 
                 // move the bytes past the bits already used in prev_byte,
                 // dropping the last byte if it ends up being just padding
-- 
2.43.0


From d5d61e3d3c33176d39c69de6ebce1b49b48ba045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 16/23] fix: huff panics on paths and block sizes that are not
 valid UTF-8

---
 huff/src/cli.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 47b340e..f9e7404 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -145,10 +145,10 @@ macro_rules! ask_replace {
 pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     let start = std::time::Instant::now();
 
-    let src_path = std::path::PathBuf::from(matches.value_of("SRC_FILE").unwrap());
-    let mut dst_path = std::path::PathBuf::from(matches.value_of("DST_FILE").unwrap());
+    let src_path = std::path::PathBuf::from(matches.value_of_os("SRC_FILE").unwrap());
+    let mut dst_path = std::path::PathBuf::from(matches.value_of_os("DST_FILE").unwrap());
     
-    let block_size = parse_block_size!(matches.value_of("block-size").unwrap());
+    let block_size = parse_block_size!(matches.value_of_lossy("block-size").unwrap());
 
     // the decompress flag is present
     if matches.is_present("decompress"){
-- 
2.43.0


From 825538a6d34516efddb19f81389f081a5f21981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 17/23] fix: keep the dot at the end of a file name when
 appending the hff extension

---
 huff/src/cli.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index f9e7404..f5d5e8f 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -9,7 +9,7 @@ use super::{
 
 use std::{
     fs,
-    ffi::OsStr,
+    ffi::{OsStr, OsString},
     io::{
         self,
         Write,
@@ -40,11 +40,12 @@ macro_rules! parse_paths {
         
         // add cli::EXTENSION to the dst_path
         $dst_path = $dst_path.with_extension({
-            let mut ex = $dst_path
-                .extension()
-                .unwrap_or(OsStr::new(""))
-                .to_os_string();
-            if !ex.is_empty(){ex.push(".");}
+            // (the extension is empty, but not missing, if the name ends with a dot)
+            let mut ex = OsString::new();
+            if let Some(dst_ex) = $dst_path.extension(){
+                ex.push(dst_ex);
+                ex.push(".");
+            }
             ex.push(EXTENSION);
             ex
         });
-- 
2.43.0


From 8a3997ec2f2b4bca4befa688f1e5b0cf8166fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 18/23] fix: append the hff extension to any file name as it is
 (..name lost its end)

---
 huff/src/cli.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index f5d5e8f..859b705 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -9,7 +9,7 @@ use super::{
 
 use std::{
     fs,
-    ffi::{OsStr, OsString},
+    ffi::OsStr,
     io::{
         self,
         Write,
@@ -39,17 +39,12 @@ macro_rules! parse_paths {
         parse_paths!($src_path, $dst_path);
         
         // add cli::EXTENSION to the dst_path
-        $dst_path = $dst_path.with_extension({
-            // (the extension is empty, but not missing, if the name ends with a dot)
-            let mut ex = OsString::new();
-            if let Some(dst_ex) = $dst_path.extension(){
-                ex.push(dst_ex);
-                ex.push(".");
-            }
-            ex.push(EXTENSION);
-            ex
-        });
-
+        if let Some(file_name) = $dst_path.file_name(){
+            let mut file_name = file_name.to_os_string();
+            file_name.push(".");
+            file_name.push(EXTENSION);
+            $dst_path.set_file_name(file_name);
+        }
     };
     (decomp; $src_path: expr, $dst_path:expr) =>{
         parse_paths!($src_path, $dst_path);
-- 
2.43.0


From 7d65eccd885a7a9c578fea8f10feba6609141bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 19/23] fix: threaded_from_bytes panicked on far more threads
 than bytes

---
 huff_coding/src/utils.rs   | 2 +-
 huff_coding/src/weights.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/huff_coding/src/utils.rs b/huff_coding/src/utils.rs
index 8ce59eb..33f877e 100644
--- a/huff_coding/src/utils.rs
+++ b/huff_coding/src/utils.rs
@@ -8,7 +8,7 @@ pub fn ration_vec<T: Clone>(vec: &[T], ration_count: usize) -> Vec<Vec<T>>{
     let elements_per_ration = elements_left / ration_count;
     let mut current_element = 0;
 
-    let mut rations: Vec<Vec<T>> = Vec::with_capacity(ration_count);
+    let mut rations: Vec<Vec<T>> = Vec::with_capacity(ration_count.min(vec.len().max(1)));
     if elements_per_ration == 0{
         rations.push(vec[..].to_vec());
     }
diff --git a/huff_coding/src/weights.rs b/huff_coding/src/weights.rs
index 5a835e1..8a27ac6 100644
--- a/huff_coding/src/weights.rs
+++ b/huff_coding/src/weights.rs
@@ -290,7 +290,7 @@ pub mod byte_weights{
             let byte_rations = ration_vec(bytes, thread_num);
 
             // create ByteWeights from every ration
-            let mut handles = Vec::with_capacity(thread_num);
+            let mut handles = Vec::with_capacity(byte_rations.len());
             for ration in byte_rations{
                 let handle = thread::spawn(move || {
                     ByteWeights::from_bytes(&ration)
@@ -299,7 +299,7 @@ pub mod byte_weights{
             }
 
             // push all created ByteWeights into a Vec 
-            let mut weights_vec: Vec<ByteWeights> = Vec::with_capacity(thread_num);
+            let mut weights_vec: Vec<ByteWeights> = Vec::with_capacity(handles.len());
             for handle in handles{
                 weights_vec.push(handle.join().unwrap());
             }
-- 
2.43.0


From ba43169c369400ee1c7299ca7404cca63e5367f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 20/23] fix: to_bytes cut the length of trees of more than 2^32
 bits

---
 huff_coding/src/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff_coding/src/comp.rs b/huff_coding/src/comp.rs
index 7b5871c..bf1edcd 100644
--- a/huff_coding/src/comp.rs
+++ b/huff_coding/src/comp.rs
@@ -291,7 +291,7 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
         // calculate its lenght in bytes
         let tree_bin = self.huff_tree().as_bin();
         let tree_bin_padding_bits = calc_padding_bits(tree_bin.len());
-        let tree_bytes_len = (tree_bin.len() as u32 + tree_bin_padding_bits as u32) / 8;
+        let tree_bytes_len = ((tree_bin.len() + tree_bin_padding_bits as usize) / 8) as u32;
 
         let mut bytes = Vec::new();
         // push an empty byte, later to be filled by the padding bit nums
-- 
2.43.0


From 548593fe651f7f7a3b3652f3a29b0d55882dadd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 21/23] fix: try_from_bytes refused trees of letters without
 bytes, as to_bytes writes them

---
 huff_coding/src/comp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/comp.rs b/huff_coding/src/comp.rs
index bf1edcd..43d6e1b 100644
--- a/huff_coding/src/comp.rs
+++ b/huff_coding/src/comp.rs
@@ -154,8 +154,8 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
             .try_into()
             .unwrap()
         ) as usize;
-        if tree_len < 2{
-            return Err(CompressedDataFromBytesError::new("stored tree length must be at least 2"))
+        if tree_len < 1{
+            return Err(CompressedDataFromBytesError::new("stored tree length must be at least 1"))
         } 
 
         // read the tree
-- 
2.43.0


From d0a3dac7aea4f5f61844add47720fe59a1ddb2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 22/23] fix: huff -d loaded a tree of any claimed length at
 once

A tree of bytes takes at most 320 bytes, so an archive that claims a longer
one is malformed; don't load gigabytes of it, whatever the block size.
---
 huff/src/comp.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index e7d1a15..f77864c 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -26,6 +26,10 @@ use std::{
     },
 };
 
+/// The most bytes a tree of bytes takes in binary:
+/// 255 joint branches of 1 bit and 256 letters of 9 bits
+const MAX_TREE_LEN: usize = (255 + 256 * 9 + 7) / 8;
+
 /// Read the the src file, compress it, and write the compressed data into dst file.
 /// 
 /// Chunk size means how many bytes will be read from src file at one time
@@ -126,6 +130,13 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
             ErrorKind::MissingHeaderInfo
         ))
     }
+    // (a tree of bytes can't be longer than that, don't load more of the file)
+    if tree_len > MAX_TREE_LEN{
+        return Err(Error::new(
+            format!("{:?} stores invalid header information", src_path), 
+            ErrorKind::InvalidHeaderInfo
+        ))
+    }
     let mut tree_bytes = vec![0; tree_len];
     reader.read_exact(&mut tree_bytes)?;
     src_bytes_left -= tree_len;
-- 
2.43.0


From b2cf2ffced32a0bf32292b96b7d37a50f251eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:59 +0000
Subject: [PATCH 23/23] fix: trees of many letters without weight were as deep
 as a list

Branches of equal weight were joined in no particular order, so that a large
alphabet with weights of 0 gave trees nested too deeply to be read back from
binary, or overflowed the stack. Join them in the order they were created.
---
 huff_coding/src/tree/branch_heap.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/huff_coding/src/tree/branch_heap.rs b/huff_coding/src/tree/branch_heap.rs
index bca4b84..6eb4d9e 100644
--- a/huff_coding/src/tree/branch_heap.rs
+++ b/huff_coding/src/tree/branch_heap.rs
@@ -14,9 +14,14 @@ use std::{
 /// 
 /// Stores `HuffBranch`es inside a `std::collections::BinaryHeap`, but reversed
 /// (branches with the smallest weights are at the end, so they can be easily popped)
+/// 
+/// Branches of the same weight are popped in the order they were pushed in. Letters come
+/// before joint branches then, which keeps the tree as shallow as possible
 #[derive(Debug, Clone)]
 pub struct HuffBranchHeap<L: HuffLetter>{
     heap: BinaryHeap<HuffBranchHeapItem<L>>,
+    /// how many branches have been pushed so far
+    pushed: usize,
 }
 
 impl<L: HuffLetter> HuffBranchHeap<L>{
@@ -31,6 +36,7 @@ impl<L: HuffLetter> HuffBranchHeap<L>{
     pub fn new() -> Self{
         HuffBranchHeap::<L>{
             heap: BinaryHeap::new(),
+            pushed: 0,
         }
     }
 
@@ -41,7 +47,8 @@ impl<L: HuffLetter> HuffBranchHeap<L>{
 
     /// Push a branch onto the heap
     pub fn push(&mut self, branch: HuffBranch<L>){
-        self.heap.push(HuffBranchHeapItem(branch));
+        self.heap.push(HuffBranchHeapItem(branch, self.pushed));
+        self.pushed += 1;
     }
 
     /// Pop the `HuffBranch` with the smallest weight
@@ -60,13 +67,14 @@ impl<L: HuffLetter> HuffBranchHeap<L>{
 
 /// A wrapper for `HuffBranch` that reverses it's cmp
 /// for the smallest HuffBranches to appear at the end of the 
-/// `HuffBranchHeap`
+/// `HuffBranchHeap`. Stores how many branches were pushed before it
 #[derive(Debug, Clone, Eq)]
-struct HuffBranchHeapItem<L: HuffLetter>(HuffBranch<L>);
+struct HuffBranchHeapItem<L: HuffLetter>(HuffBranch<L>, usize);
 
 impl<L: HuffLetter> Ord for HuffBranchHeapItem<L>{
     fn cmp(&self, other: &Self) -> Ordering {
         other.0.leaf().cmp(&self.0.leaf())
+            .then(other.1.cmp(&self.1))
     }
 }
 
@@ -78,7 +86,7 @@ impl<L: HuffLetter> PartialOrd for HuffBranchHeapItem<L>{
 
 impl<L: HuffLetter> PartialEq for HuffBranchHeapItem<L>{
     fn eq(&self, other: &Self) -> bool {
-        self.0.leaf().weight() == other.0.leaf().weight()
+        self.cmp(other) == Ordering::Equal
     }
 }
 
-- 
2.43.0

