From 89a6de59767fe29247fedf27a769c3b60ed61381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 01/21] fix: ByteWeights iterators must not wrap around past
 byte 255

When byte 255 had no weight and byte 0 did, the index reached 256, was
cast to 0u8 and byte 0 was yielded a second time. add_byte_weights,
threaded_from_bytes and HuffTree::from_weights then counted it twice.
---
 huff_coding/src/weights.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/weights.rs b/huff_coding/src/weights.rs
index 2edb2f6..c509ccd 100644
--- a/huff_coding/src/weights.rs
+++ b/huff_coding/src/weights.rs
@@ -402,10 +402,10 @@ pub mod byte_weights{
             }
 
             while self.weights.get(&(self.current_index as u8)).is_none(){
+                self.current_index += 1;
                 if self.current_index == 256{
                     return None
                 }
-                self.current_index += 1
             }
             let entry = Some((self.current_index as u8, *self.weights.get(&(self.current_index as u8)).unwrap()));
             if self.current_index != 256{self.current_index += 1;}
@@ -429,10 +429,10 @@ pub mod byte_weights{
                 }
     
                 while self.weights.get(&(self.current_index as u8)).is_none(){
+                    self.current_index += 1;
                     if self.current_index == 256{
                         return None
                     }
-                    self.current_index += 1
                 }
                 let entry = Some((self.current_index as u8, *self.weights.get(&(self.current_index as u8)).unwrap()));
                 if self.current_index != 256{self.current_index += 1;}
-- 
2.43.0


From 52d6d4d5d051e913f9c256f3fbc4e9cbfd1db5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 02/21] fix: CompressData::try_from_bytes returns Err on
 malformed bytes

A stored tree length below 2, a padding nibble above 7 and an empty data
section made it panic, although the documentation promises an Err.
---
 huff_coding/src/comp.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/comp.rs b/huff_coding/src/comp.rs
index 8df8a99..0b7fcb1 100644
--- a/huff_coding/src/comp.rs
+++ b/huff_coding/src/comp.rs
@@ -123,6 +123,7 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
     /// can't be encoded in less than 2 bytes)
     /// 3. When the [`HuffTree`][tree] stored in the bytes is invalid or has a different letter type
     /// than specified
+    /// 4. When the stored padding of the tree or of the data is larger than 7
     /// 
     /// [tree]:crate::tree::HuffTree
     pub fn try_from_bytes(bytes: &[u8]) -> Result<Self, CompressedDataFromBytesError>{
@@ -143,6 +144,13 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
         let padding_bits = bytes_try_get![0; "slice is empty"]?;
         let tree_padding_bits =  padding_bits >> 4;
         let data_padding_bits = padding_bits & 0b0000_1111;
+        if tree_padding_bits > 7 || data_padding_bits > 7{
+            return Err(
+                CompressedDataFromBytesError::new(
+                    "stored padding bits cannot be larger than 7"
+                )
+            )
+        }
 
         // read 4 bytes of tree length
         let tree_len = u32::from_be_bytes(
@@ -151,7 +159,11 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
             .unwrap()
         ) as usize;
         if tree_len < 2{
-            panic!("stored tree length must be at least 2");
+            return Err(
+                CompressedDataFromBytesError::new(
+                    "stored tree length must be at least 2"
+                )
+            )
         } 
 
         // read the tree
@@ -176,8 +188,18 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
                 )
             };
 
+        // read the compressed data
+        let comp_bytes = bytes_try_get![5 + tree_len..; "slice does not contain compressed data"]?;
+        if comp_bytes.is_empty(){
+            return Err(
+                CompressedDataFromBytesError::new(
+                    "slice does not contain compressed data"
+                )
+            )
+        }
+
         Ok(CompressData::new(
-            bytes_try_get![5 + tree_len..; "slice does not contain compressed data"]?.to_vec(), 
+            comp_bytes.to_vec(), 
             data_padding_bits,
             tree
         ))
-- 
2.43.0


From 0bc6fc30fcf79d5acbc8fff9ea9ef3aeb3f7e276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 03/21] fix: HuffTree::try_from_bin returns Err on an
 undecodable letter

A letter type whose try_from_be_bytes rejects some bytes made it panic.
---
 huff_coding/src/tree/tree_inner.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/tree/tree_inner.rs b/huff_coding/src/tree/tree_inner.rs
index e2844ca..072d8aa 100644
--- a/huff_coding/src/tree/tree_inner.rs
+++ b/huff_coding/src/tree/tree_inner.rs
@@ -567,10 +567,17 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
                     else{bit_ptr -= 1};
                 }
                 
+                // create letter from letter_bytes, return Err if they don't encode one
+                let letter =
+                    if let Ok(letter) = L::try_from_be_bytes(&letter_bytes){letter}
+                    else{
+                        return Err(FromBinError::new(
+                            "Provided BitVec stores an invalid letter"
+                        ))
+                    };
                 // create letter branch (no children)
                 let branch = HuffBranch::new(
-                    // create letter from letter_bytes
-                    HuffLeaf::new(Some(L::try_from_be_bytes(&letter_bytes).unwrap()), 0),
+                    HuffLeaf::new(Some(letter), 0),
                     None,
                 );
                 Ok(branch)
-- 
2.43.0


From e9ebfe5cb2bcab8cdc4ddad4608ebbc8d79fa796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 04/21] fix: CompressData::to_bytes keeps the length of trees
 of 2^32 bits and more

The bit count was truncated to u32 before being turned into a byte count,
so the stored length was wrong although it fits in the 4 byte field.
---
 huff_coding/src/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff_coding/src/comp.rs b/huff_coding/src/comp.rs
index 0b7fcb1..22133d5 100644
--- a/huff_coding/src/comp.rs
+++ b/huff_coding/src/comp.rs
@@ -304,7 +304,7 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
         // calculate its lenght in bytes
         let tree_bin = self.huff_tree().as_bin();
         let tree_bin_padding_bits = calc_padding_bits(tree_bin.len());
-        let tree_bytes_len = (tree_bin.len() as u32 + tree_bin_padding_bits as u32) / 8;
+        let tree_bytes_len = ((tree_bin.len() + tree_bin_padding_bits as usize) / 8) as u32;
 
         let mut bytes = Vec::new();
         // push an empty byte, later to be filled by the padding bit nums
-- 
2.43.0


From 71d48718ec5f26c02706409dfedbbbe77be0abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:01 +0000
Subject: [PATCH 05/21] fix: compressing an empty file is an error, not a panic

The destination was created (or truncated) and HuffTree::from_weights
panicked on the empty weights.
---
 huff/src/comp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 1b326dd..2bcdedc 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -33,6 +33,13 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     // read from src file
     let src = File::open(src_path)?;
     let mut src_bytes_left = src.metadata().unwrap().len() as usize;
+    // there's no HuffTree for an empty file
+    if src_bytes_left == 0{
+        return Err(Error::new(
+            format!("{:?} is empty, nothing to compress", src_path),
+            ErrorKind::InvalidInput
+        ))
+    }
     let mut reader = BufReader::new(src);
 
     // write to dst file
-- 
2.43.0


From 8a075cd697f056fa1a997ab504b1a4e823332680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:01 +0000
Subject: [PATCH 06/21] fix: the hff header is read whole whatever the block
 size

Header and tree were read with a single read() into the block buffer, so a
block size below the tree's length (or a short read) rejected valid files.
---
 huff/src/comp.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 2bcdedc..0a1d8d0 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -98,8 +98,9 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
 
     // read only first 5 bytes
     let mut reader = reader.take(5);
-    let bytes_read = reader.read(&mut buf)?;
-    if bytes_read < 5{
+    let mut header = Vec::with_capacity(5);
+    reader.read_to_end(&mut header)?;
+    if header.len() < 5{
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
             ErrorKind::MissingHeaderInfo
@@ -108,7 +109,7 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     src_bytes_left -= 5;
 
     // read padding info from the first byte
-    let padding = buf[0];
+    let padding = header[0];
     let tree_padding_bits =  padding >> 4;
     let data_padding_bits = padding & 0b0000_1111;
     if tree_padding_bits > 7 || data_padding_bits > 7{
@@ -119,15 +120,16 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     }
     // read tree_bin's length
     let tree_len = u32::from_be_bytes(
-        buf[1..5]
+        header[1..5]
         .try_into()
         .unwrap()
     ) as usize;
     
     // read only next tree_len bytes
     reader.set_limit(tree_len as u64);
-    let bytes_read = reader.read(&mut buf)?;
-    if bytes_read < tree_len{
+    let mut tree_bytes = Vec::new();
+    reader.read_to_end(&mut tree_bytes)?;
+    if tree_bytes.len() < tree_len{
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
             ErrorKind::MissingHeaderInfo
@@ -137,10 +139,7 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
 
     // read the HuffTree
     let tree = match huff_coding::prelude::HuffTree::<u8>::try_from_bin({
-        let mut b = huff_coding::bitvec::prelude::BitVec::from_vec(
-            buf[..tree_len]
-            .to_vec()
-        );
+        let mut b = huff_coding::bitvec::prelude::BitVec::from_vec(tree_bytes);
         for _ in 0..tree_padding_bits{b.pop();}
         b
     }){
-- 
2.43.0


From 1cff966ea627784c71fd65b2f4c03c955968950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:01 +0000
Subject: [PATCH 07/21] fix: decompression minds the padding when the last
 block is a full one

When the compressed data filled its last block exactly, the padding bits
were decoded as letters. A failing read is now an error, not the end of data.
---
 huff/src/comp.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 0a1d8d0..bd3f326 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -264,8 +264,9 @@ fn decompress_to_writer<R: Read, W: Write>(
             }
         };
     }
-    // try to read exactly buf.len() bytes, decompressing them and writing
-    while reader.read_exact(buf).is_ok(){
+    // read exactly buf.len() bytes while more of them follow, decompressing them and writing
+    while *reader_bytes_left > buf.len(){
+        reader.read_exact(buf)?;
         for byte in &buf[..]{
             read_codes_in_byte!(byte;[0..8]);
         }
@@ -273,9 +274,9 @@ fn decompress_to_writer<R: Read, W: Write>(
         decomp_buf.clear();
         *reader_bytes_left -= buf.len();
     }
-    // if couldn't read exactly buf.len() bytes and there are some bytes left, 
-    // decompress them minding the padding bits
+    // decompress the last bytes minding the padding bits
     if *reader_bytes_left > 0{
+        reader.read_exact(&mut buf[..*reader_bytes_left])?;
         for byte in &buf[..*reader_bytes_left - 1]{
             read_codes_in_byte!(byte;[0..8]);
         }
-- 
2.43.0


From 51bb6ff906d6dc537bd4a45a8ce33dc3c46343e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:01 +0000
Subject: [PATCH 08/21] fix: a failing read while compressing is an error, not
 the end of the file

Any read error ended the loop silently and stale buffer contents were
compressed as if they were the rest of the file.
---
 huff/src/comp.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index bd3f326..1ea7a9a 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -50,7 +50,7 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     let mut buf = vec![0; block_size];
 
     // create a HuffTree from the src file bytes
-    let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf);
+    let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf)?;
     let tree_bin = tree.as_bin();
     let tree_bin_padding = utils::calc_padding_bits(tree_bin.len());
     let tree_bin_bytes = tree_bin.into_vec();
@@ -164,17 +164,19 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
 
 /// Read bytes from reader, loading at most buf.len() bytes
 /// from it at one time, building a HuffTree from them
-pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &mut [u8]) -> HuffTree<u8>{
+pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &mut [u8]) -> Result<HuffTree<u8>, Error>{
     let mut bw = ByteWeights::new();
-    while reader.read_exact(buf).is_ok(){
+    while *reader_bytes_left >= buf.len(){
+        reader.read_exact(buf)?;
         bw += ByteWeights::threaded_from_bytes(&buf, 12);
         *reader_bytes_left -= buf.len();
     }
     if *reader_bytes_left > 0{
+        reader.read_exact(&mut buf[..*reader_bytes_left])?;
         bw += ByteWeights::threaded_from_bytes(&buf[..*reader_bytes_left], 12);
     }
 
-    HuffTree::from_weights(bw)
+    Ok(HuffTree::from_weights(bw))
 }
 
 /// Read bytes from reader, loading at most buf.len() bytes
@@ -209,8 +211,9 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             (comp_bytes, padding_bits, huff_tree)
         }};
     }
-    // try to read exactly buf.len() bytes, compressing them and repeating
-    while reader.read_exact(buf).is_ok(){
+    // read exactly buf.len() bytes, compressing them and repeating
+    while *reader_bytes_left >= buf.len(){
+        reader.read_exact(buf)?;
         let (comp_bytes, padding_bits, huff_tree) =  comp_data_from!(&buf);
         writer.write_all(&comp_bytes)?;
         
@@ -220,8 +223,9 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
 
         *reader_bytes_left -= buf.len();
     }
-    // if couldn't read exactly buf.len() bytes and there are some bytes left, compress them
+    // if there are less than buf.len() bytes left, compress them
     if *reader_bytes_left > 0{
+        reader.read_exact(&mut buf[..*reader_bytes_left])?;
         let (comp_bytes, padding_bits, _) =  comp_data_from!(&buf[..*reader_bytes_left]);
         writer.write_all(&comp_bytes)?;
 
-- 
2.43.0


From 23d41fd11b04d8f1b569d11632862fdc2b9d6d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 09/21] fix: blocks of a file larger than the block size are
 joined bit by bit

A block following one that ended with padding was moved by the number of
padding bits instead of used bits and kept its own padding count, so the
output of almost every multi-block compression could not be decompressed.
---
 huff/src/comp.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 1ea7a9a..8d0afd0 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -195,7 +195,7 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
     macro_rules! comp_data_from {
         ($buf:expr) => {{
             // get and own the compress data
-            let (mut comp_bytes, padding_bits, huff_tree) = 
+            let (mut comp_bytes, mut padding_bits, huff_tree) = 
                 compress_with_tree($buf, tree.clone())
                 .unwrap()
                 .into_inner();
@@ -204,8 +204,15 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             if prev_padding != 0{
                 writer.seek(SeekFrom::Current(-1)).unwrap();
 
-                comp_bytes = utils::offset_bytes(&comp_bytes, prev_padding as usize);
-                comp_bytes[0] |= prev_byte
+                // the block's first bit comes right after the last used bit of prev_byte
+                let offset = 8 - prev_padding as usize;
+                let bit_count = offset + comp_bytes.len() * 8 - padding_bits as usize;
+                comp_bytes = utils::offset_bytes(&comp_bytes, offset);
+                comp_bytes[0] |= prev_byte;
+
+                // the padding has moved too, drop the last byte if there's only padding in it
+                padding_bits = utils::calc_padding_bits(bit_count);
+                comp_bytes.truncate((bit_count + padding_bits as usize) / 8);
             }
 
             (comp_bytes, padding_bits, huff_tree)
-- 
2.43.0


From 5960f74719d3d0d0b6cbf4cf70bf8b8cec3d2bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 10/21] fix: failing seek, metadata and remove calls are
 errors, not panics

---
 huff/src/cli.rs  | 2 +-
 huff/src/comp.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 54ecb39..ecde67b 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -154,7 +154,7 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
         comp::read_compress_write(&src_path, &dst_path, block_size)?;
     }
     if matches.is_present("replace"){
-        fs::remove_file(src_path).unwrap();
+        fs::remove_file(src_path)?;
     }
 
     if matches.is_present("time"){println!("{:?}", start.elapsed());}
diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 8d0afd0..c512ee5 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -32,7 +32,7 @@ use std::{
 pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: usize) -> Result<(), Error>{
     // read from src file
     let src = File::open(src_path)?;
-    let mut src_bytes_left = src.metadata().unwrap().len() as usize;
+    let mut src_bytes_left = src.metadata()?.len() as usize;
     // there's no HuffTree for an empty file
     if src_bytes_left == 0{
         return Err(Error::new(
@@ -86,7 +86,7 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
 pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: usize) -> Result<(), Error>{
     // read from src file
     let src = File::open(src_path)?;
-    let mut src_bytes_left = src.metadata().unwrap().len() as usize;
+    let mut src_bytes_left = src.metadata()?.len() as usize;
     let reader = BufReader::new(src);
 
     // write to dst file
@@ -202,7 +202,7 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             // if the previous compress data's padding isn't 0
             // write the comp_bytes minding the padding
             if prev_padding != 0{
-                writer.seek(SeekFrom::Current(-1)).unwrap();
+                writer.seek(SeekFrom::Current(-1))?;
 
                 // the block's first bit comes right after the last used bit of prev_byte
                 let offset = 8 - prev_padding as usize;
-- 
2.43.0


From 323c42e9ec01ec9d6e05166e6d2eeedbc5c51c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 11/21] fix: a block size that overflows usize is rejected

The multiplication by the unit panicked in debug builds and wrapped around
in release builds, possibly to 0.
---
 huff/src/cli.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index ecde67b..6f0ead1 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -96,7 +96,7 @@ macro_rules! parse_block_size {
         };
         
         mult.push_str(&chars.collect::<String>());
-        num * match &mult[..]{
+        let mult = match &mult[..]{
             "" => 1,
             "k" => 1_000,
             "m" => 1_000_000,
@@ -109,6 +109,14 @@ macro_rules! parse_block_size {
                     String::from("Invalid block size"), 
                     ErrorKind::InvalidInput
                 )),
+        };
+        match num.checked_mul(mult){
+            Some(block_size) => block_size,
+            None =>
+                return Err(Error::new(
+                    String::from("Invalid block size"), 
+                    ErrorKind::InvalidInput
+                )),
         }
     }};
 }
-- 
2.43.0


From 04eb8a5ab8a1d4f6e0b018c3f14eff69d33f7e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 12/21] fix: the default destination of a decompression drops
 the hff extension

With a SRC_FILE in another directory, or given by an absolute path, the
default DST_FILE kept the extension; if it was the source itself, opening
it for writing truncated the source before it was read.
---
 huff/src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 6f0ead1..663c0f2 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -61,8 +61,8 @@ macro_rules! parse_paths {
                 ErrorKind::UnrecognizedFormat
             ))
         }
-        // remove the cli::EXTENSION extension if the dst_path is the same as src_path
-        if $dst_path == {let mut p = PathBuf::from("./"); p.push($src_path.clone()); p}{
+        // remove the cli::EXTENSION extension if the dst_path is src_path's file name
+        if $dst_path == {let mut p = PathBuf::from("./"); p.push($src_path.file_name().unwrap()); p}{
             $dst_path.set_extension("");
         }
 
-- 
2.43.0


From 68076b5705d8339b322c6b1cb104db7c227d066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 13/21] fix: decompressing a file onto itself is an error, not
 data loss

---
 huff/src/cli.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 663c0f2..5a572f6 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -73,6 +73,13 @@ macro_rules! parse_paths {
                 ErrorKind::NotFile
             ))
         }
+        // check if dst is the src file itself, writing to it would destroy it
+        if $dst_path.exists() && $dst_path.canonicalize()? == $src_path.canonicalize()?{
+            return Err(Error::new(
+                format!("Destination {:?} is the source file", $dst_path), 
+                ErrorKind::InvalidInput
+            ))
+        }
     };
 }
 
-- 
2.43.0


From dc5388602fec6833842ea6710a099e37cc4a13c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 14/21] fix: accept an upper case answer to the [Y/N] prompt

---
 huff/src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 5a572f6..0f94afc 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -136,7 +136,7 @@ macro_rules! ask_replace {
 
             let mut yes_no = String::new();
             io::stdin().read_line(&mut yes_no)?;
-            if !yes_no.starts_with("y"){
+            if !yes_no.to_lowercase().starts_with("y"){
                 return Ok(());
             }
             println!();
-- 
2.43.0


From b9d6a73f314ea8f20c39df5ed9543b13c3add8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 15/21] fix: compressing onto the source through a link, or a
 nameless source, is an error

A DST_FILE that is a link to SRC_FILE truncated it before it was read, and a
SRC_FILE like `..` panicked.
---
 huff/src/cli.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 0f94afc..66e1751 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -23,6 +23,13 @@ pub const EXTENSION: &str = "hff";
 
 macro_rules! parse_paths {
     ($src_path: expr, $dst_path:expr) =>{
+        // check if src has a file name at all
+        if $src_path.file_name().is_none(){
+            return Err(Error::new(
+                format!("{:?} is a directory", $src_path), 
+                ErrorKind::NotFile
+            ))
+        }
         // copy file name from src if none is provided
         if $dst_path == Path::new("./SRC_FILE.hff"){
             $dst_path.set_file_name("");
@@ -50,7 +57,13 @@ macro_rules! parse_paths {
             ex.push(EXTENSION);
             ex
         });
-
+        // check if dst is the src file itself, writing to it would destroy it
+        if $dst_path.exists() && $dst_path.canonicalize()? == $src_path.canonicalize()?{
+            return Err(Error::new(
+                format!("Destination {:?} is the source file", $dst_path), 
+                ErrorKind::InvalidInput
+            ))
+        }
     };
     (decomp; $src_path: expr, $dst_path:expr) =>{
         parse_paths!($src_path, $dst_path);
-- 
2.43.0


From a5056668e7e11007933ad3eb8b8084d4789758e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:05 +0000
Subject: [PATCH 16/21] fix: don't allocate a buffer larger than the source
 file

A block size near the machine's word made the program panic or abort,
even for the smallest files.
---
 huff/src/comp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index c512ee5..ee09366 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -46,8 +46,8 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     let dst = File::create(dst_path)?;
     let mut writer = BufWriter::new(dst);
 
-    // allocate a u8 buffer of size == block_size
-    let mut buf = vec![0; block_size];
+    // allocate a u8 buffer of size == block_size, or less if the file is smaller than that
+    let mut buf = vec![0; block_size.min(src_bytes_left)];
 
     // create a HuffTree from the src file bytes
     let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf)?;
@@ -93,8 +93,8 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     let dst = File::create(dst_path)?;
     let mut writer = BufWriter::new(dst);
 
-    // allocate a u8 buffer of size == block_size
-    let mut buf = vec![0; block_size];
+    // allocate a u8 buffer of size == block_size, or less if the file is smaller than that
+    let mut buf = vec![0; block_size.min(src_bytes_left)];
 
     // read only first 5 bytes
     let mut reader = reader.take(5);
-- 
2.43.0


From 473073221c6c25204de8b1ce09e8c59dbfcbfa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:05 +0000
Subject: [PATCH 17/21] fix: accept only ASCII letters as a block size's unit

The Kelvin sign lowercases to a k and was taken for one.
---
 huff/src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 66e1751..7223f4e 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -98,7 +98,7 @@ macro_rules! parse_paths {
 
 macro_rules! parse_block_size {
     ($block_size_str:expr) => {{
-        let lowercase = $block_size_str.to_lowercase();
+        let lowercase = $block_size_str.to_ascii_lowercase();
         let mut chars = lowercase.chars();
         let mut num = String::new();
         let mut mult = String::new();
-- 
2.43.0


From 4d3c6410cd31e2cfdb81b01128e3af6bbcd2c6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 18/21] fix: refuse to write over the source file through a
 hard link

Hard links have different canonical paths, so the destination was created
over the source and the content was lost.
---
 huff/src/cli.rs   |  5 +++--
 huff/src/utils.rs | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 7223f4e..5143118 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -1,5 +1,6 @@
 use super::{
     comp,
+    utils,
     error::{
         Error,
         ErrorKind,
@@ -58,7 +59,7 @@ macro_rules! parse_paths {
             ex
         });
         // check if dst is the src file itself, writing to it would destroy it
-        if $dst_path.exists() && $dst_path.canonicalize()? == $src_path.canonicalize()?{
+        if $dst_path.exists() && utils::is_same_file(&$src_path, &$dst_path)?{
             return Err(Error::new(
                 format!("Destination {:?} is the source file", $dst_path), 
                 ErrorKind::InvalidInput
@@ -87,7 +88,7 @@ macro_rules! parse_paths {
             ))
         }
         // check if dst is the src file itself, writing to it would destroy it
-        if $dst_path.exists() && $dst_path.canonicalize()? == $src_path.canonicalize()?{
+        if $dst_path.exists() && utils::is_same_file(&$src_path, &$dst_path)?{
             return Err(Error::new(
                 format!("Destination {:?} is the source file", $dst_path), 
                 ErrorKind::InvalidInput
diff --git a/huff/src/utils.rs b/huff/src/utils.rs
index 6459445..a382990 100644
--- a/huff/src/utils.rs
+++ b/huff/src/utils.rs
@@ -1,3 +1,9 @@
+use std::{
+    fs,
+    io,
+    path::Path,
+};
+
 /// Move the provided bytes to the right by n bits
 pub fn offset_bytes(bytes: &[u8], n: usize) -> Vec<u8>{
     let empty_bytes = n / 8;
@@ -30,3 +36,19 @@ pub fn calc_padding_bits(bit_count: usize) -> u8{
     let n = (8 - bit_count % 8) as u8; 
     match n{8 => 0, _ => n}
 }
+
+/// Check if both paths lead to the same existing file,
+/// on unix even if they are different hard links to it
+#[cfg(unix)]
+pub fn is_same_file(a: &Path, b: &Path) -> io::Result<bool>{
+    use std::os::unix::fs::MetadataExt;
+
+    let (a, b) = (fs::metadata(a)?, fs::metadata(b)?);
+    Ok(a.dev() == b.dev() && a.ino() == b.ino())
+}
+
+/// Check if both paths lead to the same existing file
+#[cfg(not(unix))]
+pub fn is_same_file(a: &Path, b: &Path) -> io::Result<bool>{
+    Ok(fs::canonicalize(a)? == fs::canonicalize(b)?)
+}
-- 
2.43.0


From 79901e6e58e419b0a8a4ff014ed78e644a3f4056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:07 +0000
Subject: [PATCH 19/21] fix: report a failed write to the standard output
 instead of panicking

---
 huff/src/cli.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 5143118..f61c1dd 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -145,7 +145,7 @@ macro_rules! parse_block_size {
 macro_rules! ask_replace {
     ($path: expr, $noask:expr) => {
         if $path.exists() && !$noask{
-            print!("{:?} already exists, do you want to replace it? [Y/N]: ", $path);
+            write!(io::stdout(), "{:?} already exists, do you want to replace it? [Y/N]: ", $path)?;
             io::stdout().flush()?;
 
             let mut yes_no = String::new();
@@ -153,7 +153,7 @@ macro_rules! ask_replace {
             if !yes_no.to_lowercase().starts_with("y"){
                 return Ok(());
             }
-            println!();
+            writeln!(io::stdout())?;
         }
     };
 }
@@ -186,6 +186,6 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
         fs::remove_file(src_path)?;
     }
 
-    if matches.is_present("time"){println!("{:?}", start.elapsed());}
+    if matches.is_present("time"){writeln!(io::stdout(), "{:?}", start.elapsed())?;}
     Ok(())
 }
-- 
2.43.0


From e2317e9f440e71431e7fa6b7bd240cadd4366922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:36 +0000
Subject: [PATCH 20/21] fix: a pipe as the file to decompress panicked

Its reported length is 0, less than the header that was read from it.
---
 huff/src/comp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index ee09366..daf3931 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -100,7 +100,7 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     let mut reader = reader.take(5);
     let mut header = Vec::with_capacity(5);
     reader.read_to_end(&mut header)?;
-    if header.len() < 5{
+    if header.len() < 5 || src_bytes_left < 5{
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
             ErrorKind::MissingHeaderInfo
@@ -129,7 +129,7 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     reader.set_limit(tree_len as u64);
     let mut tree_bytes = Vec::new();
     reader.read_to_end(&mut tree_bytes)?;
-    if tree_bytes.len() < tree_len{
+    if tree_bytes.len() < tree_len || src_bytes_left < tree_len{
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
             ErrorKind::MissingHeaderInfo
-- 
2.43.0


From 2c8f6cc4f7db688e2c67cb49ba60870df825aa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:27 +0000
Subject: [PATCH 21/21] fix: a destination that cannot be examined was
 overwritten unasked

---
 huff/src/cli.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index f61c1dd..8cace68 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -59,7 +59,7 @@ macro_rules! parse_paths {
             ex
         });
         // check if dst is the src file itself, writing to it would destroy it
-        if $dst_path.exists() && utils::is_same_file(&$src_path, &$dst_path)?{
+        if $dst_path.try_exists()? && utils::is_same_file(&$src_path, &$dst_path)?{
             return Err(Error::new(
                 format!("Destination {:?} is the source file", $dst_path), 
                 ErrorKind::InvalidInput
@@ -88,7 +88,7 @@ macro_rules! parse_paths {
             ))
         }
         // check if dst is the src file itself, writing to it would destroy it
-        if $dst_path.exists() && utils::is_same_file(&$src_path, &$dst_path)?{
+        if $dst_path.try_exists()? && utils::is_same_file(&$src_path, &$dst_path)?{
             return Err(Error::new(
                 format!("Destination {:?} is the source file", $dst_path), 
                 ErrorKind::InvalidInput
@@ -144,7 +144,7 @@ macro_rules! parse_block_size {
 
 macro_rules! ask_replace {
     ($path: expr, $noask:expr) => {
-        if $path.exists() && !$noask{
+        if $path.try_exists()? && !$noask{
             write!(io::stdout(), "{:?} already exists, do you want to replace it? [Y/N]: ", $path)?;
             io::stdout().flush()?;
 
-- 
2.43.0

