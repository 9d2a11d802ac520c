From e9f2342ae0570f32bb970b2b8ca78d073c0565f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 01/19] fix: write the entries of an IFD in ascending order of
 their tags

---
 src/ifd/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 72e6e7b..1c831ac 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -503,6 +503,7 @@ ImageFileDirectory
         {
             all_relevant_tags.extend(ifd_with_offset_info_only.get_tags().iter().cloned());
         }
+        all_relevant_tags.sort_by_key(|tag| tag.as_u16());
 
         // Start writing this IFD by adding the number of entries
         let count_entries = all_relevant_tags.iter().filter(
-- 
2.43.0


From 3f7974b0e3ced89190bee8d9fa7e3d6f6610e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 02/19] fix: pad values of tags that have fewer components than
 announced

---
 src/ifd/mod.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 1c831ac..44717cf 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -633,25 +633,18 @@ ImageFileDirectory
             let number_of_components: u32 = tag.number_of_components();
             encode_vec.extend(to_u8_vec_macro!(u32, &number_of_components, &data.get_endian()).iter());
 
-            // Optional string padding (i.e. string is shorter than it should be)
-            let mut string_padding: Vec<u8> = Vec::new();
-            if tag.is_string()
-            {
-                string_padding = vec![
-                    0x00; 
-                    number_of_components as usize - value.len()
-                ];
-            }
+            // Optional padding (i.e. value is shorter than it should be)
+            let byte_count: u32 = number_of_components * tag.format().bytes_per_component();
+            let padding = vec![0x00; (byte_count as usize).saturating_sub(value.len())];
 
             // Add offset or value /                                            4 bytes
             // Depending on the amount of data, either put it directly into
             // next 4 bytes or write an offset where the data can be found 
-            let byte_count: u32 = number_of_components * tag.format().bytes_per_component();
             if byte_count > 4
             {
                 encode_vec.extend(to_u8_vec_macro!(u32, current_offset, &data.get_endian()).iter());
                 ifd_offset_area.extend(value.iter());
-                ifd_offset_area.extend(string_padding.iter());
+                ifd_offset_area.extend(padding.iter());
 
                 *current_offset += byte_count;
 
@@ -665,7 +658,7 @@ ImageFileDirectory
                 let pre_length = encode_vec.len();
 
                 encode_vec.extend(value.iter());
-                encode_vec.extend(string_padding.iter());
+                encode_vec.extend(padding.iter());
 
                 let post_length = encode_vec.len();
 
-- 
2.43.0


From 40a3a3a3aba499bdd5729f98de7d310c115eb371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 03/19] fix: report an IFD that can't be encoded instead of
 dropping it

---
 src/metadata/mod.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 4e5ef43..529de51 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -192,22 +192,21 @@ Metadata
 
             let Some(last_ifd) = filter_result.last() else { continue; };
 
-            if let Ok((next_link_section, link_vec)) = last_ifd.encode_ifd(
+            let (next_link_section, link_vec) = last_ifd.encode_ifd(
                 self, 
                 &mut ifds_with_offset_info_only, 
                 &mut encode_vec, 
                 &mut current_offset
-            )
-            {
-                if let Some(index) = index_of_previous_ifds_link_section
-                {
-                    let mut cursor = Cursor::new(&mut encode_vec);
-                    cursor.set_position(index);
-                    cursor.write_all(&link_vec)?;
-                }
+            )?;
 
-                index_of_previous_ifds_link_section = Some(next_link_section);
+            if let Some(index) = index_of_previous_ifds_link_section
+            {
+                let mut cursor = Cursor::new(&mut encode_vec);
+                cursor.set_position(index);
+                cursor.write_all(&link_vec)?;
             }
+
+            index_of_previous_ifds_link_section = Some(next_link_section);
         }
 
         Ok(encode_vec)
-- 
2.43.0


From 2e19e053efcfc2697cfb1aad2038898b2996c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 04/19] fix: webp: remove the EXIF chunk itself, not the bytes
 eight before it

---
 src/webp/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 129bcf9..1799028 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -542,8 +542,8 @@ clear_metadata
     // Compute a delta of how much the file size information has to change
     let mut delta = 0i32;
 
-    // Skip the WEBP signature
-    cursor.set_position(4);
+    // Skip the RIFF signature, file size & WEBP signature
+    cursor.set_position(12);
 
     for parsed_chunk in parse_webp_result
     {
-- 
2.43.0


From 71c3098aab8b0dde30c2bb01119a7b0656e1d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 05/19] fix: webp: read without write access, and clear the
 EXIF chunk where it is

---
 src/webp/file.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 371c678..1c4db4e 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -31,7 +31,7 @@ check_signature
 )
 -> Result<File, std::io::Error>
 {
-    let mut file = open_write_file(path)?;
+    let mut file = open_read_file(path)?;
 
     // Get the first 12 bytes that are required for the following checks
     let mut first_12_bytes = [0u8; 12];
@@ -507,7 +507,7 @@ set_exif_flag
     let parsed_webp_result = parse_webp(path)?;
 
     // Open the file for further processing
-    let mut file = check_signature(path)?;
+    let mut file = open_write_file(path)?;
 
     // Next, check if this is an Extended File Format WebP file
     // In this case, the first Chunk SHOULD have the type "VP8X"
@@ -564,9 +564,9 @@ clear_metadata
 {
     // Check the file signature, parse it, check that it has a VP8X chunk and
     // the EXIF flag is set there
-    let (mut file, parse_webp_result) = match check_exif_in_file(path) 
+    let parse_webp_result = match check_exif_in_file(path) 
     {
-        Ok((file, parse_webp_result)) => (file, parse_webp_result),
+        Ok((_, parse_webp_result)) => parse_webp_result,
         Err(e) => {
             match e.to_string().as_str()
             {
@@ -585,8 +585,9 @@ clear_metadata
     // Compute a delta of how much the file size information has to change
     let mut delta = 0i32;
 
-    // Skip the WEBP signature
-    file.seek(std::io::SeekFrom::Current(4i64))?;
+    // Open the file and skip the RIFF signature, file size & WEBP signature
+    let mut file = open_write_file(path)?;
+    file.seek(SeekFrom::Start(12u64))?;
 
     for parsed_chunk in parse_webp_result
     {
@@ -664,8 +665,10 @@ write_metadata
     // Encode the general metadata format to WebP specifications
     let encoded_metadata = encode_metadata_webp(&metadata.encode()?);
 
-    // Open the file...
-    let mut file = check_signature(path)?;
+    // Check & open the file, skipping the signature...
+    check_signature(path)?;
+    let mut file = open_write_file(path)?;
+    file.seek(SeekFrom::Start(12u64))?;
 
     // ...and find a location where to put the EXIF chunk
     // This is done by requesting a chunk descriptor as long as we find a chunk
-- 
2.43.0


From 22bc46c998ba6b983552860a8937e94bf4f7ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:28 +0000
Subject: [PATCH 06/19] fix: keep the tags needed to decode the strips when
 clearing a TIFF

reduce_to_a_minimum dropped PlanarConfiguration, Predictor, ExtraSamples and
other tags without which the strip data is read as different pixels.
---
 src/metadata/edit.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/metadata/edit.rs b/src/metadata/edit.rs
index d3f85de..9fcd778 100644
--- a/src/metadata/edit.rs
+++ b/src/metadata/edit.rs
@@ -46,6 +46,25 @@ Metadata
 					| ExifTag::YResolution(_)
 					| ExifTag::ResolutionUnit(_)
 					| ExifTag::ColorMap(_)
+					| ExifTag::PlanarConfiguration(_)
+					| ExifTag::YCbCrCoefficients(_)
+					| ExifTag::YCbCrSubSampling(_)
+					| ExifTag::YCbCrPositioning(_)
+					| ExifTag::ReferenceBlackWhite(_)
+					=> (),
+
+					// Tags without a variant of their own that are needed to
+					// decode the strip data
+					_ if matches!(
+						tag.as_u16(),
+						0x010a                                                  // FillOrder
+						| 0x0124                                                // T4Options
+						| 0x0125                                                // T6Options
+						| 0x013d                                                // Predictor
+						| 0x0152                                                // ExtraSamples
+						| 0x0153                                                // SampleFormat
+						| 0x015b                                                // JPEGTables
+					)
 					=> (),
 
 					_ 
-- 
2.43.0


From 7262d81f1ccc90e5f5603792a9ab9f50508db9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:15 +0000
Subject: [PATCH 07/19] fix: cut off the rest of a longer old file when writing
 JPEG, JXL and TIFF

---
 src/jpg.rs       |  4 ++++
 src/jxl.rs       |  4 ++++
 src/tiff/file.rs | 14 ++++++++------
 src/tiff/vec.rs  | 16 ++++++++++++++--
 4 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 2ce0949..19d08ee 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -338,6 +338,10 @@ file_write_metadata
     file.seek(SeekFrom::Start(0))?;
     file.write_all(&file_buffer)?;
 
+    // The new content may be shorter than the old one (e.g. if the previously
+    // stored metadata was larger), so cut off whatever is left of the latter
+    file.set_len(file_buffer.len() as u64)?;
+
     return Ok(());
 }
 
diff --git a/src/jxl.rs b/src/jxl.rs
index ee028e6..b1e8172 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -513,5 +513,9 @@ file_write_metadata
     file.seek(SeekFrom::Start(0))?;
     file.write_all(&file_buffer)?;
 
+    // The new content may be shorter than the old one (e.g. if the previously
+    // stored metadata was larger), so cut off whatever is left of the latter
+    file.set_len(file_buffer.len() as u64)?;
+
     return Ok(());
 }
\ No newline at end of file
diff --git a/src/tiff/file.rs b/src/tiff/file.rs
index 0066f7c..8ca2a43 100644
--- a/src/tiff/file.rs
+++ b/src/tiff/file.rs
@@ -2,7 +2,7 @@
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
 use std::io::BufReader;
-use std::io::BufWriter;
+use std::io::Seek;
 use std::path::Path;
 
 use crate::general_file_io::open_read_file;
@@ -38,9 +38,7 @@ clear_metadata
 	data.reduce_to_a_minimum();
 
 	// Write the reduced data back to the backup cursor
-	generic_write_metadata(&mut BufWriter::new(open_write_file(path)?), &data)?;
-
-	return Ok(());
+	return write_metadata(path, &data);
 }
 
 pub(crate) fn 
@@ -51,6 +49,10 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-	let mut buffered_file = BufWriter::new(open_write_file(path)?);
-	return generic_write_metadata(&mut buffered_file, metadata);
+	let mut file = open_write_file(path)?;
+	generic_write_metadata(&mut file, metadata)?;
+
+	// Cut off what is left of the old content in case it was longer
+	let new_length = file.stream_position()?;
+	return file.set_len(new_length);
 }
\ No newline at end of file
diff --git a/src/tiff/vec.rs b/src/tiff/vec.rs
index 09ac912..5b126d6 100644
--- a/src/tiff/vec.rs
+++ b/src/tiff/vec.rs
@@ -39,7 +39,13 @@ clear_metadata
 
 	// Write the reduced data back to the backup cursor
 	cursor.set_position(cursor_start_pos);
-	return generic_write_metadata(&mut cursor, &data);
+	generic_write_metadata(&mut cursor, &data)?;
+
+	// Cut off what is left of the old content in case it was longer
+	let new_length = cursor.position() as usize;
+	cursor.get_mut().truncate(new_length);
+
+	return Ok(());
 }
 
 pub(crate) fn
@@ -51,5 +57,11 @@ write_metadata
 -> Result<(), std::io::Error>
 {
 	let mut cursor = Cursor::new(file_buffer);
-	return generic_write_metadata(&mut cursor, metadata);
+	generic_write_metadata(&mut cursor, metadata)?;
+
+	// Cut off what is left of the old content in case it was longer
+	let new_length = cursor.position() as usize;
+	cursor.get_mut().truncate(new_length);
+
+	return Ok(());
 }
\ No newline at end of file
-- 
2.43.0


From 0a47af251ddd27770ac7935273debb6f91ebec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:39 +0000
Subject: [PATCH 08/19] fix: webp: width and height swapped when extending a
 VP8L file

---
 src/webp/file.rs | 16 ++--------------
 src/webp/vec.rs  | 16 ++--------------
 2 files changed, 4 insertions(+), 28 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 1c4db4e..9e6e25b 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -475,20 +475,8 @@ get_dimension_info_from_vp8l_chunk
     // Convert to a single u32 number for bit-mask operations
     let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
     
-    let mut width  = 0;
-    let mut height = 0;
-
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
+    let width  =  width_height_info        & 0x3fff;
+    let height = (width_height_info >> 14) & 0x3fff;
 
     return Ok((width, height));
 }
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 1799028..e7c4e63 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -444,20 +444,8 @@ get_dimension_info_from_vp8l_chunk
     // Convert to a single u32 number for bit-mask operations
     let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
     
-    let mut width  = 0;
-    let mut height = 0;
-
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
+    let width  =  width_height_info        & 0x3fff;
+    let height = (width_height_info >> 14) & 0x3fff;
 
     return Ok((width, height));
 }
-- 
2.43.0


From 1ae42d5474bf482ef8cbc550cbc74c6730c81d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:40 +0000
Subject: [PATCH 09/19] fix: jpg: report metadata that is too long for a
 segment, before clearing the old

---
 src/jpg.rs                  | 19 ++++++++++++-------
 src/metadata/metadata_io.rs |  2 +-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 19d08ee..23416aa 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -27,14 +27,18 @@ encode_metadata_jpg
 (
     exif_vec: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     // vector storing the data that will be returned
     let mut jpg_exif: Vec<u8> = Vec::new();
 
     // Compute the length of the exif data (includes the two bytes of the
     // actual length field)
-    let length = 2u16 + (EXIF_HEADER.len() as u16) + (exif_vec.len() as u16);
+    let length = match u16::try_from(2 + EXIF_HEADER.len() + exif_vec.len())
+    {
+        Ok(length) => length,
+        Err(_)     => return io_error!(InvalidInput, "Metadata is too long for a JPG segment!"),
+    };
 
     // Start with the APP1 marker and the length of the data
     // Then copy the previously encoded EXIF data 
@@ -43,7 +47,7 @@ encode_metadata_jpg
     jpg_exif.extend(EXIF_HEADER.iter());
     jpg_exif.extend(exif_vec.iter());
 
-    return jpg_exif;
+    return Ok(jpg_exif);
 }
 
 
@@ -284,7 +288,7 @@ as_u8_vec
 (
     general_encoded_metadata: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     encode_metadata_jpg(general_encoded_metadata)
 }
@@ -299,12 +303,13 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
+    // Encode the data specifically for JPG
+    // If this is not possible the file buffer remains untouched
+    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?)?;
+
     // Remove old metadata
     clear_metadata(file_buffer)?;
 
-    // Encode the data specifically for JPG
-    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?);
-
     // Insert the metadata right after the signature
     crate::util::insert_multiple_at(file_buffer, 2, &mut encoded_metadata);
 
diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index 3051daf..06bb2bf 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -389,7 +389,7 @@ Metadata
             FileExtension::PNG { as_zTXt_chunk } 
                 =>  png::as_u8_vec(&general_encoded_metadata, as_zTXt_chunk),
             FileExtension::JPEG 
-                =>  jpg::as_u8_vec(&general_encoded_metadata),
+                =>  jpg::as_u8_vec(&general_encoded_metadata)?,
             FileExtension::WEBP 
                  => webp::as_u8_vec(&general_encoded_metadata),
             FileExtension::HEIF 
-- 
2.43.0


From c4229e3361efe65692e3380d3939d3ba6603def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:40 +0000
Subject: [PATCH 10/19] fix: jpg: do not take another APP1 segment, such as
 XMP, for the Exif data

---
 src/jpg.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 23416aa..5e2c44a 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -477,11 +477,17 @@ generic_read_metadata
             match byte_buffer[0]
             {
                 0xe1 => {                                                       // APP1 marker
-                    // Read in & return the remaining data
+                    // Read in & return the remaining data, unless this segment
+                    // stores something else (e.g. XMP)
                     let mut app1_buffer = vec![0u8; remaining_length];
                     cursor.read_exact(&mut app1_buffer)?;
 
-                    return Ok(app1_buffer);
+                    if app1_buffer.starts_with(&EXIF_HEADER)        ||
+                       app1_buffer.starts_with(&LITTLE_ENDIAN_INFO) ||
+                       app1_buffer.starts_with(&BIG_ENDIAN_INFO)
+                    {
+                        return Ok(app1_buffer);
+                    }
                 },
 
                 0xda => {                                                       // SOS marker
-- 
2.43.0


From f9b982a6c384d24c537e43bea0bfc905174d3f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:22 +0000
Subject: [PATCH 11/19] fix: jpg: fill bytes before a marker, segments shorter
 than their length or the prefix

---
 src/jpg.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 5e2c44a..971ff52 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -142,6 +142,12 @@ clear_segment
 
         if previous_byte_was_marker_prefix
         {
+            // Any number of fill bytes 0xFF may precede the actual marker
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
             // Check if this is the end of the file. In that case, the length
             // data can't be read and we need to return prematurely. 
             if byte_buffer[0] == 0xd9                                           // EOI marker
@@ -157,6 +163,11 @@ clear_segment
 
             // Decode the length to determine how much more data there is
             let length = from_u8_vec_res_macro!(u16, &length_buffer, &Endian::Big)?;
+            if length < 2
+            {
+                return io_error!(InvalidData, "Mangled JPG data encountered!");
+            }
+
             let remaining_length = (length - 2) as usize;
 
             if byte_buffer[0] == segment_marker                                 // Given marker, e.g. for APP1
@@ -169,7 +180,8 @@ clear_segment
                 // If we are given prefix bytes to check for, read them in
                 if let Some(prefix) = prefix_bytes
                 {
-                    let mut prefix_buffer = vec![0u8; prefix.len()];
+                    // (the segment may be shorter than the prefix)
+                    let mut prefix_buffer = vec![0u8; prefix.len().min(remaining_length)];
                     cursor.read_exact(&mut prefix_buffer)?;
                     cursor.seek(SeekFrom::Current(-(prefix_buffer.len() as i64)))?;
 
@@ -451,6 +463,12 @@ generic_read_metadata
 
         if previous_byte_was_marker_prefix
         {
+            // Any number of fill bytes 0xFF may precede the actual marker
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
             // Check if this is the end of the file. In that case, the length
             // data can't be read and we need to return prematurely. 
             // This is why this case can't be included in the match afterwards.
-- 
2.43.0


From 3225df18f241b0c5bc4fffb2b792dfeb46e219e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:43 +0000
Subject: [PATCH 12/19] fix: jxl: boxes that extend to the end of the file, and
 invalid box lengths

---
 src/jxl.rs | 60 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index b1e8172..d42f376 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -125,6 +125,30 @@ file_check_signature
 
 
 
+/// Determines where a box ends, given its position, its length field and the
+/// overall number of bytes.
+/// Note: A length of 0 is allowed for the last box, which then extends up to
+/// the end of the file
+fn
+get_box_end
+(
+    position:     usize,
+    length:       usize,
+    total_length: usize
+)
+-> Result<usize, std::io::Error>
+{
+    return match position.checked_add(length)
+    {
+        Some(end) if length >= 8 && end <= total_length
+            => Ok(end),
+        Some(_)   if length == 0
+            => Ok(total_length),
+        _
+            => io_error!(InvalidData, "Invalid box length found in JXL data!")
+    };
+}
+
 pub(crate) fn
 clear_metadata
 (
@@ -140,27 +164,33 @@ clear_metadata
     {
         if position >= file_buffer.len() { return Ok(()); }
 
+        if position + 8 > file_buffer.len()
+        {
+            return io_error!(InvalidData, "Incomplete box found in JXL data!");
+        }
+
         // Get the first 4 bytes at the current cursor position to determine
         // the length of the current box 
         let length_buffer = file_buffer[position..position+4].to_vec();
         let length        = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
+        let box_end       = get_box_end(position, length, file_buffer.len())?;
 
         // Next, read the box type
         let type_buffer = file_buffer[position+4..position+8].to_vec();
 
         if box_contains_exif(
             &mut Cursor::new(
-                file_buffer[position+8..position+12].to_vec()
+                file_buffer[position+8..box_end].to_vec()
             ), 
             [type_buffer[0], type_buffer[1], type_buffer[2], type_buffer[3]]
         )?
         {
-            range_remove(file_buffer, position, position+length);
+            range_remove(file_buffer, position, box_end);
         }
         else
         {
             // Not an EXIF box so skip it
-            position += length;
+            position = box_end;
         }
     }
 }
@@ -187,12 +217,12 @@ file_clear_metadata
         file.read_exact(&mut type_buffer)?;
 
         let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
+        let box_end = get_box_end(position as usize, length, old_file_length as usize)? as u64;
 
         if box_contains_exif(&mut file, type_buffer)?
         {
             // Seek past the EXIF box ...
-            file.seek(SeekFrom::Current((length-8) as i64))?;
-
+            file.seek(SeekFrom::Start(box_end))?;
 
             // ... copy everything from here onwards into a buffer ...
             let mut buffer = Vec::new();
@@ -207,13 +237,13 @@ file_clear_metadata
 
             // ... and finally update the file size - otherwise there will be
             // duplicate bytes at the end!
-            file.set_len(old_file_length - length as u64)?;
+            file.set_len(old_file_length - (box_end - position))?;
         }
         else
         {
             // Not an EXIF box so skip it
             assert_eq!(position+8, file.stream_position()?);
-            file.seek(SeekFrom::Current((length-8) as i64))?;
+            file.seek(SeekFrom::Start(box_end))?;
         }
     }
 }
@@ -420,16 +450,11 @@ find_insert_position
     loop
     {
         // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
+        // the length of the current box
         let mut length_buffer = [0u8; 4];
         cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )? as usize;
+        let length   = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
+        let position = cursor.position() as usize - 4;
 
         // Next, read the box type
         let mut type_buffer = [0u8; 4];
@@ -440,10 +465,11 @@ find_insert_position
             IsoBmffBoxType::JXL |
             IsoBmffBoxType::FTYP => {
                 // Place exif box after these boxes
-                cursor.seek(SeekFrom::Current(length as i64))?;
+                let box_end = get_box_end(position, length, file_buffer.len())?;
+                cursor.seek(SeekFrom::Start(box_end as u64))?;
             }
             _ => {
-                return Ok(cursor.position() as usize - 8);
+                return Ok(position);
             }
         }
     }
-- 
2.43.0


From 3fb041e89eb8d685cb1bc350ac9aa62cd2f21ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:42 +0000
Subject: [PATCH 13/19] fix: jxl, png, webp: leave the image untouched if the
 metadata can not be encoded

---
 src/jxl.rs       |  4 +++-
 src/png/mod.rs   | 15 ++++++++-------
 src/webp/file.rs |  7 ++++---
 src/webp/vec.rs  |  7 ++++---
 4 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index d42f376..8f2ebac 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -483,6 +483,9 @@ write_metadata
 )
 -> Result<(), std::io::Error> 
 {
+    // Encode first - if this is not possible the file buffer remains untouched
+    let mut encoded_metadata = encode_metadata_jxl(&metadata.encode()?);
+
     if starts_with_jxl_signature(file_buffer)
     {
         // Need to modify the file_buffer first so that it is a ISO BMFF 
@@ -509,7 +512,6 @@ write_metadata
     clear_metadata(file_buffer)?;
     
     // Insert new metadata
-    let mut encoded_metadata = encode_metadata_jxl(&metadata.encode()?);
     let     insert_position  = find_insert_position(file_buffer)?;
     insert_multiple_at(file_buffer, insert_position, &mut encoded_metadata);
 
diff --git a/src/png/mod.rs b/src/png/mod.rs
index 623f9ce..f60b620 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -561,7 +561,10 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // First clear the existing metadata
+    // Encode first - if this is not possible the file buffer remains untouched
+    let encoded_metadata = encode_metadata_png(&metadata.encode()?);
+
+    // Then clear the existing metadata
     // This also parses the PNG and checks its validity, so it is safe to
     // assume that is, in fact, a usable PNG file
     clear_metadata(file_buffer)?;
@@ -570,7 +573,7 @@ write_metadata
     let mut cursor = Cursor::new(file_buffer);
 
     // Call the generic write function
-    return generic_write_metadata(&mut cursor, metadata);
+    return generic_write_metadata(&mut cursor, &encoded_metadata);
 }
 
 pub(crate) fn
@@ -658,8 +661,8 @@ fn
 generic_write_metadata
 <T: Seek + Read + Write>
 (
-    cursor:     &mut T,
-    metadata:   &Metadata
+    cursor:           &mut T,
+    encoded_metadata: &[u8]
 )
 -> Result<(), std::io::Error>
 {
@@ -672,8 +675,6 @@ generic_write_metadata
         IHDR_length = chunks[0].length();
     }
 
-    // Encode the data specifically for PNG and open the image file
-    let encoded_metadata = encode_metadata_png(&metadata.encode()?);
     let seek_start = 0u64         // Skip ...
     + PNG_SIGNATURE.len() as u64  // PNG Signature
     + IHDR_length         as u64  // IHDR data section
@@ -682,7 +683,7 @@ generic_write_metadata
     // Build data of new chunk using zlib compression (level=8 -> default)
     let zTXt_chunk_data: Vec<u8> = construct_zTXt_chunk_data(
         &Vec::new(),
-        &encoded_metadata
+        encoded_metadata
     );
 
     // Seek to insert position and write the chunk
diff --git a/src/webp/file.rs b/src/webp/file.rs
index 9e6e25b..39e13e0 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -647,12 +647,13 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Clear the metadata from the file and return if this results in an error
-    clear_metadata(path)?;
-
     // Encode the general metadata format to WebP specifications
+    // If this is not possible the file remains untouched
     let encoded_metadata = encode_metadata_webp(&metadata.encode()?);
 
+    // Clear the metadata from the file and return if this results in an error
+    clear_metadata(path)?;
+
     // Check & open the file, skipping the signature...
     check_signature(path)?;
     let mut file = open_write_file(path)?;
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index e7c4e63..a78990e 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -586,13 +586,14 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Clear the metadata from the file and return if this results in an error
-    clear_metadata(file_buffer)?;
-
     // Encode the general metadata format to WebP specifications
+    // If this is not possible the file buffer remains untouched
     let mut encoded_metadata = encode_metadata_webp(&metadata.encode()?);
     let encoded_metadata_len = encoded_metadata.len() as i32;
 
+    // Clear the metadata from the file and return if this results in an error
+    clear_metadata(file_buffer)?;
+
     // Find a location where to put the EXIF chunk
     // This is done by requesting a chunk descriptor as long as we find a chunk
     // that is both known and should be located *before* the EXIF chunk
-- 
2.43.0


From 6c4205652366484776bd647aeab5c2ed715cf40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:43 +0000
Subject: [PATCH 14/19] fix: webp: extend a VP8 file in memory as well, instead
 of failing halfway

---
 src/webp/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index a78990e..9a40e07 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -397,7 +397,7 @@ convert_to_extended_format
     let (width, height) = match first_chunk.descriptor().header().as_str()
     {
         "VP8 "
-            => {log::debug!("VP8 !"); io_error!(Other, "Conversion from Simple File Format with 'VP8' chunk to Extended File Format not yet implemented!") },
+            => get_dimension_info_from_vp8_chunk(first_chunk.payload()),
         "VP8L"
             => get_dimension_info_from_vp8l_chunk(first_chunk.payload()),
         _ 
-- 
2.43.0


From 4f4a52bd74a9b8cba1394d6fce52a907013d5fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:02 +0000
Subject: [PATCH 15/19] fix: webp: do not put the EXIF chunk between the alpha
 and the image data

---
 src/webp/file.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 39e13e0..67cb906 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -664,10 +664,12 @@ write_metadata
     // that is both known and should be located *before* the EXIF chunk
     let pre_exif_chunks = [
         "VP8X",
-        "VP8",
+        "VP8 ",
         "VP8L",
+        "ALPH",
         "ICCP",
-        "ANIM"
+        "ANIM",
+        "ANMF"
     ];
 
     loop
-- 
2.43.0


From 64fcb0f72a40bad47617588871264e6d6e80ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:03 +0000
Subject: [PATCH 16/19] fix: webp: keep the alpha flag when extending a VP8L
 file

---
 src/webp/file.rs | 7 +++++++
 src/webp/vec.rs  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 67cb906..fbded63 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -429,6 +429,13 @@ convert_to_extended_format
     ];
 
     // Add the two 24 bits for width and height information
+    // The header of a VP8L image tells (in its 29th bit, after the dimensions)
+    // whether it makes use of the alpha channel
+    if first_chunk.descriptor().header() == "VP8L" && first_chunk.payload()[4] & 0x10 != 0
+    {
+        vp8x_chunk[8] |= 0x10;
+    }
+
     for byte in  width_vec.iter().take(3) { vp8x_chunk.push(*byte); }
     for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
 
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 9a40e07..4d67e14 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -414,6 +414,13 @@ convert_to_extended_format
     ];
 
     // Add the two 24 bits for width and height information
+    // The header of a VP8L image tells (in its 29th bit, after the dimensions)
+    // whether it makes use of the alpha channel
+    if first_chunk.descriptor().header() == "VP8L" && first_chunk.payload()[4] & 0x10 != 0
+    {
+        vp8x_chunk[8] |= 0x10;
+    }
+
     for byte in  width_vec.iter().take(3) { vp8x_chunk.push(*byte); }
     for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
 
-- 
2.43.0


From a21dc58a8e9695a6797dccfe95a234150627592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 17/19] fix: jxl: read an Exif box that extends up to the end
 of the file

---
 src/jxl.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index 8f2ebac..c14a532 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -345,7 +345,17 @@ generic_read_metadata
         // and box type)
         let mut length_buffer = [0u8; 4];
         cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
+        let mut box_length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?;
+
+        if box_length == 0
+        {
+            // The last box may extend up to the end of the file
+            let position = cursor.stream_position()?;
+            box_length   = (cursor.seek(SeekFrom::End(0))? - position) as u32 + 4;
+            cursor.seek(SeekFrom::Start(position))?;
+        }
+
+        let length = box_length.checked_sub(8).ok_or(
             std::io::Error::new(
                 std::io::ErrorKind::InvalidData,
                 "Invalid box length found when reading JXL metadata!"
-- 
2.43.0


From b4f4f58858c26fe72789cc0320471f6527961202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:56 +0000
Subject: [PATCH 18/19] fix: xmp: skip everything nested in an exif element,
 not just up to the first end tag

---
 src/xmp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index 707ece2..a531c10 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -40,11 +40,13 @@ remove_exif_from_xmp
             Ok(Event::Start(ref event)) => {
                 let event_name = String::from_utf8(event.name().0.to_vec())?;
 
-                if event_name.starts_with("exif:")
+                // Elements nested in a skipped one are skipped as well, whatever
+                // their name is
+                if skip_depth > 0 || event_name.starts_with("exif:")
                 {
                     skip_depth += 1;
                 }
-                else if skip_depth == 0
+                else
                 {
                     writer.write_event(Event::Start(get_exif_filtered_event(event)?))?;
                 }
-- 
2.43.0


From c40b90006eef65c3f3bd8dea5903bcb7db87aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:59 +0000
Subject: [PATCH 19/19] fix: png: keep the compression method when rewriting
 the XMP data of a zTXt chunk

---
 src/png/text.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/png/text.rs b/src/png/text.rs
index ecbf03a..0cfd3b5 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -167,6 +167,9 @@ construct_similar_with_new_data
                 );
             }
 
+            // Push compression method (deflate, as checked above)
+            new_chunk_data.push(0x00);
+
             new_chunk_data.extend(compress_to_vec_zlib(new_data, 8).iter());
         },
 
-- 
2.43.0

