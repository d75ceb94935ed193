From d02619bf69509d5d5c2993159a8e82f7cda14331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 01/25] fix: compute the first dimension's frame divisor in 64
 bits

chunk_lattice_index() accumulated the divisor for dimension 0 in a
uint32_t, so it wrapped (possibly to 0) when chunk_size_px times the
sizes of the inner non-spatial dimensions exceeded 2^32-1.
---
 src/streaming/zarr.dimension.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/zarr.dimension.cpp b/src/streaming/zarr.dimension.cpp
index 4629f70..97b64e4 100644
--- a/src/streaming/zarr.dimension.cpp
+++ b/src/streaming/zarr.dimension.cpp
@@ -49,7 +49,7 @@ ArrayDimensions::chunk_lattice_index(uint64_t frame_id,
 
     // the first dimension is a special case
     if (dim_index == 0) {
-        auto divisor = dims_.front().chunk_size_px;
+        size_t divisor = dims_.front().chunk_size_px;
         for (auto i = 1; i < ndims() - 2; ++i) {
             const auto& dim = dims_[i];
             divisor *= dim.array_size_px;
-- 
2.43.0


From 31eb2900a77ae58712150ae284735f29c6332f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 02/25] fix: write the buffered frame when append completes a
 partial frame

Completing a partial frame wrote a frame's worth of bytes from the
caller's pointer instead of the frame buffer (reading past its end),
counted and skipped the copied bytes twice, and did not add the frame to
the multiscale pyramid.
---
 src/streaming/zarr.stream.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 1f1f8cb..fe71981 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -437,21 +437,22 @@ ZarrStream::append(const void* data_, size_t nbytes)
               std::min(bytes_of_frame - frame_buffer_offset_, bytes_remaining);
 
             memcpy(frame_buffer_.data() + frame_buffer_offset_,
-                   data + bytes_written,
+                   data,
                    bytes_to_copy);
             frame_buffer_offset_ += bytes_to_copy;
             bytes_written += bytes_to_copy;
+            data += bytes_to_copy;
 
             // ready to flush the frame buffer
             if (frame_buffer_offset_ == bytes_of_frame) {
                 const size_t bytes_written_this_frame =
-                  writers_[0]->write_frame({ data, bytes_of_frame });
+                  writers_[0]->write_frame(frame_buffer_);
                 if (bytes_written_this_frame == 0) {
                     break;
                 }
 
-                bytes_written += bytes_to_copy;
-                data += bytes_to_copy;
+                write_multiscale_frames_(frame_buffer_.data(),
+                                         bytes_written_this_frame);
                 frame_buffer_offset_ = 0;
             }
         } else if (bytes_remaining < bytes_of_frame) { // begin partial frame
-- 
2.43.0


From c93c6d8c3ccdd3508dd8d6708eb190543272ec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 03/25] fix: index chunks of later append-steps at their own
 slots in the shard

With more than one chunk per shard along the append dimension, every
append-step wrote its index entries to the slots of the first one, so
that the index lost all chunks but those of the last append-step.
---
 src/streaming/zarrv3.array.writer.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index d687076..091d496 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -89,6 +89,21 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
         chunk_in_shards[index].push_back(i);
     }
 
+    // the chunks in memory are one layer of chunks along the append dimension:
+    // offset their positions in the shard by that of the layer
+    const auto& dims = config_.dimensions;
+    const size_t layers_per_shard = dims->final_dim().shard_size_chunks;
+    size_t frames_per_layer = dims->final_dim().chunk_size_px;
+    for (auto i = 1; i < dims->ndims() - 2; ++i) {
+        frames_per_layer *= dims->at(i).array_size_px;
+    }
+    CHECK(layers_per_shard > 0 && frames_per_layer > 0);
+    const size_t layer =
+      (frames_written_ > 0 ? (frames_written_ - 1) / frames_per_layer : 0) %
+      layers_per_shard;
+    const size_t layer_offset =
+      layer * (dims->chunks_per_shard() / layers_per_shard);
+
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
     std::latch latch(n_shards);
@@ -102,6 +117,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        &chunk_table,
                                        file_offset,
                                        write_table,
+                                       layer_offset,
                                        &latch,
                                        this](std::string& err) {
             bool success = false;
@@ -117,6 +133,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                     }
 
                     const auto internal_idx =
+                      layer_offset +
                       config_.dimensions->shard_internal_index(chunk_idx);
                     chunk_table.at(2 * internal_idx) = *file_offset;
                     chunk_table.at(2 * internal_idx + 1) = chunk.size();
-- 
2.43.0


From b64593fb6f3a9cc65fbdc7ea4bfe27208ce80890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 04/25] fix: compute the number of frames in a shard in 64 bits

The product of chunk size and chunks per shard was computed in 32 bits
and could wrap, making shards roll over too early (or dividing by 0).
---
 src/streaming/zarrv3.array.writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 091d496..d9b78cb 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -260,8 +260,8 @@ zarr::ZarrV3ArrayWriter::should_rollover_() const
 {
     const auto& dims = config_.dimensions;
     const auto& append_dim = dims->final_dim();
-    size_t frames_before_flush =
-      append_dim.chunk_size_px * append_dim.shard_size_chunks;
+    size_t frames_before_flush = append_dim.chunk_size_px;
+    frames_before_flush *= append_dim.shard_size_chunks;
     for (auto i = 1; i < dims->ndims() - 2; ++i) {
         frames_before_flush *= dims->at(i).array_size_px;
     }
-- 
2.43.0


From 2722d73001e463dc2c099f08c8fb297a495c8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 05/25] fix: count written frames in 64 bits

The counter wrapped after 2^32 frames, restarting at the first chunk and
shrinking the append dimension in the metadata.
---
 src/streaming/array.writer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index 076b114..a05f8f8 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -72,7 +72,7 @@ class ArrayWriter
 
     /// Bookkeeping
     uint64_t bytes_to_flush_;
-    uint32_t frames_written_;
+    uint64_t frames_written_;
     uint32_t append_chunk_index_;
     bool is_finalizing_;
 
-- 
2.43.0


From 4b10c2dd0db2995c479eb226bf9970175ded8ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 06/25] fix: write the shard index when a stream ends on a
 chunk boundary

Closing a V3 array right after an append-step was flushed, but before the
shard was complete, skipped the shard index and the array metadata.
---
 src/streaming/array.writer.cpp        | 7 ++++++-
 src/streaming/zarrv3.array.writer.cpp | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 0c7fd21..e2e8122 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -396,7 +396,12 @@ void
 zarr::ArrayWriter::flush_()
 {
     if (bytes_to_flush_ == 0) {
-        return;
+        if (!is_finalizing_ || data_sinks_.empty()) {
+            return;
+        }
+
+        // no frames since the last flush, but there are unfinished data sinks
+        chunk_buffers_.clear();
     }
 
     // compress buffers and write out
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index d9b78cb..fd67f26 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -120,7 +120,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        layer_offset,
                                        &latch,
                                        this](std::string& err) {
-            bool success = false;
+            bool success = true;
 
             try {
                 for (const auto& chunk_idx : chunks) {
@@ -150,6 +150,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                 }
             } catch (const std::exception& exc) {
                 err = "Failed to write chunk: " + std::string(exc.what());
+                success = false;
             }
 
             latch.count_down();
-- 
2.43.0


From 5d2b6415d6fe119c7ef0ecfd9ef7d8e0aa3d9a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 07/25] fix: finalize the data sinks that are open when an
 array is closed

Sinks of an unfinished shard were destroyed without being flushed: on S3
their last part was never uploaded nor the upload completed.
---
 src/streaming/array.writer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index e2e8122..a702478 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -454,7 +454,8 @@ zarr::finalize_array(std::unique_ptr<ArrayWriter>&& writer)
 
     writer->is_finalizing_ = true;
     try {
-        writer->flush_(); // data sinks finalized here
+        writer->flush_();
+        writer->close_sinks_(); // finalize the data sinks still open
     } catch (const std::exception& exc) {
         LOG_ERROR("Failed to finalize array writer: ", exc.what());
         return false;
-- 
2.43.0


From 82d94d7786e40622fa508d8e95676ff2a1fd4844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 08/25] fix: downsample pixels, not bytes

scale_image() averaged single bytes at pixel indices, so that every
downsampled image of more than one byte per pixel was wrong.
---
 src/streaming/zarr.stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index fe71981..494f6ab 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -287,12 +287,13 @@ dimension_type_to_string(ZarrDimensionType type)
 
 template<typename T>
 [[nodiscard]] std::byte*
-scale_image(const std::byte* const src,
+scale_image(const std::byte* const src_,
             size_t& bytes_of_src,
             size_t& width,
             size_t& height)
 {
-    CHECK(src);
+    CHECK(src_);
+    const auto* src = reinterpret_cast<const T*>(src_);
 
     const size_t bytes_of_frame = width * height * sizeof(T);
     EXPECT(bytes_of_src >= bytes_of_frame,
-- 
2.43.0


From a16f7fa5877c0d7d5f787b8e70881bf119bb0505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 09/25] fix: compute the size of a downsampled image in 64 bits

---
 src/streaming/zarr.stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 494f6ab..bd06fd2 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -309,7 +309,7 @@ scale_image(const std::byte* const src_,
     const auto h_pad = static_cast<double>(height + (height % downscale));
 
     const auto size_downscaled =
-      static_cast<uint32_t>(w_pad * h_pad * factor * bytes_of_type);
+      static_cast<size_t>(w_pad * h_pad * factor * bytes_of_type);
 
     auto* dst = new T[size_downscaled];
     EXPECT(dst,
-- 
2.43.0


From 07f59f30d4f3aadd77e2d457324ea203555f0efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 10/25] fix: average two frames without overflow

The sum of two pixels was computed in the pixel type (at least int), so
it overflowed for 32- and 64-bit pixel types.
---
 src/streaming/zarr.stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index bd06fd2..eef801b 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -367,7 +367,8 @@ average_two_frames(void* dst_,
 
     const auto num_pixels = bytes_of_src / sizeof(T);
     for (auto i = 0; i < num_pixels; ++i) {
-        dst[i] = static_cast<T>(0.5 * (dst[i] + src[i]));
+        dst[i] = static_cast<T>(0.5 * (static_cast<double>(dst[i]) +
+                                       static_cast<double>(src[i])));
     }
 }
 } // namespace
-- 
2.43.0


From 7e56e2176aa3c23ba6e1699136036df74b852e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 11/25] fix: stop downsampling when no dimension can shrink any
 more

With chunks of a single pixel no level ever had smaller chunks than the
one above, so that creating a multiscale stream never terminated.
---
 src/streaming/array.writer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index a702478..9e93d6f 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -62,6 +62,7 @@ zarr::downsample(const ArrayWriterConfig& config,
     downsampled_config.compression_params = config.compression_params;
 
     // can we downsample downsampled_config?
+    bool can_shrink = false;
     for (auto i = 0; i < config.dimensions->ndims(); ++i) {
         // downsampling made the chunk size strictly smaller
         const auto& dim = config.dimensions->at(i);
@@ -70,9 +71,15 @@ zarr::downsample(const ArrayWriterConfig& config,
         if (dim.chunk_size_px > downsampled_dim.chunk_size_px) {
             return false;
         }
+
+        // some dimension is left to downsample
+        if (downsampled_dim.type != ZarrDimensionType_Channel &&
+            downsampled_dim.array_size_px > 1) {
+            can_shrink = true;
+        }
     }
 
-    return true;
+    return can_shrink;
 }
 
 /// Writer
-- 
2.43.0


From 274461a8e00d9ab107e5eaca777679a067247a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 12/25] fix: reject null strings in the stream settings

Null dimension names and S3 settings were dereferenced.
---
 src/streaming/zarr.stream.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index eef801b..1335a86 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -32,6 +32,13 @@ is_compressed_acquisition(const struct ZarrStreamSettings_s* settings)
 [[nodiscard]] bool
 validate_s3_settings(const ZarrS3Settings* settings)
 {
+    if (settings->endpoint == nullptr || settings->bucket_name == nullptr ||
+        settings->access_key_id == nullptr ||
+        settings->secret_access_key == nullptr) {
+        LOG_ERROR("Null pointer in S3 settings");
+        return false;
+    }
+
     if (zarr::is_empty_string(settings->endpoint, "S3 endpoint is empty")) {
         return false;
     }
@@ -159,6 +166,11 @@ validate_dimension(const ZarrDimensionProperties* dimension,
                    ZarrVersion version,
                    bool is_append)
 {
+    if (dimension->name == nullptr) {
+        LOG_ERROR("Null pointer: dimension name");
+        return false;
+    }
+
     if (zarr::is_empty_string(dimension->name, "Dimension name is empty")) {
         return false;
     }
-- 
2.43.0


From 7da0b1b3fbe554731928b65ace32ae91a36d8143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 13/25] fix: do not compress when the compressor is None

Compression settings naming no compressor were taken for a request to
compress with an unrecognized codec.
---
 src/streaming/zarr.stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 1335a86..70d4505 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -499,7 +499,8 @@ ZarrStream_s::is_s3_acquisition_() const
 bool
 ZarrStream_s::is_compressed_acquisition_() const
 {
-    return compression_settings_.has_value();
+    return compression_settings_.has_value() &&
+           compression_settings_->compressor != ZarrCompressor_None;
 }
 
 void
-- 
2.43.0


From 0bcc758260fa378e9c9548ff692dd522f3965b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 14/25] fix: report failures to open, write and flush files

---
 src/streaming/file.sink.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streaming/file.sink.cpp b/src/streaming/file.sink.cpp
index 312d90c..32b0be6 100644
--- a/src/streaming/file.sink.cpp
+++ b/src/streaming/file.sink.cpp
@@ -19,12 +19,12 @@ zarr::FileSink::write(size_t offset, std::span<const std::byte> data)
 
     file_.seekp(offset);
     file_.write(reinterpret_cast<const char*>(data.data()), bytes_of_buf);
-    return true;
+    return !file_.fail();
 }
 
 bool
 zarr::FileSink::flush_()
 {
     file_.flush();
-    return true;
+    return !file_.fail();
 }
-- 
2.43.0


From 0cdeecbd2f18267e96c9257116b369e687f67b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 15/25] fix: do not truncate the offset of vectorized writes to
 int

---
 src/streaming/vectorized.file.writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/vectorized.file.writer.cpp b/src/streaming/vectorized.file.writer.cpp
index 18b57f8..52392cb 100644
--- a/src/streaming/vectorized.file.writer.cpp
+++ b/src/streaming/vectorized.file.writer.cpp
@@ -191,7 +191,7 @@ zarr::VectorizedFileWriter::write_vectors(
     ssize_t bytes_written = pwritev(fd_,
                                     iovecs.data(),
                                     static_cast<int>(iovecs.size()),
-                                    static_cast<int>(offset));
+                                    static_cast<off_t>(offset));
 
     if (bytes_written != total_bytes) {
         auto error = get_last_error_as_string();
-- 
2.43.0


From a9097a933925a6502a3800869bf9dac261896298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 16/25] fix: refuse S3 writes that start beyond the part buffer

The position in the part buffer was not checked, so a write leaving a gap
larger than a part wrote out of bounds.
---
 src/streaming/s3.sink.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 81150ab..0a05ea9 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -63,6 +63,13 @@ zarr::S3Sink::write(size_t offset, std::span<const std::byte> data)
                   nbytes_flushed_);
         return false;
     }
+    if (offset - nbytes_flushed_ > part_buffer_.size()) {
+        LOG_ERROR("Cannot write data at offset ",
+                  offset,
+                  ", beyond the buffered part starting at ",
+                  nbytes_flushed_);
+        return false;
+    }
     nbytes_buffered_ = offset - nbytes_flushed_;
 
     size_t bytes_of_data = data.size();
-- 
2.43.0


From ace3d36994ed097b63c268174ce026a9970017cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 17/25] fix: keep a part whose upload failed

A failed part was dropped from the object: its bytes counted as uploaded,
and finalizing the object later succeeded without them.
---
 src/streaming/s3.sink.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 0a05ea9..1aad935 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -181,14 +181,15 @@ zarr::S3Sink::flush_part_()
         parts.push_back(part);
 
         retval = true;
+
+        nbytes_flushed_ += nbytes_buffered_;
+        nbytes_buffered_ = 0;
     } catch (const std::exception& exc) {
         LOG_ERROR("Error: ", exc.what());
     }
 
     // cleanup
     connection_pool_->return_connection(std::move(connection));
-    nbytes_flushed_ += nbytes_buffered_;
-    nbytes_buffered_ = 0;
 
     return retval;
 }
-- 
2.43.0


From 74aa514049174b5517cd2903c98625bc1feaca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 18/25] fix: return the S3 connection when the operation throws
 or fails

A connection taken from the pool was lost when creating or completing a
multipart upload or looking up a bucket threw, until the pool was empty
and get_connection() blocked forever.
---
 src/streaming/s3.sink.cpp      | 25 +++++++++++++++++++------
 src/streaming/sink.creator.cpp |  8 +++++++-
 src/streaming/zarr.stream.cpp  |  5 +++--
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 1aad935..830e74f 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -135,13 +135,21 @@ zarr::S3Sink::is_multipart_upload_() const
 void
 zarr::S3Sink::create_multipart_upload_()
 {
-    multipart_upload_ = MultiPartUpload{};
-
     auto connection = connection_pool_->get_connection();
-    multipart_upload_->upload_id =
-      connection->create_multipart_object(bucket_name_, object_key_);
+
+    std::string upload_id;
+    try {
+        upload_id =
+          connection->create_multipart_object(bucket_name_, object_key_);
+    } catch (...) {
+        connection_pool_->return_connection(std::move(connection));
+        throw;
+    }
 
     connection_pool_->return_connection(std::move(connection));
+
+    multipart_upload_ = MultiPartUpload{};
+    multipart_upload_->upload_id = upload_id;
 }
 
 bool
@@ -202,8 +210,13 @@ zarr::S3Sink::finalize_multipart_upload_()
     const auto& upload_id = multipart_upload_->upload_id;
     const auto& parts = multipart_upload_->parts;
 
-    bool retval = connection->complete_multipart_object(
-      bucket_name_, object_key_, upload_id, parts);
+    bool retval = false;
+    try {
+        retval = connection->complete_multipart_object(
+          bucket_name_, object_key_, upload_id, parts);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error: ", exc.what());
+    }
 
     connection_pool_->return_connection(std::move(connection));
 
diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index d1343c2..5a6c81f 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -415,7 +415,13 @@ zarr::SinkCreator::bucket_exists_(std::string_view bucket_name)
     EXPECT(connection_pool_, "S3 connection pool not provided.");
 
     auto conn = connection_pool_->get_connection();
-    bool bucket_exists = conn->bucket_exists(bucket_name);
+    bool bucket_exists = false;
+    try {
+        bucket_exists = conn->bucket_exists(bucket_name);
+    } catch (...) {
+        connection_pool_->return_connection(std::move(conn));
+        throw;
+    }
 
     connection_pool_->return_connection(std::move(conn));
 
diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 70d4505..824e175 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -574,11 +574,12 @@ ZarrStream_s::create_store_()
 
         // test the S3 connection
         auto conn = s3_connection_pool_->get_connection();
-        if (!conn->is_connection_valid()) {
+        const bool is_valid = conn->is_connection_valid();
+        s3_connection_pool_->return_connection(std::move(conn));
+        if (!is_valid) {
             set_error_("Failed to connect to S3");
             return false;
         }
-        s3_connection_pool_->return_connection(std::move(conn));
     } else {
         if (fs::exists(store_path_)) {
             // remove everything inside the store path
-- 
2.43.0


From bf5885bcb2309c1d400424f4582bb9bbacd563ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 19/25] fix: record the outcome of a job before signalling its
 completion

The jobs creating directories and files counted down the latch before
they stored their outcome in the waiting caller's frame: a failure could
be missed, or written to a dead stack frame.
---
 src/streaming/sink.creator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index 5a6c81f..7154e15 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -268,8 +268,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                  [dirname, &latch, &all_successful](std::string& err) -> bool {
                      if (dirname.empty()) {
                          err = "Directory name must not be empty.";
-                         latch.count_down();
                          all_successful.fetch_and(0);
+                         latch.count_down();
                          return false;
                      }
 
@@ -279,8 +279,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                      } else if (fs::exists(dirname)) {
                          err =
                            "'" + dirname + "' exists but is not a directory";
-                         latch.count_down();
                          all_successful.fetch_and(0);
+                         latch.count_down();
                          return false;
                      }
 
@@ -289,8 +289,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                          if (!fs::create_directories(dirname, ec)) {
                              err = "Failed to create directory '" + dirname +
                                    "': " + ec.message();
-                             latch.count_down();
                              all_successful.fetch_and(0);
+                             latch.count_down();
                              return false;
                          }
                      }
@@ -344,8 +344,8 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
@@ -395,8 +395,8 @@ zarr::SinkCreator::make_files_(
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
-- 
2.43.0


From 5d60413debc514a3279d04b41c34d7fe5dcc8751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 20/25] fix: do not let file system errors escape the job
 creating a directory

fs::is_directory() and fs::exists() throw, for instance when the path is
too long, which terminated the process from the worker thread.
---
 src/streaming/sink.creator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index 7154e15..0e0e10c 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -273,10 +273,11 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                          return false;
                      }
 
-                     if (fs::is_directory(dirname)) {
+                     std::error_code status_ec;
+                     if (fs::is_directory(dirname, status_ec)) {
                          latch.count_down();
                          return true;
-                     } else if (fs::exists(dirname)) {
+                     } else if (fs::exists(dirname, status_ec)) {
                          err =
                            "'" + dirname + "' exists but is not a directory";
                          all_successful.fetch_and(0);
-- 
2.43.0


From d804ec3036ddac52c447ae4db70a5bfa85a9b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 21/25] fix: write the array attributes as JSON, not as an
 empty object

---
 src/streaming/zarr.stream.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 824e175..d27c367 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -739,6 +739,20 @@ ZarrStream_s::write_base_metadata_()
         return false;
     }
 
+    if (version_ == 2) {
+        // the array has no attributes of its own
+        const std::string attrs_str = "{}";
+        std::span attrs{ reinterpret_cast<const std::byte*>(attrs_str.data()),
+                         attrs_str.size() };
+
+        const std::unique_ptr<zarr::Sink>& attrs_sink =
+          metadata_sinks_.at("0/.zattrs");
+        if (!attrs_sink || !attrs_sink->write(0, attrs)) {
+            set_error_("Error writing array attributes");
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From ff6af522f4cf1d113423cb91bd1f5401cc7567c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 22/25] fix: store empty custom metadata as an empty JSON
 object

---
 src/streaming/zarr.stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index d27c367..3467024 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -508,7 +508,7 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 {
     version_ = settings->version;
     store_path_ = zarr::trim(settings->store_path);
-    if (settings->custom_metadata) {
+    if (settings->custom_metadata && *settings->custom_metadata) {
         custom_metadata_ = zarr::trim(settings->custom_metadata);
     } else {
         custom_metadata_ = "{}";
-- 
2.43.0


From 1ea6571d9185a22ccbb4120cc5401f04c20643e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 23/25] fix: reject enumeration values that are negative when
 promoted

---
 src/streaming/zarr.stream.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 3467024..688d03a 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -97,12 +97,12 @@ validate_filesystem_store_path(std::string_view data_root)
 [[nodiscard]] bool
 validate_compression_settings(const ZarrCompressionSettings* settings)
 {
-    if (settings->compressor >= ZarrCompressorCount) {
+    if (static_cast<uint32_t>(settings->compressor) >= ZarrCompressorCount) {
         LOG_ERROR("Invalid compressor: ", settings->compressor);
         return false;
     }
 
-    if (settings->codec >= ZarrCompressionCodecCount) {
+    if (static_cast<uint32_t>(settings->codec) >= ZarrCompressionCodecCount) {
         LOG_ERROR("Invalid compression codec: ", settings->codec);
         return false;
     }
@@ -175,7 +175,7 @@ validate_dimension(const ZarrDimensionProperties* dimension,
         return false;
     }
 
-    if (dimension->type >= ZarrDimensionTypeCount) {
+    if (static_cast<uint32_t>(dimension->type) >= ZarrDimensionTypeCount) {
         LOG_ERROR("Invalid dimension type: ", dimension->type);
         return false;
     }
@@ -231,7 +231,7 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         return false;
     }
 
-    if (settings->data_type >= ZarrDataTypeCount) {
+    if (static_cast<uint32_t>(settings->data_type) >= ZarrDataTypeCount) {
         LOG_ERROR("Invalid data type: ", settings->data_type);
         return false;
     }
-- 
2.43.0


From 8848d0bc78e30b573cbb5415e2b7b15e8e6f33c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 24/25] fix: compute pixel offsets within a frame in 64 bits

---
 src/streaming/array.writer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 9e93d6f..3550d13 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -302,7 +302,9 @@ zarr::ArrayWriter::write_frame_to_chunks_(std::span<const std::byte> data)
                       std::min(frame_col + tile_cols, frame_cols) - frame_col;
 
                     const auto region_start = static_cast<long long>(
-                      bytes_per_px * (frame_row * frame_cols + frame_col));
+                      bytes_per_px *
+                      (static_cast<size_t>(frame_row) * frame_cols +
+                       frame_col));
                     const auto nbytes =
                       static_cast<long long>(region_width * bytes_per_px);
                     const auto region_stop = region_start + nbytes;
-- 
2.43.0


From 3b4d2625444afd8cd54f8c186861d80fb7ab12ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:24 +0000
Subject: [PATCH 25/25] fix: count pixels of large frames in 64 bits when
 downsampling

---
 src/streaming/zarr.stream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 688d03a..cd9dcdc 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -332,10 +332,10 @@ scale_image(const std::byte* const src_,
     memset(dst, 0, size_downscaled);
 
     size_t dst_idx = 0;
-    for (auto row = 0; row < height; row += downscale) {
+    for (size_t row = 0; row < height; row += downscale) {
         const bool pad_height = (row == height - 1 && height != h_pad);
 
-        for (auto col = 0; col < width; col += downscale) {
+        for (size_t col = 0; col < width; col += downscale) {
             size_t src_idx = row * width + col;
             const bool pad_width = (col == width - 1 && width != w_pad);
 
@@ -378,7 +378,7 @@ average_two_frames(void* dst_,
     const T* src = static_cast<const T*>(src_);
 
     const auto num_pixels = bytes_of_src / sizeof(T);
-    for (auto i = 0; i < num_pixels; ++i) {
+    for (size_t i = 0; i < num_pixels; ++i) {
         dst[i] = static_cast<T>(0.5 * (static_cast<double>(dst[i]) +
                                        static_cast<double>(src[i])));
     }
-- 
2.43.0

