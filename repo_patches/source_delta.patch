From 325858ee25d29e71a8f9a0106cfa0d56bc3b8052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 01/75] Add verification hooks for buffer sizes and cut-offs
 (MLIO_VERIF_HOOKS)

---
 src/mlio/csv_reader.cc                        |  3 +-
 src/mlio/detail/verif_hooks.h                 | 43 +++++++++++++++++++
 .../detail/default_chunk_reader.h             |  3 +-
 src/mlio/recordio_protobuf_reader.cc          |  3 +-
 src/mlio/streams/gzip_inflate_stream.cc       |  3 +-
 src/mlio/streams/utf8_input_stream.cc         |  3 +-
 6 files changed, 53 insertions(+), 5 deletions(-)
 create mode 100644 src/mlio/detail/verif_hooks.h

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 3177993..70677ad 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -31,6 +31,7 @@
 #include "mlio/data_reader.h"
 #include "mlio/data_reader_error.h"
 #include "mlio/data_stores/data_store.h"
+#include "mlio/detail/verif_hooks.h"
 #include "mlio/example.h"
 #include "mlio/instance.h"
 #include "mlio/instance_batch.h"
@@ -421,7 +422,7 @@ Intrusive_ptr<Example> Csv_reader::decode(const Instance_batch &batch) const
 
     std::size_t num_instances = batch.instances().size();
 
-    constexpr std::size_t cut_off = 10'000'000;
+    const std::size_t cut_off = MLIO_VERIF_VALUE(parallel_cut_off, 10'000'000);
 
     bool should_run_serial =
         // If bad example handling mode is pad, we cannot parallelize
diff --git a/src/mlio/detail/verif_hooks.h b/src/mlio/detail/verif_hooks.h
new file mode 100644
index 0000000..45793a8
--- /dev/null
+++ b/src/mlio/detail/verif_hooks.h
@@ -0,0 +1,43 @@
+/*
+ * Copyright 2019-2020 Amazon.com, Inc. or its affiliates. All Rights Reserved.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License"). You
+ * may not use this file except in compliance with the License. A copy of
+ * the License is located at
+ *
+ *      http://aws.amazon.com/apache2.0/
+ *
+ * or in the "license" file accompanying this file. This file is
+ * distributed on an "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF
+ * ANY KIND, either express or implied. See the License for the specific
+ * language governing permissions and limitations under the License.
+ */
+
+#pragma once
+
+// Lets a verification build (MLIO_VERIF_HOOKS) shrink the internal
+// buffer sizes and cut-offs, so that their boundaries can be reached
+// with small inputs. A regular build uses the default values.
+
+#ifdef MLIO_VERIF_HOOKS
+
+#include <cstddef>
+
+namespace mlio {
+namespace verif {
+
+inline std::size_t chunk_size = 0x200'0000;
+inline std::size_t utf8_buffer_size = 0x200'0000;
+inline std::size_t inflate_buffer_size = 0x8'0000;
+inline std::size_t parallel_cut_off = 10'000'000;
+
+}  // namespace verif
+}  // namespace mlio
+
+#define MLIO_VERIF_VALUE(name, default_value) (::mlio::verif::name)
+
+#else
+
+#define MLIO_VERIF_VALUE(name, default_value) (default_value)
+
+#endif
diff --git a/src/mlio/record_readers/detail/default_chunk_reader.h b/src/mlio/record_readers/detail/default_chunk_reader.h
index 2d6c1a6..54675b6 100644
--- a/src/mlio/record_readers/detail/default_chunk_reader.h
+++ b/src/mlio/record_readers/detail/default_chunk_reader.h
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <utility>
 
+#include "mlio/detail/verif_hooks.h"
 #include "mlio/intrusive_ptr.h"
 #include "mlio/memory/memory_block.h"
 #include "mlio/memory/memory_slice.h"
@@ -51,7 +52,7 @@ public:
 
 private:
     Intrusive_ptr<Input_stream> stream_;
-    std::size_t next_chunk_size_ = 0x200'0000;  // 32 MiB
+    std::size_t next_chunk_size_ = MLIO_VERIF_VALUE(chunk_size, 0x200'0000);  // 32 MiB
     Intrusive_ptr<Mutable_memory_block> chunk_{};
     bool eof_{};
 };
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index f9a5d4b..4d5a1aa 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -29,6 +29,7 @@
 #include "mlio/cpu_array.h"
 #include "mlio/data_reader_error.h"
 #include "mlio/detail/protobuf/recordio_protobuf.pb.h"
+#include "mlio/detail/verif_hooks.h"
 #include "mlio/instance.h"
 #include "mlio/instance_batch.h"
 #include "mlio/logger.h"
@@ -268,7 +269,7 @@ Intrusive_ptr<Example> Recordio_protobuf_reader::decode(const Instance_batch &ba
 
     std::size_t num_instances = batch.instances().size();
 
-    constexpr std::size_t cut_off = 10'000'000;
+    const std::size_t cut_off = MLIO_VERIF_VALUE(parallel_cut_off, 10'000'000);
 
     bool should_run_serial =
         // If we have any sparse features, we cannot decode the example
diff --git a/src/mlio/streams/gzip_inflate_stream.cc b/src/mlio/streams/gzip_inflate_stream.cc
index a89b3d6..ef0a64a 100644
--- a/src/mlio/streams/gzip_inflate_stream.cc
+++ b/src/mlio/streams/gzip_inflate_stream.cc
@@ -17,6 +17,7 @@
 
 #include <utility>
 
+#include "mlio/detail/verif_hooks.h"
 #include "mlio/streams/detail/zlib.h"
 #include "mlio/streams/input_stream.h"
 #include "mlio/streams/stream_error.h"
@@ -44,7 +45,7 @@ std::size_t Gzip_inflate_stream::read(Mutable_memory_span destination)
     }
 
     if (buffer_pos_ == buffer_.end()) {
-        buffer_ = inner_->read(0x8'0000);  // 512 KiB
+        buffer_ = inner_->read(MLIO_VERIF_VALUE(inflate_buffer_size, 0x8'0000));  // 512 KiB
 
         // Make sure to reset the position before checking whether we
         // reached the end of the stream; otherwise the function won't
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index ba3b80a..a1a7270 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -20,6 +20,7 @@
 
 #include <fmt/format.h>
 
+#include "mlio/detail/verif_hooks.h"
 #include "mlio/logger.h"
 #include "mlio/memory/memory_allocator.h"
 #include "mlio/streams/detail/iconv.h"
@@ -116,7 +117,7 @@ Utf8_input_stream::Utf8_input_stream(Intrusive_ptr<Input_stream> inner, Text_enc
 
     converter_ = std::make_unique<Iconv_desc>(std::move(encoding));
 
-    buffer_ = memory_allocator().allocate(0x200'0000);  // 32 MiB
+    buffer_ = memory_allocator().allocate(MLIO_VERIF_VALUE(utf8_buffer_size, 0x200'0000));  // 32 MiB
 
     buffer_pos_ = buffer_->begin();
     buffer_end_ = buffer_->end();
-- 
2.43.0


From 4c99c03a0cfb23e90f762b8d1dcad447b44ba08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 02/75] fix: do not end a gzip stream while input remains

Gzip_inflate_stream::read() inflated at most one buffer per call and returned
zero if that buffer yielded no output (only a header, an empty member), which
its callers take for the end of the stream and silently drop the rest.
---
 src/mlio/streams/gzip_inflate_stream.cc | 43 ++++++++++++++-----------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/mlio/streams/gzip_inflate_stream.cc b/src/mlio/streams/gzip_inflate_stream.cc
index ef0a64a..b98a3c9 100644
--- a/src/mlio/streams/gzip_inflate_stream.cc
+++ b/src/mlio/streams/gzip_inflate_stream.cc
@@ -44,30 +44,37 @@ std::size_t Gzip_inflate_stream::read(Mutable_memory_span destination)
         return 0;
     }
 
-    if (buffer_pos_ == buffer_.end()) {
-        buffer_ = inner_->read(MLIO_VERIF_VALUE(inflate_buffer_size, 0x8'0000));  // 512 KiB
-
-        // Make sure to reset the position before checking whether we
-        // reached the end of the stream; otherwise the function won't
-        // behave correctly if called a second time.
-        buffer_pos_ = buffer_.begin();
+    auto out = destination;
 
-        if (buffer_.empty()) {
-            if (!inflater_->eof()) {
-                throw Inflate_error{"The zlib stream contains invalid or incomplete deflate data."};
+    // Inflating a buffer does not necessarily yield any output (e.g. if
+    // it ends with the header or if it only holds empty members). Since
+    // returning zero means the end of the stream, we have to continue
+    // until we either have at least one byte of output or no input.
+    while (out.size() == destination.size()) {
+        if (buffer_pos_ == buffer_.end()) {
+            buffer_ = inner_->read(MLIO_VERIF_VALUE(inflate_buffer_size, 0x8'0000));  // 512 KiB
+
+            // Make sure to reset the position before checking whether
+            // we reached the end of the stream; otherwise the function
+            // won't behave correctly if called a second time.
+            buffer_pos_ = buffer_.begin();
+
+            if (buffer_.empty()) {
+                if (!inflater_->eof()) {
+                    throw Inflate_error{
+                        "The zlib stream contains invalid or incomplete deflate data."};
+                }
+
+                return 0;
             }
-
-            return 0;
         }
-    }
 
-    Memory_span inp{buffer_pos_, buffer_.end()};
+        Memory_span inp{buffer_pos_, buffer_.end()};
 
-    auto out = destination;
-
-    inflater_->inflate(inp, out);
+        inflater_->inflate(inp, out);
 
-    buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+        buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+    }
 
     return destination.size() - out.size();
 }
-- 
2.43.0


From de368f2b9a16a617990f46b4f7e6fec9d5f5d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 03/75] fix: strip the UTF-8 byte order mark only at the
 beginning of the text

Text_record_reader removed U+FEFF from the beginning of every record.
---
 include/mlio/record_readers/text_record_reader.h |  2 ++
 src/mlio/record_readers/text_record_reader.cc    | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/mlio/record_readers/text_record_reader.h b/include/mlio/record_readers/text_record_reader.h
index a8b8da1..4d973a7 100644
--- a/include/mlio/record_readers/text_record_reader.h
+++ b/include/mlio/record_readers/text_record_reader.h
@@ -52,6 +52,8 @@ private:
 
     MLIO_HIDDEN
     static bool skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept;
+
+    bool should_skip_bom_ = true;
 };
 
 /// @}
diff --git a/src/mlio/record_readers/text_record_reader.cc b/src/mlio/record_readers/text_record_reader.cc
index 66e6a2f..c25d274 100644
--- a/src/mlio/record_readers/text_record_reader.cc
+++ b/src/mlio/record_readers/text_record_reader.cc
@@ -35,11 +35,17 @@ std::optional<Record> Text_record_reader::decode_record(Memory_slice &chunk, boo
         return {};
     }
 
-    if (skip_utf8_bom(chunk, ignore_leftover)) {
-        return decode_text_record(chunk, ignore_leftover);
+    // A BOM can only be at the beginning of the text; anywhere else it
+    // is part of the data.
+    if (should_skip_bom_) {
+        if (!skip_utf8_bom(chunk, ignore_leftover)) {
+            return {};
+        }
+
+        should_skip_bom_ = false;
     }
 
-    return {};
+    return decode_text_record(chunk, ignore_leftover);
 }
 
 bool Text_record_reader::skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept
-- 
2.43.0


From 495e30fc17205c78e7c5645dfa2c84c18be85e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 04/75] fix: do not read past the end of a chunk or split CRLF
 at a chunk boundary

read_line() dereferenced the end of the chunk if it held no line terminator,
and took a carriage return at the end of a chunk for a complete terminator, so
that a line feed at the start of the next chunk made an extra blank line.
---
 src/mlio/record_readers/detail/text_line.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index 82de5a4..9b594de 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -47,14 +47,20 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
 
     auto pos = chars.begin();
 
-    for (auto chr = *pos; pos < chars.end(); ++pos, chr = *pos) {
-        if (chr == '\n') {
+    for (; pos < chars.end(); ++pos) {
+        if (*pos == '\n') {
             break;
         }
 
-        if (chr == '\r') {
+        if (*pos == '\r') {
             auto next_pos = pos + 1;
 
+            // If this is the last character we have, we cannot know yet
+            // whether it is followed by a new-line character.
+            if (next_pos == chars.end() && ignore_leftover) {
+                return {};
+            }
+
             // Check if we have a new line with a new-line character and
             // make sure that we eat the carriage in such case.
             if (next_pos < chars.end() && *next_pos == '\n') {
-- 
2.43.0


From a7400159c6e3d5ce47dfab90fe1b2b6d30c49f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 05/75] fix: pad the last example with the pad_warn handling

---
 src/mlio/instance_batch_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance_batch_reader.cc b/src/mlio/instance_batch_reader.cc
index 84e1917..9ece789 100644
--- a/src/mlio/instance_batch_reader.cc
+++ b/src/mlio/instance_batch_reader.cc
@@ -75,7 +75,8 @@ std::optional<Instance_batch> Instance_batch_reader::read_instance_batch()
     }
 
     std::size_t size{};
-    if (params_->last_example_handling == Last_example_handling::pad) {
+    if (params_->last_example_handling == Last_example_handling::pad ||
+        params_->last_example_handling == Last_example_handling::pad_warn) {
         size = params_->batch_size;
     }
     else {
-- 
2.43.0


From 05f34e8c0eff4dee931920c51a74398e7624fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 06/75] fix: leave nothing of a bad instance behind in padded
 examples

---
 src/mlio/coo_tensor_builder.cc       | 27 ++++++++++++++
 src/mlio/coo_tensor_builder.h        | 15 ++++++++
 src/mlio/csv_reader.cc               |  7 ++++
 src/mlio/detail/tensor_util.h        | 53 ++++++++++++++++++++++++++++
 src/mlio/recordio_protobuf_reader.cc | 22 ++++++++++++
 5 files changed, 124 insertions(+)
 create mode 100644 src/mlio/detail/tensor_util.h

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index fb514e7..b685de3 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -15,6 +15,8 @@
 
 #include "mlio/coo_tensor_builder.h"
 
+#include <algorithm>
+
 #include "mlio/util/cast.h"
 
 namespace mlio {
@@ -52,6 +54,10 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
 
         for (auto zip_pos = zip_beg; zip_pos < zip_end; ++zip_pos) {
             std::size_t stride = as_size(std::get<1>(*zip_pos));
+            // There is no valid index if one of the dimensions is zero.
+            if (stride == 0) {
+                return false;
+            }
 
             std::size_t dim_idx = idx / stride;
 
@@ -73,6 +79,27 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
     return true;
 }
 
+std::size_t Coo_tensor_builder::discard_indices(std::size_t row_idx)
+{
+    const std::vector<std::size_t> &rows = coordinates_[0];
+
+    auto pos = std::lower_bound(rows.begin(), rows.end(), row_idx);
+
+    auto num_values = static_cast<std::size_t>(pos - rows.begin());
+
+    for (std::vector<std::size_t> &indices : coordinates_) {
+        // The last dimensions might have fewer indices than the first
+        // one if the row has been partially appended.
+        if (indices.size() > num_values) {
+            indices.resize(num_values);
+        }
+    }
+
+    row_idx_ = row_idx;
+
+    return num_values;
+}
+
 Intrusive_ptr<Tensor> Coo_tensor_builder::build_core(std::unique_ptr<Device_array> &&data)
 {
     // Wrap index lists into device arrays.
diff --git a/src/mlio/coo_tensor_builder.h b/src/mlio/coo_tensor_builder.h
index 9f4d3d8..4e0f1ab 100644
--- a/src/mlio/coo_tensor_builder.h
+++ b/src/mlio/coo_tensor_builder.h
@@ -47,11 +47,18 @@ public:
 
     virtual ~Coo_tensor_builder();
 
+    /// Removes the row with the specified index, which has to be the
+    /// one appended last, if it has been fully or partially appended.
+    virtual void discard_row(std::size_t row_idx) = 0;
+
     virtual Intrusive_ptr<Tensor> build() = 0;
 
 protected:
     bool append_indices(stdx::span<const std::uint64_t> indices);
 
+    /// Returns the number of remaining values.
+    std::size_t discard_indices(std::size_t row_idx);
+
     Intrusive_ptr<Tensor> build_core(std::unique_ptr<Device_array> &&data);
 
 private:
@@ -70,6 +77,8 @@ public:
 
     bool append(stdx::span<const value_type> values, stdx::span<const std::uint64_t> indices);
 
+    void discard_row(std::size_t row_idx) final;
+
     Intrusive_ptr<Tensor> build() final;
 
 private:
@@ -85,6 +94,12 @@ bool Coo_tensor_builder_impl<dt>::append(stdx::span<const value_type> values,
     return append_indices(indices);
 }
 
+template<Data_type dt>
+void Coo_tensor_builder_impl<dt>::discard_row(std::size_t row_idx)
+{
+    data_.resize(discard_indices(row_idx));
+}
+
 template<Data_type dt>
 Intrusive_ptr<Tensor> Coo_tensor_builder_impl<dt>::build()
 {
diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 70677ad..76c9768 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -31,6 +31,7 @@
 #include "mlio/data_reader.h"
 #include "mlio/data_reader_error.h"
 #include "mlio/data_stores/data_store.h"
+#include "mlio/detail/tensor_util.h"
 #include "mlio/detail/verif_hooks.h"
 #include "mlio/example.h"
 #include "mlio/instance.h"
@@ -552,6 +553,12 @@ Csv_reader::decode_ser(Decoder_state &state, const Instance_batch &batch) const
                 params().bad_example_handling != Bad_example_handling::pad_warn) {
                 throw std::invalid_argument{"The specified bad example handling is invalid."};
             }
+
+            // The instance might have been partially decoded. Make sure
+            // that nothing of it remains if the row ends up as padding.
+            for (const Intrusive_ptr<Tensor> &tensor : *state.tensors) {
+                detail::clear_row(static_cast<Dense_tensor &>(*tensor), row_idx);
+            }
         }
     }
 
diff --git a/src/mlio/detail/tensor_util.h b/src/mlio/detail/tensor_util.h
new file mode 100644
index 0000000..3c8f2f5
--- /dev/null
+++ b/src/mlio/detail/tensor_util.h
@@ -0,0 +1,53 @@
+/*
+ * Copyright 2019-2020 Amazon.com, Inc. or its affiliates. All Rights Reserved.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License"). You
+ * may not use this file except in compliance with the License. A copy of
+ * the License is located at
+ *
+ *      http://aws.amazon.com/apache2.0/
+ *
+ * or in the "license" file accompanying this file. This file is
+ * distributed on an "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF
+ * ANY KIND, either express or implied. See the License for the specific
+ * language governing permissions and limitations under the License.
+ */
+
+#pragma once
+
+#include <algorithm>
+#include <cstddef>
+
+#include "mlio/config.h"
+#include "mlio/data_type.h"
+#include "mlio/tensor.h"
+#include "mlio/util/cast.h"
+
+namespace mlio {
+inline namespace abi_v1 {
+namespace detail {
+
+template<Data_type dt>
+struct clear_row_op {
+    void operator()(Dense_tensor &tensor, std::size_t row_idx)
+    {
+        using T = data_type_t<dt>;
+
+        // The stride of the batch dimension.
+        std::size_t num_values = as_size(tensor.strides()[0]);
+
+        stdx::span<T> row = tensor.data().as<T>().subspan(row_idx * num_values, num_values);
+
+        std::fill(row.begin(), row.end(), T{});
+    }
+};
+
+/// Sets the values of the specified row of a Tensor to zero.
+inline void clear_row(Dense_tensor &tensor, std::size_t row_idx)
+{
+    dispatch<clear_row_op>(tensor.data_type(), tensor, row_idx);
+}
+
+}  // namespace detail
+}  // namespace abi_v1
+}  // namespace mlio
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 4d5a1aa..9a493d8 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -29,6 +29,7 @@
 #include "mlio/cpu_array.h"
 #include "mlio/data_reader_error.h"
 #include "mlio/detail/protobuf/recordio_protobuf.pb.h"
+#include "mlio/detail/tensor_util.h"
 #include "mlio/detail/verif_hooks.h"
 #include "mlio/instance.h"
 #include "mlio/instance_batch.h"
@@ -58,6 +59,8 @@ class Recordio_protobuf_reader::Decoder_state {
 public:
     explicit Decoder_state(const Recordio_protobuf_reader &r, std::size_t batch_size);
 
+    void clear_row(std::size_t row_idx);
+
     const Recordio_protobuf_reader *reader;
     bool warn_bad_instance;
     bool error_bad_example;
@@ -362,6 +365,10 @@ Recordio_protobuf_reader::decode_serial(Decoder_state &state, const Instance_bat
                 params().bad_example_handling != Bad_example_handling::pad_warn) {
                 throw std::invalid_argument{"The specified bad example handling is invalid."};
             }
+
+            // The instance might have been partially decoded. Make sure
+            // that nothing of it remains in the example.
+            state.clear_row(row_idx);
         }
     }
 
@@ -430,6 +437,21 @@ Recordio_protobuf_reader::Decoder_state::Decoder_state(const Recordio_protobuf_r
     init_state(*r.schema(), batch_size);
 }
 
+void Recordio_protobuf_reader::Decoder_state::clear_row(std::size_t row_idx)
+{
+    for (const Intrusive_ptr<Tensor> &tensor : tensors) {
+        if (tensor != nullptr) {
+            detail::clear_row(static_cast<Dense_tensor &>(*tensor), row_idx);
+        }
+    }
+
+    for (const std::unique_ptr<Coo_tensor_builder> &builder : coo_tensor_builders) {
+        if (builder != nullptr) {
+            builder->discard_row(row_idx);
+        }
+    }
+}
+
 void Recordio_protobuf_reader::Decoder_state::init_state(const Schema &schema,
                                                          std::size_t batch_size)
 {
-- 
2.43.0


From bb7208e9ebccc2421d4e8324f93d8ab37924a011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 07/75] fix: do not compute the data store ids lazily, they are
 used by several threads

---
 include/mlio/data_stores/in_memory_store.h |  2 +-
 include/mlio/data_stores/s3_object.h       |  2 +-
 src/mlio/data_stores/in_memory_store.cc    | 10 +++++-----
 src/mlio/data_stores/s3_object.cc          | 12 ++++--------
 4 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/mlio/data_stores/in_memory_store.h b/include/mlio/data_stores/in_memory_store.h
index 779128b..0aa39ed 100644
--- a/include/mlio/data_stores/in_memory_store.h
+++ b/include/mlio/data_stores/in_memory_store.h
@@ -44,7 +44,7 @@ public:
 private:
     Memory_slice chunk_;
     Compression compression_;
-    mutable std::string id_{};
+    std::string id_{};
 };
 
 /// @}
diff --git a/include/mlio/data_stores/s3_object.h b/include/mlio/data_stores/s3_object.h
index 6ae435c..bfe87ac 100644
--- a/include/mlio/data_stores/s3_object.h
+++ b/include/mlio/data_stores/s3_object.h
@@ -54,7 +54,7 @@ private:
     std::string uri_;
     std::string version_id_;
     Compression compression_;
-    mutable std::string id_{};
+    std::string id_{};
 };
 
 struct MLIO_API S3_object_list_options {
diff --git a/src/mlio/data_stores/in_memory_store.cc b/src/mlio/data_stores/in_memory_store.cc
index 4e1e8ab..f875931 100644
--- a/src/mlio/data_stores/in_memory_store.cc
+++ b/src/mlio/data_stores/in_memory_store.cc
@@ -33,6 +33,11 @@ In_memory_store::In_memory_store(Memory_slice chunk, Compression compression)
     if (compression_ == Compression::infer) {
         throw Not_supported_error{"The in-memory store does not support inferring compression."};
     }
+
+    // The id might be requested concurrently by several threads (e.g.
+    // for error messages); therefore we should not compute it lazily.
+    auto *ptr = static_cast<const void *>(chunk_.data());
+    id_ = fmt::format("{0:p}+{1:#04x}", ptr, chunk_.size());
 }
 
 Intrusive_ptr<Input_stream> In_memory_store::open_read() const
@@ -51,11 +56,6 @@ Intrusive_ptr<Input_stream> In_memory_store::open_read() const
 
 const std::string &In_memory_store::id() const
 {
-    if (id_.empty()) {
-        auto *ptr = static_cast<const void *>(chunk_.data());
-        id_ = fmt::format("{0:p}+{1:#04x}", ptr, chunk_.size());
-    }
-
     return id_;
 }
 
diff --git a/src/mlio/data_stores/s3_object.cc b/src/mlio/data_stores/s3_object.cc
index 23c0945..f3be952 100644
--- a/src/mlio/data_stores/s3_object.cc
+++ b/src/mlio/data_stores/s3_object.cc
@@ -47,6 +47,10 @@ S3_object::S3_object(Intrusive_ptr<const S3_client> client,
     if (compression_ == Compression::infer) {
         compression_ = detail::infer_compression(uri_);
     }
+
+    // The id might be requested concurrently by several threads (e.g.
+    // for error messages); therefore we should not compute it lazily.
+    id_ = version_id_.empty() ? uri_ : uri_ + "@" + version_id_;
 }
 
 Intrusive_ptr<Input_stream> S3_object::open_read() const
@@ -65,14 +69,6 @@ Intrusive_ptr<Input_stream> S3_object::open_read() const
 
 const std::string &S3_object::id() const
 {
-    if (id_.empty()) {
-        if (version_id_.empty()) {
-            return uri_;
-        }
-
-        id_ = uri_ + "@" + version_id_;
-    }
-
     return id_;
 }
 
-- 
2.43.0


From b1958a18c8ffcfc438a21d76bfa70f9aacd714a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 08/75] fix: convert UTF-16/32 text that fits in the preamble
 of a non-seekable stream

---
 include/mlio/streams/utf8_input_stream.h | 1 +
 src/mlio/streams/utf8_input_stream.cc    | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/mlio/streams/utf8_input_stream.h b/include/mlio/streams/utf8_input_stream.h
index d78801c..48bdce8 100644
--- a/include/mlio/streams/utf8_input_stream.h
+++ b/include/mlio/streams/utf8_input_stream.h
@@ -88,6 +88,7 @@ private:
     Mutable_memory_block::iterator buffer_pos_{};
     Mutable_memory_block::iterator buffer_end_{};
     bool should_fill_buffer_ = true;
+    bool has_preamble_{};
     std::array<std::byte, 4> char_buffer_{};
     Memory_span remaining_bits_{};
 };
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index a1a7270..fcc9e79 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -132,7 +132,7 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
     while (destination.size() == out.size()) {
         if (should_fill_buffer_) {
             fill_buffer();
-            if (buffer_pos_ == buffer_end_) {
+            if (buffer_pos_ == buffer_end_ && !has_preamble_) {
                 // We reached the end of the stream; we should check if
                 // there are unconsumed bytes in the buffer that cannot
                 // be converted.
@@ -151,6 +151,8 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
             buffer_pos_ = buffer_->begin();
 
             should_fill_buffer_ = false;
+
+            has_preamble_ = false;
         }
 
         Memory_span inp{buffer_pos_, buffer_end_};
@@ -220,6 +222,9 @@ void Utf8_input_stream::set_preamble(Memory_span value) noexcept
         // Otherwise put them into the buffer so they get converted by
         // the next call to read().
         buffer_pos_ = std::copy(value.begin(), value.end(), buffer_->begin());
+
+        // The preamble might be all there is in the stream.
+        has_preamble_ = !value.empty();
     }
 }
 
-- 
2.43.0


From 957289d9677c30d601ef5e201d5bf40d7572cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 09/75] fix: treat a CSV row with an unterminated quoted field
 as a bad instance

---
 src/mlio/csv_reader.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 76c9768..7060692 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -75,6 +75,8 @@ public:
     bool decode(std::size_t row_idx, const Instance &instance);
 
 private:
+    bool decode_fields(std::size_t row_idx, const Instance &instance);
+
     Decoder_state *state_;
     Csv_record_tokenizer *tokenizer_;
     Col_iter col_beg_;
@@ -633,6 +635,33 @@ Csv_reader::Decoder_state::Decoder_state(const Csv_reader &r,
 
 template<typename Col_iter>
 bool Csv_reader::Decoder<Col_iter>::decode(std::size_t row_idx, const Instance &instance)
+{
+    try {
+        return decode_fields(row_idx, instance);
+    }
+    catch (const Corrupt_record_error &e) {
+        if (state_->warn_bad_instance || state_->error_bad_example) {
+            auto msg = fmt::format(
+                "The row #{1:n} in the data store '{0}' cannot be split into its fields. {2}",
+                instance.data_store().id(),
+                instance.index(),
+                e.what());
+
+            if (state_->warn_bad_instance) {
+                logger::warn(msg);
+            }
+
+            if (state_->error_bad_example) {
+                std::throw_with_nested(Invalid_instance_error{msg});
+            }
+        }
+    }
+
+    return false;
+}
+
+template<typename Col_iter>
+bool Csv_reader::Decoder<Col_iter>::decode_fields(std::size_t row_idx, const Instance &instance)
 {
     auto col_pos = col_beg_;
 
-- 
2.43.0


From ef615393e464c54e55bedec152c6d149b2024e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 10/75] fix: do not loop forever reading an empty instance

---
 src/mlio/instance.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance.cc b/src/mlio/instance.cc
index 16a87fc..34a85fb 100644
--- a/src/mlio/instance.cc
+++ b/src/mlio/instance.cc
@@ -15,6 +15,7 @@
 
 #include "mlio/instance.h"
 
+#include <algorithm>
 #include <exception>
 #include <system_error>
 
@@ -89,7 +90,9 @@ Memory_slice Instance::read_stream(Input_stream &stream) const
         if (block) {
             prev_size = block->size();
 
-            block = resize_memory_block(block, prev_size * 2);
+            // An empty block, which we get for an empty stream, would
+            // stay empty forever if we would only double its size.
+            block = resize_memory_block(block, std::max(prev_size * 2, std::size_t{1}));
         }
         else {
             if (stream.seekable()) {
-- 
2.43.0


From 3853bfd2d4211aac5cd8991cebdf418ba5f3854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 11/75] fix: keep the alpha channel when converting a 4-channel
 image to RGB

---
 src/mlio/image_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index cf9e9fb..69bdfa1 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -207,7 +207,8 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
 
     if (params_.to_rgb && tmp.channels() != 1) {
         try {
-            cv::cvtColor(tmp, tmp, cv::COLOR_BGR2RGB);
+            cv::cvtColor(
+                tmp, tmp, tmp.channels() == 4 ? cv::COLOR_BGRA2RGBA : cv::COLOR_BGR2RGB);
         }
         catch (const cv::Exception &e) {
             if (warn_bad_instances() || error_bad_example_) {
-- 
2.43.0


From 7566419971f5c6eeb45c911bab8d11f07e4254b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 12/75] fix: format the message of a failed image resize

---
 src/mlio/image_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 69bdfa1..d2cd3ad 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -314,7 +314,7 @@ bool Image_reader::resize(cv::Mat &src, cv::Mat &dst, const Instance &instance)
     catch (const cv::Exception &e) {
         if (warn_bad_instances() || error_bad_example_) {
             auto msg = fmt::format(
-                "The image resize operation failed for the image #{2:n} in the data store '{0}' with the following exception: {2}",
+                "The image resize operation failed for the image #{1:n} in the data store '{0}' with the following exception: {2}",
                 instance.data_store().id(),
                 instance.index(),
                 e.what());
-- 
2.43.0


From e0f57e4249e331db84aa99589a8fcaae837c6f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 13/75] fix: handle images without a RecordIO header or with
 other channels as bad instances

---
 src/mlio/image_reader.cc | 47 ++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index d2cd3ad..cd70d4b 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -160,7 +160,27 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
         // Skip the 24-byte header defined in image_recordio.h in the
         // MXNet GitHub repository. This header contains metadata and
         // is not relevant in our implementation.
-        img_buf = instance.bits().subslice(recordio_image_header_offset_);
+        img_buf = instance.bits();
+        if (img_buf.size() < recordio_image_header_offset_) {
+            if (warn_bad_instances() || error_bad_example_) {
+                auto msg = fmt::format(
+                    "The image #{1:n} in the data store '{0}' has no valid RecordIO image header.",
+                    instance.data_store().id(),
+                    instance.index());
+
+                if (warn_bad_instances()) {
+                    logger::warn(msg);
+                }
+
+                if (error_bad_example_) {
+                    throw Invalid_instance_error{msg};
+                }
+            }
+
+            return false;
+        }
+
+        img_buf = img_buf.subslice(recordio_image_header_offset_);
     }
     else {
         img_buf = instance.bits();
@@ -281,12 +301,25 @@ cv::Mat Image_reader::decode_image(const cv::Mat &buf, int mode, const Instance
         return decoded_img;
     }
 
-    if (mode == cv::ImreadModes::IMREAD_UNCHANGED && decoded_img.channels() != 4) {
-        throw std::invalid_argument{fmt::format(
-            "The image #{1:n} in the data store '{0}' contains {2:n} channels while it is expected to contain 4 channels.",
-            instance.data_store().id(),
-            instance.index(),
-            decoded_img.channels())};
+    if (mode == cv::ImreadModes::IMREAD_UNCHANGED && decoded_img.type() != CV_8UC4) {
+        if (warn_bad_instances() || error_bad_example_) {
+            auto msg = fmt::format(
+                "The image #{1:n} in the data store '{0}' contains {2:n} {3:n}-bit channels while it is expected to contain 4 8-bit channels.",
+                instance.data_store().id(),
+                instance.index(),
+                decoded_img.channels(),
+                decoded_img.elemSize1() * 8);
+
+            if (warn_bad_instances()) {
+                logger::warn(msg);
+            }
+
+            if (error_bad_example_) {
+                throw std::invalid_argument{msg};
+            }
+        }
+
+        return {};
     }
 
     return decoded_img;
-- 
2.43.0


From 77abc23c6cdaef2c95e75cc999ed898c4e885008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 14/75] fix: run the pipeline of each reader in an arena of its
 own

---
 src/mlio/parallel_data_reader.cc | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index 2a16aea..7eae8e2 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -48,12 +48,27 @@ struct Example_msg {
 
 // Holds the internal TBB flow graph objects.
 struct Parallel_data_reader::Graph_data {
+    Graph_data();
+
     tbb::task_group_context ctx{};
-    tbb::flow::graph obj{ctx};
+    // The graph of each reader runs in an arena of its own. Otherwise
+    // the readers that wait for their examples to be consumed can take
+    // up all threads of the arena they share and prevent other readers
+    // from making progress.
+    tbb::task_arena arena{};
+    std::unique_ptr<tbb::flow::graph> obj{};
     tbb::flow::source_node<Batch_msg> *src_node{};
     std::vector<std::unique_ptr<tbb::flow::graph_node>> nodes{};
 };
 
+Parallel_data_reader::Graph_data::Graph_data()
+{
+    // A graph gets attached to the arena in which it is constructed.
+    arena.execute([this] {
+        obj = std::make_unique<tbb::flow::graph>(ctx);
+    });
+}
+
 Parallel_data_reader::~Parallel_data_reader() = default;
 
 std::size_t Parallel_data_reader::num_bytes_read() const noexcept
@@ -164,7 +179,7 @@ void Parallel_data_reader::run_pipeline()
     graph_->src_node->activate();
 
     try {
-        graph_->obj.wait_for_all();
+        graph_->obj->wait_for_all();
     }
     catch (const std::exception &) {
         exception_ptr_ = std::current_exception();
@@ -200,7 +215,7 @@ void Parallel_data_reader::init_graph()
         num_parallel_reads = num_prefetched_examples;
     }
 
-    flw::graph &g = graph_->obj;
+    flw::graph &g = *graph_->obj;
 
     // Source
     auto src_node = std::make_unique<flw::source_node<Batch_msg>>(
@@ -307,7 +322,10 @@ void Parallel_data_reader::reset() noexcept
 
     graph_->ctx.reset();
 
-    graph_->obj.reset();
+    // The graph gets attached anew to the arena in which it is reset.
+    graph_->arena.execute([this] {
+        graph_->obj->reset();
+    });
 
     exception_ptr_ = nullptr;
 
-- 
2.43.0


From 4c1c17f148e7302ee6789997fc2a3a7ab8f5c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 15/75] fix: honour the number base of the parser options

---
 include/mlio/util/number.h |  4 +++-
 src/mlio/parser.cc         |  6 +++---
 src/mlio/util/number.cc    | 33 ++++++++++++++++++++++++++-------
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/include/mlio/util/number.h b/include/mlio/util/number.h
index a4aabda..290a4a7 100644
--- a/include/mlio/util/number.h
+++ b/include/mlio/util/number.h
@@ -83,7 +83,9 @@ try_parse_int<std::uint64_t>(std::string_view s, std::uint64_t &result, const In
 // clang-format on
 
 MLIO_API
-Parse_result try_parse_size_t(std::string_view s, std::size_t &result) noexcept;
+Parse_result try_parse_size_t(std::string_view s,
+                              std::size_t &result,
+                              const Int_parse_options &opts = {}) noexcept;
 
 }  // namespace abi_v1
 }  // namespace mlio
diff --git a/src/mlio/parser.cc b/src/mlio/parser.cc
index b338d13..deab73b 100644
--- a/src/mlio/parser.cc
+++ b/src/mlio/parser.cc
@@ -34,10 +34,10 @@ decltype(auto) at(Device_array_span arr, std::size_t index) noexcept
 }
 
 template<Data_type dt>
-Return_if<dt == Data_type::size> make_parser_core(const Parser_options &)
+Return_if<dt == Data_type::size> make_parser_core(const Parser_options &opts)
 {
-    return [](std::string_view s, Device_array_span arr, std::size_t index) {
-        return try_parse_size_t(s, at<dt>(arr, index));
+    return [&opts](std::string_view s, Device_array_span arr, std::size_t index) {
+        return try_parse_size_t(s, at<dt>(arr, index), {opts.base});
     };
 }
 
diff --git a/src/mlio/util/number.cc b/src/mlio/util/number.cc
index c12c2ff..22793ac 100644
--- a/src/mlio/util/number.cc
+++ b/src/mlio/util/number.cc
@@ -44,9 +44,24 @@ struct parser_traits<double> {
     static constexpr bool (*parse_func)(absl::string_view s, double *result) = absl::SimpleAtod;
 };
 
-template<typename T>
-struct parser_traits<T, std::enable_if_t<std::is_integral_v<T>>> {
-    static constexpr bool (*parse_func)(absl::string_view s, T      *result) = absl::SimpleAtoi;
+template<>
+struct parser_traits<std::int32_t> {
+    static constexpr bool (*parse_func)(absl::string_view s, std::int32_t  *result, int base) = absl::numbers_internal::safe_strto32_base;
+};
+
+template<>
+struct parser_traits<std::int64_t> {
+    static constexpr bool (*parse_func)(absl::string_view s, std::int64_t  *result, int base) = absl::numbers_internal::safe_strto64_base;
+};
+
+template<>
+struct parser_traits<std::uint32_t> {
+    static constexpr bool (*parse_func)(absl::string_view s, std::uint32_t *result, int base) = absl::numbers_internal::safe_strtou32_base;
+};
+
+template<>
+struct parser_traits<std::uint64_t> {
+    static constexpr bool (*parse_func)(absl::string_view s, std::uint64_t *result, int base) = absl::numbers_internal::safe_strtou64_base;
 };
 
 // clang-format on
@@ -80,13 +95,16 @@ Parse_result try_parse_float_core(std::string_view s, T &result, const Float_par
 
 template<typename T>
 std::enable_if_t<sizeof(T) >= 4, Parse_result>
-try_parse_int_core(std::string_view s, T &result, const Int_parse_options &) noexcept
+try_parse_int_core(std::string_view s, T &result, const Int_parse_options &opts) noexcept
 {
+    // If not specified, we treat the number as decimal.
+    int base = opts.base == 0 ? 10 : opts.base;
+
     // Do not use 0; otherwise we cannot distinguish between a failure
     // and an overflow for unsigned types.
     T v = 1;
 
-    if (!parser_traits<T>::parse_func(s, &v)) {
+    if (!parser_traits<T>::parse_func(s, &v, base)) {
         if (v == std::numeric_limits<T>::max() || v == std::numeric_limits<T>::min()) {
             return Parse_result::overflowed;
         }
@@ -174,9 +192,10 @@ try_parse_int<std::uint64_t>(std::string_view s, std::uint64_t &result, const In
 
 // clang-format on
 
-Parse_result try_parse_size_t(std::string_view s, std::size_t &result) noexcept
+Parse_result
+try_parse_size_t(std::string_view s, std::size_t &result, const Int_parse_options &opts) noexcept
 {
-    return try_parse_int(s, result);
+    return try_parse_int(s, result, opts);
 }
 
 }  // namespace abi_v1
-- 
2.43.0


From 2b15c40e4f2c5c961da1c8531a9e2fea743a9e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 16/75] fix: allow CSV lines that are exactly as long as the
 maximum line length

---
 src/mlio/record_readers/csv_record_reader.cc | 24 +++++++++-----------
 src/mlio/record_readers/csv_record_reader.h  |  4 +---
 src/mlio/record_readers/detail/text_line.cc  | 15 ++++++------
 3 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/mlio/record_readers/csv_record_reader.cc b/src/mlio/record_readers/csv_record_reader.cc
index ceb959e..c65d487 100644
--- a/src/mlio/record_readers/csv_record_reader.cc
+++ b/src/mlio/record_readers/csv_record_reader.cc
@@ -187,10 +187,6 @@ has_carriage:
     goto new_line;  // NOLINT
 
 new_line : {
-    if (params_->max_line_length) {
-        check_line_length(chars, pos, *params_->max_line_length);
-    }
-
     auto offset = sizeof(char) * as_size(pos - chars.begin());
 
     Memory_slice payload;
@@ -201,14 +197,19 @@ new_line : {
         payload = chunk.first(offset - sizeof(char));
     }
 
+    check_line_length(payload.size());
+
     chunk = chunk.subslice(offset);
 
     return Record{std::move(payload)};
 }
 
 end:
-    if (params_->max_line_length) {
-        check_line_length(chars, pos, *params_->max_line_length);
+    if (state == Parser_state::has_carriage) {
+        check_line_length(chunk.size() - sizeof(char));
+    }
+    else {
+        check_line_length(chunk.size());
     }
 
     if (ignore_leftover) {
@@ -252,14 +253,11 @@ inline bool Csv_record_reader::try_get_next_char(const stdx::span<const char> &c
     return true;
 }
 
-inline void Csv_record_reader::check_line_length(const stdx::span<const char> &chars,
-                                                 stdx::span<const char>::iterator &pos,
-                                                 std::size_t max_line_length)
+inline void Csv_record_reader::check_line_length(std::size_t size)
 {
-    std::size_t num_chars_read = as_size(pos - chars.begin());
-    if (num_chars_read >= max_line_length) {
-        throw Record_too_large_error{
-            fmt::format("The text line exceeds the maximum length of {0:n}.", max_line_length)};
+    if (params_->max_line_length && size > *params_->max_line_length) {
+        throw Record_too_large_error{fmt::format(
+            "The text line exceeds the maximum length of {0:n}.", *params_->max_line_length)};
     }
 }
 
diff --git a/src/mlio/record_readers/csv_record_reader.h b/src/mlio/record_readers/csv_record_reader.h
index 594b6bc..dedafc7 100644
--- a/src/mlio/record_readers/csv_record_reader.h
+++ b/src/mlio/record_readers/csv_record_reader.h
@@ -52,9 +52,7 @@ private:
                                   stdx::span<const char>::iterator &pos,
                                   char &chr) noexcept;
 
-    static void check_line_length(const stdx::span<const char> &chars,
-                                  stdx::span<const char>::iterator &pos,
-                                  std::size_t max_line_length);
+    void check_line_length(std::size_t size);
 
     const Csv_params *params_;
 };
diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index 9b594de..be781f2 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -75,7 +75,12 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
 
     std::size_t num_chars_read = as_size(pos - chars.begin());
 
-    if (max_line_length && num_chars_read >= *max_line_length) {
+    std::size_t line_length = num_chars_read;
+    if (has_carriage) {
+        line_length--;
+    }
+
+    if (max_line_length && line_length > *max_line_length) {
         throw Record_too_large_error{
             fmt::format("The text line exceeds the maximum length of {0:n}.", *max_line_length)};
     }
@@ -86,13 +91,7 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
 
     auto offset = sizeof(char) * num_chars_read;
 
-    Memory_slice payload;
-    if (has_carriage) {
-        payload = chunk.first(offset - sizeof(char));
-    }
-    else {
-        payload = chunk.first(offset);
-    }
+    Memory_slice payload = chunk.first(sizeof(char) * line_length);
 
     // Check if we reached the end of the stream or encountered a
     // new-line character.
-- 
2.43.0


From 607eabf83f1e28ece56d858f851d852a2b5d8ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:29 +0000
Subject: [PATCH 17/75] fix: do not keep half-read names and types when
 inferring the CSV schema fails

---
 src/mlio/csv_reader.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 7060692..856db3d 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -130,6 +130,9 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
 {
     skip_to_header_row(reader);
 
+    // Do not leave any names behind if the header row cannot be read.
+    std::vector<std::string> names{};
+
     try {
         std::optional<Record> hdr = reader.read_record();
         if (hdr == std::nullopt) {
@@ -145,7 +148,7 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
             else {
                 name = params_.name_prefix + tokenizer.value();
             }
-            column_names_.emplace_back(std::move(name));
+            names.emplace_back(std::move(name));
         }
     }
     catch (const Corrupt_record_error &) {
@@ -156,9 +159,11 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
 
     // If the header row was blank, we treat it as a single column with
     // an blank name.
-    if (column_names_.empty()) {
-        column_names_.emplace_back(params_.name_prefix);
+    if (names.empty()) {
+        names.emplace_back(params_.name_prefix);
     }
+
+    column_names_ = std::move(names);
 }
 
 void Csv_reader::skip_to_header_row(Record_reader &reader)
@@ -180,6 +185,11 @@ Intrusive_ptr<const Schema> Csv_reader::infer_schema(const std::optional<Instanc
         return {};
     }
 
+    // A previous attempt to infer the schema might have failed.
+    column_types_.clear();
+    column_ignores_.clear();
+    column_parsers_.clear();
+
     infer_column_types(instance);
 
     set_or_validate_column_names(instance);
-- 
2.43.0


From 7eb01b48134ec6a89d179b994d248688243c9382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 18/75] fix: honour NaN spellings that can also be read as
 numbers

---
 src/mlio/util/number.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/mlio/util/number.cc b/src/mlio/util/number.cc
index 22793ac..e79fa38 100644
--- a/src/mlio/util/number.cc
+++ b/src/mlio/util/number.cc
@@ -69,18 +69,21 @@ struct parser_traits<std::uint64_t> {
 template<typename T>
 Parse_result try_parse_float_core(std::string_view s, T &result, const Float_parse_options &opts)
 {
+    // The strings that should be treated as NaN might also be readable
+    // as numbers (e.g. -999).
+    auto *nan_values = opts.nan_values;
+    if (nan_values != nullptr && !nan_values->empty()) {
+        auto trimmed = static_cast<std::string>(trim(s));
+        if (nan_values->find(trimmed) != nan_values->end()) {
+            result = std::numeric_limits<T>::quiet_NaN();
+
+            return Parse_result::ok;
+        }
+    }
+
     T v = 0.0;
 
     if (!parser_traits<T>::parse_func(s, &v)) {
-        auto *nan_values = opts.nan_values;
-        if (nan_values != nullptr && !nan_values->empty()) {
-            auto trimmed = static_cast<std::string>(trim(s));
-            if (nan_values->find(trimmed) != nan_values->end()) {
-                result = std::numeric_limits<T>::quiet_NaN();
-
-                return Parse_result::ok;
-            }
-        }
         return Parse_result::failed;
     }
 
-- 
2.43.0


From f986d2166c27ecd2196ed08ae851db6186e5d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 19/75] fix: do not crash on a split record that is truncated
 at the end of the dataset

---
 src/mlio/instance_readers/core_instance_reader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mlio/instance_readers/core_instance_reader.cc b/src/mlio/instance_readers/core_instance_reader.cc
index c70c0a9..fddbde2 100644
--- a/src/mlio/instance_readers/core_instance_reader.cc
+++ b/src/mlio/instance_readers/core_instance_reader.cc
@@ -126,6 +126,8 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
 
     std::size_t payload_size = 0;
 
+    Data_store *store = store_;
+
     // A split record must start with a 'begin' record...
     if (record->kind() == Record_kind::begin) {
         payload_size += record->payload().size();
@@ -150,6 +152,10 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
         records.emplace_back(std::move(*record));
     }
     else {
+        // We might have moved past the data store, or even past the end
+        // of the dataset.
+        store_ = store;
+
         throw_corrupt_split_record_error();
     }
 
-- 
2.43.0


From c9450408d9eb2042f024c65aa59106f89da97883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 20/75] fix: report sparse and dense features that are mixed up
 the right way around

---
 src/mlio/recordio_protobuf_reader.cc | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 9a493d8..91daa0e 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -672,17 +672,16 @@ bool Recordio_protobuf_reader::Decoder::decode_feature(const Protobuf_tensor &te
 
     if (is_sparse(tensor) != attr_->sparse()) {
         if (state_->warn_bad_instance || state_->error_bad_example) {
-            const char *ft{};
-            if (attr_->sparse()) {
-                ft =
-                    "The feature '{2}' of the instance #{1:n} in the data store '{0}' is sparse while it is expected to be dense.";
-            }
-            else {
-                ft =
-                    "The feature '{2}' of the instance #{1:n} in the data store '{0}' is dense while it is expected to be sparse.";
-            }
-            auto msg =
-                fmt::format(ft, instance_->data_store().id(), instance_->index(), attr_->name());
+            const char *expected = attr_->sparse() ? "sparse" : "dense";
+            const char *actual = attr_->sparse() ? "dense" : "sparse";
+
+            auto msg = fmt::format(
+                "The feature '{2}' of the instance #{1:n} in the data store '{0}' is {3} while it is expected to be {4}.",
+                instance_->data_store().id(),
+                instance_->index(),
+                attr_->name(),
+                actual,
+                expected);
 
             if (state_->warn_bad_instance) {
                 logger::warn(msg);
-- 
2.43.0


From 70319bd6e3be322d1ee346670d7e739d95e5df75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 21/75] fix: treat messages with a feature and a label of the
 same name as bad instances

---
 src/mlio/recordio_protobuf_reader.cc | 38 ++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 91daa0e..fc5c360 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -83,6 +83,8 @@ public:
     bool decode(std::size_t row_idx, const Instance &instance);
 
 private:
+    static bool has_label(const aialgs::data::Record &proto_msg, const std::string &name);
+
     const aialgs::data::Record *parse_proto(const Instance &instance) const;
 
     bool decode_feature(const std::string &name, const aialgs::data::Value &value);
@@ -520,6 +522,28 @@ bool Recordio_protobuf_reader::Decoder::decode(std::size_t row_idx, const Instan
         num_features_read++;
     }
     for (auto &[label, value] : proto_msg->features()) {
+        // A feature might have the same name as a prefixed label. In
+        // such case the same attribute would get decoded twice.
+        if (has_label(*proto_msg, label)) {
+            if (state_->warn_bad_instance || state_->error_bad_example) {
+                auto msg = fmt::format(
+                    "The instance #{1:n} in the data store '{0}' has more than one feature named '{2}'.",
+                    instance_->data_store().id(),
+                    instance_->index(),
+                    label);
+
+                if (state_->warn_bad_instance) {
+                    logger::warn(msg);
+                }
+
+                if (state_->error_bad_example) {
+                    throw Invalid_instance_error{msg};
+                }
+            }
+
+            return false;
+        }
+
         if (!decode_feature(label, value)) {
             return false;
         }
@@ -555,6 +579,20 @@ bool Recordio_protobuf_reader::Decoder::decode(std::size_t row_idx, const Instan
     return false;
 }
 
+bool Recordio_protobuf_reader::Decoder::has_label(const aialgs::data::Record &proto_msg,
+                                                  const std::string &name)
+{
+    constexpr std::string_view prefix = "label_";
+
+    if (name.compare(0, prefix.size(), prefix) != 0) {
+        return false;
+    }
+
+    const auto &labels = proto_msg.label();
+
+    return labels.find(name.substr(prefix.size())) != labels.end();
+}
+
 const aialgs::data::Record *
 Recordio_protobuf_reader::Decoder::parse_proto(const Instance &instance) const
 {
-- 
2.43.0


From 114754cd30389be0f656f28ef4df269cf96327ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 22/75] fix: convert Latin-1 text to UTF-8

Text_encoding::ascii_latin1 was passed on as if it was UTF-8.
---
 src/mlio/streams/utf8_input_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index fcc9e79..f605bfa 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -294,7 +294,7 @@ Intrusive_ptr<Input_stream>
 make_utf8_stream(Intrusive_ptr<Input_stream> stream, std::optional<Text_encoding> encoding)
 {
     if (encoding != std::nullopt) {
-        if (*encoding == Text_encoding::utf8 || *encoding == Text_encoding::ascii_latin1) {
+        if (*encoding == Text_encoding::utf8) {
             return stream;
         }
     }
-- 
2.43.0


From 07f95c32207d6c782344940864a1999ba35392bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 23/75] fix: do not lose the last character held back by an
 encoding converter

Converters of encodings with combining characters (e.g. CP1258) return the
last character only when they are flushed.
---
 src/mlio/streams/detail/iconv.cc      | 22 ++++++++++++++++++++++
 src/mlio/streams/detail/iconv.h       |  3 +++
 src/mlio/streams/utf8_input_stream.cc |  6 +++++-
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/mlio/streams/detail/iconv.cc b/src/mlio/streams/detail/iconv.cc
index 4b62633..bc08a2c 100644
--- a/src/mlio/streams/detail/iconv.cc
+++ b/src/mlio/streams/detail/iconv.cc
@@ -96,6 +96,28 @@ Iconv_status Iconv_desc::convert(Memory_span &inp, Mutable_memory_span &out)
             encoding_.name())};
 }
 
+void Iconv_desc::flush(Mutable_memory_span &out)
+{
+    auto o_chars = as_span<char>(out);
+
+    auto o_data = o_chars.data();
+    auto o_left = o_chars.size();
+
+    std::size_t r = ::iconv(desc_, nullptr, nullptr, &o_data, &o_left);
+
+    out = out.last(o_left);
+
+    if (static_cast<std::ptrdiff_t>(r) != -1) {
+        return;
+    }
+
+    throw std::system_error{
+        current_error_code(),
+        fmt::format(
+            "An unexpected error occurred while trying to convert a byte sequence from {0} to UTF-8.",
+            encoding_.name())};
+}
+
 }  // namespace detail
 }  // namespace abi_v1
 }  // namespace mlio
diff --git a/src/mlio/streams/detail/iconv.h b/src/mlio/streams/detail/iconv.h
index efbd81e..a3e30ce 100644
--- a/src/mlio/streams/detail/iconv.h
+++ b/src/mlio/streams/detail/iconv.h
@@ -42,6 +42,9 @@ public:
 
     Iconv_status convert(Memory_span &inp, Mutable_memory_span &out);
 
+    /// Writes out what the converter held back, if anything.
+    void flush(Mutable_memory_span &out);
+
     const Text_encoding &encoding() const noexcept
     {
         return encoding_;
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index f605bfa..4310b90 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -142,7 +142,11 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
                         converter_->encoding().name())};
                 }
 
-                return 0;
+                // The converter might have held back the last character
+                // as it could have been combined with a following one.
+                converter_->flush(out);
+
+                break;
             }
 
             // If there were leftover bytes from the previous iteration
-- 
2.43.0


From 9db3a0da44f0190ad5b534861aaf89d5684892c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 24/75] fix: do not leave the data when seeking or reading far
 beyond its end

---
 src/mlio/streams/memory_input_stream.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mlio/streams/memory_input_stream.cc b/src/mlio/streams/memory_input_stream.cc
index 3cdd1a9..c904634 100644
--- a/src/mlio/streams/memory_input_stream.cc
+++ b/src/mlio/streams/memory_input_stream.cc
@@ -88,7 +88,10 @@ std::size_t Memory_input_stream::position() const
 
 void Memory_input_stream::advance_position(std::size_t distance) noexcept
 {
-    pos_ = std::min(pos_ + as_ssize(distance), source_.end());
+    // Do not form an iterator beyond the end of the source.
+    auto remaining = as_size(source_.end() - pos_);
+
+    pos_ += as_ssize(std::min(distance, remaining));
 }
 
 void Memory_input_stream::check_if_closed() const
-- 
2.43.0


From edf250115ebee7df8b9f84f1932461c2b7f04632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 25/75] fix: throw if the indices of a missing dimension are
 requested

The accessor was noexcept and terminated the process instead.
---
 include/mlio/tensor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mlio/tensor.h b/include/mlio/tensor.h
index 22590d3..a91a9cd 100644
--- a/include/mlio/tensor.h
+++ b/include/mlio/tensor.h
@@ -157,12 +157,12 @@ public:
         return Device_array_view{*data_};
     }
 
-    Device_array_span indices(std::size_t dim) noexcept
+    Device_array_span indices(std::size_t dim)
     {
         return *coordinates_.at(dim);
     }
 
-    Device_array_view indices(std::size_t dim) const noexcept
+    Device_array_view indices(std::size_t dim) const
     {
         return *coordinates_.at(dim);
     }
-- 
2.43.0


From df7c41d325362d1156d8dc5cffcff54a88e3271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 26/75] fix: do not use the moved index pointer array of a CSR
 tensor

---
 src/mlio/tensor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index fcfd1b6..a1dc6e2 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -181,7 +181,7 @@ Csr_tensor::Csr_tensor(Size_vector shape,
         num_rows = shp[0];
     }
 
-    if (indptr->size() != num_rows + 1) {
+    if (indptr_->empty() || indptr_->size() - 1 != num_rows) {
         throw std::invalid_argument{
             "The size of the index pointer array does not match the size of the row dimension."};
     }
-- 
2.43.0


From 4130c4ae9a1065e11e961c1f1e6c03b97c95e218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 27/75] fix: accept dense tensors exactly if their elements lie
 within the data

Products of dimensions and strides could overflow, elements with negative
strides lie in front of the data, and tensors without elements need no data.
---
 src/mlio/tensor.cc | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index a1dc6e2..e1d0680 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -15,7 +15,7 @@
 
 #include "mlio/tensor.h"
 
-#include <cstdlib>
+#include <algorithm>
 #include <stdexcept>
 
 #include <fmt/format.h>
@@ -64,7 +64,9 @@ Ssize_vector Tensor::default_strides(const Size_vector &shape)
 
     auto d = shape.rbegin();
     for (auto s = strides.rbegin() + 1; s < strides.rend(); ++s, ++d) {
-        *s = *(s - 1) * as_ssize(*d);
+        if (__builtin_mul_overflow(*(s - 1), *d, &*s)) {
+            throw std::invalid_argument{"The specified shape is too large."};
+        }
     }
 
     return strides;
@@ -95,21 +97,35 @@ void Dense_tensor::accept(Tensor_visitor &visitor) const
 
 void Dense_tensor::validate_data_size() const
 {
-    if (shape().empty()) {
+    // If there are no elements, there is nothing that can be out of
+    // the range of the data.
+    if (std::find(shape().begin(), shape().end(), 0) != shape().end()) {
         return;
     }
 
+    bool fits = true;
+
     auto stride_pos = strides().begin();
 
     std::size_t last_idx = 0;
     for (std::size_t dim : shape()) {
-        last_idx += (dim - 1) * as_size(std::abs(*stride_pos));
+        std::ptrdiff_t stride = *stride_pos++;
+        if (dim == 1) {
+            continue;
+        }
 
-        ++stride_pos;
+        // The data starts with the first element, there is nothing in
+        // front of it.
+        std::size_t distance{};
+        if (stride < 0 || __builtin_mul_overflow(dim - 1, as_size(stride), &distance) ||
+            __builtin_add_overflow(last_idx, distance, &last_idx)) {
+            fits = false;
+
+            break;
+        }
     }
 
-    std::size_t expected_size = last_idx + 1;
-    if (expected_size > data_->size()) {
+    if (!fits || last_idx >= data_->size()) {
         throw std::invalid_argument{
             "The size of the data array does not match the specified shape."};
     }
-- 
2.43.0


From ca6552d5b0c5e1f8facdf2f886307332fc7683c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 28/75] fix: move a memory block to a file once its new size
 exceeds the threshold

---
 src/mlio/memory/file_backed_memory_allocator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/memory/file_backed_memory_allocator.cc b/src/mlio/memory/file_backed_memory_allocator.cc
index 8816f49..6be5108 100644
--- a/src/mlio/memory/file_backed_memory_allocator.cc
+++ b/src/mlio/memory/file_backed_memory_allocator.cc
@@ -77,7 +77,7 @@ void Hybrid_memory_block::resize(size_type size)
     // not true. Once we have a file-backed memory block there is no
     // need to move back to the heap; once initialized accessing a
     // file-backed memory region has no extra latency.
-    if (!file_backed_ && inner_->size() > oversize_threshold_) {
+    if (!file_backed_ && size > oversize_threshold_) {
         logger::debug(
             "The data is being moved from heap to file-backed memory block. Old size was {0:n} byte(s); new size is {1:n} bytes.",
             inner_->size(),
-- 
2.43.0


From 69c44c3bfe1f3bd6bf334e1513c791dd6df2a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 29/75] fix: do not leave the file of a memory block behind if
 it cannot be allocated

---
 src/mlio/memory/file_backed_memory_block.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mlio/memory/file_backed_memory_block.cc b/src/mlio/memory/file_backed_memory_block.cc
index 7f62eba..70dfb08 100644
--- a/src/mlio/memory/file_backed_memory_block.cc
+++ b/src/mlio/memory/file_backed_memory_block.cc
@@ -53,14 +53,18 @@ void File_backed_memory_block::make_temporary_file()
     std::string path{"/tmp/mlio-XXXXXX"};
 
     fd_ = ::mkstemp(&path.front());
-
-    auto off = static_cast<::off_t>(size_);
-    if (fd_ == -1 || ::ftruncate(fd_.get(), off) != 0) {
+    if (fd_ == -1) {
         throw std::system_error{current_error_code(),
                                 "The file-backed memory block cannot be allocated."};
     }
 
     ::unlink(&path.front());
+
+    auto off = static_cast<::off_t>(size_);
+    if (::ftruncate(fd_.get(), off) != 0) {
+        throw std::system_error{current_error_code(),
+                                "The file-backed memory block cannot be allocated."};
+    }
 }
 
 void File_backed_memory_block::resize(size_type size)
-- 
2.43.0


From b5216fbd42961a91bd38704662950d8cead35a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 30/75] fix: do not crash when listing the files of no path

---
 src/mlio/data_stores/file_list.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mlio/data_stores/file_list.cc b/src/mlio/data_stores/file_list.cc
index 3b4b1cc..ef2d248 100644
--- a/src/mlio/data_stores/file_list.cc
+++ b/src/mlio/data_stores/file_list.cc
@@ -89,6 +89,11 @@ auto make_fts(stdx::span<const std::string> paths)
 std::vector<Intrusive_ptr<Data_store>>
 list_files(stdx::span<const std::string> paths, const File_list_options &opts)
 {
+    // fts(3) must not be used without a path.
+    if (paths.empty()) {
+        return {};
+    }
+
     auto fts = detail::make_fts(paths);
 
     std::string pattern{opts.pattern};
-- 
2.43.0


From 5dff43db7c419388b5b7d7b848c0eb6e03fcc805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 31/75] fix: guard the FIFO ids of the SageMaker pipe channels

---
 .../streams/sagemaker_pipe_input_stream.cc     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index 2177c9f..003b056 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -15,8 +15,8 @@
 
 #include "mlio/streams/sagemaker_pipe_input_stream.h"  // IWYU pragma: associated
 
-#include <atomic>
 #include <cerrno>
+#include <mutex>
 #include <system_error>
 #include <thread>
 #include <unordered_map>
@@ -49,7 +49,17 @@ namespace {
 // instantiated, it replaces the FIFO ID with -1 indicating that it
 // acquired the channel. Right before getting destructed, the stream
 // increments the original FIFO ID and puts it back to the container.
-std::unordered_map<std::string, std::atomic_ptrdiff_t> fifo_ids_{};
+std::unordered_map<std::string, std::ptrdiff_t> fifo_ids_{};
+
+// Streams of different channels might be opened by several threads.
+std::mutex fifo_ids_mutex_{};
+
+std::ptrdiff_t exchange_fifo_id(const std::string &path, std::ptrdiff_t fifo_id)
+{
+    std::lock_guard<std::mutex> guard{fifo_ids_mutex_};
+
+    return std::exchange(fifo_ids_[path], fifo_id);
+}
 
 }  // namespace
 }  // namespace detail
@@ -111,7 +121,7 @@ void Sagemaker_pipe_input_stream::close() noexcept
 {
     fifo_fd_ = {};
 
-    detail::fifo_ids_[path_].exchange(fifo_id_);
+    detail::exchange_fifo_id(path_, fifo_id_);
 }
 
 Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream(std::string &&path,
@@ -121,7 +131,7 @@ Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream(std::string &&path,
 {
     detail::validate_file_path(path_);
 
-    fifo_id_ = detail::fifo_ids_[path_].exchange(-1);
+    fifo_id_ = detail::exchange_fifo_id(path_, -1);
     if (fifo_id_ == -1) {
         auto err = std::make_error_code(std::errc::permission_denied);
         throw std::system_error{err, "The SageMaker pipe channel is already open."};
-- 
2.43.0


From 38b05d1d4e1221fd9e62f1e0810a2eb622ce8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 32/75] fix: wait for SageMaker pipe channels with any file
 descriptor

---
 .../streams/sagemaker_pipe_input_stream.cc    | 57 ++++++++++---------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index 003b056..a0119e3 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -15,7 +15,10 @@
 
 #include "mlio/streams/sagemaker_pipe_input_stream.h"  // IWYU pragma: associated
 
+#include <algorithm>
 #include <cerrno>
+#include <chrono>
+#include <limits>
 #include <mutex>
 #include <system_error>
 #include <thread>
@@ -23,7 +26,7 @@
 #include <utility>
 
 #include <fcntl.h>
-#include <sys/select.h>
+#include <poll.h>
 #include <time.h>  // NOLINT(modernize-deprecated-headers)
 #include <unistd.h>
 
@@ -31,7 +34,6 @@
 
 #include "mlio/detail/error.h"
 #include "mlio/detail/path.h"
-#include "mlio/detail/system_call.h"
 #include "mlio/logger.h"
 #include "mlio/streams/stream_error.h"
 #include "mlio/util/cast.h"
@@ -201,32 +203,31 @@ void Sagemaker_pipe_input_stream::sleep() noexcept
 
 void Sagemaker_pipe_input_stream::wait_for_data()
 {
-    ::fd_set readfds{};
-    // NOLINTNEXTLINE(readability-isolate-declaration)
-    FD_ZERO(&readfds);
-
-    // See https://sourceware.org/bugzilla/show_bug.cgi?id=12373.
-#ifdef __GNUC__
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wsign-conversion"
-#endif
-
-    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-    FD_SET(fifo_fd_.get(), &readfds);
-
-#ifdef __GNUC__
-#pragma GCC diagnostic pop
-#endif
-
-    ::timeval tv{};
-    tv.tv_sec = timeout_.count();
-
-    // On Linux if select() is interrupted by a signal handler, the
-    // timeout is modified to indicate the remaining time. This means we
-    // do not need to keep track of it. Note that this is not compliant
-    // with SUSv3.
-    int ready =
-        detail::temp_failure_retry(::select, fifo_fd_.get() + 1, &readfds, nullptr, nullptr, &tv);
+    using std::chrono::milliseconds;
+    using std::chrono::steady_clock;
+
+    // We use poll() as select() cannot handle file descriptors greater
+    // than FD_SETSIZE.
+    ::pollfd fifo_poll{};
+    fifo_poll.fd = fifo_fd_.get();
+    fifo_poll.events = POLLIN;
+
+    // Avoid an overflow of the deadline.
+    constexpr std::chrono::hours max_timeout{24 * 365};
+
+    auto deadline = steady_clock::now() + std::min<std::chrono::seconds>(timeout_, max_timeout);
+
+    int ready{};
+    do {
+        auto remaining =
+            std::chrono::duration_cast<milliseconds>(deadline - steady_clock::now());
+
+        auto max_wait = milliseconds{std::numeric_limits<int>::max()};
+
+        remaining = std::clamp(remaining, milliseconds{0}, max_wait);
+
+        ready = ::poll(&fifo_poll, 1, static_cast<int>(remaining.count()));
+    } while ((ready == -1 && errno == EINTR) || (ready == 0 && steady_clock::now() < deadline));
 
     if (ready == 0) {
         std::error_code err = std::make_error_code(std::errc::timed_out);
-- 
2.43.0


From 950d8715246e892a75ab656c1e2dff5ee3eec384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 33/75] fix: do not release a SageMaker pipe channel that is in
 use by another stream

---
 src/mlio/streams/sagemaker_pipe_input_stream.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index a0119e3..e9dca50 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -121,9 +121,15 @@ std::size_t Sagemaker_pipe_input_stream::read(Mutable_memory_span destination)
 
 void Sagemaker_pipe_input_stream::close() noexcept
 {
+    // Release the channel only once. It might have been acquired by
+    // another stream in the meantime.
+    if (fifo_id_ == -1) {
+        return;
+    }
+
     fifo_fd_ = {};
 
-    detail::exchange_fifo_id(path_, fifo_id_);
+    detail::exchange_fifo_id(path_, std::exchange(fifo_id_, -1));
 }
 
 Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream(std::string &&path,
-- 
2.43.0


From fb2f252f8729952a3a1644e8ed9bc74f9b991de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 34/75] fix: large record size hints hang the chunk reader

---
 src/mlio/record_readers/detail/default_chunk_reader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mlio/record_readers/detail/default_chunk_reader.cc b/src/mlio/record_readers/detail/default_chunk_reader.cc
index 18edd17..cc9481c 100644
--- a/src/mlio/record_readers/detail/default_chunk_reader.cc
+++ b/src/mlio/record_readers/detail/default_chunk_reader.cc
@@ -16,6 +16,7 @@
 #include "mlio/record_readers/detail/default_chunk_reader.h"
 
 #include <algorithm>
+#include <limits>
 
 #include "mlio/memory/memory_allocator.h"
 #include "mlio/memory/util.h"
@@ -96,7 +97,11 @@ Memory_slice Default_chunk_reader::read_chunk(Memory_span leftover)
 
 void Default_chunk_reader::set_chunk_size_hint(std::size_t value) noexcept
 {
-    while (value > next_chunk_size_) {
+    constexpr std::size_t max_size = std::numeric_limits<std::size_t>::max();
+
+    // A hint that is larger than the largest power of two would make us
+    // shift the size to zero.
+    while (value > next_chunk_size_ && next_chunk_size_ <= max_size / 2) {
         next_chunk_size_ <<= 1;
     }
 }
-- 
2.43.0


From b060f580208f3e1cd96fe26ef77040fc4407cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 35/75] fix: a record reader used after a stream failure reads
 freed memory

---
 .../mlio/record_readers/stream_record_reader.h |  2 ++
 .../record_readers/stream_record_reader.cc     | 18 +++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/mlio/record_readers/stream_record_reader.h b/include/mlio/record_readers/stream_record_reader.h
index f813f99..3921a9c 100644
--- a/include/mlio/record_readers/stream_record_reader.h
+++ b/include/mlio/record_readers/stream_record_reader.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <cstddef>
+#include <exception>
 #include <memory>
 #include <optional>
 
@@ -74,6 +75,7 @@ private:
 
     std::unique_ptr<detail::Chunk_reader> chunk_reader_;
     Memory_slice chunk_{};
+    std::exception_ptr fault_{};
 };
 
 /// @}
diff --git a/src/mlio/record_readers/stream_record_reader.cc b/src/mlio/record_readers/stream_record_reader.cc
index 2775635..c42d260 100644
--- a/src/mlio/record_readers/stream_record_reader.cc
+++ b/src/mlio/record_readers/stream_record_reader.cc
@@ -44,6 +44,10 @@ Stream_record_reader::Stream_record_reader(Intrusive_ptr<Input_stream> stream)
 
 std::optional<Record> Stream_record_reader::read_record_core()
 {
+    if (fault_) {
+        std::rethrow_exception(fault_);
+    }
+
     std::optional<Record> record{};
 
     while (true) {
@@ -52,7 +56,19 @@ std::optional<Record> Stream_record_reader::read_record_core()
             break;
         }
 
-        chunk_ = chunk_reader_->read_chunk(chunk_);
+        try {
+            chunk_ = chunk_reader_->read_chunk(chunk_);
+        }
+        catch (...) {
+            // By the time the stream fails, the chunk reader might have
+            // already overwritten or freed our leftover.
+            chunk_ = {};
+
+            fault_ = std::current_exception();
+
+            throw;
+        }
+
         if (chunk_.empty()) {
             break;
         }
-- 
2.43.0


From f73e8ae0ba353e8df1a0b257e9005d260390e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 36/75] fix: iterating over an example that has no other
 reference reads freed memory

---
 src/mlio-py/mlio/core/example.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/example.cc b/src/mlio-py/mlio/core/example.cc
index d9ae92a..a2de87e 100644
--- a/src/mlio-py/mlio/core/example.cc
+++ b/src/mlio-py/mlio/core/example.cc
@@ -79,7 +79,9 @@ void register_example(py::module &m)
         .def("__iter__",
              [](Example &self) {
                  return py::make_iterator(self.features().begin(), self.features().end());
-             })
+             },
+             // The iterator refers to the features of the example.
+             py::keep_alive<0, 1>())
         .def("__repr__", &Example::repr)
         .def_property_readonly("schema", &Example::schema, "Gets the schema of the example.")
         .def_readwrite("padding",
-- 
2.43.0


From 5d300760454d5df733621f4772d3f06c51600422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 37/75] fix: errors whose message is not valid UTF-8 lose their
 type in Python

---
 src/mlio-py/mlio/core/error.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/mlio-py/mlio/core/error.cc b/src/mlio-py/mlio/core/error.cc
index 4252dca..8d52979 100644
--- a/src/mlio-py/mlio/core/error.cc
+++ b/src/mlio-py/mlio/core/error.cc
@@ -15,6 +15,7 @@
 
 #include "module.h"
 
+#include <cstring>
 #include <exception>
 #include <system_error>
 #include <unordered_map>
@@ -38,11 +39,27 @@ inline PyObject *register_exception(py::module &m, const char *name, PyObject *b
 
 void throw_nested_error(const std::exception &exc, const py::object &py_exc);
 
+// The message of an error can contain a part of the dataset, which is
+// not necessarily a valid UTF-8 text.
+py::object make_message(const std::exception &exc)
+{
+    const char *msg = exc.what();
+
+    auto size = static_cast<py::ssize_t>(std::strlen(msg));
+
+    ::PyObject *str = ::PyUnicode_DecodeUTF8(msg, size, "backslashreplace");
+    if (str == nullptr) {
+        throw py::error_already_set();
+    }
+
+    return py::reinterpret_steal<py::object>(str);
+}
+
 void set_nested_error(const py::object &outer_py_exc,
                       const std::exception &nested_exc,
                       const char *name)
 {
-    py::object nested_py_exc = py_exc_types[name](nested_exc.what());
+    py::object nested_py_exc = py_exc_types[name](make_message(nested_exc));
 
     throw_nested_error(nested_exc, nested_py_exc);
 
@@ -52,7 +69,7 @@ void set_nested_error(const py::object &outer_py_exc,
 void set_nested_system_error(const py::object &outer_py_exc, const std::system_error &nested_exc)
 {
     py::object nested_py_exc =
-        py::handle{::PyExc_OSError}(nested_exc.code().value(), nested_exc.what());
+        py::handle{::PyExc_OSError}(nested_exc.code().value(), make_message(nested_exc));
 
     throw_nested_error(nested_exc, nested_py_exc);
 
@@ -109,7 +126,7 @@ void set_error(const std::exception &exc, const char *name)
 {
     py::handle &py_exc_type = py_exc_types[name];
 
-    py::object py_exc = py_exc_type(exc.what());
+    py::object py_exc = py_exc_type(make_message(exc));
 
     throw_nested_error(exc, py_exc);
 
@@ -118,7 +135,7 @@ void set_error(const std::exception &exc, const char *name)
 
 void set_system_error(const std::system_error &exc)
 {
-    py::object py_exc = py::handle{::PyExc_OSError}(exc.code().value(), exc.what());
+    py::object py_exc = py::handle{::PyExc_OSError}(exc.code().value(), make_message(exc));
 
     throw_nested_error(exc, py_exc);
 
-- 
2.43.0


From a63eadba4f1f3dbb9bde823992ecf1edec01af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 38/75] fix: the encoding and warn_bad_instances properties of
 the Python parameters

---
 src/mlio-py/mlio/core/data_reader.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index bc2c441..94859c8 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -393,6 +393,7 @@ void register_data_readers(py::module &m)
         .def_readwrite("num_parallel_reads", &Data_reader_params::num_parallel_reads)
         .def_readwrite("last_example_handling", &Data_reader_params::last_example_handling)
         .def_readwrite("bad_example_handling", &Data_reader_params::bad_example_handling)
+        .def_readwrite("warn_bad_instances", &Data_reader_params::warn_bad_instances)
         .def_readwrite("num_instances_to_skip", &Data_reader_params::num_instances_to_skip)
         .def_readwrite("num_instances_to_read", &Data_reader_params::num_instances_to_read)
         .def_readwrite("shard_index", &Data_reader_params::shard_index)
@@ -532,7 +533,22 @@ void register_data_readers(py::module &m)
         .def_readwrite("comment_char", &Csv_params::comment_char)
         .def_readwrite("allow_quoted_new_lines", &Csv_params::allow_quoted_new_lines)
         .def_readwrite("skip_blank_lines", &Csv_params::skip_blank_lines)
-        .def_readwrite("encoding", &Csv_params::encoding)
+        .def_property(
+            "encoding",
+            [](const Csv_params &self) -> std::optional<std::string> {
+                if (self.encoding) {
+                    return self.encoding->name();
+                }
+                return {};
+            },
+            [](Csv_params &self, std::optional<std::string> encoding) {
+                if (encoding) {
+                    self.encoding = Text_encoding{std::move(*encoding)};
+                }
+                else {
+                    self.encoding = std::nullopt;
+                }
+            })
         .def_readwrite("max_field_length", &Csv_params::max_field_length)
         .def_readwrite("max_field_length_handling", &Csv_params::max_field_length_handling)
         .def_readwrite("max_line_length", &Csv_params::max_line_length)
-- 
2.43.0


From f5c7a2cce3cdf1102a6687587e47460a88ef05e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 39/75] fix: resetting or destroying a reader deadlocks with
 threads that need the GIL

The reader waits for its background threads, which in turn wait for the
GIL to write a log message or to read from a Python data store.
---
 src/mlio-py/mlio/core/data_reader.cc | 29 ++++++++--------
 src/mlio-py/mlio/core/module.h       | 49 ++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+), 14 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index 94859c8..eb56656 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -222,30 +222,30 @@ Parser_options make_parser_options(std::unordered_set<std::string> nan_values, i
     return parser_options;
 }
 
-Intrusive_ptr<Csv_reader>
+Reader_ptr<Csv_reader>
 make_csv_reader(Data_reader_params params, std::optional<Csv_params> csv_params)
 {
     if (csv_params) {
-        return make_intrusive<Csv_reader>(std::move(params), std::move(csv_params.value()));
+        return {make_intrusive<Csv_reader>(std::move(params), std::move(csv_params.value()))};
     }
 
-    return make_intrusive<Csv_reader>(std::move(params));
+    return {make_intrusive<Csv_reader>(std::move(params))};
 }
 
-Intrusive_ptr<Image_reader>
+Reader_ptr<Image_reader>
 make_image_reader(Data_reader_params params, Image_reader_params img_params)
 {
-    return make_intrusive<Image_reader>(std::move(params), std::move(img_params));
+    return {make_intrusive<Image_reader>(std::move(params), std::move(img_params))};
 }
 
-Intrusive_ptr<Recordio_protobuf_reader> make_recordio_protobuf_reader(Data_reader_params params)
+Reader_ptr<Recordio_protobuf_reader> make_recordio_protobuf_reader(Data_reader_params params)
 {
-    return make_intrusive<Recordio_protobuf_reader>(std::move(params));
+    return {make_intrusive<Recordio_protobuf_reader>(std::move(params))};
 }
 
-Intrusive_ptr<Text_line_reader> make_text_line_reader(Data_reader_params params)
+Reader_ptr<Text_line_reader> make_text_line_reader(Data_reader_params params)
 {
-    return make_intrusive<Text_line_reader>(std::move(params));
+    return {make_intrusive<Text_line_reader>(std::move(params))};
 }
 
 }  // namespace
@@ -602,7 +602,7 @@ void register_data_readers(py::module &m)
         .def_readwrite("nan_values", &Parser_options::nan_values)
         .def_readwrite("number_base", &Parser_options::base);
 
-    py::class_<Data_reader, Py_data_reader, Intrusive_ptr<Data_reader>>(
+    py::class_<Data_reader, Py_data_reader, Reader_ptr<Data_reader>>(
         m,
         "DataReader",
         "Represents an interface for classes that read examples from a "
@@ -624,6 +624,7 @@ void register_data_readers(py::module &m)
              "Returns the ``Schema`` of the dataset.")
         .def("reset",
              &Data_reader::reset,
+             py::call_guard<py::gil_scoped_release>(),
              "Resets the state of the reader. Calling ``read_example()`` the "
              "next time will start reading from the beginning of the dataset.")
         .def("__iter__",
@@ -641,7 +642,7 @@ void register_data_readers(py::module &m)
              The returned number can be greater than expected as MLIO
              reads ahead the dataset in background.)");
 
-    py::class_<Csv_reader, Data_reader, Intrusive_ptr<Csv_reader>>(
+    py::class_<Csv_reader, Data_reader, Reader_ptr<Csv_reader>>(
         m, "CsvReader", "Represents a ``Data_reader`` for reading CSV datasets.")
         .def(py::init<>(&make_csv_reader),
              "data_reader_params"_a,
@@ -655,7 +656,7 @@ void register_data_readers(py::module &m)
                 See ``CsvReaderParams``.
             )");
 
-    py::class_<Image_reader, Data_reader, Intrusive_ptr<Image_reader>>(
+    py::class_<Image_reader, Data_reader, Reader_ptr<Image_reader>>(
         m, "ImageReader", "Represents a ``Data_reader`` for reading Image datasets.")
         .def(py::init<>(&make_image_reader),
              "data_reader_params"_a,
@@ -669,7 +670,7 @@ void register_data_readers(py::module &m)
                 See ``ImageReaderParams``.
             )");
 
-    py::class_<Recordio_protobuf_reader, Data_reader, Intrusive_ptr<Recordio_protobuf_reader>>(
+    py::class_<Recordio_protobuf_reader, Data_reader, Reader_ptr<Recordio_protobuf_reader>>(
         m, "RecordIOProtobufReader")
         .def(py::init<>(&make_recordio_protobuf_reader),
              "data_reader_params"_a,
@@ -680,7 +681,7 @@ void register_data_readers(py::module &m)
                 See ``DataReaderParams``.
             )");
 
-    py::class_<Text_line_reader, Data_reader, Intrusive_ptr<Text_line_reader>>(m, "TextLineReader")
+    py::class_<Text_line_reader, Data_reader, Reader_ptr<Text_line_reader>>(m, "TextLineReader")
         .def(py::init<>(&make_text_line_reader),
              "data_reader_params"_a,
              R"(
diff --git a/src/mlio-py/mlio/core/module.h b/src/mlio-py/mlio/core/module.h
index 48565e3..cf084ac 100644
--- a/src/mlio-py/mlio/core/module.h
+++ b/src/mlio-py/mlio/core/module.h
@@ -20,12 +20,61 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <utility>
 #include <vector>
 
 #include <mlio.h>
 
 PYBIND11_DECLARE_HOLDER_TYPE(T, mlio::Intrusive_ptr<T>, true);
 
+namespace pymlio {
+
+// Holds a data reader. The destructor of a reader waits for its background
+// threads, which might need the GIL in order to write a log message or to read
+// from a Python data store, so the GIL must not be held in the meantime.
+template<typename T>
+class Reader_ptr {
+public:
+    Reader_ptr() noexcept = default;
+
+    explicit Reader_ptr(T *ptr) noexcept : ptr_{mlio::wrap_intrusive(ptr)}
+    {}
+
+    Reader_ptr(mlio::Intrusive_ptr<T> ptr) noexcept : ptr_{std::move(ptr)}
+    {}
+
+    Reader_ptr(const Reader_ptr &) = default;
+
+    Reader_ptr(Reader_ptr &&) noexcept = default;
+
+    ~Reader_ptr()
+    {
+        if (ptr_ != nullptr) {
+            pybind11::gil_scoped_release rel_gil;
+
+            ptr_ = nullptr;
+        }
+    }
+
+public:
+    Reader_ptr &operator=(const Reader_ptr &) = delete;
+
+    Reader_ptr &operator=(Reader_ptr &&) = delete;
+
+public:
+    T *get() const noexcept
+    {
+        return ptr_.get();
+    }
+
+private:
+    mlio::Intrusive_ptr<T> ptr_{};
+};
+
+}  // namespace pymlio
+
+PYBIND11_DECLARE_HOLDER_TYPE(T, pymlio::Reader_ptr<T>, true);
+
 PYBIND11_MAKE_OPAQUE(std::vector<mlio::Attribute>);
 
 namespace pymlio {
-- 
2.43.0


From 10d710757f0639b7dc177cce24bfcd0a74fb0985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 40/75] fix: analyze_dataset deadlocks with threads that need
 the GIL

The background threads of the reader might have to call into Python to
write a log message or to read from a Python data store.
---
 src/mlio-py/mlio/contrib/insights/module.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mlio-py/mlio/contrib/insights/module.cc b/src/mlio-py/mlio/contrib/insights/module.cc
index 105fee3..c94632a 100644
--- a/src/mlio-py/mlio/contrib/insights/module.cc
+++ b/src/mlio-py/mlio/contrib/insights/module.cc
@@ -170,6 +170,7 @@ PYBIND11_MODULE(insights, m)
 
     m.def("analyze_dataset",
           &analyze_dataset,
+          py::call_guard<py::gil_scoped_release>(),
           "reader"_a,
           "null_like_values"_a,
           "capture_columns"_a,
-- 
2.43.0


From f2eac493b66a899d94de6b8cbce221d178e5b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 41/75] fix: the insights report numeric_count as
 numeric_finite_count

---
 src/mlio-py/mlio/contrib/insights/module.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/module.cc b/src/mlio-py/mlio/contrib/insights/module.cc
index c94632a..9016f3a 100644
--- a/src/mlio-py/mlio/contrib/insights/module.cc
+++ b/src/mlio-py/mlio/contrib/insights/module.cc
@@ -99,7 +99,7 @@ PYBIND11_MODULE(insights, m)
     std::vector<std::pair<const char *, size_t Column_analysis::*>> long_stat_names = {
         {"rows_seen", &Column_analysis::rows_seen},
         {"numeric_count", &Column_analysis::numeric_count},
-        {"numeric_finite_count", &Column_analysis::numeric_count},
+        {"numeric_finite_count", &Column_analysis::numeric_finite_count},
         {"numeric_nan_count", &Column_analysis::numeric_nan_count},
         {"numeric_int_count", &Column_analysis::numeric_int_count},
         {"string_empty_count", &Column_analysis::str_empty_count},
-- 
2.43.0


From 019c461085d161254dc608b136f93e69727c9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 42/75] fix: a batch without numbers turns numeric_finite_mean
 into NaN

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index c9f4a9b..063e7d7 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -155,8 +155,11 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         // Update the mean of numeric values based on the entire range of values.
         auto ncc = static_cast<double>(numeric_column_count);
         auto nfc = static_cast<double>(stats.numeric_finite_count);
-        double numeric_column_mean = numeric_column_sum / ncc;
-        stats.numeric_finite_mean += (numeric_column_mean - stats.numeric_finite_mean) * ncc / nfc;
+        if (numeric_column_count > 0) {
+            double numeric_column_mean = numeric_column_sum / ncc;
+            stats.numeric_finite_mean +=
+                (numeric_column_mean - stats.numeric_finite_mean) * ncc / nfc;
+        }
 
         // Update average length of string values baseed on entire range of values.
         auto scc = static_cast<double>(string_column_count);
-- 
2.43.0


From a6eaa212ba4e65eb8f4dbde67075c542f0b50fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 43/75] fix: string_avg_length depends on the batch size and
 can be NaN

The average of a batch ignored its empty strings, but was weighted as if
it had counted them.
---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 063e7d7..b9a5c14 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -55,7 +55,7 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         // time.
         double numeric_column_sum = 0.0;
         std::size_t numeric_column_count = 0.0;
-        std::size_t string_column_count = 0.0;
+        std::size_t string_column_count = 0;
         std::size_t string_column_length_sum = 0;
 
         for (const std::string &cell : cells) {
@@ -66,6 +66,8 @@ void Column_analyzer::analyze(const mlio::Example &example) const
 
             stats.rows_seen++;
 
+            string_column_count++;
+
             // String analyzers.
             if (cell.empty()) {
                 stats.str_empty_count++;
@@ -80,7 +82,6 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             stats.str_min_length_not_empty = std::min(stats.str_min_length_not_empty, cell.size());
 
             string_column_length_sum += cell.size();
-            string_column_count++;
 
             stats.str_cardinality_estimator_.add(cell);
 
@@ -164,8 +165,11 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         // Update average length of string values baseed on entire range of values.
         auto scc = static_cast<double>(string_column_count);
         auto rows_seen = static_cast<double>(stats.rows_seen);
-        double string_column_avg_length = static_cast<double>(string_column_length_sum) / scc;
-        stats.str_avg_length += (string_column_avg_length - stats.str_avg_length) * scc / rows_seen;
+        if (string_column_count > 0) {
+            double string_column_avg_length = static_cast<double>(string_column_length_sum) / scc;
+            stats.str_avg_length +=
+                (string_column_avg_length - stats.str_avg_length) * scc / rows_seen;
+        }
     }
 };
 
-- 
2.43.0


From be1194fd9a8ca48d0ef892d18ec4f0911eaf0737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 44/75] fix: string_min_length ignores empty strings

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index b9a5c14..6465a08 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -69,6 +69,8 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             string_column_count++;
 
             // String analyzers.
+            stats.str_min_length = std::min(stats.str_min_length, cell.size());
+
             if (cell.empty()) {
                 stats.str_empty_count++;
 
@@ -76,7 +78,6 @@ void Column_analyzer::analyze(const mlio::Example &example) const
                 continue;
             }
 
-            stats.str_min_length = std::min(stats.str_min_length, cell.size());
             stats.str_max_length = std::max(stats.str_max_length, cell.size());
 
             stats.str_min_length_not_empty = std::min(stats.str_min_length_not_empty, cell.size());
-- 
2.43.0


From a0537f28d37753d612e14b6400cfd81ee0c9db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 45/75] fix: captured values are not counted anymore once the
 limit is reached

---
 .../mlio/contrib/insights/column_analyzer.cc        | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 6465a08..9f4e741 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -140,12 +140,15 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             auto should_capture = capture_columns_->find(feature_idx) != capture_columns_->end();
 
             // Capture the values if specified.
-            if (should_capture && !stats.str_captured_unique_values_overflowed) {
-                if (stats.str_captured_unique_values.size() < max_capture_count_) {
-                    ++stats.str_captured_unique_values[cell];
+            if (should_capture) {
+                auto captured = stats.str_captured_unique_values.find(cell);
+                if (captured != stats.str_captured_unique_values.end()) {
+                    ++captured->second;
                 }
-                else if (stats.str_captured_unique_values.find(cell) ==
-                         stats.str_captured_unique_values.end()) {
+                else if (stats.str_captured_unique_values.size() < max_capture_count_) {
+                    stats.str_captured_unique_values.emplace(cell, 1);
+                }
+                else {
                     // If the value isn't present but we're not adding it
                     // because we're at a limit then we should flag that we
                     // have overflowed.
-- 
2.43.0


From 8fe377b484e2b07427e4da1a99ea4c3b1520f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 46/75] fix: the insights count the padding of the batches as
 rows

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 9f4e741..7f214b1 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -15,6 +15,7 @@
 
 #include "column_analyzer.h"
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <sstream>
@@ -58,7 +59,10 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         std::size_t string_column_count = 0;
         std::size_t string_column_length_sum = 0;
 
-        for (const std::string &cell : cells) {
+        // The padding at the end of the batch is not part of the dataset.
+        std::size_t num_rows = cells.size() - std::min(example.padding, cells.size());
+
+        for (const std::string &cell : cells.first(num_rows)) {
             // Capture the first Example.
             if (stats.rows_seen == 0) {
                 stats.example_value = cell;
-- 
2.43.0


From 7d79f0ac8e415d0033d0dbc010baa28e7e049535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 47/75] fix: Python buffers are released without holding the
 GIL

---
 src/mlio-py/mlio/core/py_buffer.cc       | 18 +++++++++++++++---
 src/mlio-py/mlio/core/py_memory_block.cc |  6 ++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index b90449a..73722eb 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -17,6 +17,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <memory>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -28,6 +29,17 @@ using namespace mlio;
 namespace pymlio {
 namespace {
 
+// The last reference to a buffer might get released by a thread that does not
+// hold the GIL.
+struct Py_buffer_deleter {
+    void operator()(py::buffer_info *info) const
+    {
+        py::gil_scoped_acquire acq_gil;
+
+        delete info;
+    }
+};
+
 template<typename T>
 class Py_buffer_container {
 public:
@@ -42,8 +54,8 @@ public:
     using const_iterator = const T *;
 
 public:
-    explicit Py_buffer_container(T *data, size_type size, py::buffer_info &&info) noexcept
-        : data_{data}, size_{size}, info_{std::move(info)}
+    explicit Py_buffer_container(T *data, size_type size, py::buffer_info &&info)
+        : data_{data}, size_{size}, info_{new py::buffer_info{std::move(info)}}
     {}
 
 public:
@@ -106,7 +118,7 @@ public:
 private:
     T *data_;
     size_type size_;
-    py::buffer_info info_;
+    std::unique_ptr<py::buffer_info, Py_buffer_deleter> info_;
 };
 
 std::optional<Data_type> get_data_type(const py::buffer_info &info)
diff --git a/src/mlio-py/mlio/core/py_memory_block.cc b/src/mlio-py/mlio/core/py_memory_block.cc
index 9bc970a..750d83c 100644
--- a/src/mlio-py/mlio/core/py_memory_block.cc
+++ b/src/mlio-py/mlio/core/py_memory_block.cc
@@ -15,15 +15,21 @@
 
 #include "py_memory_block.h"
 
+namespace py = pybind11;
+
 namespace pymlio {
 
 Py_memory_block::~Py_memory_block()
 {
+    py::gil_scoped_acquire acq_gil;
+
     ::PyBuffer_Release(&buffer_);
 }
 
 py_mutable_memory_block::~py_mutable_memory_block()
 {
+    py::gil_scoped_acquire acq_gil;
+
     ::PyBuffer_Release(&buffer_);
 }
 
-- 
2.43.0


From 412799b1224347e9087fc131f2f0fad1bdb1ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 48/75] fix: a string tensor with invalid UTF-8 terminates the
 process when converted

The buffer protocol of the tensors threw C++ exceptions through the
interpreter, and a second attempt used the incomplete list of strings.
NumPy ignores errors of the buffer protocol, but not those of memoryview.
---
 src/mlio-py/mlio/core/py_buffer.cc       | 27 +++++++++++++++++++
 src/mlio-py/mlio/core/py_buffer.h        |  4 +++
 src/mlio-py/mlio/core/py_device_array.cc | 33 +++++++++++++++---------
 src/mlio-py/mlio/core/py_device_array.h  |  2 +-
 src/mlio-py/mlio/core/tensor.cc          |  1 +
 src/mlio-py/mlio/integ/numpy.py          |  4 +--
 6 files changed, 56 insertions(+), 15 deletions(-)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index 73722eb..6a9c83a 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -285,8 +285,35 @@ struct Make_cpu_array_op<Data_type::string> {
     }
 };
 
+int get_buffer(::PyObject *obj, ::Py_buffer *view, int flags) noexcept
+{
+    try {
+        return py::detail::pybind11_getbuffer(obj, view, flags);
+    }
+    catch (py::error_already_set &e) {
+        e.restore();
+    }
+    catch (const py::builtin_exception &e) {
+        e.set_error();
+    }
+    catch (const std::exception &e) {
+        ::PyErr_SetString(PyExc_BufferError, e.what());
+    }
+
+    if (view != nullptr) {
+        view->obj = nullptr;
+    }
+
+    return -1;
+}
+
 }  // namespace
 
+void catch_buffer_errors(::PyHeapTypeObject *type)
+{
+    type->as_buffer.bf_getbuffer = &get_buffer;
+}
+
 std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy)
 {
     bool writable = !cpy;
diff --git a/src/mlio-py/mlio/core/py_buffer.h b/src/mlio-py/mlio/core/py_buffer.h
index 8df7cb4..39ad1bf 100644
--- a/src/mlio-py/mlio/core/py_buffer.h
+++ b/src/mlio-py/mlio/core/py_buffer.h
@@ -23,6 +23,10 @@
 
 namespace pymlio {
 
+// Makes the buffer protocol of the specified pybind11 type translate C++
+// exceptions into Python errors. The interpreter cannot handle exceptions.
+void catch_buffer_errors(::PyHeapTypeObject *type);
+
 std::unique_ptr<mlio::Device_array> make_device_array(pybind11::buffer &buf, bool cpy);
 
 }  // namespace pymlio
diff --git a/src/mlio-py/mlio/core/py_device_array.cc b/src/mlio-py/mlio/core/py_device_array.cc
index 73e138d..14bdbcb 100644
--- a/src/mlio-py/mlio/core/py_device_array.cc
+++ b/src/mlio-py/mlio/core/py_device_array.cc
@@ -18,6 +18,7 @@
 #include <string>
 
 #include "module.h"
+#include "py_buffer.h"
 
 namespace py = pybind11;
 
@@ -33,7 +34,7 @@ Py_device_array::~Py_device_array()
     }
 }
 
-void *Py_device_array::data() noexcept
+void *Py_device_array::data()
 {
     if (span_.data_type() == Data_type::string) {
         return make_or_get_string_buffer();
@@ -45,18 +46,25 @@ void *Py_device_array::make_or_get_string_buffer()
 {
     if (string_buf_.empty()) {
         string_buf_.reserve(span_.size());
-        try {
-            for (py::str obj : span_.as<std::string>()) {
-                string_buf_.push_back(obj.release().ptr());
+
+        for (const std::string &s : span_.as<std::string>()) {
+            ::PyObject *obj =
+                ::PyUnicode_FromStringAndSize(s.data(), static_cast<py::ssize_t>(s.size()));
+            if (obj == nullptr) {
+                ::PyErr_Clear();
+
+                for (py::handle hdl : string_buf_) {
+                    hdl.dec_ref();
+                }
+                string_buf_.clear();
+
+                throw py::value_error{
+                    "The string Tensor contains an invalid UTF-8 sequence. Please make sure that "
+                    "you specify an explicit text encoding if the text is supposed to be in a "
+                    "different encoding."};
             }
-        }
-        catch (std::runtime_error &) {
-            PyErr_SetString(
-                PyExc_ValueError,
-                "The string Tensor contains an invalid UTF-8 sequence. Please make sure that you "
-                "specify an explicit text encoding if the text is supposed to be in a different "
-                "encoding.");
-            return nullptr;
+
+            string_buf_.push_back(obj);
         }
     }
 
@@ -181,6 +189,7 @@ void register_device_array(py::module &m)
     py::class_<Py_device_array>(m,
                                 "DeviceArray",
                                 py::buffer_protocol(),
+                                py::custom_type_setup{&catch_buffer_errors},
                                 "Represents a memory region of a specific data type that is stored "
                                 "on a ``Device``.")
         .def_property_readonly("size", &Py_device_array::size, "Gets the size of the array.")
diff --git a/src/mlio-py/mlio/core/py_device_array.h b/src/mlio-py/mlio/core/py_device_array.h
index cafc0c1..525b05a 100644
--- a/src/mlio-py/mlio/core/py_device_array.h
+++ b/src/mlio-py/mlio/core/py_device_array.h
@@ -43,7 +43,7 @@ public:
     Py_device_array &operator=(Py_device_array &&) noexcept = default;
 
 public:
-    void *data() noexcept;
+    void *data();
 
     std::size_t size() const noexcept
     {
diff --git a/src/mlio-py/mlio/core/tensor.cc b/src/mlio-py/mlio/core/tensor.cc
index f63869f..c135b2f 100644
--- a/src/mlio-py/mlio/core/tensor.cc
+++ b/src/mlio-py/mlio/core/tensor.cc
@@ -130,6 +130,7 @@ void register_tensors(py::module &m)
         m,
         "DenseTensor",
         py::buffer_protocol(),
+        py::custom_type_setup{&catch_buffer_errors},
         "Represents a Tensor that stores its data in a contiguous memory "
         "block.")
         .def(py::init<>(&make_dense_tensor),
diff --git a/src/mlio-py/mlio/integ/numpy.py b/src/mlio-py/mlio/integ/numpy.py
index 74ac5c7..b9d0f3b 100644
--- a/src/mlio-py/mlio/integ/numpy.py
+++ b/src/mlio-py/mlio/integ/numpy.py
@@ -24,7 +24,7 @@ def as_numpy(tensor):
         raise ValueError("Only dense tensors can be converted to a NumPy "
                          "array.")
 
-    return np.array(tensor, copy=False)
+    return np.array(memoryview(tensor), copy=False)
 
 
 def to_numpy(tensor):
@@ -35,7 +35,7 @@ def to_numpy(tensor):
         raise ValueError("Only dense tensors can be converted to a NumPy "
                          "array.")
 
-    return np.array(tensor)
+    return np.array(memoryview(tensor))
 
 
 def as_tensor(arr):
-- 
2.43.0


From 980ff11a068e7c2d4015782cdcbf6aede9f5e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 49/75] fix: NumPy arrays are converted with the strides of
 8-byte elements

---
 src/mlio-py/mlio/integ/numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/integ/numpy.py b/src/mlio-py/mlio/integ/numpy.py
index b9d0f3b..992c80c 100644
--- a/src/mlio-py/mlio/integ/numpy.py
+++ b/src/mlio-py/mlio/integ/numpy.py
@@ -48,7 +48,7 @@ def as_tensor(arr):
 
     return DenseTensor(arr.shape,
                        data=arr,
-                       strides=tuple(s // 8 for s in arr.strides),
+                       strides=tuple(s // arr.itemsize for s in arr.strides),
                        copy=False)
 
 
@@ -58,4 +58,4 @@ def to_tensor(arr):
     """
     return DenseTensor(arr.shape,
                        data=arr,
-                       strides=tuple(s // 8 for s in arr.strides))
+                       strides=tuple(s // arr.itemsize for s in arr.strides))
-- 
2.43.0


From 151baa0e8c03c2fb65a2ee755bd03316d30a989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 50/75] fix: tensors of strided Python buffers have wrong or
 out-of-bounds data

The data of the tensor was the memory of as many elements as the buffer
has, starting with its first one, no matter where the others are.
---
 src/mlio-py/mlio/core/py_buffer.cc | 75 ++++++++++++++++++++++++++++--
 src/mlio-py/mlio/core/py_buffer.h  |  6 ++-
 src/mlio-py/mlio/core/tensor.cc    |  2 +-
 3 files changed, 76 insertions(+), 7 deletions(-)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index 6a9c83a..4c5689f 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -261,13 +261,31 @@ struct Make_cpu_array_op<Data_type::string> {
     {
         auto size = static_cast<std::size_t>(info.size);
 
-        std::vector<std::string> lst;
-        lst.reserve(size);
+        std::vector<std::string> lst(size);
+
+        if (size == 0) {
+            return lst;
+        }
 
         auto **obj_buffer = static_cast<PyObject **>(info.ptr);
 
-        for (std::size_t i = 0; i < size; i++) {
-            lst.emplace_back(py::cast<std::string>(obj_buffer[i]));
+        // The memory between the elements does not have to hold objects.
+        std::vector<py::ssize_t> idx(info.shape.size());
+        while (true) {
+            py::ssize_t pos = 0;
+            for (std::size_t dim = 0; dim < idx.size(); dim++) {
+                pos += idx[dim] * (info.strides[dim] / info.itemsize);
+            }
+
+            lst[static_cast<std::size_t>(pos)] = py::cast<std::string>(obj_buffer[pos]);
+
+            std::size_t dim = idx.size();
+            while (dim > 0 && ++idx[dim - 1] == info.shape[dim - 1]) {
+                idx[--dim] = 0;
+            }
+            if (dim == 0) {
+                break;
+            }
         }
 
         return lst;
@@ -307,6 +325,44 @@ int get_buffer(::PyObject *obj, ::Py_buffer *view, int flags) noexcept
     return -1;
 }
 
+bool is_contiguous(const py::buffer_info &info) noexcept
+{
+    if (info.size == 0) {
+        return true;
+    }
+
+    py::ssize_t stride = info.itemsize;
+    for (auto dim = static_cast<std::size_t>(info.ndim); dim-- > 0;) {
+        if (info.shape[dim] != 1 && info.strides[dim] != stride) {
+            return false;
+        }
+
+        stride *= info.shape[dim];
+    }
+
+    return true;
+}
+
+// Returns the number of elements that the memory between the first and the last
+// element of the buffer holds.
+py::ssize_t get_extent(const py::buffer_info &info)
+{
+    py::ssize_t extent = 1;
+    for (std::size_t dim = 0; dim < static_cast<std::size_t>(info.ndim); dim++) {
+        if (info.shape[dim] == 1) {
+            continue;
+        }
+
+        if (info.strides[dim] < 0 || info.strides[dim] % info.itemsize != 0) {
+            throw std::invalid_argument{"The Python buffer has an unsupported stride."};
+        }
+
+        extent += (info.shape[dim] - 1) * (info.strides[dim] / info.itemsize);
+    }
+
+    return extent;
+}
+
 }  // namespace
 
 void catch_buffer_errors(::PyHeapTypeObject *type)
@@ -314,7 +370,7 @@ void catch_buffer_errors(::PyHeapTypeObject *type)
     type->as_buffer.bf_getbuffer = &get_buffer;
 }
 
-std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy)
+std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy, bool strided)
 {
     bool writable = !cpy;
 
@@ -325,6 +381,15 @@ std::unique_ptr<Device_array> make_device_array(py::buffer &buf, bool cpy)
         throw std::invalid_argument{"The Python buffer contains an unsupported data type."};
     }
 
+    if (!is_contiguous(info)) {
+        if (!strided) {
+            throw std::invalid_argument{
+                "The Python buffer must be contiguous if no strides are specified."};
+        }
+
+        info.size = get_extent(info);
+    }
+
     return dispatch<Make_cpu_array_op>(*dt, std::move(info), cpy);
 }
 
diff --git a/src/mlio-py/mlio/core/py_buffer.h b/src/mlio-py/mlio/core/py_buffer.h
index 39ad1bf..ed97dc3 100644
--- a/src/mlio-py/mlio/core/py_buffer.h
+++ b/src/mlio-py/mlio/core/py_buffer.h
@@ -27,6 +27,10 @@ namespace pymlio {
 // exceptions into Python errors. The interpreter cannot handle exceptions.
 void catch_buffer_errors(::PyHeapTypeObject *type);
 
-std::unique_ptr<mlio::Device_array> make_device_array(pybind11::buffer &buf, bool cpy);
+// If @p strided is true, the returned array consists of all the memory between
+// the first and the last element of the buffer; otherwise the buffer must be
+// contiguous.
+std::unique_ptr<mlio::Device_array>
+make_device_array(pybind11::buffer &buf, bool cpy, bool strided = false);
 
 }  // namespace pymlio
diff --git a/src/mlio-py/mlio/core/tensor.cc b/src/mlio-py/mlio/core/tensor.cc
index c135b2f..3a1886f 100644
--- a/src/mlio-py/mlio/core/tensor.cc
+++ b/src/mlio-py/mlio/core/tensor.cc
@@ -35,7 +35,7 @@ Intrusive_ptr<Dense_tensor> make_dense_tensor(Size_vector shape,
                                               std::optional<Ssize_vector> strides,
                                               bool cpy)
 {
-    std::unique_ptr<Device_array> arr = make_device_array(data, cpy);
+    std::unique_ptr<Device_array> arr = make_device_array(data, cpy, strides != std::nullopt);
 
     Ssize_vector strds{};
     if (strides) {
-- 
2.43.0


From c5da3d59ec9acc0616a00745352fa9c9b46048ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 51/75] fix: one-dimensional COO tensors cannot be converted to
 a coo_matrix

---
 src/mlio-py/mlio/integ/scipy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mlio-py/mlio/integ/scipy.py b/src/mlio-py/mlio/integ/scipy.py
index f77556d..41fd0fe 100644
--- a/src/mlio-py/mlio/integ/scipy.py
+++ b/src/mlio-py/mlio/integ/scipy.py
@@ -31,12 +31,16 @@ def to_coo_matrix(tensor):
         raise ValueError("Only one- and two-dimensional COO tensors are "
                          "supported.")
 
+    data = np.array(tensor.data, copy=False)
+
     if len(s) == 1:
         s = (1,) + s
 
-    data = np.array(tensor.data, copy=False)
-    rows = np.array(tensor.indices(0), copy=False)
-    cols = np.array(tensor.indices(1), copy=False)
+        cols = np.array(tensor.indices(0), copy=False)
+        rows = np.zeros_like(cols)
+    else:
+        rows = np.array(tensor.indices(0), copy=False)
+        cols = np.array(tensor.indices(1), copy=False)
 
     return coo_matrix((data, (rows, cols)), s, copy=True)
 
-- 
2.43.0


From d1c8ab23adf940bd8a4ff5df2e8666e4661386a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 52/75] fix: the tensor converted from a coo_matrix shares its
 values

to_tensor() returns a copy, the indices were copied already.
---
 src/mlio-py/mlio/integ/scipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/integ/scipy.py b/src/mlio-py/mlio/integ/scipy.py
index 41fd0fe..f64c7ee 100644
--- a/src/mlio-py/mlio/integ/scipy.py
+++ b/src/mlio-py/mlio/integ/scipy.py
@@ -59,4 +59,4 @@ def to_tensor(mtx):
     rows = rows.astype(np.int64, copy=True)
     cols = cols.astype(np.int64, copy=True)
 
-    return CooTensor(mtx.shape, mtx.data, [rows, cols], copy=False)
+    return CooTensor(mtx.shape, mtx.data.copy(), [rows, cols], copy=False)
-- 
2.43.0


From 2eb4c5d734bbefc6c0b3cf21828335d52c30ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 53/75] fix: data stores written in Python have no usable
 identifier

All stores written in Python had the identifier of the first one, so that
they compared equal, and a store that did not override the identifier, or
overrode it as a property, terminated the process. Failing to override
open_read() crashed as well.
---
 src/mlio-py/mlio/core/data_store.cc | 45 +++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_store.cc b/src/mlio-py/mlio/core/data_store.cc
index 837042e..97c7326 100644
--- a/src/mlio-py/mlio/core/data_store.cc
+++ b/src/mlio-py/mlio/core/data_store.cc
@@ -36,10 +36,23 @@ public:
 
 public:
     const std::string &id() const noexcept override;
+
+private:
+    py::object self() const;
+
+private:
+    mutable std::string id_{};
 };
 
+py::object Py_data_store::self() const
+{
+    return py::cast(static_cast<const Data_store *>(this), py::return_value_policy::reference);
+}
+
 Intrusive_ptr<Input_stream> Py_data_store::open_read() const
 {
+    py::gil_scoped_acquire acq_gil;
+
     // NOLINTNEXTLINE
     PYBIND11_OVERLOAD_PURE(Intrusive_ptr<Input_stream>, Data_store, open_read, )
 }
@@ -50,18 +63,40 @@ std::string Py_data_store::repr() const
 
     auto repr_func = py::module::import("builtins").attr("object").attr("__repr__");
 
-    return repr_func(this).cast<std::string>();
+    return repr_func(self()).cast<std::string>();
 }
 
 const std::string &Py_data_store::id() const noexcept
 {
+    py::gil_scoped_acquire acq_gil;
+
+    if (!id_.empty()) {
+        return id_;
+    }
+
     try {
-        // NOLINTNEXTLINE
-        PYBIND11_OVERLOAD_PURE(const std::string &, Data_store, id, )
+        // The identifier can be overridden as a property or as a method.
+        auto base_id = py::type::of<Data_store>().attr("id");
+        if (!py::type::of(self()).attr("id").is(base_id)) {
+            py::object id = self().attr("id");
+            if (::PyCallable_Check(id.ptr()) != 0) {
+                id = id();
+            }
+            id_ = id.cast<std::string>();
+        }
+    }
+    catch (py::error_already_set &e) {
+        e.discard_as_unraisable("DataStore.id");
     }
-    catch (...) {
-        std::terminate();
+    catch (const std::exception &) {
+        // Falls through if the identifier is not a string.
     }
+
+    if (id_.empty()) {
+        id_ = repr();
+    }
+
+    return id_;
 }
 
 Intrusive_ptr<In_memory_store> make_in_memory_store(const py::buffer &buf, Compression compression)
-- 
2.43.0


From 70d70118077132347a3b0c52a74c403a0c667d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 54/75] fix: data stores written in Python die while a dataset
 still refers to them

The C++ part of the store has a reference, but without its Python part the
overridden methods cannot be found.
---
 src/mlio-py/mlio/core/data_reader.cc | 44 ++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index eb56656..7854ba0 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -109,6 +109,10 @@ std::size_t Py_data_reader::num_bytes_read() const noexcept
     }
 }
 
+// Keeps the data stores that are assigned to the dataset of a parameter object
+// alive, since those written in Python are unusable without their Python part.
+struct Keep_dataset_alive {};
+
 Data_reader_params make_data_reader_params(std::vector<Intrusive_ptr<Data_store>> dataset,
                                            std::size_t batch_size,
                                            std::size_t num_prefetched_examples,
@@ -249,6 +253,28 @@ Reader_ptr<Text_line_reader> make_text_line_reader(Data_reader_params params)
 }
 
 }  // namespace
+}  // namespace pymlio
+
+namespace pybind11 {
+namespace detail {
+
+template<>
+struct process_attribute<pymlio::Keep_dataset_alive>
+    : process_attribute_default<pymlio::Keep_dataset_alive> {
+    static void postcall(function_call &call, handle)
+    {
+        handle params = call.init_self ? call.init_self : call.args[0];
+
+        for (handle store : call.args[1]) {
+            keep_alive_impl(params, store);
+        }
+    }
+};
+
+}  // namespace detail
+}  // namespace pybind11
+
+namespace pymlio {
 
 void register_data_readers(py::module &m)
 {
@@ -386,8 +412,18 @@ void register_data_readers(py::module &m)
             reshuffle_each_epoch : bool, optional
                 A boolean value indicating whether the dataset should be
                 reshuffled after every `Data_reader.reset()` call.
-            )")
-        .def_readwrite("dataset", &Data_reader_params::dataset)
+            )",
+             Keep_dataset_alive{})
+        .def_property(
+            "dataset",
+            [](const Data_reader_params &self) {
+                return self.dataset;
+            },
+            py::cpp_function(
+                [](Data_reader_params &self, std::vector<Intrusive_ptr<Data_store>> dataset) {
+                    self.dataset = std::move(dataset);
+                },
+                Keep_dataset_alive{}))
         .def_readwrite("batch_size", &Data_reader_params::batch_size)
         .def_readwrite("num_prefetched_examples", &Data_reader_params::num_prefetched_examples)
         .def_readwrite("num_parallel_reads", &Data_reader_params::num_parallel_reads)
@@ -645,6 +681,7 @@ void register_data_readers(py::module &m)
     py::class_<Csv_reader, Data_reader, Reader_ptr<Csv_reader>>(
         m, "CsvReader", "Represents a ``Data_reader`` for reading CSV datasets.")
         .def(py::init<>(&make_csv_reader),
+             py::keep_alive<1, 2>(),
              "data_reader_params"_a,
              "csv_params"_a = std::nullopt,
              R"(
@@ -659,6 +696,7 @@ void register_data_readers(py::module &m)
     py::class_<Image_reader, Data_reader, Reader_ptr<Image_reader>>(
         m, "ImageReader", "Represents a ``Data_reader`` for reading Image datasets.")
         .def(py::init<>(&make_image_reader),
+             py::keep_alive<1, 2>(),
              "data_reader_params"_a,
              "image_reader_params"_a = std::nullopt,
              R"(
@@ -673,6 +711,7 @@ void register_data_readers(py::module &m)
     py::class_<Recordio_protobuf_reader, Data_reader, Reader_ptr<Recordio_protobuf_reader>>(
         m, "RecordIOProtobufReader")
         .def(py::init<>(&make_recordio_protobuf_reader),
+             py::keep_alive<1, 2>(),
              "data_reader_params"_a,
              R"(
             Parameters
@@ -683,6 +722,7 @@ void register_data_readers(py::module &m)
 
     py::class_<Text_line_reader, Data_reader, Reader_ptr<Text_line_reader>>(m, "TextLineReader")
         .def(py::init<>(&make_text_line_reader),
+             py::keep_alive<1, 2>(),
              "data_reader_params"_a,
              R"(
             Parameters
-- 
2.43.0


From 3b0406bc26d1d95393ad3d9cd21e891e92405e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 55/75] fix: an error raised by open_read() of a Python store
 terminates the process

A reader throws the error again until it gets reset, but pybind11 can
convert an error_already_set exception back to a Python error only once.
---
 src/mlio-py/mlio/core/data_store.cc |  9 +++++++--
 src/mlio-py/mlio/core/error.cc      |  3 +++
 src/mlio-py/mlio/core/module.h      | 24 ++++++++++++++++++++++++
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_store.cc b/src/mlio-py/mlio/core/data_store.cc
index 97c7326..5ec5ae0 100644
--- a/src/mlio-py/mlio/core/data_store.cc
+++ b/src/mlio-py/mlio/core/data_store.cc
@@ -53,8 +53,13 @@ Intrusive_ptr<Input_stream> Py_data_store::open_read() const
 {
     py::gil_scoped_acquire acq_gil;
 
-    // NOLINTNEXTLINE
-    PYBIND11_OVERLOAD_PURE(Intrusive_ptr<Input_stream>, Data_store, open_read, )
+    try {
+        // NOLINTNEXTLINE
+        PYBIND11_OVERLOAD_PURE(Intrusive_ptr<Input_stream>, Data_store, open_read, )
+    }
+    catch (const py::error_already_set &e) {
+        throw Py_override_error{e};
+    }
 }
 
 std::string Py_data_store::repr() const
diff --git a/src/mlio-py/mlio/core/error.cc b/src/mlio-py/mlio/core/error.cc
index 8d52979..11baecb 100644
--- a/src/mlio-py/mlio/core/error.cc
+++ b/src/mlio-py/mlio/core/error.cc
@@ -228,6 +228,9 @@ void register_exceptions(py::module &m)
         catch (const std::system_error &e) {
             set_system_error(e);
         }
+        catch (const Py_override_error &e) {
+            ::PyErr_SetObject(e.error().type().ptr(), e.error().value().ptr());
+        }
     });
 }
 
diff --git a/src/mlio-py/mlio/core/module.h b/src/mlio-py/mlio/core/module.h
index cf084ac..1e66eec 100644
--- a/src/mlio-py/mlio/core/module.h
+++ b/src/mlio-py/mlio/core/module.h
@@ -20,6 +20,7 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <exception>
 #include <utility>
 #include <vector>
 
@@ -71,6 +72,29 @@ private:
     mlio::Intrusive_ptr<T> ptr_{};
 };
 
+// Thrown if a method overridden in Python raises an error. As opposed to
+// error_already_set it can be converted back to a Python error more than once;
+// a reader throws the same error until it gets reset.
+class Py_override_error : public std::exception {
+public:
+    explicit Py_override_error(const pybind11::error_already_set &error) : error_{error}
+    {}
+
+public:
+    const char *what() const noexcept override
+    {
+        return error_.what();
+    }
+
+    const pybind11::error_already_set &error() const noexcept
+    {
+        return error_;
+    }
+
+private:
+    pybind11::error_already_set error_;
+};
+
 }  // namespace pymlio
 
 PYBIND11_DECLARE_HOLDER_TYPE(T, pymlio::Reader_ptr<T>, true);
-- 
2.43.0


From 2e2b1cd34899a4f9cba0011486cb7f49825eb980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 56/75] fix: open_read() of a Python store that returns None
 crashes the process

---
 src/mlio-py/mlio/core/data_store.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/core/data_store.cc b/src/mlio-py/mlio/core/data_store.cc
index 5ec5ae0..3dc96e8 100644
--- a/src/mlio-py/mlio/core/data_store.cc
+++ b/src/mlio-py/mlio/core/data_store.cc
@@ -54,8 +54,16 @@ Intrusive_ptr<Input_stream> Py_data_store::open_read() const
     py::gil_scoped_acquire acq_gil;
 
     try {
-        // NOLINTNEXTLINE
-        PYBIND11_OVERLOAD_PURE(Intrusive_ptr<Input_stream>, Data_store, open_read, )
+        auto stream = [this]() -> Intrusive_ptr<Input_stream> {
+            // NOLINTNEXTLINE
+            PYBIND11_OVERLOAD_PURE(Intrusive_ptr<Input_stream>, Data_store, open_read, )
+        }();
+
+        if (stream == nullptr) {
+            throw py::type_error{"open_read() must return an InputStream, not None."};
+        }
+
+        return stream;
     }
     catch (const py::error_already_set &e) {
         throw Py_override_error{e};
-- 
2.43.0


From 9631d3e5b6cd5c2cffb022b3f637d81b6b4c4424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 57/75] fix: undefined behavior in the cardinality estimates

The number of leading zeros of zero is not defined.
---
 src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
index dffc9d7..5c8b208 100644
--- a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
+++ b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
@@ -64,8 +64,9 @@ void HyperLogLog::add(const std::string_view &str)
     // Determine the register that this belongs to.
     // (e.g. use the first b_ bits as an index).
     uint32_t index = hash >> (32 - b_);
-    // Get the number of leading zeros.
-    uint8_t rank = _GET_CLZ((hash << b_), 32 - b_);
+    // Get the number of leading zeros. The extra bit ends the count if there is
+    // nothing but zeros.
+    uint8_t rank = _GET_CLZ((hash << b_) | (1U << (b_ - 1)), 32 - b_);
     // Update the register if there are more leading zeros.
     if (rank > M_[index]) {
         M_[index] = rank;
-- 
2.43.0


From f39bcbba59974323a19a8d2cfa42d436d0b1f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 58/75] fix: warnings that are not valid UTF-8 are lost in
 Python

---
 src/mlio-py/mlio/core/logging.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/logging.cc b/src/mlio-py/mlio/core/logging.cc
index 1d7b882..5dbec9c 100644
--- a/src/mlio-py/mlio/core/logging.cc
+++ b/src/mlio-py/mlio/core/logging.cc
@@ -49,7 +49,15 @@ public:
     {
         py::gil_scoped_acquire acq_gil;
 
-        hdl_(lvl, msg);
+        // The message can contain a part of the dataset, which is not
+        // necessarily a valid UTF-8 text.
+        ::PyObject *str = ::PyUnicode_DecodeUTF8(
+            msg.data(), static_cast<py::ssize_t>(msg.size()), "backslashreplace");
+        if (str == nullptr) {
+            throw py::error_already_set();
+        }
+
+        hdl_(lvl, py::reinterpret_steal<py::object>(str));
     }
 
 private:
-- 
2.43.0


From 16f37e14f1652f53525d028fb58a1fb672223852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 59/75] fix: reading 4 GiB or more at once from an inflating
 stream returned bytes that were never written

---
 src/mlio/streams/detail/zlib.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mlio/streams/detail/zlib.cc b/src/mlio/streams/detail/zlib.cc
index 6bc74ee..d4ce944 100644
--- a/src/mlio/streams/detail/zlib.cc
+++ b/src/mlio/streams/detail/zlib.cc
@@ -15,7 +15,9 @@
 
 #include "mlio/streams/detail/zlib.h"
 
+#include <algorithm>
 #include <cassert>
+#include <limits>
 #include <new>
 
 #include "mlio/not_supported_error.h"
@@ -60,8 +62,14 @@ void Zlib_inflater::inflate(Memory_span &inp, Mutable_memory_span &out)
     stream_.next_in = const_cast<::Bytef *>(i_buf.data());
     stream_.next_out = o_buf.data();
 
-    stream_.avail_in = static_cast<::uInt>(i_buf.size());
-    stream_.avail_out = static_cast<::uInt>(o_buf.size());
+    // The buffers might be larger than what zlib can process at once.
+    constexpr std::size_t max_size = std::numeric_limits<::uInt>::max();
+
+    auto i_size = static_cast<::uInt>(std::min(i_buf.size(), max_size));
+    auto o_size = static_cast<::uInt>(std::min(o_buf.size(), max_size));
+
+    stream_.avail_in = i_size;
+    stream_.avail_out = o_size;
 
     state_ = ::inflate(&stream_, Z_NO_FLUSH);
 
@@ -71,8 +79,8 @@ void Zlib_inflater::inflate(Memory_span &inp, Mutable_memory_span &out)
         ::inflateReset(&stream_);
     }
 
-    inp = inp.last(stream_.avail_in);
-    out = out.last(stream_.avail_out);
+    inp = inp.subspan(i_size - stream_.avail_in);
+    out = out.subspan(o_size - stream_.avail_out);
 }
 
 void Zlib_inflater::validate_state() const
-- 
2.43.0


From 428a7987d4bf33774fa2af25ee40987a97f6bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 60/75] fix: max_field_length counted bytes instead of
 characters and cut UTF-8 sequences

---
 src/mlio/csv_record_tokenizer.cc | 10 +++++++++-
 src/mlio/csv_record_tokenizer.h  |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mlio/csv_record_tokenizer.cc b/src/mlio/csv_record_tokenizer.cc
index 06475a1..ae9a201 100644
--- a/src/mlio/csv_record_tokenizer.cc
+++ b/src/mlio/csv_record_tokenizer.cc
@@ -25,6 +25,8 @@ bool Csv_record_tokenizer::next()
 {
     value_.clear();
 
+    num_chars_ = 0;
+
     truncated_ = false;
 
     if (finished_) {
@@ -133,7 +135,13 @@ inline bool Csv_record_tokenizer::try_get_next_char(char &chr) noexcept
 
 inline void Csv_record_tokenizer::push_char(char chr) noexcept
 {
-    if (max_field_length_ && value_.size() == *max_field_length_) {
+    // The text is UTF-8; only the first byte of a sequence counts as a
+    // character. This way a sequence never gets split.
+    if ((static_cast<unsigned char>(chr) & 0xC0U) != 0x80U) {
+        num_chars_++;
+    }
+
+    if (max_field_length_ && num_chars_ > *max_field_length_) {
         truncated_ = true;
     }
     else {
diff --git a/src/mlio/csv_record_tokenizer.h b/src/mlio/csv_record_tokenizer.h
index c917693..ded7e3d 100644
--- a/src/mlio/csv_record_tokenizer.h
+++ b/src/mlio/csv_record_tokenizer.h
@@ -71,6 +71,7 @@ private:
     char quote_char_;
     std::optional<std::size_t> max_field_length_{};
     std::string value_{};
+    std::size_t num_chars_{};
     bool truncated_{};
     bool finished_{};
     bool eof_{};
-- 
2.43.0


From d8dcfcc4f44031ffbd802cf1c5f68689c6ac2552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 61/75] fix: a memory mapped pipe or other file of unknown size
 was read as empty

---
 src/mlio/memory/file_mapped_memory_block.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mlio/memory/file_mapped_memory_block.cc b/src/mlio/memory/file_mapped_memory_block.cc
index 25a72f2..4d9f6e9 100644
--- a/src/mlio/memory/file_mapped_memory_block.cc
+++ b/src/mlio/memory/file_mapped_memory_block.cc
@@ -62,6 +62,18 @@ void File_mapped_memory_block::init_memory_map()
 
     size_ = static_cast<std::size_t>(buf.st_size);
     if (size_ == 0) {
+        // The size of special files such as pipes is not known; they
+        // must not be mistaken for empty files.
+        std::byte b{};
+        ssize_t n = ::read(fd.get(), &b, sizeof(b));
+        if (n == -1) {
+            throw std::system_error{current_error_code(), "The file cannot be read."};
+        }
+        if (n != 0) {
+            throw std::system_error{std::make_error_code(std::errc::no_such_device),
+                                    "The file cannot be memory mapped."};
+        }
+
         return;
     }
 
-- 
2.43.0


From 177b8c573cd556405302d6153c93a0e15f9acf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 62/75] fix: converting a sparse tensor with explicit zeros to
 TensorFlow paired values with wrong indices or failed

---
 src/mlio-py/mlio/integ/tensorflow.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mlio-py/mlio/integ/tensorflow.py b/src/mlio-py/mlio/integ/tensorflow.py
index 8121ab8..f0a1902 100644
--- a/src/mlio-py/mlio/integ/tensorflow.py
+++ b/src/mlio-py/mlio/integ/tensorflow.py
@@ -23,11 +23,11 @@ def to_tf(tensor):
     if isinstance(tensor, DenseTensor):
         return tf.convert_to_tensor(as_numpy(tensor))
 
-    mtx = to_coo_matrix(tensor).tocsr()
+    # Converting to CSR sums duplicate entries. Note that the matrix can
+    # contain explicit zeros.
+    mtx = to_coo_matrix(tensor).tocsr().tocoo()
 
-    non_zero_row_col = mtx.nonzero()
-    indices = np.asmatrix([non_zero_row_col[0], non_zero_row_col[1]])
-    indices = indices.transpose()
+    indices = np.column_stack((mtx.row, mtx.col))
 
     return tf.SparseTensor(indices, mtx.data, mtx.shape)
 
-- 
2.43.0


From 026edf37b3ab9af80d9aad50ec4f18f17637c05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 63/75] fix: making a second S3 client with the default
 credentials dereferenced a null pointer

---
 src/mlio/s3_client.cc | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/mlio/s3_client.cc b/src/mlio/s3_client.cc
index f2a90e4..12f3eb1 100644
--- a/src/mlio/s3_client.cc
+++ b/src/mlio/s3_client.cc
@@ -17,7 +17,6 @@
 
 #ifdef MLIO_BUILD_S3
 
-#include <mutex>
 #include <system_error>
 
 #include <aws/core/Aws.h>
@@ -38,21 +37,14 @@ inline namespace abi_v1 {
 namespace detail {
 namespace {
 
-std::once_flag chain_initialized;
-
 Aws::Auth::AWSCredentials get_default_aws_credentials()
 {
-    std::unique_ptr<Aws::Auth::DefaultAWSCredentialsProviderChain> chain{};
-
-    // Compilers are allowed to initialize local static variables before
-    // entering the main function. As the credentials provider chain has
-    // to be constructed after calling the Aws::InitAPI function here we
-    // initialize lazily.
-    std::call_once(chain_initialized, [&chain]() {
-        chain = std::make_unique<Aws::Auth::DefaultAWSCredentialsProviderChain>();
-    });
+    // The credentials provider chain has to be constructed after
+    // calling the Aws::InitAPI function; therefore it must not be a
+    // global variable.
+    Aws::Auth::DefaultAWSCredentialsProviderChain chain{};
 
-    return chain->GetAWSCredentials();
+    return chain.GetAWSCredentials();
 }
 
 #pragma GCC diagnostic push
-- 
2.43.0


From f1bd9cc87c0e13e52a7fd98f810814a22ba3fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:32 +0000
Subject: [PATCH 64/75] fix: assigning an intrusive pointer a pointer held by
 its own object was a use after free

Intrusive_ptr::operator= dropped its reference to the current object before it
had secured the new one. In 'node = node->next' the destructor of the old object
destroys the new one, and the pointer is left dangling.
---
 include/mlio/intrusive_ptr.h | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/mlio/intrusive_ptr.h b/include/mlio/intrusive_ptr.h
index 08d2d85..7fccea0 100644
--- a/include/mlio/intrusive_ptr.h
+++ b/include/mlio/intrusive_ptr.h
@@ -61,9 +61,7 @@ public:
 
     Intrusive_ptr &operator=(std::nullptr_t) noexcept
     {
-        decrement_ref_count();
-
-        ptr_ = nullptr;
+        assign(nullptr);
 
         return *this;
     }
@@ -103,9 +101,7 @@ public:
 
     Intrusive_ptr &operator=(Intrusive_ptr &&other) noexcept
     {
-        move_assign(other.ptr_);
-
-        other.ptr_ = nullptr;
+        assign(other.release());
 
         return *this;
     }
@@ -115,9 +111,7 @@ public:
     {
         static_assert(std::is_convertible<U *, T *>::value, "U must be convertible to T.");
 
-        move_assign(static_cast<T *>(other.ptr_));
-
-        other.ptr_ = nullptr;
+        assign(static_cast<T *>(other.release()));
 
         return *this;
     }
@@ -159,18 +153,24 @@ private:
             return;
         }
 
-        decrement_ref_count();
-
-        ptr_ = other_ptr;
+        // Take a reference before dropping the current one; other might
+        // be a member of the object that this pointer points to.
+        if (other_ptr != nullptr) {
+            intrusive_ptr_inc_ref(other_ptr);
+        }
 
-        increment_ref_count();
+        assign(other_ptr);
     }
 
-    void move_assign(T *other_ptr) noexcept
+    // Takes over the reference of the specified object.
+    void assign(T *other_ptr) noexcept
     {
-        decrement_ref_count();
-
-        ptr_ = other_ptr;
+        // The old object must be dropped last since its destructor might
+        // destruct the pointer that other_ptr comes from.
+        T *old_ptr = std::exchange(ptr_, other_ptr);
+        if (old_ptr != nullptr) {
+            intrusive_ptr_dec_ref(old_ptr);
+        }
     }
 
     void increment_ref_count() noexcept
-- 
2.43.0


From 8a3dddc18a27e6988bd244027cec8aa0bc52f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 65/75] fix: a parser kept a reference to the options it was
 made from

make_parser() takes its options by reference to const and returned a function that
refers to them, so a parser that was made from a temporary, or that outlived its
options, read freed memory.
---
 src/mlio/parser.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mlio/parser.cc b/src/mlio/parser.cc
index deab73b..0b9084b 100644
--- a/src/mlio/parser.cc
+++ b/src/mlio/parser.cc
@@ -36,8 +36,8 @@ decltype(auto) at(Device_array_span arr, std::size_t index) noexcept
 template<Data_type dt>
 Return_if<dt == Data_type::size> make_parser_core(const Parser_options &opts)
 {
-    return [&opts](std::string_view s, Device_array_span arr, std::size_t index) {
-        return try_parse_size_t(s, at<dt>(arr, index), {opts.base});
+    return [base = opts.base](std::string_view s, Device_array_span arr, std::size_t index) {
+        return try_parse_size_t(s, at<dt>(arr, index), {base});
     };
 }
 
@@ -53,8 +53,9 @@ template<Data_type dt>
 Return_if<dt == Data_type::float32 || dt == Data_type::float64>
 make_parser_core(const Parser_options &opts)
 {
-    return [&opts](std::string_view s, Device_array_span arr, std::size_t index) {
-        return try_parse_float(s, at<dt>(arr, index), {&opts.nan_values});
+    return [nan_values = opts.nan_values](
+               std::string_view s, Device_array_span arr, std::size_t index) {
+        return try_parse_float(s, at<dt>(arr, index), {&nan_values});
     };
 }
 
@@ -67,8 +68,8 @@ Return_if<dt == Data_type::int8  || dt == Data_type::int16  || dt == Data_type::
 // clang-format on
 make_parser_core(const Parser_options &opts)
 {
-    return [&opts](std::string_view s, Device_array_span arr, std::size_t index) {
-        return try_parse_int(s, at<dt>(arr, index), {opts.base});
+    return [base = opts.base](std::string_view s, Device_array_span arr, std::size_t index) {
+        return try_parse_int(s, at<dt>(arr, index), {base});
     };
 }
 
-- 
2.43.0


From 5079b9819082b38b3f1bd869dfd7a59cc22d2dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:37 +0000
Subject: [PATCH 66/75] fix: with a single header and empty data stores before
 it, the header row was read as data after a reset

Csv_reader regarded the header row as read once it had opened the first data store,
even if that data store was empty. The column names were then taken from the first
row of the next data store, but after a reset that row was delivered as data.
---
 include/mlio/csv_reader.h |  2 +-
 src/mlio/csv_reader.cc    | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/mlio/csv_reader.h b/include/mlio/csv_reader.h
index a81802a..b09757e 100644
--- a/include/mlio/csv_reader.h
+++ b/include/mlio/csv_reader.h
@@ -144,7 +144,7 @@ private:
     Intrusive_ptr<Record_reader> make_record_reader(const Data_store &store) final;
 
     MLIO_HIDDEN
-    void read_names_from_header(const Data_store &store, Record_reader &reader);
+    bool read_names_from_header(const Data_store &store, Record_reader &reader);
 
     MLIO_HIDDEN
     void skip_to_header_row(Record_reader &reader);
diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 856db3d..c051336 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -108,25 +108,30 @@ Intrusive_ptr<Record_reader> Csv_reader::make_record_reader(const Data_store &st
     auto reader = make_intrusive<Csv_record_reader>(std::move(stream), params_);
 
     if (params_.header_row_index) {
+        bool has_header = false;
+
         // Check if the caller did not explicitly specified the column
         // names and requested us to infer them from the header.
         if (column_names_.empty()) {
-            read_names_from_header(store, *reader);
+            has_header = read_names_from_header(store, *reader);
         }
         else if (should_read_header || !params_.has_single_header) {
             skip_to_header_row(*reader);
 
             // Discard the header row.
-            reader->read_record();
+            has_header = reader->read_record() != std::nullopt;
         }
 
-        should_read_header = false;
+        // If the data store was empty, the header row is yet to come.
+        if (has_header) {
+            should_read_header = false;
+        }
     }
 
     return std::move(reader);
 }
 
-void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &reader)
+bool Csv_reader::read_names_from_header(const Data_store &store, Record_reader &reader)
 {
     skip_to_header_row(reader);
 
@@ -136,7 +141,7 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
     try {
         std::optional<Record> hdr = reader.read_record();
         if (hdr == std::nullopt) {
-            return;
+            return false;
         }
 
         Csv_record_tokenizer tokenizer{params_, hdr->payload()};
@@ -164,6 +169,8 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
     }
 
     column_names_ = std::move(names);
+
+    return true;
 }
 
 void Csv_reader::skip_to_header_row(Record_reader &reader)
-- 
2.43.0


From 9024bfdfe44a84156425137b03882056b0470295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:56 +0000
Subject: [PATCH 67/75] fix: the buffers of memory slices and records were
 writable, so that immutable bytes could be changed and writing to memory
 mapped files crashed

---
 src/mlio-py/mlio/core/memory.cc        | 3 +--
 src/mlio-py/mlio/core/record_reader.cc | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mlio-py/mlio/core/memory.cc b/src/mlio-py/mlio/core/memory.cc
index 3c06eda..54a36e5 100644
--- a/src/mlio-py/mlio/core/memory.cc
+++ b/src/mlio-py/mlio/core/memory.cc
@@ -30,8 +30,7 @@ void register_memory_slice(py::module &m)
 
             auto size = static_cast<py::ssize_t>(self.size());
 
-            // TODO(balioglu): Make read-only.
-            return py::buffer_info(data, 1, "B", size);
+            return py::buffer_info(data, 1, "B", size, /*readonly*/ true);
         });
 }
 
diff --git a/src/mlio-py/mlio/core/record_reader.cc b/src/mlio-py/mlio/core/record_reader.cc
index e372a66..ec4311a 100644
--- a/src/mlio-py/mlio/core/record_reader.cc
+++ b/src/mlio-py/mlio/core/record_reader.cc
@@ -72,8 +72,7 @@ void register_record_readers(py::module &m)
 
             auto size = static_cast<py::ssize_t>(r.payload().size());
 
-            // TODO(balioglu): Make read-only.
-            return py::buffer_info(data, 1, "B", size);
+            return py::buffer_info(data, 1, "B", size, /*readonly*/ true);
         });
 
     py::class_<Py_record_iterator>(m, "RecordIterator")
-- 
2.43.0


From ecde26bc12cb9d94850e7bf763cdc6b0a5e30437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 68/75] fix: the process aborts or crashes at exit if a reader
 is still alive

The background threads of a reader need the GIL to write log messages or to
use data stores and buffers of Python. Once the interpreter is finalized such
threads are ended, which aborts the process. Stop them before that.
---
 src/mlio-py/mlio/__init__.py         |  4 +++
 src/mlio-py/mlio/core/data_reader.cc | 44 ++++++++++++++++++++++++++++
 src/mlio-py/mlio/core/module.h       | 20 ++++++++++---
 3 files changed, 64 insertions(+), 4 deletions(-)

diff --git a/src/mlio-py/mlio/__init__.py b/src/mlio-py/mlio/__init__.py
index 0a11f07..1eb34ef 100644
--- a/src/mlio-py/mlio/__init__.py
+++ b/src/mlio-py/mlio/__init__.py
@@ -162,6 +162,10 @@ mlio._core.set_log_message_handler(_log_message)
 # unloaded.
 atexit.register(mlio._core.clear_log_message_handler)
 
+# Before that stop the background threads of the readers that are still
+# alive; they might write log messages or need other Python objects.
+atexit.register(mlio._core.stop_readers)
+
 
 def set_log_level(lvl):
     """
diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index 7854ba0..669a318 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -17,7 +17,10 @@
 
 #include <pybind11/stl_bind.h>
 
+#include <cstddef>
 #include <exception>
+#include <unordered_map>
+#include <vector>
 
 namespace py = pybind11;
 
@@ -226,6 +229,29 @@ Parser_options make_parser_options(std::unordered_set<std::string> nan_values, i
     return parser_options;
 }
 
+std::unordered_map<Data_reader *, std::size_t> reader_holders{};
+
+// Stops the background threads of all readers that are still alive. Once the
+// interpreter gets finalized, threads that try to acquire the GIL are ended.
+void stop_readers()
+{
+    std::vector<Intrusive_ptr<Data_reader>> readers{};
+
+    for (auto &pr : reader_holders) {
+        if (dynamic_cast<Parallel_data_reader *>(pr.first) != nullptr) {
+            readers.emplace_back(wrap_intrusive(pr.first));
+        }
+    }
+
+    py::gil_scoped_release rel_gil;
+
+    for (auto &reader : readers) {
+        reader->reset();
+    }
+
+    readers.clear();
+}
+
 Reader_ptr<Csv_reader>
 make_csv_reader(Data_reader_params params, std::optional<Csv_params> csv_params)
 {
@@ -253,6 +279,20 @@ Reader_ptr<Text_line_reader> make_text_line_reader(Data_reader_params params)
 }
 
 }  // namespace
+
+void add_reader_holder(Data_reader &reader)
+{
+    ++reader_holders[&reader];
+}
+
+void remove_reader_holder(Data_reader &reader) noexcept
+{
+    auto pos = reader_holders.find(&reader);
+    if (pos != reader_holders.end() && --pos->second == 0) {
+        reader_holders.erase(pos);
+    }
+}
+
 }  // namespace pymlio
 
 namespace pybind11 {
@@ -730,6 +770,10 @@ void register_data_readers(py::module &m)
             data_reader_params : DataReaderParams
                 See ``DataReaderParams``.
             )");
+
+    m.def("stop_readers",
+          &stop_readers,
+          "Stops the background threads of all readers that are still alive.");
 }
 
 }  // namespace pymlio
diff --git a/src/mlio-py/mlio/core/module.h b/src/mlio-py/mlio/core/module.h
index 1e66eec..72b8076 100644
--- a/src/mlio-py/mlio/core/module.h
+++ b/src/mlio-py/mlio/core/module.h
@@ -30,6 +30,11 @@ PYBIND11_DECLARE_HOLDER_TYPE(T, mlio::Intrusive_ptr<T>, true);
 
 namespace pymlio {
 
+// Keeps count of the holders of data readers. The GIL must be held.
+void add_reader_holder(mlio::Data_reader &reader);
+
+void remove_reader_holder(mlio::Data_reader &reader) noexcept;
+
 // Holds a data reader. The destructor of a reader waits for its background
 // threads, which might need the GIL in order to write a log message or to read
 // from a Python data store, so the GIL must not be held in the meantime.
@@ -38,19 +43,26 @@ class Reader_ptr {
 public:
     Reader_ptr() noexcept = default;
 
-    explicit Reader_ptr(T *ptr) noexcept : ptr_{mlio::wrap_intrusive(ptr)}
+    explicit Reader_ptr(T *ptr) : Reader_ptr{mlio::wrap_intrusive(ptr)}
     {}
 
-    Reader_ptr(mlio::Intrusive_ptr<T> ptr) noexcept : ptr_{std::move(ptr)}
-    {}
+    Reader_ptr(mlio::Intrusive_ptr<T> ptr) : ptr_{std::move(ptr)}
+    {
+        if (ptr_ != nullptr) {
+            add_reader_holder(*ptr_);
+        }
+    }
 
-    Reader_ptr(const Reader_ptr &) = default;
+    Reader_ptr(const Reader_ptr &other) : Reader_ptr{other.ptr_}
+    {}
 
     Reader_ptr(Reader_ptr &&) noexcept = default;
 
     ~Reader_ptr()
     {
         if (ptr_ != nullptr) {
+            remove_reader_holder(*ptr_);
+
             pybind11::gil_scoped_release rel_gil;
 
             ptr_ = nullptr;
-- 
2.43.0


From 8dcb3ddddf94ac08a694706170d42b666bdf9d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:09 +0000
Subject: [PATCH 69/75] fix: do not copy the used columns for every column of
 the dataset

The time needed to make a schema grew with the product of the number of
columns and the number of used columns, and running out of memory while
copying them terminated the process.
---
 src/mlio/csv_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index c051336..f89cf06 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -417,14 +417,14 @@ Intrusive_ptr<const Schema> Csv_reader::init_parsers_and_make_schema()
 
 bool Csv_reader::should_skip(std::size_t index, const std::string &name) const noexcept
 {
-    auto uci = params_.use_columns_by_index;
+    const auto &uci = params_.use_columns_by_index;
     if (!uci.empty()) {
         if (uci.find(index) == uci.end()) {
             return true;
         }
     }
 
-    auto ucn = params_.use_columns;
+    const auto &ucn = params_.use_columns;
     if (!ucn.empty()) {
         if (ucn.find(name) == ucn.end()) {
             return true;
-- 
2.43.0


From feb7286cc1111d37569d9f21062d319e58a4c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:58 +0000
Subject: [PATCH 70/75] fix: Restore the signal mask if a thread cannot be
 started

If the constructor of std::thread throws, the calling thread kept all of its
signals blocked.
---
 src/mlio/detail/thread.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mlio/detail/thread.h b/src/mlio/detail/thread.h
index 8505d57..6ecaa6e 100644
--- a/src/mlio/detail/thread.h
+++ b/src/mlio/detail/thread.h
@@ -41,7 +41,15 @@ std::thread start_thread(Func &&f, Args &&... args)
         throw std::system_error{s, std::generic_category()};
     }
 
-    std::thread t{std::forward<Func>(f), std::forward<Args>(args)...};
+    std::thread t{};
+    try {
+        t = std::thread{std::forward<Func>(f), std::forward<Args>(args)...};
+    }
+    catch (...) {
+        ::pthread_sigmask(SIG_SETMASK, &original_mask, nullptr);
+
+        throw;
+    }
 
     // Restore the signal mask.
     s = ::pthread_sigmask(SIG_SETMASK, &original_mask, nullptr);
-- 
2.43.0


From 80c976eaec0c80a14a704457632408b35578721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:58 +0000
Subject: [PATCH 71/75] fix: Survive that the background thread cannot be
 started or fails

If starting the thread of a reader threw, a later reset() or the destructor
joined a thread that does not exist, and terminated the process. So did an
exception of a data store that is not derived from std::exception.
---
 src/mlio/parallel_data_reader.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index 7eae8e2..e487809 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -167,7 +167,15 @@ void Parallel_data_reader::ensure_pipeline_running()
 
     state_ = Run_state::running;
 
-    thread_ = detail::start_thread(&Parallel_data_reader::run_pipeline, this);
+    try {
+        thread_ = detail::start_thread(&Parallel_data_reader::run_pipeline, this);
+    }
+    catch (...) {
+        // There is no thread that we could wait for.
+        state_ = Run_state::not_started;
+
+        throw;
+    }
 }
 
 void Parallel_data_reader::run_pipeline()
@@ -181,7 +189,7 @@ void Parallel_data_reader::run_pipeline()
     try {
         graph_->obj->wait_for_all();
     }
-    catch (const std::exception &) {
+    catch (...) {
         exception_ptr_ = std::current_exception();
     }
 
-- 
2.43.0


From c4077330db61fd5d92166dd6779dedd179a2f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:03 +0000
Subject: [PATCH 72/75] fix: keep the position of the instances to select if
 reading one of them fails

If an instance that is to be skipped cannot be read while the schema is
inferred, a second attempt skipped too few instances, and one that is to be
sampled was sampled from other instances. Instances that are not selected
were delivered.
---
 .../ranged_instance_reader.cc                 | 18 ++++++-------
 .../instance_readers/ranged_instance_reader.h |  2 +-
 .../sampled_instance_reader.cc                | 14 ++++++++--
 .../sampled_instance_reader.h                 |  1 +
 .../sharded_instance_reader.cc                | 27 +++++++++----------
 .../sharded_instance_reader.h                 |  2 +-
 6 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/src/mlio/instance_readers/ranged_instance_reader.cc b/src/mlio/instance_readers/ranged_instance_reader.cc
index cacf3d6..098ba3d 100644
--- a/src/mlio/instance_readers/ranged_instance_reader.cc
+++ b/src/mlio/instance_readers/ranged_instance_reader.cc
@@ -31,15 +31,15 @@ Ranged_instance_reader::Ranged_instance_reader(const Data_reader_params &params,
 
 std::optional<Instance> Ranged_instance_reader::read_instance_core()
 {
-    if (first_read_) {
-        first_read_ = false;
-
-        for (std::size_t i = 0; i < params_->num_instances_to_skip; i++) {
-            std::optional<Instance> instance = inner_->read_instance();
-            if (instance == std::nullopt) {
-                return {};
-            }
+    // Reading an instance might fail; in such case the next call has to
+    // skip the rest of the instances.
+    while (num_instances_skipped_ < params_->num_instances_to_skip) {
+        std::optional<Instance> instance = inner_->read_instance();
+        if (instance == std::nullopt) {
+            return {};
         }
+
+        num_instances_skipped_++;
     }
 
     if (should_stop_reading()) {
@@ -69,7 +69,7 @@ void Ranged_instance_reader::reset_core() noexcept
 {
     inner_->reset();
 
-    first_read_ = true;
+    num_instances_skipped_ = 0;
 
     num_instances_read_ = 0;
 }
diff --git a/src/mlio/instance_readers/ranged_instance_reader.h b/src/mlio/instance_readers/ranged_instance_reader.h
index 4322b72..84199fe 100644
--- a/src/mlio/instance_readers/ranged_instance_reader.h
+++ b/src/mlio/instance_readers/ranged_instance_reader.h
@@ -41,7 +41,7 @@ private:
 
     const Data_reader_params *params_;
     std::unique_ptr<Instance_reader> inner_;
-    bool first_read_ = true;
+    std::size_t num_instances_skipped_{};
     std::size_t num_instances_read_{};
 };
 
diff --git a/src/mlio/instance_readers/sampled_instance_reader.cc b/src/mlio/instance_readers/sampled_instance_reader.cc
index 58adb46..08d165d 100644
--- a/src/mlio/instance_readers/sampled_instance_reader.cc
+++ b/src/mlio/instance_readers/sampled_instance_reader.cc
@@ -38,7 +38,7 @@ Sampled_instance_reader::Sampled_instance_reader(const Data_reader_params &param
 
 std::optional<Instance> Sampled_instance_reader::read_instance_core()
 {
-    if (buffer_pos_ == buffer_.end()) {
+    if (is_filling_ || buffer_pos_ == buffer_.end()) {
         fill_buffer_from_inner();
     }
 
@@ -51,7 +51,13 @@ std::optional<Instance> Sampled_instance_reader::read_instance_core()
 
 void Sampled_instance_reader::fill_buffer_from_inner()
 {
-    buffer_.clear();
+    // Reading an instance might fail; in such case the next call has to
+    // keep the instances that we have already read.
+    if (!is_filling_) {
+        buffer_.clear();
+
+        is_filling_ = true;
+    }
 
     while (buffer_.size() < num_instances_to_read_) {
         std::optional<Instance> instance = inner_->read_instance();
@@ -70,6 +76,8 @@ void Sampled_instance_reader::fill_buffer_from_inner()
     }
 
     buffer_pos_ = buffer_.begin();
+
+    is_filling_ = false;
 }
 
 void Sampled_instance_reader::reset_core() noexcept
@@ -79,6 +87,8 @@ void Sampled_instance_reader::reset_core() noexcept
     buffer_.clear();
 
     buffer_pos_ = buffer_.end();
+
+    is_filling_ = false;
 }
 
 }  // namespace detail
diff --git a/src/mlio/instance_readers/sampled_instance_reader.h b/src/mlio/instance_readers/sampled_instance_reader.h
index c14ed1b..0ba0ceb 100644
--- a/src/mlio/instance_readers/sampled_instance_reader.h
+++ b/src/mlio/instance_readers/sampled_instance_reader.h
@@ -47,6 +47,7 @@ private:
     std::unique_ptr<Instance_reader> inner_;
     std::vector<std::optional<Instance>> buffer_{};
     std::vector<std::optional<Instance>>::iterator buffer_pos_{};
+    bool is_filling_{};
 };
 
 }  // namespace detail
diff --git a/src/mlio/instance_readers/sharded_instance_reader.cc b/src/mlio/instance_readers/sharded_instance_reader.cc
index 1ab1c17..088d82e 100644
--- a/src/mlio/instance_readers/sharded_instance_reader.cc
+++ b/src/mlio/instance_readers/sharded_instance_reader.cc
@@ -31,36 +31,35 @@ Sharded_instance_reader::Sharded_instance_reader(const Data_reader_params &param
     if (params_->shard_index >= params_->num_shards) {
         throw std::invalid_argument{"The shard index must be less than the number of shards."};
     }
+
+    num_instances_to_skip_ = params_->shard_index;
 }
 
 std::optional<Instance> Sharded_instance_reader::read_instance_core()
 {
-    std::size_t num_instances_to_skip{};
-
-    if (first_read_) {
-        first_read_ = false;
-
-        num_instances_to_skip = params_->shard_index;
-    }
-    else {
-        num_instances_to_skip = params_->num_shards - 1;
-    }
-
-    for (std::size_t i = 0; i < num_instances_to_skip; i++) {
+    // Reading an instance might fail; in such case the next call has to
+    // skip the rest of the instances.
+    while (num_instances_to_skip_ > 0) {
         std::optional<Instance> instance = inner_->read_instance();
         if (instance == std::nullopt) {
             return {};
         }
+
+        num_instances_to_skip_--;
     }
 
-    return inner_->read_instance();
+    std::optional<Instance> instance = inner_->read_instance();
+
+    num_instances_to_skip_ = params_->num_shards - 1;
+
+    return instance;
 }
 
 void Sharded_instance_reader::reset_core() noexcept
 {
     inner_->reset();
 
-    first_read_ = true;
+    num_instances_to_skip_ = params_->shard_index;
 }
 
 }  // namespace detail
diff --git a/src/mlio/instance_readers/sharded_instance_reader.h b/src/mlio/instance_readers/sharded_instance_reader.h
index 22180af..d8db833 100644
--- a/src/mlio/instance_readers/sharded_instance_reader.h
+++ b/src/mlio/instance_readers/sharded_instance_reader.h
@@ -39,7 +39,7 @@ private:
 
     const Data_reader_params *params_;
     std::unique_ptr<Instance_reader> inner_;
-    bool first_read_ = true;
+    std::size_t num_instances_to_skip_{};
 };
 
 }  // namespace detail
-- 
2.43.0


From b1ef6c59fd8bfd5aa8de5514a73adaa386bd2bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:03 +0000
Subject: [PATCH 73/75] fix: do not lose an instance if its split record cannot
 be merged

If reading or merging the parts of a split record failed while the schema is
inferred, a second attempt went on with what follows the parts that have been
read, and the instance was missing.
---
 .../instance_readers/core_instance_reader.cc  | 19 +++++++++++++------
 .../instance_readers/core_instance_reader.h   |  3 ++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/mlio/instance_readers/core_instance_reader.cc b/src/mlio/instance_readers/core_instance_reader.cc
index fddbde2..c732046 100644
--- a/src/mlio/instance_readers/core_instance_reader.cc
+++ b/src/mlio/instance_readers/core_instance_reader.cc
@@ -103,8 +103,8 @@ void Core_instance_reader::handle_errors()
 
 std::optional<Memory_slice> Core_instance_reader::read_record_payload()
 {
-    if (has_corrupt_split_record_) {
-        throw_corrupt_split_record_error();
+    if (fault_) {
+        std::rethrow_exception(fault_);
     }
 
     std::optional<Record> record = read_record();
@@ -116,7 +116,16 @@ std::optional<Memory_slice> Core_instance_reader::read_record_payload()
         return std::move(*record).payload();
     }
 
-    return read_split_record_payload(std::move(record));
+    try {
+        return read_split_record_payload(std::move(record));
+    }
+    catch (...) {
+        // We cannot continue as we have already consumed some of the
+        // records of the instance.
+        fault_ = std::current_exception();
+
+        throw;
+    }
 }
 
 std::optional<Memory_slice>
@@ -173,8 +182,6 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
 
 void Core_instance_reader::throw_corrupt_split_record_error()
 {
-    has_corrupt_split_record_ = true;
-
     throw Corrupt_record_error{"Corrupt split Record encountered."};
 }
 
@@ -252,7 +259,7 @@ void Core_instance_reader::reset_core() noexcept
 
     record_idx_ = 0;
 
-    has_corrupt_split_record_ = false;
+    fault_ = nullptr;
 }
 
 }  // namespace detail
diff --git a/src/mlio/instance_readers/core_instance_reader.h b/src/mlio/instance_readers/core_instance_reader.h
index f37f710..55ce3c5 100644
--- a/src/mlio/instance_readers/core_instance_reader.h
+++ b/src/mlio/instance_readers/core_instance_reader.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <cstddef>
+#include <exception>
 #include <optional>
 #include <vector>
 
@@ -59,7 +60,7 @@ private:
     Intrusive_ptr<Record_reader> record_reader_{};
     std::size_t instance_idx_{};
     std::size_t record_idx_{};
-    bool has_corrupt_split_record_{};
+    std::exception_ptr fault_{};
 };
 
 }  // namespace detail
-- 
2.43.0


From 25d0b10044b5d2448244dfa30f9ad31f984d9064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:03 +0000
Subject: [PATCH 74/75] fix: do not lose an instance if there is no memory to
 shuffle it

An instance that has been read was dropped if the buffer of instances to be
shuffled cannot grow.
---
 src/mlio/instance_readers/shuffled_instance_reader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mlio/instance_readers/shuffled_instance_reader.cc b/src/mlio/instance_readers/shuffled_instance_reader.cc
index 74adfae..53e3edd 100644
--- a/src/mlio/instance_readers/shuffled_instance_reader.cc
+++ b/src/mlio/instance_readers/shuffled_instance_reader.cc
@@ -75,6 +75,12 @@ std::optional<Instance> Shuffled_instance_reader::read_instance_core()
 void Shuffled_instance_reader::fill_buffer_from_inner()
 {
     while (inner_has_instance_ && buffer_.size() < shuffle_window_) {
+        // Get the memory before reading the instance; otherwise we would
+        // lose the instance if there is no memory.
+        if (buffer_.size() == buffer_.capacity()) {
+            buffer_.reserve(buffer_.size() * 2 + 1);
+        }
+
         std::optional<Instance> instance = inner_->read_instance();
         if (instance == std::nullopt) {
             inner_has_instance_ = false;
-- 
2.43.0


From 1e407d9ae857b83f5f2f9b0583ada3ec1e98aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:41 +0000
Subject: [PATCH 75/75] fix: do not terminate if there is no memory for a long
 CSV field

The function that appends to the field is noexcept, but needs memory.
---
 src/mlio/csv_record_tokenizer.cc | 2 +-
 src/mlio/csv_record_tokenizer.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio/csv_record_tokenizer.cc b/src/mlio/csv_record_tokenizer.cc
index ae9a201..abd4e8e 100644
--- a/src/mlio/csv_record_tokenizer.cc
+++ b/src/mlio/csv_record_tokenizer.cc
@@ -133,7 +133,7 @@ inline bool Csv_record_tokenizer::try_get_next_char(char &chr) noexcept
     return true;
 }
 
-inline void Csv_record_tokenizer::push_char(char chr) noexcept
+inline void Csv_record_tokenizer::push_char(char chr)
 {
     // The text is UTF-8; only the first byte of a sequence counts as a
     // character. This way a sequence never gets split.
diff --git a/src/mlio/csv_record_tokenizer.h b/src/mlio/csv_record_tokenizer.h
index ded7e3d..2d32603 100644
--- a/src/mlio/csv_record_tokenizer.h
+++ b/src/mlio/csv_record_tokenizer.h
@@ -63,7 +63,7 @@ private:
 
     bool try_get_next_char(char &chr) noexcept;
 
-    void push_char(char chr) noexcept;
+    void push_char(char chr);
 
     stdx::span<const char> text_{};
     stdx::span<const char>::iterator text_pos_ = text_.begin();
-- 
2.43.0

