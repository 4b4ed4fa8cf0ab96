From 3a6aecd48910c91747e8b585ae98d4493cc85e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 01/56] fix: do not write past the end of the shifted spectrum
 for even lengths

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index 1eb633f..0014878 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -38,7 +38,10 @@ ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
         int shift_index = dc_index + i;
         int rev_index = dc_index - i;
         auto mag_squared = real*real + imag*imag;
-        out_ptr[shift_index] = mag_squared;
+        // For even N the last bin (N/2) exists only once, at the start of the shifted output
+        if (shift_index < N) {
+            out_ptr[shift_index] = mag_squared;
+        }
         if (i != 0) {
             out_ptr[rev_index] = mag_squared;
         }
-- 
2.43.0


From 14a38e6e7bbcba948343881c0da1790aeaf5666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 02/56] fix: report raw array files that could not be written
 or read completely

---
 bland/bland/ops/cpu/ops_cpu.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index da6b749..e210650 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -52,6 +52,9 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
         }
     }
     out_file.close();
+    if (!out_file) {
+        throw std::runtime_error("write_to_file: the file could not be completely written.");
+    }
 }
 
 ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype dtype) {
@@ -62,11 +65,19 @@ ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype
 
     // Get the number of bytes, create a buffer big enough, and read it all in
     auto file_length_bytes = get_ifstream_file_length(in_file);
+    if (file_length_bytes < 0 || !in_file) {
+        throw std::runtime_error("read_from_file: could not get the length of the file.");
+    }
 
     int64_t numel = file_length_bytes / (dtype.bits/8);
     auto x = ndarray({numel}, dtype);
     auto x_ptr = x.data_ptr<char>();
-    in_file.read(x_ptr, file_length_bytes);
+    // Only whole elements fit in the array
+    int64_t array_length_bytes = numel * (dtype.bits/8);
+    in_file.read(x_ptr, array_length_bytes);
+    if (!in_file || in_file.gcount() != array_length_bytes) {
+        throw std::runtime_error("read_from_file: the file could not be completely read.");
+    }
 
     return x;
 }
-- 
2.43.0


From 611a4081bdb5436e404641263fd08e989a85d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 03/56] fix: write raw array elements in the array's own type

---
 bland/bland/ops/cpu/ops_cpu.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index e210650..d397796 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -17,15 +17,14 @@ using namespace bland;
 using namespace bland::cpu;
 
 void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
-    using file_dtype = float;
-    
     std::ofstream out_file(file_path.data(), std::ios::binary);
     if (!out_file) {
         throw std::runtime_error("Unable to open file for writing.");
     }
 
-    // do a typed dispatch :shrug:
-    auto x_data = x.data_ptr<file_dtype>(); // TODO: templatize and dispatch
+    // Elements are written as they are held in memory, whatever their type
+    auto x_data = x.data_ptr<char>();
+    const int64_t element_size = x.dtype().bits / 8;
     auto x_shape = x.shape();
     auto x_strides = x.strides();
     auto x_offset = x.offsets();
@@ -37,8 +36,7 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
 
     auto numel = x.numel();
     for (int64_t n = 0; n < numel; ++n) {
-        auto val = x_data[x_linear_index];
-        out_file.write(reinterpret_cast<const char*>(&val), sizeof(file_dtype));
+        out_file.write(x_data + x_linear_index * element_size, element_size);
 
         // Increment the multi-dimensional index
         for (int i = nd_index.size() - 1; i >= 0; --i) {
-- 
2.43.0


From a33a069fc53f27538bd8ef015e10b766bb021354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 04/56] fix: align broadcast shapes at the last dimension
 instead of reading past the shape

---
 .../internal/include/internal/shape_helpers.cpp    | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bland/bland/internal/include/internal/shape_helpers.cpp b/bland/bland/internal/include/internal/shape_helpers.cpp
index 332c6c0..4efa388 100644
--- a/bland/bland/internal/include/internal/shape_helpers.cpp
+++ b/bland/bland/internal/include/internal/shape_helpers.cpp
@@ -56,15 +56,13 @@ std::vector<int64_t> bland::compute_broadcast_strides(const std::vector<int64_t>
 }
 
 std::vector<int64_t> bland::compute_broadcast_shape(std::vector<int64_t> shape, std::vector<int64_t> out_shape) {
-    std::vector<int64_t> broadcast_shape(out_shape.size());
+    // Dimensions are aligned at the last one, leading dimensions that `shape` does not have are 1
+    std::vector<int64_t> broadcast_shape(out_shape.size(), 1);
 
-    size_t input_shape_index = 0;
-    for (size_t i = 0; i < out_shape.size(); ++i) {
-        if (shape[input_shape_index] == out_shape[i] || shape[input_shape_index] == 1) {
-            broadcast_shape[i] = out_shape[i];
-            input_shape_index += 1;
-        } else {
-            broadcast_shape[i] = 1;
+    size_t offset = out_shape.size() - shape.size();
+    for (size_t i = 0; i < shape.size(); ++i) {
+        if (shape[i] == out_shape[i + offset] || shape[i] == 1) {
+            broadcast_shape[i + offset] = out_shape[i + offset];
         }
     }
 
-- 
2.43.0


From 78b4dd1f4b90713ce14e6027b4b9456275adfc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 05/56] fix: size subtract, multiply and comparison results for
 broadcast left operands

---
 bland/bland/ops/cpu/arithmetic_cpu.cpp |  6 ++++--
 bland/bland/ops/cpu/comparison_cpu.cpp | 13 +++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/bland/bland/ops/cpu/arithmetic_cpu.cpp b/bland/bland/ops/cpu/arithmetic_cpu.cpp
index 8e01251..26a92e4 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu.cpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu.cpp
@@ -34,7 +34,8 @@ ndarray bland::cpu::add_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Subtracts...
 template <> // Specialize for adding an array
 ndarray bland::cpu::subtract_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_subtract_op_ts>>(out, a, b);
 }
 template <>
@@ -45,7 +46,8 @@ ndarray bland::cpu::subtract_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Multiplies...
 template <> // Specialize for adding an array
 ndarray bland::cpu::multiply_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_multiply_op_ts>>(out, a, b);
 }
 template <>
diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index c8f93c9..3221906 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -4,6 +4,7 @@
 #include "bland/ndarray_slice.hpp"
 
 #include "internal/dispatcher.hpp"
+#include "internal/shape_helpers.hpp"
 #include "elementwise_binary_op.hpp"
 #include "elementwise_scalar_op.hpp"
 
@@ -25,7 +26,7 @@ ndarray bland::cpu::greater_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out = ndarray(expand_shapes_to_broadcast(lhs.shape(), rhs.shape()), ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -72,7 +73,7 @@ ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out = ndarray(expand_shapes_to_broadcast(lhs.shape(), rhs.shape()), ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -116,7 +117,7 @@ ndarray bland::cpu::less_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out = ndarray(expand_shapes_to_broadcast(lhs.shape(), rhs.shape()), ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -160,7 +161,7 @@ ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out = ndarray(expand_shapes_to_broadcast(lhs.shape(), rhs.shape()), ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -204,7 +205,7 @@ ndarray bland::cpu::logical_and(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, logical_and_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out = ndarray(expand_shapes_to_broadcast(lhs.shape(), rhs.shape()), ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<logical_and_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -251,7 +252,7 @@ ndarray bland::cpu::equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out = ndarray(expand_shapes_to_broadcast(lhs.shape(), rhs.shape()), ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
-- 
2.43.0


From 6abb0e05393a163504347d32b8fd598658110b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 06/56] fix: flag the filter rolloff on a copy of the mask

The deferred mask added its flags to the captured mask in place, so every
further evaluation, and every copy of the channel, accumulated them again.
---
 bliss/flaggers/filter_rolloff.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bliss/flaggers/filter_rolloff.cpp b/bliss/flaggers/filter_rolloff.cpp
index d7d1903..6e46bb7 100644
--- a/bliss/flaggers/filter_rolloff.cpp
+++ b/bliss/flaggers/filter_rolloff.cpp
@@ -11,8 +11,9 @@ using namespace bliss;
 
 coarse_channel bliss::flag_filter_rolloff(coarse_channel cc_data, float rolloff_width) {
 
-    auto deferred_rfi_mask = bland::ndarray_deferred([mask=cc_data.mask(), rolloff_width]() mutable {
-        bland::ndarray rfi_flags = mask;
+    auto deferred_rfi_mask = bland::ndarray_deferred([mask=cc_data.mask(), rolloff_width]() {
+        // flag a copy: this may be evaluated more than once and mask may be shared
+        auto rfi_flags = bland::copy(mask);
 
         auto nchans = rfi_flags.shape()[1];
         int64_t one_sided_channels = std::round(nchans * rolloff_width);
-- 
2.43.0


From 86256fad166299d82fd0921503eff50fed84677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 07/56] fix: apply magnitude flags and passband equalization to
 the channels of a scan

read_coarse_channel returns a copy, so assigning to it had no effect; add a
channel transform like the other stages do.
---
 bliss/flaggers/magnitude.cpp                  | 12 ++----------
 bliss/preprocess/passband_static_equalize.cpp |  6 +-----
 2 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index 9b065d9..3309e51 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -38,20 +38,12 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data) {
  * 
 */
 scan bliss::flag_magnitude(scan fil_data, float threshold) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc, threshold);
-    }
+    fil_data.add_coarse_channel_transform([threshold](coarse_channel cc) { return flag_magnitude(cc, threshold); });
     return fil_data;
 }
 
 scan bliss::flag_magnitude(scan fil_data) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc);
-    }
+    fil_data.add_coarse_channel_transform([](coarse_channel cc) { return flag_magnitude(cc); });
     return fil_data;
 }
 
diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 25a16b3..3b9e8dc 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -121,11 +121,7 @@ coarse_channel bliss::equalize_passband_filter(coarse_channel cc, std::string_vi
 
 
 scan bliss::equalize_passband_filter(scan sc, bland::ndarray h) {
-    auto number_coarse_channels = sc.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = sc.read_coarse_channel(cc_index);
-        *cc = equalize_passband_filter(*cc, h);
-    }
+    sc.add_coarse_channel_transform([h](coarse_channel cc) { return equalize_passband_filter(cc, h); });
     return sc;
 }
 
-- 
2.43.0


From 955408dc3cef8f4df43e21f4242a300a083c227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 08/56] fix: treat scans with equal frequency axes as
 consistent

The comparisons were inverted, so every target and cadence with matching scans
was refused when asked for its channels.
---
 bliss/core/cadence.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 2ed8c42..c7cc5e6 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -60,7 +60,7 @@ bool bliss::observation_target::validate_scan_consistency() {
     for (const auto &sc : _scans) {
         // For double comparison can probably lower epsilon, but this field is
         // in MHz which gives us 1 Hz error and should be sufficient
-        if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || (sc.nchans() != nchans)) {
+        if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || (sc.nchans() != nchans)) {
             fmt::print("INFO: observation_target::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
             return false;
         }
@@ -146,7 +146,7 @@ bool bliss::cadence::validate_scan_consistency() {
     }
     for (auto &obs: _observations) {
         for (auto & sc : obs._scans) {
-            if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || sc.nchans() != nchans) {
+            if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || sc.nchans() != nchans) {
                 fmt::print("INFO: cadence::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
                 return false;
             }
-- 
2.43.0


From 7b1f9cd6b7f61e3c7bfad3ae613097489cd83e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 09/56] fix: refuse the coarse channel index one past the last

---
 bliss/core/scan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index f5acc1f..802cf74 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -212,7 +212,7 @@ scan::scan(std::string_view file_path, int num_fine_channels_per_coarse) : scan(
 
 
 std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
@@ -272,7 +272,7 @@ std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_chan
 
 
 std::shared_ptr<coarse_channel> bliss::scan::peak_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
-- 
2.43.0


From 8a85da934977b9987e2ef6503e1c18330ca963d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 10/56] fix: keep a scan's device when the requested one is
 refused

---
 bliss/core/scan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 802cf74..c2b1c4d 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -336,8 +336,6 @@ bland::ndarray::dev bliss::scan::device() {
 }
 
 void bliss::scan::set_device(bland::ndarray::dev &device, bool verbose) {
-    _device = device;
-
     if (device.device_type == bland::ndarray::dev::cuda.device_type ||
         device.device_type == bland::ndarray::dev::cuda_managed.device_type) {
         if (!bland::g_config.check_is_valid_cuda_device(device.device_id, verbose)) {
@@ -345,6 +343,8 @@ void bliss::scan::set_device(bland::ndarray::dev &device, bool verbose) {
         }
     }
 
+    _device = device;
+
     for (auto &[channel_index, cc] : _coarse_channels) {
         cc->set_device(device);
     }
-- 
2.43.0


From fdc10320fc0ea3c2502da7fb2f683b006a5f1b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 11/56] fix: keep the target name and device in slices of
 targets and cadences

---
 bliss/core/cadence.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index c7cc5e6..beb7973 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -88,6 +88,8 @@ int bliss::observation_target::get_number_coarse_channels() {
 
 bliss::observation_target bliss::observation_target::slice_observation_channels(int64_t start_channel, int64_t count) {
     observation_target target_coarse_channel;
+    target_coarse_channel._target_name = _target_name;
+    target_coarse_channel._device      = _device;
     for (auto &sc : _scans) {
         target_coarse_channel._scans.push_back(sc.slice_scan_channels(start_channel, count));
     }
@@ -181,6 +183,7 @@ int bliss::cadence::get_number_coarse_channels() {
 
 bliss::cadence bliss::cadence::slice_cadence_channels(int64_t start_channel, int64_t count) {
     cadence cadence_coarse_channel;
+    cadence_coarse_channel._device = _device;
     for (auto &obs : _observations) {
         cadence_coarse_channel._observations.push_back(obs.slice_observation_channels(start_channel, count));
     }
-- 
2.43.0


From 8688eea87df51dba9065cacd6182e80ff3a033be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 12/56] fix: set the time span of hits found by hit_search

It was left uninitialised, so equal searches gave unequal hits.
---
 bliss/drift_search/hit_search.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/drift_search/hit_search.cpp b/bliss/drift_search/hit_search.cpp
index 8152a5f..b4b1e60 100644
--- a/bliss/drift_search/hit_search.cpp
+++ b/bliss/drift_search/hit_search.cpp
@@ -50,6 +50,7 @@ std::list<hit> bliss::hit_search(coarse_channel dedrifted_scan, hit_search_optio
         this_hit.start_freq_MHz = dedrifted_scan.fch1() + freq_offset;
         this_hit.start_time_sec = dedrifted_scan.tstart() * 24 * 60 * 60; // convert MJD to seconds since MJ
         this_hit.duration_sec   = dedrifted_scan.tsamp() * integration_length;
+        this_hit.time_span_steps = integration_length;
         this_hit.coarse_channel_number = dedrifted_scan._coarse_channel_number;
         hits.push_back(this_hit);
     }
-- 
2.43.0


From 51edea87386be0044bffa6ee5d703f558d0ff58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 13/56] fix: take all of a scan's metadata from its channels

Scans made from coarse channels left the channel width and other fields
uninitialised, so their slices had arbitrary frequencies and sizes.
---
 bliss/core/scan.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index c2b1c4d..ee26891 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -8,6 +8,7 @@
 #include "fmt/ranges.h"
 
 #include <array>
+#include <optional>
 #include <tuple>
 
 
@@ -113,6 +114,26 @@ scan::scan(std::map<int, std::shared_ptr<coarse_channel>> coarse_channels) {
     _source_name = first_cc->source_name();
     _ntsteps = first_cc->ntsteps();
     _tduration_secs = _ntsteps * _tsamp;
+    _fine_channels_per_coarse = first_cc->nchans();
+    _nifs = first_cc->nifs();
+    _data_type = first_cc->data_type();
+
+    // These are optional in a coarse channel
+    auto copy_if_set = [](auto &destination, auto getter) {
+        try {
+            destination = getter();
+        } catch (const std::bad_optional_access &e) {
+            // not specified, that's OK
+        }
+    };
+    _nbits = 32;
+    copy_if_set(_nbits, [&]() { return first_cc->nbits(); });
+    copy_if_set(_machine_id, [&]() { return first_cc->machine_id(); });
+    copy_if_set(_src_dej, [&]() { return first_cc->src_dej(); });
+    copy_if_set(_src_raj, [&]() { return first_cc->src_raj(); });
+    copy_if_set(_telescope_id, [&]() { return first_cc->telescope_id(); });
+    copy_if_set(_az_start, [&]() { return first_cc->az_start(); });
+    copy_if_set(_za_start, [&]() { return first_cc->za_start(); });
 }
 
 scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
-- 
2.43.0


From cf12047c56f103fe0580d67add51ff2246ce9118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 14/56] fix: do not serve failed reads from HDF5's sieve buffer

---
 bliss/file_types/h5_filterbank_file.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 36344f1..01293ac 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -179,7 +179,11 @@ bliss::h5_filterbank_file::h5_filterbank_file(std::string_view file_path) {
     fmt::print("INFO: HDF5 looking for filter plugins in: \n{}", filter_paths);
     #endif
 
-    _h5_file_handle = H5::H5File(file_path.data(), H5F_ACC_RDONLY);
+    // HDF5 keeps its sieve buffer for contiguous data even when filling it failed, and would serve later reads of the
+    // same region from that buffer. Read straight to the destination so a failed read can be repeated.
+    H5::FileAccPropList access_properties;
+    access_properties.setSieveBufSize(0);
+    _h5_file_handle = H5::H5File(file_path.data(), H5F_ACC_RDONLY, H5::FileCreatPropList::DEFAULT, access_properties);
     try {
         _h5_data_handle = _h5_file_handle.openDataSet("data");
     } catch (H5::FileIException h5_data_exception) {
-- 
2.43.0


From 859f67fa5f3383cf10d45eb4e62c58aed226e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:00 +0000
Subject: [PATCH 15/56] fix: read numeric attributes of any width and byte
 order

---
 bliss/file_types/h5_filterbank_file.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 01293ac..cab4a5f 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -77,10 +77,24 @@ T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
             double val;
             attr.read(dtype, &val);
             return static_cast<T>(val);
+        } else if (dtype.getClass() == H5T_INTEGER) {
+            // Some other width or byte order, let hdf5 convert it
+            if (attr.getIntType().getSign() == H5T_SGN_NONE) {
+                uint64_t val;
+                attr.read(H5::PredType::NATIVE_UINT64, &val);
+                return static_cast<T>(val);
+            } else {
+                int64_t val;
+                attr.read(H5::PredType::NATIVE_INT64, &val);
+                return static_cast<T>(val);
+            }
+        } else if (dtype.getClass() == H5T_FLOAT) {
+            double val;
+            attr.read(H5::PredType::NATIVE_DOUBLE, &val);
+            return static_cast<T>(val);
         } else {
-            T val;
-            attr.read(dtype, &val);
-            return val;
+            auto err_msg = fmt::format("H5 attribute {} is not a number", key);
+            throw std::invalid_argument(err_msg);
         }
     } else {
         auto err_msg = fmt::format("H5 data does not have an attribute key {}", key);
-- 
2.43.0


From dc4d73d44447b1a43d783c132c1750e8b0ea83ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 16/56] fix: drop the padding of fixed-length string attributes
 and accept empty ones

---
 bliss/file_types/h5_filterbank_file.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index cab4a5f..a6cd7e2 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -5,6 +5,7 @@
 #include <fmt/format.h>
 #include <fmt/ranges.h>
 #include <bland/bland.hpp>
+#include <algorithm> // find
 #include <iostream> // cerr
 #include <vector>
 
@@ -129,15 +130,15 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
             std::vector<uint8_t> val(size);
             attr.read(dtype, val.data());
 
-            // Convert the byte string to a std::string
-            return std::string(val.begin(), val.end());
+            // Convert the byte string to a std::string, without the padding that fills it up to its fixed length
+            return std::string(val.begin(), std::find(val.begin(), val.end(), 0));
         } else if (dtype.getClass() == H5T_STRING && dtype.isVariableStr()) {
             // Some pipelines generate variable length bytestrings
-            char* val;
-            // hdf5 will allocate space for val
+            char* val = nullptr;
+            // hdf5 will allocate space for val, except for an empty string
             attr.read(dtype, &val);
 
-            std::string result(val);
+            std::string result(val == nullptr ? "" : val);
 
             // Free the memory allocated by HDF5
             #if H5_VERSION_GE(1, 8, 13)
@@ -148,7 +149,7 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
 
             return result;
         } else {
-            auto err_msg = fmt::format("{} expected as string but is not a string type");
+            auto err_msg = fmt::format("{} expected as string but is not a string type", key);
             throw std::invalid_argument(err_msg);
         }
     } else {
-- 
2.43.0


From 54eb75817e71998fc83b03cd17c522a020f66a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 17/56] fix: read fixed-length dimension labels and free
 variable-length ones

---
 bliss/file_types/h5_filterbank_file.cpp | 33 +++++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index a6cd7e2..2a0dcdd 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -162,13 +162,36 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
 template <>
 std::vector<std::string> bliss::h5_filterbank_file::read_data_attr<std::vector<std::string>>(const std::string &key) {
     if (_h5_data_handle.attrExists(key)) {
-        H5::Attribute             attr = _h5_data_handle.openAttribute(key);
-        std::vector<const char *> vals_as_read_from_h5(attr.getInMemDataSize() / sizeof(char *));
-        attr.read(attr.getDataType(), vals_as_read_from_h5.data());
+        H5::Attribute attr  = _h5_data_handle.openAttribute(key);
+        auto          dtype = attr.getDataType();
+        if (dtype.getClass() != H5T_STRING) {
+            auto err_msg = fmt::format("{} expected as strings but is not a string type", key);
+            throw std::invalid_argument(err_msg);
+        }
 
         std::vector<std::string> vals;
-        for (size_t i = 0; i < vals_as_read_from_h5.size(); ++i) {
-            vals.emplace_back(vals_as_read_from_h5[i]);
+        if (dtype.isVariableStr()) {
+            std::vector<char *> vals_as_read_from_h5(attr.getInMemDataSize() / sizeof(char *), nullptr);
+            attr.read(dtype, vals_as_read_from_h5.data());
+
+            for (auto *val : vals_as_read_from_h5) {
+                vals.emplace_back(val == nullptr ? "" : val);
+                // Free the memory allocated by HDF5
+                #if H5_VERSION_GE(1, 8, 13)
+                H5free_memory(val);
+                #else
+                free(val);
+                #endif
+            }
+        } else {
+            // fixed-length strings are stored one after another, each padded to the same length
+            std::vector<char> vals_as_read_from_h5(attr.getInMemDataSize());
+            attr.read(dtype, vals_as_read_from_h5.data());
+
+            auto length = static_cast<std::ptrdiff_t>(dtype.getSize());
+            for (auto it = vals_as_read_from_h5.begin(); it != vals_as_read_from_h5.end(); it += length) {
+                vals.emplace_back(it, std::find(it, it + length, 0));
+            }
         }
 
         return vals;
-- 
2.43.0


From c8b23cf178f0ac64453dbadea0480cdb636918a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 18/56] fix: refuse data that does not have three labelled
 dimensions

---
 bliss/file_types/h5_filterbank_file.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 2a0dcdd..6f314d5 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -280,6 +280,9 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
     dataspace.getSimpleExtentDims(dims.data());
 
     auto dim_labels = read_data_attr<std::vector<std::string>>("DIMENSION_LABELS");
+    if (number_dims != 3 || dim_labels.size() != dims.size()) {
+        throw std::invalid_argument("Expected data with 3 labelled dimensions");
+    }
     // tuples of size, initialized state, index. This will validate the dimensions
     // fit our expectations:
     // * there are 3 dimensions with unique labels of time, feed_id, frequency
@@ -299,7 +302,7 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
             }
         } else { // if there are more than 3 dims this will catch it
             // unknown dimension. If it's size 1, we're probably OK though
-            if (dims[ii] != 1) {
+            if (dims[ii] == 1) {
                 // TODO, we're using fmtlib now, update this. Does fmtlib act as a proper
                 // "logging" lib?
                 std::cerr << "Got unknown " << ii << " dimension: " << dim_labels[ii]
-- 
2.43.0


From 9cd6be6b4bb2b7960aef2ba73aa23f5290a199aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 19/56] fix: infer one coarse channel for scans smaller than
 the common channelizations

---
 bliss/core/scan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index ee26891..7e789da 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -70,7 +70,7 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
         // Try 2**18 (Matches ATA)
         constexpr int common_channelization = 1<<18;
         auto number_coarse = number_fine_channels / common_channelization;
-        auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
+        auto remainder_per_coarse = number_coarse > 0 ? (number_fine_channels % common_channelization) / number_coarse : 0;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
         if (fine_per_coarse * number_coarse == number_fine_channels) {
             fmt::print("WARN: scan with {} fine channels could not be matched with a known channelization scheme. "
@@ -84,7 +84,7 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
         // Try 1M (Matches Parkes)
         constexpr int common_channelization = 1000000;
         auto number_coarse = number_fine_channels / common_channelization;
-        auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
+        auto remainder_per_coarse = number_coarse > 0 ? (number_fine_channels % common_channelization) / number_coarse : 0;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
         if (fine_per_coarse * number_coarse == number_fine_channels) {
             fmt::print("WARN: scan with {} fine channels could not be matched with a known channelization scheme. "
-- 
2.43.0


From 2bd6c2317de80636e52d2cd471863c69261f11aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 20/56] fix: derive nbits and nifs that a file does not specify

---
 bliss/core/scan.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 7e789da..38561fe 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -192,6 +192,7 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
     } catch (std::invalid_argument &e) {
         // nbits is not specified, derive from datatype (if it's ever likely we get nbits but not datatype
         // we can verify that nbits is 32 before assuming data_type)
+        _nbits = 32;
     }
     // int64_t     nchans;
     try {
@@ -200,15 +201,20 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
         // nchans is not specified, derive from datashape
     }
     // int64_t     nifs;
+    bool nifs_specified = true;
     try {
         _nifs = fb_file.read_data_attr<int64_t>("nifs");
     } catch (std::invalid_argument &e) {
         // nifs is not specified, derive from datashape
+        nifs_specified = false;
     }
 
     // This is expected to be [time, feed, freq]
     auto data_shape = _h5_file_handle->get_data_shape();
     if (data_shape.size() == 3) {
+        if (!nifs_specified) {
+            _nifs = data_shape[1];
+        }
         _ntsteps = data_shape[0];
         _tduration_secs = _ntsteps * _tsamp;
     } else {
-- 
2.43.0


From af669c60ed418ead34aafd38179134a3bfe45e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 21/56] fix: keep the coarse channel number of hits in capnp
 files

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 7ff7f0e..f89a27a 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -23,6 +23,7 @@ void bliss::detail::bliss_hit_to_capnp_signal_message(Signal::Builder &signal_bu
 
     signal_builder.setBandwidth(this_hit.bandwidth);
     signal_builder.setBinwidth(this_hit.binwidth);
+    signal_builder.setCoarseChannel(this_hit.coarse_channel_number);
     // These currently aren't in the capn proto definition to be serialized
     // rfi     rfi_counts;
 }
@@ -43,6 +44,7 @@ hit bliss::detail::capnp_signal_message_to_bliss_hit(const Signal::Reader &signa
     this_hit.duration_sec   = signal_reader.getDurationSeconds();
     this_hit.bandwidth      = signal_reader.getBandwidth();
     this_hit.binwidth       = signal_reader.getBinwidth();
+    this_hit.coarse_channel_number = signal_reader.getCoarseChannel();
     // The following are not (currently) in the capn proto definition
     // this_hit.rfi_counts;
 
-- 
2.43.0


From 79398f6682c0d1dae93f12295390efeaa3accb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 22/56] fix: keep the number of coarse channels in capnp files

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index f89a27a..09d8019 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -68,6 +68,7 @@ void bliss::detail::bliss_coarse_channel_to_capnp_coarse_channel_message(CoarseC
     md_builder.setTstart(cc.tstart());
     md_builder.setNumTimesteps(cc.ntsteps());
     md_builder.setNumChannels(cc.nchans());
+    md_builder.setCoarseChannel(cc._coarse_channel_number);
 
     // Serialize out the hits
     auto   hits         = cc.hits();
@@ -102,8 +103,8 @@ bliss::detail::capnp_coarse_channel_message_to_bliss_coarse_channel(CoarseChanne
                                           md.getTstart(),
                                           1 /* data_type */,
                                           0 /* az_start */,
-                                          0 /* za_start */
-    );
+                                          0 /* za_start */,
+                                          md.getCoarseChannel());
 
     std::list<hit> deserialized_hits;
 
-- 
2.43.0


From f8056cd51a2e14916eb02b7727f5d76264f5681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 23/56] fix: restore a scan's own metadata from capnp files

---
 bliss/core/include/core/scan.hpp             | 1 +
 bliss/core/scan.cpp                          | 5 +++++
 bliss/file_types/detail/cpnp_hit_builder.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/bliss/core/include/core/scan.hpp b/bliss/core/include/core/scan.hpp
index e0fe560..982903c 100644
--- a/bliss/core/include/core/scan.hpp
+++ b/bliss/core/include/core/scan.hpp
@@ -124,6 +124,7 @@ class scan {
     void    set_za_start(double);
 
     int64_t ntsteps() const;
+    void    set_ntsteps(int64_t);
 
     double tduration_secs() const;
 
diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 38561fe..3be615d 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -516,6 +516,11 @@ int64_t bliss::scan::ntsteps() const {
     return _ntsteps;
 }
 
+void bliss::scan::set_ntsteps(int64_t ntsteps) {
+    _ntsteps        = ntsteps;
+    _tduration_secs = _ntsteps * _tsamp;
+}
+
 double bliss::scan::tduration_secs() const {
     return _tduration_secs;
 }
diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 09d8019..270000d 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -168,6 +168,9 @@ scan bliss::detail::capnp_scan_message_to_bliss_scan(Scan::Reader &scan_reader)
     scan_with_hits.set_tsamp(md.getTsamp());
     scan_with_hits.set_fch1(md.getFch1());
     scan_with_hits.set_foff(md.getFoff());
+    scan_with_hits.set_telescope_id(md.getTelescopeId());
+    scan_with_hits.set_nchans(md.getNumChannels());
+    scan_with_hits.set_ntsteps(md.getNumTimesteps());
 
     return scan_with_hits;
 }
-- 
2.43.0


From cba3f68f4e11fc67490587a476e025f651b62e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 24/56] fix: report result files that could not be closed

---
 bliss/file_types/cpnp_files.cpp               |  5 +++++
 bliss/file_types/detail/raii_file_helpers.cpp | 12 +++++++++++-
 bliss/file_types/detail/raii_file_helpers.hpp |  5 +++++
 bliss/file_types/events_file.cpp              |  1 +
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/cpnp_files.cpp b/bliss/file_types/cpnp_files.cpp
index 77feac4..3b5e5ef 100644
--- a/bliss/file_types/cpnp_files.cpp
+++ b/bliss/file_types/cpnp_files.cpp
@@ -33,6 +33,7 @@ void bliss::write_hits_to_capnp_file(Container hits, std::string_view file_path)
 
         capnp::writeMessageToFd(out_file._fd, message);
     }
+    out_file.close();
 }
 template void bliss::write_hits_to_capnp_file<std::vector<hit>>(std::vector<hit> hits, std::string_view file_path);
 template void bliss::write_hits_to_capnp_file<std::list<hit>>(std::list<hit> hits, std::string_view file_path);
@@ -70,6 +71,7 @@ void bliss::write_coarse_channel_hits_to_capnp_file(coarse_channel cc, std::stri
     detail::bliss_coarse_channel_to_capnp_coarse_channel_message(cc_message, cc);
 
     capnp::writeMessageToFd(out_file._fd, message);
+    out_file.close();
 }
 
 coarse_channel bliss::read_coarse_channel_hits_from_capnp_file(std::string_view file_path) {
@@ -93,6 +95,7 @@ void bliss::write_scan_hits_to_capnp_file(scan scan_with_hits, std::string_view
     detail::bliss_scan_to_capnp_scan(scan_message, scan_with_hits);
 
     capnp::writeMessageToFd(out_file._fd, message);
+    out_file.close();
 }
 
 scan bliss::read_scan_hits_from_capnp_file(std::string_view file_path) {
@@ -116,6 +119,7 @@ void bliss::write_observation_target_hits_to_capnp_files(observation_target obse
     detail::bliss_observation_target_to_capnp_observation_target_message(obstarget_message, observation_with_hits);
 
     capnp::writeMessageToFd(out_file._fd, message);
+    out_file.close();
 }
 
 observation_target bliss::read_observation_target_hits_from_capnp_files(std::string_view file_path) {
@@ -138,6 +142,7 @@ void bliss::write_cadence_hits_to_capnp_files(cadence cadence_with_hits, std::st
     detail::bliss_cadence_to_capnp_cadence_message(cadence_message, cadence_with_hits);
 
     capnp::writeMessageToFd(out_file._fd, message);
+    out_file.close();
 }
 
 cadence bliss::read_cadence_hits_from_capnp_files(std::string_view file_path) {
diff --git a/bliss/file_types/detail/raii_file_helpers.cpp b/bliss/file_types/detail/raii_file_helpers.cpp
index f2360b0..292fcae 100644
--- a/bliss/file_types/detail/raii_file_helpers.cpp
+++ b/bliss/file_types/detail/raii_file_helpers.cpp
@@ -21,8 +21,18 @@ bliss::detail::raii_file_for_write::raii_file_for_write(std::string_view file_pa
     }
 }
 
+void bliss::detail::raii_file_for_write::close() {
+    auto closed = ::close(_fd);
+    _fd         = -1;
+    if (closed == -1) {
+        throw std::runtime_error(fmt::format("raii_file_for_write: could not close file (error={})", strerror(errno)));
+    }
+}
+
 bliss::detail::raii_file_for_write::~raii_file_for_write() {
-    close(_fd);
+    if (_fd != -1) {
+        ::close(_fd);
+    }
 }
 
 
diff --git a/bliss/file_types/detail/raii_file_helpers.hpp b/bliss/file_types/detail/raii_file_helpers.hpp
index 58d8a82..b12cb52 100644
--- a/bliss/file_types/detail/raii_file_helpers.hpp
+++ b/bliss/file_types/detail/raii_file_helpers.hpp
@@ -16,6 +16,11 @@ struct raii_file_for_write {
     int _fd;
     raii_file_for_write(std::string_view file_path);
 
+    /**
+     * Close the file and throw if that fails, since the last data written may only be refused then
+     */
+    void close();
+
     ~raii_file_for_write();
 };
 struct raii_file_for_read {
diff --git a/bliss/file_types/events_file.cpp b/bliss/file_types/events_file.cpp
index 953e58d..d564b2e 100644
--- a/bliss/file_types/events_file.cpp
+++ b/bliss/file_types/events_file.cpp
@@ -39,6 +39,7 @@ void bliss::write_events_to_file(std::vector<event> events, std::string_view fil
 
         capnp::writeMessageToFd(out_file._fd, message);
     }
+    out_file.close();
 }
 
 std::vector<event> bliss::read_events_from_file(std::string_view file_path) {
-- 
2.43.0


From 5a2b0dcefaa51c2073006f2abcc251c74ca89247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 25/56] fix: fail when a list of hits or events could not be
 read to its end

---
 bliss/file_types/cpnp_files.cpp              |  6 +++++-
 bliss/file_types/detail/cpnp_hit_builder.hpp | 18 ++++++++++++++++++
 bliss/file_types/events_file.cpp             |  6 +++++-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/cpnp_files.cpp b/bliss/file_types/cpnp_files.cpp
index 3b5e5ef..66a9075 100644
--- a/bliss/file_types/cpnp_files.cpp
+++ b/bliss/file_types/cpnp_files.cpp
@@ -44,9 +44,10 @@ std::list<hit> bliss::read_hits_from_capnp_file(std::string_view file_path) {
 
     std::list<hit> hits;
 
+    detail::message_stream messages(in_file._fd);
     while (true) {
         try {
-            capnp::StreamFdMessageReader message(in_file._fd);
+            capnp::InputStreamMessageReader message(messages);
             auto                         hit_reader    = message.getRoot<Hit>();
             auto                         signal_reader = hit_reader.getSignal();
 
@@ -54,6 +55,9 @@ std::list<hit> bliss::read_hits_from_capnp_file(std::string_view file_path) {
 
             hits.push_back(this_hit);
         } catch (kj::Exception &e) {
+            if (!messages.reached_end) {
+                throw; // the file could not be read
+            }
             // We've reached the end of the file.
             break;
         }
diff --git a/bliss/file_types/detail/cpnp_hit_builder.hpp b/bliss/file_types/detail/cpnp_hit_builder.hpp
index e877cc5..a09f829 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.hpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.hpp
@@ -12,10 +12,28 @@
 #include <capnp/message.h>
 #include <capnp/serialize.h>
 #include <kj/exception.h>
+#include <kj/io.h>
 
 
 namespace bliss::detail {
 
+/**
+ * A stream of messages read from a file that knows if reading stopped because the end of the file was reached
+ */
+struct message_stream : public kj::FdInputStream {
+    bool reached_end = false;
+
+    using kj::FdInputStream::FdInputStream;
+
+    size_t tryRead(void *buffer, size_t min_bytes, size_t max_bytes) override {
+        auto bytes_read = kj::FdInputStream::tryRead(buffer, min_bytes, max_bytes);
+        if (bytes_read < min_bytes) {
+            reached_end = true;
+        }
+        return bytes_read;
+    }
+};
+
 /**
  * A single source for converting our native `bliss::hit` type to a cap'n proto `signal` through a capnp builder
  */
diff --git a/bliss/file_types/events_file.cpp b/bliss/file_types/events_file.cpp
index d564b2e..e49118f 100644
--- a/bliss/file_types/events_file.cpp
+++ b/bliss/file_types/events_file.cpp
@@ -48,10 +48,11 @@ std::vector<event> bliss::read_events_from_file(std::string_view file_path) {
 
     auto in_file = detail::raii_file_for_read(file_path);
 
+    detail::message_stream messages(in_file._fd);
     while (true) {
 
         try {
-            capnp::StreamFdMessageReader message(in_file._fd);
+            capnp::InputStreamMessageReader message(messages);
 
             auto event_reader      = message.getRoot<Event>();
             auto deserialized_hits = event_reader.getHits();
@@ -64,6 +65,9 @@ std::vector<event> bliss::read_events_from_file(std::string_view file_path) {
             }
             events.push_back(new_event);
         } catch (kj::Exception &e) {
+            if (!messages.reached_end) {
+                throw; // the file could not be read
+            }
             // We've reached the end of the file.
             break;
         }
-- 
2.43.0


From 5e72ac005cba9c63677c42976a5e47d7fcecb561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 26/56] fix: read capnp files larger than cap'n proto's default
 limit

---
 bliss/file_types/cpnp_files.cpp              | 11 ++++++-----
 bliss/file_types/detail/cpnp_hit_builder.hpp | 17 +++++++++++++++++
 bliss/file_types/events_file.cpp             |  3 ++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/bliss/file_types/cpnp_files.cpp b/bliss/file_types/cpnp_files.cpp
index 66a9075..bcd6384 100644
--- a/bliss/file_types/cpnp_files.cpp
+++ b/bliss/file_types/cpnp_files.cpp
@@ -45,9 +45,10 @@ std::list<hit> bliss::read_hits_from_capnp_file(std::string_view file_path) {
     std::list<hit> hits;
 
     detail::message_stream messages(in_file._fd);
+    auto reader_options = detail::reader_options_for_file(in_file._fd);
     while (true) {
         try {
-            capnp::InputStreamMessageReader message(messages);
+            capnp::InputStreamMessageReader message(messages, reader_options);
             auto                         hit_reader    = message.getRoot<Hit>();
             auto                         signal_reader = hit_reader.getSignal();
 
@@ -82,7 +83,7 @@ coarse_channel bliss::read_coarse_channel_hits_from_capnp_file(std::string_view
 
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
 
     auto coarse_channel_reader = message.getRoot<CoarseChannel>();
     auto deserialized_cc = detail::capnp_coarse_channel_message_to_bliss_coarse_channel(coarse_channel_reader);
@@ -105,7 +106,7 @@ void bliss::write_scan_hits_to_capnp_file(scan scan_with_hits, std::string_view
 scan bliss::read_scan_hits_from_capnp_file(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
     auto scan_reader = message.getRoot<Scan>();
 
     auto scan_with_hits = detail::capnp_scan_message_to_bliss_scan(scan_reader);
@@ -129,7 +130,7 @@ void bliss::write_observation_target_hits_to_capnp_files(observation_target obse
 observation_target bliss::read_observation_target_hits_from_capnp_files(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
     auto obstarget_reader = message.getRoot<ObservationTarget>();
 
     auto observations = detail::capnp_observation_target_message_to_bliss_observation_target(obstarget_reader);
@@ -152,7 +153,7 @@ void bliss::write_cadence_hits_to_capnp_files(cadence cadence_with_hits, std::st
 cadence bliss::read_cadence_hits_from_capnp_files(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
     auto cadence_reader = message.getRoot<Cadence>();
 
     auto deserialized_cadence = detail::capnp_cadence_message_to_cadence(cadence_reader);
diff --git a/bliss/file_types/detail/cpnp_hit_builder.hpp b/bliss/file_types/detail/cpnp_hit_builder.hpp
index a09f829..1d1793f 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.hpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.hpp
@@ -6,8 +6,11 @@
 #include <core/cadence.hpp>
 #include "hit.capnp.h"
 
+#include <algorithm> // max
 #include <stdexcept>
 
+#include <sys/stat.h>
+
 #include <capnp/c++.capnp.h>
 #include <capnp/message.h>
 #include <capnp/serialize.h>
@@ -17,6 +20,20 @@
 
 namespace bliss::detail {
 
+/**
+ * Options to read messages as large as the given file. Cap'n proto's default would refuse files with
+ * more than about 900k hits
+ */
+inline capnp::ReaderOptions reader_options_for_file(int fd) {
+    capnp::ReaderOptions options;
+    struct stat          file_info;
+    if (fstat(fd, &file_info) == 0) {
+        uint64_t words_in_file        = static_cast<uint64_t>(file_info.st_size) / sizeof(capnp::word);
+        options.traversalLimitInWords = std::max(options.traversalLimitInWords, 2 * words_in_file);
+    }
+    return options;
+}
+
 /**
  * A stream of messages read from a file that knows if reading stopped because the end of the file was reached
  */
diff --git a/bliss/file_types/events_file.cpp b/bliss/file_types/events_file.cpp
index e49118f..18a128b 100644
--- a/bliss/file_types/events_file.cpp
+++ b/bliss/file_types/events_file.cpp
@@ -49,10 +49,11 @@ std::vector<event> bliss::read_events_from_file(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
     detail::message_stream messages(in_file._fd);
+    auto reader_options = detail::reader_options_for_file(in_file._fd);
     while (true) {
 
         try {
-            capnp::InputStreamMessageReader message(messages);
+            capnp::InputStreamMessageReader message(messages, reader_options);
 
             auto event_reader      = message.getRoot<Event>();
             auto deserialized_hits = event_reader.getHits();
-- 
2.43.0


From 15ca55ea948406fab4ae82b77ffbd95143b8c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 27/56] fix: write dat reports completely or fail

---
 bliss/file_types/dat_file.cpp                 |  5 +++--
 bliss/file_types/detail/raii_file_helpers.cpp | 13 +++++++++++++
 bliss/file_types/detail/raii_file_helpers.hpp |  5 +++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index e922ac6..6427e0f 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -130,9 +130,10 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         scan_with_hits.foff()*1e6,
                         "n/a",
                         scan_with_hits.ntsteps()*scan_with_hits.tsamp());
-    write(output_file._fd, header.c_str(), header.size());
+    output_file.write(header);
     auto table_contents = format_hits_to_dat_list(hits);
-    write(output_file._fd, table_contents.c_str(), table_contents.size());
+    output_file.write(table_contents);
+    output_file.close();
 }
 
 scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
diff --git a/bliss/file_types/detail/raii_file_helpers.cpp b/bliss/file_types/detail/raii_file_helpers.cpp
index 292fcae..733b0a4 100644
--- a/bliss/file_types/detail/raii_file_helpers.cpp
+++ b/bliss/file_types/detail/raii_file_helpers.cpp
@@ -21,6 +21,19 @@ bliss::detail::raii_file_for_write::raii_file_for_write(std::string_view file_pa
     }
 }
 
+void bliss::detail::raii_file_for_write::write(std::string_view data) {
+    while (!data.empty()) {
+        auto written = ::write(_fd, data.data(), data.size());
+        if (written == -1) {
+            if (errno == EINTR) {
+                continue;
+            }
+            throw std::runtime_error(fmt::format("raii_file_for_write: could not write to file (error={})", strerror(errno)));
+        }
+        data.remove_prefix(written);
+    }
+}
+
 void bliss::detail::raii_file_for_write::close() {
     auto closed = ::close(_fd);
     _fd         = -1;
diff --git a/bliss/file_types/detail/raii_file_helpers.hpp b/bliss/file_types/detail/raii_file_helpers.hpp
index b12cb52..019e480 100644
--- a/bliss/file_types/detail/raii_file_helpers.hpp
+++ b/bliss/file_types/detail/raii_file_helpers.hpp
@@ -16,6 +16,11 @@ struct raii_file_for_write {
     int _fd;
     raii_file_for_write(std::string_view file_path);
 
+    /**
+     * Write all of data and throw if that fails
+     */
+    void write(std::string_view data);
+
     /**
      * Close the file and throw if that fails, since the last data written may only be refused then
      */
-- 
2.43.0


From 5708d2541172ad84bcb686cdb562ecc6a03d1b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 28/56] fix: sigma clipping starts from a uint8 mask as masked
 statistics require

---
 bliss/flaggers/sigmaclip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index d52be2a..9e58dbb 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -11,7 +11,7 @@ using namespace bliss;
 bland::ndarray bliss::flag_sigmaclip(const bland::ndarray &data, int max_iter, float low, float high) {
 
     constexpr float eps = 1e-6;
-    auto            rfi = bland::zeros(data.shape(), data.dtype(), data.device());
+    auto            rfi = bland::zeros(data.shape(), bland::ndarray::datatype::uint8, data.device());
 
     auto [mean, stddev] = bland::masked_mean_stddev(data, rfi);
     for (int iter = 0; iter < max_iter; ++iter) {
-- 
2.43.0


From 955ee52297d361699c915daf20924b93fba077bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 29/56] fix: bliss_find_hits exits with an error status when
 the pipeline fails

---
 bliss/bliss_find_hits.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index db851ba..18674a7 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -161,6 +161,7 @@ int main(int argc, char *argv[]) {
         fmt::print("ERROR: got a fatal exception ({}) while running pipeline. This is likely due to running out of "
                    "memory. Ending processing.\n",
                    e.what());
+        return 1;
     }
 
 }
-- 
2.43.0


From f1ca530140fcda1fb892d3ef707c9933faed8991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 30/56] fix: bliss_find_hits gives every input an output of its
 own

---
 bliss/bliss_find_hits.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index 18674a7..06ee227 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -17,6 +17,7 @@
 #include "fmt/core.h"
 #include <fmt/ranges.h>
 #include <cstdint>
+#include <set>
 #include <string>
 #include <vector>
 
@@ -136,25 +137,36 @@ int main(int argc, char *argv[]) {
     pipeline_object_with_hits = bliss::filter_hits(pipeline_object_with_hits, bliss::filter_options{.filter_zero_drift = true});
 
     try {
+        std::set<std::string> written_paths;
         // TODO: add cli args for where to send hits (stdout, file.dat, capn proto serialize,...)
         for (int scan_index=0; scan_index < pipeline_object_with_hits._scans.size(); ++scan_index) {
             auto &sc = pipeline_object_with_hits._scans[scan_index];
             auto hits = sc.hits();
 
+            auto scan_output_path = output_path;
+            auto scan_output_format = output_format;
             if (output_path.empty()) {
                 auto path = fs::path(pipeline_files[scan_index]);
 
-                output_path = path.filename().replace_extension("capnp");
-                output_format = "capnp";
+                scan_output_path = path.filename().replace_extension("capnp");
+                scan_output_format = "capnp";
             }
 
-            if (output_path == "-" || output_path == "stdout") {
+            if (scan_output_path == "-" || scan_output_path == "stdout") {
                 fmt::print("scan has {} hits\n", hits.size());
                 for (auto &h : hits) {
                     fmt::print("{}\n", h.repr());
                 }
             } else {
-                bliss::write_scan_hits_to_file(sc, output_path, output_format);
+                // several inputs may lead to the same name: number the later ones
+                const auto base_path = fs::path(scan_output_path);
+                for (int n = 1; !written_paths.insert(scan_output_path).second; ++n) {
+                    auto numbered_path = base_path;
+                    numbered_path.replace_filename(
+                            fmt::format("{}_{}{}", base_path.stem().string(), n, base_path.extension().string()));
+                    scan_output_path = numbered_path.string();
+                }
+                bliss::write_scan_hits_to_file(sc, scan_output_path, scan_output_format);
             }
         }
     } catch (std::exception &e) {
-- 
2.43.0


From 0bb8882a7554ffe4f0ceb1da1807cea0651251d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 31/56] fix: a hit's flag counts are those of its peak

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index be34351..62653bf 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -154,11 +154,11 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                             // auto dedrifted_rfi = drift_plane.integrated_rfi();
 
                             this_component.rfi_counts[flag_values::low_spectral_kurtosis] =
-                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::high_spectral_kurtosis] =
-                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::filter_rolloff] =
-                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             // this_component.rfi_counts[flag_values::magnitude] =
                             //         dedrifted_rfi.magnitude.scalarize<uint8_t>(curr_coord);
                             // this_component.rfi_counts[flag_values::sigma_clip] =
-- 
2.43.0


From 8ce7b2bf6efa16f7802b00b979bfd558059bd0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 32/56] fix: release HDF5's strings when reading an attribute
 ends early

---
 bliss/file_types/h5_filterbank_file.cpp | 28 ++++++++++++++++---------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 6f314d5..92e668e 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -171,17 +171,25 @@ std::vector<std::string> bliss::h5_filterbank_file::read_data_attr<std::vector<s
 
         std::vector<std::string> vals;
         if (dtype.isVariableStr()) {
-            std::vector<char *> vals_as_read_from_h5(attr.getInMemDataSize() / sizeof(char *), nullptr);
-            attr.read(dtype, vals_as_read_from_h5.data());
-
-            for (auto *val : vals_as_read_from_h5) {
+            // Free the memory allocated by HDF5, also when an exception ends this early
+            struct h5_allocated_strings {
+                std::vector<char *> strings;
+                ~h5_allocated_strings() {
+                    for (auto *val : strings) {
+                        #if H5_VERSION_GE(1, 8, 13)
+                        H5free_memory(val);
+                        #else
+                        free(val);
+                        #endif
+                    }
+                }
+            };
+            h5_allocated_strings vals_as_read_from_h5{
+                    std::vector<char *>(attr.getInMemDataSize() / sizeof(char *), nullptr)};
+            attr.read(dtype, vals_as_read_from_h5.strings.data());
+
+            for (auto *val : vals_as_read_from_h5.strings) {
                 vals.emplace_back(val == nullptr ? "" : val);
-                // Free the memory allocated by HDF5
-                #if H5_VERSION_GE(1, 8, 13)
-                H5free_memory(val);
-                #else
-                free(val);
-                #endif
             }
         } else {
             // fixed-length strings are stored one after another, each padded to the same length
-- 
2.43.0


From 480ef6cb056ae8588b2c02522c17dfa5716b274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 33/56] fix: masked statistics index the mask with its own
 strides and offset

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 741d99d..259f561 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -177,11 +177,13 @@ struct masked_mean_impl {
             int64_t          elements_in_mean = 0;
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + reduce_nd_index[axis] * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     mean += a_data[input_linear_index];
                     elements_in_mean += 1;
                 }
@@ -421,11 +423,13 @@ struct masked_stddev_impl {
 
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + reduce_nd_index[axis] * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
@@ -677,11 +681,13 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
 
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + reduce_nd_index[axis] * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
-- 
2.43.0


From 5ebfd7b22f73b953fd42a7e80290c0df506c7493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:28 +0000
Subject: [PATCH 34/56] fix: reshape gives elements their row-major places or
 refuses

---
 bland/bland/ndarray.cpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 9c554a0..5cd3482 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -597,8 +597,25 @@ ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
     }
 
     if (new_shape.size() != _tensor.ndim) {
-        // This won't always be right and I think sometimes it might be required to make
-        // a copy. That's what pytorch does if the new shape isn't compatible due to strides
+        // Without a copy only elements at evenly spaced positions (in row-major order) can be given a new shape
+        int64_t element_stride = 1;
+        bool    first_axis     = true;
+        int64_t expected       = 1;
+        for (int axis = _tensor.ndim - 1; axis >= 0; --axis) {
+            if (_tensor.shape[axis] == 1) {
+                continue;
+            }
+            if (first_axis) {
+                element_stride = _tensor.strides[axis];
+                expected       = element_stride;
+                first_axis     = false;
+            }
+            if (_tensor.strides[axis] != expected) {
+                throw std::runtime_error("This reshape would require a copy which isn't yet implemented");
+            }
+            expected *= _tensor.shape[axis];
+        }
+
         int64_t new_ndim = new_shape.size();
         // We can collapse all offsets to the last dimension
         auto new_offsets   = std::vector<int64_t>(new_ndim, 0);
@@ -607,17 +624,10 @@ ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
 
         // Number of dims changing means we need to update strides
         auto    new_strides        = std::vector<int64_t>(new_ndim, 0);
-        int     old_stride_axis    = _tensor.ndim - 1;
-        int64_t accumulated_stride = 1;
+        int64_t accumulated_stride = element_stride;
         for (int axis = new_ndim - 1; axis >= 0; --axis) {
-            if (old_stride_axis > 0) {
-                accumulated_stride *= _tensor.strides[old_stride_axis];
-                new_strides[axis] = _tensor.strides[old_stride_axis];
-                old_stride_axis -= 1;
-            } else {
-                new_strides[axis] = accumulated_stride;
-                accumulated_stride *= new_shape[axis];
-            }
+            new_strides[axis] = accumulated_stride;
+            accumulated_stride *= new_shape[axis];
         }
         _tensor._strides_ownership = new_strides;
         _tensor.strides            = _tensor._strides_ownership.data();
-- 
2.43.0


From ffab949d8dfc990c4ff60bc6a48cee5d505956ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 35/56] fix: reshaping or assigning arrays changes them
 completely or not at all

---
 bland/bland/bland_tensor_internals.cpp | 11 ++++++++---
 bland/bland/ndarray.cpp                | 23 ++++++++++++-----------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index a8a420c..32336d1 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -171,6 +171,11 @@ blandDLTensor::blandDLTensor(const blandDLTensor &other) {
 // Copy assignment
 blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
     if (this != &other) {
+        // Everything that can fail is done before this changes
+        auto new_offsets = other._offsets;
+        auto new_shape   = other._shape_ownership;
+        auto new_strides = other._strides_ownership;
+
         this->byte_offset     = other.byte_offset;
         this->_data_ownership = other._data_ownership; // shared_ptr increases refcount
         this->data            = static_cast<void *>(this->_data_ownership.get());
@@ -179,14 +184,14 @@ blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
         this->dtype  = other.dtype;
         this->ndim   = other.ndim;
 
-        this->_offsets = other._offsets;
+        this->_offsets = std::move(new_offsets);
 
         // Deep copy shape and strides, setting the shape, strides ptrs
         // to our owned copy.
-        this->_shape_ownership = other._shape_ownership;
+        this->_shape_ownership = std::move(new_shape);
         this->shape            = this->_shape_ownership.data();
 
-        this->_strides_ownership = other._strides_ownership;
+        this->_strides_ownership = std::move(new_strides);
         this->strides            = this->_strides_ownership.data();
     }
     return *this;
diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 5cd3482..f2e3d99 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -620,7 +620,6 @@ ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
         // We can collapse all offsets to the last dimension
         auto new_offsets   = std::vector<int64_t>(new_ndim, 0);
         new_offsets.back() = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), 0);
-        _tensor._offsets   = new_offsets;
 
         // Number of dims changing means we need to update strides
         auto    new_strides        = std::vector<int64_t>(new_ndim, 0);
@@ -629,16 +628,18 @@ ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
             new_strides[axis] = accumulated_stride;
             accumulated_stride *= new_shape[axis];
         }
-        _tensor._strides_ownership = new_strides;
+        // Everything that can fail is done before the tensor changes
+        auto new_shape_ownership   = new_shape;
+        _tensor._offsets           = std::move(new_offsets);
+        _tensor._strides_ownership = std::move(new_strides);
         _tensor.strides            = _tensor._strides_ownership.data();
+        _tensor._shape_ownership   = std::move(new_shape_ownership);
+        _tensor.shape              = _tensor._shape_ownership.data();
         _tensor.ndim               = new_ndim;
     } else {
         throw std::runtime_error("This reshape would require a copy which isn't yet implemented");
     }
 
-    _tensor._shape_ownership = new_shape;
-    _tensor.shape            = _tensor._shape_ownership.data();
-
     return *this;
 }
 
@@ -680,11 +681,11 @@ ndarray bland::ndarray::squeeze(int64_t squeeze_axis) {
             new_offsets.push_back(_tensor._offsets[axis]);
         }
     }
-    _tensor._shape_ownership   = new_shape;
+    _tensor._shape_ownership   = std::move(new_shape);
     _tensor.shape              = _tensor._shape_ownership.data();
-    _tensor._strides_ownership = new_strides;
+    _tensor._strides_ownership = std::move(new_strides);
     _tensor.strides            = _tensor._strides_ownership.data();
-    _tensor._offsets           = new_offsets;
+    _tensor._offsets           = std::move(new_offsets);
     _tensor.ndim               = _tensor._shape_ownership.size();
     return *this;
 }
@@ -706,11 +707,11 @@ ndarray bland::ndarray::unsqueeze(const int64_t unsqueeze_axis) {
             new_offsets.push_back(_tensor._offsets[axis-offset]);
         }
     }
-    _tensor._shape_ownership   = new_shape;
+    _tensor._shape_ownership   = std::move(new_shape);
     _tensor.shape              = _tensor._shape_ownership.data();
-    _tensor._strides_ownership = new_strides;
+    _tensor._strides_ownership = std::move(new_strides);
     _tensor.strides            = _tensor._strides_ownership.data();
-    _tensor._offsets           = new_offsets;
+    _tensor._offsets           = std::move(new_offsets);
     _tensor.ndim               = _tensor._shape_ownership.size();
     return *this;
 }
-- 
2.43.0


From f3f4356fd8d7e90feb2b8efb044854bd06cd9e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 36/56] fix: spectra are taken of the elements of an array, not
 of undefined memory

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index 0014878..af9f87e 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -3,22 +3,30 @@
 #include "internal/dispatcher.hpp"
 
 #include "bland/ndarray.hpp"
+#include "bland/ops/ops.hpp" // copy
 
 #include <fftw3.h>
 
 #include <fmt/format.h>
 
+#include <stdexcept>
+
 using namespace bland;
 using namespace bland::cpu;
 
 
 ndarray bland::cpu::fft(ndarray x, ndarray &out) {
-    fmt::print("WARN: cpu fft not implemented yet\n");
-    return out;
+    throw std::runtime_error("cpu fft is not implemented yet");
 }
 
 ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
     auto shape = x.shape();
+    if (shape.size() != 1 || shape[0] < 1) {
+        throw std::runtime_error("fft_shift_mag_square: only 1-dimensional, non-empty arrays are supported");
+    }
+    if (x.strides()[0] != 1 || x.offsets()[0] != 0) {
+        x = bland::copy(x); // the elements have to lie next to each other
+    }
     int N = shape[0];
     int half_N = floor(N/2) + 1;
 
-- 
2.43.0


From 702a967a03a4006df396b2a68f8f37f1fbc78db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 37/56] fix: squeezing a sliced axis keeps its offset

---
 bland/bland/ndarray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index f2e3d99..ab5b10c 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -681,6 +681,10 @@ ndarray bland::ndarray::squeeze(int64_t squeeze_axis) {
             new_offsets.push_back(_tensor._offsets[axis]);
         }
     }
+    if (!new_offsets.empty()) {
+        // The squeezed axis may be a slice that starts past the first element
+        new_offsets.back() += _tensor._offsets[squeeze_axis];
+    }
     _tensor._shape_ownership   = std::move(new_shape);
     _tensor.shape              = _tensor._shape_ownership.data();
     _tensor._strides_ownership = std::move(new_strides);
-- 
2.43.0


From 390b19ccc89020db006cbe3f5502ea27d5cbbb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 38/56] fix: broadcasting with an empty dimension gives an
 empty result

---
 bland/bland/internal/include/internal/shape_helpers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/internal/include/internal/shape_helpers.cpp b/bland/bland/internal/include/internal/shape_helpers.cpp
index 4efa388..96e67f3 100644
--- a/bland/bland/internal/include/internal/shape_helpers.cpp
+++ b/bland/bland/internal/include/internal/shape_helpers.cpp
@@ -21,7 +21,8 @@ std::vector<int64_t> bland::expand_shapes_to_broadcast(std::vector<int64_t> a_sh
             throw std::invalid_argument(error_message);
         }
 
-        out_shape[ndim - i - 1] = std::max(a_dim, b_dim);
+        // A dimension of 1 takes the size of the other one (also when that is 0)
+        out_shape[ndim - i - 1] = a_dim == 1 ? b_dim : a_dim;
     }
 
     return out_shape;
-- 
2.43.0


From 43150a83dd0596ee6a944c3fe5bbd95a857f526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 39/56] fix: refuse the median of an empty array

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 259f561..077c2ac 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -896,6 +896,9 @@ ndarray bland::cpu::standardized_moment(const ndarray &a, int degree, ndarray &o
 // TODO: generalize this to an ndarray op
 float bland::cpu::median(const ndarray &x, std::vector<int64_t> axes) {
     const size_t size = x.numel();
+    if (size == 0) {
+        throw std::runtime_error("median: there are no elements to take the median of");
+    }
 
     auto x_copy = bland::ndarray(x.shape(), x.dtype(), x.device());
     x_copy = cpu::copy(x, x_copy);
-- 
2.43.0


From 4d9fbf58415ce515c3de458b26365bbaef705c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 40/56] fix: give the fields of a scan without a file a value

A scan not built from a file (as the .dat reader makes) has fields that nothing
sets, so reading a file without header lines returned whatever was in memory.
---
 bliss/core/include/core/scan.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bliss/core/include/core/scan.hpp b/bliss/core/include/core/scan.hpp
index 982903c..f835a28 100644
--- a/bliss/core/include/core/scan.hpp
+++ b/bliss/core/include/core/scan.hpp
@@ -140,33 +140,33 @@ class scan {
     std::vector<std::function<coarse_channel(coarse_channel)>> _coarse_channel_pipeline;
 
     // Read from h5 file
-    double      _fch1;
-    double      _foff;
+    double      _fch1 = 0;
+    double      _foff = 0;
     std::optional<int64_t>     _machine_id;
-    int64_t     _nbits;
-    int64_t     _nchans;
-    int64_t     _nifs;
+    int64_t     _nbits = 0;
+    int64_t     _nchans = 0;
+    int64_t     _nifs = 0;
     std::string _source_name;
     std::optional<double>      _src_dej;
     std::optional<double>      _src_raj;
     std::optional<int64_t>     _telescope_id;
-    double      _tsamp;
-    double      _tstart;
+    double      _tsamp = 0;
+    double      _tstart = 0;
 
-    int64_t _data_type;
+    int64_t _data_type = 0;
     std::optional<double>  _az_start;
     std::optional<double>  _za_start;
 
 
     // Derived OR inferred
-    int _fine_channels_per_coarse;
+    int _fine_channels_per_coarse = 0;
     // Derived values at read-time
-    int64_t _num_coarse_channels;
+    int64_t _num_coarse_channels = 0;
     int64_t _coarse_channel_offset = 0;
 
     // slow time is number of spectra
-    int64_t _ntsteps;
-    double  _tduration_secs;
+    int64_t _ntsteps = 0;
+    double  _tduration_secs = 0;
 
     bland::ndarray::dev _device = bland::ndarray::dev::cpu;
 
-- 
2.43.0


From 87c915ebcd63341ce636e5f9c397b2486e1d2e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 41/56] fix: read .dat files without closing their descriptor
 twice

The stream buffer closed the descriptor that raii_file_for_read closes again, by
when it may be another thread's file, and a failing read was taken for the end
of the file.
---
 bliss/file_types/dat_file.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index 6427e0f..1fdc4ef 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -4,11 +4,13 @@
 
 #include <fmt/format.h>
 
-#include <cstdio>
-#include <ext/stdio_filebuf.h>
-#include <ios>
+#include <cerrno>
+#include <cstring> // strerror
 #include <regex>
+#include <sstream>
+#include <stdexcept>
 #include <string> // getline
+#include <unistd.h> // read
 
 using namespace bliss;
 
@@ -139,8 +141,18 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
 scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    auto in_buff   = __gnu_cxx::stdio_filebuf<char>(in_file._fd, std::ios::in);
-    auto in_stream = std::istream(&in_buff);
+    // in_file owns (and closes) its descriptor, and a read that fails is not the end of the file
+    std::string contents;
+    char        buffer[4096];
+    ssize_t     nread;
+    while ((nread = ::read(in_file._fd, buffer, sizeof(buffer))) != 0) {
+        if (nread > 0) {
+            contents.append(buffer, nread);
+        } else if (errno != EINTR) {
+            throw std::runtime_error(fmt::format("read_scan_hits_from_dat_file: could not read from file (error={})", strerror(errno)));
+        }
+    }
+    std::istringstream in_stream(contents);
 
     std::string line;
     std::regex  header_regex(R"(^#\s+MJD:\s+(\S+)\s+RA:\s+(\S+)\s+DEC:(\S+))");
-- 
2.43.0


From eb1b6b29c35556a765b8240e12440bfb1bb5f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 42/56] fix: read the channel width of .dat files in MHz, as it
 is written in Hz

---
 bliss/file_types/dat_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index 1fdc4ef..a6cd675 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -170,7 +170,7 @@ scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
             auto dej_sexagesimal = match[3];
         } else if (std::regex_search(line, match, tstart_regex)) {
             deserialized_scan.set_tsamp(std::stod(match[1]));
-            deserialized_scan.set_foff(std::stod(match[2]));
+            deserialized_scan.set_foff(std::stod(match[2]) / 1e6); // written in Hz
             // scan_data.max_drift_rate = match[3];
             // scan_data.obs_length = std::stod(match[4]);
         } else if (std::regex_search(line, match, data_regex)) {
-- 
2.43.0


From aff27153413924db1174b2698e0e37222a377eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 43/56] fix: scalarize the element of a slice, not the first of
 its array

---
 bland/bland/ndarray.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index ab5b10c..0239a6f 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -215,13 +215,21 @@ int64_t bland::ndarray::ndim() const {
 
 template <typename T>
 T bland::ndarray::scalarize() const {
+    if (numel() == 0) {
+        throw std::runtime_error("scalarize: There is no element. Cannot scalarize");
+    }
     if (numel() > 1) {
         throw std::runtime_error("scalarize: There is more than one element, so not a scalar. Cannot scalarize");
     }
     // You can only scalarize a cpu value...
     auto cpu_copy = bland::to(*this, "cpu");
     // TODO also check datatype makes sense to scalarize
-    return cpu_copy.data_ptr<T>()[0];
+    // The one element of a slice is found at its offsets
+    int64_t linear_offset = 0;
+    for (auto &offset : cpu_copy.offsets()) {
+        linear_offset += offset;
+    }
+    return cpu_copy.data_ptr<T>()[linear_offset];
 }
 
 template float    bland::ndarray::scalarize<float>() const;
-- 
2.43.0


From ae689405a393a2b206b51e60ef8c1b0e8cecc81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 44/56] fix: write the standard deviations of mean_stddev by
 their own array's layout

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 077c2ac..1ed783a 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -576,9 +576,16 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
                     out_mean_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_mean_strides[axis];
         }
 
+        // Both results have the same shape but may be laid out differently
+        int64_t out_stddev_linear_index = 0;
+        for (int axis = 0; axis < out_stddev_shape.size(); ++axis) {
+            out_stddev_linear_index +=
+                    out_stddev_offset[axis] + (out_mean_index[axis] % out_stddev_shape[axis]) * out_stddev_strides[axis];
+        }
+
         auto diff = std::max((accumulator_type)0, (accumulator_type)(accum_x2 - accum_x * accum_x));
-        out_mean_data[out_linear_index]   = static_cast<out_datatype>(accum_x);
-        out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
+        out_mean_data[out_linear_index]          = static_cast<out_datatype>(accum_x);
+        out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
         // Increment the multi-dimensional output index
         for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
@@ -715,9 +722,15 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             if (elements_in_dev == 0) {
                 throw std::runtime_error("masked_stddev: there are no non-masked elements to take the mean of");
             }
+            // Both results have the same shape but may be laid out differently
+            int64_t out_stddev_linear_index = 0;
+            for (int axis = 0; axis < out_stddev_shape.size(); ++axis) {
+                out_stddev_linear_index += out_stddev_offset[axis] + (out_mean_index[axis] % out_stddev_shape[axis]) * out_stddev_strides[axis];
+            }
+
             auto mean = accum_x / elements_in_dev;
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From 9398190198c0569dc376ef62ad37c8f1bf6c5177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 45/56] fix: var writes its result to the array given for it

---
 bland/bland/ops/statistical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/statistical.cpp b/bland/bland/ops/statistical.cpp
index 09aee62..77eeca6 100644
--- a/bland/bland/ops/statistical.cpp
+++ b/bland/bland/ops/statistical.cpp
@@ -325,7 +325,7 @@ std::pair<ndarray, ndarray> bland::masked_mean_stddev(const ndarray &a, const nd
 // TODO: we have a cuda var, implement a cpu one and dispatch appropriately...
 ndarray bland::var(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
     stddev(a, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
     auto out = stddev(a, reduced_axes);
@@ -334,7 +334,7 @@ ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
 
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, ndarray &out, std::vector<int64_t> reduced_axes) {
     masked_stddev(a, mask, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, std::vector<int64_t> reduced_axes) {
     auto out = masked_stddev(a, mask, reduced_axes);
-- 
2.43.0


From c2aa5dbe27e5d634c2e4ce40d527ba09446e70f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 46/56] fix: the masked standard deviation of equal values is
 zero, not NaN

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 1ed783a..b760e16 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -458,7 +458,8 @@ struct masked_stddev_impl {
                 throw std::runtime_error("masked_stddev: there are no non-masked elements to take the mean of");
             }
             auto mean = accum_x / elements_in_dev;
-            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            auto diff = std::max((accumulator_type)(accum_x2 / elements_in_dev - mean*mean), (accumulator_type) 0); // rounding may take it below
+            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
             // Increment the multi-dimensional output index
             for (int axis = out_shape.size() - 1; axis >= 0; --axis) {
@@ -729,8 +730,9 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             }
 
             auto mean = accum_x / elements_in_dev;
+            auto diff = std::max((accumulator_type)(accum_x2 / elements_in_dev - mean*mean), (accumulator_type) 0); // rounding may take it below
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From e6392de0228ca733efc1f9119ec502bfdd74ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 47/56] fix: do not compare a candidate local maximum with
 itself

The neighbourhood of a candidate included the candidate, which is never greater
than itself, so the local maxima search found nothing at any distance above 0.
---
 bliss/drift_search/kernels/local_maxima_cpu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index 04df535..c2b3798 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -55,6 +55,9 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
                 bool neighborhood_max = true;
                 for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
                     for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                        if (freq_neighbor_offset == 0 && drift_neighbor_offset == 0) {
+                            continue; // the candidate is not its own neighbor
+                        }
                         auto neighbor_coord = curr_coord;
 
                         neighbor_coord.drift_index += drift_neighbor_offset;
-- 
2.43.0


From 2777bd062880d2fae791fc6f352ec3cfa37a09ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 48/56] fix: arrays moved between cpu devices keep their
 elements, also of slices

Moving a slice copied as many bytes from the start of the storage it was taken from.
---
 bland/bland/ops/ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index 7e3b7b4..5c74cdf 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -108,7 +108,7 @@ ndarray bland::to(ndarray src, DLDevice dest_dev) {
         } else if (dest_dev.device_type == ndarray::dev::cpu.device_type) {
             if (source_dev.device_id != dest_dev.device_id) {
                 // cpu -> cpu, but different device_id, probably a numa thing
-                memcpy(dst_ptr, src_ptr, copy_size);
+                cpu::copy(src, dst);
             } else {
                 // should not get here (should have returned the src as our result since no copy is required)
                 throw std::runtime_error("bland to: cpu->cpu reached unexpected code path");
-- 
2.43.0


From e374f61c29670c37987e4775d60bc7bc72ebf135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:15 +0000
Subject: [PATCH 49/56] fix: masks read without a count cover the same window
 the data does

---
 bliss/file_types/h5_filterbank_file.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 92e668e..f53dfe5 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -419,6 +419,13 @@ bland::ndarray bliss::h5_filterbank_file::read_mask(std::vector<int64_t> offset,
     //     mask_grid = mask_grid.squeeze(1); // squeeze out the feed_id
     //     return mask_grid;
     // } else {
+        if (count.empty()) {
+            // the same extent a window of the data has when no count is given
+            count = get_data_shape();
+            for (size_t dim = 0; dim < offset.size(); ++dim) {
+                count[dim] -= offset[dim];
+            }
+        }
         // The file has no "mask" dataset, it's typically zeros anyway so just allocate the appropriate number of uint8 zeros
         auto mask_grid = bland::zeros(count, bland::ndarray::datatype::uint8, bland::ndarray::dev::cpu);
         mask_grid = mask_grid.squeeze(1); // squeeze out the feed_id
-- 
2.43.0


From aca9777e840bbe36ca522e81c33528c9af12c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 50/56] fix: drifts that leave the channel, or a single
 spectrum, no longer index outside it

---
 bliss/drift_search/integrate_drifts.cpp              | 3 ++-
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/bliss/drift_search/integrate_drifts.cpp b/bliss/drift_search/integrate_drifts.cpp
index 9cc63db..5c27c61 100644
--- a/bliss/drift_search/integrate_drifts.cpp
+++ b/bliss/drift_search/integrate_drifts.cpp
@@ -29,7 +29,8 @@ std::vector<frequency_drift_plane::drift_rate> compute_drifts(int time_steps, do
         rate.drift_channels_span = drift_channels;
 
         // The actual slope of that drift (number channels / time)
-        auto m = static_cast<float>(drift_channels) / static_cast<float>(maximum_drift_span);
+        // (nothing drifts within a single time step)
+        auto m = maximum_drift_span > 0 ? static_cast<float>(drift_channels) / static_cast<float>(maximum_drift_span) : 0.0F;
 
         rate.drift_rate_slope = m;
         rate.drift_rate_Hz_per_sec = m * foff * 1e6 / tsamp;
diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index 75b3c47..e4b30c8 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -67,8 +67,9 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
 
                     int64_t spectrum_freq_slice_start  = channel_offset;
                     int64_t spectrum_freq_slice_end    = number_channels;
-                    if (spectrum_freq_slice_start > spectrum_shape[1]) {
-                        fmt::print("ERROR: drift integration might be going out of bounds. Report this condition");
+                    if (spectrum_freq_slice_start >= spectrum_shape[1]) {
+                        // The drift leaves the channel before this time, there is nothing left to integrate
+                        continue;
                     }
 
                     auto   number_channels = drift_freq_slice_end - drift_freq_slice_start;
@@ -119,6 +120,10 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         spectrum_freq_slice_start -= offset_amount;
                         drift_freq_slice_start -= offset_amount;
                     }
+                    if (drift_freq_slice_start >= drift_freq_slice_end) {
+                        // The drift spans more than the channel, there is nothing to integrate
+                        continue;
+                    }
 
                     auto   number_channels = drift_freq_slice_end - drift_freq_slice_start;
                     size_t drift_plane_index =
-- 
2.43.0


From 38bbf80fe26495438142acf186543053b2411f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 51/56] fix: drift options that leave no rate to search are
 refused

---
 bliss/drift_search/integrate_drifts.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/drift_search/integrate_drifts.cpp b/bliss/drift_search/integrate_drifts.cpp
index 5c27c61..715d38d 100644
--- a/bliss/drift_search/integrate_drifts.cpp
+++ b/bliss/drift_search/integrate_drifts.cpp
@@ -11,6 +11,8 @@
 #include <fmt/core.h>
 #include <fmt/ranges.h>
 
+#include <stdexcept>
+
 using namespace bliss;
 
 std::vector<frequency_drift_plane::drift_rate> compute_drifts(int time_steps, double foff, double tsamp, integrate_drifts_options options) {
@@ -54,6 +56,10 @@ coarse_channel bliss::integrate_drifts(coarse_channel cc_data, integrate_drifts_
 
     auto drifts = compute_drifts(cc_data.ntsteps(), cc_data.foff(), cc_data.tsamp(), options);
 
+    if (drifts.empty()) {
+        throw std::runtime_error("integrate_drifts: the options leave no drift rate to search");
+    }
+
     fmt::print("INFO: Searching drift rates from {}Hz/sec to {}Hz/sec\n",
                drifts.front().drift_rate_Hz_per_sec,
                drifts.back().drift_rate_Hz_per_sec);
-- 
2.43.0


From 69bc26da7c0d135c2804cc544b15d2bf06e6f83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 52/56] fix: bliss_find_hits exits with an error if its command
 line cannot be parsed

---
 bliss/bliss_find_hits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index 06ee227..ea742b3 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -107,7 +107,7 @@ int main(int argc, char *argv[]) {
 
     if (!parse_result || help) {
         std::cout << clipp::make_man_page(cli, "bliss_find_hits");
-        return 0;
+        return help ? 0 : 1;
     }
 
     auto pipeline_object = bliss::observation_target(pipeline_files, nchan_per_coarse);
-- 
2.43.0


From 66f19c58d13dcfb76e27ad2df8f215b906332ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 53/56] fix: bliss_generate_channelizer_response exits with an
 error if its command line cannot be parsed

---
 bliss/bliss_generate_channelizer_response.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/bliss_generate_channelizer_response.cpp b/bliss/bliss_generate_channelizer_response.cpp
index a51f308..b927775 100644
--- a/bliss/bliss_generate_channelizer_response.cpp
+++ b/bliss/bliss_generate_channelizer_response.cpp
@@ -62,7 +62,7 @@ int main(int argc, char *argv[]) {
         "GBT: ./bliss_generate_channelizer_response -f 1048576 -N 12 -M 256\n");
 
         std::cout << man_page;
-        return 0;
+        return help ? 0 : 1;
     }
 
     // auto h_resp = bliss::gen_coarse_channel_response(131072, 2048, 4);
-- 
2.43.0


From 6e051f5997f44b5571dc2ab1895537c1140489b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 54/56] fix: bliss_hits_to_dat exits with an error if its input
 is missing or its command line cannot be parsed

---
 bliss/bliss_hits_to_dat.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bliss/bliss_hits_to_dat.cpp b/bliss/bliss_hits_to_dat.cpp
index 8773be5..c9c34bc 100644
--- a/bliss/bliss_hits_to_dat.cpp
+++ b/bliss/bliss_hits_to_dat.cpp
@@ -40,13 +40,12 @@ int main(int argc, char *argv[]) {
 
     auto parse_result = clipp::parse(argc, argv, cli);
 
-    if (input_file.empty()) {
+    if (input_file.empty() && !help) {
         fmt::print("Missing an input file. Use '-i' or '--input' to provide a file to convert.\n");
-        help = true;
     }
-    if (!parse_result || help) {
+    if (!parse_result || help || input_file.empty()) {
         std::cout << clipp::make_man_page(cli, "bliss_hits_to_dat");
-        return 0;
+        return help ? 0 : 1;
     }
 
     if (output_path.empty()) {
-- 
2.43.0


From bf8913518cb5e89ef5ea241faa7e1fb790c73d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:04 +0000
Subject: [PATCH 55/56] fix: bliss_find_hits does not take an option that
 follows the output file for its format

---
 bliss/bliss_find_hits.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index ea742b3..6375a2c 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -57,6 +57,9 @@ int main(int argc, char *argv[]) {
         float sigmaclip_low = 3;
         float sigmaclip_high = 4;
     } flag_options;
+    // An option that follows the output file is not its format
+    auto no_option = [](const std::string &arg) { return !arg.empty() && arg.front() != '-'; };
+
     bool help = false;
     auto cli = (
         (
@@ -97,7 +100,7 @@ int main(int argc, char *argv[]) {
             (clipp::option("-s", "--snr") & clipp::value("snr_threshold").set(hit_search_options.snr_threshold)) % "SNR threshold (10)",
             (clipp::option("--distance") & clipp::value("l1_distance").set(hit_search_options.neighbor_l1_dist)) % "L1 distance to consider hits connected (7)",
 
-            (clipp::option("-o", "--output") & (clipp::value("output_file").set(output_path), clipp::opt_value("format").set(output_format))) % "Filename to store output"
+            (clipp::option("-o", "--output") & (clipp::value("output_file").set(output_path), clipp::opt_value(no_option, "format").set(output_format))) % "Filename to store output"
         )
         |
         clipp::option("-h", "--help").set(help) % "Show this screen."
-- 
2.43.0


From 776bef9d114cdb55de81fbecb88cb28062b03ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:28 +0000
Subject: [PATCH 56/56] fix: a memoising deferred array keeps its producer if
 its first result cannot be held on to

Storing the result copies an array, which allocates. When that failed the
shared variant was left without a value and every later request, also of
copies of the array, failed with bad_variant_access.
---
 bland/bland/ndarray_deferred.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ndarray_deferred.cpp b/bland/bland/ndarray_deferred.cpp
index caed8af..4f63c14 100644
--- a/bland/bland/ndarray_deferred.cpp
+++ b/bland/bland/ndarray_deferred.cpp
@@ -50,7 +50,18 @@ bland::ndarray_deferred::operator ndarray() {
     }
 
     if (_policy == eval_policy::memoize) {
-        *_deferred_data = actual_data;
+        if (auto callable = std::get_if<std::function<ndarray()>>(_deferred_data.get())) {
+            // copying an array allocates: if that fails the callable stays, to be evaluated again when next asked
+            auto kept_callable = std::move(*callable);
+            try {
+                *_deferred_data = actual_data;
+            } catch (...) {
+                *_deferred_data = std::move(kept_callable);
+                throw;
+            }
+        } else {
+            *_deferred_data = actual_data;
+        }
     }
 
     return actual_data;
-- 
2.43.0

