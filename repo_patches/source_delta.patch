From b7392a7b8c6cc4095c8fa6792054641311bbb74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 01/30] fix: list the known constituents in the order of their
 identifiers

The wave tables store the waves in the order of constituents::known() and
index them by Constituent; the two orders differed for the last eight waves.
---
 src/library/constituent.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/constituent.cpp b/src/library/constituent.cpp
index ec5e528..30f1e47 100644
--- a/src/library/constituent.cpp
+++ b/src/library/constituent.cpp
@@ -37,9 +37,9 @@ auto known() -> std::vector<std::string> {
           wave::name::kMSN6, wave::name::k2MS6, wave::name::k2MK6,
           wave::name::k2SM6, wave::name::kMSK6, wave::name::kS6,
           wave::name::kM8,   wave::name::kMSf,  wave::name::kSsa,
-          wave::name::kSa,   wave::name::kA5,   wave::name::kSa1,
-          wave::name::kSta,  wave::name::kMm2,  wave::name::kMm1,
-          wave::name::kMf1,  wave::name::kMf2,  wave::name::kM0};
+          wave::name::kSa,   wave::name::kSa1,  wave::name::kSta,
+          wave::name::kMm1,  wave::name::kMf1,  wave::name::kA5,
+          wave::name::kM0,   wave::name::kMm2,  wave::name::kMf2};
 }
 
 inline auto iequals(const std::string& a, const std::string& b) -> bool {
-- 
2.43.0


From af0531f2348bd774881bd7309a41fe776a0aeded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 02/30] fix: parallel_for divided by zero when there is nothing
 to process

---
 include/fes/detail/thread.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index e71add6..798a23d 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -5,6 +5,9 @@
 /// @file include/fes/detail/thread.hpp
 /// @brief Parallelization
 #pragma once
+#include <algorithm>
+#include <cstddef>
+#include <exception>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -23,9 +26,15 @@ namespace detail {
 template <typename Lambda>
 void parallel_for(const Lambda& callable, const size_t size,
                   size_t num_threads) {
-  // If num_threads is 0, use all CPUs
+  // Nothing to do
+  if (size == 0) {
+    return;
+  }
+
+  // If num_threads is 0, use all CPUs (the number of CPUs may be unknown)
   if (num_threads == 0) {
-    num_threads = std::thread::hardware_concurrency();
+    num_threads =
+        std::max<size_t>(std::thread::hardware_concurrency(), size_t(1));
   }
 
   // Adjust num_threads to not exceed the size
-- 
2.43.0


From 2c10d4eda6023073e0774415ce1817552189c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 03/30] fix: protect the exception shared by the threads of
 parallel_for

---
 include/fes/detail/thread.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index 798a23d..43b1f0a 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <exception>
+#include <mutex>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -49,6 +50,7 @@ void parallel_for(const Lambda& callable, const size_t size,
   // List of threads responsible for parallelizing the calculation
   std::vector<std::thread> threads;
   std::exception_ptr exception = nullptr;
+  std::mutex exception_mutex;
 
   // Access index to the vectors required for calculation
   size_t start = 0;
@@ -59,10 +61,11 @@ void parallel_for(const Lambda& callable, const size_t size,
   // Launch threads
   for (size_t ix = 0; ix < num_threads; ++ix) {
     size_t end = (ix == num_threads - 1) ? size : start + shift;
-    threads.emplace_back([&callable, start, end, &exception]() {
+    threads.emplace_back([&callable, start, end, &exception, &exception_mutex]() {
       try {
         callable(start, end);
       } catch (...) {
+        std::lock_guard<std::mutex> lock(exception_mutex);
         exception = std::current_exception();
       }
     });
-- 
2.43.0


From fb3a1d39c7fb27bd298e09a0846a9197258d5781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 04/30] fix: copying a wave table shared its waves with the
 original

Predicting tides from a constant table changed the waves of the caller, and
the threads of tide_from_mapping modified the same waves concurrently.
---
 include/fes/wave/table.hpp | 17 +++++++++++++++++
 src/library/wave/table.cpp | 22 ++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/include/fes/wave/table.hpp b/include/fes/wave/table.hpp
index 31ca1a8..57bac7f 100644
--- a/include/fes/wave/table.hpp
+++ b/include/fes/wave/table.hpp
@@ -120,6 +120,23 @@ class Table {
   /// Build a table from a list of constituent identifiers
   explicit Table(const std::vector<Constituent>& waves);
 
+  /// Default destructor
+  ~Table() = default;
+
+  /// Copy constructor. The waves of the copy are independent of the waves of
+  /// the original.
+  Table(const Table& other);
+
+  /// Copy assignment operator. The waves of the copy are independent of the
+  /// waves of the original.
+  auto operator=(const Table& other) -> Table&;
+
+  /// Move constructor
+  Table(Table&&) noexcept = default;
+
+  /// Move assignment operator
+  auto operator=(Table&&) noexcept -> Table& = default;
+
   /// Create a wave properties from its identifier
   /// @param[in] ident Wave identifier
   /// @return Wave properties
diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 3c4536c..0332730 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -226,6 +226,28 @@ Table::Table(const std::vector<Constituent>& waves) {
   *this = Table(wave_names);
 }
 
+Table::Table(const Table& other)
+    : getter_(other.getter_), wave_index_(other.wave_index_) {
+  // Each wave has its own tide and nodal corrections: they must not be shared
+  // with the waves of the original.
+  waves_.reserve(other.waves_.size());
+  for (const auto& item : other.waves_) {
+    auto wave = std::shared_ptr<Wave>();
+    if (item) {
+      wave = Table::wave_factory(item->ident());
+      *wave = *item;
+    }
+    waves_.emplace_back(std::move(wave));
+  }
+}
+
+auto Table::operator=(const Table& other) -> Table& {
+  if (this != &other) {
+    *this = Table(other);
+  }
+  return *this;
+}
+
 void Table::admittance() {
   // Arrays who contains the spline coefficients needed to compute MU2, NU2,
   // L2, T2 and Lambda2 by admittance.
-- 
2.43.0


From bfde07ba0d43f2e0c2d358ea0c4b321f64ce9ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 05/30] fix: tide_from_mapping accumulated the tide in
 uninitialized memory

---
 src/library/wave/table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 0332730..b83583e 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -439,7 +439,7 @@ auto Table::tide_from_mapping(const double epoch, const uint16_t leap_seconds,
         "wave must contain as many elements as the number of waves in the "
         "table");
   }
-  auto result = Eigen::MatrixXd(wave.cols(), wave.rows());
+  Eigen::MatrixXd result = Eigen::MatrixXd::Zero(wave.cols(), wave.rows());
   auto worker = [&](const int64_t start, const int64_t end) {
     // The wave properties of the object must be immutable for the provided
     // instance.
-- 
2.43.0


From 3e59e58322d3abf73f898b278d65cb1481c258f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:56 +0000
Subject: [PATCH 06/30] fix: wrong node used to extrapolate first-order LGP
 models

The codes of a first-order element are those of its three vertices: reading
the code at twice the index of the vertex used another node, or memory
outside the row.
---
 include/fes/tidal_model/lgp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index f94361c..ea5db98 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -369,13 +369,13 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
 
   // In the case of extrapolation, if the projected point is one of the vertices
   // of the triangle, then we return values associated with this vertex. The
-  // LGP code of vertex 0 is at index 0, the code of vertex 1 is at index 2 and
-  // the code of vertex 3 is at index 4.
+  // LGP code of vertex i is at index i for first-order elements, and at index
+  // 2i for second-order elements.
   auto vertex_id =
       selected_triangle.triangle.is_vertex(selected_triangle.point);
   if (vertex_id != -1) {
     for (const auto& item : this->data_) {
-      const auto value = item.second(codes(vertex_id << 1));
+      const auto value = item.second(codes(vertex_id * N));
       lgp_acc->emplace_back(item.first, static_cast<std::complex<T>>(value));
     }
     quality = Quality::kExtrapolated1;
-- 
2.43.0


From 0c43a112995d3a1ff36ffa0b41e773bf50305296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:56 +0000
Subject: [PATCH 07/30] fix: an undefined date reused the angles of the
 previous one

---
 include/fes/abstract_tidal_model.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index 6301d88..809db21 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -103,7 +103,9 @@ class Accelerator {
   /// @return The astronomic angle corresponding to the given UTC time.
   auto calculate_angle(const double epoch, const uint16_t leap_seconds) noexcept
       -> const angle::Astronomic& {
-    if (std::abs(epoch - angle_.first) > time_tolerance_) {
+    // The condition is written so that an undefined date (NaN) never reuses
+    // the angles of another date.
+    if (!(std::abs(epoch - angle_.first) <= time_tolerance_)) {
       angle_.first = epoch;
       angle_.second.update(epoch, leap_seconds);
     }
-- 
2.43.0


From cfe5662acdef5204963b6155aef2874a34b26b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 08/30] fix: isviewstream::readview accepted sizes that are
 negative or beyond 2 GB

A negative size gave a view outside the stream without any error, and moving
forward by more than INT_MAX characters moved the position backwards.
---
 include/fes/detail/isviewstream.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/fes/detail/isviewstream.hpp b/include/fes/detail/isviewstream.hpp
index 6641b14..6dca233 100644
--- a/include/fes/detail/isviewstream.hpp
+++ b/include/fes/detail/isviewstream.hpp
@@ -47,7 +47,7 @@ class sviewbuf : public std::streambuf {
   auto seekoff(off_type off, std::ios_base::seekdir dir,
                std::ios_base::openmode /*which*/) -> pos_type override {
     if (dir == std::ios_base::cur) {
-      gbump(static_cast<int>(off));
+      setg(eback(), gptr() + off, egptr());
     } else if (dir == std::ios_base::end) {
       setg(eback(), egptr() + off, egptr());
     } else if (dir == std::ios_base::beg) {
@@ -84,15 +84,21 @@ class isviewstream : private virtual sviewbuf, public std::istream {
   /// @param[in] count The number of characters to extract.
   /// @return The string_view.
   auto readview(const std::streamsize count) -> string_view {
-    auto avail = this->egptr() - this->gptr();
-    auto size = std::min(count, avail);
+    auto avail = this->available();
+    // A size that does not fit in a signed integer is read as a negative value.
+    auto size = count < 0 ? avail : std::min(count, avail);
     auto result = string_view(gptr(), size);
     seekoff(size, std::ios_base::cur, std::ios_base::in);
-    if (avail < count) {
+    if (size != count) {
       setstate(std::ios_base::badbit | std::ios_base::failbit);
     }
     return result;
   }
+
+  /// Number of characters that remain to be read from the stream.
+  auto available() const -> std::streamsize {
+    return this->egptr() - this->gptr();
+  }
 };
 
 }  // namespace detail
-- 
2.43.0


From 80269c9f3883da787a75712995a8f8ea69a6c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 09/30] fix: dimensions read from a serialized state were not
 checked

Inconsistent dimensions led to a write outside the matrix allocated.
---
 include/fes/detail/serialize.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index 9671f1d..43aef6c 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -8,6 +8,7 @@
 #include <Eigen/Core>
 #include <map>
 #include <sstream>
+#include <stdexcept>
 
 #include "fes/detail/isviewstream.hpp"
 
@@ -76,6 +77,14 @@ template <typename T, int ROWS, int COLS>
 auto read_matrix(detail::isviewstream& ss) -> Eigen::Matrix<T, ROWS, COLS> {
   auto rows = read_data<Eigen::Index>(ss);
   auto cols = read_data<Eigen::Index>(ss);
+  // The dimensions must match the type of the matrix, and its coefficients must
+  // be available in the stream.
+  const auto available = ss.available() / static_cast<Eigen::Index>(sizeof(T));
+  if (rows < 0 || cols < 0 || (ROWS != Eigen::Dynamic && rows != ROWS) ||
+      (COLS != Eigen::Dynamic && cols != COLS) ||
+      (cols != 0 && rows > available / cols)) {
+    throw std::runtime_error("invalid matrix dimensions");
+  }
   auto data = Eigen::Matrix<T, ROWS, COLS>(rows, cols);
   ss.read(reinterpret_cast<char*>(data.data()), data.size() * sizeof(T));
   return data;
@@ -106,6 +115,9 @@ template <typename T, typename U>
 auto read_constituent_map(detail::isviewstream& ss)
     -> std::map<T, Eigen::Matrix<U, Eigen::Dynamic, 1>> {
   auto size = read_data<Eigen::Index>(ss);
+  if (size < 0) {
+    throw std::runtime_error("invalid number of constituents");
+  }
   auto data = std::map<T, Eigen::Matrix<U, Eigen::Dynamic, 1>>{};
   for (auto ix = 0; ix < size; ++ix) {
     auto constituent = read_data<T>(ss);
-- 
2.43.0


From a7ba3ddba7a7d27ca3564e7fd63bcbad84023e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 10/30] fix: LGP models restored from a state were inconsistent

The number of values expected for a constituent was not restored, so that no
constituent could be added to a restored model, and the codes, constituents
and tide type read from the state were not checked.
---
 include/fes/abstract_tidal_model.hpp | 18 ++++++++++++++++++
 include/fes/tidal_model/lgp.hpp      | 12 ++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index 809db21..d7def1a 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -7,6 +7,7 @@
 #pragma once
 #include <complex>
 #include <map>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -243,6 +244,23 @@ class AbstractTidalModel
   constexpr auto tide_type() const -> TideType { return tide_type_; }
 
  protected:
+  /// Check the consistency of the data read from a serialized state.
+  ///
+  /// @param[in] expected_size The number of values expected for each
+  /// constituent.
+  auto check_state(const Eigen::Index expected_size) const -> void {
+    if (tide_type_ != TideType::kTide && tide_type_ != TideType::kRadial) {
+      throw std::invalid_argument("unknown tide type");
+    }
+    for (const auto& item : data_) {
+      // Throws an exception if the constituent is unknown.
+      constituents::name(item.first);
+      if (item.second.size() != expected_size) {
+        throw std::invalid_argument("wave size does not match expected size");
+      }
+    }
+  }
+
   /// Tidal constituents handled by the model.
   std::map<Constituent, Vector<std::complex<T>>> data_{};
 
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index ea5db98..93d3538 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -193,6 +193,10 @@ class LGP : public fes::AbstractTidalModel<T> {
 
   /// %LGP codes for each triangles in the index
   codes_t codes_{};
+
+  /// @brief Check the consistency of the codes and of the index, and determine
+  /// the number of values expected for each constituent.
+  auto initialize() -> void;
 };
 
 /// @brief %LGP1 tidal model.
@@ -310,6 +314,12 @@ LGP<T, N>::LGP(std::shared_ptr<mesh::Index> index, LGP::codes_t codes,
       index_(std::move(index)),
       max_distance_(max_distance),
       codes_(std::move(codes)) {
+  initialize();
+}
+
+// /////////////////////////////////////////////////////////////////////////////
+template <typename T, int N>
+auto LGP<T, N>::initialize() -> void {
   // The number of triangles in the index must match the number of LGP codes
   // provided.
   if (index_->n_triangles() != static_cast<size_t>(codes_.rows())) {
@@ -427,6 +437,8 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
   this->codes_ = detail::serialize::read_matrix<int, Eigen::Dynamic, N * 3>(ss);
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
+  initialize();
+  this->check_state(expected_data_size_);
 }
 
 }  // namespace tidal_model
-- 
2.43.0


From fe0ae43813af76cebefc4b705f3f70fbe5e04086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 11/30] fix: Cartesian models accepted states with constituents
 of the wrong size

---
 include/fes/tidal_model/cartesian.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index ae91dbe..b177e4a 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -186,6 +186,7 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
     model.data_ =
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
+    model.check_state(model.lon_.size() * model.lat_.size());
     return model;
   } catch (const std::exception&) {
     throw std::invalid_argument("invalid tidal model state");
-- 
2.43.0


From 1a8289683cb8f9604675a36ce34b8688f7d11514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 12/30] fix: Axis accepted states that do not describe an axis

---
 src/library/axis.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index fffcd8f..7135f82 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -4,6 +4,9 @@
 // BSD-style license that can be found in the LICENSE file.
 #include "fes/axis.hpp"
 
+#include <cmath>
+#include <stdexcept>
+
 #include "fes/detail/isviewstream.hpp"
 #include "fes/detail/math.hpp"
 #include "fes/detail/serialize.hpp"
@@ -157,6 +160,11 @@ auto Axis::setstate(const string_view& data) -> Axis {
     auto start = detail::serialize::read_data<double>(ss);
     auto size = detail::serialize::read_data<int64_t>(ss);
     auto step = detail::serialize::read_data<double>(ss);
+    // An axis contains at least two distinct values.
+    if (size < 2 || !std::isfinite(start) || !std::isfinite(step) ||
+        step == 0 || is_ascending != (step > 0)) {
+      throw std::invalid_argument("invalid axis state");
+    }
     return Axis(is_circular, is_ascending, start, size, step);
   } catch (const std::ios_base::failure&) {
     throw std::invalid_argument("invalid axis state");
-- 
2.43.0


From a39519d636cf311244d508ba2c2a68503a02d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 13/30] fix: the state of a tidal model lost its list of
 dynamic constituents

A model restored from its state (pickle) counted these constituents twice, in
the model and in the long-period equilibrium tide.
---
 include/fes/abstract_tidal_model.hpp  |  3 +++
 include/fes/detail/serialize.hpp      | 29 +++++++++++++++++++++++++++
 include/fes/tidal_model/cartesian.hpp |  2 ++
 include/fes/tidal_model/lgp.hpp       |  2 ++
 4 files changed, 36 insertions(+)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index d7def1a..9e176f6 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -259,6 +259,9 @@ class AbstractTidalModel
         throw std::invalid_argument("wave size does not match expected size");
       }
     }
+    for (const auto& item : dynamic_) {
+      constituents::name(item);
+    }
   }
 
   /// Tidal constituents handled by the model.
diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index 43aef6c..c16d6cd 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -9,6 +9,7 @@
 #include <map>
 #include <sstream>
 #include <stdexcept>
+#include <vector>
 
 #include "fes/detail/isviewstream.hpp"
 
@@ -127,6 +128,34 @@ auto read_constituent_map(detail::isviewstream& ss)
   return data;
 }
 
+/// @brief Write a vector to a stringstream.
+///
+/// @tparam T The type of the elements.
+/// @param[in,out] ss The stringstream to write to.
+/// @param[in] data The vector to write.
+template <typename T>
+auto write_vector(std::stringstream& ss, const std::vector<T>& data) -> void {
+  write_data(ss, data.size());
+  for (const auto& item : data) {
+    write_data(ss, item);
+  }
+}
+
+/// @brief Read a vector from a stringstream.
+///
+/// @tparam T The type of the elements.
+/// @param[in,out] ss The stringstream to read from.
+/// @return The vector.
+template <typename T>
+auto read_vector(detail::isviewstream& ss) -> std::vector<T> {
+  auto size = read_data<size_t>(ss);
+  auto data = std::vector<T>{};
+  for (size_t ix = 0; ix < size; ++ix) {
+    data.push_back(read_data<T>(ss));
+  }
+  return data;
+}
+
 }  // namespace serialize
 }  // namespace detail
 }  // namespace fes
diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index b177e4a..82f19e2 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -169,6 +169,7 @@ auto Cartesian<T>::getstate() const -> std::string {
   detail::serialize::write_string(ss, lat_.getstate());
   detail::serialize::write_data(ss, this->tide_type_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_vector(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -186,6 +187,7 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
     model.data_ =
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
+    model.dynamic_ = detail::serialize::read_vector<Constituent>(ss);
     model.check_state(model.lon_.size() * model.lat_.size());
     return model;
   } catch (const std::exception&) {
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 93d3538..306f5e8 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -423,6 +423,7 @@ auto LGP<T, N>::getstate() const -> std::string {
   detail::serialize::write_data(ss, max_distance_);
   detail::serialize::write_matrix<int, Eigen::Dynamic, N * 3>(ss, codes_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_vector(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -437,6 +438,7 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
   this->codes_ = detail::serialize::read_matrix<int, Eigen::Dynamic, N * 3>(ss);
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
+  this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
   initialize();
   this->check_state(expected_data_size_);
 }
-- 
2.43.0


From eb806258be4383702e50c3706a5ab7d587ca1ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 14/30] fix: undefined coordinates were located on circular
 axes

An undefined longitude was located between the last and the first point of a
circular axis, and interpolated values were flagged as valid.
---
 include/fes/axis.hpp | 12 ++++++++----
 src/library/axis.cpp |  3 +++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/fes/axis.hpp b/include/fes/axis.hpp
index 363c9cd..2a49594 100644
--- a/include/fes/axis.hpp
+++ b/include/fes/axis.hpp
@@ -114,15 +114,19 @@ class Axis : public std::enable_shared_from_this<Axis> {
   FES_MATH_CONSTEXPR auto find_index(const double coordinate,
                                      const bool bounded = false) const noexcept
       -> int64_t {
-    auto index = static_cast<int64_t>(
-        std::round((normalize_coordinate(coordinate) - start_) / step_));
+    const auto index =
+        std::round((normalize_coordinate(coordinate) - start_) / step_);
+    // An undefined coordinate is never on the axis.
+    if (std::isnan(index)) {
+      return -1;
+    }
     if (index < 0) {
       return bounded ? 0 : -1;
     }
-    if (index >= this->size_) {
+    if (index >= static_cast<double>(this->size_)) {
       return bounded ? this->size_ - 1 : -1;
     }
-    return index;
+    return static_cast<int64_t>(index);
   }
 
   /// @brief Given a coordinate position, find grids elements around it.
diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index 7135f82..7f75b62 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -100,6 +100,9 @@ auto Axis::find_indices(double coordinate) const
   using optional_t = boost::optional<std::tuple<int64_t, int64_t>>;
 
   coordinate = normalize_coordinate(coordinate);
+  if (std::isnan(coordinate)) {
+    return {};
+  }
 
   auto length = size_;
   auto i0 = find_index(coordinate, false);
-- 
2.43.0


From c3e05caed9a79e7c4839cf052d26d289f3bd5e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 15/30] fix: interpolation in the closing cell of a descending
 circular axis

In half of the cell between the last and the first point of such an axis, the
weights were those of the rest of the circle.
---
 include/fes/tidal_model/cartesian.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 82f19e2..0f1e6ed 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -131,15 +131,23 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   int64_t j2;
   std::tie(i1, i2) = *lon_index;
   std::tie(j1, j2) = *lat_index;
-  const auto x1 = lon_(i1);
-  const auto x2 = lon_(i2);
+  auto x1 = lon_(i1);
+  auto x = detail::math::normalize_angle(point.lon(), x1);
+  auto x2 = detail::math::normalize_angle(lon_(i2), x1);
+  if (!lon_.is_ascending() && x > x2) {
+    // The point is on the other side of the circle (cell between the last and
+    // the first point of a descending axis).
+    std::swap(i1, i2);
+    x1 = lon_(i1);
+    x = detail::math::normalize_angle(point.lon(), x1);
+    x2 = detail::math::normalize_angle(lon_(i2), x1);
+  }
   const auto y1 = lat_(j1);
   const auto y2 = lat_(j2);
   auto n = int64_t{0};
 
-  auto wxy = detail::math::bilinear_weights(
-      detail::math::normalize_angle(point.lon(), x1), point.lat(), x1, y1,
-      detail::math::normalize_angle(x2, x1), y2);
+  auto wxy =
+      detail::math::bilinear_weights(x, point.lat(), x1, y1, x2, y2);
 
   auto grid = detail::Grid<std::complex<T>>(
       nullptr, static_cast<size_t>(lon_.size()),
-- 
2.43.0


From 3d9872b9044344e7f09e19e50a33065abce4dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:57 +0000
Subject: [PATCH 16/30] fix: nodal phase of K2 in MK4 and MSK6

The nodal phase of K2 is -2 nu'', as used for K2, MKS2, SK4 and 2MK6.
---
 include/fes/wave.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fes/wave.hpp b/include/fes/wave.hpp
index 752f026..1c4ee11 100644
--- a/include/fes/wave.hpp
+++ b/include/fes/wave.hpp
@@ -1063,13 +1063,13 @@ class MS4 : public Wave {
 /// <table>
 /// <tr><th>V</th><th>u</th><th>Factor-f</th></tr>
 /// <tr><td>@f$4T - 2s + 4h@f$</td>
-/// <td>@f$2\xi - 2\nu - 2\nu^{\prime}@f$</td>
+/// <td>@f$2\xi - 2\nu - 2\nu^{\prime \prime}@f$</td>
 /// <td>@f$f(MK_4)@f$</td></tr>
 /// </table>
 class MK4 : public Wave {
  public:
   constexpr MK4()
-      : Wave(kMK4, kShortPeriod, false, 4, -2, 4, 0, 0, 0, 0, 2, -2, -2, 0,
+      : Wave(kMK4, kShortPeriod, false, 4, -2, 4, 0, 0, 0, 0, 2, -2, 0, -2,
              &angle::Astronomic::f_m2_k2) {}
 };
 
@@ -1213,13 +1213,13 @@ class _2SM6 : public Wave {
 /// <table>
 /// <tr><th>V</th><th>u</th><th>Factor-f</th></tr>
 /// <tr><td>@f$6T - 2s + 4h@f$</td>
-/// <td>@f$2\xi - 2\nu - 2\nu^{\prime}@f$</td>
+/// <td>@f$2\xi - 2\nu - 2\nu^{\prime \prime}@f$</td>
 /// <td>@f$f(M_2) ^times f(K_2)@f$</td></tr>
 /// </table>
 class MSK6 : public Wave {
  public:
   constexpr MSK6()
-      : Wave(kMSK6, kShortPeriod, false, 6, -2, 4, 0, 0, 0, 0, 2, -2, -2, 0,
+      : Wave(kMSK6, kShortPeriod, false, 6, -2, 4, 0, 0, 0, 0, 2, -2, 0, -2,
              &angle::Astronomic::f_m2_k2) {}
 };
 
-- 
2.43.0


From 61d632058000ddb16d6ef007bbd5fe9deed14a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:57 +0000
Subject: [PATCH 17/30] fix: sign of the nodal phase of 2SM2

The nodal phase of 2SM2 = 2S2 - M2 is the opposite of that of M2, as documented.
---
 include/fes/wave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/wave.hpp b/include/fes/wave.hpp
index 1c4ee11..0f7495f 100644
--- a/include/fes/wave.hpp
+++ b/include/fes/wave.hpp
@@ -918,7 +918,7 @@ class Eta2 : public Wave {
 class _2SM2 : public Wave {
  public:
   constexpr _2SM2()
-      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, 2, -2, 0, 0,
+      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, -2, 2, 0, 0,
              &angle::Astronomic::f_m2) {}
 };
 
-- 
2.43.0


From 7578b88a377e4c38963b116255535245ec415c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:08 +0000
Subject: [PATCH 18/30] fix: the Python binding of tide_from_tide_series
 ignored the formulae

---
 src/python/core/wave/table.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/core/wave/table.cpp b/src/python/core/wave/table.cpp
index 9175597..59301c4 100644
--- a/src/python/core/wave/table.cpp
+++ b/src/python/core/wave/table.cpp
@@ -73,7 +73,8 @@ Returns:
             auto epoch = fes::python::npdatetime64_to_epoch(dates);
             {
               py::gil_scoped_release gil;
-              return self.tide_from_tide_series(epoch, leap_seconds, wave);
+              return self.tide_from_tide_series(epoch, leap_seconds, wave,
+                                                formulae);
             }
           },
           py::arg("dates"), py::arg("leap_seconds"), py::arg("wave"),
-- 
2.43.0


From afca5e88d49d4726eb2f01790d17a124539f6bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 19/30] fix: a wave table built from names ignored the names it
 did not recognize

---
 src/library/wave/table.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index b83583e..504b001 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -189,12 +189,14 @@ inline auto create_sparse_table(
     const std::vector<std::string>& known_constituents,
     const std::vector<std::string>& waves,
     std::vector<std::shared_ptr<Wave>>& table) -> void {
+  // Parsing is not case sensitive and throws an error on an unknown name.
+  auto selected = std::vector<bool>(known_constituents.size(), false);
+  for (const auto& item : waves) {
+    selected[constituents::parse(item)] = true;
+  }
   for (const auto& constituent : known_constituents) {
-    auto selected =
-        std::find(waves.begin(), waves.end(), constituent) != waves.end();
-    table.emplace_back(
-        selected ? Table::wave_factory(constituents::parse(constituent))
-                 : nullptr);
+    const auto ident = constituents::parse(constituent);
+    table.emplace_back(selected[ident] ? Table::wave_factory(ident) : nullptr);
   }
 }
 
-- 
2.43.0


From 0abbb0cdd68a5a385262fd401e30b932a973150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 20/30] fix: Cartesian grids that differ were loaded into the
 same model

---
 src/python/pyfes/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 7c2c843..8f2f3fc 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -256,9 +256,11 @@ class Cartesian(Common):
             def __ne__(self, other: Any) -> bool:
                 if not isinstance(other, GridProperties):
                     return NotImplemented
-                return (self.dtype != other.dtype and self.shape != other.shape
-                        and not numpy.allclose(self.lon, other.lon)
-                        and not numpy.allclose(self.lat, other.lat))
+                return (self.dtype != other.dtype or self.shape != other.shape
+                        or len(self.lon) != len(other.lon)
+                        or len(self.lat) != len(other.lat)
+                        or not numpy.allclose(self.lon, other.lon)
+                        or not numpy.allclose(self.lat, other.lat))
 
         # The tidal model instance consists of the tidal model and the grid
         # properties.
-- 
2.43.0


From c5149576492a91b4e7b1b43744a1e1c372acad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 21/30] fix: LGP1 models were loaded as LGP2 models

---
 src/python/pyfes/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 8f2f3fc..7cf3fc3 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -395,7 +395,7 @@ class LGP(Common):
 
     def _lgp_class(self, dtype: numpy.dtype) -> LGPModel:
         """Return the class of the LGP tidal model."""
-        if self.type == LGPType.LGP1.name:
+        if self.type == LGPType.LGP1.value:
             if dtype == numpy.complex64:
                 return core.tidal_model.LGP1Complex64
             if dtype == numpy.complex128:
-- 
2.43.0


From e39e273e9cc389d4ee0c1ef66391bf0e5da99806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 22/30] fix: units of the phases of LGP models that were taken
 for radians

---
 src/python/pyfes/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 7cf3fc3..8cadc33 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -429,7 +429,9 @@ class LGP(Common):
                 pha: Vector = numpy.ma.filled(ds.variables[pha_name][:],
                                               numpy.nan)
 
-                if ds.variables[pha_name].units in ['degree', 'degrees']:
+                if ds.variables[pha_name].units.lower() in [
+                        'degree', 'degrees', 'deg'
+                ]:
                     pha = numpy.radians(pha)
 
                 wave: Vector = amp * numpy.cos(pha) + 1j * amp * numpy.sin(pha)
-- 
2.43.0


From 335bcb4a54c943e5b9f05f324025f0be2b951d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 23/30] fix: formulae ignored to compute the nodal modulations
 of a list of dates

---
 src/python/pyfes/wave_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/wave_table.py b/src/python/pyfes/wave_table.py
index e1fe2fc..6e5bcbe 100644
--- a/src/python/pyfes/wave_table.py
+++ b/src/python/pyfes/wave_table.py
@@ -54,7 +54,8 @@ class WaveTable(core.WaveTable):
             datetime64: VectorDateTime64 = numpy.array(
                 [core.datemanip.as_int64(item) for item in dates],
                 dtype='datetime64[us]')
-            return super().compute_nodal_modulations(datetime64, leap_seconds)
+            return super().compute_nodal_modulations(datetime64, leap_seconds,
+                                                     formulae)
         # The method throws an error if the dates are not datetime64
         return super().compute_nodal_modulations(
             dates,  # type: ignore
-- 
2.43.0


From 4d9a49e3a3e4196fd8ae4a29c0bf7d2043c39e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 24/30] fix: WaveDict.tide_from_tide_series searched the waves
 by object

---
 src/python/pyfes/wave_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/wave_table.py b/src/python/pyfes/wave_table.py
index 6e5bcbe..36347bf 100644
--- a/src/python/pyfes/wave_table.py
+++ b/src/python/pyfes/wave_table.py
@@ -181,6 +181,6 @@ class WaveDict(WaveTable):
             raise ValueError('wave must contain as many items as tidal '
                              'constituents loaded')
         wave_properties: VectorComplex128 = numpy.array(
-            [wave[item] for item in self])
+            [wave[item] for item in self.keys()])
         return super().tide_from_tide_series(dates, leap_seconds,
                                              wave_properties, formulae)
-- 
2.43.0


From a2033c905712373ec4af7fb9f4ee91bf82a71b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 25/30] fix: the sorter of the dates was applied to the table
 of leap seconds

---
 src/python/pyfes/leap_seconds.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 732b86a..0bb37aa 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -159,8 +159,8 @@ def get_leap_seconds(
 
     Args:
         utc: The UTC times.
-        sorter: The indices which would sort the `utc` array. If not
-            given, the `utc` array is sorted internally.
+        sorter: The indices which would sort the `utc` array. The result does
+            not depend on it.
     Returns:
         The UTC-TAI difference for the given UTC times.
     """
@@ -173,8 +173,6 @@ def get_leap_seconds(
         raise ValueError('Cannot compute leap seconds before 1972.')
 
     table = _load_leap_second_file()
-    index: numpy.ndarray = numpy.searchsorted(table['utc'],
-                                              utc,
-                                              side='right',
-                                              sorter=sorter)
+    # The table is already sorted, and the order of the dates does not matter.
+    index: numpy.ndarray = numpy.searchsorted(table['utc'], utc, side='right')
     return table['seconds'][index - 1]
-- 
2.43.0


From 56454af2f58b245ae9359a293071be77af02791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 26/30] fix: remove the lines of M0 from the equilibrium tide
 when a model computes M0

---
 src/library/wave/long_period_equilibrium.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/wave/long_period_equilibrium.cpp b/src/library/wave/long_period_equilibrium.cpp
index 60a876d..6b1cf1f 100644
--- a/src/library/wave/long_period_equilibrium.cpp
+++ b/src/library/wave/long_period_equilibrium.cpp
@@ -146,6 +146,10 @@ LongPeriodEquilibrium::LongPeriodEquilibrium()
 
 auto LongPeriodEquilibrium::disable_dynamic_wave(const Table& table) -> void {
   // Indexes are the same as those defined starting from l.389
+  if (table[kM0]->dynamic()) {
+    order2_.row(0).fill(0);
+    order2_.row(1).fill(0);
+  }
   if (table[kMm]->dynamic()) {
     order2_.row(29).fill(0);
     order2_.row(30).fill(0);
-- 
2.43.0


From 272e9b7704363ac0d543085371696a34eff97d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:12 +0000
Subject: [PATCH 27/30] fix: undefined Cartesian interpolation when no node
 contributes

---
 include/fes/detail/math.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/math.hpp b/include/fes/detail/math.hpp
index cadc215..205d21a 100644
--- a/include/fes/detail/math.hpp
+++ b/include/fes/detail/math.hpp
@@ -264,6 +264,24 @@ constexpr auto bilinear_weights(const T& x, const T& y, const T& x1,
   return std::make_tuple(wx1, wx2, wy1, wy2);
 }
 
+/// Value used to represent an undefined number
+template <typename T>
+struct Undefined {
+  static constexpr auto value() noexcept -> T {
+    return std::numeric_limits<T>::quiet_NaN();
+  }
+};
+
+/// Value used to represent an undefined complex number: both parts are
+/// undefined (`std::numeric_limits` is not specialized for complex numbers).
+template <typename T>
+struct Undefined<std::complex<T>> {
+  static constexpr auto value() noexcept -> std::complex<T> {
+    return {std::numeric_limits<T>::quiet_NaN(),
+            std::numeric_limits<T>::quiet_NaN()};
+  }
+};
+
 /// Calculate the bilinear interpolation
 ///
 /// @param[in] wx1 weight for the first point in x
@@ -295,8 +313,12 @@ constexpr auto bilinear_interpolation(const T& wx1, const T& wx2, const T& wy1,
   add_sample(z12, wx1 * wy2);
   add_sample(z21, wx2 * wy1);
   add_sample(z22, wx2 * wy2);
-  return std::abs(sum_w) > 0 ? result / sum_w
-                             : std::numeric_limits<T>::quiet_NaN();
+  if (std::abs(sum_w) > 0) {
+    return result / sum_w;
+  }
+  // None of the points contributes to the result.
+  n = 0;
+  return Undefined<T>::value();
 }
 
 /// @brief Evaluates a polynomial using Horner's method.
-- 
2.43.0


From d7690cb33a46234787a80f039aeeb41acc49fb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 28/30] fix: changing the first vertex of a triangle left its
 ring open

---
 include/fes/geometry/triangle.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fes/geometry/triangle.hpp b/include/fes/geometry/triangle.hpp
index a4dc4ea..188b299 100644
--- a/include/fes/geometry/triangle.hpp
+++ b/include/fes/geometry/triangle.hpp
@@ -48,7 +48,11 @@ class Triangle : public triangle_t {
   /// Set the first vertex.
   ///
   /// @param[in] v1 The first vertex.
-  inline auto v1(const Point &v1) -> void { this->outer()[0] = v1; }
+  inline auto v1(const Point &v1) -> void {
+    // The first vertex also closes the ring
+    this->outer()[0] = v1;
+    this->outer()[3] = v1;
+  }
 
   /// Set the second vertex.
   ///
-- 
2.43.0


From 842afafb7e1f70e1497a332801c9de6eee272f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 29/30] fix: sizes that overflow were accepted in the state of
 a tidal model

---
 include/fes/tidal_model/cartesian.hpp | 4 ++++
 include/fes/tidal_model/lgp.hpp       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 0f1e6ed..8f275c9 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -190,6 +190,10 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
     auto lon = Axis::setstate(detail::serialize::read_string(ss));
     auto lat = Axis::setstate(detail::serialize::read_string(ss));
     auto tide_type = detail::serialize::read_data<TideType>(ss);
+    // The number of nodes of the grid must be representable.
+    if (lon.size() > std::numeric_limits<int64_t>::max() / lat.size()) {
+      throw std::invalid_argument("the grid is too large");
+    }
     auto model =
         Cartesian<T>(std::move(lon), std::move(lat), tide_type, row_major);
     model.data_ =
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 306f5e8..475a0d8 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -340,6 +340,10 @@ auto LGP<T, N>::initialize() -> void {
   if (min_index < 0) {
     throw std::invalid_argument("codes_t must be positive");
   }
+  // The number of values handled must be representable.
+  if (max_index == std::numeric_limits<int>::max()) {
+    throw std::invalid_argument("codes_t is too large");
+  }
 
   // Store the expected data size to interpolate
   expected_data_size_ = max_index + 1;
-- 
2.43.0


From 20676ef94525b380b1e0da5eb84451d9b93604f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:13 +0000
Subject: [PATCH 30/30] fix: leap seconds could not be looked up offline once
 the bundled file expired

---
 src/python/pyfes/leap_seconds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 0bb37aa..c7af720 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -121,7 +121,7 @@ def _load_leap_second_file() -> NDArrayStructured:
             'Downloading a new version.', UserWarning)
         try:
             expires, lines = _read_leap_second_file(download=True)
-        except RuntimeError:
+        except (OSError, RuntimeError):
             warnings.warn(
                 'Failed to download new leap second file. '
                 'Using expired file.', UserWarning)
-- 
2.43.0

