From b9061bb3f083d6f48db10467024091849221b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 01/18] fix: even-order splines carried one knot too many

For even orders the periodic knot vectors were one knot longer than the
spline's own convention (control points + 2 * order + 1), and load_knots
compensated for it with an order-parity dependent offset that was also
applied to non-periodic axes.  As a result
 - range() of a non-periodic axis ended before the last data point and
   at()/derivative_at() rejected valid coordinates,
 - eval_proxy() used a wrong cell stride when the axis is periodic and
   returned wrong values,
 - a coordinate that wraps exactly onto the right end of a periodic axis
   selected a segment past the last cell and read out of bounds.
---
 src/include/BSpline.hpp       | 2 +-
 src/include/Interpolation.hpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 3b9831b..aa539c9 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -223,7 +223,7 @@ class BSpline {
         knots_[dim_ind] = std::forward<C>(_knots);
         range_[dim_ind].first = knots_[dim_ind][order];
         range_[dim_ind].second =
-            knots_[dim_ind][knots_[dim_ind].size() - order - (2 - order % 2)];
+            knots_[dim_ind][knots_[dim_ind].size() - order - 1];
     }
 
 #ifdef INTP_CELL_LAYOUT
diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 41c1a22..e82168e 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -337,7 +337,8 @@ class InterpolationFunction {
 
         const size_t extra = periodic ? 2 * order + (1 - order % 2) : order + 1;
 
-        std::vector<coord_type> xs(n + extra, x_range.first);
+        std::vector<coord_type> xs(n + (periodic ? 2 * order : order + 1),
+                                   x_range.first);
 
         if (periodic) {
             for (size_type i = 0; i < xs.size(); ++i) {
@@ -392,7 +393,7 @@ class InterpolationFunction {
         (void)mesh_dimension;
 #endif
         typename spline_type::KnotContainer xs(
-            periodic ? n + 2 * order + (1 - order % 2) : n + order + 1);
+            periodic ? n + 2 * order : n + order + 1);
 
         auto& input_coord = input_coords[dim_ind];
         input_coord.reserve(n);
-- 
2.43.0


From 130e30349832aa289d13eb6e955e5ebe04f68ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 02/18] fix: BandMatrix::operator* multiplied with the wrong
 elements

Elements are stored aligned by column index (A_{i,j} = B_{j,i+q-j}) but the
product read them as if they were aligned by row, which yields the product
with the transpose (or with unrelated elements if the two bandwidths
differ).  Only symmetric Toeplitz matrices gave the right answer.
---
 src/include/BandMatrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/BandMatrix.hpp b/src/include/BandMatrix.hpp
index 2a4d9ec..c84a0b7 100644
--- a/src/include/BandMatrix.hpp
+++ b/src/include/BandMatrix.hpp
@@ -68,9 +68,9 @@ class BandMatrix {
     util::remove_cvref_t<Vec> operator*(const Vec& x) const {
         util::remove_cvref_t<Vec> xx(x.size());
         for (size_type i = 0; i < x.size(); ++i) {
-            for (size_type j = p_ > i ? p_ - i : 0, k = i > p_ ? i - p_ : 0;
-                 j < std::min(p_ + q_ + 1, n_ + p_ - i); ++j, ++k) {
-                xx[i] += bands_(i, j) * x[k];
+            for (size_type j = i > p_ ? i - p_ : 0;
+                 j < std::min(i + q_ + 1, n_); ++j) {
+                xx[i] += (*this)(i, j) * x[j];
             }
         }
         return xx;
-- 
2.43.0


From 95b3d68e90ae34fb007903a0ec0dce8fa2cc553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 03/18] fix: BandLU::compute moved from an lvalue argument

compute(mat) forwarded its argument as an rvalue whatever its value
category was, leaving the matrix of the caller gutted.
---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 726faae..046fb73 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -34,7 +34,7 @@ class BandLUBase : public util::CRTP<Solver<Matrix>> {
             std::is_same<util::remove_cvref_t<Mat_>, matrix_type>::value,
             "Matrix type mismatch");
         if (!is_computed_) {
-            lu_store_ = std::forward<matrix_type>(mat);
+            lu_store_ = std::forward<Mat_>(mat);
             this->cast().compute_impl();
             is_computed_ = true;
         }
-- 
2.43.0


From 7dca6370e9895dd5fb47b7e9ea622e0336d4ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 04/18] fix: dimension-wise mesh iterators were not usable as
 random access iterators

end() of a const mesh, ordering comparisons and operator-> did not compile,
and dereferencing, subscripting or offsetting a const iterator was rejected.
---
 src/include/Mesh.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/include/Mesh.hpp b/src/include/Mesh.hpp
index b2b8ffb..80f924a 100644
--- a/src/include/Mesh.hpp
+++ b/src/include/Mesh.hpp
@@ -160,8 +160,8 @@ class Mesh {
 
         // forward iterator requirement
 
-        reference operator*() { return *ptr_; }
-        reference operator->() { return ptr_; }
+        reference operator*() const { return *ptr_; }
+        pointer operator->() const { return ptr_; }
 
         bool operator==(const skip_iterator& other) const {
             return this->ptr_ == other.ptr_ &&
@@ -199,7 +199,7 @@ class Mesh {
             ptr_ += n * step_length_;
             return *this;
         }
-        skip_iterator operator+(difference_type n) {
+        skip_iterator operator+(difference_type n) const {
             skip_iterator tmp(*this);
             return tmp += n;
         }
@@ -211,16 +211,16 @@ class Mesh {
             ptr_ -= n * step_length_;
             return *this;
         }
-        skip_iterator operator-(difference_type n) {
+        skip_iterator operator-(difference_type n) const {
             skip_iterator tmp(*this);
             return tmp -= n;
         }
 
-        difference_type operator-(skip_iterator other) {
+        difference_type operator-(skip_iterator other) const {
             return (ptr_ - other.ptr_) / step_length_;
         }
 
-        reference operator[](difference_type n) {
+        reference operator[](difference_type n) const {
             return *(ptr_ + n * step_length_);
         }
 
@@ -365,8 +365,9 @@ class Mesh {
                                       index_type indices) const {
         indices[dim_ind] = dimension_.dim_size(dim_ind);
         return skip_iterator<const val_type>(
-            storage_.data() + indexing(indices),
-            dimension_.dim_acc_size(dim - dim_ind - 1));
+            storage_.data() + dimension_.indexing(indices),
+            static_cast<typename skip_iterator<val_type>::difference_type>(
+                dimension_.dim_acc_size(dim - dim_ind - 1)));
     }
 
     index_type iter_indices(const_iterator iter) const {
-- 
2.43.0


From 1bfc01faa5016eec4cdd67cb5cc49579e7db48f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 05/18] fix: library did not link in C++11/C++14

The static constexpr data members dim and order are ODR-used, but had no
out-of-class definition before C++17.
---
 src/include/BSpline.hpp               | 11 +++++++++++
 src/include/Interpolation.hpp         | 11 +++++++++++
 src/include/InterpolationTemplate.hpp | 11 +++++++++++
 3 files changed, 33 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index aa539c9..0031714 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -759,6 +759,17 @@ class BSpline {
 #endif  // INTP_CELL_LAYOUT
 };
 
+#if __cplusplus < 201703L
+// static constexpr data members are not implicitly inline before C++17
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type
+    BSpline<T, D, O, U>::dim;
+
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type
+    BSpline<T, D, O, U>::order;
+#endif
+
 }  // namespace intp
 
 #endif
diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index e82168e..1cc22be 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -507,6 +507,17 @@ class InterpolationFunction {
 #endif  // INTP_CELL_LAYOUT
 };
 
+#if __cplusplus < 201703L
+// static constexpr data members are not implicitly inline before C++17
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunction<T, D, O, U>::size_type
+    InterpolationFunction<T, D, O, U>::dim;
+
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunction<T, D, O, U>::size_type
+    InterpolationFunction<T, D, O, U>::order;
+#endif
+
 template <std::size_t O = std::size_t{3},
           typename T = double,
           typename U = double>
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 843bc0b..57298ad 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -580,6 +580,17 @@ class InterpolationFunctionTemplate {
     }
 };
 
+#if __cplusplus < 201703L
+// static constexpr data members are not implicitly inline before C++17
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunctionTemplate<T, D, O, U>::size_type
+    InterpolationFunctionTemplate<T, D, O, U>::dim;
+
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunctionTemplate<T, D, O, U>::size_type
+    InterpolationFunctionTemplate<T, D, O, U>::order;
+#endif
+
 template <std::size_t O, typename T = double, typename U = double>
 class InterpolationFunctionTemplate1D
     : public InterpolationFunctionTemplate<T, size_t{1}, O, U> {
-- 
2.43.0


From 90fc933df31f5626f85824e18adf683403a80345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:08 +0000
Subject: [PATCH 06/18] fix: copying an interpolation template before C++17
 lost its solvers

---
 src/include/InterpolationTemplate.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 57298ad..67c09df 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -221,10 +221,27 @@ class InterpolationFunctionTemplate {
             return *this;
         }
 
-        // Copy constructor is required by aggregate initialization, but never
-        // invoked in this code since the content of this union is never
-        // switched.
-        EitherSolver(const EitherSolver&) {}
+        // Copy the active union member, invoked when an interpolation template
+        // is copied.
+        EitherSolver(const EitherSolver& other)
+            : is_active_(other.is_active_), is_periodic_(other.is_periodic_) {
+            if (is_active_) {
+                if (is_periodic_) {
+                    new (&solver_periodic)
+                        extended_solver_type(other.solver_periodic);
+                } else {
+                    new (&solver_aperiodic)
+                        base_solver_type(other.solver_aperiodic);
+                }
+            }
+        }
+        EitherSolver& operator=(const EitherSolver& other) {
+            if (this != &other) {
+                this->~EitherSolver();
+                new (this) EitherSolver(other);
+            }
+            return *this;
+        }
         // Destructor needed and it invokes either member's destructor according
         // to the tag "is_periodic";
         ~EitherSolver() {
-- 
2.43.0


From cf2484285a8c0698df151c05eb62e01e00ae4c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:49 +0000
Subject: [PATCH 07/18] fix: thread pool shutdown raced with its workers

The termination flag was a plain bool written without holding the mutex: a
data race, and a worker about to sleep could miss the wakeup so that the
destructor never returned.
---
 src/include/DedicatedThreadPool.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index fb6e9df..b308daa 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -1,6 +1,7 @@
 #ifndef INTP_THREAD_POOL
 #define INTP_THREAD_POOL
 
+#include <atomic>   // atomic
 #include <future>   //unique_lock, packaged_task
 #include <mutex>    // mutex
 #include <queue>    // deque
@@ -105,8 +106,7 @@ class DedicatedThreadPool {
 #endif
         } catch (...) {  // in this case dtor is not called, so threads
                          // termination should be proper handled here
-            should_terminate = true;
-            cv.notify_all();
+            terminate_threads();
             throw;
         }
     }
@@ -115,8 +115,7 @@ class DedicatedThreadPool {
     using return_type = T;
 
     ~DedicatedThreadPool() {
-        should_terminate = true;
-        cv.notify_all();
+        terminate_threads();
 
 #ifdef INTP_DEBUG
         std::cout << "\n[DEBUG] The thread pool has " << thread_num()
@@ -204,6 +203,16 @@ class DedicatedThreadPool {
         }
     };
 
+    void terminate_threads() {
+        {
+            // The flag must not change between a thread checking it and going
+            // to sleep, or that thread never wakes up.
+            lock_type lk(main_queue_mutex);
+            should_terminate = true;
+        }
+        cv.notify_all();
+    }
+
     bool try_pop_from_main(task_type& task) {
         {
             lock_type lk(main_queue_mutex);
@@ -259,7 +268,8 @@ class DedicatedThreadPool {
 #ifdef INTP_DEBUG
     size_t submitted{};
 #endif
-    bool should_terminate = false;  // Tells threads to stop looking for tasks
+    // Tells threads to stop looking for tasks
+    std::atomic<bool> should_terminate{false};
     std::mutex main_queue_mutex;    // Protects main task queue
     std::condition_variable cv;     // Signals for thread sleep/awake
     std::vector<std::thread> threads;  // Thread container
-- 
2.43.0


From e416721b6be812e95527ea92983c059b6b694868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:49 +0000
Subject: [PATCH 08/18] fix: default range of a periodic 1D interpolation
 template

With INTP_PERIODIC_NO_DUMMY_POINT it differed from the default range of
InterpolationFunction1D for the same data.
---
 src/include/InterpolationTemplate.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 67c09df..94dfc33 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -620,9 +620,17 @@ class InterpolationFunctionTemplate1D
         : InterpolationFunctionTemplate1D(
               std::make_pair(
                   typename base::coord_type{},
-                  static_cast<typename base::coord_type>(f_length - 1)),
+                  static_cast<typename base::coord_type>(f_length
+#ifdef INTP_PERIODIC_NO_DUMMY_POINT
+                                                         -
+                                                         (periodicity ? 0 : 1)
+#else
+                                                         - 1
+#endif
+                                                             )),
               f_length,
-              periodicity) {}
+              periodicity) {
+    }
 
     template <typename C1, typename C2>
     InterpolationFunctionTemplate1D(std::pair<C1, C2> x_range,
-- 
2.43.0


From 7bea50f51930ba59a5130149c9b3c32cc371a147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:49 +0000
Subject: [PATCH 09/18] fix: derivative() did not compile with float or long
 double coordinates

---
 src/include/Interpolation.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 1cc22be..68b502d 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -308,11 +308,13 @@ class InterpolationFunction {
             uniform_[di]
                 ? std::min(spline_.knots_num(di) - order - 2,
                            static_cast<size_type>(std::ceil(std::max(
-                               0., (c[di] - range(di).first) / dx_[di] -
-                                       (periodicity(di)
-                                            ? 1.
-                                            : .5 * static_cast<coord_type>(
-                                                       order + 1))))) +
+                               coord_type{0.},
+                               (c[di] - range(di).first) / dx_[di] -
+                                   (periodicity(di)
+                                        ? coord_type{1.}
+                                        : coord_type{.5} *
+                                              static_cast<coord_type>(
+                                                  order + 1))))) +
                                order)
                 : order,
             static_cast<size_type>(d[di]))...});
-- 
2.43.0


From a9e4c290cbc0f711e72fe62316926fca8f1e1b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:29 +0000
Subject: [PATCH 10/18] fix: zeroth order spline on nonuniform coordinates

The moving average over order (i.e. zero) points divided by zero and read
past the end of the coordinate range.
---
 src/include/Interpolation.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 68b502d..806ffbe 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -418,6 +418,20 @@ class InterpolationFunction {
                 xs[i] = xs[n + i - 1] - period;
                 xs[xs.size() - i - 1] = xs[xs.size() - i - n] + period;
             }
+        } else if (order == 0) {
+            // There is no window to average over for zeroth order spline, the
+            // internal knots are midpoints of data points, same as the uniform
+            // case.
+
+            auto it = x_range.first;
+            input_coord.push_back(*it);
+            xs[0] = input_coord.back();
+            for (size_type i = 1; i < n; ++i) {
+                const coord_type present = *(++it);
+                xs[i] = coord_type{.5} * (input_coord.back() + present);
+                input_coord.push_back(present);
+            }
+            xs[n] = input_coord.back();
         } else {
             // In aperiodic case, the internal knots are moving average of
             // data points with windows size equal to spline order.
-- 
2.43.0


From f0fa4026d7a7d93654b503044db2b946197c7678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:34 +0000
Subject: [PATCH 11/18] fix: solving with an extended band matrix whose bands
 overlap read out of bounds

For dim < lower + upper + 1 the loop bound j - q of the back substitution
underflowed.
---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 046fb73..930122e 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -249,7 +249,7 @@ class BandLU<ExtendedBandMatrix<Ts...>>
 
             // right side bands
             if (j > n - p - 1) {
-                for (size_type i = 0; i < j - q; ++i) {
+                for (size_type i = 0; i + q < j; ++i) {
                     iter[static_cast<ind_type>(i)] -=
                         lu_store_.side_bands_val(i, j) *
                         iter[static_cast<ind_type>(j)];
-- 
2.43.0


From 1c04dab45c4a7148a79350da9c1ea0b297b2d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:54 +0000
Subject: [PATCH 12/18] fix: aligned-allocator.hpp did not include the headers
 it uses

---
 src/include/aligned-allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/aligned-allocator.hpp b/src/include/aligned-allocator.hpp
index 3330666..ebe9987 100644
--- a/src/include/aligned-allocator.hpp
+++ b/src/include/aligned-allocator.hpp
@@ -14,6 +14,10 @@
 
 #include <cstddef>
 #include <cstdlib>
+#include <memory>
+#include <new>
+#include <type_traits>
+#include <utility>
 
 namespace intp {
 
-- 
2.43.0


From be0496f04ff8318258cac58c44079ea51b50a684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:54 +0000
Subject: [PATCH 13/18] fix: AlignedAllocator::allocate overflowed instead of
 throwing bad_alloc

---
 src/include/aligned-allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/aligned-allocator.hpp b/src/include/aligned-allocator.hpp
index ebe9987..c60ac48 100644
--- a/src/include/aligned-allocator.hpp
+++ b/src/include/aligned-allocator.hpp
@@ -101,6 +101,7 @@ class AlignedAllocator {
     pointer allocate(
         size_type n,
         typename AlignedAllocator<void, Align>::const_pointer = nullptr) {
+        if (n > max_size()) { throw std::bad_alloc(); }
         const size_type alignment = static_cast<size_type>(Align);
         void* ptr = detail::allocate_aligned_memory(alignment, n * sizeof(T));
         if (ptr == nullptr) { throw std::bad_alloc(); }
@@ -155,6 +156,7 @@ class AlignedAllocator<const T, Align> {
     pointer allocate(
         size_type n,
         typename AlignedAllocator<void, Align>::const_pointer = 0) {
+        if (n > max_size()) { throw std::bad_alloc(); }
         const size_type alignment = static_cast<size_type>(Align);
         void* ptr = detail::allocate_aligned_memory(alignment, n * sizeof(T));
         if (ptr == nullptr) { throw std::bad_alloc(); }
-- 
2.43.0


From 597c5b3945fd1a737ec20c5008906a541f4fa5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:54 +0000
Subject: [PATCH 14/18] fix: hint of a far out coordinate overflowed size_type

---
 src/include/Interpolation.hpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 806ffbe..319bb64 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -283,13 +283,16 @@ class InterpolationFunction {
             uniform_[di]
                 ? std::min(
                       spline_.knots_num(di) - order - 2,
-                      static_cast<size_type>(std::ceil(std::max(
-                          coord_type{0.},
-                          (c[di] - range(di).first) / dx_[di] -
-                              (periodicity(di)
-                                   ? coord_type{1.}
-                                   : coord_type{.5} * static_cast<coord_type>(
-                                                          order + 1))))) +
+                      static_cast<size_type>(std::min(
+                          static_cast<coord_type>(spline_.knots_num(di)),
+                          std::ceil(std::max(
+                              coord_type{0.},
+                              (c[di] - range(di).first) / dx_[di] -
+                                  (periodicity(di)
+                                       ? coord_type{1.}
+                                       : coord_type{.5} *
+                                             static_cast<coord_type>(
+                                                 order + 1)))))) +
                           order)
                 : order)...};
     }
@@ -307,14 +310,16 @@ class InterpolationFunction {
             static_cast<coord_type>(c[di]),
             uniform_[di]
                 ? std::min(spline_.knots_num(di) - order - 2,
-                           static_cast<size_type>(std::ceil(std::max(
-                               coord_type{0.},
-                               (c[di] - range(di).first) / dx_[di] -
-                                   (periodicity(di)
-                                        ? coord_type{1.}
-                                        : coord_type{.5} *
-                                              static_cast<coord_type>(
-                                                  order + 1))))) +
+                           static_cast<size_type>(std::min(
+                               static_cast<coord_type>(spline_.knots_num(di)),
+                               std::ceil(std::max(
+                                   coord_type{0.},
+                                   (c[di] - range(di).first) / dx_[di] -
+                                       (periodicity(di)
+                                            ? coord_type{1.}
+                                            : coord_type{.5} *
+                                                  static_cast<coord_type>(
+                                                      order + 1)))))) +
                                order)
                 : order,
             static_cast<size_type>(d[di]))...});
-- 
2.43.0


From 4a297cbfc73fb63ae349ecbc16d16e5f56c75a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:07 +0000
Subject: [PATCH 15/18] fix: coordinates given by input iterators were read
 twice

---
 src/include/Interpolation.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 319bb64..13ec6d6 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -382,8 +382,11 @@ class InterpolationFunction {
         uniform_[dim_ind] = false;
         const auto periodic = periodicity(dim_ind);
 
-        const size_type n{static_cast<size_type>(
-            std::distance(x_range.first, x_range.second))};
+        // The x_range may be given by input iterators, which can not be
+        // multi-passed.
+        const typename spline_type::KnotContainer coords(x_range.first,
+                                                         x_range.second);
+        const size_type n{coords.size()};
 #ifdef INTP_PERIODIC_NO_DUMMY_POINT
         INTP_ASSERT(n == mesh_dimension.dim_size(dim_ind) + (periodic ? 1 : 0),
                     std::string("Inconsistency between knot number and "
@@ -404,13 +407,11 @@ class InterpolationFunction {
 
         auto& input_coord = input_coords[dim_ind];
         input_coord.reserve(n);
-        // The x_range may be given by input iterators, which can not be
-        // multi-passed.
         if (periodic) {
             // In periodic case, the knots are data points, shifted by half
             // of local grid size if spline order is odd.
 
-            auto iter = x_range.first;
+            auto iter = coords.begin();
             input_coord.push_back(*iter);
             for (size_type i = order + 1; i < order + n; ++i) {
                 coord_type present = *(++iter);
@@ -428,7 +429,7 @@ class InterpolationFunction {
             // internal knots are midpoints of data points, same as the uniform
             // case.
 
-            auto it = x_range.first;
+            auto it = coords.begin();
             input_coord.push_back(*it);
             xs[0] = input_coord.back();
             for (size_type i = 1; i < n; ++i) {
@@ -441,7 +442,7 @@ class InterpolationFunction {
             // In aperiodic case, the internal knots are moving average of
             // data points with windows size equal to spline order.
 
-            auto it = x_range.first;
+            auto it = coords.begin();
             auto l_knot = *it;
             // fill leftmost *order+1* identical knots
             for (size_type i = 0; i < order + 1; ++i) { xs[i] = l_knot; }
-- 
2.43.0


From 87bd9f72ae064f8e1d6026bfb270f43934d6f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:46 +0000
Subject: [PATCH 16/18] fix: allocator for const elements could not deallocate

---
 src/include/aligned-allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/aligned-allocator.hpp b/src/include/aligned-allocator.hpp
index c60ac48..672fd19 100644
--- a/src/include/aligned-allocator.hpp
+++ b/src/include/aligned-allocator.hpp
@@ -165,7 +165,7 @@ class AlignedAllocator<const T, Align> {
     }
 
     void deallocate(pointer p, size_type) noexcept {
-        return detail::deallocate_aligned_memory(p);
+        return detail::deallocate_aligned_memory(const_cast<T*>(p));
     }
 
     template <class U, class... Args>
-- 
2.43.0


From 0ad3a53db31aab7bae2b0f85f5b93f6a42acc677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:32 +0000
Subject: [PATCH 17/18] fix: whole periods below a periodic range took the left
 limit at the seam

---
 src/include/BSpline.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 0031714..edfb07a 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -133,6 +133,8 @@ class BSpline {
             x = range(dim_ind).first +
                 std::fmod(x - range(dim_ind).first, period) +
                 (x < range(dim_ind).first ? period : knot_type{});
+            // a whole number of periods below ends up at the right end
+            if (x == range(dim_ind).second) { x = range(dim_ind).first; }
         }
 #ifdef INTP_TRACE
         if ((*iter > x || *(iter + 1) < x) && x >= range(dim_ind).first &&
-- 
2.43.0


From ce6392f44086584995deb338bc8f88f6115c2b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:56 +0000
Subject: [PATCH 18/18] fix: running window sum spoiled knots of strongly
 graded abscissae

---
 src/include/Interpolation.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 13ec6d6..442839f 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -448,19 +448,20 @@ class InterpolationFunction {
             for (size_type i = 0; i < order + 1; ++i) { xs[i] = l_knot; }
             // first knot is same as first input coordinate
             input_coord.emplace_back(l_knot);
-            // Every knot in middle is average of *order* input
-            // coordinates. This var is to track the sum of a moving window
-            // with width *order*.
-            coord_type window_sum{};
             for (size_type i = 1; i < order; ++i) {
                 input_coord.emplace_back(*(++it));
-                window_sum += input_coord[i];
             }
+            // Every knot in middle is average of *order* input
+            // coordinates. The sum is taken anew for each window, since a
+            // running sum keeps the rounding error of coordinates that are
+            // no longer in the window, which may be much larger.
             for (size_type i = order + 1; i < n; ++i) {
                 input_coord.emplace_back(*(++it));
-                window_sum += input_coord[i - 1];
+                coord_type window_sum{};
+                for (size_type j = i - order; j < i; ++j) {
+                    window_sum += input_coord[j];
+                }
                 xs[i] = window_sum / static_cast<coord_type>(order);
-                window_sum -= input_coord[i - order];
             }
             auto r_knot = *(++it);
             // fill rightmost *order+1* identical knots
-- 
2.43.0

