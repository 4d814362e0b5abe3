From 1ad084094fb872b7501a5399b42d6b023910f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 01/31] fix: report a failed vector allocation with
 std::bad_alloc

The result of realloc was used unchecked: a failed (or overflowing) request
lost the old block and wrote through a null pointer.
---
 include/malg/vector.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index 451769f..f002df3 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -7,6 +7,8 @@
 #include <cassert>
 #include <cstdlib>
 #include <initializer_list>
+#include <limits>
+#include <new>
 #include <utility>
 
 //#define MEM_TRACE
@@ -335,7 +337,14 @@ private:
             return true;
         }
         // Re-allocate the data.
-        _data = static_cast<T *>(std::realloc(_data, sizeof(T) * size));
+        if (size > (std::numeric_limits<std::size_t>::max() / sizeof(T))) {
+            throw std::bad_alloc();
+        }
+        T *data = static_cast<T *>(std::realloc(_data, sizeof(T) * size));
+        if (data == nullptr) {
+            throw std::bad_alloc();
+        }
+        _data = data;
 #ifdef MEM_TRACE
         if (_size == 0)
             std::cout << "Allocating    " << (sizeof(T) * size) << " bytes (" << _data << ")\n";
-- 
2.43.0


From 907c5a8ce61c2e9869a84c2b812bf4a9b1fec5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 02/31] fix: reject in-place products that change the shape

A *= B with a non-square B wrote (or read) beyond the result, which has the
shape of A.
---
 include/malg/math.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index e5a9812..bbc282d 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -236,6 +236,9 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
         throw std::invalid_argument("For matrix multiplication, the number of columns in the first"
                                     "matrix must be equal to the number of rows in the second matrix.");
     }
+    if (A.cols() != B.cols()) {
+        throw std::invalid_argument("In-place matrix multiplication requires the second matrix to be square.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Declare the output matrix.
-- 
2.43.0


From df64304c404fea19a05290cccc9dbffa9100b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 03/31] fix: check the sizes in the product of a matrix and a
 vector

dot(A, b) read beyond b when b is shorter than the rows of A.
---
 include/malg/math.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index bbc282d..3741599 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -973,6 +973,10 @@ inline auto dot(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 template <typename T1, typename T2>
 inline auto dot(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The matrix must have the same number of columns as the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
-- 
2.43.0


From 4c8b4d5e975994ed5e346a906681e37631e08c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 04/31] fix: keep trace() inside matrices with more rows than
 columns

---
 include/malg/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 3741599..9264453 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1228,7 +1228,7 @@ inline auto trace(const MatrixBase<T> &A)
     return sum(diag(A));
 #else
     std::remove_const_t<T> result = 0;
-    for (std::size_t i = 0; i < A.rows(); ++i) {
+    for (std::size_t i = 0; i < std::min(A.rows(), A.cols()); ++i) {
         result += A(i, i);
     }
     return result;
-- 
2.43.0


From c6d97b53b7f4831974a8aca953c1a4100d7ff1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 05/31] fix: linear access through cofactor views of non-square
 matrices

The position was split by the wrong dimension, so operator[] addressed other
elements and memory beyond the matrix.
---
 include/malg/view.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 659181e..2d3a1cd 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -336,9 +336,9 @@ public:
     inline T &operator[](std::size_t pos) override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
@@ -348,9 +348,9 @@ public:
     inline const T &operator[](std::size_t pos) const override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
-- 
2.43.0


From b3b506c7c5e2f9c2872c9999538cbee474d30e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:27 +0000
Subject: [PATCH 06/31] fix: check the sizes in operator*(matrix, vector)

It read beyond the vector when that is shorter than the rows of the matrix.
---
 include/malg/math.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 9264453..b660abd 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -928,6 +928,10 @@ inline auto operator/=(const malg::Vector<T1> &a, const T2 &b)
 template <typename T1, typename T2>
 inline auto operator*(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The matrix must have the same number of columns as the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
-- 
2.43.0


From 8dac534fe2d2dd2e881aa14b9fd929873c909d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:27 +0000
Subject: [PATCH 07/31] fix: report allocation failures while rendering to
 strings

The internal string streams swallowed std::bad_alloc, so that the rendered text
was silently cut short or the column width was wrong.
---
 include/malg/io.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 9475bbc..4d88085 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -28,6 +28,7 @@ template <typename T>
 inline auto get_longhest_value(T &data, std::streamsize precision)
 {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);
     ss.precision(precision);
     int longhest = 0, length;
     for (std::size_t i = 0; i < data.size(); ++i) {
@@ -257,6 +258,7 @@ template <typename T>
 inline std::string dump_vector(const char *name, const malg::Vector<T> &v)
 {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);
     ss << name << " = " << v;
     return ss.str();
 }
@@ -269,6 +271,7 @@ template <typename T>
 inline std::string dump_matrix(const char *name, const malg::MatrixBase<T> &m)
 {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);
     ss << name << " = \n"
        << m;
     return ss.str();
@@ -282,6 +285,7 @@ template <typename T>
 inline std::string to_matlab(const char *name, const malg::Vector<T> &v)
 {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);
     ss << name << " = [";
     for (std::size_t i = 0; i < v.size(); ++i) {
         ss << v[i];
@@ -301,6 +305,7 @@ template <typename T>
 inline std::string to_matlab(const char *name, const malg::MatrixBase<T> &m)
 {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);
     ss << name << " = [";
     for (std::size_t r = 0, c = 0; r < m.rows(); ++r) {
         ss << "[";
@@ -329,6 +334,7 @@ template <typename T>
 inline std::string to_cpp(const char *name, const char *type, const malg::Vector<T> &v)
 {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);
     ss << "malg::Vector<" << type << "> " << name << " = {";
     for (std::size_t i = 0; i < v->size(); ++i) {
         if constexpr (malg::is_complex_v<T>) {
@@ -353,6 +359,7 @@ template <typename T>
 inline std::string to_cpp(const char *name, const char *type, const malg::MatrixBase<T> &m)
 {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);
     ss << "malg::Matrix<" << type << "> " << name << " = {";
     for (std::size_t r = 0, c = 0; r < m->rows(); ++r) {
         ss << "{";
-- 
2.43.0


From 2d8b521f34e341618425827b9e69135513549372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:27 +0000
Subject: [PATCH 08/31] fix: fail loads whose record header is missing or of
 the wrong type

A truncated header left the type and the dimensions uninitialised, and a record
of the wrong type left the stream in a good state.
---
 include/malg/io.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 4d88085..0b64f15 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -162,16 +162,21 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::Range &rhs)
 template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
 {
-    std::size_t size, i;
-    char type;
+    std::size_t size = 0, i;
+    char type = 0;
     // Read the type.
-    lhs >> type;
+    if (!(lhs >> type)) {
+        return lhs;
+    }
     if (type != 'V') {
         std::cerr << "The file does not contain a valid vector.\n";
+        lhs.setstate(std::ios::failbit);
         return lhs;
     }
     // Read the size.
-    lhs >> size;
+    if (!(lhs >> size)) {
+        return lhs;
+    }
     // Prepare the vector.
     rhs.resize(size);
     // Read the vector.
@@ -189,17 +194,21 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
 template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
 {
-    std::size_t rows, cols, r = 0, c = 0;
-    char type;
+    std::size_t rows = 0, cols = 0, r = 0, c = 0;
+    char type = 0;
     // Read the type.
-    lhs >> type;
+    if (!(lhs >> type)) {
+        return lhs;
+    }
     if (type != 'M') {
         std::cerr << "The file does not contain a valid matrix.\n";
+        lhs.setstate(std::ios::failbit);
         return lhs;
     }
     // Read the size.
-    lhs >> rows;
-    lhs >> cols;
+    if (!(lhs >> rows) || !(lhs >> cols)) {
+        return lhs;
+    }
     // Prepare the matrix.
     rhs.resize(rows, cols);
     // Read the matrix.
-- 
2.43.0


From 016d736810913d0adc1b72aa8c49d3dfd6e58d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 09/31] fix: reject extractions that start beyond the matrix

The size of the result underflowed and the constructor wrote through a null or
too small block.
---
 include/malg/utility.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 64f595a..81375f9 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -343,6 +343,9 @@ inline auto extract(const MatrixBase<T> &matrix,
     if (start_column >= end_column) {
         throw std::invalid_argument("The starting column must be lower than the ending column.");
     }
+    if ((start_row > matrix.rows()) || (start_column > matrix.cols())) {
+        throw std::invalid_argument("The starting row and column must be inside the matrix.");
+    }
     using data_type = std::remove_const_t<T>;
     end_row         = std::min(matrix.rows(), end_row);
     end_column      = std::min(matrix.cols(), end_column);
@@ -373,6 +376,9 @@ inline auto extract_column(const MatrixBase<T> &matrix,
     if (column >= matrix.cols()) {
         throw std::invalid_argument("The selected column is outsize the matrix.");
     }
+    if (start_row > matrix.rows()) {
+        throw std::invalid_argument("The starting row must be inside the matrix.");
+    }
     using data_type = std::remove_const_t<T>;
     end_row         = std::min(matrix.rows(), end_row);
     Vector<data_type> result(end_row - start_row, data_type(0.));
@@ -400,6 +406,9 @@ inline auto extract_row(const MatrixBase<T> &matrix,
     if (start_column >= end_column) {
         throw std::invalid_argument("The starting column must be lower than the ending column.");
     }
+    if (start_column > matrix.cols()) {
+        throw std::invalid_argument("The starting column must be inside the matrix.");
+    }
     using data_type = std::remove_const_t<T>;
     end_column      = std::min(matrix.cols(), end_column);
     Vector<data_type> result(end_column - start_column, data_type(0.));
-- 
2.43.0


From b6eb75344b3039897c8046dfb6d21219331623bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 10/31] fix: set the time stamp of the last simulated state

simulate() returned zero as the time of the final state.
---
 include/malg/control/control.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 48aea7b..63284c4 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -148,6 +148,7 @@ inline auto simulate(
         x.emplace_back(step.first);
         y.emplace_back(step.second);
     }
+    t[steps] = rtime;
     return std::make_tuple(t, x, y);
 }
 
-- 
2.43.0


From b2220d5ddc569a8291b51b77e3855a471ef609c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 11/31] fix: leave moved-from matrices empty

A moved-from matrix kept its dimensions without any storage, so that printing,
copying or indexing it accessed a null pointer.
---
 include/malg/matrix.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index f960506..bce659a 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -173,7 +173,9 @@ public:
         : MatrixBase<T>(rhs.rows(), rhs.cols()),
           _data(std::move(rhs._data))
     {
-        // Nothing to do.
+        // The other matrix is empty now.
+        rhs._rows = 0;
+        rhs._cols = 0;
     }
 
     /// @brief Construct a new Matrix object.
@@ -360,6 +362,9 @@ public:
             // Set the new rows and columns.
             this->_rows = rhs.rows();
             this->_cols = rhs.cols();
+            // The other matrix is empty now.
+            rhs._rows = 0;
+            rhs._cols = 0;
         }
         return *this;
     }
-- 
2.43.0


From 4ddc445aaadaba90d975f943173a2017bf5b902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 12/31] fix: assigning an empty matrix makes the target empty

Such an assignment was silently ignored, so that the target kept its old value
(for instance after m = inverse(singular)).
---
 include/malg/matrix.hpp | 62 +++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index bce659a..35294a8 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -263,17 +263,15 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -287,17 +285,15 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -309,17 +305,15 @@ public:
     template <typename T2>
     auto &operator=(const MatrixBase<T2> &rhs)
     {
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -356,7 +350,7 @@ public:
     /// @returns a reference to this matrix.
     auto &operator=(Matrix<T> &&rhs)
     {
-        if ((&rhs != this) && (rhs.size() > 0)) {
+        if (&rhs != this) {
             // Copy the content.
             _data = std::move(rhs._data);
             // Set the new rows and columns.
-- 
2.43.0


From b4e06bceeb2336ad8b026c5f99cb9f8672023625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 13/31] fix: assigning a view of a matrix to that same matrix

The target released its elements before they were read through the view.
---
 include/malg/matrix.hpp | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 35294a8..da39e17 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -285,17 +285,8 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        // Initialize the new vector of data.
-        _data = Vector<T>(rhs.rows() * rhs.cols());
-        // Set the new rows and columns.
-        this->_rows = rhs.rows();
-        this->_cols = rhs.cols();
-        // Copy the content.
-        for (std::size_t r = 0; r < _rows; ++r) {
-            for (std::size_t c = 0; c < _cols; ++c) {
-                this->at(r, c) = rhs(r, c);
-            }
-        }
+        // Copy first, because the other matrix can be a view of this one.
+        *this = Matrix<T>(rhs);
         return *this;
     }
 
@@ -305,17 +296,8 @@ public:
     template <typename T2>
     auto &operator=(const MatrixBase<T2> &rhs)
     {
-        // Initialize the new vector of data.
-        _data = Vector<T>(rhs.rows() * rhs.cols());
-        // Set the new rows and columns.
-        this->_rows = rhs.rows();
-        this->_cols = rhs.cols();
-        // Copy the content.
-        for (std::size_t r = 0; r < _rows; ++r) {
-            for (std::size_t c = 0; c < _cols; ++c) {
-                this->at(r, c) = rhs(r, c);
-            }
-        }
+        // Copy first, because the other matrix can be a view of this one.
+        *this = Matrix<T>(rhs);
         return *this;
     }
 
-- 
2.43.0


From 29ca696a3c33e9c1c25868ac435bfb249303ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 14/31] fix: keep a matrix intact when assigning a list runs
 out of memory

The new dimensions were set before the storage was obtained.
---
 include/malg/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index da39e17..31cb4c2 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -358,12 +358,12 @@ public:
         if (data.begin()->size() <= 0) {
             return *this;
         }
+        // Initialize the vector.
+        _data = Vector<T>(data.size() * data.begin()->size());
         // Get the number of rows.
         this->_rows = data.size();
         // Get the number of columns.
         this->_cols = data.begin()->size();
-        // Initialize the vector.
-        _data = Vector<T>(_rows * _cols);
         // Get an interator for the data.
         auto r_it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r, ++r_it) {
-- 
2.43.0


From bbff51c40bef3b9bf10bf362ef3f9a9797ab01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 15/31] fix: reject matrix dimensions whose product overflows

The matrix claimed more elements than its storage had, also when the dimensions
came from a file.
---
 include/malg/matrix.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 31cb4c2..50322c3 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -10,6 +10,8 @@
 
 #include <algorithm>
 #include <initializer_list>
+#include <limits>
+#include <new>
 #include <vector>
 
 namespace malg
@@ -31,6 +33,18 @@ private:
     /// Columns of the matrix.
     using MatrixBase<T>::_cols;
 
+    /// @brief Computes the number of elements, and checks that it can be represented.
+    /// @param rows the number of rows.
+    /// @param cols the number of columns.
+    /// @return the number of elements.
+    static inline std::size_t elements(std::size_t rows, std::size_t cols)
+    {
+        if ((rows > 0) && (cols > (std::numeric_limits<std::size_t>::max() / rows))) {
+            throw std::bad_alloc();
+        }
+        return rows * cols;
+    }
+
 public:
     /// The data types of the element of the matrix.
     using value_type = T;
@@ -53,7 +67,7 @@ public:
     /// @param initial
     Matrix(std::size_t rows, std::size_t cols, const T &initial = T(0))
         : MatrixBase<T>(rows, cols),
-          _data(rows * cols, initial)
+          _data(elements(rows, cols), initial)
     {
         // Nothing to do.
     }
@@ -215,7 +229,7 @@ public:
     /// @return a reference to this matrix.
     auto &reshape(std::size_t rows, std::size_t cols)
     {
-        if (this->size() != (rows * cols)) {
+        if (this->size() != elements(rows, cols)) {
             throw std::invalid_argument("The new shape has a different number of elements.");
         }
         this->_rows = rows;
@@ -238,7 +252,7 @@ public:
         if (_rows == rows) {
 #endif
             // Resize the data.
-            _data.resize(rows * cols);
+            _data.resize(elements(rows, cols));
         } else {
             malg::Matrix<T> m(rows, cols, static_cast<T>(0));
             for (std::size_t r = 0; r < std::min(_rows, rows); ++r) {
-- 
2.43.0


From b55574b0115798128e0ed6544785cb35746d8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 16/31] fix: reject initial data with fewer elements than the
 matrix

The constructors read beyond the data.
---
 include/malg/matrix.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 50322c3..521cdea 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -78,8 +78,11 @@ public:
     /// @param data
     Matrix(std::size_t rows, std::size_t cols, const std::initializer_list<T> &data)
         : MatrixBase<T>(rows, cols),
-          _data(rows * cols)
+          _data(elements(rows, cols))
     {
+        if (data.size() < this->size()) {
+            throw std::invalid_argument("The input data has fewer elements than the matrix.");
+        }
         auto it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r) {
             for (c = 0; c < _cols; ++c, ++it) {
@@ -94,8 +97,11 @@ public:
     /// @param data
     Matrix(std::size_t rows, std::size_t cols, const std::vector<T> &data)
         : MatrixBase<T>(rows, cols),
-          _data(rows * cols)
+          _data(elements(rows, cols))
     {
+        if (data.size() < this->size()) {
+            throw std::invalid_argument("The input data has fewer elements than the matrix.");
+        }
         auto it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r) {
             for (c = 0; c < _cols; ++c, ++it) {
-- 
2.43.0


From ccab479214fbfb5743340f360a3b421659a7f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 17/31] fix: never write a part of a complex element when
 memory runs out

The stream operator of std::complex formats through an internal string stream
that hides std::bad_alloc, so that saved files and rendered text silently lost
digits.
---
 include/malg/io.hpp | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 0b64f15..c8f1285 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -20,6 +20,33 @@ namespace malg
 namespace details
 {
 
+/// @brief Writes an element to the stream.
+/// @param lhs the stream.
+/// @param value the element.
+template <typename T>
+inline void write_element(std::ostream &lhs, const T &value)
+{
+    lhs << value;
+}
+
+/// @brief Writes a complex element to the stream.
+/// @param lhs the stream.
+/// @param value the element.
+/// @details
+/// The standard operator formats complex values in a string stream of its own,
+/// which hides allocation failures and then provides just a part of the value.
+template <typename T>
+inline void write_element(std::ostream &lhs, const std::complex<T> &value)
+{
+    std::ostringstream ss;
+    ss.exceptions(std::ios::badbit);
+    ss.flags(lhs.flags());
+    ss.imbue(lhs.getloc());
+    ss.precision(lhs.precision());
+    ss << '(' << value.real() << ',' << value.imag() << ')';
+    lhs << ss.str();
+}
+
 /// @brief Returns the longhest value inside the data.
 /// @param data the input data.
 /// @param precision the desired precision.
@@ -33,7 +60,7 @@ inline auto get_longhest_value(T &data, std::streamsize precision)
     int longhest = 0, length;
     for (std::size_t i = 0; i < data.size(); ++i) {
         ss.str("");
-        ss << data[i];
+        write_element(ss, data[i]);
         length = static_cast<int>(ss.str().length());
         if (longhest < length) {
             longhest = length;
@@ -57,7 +84,8 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::Vector<T> &rhs)
     auto length = malg::details::get_longhest_value(rhs, lhs.precision());
     // Print the vector.
     for (i = 0; i < rhs.size(); ++i) {
-        lhs << std::setw(length) << rhs[i];
+        lhs << std::setw(length);
+        malg::details::write_element(lhs, rhs[i]);
         if (i < (rhs.size() - 1)) {
             lhs << " ";
         }
@@ -79,7 +107,8 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::MatrixBase<T> &rh
     // Print the matrix.
     for (r = 0; r < rhs.rows(); ++r) {
         for (c = 0; c < rhs.cols(); ++c) {
-            lhs << std::setw(length) << rhs(r, c);
+            lhs << std::setw(length);
+            malg::details::write_element(lhs, rhs(r, c));
             if (c < (rhs.cols() - 1)) {
                 lhs << " ";
             }
@@ -106,7 +135,8 @@ inline std::ofstream &operator<<(std::ofstream &lhs, const malg::Vector<T> &rhs)
     lhs << "V " << rhs.size() << "\n";
     // Print the vector.
     for (i = 0; i < rhs.size(); ++i) {
-        lhs << std::setw(length) << rhs[i];
+        lhs << std::setw(length);
+        malg::details::write_element(lhs, rhs[i]);
         if (i < (rhs.size() - 1)) {
             lhs << " ";
         }
@@ -131,7 +161,8 @@ inline std::ofstream &operator<<(std::ofstream &lhs, const malg::MatrixBase<T> &
     // Print the matrix.
     for (r = 0; r < rhs.rows(); ++r) {
         for (c = 0; c < rhs.cols(); ++c) {
-            lhs << std::setw(length) << rhs(r, c);
+            lhs << std::setw(length);
+            malg::details::write_element(lhs, rhs(r, c));
             if (c < (rhs.cols() - 1)) {
                 lhs << " ";
             }
@@ -297,7 +328,7 @@ inline std::string to_matlab(const char *name, const malg::Vector<T> &v)
     ss.exceptions(std::ios::badbit);
     ss << name << " = [";
     for (std::size_t i = 0; i < v.size(); ++i) {
-        ss << v[i];
+        details::write_element(ss, v[i]);
         if (i < (v.size() - 1)) {
             ss << " ";
         }
-- 
2.43.0


From d074d91c37a7ed6fc682ae6d836119a9115e3029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:53 +0000
Subject: [PATCH 18/31] fix: scaling a matrix by one of its own elements

---
 include/malg/math.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index b660abd..f48fd10 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -264,9 +264,11 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
 inline auto &operator*=(malg::MatrixBase<T1> &A, const T2 &b)
 {
+    // Copy the scalar, because it can be an element of the matrix.
+    const T2 value = b;
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
-        A[i] = A[i] * b;
+        A[i] = A[i] * value;
     }
     return A;
 }
@@ -296,9 +298,11 @@ inline auto operator/(const malg::MatrixBase<T1> &A, const T2 &b)
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
 inline auto &operator/=(malg::MatrixBase<T1> &A, const T2 &b)
 {
+    // Copy the scalar, because it can be an element of the matrix.
+    const T2 value = b;
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
-        A[i] = A[i] / b;
+        A[i] = A[i] / value;
     }
     return A;
 }
-- 
2.43.0


From 0e2475c04f069b428e37fd0b4e46a2fefa4aad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 19/31] fix: views of matrices that became smaller than their
 start are empty

---
 include/malg/view.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 2d3a1cd..7050b4c 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -73,14 +73,18 @@ public:
     /// @returns the number of rows.
     inline std::size_t rows() const override
     {
-        return std::min(_row.stop, _matrix->rows()) - _row.start;
+        const std::size_t stop = std::min(_row.stop, _matrix->rows());
+        // The matrix can have shrunk below the start of the view.
+        return (stop > _row.start) ? (stop - _row.start) : 0;
     }
 
     /// @brief Get the number of columns of the matrix.
     /// @returns the number of columns.
     inline std::size_t cols() const override
     {
-        return std::min(_col.stop, _matrix->cols()) - _col.start;
+        const std::size_t stop = std::min(_col.stop, _matrix->cols());
+        // The matrix can have shrunk below the start of the view.
+        return (stop > _col.start) ? (stop - _col.start) : 0;
     }
 
     /// @brief Returns the total size of the matrix.
@@ -285,14 +289,14 @@ public:
     /// @returns the number of rows.
     inline std::size_t rows() const override
     {
-        return _matrix->rows() - 1;
+        return (_matrix->rows() > 0) ? (_matrix->rows() - 1) : 0;
     }
 
     /// @brief Get the number of columns of the matrix.
     /// @returns the number of columns.
     inline std::size_t cols() const override
     {
-        return _matrix->cols() - 1;
+        return (_matrix->cols() > 0) ? (_matrix->cols() - 1) : 0;
     }
 
     /// @brief Returns the total size of the matrix.
-- 
2.43.0


From 1536ae4f10e9dba8ac66b82ee892e17f2f5fa3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 20/31] fix: a view is empty only if its window is

---
 include/malg/matrix_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/matrix_base.hpp b/include/malg/matrix_base.hpp
index dbbb732..9198668 100644
--- a/include/malg/matrix_base.hpp
+++ b/include/malg/matrix_base.hpp
@@ -76,7 +76,7 @@ public:
     /// @returns false otherwise.
     inline virtual bool empty() const
     {
-        return (_rows == 0) || (_cols == 0);
+        return (this->rows() == 0) || (this->cols() == 0);
     }
 
     /// @brief Returns a pointer to the internal data.
-- 
2.43.0


From 7ff986632efbde9be9a64decb0d3da7e617becf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 21/31] fix: treat constant complex types as complex

---
 include/malg/type_traits.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/malg/type_traits.hpp b/include/malg/type_traits.hpp
index a7c24f3..e6d89a6 100644
--- a/include/malg/type_traits.hpp
+++ b/include/malg/type_traits.hpp
@@ -26,6 +26,14 @@ struct is_complex<std::complex<T>> : public std::true_type {
     using type = T; ///< An alias for T.
 };
 
+/// @brief This structure has a twofold purpose, it can be used to check if a
+/// type is a complex, or to extract the internal type of a complex.
+/// @tparam T the internal type of a constant complex.
+template <typename T>
+struct is_complex<const std::complex<T>> : public std::true_type {
+    using type = T; ///< An alias for T.
+};
+
 /// @brief Alias template for checking if a type is complex.F
 /// @tparam T the type we are analyzing.
 /// @details
-- 
2.43.0


From 8bdbef656c28dd4c2ce18f9041825c233bba0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 22/31] fix: do not iterate over the rows of a matrix without
 columns while loading

---
 include/malg/io.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index c8f1285..de7f58b 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -242,6 +242,10 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
     }
     // Prepare the matrix.
     rhs.resize(rows, cols);
+    // Without elements there is nothing to read, whatever the number of rows.
+    if (rhs.empty()) {
+        return lhs;
+    }
     // Read the matrix.
     for (r = 0; r < rhs.rows(); ++r) {
         for (c = 0; c < rhs.cols(); ++c) {
-- 
2.43.0


From b12ed0949119454ee7ed9e4cec3c8860c4c328fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 23/31] fix: reject lists of rows of which one is shorter than
 the first

---
 include/malg/matrix.hpp | 12 ++++++++++++
 include/malg/view.hpp   |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 521cdea..76799c4 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -124,6 +124,12 @@ public:
         if (data.begin()->size() <= 0) {
             throw std::invalid_argument("The input list has no columns.");
         }
+        // Check that no row is shorter than the first one.
+        for (const auto &row : data) {
+            if (row.size() < data.begin()->size()) {
+                throw std::invalid_argument("The rows of the input list have different sizes.");
+            }
+        }
         // Get the number of rows.
         this->_rows = data.size();
         // Get the number of columns.
@@ -378,6 +384,12 @@ public:
         if (data.begin()->size() <= 0) {
             return *this;
         }
+        // Check that no row is shorter than the first one.
+        for (const auto &row : data) {
+            if (row.size() < data.begin()->size()) {
+                throw std::invalid_argument("The rows of the input list have different sizes.");
+            }
+        }
         // Initialize the vector.
         _data = Vector<T>(data.size() * data.begin()->size());
         // Get the number of rows.
diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 7050b4c..118e475 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -158,6 +158,13 @@ public:
             std::cerr << "View: second dimension of initializer list is incompatible (" << this->cols() << " vs " << data.begin()->size() << ").\n";
             return *this;
         }
+        // Check that no row is shorter than the first one.
+        for (const auto &row : data) {
+            if (row.size() < data.begin()->size()) {
+                std::cerr << "View: the rows of the initializer list have different sizes.\n";
+                return *this;
+            }
+        }
         // Get an interator for the data.
         auto r_it = data.begin();
         decltype(r_it->begin()) c_it;
-- 
2.43.0


From cc7e79cd23adee7ce676eb5feb82e0efacaf0a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 24/31] fix: acker reports operands that do not fit instead of
 ending the process

---
 include/malg/control/control.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 63284c4..f994897 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -8,6 +8,7 @@
 #include "malg/linalg.hpp"
 #include "malg/feq.hpp"
 
+#include <stdexcept>
 #include <tuple>
 
 namespace malg::control
@@ -292,19 +293,16 @@ template <typename T>
 inline auto acker(const MatrixBase<T> &A, const MatrixBase<T> &B, const MatrixBase<T> &poles)
 {
     if (!utility::is_square(A) || !utility::is_column_vector(B) || (A.rows() != B.rows())) {
-        std::cerr << "acker: matrix A and vector B not conformal.\n";
-        exit(1);
+        throw std::invalid_argument("acker: matrix A and vector B not conformal.");
     }
     // poles could be complex.
     if (!utility::is_row_vector(poles) || poles.empty()) {
-        std::cerr << "acker: poles must be a vector.\n";
-        exit(1);
+        throw std::invalid_argument("acker: poles must be a vector.");
     }
     // Make sure the system is controllable.
     auto ct = ctrb<T>(A, B);
     if (malg::feq::approximately_equal_to_zero(linalg::determinant(ct))) {
-        std::cerr << "acker: system not reachable, pole placement invalid.\n";
-        exit(1);
+        throw std::invalid_argument("acker: system not reachable, pole placement invalid.");
     }
     // Compute the desired characteristic polynomial.
     auto p = poly(poles);
-- 
2.43.0


From 23d600e4348fc1fb3527222056209a18f0e1b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 25/31] fix: reject operands that do not fit in release builds
 as well

---
 include/malg/control/control.hpp |  6 +++---
 include/malg/vector.hpp          |  6 ++++--
 include/malg/view.hpp            | 33 ++++++++++++++++++++++++--------
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index f994897..5904419 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -98,9 +98,9 @@ inline auto c2d(const StateSpace<T> &sys, T sample_time)
     // Set the sampling period.
     dsys.sample_time = sample_time;
     // Check the dimensions.
-    assert(dsys.A.rows() == dsys.A.cols());
-    assert(dsys.B.rows() == dsys.A.rows());
-    assert(dsys.C.cols() == dsys.A.rows());
+    if ((dsys.A.rows() != dsys.A.cols()) || (dsys.B.rows() != dsys.A.rows()) || (dsys.C.cols() != dsys.A.rows())) {
+        throw std::invalid_argument("c2d: the matrices of the model do not fit.");
+    }
     return dsys;
 }
 
diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index f002df3..cdeb267 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -4,11 +4,11 @@
 
 #pragma once
 
-#include <cassert>
 #include <cstdlib>
 #include <initializer_list>
 #include <limits>
 #include <new>
+#include <stdexcept>
 #include <utility>
 
 //#define MEM_TRACE
@@ -68,7 +68,9 @@ public:
         : _data(nullptr),
           _size(0)
     {
-        assert(size == data.size());
+        if (size != data.size()) {
+            throw std::invalid_argument("The list has a different number of elements.");
+        }
         if (this->allocate(size)) {
             auto it = data.begin();
             for (std::size_t i = 0; i < _size; ++i) {
diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 118e475..98dad2e 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -8,6 +8,7 @@
 #include "malg/matrix.hpp"
 
 #include <iostream>
+#include <stdexcept>
 
 namespace malg
 {
@@ -100,8 +101,12 @@ public:
     template <typename T2>
     inline auto &operator=(const MatrixBase<T2> &rhs)
     {
-        assert(this->rows() == rhs.rows());
-        assert(this->cols() == rhs.cols());
+        if (this->rows() != rhs.rows()) {
+            throw std::invalid_argument("Matrices has different number of rows.");
+        }
+        if (this->cols() != rhs.cols()) {
+            throw std::invalid_argument("Matrices has different number of colmuns.");
+        }
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
@@ -113,8 +118,12 @@ public:
     /// @returns a reference to this matrix.
     inline auto &operator=(const View<MatrixType> &rhs)
     {
-        assert(this->rows() == rhs.rows());
-        assert(this->cols() == rhs.cols());
+        if (this->rows() != rhs.rows()) {
+            throw std::invalid_argument("Matrices has different number of rows.");
+        }
+        if (this->cols() != rhs.cols()) {
+            throw std::invalid_argument("Matrices has different number of colmuns.");
+        }
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
@@ -127,8 +136,12 @@ public:
     template <typename T2>
     inline auto &operator=(const View<T2> &rhs)
     {
-        assert(this->rows() == rhs.rows());
-        assert(this->cols() == rhs.cols());
+        if (this->rows() != rhs.rows()) {
+            throw std::invalid_argument("Matrices has different number of rows.");
+        }
+        if (this->cols() != rhs.cols()) {
+            throw std::invalid_argument("Matrices has different number of colmuns.");
+        }
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
@@ -319,8 +332,12 @@ public:
     template <typename T2>
     inline auto &operator=(const MatrixBase<T2> &rhs)
     {
-        assert(this->rows() == rhs.rows());
-        assert(this->cols() == rhs.cols());
+        if (this->rows() != rhs.rows()) {
+            throw std::invalid_argument("Matrices has different number of rows.");
+        }
+        if (this->cols() != rhs.cols()) {
+            throw std::invalid_argument("Matrices has different number of colmuns.");
+        }
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
-- 
2.43.0


From fbb80233ff3109c484528c839edfb37ad066bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 26/31] fix: reject views of an empty range instead of ending
 the process

---
 include/malg/view.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 98dad2e..7f978c9 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -53,8 +53,9 @@ public:
           _row{ start_row, end_row },
           _col{ start_col, end_col }
     {
-        assert(_row.start < _row.stop);
-        assert(_col.start < _col.stop);
+        if ((_row.start >= _row.stop) || (_col.start >= _col.stop)) {
+            throw std::invalid_argument("The range of the view is empty.");
+        }
     }
 
     /// @brief Creates a **View** for the given **matrix**.
@@ -66,8 +67,9 @@ public:
           _row{ row },
           _col{ col }
     {
-        assert(_row.start < _row.stop);
-        assert(_col.start < _col.stop);
+        if ((_row.start >= _row.stop) || (_col.start >= _col.stop)) {
+            throw std::invalid_argument("The range of the view is empty.");
+        }
     }
 
     /// @brief Get the number of rows of the matrix.
-- 
2.43.0


From aa1d75f26eba3f057a9c7339bc16bbd51c22da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 27/31] fix: acker with a number of poles other than the order
 of the model

---
 include/malg/control/control.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 5904419..3d56125 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -299,6 +299,9 @@ inline auto acker(const MatrixBase<T> &A, const MatrixBase<T> &B, const MatrixBa
     if (!utility::is_row_vector(poles) || poles.empty()) {
         throw std::invalid_argument("acker: poles must be a vector.");
     }
+    if (poles.size() != A.rows()) {
+        throw std::invalid_argument("acker: as many poles as states are required.");
+    }
     // Make sure the system is controllable.
     auto ct = ctrb<T>(A, B);
     if (malg::feq::approximately_equal_to_zero(linalg::determinant(ct))) {
-- 
2.43.0


From 3c5dbbff917ff870c2641f7171013fac9fae1810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 28/31] fix: scaling a matrix with an infinite norm while
 rounding upwards never ended

---
 include/malg/math.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index f48fd10..9852083 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1501,7 +1501,12 @@ auto log2_ceil(const malg::MatrixBase<T> &A)
     data_type_t scale      = 1.0;
     const auto norm        = malg::infinity_norm(A);
     while ((norm * scale) > 1.0) {
-        scale *= 0.5;
+        const data_type_t half = scale * 0.5;
+        // The norm can be infinite, and halving can be rounded upwards.
+        if (!(half < scale)) {
+            break;
+        }
+        scale = half;
         ++iterations;
     }
     return std::make_pair(iterations, scale);
-- 
2.43.0


From f8ad45684392fb0b8b3b548116b3347f45bd87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 29/31] fix: number of steps of simulations of negative,
 infinite or huge duration

---
 include/malg/control/control.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 3d56125..8118254 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -134,7 +134,12 @@ inline auto simulate(
     Vector<T> init)
 {
     // Compute the simulation steps.
-    auto steps = std::min(u.size(), static_cast<size_t>(simulated_time / sys.sample_time));
+    const double ratio = simulated_time / sys.sample_time;
+    std::size_t steps  = u.size();
+    // The ratio can be negative, infinite, or too large for an integer.
+    if (!(ratio >= static_cast<double>(steps))) {
+        steps = (ratio > 0.) ? static_cast<std::size_t>(ratio) : 0;
+    }
     // Prepare a vector for the time vector.
     std::vector<T> t(steps + 1, 0.);
     // Prepare a vector for the state vector, specifically just the initial value.
-- 
2.43.0


From f2dbe53dc63ed40452204af005ea04c78708f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 30/31] fix: the series of expm() did not end while rounding
 upwards

---
 include/malg/linalg.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index fb45a9a..ba00a95 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -423,8 +423,13 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
     for (std::size_t batch_start_idx = 1; (rel_square_diff > square_accuracy && !malg::feq::approximately_equal_to_zero(fac_inv)); batch_start_idx += batch_size) {
         auto local_accum = malg::Matrix<T>(A.rows(), A.cols());
         for (std::size_t i = 0; i < batch_size; ++i) {
-            const double k = static_cast<double>(batch_start_idx + i);
-            fac_inv        = fac_inv * (1.0 / k);
+            const double k      = static_cast<double>(batch_start_idx + i);
+            const auto previous = fac_inv;
+            fac_inv             = fac_inv * (1.0 / k);
+            // It does not become smaller any more, when rounding upwards.
+            if ((k > 1.0) && !(fac_inv < previous)) {
+                fac_inv = 0.0;
+            }
             if (malg::feq::approximately_equal(fac_inv, 0.0)) {
                 break;
             }
-- 
2.43.0


From c0d2bf743a81a6c7f84c53f219746f38efc94eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 31/31] fix: wilkinson_shift reads outside of empty and
 non-square matrices

---
 include/malg/eigen.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 9ab168e..a384b9d 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -25,6 +25,9 @@ namespace malg::eigen
 template <typename T>
 inline auto wilkinson_shift(const malg::Matrix<std::complex<T>> &A)
 {
+    if (!utility::is_square(A) || A.empty()) {
+        throw std::invalid_argument("The input matrix is not square.");
+    }
     std::complex<T> s(0.0);
     std::size_t N = A.rows() - 1;
     if (N > 0) {
-- 
2.43.0

