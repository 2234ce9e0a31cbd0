From 7cbfccf6e3b3d01b191957811dc6ba4ef71e3fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 01/57] fix: report a failed Vector allocation instead of using
 a null buffer

---
 include/malg/vector.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index 451769f..e4ddad0 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -7,6 +7,8 @@
 #include <cassert>
 #include <cstdlib>
 #include <initializer_list>
+#include <limits>
+#include <new>
 #include <utility>
 
 //#define MEM_TRACE
@@ -334,8 +336,16 @@ private:
         if (size == _size) {
             return true;
         }
-        // Re-allocate the data.
-        _data = static_cast<T *>(std::realloc(_data, sizeof(T) * size));
+        // The number of bytes must be representable.
+        if (size > (std::numeric_limits<std::size_t>::max() / sizeof(T))) {
+            throw std::bad_alloc();
+        }
+        // Re-allocate the data, if it fails the current data is left untouched.
+        T *data = static_cast<T *>(std::realloc(_data, sizeof(T) * size));
+        if (data == nullptr) {
+            throw std::bad_alloc();
+        }
+        _data = data;
 #ifdef MEM_TRACE
         if (_size == 0)
             std::cout << "Allocating    " << (sizeof(T) * size) << " bytes (" << _data << ")\n";
-- 
2.43.0


From 0f2b824cd04fc9f918d1beeec3ef437020ac8ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 02/57] fix: remove the Vector rvalue conversions that swap
 buffers of different types

---
 include/malg/vector.hpp | 28 ----------------------------
 1 file changed, 28 deletions(-)

diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index e4ddad0..accb050 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -131,20 +131,6 @@ public:
         }
     }
 
-    /// @brief Copy construct a new Vector object.
-    /// @param other the other vector.
-    template <typename T2>
-    explicit Vector(Vector<T2> &&other)
-        : _data(),
-          _size()
-    {
-        if (this != &other) {
-            this->deallocate();
-            std::swap(_data, other._data);
-            std::swap(_size, other._size);
-        }
-    }
-
     /// @brief Destroy the Vector object.
     ~Vector()
     {
@@ -256,20 +242,6 @@ public:
         return *this;
     }
 
-    /// @brief Assignment operator.
-    /// @param other the other vector.
-    /// @returns this vector.
-    template <typename T2>
-    inline auto &operator=(Vector<T2> &&other)
-    {
-        if (this != &other) {
-            this->deallocate();
-            std::swap(_data, other._data);
-            std::swap(_size, other._size);
-        }
-        return *this;
-    }
-
     /// @brief Provides a pointer to the begining of the vector.
     /// @returns the pointer.
     inline const_iterator begin() const
-- 
2.43.0


From c82432f7e4deec806b824de2b62810dd8bb36d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 03/57] fix: remove the Matrix rvalue conversion that moves a
 buffer of another type

---
 include/malg/matrix.hpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index f960506..96051c2 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -176,17 +176,6 @@ public:
         // Nothing to do.
     }
 
-    /// @brief Construct a new Matrix object.
-    /// @tparam T2 the type of the other matrix.
-    /// @param rhs the other matrix.
-    template <typename T2>
-    explicit Matrix(Matrix<T2> &&rhs)
-        : MatrixBase<T>(rhs.rows(), rhs.cols()),
-          _data(std::move(rhs._data))
-    {
-        // Nothing to do.
-    }
-
     /// @brief Destroy the Matrix object.
     virtual ~Matrix() override
     {
-- 
2.43.0


From 3916a789850ac0d58a6e0bc61e0eae8b7c2559fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 04/57] fix: leave a moved-from matrix empty

---
 include/malg/matrix.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 96051c2..38ca875 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -173,7 +173,9 @@ public:
         : MatrixBase<T>(rhs.rows(), rhs.cols()),
           _data(std::move(rhs._data))
     {
-        // Nothing to do.
+        // The data is gone, the shape must follow.
+        rhs._rows = 0;
+        rhs._cols = 0;
     }
 
     /// @brief Destroy the Matrix object.
@@ -349,6 +351,9 @@ public:
             // Set the new rows and columns.
             this->_rows = rhs.rows();
             this->_cols = rhs.cols();
+            // The data is gone, the shape must follow.
+            rhs._rows = 0;
+            rhs._cols = 0;
         }
         return *this;
     }
-- 
2.43.0


From b8836ebf2a974cb1b12e87ac5c08234d197bf6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 05/57] fix: make the assignment of a matrix of another type
 compile

---
 include/malg/matrix.hpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 38ca875..a992036 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -320,20 +320,16 @@ public:
     template <typename T2>
     Matrix<T> &operator=(const Matrix<T2> &rhs)
     {
-        if (&rhs != this) {
-            if (!std::is_same_v<T, T2>) {
-                if (rhs.size() > 0) {
-                    // Initialize the new vector of data.
-                    _data = Vector<T>(rhs.rows() * rhs.cols());
-                    // Set the new rows and columns.
-                    this->_rows = rhs.rows();
-                    this->_cols = rhs.cols();
-                    // Copy the content.
-                    for (std::size_t r = 0; r < _rows; ++r) {
-                        for (std::size_t c = 0; c < _cols; ++c) {
-                            this->at(r, c) = rhs(r, c);
-                        }
-                    }
+        if (rhs.size() > 0) {
+            // Initialize the new vector of data.
+            _data = Vector<T>(rhs.rows() * rhs.cols());
+            // Set the new rows and columns.
+            this->_rows = rhs.rows();
+            this->_cols = rhs.cols();
+            // Copy the content.
+            for (std::size_t r = 0; r < _rows; ++r) {
+                for (std::size_t c = 0; c < _cols; ++c) {
+                    this->at(r, c) = rhs(r, c);
                 }
             }
         }
-- 
2.43.0


From 9a255b18fce5812344925f0ad9c69757314f1c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 06/57] fix: assigning an empty matrix empties the target

---
 include/malg/matrix.hpp | 82 +++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 45 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index a992036..fde5d34 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -252,17 +252,15 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -276,17 +274,15 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -298,17 +294,15 @@ public:
     template <typename T2>
     auto &operator=(const MatrixBase<T2> &rhs)
     {
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -320,17 +314,15 @@ public:
     template <typename T2>
     Matrix<T> &operator=(const Matrix<T2> &rhs)
     {
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -341,7 +333,7 @@ public:
     /// @returns a reference to this matrix.
     auto &operator=(Matrix<T> &&rhs)
     {
-        if ((&rhs != this) && (rhs.size() > 0)) {
+        if (&rhs != this) {
             // Copy the content.
             _data = std::move(rhs._data);
             // Set the new rows and columns.
-- 
2.43.0


From 95a388c643c8580be3bef16859b2ea0c0320f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 07/57] fix: do not free a matrix while assigning a view of
 itself to it

---
 include/malg/matrix.hpp | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index fde5d34..fae60ed 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -274,18 +274,9 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        // Initialize the new vector of data.
-        _data = Vector<T>(rhs.rows() * rhs.cols());
-        // Set the new rows and columns.
-        this->_rows = rhs.rows();
-        this->_cols = rhs.cols();
-        // Copy the content.
-        for (std::size_t r = 0; r < _rows; ++r) {
-            for (std::size_t c = 0; c < _cols; ++c) {
-                this->at(r, c) = rhs(r, c);
-            }
-        }
-        return *this;
+        // The right-hand side might be a view of this very matrix, thus we must
+        // read it before touching our data.
+        return *this = Matrix<T>(rhs);
     }
 
     /// @brief Assign operator.
@@ -294,18 +285,9 @@ public:
     template <typename T2>
     auto &operator=(const MatrixBase<T2> &rhs)
     {
-        // Initialize the new vector of data.
-        _data = Vector<T>(rhs.rows() * rhs.cols());
-        // Set the new rows and columns.
-        this->_rows = rhs.rows();
-        this->_cols = rhs.cols();
-        // Copy the content.
-        for (std::size_t r = 0; r < _rows; ++r) {
-            for (std::size_t c = 0; c < _cols; ++c) {
-                this->at(r, c) = rhs(r, c);
-            }
-        }
-        return *this;
+        // The right-hand side might be a view of this very matrix, thus we must
+        // read it before touching our data.
+        return *this = Matrix<T>(rhs);
     }
 
     /// @brief Assign operator.
-- 
2.43.0


From 4b1636b6cb30747033eb5c3c1cbd16a753dd00d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 08/57] fix: reject matrix initialisation data that does not
 fill the matrix

---
 include/malg/matrix.hpp | 19 +++++++++++++++++++
 include/malg/view.hpp   |  6 ++++++
 2 files changed, 25 insertions(+)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index fae60ed..4e55a7a 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -10,6 +10,7 @@
 
 #include <algorithm>
 #include <initializer_list>
+#include <stdexcept>
 #include <vector>
 
 namespace malg
@@ -66,6 +67,9 @@ public:
         : MatrixBase<T>(rows, cols),
           _data(rows * cols)
     {
+        if (data.size() < (rows * cols)) {
+            throw std::invalid_argument("The input list has fewer elements than the matrix.");
+        }
         auto it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r) {
             for (c = 0; c < _cols; ++c, ++it) {
@@ -82,6 +86,9 @@ public:
         : MatrixBase<T>(rows, cols),
           _data(rows * cols)
     {
+        if (data.size() < (rows * cols)) {
+            throw std::invalid_argument("The input list has fewer elements than the matrix.");
+        }
         auto it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r) {
             for (c = 0; c < _cols; ++c, ++it) {
@@ -104,6 +111,12 @@ public:
         if (data.begin()->size() <= 0) {
             throw std::invalid_argument("The input list has no columns.");
         }
+        // Check that all the rows have the same number of columns.
+        for (const auto &row : data) {
+            if (row.size() != data.begin()->size()) {
+                throw std::invalid_argument("The rows of the input list have different sizes.");
+            }
+        }
         // Get the number of rows.
         this->_rows = data.size();
         // Get the number of columns.
@@ -341,6 +354,12 @@ public:
         if (data.begin()->size() <= 0) {
             return *this;
         }
+        // Check that all the rows have the same number of columns.
+        for (const auto &row : data) {
+            if (row.size() != data.begin()->size()) {
+                throw std::invalid_argument("The rows of the input list have different sizes.");
+            }
+        }
         // Get the number of rows.
         this->_rows = data.size();
         // Get the number of columns.
diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 659181e..3f38fc1 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -154,6 +154,12 @@ public:
             std::cerr << "View: second dimension of initializer list is incompatible (" << this->cols() << " vs " << data.begin()->size() << ").\n";
             return *this;
         }
+        // Check that all the rows have the same number of columns.
+        for (const auto &row : data) {
+            if (row.size() != data.begin()->size()) {
+                throw std::invalid_argument("The rows of the input list have different sizes.");
+            }
+        }
         // Get an interator for the data.
         auto r_it = data.begin();
         decltype(r_it->begin()) c_it;
-- 
2.43.0


From e51b35ebda8df0278fe25f44ca27f96c5e7f6bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 09/57] fix: reject matrix shapes whose number of elements
 overflows

---
 include/malg/matrix.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 4e55a7a..4fcf99b 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -10,6 +10,7 @@
 
 #include <algorithm>
 #include <initializer_list>
+#include <limits>
 #include <stdexcept>
 #include <vector>
 
@@ -32,6 +33,18 @@ private:
     /// Columns of the matrix.
     using MatrixBase<T>::_cols;
 
+    /// @brief Computes the number of elements, making sure it is representable.
+    /// @param rows the number of rows.
+    /// @param cols the number of columns.
+    /// @return the number of elements.
+    static inline std::size_t count_elements(std::size_t rows, std::size_t cols)
+    {
+        if ((cols > 0) && (rows > (std::numeric_limits<std::size_t>::max() / cols))) {
+            throw std::length_error("The matrix has too many elements.");
+        }
+        return rows * cols;
+    }
+
 public:
     /// The data types of the element of the matrix.
     using value_type = T;
@@ -54,7 +67,7 @@ public:
     /// @param initial
     Matrix(std::size_t rows, std::size_t cols, const T &initial = T(0))
         : MatrixBase<T>(rows, cols),
-          _data(rows * cols, initial)
+          _data(count_elements(rows, cols), initial)
     {
         // Nothing to do.
     }
@@ -65,7 +78,7 @@ public:
     /// @param data
     Matrix(std::size_t rows, std::size_t cols, const std::initializer_list<T> &data)
         : MatrixBase<T>(rows, cols),
-          _data(rows * cols)
+          _data(count_elements(rows, cols))
     {
         if (data.size() < (rows * cols)) {
             throw std::invalid_argument("The input list has fewer elements than the matrix.");
@@ -84,7 +97,7 @@ public:
     /// @param data
     Matrix(std::size_t rows, std::size_t cols, const std::vector<T> &data)
         : MatrixBase<T>(rows, cols),
-          _data(rows * cols)
+          _data(count_elements(rows, cols))
     {
         if (data.size() < (rows * cols)) {
             throw std::invalid_argument("The input list has fewer elements than the matrix.");
@@ -217,7 +230,7 @@ public:
     /// @return a reference to this matrix.
     auto &reshape(std::size_t rows, std::size_t cols)
     {
-        if (this->size() != (rows * cols)) {
+        if (this->size() != count_elements(rows, cols)) {
             throw std::invalid_argument("The new shape has a different number of elements.");
         }
         this->_rows = rows;
@@ -240,7 +253,7 @@ public:
         if (_rows == rows) {
 #endif
             // Resize the data.
-            _data.resize(rows * cols);
+            _data.resize(count_elements(rows, cols));
         } else {
             malg::Matrix<T> m(rows, cols, static_cast<T>(0));
             for (std::size_t r = 0; r < std::min(_rows, rows); ++r) {
-- 
2.43.0


From ff191927ab238505a8f4b6d565e2088382acf9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 10/57] fix: reject in-place products that change the shape of
 the matrix

---
 include/malg/math.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index e5a9812..3708d5c 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -236,6 +236,9 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
         throw std::invalid_argument("For matrix multiplication, the number of columns in the first"
                                     "matrix must be equal to the number of rows in the second matrix.");
     }
+    if (B.rows() != B.cols()) {
+        throw std::invalid_argument("For in-place matrix multiplication, the second matrix must be square.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Declare the output matrix.
-- 
2.43.0


From 511a96b9ef4ad21a44103db397a11577b2d94832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 11/57] fix: check the sizes in matrix-vector products

---
 include/malg/linalg.hpp | 7 ++++++-
 include/malg/math.hpp   | 8 ++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index fb45a9a..9a58b7a 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -354,7 +354,12 @@ auto solve(const Matrix<T> &A, const Vector<T> &b)
 {
     std::size_t rows = A.rows(), cols = A.cols();
     if (rows == cols) {
-        return malg::dot(linalg::inverse(A), b);
+        auto inv = linalg::inverse(A);
+        // If the matrix is singular there is no solution.
+        if (inv.empty()) {
+            return decltype(malg::dot(inv, b))();
+        }
+        return malg::dot(inv, b);
     }
     // Overdetermined system.
     if (rows > cols) {
diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 3708d5c..3bb6edf 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -928,6 +928,10 @@ inline auto operator/=(const malg::Vector<T1> &a, const T2 &b)
 template <typename T1, typename T2>
 inline auto operator*(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The number of columns of the matrix must be equal to the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
@@ -973,6 +977,10 @@ inline auto dot(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 template <typename T1, typename T2>
 inline auto dot(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The number of columns of the matrix must be equal to the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
-- 
2.43.0


From 8ac7ef6417cec499bcf073f4a9eff693f7d4e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 12/57] fix: make in-place operations between matrix or vector
 and scalar usable

---
 include/malg/math.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 3bb6edf..8c7fc41 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -82,7 +82,7 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator+=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -160,7 +160,7 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator-=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -720,7 +720,7 @@ inline auto &operator+=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the sum of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator+=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator+=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -796,7 +796,7 @@ inline auto &operator-=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the subtraction of the scalar from the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator-=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator-=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -872,7 +872,7 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the multiplication of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator*=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator*=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -908,7 +908,7 @@ inline auto operator/(const malg::Vector<T1> &a, const T2 &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the division of the elements of the vector by the scalar.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator/=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From 53ad737120d3d4eebf8c82e51ef0d102904e9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 13/57] fix: use the size of the vector when multiplying a
 scalar by a vector

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 8c7fc41..fd55d2b 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -859,9 +859,9 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Declare the output vector.
-    malg::Vector<data_type_t> result(a.size());
+    malg::Vector<data_type_t> result(b.size());
     // Perform the operation.
-    for (std::size_t i = 0; i < a.size(); ++i) {
+    for (std::size_t i = 0; i < b.size(); ++i) {
         result[i] = a * b[i];
     }
     return result;
-- 
2.43.0


From ec8b0e7d300de21f99cb50aff8eebf7bbd9eb8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 14/57] fix: support mixed types and infinities in the
 approximate comparisons

---
 include/malg/feq.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index 70f25f4..e3dbbfd 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <complex>
@@ -26,7 +27,13 @@ static inline auto &tolerance()
 template <typename T1, typename T2>
 inline bool approximately_equal(T1 a, T2 b)
 {
-    return std::abs(a - b) <= tolerance() * std::max(std::abs(a), std::abs(b));
+    using magnitude_t = std::common_type_t<decltype(std::abs(a)), decltype(std::abs(b))>;
+    const auto magnitude = std::max<magnitude_t>(std::abs(a), std::abs(b));
+    // The tolerance is meaningless for infinities, they are just equal or not.
+    if (std::isinf(magnitude)) {
+        return a == b;
+    }
+    return std::abs(a - b) <= tolerance() * magnitude;
 }
 
 /// @brief Checks if the fir floating point value is lesser than or equal to the second one.
@@ -58,7 +65,7 @@ inline bool approximately_greater_than_equal(T1 a, T2 b)
 template <typename T>
 inline bool approximately_equal_to_zero(T a)
 {
-    return std::abs(a) <= malg::feq::tolerance() * std::abs(a);
+    return !std::isinf(std::abs(a)) && (std::abs(a) <= malg::feq::tolerance() * std::abs(a));
 }
 
 } // namespace malg::feq
-- 
2.43.0


From 4b2c947cf38a933a6f2f30b122cd5a2a92d87b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 15/57] fix: share the comparison tolerance between translation
 units

---
 include/malg/feq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index e3dbbfd..9620e5e 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -13,7 +13,7 @@
 namespace malg::feq
 {
 
-static inline auto &tolerance()
+inline auto &tolerance()
 {
     static double tol = 1e-06;
     return tol;
-- 
2.43.0


From 0993856ba12ea403db70379c02376ee6dafafbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 16/57] fix: apply the function in element_wise_function

---
 include/malg/math.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index fd55d2b..9e56b10 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1004,9 +1004,11 @@ inline auto element_wise_function(const malg::Vector<T> &a, Function fun)
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T, decltype(fun(std::declval<T>()))>>;
     // Create the resulting vector.
-    malg::Vector<data_type_t> result(a);
+    malg::Vector<data_type_t> result(a.size());
     // Apply the function to all the elements.
-    std::for_each(result.begin(), result.end(), fun);
+    for (std::size_t i = 0; i < a.size(); ++i) {
+        result[i] = fun(a[i]);
+    }
     // Return the vector.
     return result;
 }
@@ -1023,7 +1025,9 @@ inline auto element_wise_function(const malg::MatrixBase<T> &A, Function fun)
     // Create the resulting matrix.
     malg::Matrix<data_type_t> result(A.rows(), A.cols());
     // Apply the function to all the elements.
-    std::for_each(result.begin(), result.end(), fun);
+    for (std::size_t i = 0; i < A.size(); ++i) {
+        result[i] = fun(A[i]);
+    }
     // Return the matrix.
     return result;
 }
-- 
2.43.0


From 0a99f4ff726b380481be16ca9eac5cfa97d72386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 17/57] fix: make sign compile

---
 include/malg/math.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 9e56b10..2215d13 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1143,10 +1143,11 @@ auto abs(const malg::Vector<T> &a)
 template <typename T>
 auto sign(const malg::MatrixBase<T> &a)
 {
-    if (malg::is_complex_v<T>) {
+    if constexpr (malg::is_complex_v<T>) {
         return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) > 0 ? +1 : -1); });
+    } else {
+        return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
     }
-    return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
 }
 
 /// @brief Returns a matrix containing the sign of the values in the input matrix.
@@ -1155,10 +1156,11 @@ auto sign(const malg::MatrixBase<T> &a)
 template <typename T>
 auto sign(const malg::Vector<T> &a)
 {
-    if (malg::is_complex_v<T>) {
+    if constexpr (malg::is_complex_v<T>) {
         return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) > 0 ? +1 : -1); });
+    } else {
+        return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
     }
-    return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
 }
 
 /// @brief Vector projection of **a** onto **b**.
-- 
2.43.0


From b646142bdcfb84a46a7d2b416e70873809f3489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:14 +0000
Subject: [PATCH 18/57] fix: make the norms work on complex values

---
 include/malg/math.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 2215d13..da46a9d 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1180,11 +1180,11 @@ inline auto projection(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param r_end the ending row.
 /// @returns the mangnitude of the column vector.
 template <typename T>
-inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_start, std::size_t r_end)
+inline auto vector_length(const malg::MatrixBase<T> &A, std::size_t c, std::size_t r_start, std::size_t r_end = std::numeric_limits<std::size_t>::max())
 {
     std::remove_const_t<malg::is_complex_t<T>> accum = 0;
     for (std::size_t r = r_start; r < std::min(r_end, A.rows()); r++) {
-        if (malg::is_complex_v<T>) {
+        if constexpr (malg::is_complex_v<T>) {
             accum += std::norm(A(r, c));
         } else {
             accum += A(r, c) * A(r, c);
@@ -1395,7 +1395,7 @@ inline auto square_norm(const malg::Vector<T> &v)
 {
     std::remove_const_t<malg::is_complex_t<T>> accum = 0;
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (malg::is_complex_v<T>) {
+        if constexpr (malg::is_complex_v<T>) {
             accum += std::norm(v[i]);
         } else {
             accum += v[i] * v[i];
@@ -1414,7 +1414,7 @@ inline auto square_norm(const malg::MatrixBase<T> &A)
     // Compute the sum of squares of the elements of the given matrix.
     for (std::size_t r = 0; r < A.rows(); ++r) {
         for (std::size_t c = 0; c < A.cols(); ++c) {
-            if (malg::is_complex_v<T>) {
+            if constexpr (malg::is_complex_v<T>) {
                 accum += std::norm(A(r, c));
             } else {
                 accum += A(r, c) * A(r, c);
@@ -1431,7 +1431,7 @@ inline auto square_norm(const malg::MatrixBase<T> &A)
 template <typename T>
 inline auto infinity_norm(const malg::Vector<T> &v)
 {
-    using data_type_t = std::remove_const_t<T>;
+    using data_type_t = std::remove_const_t<malg::is_complex_t<T>>;
     if (v.empty()) {
         return data_type_t(0.);
     }
@@ -1482,7 +1482,7 @@ auto sub_norm(const malg::MatrixBase<T> &A)
     data_type_t accum = 0;
     for (std::size_t r = 1; r < A.rows(); ++r) {
         for (std::size_t c = 0; c < r; ++c) {
-            if (malg::is_complex_v<T>) {
+            if constexpr (malg::is_complex_v<T>) {
                 accum += std::norm(A(r, c));
             } else {
                 accum += A(r, c) * A(r, c);
-- 
2.43.0


From bdedbea84fbc1f52e9492982d8efae1add22a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 19/57] fix: do not convert the second operand to the type of
 the first in element-wise products

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index da46a9d..935d25d 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1200,7 +1200,7 @@ inline auto vector_length(const malg::MatrixBase<T> &A, std::size_t c, std::size
 template <typename T1, typename T2>
 auto element_wise_product(const malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 {
-    return element_wise_binary_function(A, B, [&](const T1 lhs, const T1 rhs) { return lhs * rhs; });
+    return element_wise_binary_function(A, B, [&](const T1 lhs, const T2 rhs) { return lhs * rhs; });
 }
 
 /// @brief Computes the linear combination of matrices.
@@ -1212,7 +1212,7 @@ auto element_wise_product(const malg::MatrixBase<T1> &A, const malg::MatrixBase<
 template <typename T1, typename T2, typename T3, typename T4>
 auto linear_combination(const malg::MatrixBase<T1> &A, const T2 &a, const malg::MatrixBase<T3> &B, const T4 &b)
 {
-    return element_wise_binary_function(A, B, [&](const T1 lhs, const T1 rhs) { return lhs * a + rhs * b; });
+    return element_wise_binary_function(A, B, [&](const T1 lhs, const T3 rhs) { return lhs * a + rhs * b; });
 }
 
 /// @brief Sums the element of the vector.
-- 
2.43.0


From 17ade730516133bbf31c149e01a92d680d57d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 20/57] fix: do not read outside of non-square matrices in
 trace

---
 include/malg/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 935d25d..4e5611a 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1238,7 +1238,7 @@ inline auto trace(const MatrixBase<T> &A)
     return sum(diag(A));
 #else
     std::remove_const_t<T> result = 0;
-    for (std::size_t i = 0; i < A.rows(); ++i) {
+    for (std::size_t i = 0; i < std::min(A.rows(), A.cols()); ++i) {
         result += A(i, i);
     }
     return result;
-- 
2.43.0


From c62e69daa37d085e20031c8551bbcbadc4a74a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 21/57] fix: the determinant of a matrix with a null column is
 zero

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 9a58b7a..0b97d41 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -173,7 +173,7 @@ inline auto determinant(const MatrixBase<CT> &matrix)
             }
             // If we did not find a non-zero value, we have a singular matrix.
             if (k == A.rows()) {
-                break;
+                return static_cast<T>(0.);
             }
             // Swap the rows.
             utility::swap_rows(A, c, k);
-- 
2.43.0


From 3912b0eac01bf36ef49aaa9d2e7a560c6a64648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 22/57] fix: pick the largest pivot when computing determinants
 of non-integer matrices

---
 include/malg/linalg.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 0b97d41..8ace518 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -163,6 +163,20 @@ inline auto determinant(const MatrixBase<CT> &matrix)
     T det = static_cast<T>(1.), pivot, ratio;
     // We convert the temporary to upper triangular form.
     for (c = 0; c < N; ++c) {
+        // With inexact types, a pivot made only of rounding errors ruins the
+        // result, so we bring the largest value of the column on the diagonal.
+        if constexpr (!std::is_integral_v<T>) {
+            std::size_t largest = c;
+            for (k = c + 1; k < N; ++k) {
+                if (std::abs(A(k, c)) > std::abs(A(largest, c))) {
+                    largest = k;
+                }
+            }
+            if (largest != c) {
+                utility::swap_rows(A, c, largest);
+                det *= -1;
+            }
+        }
         // If we have a negative value on the diagonal, we need to move it
         // somewhere else.
         if (malg::feq::approximately_equal_to_zero(A(c, c))) {
-- 
2.43.0


From fcd142c12dace2d198463f0ae0ab70987c198e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 23/57] fix: make the QR decomposition compile, and support
 null columns and wide matrices

---
 include/malg/linalg.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 8ace518..a0fd95f 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -285,7 +285,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
         u[0]   = 1;
         // Finding Householder projection.
         return utility::eye(a.size(), a.size(), data_type_t(1.)) -
-               (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / (u * u));
+               (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / malg::dot(u, u));
     };
 
     // Initialize matrix R.
@@ -296,7 +296,13 @@ inline auto qr_decomposition(const Matrix<T> &A)
     Matrix<data_type_t> H(R.rows(), R.rows(), data_type_t(0.));
 
     // Compute Q and R.
-    for (std::size_t i = 0; i < (R.cols() - (R.cols() == R.rows())); ++i) {
+    for (std::size_t i = 0; i < std::min(R.rows() - 1, R.cols()); ++i) {
+        // Get the ith column, from the ith row on.
+        auto column = utility::extract_column(R, i, i);
+        // If it is null there is nothing to reflect.
+        if (malg::feq::approximately_equal_to_zero(malg::square_norm(column))) {
+            continue;
+        }
         // Initialize holder.
         for (std::size_t r = 0; r < H.rows(); ++r) {
             for (std::size_t c = 0; c < H.cols(); ++c) {
@@ -304,7 +310,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
             }
         }
         // Calculate Householder matrix i: rows and i: columns from R i: rows and ith column
-        View(H, i, -1, i, -1) = make_householder(utility::extract_column(R, i, i, -1));
+        View(&H, Range{ i, H.rows() }, Range{ i, H.cols() }) = make_householder(column);
         // Update Q and R.
         Q = Q * H;
         R = H * R;
@@ -379,9 +385,9 @@ auto solve(const Matrix<T> &A, const Vector<T> &b)
     if (rows > cols) {
         auto [_q, _r] = linalg::qr_decomposition(A);
         return malg::dot(
-            linalg::inverse(View(_r, 0, cols, 0, cols)),
+            linalg::inverse(View(&_r, 0, cols, 0, cols)),
             malg::dot(
-                linalg::transpose(View(_q, 0, rows, 0, cols)),
+                linalg::transpose(View(&_q, 0, rows, 0, cols)),
                 b));
     }
     // Underdetermined system.
-- 
2.43.0


From cefc080cf1d73da33e06eff9fe540a62dc08c2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 24/57] fix: compute the LU decomposition of integer matrices
 with real numbers

---
 include/malg/linalg.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index a0fd95f..6f494cd 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -333,9 +333,11 @@ inline auto lu_decomposition(const MatrixBase<T> &A)
     if (!malg::utility::is_square(A)) {
         throw std::invalid_argument("The input matrix is not square.");
     }
-    std::size_t N = A.rows();
-    Matrix<T> l(N, N, 0);
-    Matrix<T> u(N, N, 0);
+    // Select the right type.
+    using data_type_t = std::remove_const_t<malg::extract_common_type_t<T, double>>;
+    std::size_t N     = A.rows();
+    Matrix<data_type_t> l(N, N, 0);
+    Matrix<data_type_t> u(N, N, 0);
 
     std::size_t i, j, k;
     for (i = 0; i < N; i++) {
-- 
2.43.0


From 25f99d4cd2c4b7e6cedcb05ed11b6092bbf6aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:33 +0000
Subject: [PATCH 25/57] fix: do not transpose the matrix in exp

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 6f494cd..30bd2d1 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -413,10 +413,10 @@ inline auto div(const MatrixBase<T1> &A, const MatrixBase<T2> &B)
 template <typename T>
 inline auto exp(const MatrixBase<T> &A)
 {
-    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::remove_const_t<T>> result(A.rows(), A.cols(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
-            result(c, r) = std::exp(A(r, c));
+            result(r, c) = std::exp(A(r, c));
         }
     }
     return result;
-- 
2.43.0


From 343cea5942005fc823ea15cd71b19328f8ccee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 26/57] fix: make hermitian_transpose return a complex matrix

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 30bd2d1..508d9f0 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -59,7 +59,7 @@ inline auto powm(const MatrixBase<T> &A, std::size_t N)
 template <typename T>
 inline auto hermitian_transpose(const MatrixBase<std::complex<T>> &A)
 {
-    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::complex<std::remove_const_t<T>>> result(A.cols(), A.rows(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
             result(c, r) = std::conj(A(r, c));
-- 
2.43.0


From 4131906ad8178166e2e067fe94fdb3a7f4d29dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 27/57] fix: make the stacking of a vector on a matrix and obsv
 compile

---
 include/malg/control/control.hpp | 2 +-
 include/malg/utility.hpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 48aea7b..f060a41 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -194,7 +194,7 @@ inline auto obsv(const MatrixBase<T> &A, const MatrixBase<T> &C)
         throw std::runtime_error("ctrb: A and C matrices dimensions doesn't match.");
     }
     // Create the observability matrix.
-    Matrix<T> result = C;
+    Matrix<T> result(C);
     // Construct the observability matrix.
     for (std::size_t i = 1; i < A.rows(); ++i) {
         result = utility::vstack(result, C * linalg::powm(A, i));
diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 64f595a..1ad7669 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -240,7 +240,7 @@ inline auto vstack(const MatrixBase<T1> &A, const Vector<T2> &b)
     // Select the right type.
     using T = malg::extract_common_type_t<T1, T2>;
     // Create the output matrix.
-    Matrix<T> C = A;
+    Matrix<T> C(A);
     // Resize the matrix by adding the row for b.
     C.resize(A.rows() + 1, A.cols());
     // Append b to C.
@@ -291,7 +291,7 @@ inline auto hstack(const MatrixBase<T1> &A, const Vector<T2> &b)
     // Select the right type.
     using T = malg::extract_common_type_t<T1, T2>;
     // Create the output matrix.
-    Matrix<T> C = A;
+    Matrix<T> C(A);
     // Resize the matrix by adding the row for b.
     C.resize(A.rows(), A.cols() + 1);
     // Append b to C.
-- 
2.43.0


From 5156a327224b395af83c8c861f6fb139112ee8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 28/57] fix: reject extraction ranges that start outside of the
 matrix

---
 include/malg/utility.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 1ad7669..8f4b1d0 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -337,6 +337,8 @@ inline auto extract(const MatrixBase<T> &matrix,
                     std::size_t start_column = 0,
                     std::size_t end_column   = std::numeric_limits<std::size_t>::max())
 {
+    end_row    = std::min(matrix.rows(), end_row);
+    end_column = std::min(matrix.cols(), end_column);
     if (start_row >= end_row) {
         throw std::invalid_argument("The starting row must be lower than the ending row.");
     }
@@ -344,8 +346,6 @@ inline auto extract(const MatrixBase<T> &matrix,
         throw std::invalid_argument("The starting column must be lower than the ending column.");
     }
     using data_type = std::remove_const_t<T>;
-    end_row         = std::min(matrix.rows(), end_row);
-    end_column      = std::min(matrix.cols(), end_column);
     Matrix<data_type> result(end_row - start_row, end_column - start_column, data_type(0.));
     for (std::size_t r = start_row; r < end_row; ++r) {
         for (std::size_t c = start_column; c < end_column; ++c) {
@@ -367,6 +367,7 @@ inline auto extract_column(const MatrixBase<T> &matrix,
                            std::size_t start_row = 0,
                            std::size_t end_row   = std::numeric_limits<std::size_t>::max())
 {
+    end_row = std::min(matrix.rows(), end_row);
     if (start_row >= end_row) {
         throw std::invalid_argument("The starting row must be lower than the ending row.");
     }
@@ -374,7 +375,6 @@ inline auto extract_column(const MatrixBase<T> &matrix,
         throw std::invalid_argument("The selected column is outsize the matrix.");
     }
     using data_type = std::remove_const_t<T>;
-    end_row         = std::min(matrix.rows(), end_row);
     Vector<data_type> result(end_row - start_row, data_type(0.));
     for (std::size_t r = start_row; r < end_row; ++r) {
         result[r - start_row] = matrix(r, column);
@@ -394,6 +394,7 @@ inline auto extract_row(const MatrixBase<T> &matrix,
                         std::size_t start_column = 0,
                         std::size_t end_column   = std::numeric_limits<std::size_t>::max())
 {
+    end_column = std::min(matrix.cols(), end_column);
     if (row >= matrix.rows()) {
         throw std::invalid_argument("The selected row is outsize the matrix.");
     }
@@ -401,7 +402,6 @@ inline auto extract_row(const MatrixBase<T> &matrix,
         throw std::invalid_argument("The starting column must be lower than the ending column.");
     }
     using data_type = std::remove_const_t<T>;
-    end_column      = std::min(matrix.cols(), end_column);
     Vector<data_type> result(end_column - start_column, data_type(0.));
     for (std::size_t c = start_column; c < end_column; ++c) {
         result[c - start_column] = matrix(row, c);
-- 
2.43.0


From e2696fd94667f9cf821928530caf10099c08774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 29/57] fix: return the indices themselves when find is limited
 to n values

---
 include/malg/utility.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 8f4b1d0..e388a11 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -942,11 +942,11 @@ inline auto find(const Matrix<T> &A, std::size_t n = std::numeric_limits<std::si
         return Matrix<std::size_t>(0UL, 0UL);
     }
     if ((n > 0) && (n < index.size())) {
-        std::size_t start = static_cast<std::size_t>(*index.begin());
+        const auto count = static_cast<std::ptrdiff_t>(n);
         if (first_last) {
-            index = std::vector<size_t>(start + 0UL, start + n);
+            index = std::vector<size_t>(index.begin(), index.begin() + count);
         } else {
-            index = std::vector<size_t>(start + index.size() - n, start + index.size());
+            index = std::vector<size_t>(index.end() - count, index.end());
         }
     }
     // Prepare the array for the indexes. If the input is a row-vector, return the indexes as a row-vector.
-- 
2.43.0


From 530c8b86925f2f82f555681d0a31d513b8c9a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 30/57] fix: report a difference in the first element in
 compare

---
 include/malg/utility.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index e388a11..74df7d0 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -962,7 +962,8 @@ inline auto find(const Matrix<T> &A, std::size_t n = std::numeric_limits<std::si
 /// @return
 ///      0 if they are the same,
 ///     -i if the i-th element of A is smaller than the i-th element of B,
-///      i if the i-th element of A is greather than the i-th element of B.
+///      i if the i-th element of A is greather than the i-th element of B,
+///     counting the elements from one.
 template <typename T>
 inline int64_t compare(const malg::MatrixBase<T> &A, const malg::MatrixBase<T> &B)
 {
@@ -972,10 +973,10 @@ inline int64_t compare(const malg::MatrixBase<T> &A, const malg::MatrixBase<T> &
     }
     for (std::size_t i = 0; i < A.size(); ++i) {
         if (A[i] < B[i]) {
-            return -static_cast<int64_t>(i);
+            return -static_cast<int64_t>(i + 1);
         }
         if (A[i] > B[i]) {
-            return static_cast<int64_t>(i);
+            return static_cast<int64_t>(i + 1);
         }
     }
     return 0;
@@ -997,10 +998,10 @@ inline int64_t compare(const malg::Vector<T> &a, const malg::Vector<T> &b)
     }
     for (std::size_t i = 0; i < a.size(); ++i) {
         if (a[i] < b[i]) {
-            return -static_cast<int64_t>(i);
+            return -static_cast<int64_t>(i + 1);
         }
         if (a[i] > b[i]) {
-            return static_cast<int64_t>(i);
+            return static_cast<int64_t>(i + 1);
         }
     }
     return 0;
-- 
2.43.0


From 7295e6c18a292dfb4d8ba9cb2d3f81af979fd284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 31/57] fix: make is_zero, is_constant and is_identity compile

---
 include/malg/utility.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 74df7d0..4fba6ce 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -574,7 +574,12 @@ inline auto is_diagonal(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_zero(const MatrixBase<T> &matrix)
 {
-    return std::all_of(matrix.begin(), matrix.end(), [](const T &x) { return x == 0; });
+    for (std::size_t i = 0; i < matrix.size(); ++i) {
+        if (matrix[i] != T(0)) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix contains the same value everywhere.
@@ -584,7 +589,12 @@ inline auto is_zero(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_constant(const MatrixBase<T> &matrix)
 {
-    return std::adjacent_find(matrix.begin(), matrix.end(), std::not_equal_to{}) == matrix.end();
+    for (std::size_t i = 1; i < matrix.size(); ++i) {
+        if (matrix[i] != matrix[i - 1]) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix contains the same value everywhere.
@@ -642,7 +652,14 @@ inline auto is_identity(const MatrixBase<T> &matrix)
     if (!is_square(matrix)) {
         return false;
     }
-    return (matrix == utility::identity<T>(matrix.cols()));
+    for (std::size_t i = 0; i < matrix.rows(); ++i) {
+        for (std::size_t j = 0; j < matrix.cols(); ++j) {
+            if (!malg::feq::approximately_equal(matrix(i, j), static_cast<std::remove_const_t<T>>((i == j) ? 1 : 0))) {
+                return false;
+            }
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix is orthogonal.
-- 
2.43.0


From f163b5ebca7900aae9e027751c7943b84d79b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 32/57] fix: give identity its default diagonal value

---
 include/malg/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 4fba6ce..007ecc2 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -63,7 +63,7 @@ inline auto eye(std::size_t rows, std::size_t cols, T value)
 /// @param value value for the diagonal.
 /// @returns the identity matrix.
 template <typename T>
-inline auto identity(std::size_t N, T value)
+inline auto identity(std::size_t N, T value = T(1))
 {
     return utility::eye<T>(N, N, value);
 }
-- 
2.43.0


From fb9e23f8ed465c783a463da6ed3602d80721a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 33/57] fix: do not use uninitialised values when reading
 truncated files

---
 include/malg/io.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 9475bbc..b854b13 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -161,8 +161,8 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::Range &rhs)
 template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
 {
-    std::size_t size, i;
-    char type;
+    std::size_t size = 0, i;
+    char type = 0;
     // Read the type.
     lhs >> type;
     if (type != 'V') {
@@ -188,8 +188,8 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
 template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
 {
-    std::size_t rows, cols, r = 0, c = 0;
-    char type;
+    std::size_t rows = 0, cols = 0, r = 0, c = 0;
+    char type = 0;
     // Read the type.
     lhs >> type;
     if (type != 'M') {
-- 
2.43.0


From 8439a2fbe593dbbc43798a37189f7684da15d8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 34/57] fix: make to_cpp compile

---
 include/malg/io.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index b854b13..2577cf9 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -330,13 +330,13 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Vector
 {
     std::stringstream ss;
     ss << "malg::Vector<" << type << "> " << name << " = {";
-    for (std::size_t i = 0; i < v->size(); ++i) {
+    for (std::size_t i = 0; i < v.size(); ++i) {
         if constexpr (malg::is_complex_v<T>) {
-            ss << v->operator[](i).real() << std::showpos << v->operator[](i).imag() << "i" << std::noshowpos;
+            ss << v[i].real() << std::showpos << v[i].imag() << "i" << std::noshowpos;
         } else {
-            ss << v->operator[](i);
+            ss << v[i];
         }
-        if (i < (v->size() - 1)) {
+        if (i < (v.size() - 1)) {
             ss << ", ";
         }
     }
@@ -354,20 +354,20 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Matrix
 {
     std::stringstream ss;
     ss << "malg::Matrix<" << type << "> " << name << " = {";
-    for (std::size_t r = 0, c = 0; r < m->rows(); ++r) {
+    for (std::size_t r = 0, c = 0; r < m.rows(); ++r) {
         ss << "{";
-        for (c = 0; c < m->cols(); ++c) {
+        for (c = 0; c < m.cols(); ++c) {
             if constexpr (malg::is_complex_v<T>) {
-                ss << m->operator()(r, c).real() << std::showpos << m->operator()(r, c).imag() << "i" << std::noshowpos;
+                ss << m(r, c).real() << std::showpos << m(r, c).imag() << "i" << std::noshowpos;
             } else {
-                ss << m->operator()(r, c);
+                ss << m(r, c);
             }
-            if (c < (m->cols() - 1)) {
+            if (c < (m.cols() - 1)) {
                 ss << ",";
             }
         }
         ss << "}";
-        if (r < (m->rows() - 1)) {
+        if (r < (m.rows() - 1)) {
             ss << ",";
         }
     }
-- 
2.43.0


From 1b3e2f12b5f4fd2897405ec3f32da7b626fa7e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 35/57] fix: fill the last time stamp of a simulation

---
 include/malg/control/control.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index f060a41..6ca8ce6 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -148,6 +148,8 @@ inline auto simulate(
         x.emplace_back(step.first);
         y.emplace_back(step.second);
     }
+    // Time stamp of the final state.
+    t[steps] = rtime;
     return std::make_tuple(t, x, y);
 }
 
-- 
2.43.0


From e1ec3f1e7c23d301917aec8a9e5c14b3e5f347d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 36/57] fix: reject a number of poles different from the number
 of states in acker

---
 include/malg/control/control.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 6ca8ce6..d60972a 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -301,6 +301,10 @@ inline auto acker(const MatrixBase<T> &A, const MatrixBase<T> &B, const MatrixBa
         std::cerr << "acker: poles must be a vector.\n";
         exit(1);
     }
+    if (poles.size() != A.rows()) {
+        std::cerr << "acker: the number of poles must be equal to the number of states.\n";
+        exit(1);
+    }
     // Make sure the system is controllable.
     auto ct = ctrb<T>(A, B);
     if (malg::feq::approximately_equal_to_zero(linalg::determinant(ct))) {
-- 
2.43.0


From a7c8230aae9fe3c64af50607208eeba988249b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 37/57] fix: index cofactor views linearly like the other
 matrices

---
 include/malg/view.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 3f38fc1..942a8a9 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -342,9 +342,9 @@ public:
     inline T &operator[](std::size_t pos) override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
@@ -354,9 +354,9 @@ public:
     inline const T &operator[](std::size_t pos) const override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
-- 
2.43.0


From a45a33952d8435ceed77615baa2eae3516ee3c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 38/57] fix: detect const-qualified complex types as complex

---
 include/malg/type_traits.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/malg/type_traits.hpp b/include/malg/type_traits.hpp
index a7c24f3..6149338 100644
--- a/include/malg/type_traits.hpp
+++ b/include/malg/type_traits.hpp
@@ -26,6 +26,12 @@ struct is_complex<std::complex<T>> : public std::true_type {
     using type = T; ///< An alias for T.
 };
 
+/// @brief A const type is complex if the same non-const type is complex.
+/// @tparam T a normal type.
+template <typename T>
+struct is_complex<const T> : public is_complex<T> {
+};
+
 /// @brief Alias template for checking if a type is complex.F
 /// @tparam T the type we are analyzing.
 /// @details
-- 
2.43.0


From 107726b14cffbb4973b32c2a44bb59dcd3434298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 39/57] fix: guard eigen.hpp against multiple inclusions

---
 include/malg/eigen.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 9ab168e..098e314 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -9,6 +9,8 @@
 ///     https://www.math.kth.se/na/SF2524/matber15/qrmethod.pdf
 ///     https://www.ams.org/journals/mcom/2002-71-240/S0025-5718-01-01387-4/S0025-5718-01-01387-4.pdf
 
+#pragma once
+
 #include "malg/utility.hpp"
 #include "malg/linalg.hpp"
 #include "malg/math.hpp"
-- 
2.43.0


From 3f1b8928eb8e6471c9c5b5b00bbd93ffab400345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 40/57] fix: views are not always empty

---
 include/malg/matrix_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/matrix_base.hpp b/include/malg/matrix_base.hpp
index dbbb732..9198668 100644
--- a/include/malg/matrix_base.hpp
+++ b/include/malg/matrix_base.hpp
@@ -76,7 +76,7 @@ public:
     /// @returns false otherwise.
     inline virtual bool empty() const
     {
-        return (_rows == 0) || (_cols == 0);
+        return (this->rows() == 0) || (this->cols() == 0);
     }
 
     /// @brief Returns a pointer to the internal data.
-- 
2.43.0


From ea5470c20a36ddd7f21f9d3f711038d477b2b99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 41/57] fix: assigning a cofactor view to another copies the
 elements

---
 include/malg/view.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 942a8a9..df5d96d 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -287,6 +287,9 @@ public:
         // Nothing to do.
     }
 
+    /// @brief Copy construct, the new view refers to the same matrix.
+    CofactorView(const CofactorView &other) = default;
+
     /// @brief Get the number of rows of the matrix.
     /// @returns the number of rows.
     inline std::size_t rows() const override
@@ -308,6 +311,19 @@ public:
         return this->rows() * this->cols();
     }
 
+    /// @brief Assign operator.
+    /// @param rhs the other matrix.
+    /// @returns a reference to this matrix.
+    inline CofactorView &operator=(const CofactorView &rhs)
+    {
+        assert(this->rows() == rhs.rows());
+        assert(this->cols() == rhs.cols());
+        for (std::size_t r = 0; r < rhs.rows(); ++r)
+            for (std::size_t c = 0; c < rhs.cols(); ++c)
+                this->at(r, c) = rhs(r, c);
+        return *this;
+    }
+
     /// @brief Assign operator.
     /// @param rhs the other matrix.
     /// @returns a reference to this matrix.
-- 
2.43.0


From 658dd96da22d2f083d7768a466858feeaa4a6352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:16 +0000
Subject: [PATCH 42/57] fix: keep the matrix consistent when the assignment of
 a list runs out of memory

---
 include/malg/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 4fcf99b..85f3620 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -373,12 +373,12 @@ public:
                 throw std::invalid_argument("The rows of the input list have different sizes.");
             }
         }
+        // Initialize the vector, the shape must not change if this fails.
+        _data = Vector<T>(data.size() * data.begin()->size());
         // Get the number of rows.
         this->_rows = data.size();
         // Get the number of columns.
         this->_cols = data.begin()->size();
-        // Initialize the vector.
-        _data = Vector<T>(_rows * _cols);
         // Get an interator for the data.
         auto r_it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r, ++r_it) {
-- 
2.43.0


From 6e5c0d75761dc8707c46b67dd0801f7d2d8fa48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:46 +0000
Subject: [PATCH 43/57] fix: make expm compile for single precision matrices

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 508d9f0..6b56797 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -461,7 +461,7 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
         ret += local_accum;
         // Caclulate relative change in this iteration.
         // TODO(enrico): properly guard against division by zero
-        const malg::Matrix<T> rel_error = malg::linalg::div(local_accum * local_accum, ret * ret + accuracy);
+        const auto rel_error = malg::linalg::div(local_accum * local_accum, ret * ret + accuracy);
         rel_square_diff                 = malg::square_norm(rel_error);
     };
     // raise the result
-- 
2.43.0


From 4dae96f84ded6e70a6f38576232109bc80a21c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:45 +0000
Subject: [PATCH 44/57] fix: do not loop on the rows of an empty matrix when
 reading it from a file

---
 include/malg/io.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 2577cf9..e5f054a 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -201,6 +201,10 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
     lhs >> cols;
     // Prepare the matrix.
     rhs.resize(rows, cols);
+    // There are no elements to read, whatever the number of rows is.
+    if (rhs.empty()) {
+        return lhs;
+    }
     // Read the matrix.
     for (r = 0; r < rhs.rows(); ++r) {
         for (c = 0; c < rhs.cols(); ++c) {
-- 
2.43.0


From 85588a65a499dd9c0d6b0f074081eafa7a627248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:41 +0000
Subject: [PATCH 45/57] fix: reflect negligible columns with a unitary matrix
 in hessenberg

---
 include/malg/eigen.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 098e314..673727e 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -62,7 +62,7 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
         std::complex<T> rho(1.0, 0.);
         auto xk  = H(k + 1, k);
         auto axk = std::abs(xk);
-        if (axk > std::numeric_limits<T>::epsilon()) {
+        if (axk > 0) {
             rho = -xk / axk;
         }
         U[k + 1]     = xk - rho * xlength;
@@ -71,7 +71,11 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
             U[i] = H(i, k);
             ulength += std::norm(U[i]);
         }
-        ulength = std::max(std::sqrt(ulength), std::numeric_limits<T>::epsilon());
+        // If the column is (numerically) null there is nothing to reflect.
+        if (ulength < std::numeric_limits<T>::min()) {
+            continue;
+        }
+        ulength = std::sqrt(ulength);
         for (int i = k + 1; i < N; i++) {
             U[i] /= ulength;
         }
-- 
2.43.0


From 48b9d5d67c73b5b35c87e2f7d7b9896b8eac258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:47 +0000
Subject: [PATCH 46/57] fix: in-place operations with a scalar taken from the
 object itself

---
 include/malg/math.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 4e5611a..cbe55d4 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -82,7 +82,7 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -160,7 +160,7 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -262,7 +262,7 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns the resulting matrix.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator*=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator*=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -294,7 +294,7 @@ inline auto operator/(const malg::MatrixBase<T1> &A, const T2 &b)
 /// @param b scalar value.
 /// @returns the resulting matrix.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator/=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator/=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -720,7 +720,7 @@ inline auto &operator+=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the sum of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator+=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator+=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -796,7 +796,7 @@ inline auto &operator-=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the subtraction of the scalar from the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator-=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator-=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -872,7 +872,7 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the multiplication of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator*=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator*=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -908,7 +908,7 @@ inline auto operator/(const malg::Vector<T1> &a, const T2 &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the division of the elements of the vector by the scalar.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator/=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From 02fccf4dbb0760c7433548488121e863f48c92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 47/57] fix: refuse to remove a row or column outside the
 matrix in cofactor

---
 include/malg/linalg.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 6b56797..625c9f5 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -92,6 +92,9 @@ inline auto conjugate_transpose(const MatrixBase<std::complex<T>> &matrix)
 template <typename T>
 inline auto cofactor(const MatrixBase<T> &matrix, std::size_t p, std::size_t q)
 {
+    if ((p >= matrix.rows()) || (q >= matrix.cols())) {
+        throw std::invalid_argument("The selected row or column is outside the matrix.");
+    }
     // Create the output matrix.
     Matrix<std::remove_const_t<T>> output(matrix.rows() - 1, matrix.cols() - 1, 0);
     // Create the indexing variables.
-- 
2.43.0


From 8883179d4fd8659c1dc8c97a2afd34e47382241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 48/57] fix: refuse to swap rows or columns outside the matrix

---
 include/malg/utility.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 007ecc2..8a09cce 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -418,6 +418,9 @@ inline auto extract_row(const MatrixBase<T> &matrix,
 template <typename T>
 inline void swap_rows(MatrixBase<T> &matrix, std::size_t i, std::size_t j, std::size_t start_column = 0, std::size_t end_column = std::numeric_limits<std::size_t>::max())
 {
+    if ((i >= matrix.rows()) || (j >= matrix.rows())) {
+        throw std::invalid_argument("The selected row is outside the matrix.");
+    }
     end_column = std::min(end_column, matrix.cols());
     for (std::size_t c = start_column; c < end_column; ++c) {
         std::swap(matrix(i, c), matrix(j, c));
@@ -433,6 +436,9 @@ inline void swap_rows(MatrixBase<T> &matrix, std::size_t i, std::size_t j, std::
 template <typename T>
 inline void swap_cols(MatrixBase<T> &matrix, std::size_t i, std::size_t j, std::size_t start_row = 0, std::size_t end_row = std::numeric_limits<std::size_t>::max())
 {
+    if ((i >= matrix.cols()) || (j >= matrix.cols())) {
+        throw std::invalid_argument("The selected column is outside the matrix.");
+    }
     end_row = std::min(matrix.rows(), end_row);
     for (std::size_t r = start_row; r < end_row; ++r) {
         std::swap(matrix(r, i), matrix(r, j));
-- 
2.43.0


From 4e8aeb0f7a9a787bae5e488412fac1f114ceabfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 49/57] fix: refuse to compute the length of a column outside
 the matrix

---
 include/malg/math.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index cbe55d4..a39ea3f 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1182,6 +1182,9 @@ inline auto projection(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 template <typename T>
 inline auto vector_length(const malg::MatrixBase<T> &A, std::size_t c, std::size_t r_start, std::size_t r_end = std::numeric_limits<std::size_t>::max())
 {
+    if (c >= A.cols()) {
+        throw std::invalid_argument("The selected column is outside the matrix.");
+    }
     std::remove_const_t<malg::is_complex_t<T>> accum = 0;
     for (std::size_t r = r_start; r < std::min(r_end, A.rows()); r++) {
         if constexpr (malg::is_complex_v<T>) {
-- 
2.43.0


From cee0fdbc647641177c84f7e68891d5019b0b4f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 50/57] fix: refuse to build a vector from a list of another
 size, with assertions disabled too

---
 include/malg/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index accb050..f078959 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -9,6 +9,7 @@
 #include <initializer_list>
 #include <limits>
 #include <new>
+#include <stdexcept>
 #include <utility>
 
 //#define MEM_TRACE
@@ -68,7 +69,9 @@ public:
         : _data(nullptr),
           _size(0)
     {
-        assert(size == data.size());
+        if (size != data.size()) {
+            throw std::invalid_argument("The input list has a different size.");
+        }
         if (this->allocate(size)) {
             auto it = data.begin();
             for (std::size_t i = 0; i < _size; ++i) {
-- 
2.43.0


From 310820da9b6d128253bdaef5649cfeb507c74098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 51/57] fix: refuse to assign a matrix of another shape to a
 view, with assertions disabled too

---
 include/malg/view.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index df5d96d..411e69e 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -96,8 +96,9 @@ public:
     template <typename T2>
     inline auto &operator=(const MatrixBase<T2> &rhs)
     {
-        assert(this->rows() == rhs.rows());
-        assert(this->cols() == rhs.cols());
+        if ((this->rows() != rhs.rows()) || (this->cols() != rhs.cols())) {
+            throw std::invalid_argument("The view and the matrix have different shapes.");
+        }
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
@@ -109,8 +110,9 @@ public:
     /// @returns a reference to this matrix.
     inline auto &operator=(const View<MatrixType> &rhs)
     {
-        assert(this->rows() == rhs.rows());
-        assert(this->cols() == rhs.cols());
+        if ((this->rows() != rhs.rows()) || (this->cols() != rhs.cols())) {
+            throw std::invalid_argument("The view and the matrix have different shapes.");
+        }
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
@@ -123,8 +125,9 @@ public:
     template <typename T2>
     inline auto &operator=(const View<T2> &rhs)
     {
-        assert(this->rows() == rhs.rows());
-        assert(this->cols() == rhs.cols());
+        if ((this->rows() != rhs.rows()) || (this->cols() != rhs.cols())) {
+            throw std::invalid_argument("The view and the matrix have different shapes.");
+        }
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
@@ -316,8 +319,9 @@ public:
     /// @returns a reference to this matrix.
     inline CofactorView &operator=(const CofactorView &rhs)
     {
-        assert(this->rows() == rhs.rows());
-        assert(this->cols() == rhs.cols());
+        if ((this->rows() != rhs.rows()) || (this->cols() != rhs.cols())) {
+            throw std::invalid_argument("The view and the matrix have different shapes.");
+        }
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
@@ -330,8 +334,9 @@ public:
     template <typename T2>
     inline auto &operator=(const MatrixBase<T2> &rhs)
     {
-        assert(this->rows() == rhs.rows());
-        assert(this->cols() == rhs.cols());
+        if ((this->rows() != rhs.rows()) || (this->cols() != rhs.cols())) {
+            throw std::invalid_argument("The view and the matrix have different shapes.");
+        }
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
-- 
2.43.0


From ff0196d230e86acb85774f8d2fe10594379d1701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 52/57] fix: refuse matrices that are not square in the eigen
 decompositions

---
 include/malg/eigen.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 673727e..df6b73a 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -49,6 +49,9 @@ inline auto wilkinson_shift(const malg::Matrix<std::complex<T>> &A)
 template <typename T>
 inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
 {
+    if (!malg::utility::is_square(A)) {
+        throw std::invalid_argument("The input matrix is not square.");
+    }
     int N  = A.rows();
     auto P = malg::utility::identity<std::complex<T>>(N);
     auto H = A;
@@ -102,6 +105,9 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
 template <typename T>
 auto qr_factorise_givens(const malg::Matrix<std::complex<T>> &A)
 {
+    if (!malg::utility::is_square(A)) {
+        throw std::invalid_argument("The input matrix is not square.");
+    }
     malg::Matrix<std::complex<T>> Q = malg::utility::identity<std::complex<T>>(A.rows());
     malg::Matrix<std::complex<T>> R(A);
     for (std::size_t i = 1, j = 0; i < A.rows(); ++i, j = i - 1) {
@@ -203,6 +209,9 @@ auto QRHessenberg(const malg::Matrix<std::complex<T>> &A)
 template <typename T>
 auto eigenvectorUpper(const malg::Matrix<std::complex<T>> &M)
 {
+    if (!malg::utility::is_square(M)) {
+        throw std::invalid_argument("The input matrix is not square.");
+    }
     bool fullset = true;
 
     int N = M.rows();
-- 
2.43.0


From 6a14c9c588adfc97acf7df10fc79e705da2b4eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 53/57] fix: simulate no step for a negative time and all the
 inputs for an unlimited one

---
 include/malg/control/control.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index d60972a..8760071 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -133,7 +133,13 @@ inline auto simulate(
     Vector<T> init)
 {
     // Compute the simulation steps.
-    auto steps = std::min(u.size(), static_cast<size_t>(simulated_time / sys.sample_time));
+    const T requested = simulated_time / sys.sample_time;
+    std::size_t steps = 0;
+    if (requested >= static_cast<T>(u.size())) {
+        steps = u.size();
+    } else if (requested > 0) {
+        steps = static_cast<std::size_t>(requested);
+    }
     // Prepare a vector for the time vector.
     std::vector<T> t(steps + 1, 0.);
     // Prepare a vector for the state vector, specifically just the initial value.
-- 
2.43.0


From 29b254db7057583566eaa80c228cc1a5f3518063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 54/57] fix: do not wrap the shape of a view that starts beyond
 the matrix

---
 include/malg/view.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 411e69e..5f639a4 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -73,14 +73,16 @@ public:
     /// @returns the number of rows.
     inline std::size_t rows() const override
     {
-        return std::min(_row.stop, _matrix->rows()) - _row.start;
+        const std::size_t stop = std::min(_row.stop, _matrix->rows());
+        return (stop > _row.start) ? (stop - _row.start) : 0;
     }
 
     /// @brief Get the number of columns of the matrix.
     /// @returns the number of columns.
     inline std::size_t cols() const override
     {
-        return std::min(_col.stop, _matrix->cols()) - _col.start;
+        const std::size_t stop = std::min(_col.stop, _matrix->cols());
+        return (stop > _col.start) ? (stop - _col.start) : 0;
     }
 
     /// @brief Returns the total size of the matrix.
@@ -297,14 +299,14 @@ public:
     /// @returns the number of rows.
     inline std::size_t rows() const override
     {
-        return _matrix->rows() - 1;
+        return (_matrix->rows() > 0) ? (_matrix->rows() - 1) : 0;
     }
 
     /// @brief Get the number of columns of the matrix.
     /// @returns the number of columns.
     inline std::size_t cols() const override
     {
-        return _matrix->cols() - 1;
+        return (_matrix->cols() > 0) ? (_matrix->cols() - 1) : 0;
     }
 
     /// @brief Returns the total size of the matrix.
-- 
2.43.0


From 547c42d13901fc3bf77ca73b8ad067e5a7a82493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 55/57] fix: do not read out of bounds the matrices that are
 not square, or empty, in wilkinson_shift

---
 include/malg/eigen.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index df6b73a..799ad6b 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -27,8 +27,11 @@ namespace malg::eigen
 template <typename T>
 inline auto wilkinson_shift(const malg::Matrix<std::complex<T>> &A)
 {
+    if (!malg::utility::is_square(A)) {
+        throw std::invalid_argument("The input matrix is not square.");
+    }
     std::complex<T> s(0.0);
-    std::size_t N = A.rows() - 1;
+    std::size_t N = A.empty() ? 0 : A.rows() - 1;
     if (N > 0) {
         // Bottom-right elements.
         auto a = A(N - 1, N - 1), b = A(N - 1, N), c = A(N, N - 1), d = A(N, N);
-- 
2.43.0


From 90d9b16313cb1e973fad38c2549f76de4ece88d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 56/57] fix: refuse to discretise a system of inconsistent
 dimensions, with assertions disabled too

---
 include/malg/control/control.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 8760071..621a501 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -8,6 +8,7 @@
 #include "malg/linalg.hpp"
 #include "malg/feq.hpp"
 
+#include <stdexcept>
 #include <tuple>
 
 namespace malg::control
@@ -97,9 +98,9 @@ inline auto c2d(const StateSpace<T> &sys, T sample_time)
     // Set the sampling period.
     dsys.sample_time = sample_time;
     // Check the dimensions.
-    assert(dsys.A.rows() == dsys.A.cols());
-    assert(dsys.B.rows() == dsys.A.rows());
-    assert(dsys.C.cols() == dsys.A.rows());
+    if ((dsys.A.rows() != dsys.A.cols()) || (dsys.B.rows() != dsys.A.rows()) || (dsys.C.cols() != dsys.A.rows())) {
+        throw std::invalid_argument("c2d: the dimensions of the matrices of the system do not match.");
+    }
     return dsys;
 }
 
-- 
2.43.0


From 94d67a56910252f0b6f459b2aa3fe67a29b258f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 57/57] fix: is_skew_symmetric ignored the diagonal

---
 include/malg/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 8a09cce..89e52c1 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -544,7 +544,7 @@ inline auto is_skew_symmetric(const MatrixBase<T> &matrix)
         return false;
     }
     for (std::size_t i = 0; i < matrix.rows(); ++i) {
-        for (std::size_t j = i + 1; j < matrix.cols(); ++j) {
+        for (std::size_t j = i; j < matrix.cols(); ++j) {
             if (matrix(i, j) != -matrix(j, i)) {
                 return false;
             }
-- 
2.43.0

