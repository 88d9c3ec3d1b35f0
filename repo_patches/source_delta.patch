From 079a7f07eda61d4d561cd26aaca611000655a9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 01/28] fix: compound multiplication and division of DDScalar
 with an aliased operand

---
 include/hyperjet/hyperjet.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 250d204..044f96e 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1140,15 +1140,16 @@ namespace hyperjet
             check_equal_size(size(), b.size());
 
             const Data a_m_data = m_data;
+            const Data &b_m_data = &b == this ? a_m_data : b.m_data;
 
             const Scalar da = b.f();
             const Scalar db = this->f();
 
-            f() *= b.f();
+            f() *= da;
 
             for (index i = 1; i < length(m_data); i++)
             {
-                m_data[i] = da * m_data[i] + db * b.m_data[i];
+                m_data[i] = da * m_data[i] + db * b_m_data[i];
             }
 
             if constexpr (order() == 1)
@@ -1160,14 +1161,14 @@ namespace hyperjet
             {
                 for (index j = i; j < size(); j++)
                 {
-                    *it++ += a_m_data[1 + i] * b.m_data[1 + j] + a_m_data[1 + j] * b.m_data[1 + i];
+                    *it++ += a_m_data[1 + i] * b_m_data[1 + j] + a_m_data[1 + j] * b_m_data[1 + i];
                 }
             }
 
             return *this;
         }
 
-        Type &operator*=(const Scalar &b)
+        Type &operator*=(const Scalar b)
         {
             for (index i = 0; i < length(m_data); i++)
             {
@@ -1228,6 +1229,7 @@ namespace hyperjet
             check_equal_size(size(), b.size());
 
             const Data a_m_data = m_data;
+            const Data &b_m_data = &b == this ? a_m_data : b.m_data;
 
             const auto f = a_m_data[0] / b.f();
             const auto da = 1 / b.f();
@@ -1236,7 +1238,7 @@ namespace hyperjet
             const auto dab = -1 / pow(b.f(), 2);
             const auto dbb = 2 * a_m_data[0] / pow(b.f(), 3);
 
-            binary<false>(a_m_data, b.m_data, f, da, db, daa, dab, dbb, m_data);
+            binary<false>(a_m_data, b_m_data, f, da, db, daa, dab, dbb, m_data);
 
             return *this;
         }
-- 
2.43.0


From 651e69a17450afd7dcf7f32e286faab1235c9abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 02/28] fix: compound multiplication and division of SScalar
 with itself

---
 include/hyperjet/hyperjet.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 044f96e..5f76663 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -2256,13 +2256,14 @@ namespace hyperjet
         {
             const Scalar da = b.m_f;
             const Scalar db = m_f;
+            const Data b_d = b.m_d; // b may be *this
 
             m_f *= b.m_f;
 
             for (auto &d : m_d)
                 d.second *= da;
 
-            for (auto &d : b.m_d)
+            for (auto &d : b_d)
                 m_d[d.first] += db * d.second;
 
             return *this;
@@ -2314,13 +2315,14 @@ namespace hyperjet
 
             const auto da = 1 / b.m_f;
             const auto db = -m_f / pow(b.m_f, 2);
+            const Data b_d = b.m_d; // b may be *this
 
             m_f /= b.m_f;
 
             for (auto &d : m_d)
                 d.second *= da;
 
-            for (auto &d : b.m_d)
+            for (auto &d : b_d)
                 m_d[d.first] += db * d.second;
 
             return *this;
-- 
2.43.0


From 88114ec089c0bffbbcbb17d56810b9442db38265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 03/28] fix: compound multiplication of a jet without variables
 indexed past the end of its data

---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 5f76663..a505f48 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1155,13 +1155,13 @@ namespace hyperjet
             if constexpr (order() == 1)
                 return *this;
 
-            auto *it = &m_data[1 + size()];
+            index k = 1 + size();
 
             for (index i = 0; i < size(); i++)
             {
                 for (index j = i; j < size(); j++)
                 {
-                    *it++ += a_m_data[1 + i] * b_m_data[1 + j] + a_m_data[1 + j] * b_m_data[1 + i];
+                    m_data[k++] += a_m_data[1 + i] * b_m_data[1 + j] + a_m_data[1 + j] * b_m_data[1 + i];
                 }
             }
 
-- 
2.43.0


From 5ebfebe54f828f52ab556ca3da941588415f9a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 04/28] fix: dynamic jet built from a scalar claimed a variable
 it has no data for

---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index a505f48..6797b2d 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -318,7 +318,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
@@ -333,7 +333,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
-- 
2.43.0


From 2b9a69671bdf8e4c8a3aafa5b71331a88f359323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 05/28] fix: initializer list wrote out of bounds for dynamic
 jets and wrong lengths

---
 include/hyperjet/hyperjet.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 6797b2d..276e553 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -362,6 +362,15 @@ namespace hyperjet
         {
             static_assert(0 < order() && order() <= 2);
 
+            if constexpr (is_dynamic())
+            {
+                m_data.resize(data.size());
+            }
+            else
+            {
+                check_valid_size(m_size);
+            }
+
             std::copy(data.begin(), data.end(), m_data.begin());
         }
 
-- 
2.43.0


From 25826406c7a125c0a0351736ac9968e189618f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 06/28] fix: valid data lengths failed the assertion with
 HYPERJET_NO_EXCEPTIONS

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 276e553..10d29d5 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -76,7 +76,7 @@ namespace hyperjet
             }
             else
             {
-                assert(data_length_from_size(s) == n == 0 && "Invalid length");
+                assert(data_length_from_size(s) == n && "Invalid length");
             }
 
             return s;
-- 
2.43.0


From cbb5dce7f53e5d6a669e5a6361327994f7c50395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 07/28] fix: negative sizes, empty data and overflowing sizes
 were accepted for dynamic jets

---
 include/hyperjet/hyperjet.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 10d29d5..08517a9 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -44,6 +44,7 @@ namespace hyperjet
     class DDScalar
     {
         static constexpr index StaticDataSize = TOrder == 1 ? 1 + TSize : (TSize + 1) * (TSize + 2) / 2;
+        static constexpr index MaxSize = index(1) << 15 * (sizeof(index) / 4); // keeps data_length_from_size in range
         static constexpr index DataSize = TSize < 0 ? Dynamic : StaticDataSize;
 
         using DynamicStorage = std::vector<TScalar>;
@@ -69,14 +70,14 @@ namespace hyperjet
 
             if constexpr (throw_exceptions())
             {
-                if (data_length_from_size(s) != n)
+                if (s < 0 || data_length_from_size(s) != n)
                 {
                     throw std::runtime_error("Invalid length");
                 }
             }
             else
             {
-                assert(data_length_from_size(s) == n && "Invalid length");
+                assert(s >= 0 && data_length_from_size(s) == n && "Invalid length");
             }
 
             return s;
@@ -93,10 +94,16 @@ namespace hyperjet
                     {
                         throw std::runtime_error("Negative size");
                     }
+
+                    if (size > MaxSize)
+                    {
+                        throw std::runtime_error("Size too large");
+                    }
                 }
                 else
                 {
                     assert(size >= 0 && "Negative size");
+                    assert(size <= MaxSize && "Size too large");
                 }
             }
             else
@@ -431,6 +438,7 @@ namespace hyperjet
         void resize(const index size)
         {
             static_assert(is_dynamic());
+            check_valid_size(size);
             m_size = size;
             const index n = data_length_from_size(size);
             m_data.resize(n);
@@ -575,6 +583,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const index n = data_length_from_size(size);
                 const Data data(n);
                 Type result(data, size);
@@ -608,6 +617,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const Data data(data_length_from_size(size), 0);
                 Type result(data, size);
                 return result;
-- 
2.43.0


From 9c00c5cb10b64b6ade6eb25e9509e56defaa1bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 08/28] fix: atan2 and three-argument hypot read out of bounds
 for dynamic jets of different sizes

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 08517a9..173aed4 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1434,6 +1434,8 @@ namespace hyperjet
         {
             using std::atan2;
 
+            check_equal_size(size(), b.size());
+
             Type result = Type::empty(size());
 
             const Scalar tmp = this->f() * this->f() + b.f() * b.f();
@@ -1476,6 +1478,7 @@ namespace hyperjet
             using std::hypot;
 
             check_equal_size(a.size(), b.size());
+            check_equal_size(a.size(), c.size());
 
             Type result = Type::empty(a.size());
 
-- 
2.43.0


From a6a1ee793a142d2002ee1c7195a7199bec1ebb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 09/28] fix: padding to a smaller size wrote out of bounds

---
 include/hyperjet/hyperjet.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 173aed4..5b25659 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -140,6 +140,21 @@ namespace hyperjet
             }
         }
 
+        HYPERJET_INLINE static void check_padded_size(const index size, const index new_size)
+        {
+            if constexpr (throw_exceptions())
+            {
+                if (new_size < size)
+                {
+                    throw std::runtime_error("Padded size is smaller than the size");
+                }
+            }
+            else
+            {
+                assert(new_size >= size && "Padded size is smaller than the size");
+            }
+        }
+
         struct Zero
         {
             HYPERJET_INLINE Zero operator*(const Scalar) const
@@ -448,6 +463,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_padded_size(size(), new_size);
+
             Type result = empty(new_size);
 
             const index head = new_size - size();
@@ -495,6 +512,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_padded_size(size(), new_size);
+
             Type result = empty(new_size);
 
             const index tail = new_size - size();
-- 
2.43.0


From c63f878fb45559886b62b30c39fff9a0948b0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 10/28] fix: eval of a dynamic jet read past the end of a short
 displacement

---
 include/hyperjet/hyperjet.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 5b25659..c4e6aa2 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -944,6 +944,8 @@ namespace hyperjet
 
         Scalar eval(typename std::conditional < TSize == Dynamic, std::vector<Scalar>, std::array<Scalar, TSize<0 ? 0 : TSize>>::type d) const
         {
+            check_equal_size(size(), length(d));
+
             Scalar result = f();
 
             for (index i = 0; i < size(); i++)
-- 
2.43.0


From d8a2b09d1c41dfea6ea663ea35ecb20253be43f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 11/28] fix: Hessian matrices of the wrong shape were read and
 written out of bounds

---
 include/hyperjet/hyperjet.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index c4e6aa2..954334f 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -856,6 +856,9 @@ namespace hyperjet
 
         void hm(const std::string mode, Eigen::Ref<Matrix> out) const
         {
+            check_equal_size(size(), out.rows());
+            check_equal_size(size(), out.cols());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -894,6 +897,9 @@ namespace hyperjet
 
         void set_hm(const Eigen::Ref<const Matrix> &value)
         {
+            check_equal_size(size(), value.rows());
+            check_equal_size(size(), value.cols());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -931,8 +937,6 @@ namespace hyperjet
         {
             static_assert(order() == 2);
 
-            assert(g.size() == hm.rows() && g.size() == hm.cols());
-
             Type result = empty(length(g));
 
             result.f() = f;
-- 
2.43.0


From 69fbf80cd588b2e9dc28b88a67462a8da2893452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 12/28] fix: the gradient of a const jet could not be read with
 ag()

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 954334f..f5d646e 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -837,7 +837,7 @@ namespace hyperjet
 
         Eigen::Ref<const Vector> ag() const
         {
-            return Eigen::Map<Vector>(ptr() + 1, size());
+            return Eigen::Map<const Vector>(ptr() + 1, size());
         }
 
         Eigen::Ref<Vector> ag()
-- 
2.43.0


From ab534fc4b120c4a0970468f1b909e557e10dd8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 13/28] fix: variable wrote out of bounds for an invalid index

---
 include/hyperjet/hyperjet.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index f5d646e..dc8a5fe 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -140,6 +140,21 @@ namespace hyperjet
             }
         }
 
+        HYPERJET_INLINE static void check_valid_index(const index i, const index size)
+        {
+            if constexpr (throw_exceptions())
+            {
+                if (i < 0 || size <= i)
+                {
+                    throw std::runtime_error("Invalid index");
+                }
+            }
+            else
+            {
+                assert(0 <= i && i < size && "Invalid index");
+            }
+        }
+
         HYPERJET_INLINE static void check_padded_size(const index size, const index new_size)
         {
             if constexpr (throw_exceptions())
@@ -673,6 +688,7 @@ namespace hyperjet
         static Type variable(const index i, const Scalar f)
         {
             static_assert(!is_dynamic());
+            check_valid_index(i, TSize);
             Type result = zero();
             result.f() = f;
             result.g(i) = 1;
@@ -683,6 +699,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_index(i, size);
                 Type result = zero(size);
                 result.f() = f;
                 result.g(i) = 1;
-- 
2.43.0


From df62d92ce694cc67b094f9208ec6f6c97c91b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 14/28] fix: derivatives of pow with exponent 0 or 1 were NaN
 at zero

---
 include/hyperjet/hyperjet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index dc8a5fe..c515eb2 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1320,8 +1320,8 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = pow(this->f(), b);
-            const auto da = b * pow(this->f(), b - 1);
-            const auto daa = (b - 1) * b * pow(this->f(), b - 2);
+            const Scalar da = b == 0 ? Scalar(0) : Scalar(b * pow(this->f(), b - 1));
+            const Scalar daa = b == 0 || b == 1 ? Scalar(0) : Scalar((b - 1) * b * pow(this->f(), b - 2));
 
             unary<false>(m_data, f, da, daa, result.m_data);
 
@@ -2406,7 +2406,7 @@ namespace hyperjet
             using std::pow;
 
             const auto f = pow(m_f, b);
-            const auto da = b * pow(m_f, b - Scalar(1));
+            const Scalar da = b == Scalar(0) ? Scalar(0) : Scalar(b * pow(m_f, b - Scalar(1)));
 
             return Type(f, unary(m_d, da));
         }
-- 
2.43.0


From 400e14cb91eeec00c1eeac728ab4f3400436c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 15/28] fix: SScalar::eval compared with the end of another map

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index c515eb2..33fba82 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -2157,7 +2157,7 @@ namespace hyperjet
             {
                 const auto it = d.find(coef.first);
 
-                if (it == m_d.end())
+                if (it == d.end())
                     continue;
 
                 r += coef.second * it->second;
-- 
2.43.0


From e8a7c060fd2eeb2ba953ff1012f6d8353d981e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 16/28] fix: Hessian accessors of first order classes in Python
 read and wrote out of bounds

---
 python/src/common.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/src/common.h b/python/src/common.h
index 81b1193..c45544c 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -91,11 +91,16 @@ auto bind(py::module &m, const std::string &name)
         .def("__pow__", &T::pow)
         .def("__repr__", &T::to_string)
         .def("abs", &T::abs)
-        .def("eval", &T::eval, "d"_a)
-        .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
-        .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
-        .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
-        .def("set_hm", &T::set_hm, "value"_a);
+        .def("eval", &T::eval, "d"_a);
+
+    if constexpr (T::order() == 2)
+    {
+        cls
+            .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
+            .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
+            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def("set_hm", &T::set_hm, "value"_a);
+    }
 
     if constexpr (T::is_dynamic())
     {
-- 
2.43.0


From 9f63e2b37bb4b8fc95b19ea191f944eed53662b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 17/28] fix: h and set_h in Python accessed memory out of
 bounds for invalid indices

---
 python/src/common.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/src/common.h b/python/src/common.h
index c45544c..94588e7 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -17,6 +17,14 @@ namespace hj = hyperjet;
 namespace py = pybind11;
 using namespace py::literals;
 
+inline void check_index(const hj::index i, const hj::index size)
+{
+    if (i < 0 || size <= i)
+    {
+        throw py::index_error("Index out of range");
+    }
+}
+
 template <typename T>
 auto bind(py::module &m, const std::string &name)
 {
@@ -96,8 +104,14 @@ auto bind(py::module &m, const std::string &name)
     if constexpr (T::order() == 2)
     {
         cls
-            .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
-            .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
+            .def(
+                "h", [](const T &self, const hj::index row, const hj::index col)
+                { check_index(row, self.size()); check_index(col, self.size()); return self.h(row, col); },
+                "row"_a, "col"_a)
+            .def(
+                "set_h", [](T &self, const hj::index row, const hj::index col, const typename T::Scalar value)
+                { check_index(row, self.size()); check_index(col, self.size()); self.set_h(row, col, value); },
+                "row"_a, "col"_a, "value"_a)
             .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
             .def("set_hm", &T::set_hm, "value"_a);
     }
-- 
2.43.0


From e191ecc4e0ee3f9185108bac8d77287210b98b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:00 +0000
Subject: [PATCH 18/28] fix: f truncated values to integers if the first
 element was an integer

---
 python/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/main.cpp b/python/src/main.cpp
index 9eb058d..951fe24 100644
--- a/python/src/main.cpp
+++ b/python/src/main.cpp
@@ -62,7 +62,7 @@ PYBIND11_MODULE(hyperjet, m)
         auto global = py::dict();
         global["np"] = numpy;
 
-        m.attr("f") = py::eval("np.vectorize(lambda v: v.f if hasattr(v, 'f') else v)", global);
+        m.attr("f") = py::eval("np.vectorize(lambda v: v.f if hasattr(v, 'f') else v, otypes=[float])", global);
         m.attr("d") = py::eval("np.vectorize(lambda v: v.g if hasattr(v, 'g') else np.zeros((0)), signature='()->(n)')", global);
         m.attr("dd") = py::eval("np.vectorize(lambda v: v.hm() if hasattr(v, 'hm') else np.zeros((0, 0)), signature='()->(n,m)')", global);
 
-- 
2.43.0


From cf6baaba15d0cea23e4c32055650d275e606c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:40 +0000
Subject: [PATCH 19/28] fix: a failed resize left size and data of a jet
 inconsistent

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 33fba82..225f2ca 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -469,9 +469,9 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
             check_valid_size(size);
-            m_size = size;
             const index n = data_length_from_size(size);
             m_data.resize(n);
+            m_size = size;
         }
 
         Type pad_left(const index new_size) const
-- 
2.43.0


From 15e95be90fd34ad528b6ca801db3bbf74c5e17d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:44 +0000
Subject: [PATCH 20/28] fix: derivatives of log2 and log10 of long double jets
 were only accurate to double

---
 include/hyperjet/hyperjet.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 225f2ca..894c9d5 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1696,7 +1696,7 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = log2(this->f());
-            const auto da = 1 / (this->f() * log(2));
+            const auto da = 1 / (this->f() * log(Scalar(2)));
             const auto daa = -da / this->f();
 
             unary<false>(m_data, f, da, daa, result.m_data);
@@ -1712,7 +1712,7 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = log10(this->f());
-            const auto da = 1 / (this->f() * log(10));
+            const auto da = 1 / (this->f() * log(Scalar(10)));
             const auto daa = -da / this->f();
 
             unary<false>(m_data, f, da, daa, result.m_data);
@@ -2657,7 +2657,7 @@ namespace hyperjet
             using std::log2;
 
             const auto f = log2(m_f);
-            const auto da = 1 / (m_f * log(2));
+            const auto da = 1 / (m_f * log(Scalar(2)));
 
             return Type(f, unary(m_d, da));
         }
@@ -2668,7 +2668,7 @@ namespace hyperjet
             using std::log10;
 
             const auto f = log10(m_f);
-            const auto da = 1 / (m_f * log(10));
+            const auto da = 1 / (m_f * log(Scalar(10)));
 
             return Type(f, unary(m_d, da));
         }
-- 
2.43.0


From 8d2ecfbee3837b50791142d9858805a27cc5ae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:51 +0000
Subject: [PATCH 21/28] fix: a dynamic jet could be constructed from data that
 does not match its size

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 894c9d5..168a468 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -393,6 +393,9 @@ namespace hyperjet
             static_assert(0 < order() && order() <= 2);
 
             static_assert(is_dynamic());
+
+            check_valid_size(size);
+            check_equal_size(data_length_from_size(size), length(data));
         }
 
         DDScalar(std::initializer_list<TScalar> data) : m_size(size_from_data_length(length(data)))
-- 
2.43.0


From bd23a563dfcb3f2b261babafda8f13d06b27eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:51 +0000
Subject: [PATCH 22/28] fix: set_adata with the wrong length went out of bounds
 without assertions

---
 include/hyperjet/hyperjet.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 168a468..718c85f 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -938,6 +938,8 @@ namespace hyperjet
 
         void set_adata(const Eigen::Ref<DataVector> value)
         {
+            check_equal_size(length(m_data), length(value));
+
             Eigen::Map<DataVector>(ptr(), length(m_data)) = value;
         }
 
-- 
2.43.0


From d4b52b17f62fac9504312a5b1208fe3a8a3e48a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:43 +0000
Subject: [PATCH 23/28] fix: hm of DD1Scalar returned a vector in Python, so
 that dd failed for jets of one variable

---
 python/src/common.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/common.h b/python/src/common.h
index 94588e7..cff705b 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -112,7 +112,10 @@ auto bind(py::module &m, const std::string &name)
                 "set_h", [](T &self, const hj::index row, const hj::index col, const typename T::Scalar value)
                 { check_index(row, self.size()); check_index(col, self.size()); self.set_h(row, col, value); },
                 "row"_a, "col"_a, "value"_a)
-            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def(
+                "hm", [](const T &self, const std::string mode) -> Eigen::Matrix<typename T::Scalar, Eigen::Dynamic, Eigen::Dynamic>
+                { return self.hm(mode); },
+                "mode"_a = "full")
             .def("set_hm", &T::set_hm, "value"_a);
     }
 
-- 
2.43.0


From 619f8f0b069428f0a174faf5996120a49eb416f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 24/28] fix: a 1-element gradient was taken for a size by the
 constructors in Python if the value was not a float

---
 python/src/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/common.h b/python/src/common.h
index cff705b..5dc8df1 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -32,7 +32,7 @@ auto bind(py::module &m, const std::string &name)
 
     // constructor
     cls
-        .def(py::init(py::overload_cast<typename T::Scalar, hj::index>(&T::constant)), "f"_a = 0, "size"_a)
+        .def(py::init(py::overload_cast<typename T::Scalar, hj::index>(&T::constant)), "f"_a = 0, "size"_a.noconvert())
         .def(py::init(py::overload_cast<const typename T::Data &>(&T::create)), "data"_a)
         .def(py::init(py::overload_cast<typename T::Scalar>(&T::constant)), "f"_a = 0);
 
-- 
2.43.0


From f4e67a371319714215ff29a10229c9f435a160ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:06 +0000
Subject: [PATCH 25/28] fix: std::numeric_limits of jets

Eigen's decompositions take thresholds from std::numeric_limits<Real>. The
unspecialized template returns a default constructed, i.e. uninitialized jet,
so that LDLT and the QR decompositions of matrices of jets gave wrong results.
---
 include/hyperjet/hyperjet.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 718c85f..92b158a 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -5,6 +5,7 @@
 #include <cmath>            // acos, acosh, asin, asinh, atan, atanh, atan2, cbrt, cos, cosh, exp, hypot, log, log2, log10, pow, sin, sinh, sqrt, tan, tanh
 #include <cstddef>          // ptrdiff_t
 #include <initializer_list> // initializer_list
+#include <limits>           // numeric_limits
 #include <ostream>          // ostream
 #include <sstream>          // stringstream
 #include <string>           // string
@@ -2968,6 +2969,30 @@ namespace hyperjet
 
 } // namespace hyperjet
 
+namespace std
+{
+
+    // the unspecialized numeric_limits of a jet are default constructed, i.e. uninitialized, jets
+    template <hyperjet::index TOrder, typename TScalar, hyperjet::index TSize>
+    class numeric_limits<hyperjet::DDScalar<TOrder, TScalar, TSize>> : public numeric_limits<TScalar>
+    {
+        using Type = hyperjet::DDScalar<TOrder, TScalar, TSize>;
+        using Base = numeric_limits<TScalar>;
+
+    public:
+        static Type min() { return (Base::min)(); }
+        static Type max() { return (Base::max)(); }
+        static Type lowest() { return Base::lowest(); }
+        static Type epsilon() { return Base::epsilon(); }
+        static Type round_error() { return Base::round_error(); }
+        static Type infinity() { return Base::infinity(); }
+        static Type quiet_NaN() { return Base::quiet_NaN(); }
+        static Type signaling_NaN() { return Base::signaling_NaN(); }
+        static Type denorm_min() { return Base::denorm_min(); }
+    };
+
+} // namespace std
+
 #if defined EIGEN_WORLD_VERSION
 
 namespace Eigen
-- 
2.43.0


From 380160fa08da0d897e8349c3f1cb08adcf920553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:15 +0000
Subject: [PATCH 26/28] fix: derivatives of pow of long double jets were only
 accurate to double

The exponent of the derivative was rounded to double before the power was taken.
---
 include/hyperjet/hyperjet.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 92b158a..65e3086 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1325,9 +1325,10 @@ namespace hyperjet
 
             Type result = Type::empty(size());
 
+            const std::common_type_t<Scalar, double> e = b; // b - 1 in the precision of the scalar
             const auto f = pow(this->f(), b);
-            const Scalar da = b == 0 ? Scalar(0) : Scalar(b * pow(this->f(), b - 1));
-            const Scalar daa = b == 0 || b == 1 ? Scalar(0) : Scalar((b - 1) * b * pow(this->f(), b - 2));
+            const Scalar da = b == 0 ? Scalar(0) : Scalar(b * pow(this->f(), e - 1));
+            const Scalar daa = b == 0 || b == 1 ? Scalar(0) : Scalar((e - 1) * b * pow(this->f(), e - 2));
 
             unary<false>(m_data, f, da, daa, result.m_data);
 
-- 
2.43.0


From fbcd89762ecb7ff541ba4187322cada9e3c830c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:40 +0000
Subject: [PATCH 27/28] fix: hm does not throw on an unknown mode in a build
 without exceptions

---
 include/hyperjet/hyperjet.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 65e3086..78227e5 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -912,7 +912,14 @@ namespace hyperjet
             }
             else
             {
-                throw std::runtime_error("Invalid value for 'mode'");
+                if constexpr (throw_exceptions())
+                {
+                    throw std::runtime_error("Invalid value for 'mode'");
+                }
+                else
+                {
+                    assert(false && "Invalid value for 'mode'");
+                }
             }
         }
 
-- 
2.43.0


From a38fe105ab0424227aff9e63733fb59179e1be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:24 +0000
Subject: [PATCH 28/28] fix: writing access to the gradient accepts negative
 indices despite assertions

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 78227e5..d0ec9ac 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -780,7 +780,7 @@ namespace hyperjet
 
         Scalar &g(const index i)
         {
-            assert(i < size());
+            assert(0 <= i && i < size());
 
             return m_data[1 + i];
         }
-- 
2.43.0

