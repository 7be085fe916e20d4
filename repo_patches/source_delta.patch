From 1e0caf0cf178accc8b953c874a429fbe2be687de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:45 +0000
Subject: [PATCH 01/36] fix: varfd in a Fourier direction skips indices outside
 the index set

For index sets that are not closed under exchanging cos(kx) and sin(kx) the
conjugate index may not exist; looking it up raised IndexError.
---
 cpp/src/hermite/varf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/src/hermite/varf.cpp b/cpp/src/hermite/varf.cpp
index b50b821..38ef758 100644
--- a/cpp/src/hermite/varf.cpp
+++ b/cpp/src/hermite/varf.cpp
@@ -367,6 +367,9 @@ T varfd(
                 bool is_cos = (m_col[direction] % 2) == 0;
                 int_m2[direction] += !is_cos - is_cos;
                 u_int wave_number = (m_col[direction] + !is_cos)/2;
+                if (!m->has(int_m2))
+                    continue;
+
                 u_int id = m->index(int_m2);
                 results(row, id) = value * (is_cos - !is_cos) * wave_number;
             }
-- 
2.43.0


From a461dadcf7bea767f5577915551771ac1f1f691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:06 +0000
Subject: [PATCH 02/36] fix: array converters honour row strides, shape and
 element type

to_boost_mat used the number of rows as row stride, to_mat used the row stride
as row length and to_bmat assumed packed rows, so that non-square arrays and
row slices were misread; arrays of another element type were reinterpreted.
---
 cpp/src/hermite/python/converters.cpp | 40 +++++++++++++++++++++------
 cpp/src/hermite/python/converters.hpp |  1 +
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/cpp/src/hermite/python/converters.cpp b/cpp/src/hermite/python/converters.cpp
index 5d7b03b..5ea1b1c 100644
--- a/cpp/src/hermite/python/converters.cpp
+++ b/cpp/src/hermite/python/converters.cpp
@@ -86,6 +86,12 @@ cmat to_bmat(const np::ndarray & input)
         throw WRONG_DIMENSION;
     }
 
+    if (input.get_dtype() != np::dtype::get_builtin<double>())
+    {
+        cout << "Elements of the matrix must be doubles" << endl;
+        throw WRONG_TYPE;
+    }
+
     Py_intptr_t const* shape = input.get_shape();
     Py_intptr_t const* strides = input.get_strides();
     double * data = reinterpret_cast<double*>(input.get_data());
@@ -93,7 +99,8 @@ cmat to_bmat(const np::ndarray & input)
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
+    long stride_rows = strides[0] / (long) sizeof(double);
+    long stride_cols = strides[1] / (long) sizeof(double);
 
     if (stride_cols != 1)
     {
@@ -101,8 +108,11 @@ cmat to_bmat(const np::ndarray & input)
         throw ROWS_NOT_CONTIGUOUS;
     }
 
-    auto sizes = boost::extents[n_rows][n_cols];
-    cmat result = cmat(boost::multi_array_ref<double, 2>(data, sizes)); // copy
+    cmat result(boost::extents[n_rows][n_cols]);
+    for (u_int i = 0; i < n_rows; ++i)
+        for (u_int j = 0; j < n_cols; j++)
+            result[i][j] = data[i*stride_rows + j];
+
     return result;
 }
 
@@ -114,6 +124,12 @@ boost_mat to_boost_mat(const np::ndarray & input)
         throw WRONG_DIMENSION;
     }
 
+    if (input.get_dtype() != np::dtype::get_builtin<double>())
+    {
+        cout << "Elements of the matrix must be doubles" << endl;
+        throw WRONG_TYPE;
+    }
+
     Py_intptr_t const* shape = input.get_shape();
     Py_intptr_t const* strides = input.get_strides();
     double * data = reinterpret_cast<double*>(input.get_data());
@@ -121,7 +137,8 @@ boost_mat to_boost_mat(const np::ndarray & input)
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
+    long stride_rows = strides[0] / (long) sizeof(double);
+    long stride_cols = strides[1] / (long) sizeof(double);
 
     if (stride_cols != 1)
     {
@@ -132,7 +149,7 @@ boost_mat to_boost_mat(const np::ndarray & input)
     boost_mat result (n_rows, n_cols);
     for (u_int i = 0; i < n_rows; ++i)
         for (u_int j = 0; j < n_cols; j++)
-            result(i, j) = data[i*n_rows + j];
+            result(i, j) = data[i*stride_rows + j];
 
     return result;
 }
@@ -145,14 +162,21 @@ mat to_mat(const np::ndarray & input)
         throw WRONG_DIMENSION;
     }
 
+    if (input.get_dtype() != np::dtype::get_builtin<double>())
+    {
+        cout << "Elements of the matrix must be doubles" << endl;
+        throw WRONG_TYPE;
+    }
+
     Py_intptr_t const* shape = input.get_shape();
     Py_intptr_t const* strides = input.get_strides();
     double * data = reinterpret_cast<double*>(input.get_data());
 
     u_int n_rows = (u_int) shape[0];
+    u_int n_cols = (u_int) shape[1];
 
-    u_int stride_rows = (u_int) strides[0] / sizeof(double);
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
+    long stride_rows = strides[0] / (long) sizeof(double);
+    long stride_cols = strides[1] / (long) sizeof(double);
 
     if (stride_cols != 1)
     {
@@ -163,7 +187,7 @@ mat to_mat(const np::ndarray & input)
     mat result(n_rows);
     for (u_int i = 0; i < n_rows; i++)
     {
-        result[i] = vec(data + i*stride_rows, data + (i+1)*stride_rows);
+        result[i] = vec(data + i*stride_rows, data + i*stride_rows + n_cols);
     }
 
     return result;
diff --git a/cpp/src/hermite/python/converters.hpp b/cpp/src/hermite/python/converters.hpp
index 9923fa7..f3c8e37 100644
--- a/cpp/src/hermite/python/converters.hpp
+++ b/cpp/src/hermite/python/converters.hpp
@@ -23,6 +23,7 @@
 
 #define WRONG_DIMENSION 1
 #define ROWS_NOT_CONTIGUOUS 2
+#define WRONG_TYPE 3
 
 #include <boost/python.hpp>
 #include <boost/python/numpy.hpp>
-- 
2.43.0


From 09f21972769f5b303e2057433eb60a4e0584eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:06 +0000
Subject: [PATCH 03/36] fix: hermite_eval writes past the end of its output for
 degree 0

Every integration calls it with a vector of length one.
---
 cpp/src/hermite/hermite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/hermite.cpp b/cpp/src/hermite/hermite.cpp
index ed3836e..46016f6 100644
--- a/cpp/src/hermite/hermite.cpp
+++ b/cpp/src/hermite/hermite.cpp
@@ -32,7 +32,8 @@ void hermite_eval(double x,
 {
 
     values[0] = 1;
-    values[1] = x;
+    if (degree > 0)
+        values[1] = x;
 
     for (unsigned i = 1; i < degree; i++)
     {
-- 
2.43.0


From 6f8e5e3128c99376a7686a347414055f03fd4efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:16 +0000
Subject: [PATCH 04/36] fix: cache keys distinguish shapes, kinds, nesting and
 all numbers

Arrays were hashed without shape and type (and only if contiguous), numbers
through hash() (-1 and -2, 0.5 and 2**60 collide), and None, strings, lists and
keyword arguments could produce the same key.
---
 hermipy/cache.py | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 824bce6..00ac71e 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -36,30 +36,37 @@ def gen_hash(extend=None):
     if extend is None:
         extend = default_extend
 
+    # The kind is part of the digest, so that arguments of different kinds
+    # (None and '', 1 and '1', [x] and its hash, ...) are never identified
+    def digest(kind, content):
+        return hashlib.md5(kind.encode('utf-8') + b':' + content).hexdigest()
+
     def the_hash(argument):
         if isinstance(argument, str):
-            encoded_str = argument.encode('utf-8')
-            return hashlib.md5(encoded_str).hexdigest()
+            return digest('str', argument.encode('utf-8'))
         if isinstance(argument, sparse.csr_matrix):
             a = argument
             new_args = [a.data, a.indices, a.indptr, a.shape]
-            return the_hash(new_args)
+            return digest('csr', the_hash(new_args).encode('utf-8'))
         if isinstance(argument, np.ndarray):
-            return hashlib.md5(argument).hexdigest()
+            header = argument.dtype.str + str(argument.shape)
+            content = hashlib.md5(np.ascontiguousarray(argument)).hexdigest()
+            return digest('array', (header + content).encode('utf-8'))
         if isinstance(argument, sym.Basic):
-            return the_hash(str(argument))
+            return digest('sympy', str(argument).encode('utf-8'))
         if isinstance(argument, (list, tuple, frozenset)):
             hashes = [the_hash(e) for e in argument]
-            return the_hash('list' + '-'.join(hashes))
+            return digest('list', '-'.join(hashes).encode('utf-8'))
         if isinstance(argument, dict):
-            hashes_k = ['k'] + [the_hash(kw) for kw in argument]
-            hashes_v = ['v'] + [the_hash(argument[kw]) for kw in argument]
-            return the_hash(hashes_k + hashes_v)
-        if isinstance(argument, (int, float)):
-            return the_hash(str(hash(argument)))
+            hashes = [the_hash(k) + the_hash(argument[k]) for k in argument]
+            return digest('dict', '-'.join(hashes).encode('utf-8'))
+        if isinstance(argument, int):
+            return digest('int', str(int(argument)).encode('utf-8'))
+        if isinstance(argument, float):
+            return digest('float', float(argument).hex().encode('utf-8'))
         if argument is None:
-            return the_hash("")
-        return the_hash(extend(argument))
+            return digest('none', b'')
+        return digest('other', the_hash(extend(argument)).encode('utf-8'))
 
     return the_hash
 
@@ -110,15 +117,10 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
             if 'cache' in kwargs:
                 use_cache = kwargs['cache']
                 del kwargs['cache']
-            hashes, prefix = [], function.__name__
-            for arg in args:
-                hashes.append(hash_fun(arg))
-            for kw in kwargs:
-                hashes.append(hash_fun(kw))
-                hashes.append(hash_fun(kwargs[kw]))
-            hash_args = hash_fun(('-'.join(hashes)))
+            prefix = function.__name__
+            hash_args = hash_fun([args, kwargs])
             if settings['debug']:
-                print("Hash of arguments: " + prefix + '-' + '-'.join(hashes))
+                print("Hash of arguments: " + prefix + '-' + hash_args)
 
             cachedir = settings['cachedir']
             if not os.path.exists(cachedir):
-- 
2.43.0


From 153744420be8917b9a196551c9a9dc39b44b7520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:10 +0000
Subject: [PATCH 05/36] fix: unreadable cache entries are recomputed and tuples
 are not stored

A truncated entry raised EOFError or BadZipFile instead of being recomputed, and
saving the tuple returned by an eigenvalue or GMRES solve raised ValueError.
---
 hermipy/cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 00ac71e..a017370 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -145,7 +145,8 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                                 result_cache.is_integer():
                             result_cache = int(result_cache)
                         return result_cache
-                except ValueError:
+                except Exception:
+                    # Unreadable, e.g. after an interrupted write
                     cached_exists = False
 
             result = function(*args, **kwargs)
@@ -161,7 +162,8 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 return result
 
             save = sparse.save_npz if is_sparse_result else np.save
-            if settings['cache']:
+            storable = (int, float, np.ndarray, sparse.csr_matrix)
+            if settings['cache'] and isinstance(result, storable):
                 save(savefile, result)
             return result
 
-- 
2.43.0


From 505e63079895d0a13cae14c3f9940158bf3c269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:40 +0000
Subject: [PATCH 06/36] fix: comparison with the cache works for arrays of any
 shape

The matrix norm of a three-dimensional or empty array raised ValueError.
---
 hermipy/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index a017370..5e23e66 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -86,7 +86,7 @@ def gen_error(extend=None):
         if isinstance(u, (float, int)):
             return abs(u - v)
         elif isinstance(u, np.ndarray):
-            return la.norm(u - v, 2)
+            return la.norm(np.ravel(u - v), 2)
         elif isinstance(u, sparse.csr_matrix):
             if not isinstance(v, sparse.csr_matrix):
                 raise ValueError("Type mismatch")
-- 
2.43.0


From 5703cef707c102fff0fcecaa895aa771d4e7762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:57 +0000
Subject: [PATCH 07/36] fix: Quad.eval composes the covariance factors as
 matrices

---
 hermipy/quad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 923ae72..47c503b 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -314,7 +314,7 @@ class Quad:
 
         inv = la.inv(series.position.factor)
         translation = inv.dot(self.position.mean - series.position.mean)
-        factor = inv * self.position.factor
+        factor = inv.dot(self.position.factor)
         if la.norm(factor - np.diag(np.diag(factor)), 2) > 1e-8:
             raise ValueError("Incompatible covariance matrices")
         mapped_nodes = self.nodes.copy()
-- 
2.43.0


From 724d4742d6f64d7152ed607ee731b9032abf920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:57 +0000
Subject: [PATCH 08/36] fix: sum of series of different degrees is refused, not
 broadcast

---
 hermipy/series.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index 60f270d..736a9d3 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -120,7 +120,8 @@ does not match number of multi-indices!")
         elif isinstance(other, Series):
             if not self.position == other.position or \
                not self.index_set == other.index_set or \
-               not self.factor == other.factor:
+               not self.factor == other.factor or \
+               not self.degree == other.degree:
                 raise ValueError("Invalid argument!")
             new_coeffs = self.coeffs + other.coeffs
 
-- 
2.43.0


From 94c08c4293fe0fc888531f688de6ee079a7dca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:57 +0000
Subject: [PATCH 09/36] fix: sum of operators of different degrees is refused,
 not broadcast

---
 hermipy/varf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 93fdb4f..687ebba 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -90,7 +90,8 @@ class Varf:
         elif isinstance(other, Varf):
             if not self.position == other.position or \
                not self.index_set == other.index_set or \
-               not self.factor == other.factor:
+               not self.factor == other.factor or \
+               not self.degree == other.degree:
                 raise ValueError("Invalid argument!")
             new_matrix = self.matrix + other.matrix
 
-- 
2.43.0


From 69f9f5584dde82e2c2c51f337df8a81eb523302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:57 +0000
Subject: [PATCH 10/36] fix: sum of a sparse and a dense operator is an
 ordinary dense one

---
 hermipy/varf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 687ebba..9d0c877 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -94,6 +94,8 @@ class Varf:
                not self.degree == other.degree:
                 raise ValueError("Invalid argument!")
             new_matrix = self.matrix + other.matrix
+            if self.is_sparse is not other.is_sparse:
+                new_matrix = np.asarray(new_matrix)
 
         else:
             raise TypeError("Invalid type!)")
-- 
2.43.0


From 970ec216402b2df6469f7c9e5379b483b2ff56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:57 +0000
Subject: [PATCH 11/36] fix: Varf.project looks up directions in the position

---
 hermipy/varf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 9d0c877..fd77e88 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -139,7 +139,7 @@ class Varf:
     def project(self, directions):
         if isinstance(directions, int):
             directions = [directions]
-        rel_dirs = [self.dirs.index(d) for d in directions]
+        rel_dirs = [self.position.dirs.index(d) for d in directions]
         p_matrix = core.project(self.matrix, self.position.dim, rel_dirs,
                                 index_set=self.index_set)
         p_pos = self.position.project(directions)
-- 
2.43.0


From b11803a0e99de6a73e1621f70be47b07a640a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:57 +0000
Subject: [PATCH 12/36] fix: Varf.subdegree refuses cross_nc, as
 Series.subdegree does

---
 hermipy/varf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index fd77e88..a7afcf4 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -148,6 +148,8 @@ class Varf:
                     factor=factor, index_set=self.index_set)
 
     def subdegree(self, degree):
+        if self.index_set == "cross_nc":
+            raise ValueError("cross_nc not supported!")
         if not degree <= self.degree:
             raise ValueError("Invalid argument: degree too high!")
         n_polys = core.iterator_size(self.position.dim, degree,
-- 
2.43.0


From b9b8738e378081b5c4747af867d388f0054721ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:57 +0000
Subject: [PATCH 13/36] fix: Varf.tensorize refuses operators that share
 directions

---
 hermipy/varf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index a7afcf4..f00c686 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -55,6 +55,8 @@ class Varf:
                not a.degree == degree:
                 raise ValueError("Invalid argument(s)")
             key = frozenset(a.position.dirs)
+            if any(key.intersection(k) for k in mats):
+                raise ValueError("Direction appears more than once")
             mats[key] = a.matrix
             factor *= a.factor.sym
 
-- 
2.43.0


From 523ea437ec7fe96c8a986305bed65b3cf573961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:57 +0000
Subject: [PATCH 14/36] fix: Series.to_cross keeps the factor

---
 hermipy/series.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index 736a9d3..546ca4f 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -296,4 +296,5 @@ does not match number of multi-indices!")
            not degree + self.position.dim - 1 <= self.degree:
             raise ValueError("Invalid argument!")
         coeffs = self.coeffs[lib.cross_in_triangle(self.position.dim, degree)]
-        return Series(coeffs, self.position, index_set="cross")
+        return Series(coeffs, self.position,
+                      factor=self.factor, index_set="cross")
-- 
2.43.0


From 722d7bb711ccc431c92d8af2061b9ac646448acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:57 +0000
Subject: [PATCH 15/36] fix: Series.to_function standardises the coordinates
 and applies the factor

---
 hermipy/series.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index 546ca4f..8b0e0f7 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -275,7 +275,7 @@ does not match number of multi-indices!")
             var = func.Function.xyz[d]
             h0 = func.Function('1', dirs=dirs)
             μ, σ = self.position.mean[i], self.position.cov[i][i]
-            f1 = np.sqrt(σ) * (var - μ)
+            f1 = (var - μ) / np.sqrt(σ)
             h1 = func.Function(f1, dirs=dirs)
             hermite_dirs.append([h0, h1])
             for j in range(1, self.degree):
@@ -289,7 +289,7 @@ does not match number of multi-indices!")
             for i in range(0, self.position.dim):
                 result_m *= hermite_dirs[i][m[i]]
             result += result_m
-        return result
+        return result * self.factor
 
     def to_cross(self, degree):
         if not self.index_set == "triangle" or \
-- 
2.43.0


From 230a2353d0b40c8bab3a14a1462e96a7ce386a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:57 +0000
Subject: [PATCH 16/36] fix: weight of a mixed position is normalised in its
 Hermite directions

---
 hermipy/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 2684cc3..e0b8819 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -136,7 +136,7 @@ class Position:
         var = [func.Function.xyz[self.dirs[i]] for i in ind]
         inv_cov = la.inv(sub_cov)
         potential = 0.5 * inv_cov.dot(var - sub_mean).dot(var - sub_mean)
-        normalization = 1/(sym.sqrt((2*sym.pi)**self.dim * la.det(sub_cov)))
+        normalization = 1/(sym.sqrt((2*sym.pi)**len(ind) * la.det(sub_cov)))
         return normalization * sym.exp(-potential)
 
     def weights(self):
-- 
2.43.0


From 1893d3b861912489f3d4107c0aab8e663e362868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:57 +0000
Subject: [PATCH 17/36] fix: Position defaults to the first directions when
 only mean or cov is given

---
 hermipy/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index e0b8819..5d3f9d3 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -90,7 +90,7 @@ class Position:
             raise ValueError("Invalid arguments dim/dirs")
 
         # Defaults to first directions
-        self.dirs = list(range(dim)) if dirs is None else dirs
+        self.dirs = list(range(self.dim)) if dirs is None else dirs
 
         self.mean = np.zeros(self.dim) if mean is None \
             else np.asarray(mean, float)
-- 
2.43.0


From 46baf94acf1cb5c8e3d5c1984eb74aab499e6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:57 +0000
Subject: [PATCH 18/36] fix: Quad.fourier takes its dimension from the position

---
 hermipy/quad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 47c503b..aa95807 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -101,7 +101,7 @@ class Quad:
         # Determine dimension
         if position is not None:
             dim = position.dim
-        if dirs is not None:
+        elif dirs is not None:
             dim = len(dirs)
         elif bounds is not None:
             dim = len(bounds)
-- 
2.43.0


From df6c1761b79e0a4c69ea01546f36505010132faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:57 +0000
Subject: [PATCH 19/36] fix: Function.project refuses any factor that couples
 kept and dropped directions

---
 hermipy/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/function.py b/hermipy/function.py
index 6d055ca..995ee18 100644
--- a/hermipy/function.py
+++ b/hermipy/function.py
@@ -139,7 +139,7 @@ function can't be split")
         for v, term in split_fun[0].items():
             if v.issubset(dirs) and v != frozenset():
                 result *= term.sym
-            elif set(dirs) != set() and set(dirs).issubset(v):
+            elif v.intersection(dirs):
                 raise ValueError("Can't project factor!")
         return Function(result, dirs=dirs)
 
-- 
2.43.0


From 31dacaab4bc7bf3bb52936979e13bff5a717a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:57 +0000
Subject: [PATCH 20/36] fix: Varf.solve with gmres works without a
 preconditioner

---
 hermipy/varf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index f00c686..7624d82 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -219,6 +219,8 @@ class Varf:
             if preconditioner == 'ilu':
                 ilu, n = spla.spilu(matrix), matrix.shape[0]
                 M = spla.LinearOperator((n, n), ilu.solve)
+            else:
+                M = None
             solution = cachefun(gmres)(matrix, vector, M=M, **kwargs)[0]
         else:
             solve = cache.cache(quiet=True)(spla.spsolve if self.is_sparse
-- 
2.43.0


From 7b09210fcc8e141fe53a8970e131d4b9b482d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:27 +0000
Subject: [PATCH 21/36] fix: a number of coefficients that fits no degree
 raises instead of exiting

---
 cpp/src/hermite/lib.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cpp/src/hermite/lib.cpp b/cpp/src/hermite/lib.cpp
index 20ce791..fcf7376 100644
--- a/cpp/src/hermite/lib.cpp
+++ b/cpp/src/hermite/lib.cpp
@@ -18,6 +18,8 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
+
 #include "hermite/iterators.hpp"
 #include "hermite/lib.hpp"
 #include "hermite/types.hpp"
@@ -92,10 +94,7 @@ u_int pos_bissect(u_int image, std::function<u_int(u_int)> f, u_int max)
 
     if (img_1 > 0 || img_2 < 0)
     {
-        std::cout << "Can't find x, Invalid arguments!" << std::endl;
-        std::cout << "-> x1: " << x1 << ", img_1: " << f(x1) << std::endl;
-        std::cout << "-> x2: " << x2 << ", img_2: " << f(x2) << std::endl;
-        exit(0);
+        throw std::invalid_argument("pos_bissect: no solution in the range");
     }
 
     if (img_1 == 0)
@@ -113,8 +112,7 @@ u_int pos_bissect(u_int image, std::function<u_int(u_int)> f, u_int max)
         {
             if (new_x == x1)
             {
-                std::cout << "[lib.cpp:pos_bissect] Can't find x, infinite loop!" << std::endl;
-                exit(1);
+                throw std::invalid_argument("pos_bissect: no solution");
             }
 
             x1 = new_x;
-- 
2.43.0


From 662552d8f6bf8f940aa0f872c837034217ecb7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:52 +0000
Subject: [PATCH 22/36] fix: mapped_nodes discretises the coordinates of the
 position

---
 hermipy/quad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index aa95807..caa9f02 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -241,8 +241,8 @@ class Quad:
 
     def mapped_nodes(self):
         coords_nodes = []
-        for i in range(self.position.dim):
-            coord = 'x_{}'.format(i)
+        for d in self.position.dirs:
+            coord = hm.Function.x_sub[d]
             coords_nodes.append(self.discretize(coord))
         return np.asarray(np.vstack(coords_nodes)).T
 
-- 
2.43.0


From 60c0a3b1fa18fffe5835135e495f4bee18db4dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:02 +0000
Subject: [PATCH 23/36] fix: an integrand that does not compile raises instead
 of crashing

---
 cpp/src/hermite/discretize.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hermite/discretize.cpp b/cpp/src/hermite/discretize.cpp
index bcf2fd8..673da67 100644
--- a/cpp/src/hermite/discretize.cpp
+++ b/cpp/src/hermite/discretize.cpp
@@ -21,6 +21,7 @@
 #include <cmath>
 #include <dlfcn.h>
 #include <fstream>
+#include <stdexcept>
 
 #include "hermite/types.hpp"
 #include "hermite/iterators.hpp"
@@ -104,8 +105,8 @@ void intern_function(string const & function_body)
         // Compile file
         string command = "c++ " + cpp_file + " -o " + so_file + " -O3 -Ofast -shared -fPIC";
         int return_value = system(command.c_str());
-        if (return_value != 0) 
-            std::cout << "Error compiling file in /tmp" << std::endl;
+        if (return_value != 0)
+            throw std::runtime_error("Error compiling file in /tmp");
     }
 }
 
@@ -119,6 +120,8 @@ vec discretize_from_string(
     string name = to_string(hash<string>()(function_body));
     string so_file = "/tmp/" + name + ".so";
     void *function_so = dlopen(so_file.c_str(), RTLD_NOW);
+    if (function_so == nullptr)
+        throw std::runtime_error("Error loading " + so_file);
     s_func func = (s_func) dlsym(function_so, "toIntegrate");
     vec result = discretize(func, nodes, translation, dilation);
     dlclose(function_so);
-- 
2.43.0


From cf9a453143206548bdfefcf35fca14234626d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:50 +0000
Subject: [PATCH 24/36] fix: splitting an operator that is not linear raises
 instead of misreading it

---
 hermipy/operator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hermipy/operator.py b/hermipy/operator.py
index 40218d4..eee89bf 100644
--- a/hermipy/operator.py
+++ b/hermipy/operator.py
@@ -119,6 +119,11 @@ class Operator():
         MAX_ORDER = 5
         variables = [func.Function.x_sub[d] for d in self.dirs]
         unknown, dim = self.f(*variables), len(variables)
+        other = sympy.Function('g')(*variables)
+        of_other, of_sum = (self.sym.subs(unknown, u)
+                            for u in (other, unknown + other))
+        if (of_sum - self.sym - of_other).doit().expand() != 0:
+            raise ValueError("Invalid operator: not linear")
         result, rem = {}, self.sym.expand()
         mult = list(m for m in itertools.product(range(MAX_ORDER + 1),
                     repeat=dim) if sum(m) <= MAX_ORDER)
-- 
2.43.0


From 31ab6213e21479779224f383baaca748d531db22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:50 +0000
Subject: [PATCH 25/36] fix: splitting an operator evaluates pending
 derivatives first

---
 hermipy/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/operator.py b/hermipy/operator.py
index eee89bf..415486f 100644
--- a/hermipy/operator.py
+++ b/hermipy/operator.py
@@ -124,7 +124,7 @@ class Operator():
                             for u in (other, unknown + other))
         if (of_sum - self.sym - of_other).doit().expand() != 0:
             raise ValueError("Invalid operator: not linear")
-        result, rem = {}, self.sym.expand()
+        result, rem = {}, self.sym.doit().expand()
         mult = list(m for m in itertools.product(range(MAX_ORDER + 1),
                     repeat=dim) if sum(m) <= MAX_ORDER)
         for m in mult:
-- 
2.43.0


From 8bdb6dbd3302f23109fb5e2166ff0c5a60e8a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:52 +0000
Subject: [PATCH 26/36] fix: sizes beyond 32 bits saturate, so that the
 bisection on the degree works in dimension five

---
 cpp/src/hermite/iterators.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index 0e9069b..a71a953 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <assert.h>
+#include <limits.h>
 #include <unordered_map>
 #include "hermite/io.hpp"
 #include "hermite/lib.hpp"
@@ -31,6 +32,12 @@
 
 namespace hermite
 {
+// Sizes beyond the range of u_int must stay large for the bisection on the degree
+static u_int saturate(double size)
+{
+    return size < UINT_MAX ? (u_int) size : UINT_MAX;
+}
+
 // Grid iterators (used for N-dim for loops)
 // Hypercube iterator {{{
 u_int Grid_iterator::index(const ivec & m_vec)
@@ -198,7 +205,7 @@ u_int Cube_iterator::s_index(const ivec & m_vec)
 
 u_int Cube_iterator::s_size(u_int dim, u_int degree)
 {
-    return (u_int) pow(degree + 1, dim);
+    return saturate(pow(degree + 1, dim));
 }
 
 imat Cube_iterator::s_list(u_int dim, u_int degree)
@@ -280,7 +287,7 @@ u_int Triangle_iterator::s_index(const ivec & m_vec)
 u_int Triangle_iterator::s_size(u_int dim, u_int degree)
 {
     using boost::math::binomial_coefficient;
-    return (u_int) binomial_coefficient<double> (degree + dim, dim);
+    return saturate(binomial_coefficient<double> (degree + dim, dim));
 }
 
 imat Triangle_iterator::s_list(u_int dim, u_int degree)
@@ -574,11 +581,11 @@ u_int Rectangle_iterator::s_size(u_int dim, u_int degree)
     for (u_int i = 0; i < dim; i++)
         factors[i] = i == 0 ? 1 : 2;
 
-    u_int result = 1;
+    double result = 1;
     for (u_int i = 0; i < factors.size(); i++)
         result *= (1 + degree/factors[i]);
 
-    return result;
+    return saturate(result);
 }
 
 imat Rectangle_iterator::s_list(u_int dim, u_int degree)
-- 
2.43.0


From 8195758ff6f2668e0e6f5e4418ce015bcdec984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:15 +0000
Subject: [PATCH 27/36] fix: integers beyond 2^53 survive the cache

---
 hermipy/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 5e23e66..0ff9cf3 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -106,7 +106,7 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
     def extended_load(filename):
         result = np.load(filename)
         if result.shape == ():
-            result = float(result)
+            result = result.item()
         return result
 
     def cache_aux(function):
-- 
2.43.0


From 08e7c1cacac608db9ee339524521eaab09003cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 28/36] fix: composite quadratures can transform (number plus
 series)

---
 hermipy/series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermipy/series.py b/hermipy/series.py
index 8b0e0f7..1788872 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -149,6 +149,7 @@ does not match number of multi-indices!")
             raise TypeError("Invalid type: " + str(type(other)))
 
     __rmul__ = __mul__
+    __radd__ = __add__
 
     def __sub__(self, other):
         return self + other * (-1)
-- 
2.43.0


From 5164c3af22d146b4f64a87f0fed3804cbf58de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 29/36] fix: projecting a composite quadrature no longer raises
 NameError

---
 hermipy/compquad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/compquad.py b/hermipy/compquad.py
index c1624d4..9ac0897 100644
--- a/hermipy/compquad.py
+++ b/hermipy/compquad.py
@@ -83,7 +83,7 @@ class CompQuad():
         return quad.Quad.discretize_op(self, op, func, degree, order,
                                        sparse=sparse, index_set = index_set)
 
-    def project(self, projection):
+    def project(self, directions):
         new_quads = [q.project(directions) for q in self.quads]
         return CompQuad(new_quads, self.qweights)
 
-- 
2.43.0


From 20f04635550836fda5a527ca9b1fda60c9d50c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 30/36] fix: composite quadratures can discretise operators and
 derivatives

---
 hermipy/compquad.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hermipy/compquad.py b/hermipy/compquad.py
index 9ac0897..d852228 100644
--- a/hermipy/compquad.py
+++ b/hermipy/compquad.py
@@ -75,13 +75,20 @@ class CompQuad():
 
     def varfd(self, function, degree, directions, sparse=None,
               index_set="triangle"):
-        return quad.Quad.varfd(self, function, degree, directions,
-                               sparse=sparse, index_set=index_set)
+        result = 0
+        for i, q in enumerate(self.quads):
+            varfd = q.varfd(function, degree, directions,
+                            sparse=sparse, index_set=index_set)
+            result += varfd * self.qweights[i]
+        return result
 
-    def discretize_op(self, op, func, degree, order,
-                      sparse=None, index_set="triangle"):
-        return quad.Quad.discretize_op(self, op, func, degree, order,
-                                       sparse=sparse, index_set = index_set)
+    def discretize_op(self, op, degree, sparse=None, index_set="triangle"):
+        result = 0
+        for i, q in enumerate(self.quads):
+            varf = q.discretize_op(op, degree,
+                                   sparse=sparse, index_set=index_set)
+            result += varf * self.qweights[i]
+        return result
 
     def project(self, directions):
         new_quads = [q.project(directions) for q in self.quads]
-- 
2.43.0


From 6ce2d6e2dadd5d7d41a0c8ea753b76933a3602ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:00 +0000
Subject: [PATCH 31/36] fix: composite quadratures with other weights are not
 equal

---
 hermipy/compquad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermipy/compquad.py b/hermipy/compquad.py
index d852228..5be5d5c 100644
--- a/hermipy/compquad.py
+++ b/hermipy/compquad.py
@@ -51,7 +51,8 @@ class CompQuad():
         if len(self.quads) != len(other.quads):
             return False
 
-        return all(q1 == q2 for q1, q2 in zip(self.quads, other.quads))
+        return all(q1 == q2 for q1, q2 in zip(self.quads, other.quads)) \
+            and all(w1 == w2 for w1, w2 in zip(self.qweights, other.qweights))
 
     def integrate(self, f):
         result = 0
-- 
2.43.0


From 1660ba4c943027845ac292dcf3d3373297676b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:23 +0000
Subject: [PATCH 32/36] fix: quadratures with other numbers of points are not
 equal

---
 hermipy/quad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index caa9f02..e5af317 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -163,6 +163,7 @@ class Quad:
 
         return self.position == other.position \
             and self.factor == other.factor \
+            and self.nodes.shape == other.nodes.shape \
             and la.norm(self.nodes - other.nodes) < very_small \
             and la.norm(self.weights - other.weights) < very_small
 
-- 
2.43.0


From eb15619dc9e11340ad4ac135650774823d70c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:23 +0000
Subject: [PATCH 33/36] fix: series over other index sets are not equal

---
 hermipy/series.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermipy/series.py b/hermipy/series.py
index 1788872..ba9df0b 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -110,6 +110,8 @@ does not match number of multi-indices!")
             raise ValueError("Invalid argument!")
         return self.position == other.position \
             and self.factor == other.factor \
+            and self.index_set == other.index_set \
+            and self.coeffs.shape == other.coeffs.shape \
             and la.norm(self.coeffs - other.coeffs) < very_small
 
     def __add__(self, other):
-- 
2.43.0


From 6987ec665533b6908f3f739cda4c263c834f26ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:24 +0000
Subject: [PATCH 34/36] fix: operators over other index sets or factors are not
 equal

---
 hermipy/varf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 7624d82..a49a908 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -82,6 +82,9 @@ class Varf:
             raise ValueError("Invalid argument!")
         norm_func = spla.norm if self.is_sparse and other.is_sparse else la.norm
         return self.position == other.position \
+            and self.factor == other.factor \
+            and self.index_set == other.index_set \
+            and self.matrix.shape == other.matrix.shape \
             and norm_func(self.matrix - other.matrix) < very_small
 
     def __add__(self, other):
-- 
2.43.0


From 8648bb9ec1bed910e8a5536686e45eedcad3c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:22 +0000
Subject: [PATCH 35/36] fix: the degree recovered for cross_nc is the largest
 entry, also for the smallest set

---
 cpp/src/hermite/iterators.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index a71a953..af3b35c 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -484,7 +484,9 @@ imat Cross_iterator_nc::s_list(u_int dim, u_int degree)
 u_int Cross_iterator_nc::s_get_degree(u_int dim, u_int n_polys)
 {
     auto function = [dim] (u_int degree) {return s_size(dim, degree);};
-    return pos_bissect (n_polys, function, DEGREE_BISSECT_MAX);
+    u_int degree = pos_bissect (n_polys, function, DEGREE_BISSECT_MAX);
+    // Degrees 0 and 1 have the same indices
+    return MAX(1, degree);
 }
 
 u_int Cross_iterator_nc::s_size(u_int dim, u_int degree)
-- 
2.43.0


From 78dbe8bc89c05860fe5a0d6ed52b85f52a5d1d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 36/36] fix: integrands are compiled under a name of their own
 and renamed when complete

---
 cpp/src/hermite/discretize.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cpp/src/hermite/discretize.cpp b/cpp/src/hermite/discretize.cpp
index 673da67..f838b84 100644
--- a/cpp/src/hermite/discretize.cpp
+++ b/cpp/src/hermite/discretize.cpp
@@ -19,9 +19,11 @@
  */
 
 #include <cmath>
+#include <cstdio>
 #include <dlfcn.h>
 #include <fstream>
 #include <stdexcept>
+#include <unistd.h>
 
 #include "hermite/types.hpp"
 #include "hermite/iterators.hpp"
@@ -89,11 +91,14 @@ vec discretize(
 void intern_function(string const & function_body)
 {
     string name = to_string(hash<string>()(function_body));
-    string cpp_file = "/tmp/" + name + ".cpp";
     string so_file = "/tmp/" + name + ".so";
     ifstream test_exists(so_file.c_str());
 
     if(! test_exists.good()) {
+         // Other processes must never see incomplete files under the final name
+         string own_name = "/tmp/" + name + "-" + to_string(getpid());
+         string cpp_file = own_name + ".cpp";
+         string tmp_file = own_name + ".so";
          ofstream write_function;
          write_function.open(cpp_file);
          write_function << "#define M_PI 3.14159265358979323846\n";
@@ -103,9 +108,10 @@ void intern_function(string const & function_body)
          write_function.close();
 
         // Compile file
-        string command = "c++ " + cpp_file + " -o " + so_file + " -O3 -Ofast -shared -fPIC";
+        string command = "c++ " + cpp_file + " -o " + tmp_file + " -O3 -Ofast -shared -fPIC";
         int return_value = system(command.c_str());
-        if (return_value != 0)
+        remove(cpp_file.c_str());
+        if (return_value != 0 || rename(tmp_file.c_str(), so_file.c_str()) != 0)
             throw std::runtime_error("Error compiling file in /tmp");
     }
 }
-- 
2.43.0

