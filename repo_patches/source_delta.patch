From c00af694700d82912c3e89f76ed3220cb755bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 001/156] fix: merge_sort_parallel fails on an empty range

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index eebb93f..93da075 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -120,7 +120,7 @@ def merge_sort_parallel(array, num_threads, **kwargs):
     start = kwargs.get('start', 0)
     end = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u <= v)
-    for size in range(floor(log(end - start + 1, 2)) + 1):
+    for size in range(floor(log(max(end - start + 1, 1), 2)) + 1):
         pow_2 = 2**size
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             i = start
-- 
2.43.0


From 75bb77d8ab603bb63b39c9a04876b6e1afd07e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 002/156] fix: brick_sort and brick_sort_parallel never end on
 equal elements

---
 pydatastructs/linear_data_structures/algorithms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 93da075..67a3acd 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -191,19 +191,22 @@ def brick_sort(array, **kwargs):
     while is_sorted is False:
         is_sorted = True
         for i in range(start+1, end, 2):
-            if _comp(array[i+1], array[i], comp):
+            if _strictly_before(array[i+1], array[i], comp):
                 array[i], array[i+1] = array[i+1], array[i]
                 is_sorted = False
         for i in range(start, end, 2):
-            if _comp(array[i+1], array[i], comp):
+            if _strictly_before(array[i+1], array[i], comp):
                 array[i], array[i+1] = array[i+1], array[i]
                 is_sorted = False
 
     if _check_type(array, (DynamicArray, _arrays.DynamicOneDimensionalArray)):
         array._modify(True)
 
+def _strictly_before(u, v, comp):
+    return _comp(u, v, comp) and not _comp(v, u, comp)
+
 def _brick_sort_swap(array, i, j, comp, is_sorted):
-    if _comp(array[j], array[i], comp):
+    if _strictly_before(array[j], array[i], comp):
         array[i], array[j] = array[j], array[i]
         is_sorted[0] = False
 
-- 
2.43.0


From 48bff2be7d98a1b6ff1c5a22d3cf6da6ab5f26ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 003/156] fix: quick_sort leaves the range unsorted when the
 pivot is not its last element

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 67a3acd..21d94a0 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -765,6 +765,10 @@ def quick_sort(array: Array, **kwargs) -> Array:
     def partition(low, high, pick_pivot_element):
         i = (low - 1)
         x = pick_pivot_element(low, high, array)
+        for j in range(low, high):
+            if array[j] is x:
+                array[j], array[high] = array[high], array[j]
+                break
         for j in range(low , high):
             if _comp(array[j], x, comp) is True:
                 i = i + 1
-- 
2.43.0


From f7ac645f302b1b2a7809f6119405808d3961afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 004/156] fix: quick_sort fails on an empty range

---
 pydatastructs/linear_data_structures/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 21d94a0..72d8064 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -780,8 +780,9 @@ def quick_sort(array: Array, **kwargs) -> Array:
     upper = kwargs.get('end', len(array) - 1)
     stack = Stack()
 
-    stack.push(lower)
-    stack.push(upper)
+    if lower < upper:
+        stack.push(lower)
+        stack.push(upper)
 
     while stack.is_empty is False:
         high = stack.pop()
-- 
2.43.0


From a5fa81cc86a914e2c65ab7388e4fb782d9a38e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 005/156] fix: DynamicOneDimensionalArray._modify fails on an
 array without elements

---
 pydatastructs/linear_data_structures/arrays.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 2e0c3fd..ace1096 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -380,11 +380,11 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
         below load factor.
         """
         if force:
-            i = -1
-            while self._data[i] is None:
+            i = self._size - 1
+            while i >= 0 and self._data[i] is None:
                 i -= 1
-            self._last_pos_filled = i%self._size
-        if (self._num/self._size < self._load_factor):
+            self._last_pos_filled = i
+        if self._size > 0 and (self._num/self._size < self._load_factor):
             arr_new = OneDimensionalArray(self._dtype, 2*self._num + 1)
             j = 0
             for i in range(self._last_pos_filled + 1):
-- 
2.43.0


From 1ee585f9c8c4a8ac23a53894c2399c0b47556a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 006/156] fix: bucket_sort picks buckets that do not exist or
 are out of order

---
 .../linear_data_structures/algorithms.py      | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 72d8064..9f8ebe7 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -563,21 +563,19 @@ def bucket_sort(array: Array, **kwargs) -> Array:
     start = kwargs.get('start', 0)
     end = kwargs.get('end', len(array) - 1)
 
-    #Find maximum value in the list and use length of the list to determine which value in the list goes into which bucket
-    max_value = None
-    for i in range(start, end+1):
-        if array[i] is not None:
-            max_value = array[i]
-
+    #Find minimum and maximum values in the list and use length of the list to determine which value in the list goes into which bucket
+    min_value, max_value = None, None
     count = 0
     for i in range(start, end+1):
         if array[i] is not None:
             count += 1
-            if array[i] > max_value:
+            if max_value is None or array[i] > max_value:
                 max_value = array[i]
+            if min_value is None or array[i] < min_value:
+                min_value = array[i]
 
     number_of_null_values = end - start + 1 - count
-    size = max_value // count
+    size = (max_value - min_value) // count + 1 if count > 0 else 1
 
     # Create n empty buckets where n is equal to the length of the input list
     buckets_list = [[] for _ in range(count)]
@@ -585,11 +583,8 @@ def bucket_sort(array: Array, **kwargs) -> Array:
     # Put list elements into different buckets based on the size
     for i in range(start, end + 1):
         if array[i] is not None:
-            j = array[i] // size
-            if j is not count:
-                buckets_list[j].append(array[i])
-            else:
-                buckets_list[count-1].append(array[i])
+            j = int((array[i] - min_value) // size)
+            buckets_list[j].append(array[i])
 
     # Sort elements within the buckets using Insertion Sort
     for z in range(count):
-- 
2.43.0


From 5f6a731e2f3500d051e74d0d35e1380cbf880c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 007/156] fix: radix_sort fails on empty slots and keeps them
 in place when all values are zero

---
 pydatastructs/linear_data_structures/algorithms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 9f8ebe7..fe8bba8 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1981,12 +1981,12 @@ def radix_sort(array, *args, **kwargs):
     end = int(kwargs.get('end', len(array) - 1))
 
     n = end - start + 1
-    max_val = array[start]
-    for i in range(start + 1, end + 1):
-        if array[i] is not None and array[i] > max_val:
+    max_val = None
+    for i in range(start, end + 1):
+        if array[i] is not None and (max_val is None or array[i] > max_val):
             max_val = array[i]
     exp = 1
-    while max_val // exp > 0:
+    while max_val is not None and (exp == 1 or max_val // exp > 0):
         count = [0] * 10
         output = [None] * n
 
-- 
2.43.0


From 48a1332e42c6ee3ef0e7b1a015706589adf0b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 008/156] fix: is_ordered rejects ordered arrays with equal
 neighbours

---
 .../_backend/cpp/algorithms/misc_algorithms.hpp                | 3 ++-
 pydatastructs/linear_data_structures/algorithms.py             | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 4527955..96b09ba 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -16,7 +16,8 @@ static bool is_ordered_impl(PyObject* array, size_t lower, size_t upper,
         PyObject* i_item = PyObject_GetItem(array, i_PyObject);
         PyObject* i1_item = PyObject_GetItem(array, i1_PyObject);
         if (i_item == Py_None || i1_item == Py_None) continue;
-        if ( _comp(i_item, i1_item, comp) == 1 ) {
+        if ( _comp(i_item, i1_item, comp) == 1 &&
+             _comp(i1_item, i_item, comp) != 1 ) {
             return false;
         }
     }
diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index fe8bba8..b627f42 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -923,7 +923,7 @@ def is_ordered(array, **kwargs):
     for i in range(lower + 1, upper + 1):
         if array[i] is None or array[i - 1] is None:
             continue
-        if comp(array[i], array[i - 1]):
+        if comp(array[i], array[i - 1]) and not comp(array[i - 1], array[i]):
             return False
     return True
 
-- 
2.43.0


From 6ce0bc987b80bbdb5bc83b3f2f992c0021b6dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 009/156] fix: C++ quick_sort calls pick_pivot_element with an
 unterminated argument list

---
 .../_backend/cpp/algorithms/quick_sort.hpp                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index f3ad0ed..cc1f73a 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -15,7 +15,7 @@ static PyObject* call_pick_pivot_element(PyObject* pick_pivot_element,
         return PyObject_CallFunctionObjArgs(pick_pivot_element,
                                             PyLong_FromSize_t(low),
                                             high_PyObject,
-                                            array);
+                                            array, NULL);
     }
 
     return PyObject_GetItem(array, high_PyObject);
-- 
2.43.0


From 179c0673b6d295a0be0145452357d836e7777e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 010/156] fix: C++ quick_sort leaves the range unsorted when
 the pivot is not its last element

---
 .../_backend/cpp/algorithms/quick_sort.hpp            | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index cc1f73a..7eed132 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -25,6 +25,17 @@ static size_t quick_sort_partition(size_t low, size_t high,
     PyObject* pick_pivot_element, PyObject* comp, PyObject* array) {
     int64_t i = low - 1;
     PyObject* x = call_pick_pivot_element(pick_pivot_element, low, high, array);
+    for( size_t j = low; j < high; j++ ) {
+        PyObject* j_PyObject = PyLong_FromSize_t(j);
+        PyObject* j_item = PyObject_GetItem(array, j_PyObject);
+        if ( j_item == x ) {
+            PyObject* high_PyObject = PyLong_FromSize_t(high);
+            PyObject_SetItem(array, j_PyObject,
+                             PyObject_GetItem(array, high_PyObject));
+            PyObject_SetItem(array, high_PyObject, j_item);
+            break;
+        }
+    }
     for( size_t j = low; j < high; j++ ) {
         PyObject* j_PyObject = PyLong_FromSize_t(j);
         if ( _comp(PyObject_GetItem(array, j_PyObject), x, comp) == 1 ) {
-- 
2.43.0


From e41f73048e05801c7a0a7399c555210b8d2e7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 011/156] fix: C++ quick_sort never ends when the smallest
 element is the pivot of the first range

---
 .../_backend/cpp/algorithms/quick_sort.hpp                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index 7eed132..4eba59a 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -72,7 +72,7 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
         rstack.pop();
         p = quick_sort_partition(low, high, pick_pivot_element,
                                  comp, array);
-        if ( p - 1 > low ) {
+        if ( p > low + 1 ) {
             rstack.push(low);
             rstack.push(p - 1);
         }
-- 
2.43.0


From d8e4704694a63df4c573b4b0c4bc911c1fdbcfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 012/156] fix: C++ quick_sort and bubble_sort never end on an
 empty array

---
 .../_backend/cpp/algorithms/quadratic_time_sort.hpp           | 2 +-
 .../_backend/cpp/algorithms/quick_sort.hpp                    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 792c1a6..9c95b77 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -11,7 +11,7 @@
 // Bubble Sort
 static PyObject* bubble_sort_impl(PyObject* array, size_t lower, size_t upper,
     PyObject* comp, size_t arr_length) {
-    for (size_t i = 0; i < arr_length - 1; i++) {
+    for (size_t i = 0; i + 1 < arr_length; i++) {
         for (size_t j = lower; j < upper; j++) {
             PyObject* j_PyObject = PyLong_FromSize_t(j);
             PyObject* j1_PyObject = PyLong_FromSize_t(j+1);
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index 4eba59a..4c39648 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -62,6 +62,10 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
     size_t low, high, p;
     std::stack<size_t> rstack;
 
+    if ( PyObject_Length(array) == 0 ) {
+        return array;
+    }
+
     rstack.push(lower);
     rstack.push(upper);
 
-- 
2.43.0


From 2dab47f5770afca520555bf5a362f52408d9422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 013/156] fix: C++ DynamicOneDimensionalArray._modify reads in
 front of an array without elements

---
 .../_backend/cpp/arrays/DynamicOneDimensionalArray.hpp       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index 6715d45..61e5376 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -99,14 +99,15 @@ static PyObject* DynamicOneDimensionalArray__modify(DynamicOneDimensionalArray *
     if ( force == Py_True ) {
         i = -1;
         j = _size - 1;
-        while ( _data[j] == Py_None) {
+        while ( j >= 0 && _data[j] == Py_None) {
             i--;
             j--;
         }
         self->_last_pos_filled = i + _size;
     }
 
-    if ( ((float) self->_num)/((float) _size) < self->_load_factor ) {
+    if ( _size > 0 &&
+         ((float) self->_num)/((float) _size) < self->_load_factor ) {
         long new_size = 2 * self->_num + 1;
         PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
         for( i = 0; i < new_size; i++ ) {
-- 
2.43.0


From f8660de4734e9b8da4312a0e3b30eeb899fcc9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 014/156] fix: jump_search ignores start when it picks the
 first block

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index b627f42..534d4d3 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1737,7 +1737,7 @@ def jump_search(array, value, **kwargs):
     comp = kwargs.get("comp", lambda u, v: u < v)
 
     step = int(sqrt(end - start + 1))
-    current_position = step
+    current_position = start + step
     prev = start
     while comp(array[min(current_position, end)], value):
         prev = current_position
-- 
2.43.0


From 23cd47f324e53b55449794c860258b3b4bcab14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 015/156] fix: LLVM bubble_sort cannot be compiled for floats

---
 .../_backend/cpp/algorithms/llvm_algorithms.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
index 56b548c..534ed5e 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
@@ -107,7 +107,7 @@ def _build_bubble_sort_ir(dtype: str) -> str:
     if isinstance(T, ir.IntType):
         should_swap = b.icmp_signed(">", val_j, val_jp1)
     else:
-        should_swap = b.fcmp_ordered(">", val_j, val_jp1, fastmath=True)
+        should_swap = b.fcmp_ordered(">", val_j, val_jp1)
 
     b.cbranch(should_swap, b_swap, b_inner_latch)
 
-- 
2.43.0


From 004df473df24c08dc00212943a809c7992f02d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 016/156] fix: LLVM selection_sort builds code that LLVM
 rejects

---
 .../_backend/cpp/algorithms/llvm_algorithms.py    | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
index 534ed5e..419577f 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
@@ -211,16 +211,17 @@ def _build_selection_sort_ir(dtype: str) -> str:
     i_phi = b.phi(i32, name="i")
     i_phi.add_incoming(ir.Constant(i32, 0), b_entry)  # start at 0
 
+    i_next = b.add(i_phi, ir.Constant(i32, 1))
     cond_outer = b.icmp_signed("<", i_phi, n)
     b.cbranch(cond_outer, b_inner, b_exit)
 
     # Inner loop: find min index
     b.position_at_end(b_inner)
-    min_idx = b_phi = b_phi_i = b.phi(i32, name="min_idx")
+    min_idx = b.phi(i32, name="min_idx")
     min_idx.add_incoming(i_phi, b_outer)  # initial min_idx = i
 
     j_phi = b.phi(i32, name="j")
-    j_phi.add_incoming(b.add(i_phi, ir.Constant(i32, 1)), b_outer)
+    j_phi.add_incoming(i_next, b_outer)
 
     cond_inner = b.icmp_signed("<", j_phi, n)
     b.cbranch(cond_inner, b_inner_latch, b_swap)
@@ -239,19 +240,18 @@ def _build_selection_sort_ir(dtype: str) -> str:
     else:
         cmp = b.fcmp_ordered("<", arr_j_val, arr_min_val)
 
-    with b.if_then(cmp):
-        min_idx = j_phi  # update min_idx
+    new_min_idx = b.select(cmp, j_phi, min_idx)  # update min_idx
 
     j_next = b.add(j_phi, ir.Constant(i32, 1))
     j_phi.add_incoming(j_next, b_inner_latch)
-    min_idx.add_incoming(min_idx, b_inner_latch)  # propagate current min_idx
+    min_idx.add_incoming(new_min_idx, b_inner_latch)  # propagate current min_idx
     b.branch(b_inner)
 
     # Swap arr[i] and arr[min_idx]
     b.position_at_end(b_swap)
-    i64 = b.sext(i_phi, i64)
+    idx64 = b.sext(i_phi, i64)
     min64 = b.sext(min_idx, i64)
-    ptr_i = b.gep(arr, [i64], inbounds=True)
+    ptr_i = b.gep(arr, [idx64], inbounds=True)
     ptr_min = b.gep(arr, [min64], inbounds=True)
     val_i = b.load(ptr_i)
     val_min = b.load(ptr_min)
@@ -259,7 +259,6 @@ def _build_selection_sort_ir(dtype: str) -> str:
     b.store(val_i, ptr_min)
 
     # Increment i
-    i_next = b.add(i_phi, ir.Constant(i32, 1))
     i_phi.add_incoming(i_next, b_swap)
     b.branch(b_outer)
 
-- 
2.43.0


From 6126b1329627ca6bab7fddc239cb21a031da7641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 017/156] fix: prev_permutation returns a wrong permutation
 when values repeat

---
 pydatastructs/linear_data_structures/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 534d4d3..e5f01b1 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1307,10 +1307,10 @@ def prev_permutation(array, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
 
     def _prev_permutation_comp(x, y, _comp):
-        if _comp(x, y):
-            return True
-        else:
+        if _comp(y, x):
             return False
+        else:
+            return True
 
     return _permutation_util(array, start, end, comp,
                              _prev_permutation_comp)
-- 
2.43.0


From 0ebe77a58cab982e89adc75e291b7646fa1f999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 018/156] fix: next_permutation and prev_permutation convert
 all values to int

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index e5f01b1..8813eab 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1145,7 +1145,7 @@ def longest_increasing_subsequence(array, **kwargs):
 
 def _permutation_util(array, start, end, comp, perm_comp):
     size = end - start + 1
-    permute = OneDimensionalArray(int, size)
+    permute = OneDimensionalArray(getattr(array, "_dtype", int), size)
     for i, j in zip(range(start, end + 1), range(size)):
         permute[j] = array[i]
     i = size - 1
-- 
2.43.0


From d37c970ca368db8f67abbbc8552faba550f285bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 019/156] fix: longest_increasing_subsequence converts all
 values to int

---
 pydatastructs/linear_data_structures/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 8813eab..214aebf 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1132,13 +1132,14 @@ def longest_increasing_subsequence(array, **kwargs):
             ceil = lower_bound(curr_array, array[i])
             dp[ceil] = i
             parent[i] = dp[ceil - 1]
-    ans = DynamicOneDimensionalArray(int, 0)
+    dtype = getattr(array, "_dtype", int)
+    ans = DynamicOneDimensionalArray(dtype, 0)
     last_index = dp[length]
     while last_index != -1:
         ans.append(array[last_index])
         last_index = parent[last_index]
     n = ans._last_pos_filled + 1
-    ans_ODA = OneDimensionalArray(int, n)
+    ans_ODA = OneDimensionalArray(dtype, n)
     for i in range(n):
         ans_ODA[n-1-i] = ans[i]
     return ans_ODA
-- 
2.43.0


From 6852e749690db1c9ae9f0f07742c63daea3087cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 020/156] fix: longest_increasing_subsequence fails on an empty
 array

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 214aebf..43bd540 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1134,7 +1134,7 @@ def longest_increasing_subsequence(array, **kwargs):
             parent[i] = dp[ceil - 1]
     dtype = getattr(array, "_dtype", int)
     ans = DynamicOneDimensionalArray(dtype, 0)
-    last_index = dp[length]
+    last_index = dp[length] if n > 0 else -1
     while last_index != -1:
         ans.append(array[last_index])
         last_index = parent[last_index]
-- 
2.43.0


From 094d857fa722ef69382648aaa4021a9e6da8567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 021/156] fix: matrix_multiply_parallel is wrong for matrices
 that are not square

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 43bd540..deda860 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -428,7 +428,7 @@ def counting_sort(array: Array, **kwargs) -> Array:
 
 def _matrix_multiply_helper(m1, m2, row, col):
     s = 0
-    for i in range(len(m1)):
+    for i in range(len(m2)):
         s += m1[row][i] * m2[i][col]
     return s
 
@@ -483,7 +483,7 @@ def matrix_multiply_parallel(matrix_1, matrix_2, num_threads):
         raise ValueError("Matrix size mismatch: %s * %s"%(
         (row_matrix_1, col_matrix_1), (row_matrix_2, col_matrix_2)))
 
-    C = [[None for i in range(col_matrix_1)] for j in range(row_matrix_2)]
+    C = [[None for i in range(col_matrix_2)] for j in range(row_matrix_1)]
 
     with ThreadPoolExecutor(max_workers=num_threads) as Executor:
         for i in range(row_matrix_1):
-- 
2.43.0


From 2dd58b0b16ce62fa6f93f559927acc65a31ecc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 022/156] fix: OneDimensionalArray accepts negative indices in
 assignments

---
 pydatastructs/linear_data_structures/arrays.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index ace1096..c89cac1 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -137,6 +137,9 @@ class OneDimensionalArray(Array):
         return self._data.__getitem__(i)
 
     def __setitem__(self, idx, elem):
+        if idx >= self._size or idx < 0:
+            raise IndexError(("Index, {} out of range, "
+                              "[{}, {}).".format(idx, 0, self._size)))
         if elem is None:
             self._data[idx] = None
         else:
-- 
2.43.0


From 9cd507b28f9e8a82c7b9c3062bbad18732bece1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 023/156] fix: OneDimensionalArray converts elements in the
 caller's list and rejects tuples

---
 .../linear_data_structures/arrays.py          | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index c89cac1..0ccc716 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -88,17 +88,11 @@ class OneDimensionalArray(Array):
         obj = Array.__new__(cls)
         obj._dtype = dtype
         if len(args) == 2:
-            if _check_type(args[0], list) and \
+            if _check_type(args[0], (list, tuple)) and \
                 _check_type(args[1], int):
-                for i in range(len(args[0])):
-                    if _check_type(args[0][i], dtype) is False:
-                        args[0][i] = dtype(args[0][i])
                 size, data = args[1], list(args[0])
-            elif _check_type(args[1], list) and \
+            elif _check_type(args[1], (list, tuple)) and \
                 _check_type(args[0], int):
-                for i in range(len(args[1])):
-                    if _check_type(args[1][i], dtype) is False:
-                        args[1][i] = dtype(args[1][i])
                 size, data = args[0], list(args[1])
             else:
                 raise TypeError("Expected type of size is int and "
@@ -106,6 +100,9 @@ class OneDimensionalArray(Array):
             if size != len(data):
                 raise ValueError("Conflict in the size, %s and length of data, %s"
                                  %(size, len(data)))
+            for i in range(size):
+                if _check_type(data[i], dtype) is False:
+                    data[i] = dtype(data[i])
             obj._size, obj._data = size, data
 
         elif len(args) == 1:
@@ -114,11 +111,11 @@ class OneDimensionalArray(Array):
                 init = kwargs.get('init', None)
                 obj._data = [init for i in range(args[0])]
             elif _check_type(args[0], (list, tuple)):
-                for i in range(len(args[0])):
-                    if _check_type(args[0][i], dtype) is False:
-                        args[0][i] = dtype(args[0][i])
                 obj._size, obj._data = len(args[0]), \
                                         list(args[0])
+                for i in range(obj._size):
+                    if _check_type(obj._data[i], dtype) is False:
+                        obj._data[i] = dtype(obj._data[i])
             else:
                 raise TypeError("Expected type of size is int and "
                                 "expected type of data is list/tuple.")
-- 
2.43.0


From 8c214f3d085ac7a9255956a8c5023adc9bbe442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 024/156] fix: MultiDimensionalArray accepts indices outside a
 dimension and reads another cell

---
 pydatastructs/linear_data_structures/arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 0ccc716..071cc52 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -263,7 +263,8 @@ class MultiDimensionalArray(Array):
         indices = [indices] if isinstance(indices, int) else indices
         if len(indices) != len(self._sizes) - 1:
             raise IndexError("Shape mismatch, current shape is %s" % str(self.shape))
-        if any(indices[i] >= self._sizes[i] for i in range(len(indices))):
+        if any(indices[i] >= self.shape[i] or indices[i] < 0
+               for i in range(len(indices))):
             raise IndexError("Index out of range.")
 
     def fill(self, element) -> None:
-- 
2.43.0


From 3703421da4ea6289d3fcc6a974831183a4299f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 025/156] fix: MultiDimensionalArray with one dimension accepts
 a size below 1

---
 pydatastructs/linear_data_structures/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 071cc52..ca8c639 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -207,7 +207,7 @@ class MultiDimensionalArray(Array):
         elif not args:
             raise ValueError("Too few arguments to create a "
                              "multi dimensional array, pass dimensions.")
-        if len(args) == 1:
+        if len(args) == 1 and args[0] >= 1:
             obj = Array.__new__(cls)
             obj._dtype = dtype
             obj._sizes = (args[0], 1)
-- 
2.43.0


From 91848339cfe5c010665ff20117db60839eab7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 026/156] fix: C++ OneDimensionalArray assignment of a wrong
 type fails with SystemError

---
 .../_backend/cpp/arrays/OneDimensionalArray.hpp                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
index 92f885a..105fa9c 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
@@ -289,7 +289,7 @@ static int OneDimensionalArray___setitem__(OneDimensionalArray *self,
     size_t idx = (size_t)idx_ll;
 
     if (value != Py_None) {
-        if (set_exception_if_dtype_mismatch(value, self->_dtype)) {
+        if (raise_exception_if_dtype_mismatch(value, self->_dtype)) {
             return -1;
         }
     }
-- 
2.43.0


From 41e91763b31cb2f0180335efd61b7a7bd2cc0fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 027/156] fix: C++ OneDimensionalArray stores init without
 owning references to it

---
 .../_backend/cpp/arrays/OneDimensionalArray.hpp                | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
index 105fa9c..9bbae3c 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
@@ -164,6 +164,8 @@ static PyObject* OneDimensionalArray___new__(PyTypeObject* type, PyObject *args,
                     if (!init) {
                         PyErr_Clear();
                         init = Py_None;
+                    } else {
+                        Py_DECREF(init); // kwds keeps it alive
                     }
                 }
             }
@@ -182,6 +184,7 @@ static PyObject* OneDimensionalArray___new__(PyTypeObject* type, PyObject *args,
             }
 
             for (size_t i = 0; i < self->_size; i++) {
+                Py_INCREF(init);
                 self->_data[i] = init;
             }
 
-- 
2.43.0


From 46cb8ed8d34b995ac025bbb5437bba5c02a3601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 028/156] fix: C++ DynamicOneDimensionalArray without elements
 is printed with its empty slots

---
 pydatastructs/utils/_backend/cpp/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 511c224..e135a64 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -48,9 +48,9 @@ static char* PyObject_AsString(PyObject* obj) {
     return PyBytes_AS_STRING(PyUnicode_AsEncodedString(obj, _encoding, _invalid_char));
 }
 
-static PyObject* __str__(PyObject** array, size_t size, long last_pos_filled=-1) {
+static PyObject* __str__(PyObject** array, size_t size, long last_pos_filled=-2) {
     std::string array___str__ = "[";
-    size_t end = last_pos_filled == -1 ? size : (size_t) (last_pos_filled + 1);
+    size_t end = last_pos_filled == -2 ? size : (size_t) (last_pos_filled + 1);
     for( size_t i = 0; i < end; i++ ) {
         if ( array[i] == Py_None ) {
             array___str__.append("''");
-- 
2.43.0


From 352d1ffd0ea0875a1079d6f063bc6e6137f936f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 029/156] fix: C++ ArrayForTrees keeps the old size after it
 was compacted

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 4828fe7..39f7bef 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -126,7 +126,7 @@ static PyObject* ArrayForTrees__modify(ArrayForTrees *self,
         }
         self->_last_pos_filled = j - 1;
         self->_one_dimensional_array->_data = arr_new;
-        self->_size = new_size;
+        self->_one_dimensional_array->_size = new_size;
         self->_size = new_size;
 
         return new_indices;
-- 
2.43.0


From c58e41f9b8b295794f6bc9dc821b24d225c6c4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 030/156] fix: ArrayForTrees.append does not report the nodes
 it moved

---
 pydatastructs/linear_data_structures/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index ca8c639..e5a9541 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -408,7 +408,7 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
             self[self._last_pos_filled + 1] = el
         self._last_pos_filled += 1
         self._num += 1
-        self._modify()
+        return self._modify()
 
     def delete(self, idx):
         if idx <= self._last_pos_filled and idx >= 0 and \
-- 
2.43.0


From fdbb401a3023a787bb3e84b0291f85e9bfb9ea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 031/156] fix: linked lists never end or fail oddly for
 negative indices out of range

---
 pydatastructs/linear_data_structures/linked_lists.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 09178da..e7a2d4e 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -115,7 +115,7 @@ class LinkedList(object):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         counter = 0
@@ -294,7 +294,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -335,7 +335,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
@@ -428,7 +428,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -465,7 +465,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
-- 
2.43.0


From 2e6226eb8b0788a5f1a17c356834c8cafc60a6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 032/156] fix: circular lists break their ring for a negative
 index that means the first node

---
 pydatastructs/linear_data_structures/linked_lists.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index e7a2d4e..7c46658 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -535,6 +535,8 @@ class SinglyCircularLinkedList(SinglyLinkedList):
             self.tail = prev_node.next
 
     def insert_at(self, index, key, data=None):
+        if -self.size <= index < 0:
+            index = self.size + index
         super(SinglyCircularLinkedList, self).insert_at(index, key, data)
         if self.size == 1:
             self.head.next = self.head
@@ -545,6 +547,8 @@ class SinglyCircularLinkedList(SinglyLinkedList):
             self.tail = new_node
 
     def extract(self, index):
+        if -self.size <= index < 0:
+            index = self.size + index
         node = super(SinglyCircularLinkedList, self).extract(index)
         if self.tail is None:
             self.head = None
@@ -609,6 +613,8 @@ class DoublyCircularLinkedList(DoublyLinkedList):
             self.head = next_node.prev
 
     def insert_at(self, index, key, data=None):
+        if -self.size <= index < 0:
+            index = self.size + index
         super(DoublyCircularLinkedList, self).\
             insert_at(index, key, data)
         if self.size == 1:
@@ -624,6 +630,8 @@ class DoublyCircularLinkedList(DoublyLinkedList):
             self.head.prev = new_node
 
     def extract(self, index):
+        if -self.size <= index < 0:
+            index = self.size + index
         node = super(DoublyCircularLinkedList, self).extract(index)
         if self.tail is None:
             self.head = None
-- 
2.43.0


From 32008b97ca03e4ba6da53b5f3031c9486d2c82d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 033/156] fix: DoublyCircularLinkedList loses the link to the
 tail when its head is extracted

---
 pydatastructs/linear_data_structures/linked_lists.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 7c46658..6161e55 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -637,6 +637,7 @@ class DoublyCircularLinkedList(DoublyLinkedList):
             self.head = None
         elif index == 0:
             self.tail.next = self.head
+            self.head.prev = self.tail
         return node
 
 class SkipList(object):
-- 
2.43.0


From 89e5f908d9ac2a3ea9f333df3b935365792e47bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 034/156] fix: ArrayQueue loses its ends when its array is
 compacted or rebuilt

---
 .../miscellaneous_data_structures/queue.py    | 47 +++++++------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index 033ef9a..61e0836 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -135,39 +135,27 @@ class ArrayQueue(Queue):
 
     def append(self, x):
         if self.is_empty:
-            self._front = 0
             self.items._dtype = type(x)
         self.items.append(x)
-        self._rear += 1
+        self._update_ends()
 
     def appendleft(self, x):
         self._double_ended_check()
         temp = []
-        if self.is_empty:
-            self._front = 0
-            self._rear = -1
         self.items._dtype = type(x)
         temp.append(x)
-        for i in range(self._front, self._rear + 1):
-            temp.append(self.items._data[i])
+        if not self.is_empty:
+            for i in range(self._front, self._rear + 1):
+                temp.append(self.items._data[i])
         self.items = DynamicOneDimensionalArray(type(temp[0]), temp)
-        self._rear += 1
+        self._update_ends()
 
     def popleft(self):
         if self.is_empty:
             raise IndexError("Queue is empty.")
         return_value = dc(self.items[self._front])
-        front_temp = self._front
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._front += 1
-        self.items.delete(front_temp)
+        self.items.delete(self._front)
+        self._update_ends()
         return return_value
 
     def pop(self):
@@ -176,19 +164,18 @@ class ArrayQueue(Queue):
             raise IndexError("Queue is empty.")
 
         return_value = dc(self.items[self._rear])
-        rear_temp = self._rear
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._rear -= 1
-        self.items.delete(rear_temp)
+        self.items.delete(self._rear)
+        self._update_ends()
         return return_value
 
+    def _update_ends(self):
+        # The elements are always in consecutive positions
+        # but the array may have moved them.
+        self._rear = self.items._last_pos_filled
+        self._front = self._rear - self.items._num + 1
+        if self.is_empty:
+            self._front = self._rear = -1
+
     @property
     def front(self):
         return self._front
-- 
2.43.0


From e6754adb3b755bbb0ee078a11e5885d62035447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 035/156] fix: ArrayQueue without elements cannot be printed or
 made from an empty list

---
 pydatastructs/miscellaneous_data_structures/queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index 61e0836..48c2798 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -111,7 +111,7 @@ class ArrayQueue(Queue):
                 **kwargs):
         raise_if_backend_is_not_python(
             cls, kwargs.get('backend', Backend.PYTHON))
-        if items is None:
+        if items is None or len(items) == 0:
             items = DynamicOneDimensionalArray(dtype, 0)
         else:
             dtype = type(items[0])
@@ -193,7 +193,7 @@ class ArrayQueue(Queue):
 
     def __str__(self):
         _data = []
-        for i in range(self._front, self._rear + 1):
+        for i in range(max(self._front, 0), self._rear + 1):
             _data.append(self.items._data[i])
         return str(_data)
 
-- 
2.43.0


From df2f1c865b8a8d351bfe1709e02a7112b4d211f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 036/156] fix: heaps cannot be built from a dynamic array with
 free slots

---
 pydatastructs/trees/heaps.py | 1167 +++++++++++++++++-----------------
 1 file changed, 585 insertions(+), 582 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 12133a6..61389e5 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -1,582 +1,585 @@
-from pydatastructs.utils.misc_util import (
-    _check_type, TreeNode, BinomialTreeNode,
-    Backend, raise_if_backend_is_not_python)
-from pydatastructs.linear_data_structures.arrays import (
-     DynamicOneDimensionalArray, Array)
-from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
-
-__all__ = [
-    'BinaryHeap',
-    'TernaryHeap',
-    'DHeap',
-    'BinomialHeap'
-]
-
-class Heap(object):
-    """
-    Abstract class for representing heaps.
-    """
-    pass
-
-
-class DHeap(Heap):
-    """
-    Represents D-ary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple, Array
-        Optional, by default 'None'.
-        list/tuple/Array of initial TreeNode in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import DHeap
-    >>> min_heap = DHeap(heap_property="min", d=3)
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = DHeap(heap_property='max', d=2)
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    """
-    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
-
-    def __new__(cls, elements=None, heap_property="min", d=4,
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = Heap.__new__(cls)
-        obj.heap_property = heap_property
-        obj.d = d
-        if heap_property == "min":
-            obj._comp = lambda key_parent, key_child: key_parent <= key_child
-        elif heap_property == "max":
-            obj._comp = lambda key_parent, key_child: key_parent >= key_child
-        else:
-            raise ValueError("%s is invalid heap property"%(heap_property))
-        if elements is None:
-            elements = DynamicOneDimensionalArray(TreeNode, 0)
-        elif _check_type(elements, (list,tuple)):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
-        elif _check_type(elements, Array):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements._data)
-        else:
-            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
-        obj.heap = elements
-        obj._last_pos_filled = obj.heap._last_pos_filled
-        obj._build()
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
-
-    def _build(self):
-        for i in range(self._last_pos_filled + 1):
-            self.heap[i]._leftmost, self.heap[i]._rightmost = \
-                self.d*i + 1, self.d*i + self.d
-        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
-            self._heapify(i)
-
-    def _swap(self, idx1, idx2):
-        idx1_key, idx1_data = \
-            self.heap[idx1].key, self.heap[idx1].data
-        self.heap[idx1].key, self.heap[idx1].data = \
-            self.heap[idx2].key, self.heap[idx2].data
-        self.heap[idx2].key, self.heap[idx2].data = \
-            idx1_key, idx1_data
-
-    def _heapify(self, i):
-        while True:
-            target = i
-            l = self.d*i + 1
-            r = self.d*i + self.d
-
-            for j in range(l, r+1):
-                if j <= self._last_pos_filled:
-                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
-                            else target
-                else:
-                    break
-
-            if target != i:
-                self._swap(target, i)
-                i = target
-            else:
-                break
-
-    def insert(self, key, data=None):
-        """
-        Insert a new element to the heap according to heap property.
-
-        Parameters
-        ==========
-
-        key
-            The key for comparison.
-        data
-            The data to be inserted.
-
-        Returns
-        =======
-
-        None
-        """
-        new_node = TreeNode(key, data)
-        self.heap.append(new_node)
-        self._last_pos_filled += 1
-        i = self._last_pos_filled
-        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
-
-        while True:
-            parent = (i - 1)//self.d
-            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
-                break
-            else:
-                self._swap(i, parent)
-                i = parent
-
-    def extract(self):
-        """
-        Extract root element of the Heap.
-
-        Returns
-        =======
-
-        root_element: TreeNode
-            The TreeNode at the root of the heap,
-            if the heap is not empty.
-
-        None
-            If the heap is empty.
-        """
-        if self._last_pos_filled == -1:
-            raise IndexError("Heap is empty.")
-        else:
-            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
-            self._swap(0, self._last_pos_filled)
-            self.heap.delete(self._last_pos_filled)
-            self._last_pos_filled -= 1
-            self._heapify(0)
-            return element_to_be_extracted
-
-    def __str__(self):
-        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
-        for i in range(self._last_pos_filled + 1):
-            node = self.heap[i]
-            if node._leftmost <= self._last_pos_filled:
-                if node._rightmost <= self._last_pos_filled:
-                    children = list(range(node._leftmost, node._rightmost + 1))
-                else:
-                    children = list(range(node._leftmost, self._last_pos_filled + 1))
-            else:
-                children = []
-            to_be_printed[i] = (node.key, node.data, children)
-        return str(to_be_printed)
-
-    @property
-    def is_empty(self):
-        """
-        Checks if the heap is empty.
-        """
-        return self.heap._last_pos_filled == -1
-
-
-class BinaryHeap(DHeap):
-    """
-    Represents Binary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import BinaryHeap
-    >>> min_heap = BinaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = BinaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 2)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class TernaryHeap(DHeap):
-    """
-    Represents Ternary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import TernaryHeap
-    >>> min_heap = TernaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    3
-
-    >>> max_heap = TernaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 3)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class BinomialHeap(Heap):
-    """
-    Represents binomial heap.
-
-    Parameters
-    ==========
-
-    root_list: list/tuple/Array
-        By default, []
-        The list of BinomialTree object references
-        in sorted order.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs import BinomialHeap
-    >>> b = BinomialHeap()
-    >>> b.insert(1, 1)
-    >>> b.insert(2, 2)
-    >>> b.find_minimum().key
-    1
-    >>> b.find_minimum().children[0].key
-    2
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
-    """
-    __slots__ = ['root_list']
-
-    def __new__(cls, root_list=None, **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        if root_list is None:
-            root_list = []
-        if not all((_check_type(root, BinomialTree))
-                for root in root_list):
-                    raise TypeError("The root_list should contain "
-                                    "references to objects of BinomialTree.")
-        obj = Heap.__new__(cls)
-        obj.root_list = root_list
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'merge_tree', 'merge', 'insert',
-        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
-        'delete_minimum']
-
-    def merge_tree(self, tree1, tree2):
-        """
-        Merges two BinomialTree objects.
-
-        Parameters
-        ==========
-
-        tree1: BinomialTree
-
-        tree2: BinomialTree
-        """
-        if (not _check_type(tree1, BinomialTree)) or \
-            (not _check_type(tree2, BinomialTree)):
-            raise TypeError("Both the trees should be of type "
-                            "BinomalTree.")
-        ret_value = None
-        if tree1.root.key <= tree2.root.key:
-            tree1.add_sub_tree(tree2)
-            ret_value = tree1
-        else:
-            tree2.add_sub_tree(tree1)
-            ret_value = tree2
-        return ret_value
-
-    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
-        """
-        Merges last tree node in root list with the incoming tree.
-        """
-        pos = -1
-        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
-            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
-        else:
-            new_root_list.append(new_tree)
-
-    def merge(self, other_heap):
-        """
-        Merges current binomial heap with the given binomial heap.
-
-        Parameters
-        ==========
-
-        other_heap: BinomialHeap
-        """
-        if not _check_type(other_heap, BinomialHeap):
-            raise TypeError("Other heap is not of type BinomialHeap.")
-        new_root_list = []
-        i, j = 0, 0
-        while (i < len(self.root_list)) and \
-              (j < len(other_heap.root_list)):
-            new_tree = None
-            while self.root_list[i] is None:
-                i += 1
-            while other_heap.root_list[j] is None:
-                j += 1
-            if self.root_list[i].order == other_heap.root_list[j].order:
-                new_tree = self.merge_tree(self.root_list[i],
-                                           other_heap.root_list[j])
-                i += 1
-                j += 1
-            else:
-                if self.root_list[i].order < other_heap.root_list[j].order:
-                    new_tree = self.root_list[i]
-                    i += 1
-                else:
-                    new_tree = other_heap.root_list[j]
-                    j += 1
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-
-        while i < len(self.root_list):
-            new_tree = self.root_list[i]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            i += 1
-        while j < len(other_heap.root_list):
-            new_tree = other_heap.root_list[j]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            j += 1
-        self.root_list = new_root_list
-
-    def insert(self, key, data=None):
-        """
-        Inserts new node with the given key and data.
-
-        key
-            The key of the node which can be operated
-            upon by relational operators.
-
-        data
-            The data to be stored in the new node.
-        """
-        new_node = BinomialTreeNode(key, data)
-        new_tree = BinomialTree(root=new_node, order=0)
-        new_heap = BinomialHeap(root_list=[new_tree])
-        self.merge(new_heap)
-
-    def find_minimum(self, **kwargs):
-        """
-        Finds the node with the minimum key.
-
-        Returns
-        =======
-
-        min_node: BinomialTreeNode
-        """
-        if self.is_empty:
-            raise IndexError("Binomial heap is empty.")
-        min_node = None
-        idx, min_idx = 0, None
-        for tree in self.root_list:
-            if ((min_node is None) or
-                (tree is not None and tree.root is not None and
-                 min_node.key > tree.root.key)):
-                min_node = tree.root
-                min_idx = idx
-            idx += 1
-        if kwargs.get('get_index', None) is not None:
-            return min_node, min_idx
-        return min_node
-
-    def delete_minimum(self):
-        """
-        Deletes the node with minimum key.
-        """
-        min_node, min_idx = self.find_minimum(get_index=True)
-        child_root_list = []
-        for k, child in enumerate(min_node.children):
-            if child is not None:
-                child_root_list.append(BinomialTree(root=child, order=k))
-        self.root_list.remove(self.root_list[min_idx])
-        child_heap = BinomialHeap(root_list=child_root_list)
-        self.merge(child_heap)
-
-    @property
-    def is_empty(self):
-        return not self.root_list
-
-    def decrease_key(self, node, new_key):
-        """
-        Decreases the key of the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node whose key is to be reduced.
-        new_key
-            The new key of the given node,
-            should be less than the current key.
-        """
-        if node.key <= new_key:
-            raise ValueError("The new key "
-            "should be less than current node's key.")
-        node.key = new_key
-        while ((not node.is_root) and
-               (node.parent.key > node.key)):
-            node.parent.key, node.key = \
-                node.key, node.parent.key
-            node.parent.data, node.data = \
-                node.data, node.parent.data
-            node = node.parent
-
-    def delete(self, node):
-        """
-        Deletes the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node which is to be deleted.
-        """
-        self.decrease_key(node, self.find_minimum().key - 1)
-        self.delete_minimum()
+from pydatastructs.utils.misc_util import (
+    _check_type, TreeNode, BinomialTreeNode,
+    Backend, raise_if_backend_is_not_python)
+from pydatastructs.linear_data_structures.arrays import (
+     DynamicOneDimensionalArray, Array)
+from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
+
+__all__ = [
+    'BinaryHeap',
+    'TernaryHeap',
+    'DHeap',
+    'BinomialHeap'
+]
+
+class Heap(object):
+    """
+    Abstract class for representing heaps.
+    """
+    pass
+
+
+class DHeap(Heap):
+    """
+    Represents D-ary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple, Array
+        Optional, by default 'None'.
+        list/tuple/Array of initial TreeNode in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import DHeap
+    >>> min_heap = DHeap(heap_property="min", d=3)
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = DHeap(heap_property='max', d=2)
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    """
+    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
+
+    def __new__(cls, elements=None, heap_property="min", d=4,
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = Heap.__new__(cls)
+        obj.heap_property = heap_property
+        obj.d = d
+        if heap_property == "min":
+            obj._comp = lambda key_parent, key_child: key_parent <= key_child
+        elif heap_property == "max":
+            obj._comp = lambda key_parent, key_child: key_parent >= key_child
+        else:
+            raise ValueError("%s is invalid heap property"%(heap_property))
+        if elements is None:
+            elements = DynamicOneDimensionalArray(TreeNode, 0)
+        elif _check_type(elements, (list,tuple)):
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
+        elif _check_type(elements, Array):
+            elements = [node for node in elements._data if node is not None]
+            if not all(_check_type(node, TreeNode) for node in elements):
+                raise TypeError("Expected an Array of TreeNode.")
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
+        else:
+            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
+        obj.heap = elements
+        obj._last_pos_filled = obj.heap._last_pos_filled
+        obj._build()
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
+
+    def _build(self):
+        for i in range(self._last_pos_filled + 1):
+            self.heap[i]._leftmost, self.heap[i]._rightmost = \
+                self.d*i + 1, self.d*i + self.d
+        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
+            self._heapify(i)
+
+    def _swap(self, idx1, idx2):
+        idx1_key, idx1_data = \
+            self.heap[idx1].key, self.heap[idx1].data
+        self.heap[idx1].key, self.heap[idx1].data = \
+            self.heap[idx2].key, self.heap[idx2].data
+        self.heap[idx2].key, self.heap[idx2].data = \
+            idx1_key, idx1_data
+
+    def _heapify(self, i):
+        while True:
+            target = i
+            l = self.d*i + 1
+            r = self.d*i + self.d
+
+            for j in range(l, r+1):
+                if j <= self._last_pos_filled:
+                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
+                            else target
+                else:
+                    break
+
+            if target != i:
+                self._swap(target, i)
+                i = target
+            else:
+                break
+
+    def insert(self, key, data=None):
+        """
+        Insert a new element to the heap according to heap property.
+
+        Parameters
+        ==========
+
+        key
+            The key for comparison.
+        data
+            The data to be inserted.
+
+        Returns
+        =======
+
+        None
+        """
+        new_node = TreeNode(key, data)
+        self.heap.append(new_node)
+        self._last_pos_filled += 1
+        i = self._last_pos_filled
+        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
+
+        while True:
+            parent = (i - 1)//self.d
+            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
+                break
+            else:
+                self._swap(i, parent)
+                i = parent
+
+    def extract(self):
+        """
+        Extract root element of the Heap.
+
+        Returns
+        =======
+
+        root_element: TreeNode
+            The TreeNode at the root of the heap,
+            if the heap is not empty.
+
+        None
+            If the heap is empty.
+        """
+        if self._last_pos_filled == -1:
+            raise IndexError("Heap is empty.")
+        else:
+            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
+            self._swap(0, self._last_pos_filled)
+            self.heap.delete(self._last_pos_filled)
+            self._last_pos_filled -= 1
+            self._heapify(0)
+            return element_to_be_extracted
+
+    def __str__(self):
+        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
+        for i in range(self._last_pos_filled + 1):
+            node = self.heap[i]
+            if node._leftmost <= self._last_pos_filled:
+                if node._rightmost <= self._last_pos_filled:
+                    children = list(range(node._leftmost, node._rightmost + 1))
+                else:
+                    children = list(range(node._leftmost, self._last_pos_filled + 1))
+            else:
+                children = []
+            to_be_printed[i] = (node.key, node.data, children)
+        return str(to_be_printed)
+
+    @property
+    def is_empty(self):
+        """
+        Checks if the heap is empty.
+        """
+        return self.heap._last_pos_filled == -1
+
+
+class BinaryHeap(DHeap):
+    """
+    Represents Binary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import BinaryHeap
+    >>> min_heap = BinaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = BinaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 2)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class TernaryHeap(DHeap):
+    """
+    Represents Ternary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import TernaryHeap
+    >>> min_heap = TernaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    3
+
+    >>> max_heap = TernaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 3)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class BinomialHeap(Heap):
+    """
+    Represents binomial heap.
+
+    Parameters
+    ==========
+
+    root_list: list/tuple/Array
+        By default, []
+        The list of BinomialTree object references
+        in sorted order.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs import BinomialHeap
+    >>> b = BinomialHeap()
+    >>> b.insert(1, 1)
+    >>> b.insert(2, 2)
+    >>> b.find_minimum().key
+    1
+    >>> b.find_minimum().children[0].key
+    2
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
+    """
+    __slots__ = ['root_list']
+
+    def __new__(cls, root_list=None, **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        if root_list is None:
+            root_list = []
+        if not all((_check_type(root, BinomialTree))
+                for root in root_list):
+                    raise TypeError("The root_list should contain "
+                                    "references to objects of BinomialTree.")
+        obj = Heap.__new__(cls)
+        obj.root_list = root_list
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'merge_tree', 'merge', 'insert',
+        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
+        'delete_minimum']
+
+    def merge_tree(self, tree1, tree2):
+        """
+        Merges two BinomialTree objects.
+
+        Parameters
+        ==========
+
+        tree1: BinomialTree
+
+        tree2: BinomialTree
+        """
+        if (not _check_type(tree1, BinomialTree)) or \
+            (not _check_type(tree2, BinomialTree)):
+            raise TypeError("Both the trees should be of type "
+                            "BinomalTree.")
+        ret_value = None
+        if tree1.root.key <= tree2.root.key:
+            tree1.add_sub_tree(tree2)
+            ret_value = tree1
+        else:
+            tree2.add_sub_tree(tree1)
+            ret_value = tree2
+        return ret_value
+
+    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
+        """
+        Merges last tree node in root list with the incoming tree.
+        """
+        pos = -1
+        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
+            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
+        else:
+            new_root_list.append(new_tree)
+
+    def merge(self, other_heap):
+        """
+        Merges current binomial heap with the given binomial heap.
+
+        Parameters
+        ==========
+
+        other_heap: BinomialHeap
+        """
+        if not _check_type(other_heap, BinomialHeap):
+            raise TypeError("Other heap is not of type BinomialHeap.")
+        new_root_list = []
+        i, j = 0, 0
+        while (i < len(self.root_list)) and \
+              (j < len(other_heap.root_list)):
+            new_tree = None
+            while self.root_list[i] is None:
+                i += 1
+            while other_heap.root_list[j] is None:
+                j += 1
+            if self.root_list[i].order == other_heap.root_list[j].order:
+                new_tree = self.merge_tree(self.root_list[i],
+                                           other_heap.root_list[j])
+                i += 1
+                j += 1
+            else:
+                if self.root_list[i].order < other_heap.root_list[j].order:
+                    new_tree = self.root_list[i]
+                    i += 1
+                else:
+                    new_tree = other_heap.root_list[j]
+                    j += 1
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+
+        while i < len(self.root_list):
+            new_tree = self.root_list[i]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            i += 1
+        while j < len(other_heap.root_list):
+            new_tree = other_heap.root_list[j]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            j += 1
+        self.root_list = new_root_list
+
+    def insert(self, key, data=None):
+        """
+        Inserts new node with the given key and data.
+
+        key
+            The key of the node which can be operated
+            upon by relational operators.
+
+        data
+            The data to be stored in the new node.
+        """
+        new_node = BinomialTreeNode(key, data)
+        new_tree = BinomialTree(root=new_node, order=0)
+        new_heap = BinomialHeap(root_list=[new_tree])
+        self.merge(new_heap)
+
+    def find_minimum(self, **kwargs):
+        """
+        Finds the node with the minimum key.
+
+        Returns
+        =======
+
+        min_node: BinomialTreeNode
+        """
+        if self.is_empty:
+            raise IndexError("Binomial heap is empty.")
+        min_node = None
+        idx, min_idx = 0, None
+        for tree in self.root_list:
+            if ((min_node is None) or
+                (tree is not None and tree.root is not None and
+                 min_node.key > tree.root.key)):
+                min_node = tree.root
+                min_idx = idx
+            idx += 1
+        if kwargs.get('get_index', None) is not None:
+            return min_node, min_idx
+        return min_node
+
+    def delete_minimum(self):
+        """
+        Deletes the node with minimum key.
+        """
+        min_node, min_idx = self.find_minimum(get_index=True)
+        child_root_list = []
+        for k, child in enumerate(min_node.children):
+            if child is not None:
+                child_root_list.append(BinomialTree(root=child, order=k))
+        self.root_list.remove(self.root_list[min_idx])
+        child_heap = BinomialHeap(root_list=child_root_list)
+        self.merge(child_heap)
+
+    @property
+    def is_empty(self):
+        return not self.root_list
+
+    def decrease_key(self, node, new_key):
+        """
+        Decreases the key of the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node whose key is to be reduced.
+        new_key
+            The new key of the given node,
+            should be less than the current key.
+        """
+        if node.key <= new_key:
+            raise ValueError("The new key "
+            "should be less than current node's key.")
+        node.key = new_key
+        while ((not node.is_root) and
+               (node.parent.key > node.key)):
+            node.parent.key, node.key = \
+                node.key, node.parent.key
+            node.parent.data, node.data = \
+                node.data, node.parent.data
+            node = node.parent
+
+    def delete(self, node):
+        """
+        Deletes the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node which is to be deleted.
+        """
+        self.decrease_key(node, self.find_minimum().key - 1)
+        self.delete_minimum()
-- 
2.43.0


From b9bc7b1ea9c9163719a3e16fe7502e5384399dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 037/156] fix: BinaryIndexedTree diverges from its array or
 never returns for converted values and bad indices

---
 pydatastructs/trees/binary_trees.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 48446d1..b2fc2f1 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1824,7 +1824,9 @@ class BinaryIndexedTree(object):
         value
             The value to be inserted.
         """
-        _index, _value = index, value
+        previous = self.array[index]
+        self.array[index] = value
+        value = self.array[index]
         if self.flag[index] == 0:
             self.flag[index] = 1
             index += 1
@@ -1832,12 +1834,11 @@ class BinaryIndexedTree(object):
                 self.tree[index] += value
                 index = index + (index & (-index))
         else:
-            value = value - self.array[index]
+            value = value - previous
             index += 1
             while index < self.array._size + 1:
                 self.tree[index] += value
                 index = index + (index & (-index))
-        self.array[_index] = _value
 
     def get_prefix_sum(self, index):
         """
@@ -1855,6 +1856,9 @@ class BinaryIndexedTree(object):
         sum: int
             The required sum.
         """
+        if index >= self.array._size:
+            raise IndexError("Index, {} out of range, "
+                             "[0, {}).".format(index, self.array._size))
         index += 1
         sum = 0
         while index > 0:
-- 
2.43.0


From 3d5aea9f9a7b57992cb6cb37ab595ee8c4389620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 038/156] fix: C++ BinaryIndexedTree writes outside its array
 for bad indices and values

---
 .../trees/_backend/cpp/BinaryIndexedTree.hpp  | 38 ++++++++++++++-----
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
index 39957fa..01d8836 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
@@ -25,8 +25,14 @@ static void BinaryIndexedTree_dealloc(BinaryIndexedTree *self) {
 }
 
 static PyObject* BinaryIndexedTree_update(BinaryIndexedTree* self, PyObject *args) {
-    long index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    long value = PyLong_AsLong(PyObject_GetItem(args, PyOne));
+    long index, value;
+    if (!PyArg_ParseTuple(args, "ll", &index, &value)) {
+        return NULL;
+    }
+    if (index < 0 || index >= self->array->_size) {
+        PyErr_Format(PyExc_IndexError, "Index, %ld out of range, [0, %ld).", index, (long) self->array->_size);
+        return NULL;
+    }
     long _index = index;
     long _value = value;
     if (PyList_GetItem(self->flag, index) == PyZero) {
@@ -72,14 +78,23 @@ static PyObject* BinaryIndexedTree___new__(PyTypeObject* type, PyObject *args, P
     self->flag = PyList_New(self->array->_size);
     for(int i=0;i<self->array->_size;i++) {
         PyList_SetItem(self->flag, i, PyZero);
-        BinaryIndexedTree_update(self, Py_BuildValue("(OO)", PyLong_FromLong(i), self->array->_data[i]));
+        if (!BinaryIndexedTree_update(self, Py_BuildValue("(OO)", PyLong_FromLong(i), self->array->_data[i]))) {
+            return NULL;
+        }
     }
 
     return reinterpret_cast<PyObject*>(self);
 }
 
 static PyObject* BinaryIndexedTree_get_prefix_sum(BinaryIndexedTree* self, PyObject *args) {
-    long index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
+    long index;
+    if (!PyArg_ParseTuple(args, "l", &index)) {
+        return NULL;
+    }
+    if (index >= self->array->_size) {
+        PyErr_Format(PyExc_IndexError, "Index, %ld out of range, [0, %ld).", index, (long) self->array->_size);
+        return NULL;
+    }
     index += 1;
     long sum = 0;
     while (index > 0) {
@@ -91,12 +106,17 @@ static PyObject* BinaryIndexedTree_get_prefix_sum(BinaryIndexedTree* self, PyObj
 }
 
 static PyObject* BinaryIndexedTree_get_sum(BinaryIndexedTree* self, PyObject *args) {
-    long left_index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    long right_index = PyLong_AsLong(PyObject_GetItem(args, PyOne));
+    long left_index, right_index;
+    if (!PyArg_ParseTuple(args, "ll", &left_index, &right_index)) {
+        return NULL;
+    }
     if (left_index >= 1) {
-        long l1 = PyLong_AsLong(BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index))));
-        long l2 = PyLong_AsLong(BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(left_index - 1))));
-        return PyLong_FromLong(l1 - l2);
+        PyObject* s1 = BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index)));
+        PyObject* s2 = s1 ? BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(left_index - 1))) : NULL;
+        if (!s2) {
+            return NULL;
+        }
+        return PyLong_FromLong(PyLong_AsLong(s1) - PyLong_AsLong(s2));
     }
     else {
         return BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index)));
-- 
2.43.0


From 8cd7a2867bee966690a4e2e40f72313109fa00e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 039/156] fix: segment tree update with a negative index
 corrupts the last leaf

---
 pydatastructs/miscellaneous_data_structures/segment_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/miscellaneous_data_structures/segment_tree.py b/pydatastructs/miscellaneous_data_structures/segment_tree.py
index 0895ba6..dea0c03 100644
--- a/pydatastructs/miscellaneous_data_structures/segment_tree.py
+++ b/pydatastructs/miscellaneous_data_structures/segment_tree.py
@@ -175,6 +175,9 @@ class OneDimensionalArraySegmentTree(ArraySegmentTree):
         if not self.is_ready:
             raise ValueError("{} tree is not built yet. ".format(self) +
                              "Call .build method to prepare the segment tree.")
+        if index < 0 or index >= len(self._array):
+            raise IndexError("Index, {} out of range, "
+                             "[0, {}).".format(index, len(self._array)))
 
         recursion_stack = Stack(implementation='linked_list')
         recursion_stack.push((self._root, None))
-- 
2.43.0


From 28c240c562ba498881c18deab693ffa92e4d3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 040/156] fix: OneDimensionalSegmentTree changes the given list
 and rejects tuples and sets

---
 pydatastructs/trees/space_partitioning_trees.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pydatastructs/trees/space_partitioning_trees.py b/pydatastructs/trees/space_partitioning_trees.py
index f13c1f2..382775b 100644
--- a/pydatastructs/trees/space_partitioning_trees.py
+++ b/pydatastructs/trees/space_partitioning_trees.py
@@ -57,10 +57,7 @@ class OneDimensionalSegmentTree(object):
         if any((not isinstance(seg, (tuple, list, set)) or len(seg) != 2)
                 for seg in segs):
                     raise ValueError('%s is invalid set of intervals'%(segs))
-        for i in range(len(segs)):
-            segs[i] = list(segs[i])
-            segs[i].sort()
-        obj.segments = list(segs)
+        obj.segments = [sorted(seg) for seg in segs]
         obj.tree, obj.root_idx, obj.cache = [], None, False
         return obj
 
-- 
2.43.0


From d90a023c4e97e8d85cc2dca29b93955e5c03882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 041/156] fix: Multiset.remove fails for an element that was
 never added

---
 pydatastructs/miscellaneous_data_structures/multiset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/miscellaneous_data_structures/multiset.py b/pydatastructs/miscellaneous_data_structures/multiset.py
index 3979782..802c291 100644
--- a/pydatastructs/miscellaneous_data_structures/multiset.py
+++ b/pydatastructs/miscellaneous_data_structures/multiset.py
@@ -20,7 +20,7 @@ class Multiset:
             self.tree.insert(element)
 
     def remove(self, element):
-        if self.counter[element] == 1:
+        if self.counter.get(element, 0) == 1:
             self.tree.delete(element)
         if self.counter.get(element, 0) > 0:
             self._n -= 1
-- 
2.43.0


From 5eb6398e8106cfcc2d585af30fe7a8d69b43b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 042/156] fix: DisjointSetForest reports an unknown tuple key
 as a formatting error

---
 pydatastructs/miscellaneous_data_structures/disjoint_set.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/disjoint_set.py b/pydatastructs/miscellaneous_data_structures/disjoint_set.py
index 9a5caef..8fd3364 100644
--- a/pydatastructs/miscellaneous_data_structures/disjoint_set.py
+++ b/pydatastructs/miscellaneous_data_structures/disjoint_set.py
@@ -68,7 +68,7 @@ class DisjointSetForest(object):
         splitting algorithm.
         """
         if self.tree.get(key, None) is None:
-            raise KeyError("Invalid key, %s"%(key))
+            raise KeyError("Invalid key, %s"%(key,))
         _set = self.tree[key]
         while _set.parent is not _set:
             _set, _set.parent = _set.parent, _set.parent.parent
@@ -96,7 +96,7 @@ class DisjointSetForest(object):
         and makes it as the root of the set.
         """
         if self.tree.get(key, None) is None:
-            raise KeyError("Invalid key, %s"%(key))
+            raise KeyError("Invalid key, %s"%(key,))
 
         key_set = self.tree[key]
         if key_set.parent is not key_set:
@@ -121,7 +121,7 @@ class DisjointSetForest(object):
         Finds the size of set to which the key belongs.
         """
         if self.tree.get(key, None) is None:
-            raise KeyError("Invalid key, %s"%(key))
+            raise KeyError("Invalid key, %s"%(key,))
 
         return self.find_root(key).size
 
-- 
2.43.0


From f2404d16efbe378910e4584141b15674e058ee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 043/156] fix: Python binary trees ignore the given comparator

---
 pydatastructs/trees/binary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index b2fc2f1..37e1dbe 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -70,7 +70,7 @@ class BinaryTree(object):
         root.is_root = True
         obj.root_idx = 0
         obj.tree, obj.size = ArrayForTrees(TreeNode, [root]), 1
-        obj.comparator = lambda key1, key2: key1 < key2 \
+        obj.comparator = (lambda key1, key2: key1 < key2) \
                         if comp is None else comp
         obj.is_order_statistic = is_order_statistic
         return obj
-- 
2.43.0


From bdb439377a678a32a56e84299a26525c35d10339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 044/156] fix: deleting from an empty binary search tree raises
 TypeError

---
 pydatastructs/trees/binary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 37e1dbe..4b66bde 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -274,7 +274,7 @@ class BinarySearchTree(BinaryTree):
         parent = None
         walk = self.root_idx
         if self.tree[walk].key is None:
-            return None
+            return (None, None) if ret_parent else None
         while walk is not None:
             if self.tree[walk].key == key:
                 break
-- 
2.43.0


From 9829b75f8291a807b6d7d225907fcb6e0d11a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 045/156] fix: inserting into a binary search tree after
 deletions links wrong nodes

---
 pydatastructs/trees/binary_trees.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 4b66bde..10ecd09 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -239,6 +239,17 @@ class BinarySearchTree(BinaryTree):
                     self.right_size(self.tree[walk]) + 1)
                 walk = self.tree[walk].parent
 
+    def _append_node(self, new_node):
+        """
+        Appends new_node to the array of nodes and returns
+        the index of its parent.
+        """
+        root_key = self.tree[self.root_idx].key
+        new_indices = self.tree.append(new_node)
+        if new_indices is not None:
+            self.root_idx = new_indices[root_key]
+        return new_node.parent
+
     def insert(self, key, data=None):
         res = self.search(key)
         if res is not None:
@@ -254,16 +265,16 @@ class BinarySearchTree(BinaryTree):
             if not self.comparator(key, self.tree[walk].key):
                 if self.tree[walk].right is None:
                     new_node.parent = prev_node
-                    self.tree.append(new_node)
-                    self.tree[walk].right = self.size
+                    walk = self._append_node(new_node)
+                    self.tree[walk].right = self.tree._last_pos_filled
                     self.size += 1
                     flag = False
                 prev_node = walk = self.tree[walk].right
             else:
                 if self.tree[walk].left is None:
                     new_node.parent = prev_node
-                    self.tree.append(new_node)
-                    self.tree[walk].left = self.size
+                    walk = self._append_node(new_node)
+                    self.tree[walk].left = self.tree._last_pos_filled
                     self.size += 1
                     flag = False
                 prev_node = walk = self.tree[walk].left
@@ -1030,7 +1041,8 @@ class AVLTree(SelfBalancingBinaryTree):
 
     def insert(self, key, data=None):
         super(AVLTree, self).insert(key, data)
-        self._balance_insertion(self.size - 1, self.tree[self.size-1].parent)
+        node_idx = self.search(key)
+        self._balance_insertion(node_idx, self.tree[node_idx].parent)
 
     def _balance_deletion(self, start_idx, key):
         walk = start_idx
@@ -1125,7 +1137,6 @@ class SplayTree(SelfBalancingBinaryTree):
     def insert(self, key, x):
         super(SelfBalancingBinaryTree, self).insert(key, x)
         e, p = super(SelfBalancingBinaryTree, self).search(key, parent=True)
-        self.tree[self.size-1].parent = p
         self.splay(e, p)
 
     def delete(self, x):
-- 
2.43.0


From 646f378e06381ec880eab2cf039d5f1c97bba4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 046/156] fix: deleting a node with one child writes through a
 stale index after compaction

---
 pydatastructs/trees/binary_trees.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 10ecd09..29c633d 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -465,8 +465,6 @@ class BinarySearchTree(BinaryTree):
                                      self.tree[self.root_idx].key)
                 new_indices = self.tree.delete(walk)
                 if new_indices is not None:
-                    parent = new_indices[par_key]
-                    self.tree[child].parent = new_indices[par_key]
                     a = new_indices[par_key]
                     self.root_idx = new_indices[root_key]
                 self._update_size(a)
-- 
2.43.0


From b81aa9e4dcfce3b3a809a4b128d01baf2acf9b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 047/156] fix: deleting a root with one child leaves stale
 parents, sizes and heights

---
 pydatastructs/trees/binary_trees.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 29c633d..98b125a 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -450,10 +450,15 @@ class BinarySearchTree(BinaryTree):
                 self.tree[self.root_idx].data = self.tree[child].data
                 self.tree[self.root_idx].key = self.tree[child].key
                 self.tree[self.root_idx].parent = None
+                for grandchild in (self.tree[child].left, self.tree[child].right):
+                    if grandchild is not None:
+                        self.tree[grandchild].parent = self.root_idx
                 root_key = self.tree[self.root_idx].key
                 new_indices = self.tree.delete(child)
                 if new_indices is not None:
                     self.root_idx = new_indices[root_key]
+                a = self.root_idx
+                self._update_size(a)
             else:
                 if self.tree[parent].left == walk:
                     self.tree[parent].left = child
-- 
2.43.0


From 27af180547e87143f8f8d2bf036ad55f4f43ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 048/156] fix: lowest_common_ancestor assumes that the root is
 stored at index 0

---
 pydatastructs/trees/binary_trees.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 98b125a..9a23ad7 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -580,18 +580,17 @@ class BinarySearchTree(BinaryTree):
             if self.tree[node].key == key:
                 node_idx = node
                 break
-            if self.tree[node].left:
+            if self.tree[node].left is not None:
                 stack.push(self.tree[node].left)
-            if self.tree[node].right:
+            if self.tree[node].right is not None:
                 stack.push(self.tree[node].right)
 
         if node_idx == -1:
             return path
 
-        while node_idx != 0:
+        while node_idx is not None:
             path.append(node_idx)
             node_idx = self.tree[node_idx].parent
-        path.append(0)
         path.reverse()
 
         return path
-- 
2.43.0


From 61a0898d4322fda75e8f4fc17e4b12ad4f1e8b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 049/156] fix: lowest_common_ancestor with algorithm 2 misses
 the root as an ancestor

---
 pydatastructs/trees/binary_trees.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 9a23ad7..123881c 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -620,6 +620,9 @@ class BinarySearchTree(BinaryTree):
         if (u is None) or (v is None):
             raise ValueError("One of the nodes with key %s "
                              "or %s doesn't exits"%(j, k))
+        if curr_root == u or curr_root == v:
+            return self.tree[curr_root].key
+
         u_left = self.comparator(self.tree[u].key, \
             self.tree[curr_root].key)
         v_left = self.comparator(self.tree[v].key, \
-- 
2.43.0


From 1b5ce430e65e198f152682604a128790be4f0884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 050/156] fix: AVLTree.delete reports success for a missing key

---
 pydatastructs/trees/binary_trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 123881c..7e9f596 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1074,6 +1074,8 @@ class AVLTree(SelfBalancingBinaryTree):
 
 
     def delete(self, key, **kwargs):
+        if self.search(key) is None:
+            return None
         a = super(AVLTree, self).delete(key, balancing_info=True)
         self._balance_deletion(a, key)
         return True
-- 
2.43.0


From ae5f1aaaf4bf12027e747b039b3bd515cd904bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 051/156] fix: SplayTree.join links wrong nodes when the arrays
 have free cells and sets no parents

---
 pydatastructs/trees/binary_trees.py | 41 ++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 7e9f596..50449ff 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1166,6 +1166,13 @@ class SplayTree(SelfBalancingBinaryTree):
             SplayTree which needs to be joined with the self tree.
 
         """
+        if other.tree[other.root_idx].key is None:
+            return None
+        if self.tree[self.root_idx].key is None:
+            traverse = BinaryTreeTraversal(other)
+            for node in traverse.depth_first_search(order='pre_order'):
+                super(SelfBalancingBinaryTree, self).insert(node.key, node.data)
+            return None
         maxm = self.root_idx
         while self.tree[maxm].right is not None:
             maxm = self.tree[maxm].right
@@ -1177,19 +1184,33 @@ class SplayTree(SelfBalancingBinaryTree):
             raise ValueError("Elements of %s aren't less "
                              "than that of %s"%(self, other))
         self.splay(maxm, self.tree[maxm].parent)
-        idx_update = self.tree._size
+        root_key = self.tree[self.root_idx].key
         for node in other.tree:
             if node is not None:
-                node_copy = TreeNode(node.key, node.data)
-                if node.left is not None:
-                    node_copy.left = node.left + idx_update
-                if node.right is not None:
-                    node_copy.right = node.right + idx_update
-                self.tree.append(node_copy)
+                new_indices = self.tree.append(TreeNode(node.key, node.data))
             else:
-                self.tree.append(node)
-        self.tree[self.root_idx].right = \
-            other.root_idx + idx_update
+                new_indices = self.tree.append(node)
+                self.tree._num -= 1
+            if new_indices is not None:
+                self.root_idx = new_indices[root_key]
+            self.size += 1
+        # The nodes are linked after all of them are in place because
+        # appending can move the nodes which are already there.
+        new_idx = {self.tree[i].key: i for i in range(self.tree._last_pos_filled + 1)
+                   if self.tree[i] is not None}
+        for node in other.tree:
+            if node is not None:
+                node_copy = self.tree[new_idx[node.key]]
+                for side in ('left', 'right'):
+                    child = getattr(node, side)
+                    if child is not None:
+                        child = new_idx[other.tree[child].key]
+                        setattr(node_copy, side, child)
+                        self.tree[child].parent = new_idx[node.key]
+                node_copy.size = node.size
+        self.tree[self.root_idx].right = new_idx[other.tree[other.root_idx].key]
+        self.tree[self.tree[self.root_idx].right].parent = self.root_idx
+        self._update_size(self.root_idx)
 
     def split(self, x):
         """
-- 
2.43.0


From 6ac06b29b6c02ab36e481f7606940e7be8d70b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 052/156] fix: SplayTree.split loses the comparator and
 miscounts the remaining nodes

---
 pydatastructs/trees/binary_trees.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 50449ff..bd314ee 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1235,16 +1235,14 @@ class SplayTree(SelfBalancingBinaryTree):
         if e is None:
             return
         self.splay(e, p)
-        other = SplayTree(None, None)
+        other = SplayTree(None, None, self.comparator, self.is_order_statistic)
         if self.tree[self.root_idx].right is not None:
             traverse = BinaryTreeTraversal(self)
             elements = traverse.depth_first_search(order='pre_order', node=self.tree[self.root_idx].right)
             for i in range(len(elements)):
                 super(SelfBalancingBinaryTree, other).insert(elements[i].key, elements[i].data)
             for j in range(len(elements) - 1, -1, -1):
-                e, p = super(SelfBalancingBinaryTree, self).search(elements[j].key, parent=True)
-                self.tree[e] = None
-            self.tree[self.root_idx].right = None
+                super(SelfBalancingBinaryTree, self).delete(elements[j].key)
         return other
 
 class RedBlackTree(SelfBalancingBinaryTree):
-- 
2.43.0


From 7c4f8117d2837b8cfd6e1df841934e8bc8682320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 053/156] fix: CartesianTree breaks its heap order on
 reinserted keys and misjudges the root

---
 pydatastructs/trees/binary_trees.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index bd314ee..2ffff7e 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -832,6 +832,7 @@ class CartesianTree(SelfBalancingBinaryTree):
         return ['__new__', '__str__', 'insert', 'delete']
 
     def _bubble_up(self, node_idx):
+        self.tree[self.root_idx].is_root = False
         node = self.tree[node_idx]
         parent_idx = self.tree[node_idx].parent
         parent = self.tree[parent_idx]
@@ -844,8 +845,7 @@ class CartesianTree(SelfBalancingBinaryTree):
             parent_idx = self.tree[node_idx].parent
             if parent_idx is not None:
                 parent = self.tree[parent_idx]
-        if node.parent is None:
-            self.tree[node_idx].is_root = True
+        self.tree[self.root_idx].is_root = True
 
     def _trickle_down(self, node_idx):
         node = self.tree[node_idx]
@@ -861,6 +861,7 @@ class CartesianTree(SelfBalancingBinaryTree):
             node = self.tree[node_idx]
 
     def insert(self, key, priority, data=None):
+        self.delete(key)
         super(CartesianTree, self).insert(key, data)
         node_idx = super(CartesianTree, self).search(key)
         node = self.tree[node_idx]
@@ -868,8 +869,9 @@ class CartesianTree(SelfBalancingBinaryTree):
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
+        new_node.size = node.size
         self.tree[node_idx] = new_node
-        if node.is_root:
+        if node.parent is None:
             self.tree[node_idx].is_root = True
         else:
             self._bubble_up(node_idx)
-- 
2.43.0


From b02c9e5b817639faa69662ba4e4f1535f1de6167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 054/156] fix: RedBlackTree loses its colours and links on
 reinsertion, constructor roots and compaction

---
 pydatastructs/trees/binary_trees.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 2ffff7e..bd489c0 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1282,7 +1282,11 @@ class RedBlackTree(SelfBalancingBinaryTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.RedBlackTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        root = RedBlackTreeNode(obj.tree[0].key, root_data)
+        root.is_root, root.color = True, 0
+        obj.tree[0] = root
+        return obj
 
     @classmethod
     def methods(cls):
@@ -1359,15 +1363,19 @@ class RedBlackTree(SelfBalancingBinaryTree):
         self.tree[self.root_idx].color=0
 
     def insert(self, key, data=None):
+        is_present = super(RedBlackTree, self).search(key) is not None
         super(RedBlackTree, self).insert(key, data)
+        if is_present:
+            return None
         node_idx = super(RedBlackTree, self).search(key)
         node = self.tree[node_idx]
         new_node = RedBlackTreeNode(key, data)
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
+        new_node.size = node.size
         self.tree[node_idx] = new_node
-        if node.is_root:
+        if node.parent is None:
             self.tree[node_idx].is_root = True
             self.tree[node_idx].color=0
         elif self.tree[self.tree[node_idx].parent].color==1:
@@ -1380,7 +1388,7 @@ class RedBlackTree(SelfBalancingBinaryTree):
 
     def _transplant_values(self, node_idx1, node_idx2):
         parent = self.tree[node_idx1].parent
-        if self.tree[node_idx1].is_root and self._has_one_child(node_idx1):
+        if parent is None and self._has_one_child(node_idx1):
             self.tree[self.root_idx].key = self.tree[node_idx2].key
             self.tree[self.root_idx].data = self.tree[node_idx2].data
             self.tree[self.root_idx].left = self.tree[node_idx2].left
@@ -1525,6 +1533,9 @@ class RedBlackTree(SelfBalancingBinaryTree):
             parent = self._get_parent(node_idx)
             par_key, root_key = (self.tree[parent].key, self.tree[self.root_idx].key)
             new_indices = self.tree.delete(node_idx)
+            if new_indices is not None:
+                a = new_indices[par_key]
+                self.root_idx = new_indices[root_key]
         self._update_size(a)
 
     def _delete_root(self, node_idx, node_idx1):
@@ -1536,6 +1547,7 @@ class RedBlackTree(SelfBalancingBinaryTree):
             new_indices = self.tree.delete(node_idx1)
             if new_indices is not None:
                 self.root_idx = new_indices[root_key]
+            self._update_size(self.root_idx)
 
     def __leaf_case(self, node_idx, node_idx1):
         walk = node_idx
@@ -1570,11 +1582,11 @@ class RedBlackTree(SelfBalancingBinaryTree):
             else:
                 self.tree[parent].right = walk1
             self.tree[walk1].parent = parent
-            a = self._remove_node(walk)
             if self.__walk1_walk_isblack(walk_original_color, walk1):
                 self.__fix_deletion(walk1)
             else:
                 self.tree[walk1].color = 0
+            self._remove_node(walk)
 
     def __two_child_case(self, node_idx):
         walk = node_idx
-- 
2.43.0


From 687b2fbf4c9d70187e882072bd6cb37f805da8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 055/156] fix: Treap made with a root fails on the next
 insertion

---
 pydatastructs/trees/binary_trees.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index bd489c0..c20ef05 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -928,7 +928,11 @@ class Treap(CartesianTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.Treap(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        root = CartesianTreeNode(obj.tree[0].key, random.random(), root_data)
+        root.is_root = True
+        obj.tree[0] = root
+        return obj
 
     @classmethod
     def methods(cls):
-- 
2.43.0


From acd26e21278c16af7f34839cc367ab3309878177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 056/156] fix: rotations leave stale subtree sizes in order
 statistic trees

---
 pydatastructs/trees/binary_trees.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index c20ef05..cf6f52c 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -723,6 +723,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         kp = self.tree[k].parent
         if kp is None:
             self.root_idx = k
+        self._update_size(j)
 
     def _left_right_rotate(self, j, k):
         i = self.tree[k].right
@@ -743,6 +744,8 @@ class SelfBalancingBinaryTree(BinarySearchTree):
                 self.tree[ip].right = i
         else:
             self.root_idx = i
+        self._update_size(k)
+        self._update_size(j)
 
     def _right_left_rotate(self, j, k):
         i = self.tree[k].left
@@ -763,6 +766,8 @@ class SelfBalancingBinaryTree(BinarySearchTree):
                 self.tree[ip].right = i
         else:
             self.root_idx = i
+        self._update_size(k)
+        self._update_size(j)
 
     def _left_rotate(self, j, k):
         y = self.tree[k].left
@@ -780,6 +785,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         kp = self.tree[k].parent
         if kp is None:
             self.root_idx = k
+        self._update_size(j)
 
 class CartesianTree(SelfBalancingBinaryTree):
     """
-- 
2.43.0


From e89f6469dec0f5112023d2c969987074b19c5c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 057/156] fix: tree bounds exceed the recursion limit on deep
 trees

---
 pydatastructs/trees/binary_trees.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index cf6f52c..59029db 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -297,26 +297,17 @@ class BinarySearchTree(BinaryTree):
         return (walk, parent) if ret_parent else walk
 
     def _bound_helper(self, node_idx, bound_key, is_upper=False):
-        if node_idx is None:
-            return None
-        if self.tree[node_idx].key is None:
-            return None
-
-        if self.tree[node_idx].key == bound_key:
-            if not is_upper:
-                return self.tree[node_idx].key
+        bound = None
+        while node_idx is not None and self.tree[node_idx].key is not None:
+            node = self.tree[node_idx]
+            if node.key == bound_key and not is_upper:
+                return node.key
+            if node.key == bound_key or self.comparator(node.key, bound_key):
+                node_idx = node.right
             else:
-                return self._bound_helper(self.tree[node_idx].right,
-                                            bound_key, is_upper)
-
-        if self.comparator(self.tree[node_idx].key, bound_key):
-            return self._bound_helper(self.tree[node_idx].right,
-                                            bound_key, is_upper)
-        else:
-            res_bound = self._bound_helper(self.tree[node_idx].left,
-                                                   bound_key, is_upper)
-            return res_bound if res_bound is not None else self.tree[node_idx].key
-
+                bound = node.key
+                node_idx = node.left
+        return bound
 
     def lower_bound(self, key, **kwargs):
         """
-- 
2.43.0


From 3cdad5b7d1d8a3377fa0b719fcc4269a37390fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 058/156] fix: select on an emptied tree returns its empty root

---
 pydatastructs/trees/binary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 59029db..167750f 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -493,7 +493,7 @@ class BinarySearchTree(BinaryTree):
         i -= 1 # The algorithm is based on zero indexing
         if i < 0:
             raise ValueError("Expected a positive integer, got %d"%(i + 1))
-        if i >= self.tree._num:
+        if i >= self.tree._num or self.tree[self.root_idx].key is None:
             raise ValueError("%d is greater than the size of the "
                 "tree which is, %d"%(i + 1, self.tree._num))
         walk = self.root_idx
-- 
2.43.0


From 53a936176c76fdea57036348abb52dc20b6c84ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 059/156] fix: CartesianTree made with a root cannot be
 extended or printed

---
 pydatastructs/trees/binary_trees.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 167750f..2f90a94 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -822,7 +822,12 @@ class CartesianTree(SelfBalancingBinaryTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.CartesianTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        # A root which is given without priority stays above all other nodes.
+        root = CartesianTreeNode(obj.tree[0].key, float('-inf'), root_data)
+        root.is_root = True
+        obj.tree[0] = root
+        return obj
 
     @classmethod
     def methods(cls):
@@ -926,9 +931,7 @@ class Treap(CartesianTree):
                 comp = lambda key1, key2: key1 < key2
             return _trees.Treap(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
         obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
-        root = CartesianTreeNode(obj.tree[0].key, random.random(), root_data)
-        root.is_root = True
-        obj.tree[0] = root
+        obj.tree[0].priority = random.random()
         return obj
 
     @classmethod
-- 
2.43.0


From f34c8771ba3fe1eaab8f5c3bd9bdeb3b6f1833c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 060/156] fix: strings_with_prefix reports only the last
 character of the prefix itself

---
 pydatastructs/strings/trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/strings/trie.py b/pydatastructs/strings/trie.py
index cdf6666..0fb23c1 100644
--- a/pydatastructs/strings/trie.py
+++ b/pydatastructs/strings/trie.py
@@ -195,7 +195,7 @@ class Trie(object):
                 return strings
             prefix += char
         if walk.is_terminal:
-            strings.append(walk.char)
+            strings.append(prefix)
         for child in walk._children:
             _collect(prefix, walk.get_child(child), strings)
         return strings
-- 
2.43.0


From c36be0ef6d4ce32434d02c1f9390fd99fecd0449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 061/156] fix: Trie.delete reports success for a string which
 was never inserted

---
 pydatastructs/strings/trie.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/strings/trie.py b/pydatastructs/strings/trie.py
index 0fb23c1..ec88ee3 100644
--- a/pydatastructs/strings/trie.py
+++ b/pydatastructs/strings/trie.py
@@ -151,6 +151,8 @@ class Trie(object):
                 return None
             walk = walk.get_child(char)
         path.append(walk)
+        if not walk.is_terminal:
+            return None
         i = len(path) - 1
         path[i].is_terminal = False
         while not path[i]._children and i >= 1:
-- 
2.43.0


From 8b5275e78b3fbe69c77ce81df6892c8a6bba2685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 062/156] fix: rabin_karp reports hash collisions as matches

---
 pydatastructs/strings/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index 1e26b94..c43a3d4 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -161,7 +161,7 @@ def _rabin_karp(text, query):
         text_hash[i+1] = (text_hash[i] + ord(text[i]) * p_pow[i]) % MOD
     for i in range(t - q + 1):
         curr_hash = (text_hash[i + q] + MOD - text_hash[i]) % MOD
-        if curr_hash == (query_hash * p_pow[i]) % MOD:
+        if curr_hash == (query_hash * p_pow[i]) % MOD and text[i:i + q] == query:
             positions.append(i)
 
     return positions
-- 
2.43.0


From 0d8883d5a9e44f86492e3a0aa00bcc29d8555607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 063/156] fix: z_function misses matches which are followed by
 the separator

---
 pydatastructs/strings/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index c43a3d4..5af493f 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -240,8 +240,8 @@ def _z_function(text, query):
         return positions
 
     fct = _z_vector(text, query)
-    for pos in range(len(fct)):
-        if fct[pos] == len(query):
+    for pos in range(len(text)):
+        if fct[pos] >= len(query):
             positions.append(pos)
 
     return positions
-- 
2.43.0


From a2f1b13b5e413624b0876af332f7ca14359684f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 064/156] fix: AdjacencyList.remove_vertex leaves the edges of
 the removed vertex behind

---
 pydatastructs/graphs/adjacency_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/graphs/adjacency_list.py b/pydatastructs/graphs/adjacency_list.py
index bd901b3..e4825dd 100644
--- a/pydatastructs/graphs/adjacency_list.py
+++ b/pydatastructs/graphs/adjacency_list.py
@@ -59,6 +59,8 @@ class AdjacencyList(Graph):
             self.__setattr__(node.name, node)
 
     def remove_vertex(self, name):
+        for node in self.__getattribute__(name).adjacent:
+            self.edge_weights.pop(name + "_" + node, None)
         delattr(self, name)
         self.vertices.remove(name)
         for node in self.vertices:
@@ -66,6 +68,7 @@ class AdjacencyList(Graph):
             if hasattr(node_obj, name):
                 delattr(node_obj, name)
                 node_obj.adjacent.remove(name)
+                self.edge_weights.pop(node + "_" + name, None)
 
     def add_edge(self, source, target, cost=None):
         source, target = str(source), str(target)
-- 
2.43.0


From 01cda2509b771b0acf52d150ca5842f09059abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 065/156] fix: AdjacencyMatrix.num_edges counts removed edges

---
 pydatastructs/graphs/adjacency_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/adjacency_matrix.py b/pydatastructs/graphs/adjacency_matrix.py
index 9c2326b..099ef73 100644
--- a/pydatastructs/graphs/adjacency_matrix.py
+++ b/pydatastructs/graphs/adjacency_matrix.py
@@ -48,7 +48,7 @@ class AdjacencyMatrix(Graph):
         return len(self.vertices)
 
     def num_edges(self):
-        return sum(len(v) for v in self.matrix.values())
+        return sum(sum(v.values()) for v in self.matrix.values())
 
     def neighbors(self, node):
         node = str(node)
-- 
2.43.0


From 8fbd0ac670f33ac2c560bdcd2bf2611e4fc9de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 066/156] fix: minimum spanning trees share their nodes with
 the graph

---
 pydatastructs/graphs/algorithms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 6c2182f..5a4951b 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -226,7 +226,10 @@ def _breadth_first_search_parallel_adjacency_list(
 _breadth_first_search_parallel_adjacency_matrix = _breadth_first_search_parallel_adjacency_list
 
 def _generate_mst_object(graph):
-    mst = Graph(*[getattr(graph, str(v)) for v in graph.vertices])
+    nodes = [getattr(graph, str(v)) for v in graph.vertices]
+    if graph._impl == 'adjacency_list':
+        nodes = [AdjacencyListGraphNode(v.name, v.data) for v in nodes]
+    mst = Graph(*nodes, implementation=graph._impl)
     return mst
 
 def _sort_edges(graph, num_threads=None):
@@ -263,7 +266,7 @@ def _minimum_spanning_tree_prim_adjacency_list(graph):
     while not q.is_empty:
         v = q.pop()
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            mst.add_vertex(AdjacencyListGraphNode(v, graph.__getattribute__(v).data))
             if e.get(v, None) is not None:
                 edge = e[v]
                 mst.add_vertex(edge.target)
@@ -405,7 +408,7 @@ def _minimum_spanning_tree_parallel_prim_adjacency_list(graph, num_threads):
         q[idx].pop()
 
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            mst.add_vertex(AdjacencyListGraphNode(v, graph.__getattribute__(v).data))
             if e[idx].get(v, None) is not None:
                 edge = e[idx][v]
                 mst.add_vertex(edge.target)
-- 
2.43.0


From 3f4ff9c448b51286fca16df7041b5f98350b5f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 067/156] fix: breadth_first_search_parallel visits vertices
 twice and ignores stop requests

---
 pydatastructs/graphs/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 5a4951b..ea9425e 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -196,7 +196,7 @@ def _generate_layer(**kwargs):
     status = True
     if len(next_nodes) != 0:
         for next_node in next_nodes:
-            if visited.get(next_node, False) is False:
+            if visited.get(next_node.name, False) is False:
                 status = status and operation(curr_node, next_node.name, *op_args, **op_kwargs)
                 next_layer.add(next_node.name)
                 visited[next_node.name] = True
@@ -213,12 +213,13 @@ def _breadth_first_search_parallel_adjacency_list(
     layer = 0
     while len(layers[layer]) != 0:
         layers[layer+1] = set()
+        status = True
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             for node in layers[layer]:
                 status = Executor.submit(
                          _generate_layer, args=
                          (graph, node, layers[layer+1], visited,
-                          operation, *args), kwargs=kwargs).result()
+                          operation, *args), kwargs=kwargs).result() and status
         layer += 1
         if not status:
             return None
-- 
2.43.0


From d6368e0a9b43ca2b83f1f8083186544240e85f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 068/156] fix: dijkstra stops before every vertex is settled

---
 pydatastructs/graphs/algorithms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index ea9425e..74d0e50 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -859,7 +859,6 @@ def _bellman_ford_adjacency_list(graph: Graph, source: str, target: str) -> tupl
 _bellman_ford_adjacency_matrix = _bellman_ford_adjacency_list
 
 def _dijkstra_adjacency_list(graph: Graph, start: str, target: str):
-    V = len(graph.vertices)
     visited, dist, pred = {}, {}, {}
     for v in graph.vertices:
         visited[v] = False
@@ -870,7 +869,7 @@ def _dijkstra_adjacency_list(graph: Graph, start: str, target: str):
     pq = PriorityQueue(implementation='binomial_heap')
     for vertex in dist:
         pq.push(vertex, dist[vertex])
-    for _ in range(V):
+    while not pq.is_empty:
         u = pq.pop()
         visited[u] = True
         for v in graph.vertices:
-- 
2.43.0


From 3aa0465aeae9b538e4b7687c43e9f589e5639e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 069/156] fix: johnson's algorithm changes the edge weights of
 the graph

---
 pydatastructs/graphs/algorithms.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 74d0e50..a3244e4 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -985,20 +985,15 @@ def _johnson_adjacency_list(graph: Graph):
         if vertex != '__q__':
             graph.add_edge('__q__', vertex, 0)
 
-    distances, predecessors = shortest_paths(graph, 'bellman_ford', '__q__')
-
-    edges_to_remove = []
-    for edge in graph.edge_weights:
-        edge_node = graph.edge_weights[edge]
-        if edge_node.source.name == '__q__':
-            edges_to_remove.append((edge_node.source.name, edge_node.target.name))
-
-    for u, v in edges_to_remove:
-        graph.remove_edge(u, v)
-    graph.remove_vertex('__q__')
+    try:
+        distances, predecessors = shortest_paths(graph, 'bellman_ford', '__q__')
+    finally:
+        graph.remove_vertex('__q__')
 
+    original_values = {}
     for edge in graph.edge_weights:
         edge_node = graph.edge_weights[edge]
+        original_values[edge] = edge_node.value
         u, v = edge_node.source.name, edge_node.target.name
         graph.edge_weights[edge].value += (distances[u] - distances[v])
 
@@ -1020,6 +1015,9 @@ def _johnson_adjacency_list(graph: Graph):
             else:
                 all_distances[u][v] = float('inf')
 
+    for edge in original_values:
+        graph.edge_weights[edge].value = original_values[edge]
+
     return (all_distances, all_next_vertex)
 
 def topological_sort(graph: Graph, algorithm: str,
-- 
2.43.0


From 9f12a8dd9882e94e3f08247c21f9a202f5d1129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 070/156] fix: topological sort removes the edges and vertices
 of the graph

---
 pydatastructs/graphs/algorithms.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index a3244e4..8abb6c3 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1088,7 +1088,6 @@ def _kahn_adjacency_list(graph: Graph) -> list:
         n = S.popleft()
         L.append(n)
         for m in graph.neighbors(n):
-            graph.remove_edge(n, m.name)
             in_degree[m.name] -= 1
             if in_degree[m.name] == 0:
                 S.append(m.name)
@@ -1156,31 +1155,35 @@ def topological_sort_parallel(graph: Graph, algorithm: str, num_threads: int,
 def _kahn_adjacency_list_parallel(graph: Graph, num_threads: int) -> list:
     num_vertices = len(graph.vertices)
 
-    def _collect_source_nodes(graph: Graph) -> list:
+    in_degree = {u: 0 for u in graph.vertices}
+    for u in graph.vertices:
+        for v in graph.neighbors(u):
+            in_degree[v.name] += 1
+
+    def _collect_source_nodes(in_degree: dict) -> list:
         S = []
-        in_degree = {u: 0 for u in graph.vertices}
-        for u in graph.vertices:
-            for v in graph.neighbors(u):
-                in_degree[v.name] += 1
         for u in in_degree:
             if in_degree[u] == 0:
                 S.append(u)
         return list(S)
 
     def _job(graph: Graph, u: str):
-        for v in graph.neighbors(u):
-            graph.remove_edge(u, v.name)
+        return [v.name for v in graph.neighbors(u)]
 
     L = []
-    source_nodes = _collect_source_nodes(graph)
+    source_nodes = _collect_source_nodes(in_degree)
     while source_nodes:
+        jobs = []
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             for node in source_nodes:
                 L.append(node)
-                Executor.submit(_job, graph, node)
+                jobs.append(Executor.submit(_job, graph, node))
         for node in source_nodes:
-            graph.remove_vertex(node)
-        source_nodes = _collect_source_nodes(graph)
+            in_degree.pop(node)
+        for job in jobs:
+            for v in job.result():
+                in_degree[v] -= 1
+        source_nodes = _collect_source_nodes(in_degree)
 
     if len(L) != num_vertices:
         raise ValueError("Graph is not acyclic.")
-- 
2.43.0


From f7c6214569568d7ad1bfe408ae022cc0e519470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 071/156] fix: max_flow ignores residual edges which have no
 reverse edge

---
 pydatastructs/graphs/algorithms.py | 48 +++++++++++++++++-------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 8abb6c3..d753372 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1190,25 +1190,32 @@ def _kahn_adjacency_list_parallel(graph: Graph, num_threads: int) -> list:
     return L
 
 
+def _residual_edges(graph: Graph, u, flow_passed):
+    capacities = {v.name: graph.get_edge(u, v.name).value for v in graph.neighbors(u)}
+    for v in graph.vertices:
+        if v not in capacities and flow_passed.get((u, v), 0) < 0:
+            capacities[v] = 0
+    return capacities.items()
+
+
 def _breadth_first_search_max_flow(graph: Graph, source_node, sink_node, flow_passed, for_dinic=False):
     bfs_queue = Queue()
-    parent, currentPathC = {}, {}
+    parent, currentPathC = {source_node: None}, {}
     currentPathC[source_node] = float('inf')
     bfs_queue.append(source_node)
     while len(bfs_queue) != 0:
         curr_node = bfs_queue.popleft()
-        next_nodes = graph.neighbors(curr_node)
+        next_nodes = _residual_edges(graph, curr_node, flow_passed)
         if len(next_nodes) != 0:
-            for next_node in next_nodes:
-                capacity = graph.get_edge(curr_node, next_node.name).value
-                fp = flow_passed.get((curr_node, next_node.name), 0)
-                if capacity and parent.get(next_node.name, False) is False and capacity - fp > 0:
-                    parent[next_node.name] = curr_node
+            for next_node, capacity in next_nodes:
+                fp = flow_passed.get((curr_node, next_node), 0)
+                if parent.get(next_node, False) is False and capacity - fp > 0:
+                    parent[next_node] = curr_node
                     next_flow = min(currentPathC[curr_node], capacity - fp)
-                    currentPathC[next_node.name] = next_flow
-                    if next_node.name == sink_node and not for_dinic:
+                    currentPathC[next_node] = next_flow
+                    if next_node == sink_node and not for_dinic:
                         return (next_flow, parent)
-                    bfs_queue.append(next_node.name)
+                    bfs_queue.append(next_node)
     return (0, parent)
 
 
@@ -1234,22 +1241,21 @@ def _depth_first_search_max_flow_dinic(graph: Graph, u, parent, sink_node, flow,
     if u == sink_node:
         return flow
 
-    next_nodes = graph.neighbors(u)
+    next_nodes = _residual_edges(graph, u, flow_passed)
     if len(next_nodes) != 0:
-        for next_node in next_nodes:
-            capacity = graph.get_edge(u, next_node.name).value
-            fp = flow_passed.get((u, next_node.name), 0)
-            parent_cond = parent.get(next_node.name, None)
+        for next_node, capacity in next_nodes:
+            fp = flow_passed.get((u, next_node), 0)
+            parent_cond = parent.get(next_node, None)
             if parent_cond and parent_cond == u and capacity - fp > 0:
                 path_flow = _depth_first_search_max_flow_dinic(graph,
-                                                               next_node.name,
+                                                               next_node,
                                                                parent, sink_node,
                                 min(flow, capacity - fp), flow_passed)
                 if path_flow > 0:
-                    fp = flow_passed.get((u, next_node.name), 0)
-                    flow_passed[(u, next_node.name)] = fp + path_flow
-                    fp = flow_passed.get((next_node.name, u), 0)
-                    flow_passed[(next_node.name, u)] = fp - path_flow
+                    fp = flow_passed.get((u, next_node), 0)
+                    flow_passed[(u, next_node)] = fp + path_flow
+                    fp = flow_passed.get((next_node, u), 0)
+                    flow_passed[(next_node, u)] = fp - path_flow
                     return path_flow
     return 0
 
@@ -1259,7 +1265,7 @@ def _max_flow_dinic_(graph: Graph, source, sink):
     flow_passed = {}
     while True:
         next_flow, parent = _breadth_first_search_max_flow(graph, source, sink, flow_passed, True)
-        if parent.get(sink, False) is False:
+        if parent.get(sink, None) is None:
             break
 
         while True:
-- 
2.43.0


From d9632a8e0a58035150549f1f8a0882c6f4e701c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 072/156] fix: kosaraju's algorithm finishes vertices twice and
 needs incoming edges

---
 pydatastructs/graphs/algorithms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index d753372..ad09e82 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -500,7 +500,7 @@ def minimum_spanning_tree_parallel(graph, algorithm, num_threads, **kwargs):
     return getattr(algorithms, func)(graph, num_threads)
 
 def _visit(graph, vertex, visited, incoming, L):
-    stack = [vertex]
+    stack, finished = [vertex], set()
     while stack:
         top = stack[-1]
         if not visited.get(top, False):
@@ -512,7 +512,10 @@ def _visit(graph, vertex, visited, incoming, L):
                 if not visited.get(node.name, False):
                     stack.append(node.name)
         if top is stack[-1]:
-            L.append(stack.pop())
+            stack.pop()
+            if top not in finished:
+                finished.add(top)
+                L.append(top)
 
 def _assign(graph, u, incoming, assigned, component):
     stack = [u]
@@ -521,7 +524,7 @@ def _assign(graph, u, incoming, assigned, component):
         if not assigned.get(top, False):
             assigned[top] = True
             component.add(top)
-            for u in incoming[top]:
+            for u in incoming.get(top, []):
                 if not assigned.get(u, False):
                     stack.append(u)
         if top is stack[-1]:
-- 
2.43.0


From 8aa1209926dfb772f3b0ed9e30507cfd00448efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 073/156] fix: AdjacencyListGraphNode does not store the names
 of its initial neighbours

---
 pydatastructs/graphs/adjacency_list.py | 3 ++-
 pydatastructs/utils/misc_util.py       | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/graphs/adjacency_list.py b/pydatastructs/graphs/adjacency_list.py
index e4825dd..dcbb014 100644
--- a/pydatastructs/graphs/adjacency_list.py
+++ b/pydatastructs/graphs/adjacency_list.py
@@ -86,7 +86,8 @@ class AdjacencyList(Graph):
 
         source, target = self.__getattribute__(source), \
             self.__getattribute__(target)
-        source.add_adjacent_node(target.name)
+        if not hasattr(source, target.name):
+            source.add_adjacent_node(target.name)
         if cost is not None:
             self.edge_weights[source.name + "_" + target.name] = \
                 GraphEdge(source, target, cost)
diff --git a/pydatastructs/utils/misc_util.py b/pydatastructs/utils/misc_util.py
index 529fc58..1162013 100644
--- a/pydatastructs/utils/misc_util.py
+++ b/pydatastructs/utils/misc_util.py
@@ -408,8 +408,7 @@ class AdjacencyListGraphNode(GraphNode):
             if len(adjacency_list) > 0:
                 for node in adjacency_list:
                     obj.__setattr__(node.name, node)
-            obj.adjacent = adjacency_list if len(adjacency_list) > 0 \
-                        else []
+            obj.adjacent = [node.name for node in adjacency_list]
             return obj
         else:
             from pydatastructs.graphs._backend.cpp import _graph
-- 
2.43.0


From 499ee0dd083f4317252681bdba7059dfcb7994b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 074/156] fix: johnson's algorithm drops edges whose reweighted
 value rounds below zero

---
 pydatastructs/graphs/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index ad09e82..52faa48 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -998,7 +998,8 @@ def _johnson_adjacency_list(graph: Graph):
         edge_node = graph.edge_weights[edge]
         original_values[edge] = edge_node.value
         u, v = edge_node.source.name, edge_node.target.name
-        graph.edge_weights[edge].value += (distances[u] - distances[v])
+        graph.edge_weights[edge].value = max(
+            0, edge_node.value + (distances[u] - distances[v]))
 
     all_distances = {}
     all_next_vertex = {}
-- 
2.43.0


From f1461c8806db4fa4e3949197e99aa0027d6e1649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 075/156] fix: report the colour of C++ red black tree nodes

---
 pydatastructs/utils/_backend/cpp/TreeNode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/utils/_backend/cpp/TreeNode.hpp b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
index b9361a1..25f5610 100644
--- a/pydatastructs/utils/_backend/cpp/TreeNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
@@ -67,7 +67,7 @@ static struct PyMemberDef TreeNode_PyMemberDef[] = {
     {"left", T_OBJECT, offsetof(TreeNode, left), 0, "TreeNode left"},
     {"right", T_OBJECT, offsetof(TreeNode, right), 0, "TreeNode right"},
     {"parent", T_OBJECT, offsetof(TreeNode, parent), 0, "TreeNode parent"},
-    {"color", T_LONG, offsetof(TreeNode, size), 0, "RedBlackTreeNode color"},
+    {"color", T_LONG, offsetof(TreeNode, color), 0, "RedBlackTreeNode color"},
     {"priority", T_DOUBLE, offsetof(TreeNode, priority), 0, "CartesianTreeNode's priority"},
     {NULL},
 };
-- 
2.43.0


From 91eb5ffff095c3f0b964abc7cf46abccdf0eea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 076/156] fix: share the position objects of the C++ trees and
 return owned references to them

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp         |  2 +-
 pydatastructs/trees/_backend/cpp/AVLTree.hpp      |  3 ++-
 .../trees/_backend/cpp/BinarySearchTree.hpp       | 15 +++++++++------
 pydatastructs/trees/_backend/cpp/BinaryTree.hpp   |  2 +-
 .../trees/_backend/cpp/CartesianTree.hpp          |  1 +
 pydatastructs/trees/_backend/cpp/RedBlackTree.hpp |  5 +++++
 .../_backend/cpp/SelfBalancingBinaryTree.hpp      |  1 +
 pydatastructs/trees/_backend/cpp/SplayTree.hpp    |  7 ++++---
 pydatastructs/trees/_backend/cpp/Treap.hpp        |  1 +
 pydatastructs/utils/_backend/cpp/utils.hpp        | 10 ++++++++++
 10 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 39f7bef..71b2422 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -102,7 +102,7 @@ static PyObject* ArrayForTrees__modify(ArrayForTrees *self,
             if (_data[i] != Py_None) {
                 Py_INCREF(Py_None);
                 arr_new[j] = _data[i];
-                PyObject_SetItem(new_indices, reinterpret_cast<TreeNode*>(_data[i])->key, PyLong_FromLong(j));
+                PyObject_SetItem(new_indices, reinterpret_cast<TreeNode*>(_data[i])->key, get_position(j));
                 j += 1;
             }
         }
diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index f0de0b0..bbb3dfa 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -238,7 +238,7 @@ static PyObject* AVLTree_insert(AVLTree* self, PyObject *args) {
     SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     long s = bt->size - 1;
-    AVLTree__balance_insertion(self, Py_BuildValue("(OO)", PyLong_FromLong(s), reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[s])->parent));
+    AVLTree__balance_insertion(self, Py_BuildValue("(OO)", get_position(s), reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[s])->parent));
 
     Py_RETURN_NONE;
 }
@@ -307,6 +307,7 @@ static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
 }
 
 static PyObject* AVLTree_root_idx(AVLTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 5573847..4f2b569 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -123,6 +123,7 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
 
     Py_INCREF(Py_None);
     if (ret_parent==Py_None || PyLong_AsLong(ret_parent)==0) {
+        Py_INCREF(walk);
         return walk;
     }
     else {
@@ -149,7 +150,7 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
         Py_RETURN_NONE;
     }
 
-    PyObject* walk = PyLong_FromLong(PyLong_AsLong(bt->root_idx));
+    PyObject* walk = get_position(PyLong_AsLong(bt->root_idx));
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key == Py_None) {
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key = key;
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->data = data;
@@ -160,7 +161,7 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
         return NULL;
     }
     TreeNode* new_node = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", key, data), PyDict_New()));
-    PyObject* prev_node = PyLong_FromLong(PyLong_AsLong(bt->root_idx));
+    PyObject* prev_node = get_position(PyLong_AsLong(bt->root_idx));
     bool flag = true;
 
     while (flag) {
@@ -182,7 +183,7 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right == Py_None) {
                 new_node->parent = prev_node;
                 ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right = PyLong_FromLong(bt->size);
+                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right = get_position(bt->size);
                 bt->size = bt->size + 1;
                 flag = false;
             }
@@ -193,7 +194,7 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left == Py_None) {
                 new_node->parent = prev_node;
                 ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left = PyLong_FromLong(bt->size);
+                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left = get_position(bt->size);
                 bt->size = bt->size + 1;
                 flag = false;
             }
@@ -329,6 +330,7 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
 
     if (balancing_info != Py_None) {
         if (PyLong_AsLong(balancing_info) == 1) {
+            Py_INCREF(a);
             return a;
         }
     }
@@ -420,10 +422,10 @@ static PyObject* BinarySearchTree__simple_path(BinarySearchTree* self, PyObject
         return path;
     }
     while (node_idx != 0) {
-        PyList_Append(path, PyLong_FromLong(node_idx));
+        PyList_Append(path, get_position(node_idx));
         node_idx = PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node_idx])->parent);
     }
-    PyList_Append(path, PyLong_FromLong(0));
+    PyList_Append(path, get_position(0));
     PyList_Reverse(path);
     return path;
 }
@@ -660,6 +662,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
 }
 
 static PyObject* BinarySearchTree_root_idx(BinarySearchTree *self, void *closure) {
+    Py_INCREF(self->binary_tree->root_idx);
     return self->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
index b07336d..6126f27 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
@@ -44,7 +44,7 @@ static PyObject* BinaryTree___new__(PyTypeObject* type, PyObject *args, PyObject
     }
     TreeNode* root = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, args, kwds));
     root->is_root = true;
-    self->root_idx = PyLong_FromLong(0);
+    self->root_idx = get_position(0);
 
     PyObject* listroot = Py_BuildValue("[O]", root);
     if (PyType_Ready(&ArrayForTreesType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 012d212..8996992 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -145,6 +145,7 @@ static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObj
 }
 
 static PyObject* CartesianTree_root_idx(CartesianTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 3604031..049b387 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -44,6 +44,7 @@ static PyObject* RedBlackTree__get_parent(RedBlackTree *self, PyObject* args) {
     long node_idx = PyLong_AsLong(PyObject_GetItem(args, PyZero));
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     PyObject* parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node_idx])->parent;
+    Py_INCREF(parent);
     return parent;
 }
 
@@ -53,6 +54,7 @@ static PyObject* RedBlackTree__get_grand_parent(RedBlackTree *self, PyObject* ar
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     PyObject* grand_parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)])->parent;
+    Py_INCREF(grand_parent);
     return grand_parent;
 }
 
@@ -68,10 +70,12 @@ static PyObject* RedBlackTree__get_sibling(RedBlackTree *self, PyObject* args) {
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)]);
     if (node_idx == node->left) {
         PyObject* sibling_idx = node->right;
+        Py_INCREF(sibling_idx);
         return sibling_idx;
     }
     else {
         PyObject* sibling_idx = node->left;
+        Py_INCREF(sibling_idx);
         return sibling_idx;
     }
 
@@ -579,6 +583,7 @@ static PyObject* RedBlackTree_search(RedBlackTree* self, PyObject *args, PyObjec
 }
 
 static PyObject* RedBlackTree_root_idx(RedBlackTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index 2f7fbf3..a82ff4d 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -220,6 +220,7 @@ static PyObject* SelfBalancingBinaryTree__right_left_rotate(SelfBalancingBinaryT
 }
 
 static PyObject* SelfBalancingBinaryTree_root_idx(SelfBalancingBinaryTree *self, void *closure) {
+    Py_INCREF(self->bst->binary_tree->root_idx);
     return self->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index b41eb3d..d0ca258 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -203,10 +203,10 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
             }
             TreeNode* node_copy = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", treenode->key, treenode->data), PyDict_New()));
             if (treenode->left != Py_None) {
-                node_copy->left = PyLong_FromLong(PyLong_AsLong(treenode->left) + idx_update);
+                node_copy->left = get_position(PyLong_AsLong(treenode->left) + idx_update);
             }
             if (treenode->right != Py_None) {
-                node_copy->right = PyLong_FromLong(PyLong_AsLong(treenode->right) + idx_update);
+                node_copy->right = get_position(PyLong_AsLong(treenode->right) + idx_update);
             }
             ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node_copy));
         }
@@ -214,7 +214,7 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
             ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node));
         }
     }
-    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = PyLong_FromLong(PyLong_AsLong(obt->root_idx) + idx_update);
+    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = get_position(PyLong_AsLong(obt->root_idx) + idx_update);
 
     Py_RETURN_NONE;
 }
@@ -285,6 +285,7 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_root_idx(SplayTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index 5619d27..932981f 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -63,6 +63,7 @@ static PyObject* Treap_insert(Treap *self, PyObject* args) {
 }
 
 static PyObject* Treap_root_idx(Treap *self, void *closure) {
+    Py_INCREF(self->ct->sbbt->bst->binary_tree->root_idx);
     return self->ct->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index e135a64..0a3978d 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -5,6 +5,7 @@
 #include <Python.h>
 #include <cstring>
 #include <string>
+#include <vector>
 
 static PyObject* get_PyZero() {
     static PyObject* PyZero = nullptr;
@@ -37,6 +38,15 @@ static PyObject* get_PyThree() {
     }
     return PyThree;
 }
+// Positions of tree nodes are compared by identity, therefore
+// every position is represented by one object.
+static PyObject* get_position(long position) {
+    static std::vector<PyObject*> positions;
+    while (static_cast<long>(positions.size()) <= position) {
+        positions.push_back(PyLong_FromLong(positions.size()));
+    }
+    return positions[position];
+}
 #define PyZero get_PyZero()
 #define PyOne get_PyOne()
 #define PyTwo get_PyTwo()
-- 
2.43.0


From 4a16b9e97e86335c54a6ffd1e47d6a2a2b26126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 077/156] fix: compare the keys of the C++ trees by value

---
 .../trees/_backend/cpp/BinarySearchTree.hpp    | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 4f2b569..b3c468e 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -95,7 +95,11 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     while (walk != Py_None) {
         PyObject* curr_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key;
 
-        if (curr_key == key) {
+        int is_found = PyObject_RichCompareBool(curr_key, key, Py_EQ);
+        if (is_found == -1) {
+            return NULL;
+        }
+        if (is_found) {
             break;
         }
         parent = walk;
@@ -349,7 +353,11 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key == Py_None) {
         Py_RETURN_NONE;
     }
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key == bound_key) {
+    int is_bound_key = PyObject_RichCompareBool(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key, bound_key, Py_EQ);
+    if (is_bound_key == -1) {
+        return NULL;
+    }
+    if (is_bound_key) {
         if (is_upper == Py_False) {
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
         }
@@ -407,7 +415,11 @@ static PyObject* BinarySearchTree__simple_path(BinarySearchTree* self, PyObject
     while (!stack.empty()) {
         long node = stack.top();
         stack.pop();
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node])->key == key) {
+        int is_found = PyObject_RichCompareBool(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node])->key, key, Py_EQ);
+        if (is_found == -1) {
+            return NULL;
+        }
+        if (is_found) {
             node_idx = node;
             break;
         }
-- 
2.43.0


From 1390ef4cae3e0d953cad15ff471281bb78829884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 078/156] fix: raise the errors of comparators in the C++ trees

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp  |  7 ++-
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 47 ++++++++++++++++++-
 .../trees/_backend/cpp/CartesianTree.hpp      |  7 ++-
 .../trees/_backend/cpp/RedBlackTree.hpp       |  7 ++-
 .../trees/_backend/cpp/SplayTree.hpp          | 13 ++++-
 5 files changed, 76 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index bbb3dfa..c0fb04a 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -235,7 +235,9 @@ static PyObject* AVLTree_insert(AVLTree* self, PyObject *args) {
     if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
-    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
+    if (!SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data))) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     long s = bt->size - 1;
     AVLTree__balance_insertion(self, Py_BuildValue("(OO)", get_position(s), reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[s])->parent));
@@ -301,6 +303,9 @@ static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
     PyObject* kwd_bal = PyDict_New();
     PyDict_SetItemString(kwd_bal, "balancing_info", PyLong_FromLong(1));
     PyObject* a = SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", key), kwd_bal);
+    if (!a) {
+        return NULL;
+    }
     AVLTree__balance_delete(self, Py_BuildValue("(OO)", a, key));
 
     Py_RETURN_TRUE;
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index b3c468e..7b34288 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -111,6 +111,9 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
         PyObject* arguments = Py_BuildValue("(OO)", key, curr_key);
         PyObject* res = PyObject_CallObject(bt->comparator, arguments);
         Py_DECREF(arguments);
+        if (!res) {
+            return NULL;
+        }
         if (!PyLong_Check(res)) {
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
@@ -148,6 +151,9 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
     PyObject* parent = PyLong_FromLong(0);
 
     PyObject* res = BinarySearchTree_search(self, Py_BuildValue("(O)",key), PyDict_New()); // keywords should be a dictionary, so empty dictionary here as no keywords
+    if (!res) {
+        return NULL;
+    }
     BinaryTree* bt = self->binary_tree;
     if (res != Py_None) {
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(res)])->data = data;
@@ -177,6 +183,9 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
         PyObject* arguments = Py_BuildValue("(OO)", key, curr_key);
         PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
         Py_DECREF(arguments);
+        if (!cres) {
+            return NULL;
+        }
         if (!PyLong_Check(cres)) {
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
@@ -222,6 +231,9 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = BinarySearchTree_search(self, Py_BuildValue("(O)",key), kwd_parent);
+    if (!tup) {
+        return NULL;
+    }
     PyObject* walk = PyTuple_GetItem(tup, 0);
     PyObject* parent = PyTuple_GetItem(tup, 1);
     Py_INCREF(Py_None);
@@ -373,6 +385,9 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
     PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key, bound_key);
     PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
     Py_DECREF(arguments);
+    if (!cres) {
+        return NULL;
+    }
     if (!PyLong_Check(cres)) {
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
@@ -384,7 +399,7 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
     }
     else {
         PyObject* res_bound = BinarySearchTree__bound_helper(self, Py_BuildValue("(OOO)",reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->left, bound_key, is_upper));
-        if (res_bound != Py_None) {
+        if (!res_bound || res_bound != Py_None) {
             return res_bound;
         }
         else {
@@ -449,6 +464,9 @@ static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args)
     PyObject* root = bt->root_idx;
     PyObject* path1 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",PyLong_FromLong(j),root));
     PyObject* path2 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",PyLong_FromLong(k),root));
+    if (!path1 || !path2) {
+        return NULL;
+    }
     long n = PyLong_AsLong(PyLong_FromSsize_t(PyList_Size(path1)));
     long m = PyLong_AsLong(PyLong_FromSsize_t(PyList_Size(path2)));
     if (n==0 || m==0) {
@@ -485,7 +503,13 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
 
     PyObject* curr_root = bt->root_idx;
     PyObject* u = BinarySearchTree_search(self, Py_BuildValue("(O)",j), PyDict_New());
+    if (!u) {
+        return NULL;
+    }
     PyObject* v = BinarySearchTree_search(self, Py_BuildValue("(O)",k), PyDict_New());
+    if (!v) {
+        return NULL;
+    }
 
     if (u==Py_None || v==Py_None) {
         PyErr_SetString(PyExc_ValueError, "One of the nodes doesn't exist.");
@@ -499,6 +523,9 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
     PyObject* arguments1 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(u)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
     PyObject* cres1 = PyObject_CallObject(bt->comparator, arguments1);
     Py_DECREF(arguments1);
+    if (!cres1) {
+        return NULL;
+    }
     if (!PyLong_Check(cres1)) {
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
@@ -512,6 +539,9 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
     PyObject* arguments2 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(v)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
     PyObject* cres2 = PyObject_CallObject(bt->comparator, arguments2);
     Py_DECREF(arguments2);
+    if (!cres2) {
+        return NULL;
+    }
     if (!PyLong_Check(cres2)) {
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
@@ -540,6 +570,9 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         PyObject* arguments1 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(u)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
         PyObject* cres1 = PyObject_CallObject(bt->comparator, arguments1);
         Py_DECREF(arguments1);
+        if (!cres1) {
+            return NULL;
+        }
         if (!PyLong_Check(cres1)) {
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
@@ -553,6 +586,9 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         PyObject* arguments2 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(v)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
         PyObject* cres2 = PyObject_CallObject(bt->comparator, arguments2);
         Py_DECREF(arguments2);
+        if (!cres2) {
+            return NULL;
+        }
         if (!PyLong_Check(cres2)) {
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
@@ -587,6 +623,9 @@ static PyObject* BinarySearchTree_lowest_common_ancestor(BinarySearchTree* self,
 static PyObject* BinarySearchTree_rank(BinarySearchTree* self, PyObject* args) {
     PyObject* x = PyObject_GetItem(args, PyZero);
     PyObject* walk = BinarySearchTree_search(self, Py_BuildValue("(O)",x), PyDict_New());
+    if (!walk) {
+        return NULL;
+    }
     if (walk == Py_None) {
         Py_RETURN_NONE;
     }
@@ -634,6 +673,9 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
             PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(left_walk)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key);
             PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
             Py_DECREF(arguments);
+            if (!cres) {
+                return NULL;
+            }
             if (!PyLong_Check(cres)) {
                 PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
                 return NULL;
@@ -655,6 +697,9 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
             PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(right_walk)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key);
             PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
             Py_DECREF(arguments);
+            if (!cres) {
+                return NULL;
+            }
             if (!PyLong_Check(cres)) {
                 PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
                 return NULL;
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 8996992..b95b570 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -104,7 +104,9 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
-    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
+    if (!SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data))) {
+        return NULL;
+    }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
     if (PyType_Ready(&TreeNodeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
@@ -135,6 +137,9 @@ static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObj
         return NULL;
     }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (!node_idx) {
+        return NULL;
+    }
     if (node_idx != Py_None) {
         Cartesian_Tree__trickle_down(self, Py_BuildValue("(O)", node_idx));
         PyObject* kwd_bal = PyDict_New();
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 049b387..3dff1d4 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -165,7 +165,9 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
-    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
+    if (!SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data))) {
+        return NULL;
+    }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
@@ -557,6 +559,9 @@ static PyObject* RedBlackTree_delete(RedBlackTree* self, PyObject *args, PyObjec
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* walk = BinarySearchTree_search(self->sbbt->bst, Py_BuildValue("(O)", key), PyDict_New());
+    if (!walk) {
+        return NULL;
+    }
     if (walk != Py_None) {
         PyObject* walk1 = RedBlackTree__replace_node(self, Py_BuildValue("(O)", walk));
         if (RedBlackTree__has_two_child(self, Py_BuildValue("(O)", walk)) == Py_True) {
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index d0ca258..22c8db5 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -130,7 +130,9 @@ static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
     PyObject* x = PyObject_GetItem(args, PyOne);
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
-    SelfBalancingBinaryTree_insert(self->sbbt, args);
+    if (!SelfBalancingBinaryTree_insert(self->sbbt, args)) {
+        return NULL;
+    }
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), kwd_parent);
@@ -149,6 +151,9 @@ static PyObject* SplayTree_delete(SplayTree *self, PyObject* args) {
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", x), kwd_parent);
+    if (!tup) {
+        return NULL;
+    }
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
     if (e == Py_None) {
@@ -181,6 +186,9 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
     PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->key, reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->key);
     PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
     Py_DECREF(arguments);
+    if (!cres) {
+        return NULL;
+    }
     if (!PyLong_Check(cres)) {
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
@@ -249,6 +257,9 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", x), kwd_parent);
+    if (!tup) {
+        return NULL;
+    }
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
     if (e == Py_None) {
-- 
2.43.0


From 0d92476e8cebafc8e1c58a85022932367125b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 079/156] fix: own the keys, data and nodes which the C++
 search trees keep or return

---
 .../trees/_backend/cpp/BinarySearchTree.hpp          | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 7b34288..23470e9 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -156,12 +156,15 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
     }
     BinaryTree* bt = self->binary_tree;
     if (res != Py_None) {
+        Py_INCREF(data);
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(res)])->data = data;
         Py_RETURN_NONE;
     }
 
     PyObject* walk = get_position(PyLong_AsLong(bt->root_idx));
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key == Py_None) {
+        Py_INCREF(key);
+        Py_INCREF(data);
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key = key;
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->data = data;
         Py_RETURN_NONE;
@@ -371,7 +374,9 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
     }
     if (is_bound_key) {
         if (is_upper == Py_False) {
-            return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
+            PyObject* bound = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
+            Py_INCREF(bound);
+            return bound;
         }
         else {
             return BinarySearchTree__bound_helper(self, Py_BuildValue("(OOO)",reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->right, bound_key, is_upper));
@@ -403,7 +408,9 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
             return res_bound;
         }
         else {
-            return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
+            PyObject* bound = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
+            Py_INCREF(bound);
+            return bound;
         }
     }
 }
@@ -657,6 +664,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
     while (walk != Py_None) {
         long l = BinarySearchTree_left_size(self, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)]));
         if (i == l) {
+            Py_INCREF(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)]);
             return bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)];
         }
         PyObject* left_walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
-- 
2.43.0


From a2204685d03b683dd4790d3486289c1f900a9cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 080/156] fix: link new nodes of C++ search trees to the
 position where they are stored

---
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 23470e9..56d9ffa 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -139,6 +139,17 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     Py_RETURN_NONE; // dummy return statement, never executed
 }
 
+// Appends the node to the array of nodes and returns the position of its parent.
+static PyObject* BinarySearchTree__append_node(BinarySearchTree* self, TreeNode* new_node) {
+    BinaryTree* bt = self->binary_tree;
+    PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
+    PyObject* new_indices = ArrayForTrees_append(bt->tree, Py_BuildValue("[O]", reinterpret_cast<PyObject*>(new_node)));
+    if (new_indices != Py_None) {
+        bt->root_idx = PyDict_GetItem(new_indices, root_key);
+    }
+    return new_node->parent;
+}
+
 static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args) {
     Py_INCREF(Py_None);
     PyObject* key = Py_None;
@@ -198,8 +209,8 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
         if (comp==0) {
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right == Py_None) {
                 new_node->parent = prev_node;
-                ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right = get_position(bt->size);
+                walk = BinarySearchTree__append_node(self, new_node);
+                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right = get_position(bt->tree->_last_pos_filled);
                 bt->size = bt->size + 1;
                 flag = false;
             }
@@ -209,8 +220,8 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
         else {
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left == Py_None) {
                 new_node->parent = prev_node;
-                ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left = get_position(bt->size);
+                walk = BinarySearchTree__append_node(self, new_node);
+                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left = get_position(bt->tree->_last_pos_filled);
                 bt->size = bt->size + 1;
                 flag = false;
             }
-- 
2.43.0


From cc0bf3d6eac6477e7999ac6f2459f1eee8bd2aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 081/156] fix: let searches of empty C++ trees report no node
 and no parent

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 56d9ffa..696f96a 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -89,6 +89,9 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     PyObject* walk = bt->root_idx;
 
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key == Py_None) {
+        if (ret_parent!=Py_None && PyLong_AsLong(ret_parent)!=0) {
+            return Py_BuildValue("(OO)",Py_None,Py_None);
+        }
         Py_RETURN_NONE;
     }
 
-- 
2.43.0


From 54056fa2b90e436b96ca93e416a1794389606679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 082/156] fix: keep the links of C++ search trees when a node
 with one child is deleted

---
 .../trees/_backend/cpp/BinarySearchTree.hpp         | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 696f96a..b7d4657 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -333,11 +333,20 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->key;
             Py_INCREF(Py_None);
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->parent = Py_None;
+            TreeNode* root = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)]);
+            if (root->left != Py_None) {
+                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(root->left)])->parent = bt->root_idx;
+            }
+            if (root->right != Py_None) {
+                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(root->right)])->parent = bt->root_idx;
+            }
             PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",child));
             if (new_indices != Py_None) {
                 bt->root_idx = PyDict_GetItem(new_indices, root_key);
             }
+            a = bt->root_idx;
+            BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
         }
         else {
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left == walk) {
@@ -352,9 +361,7 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",walk));
             if (new_indices != Py_None) {
-                parent = PyDict_GetItem(new_indices, par_key);
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->parent = PyDict_GetItem(new_indices, root_key);
-                a = PyDict_GetItem(new_indices, root_key);
+                a = PyDict_GetItem(new_indices, par_key);
                 bt->root_idx = PyDict_GetItem(new_indices, root_key);
             }
             BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
-- 
2.43.0


From a8ab1fe0ce47dcce52d7678b200a1146f5194edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 083/156] fix: find the lowest common ancestor in C++ search
 trees with any keys and shape

---
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 53 +++++++++++--------
 .../_backend/cpp/SelfBalancingBinaryTree.hpp  |  4 +-
 2 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index b7d4657..38ef405 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -476,22 +476,28 @@ static PyObject* BinarySearchTree__simple_path(BinarySearchTree* self, PyObject
     if (node_idx == -1) {
         return path;
     }
-    while (node_idx != 0) {
-        PyList_Append(path, get_position(node_idx));
-        node_idx = PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node_idx])->parent);
+    PyObject* walk = get_position(node_idx);
+    while (walk != Py_None) {
+        PyList_Append(path, walk);
+        walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->parent;
     }
-    PyList_Append(path, get_position(0));
     PyList_Reverse(path);
     return path;
 }
 
+static PyObject* get_key(BinaryTree* bt, PyObject* position) {
+    PyObject* key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(position)])->key;
+    Py_INCREF(key);
+    return key;
+}
+
 static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args) {
-    long j = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    long k = PyLong_AsLong(PyObject_GetItem(args, PyOne));
+    PyObject* key1 = PyObject_GetItem(args, PyZero);
+    PyObject* key2 = PyObject_GetItem(args, PyOne);
     BinaryTree* bt = self->binary_tree;
     PyObject* root = bt->root_idx;
-    PyObject* path1 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",PyLong_FromLong(j),root));
-    PyObject* path2 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",PyLong_FromLong(k),root));
+    PyObject* path1 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",key1,root));
+    PyObject* path2 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",key2,root));
     if (!path1 || !path2) {
         return NULL;
     }
@@ -502,26 +508,19 @@ static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args)
         return NULL;
     }
     long i = 0;
-    j = 0;
+    long j = 0;
     while (i<n && j<m) {
         if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) != PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
-            return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i-1))))])->key;
+            return get_key(bt, PyList_GetItem(path1, i-1));
         }
         i += 1;
         j += 1;
     }
 
-    while (i<n && j<m) {
-        if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) < PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
-            return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(n-1))))])->key;
-        }
-        else if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) > PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
-            break;
-        }
-        i += 1;
-        j += 1;
+    if (n < m) {
+        return get_key(bt, PyList_GetItem(path1, n-1));
     }
-    return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(m-1))))])->key;
+    return get_key(bt, PyList_GetItem(path2, m-1));
 }
 
 static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args) {
@@ -544,6 +543,10 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         return NULL;
     }
 
+    if (curr_root == u || curr_root == v) {
+        return get_key(bt, curr_root);
+    }
+
     if (!PyCallable_Check(bt->comparator)) {
         PyErr_SetString(PyExc_ValueError, "comparator should be callable");
         return NULL;
@@ -588,7 +591,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
             if (curr_root == Py_None) {
                 Py_RETURN_NONE;
             }
-            return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
+            return get_key(bt, curr_root);
         }
 
         if (!PyCallable_Check(bt->comparator)) {
@@ -627,7 +630,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
     if (curr_root == Py_None) {
         Py_RETURN_NONE;
     }
-    return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
+    return get_key(bt, curr_root);
 }
 
 static PyObject* BinarySearchTree_lowest_common_ancestor(BinarySearchTree* self, PyObject* args) {
@@ -640,7 +643,11 @@ static PyObject* BinarySearchTree_lowest_common_ancestor(BinarySearchTree* self,
         return NULL;
     }
 
-    if (algorithm == PyOne) {
+    int is_first = PyObject_RichCompareBool(algorithm, PyOne, Py_EQ);
+    if (is_first == -1) {
+        return NULL;
+    }
+    if (is_first) {
         return BinarySearchTree__lca_1(self, Py_BuildValue("(OO)",j,k));
     }
     else {
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index a82ff4d..b96f35f 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -64,11 +64,11 @@ static PyObject* SelfBalancingBinaryTree__simple_path(SelfBalancingBinaryTree* s
 }
 
 static PyObject* SelfBalancingBinaryTree__lca_1(SelfBalancingBinaryTree* self, PyObject *args) {
-    return BinarySearchTree__simple_path(self->bst, args);
+    return BinarySearchTree__lca_1(self->bst, args);
 }
 
 static PyObject* SelfBalancingBinaryTree__lca_2(SelfBalancingBinaryTree* self, PyObject *args) {
-    return BinarySearchTree__simple_path(self->bst, args);
+    return BinarySearchTree__lca_2(self->bst, args);
 }
 
 static PyObject* SelfBalancingBinaryTree_lowest_common_ancestor(SelfBalancingBinaryTree* self, PyObject *args) {
-- 
2.43.0


From 170ada5c63d6fff45213450a24ad65f8ade862b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 084/156] fix: reject selecting from empty C++ trees and from
 trees without sizes

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 38ef405..d6b5708 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -684,7 +684,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
         return NULL;
     }
     BinaryTree* bt = self->binary_tree;
-    if (i >= bt->tree->_num) {
+    if (i >= bt->tree->_num || get_key(bt, bt->root_idx) == Py_None) {
         PyErr_SetString(PyExc_ValueError, "Integer passed to select() is greater than the size of the tree.");
         return NULL;
     }
@@ -701,7 +701,11 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
             PyErr_SetString(PyExc_IndexError, "The traversal is terminated due to no child nodes ahead.");
             return NULL;
         }
-        if (i < l) {
+        if (i >= l && right_walk == Py_None) {
+            walk = left_walk;
+            i = i - (l + 1);
+        }
+        else if (i < l) {
             if (!PyCallable_Check(bt->comparator)) {
                 PyErr_SetString(PyExc_ValueError, "comparator should be callable");
                 return NULL;
-- 
2.43.0


From 2ad98adee71f27ac0d07cca210484f2cef1d3e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 085/156] fix: update the sizes of subtrees when C++ trees
 rotate

---
 .../trees/_backend/cpp/SelfBalancingBinaryTree.hpp          | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index b96f35f..1c958bf 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -107,6 +107,7 @@ static PyObject* SelfBalancingBinaryTree__right_rotate(SelfBalancingBinaryTree*
     if (kp == Py_None) {
         bt->root_idx = k;
     }
+    BinarySearchTree__update_size(self->bst, Py_BuildValue("(O)", j));
     Py_RETURN_NONE;
 }
 
@@ -134,6 +135,7 @@ static PyObject* SelfBalancingBinaryTree__left_rotate(SelfBalancingBinaryTree* s
     if (kp == Py_None) {
         bt->root_idx = k;
     }
+    BinarySearchTree__update_size(self->bst, Py_BuildValue("(O)", j));
     Py_RETURN_NONE;
 }
 
@@ -175,6 +177,8 @@ static PyObject* SelfBalancingBinaryTree__left_right_rotate(SelfBalancingBinaryT
     else {
         bt->root_idx = i;
     }
+    BinarySearchTree__update_size(self->bst, Py_BuildValue("(O)", k));
+    BinarySearchTree__update_size(self->bst, Py_BuildValue("(O)", j));
     Py_RETURN_NONE;
 }
 
@@ -216,6 +220,8 @@ static PyObject* SelfBalancingBinaryTree__right_left_rotate(SelfBalancingBinaryT
     else {
         bt->root_idx = i;
     }
+    BinarySearchTree__update_size(self->bst, Py_BuildValue("(O)", k));
+    BinarySearchTree__update_size(self->bst, Py_BuildValue("(O)", j));
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 2ce76d8b5cbaa3bd8b97a91cd1112834be54583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 086/156] fix: balance C++ AVL trees from the inserted node and
 ignore absent keys

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index c0fb04a..e68d95d 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -239,8 +239,11 @@ static PyObject* AVLTree_insert(AVLTree* self, PyObject *args) {
         return NULL;
     }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
-    long s = bt->size - 1;
-    AVLTree__balance_insertion(self, Py_BuildValue("(OO)", get_position(s), reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[s])->parent));
+    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (!node_idx) {
+        return NULL;
+    }
+    AVLTree__balance_insertion(self, Py_BuildValue("(OO)", node_idx, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->parent));
 
     Py_RETURN_NONE;
 }
@@ -300,6 +303,11 @@ static PyObject* AVLTree__balance_delete(AVLTree* self, PyObject *args) {
 static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
     PyObject* key = PyObject_GetItem(args, PyZero);
 
+    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (!node_idx || node_idx == Py_None) {
+        return node_idx;
+    }
+
     PyObject* kwd_bal = PyDict_New();
     PyDict_SetItemString(kwd_bal, "balancing_info", PyLong_FromLong(1));
     PyObject* a = SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", key), kwd_bal);
-- 
2.43.0


From c4ff1d4d4827d2b9c863d6145dcc499901caa145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 087/156] fix: leave the parents of other nodes alone when
 inserting into C++ splay trees

---
 pydatastructs/trees/_backend/cpp/SplayTree.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 22c8db5..1d8cb7c 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -138,7 +138,6 @@ static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), kwd_parent);
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
-    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[bt->size-1])->parent = p;
     SplayTree_splay(self, Py_BuildValue("(OO)", e, p));
 
     Py_RETURN_NONE;
-- 
2.43.0


From 6d8d77d1fb31ff6e709aff40127e41aba27695fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 088/156] fix: keep the comparator options and the node count
 when C++ splay trees are split

---
 pydatastructs/trees/_backend/cpp/SplayTree.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 1d8cb7c..f671f70 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -275,20 +275,18 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
             PyErr_SetString(PyExc_ValueError, "comparator should be callable");
             return NULL;
     }
-    SplayTree* other = reinterpret_cast<SplayTree*>(SplayTree___new__(self->type, Py_BuildValue("(OOOO)", Py_None, Py_None, bt->comparator, PyZero), PyDict_New()));
+    SplayTree* other = reinterpret_cast<SplayTree*>(SplayTree___new__(self->type, Py_BuildValue("(OOOO)", Py_None, Py_None, bt->comparator, bt->is_order_statistic ? PyOne : PyZero), PyDict_New()));
 
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right != Py_None) {
         PyObject* elements = SplayTree__pre_order(self, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right));
+        PyObject* keys = PyList_New(0);
         for (int i=0; i<PyList_Size(elements); i++) {
+            PyList_Append(keys, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key);
             SelfBalancingBinaryTree_insert(other->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data));
         }
         for (int j=PyList_Size(elements)-1; j>-1; j--) {
-            tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, j))->key), kwd_parent);
-            e = PyTuple_GetItem(tup, 0);
-            p = PyTuple_GetItem(tup, 1);
-            bt->tree->_one_dimensional_array->_data[PyLong_AsLong(e)] = Py_None;
+            SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", PyList_GetItem(keys, j)), PyDict_New());
         }
-        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = Py_None;
     }
 
     return reinterpret_cast<PyObject*>(other);
-- 
2.43.0


From 90082e37d7f5169a2d04f21318724b8e31371577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 089/156] fix: link the nodes of both trees when C++ splay
 trees are joined

---
 .../trees/_backend/cpp/SplayTree.hpp          | 103 ++++++++++++------
 1 file changed, 71 insertions(+), 32 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index f671f70..6fe2c15 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -164,11 +164,44 @@ static PyObject* SplayTree_delete(SplayTree *self, PyObject* args) {
     return status;
 }
 
+static PyObject* SplayTree__pre_order(SplayTree* self, PyObject *args) {
+    long node = PyLong_AsLong(PyObject_GetItem(args, PyZero));
+    PyObject* visit = PyList_New(0);
+    ArrayForTrees* tree = self->sbbt->bst->binary_tree->tree;
+    long size = self->sbbt->bst->binary_tree->size;
+    std::stack<long> s;
+    s.push(node);
+
+    while (!s.empty()) {
+        node = s.top();
+        s.pop();
+        TreeNode* curr_node = reinterpret_cast<TreeNode*>(tree->_one_dimensional_array->_data[node]);
+        PyList_Append(visit, reinterpret_cast<PyObject*>(curr_node));
+        if (curr_node->right != Py_None) {
+            s.push(PyLong_AsLong(curr_node->right));
+        }
+        if (curr_node->left != Py_None) {
+            s.push(PyLong_AsLong(curr_node->left));
+        }
+    }
+    return visit;
+}
+
 static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
     SplayTree* other = reinterpret_cast<SplayTree*>(PyObject_GetItem(args, PyZero));
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     BinaryTree* obt = other->sbbt->bst->binary_tree;
 
+    if (reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(obt->root_idx)])->key == Py_None) {
+        Py_RETURN_NONE;
+    }
+    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key == Py_None) {
+        PyObject* elements = SplayTree__pre_order(other, Py_BuildValue("(O)", obt->root_idx));
+        for (int i=0; i<PyList_Size(elements); i++) {
+            SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data));
+        }
+        Py_RETURN_NONE;
+    }
     PyObject* maxm = bt->root_idx;
     while (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->right != Py_None) {
         maxm = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->right;
@@ -199,7 +232,8 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
     }
 
     SplayTree_splay(self, Py_BuildValue("(OO)", maxm, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->parent));
-    long idx_update = bt->tree->_one_dimensional_array->_size;
+    PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
+    PyObject* new_indices;
     long n = obt->tree->_one_dimensional_array->_size;
     for (int i=0; i<n; i++) {
         PyObject* node = obt->tree->_one_dimensional_array->_data[i];
@@ -209,44 +243,49 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
                 return NULL;
             }
             TreeNode* node_copy = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", treenode->key, treenode->data), PyDict_New()));
-            if (treenode->left != Py_None) {
-                node_copy->left = get_position(PyLong_AsLong(treenode->left) + idx_update);
-            }
-            if (treenode->right != Py_None) {
-                node_copy->right = get_position(PyLong_AsLong(treenode->right) + idx_update);
-            }
-            ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node_copy));
+            new_indices = ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node_copy));
         }
         else {
-            ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node));
+            new_indices = ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node));
+            bt->tree->_num -= 1;
+        }
+        if (new_indices != Py_None) {
+            bt->root_idx = PyDict_GetItem(new_indices, root_key);
         }
+        bt->size = bt->size + 1;
     }
-    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = get_position(PyLong_AsLong(obt->root_idx) + idx_update);
-
-    Py_RETURN_NONE;
-}
-
-static PyObject* SplayTree__pre_order(SplayTree* self, PyObject *args) {
-    long node = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    PyObject* visit = PyList_New(0);
-    ArrayForTrees* tree = self->sbbt->bst->binary_tree->tree;
-    long size = self->sbbt->bst->binary_tree->size;
-    std::stack<long> s;
-    s.push(node);
-
-    while (!s.empty()) {
-        node = s.top();
-        s.pop();
-        TreeNode* curr_node = reinterpret_cast<TreeNode*>(tree->_one_dimensional_array->_data[node]);
-        PyList_Append(visit, reinterpret_cast<PyObject*>(curr_node));
-        if (curr_node->right != Py_None) {
-            s.push(PyLong_AsLong(curr_node->right));
+    // The nodes are linked after all of them are in place because
+    // appending can move the nodes which are already there.
+    PyObject** data = bt->tree->_one_dimensional_array->_data;
+    PyObject* new_idx = PyDict_New();
+    for (long i=0; i<=bt->tree->_last_pos_filled; i++) {
+        if (data[i] != Py_None) {
+            PyDict_SetItem(new_idx, reinterpret_cast<TreeNode*>(data[i])->key, get_position(i));
         }
-        if (curr_node->left != Py_None) {
-            s.push(PyLong_AsLong(curr_node->left));
+    }
+    for (int i=0; i<n; i++) {
+        if (obt->tree->_one_dimensional_array->_data[i] == Py_None) {
+            continue;
+        }
+        TreeNode* treenode = reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[i]);
+        PyObject* node_idx = PyDict_GetItem(new_idx, treenode->key);
+        TreeNode* node_copy = reinterpret_cast<TreeNode*>(data[PyLong_AsLong(node_idx)]);
+        if (treenode->left != Py_None) {
+            node_copy->left = PyDict_GetItem(new_idx, reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(treenode->left)])->key);
+            reinterpret_cast<TreeNode*>(data[PyLong_AsLong(node_copy->left)])->parent = node_idx;
+        }
+        if (treenode->right != Py_None) {
+            node_copy->right = PyDict_GetItem(new_idx, reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(treenode->right)])->key);
+            reinterpret_cast<TreeNode*>(data[PyLong_AsLong(node_copy->right)])->parent = node_idx;
         }
+        node_copy->size = treenode->size;
     }
-    return visit;
+    TreeNode* root = reinterpret_cast<TreeNode*>(data[PyLong_AsLong(bt->root_idx)]);
+    root->right = PyDict_GetItem(new_idx, reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(obt->root_idx)])->key);
+    reinterpret_cast<TreeNode*>(data[PyLong_AsLong(root->right)])->parent = bt->root_idx;
+    BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
+
+    Py_RETURN_NONE;
 }
 
 static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
-- 
2.43.0


From 942313307058fdb594d7b16aaf81f5dfcfb3ecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 090/156] fix: keep the heap order in C++ Cartesian trees when
 keys are inserted again or the root is given

---
 .../trees/_backend/cpp/CartesianTree.hpp      | 64 +++++++++++--------
 pydatastructs/trees/_backend/cpp/Treap.hpp    |  1 +
 2 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index b95b570..d46c056 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -5,6 +5,7 @@
 #include <Python.h>
 #include <structmember.h>
 #include <cstdlib>
+#include <limits>
 #include "../../../utils/_backend/cpp/utils.hpp"
 #include "../../../utils/_backend/cpp/TreeNode.hpp"
 #include "../../../linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp"
@@ -32,6 +33,10 @@ static PyObject* CartesianTree___new__(PyTypeObject* type, PyObject *args, PyObj
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
+    // A root which is given without priority stays above all other nodes.
+    TreeNode* root = reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[0]);
+    root->isCartesianTreeNode = true;
+    root->priority = -std::numeric_limits<double>::infinity();
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -47,6 +52,7 @@ static PyObject* CartesianTree_search(CartesianTree* self, PyObject *args, PyObj
 static PyObject* Cartesian_Tree__bubble_up(CartesianTree* self, PyObject *args) {
     PyObject* node_idx = PyObject_GetItem(args, PyZero);
     BinaryTree* bt = self->sbbt->bst->binary_tree;
+    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->is_root = false;
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
     PyObject* parent_idx = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->parent;
     TreeNode* parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)]);
@@ -64,9 +70,7 @@ static PyObject* Cartesian_Tree__bubble_up(CartesianTree* self, PyObject *args)
             parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)]);
         }
     }
-    if (node->parent == Py_None) {
-        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->is_root = true;
-    }
+    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->is_root = true;
     Py_RETURN_NONE;
 }
 
@@ -92,6 +96,27 @@ static PyObject* Cartesian_Tree__trickle_down(CartesianTree* self, PyObject *arg
     Py_RETURN_NONE;
 }
 
+static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObject *kwds) {
+    Py_INCREF(Py_None);
+    PyObject* key = Py_None;
+    PyObject* balancing_info = PyZero;
+    static char* keywords[] = {"key","balancing_info", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &balancing_info)) {
+        return NULL;
+    }
+    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (!node_idx) {
+        return NULL;
+    }
+    if (node_idx != Py_None) {
+        Cartesian_Tree__trickle_down(self, Py_BuildValue("(O)", node_idx));
+        PyObject* kwd_bal = PyDict_New();
+        PyDict_SetItemString(kwd_bal, "balancing_info", balancing_info);
+        return SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", key), kwd_bal);
+    }
+    Py_RETURN_NONE;
+}
+
 static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     Py_INCREF(Py_None);
     PyObject* key = Py_None;
@@ -103,7 +128,14 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
         return NULL;
     }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
+    double new_priority = PyFloat_AsDouble(priority);
+    if (new_priority == -1.0 && PyErr_Occurred()) {
+        return NULL;
+    }
 
+    if (!CartesianTree_delete(self, Py_BuildValue("(O)", key), PyDict_New())) {
+        return NULL;
+    }
     if (!SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data))) {
         return NULL;
     }
@@ -114,12 +146,13 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     }
     TreeNode* new_node = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", key, data), PyDict_New()));
     new_node->isCartesianTreeNode = true;
-    new_node->priority = PyFloat_AsDouble(priority);
+    new_node->priority = new_priority;
     new_node->parent = node->parent;
     new_node->left = node->left;
     new_node->right = node->right;
+    new_node->size = node->size;
     bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)] = reinterpret_cast<PyObject*>(new_node);
-    if (node->is_root) {
+    if (node->parent == Py_None) {
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->is_root = true;
     }
     else {
@@ -128,27 +161,6 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     Py_RETURN_NONE;
 }
 
-static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObject *kwds) {
-    Py_INCREF(Py_None);
-    PyObject* key = Py_None;
-    PyObject* balancing_info = PyZero;
-    static char* keywords[] = {"key","balancing_info", NULL};
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &balancing_info)) {
-        return NULL;
-    }
-    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
-    if (!node_idx) {
-        return NULL;
-    }
-    if (node_idx != Py_None) {
-        Cartesian_Tree__trickle_down(self, Py_BuildValue("(O)", node_idx));
-        PyObject* kwd_bal = PyDict_New();
-        PyDict_SetItemString(kwd_bal, "balancing_info", balancing_info);
-        return SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", key), kwd_bal);
-    }
-    Py_RETURN_NONE;
-}
-
 static PyObject* CartesianTree_root_idx(CartesianTree *self, void *closure) {
     Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index 932981f..0e2e581 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -33,6 +33,7 @@ static PyObject* Treap___new__(PyTypeObject* type, PyObject *args, PyObject *kwd
     PyObject* p = CartesianTree___new__(&CartesianTreeType, args, kwds);
     self->ct = reinterpret_cast<CartesianTree*>(p);
     self->tree = reinterpret_cast<CartesianTree*>(p)->sbbt->bst->binary_tree->tree;
+    reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[0])->priority = ((double) rand() / (RAND_MAX));
 
     return reinterpret_cast<PyObject*>(self);
 }
-- 
2.43.0


From c7e42e9a6d82ec251b5c52e15654484af4843802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 091/156] fix: keep the links and colours of C++ red black
 trees

---
 .../trees/_backend/cpp/RedBlackTree.hpp       | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 3dff1d4..27ba804 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -32,6 +32,7 @@ static PyObject* RedBlackTree___new__(PyTypeObject* type, PyObject *args, PyObje
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
+    reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[0])->color = 0;
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -165,9 +166,13 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
-    if (!SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data))) {
+    PyObject* present_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (!present_idx || !SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data))) {
         return NULL;
     }
+    if (present_idx != Py_None) {
+        Py_RETURN_NONE;
+    }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
@@ -180,9 +185,10 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     new_node->parent = node->parent;
     new_node->left = node->left;
     new_node->right = node->right;
+    new_node->size = node->size;
     bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)] = reinterpret_cast<PyObject*>(new_node);
 
-    if (node->is_root) {
+    if (node->parent == Py_None) {
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->is_root = true;
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->color = 0;
     }
@@ -243,12 +249,11 @@ static PyObject* RedBlackTree__transplant_values(RedBlackTree* self, PyObject *a
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx1)])->parent;
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx1)])->is_root == true && RedBlackTree__has_one_child(self, Py_BuildValue("(O)", node_idx1)) == Py_True) {
+    if (parent == Py_None && RedBlackTree__has_one_child(self, Py_BuildValue("(O)", node_idx1)) == Py_True) {
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx2)])->key;
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->data = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx2)])->data;
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->left = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx2)])->left;
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx2)])->right;
-        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx1)])->parent == Py_None;
 
         return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
     }
@@ -452,6 +457,10 @@ static PyObject* RedBlackTree__remove_node(RedBlackTree* self, PyObject *args) {
         PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
         PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
         PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)", node_idx));
+        if (new_indices != Py_None) {
+            a = PyDict_GetItem(new_indices, par_key);
+            bt->root_idx = PyDict_GetItem(new_indices, root_key);
+        }
     }
     BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", a));
     Py_RETURN_NONE;
@@ -472,6 +481,7 @@ static PyObject* RedBlackTree__delete_root(RedBlackTree* self, PyObject *args) {
         if (new_indices != Py_None) {
             bt->root_idx = PyDict_GetItem(new_indices, root_key);
         }
+        BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
     }
     Py_RETURN_NONE;
 }
@@ -529,13 +539,13 @@ static PyObject* RedBlackTree___one_child_case(RedBlackTree* self, PyObject *arg
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->right = walk1;
         }
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk1)])->parent = parent;
-        PyObject* a = RedBlackTree__remove_node(self, Py_BuildValue("(O)", walk));
         if (RedBlackTree___walk1_walk_isblack(self, Py_BuildValue("(OO)", PyLong_FromLong(walk_original_color), walk1)) == Py_True) {
             RedBlackTree___fix_deletion(self, Py_BuildValue("(O)", walk1));
         }
         else {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk1)])->color = 0;
         }
+        RedBlackTree__remove_node(self, Py_BuildValue("(O)", walk));
     }
     Py_RETURN_NONE;
 }
-- 
2.43.0


From dad0bed8f22311841081845b9972142febeaefe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 092/156] fix: keep the tree of a C++ traversal alive and
 support treaps

---
 .../trees/_backend/cpp/BinarySearchTree.hpp         |  2 +-
 .../trees/_backend/cpp/BinaryTreeTraversal.hpp      | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index d6b5708..dd5ebcf 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -18,7 +18,7 @@ typedef struct {
 } BinarySearchTree;
 
 static void BinarySearchTree_dealloc(BinarySearchTree *self) {
-    BinaryTree_dealloc(self->binary_tree);
+    Py_XDECREF(self->binary_tree);
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
index b430706..edb8597 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
@@ -18,6 +18,7 @@
 #include "SplayTree.hpp"
 #include "AVLTree.hpp"
 #include "CartesianTree.hpp"
+#include "Treap.hpp"
 
 typedef struct {
     PyObject_HEAD
@@ -25,7 +26,7 @@ typedef struct {
 } BinaryTreeTraversal;
 
 static void BinaryTreeTraversal_dealloc(BinaryTreeTraversal *self) {
-    BinaryTree_dealloc(self->tree);
+    Py_XDECREF(self->tree);
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
@@ -53,7 +54,14 @@ static PyObject* BinaryTreeTraversal___new__(PyTypeObject* type, PyObject *args,
         return NULL;
     }
 
-    if (PyObject_IsInstance(tree, (PyObject *)&SplayTreeType)) {
+    if (PyType_Ready(&TreapType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
+        return NULL;
+    }
+
+    if (PyObject_IsInstance(tree, (PyObject *)&TreapType)) {
+        self->tree = reinterpret_cast<Treap*>(tree)->ct->sbbt->bst->binary_tree;
+    }
+    else if (PyObject_IsInstance(tree, (PyObject *)&SplayTreeType)) {
         self->tree = reinterpret_cast<SplayTree*>(tree)->sbbt->bst->binary_tree;
     }
     else if (PyObject_IsInstance(tree, (PyObject *)&AVLTreeType)) {
@@ -75,6 +83,7 @@ static PyObject* BinaryTreeTraversal___new__(PyTypeObject* type, PyObject *args,
         PyErr_SetString(PyExc_ValueError, "Not a supported type for BinaryTreeTraversal.");
         return NULL;
     }
+    Py_INCREF(self->tree);
     return reinterpret_cast<PyObject*>(self);
 }
 
-- 
2.43.0


From 8b62824b5c44d50f12ae45378f42969ebe6f2355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 093/156] fix: take the arguments of C++ traversals in the
 documented order

---
 pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
index edb8597..241b01f 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
@@ -184,8 +184,8 @@ static PyObject* BinaryTreeTraversal_depth_first_search(BinaryTreeTraversal* sel
     Py_INCREF(Py_None);
     PyObject* node = Py_None;
     PyObject* order = PyUnicode_FromString("in_order");
-    static char* keywords[] = {"node","order", NULL};
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "|OO", keywords, &node, &order)) {
+    static char* keywords[] = {"order","node", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "|UO", keywords, &order, &node)) {
         return NULL;
     }
     if (node == Py_None) {
@@ -214,7 +214,7 @@ static PyObject* BinaryTreeTraversal_breadth_first_search(BinaryTreeTraversal* s
     PyObject* node = Py_None;
     PyObject* strategy = PyUnicode_FromString("queue");
     static char* keywords[] = {"node","strategy", NULL};
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "|OO", keywords, &node, &strategy)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "|OU", keywords, &node, &strategy)) {
         return NULL;
     }
     if (PyUnicode_Compare(strategy, PyUnicode_FromString("queue")) == 0) {
-- 
2.43.0


From fdfb20c54685cab1535c5588cc5805b81dab871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:05 +0000
Subject: [PATCH 094/156] fix: raise the errors of tree constructors in the C++
 backend

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp                 | 3 +++
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp        | 3 +++
 pydatastructs/trees/_backend/cpp/CartesianTree.hpp           | 3 +++
 pydatastructs/trees/_backend/cpp/RedBlackTree.hpp            | 3 +++
 pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp | 3 +++
 pydatastructs/trees/_backend/cpp/SplayTree.hpp               | 3 +++
 pydatastructs/trees/_backend/cpp/Treap.hpp                   | 3 +++
 7 files changed, 21 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index e68d95d..af3a780 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -30,6 +30,9 @@ static PyObject* AVLTree___new__(PyTypeObject* type, PyObject *args, PyObject *k
         return NULL;
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    if (!p) {
+        return NULL;
+    }
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->tree = self->sbbt->bst->binary_tree->tree;
 
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index dd5ebcf..4a75dcf 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -30,6 +30,9 @@ static PyObject* BinarySearchTree___new__(PyTypeObject* type, PyObject *args, Py
         return NULL;
     }
     PyObject* bt = BinaryTree___new__(&BinaryTreeType, args, kwds);
+    if (!bt) {
+        return NULL;
+    }
     self->binary_tree = reinterpret_cast<BinaryTree*>(bt);
     self->tree = reinterpret_cast<BinaryTree*>(bt)->tree;
 
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index d46c056..5c55950 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -31,6 +31,9 @@ static PyObject* CartesianTree___new__(PyTypeObject* type, PyObject *args, PyObj
         return NULL;
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    if (!p) {
+        return NULL;
+    }
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
     // A root which is given without priority stays above all other nodes.
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 27ba804..6e1f740 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -30,6 +30,9 @@ static PyObject* RedBlackTree___new__(PyTypeObject* type, PyObject *args, PyObje
         return NULL;
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    if (!p) {
+        return NULL;
+    }
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
     reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[0])->color = 0;
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index 1c958bf..6c27052 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -29,6 +29,9 @@ static PyObject* SelfBalancingBinaryTree___new__(PyTypeObject* type, PyObject *a
         return NULL;
     }
     PyObject* p = BinarySearchTree___new__(&BinarySearchTreeType, args, kwds);
+    if (!p) {
+        return NULL;
+    }
     self->bst = reinterpret_cast<BinarySearchTree*>(p);
     self->tree = reinterpret_cast<BinarySearchTree*>(p)->binary_tree->tree;
 
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 6fe2c15..d16be3f 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -32,6 +32,9 @@ static PyObject* SplayTree___new__(PyTypeObject* type, PyObject *args, PyObject
         return NULL;
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    if (!p) {
+        return NULL;
+    }
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
     self->type = type;
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index 0e2e581..c4ab855 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -31,6 +31,9 @@ static PyObject* Treap___new__(PyTypeObject* type, PyObject *args, PyObject *kwd
         return NULL;
     }
     PyObject* p = CartesianTree___new__(&CartesianTreeType, args, kwds);
+    if (!p) {
+        return NULL;
+    }
     self->ct = reinterpret_cast<CartesianTree*>(p);
     self->tree = reinterpret_cast<CartesianTree*>(p)->sbbt->bst->binary_tree->tree;
     reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[0])->priority = ((double) rand() / (RAND_MAX));
-- 
2.43.0


From 835cef23e8f6be8f34acc580acf49b305d233cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 095/156] fix: forward the inherited methods and attributes of
 C++ trees to their search tree

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp  |  6 +++
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 50 +++++++++++++++++++
 .../trees/_backend/cpp/CartesianTree.hpp      |  6 +++
 .../trees/_backend/cpp/RedBlackTree.hpp       |  6 +++
 .../_backend/cpp/SelfBalancingBinaryTree.hpp  |  5 ++
 .../trees/_backend/cpp/SplayTree.hpp          |  6 +++
 pydatastructs/trees/_backend/cpp/Treap.hpp    |  6 +++
 7 files changed, 85 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index af3a780..99e9f50 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -328,6 +328,10 @@ static PyObject* AVLTree_root_idx(AVLTree *self, void *closure) {
 }
 
 
+static BinarySearchTree* get_search_tree(AVLTree* self) {
+    return self->sbbt->bst;
+}
+
 static struct PyMethodDef AVLTree_PyMethodDef[] = {
     {"search", (PyCFunction) AVLTree_search, METH_VARARGS | METH_KEYWORDS, NULL},
     {"insert", (PyCFunction) AVLTree_insert, METH_VARARGS, NULL},
@@ -340,11 +344,13 @@ static struct PyMethodDef AVLTree_PyMethodDef[] = {
     {"_right_left_rotate", (PyCFunction) AVLTree__right_left_rotate, METH_VARARGS, NULL},
     {"_left_rotate", (PyCFunction) AVLTree__left_rotate, METH_VARARGS, NULL},
     {"_right_rotate", (PyCFunction) AVLTree__right_rotate, METH_VARARGS, NULL},
+    INHERITED_METHODS(AVLTree)
     {NULL}
 };
 
 static PyGetSetDef AVLTree_GetterSetters[] = {
     {"root_idx", (getter) AVLTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    INHERITED_ATTRIBUTES(AVLTree)
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 4a75dcf..a1aba16 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -767,6 +767,55 @@ static PyObject* BinarySearchTree_root_idx(BinarySearchTree *self, void *closure
 }
 
 
+// Every tree class keeps its nodes in a BinarySearchTree, therefore the methods
+// and the attributes which it inherits are forwarded to that tree.
+static BinarySearchTree* get_search_tree(BinarySearchTree* self) {
+    return self;
+}
+
+template <typename Tree, PyObject* (*method)(BinarySearchTree*, PyObject*)>
+static PyObject* forward_method(Tree* self, PyObject* args) {
+    return method(get_search_tree(self), args);
+}
+
+template <typename Tree, PyObject* (*method)(BinarySearchTree*, PyObject*, PyObject*)>
+static PyObject* forward_method(Tree* self, PyObject* args, PyObject* kwds) {
+    return method(get_search_tree(self), args, kwds);
+}
+
+template <typename Tree>
+static PyObject* forward_size(Tree* self, void *closure) {
+    return PyLong_FromLong(get_search_tree(self)->binary_tree->size);
+}
+
+template <typename Tree>
+static PyObject* forward_comparator(Tree* self, void *closure) {
+    PyObject* comparator = get_search_tree(self)->binary_tree->comparator;
+    Py_INCREF(comparator);
+    return comparator;
+}
+
+template <typename Tree>
+static PyObject* forward_is_order_statistic(Tree* self, void *closure) {
+    return PyBool_FromLong(get_search_tree(self)->binary_tree->is_order_statistic);
+}
+
+#define INHERITED_METHODS(Tree) \
+    {"search", (PyCFunction) (PyObject* (*)(Tree*, PyObject*, PyObject*)) forward_method<Tree, BinarySearchTree_search>, METH_VARARGS | METH_KEYWORDS, NULL}, \
+    {"lower_bound", (PyCFunction) (PyObject* (*)(Tree*, PyObject*, PyObject*)) forward_method<Tree, BinarySearchTree_lower_bound>, METH_VARARGS | METH_KEYWORDS, NULL}, \
+    {"upper_bound", (PyCFunction) (PyObject* (*)(Tree*, PyObject*, PyObject*)) forward_method<Tree, BinarySearchTree_upper_bound>, METH_VARARGS | METH_KEYWORDS, NULL}, \
+    {"_simple_path", (PyCFunction) (PyObject* (*)(Tree*, PyObject*)) forward_method<Tree, BinarySearchTree__simple_path>, METH_VARARGS, NULL}, \
+    {"_lca_1", (PyCFunction) (PyObject* (*)(Tree*, PyObject*)) forward_method<Tree, BinarySearchTree__lca_1>, METH_VARARGS, NULL}, \
+    {"_lca_2", (PyCFunction) (PyObject* (*)(Tree*, PyObject*)) forward_method<Tree, BinarySearchTree__lca_2>, METH_VARARGS, NULL}, \
+    {"lowest_common_ancestor", (PyCFunction) (PyObject* (*)(Tree*, PyObject*)) forward_method<Tree, BinarySearchTree_lowest_common_ancestor>, METH_VARARGS, NULL}, \
+    {"rank", (PyCFunction) (PyObject* (*)(Tree*, PyObject*)) forward_method<Tree, BinarySearchTree_rank>, METH_VARARGS, NULL}, \
+    {"select", (PyCFunction) (PyObject* (*)(Tree*, PyObject*)) forward_method<Tree, BinarySearchTree_select>, METH_VARARGS, NULL},
+
+#define INHERITED_ATTRIBUTES(Tree) \
+    {"size", (getter) forward_size<Tree>, NULL, "returns the size of the tree", NULL}, \
+    {"comparator", (getter) forward_comparator<Tree>, NULL, "returns the comparator function of the tree", NULL}, \
+    {"is_order_statistic", (getter) forward_is_order_statistic<Tree>, NULL, "returns whether the tree keeps order statistics", NULL},
+
 static struct PyMethodDef BinarySearchTree_PyMethodDef[] = {
     {"insert", (PyCFunction) BinarySearchTree_insert, METH_VARARGS | METH_KEYWORDS, NULL},
     {"delete", (PyCFunction) BinarySearchTree_delete, METH_VARARGS | METH_KEYWORDS, NULL},
@@ -784,6 +833,7 @@ static struct PyMethodDef BinarySearchTree_PyMethodDef[] = {
 
 static PyGetSetDef BinarySearchTree_GetterSetters[] = {
     {"root_idx", (getter) BinarySearchTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    INHERITED_ATTRIBUTES(BinarySearchTree)
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 5c55950..350db14 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -170,15 +170,21 @@ static PyObject* CartesianTree_root_idx(CartesianTree *self, void *closure) {
 }
 
 
+static BinarySearchTree* get_search_tree(CartesianTree* self) {
+    return self->sbbt->bst;
+}
+
 static struct PyMethodDef CartesianTree_PyMethodDef[] = {
     {"insert", (PyCFunction) CartesianTree_insert, METH_VARARGS, NULL},
     {"delete", (PyCFunction) CartesianTree_delete, METH_VARARGS | METH_KEYWORDS, NULL},
     {"search", (PyCFunction) CartesianTree_search, METH_VARARGS | METH_KEYWORDS, NULL},
+    INHERITED_METHODS(CartesianTree)
     {NULL} /* Sentinel */
 };
 
 static PyGetSetDef CartesianTree_GetterSetters[] = {
     {"root_idx", (getter) CartesianTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    INHERITED_ATTRIBUTES(CartesianTree)
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 6e1f740..c229d5c 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -606,6 +606,10 @@ static PyObject* RedBlackTree_root_idx(RedBlackTree *self, void *closure) {
 }
 
 
+static BinarySearchTree* get_search_tree(RedBlackTree* self) {
+    return self->sbbt->bst;
+}
+
 static struct PyMethodDef RedBlackTree_PyMethodDef[] = {
     {"insert", (PyCFunction) RedBlackTree_insert, METH_VARARGS, NULL},
     {"delete", (PyCFunction) RedBlackTree_delete, METH_VARARGS | METH_KEYWORDS, NULL},
@@ -616,11 +620,13 @@ static struct PyMethodDef RedBlackTree_PyMethodDef[] = {
     {"_get_grand_parent", (PyCFunction) RedBlackTree__get_grand_parent, METH_VARARGS, NULL},
     {"_get_sibling", (PyCFunction) RedBlackTree__get_sibling, METH_VARARGS, NULL},
     {"_get_uncle", (PyCFunction) RedBlackTree__get_uncle, METH_VARARGS, NULL},
+    INHERITED_METHODS(RedBlackTree)
     {NULL}
 };
 
 static PyGetSetDef RedBlackTree_GetterSetters[] = {
     {"root_idx", (getter) RedBlackTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    INHERITED_ATTRIBUTES(RedBlackTree)
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index 6c27052..9eed6e3 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -234,6 +234,10 @@ static PyObject* SelfBalancingBinaryTree_root_idx(SelfBalancingBinaryTree *self,
 }
 
 
+static BinarySearchTree* get_search_tree(SelfBalancingBinaryTree* self) {
+    return self->bst;
+}
+
 static struct PyMethodDef SelfBalancingBinaryTree_PyMethodDef[] = {
     {"insert", (PyCFunction) SelfBalancingBinaryTree_insert, METH_VARARGS | METH_KEYWORDS, NULL},
     {"delete", (PyCFunction) SelfBalancingBinaryTree_delete, METH_VARARGS | METH_KEYWORDS, NULL},
@@ -255,6 +259,7 @@ static struct PyMethodDef SelfBalancingBinaryTree_PyMethodDef[] = {
 
 static PyGetSetDef SelfBalancingBinaryTree_GetterSetters[] = {
     {"root_idx", (getter) SelfBalancingBinaryTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    INHERITED_ATTRIBUTES(SelfBalancingBinaryTree)
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index d16be3f..91d29b2 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -340,16 +340,22 @@ static PyObject* SplayTree_root_idx(SplayTree *self, void *closure) {
 }
 
 
+static BinarySearchTree* get_search_tree(SplayTree* self) {
+    return self->sbbt->bst;
+}
+
 static struct PyMethodDef SplayTree_PyMethodDef[] = {
     {"insert", (PyCFunction) SplayTree_insert, METH_VARARGS, NULL},
     {"delete", (PyCFunction) SplayTree_delete, METH_VARARGS, NULL},
     {"join", (PyCFunction) SplayTree_join, METH_VARARGS, NULL},
     {"split", (PyCFunction) SplayTree_split, METH_VARARGS, NULL},
+    INHERITED_METHODS(SplayTree)
     {NULL}
 };
 
 static PyGetSetDef SplayTree_GetterSetters[] = {
     {"root_idx", (getter) SplayTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    INHERITED_ATTRIBUTES(SplayTree)
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index c4ab855..d423837 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -72,15 +72,21 @@ static PyObject* Treap_root_idx(Treap *self, void *closure) {
 }
 
 
+static BinarySearchTree* get_search_tree(Treap* self) {
+    return self->ct->sbbt->bst;
+}
+
 static struct PyMethodDef Treap_PyMethodDef[] = {
     {"insert", (PyCFunction) Treap_insert, METH_VARARGS, NULL},
     {"delete", (PyCFunction) Treap_delete, METH_VARARGS | METH_KEYWORDS, NULL},
     {"search", (PyCFunction) Treap_search, METH_VARARGS | METH_KEYWORDS, NULL},
+    INHERITED_METHODS(Treap)
     {NULL} /* Sentinel */
 };
 
 static PyGetSetDef Treap_GetterSetters[] = {
     {"root_idx", (getter) Treap_root_idx, NULL, "returns the index of the tree's root", NULL},
+    INHERITED_ATTRIBUTES(Treap)
     {NULL}  /* Sentinel */
 };
 
-- 
2.43.0


From f412279308dea0d741c3722a152f67fd668355a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 096/156] fix: reject other objects with a TypeError in C++
 traversals

---
 pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
index 241b01f..a335434 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
@@ -80,7 +80,7 @@ static PyObject* BinaryTreeTraversal___new__(PyTypeObject* type, PyObject *args,
         self->tree = reinterpret_cast<BinarySearchTree*>(tree)->binary_tree;
     }
     else {
-        PyErr_SetString(PyExc_ValueError, "Not a supported type for BinaryTreeTraversal.");
+        PyErr_SetString(PyExc_TypeError, "Not a supported type for BinaryTreeTraversal.");
         return NULL;
     }
     Py_INCREF(self->tree);
-- 
2.43.0


From 5168c4f76564aeb9c5020e1a50f5edf368056cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 097/156] fix: key the edges of C++ graphs by unambiguous pairs
 of names

---
 pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp   | 10 ++++------
 pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp |  6 +++---
 pydatastructs/graphs/_backend/cpp/Algorithms.hpp      |  2 +-
 pydatastructs/utils/_backend/cpp/GraphEdge.hpp        |  5 +++++
 4 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
index ffbb6f4..66dec42 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
@@ -95,9 +95,7 @@ static PyObject* AdjacencyListGraph_new(PyTypeObject* type, PyObject* args, PyOb
     return reinterpret_cast<PyObject*>(self);
 }
 
-static std::string make_edge_key(const std::string& source, const std::string& target) {
-    return source + "_" + target;
-}
+
 
 static PyObject* AdjacencyListGraph_add_vertex(AdjacencyListGraph* self, PyObject* args) {
     PyObject* node_obj;
@@ -221,9 +219,9 @@ static PyObject* AdjacencyListGraph_remove_vertex(AdjacencyListGraph* self, PyOb
 
     for (auto it = self->edges.begin(); it != self->edges.end(); ) {
         const std::string& key = it->first;
-        size_t underscore = key.find('_');
-        std::string src = key.substr(0, underscore);
-        std::string dst = key.substr(underscore + 1);
+        size_t delim = key.find('\0');
+        std::string src = key.substr(0, delim);
+        std::string dst = key.substr(delim + 1);
 
         if (src == name || dst == name) {
             Py_XDECREF(it->second);
diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
index 7bd89d5..87dcf69 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
@@ -127,7 +127,7 @@ static PyObject* AdjacencyMatrixGraph_add_edge(AdjacencyMatrixGraph* self, PyObj
     Py_DECREF(args);
     if (!edge_obj) return NULL;
 
-    self->edge_weights[src + "_" + dst] = reinterpret_cast<GraphEdge*>(edge_obj);
+    self->edge_weights[make_edge_key(src, dst)] = reinterpret_cast<GraphEdge*>(edge_obj);
     }
 
     Py_RETURN_NONE;
@@ -144,7 +144,7 @@ static PyObject* AdjacencyMatrixGraph_remove_edge(AdjacencyMatrixGraph* self, Py
 
     if (self->matrix.find(src) != self->matrix.end()) {
         self->matrix[src][dst] = false;
-        self->edge_weights.erase(src + "_" + dst);
+        self->edge_weights.erase(make_edge_key(src, dst));
     }
 
     Py_RETURN_NONE;
@@ -199,7 +199,7 @@ static PyObject* AdjacencyMatrixGraph_get_edge(AdjacencyMatrixGraph* self, PyObj
     if (!PyArg_ParseTuple(args, "ss", &source, &target))
         return NULL;
 
-    std::string key = std::string(source) + "_" + std::string(target);
+    std::string key = make_edge_key(source, target);
     auto it = self->edge_weights.find(key);
     if (it != self->edge_weights.end()) {
         return reinterpret_cast<PyObject*>(it->second);
diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 2bb362c..810dadc 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -340,7 +340,7 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
 
     std::vector<std::vector<std::pair<int, double>>> adj(V);
     for (const auto& [edge_key, edge] : graph->edges) {
-        size_t delim = edge_key.find('_');
+        size_t delim = edge_key.find('\0');
         std::string u_name = edge_key.substr(0, delim);
         std::string v_name = edge_key.substr(delim + 1);
         int u = graph->name_to_id[u_name];
diff --git a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
index a1b5fa8..7e17ebb 100644
--- a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
@@ -18,6 +18,11 @@ typedef struct {
     DataType value_type;
 } GraphEdge;
 
+// Names are C strings, hence no name contains the separator.
+static std::string make_edge_key(const std::string& source, const std::string& target) {
+    return source + '\0' + target;
+}
+
 static void GraphEdge_dealloc(GraphEdge* self) {
     Py_XDECREF(self->source);
     Py_XDECREF(self->target);
-- 
2.43.0


From ced4786c14b7addda91fc09d4db3af2f84be523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 098/156] fix: count the references to edges and neighbours of
 C++ graphs

---
 pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp  |  3 ++-
 .../graphs/_backend/cpp/AdjacencyMatrix.hpp          | 12 +++++++++---
 .../utils/_backend/cpp/AdjacencyListGraphNode.hpp    |  4 +++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
index 66dec42..978d8d7 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
@@ -43,6 +43,8 @@ static void AdjacencyListGraph_dealloc(AdjacencyListGraph* self) {
     self->id_to_name.clear();
     self->name_to_id.clear();
 
+    Py_XDECREF(self->dict);
+
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
@@ -176,7 +178,6 @@ static PyObject* AdjacencyListGraph_neighbors(AdjacencyListGraph* self, PyObject
     if (!neighbors_list) return NULL;
 
     for (const auto& adj_pair : node->adjacent) {
-        Py_INCREF(adj_pair.second);
         PyList_Append(neighbors_list, (PyObject*)adj_pair.second);
     }
 
diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
index 87dcf69..a8c41f4 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
@@ -127,7 +127,9 @@ static PyObject* AdjacencyMatrixGraph_add_edge(AdjacencyMatrixGraph* self, PyObj
     Py_DECREF(args);
     if (!edge_obj) return NULL;
 
-    self->edge_weights[make_edge_key(src, dst)] = reinterpret_cast<GraphEdge*>(edge_obj);
+    GraphEdge*& edge = self->edge_weights[make_edge_key(src, dst)];
+    Py_XDECREF(edge);
+    edge = reinterpret_cast<GraphEdge*>(edge_obj);
     }
 
     Py_RETURN_NONE;
@@ -144,7 +146,11 @@ static PyObject* AdjacencyMatrixGraph_remove_edge(AdjacencyMatrixGraph* self, Py
 
     if (self->matrix.find(src) != self->matrix.end()) {
         self->matrix[src][dst] = false;
-        self->edge_weights.erase(make_edge_key(src, dst));
+        auto it = self->edge_weights.find(make_edge_key(src, dst));
+        if (it != self->edge_weights.end()) {
+            Py_DECREF(it->second);
+            self->edge_weights.erase(it);
+        }
     }
 
     Py_RETURN_NONE;
@@ -168,7 +174,6 @@ static PyObject* AdjacencyMatrixGraph_neighbors(AdjacencyMatrixGraph* self, PyOb
         if (pair.second) {
             const std::string& neighbor_name = pair.first;
             AdjacencyMatrixGraphNode* neighbor = self->node_map[neighbor_name];
-            Py_INCREF(neighbor);
             PyList_Append(list, (PyObject*)neighbor);
         }
     }
@@ -202,6 +207,7 @@ static PyObject* AdjacencyMatrixGraph_get_edge(AdjacencyMatrixGraph* self, PyObj
     std::string key = make_edge_key(source, target);
     auto it = self->edge_weights.find(key);
     if (it != self->edge_weights.end()) {
+        Py_INCREF(it->second);
         return reinterpret_cast<PyObject*>(it->second);
     }
     Py_RETURN_NONE;
diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
index 8eba375..e932cb7 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
@@ -109,7 +109,6 @@ static PyObject* AdjacencyListGraphNode_add_adjacent_node(AdjacencyListGraphNode
             return NULL;
         }
         self->adjacent[name] = new_node;
-        Py_INCREF(new_node);
     } else {
         Py_XDECREF(self->adjacent[name]);
         Py_INCREF(data);
@@ -213,6 +212,9 @@ static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyO
         return -1;
     }
 
+    for (auto& pair : self->adjacent) {
+        Py_XDECREF(pair.second);
+    }
     self->adjacent.clear();
 
     PyObject *key, *val;
-- 
2.43.0


From 0df44efa9ad819ec7e91cd36532888b3d6d59b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 099/156] fix: do not add an edge to a C++ matrix graph when
 its cost is rejected

---
 pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
index a8c41f4..7bce983 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
@@ -110,8 +110,6 @@ static PyObject* AdjacencyMatrixGraph_add_edge(AdjacencyMatrixGraph* self, PyObj
         return NULL;
     }
 
-    self->matrix[src][dst] = true;
-
     if (cost_obj != Py_None) {
     double cost = PyFloat_AsDouble(cost_obj);
     if (PyErr_Occurred()) return NULL;
@@ -132,6 +130,8 @@ static PyObject* AdjacencyMatrixGraph_add_edge(AdjacencyMatrixGraph* self, PyObj
     edge = reinterpret_cast<GraphEdge*>(edge_obj);
     }
 
+    self->matrix[src][dst] = true;
+
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From ec7287be22553e1f8bea922bef8ecc635ef9e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 100/156] fix: take the neighbours in C++ list graphs from the
 vertices of the graph

---
 pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
index 978d8d7..27b9494 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
@@ -158,7 +158,13 @@ static PyObject* AdjacencyListGraph_num_vertices(AdjacencyListGraph* self, PyObj
 }
 
 static PyObject* AdjacencyListGraph_num_edges(AdjacencyListGraph* self, PyObject* Py_UNUSED(ignored)) {
-    return PyLong_FromSize_t(self->edges.size());
+    size_t count = 0;
+    for (AdjacencyListGraphNode* node : self->nodes) {
+        for (const auto& adj_pair : node->adjacent) {
+            count += self->node_map.count(adj_pair.first);
+        }
+    }
+    return PyLong_FromSize_t(count);
 }
 
 static PyObject* AdjacencyListGraph_neighbors(AdjacencyListGraph* self, PyObject* args) {
@@ -178,7 +184,10 @@ static PyObject* AdjacencyListGraph_neighbors(AdjacencyListGraph* self, PyObject
     if (!neighbors_list) return NULL;
 
     for (const auto& adj_pair : node->adjacent) {
-        PyList_Append(neighbors_list, (PyObject*)adj_pair.second);
+        auto adj_it = self->node_map.find(adj_pair.first);
+        if (adj_it != self->node_map.end()) {
+            PyList_Append(neighbors_list, (PyObject*)adj_it->second);
+        }
     }
 
     return neighbors_list;
-- 
2.43.0


From f9aaaade86b4d64334cbb5ff63f0e227a9b56ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 101/156] fix: find C++ shortest paths after the removal of
 vertices

---
 pydatastructs/graphs/_backend/cpp/Algorithms.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 810dadc..47027ea 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -336,7 +336,15 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     }
 
     AdjacencyListGraph* graph = reinterpret_cast<AdjacencyListGraph*>(graph_obj);
-    const size_t V = graph->node_map.size();
+    for (const char* name : {source_name, target_name}) {
+        if ((name == source_name || strlen(name) > 0) && !graph->name_to_id.count(name)) {
+            PyErr_SetString(PyExc_KeyError, name);
+            return nullptr;
+        }
+    }
+
+    // removed vertices leave gaps in the ids
+    const size_t V = graph->next_id;
 
     std::vector<std::vector<std::pair<int, double>>> adj(V);
     for (const auto& [edge_key, edge] : graph->edges) {
@@ -386,8 +394,7 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     PyObject* pred_dict = PyDict_New();
     if (!dist_dict || !pred_dict) return nullptr;
 
-    for (int id = 0; id < static_cast<int>(V); ++id) {
-        const std::string& name = graph->id_to_name[id];
+    for (const auto& [id, name] : graph->id_to_name) {
         PyObject* dval = PyFloat_FromDouble(dist[id]);
         if (!dval || PyDict_SetItemString(dist_dict, name.c_str(), dval) < 0) {
             Py_XDECREF(dval);
@@ -398,8 +405,7 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
         Py_DECREF(dval);
     }
 
-    for (int id = 0; id < static_cast<int>(V); ++id) {
-        const std::string& name = graph->id_to_name[id];
+    for (const auto& [id, name] : graph->id_to_name) {
         PyObject* py_pred;
         if (pred[id] == -1) {
             Py_INCREF(Py_None);
-- 
2.43.0


From a155d266eea892d00bd4553c06912008cccc3cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 102/156] fix: raise a KeyError for an unknown source of the
 C++ breadth first search

---
 pydatastructs/graphs/_backend/cpp/Algorithms.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 47027ea..ce5dcc3 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -25,6 +25,10 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
 
     AdjacencyListGraph* cpp_graph = reinterpret_cast<AdjacencyListGraph*>(graph_obj);
     auto it = cpp_graph->node_map.find(source_name);
+    if (it == cpp_graph->node_map.end()) {
+        PyErr_SetString(PyExc_KeyError, "Source node not found in graph");
+        return nullptr;
+    }
     AdjacencyListGraphNode* start_node = it->second;
     std::unordered_set<std::string> visited;
     std::queue<AdjacencyListGraphNode*> q;
-- 
2.43.0


From 75cbde36a329940ab72727d3bd58324b5171a889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 103/156] fix: let the operation of a C++ breadth first search
 change the graph

---
 .../graphs/_backend/cpp/Algorithms.hpp        | 35 ++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index ce5dcc3..c58d8df 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -8,6 +8,20 @@
 #include "AdjacencyList.hpp"
 #include "AdjacencyMatrix.hpp"
 
+// Keeps vertices alive while an operation, which may remove them, runs.
+struct HeldNodes {
+    std::vector<PyObject*> nodes;
+
+    void add(void* node) {
+        Py_INCREF(reinterpret_cast<PyObject*>(node));
+        nodes.push_back(reinterpret_cast<PyObject*>(node));
+    }
+
+    ~HeldNodes() {
+        for (PyObject* node : nodes) Py_DECREF(node);
+    }
+};
+
 static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* args, PyObject* kwargs) {
     PyObject* graph_obj;
     const char* source_name;
@@ -32,18 +46,26 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
     AdjacencyListGraphNode* start_node = it->second;
     std::unordered_set<std::string> visited;
     std::queue<AdjacencyListGraphNode*> q;
+    HeldNodes held;
     q.push(start_node);
+    held.add(start_node);
     visited.insert(start_node->name);
 
     while (!q.empty()) {
         AdjacencyListGraphNode* node = q.front();
         q.pop();
 
-        for (const auto& [adj_name, adj_obj] : node->adjacent) {
+        std::vector<std::string> adj_names;
+        for (const auto& [adj_name, _] : node->adjacent) adj_names.push_back(adj_name);
+
+        for (const std::string& adj_name : adj_names) {
             if (visited.count(adj_name)) continue;
-            if (get_type_tag(adj_obj) != NodeType_::AdjacencyListGraphNode) continue;
 
-            AdjacencyListGraphNode* adj_node = reinterpret_cast<AdjacencyListGraphNode*>(adj_obj);
+            auto adj_it = cpp_graph->node_map.find(adj_name);
+            if (adj_it == cpp_graph->node_map.end()) continue;
+
+            AdjacencyListGraphNode* adj_node = adj_it->second;
+            held.add(adj_node);
 
             PyObject* node_pyobj = reinterpret_cast<PyObject*>(node);
             PyObject* adj_node_pyobj = reinterpret_cast<PyObject*>(adj_node);
@@ -124,8 +146,13 @@ static PyObject* breadth_first_search_adjacency_matrix(PyObject* self, PyObject*
         std::string node_name = reinterpret_cast<GraphNode*>(node)->name;
         auto& neighbors = cpp_graph->matrix[node_name];
 
+        std::vector<std::string> adj_names;
         for (const auto& [adj_name, connected] : neighbors) {
-            if (!connected || visited.count(adj_name)) continue;
+            if (connected) adj_names.push_back(adj_name);
+        }
+
+        for (const std::string& adj_name : adj_names) {
+            if (visited.count(adj_name)) continue;
 
             auto adj_it = cpp_graph->node_map.find(adj_name);
             if (adj_it == cpp_graph->node_map.end()) continue;
-- 
2.43.0


From dafd23c8d35c9a10fe37e7633b129f6d8d2e4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 104/156] fix: end the C++ breadth first search when the
 operation returns False

---
 pydatastructs/graphs/_backend/cpp/Algorithms.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index c58d8df..1317eb3 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -96,7 +96,10 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
             if (!result)
                 return nullptr;
 
+            int go_on = PyObject_IsTrue(result);
             Py_DECREF(result);
+            if (go_on < 0) return nullptr;
+            if (!go_on) Py_RETURN_NONE;
             visited.insert(adj_name);
             q.push(adj_node);
         }
@@ -176,7 +179,10 @@ static PyObject* breadth_first_search_adjacency_matrix(PyObject* self, PyObject*
             PyObject* result = PyObject_Call(operation, final_args, kwargs_dict);
             Py_DECREF(final_args);
             if (!result) return nullptr;
+            int go_on = PyObject_IsTrue(result);
             Py_DECREF(result);
+            if (go_on < 0) return nullptr;
+            if (!go_on) Py_RETURN_NONE;
 
             visited.insert(adj_name);
             q.push(adj_node);
-- 
2.43.0


From f8502edbe9a4bfa4a6f862753754b36e1cbb46c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 105/156] fix: build the C++ Prim tree of vertices of its own
 and compare weights by value

---
 .../graphs/_backend/cpp/Algorithms.hpp        | 99 +++++++++----------
 1 file changed, 48 insertions(+), 51 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 1317eb3..5804a80 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -214,6 +214,13 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
         DataType value_type;
 
         bool operator>(const EdgeTuple& other) const {
+            auto number = [](const EdgeTuple& edge) {
+                return edge.value_type == DataType::Int ? static_cast<long double>(std::get<int64_t>(edge.value))
+                                                        : static_cast<long double>(std::get<double>(edge.value));
+            };
+            if (value_type != other.value_type && value_type != DataType::None && value_type != DataType::String &&
+                other.value_type != DataType::None && other.value_type != DataType::String)
+                return number(*this) > number(other);
             if (value_type != other.value_type)
                 return value_type > other.value_type;
             if (std::holds_alternative<int64_t>(value))
@@ -230,25 +237,38 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
     std::unordered_set<int> visited;
 
     PyObject* mst_graph = PyObject_CallObject(reinterpret_cast<PyObject*>(&AdjacencyListGraphType), nullptr);
+    if (!mst_graph) return nullptr;
     AdjacencyListGraph* mst = reinterpret_cast<AdjacencyListGraph*>(mst_graph);
 
-    int start_id = graph->nodes[0]->internal_id;
+    if (graph->nodes.empty()) return mst_graph;
+    int start_id = graph->name_to_id[graph->nodes[0]->name];
     visited.insert(start_id);
 
     AdjacencyListGraphNode* start_node = graph->id_map[start_id];
     std::string start_name = graph->id_to_name[start_id];
 
-    Py_INCREF(start_node);
-    mst->nodes.push_back(start_node);
-    mst->node_map[start_name] = start_node;
-    mst->id_map[start_id] = start_node;
-    mst->id_to_name[start_id] = start_name;
-    mst->name_to_id[start_name] = start_id;
+    // the tree gets vertices of its own
+    auto add_vertex = [&](const std::string& name) {
+        PyObject* data = AdjacencyListGraphNode_get_data(graph->node_map[name], nullptr);
+        PyObject* node = data ? PyObject_CallFunction(reinterpret_cast<PyObject*>(&AdjacencyListGraphNodeType),
+                                                      "sN", name.c_str(), data) : nullptr;
+        PyObject* node_args = node ? Py_BuildValue("(N)", node) : nullptr;
+        PyObject* added = node_args ? AdjacencyListGraph_add_vertex(mst, node_args) : nullptr;
+        Py_XDECREF(node_args);
+        Py_XDECREF(added);
+        return added != nullptr;
+    };
+    if (!add_vertex(start_name)) {
+        Py_DECREF(mst_graph);
+        return nullptr;
+    }
 
     for (const auto& [adj_name, _] : start_node->adjacent) {
-        int adj_id = graph->name_to_id[adj_name];
         std::string key = make_edge_key(start_name, adj_name);
-        GraphEdge* edge = graph->edges[key];
+        auto edge_it = graph->edges.find(key);
+        if (edge_it == graph->edges.end()) continue;
+        GraphEdge* edge = edge_it->second;
+        int adj_id = graph->name_to_id[adj_name];
 
         EdgeTuple et;
         et.source_id = start_id;
@@ -284,56 +304,33 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
         std::string u_name = graph->id_to_name[u_id];
         std::string v_name = graph->id_to_name[v_id];
 
-        for (auto [id, name] : std::vector<std::pair<int, std::string>>{{u_id, u_name}, {v_id, v_name}}) {
-            if (!mst->id_map.count(id)) {
-                AdjacencyListGraphNode* node = graph->id_map[id];
-                Py_INCREF(node);
-                mst->nodes.push_back(node);
-                mst->node_map[name] = node;
-                mst->id_map[id] = node;
-                mst->id_to_name[id] = name;
-                mst->name_to_id[name] = id;
-            }
+        if (!add_vertex(v_name)) {
+            Py_DECREF(mst_graph);
+            return nullptr;
         }
 
-        AdjacencyListGraphNode* u = mst->id_map[u_id];
-        AdjacencyListGraphNode* v = mst->id_map[v_id];
-
-        Py_INCREF(v);
-        Py_INCREF(u);
-        u->adjacent[v_name] = reinterpret_cast<PyObject*>(v);
-        v->adjacent[u_name] = reinterpret_cast<PyObject*>(u);
-
-        std::string key_uv = make_edge_key(u_name, v_name);
-        GraphEdge* new_edge = PyObject_New(GraphEdge, &GraphEdgeType);
-        PyObject_Init(reinterpret_cast<PyObject*>(new_edge), &GraphEdgeType);
-        new (&new_edge->value) std::variant<std::monostate, int64_t, double, std::string>(edge.value);
-        new_edge->value_type = edge.value_type;
-        Py_INCREF(u);
-        Py_INCREF(v);
-        new_edge->source = reinterpret_cast<PyObject*>(u);
-        new_edge->target = reinterpret_cast<PyObject*>(v);
-        mst->edges[key_uv] = new_edge;
-
-        std::string key_vu = make_edge_key(v_name, u_name);
-        GraphEdge* new_edge_rev = PyObject_New(GraphEdge, &GraphEdgeType);
-        PyObject_Init(reinterpret_cast<PyObject*>(new_edge_rev), &GraphEdgeType);
-        new (&new_edge_rev->value) std::variant<std::monostate, int64_t, double, std::string>(edge.value);
-        new_edge_rev->value_type = edge.value_type;
-        Py_INCREF(u);
-        Py_INCREF(v);
-        new_edge_rev->source = reinterpret_cast<PyObject*>(v);
-        new_edge_rev->target = reinterpret_cast<PyObject*>(u);
-        mst->edges[key_vu] = new_edge_rev;
+        GraphEdge* found = graph->edges[make_edge_key(u_name, v_name)];
+        for (auto [from, to] : {std::make_pair(u_name, v_name), std::make_pair(v_name, u_name)}) {
+            PyObject* value = GraphEdge_get_value(found, nullptr);
+            PyObject* edge_args = value ? Py_BuildValue("(ssN)", from.c_str(), to.c_str(), value) : nullptr;
+            PyObject* added = edge_args ? AdjacencyListGraph_add_edge(mst, edge_args) : nullptr;
+            Py_XDECREF(edge_args);
+            if (!added) {
+                Py_DECREF(mst_graph);
+                return nullptr;
+            }
+            Py_DECREF(added);
+        }
 
         AdjacencyListGraphNode* next_node = graph->id_map[v_id];
         for (const auto& [adj_name, _] : next_node->adjacent) {
+            std::string key = make_edge_key(v_name, adj_name);
+            auto edge_it = graph->edges.find(key);
+            if (edge_it == graph->edges.end()) continue;
+            GraphEdge* adj_edge = edge_it->second;
             int adj_id = graph->name_to_id[adj_name];
             if (visited.count(adj_id)) continue;
 
-            std::string key = make_edge_key(v_name, adj_name);
-            GraphEdge* adj_edge = graph->edges[key];
-
             EdgeTuple adj_et;
             adj_et.source_id = v_id;
             adj_et.target_id = adj_id;
-- 
2.43.0


From d281440c43e4e88727bbb0e3439d5de833aaa64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 106/156] fix: keep any data in C++ graph nodes

---
 .../_backend/cpp/AdjacencyListGraphNode.hpp   | 49 +----------
 .../utils/_backend/cpp/GraphNode.hpp          | 83 ++++++++-----------
 2 files changed, 38 insertions(+), 94 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
index e932cb7..d5ee135 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
@@ -55,24 +55,7 @@ static PyObject* AdjacencyListGraphNode_new(PyTypeObject* type, PyObject* args,
 
     self->name = std::string(name);
 
-    if (data == Py_None) {
-        self->data_type = DataType::None;
-        self->data = std::monostate{};
-    } else if (PyLong_Check(data)) {
-        self->data_type = DataType::Int;
-        self->data = static_cast<int64_t>(PyLong_AsLongLong(data));
-    } else if (PyFloat_Check(data)) {
-        self->data_type = DataType::Double;
-        self->data = PyFloat_AsDouble(data);
-    } else if (PyUnicode_Check(data)) {
-        const char* str = PyUnicode_AsUTF8(data);
-        self->data_type = DataType::String;
-        self->data = std::string(str);
-    } else {
-        self->data_type = DataType::PyObject;
-        Py_INCREF(data);
-        self->data = data;
-    }
+    set_graph_node_data(self->data, self->data_type, data);
 
     if (PyList_Check(adjacency_list)) {
         Py_ssize_t size = PyList_Size(adjacency_list);
@@ -155,7 +138,8 @@ static PyObject* AdjacencyListGraphNode_get_data(AdjacencyListGraphNode* self, v
         case DataType::Double:
             return PyFloat_FromDouble(std::get<double>(self->data));
         case DataType::String:
-            return PyUnicode_FromString(std::get<std::string>(self->data).c_str());
+            return PyUnicode_FromStringAndSize(std::get<std::string>(self->data).data(),
+                                               std::get<std::string>(self->data).size());
         case DataType::PyObject:
             Py_INCREF(std::get<PyObject*>(self->data));
             return std::get<PyObject*>(self->data);
@@ -166,32 +150,7 @@ static PyObject* AdjacencyListGraphNode_get_data(AdjacencyListGraphNode* self, v
 }
 
 static int AdjacencyListGraphNode_set_data(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
-    if (self->data_type == DataType::PyObject) {
-        Py_XDECREF(std::get<PyObject*>(self->data));
-    }
-
-    if (value == Py_None) {
-        self->data_type = DataType::None;
-        self->data = std::monostate{};
-    } else if (PyLong_Check(value)) {
-        self->data_type = DataType::Int;
-        self->data = static_cast<int64_t>(PyLong_AsLongLong(value));
-    } else if (PyFloat_Check(value)) {
-        self->data_type = DataType::Double;
-        self->data = PyFloat_AsDouble(value);
-    } else if (PyUnicode_Check(value)) {
-        const char* str = PyUnicode_AsUTF8(value);
-        if (!str) {
-            PyErr_SetString(PyExc_ValueError, "Invalid UTF-8 string.");
-            return -1;
-        }
-        self->data_type = DataType::String;
-        self->data = std::string(str);
-    } else {
-        self->data_type = DataType::PyObject;
-        Py_INCREF(value);
-        self->data = value;
-    }
+    set_graph_node_data(self->data, self->data_type, value);
     return 0;
 }
 
diff --git a/pydatastructs/utils/_backend/cpp/GraphNode.hpp b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
index 17a0748..37ea3b4 100644
--- a/pydatastructs/utils/_backend/cpp/GraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
@@ -26,6 +26,36 @@ typedef struct {
     DataType data_type;
 } GraphNode;
 
+typedef std::variant<std::monostate, int64_t, double, std::string, PyObject *> GraphNodeData;
+
+// What the native types cannot hold is kept as the Python object itself.
+static void set_graph_node_data(GraphNodeData& data, DataType& data_type, PyObject* value) {
+    PyObject* old = data_type == DataType::PyObject ? std::get<PyObject*>(data) : NULL;
+    int overflow = 0;
+    Py_ssize_t length = 0;
+    const char* str = NULL;
+
+    if (value == Py_None) {
+        data = std::monostate{};
+        data_type = DataType::None;
+    } else if (PyLong_CheckExact(value) && (PyLong_AsLongLongAndOverflow(value, &overflow), overflow == 0)) {
+        data = static_cast<int64_t>(PyLong_AsLongLong(value));
+        data_type = DataType::Int;
+    } else if (PyFloat_CheckExact(value)) {
+        data = PyFloat_AsDouble(value);
+        data_type = DataType::Double;
+    } else if (PyUnicode_CheckExact(value) && (str = PyUnicode_AsUTF8AndSize(value, &length))) {
+        data = std::string(str, length);
+        data_type = DataType::String;
+    } else {
+        PyErr_Clear();
+        Py_INCREF(value);
+        data = value;
+        data_type = DataType::PyObject;
+    }
+    Py_XDECREF(old);
+}
+
 static void GraphNode_dealloc(GraphNode* self) {
     if (self->data_type == DataType::PyObject) {
         Py_XDECREF(std::get<PyObject*>(self->data));
@@ -53,33 +83,7 @@ static PyObject* GraphNode_new(PyTypeObject* type, PyObject* args, PyObject* kwd
 
     self->name = std::string(name);
     self->internal_id = -1;
-    if (data == Py_None)
-    {
-        self->data = std::monostate{};
-        self->data_type = DataType::None;
-    }
-    else if (PyLong_Check(data))
-    {
-        self->data = static_cast<int64_t>(PyLong_AsLongLong(data));
-        self->data_type = DataType::Int;
-    }
-    else if (PyFloat_Check(data))
-    {
-        self->data = PyFloat_AsDouble(data);
-        self->data_type = DataType::Double;
-    }
-    else if (PyUnicode_Check(data))
-    {
-        const char* s = PyUnicode_AsUTF8(data);
-        self->data = std::string(s);
-        self->data_type = DataType::String;
-    }
-    else
-    {
-        self->data = data;
-        self->data_type = DataType::PyObject;
-        Py_INCREF(data);
-    }
+    set_graph_node_data(self->data, self->data_type, data);
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -130,7 +134,8 @@ static PyObject* GraphNode_get(GraphNode* self, void *closure) {
             case DataType::Double:
                 return PyFloat_FromDouble(std::get<double>(self->data));
             case DataType::String:
-                return PyUnicode_FromString(std::get<std::string>(self->data).c_str());
+                return PyUnicode_FromStringAndSize(std::get<std::string>(self->data).data(),
+                                                   std::get<std::string>(self->data).size());
             case DataType::PyObject:
                 Py_INCREF(std::get<PyObject*>(self->data));
                 return std::get<PyObject*>(self->data);
@@ -153,27 +158,7 @@ static int GraphNode_set(GraphNode* self, PyObject *value, void *closure) {
         }
         self->name = PyUnicode_AsUTF8(value);
     } else if (strcmp(attr, "data") == 0) {
-        if (self->data_type == DataType::PyObject) {
-            Py_XDECREF(std::get<PyObject*>(self->data));
-        }
-
-        if (value == Py_None) {
-            self->data = std::monostate{};
-            self->data_type = DataType::None;
-        } else if (PyLong_Check(value)) {
-            self->data = static_cast<int64_t>(PyLong_AsLongLong(value));
-            self->data_type = DataType::Int;
-        } else if (PyFloat_Check(value)) {
-            self->data = PyFloat_AsDouble(value);
-            self->data_type = DataType::Double;
-        } else if (PyUnicode_Check(value)) {
-            self->data = std::string(PyUnicode_AsUTF8(value));
-            self->data_type = DataType::String;
-        } else {
-            Py_INCREF(value);
-            self->data = value;
-            self->data_type = DataType::PyObject;
-        }
+        set_graph_node_data(self->data, self->data_type, value);
     } else {
         PyErr_SetString(PyExc_AttributeError, "Unknown attribute");
         return -1;
-- 
2.43.0


From 078570ec3e277288c8c96829e4a41340ac1f238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 107/156] fix: raise the errors of values a C++ graph edge
 cannot hold

---
 .../utils/_backend/cpp/GraphEdge.hpp          | 61 +++++++++----------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
index 7e17ebb..376ad7a 100644
--- a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
@@ -23,6 +23,31 @@ static std::string make_edge_key(const std::string& source, const std::string& t
     return source + '\0' + target;
 }
 
+// Fails, with an exception set, for a value the native types cannot hold.
+static int set_graph_edge_value(GraphEdge* self, PyObject* value) {
+    if (value == Py_None) {
+        self->value_type = DataType::None;
+        self->value = std::monostate{};
+    } else if (PyLong_Check(value)) {
+        int64_t number = static_cast<int64_t>(PyLong_AsLongLong(value));
+        if (PyErr_Occurred()) return -1;
+        self->value_type = DataType::Int;
+        self->value = number;
+    } else if (PyFloat_Check(value)) {
+        self->value_type = DataType::Double;
+        self->value = PyFloat_AsDouble(value);
+    } else if (PyUnicode_Check(value)) {
+        const char* str = PyUnicode_AsUTF8(value);
+        if (!str) return -1;
+        self->value_type = DataType::String;
+        self->value = std::string(str);
+    } else {
+        PyErr_SetString(PyExc_TypeError, "Unsupported edge value type (must be int, float, str, or None)");
+        return -1;
+    }
+    return 0;
+}
+
 static void GraphEdge_dealloc(GraphEdge* self) {
     Py_XDECREF(self->source);
     Py_XDECREF(self->target);
@@ -51,21 +76,8 @@ static PyObject* GraphEdge_new(PyTypeObject* type, PyObject* args, PyObject* kwd
     self->source = node1;
     self->target = node2;
 
-    if (value == Py_None) {
-        self->value_type = DataType::None;
-        self->value = std::monostate{};
-    } else if (PyLong_Check(value)) {
-        self->value_type = DataType::Int;
-        self->value = static_cast<int64_t>(PyLong_AsLongLong(value));
-    } else if (PyFloat_Check(value)) {
-        self->value_type = DataType::Double;
-        self->value = PyFloat_AsDouble(value);
-    } else if (PyUnicode_Check(value)) {
-        const char* str = PyUnicode_AsUTF8(value);
-        self->value_type = DataType::String;
-        self->value = std::string(str);
-    } else {
-        PyErr_SetString(PyExc_TypeError, "Unsupported edge value type (must be int, float, str, or None)");
+    if (set_graph_edge_value(self, value) < 0) {
+        Py_DECREF(self);
         return NULL;
     }
 
@@ -111,24 +123,11 @@ static PyObject* GraphEdge_get_value(GraphEdge* self, void* closure) {
 }
 
 static int GraphEdge_set_value(GraphEdge* self, PyObject* value) {
-    if (value == Py_None) {
-        self->value_type = DataType::None;
-        self->value = std::monostate{};
-    } else if (PyLong_Check(value)) {
-        self->value_type = DataType::Int;
-        self->value = static_cast<int64_t>(PyLong_AsLongLong(value));
-    } else if (PyFloat_Check(value)) {
-        self->value_type = DataType::Double;
-        self->value = PyFloat_AsDouble(value);
-    } else if (PyUnicode_Check(value)) {
-        const char* str = PyUnicode_AsUTF8(value);
-        self->value_type = DataType::String;
-        self->value = std::string(str);
-    } else {
-        PyErr_SetString(PyExc_TypeError, "Edge value must be int, float, str, or None.");
+    if (!value) {
+        PyErr_SetString(PyExc_TypeError, "Cannot delete attributes");
         return -1;
     }
-    return 0;
+    return set_graph_edge_value(self, value);
 }
 
 static PyGetSetDef GraphEdge_getsetters[] = {
-- 
2.43.0


From fef2c57445c489f7954e2c6a7cf91803a5c00406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 108/156] fix: check the ends of C++ graph edges and the
 deletion of node attributes

---
 .../utils/_backend/cpp/AdjacencyListGraphNode.hpp        | 9 +++++++--
 pydatastructs/utils/_backend/cpp/GraphEdge.hpp           | 9 +++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
index d5ee135..a6d0bbb 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
@@ -123,7 +123,7 @@ static PyObject* AdjacencyListGraphNode_get_name(AdjacencyListGraphNode* self, v
 }
 
 static int AdjacencyListGraphNode_set_name(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
-    if (!PyUnicode_Check(value)) {
+    if (!value || !PyUnicode_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "name must be a string");
         return -1;
     }
@@ -150,6 +150,11 @@ static PyObject* AdjacencyListGraphNode_get_data(AdjacencyListGraphNode* self, v
 }
 
 static int AdjacencyListGraphNode_set_data(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
+    if (!value) {
+        PyErr_SetString(PyExc_ValueError, "Cannot delete attributes");
+        return -1;
+    }
+
     set_graph_node_data(self->data, self->data_type, value);
     return 0;
 }
@@ -166,7 +171,7 @@ static PyObject* AdjacencyListGraphNode_get_adjacent(AdjacencyListGraphNode* sel
 }
 
 static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
-    if (!PyDict_Check(value)) {
+    if (!value || !PyDict_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "adjacent must be a dictionary");
         return -1;
     }
diff --git a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
index 376ad7a..1635ab0 100644
--- a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
@@ -71,6 +71,15 @@ static PyObject* GraphEdge_new(PyTypeObject* type, PyObject* args, PyObject* kwd
         return NULL;
     }
 
+    for (PyObject* node : {node1, node2}) {
+        if (!PyObject_IsInstance(node, reinterpret_cast<PyObject*>(&GraphNodeType))) {
+            self->source = self->target = NULL;
+            Py_DECREF(self);
+            PyErr_SetString(PyExc_TypeError, "The ends of an edge must be graph nodes of the C++ backend");
+            return NULL;
+        }
+    }
+
     Py_INCREF(node1);
     Py_INCREF(node2);
     self->source = node1;
-- 
2.43.0


From fb2e6e96a89fd6cb195c7aea27db6c388af6c49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 109/156] fix: release the data of C++ matrix graph nodes

---
 pydatastructs/utils/_backend/cpp/AdjacencyMatrixGraphNode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyMatrixGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyMatrixGraphNode.hpp
index f8c0d21..55b4f5c 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyMatrixGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyMatrixGraphNode.hpp
@@ -13,7 +13,7 @@ typedef struct {
 } AdjacencyMatrixGraphNode;
 
 static void AdjacencyMatrixGraphNode_dealloc(AdjacencyMatrixGraphNode* self){
-    Py_TYPE(self)->tp_free(reinterpret_cast<PyTypeObject*>(self));
+    GraphNode_dealloc(&self->super);
 }
 
 static PyObject* AdjacencyMatrixGraphNode_new(PyTypeObject* type, PyObject* args, PyObject* kwds){
-- 
2.43.0


From 7f98065c295e65ba5d2214fca273688bae1ed277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 110/156] fix: show C++ graph nodes as the Python backend does

---
 .../utils/_backend/cpp/GraphNode.hpp          | 43 +++++--------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/GraphNode.hpp b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
index 37ea3b4..3bc2540 100644
--- a/pydatastructs/utils/_backend/cpp/GraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
@@ -88,39 +88,6 @@ static PyObject* GraphNode_new(PyTypeObject* type, PyObject* args, PyObject* kwd
     return reinterpret_cast<PyObject*>(self);
 }
 
-static PyObject* GraphNode_str(GraphNode* self) {
-    std::string repr = "('" + self->name + "', ";
-
-    switch (self->data_type) {
-        case DataType::None:
-            repr += "None";
-            break;
-        case DataType::Int:
-            repr += std::to_string(std::get<int64_t>(self->data));
-            break;
-        case DataType::Double:
-            repr += std::to_string(std::get<double>(self->data));
-            break;
-        case DataType::String:
-            repr += "'" + std::get<std::string>(self->data) + "'";
-            break;
-        case DataType::PyObject: {
-            PyObject* repr_obj = PyObject_Repr(std::get<PyObject*>(self->data));
-            if (repr_obj) {
-                const char* repr_cstr = PyUnicode_AsUTF8(repr_obj);
-                repr += repr_cstr ? repr_cstr : "<unprintable>";
-                Py_DECREF(repr_obj);
-            } else {
-                repr += "<error in repr>";
-            }
-            break;
-        }
-    }
-
-    repr += ")";
-    return PyUnicode_FromString(repr.c_str());
-}
-
 static PyObject* GraphNode_get(GraphNode* self, void *closure) {
     const char* attr = reinterpret_cast<const char*>(closure);
     if (strcmp(attr, "name") == 0) {
@@ -144,6 +111,16 @@ static PyObject* GraphNode_get(GraphNode* self, void *closure) {
     Py_RETURN_NONE;
 }
 
+static PyObject* GraphNode_str(GraphNode* self) {
+    PyObject* data = GraphNode_get(self, const_cast<char*>("data"));
+    if (!data) return NULL;
+    PyObject* fields = Py_BuildValue("(sN)", self->name.c_str(), data);
+    if (!fields) return NULL;
+    PyObject* repr = PyObject_Repr(fields);
+    Py_DECREF(fields);
+    return repr;
+}
+
 static int GraphNode_set(GraphNode* self, PyObject *value, void *closure) {
     const char* attr = reinterpret_cast<const char*>(closure);
     if (!value) {
-- 
2.43.0


From 8336d2643b06fbde9108e48bdc4cd7b0aca8a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 111/156] fix: an m-ary tree uses the comparator it was given

---
 pydatastructs/trees/m_ary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/m_ary_trees.py b/pydatastructs/trees/m_ary_trees.py
index a06fda9..11ef37d 100644
--- a/pydatastructs/trees/m_ary_trees.py
+++ b/pydatastructs/trees/m_ary_trees.py
@@ -59,7 +59,7 @@ class MAryTree(object):
         obj.root_idx = 0
         obj.max_children = max_children
         obj.tree, obj.size = ArrayForTrees(MAryTreeNode, [root]), 1
-        obj.comparator = lambda key1, key2: key1 < key2 \
+        obj.comparator = (lambda key1, key2: key1 < key2) \
                         if comp is None else comp
         obj.is_order_statistic = is_order_statistic
         return obj
-- 
2.43.0


From 54b0acace3dac79b2fa6f1813d45a218fc88def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 112/156] fix: printing an m-ary tree shows the children of its
 nodes

---
 pydatastructs/trees/m_ary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/m_ary_trees.py b/pydatastructs/trees/m_ary_trees.py
index 11ef37d..36bc534 100644
--- a/pydatastructs/trees/m_ary_trees.py
+++ b/pydatastructs/trees/m_ary_trees.py
@@ -168,5 +168,5 @@ class MAryTree(object):
                 to_be_printed[i] = (node.key, node.data)
                 for j in node.children:
                     if j is not None:
-                        to_be_printed[i].append(j)
+                        to_be_printed[i] += (j,)
         return str(to_be_printed)
-- 
2.43.0


From 5ae33f41331bf4c01746bf27856c67412d879c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 113/156] fix: appending on the left of an array queue keeps
 the other elements as they are

---
 pydatastructs/miscellaneous_data_structures/queue.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index 48c2798..f281f7a 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -142,12 +142,13 @@ class ArrayQueue(Queue):
     def appendleft(self, x):
         self._double_ended_check()
         temp = []
-        self.items._dtype = type(x)
+        if self.is_empty:
+            self.items._dtype = type(x)
         temp.append(x)
         if not self.is_empty:
             for i in range(self._front, self._rear + 1):
                 temp.append(self.items._data[i])
-        self.items = DynamicOneDimensionalArray(type(temp[0]), temp)
+        self.items = DynamicOneDimensionalArray(self.items._dtype, temp)
         self._update_ends()
 
     def popleft(self):
-- 
2.43.0


From 6e468ddf59010be19e240d9c480c4594752a867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 114/156] fix: array stacks and queues return the elements put
 in, not copies

---
 pydatastructs/miscellaneous_data_structures/queue.py | 5 ++---
 pydatastructs/miscellaneous_data_structures/stack.py | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index f281f7a..ec6e8be 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -2,7 +2,6 @@ from pydatastructs.linear_data_structures import DynamicOneDimensionalArray, Sin
 from pydatastructs.utils.misc_util import (
     NoneType, Backend, raise_if_backend_is_not_python)
 from pydatastructs.trees.heaps import BinaryHeap, BinomialHeap
-from copy import deepcopy as dc
 
 __all__ = [
     'Queue',
@@ -154,7 +153,7 @@ class ArrayQueue(Queue):
     def popleft(self):
         if self.is_empty:
             raise IndexError("Queue is empty.")
-        return_value = dc(self.items[self._front])
+        return_value = self.items[self._front]
         self.items.delete(self._front)
         self._update_ends()
         return return_value
@@ -164,7 +163,7 @@ class ArrayQueue(Queue):
         if self.is_empty:
             raise IndexError("Queue is empty.")
 
-        return_value = dc(self.items[self._rear])
+        return_value = self.items[self._rear]
         self.items.delete(self._rear)
         self._update_ends()
         return return_value
diff --git a/pydatastructs/miscellaneous_data_structures/stack.py b/pydatastructs/miscellaneous_data_structures/stack.py
index 38f72b4..d30e208 100644
--- a/pydatastructs/miscellaneous_data_structures/stack.py
+++ b/pydatastructs/miscellaneous_data_structures/stack.py
@@ -3,7 +3,6 @@ from pydatastructs.miscellaneous_data_structures._backend.cpp import _stack
 from pydatastructs.utils.misc_util import (
     _check_type, NoneType, Backend,
     raise_if_backend_is_not_python)
-from copy import deepcopy as dc
 
 __all__ = [
     'Stack'
@@ -123,7 +122,7 @@ class ArrayStack(Stack):
         if self.is_empty:
             raise IndexError("Stack is empty")
 
-        top_element = dc(self.items[self.items._last_pos_filled])
+        top_element = self.items[self.items._last_pos_filled]
         self.items.delete(self.items._last_pos_filled)
         return top_element
 
-- 
2.43.0


From bdb6b0af13d73d0952b4819892091ee9004dd4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 115/156] fix: graph traversals do not hand the backend on to
 the operation and C++ search passes its keywords

---
 pydatastructs/graphs/algorithms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 52faa48..07ac540 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -4,6 +4,7 @@ data structure.
 """
 from collections import deque
 from concurrent.futures import ThreadPoolExecutor
+from functools import partial
 from pydatastructs.utils.misc_util import (
     _comp, raise_if_backend_is_not_python, Backend, AdjacencyListGraphNode)
 from pydatastructs.miscellaneous_data_structures import (
@@ -81,7 +82,7 @@ def breadth_first_search(
     >>> G.add_edge(V2.name, V3.name)
     >>> breadth_first_search(G, V1.name, f, V3.name)
     """
-    backend = kwargs.get('backend', Backend.PYTHON)
+    backend = kwargs.pop('backend', Backend.PYTHON)
     if backend == Backend.PYTHON:
         import pydatastructs.graphs.algorithms as algorithms
         func = "_breadth_first_search_" + graph._impl
@@ -93,6 +94,8 @@ def breadth_first_search(
             graph, source_node, operation, *args, **kwargs)
     else:
         from pydatastructs.graphs._backend.cpp._graph import bfs_adjacency_list, bfs_adjacency_matrix
+        if kwargs:
+            operation = partial(operation, **kwargs)
         if (graph._impl == "adjacency_list"):
             extra_args = args if args else ()
             return bfs_adjacency_list(graph, source_node, operation, extra_args)
@@ -178,7 +181,7 @@ def breadth_first_search_parallel(
     >>> breadth_first_search_parallel(G, V1.name, 3, f, V3.name)
     """
     raise_if_backend_is_not_python(
-        breadth_first_search_parallel, kwargs.get('backend', Backend.PYTHON))
+        breadth_first_search_parallel, kwargs.pop('backend', Backend.PYTHON))
     import pydatastructs.graphs.algorithms as algorithms
     func = "_breadth_first_search_parallel_" + graph._impl
     if not hasattr(algorithms, func):
@@ -716,7 +719,7 @@ def depth_first_search(
     .. [1] https://en.wikipedia.org/wiki/Depth-first_search
     """
     raise_if_backend_is_not_python(
-        depth_first_search, kwargs.get('backend', Backend.PYTHON))
+        depth_first_search, kwargs.pop('backend', Backend.PYTHON))
     import pydatastructs.graphs.algorithms as algorithms
     func = "_depth_first_search_" + graph._impl
     if not hasattr(algorithms, func):
-- 
2.43.0


From 58edacc008a355e8546a5fe8e377028b21316192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 116/156] fix: C++ spanning trees and shortest paths refuse
 algorithms they do not have

---
 pydatastructs/graphs/algorithms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 07ac540..9f8b3be 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -359,6 +359,10 @@ def minimum_spanning_tree(graph, algorithm, **kwargs):
         from pydatastructs.graphs._backend.cpp._graph import minimum_spanning_tree_prim_adjacency_list
         if graph._impl == "adjacency_list" and algorithm == 'prim':
             return minimum_spanning_tree_prim_adjacency_list(graph)
+        raise NotImplementedError(
+        "Currently %s algoithm for %s implementation of graphs "
+        "isn't implemented for finding minimum spanning trees "
+        "with %s backend."%(algorithm, graph._impl, backend))
 
 def _minimum_spanning_tree_parallel_kruskal_adjacency_list(graph, num_threads):
     mst = _generate_mst_object(graph)
@@ -827,6 +831,9 @@ def shortest_paths(graph: Graph, algorithm: str,
         from pydatastructs.graphs._backend.cpp._graph import shortest_paths_dijkstra_adjacency_list
         if graph._impl == "adjacency_list" and algorithm == 'dijkstra':
             return shortest_paths_dijkstra_adjacency_list(graph, source, target)
+        raise NotImplementedError(
+        "Currently %s algorithm isn't implemented for finding "
+        "shortest paths in graphs with %s backend."%(algorithm, backend))
 
 def _bellman_ford_adjacency_list(graph: Graph, source: str, target: str) -> tuple:
     distances, predecessor, visited, cnts = {}, {}, {}, {}
-- 
2.43.0


From 7f1b5d2f782a0551eb6075424bd8f1f7706459a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 117/156] fix: routines with several algorithms refuse the
 names of algorithms for other problems

---
 pydatastructs/graphs/algorithms.py  | 8 ++++----
 pydatastructs/strings/algorithms.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 9f8b3be..b596eec 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -822,7 +822,7 @@ def shortest_paths(graph: Graph, algorithm: str,
     if (backend == Backend.PYTHON):
         import pydatastructs.graphs.algorithms as algorithms
         func = "_" + algorithm + "_" + graph._impl
-        if not hasattr(algorithms, func):
+        if algorithm not in ('bellman_ford', 'dijkstra') or not hasattr(algorithms, func):
             raise NotImplementedError(
             "Currently %s algorithm isn't implemented for "
             "finding shortest paths in graphs."%(algorithm))
@@ -953,7 +953,7 @@ def all_pair_shortest_paths(graph: Graph, algorithm: str,
         all_pair_shortest_paths, kwargs.get('backend', Backend.PYTHON))
     import pydatastructs.graphs.algorithms as algorithms
     func = "_" + algorithm + "_" + graph._impl
-    if not hasattr(algorithms, func):
+    if algorithm not in ('floyd_warshall', 'johnson') or not hasattr(algorithms, func):
         raise NotImplementedError(
         "Currently %s algorithm isn't implemented for "
         "finding shortest paths in graphs."%(algorithm))
@@ -1080,7 +1080,7 @@ def topological_sort(graph: Graph, algorithm: str,
         topological_sort, kwargs.get('backend', Backend.PYTHON))
     import pydatastructs.graphs.algorithms as algorithms
     func = "_" + algorithm + "_" + graph._impl
-    if not hasattr(algorithms, func):
+    if algorithm != 'kahn' or not hasattr(algorithms, func):
         raise NotImplementedError(
         "Currently %s algorithm isn't implemented for "
         "performing topological sort on %s graphs."%(algorithm, graph._impl))
@@ -1160,7 +1160,7 @@ def topological_sort_parallel(graph: Graph, algorithm: str, num_threads: int,
         topological_sort_parallel, kwargs.get('backend', Backend.PYTHON))
     import pydatastructs.graphs.algorithms as algorithms
     func = "_" + algorithm + "_" + graph._impl + '_parallel'
-    if not hasattr(algorithms, func):
+    if algorithm != 'kahn' or not hasattr(algorithms, func):
         raise NotImplementedError(
         "Currently %s algorithm isn't implemented for "
         "performing topological sort on %s graphs."%(algorithm, graph._impl))
diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index 5af493f..395dc8c 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -76,7 +76,7 @@ def find(text, query, algorithm, **kwargs):
             find, kwargs.get('backend', Backend.PYTHON))
     import pydatastructs.strings.algorithms as algorithms
     func = "_" + algorithm
-    if not hasattr(algorithms, func):
+    if algorithm not in ('kmp', 'knuth_morris_pratt', 'rabin_karp', 'boyer_moore', 'z_function'):
         raise NotImplementedError(
         "Currently %s algoithm for searching strings "
         "inside a text isn't implemented yet."
-- 
2.43.0


From 2995839be4f6bc28efb368da467b95c17737e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 118/156] fix: counting_sort returns a sorted copy of arrays
 without values too

---
 pydatastructs/linear_data_structures/algorithms.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index deda860..f9104ea 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -390,18 +390,15 @@ def counting_sort(array: Array, **kwargs) -> Array:
     """
     raise_if_backend_is_not_python(
         counting_sort, kwargs.get('backend', Backend.PYTHON))
-    max_val, min_val = array[0], array[0]
-    none_count = 0
+    max_val, min_val = None, None
     for i in range(len(array)):
         if array[i] is not None:
             if max_val is None or max_val < array[i]:
                 max_val = array[i]
             if min_val is None or array[i] < min_val:
                 min_val = array[i]
-        else:
-            none_count += 1
     if min_val is None or max_val is None:
-        return array
+        return type(array)(array._dtype, [])
 
     count = [0 for _ in range(max_val - min_val + 1)]
     for i in range(len(array)):
-- 
2.43.0


From dc4a12d94f5ac126cfde15755eaaba08dcebd83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 119/156] fix: LLVM sorts work only when started from the root
 of the repository

---
 .../cpp/algorithms/quadratic_time_sort.hpp    | 64 ++-----------------
 1 file changed, 4 insertions(+), 60 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 9c95b77..dd1bbc9 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -214,36 +214,8 @@ static PyObject* bubble_sort_llvm(PyObject* self, PyObject* args, PyObject* kwds
     }
 
     auto get_addr = [&](const char* dtype_str) -> PyObject* {
-        PyObject* sys = PyImport_ImportModule("sys");
-        PyObject* sys_path = PyObject_GetAttrString(sys, "path");
-        Py_DECREF(sys);
-
-        Py_ssize_t original_len = PyList_Size(sys_path);
-        if (original_len == -1) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        PyObject* path = PyUnicode_FromString("pydatastructs/linear_data_structures/_backend/cpp/algorithms");
-        if (!path) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        int append_result = PyList_Append(sys_path, path);
-        Py_DECREF(path);
-
-        if (append_result != 0) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        PyObject* mod = PyImport_ImportModule("llvm_algorithms");
-
-        if (PyList_SetSlice(sys_path, original_len, original_len + 1, NULL) != 0) {
-            PyErr_Clear();
-        }
-        Py_DECREF(sys_path);
+        PyObject* mod = PyImport_ImportModule(
+            "pydatastructs.linear_data_structures._backend.cpp.algorithms.llvm_algorithms");
         if (!mod) {
             return NULL;
         }
@@ -819,36 +791,8 @@ static PyObject* selection_sort_llvm(PyObject* self, PyObject* args, PyObject* k
     }
 
     auto get_addr = [&](const char* dtype_str) -> PyObject* {
-        PyObject* sys = PyImport_ImportModule("sys");
-        PyObject* sys_path = PyObject_GetAttrString(sys, "path");
-        Py_DECREF(sys);
-
-        Py_ssize_t original_len = PyList_Size(sys_path);
-        if (original_len == -1) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        PyObject* path = PyUnicode_FromString("pydatastructs/linear_data_structures/_backend/cpp/algorithms");
-        if (!path) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        int append_result = PyList_Append(sys_path, path);
-        Py_DECREF(path);
-
-        if (append_result != 0) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        PyObject* mod = PyImport_ImportModule("llvm_algorithms");
-
-        if (PyList_SetSlice(sys_path, original_len, original_len + 1, NULL) != 0) {
-            PyErr_Clear();
-        }
-        Py_DECREF(sys_path);
+        PyObject* mod = PyImport_ImportModule(
+            "pydatastructs.linear_data_structures._backend.cpp.algorithms.llvm_algorithms");
         if (!mod) {
             return NULL;
         }
-- 
2.43.0


From 0b5a640b8b88f91f31f8a205af92a7fc13006617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 120/156] fix: give trees/heaps.py its CRLF line endings back

---
 pydatastructs/trees/heaps.py | 1170 +++++++++++++++++-----------------
 1 file changed, 585 insertions(+), 585 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 61389e5..e5b747e 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -1,585 +1,585 @@
-from pydatastructs.utils.misc_util import (
-    _check_type, TreeNode, BinomialTreeNode,
-    Backend, raise_if_backend_is_not_python)
-from pydatastructs.linear_data_structures.arrays import (
-     DynamicOneDimensionalArray, Array)
-from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
-
-__all__ = [
-    'BinaryHeap',
-    'TernaryHeap',
-    'DHeap',
-    'BinomialHeap'
-]
-
-class Heap(object):
-    """
-    Abstract class for representing heaps.
-    """
-    pass
-
-
-class DHeap(Heap):
-    """
-    Represents D-ary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple, Array
-        Optional, by default 'None'.
-        list/tuple/Array of initial TreeNode in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import DHeap
-    >>> min_heap = DHeap(heap_property="min", d=3)
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = DHeap(heap_property='max', d=2)
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    """
-    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
-
-    def __new__(cls, elements=None, heap_property="min", d=4,
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = Heap.__new__(cls)
-        obj.heap_property = heap_property
-        obj.d = d
-        if heap_property == "min":
-            obj._comp = lambda key_parent, key_child: key_parent <= key_child
-        elif heap_property == "max":
-            obj._comp = lambda key_parent, key_child: key_parent >= key_child
-        else:
-            raise ValueError("%s is invalid heap property"%(heap_property))
-        if elements is None:
-            elements = DynamicOneDimensionalArray(TreeNode, 0)
-        elif _check_type(elements, (list,tuple)):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
-        elif _check_type(elements, Array):
-            elements = [node for node in elements._data if node is not None]
-            if not all(_check_type(node, TreeNode) for node in elements):
-                raise TypeError("Expected an Array of TreeNode.")
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
-        else:
-            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
-        obj.heap = elements
-        obj._last_pos_filled = obj.heap._last_pos_filled
-        obj._build()
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
-
-    def _build(self):
-        for i in range(self._last_pos_filled + 1):
-            self.heap[i]._leftmost, self.heap[i]._rightmost = \
-                self.d*i + 1, self.d*i + self.d
-        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
-            self._heapify(i)
-
-    def _swap(self, idx1, idx2):
-        idx1_key, idx1_data = \
-            self.heap[idx1].key, self.heap[idx1].data
-        self.heap[idx1].key, self.heap[idx1].data = \
-            self.heap[idx2].key, self.heap[idx2].data
-        self.heap[idx2].key, self.heap[idx2].data = \
-            idx1_key, idx1_data
-
-    def _heapify(self, i):
-        while True:
-            target = i
-            l = self.d*i + 1
-            r = self.d*i + self.d
-
-            for j in range(l, r+1):
-                if j <= self._last_pos_filled:
-                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
-                            else target
-                else:
-                    break
-
-            if target != i:
-                self._swap(target, i)
-                i = target
-            else:
-                break
-
-    def insert(self, key, data=None):
-        """
-        Insert a new element to the heap according to heap property.
-
-        Parameters
-        ==========
-
-        key
-            The key for comparison.
-        data
-            The data to be inserted.
-
-        Returns
-        =======
-
-        None
-        """
-        new_node = TreeNode(key, data)
-        self.heap.append(new_node)
-        self._last_pos_filled += 1
-        i = self._last_pos_filled
-        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
-
-        while True:
-            parent = (i - 1)//self.d
-            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
-                break
-            else:
-                self._swap(i, parent)
-                i = parent
-
-    def extract(self):
-        """
-        Extract root element of the Heap.
-
-        Returns
-        =======
-
-        root_element: TreeNode
-            The TreeNode at the root of the heap,
-            if the heap is not empty.
-
-        None
-            If the heap is empty.
-        """
-        if self._last_pos_filled == -1:
-            raise IndexError("Heap is empty.")
-        else:
-            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
-            self._swap(0, self._last_pos_filled)
-            self.heap.delete(self._last_pos_filled)
-            self._last_pos_filled -= 1
-            self._heapify(0)
-            return element_to_be_extracted
-
-    def __str__(self):
-        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
-        for i in range(self._last_pos_filled + 1):
-            node = self.heap[i]
-            if node._leftmost <= self._last_pos_filled:
-                if node._rightmost <= self._last_pos_filled:
-                    children = list(range(node._leftmost, node._rightmost + 1))
-                else:
-                    children = list(range(node._leftmost, self._last_pos_filled + 1))
-            else:
-                children = []
-            to_be_printed[i] = (node.key, node.data, children)
-        return str(to_be_printed)
-
-    @property
-    def is_empty(self):
-        """
-        Checks if the heap is empty.
-        """
-        return self.heap._last_pos_filled == -1
-
-
-class BinaryHeap(DHeap):
-    """
-    Represents Binary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import BinaryHeap
-    >>> min_heap = BinaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = BinaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 2)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class TernaryHeap(DHeap):
-    """
-    Represents Ternary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import TernaryHeap
-    >>> min_heap = TernaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    3
-
-    >>> max_heap = TernaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 3)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class BinomialHeap(Heap):
-    """
-    Represents binomial heap.
-
-    Parameters
-    ==========
-
-    root_list: list/tuple/Array
-        By default, []
-        The list of BinomialTree object references
-        in sorted order.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs import BinomialHeap
-    >>> b = BinomialHeap()
-    >>> b.insert(1, 1)
-    >>> b.insert(2, 2)
-    >>> b.find_minimum().key
-    1
-    >>> b.find_minimum().children[0].key
-    2
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
-    """
-    __slots__ = ['root_list']
-
-    def __new__(cls, root_list=None, **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        if root_list is None:
-            root_list = []
-        if not all((_check_type(root, BinomialTree))
-                for root in root_list):
-                    raise TypeError("The root_list should contain "
-                                    "references to objects of BinomialTree.")
-        obj = Heap.__new__(cls)
-        obj.root_list = root_list
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'merge_tree', 'merge', 'insert',
-        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
-        'delete_minimum']
-
-    def merge_tree(self, tree1, tree2):
-        """
-        Merges two BinomialTree objects.
-
-        Parameters
-        ==========
-
-        tree1: BinomialTree
-
-        tree2: BinomialTree
-        """
-        if (not _check_type(tree1, BinomialTree)) or \
-            (not _check_type(tree2, BinomialTree)):
-            raise TypeError("Both the trees should be of type "
-                            "BinomalTree.")
-        ret_value = None
-        if tree1.root.key <= tree2.root.key:
-            tree1.add_sub_tree(tree2)
-            ret_value = tree1
-        else:
-            tree2.add_sub_tree(tree1)
-            ret_value = tree2
-        return ret_value
-
-    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
-        """
-        Merges last tree node in root list with the incoming tree.
-        """
-        pos = -1
-        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
-            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
-        else:
-            new_root_list.append(new_tree)
-
-    def merge(self, other_heap):
-        """
-        Merges current binomial heap with the given binomial heap.
-
-        Parameters
-        ==========
-
-        other_heap: BinomialHeap
-        """
-        if not _check_type(other_heap, BinomialHeap):
-            raise TypeError("Other heap is not of type BinomialHeap.")
-        new_root_list = []
-        i, j = 0, 0
-        while (i < len(self.root_list)) and \
-              (j < len(other_heap.root_list)):
-            new_tree = None
-            while self.root_list[i] is None:
-                i += 1
-            while other_heap.root_list[j] is None:
-                j += 1
-            if self.root_list[i].order == other_heap.root_list[j].order:
-                new_tree = self.merge_tree(self.root_list[i],
-                                           other_heap.root_list[j])
-                i += 1
-                j += 1
-            else:
-                if self.root_list[i].order < other_heap.root_list[j].order:
-                    new_tree = self.root_list[i]
-                    i += 1
-                else:
-                    new_tree = other_heap.root_list[j]
-                    j += 1
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-
-        while i < len(self.root_list):
-            new_tree = self.root_list[i]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            i += 1
-        while j < len(other_heap.root_list):
-            new_tree = other_heap.root_list[j]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            j += 1
-        self.root_list = new_root_list
-
-    def insert(self, key, data=None):
-        """
-        Inserts new node with the given key and data.
-
-        key
-            The key of the node which can be operated
-            upon by relational operators.
-
-        data
-            The data to be stored in the new node.
-        """
-        new_node = BinomialTreeNode(key, data)
-        new_tree = BinomialTree(root=new_node, order=0)
-        new_heap = BinomialHeap(root_list=[new_tree])
-        self.merge(new_heap)
-
-    def find_minimum(self, **kwargs):
-        """
-        Finds the node with the minimum key.
-
-        Returns
-        =======
-
-        min_node: BinomialTreeNode
-        """
-        if self.is_empty:
-            raise IndexError("Binomial heap is empty.")
-        min_node = None
-        idx, min_idx = 0, None
-        for tree in self.root_list:
-            if ((min_node is None) or
-                (tree is not None and tree.root is not None and
-                 min_node.key > tree.root.key)):
-                min_node = tree.root
-                min_idx = idx
-            idx += 1
-        if kwargs.get('get_index', None) is not None:
-            return min_node, min_idx
-        return min_node
-
-    def delete_minimum(self):
-        """
-        Deletes the node with minimum key.
-        """
-        min_node, min_idx = self.find_minimum(get_index=True)
-        child_root_list = []
-        for k, child in enumerate(min_node.children):
-            if child is not None:
-                child_root_list.append(BinomialTree(root=child, order=k))
-        self.root_list.remove(self.root_list[min_idx])
-        child_heap = BinomialHeap(root_list=child_root_list)
-        self.merge(child_heap)
-
-    @property
-    def is_empty(self):
-        return not self.root_list
-
-    def decrease_key(self, node, new_key):
-        """
-        Decreases the key of the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node whose key is to be reduced.
-        new_key
-            The new key of the given node,
-            should be less than the current key.
-        """
-        if node.key <= new_key:
-            raise ValueError("The new key "
-            "should be less than current node's key.")
-        node.key = new_key
-        while ((not node.is_root) and
-               (node.parent.key > node.key)):
-            node.parent.key, node.key = \
-                node.key, node.parent.key
-            node.parent.data, node.data = \
-                node.data, node.parent.data
-            node = node.parent
-
-    def delete(self, node):
-        """
-        Deletes the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node which is to be deleted.
-        """
-        self.decrease_key(node, self.find_minimum().key - 1)
-        self.delete_minimum()
+from pydatastructs.utils.misc_util import (
+    _check_type, TreeNode, BinomialTreeNode,
+    Backend, raise_if_backend_is_not_python)
+from pydatastructs.linear_data_structures.arrays import (
+     DynamicOneDimensionalArray, Array)
+from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
+
+__all__ = [
+    'BinaryHeap',
+    'TernaryHeap',
+    'DHeap',
+    'BinomialHeap'
+]
+
+class Heap(object):
+    """
+    Abstract class for representing heaps.
+    """
+    pass
+
+
+class DHeap(Heap):
+    """
+    Represents D-ary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple, Array
+        Optional, by default 'None'.
+        list/tuple/Array of initial TreeNode in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import DHeap
+    >>> min_heap = DHeap(heap_property="min", d=3)
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = DHeap(heap_property='max', d=2)
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    """
+    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
+
+    def __new__(cls, elements=None, heap_property="min", d=4,
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = Heap.__new__(cls)
+        obj.heap_property = heap_property
+        obj.d = d
+        if heap_property == "min":
+            obj._comp = lambda key_parent, key_child: key_parent <= key_child
+        elif heap_property == "max":
+            obj._comp = lambda key_parent, key_child: key_parent >= key_child
+        else:
+            raise ValueError("%s is invalid heap property"%(heap_property))
+        if elements is None:
+            elements = DynamicOneDimensionalArray(TreeNode, 0)
+        elif _check_type(elements, (list,tuple)):
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
+        elif _check_type(elements, Array):
+            elements = [node for node in elements._data if node is not None]
+            if not all(_check_type(node, TreeNode) for node in elements):
+                raise TypeError("Expected an Array of TreeNode.")
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
+        else:
+            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
+        obj.heap = elements
+        obj._last_pos_filled = obj.heap._last_pos_filled
+        obj._build()
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
+
+    def _build(self):
+        for i in range(self._last_pos_filled + 1):
+            self.heap[i]._leftmost, self.heap[i]._rightmost = \
+                self.d*i + 1, self.d*i + self.d
+        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
+            self._heapify(i)
+
+    def _swap(self, idx1, idx2):
+        idx1_key, idx1_data = \
+            self.heap[idx1].key, self.heap[idx1].data
+        self.heap[idx1].key, self.heap[idx1].data = \
+            self.heap[idx2].key, self.heap[idx2].data
+        self.heap[idx2].key, self.heap[idx2].data = \
+            idx1_key, idx1_data
+
+    def _heapify(self, i):
+        while True:
+            target = i
+            l = self.d*i + 1
+            r = self.d*i + self.d
+
+            for j in range(l, r+1):
+                if j <= self._last_pos_filled:
+                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
+                            else target
+                else:
+                    break
+
+            if target != i:
+                self._swap(target, i)
+                i = target
+            else:
+                break
+
+    def insert(self, key, data=None):
+        """
+        Insert a new element to the heap according to heap property.
+
+        Parameters
+        ==========
+
+        key
+            The key for comparison.
+        data
+            The data to be inserted.
+
+        Returns
+        =======
+
+        None
+        """
+        new_node = TreeNode(key, data)
+        self.heap.append(new_node)
+        self._last_pos_filled += 1
+        i = self._last_pos_filled
+        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
+
+        while True:
+            parent = (i - 1)//self.d
+            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
+                break
+            else:
+                self._swap(i, parent)
+                i = parent
+
+    def extract(self):
+        """
+        Extract root element of the Heap.
+
+        Returns
+        =======
+
+        root_element: TreeNode
+            The TreeNode at the root of the heap,
+            if the heap is not empty.
+
+        None
+            If the heap is empty.
+        """
+        if self._last_pos_filled == -1:
+            raise IndexError("Heap is empty.")
+        else:
+            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
+            self._swap(0, self._last_pos_filled)
+            self.heap.delete(self._last_pos_filled)
+            self._last_pos_filled -= 1
+            self._heapify(0)
+            return element_to_be_extracted
+
+    def __str__(self):
+        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
+        for i in range(self._last_pos_filled + 1):
+            node = self.heap[i]
+            if node._leftmost <= self._last_pos_filled:
+                if node._rightmost <= self._last_pos_filled:
+                    children = list(range(node._leftmost, node._rightmost + 1))
+                else:
+                    children = list(range(node._leftmost, self._last_pos_filled + 1))
+            else:
+                children = []
+            to_be_printed[i] = (node.key, node.data, children)
+        return str(to_be_printed)
+
+    @property
+    def is_empty(self):
+        """
+        Checks if the heap is empty.
+        """
+        return self.heap._last_pos_filled == -1
+
+
+class BinaryHeap(DHeap):
+    """
+    Represents Binary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import BinaryHeap
+    >>> min_heap = BinaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = BinaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 2)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class TernaryHeap(DHeap):
+    """
+    Represents Ternary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import TernaryHeap
+    >>> min_heap = TernaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    3
+
+    >>> max_heap = TernaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 3)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class BinomialHeap(Heap):
+    """
+    Represents binomial heap.
+
+    Parameters
+    ==========
+
+    root_list: list/tuple/Array
+        By default, []
+        The list of BinomialTree object references
+        in sorted order.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs import BinomialHeap
+    >>> b = BinomialHeap()
+    >>> b.insert(1, 1)
+    >>> b.insert(2, 2)
+    >>> b.find_minimum().key
+    1
+    >>> b.find_minimum().children[0].key
+    2
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
+    """
+    __slots__ = ['root_list']
+
+    def __new__(cls, root_list=None, **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        if root_list is None:
+            root_list = []
+        if not all((_check_type(root, BinomialTree))
+                for root in root_list):
+                    raise TypeError("The root_list should contain "
+                                    "references to objects of BinomialTree.")
+        obj = Heap.__new__(cls)
+        obj.root_list = root_list
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'merge_tree', 'merge', 'insert',
+        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
+        'delete_minimum']
+
+    def merge_tree(self, tree1, tree2):
+        """
+        Merges two BinomialTree objects.
+
+        Parameters
+        ==========
+
+        tree1: BinomialTree
+
+        tree2: BinomialTree
+        """
+        if (not _check_type(tree1, BinomialTree)) or \
+            (not _check_type(tree2, BinomialTree)):
+            raise TypeError("Both the trees should be of type "
+                            "BinomalTree.")
+        ret_value = None
+        if tree1.root.key <= tree2.root.key:
+            tree1.add_sub_tree(tree2)
+            ret_value = tree1
+        else:
+            tree2.add_sub_tree(tree1)
+            ret_value = tree2
+        return ret_value
+
+    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
+        """
+        Merges last tree node in root list with the incoming tree.
+        """
+        pos = -1
+        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
+            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
+        else:
+            new_root_list.append(new_tree)
+
+    def merge(self, other_heap):
+        """
+        Merges current binomial heap with the given binomial heap.
+
+        Parameters
+        ==========
+
+        other_heap: BinomialHeap
+        """
+        if not _check_type(other_heap, BinomialHeap):
+            raise TypeError("Other heap is not of type BinomialHeap.")
+        new_root_list = []
+        i, j = 0, 0
+        while (i < len(self.root_list)) and \
+              (j < len(other_heap.root_list)):
+            new_tree = None
+            while self.root_list[i] is None:
+                i += 1
+            while other_heap.root_list[j] is None:
+                j += 1
+            if self.root_list[i].order == other_heap.root_list[j].order:
+                new_tree = self.merge_tree(self.root_list[i],
+                                           other_heap.root_list[j])
+                i += 1
+                j += 1
+            else:
+                if self.root_list[i].order < other_heap.root_list[j].order:
+                    new_tree = self.root_list[i]
+                    i += 1
+                else:
+                    new_tree = other_heap.root_list[j]
+                    j += 1
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+
+        while i < len(self.root_list):
+            new_tree = self.root_list[i]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            i += 1
+        while j < len(other_heap.root_list):
+            new_tree = other_heap.root_list[j]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            j += 1
+        self.root_list = new_root_list
+
+    def insert(self, key, data=None):
+        """
+        Inserts new node with the given key and data.
+
+        key
+            The key of the node which can be operated
+            upon by relational operators.
+
+        data
+            The data to be stored in the new node.
+        """
+        new_node = BinomialTreeNode(key, data)
+        new_tree = BinomialTree(root=new_node, order=0)
+        new_heap = BinomialHeap(root_list=[new_tree])
+        self.merge(new_heap)
+
+    def find_minimum(self, **kwargs):
+        """
+        Finds the node with the minimum key.
+
+        Returns
+        =======
+
+        min_node: BinomialTreeNode
+        """
+        if self.is_empty:
+            raise IndexError("Binomial heap is empty.")
+        min_node = None
+        idx, min_idx = 0, None
+        for tree in self.root_list:
+            if ((min_node is None) or
+                (tree is not None and tree.root is not None and
+                 min_node.key > tree.root.key)):
+                min_node = tree.root
+                min_idx = idx
+            idx += 1
+        if kwargs.get('get_index', None) is not None:
+            return min_node, min_idx
+        return min_node
+
+    def delete_minimum(self):
+        """
+        Deletes the node with minimum key.
+        """
+        min_node, min_idx = self.find_minimum(get_index=True)
+        child_root_list = []
+        for k, child in enumerate(min_node.children):
+            if child is not None:
+                child_root_list.append(BinomialTree(root=child, order=k))
+        self.root_list.remove(self.root_list[min_idx])
+        child_heap = BinomialHeap(root_list=child_root_list)
+        self.merge(child_heap)
+
+    @property
+    def is_empty(self):
+        return not self.root_list
+
+    def decrease_key(self, node, new_key):
+        """
+        Decreases the key of the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node whose key is to be reduced.
+        new_key
+            The new key of the given node,
+            should be less than the current key.
+        """
+        if node.key <= new_key:
+            raise ValueError("The new key "
+            "should be less than current node's key.")
+        node.key = new_key
+        while ((not node.is_root) and
+               (node.parent.key > node.key)):
+            node.parent.key, node.key = \
+                node.key, node.parent.key
+            node.parent.data, node.data = \
+                node.data, node.parent.data
+            node = node.parent
+
+    def delete(self, node):
+        """
+        Deletes the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node which is to be deleted.
+        """
+        self.decrease_key(node, self.find_minimum().key - 1)
+        self.delete_minimum()
-- 
2.43.0


From 6390eebf2546197f4df84b95eedb7ef0355fc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:51 +0000
Subject: [PATCH 121/156] fix: sparse tables truncate values that are not
 integers

---
 pydatastructs/miscellaneous_data_structures/sparse_table.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/sparse_table.py b/pydatastructs/miscellaneous_data_structures/sparse_table.py
index 55ec4e9..2d6c3ae 100644
--- a/pydatastructs/miscellaneous_data_structures/sparse_table.py
+++ b/pydatastructs/miscellaneous_data_structures/sparse_table.py
@@ -1,4 +1,3 @@
-from pydatastructs.linear_data_structures.arrays import OneDimensionalArray
 from pydatastructs.utils.misc_util import (
     Backend, raise_if_backend_is_not_python)
 import math
@@ -65,7 +64,7 @@ class SparseTable(object):
         obj = object.__new__(cls)
         size = len(array)
         log_size = int(math.log2(size)) + 1
-        obj._table = [OneDimensionalArray(int, log_size) for _ in range(size)]
+        obj._table = [[None] * log_size for _ in range(size)]
         obj.func = func
 
         for i in range(size):
-- 
2.43.0


From 1e0b89f058ec9ecae6c63c9a04cd70e714eee1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 122/156] fix: binomial heaps built from a tuple or an array
 cannot delete

---
 pydatastructs/trees/heaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index e5b747e..6ca64ed 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -402,7 +402,7 @@ class BinomialHeap(Heap):
                     raise TypeError("The root_list should contain "
                                     "references to objects of BinomialTree.")
         obj = Heap.__new__(cls)
-        obj.root_list = root_list
+        obj.root_list = list(root_list)
         return obj
 
     @classmethod
-- 
2.43.0


From d140003e5c9e9006ef9eb2ec3491c91d4e45e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 123/156] fix: binomial heaps cannot delete keys from which one
 cannot be subtracted

---
 pydatastructs/trees/heaps.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 6ca64ed..2be2621 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -533,12 +533,18 @@ class BinomialHeap(Heap):
         """
         Deletes the node with minimum key.
         """
-        min_node, min_idx = self.find_minimum(get_index=True)
+        _, min_idx = self.find_minimum(get_index=True)
+        self._delete_root(min_idx)
+
+    def _delete_root(self, idx):
+        """
+        Helper method, deletes the root of the tree at the given index.
+        """
         child_root_list = []
-        for k, child in enumerate(min_node.children):
+        for k, child in enumerate(self.root_list[idx].root.children):
             if child is not None:
                 child_root_list.append(BinomialTree(root=child, order=k))
-        self.root_list.remove(self.root_list[min_idx])
+        self.root_list.pop(idx)
         child_heap = BinomialHeap(root_list=child_root_list)
         self.merge(child_heap)
 
@@ -581,5 +587,15 @@ class BinomialHeap(Heap):
         node: BinomialTreeNode
             The node which is to be deleted.
         """
-        self.decrease_key(node, self.find_minimum().key - 1)
-        self.delete_minimum()
+        if self.is_empty:
+            raise IndexError("Binomial heap is empty.")
+        while not node.is_root:
+            node.parent.key, node.key = \
+                node.key, node.parent.key
+            node.parent.data, node.data = \
+                node.data, node.parent.data
+            node = node.parent
+        for idx, tree in enumerate(self.root_list):
+            if tree.root is node:
+                self._delete_root(idx)
+                break
-- 
2.43.0


From 7f7c179a1e7fcb8bdb6e1ef39972e977f0d7ae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 124/156] fix: segment trees report segments that do not hold
 the point when endpoints are huge or infinite

---
 pydatastructs/trees/space_partitioning_trees.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pydatastructs/trees/space_partitioning_trees.py b/pydatastructs/trees/space_partitioning_trees.py
index 382775b..91e7c4a 100644
--- a/pydatastructs/trees/space_partitioning_trees.py
+++ b/pydatastructs/trees/space_partitioning_trees.py
@@ -79,16 +79,7 @@ class OneDimensionalSegmentTree(object):
         """
         if i1 is None or i2 is None:
             return False
-        if i1.key[2] < i2.key[1] or i2.key[2] < i1.key[1]:
-            return False
-        c1, c2 = None, None
-        if i1.key[2] == i2.key[1]:
-            c1 = (i1.key[3] and i2.key[0])
-        if i2.key[2] == i1.key[1]:
-            c2 = (i2.key[3] and i1.key[0])
-        if c1 is False and c2 is False:
-            return False
-        return True
+        return not (i1.key[2] < i2.key[1] or i2.key[2] < i1.key[1])
 
     def _contains(self, i1, i2):
         """
@@ -215,7 +206,9 @@ class OneDimensionalSegmentTree(object):
             init_node = self.root_idx
         qn = TreeNode([True, qx, qx, True], None)
         intervals = []
-        calls = [init_node]
+        calls = []
+        if self._intersect(qn, self.tree[init_node]):
+            calls.append(init_node)
         while calls:
             idx = calls.pop()
             if _check_type(self.tree[idx].data, list):
-- 
2.43.0


From 393a6ba3a1f41c7b58ccce415baba9c590b714ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 125/156] fix: segment trees of no segments fail on queries

---
 pydatastructs/trees/space_partitioning_trees.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/space_partitioning_trees.py b/pydatastructs/trees/space_partitioning_trees.py
index 91e7c4a..d649781 100644
--- a/pydatastructs/trees/space_partitioning_trees.py
+++ b/pydatastructs/trees/space_partitioning_trees.py
@@ -123,7 +123,7 @@ class OneDimensionalSegmentTree(object):
         Builds the segment tree from the segments,
         using iterative algorithm based on queues.
         """
-        if self.cache:
+        if self.cache or not self.segments:
             return None
         endpoints = []
         for segment in self.segments:
@@ -202,6 +202,8 @@ class OneDimensionalSegmentTree(object):
         """
         if not self.cache:
             self.build()
+        if not self.tree:
+            return set()
         if init_node is None:
             init_node = self.root_idx
         qn = TreeNode([True, qx, qx, True], None)
-- 
2.43.0


From db9d0468af8ba9980e5ef9bc7fb7335fd267676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 126/156] fix: skip lists take infinite keys for their
 sentinels and refuse keys that are not numbers

---
 pydatastructs/linear_data_structures/linked_lists.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 6161e55..92f4617 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -706,7 +706,7 @@ class SkipList(object):
         path = []
         node = self.head
         while node:
-            if node.next.key >= key:
+            if node.next.next is None or node.next.key >= key:
                 path.append(node)
                 node = node.down
             else:
@@ -714,7 +714,8 @@ class SkipList(object):
         return path
 
     def search(self, key) -> bool:
-        return self._search(key)[-1].next.key == key
+        node = self._search(key)[-1].next
+        return node.next is not None and node.key == key
 
     def insert(self, key, data=None):
         """
@@ -769,12 +770,12 @@ class SkipList(object):
         """
         path = self._search(key)
         tip = path[-1]
-        if tip.next.key != key:
+        if tip.next.next is None or tip.next.key != key:
             raise KeyError('Node with key %s is not there in %s'%(key, self))
         return_node = SkipNode(tip.next.key, tip.next.data)
         total_level = self._levels
         level = total_level - 1
-        while level >= 0 and path[level].next.key == key:
+        while level >= 0 and path[level].next.next is not None and path[level].next.key == key:
             path[level].next = path[level].next.next
             level -= 1
         walk = self.head
@@ -800,7 +801,7 @@ class SkipList(object):
             curr_node = walk
             col = 0
             while curr_node is not None:
-                if curr_node.key != math.inf and curr_node.key != -math.inf:
+                if curr_node is not walk and curr_node.next is not None:
                     node2row[curr_node] = curr_level
                     if walk.down is None:
                         node2col[curr_node.key] = col
-- 
2.43.0


From 500ca4687500d1ebb6b78ba1416b09e0338a20d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:56 +0000
Subject: [PATCH 127/156] fix: names C++ graph nodes cannot hold crash the
 interpreter, refused neighbours lose the old ones

---
 .../_backend/cpp/AdjacencyListGraphNode.hpp   | 25 +++++++++++--------
 .../utils/_backend/cpp/GraphNode.hpp          | 23 +++++++++++++----
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
index a6d0bbb..2cdaf31 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
@@ -123,12 +123,11 @@ static PyObject* AdjacencyListGraphNode_get_name(AdjacencyListGraphNode* self, v
 }
 
 static int AdjacencyListGraphNode_set_name(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
-    if (!value || !PyUnicode_Check(value)) {
+    if (!value) {
         PyErr_SetString(PyExc_TypeError, "name must be a string");
         return -1;
     }
-    self->name = PyUnicode_AsUTF8(value);
-    return 0;
+    return set_graph_node_name(self->name, value);
 }
 
 static PyObject* AdjacencyListGraphNode_get_data(AdjacencyListGraphNode* self, void* closure) {
@@ -176,11 +175,8 @@ static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyO
         return -1;
     }
 
-    for (auto& pair : self->adjacent) {
-        Py_XDECREF(pair.second);
-    }
-    self->adjacent.clear();
-
+    std::unordered_map<std::string, PyObject*> adjacent;
+    std::string name;
     PyObject *key, *val;
     Py_ssize_t pos = 0;
     while (PyDict_Next(value, &pos, &key, &val)) {
@@ -189,9 +185,16 @@ static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyO
             return -1;
         }
 
-        const char* key_str = PyUnicode_AsUTF8(key);
-        Py_INCREF(val);
-        self->adjacent[key_str] = val;
+        if (set_graph_node_name(name, key) < 0) return -1;
+        adjacent[name] = val;
+    }
+
+    for (auto& pair : adjacent) {
+        Py_INCREF(pair.second);
+    }
+    self->adjacent.swap(adjacent);
+    for (auto& pair : adjacent) {
+        Py_XDECREF(pair.second);
     }
 
     return 0;
diff --git a/pydatastructs/utils/_backend/cpp/GraphNode.hpp b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
index 3bc2540..f80b755 100644
--- a/pydatastructs/utils/_backend/cpp/GraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
@@ -56,6 +56,23 @@ static void set_graph_node_data(GraphNodeData& data, DataType& data_type, PyObje
     Py_XDECREF(old);
 }
 
+// Fails, with an exception set, for a name no C string can hold.
+static int set_graph_node_name(std::string& name, PyObject* value) {
+    if (!PyUnicode_Check(value)) {
+        PyErr_SetString(PyExc_TypeError, "name must be a string");
+        return -1;
+    }
+    Py_ssize_t length = 0;
+    const char* str = PyUnicode_AsUTF8AndSize(value, &length);
+    if (!str) return -1;
+    if (strlen(str) != static_cast<size_t>(length)) {
+        PyErr_SetString(PyExc_ValueError, "embedded null character");
+        return -1;
+    }
+    name = std::string(str, length);
+    return 0;
+}
+
 static void GraphNode_dealloc(GraphNode* self) {
     if (self->data_type == DataType::PyObject) {
         Py_XDECREF(std::get<PyObject*>(self->data));
@@ -129,11 +146,7 @@ static int GraphNode_set(GraphNode* self, PyObject *value, void *closure) {
     }
 
     if (strcmp(attr, "name") == 0) {
-        if (!PyUnicode_Check(value)) {
-            PyErr_SetString(PyExc_TypeError, "name must be a string");
-            return -1;
-        }
-        self->name = PyUnicode_AsUTF8(value);
+        return set_graph_node_name(self->name, value);
     } else if (strcmp(attr, "data") == 0) {
         set_graph_node_data(self->data, self->data_type, value);
     } else {
-- 
2.43.0


From 81248083744e5742050180f9dcf0e9d830262ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 128/156] fix: edges of the C++ backend cut texts at a null
 character

---
 pydatastructs/utils/_backend/cpp/GraphEdge.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
index 1635ab0..da28f98 100644
--- a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
@@ -37,10 +37,11 @@ static int set_graph_edge_value(GraphEdge* self, PyObject* value) {
         self->value_type = DataType::Double;
         self->value = PyFloat_AsDouble(value);
     } else if (PyUnicode_Check(value)) {
-        const char* str = PyUnicode_AsUTF8(value);
+        Py_ssize_t length = 0;
+        const char* str = PyUnicode_AsUTF8AndSize(value, &length);
         if (!str) return -1;
         self->value_type = DataType::String;
-        self->value = std::string(str);
+        self->value = std::string(str, length);
     } else {
         PyErr_SetString(PyExc_TypeError, "Unsupported edge value type (must be int, float, str, or None)");
         return -1;
@@ -114,7 +115,8 @@ static PyObject* GraphEdge_str(GraphEdge* self) {
             break;
     }
 
-    return PyUnicode_FromFormat("('%s', '%s', %s)", src.c_str(), tgt.c_str(), val_str.c_str());
+    std::string text = "('" + src + "', '" + tgt + "', " + val_str + ")";
+    return PyUnicode_FromStringAndSize(text.data(), text.size());
 }
 
 static PyObject* GraphEdge_get_value(GraphEdge* self, void* closure) {
@@ -124,7 +126,8 @@ static PyObject* GraphEdge_get_value(GraphEdge* self, void* closure) {
         case DataType::Double:
             return PyFloat_FromDouble(std::get<double>(self->value));
         case DataType::String:
-            return PyUnicode_FromString(std::get<std::string>(self->value).c_str());
+            return PyUnicode_FromStringAndSize(std::get<std::string>(self->value).data(),
+                                               std::get<std::string>(self->value).size());
         case DataType::None:
         default:
             Py_RETURN_NONE;
-- 
2.43.0


From 7003bc287db467cb63158888b2eff93e4641c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:31 +0000
Subject: [PATCH 129/156] fix: C++ graphs are corrupted when a vertex was
 renamed

---
 .../graphs/_backend/cpp/AdjacencyList.hpp       |  2 +-
 .../graphs/_backend/cpp/Algorithms.hpp          | 17 +++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
index 27b9494..9e3de10 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
@@ -206,7 +206,7 @@ static PyObject* AdjacencyListGraph_remove_vertex(AdjacencyListGraph* self, PyOb
 
     int id = it->second;
     AdjacencyListGraphNode* node_to_remove = self->id_map[id];
-    std::string name = node_to_remove->name;
+    std::string name(name_c);
 
     auto& nodes_vec = self->nodes;
     nodes_vec.erase(std::remove(nodes_vec.begin(), nodes_vec.end(), node_to_remove), nodes_vec.end());
diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 5804a80..e967090 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -49,7 +49,7 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
     HeldNodes held;
     q.push(start_node);
     held.add(start_node);
-    visited.insert(start_node->name);
+    visited.insert(source_name);
 
     while (!q.empty()) {
         AdjacencyListGraphNode* node = q.front();
@@ -134,19 +134,18 @@ static PyObject* breadth_first_search_adjacency_matrix(PyObject* self, PyObject*
         PyErr_SetString(PyExc_KeyError, "Source node not found in graph");
         return nullptr;
     }
-    AdjacencyMatrixGraphNode* start_node = it->second;
 
     std::unordered_set<std::string> visited;
-    std::queue<AdjacencyMatrixGraphNode*> q;
+    std::queue<std::string> q;
 
-    q.push(start_node);
+    q.push(source_name);
     visited.insert(source_name);
 
     while (!q.empty()) {
-        AdjacencyMatrixGraphNode* node = q.front();
+        std::string node_name = q.front();
         q.pop();
 
-        std::string node_name = reinterpret_cast<GraphNode*>(node)->name;
+        AdjacencyMatrixGraphNode* node = cpp_graph->node_map[node_name];
         auto& neighbors = cpp_graph->matrix[node_name];
 
         std::vector<std::string> adj_names;
@@ -185,7 +184,7 @@ static PyObject* breadth_first_search_adjacency_matrix(PyObject* self, PyObject*
             if (!go_on) Py_RETURN_NONE;
 
             visited.insert(adj_name);
-            q.push(adj_node);
+            q.push(adj_name);
         }
     }
 
@@ -241,7 +240,9 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
     AdjacencyListGraph* mst = reinterpret_cast<AdjacencyListGraph*>(mst_graph);
 
     if (graph->nodes.empty()) return mst_graph;
-    int start_id = graph->name_to_id[graph->nodes[0]->name];
+    // the first vertex has the smallest id
+    int start_id = graph->next_id;
+    for (const auto& [id, _] : graph->id_map) start_id = std::min(start_id, id);
     visited.insert(start_id);
 
     AdjacencyListGraphNode* start_node = graph->id_map[start_id];
-- 
2.43.0


From 507edde4aee648e2bb603ea2179cb18ad9d569b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:00 +0000
Subject: [PATCH 130/156] fix: C++ arrays crash the interpreter when the text
 of an element fails or cannot be encoded

---
 pydatastructs/utils/_backend/cpp/utils.hpp | 32 ++++++++++++----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 0a3978d..d602824 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -54,27 +54,31 @@ static PyObject* get_position(long position) {
 static const char* _encoding = "utf-8";
 static const char* _invalid_char = "<invalid-character>";
 
-static char* PyObject_AsString(PyObject* obj) {
-    return PyBytes_AS_STRING(PyUnicode_AsEncodedString(obj, _encoding, _invalid_char));
+// Only used for the texts of error messages.
+static const char* PyObject_AsString(PyObject* obj) {
+    PyObject* encoded = obj ? PyUnicode_AsEncodedString(obj, _encoding, "backslashreplace") : NULL;
+    if ( !encoded ) {
+        PyErr_Clear();
+        return _invalid_char;
+    }
+    return PyBytes_AS_STRING(encoded);
 }
 
 static PyObject* __str__(PyObject** array, size_t size, long last_pos_filled=-2) {
-    std::string array___str__ = "[";
     size_t end = last_pos_filled == -2 ? size : (size_t) (last_pos_filled + 1);
+    PyObject* texts = PyList_New(0);
     for( size_t i = 0; i < end; i++ ) {
-        if ( array[i] == Py_None ) {
-            array___str__.append("''");
-        } else {
-            PyObject* array_i = PyObject_Str(array[i]);
-            char* i___str__ = PyObject_AsString(array_i);
-            array___str__.append("'" + std::string(i___str__) + "'");
-        }
-        if ( i + 1 != end ) {
-            array___str__.append(", ");
+        PyObject* text = array[i] == Py_None ? PyUnicode_FromString("") : PyObject_Str(array[i]);
+        if ( !text || PyList_Append(texts, text) < 0 ) {
+            Py_XDECREF(text);
+            Py_DECREF(texts);
+            return NULL;
         }
+        Py_DECREF(text);
     }
-    array___str__.push_back(']');
-    return PyUnicode_FromString(array___str__.c_str());
+    PyObject* array___str__ = PyObject_Str(texts);
+    Py_DECREF(texts);
+    return array___str__;
 }
 
 static int set_exception_if_dtype_mismatch(PyObject* value, PyObject* dtype) {
-- 
2.43.0


From 45db6401eb99efea8af6e32eaf6825f0a5b61776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:00 +0000
Subject: [PATCH 131/156] fix: load factors without text crash the C++ dynamic
 arrays

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp                      | 3 ++-
 .../_backend/cpp/arrays/DynamicOneDimensionalArray.hpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 71b2422..2711f92 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -43,7 +43,8 @@ static PyObject* ArrayForTrees___new__(PyTypeObject* type, PyObject *args,
         PyErr_Clear();
         self->_load_factor = 0.25;
     } else {
-        _load_factor = PyFloat_FromString(PyObject_Str(_load_factor));
+        PyObject* load_factor_text = PyObject_Str(_load_factor);
+        _load_factor = load_factor_text ? PyFloat_FromString(load_factor_text) : NULL;
         if ( !_load_factor ) {
             return NULL;
         }
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index 61e5376..7f84a55 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -42,7 +42,8 @@ static PyObject* DynamicOneDimensionalArray___new__(PyTypeObject* type, PyObject
         PyErr_Clear();
         self->_load_factor = 0.25;
     } else {
-        _load_factor = PyFloat_FromString(PyObject_Str(_load_factor));
+        PyObject* load_factor_text = PyObject_Str(_load_factor);
+        _load_factor = load_factor_text ? PyFloat_FromString(load_factor_text) : NULL;
         if ( !_load_factor ) {
             return NULL;
         }
-- 
2.43.0


From be08d1844d374996d1e2e8a5cb2cb7d139c2af20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:35 +0000
Subject: [PATCH 132/156] fix: calling methods of C++ trees without a key
 crashes the interpreter

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp  |  5 +++-
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 26 ++++++++++++++-----
 .../trees/_backend/cpp/RedBlackTree.hpp       |  7 ++++-
 .../trees/_backend/cpp/SplayTree.hpp          | 17 +++++++++---
 4 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 99e9f50..687268c 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -304,7 +304,10 @@ static PyObject* AVLTree__balance_delete(AVLTree* self, PyObject *args) {
 }
 
 static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
+    PyObject* key = Py_None;
+    if (!PyArg_ParseTuple(args, "O", &key)) {
+        return NULL;
+    }
 
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
     if (!node_idx || node_idx == Py_None) {
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index a1aba16..d01e7cf 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -440,12 +440,20 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
 }
 
 static PyObject* BinarySearchTree_lower_bound(BinarySearchTree* self, PyObject *args, PyObject* kwds) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
+    PyObject* key = Py_None;
+    static char* keywords[] = {"key", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O", keywords, &key)) {
+        return NULL;
+    }
     return BinarySearchTree__bound_helper(self, Py_BuildValue("(OOO)", self->binary_tree->root_idx, key, Py_False));
 }
 
 static PyObject* BinarySearchTree_upper_bound(BinarySearchTree* self, PyObject *args, PyObject* kwds) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
+    PyObject* key = Py_None;
+    static char* keywords[] = {"key", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O", keywords, &key)) {
+        return NULL;
+    }
     return BinarySearchTree__bound_helper(self, Py_BuildValue("(OOO)", self->binary_tree->root_idx, key, Py_True));
 }
 
@@ -659,7 +667,10 @@ static PyObject* BinarySearchTree_lowest_common_ancestor(BinarySearchTree* self,
 }
 
 static PyObject* BinarySearchTree_rank(BinarySearchTree* self, PyObject* args) {
-    PyObject* x = PyObject_GetItem(args, PyZero);
+    PyObject* x = Py_None;
+    if (!PyArg_ParseTuple(args, "O", &x)) {
+        return NULL;
+    }
     PyObject* walk = BinarySearchTree_search(self, Py_BuildValue("(O)",x), PyDict_New());
     if (!walk) {
         return NULL;
@@ -680,12 +691,15 @@ static PyObject* BinarySearchTree_rank(BinarySearchTree* self, PyObject* args) {
 }
 
 static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args) {
-    long i = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    i = i - 1;
-    if (i < 0) {
+    long i;
+    if (!PyArg_ParseTuple(args, "l", &i)) {
+        return NULL;
+    }
+    if (i < 1) {
         PyErr_SetString(PyExc_ValueError, "Expected a positive integer");
         return NULL;
     }
+    i = i - 1;
     BinaryTree* bt = self->binary_tree;
     if (i >= bt->tree->_num || get_key(bt, bt->root_idx) == Py_None) {
         PyErr_SetString(PyExc_ValueError, "Integer passed to select() is greater than the size of the tree.");
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index c229d5c..1877fe0 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -568,7 +568,12 @@ static PyObject* RedBlackTree___two_child_case(RedBlackTree* self, PyObject *arg
 }
 
 static PyObject* RedBlackTree_delete(RedBlackTree* self, PyObject *args, PyObject *kwds) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
+    PyObject* key = Py_None;
+    PyObject* balancing_info = Py_None;
+    static char* keywords[] = {"key","balancing_info", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &balancing_info)) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* walk = BinarySearchTree_search(self->sbbt->bst, Py_BuildValue("(O)", key), PyDict_New());
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 91d29b2..553ed7d 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -129,8 +129,11 @@ static PyObject* SplayTree_splay(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
-    PyObject* x = PyObject_GetItem(args, PyOne);
+    PyObject* key = Py_None;
+    PyObject* x = Py_None;
+    if (!PyArg_ParseTuple(args, "O|O", &key, &x)) { // data is optional
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     if (!SelfBalancingBinaryTree_insert(self->sbbt, args)) {
@@ -147,7 +150,10 @@ static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_delete(SplayTree *self, PyObject* args) {
-    PyObject* x = PyObject_GetItem(args, PyZero);
+    PyObject* x = Py_None;
+    if (!PyArg_ParseTuple(args, "O", &x)) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* kwd_parent = PyDict_New();
@@ -292,7 +298,10 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
-    PyObject* x = PyObject_GetItem(args, PyZero);
+    PyObject* x = Py_None;
+    if (!PyArg_ParseTuple(args, "O", &x)) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* kwd_parent = PyDict_New();
-- 
2.43.0


From 51d15a4343df5ed005c38bc21550d5e5b87deb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 133/156] fix: joining a C++ splay tree with anything else
 crashes the interpreter

---
 pydatastructs/trees/_backend/cpp/SplayTree.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 553ed7d..6faf183 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -197,7 +197,15 @@ static PyObject* SplayTree__pre_order(SplayTree* self, PyObject *args) {
 }
 
 static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
-    SplayTree* other = reinterpret_cast<SplayTree*>(PyObject_GetItem(args, PyZero));
+    PyObject* other_tree = Py_None;
+    if (!PyArg_ParseTuple(args, "O", &other_tree)) {
+        return NULL;
+    }
+    if (!PyObject_TypeCheck(other_tree, self->type)) {
+        PyErr_SetString(PyExc_TypeError, "Only a splay tree of the C++ backend can be joined.");
+        return NULL;
+    }
+    SplayTree* other = reinterpret_cast<SplayTree*>(other_tree);
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     BinaryTree* obt = other->sbbt->bst->binary_tree;
 
-- 
2.43.0


From 663257400e2a6880eb1b7b82fa68762d9d1daefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:08 +0000
Subject: [PATCH 134/156] fix: C++ AVL trees take anything as their array or as
 a node and crash

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp | 21 ++++++++++++++++++--
 pydatastructs/utils/_backend/cpp/utils.hpp   |  6 ++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 687268c..63ed4fc 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -44,7 +44,17 @@ static PyObject* AVLTree___str__(AVLTree *self) {
 }
 
 static PyObject* AVLTree_set_tree(AVLTree* self, PyObject *args) {
-    ArrayForTrees* arr = reinterpret_cast<ArrayForTrees*>(PyObject_GetItem(args, PyZero));
+    PyObject* array = Py_None;
+    if (!PyArg_ParseTuple(args, "O", &array)) {
+        return NULL;
+    }
+    if (!_check_compiled_type(array, &ArrayForTreesType) &&
+        !_check_compiled_type(array, &DynamicOneDimensionalArrayType)) {
+        PyErr_SetString(PyExc_TypeError, "Expected a dynamic array of the C++ backend.");
+        return NULL;
+    }
+    Py_INCREF(array);
+    ArrayForTrees* arr = reinterpret_cast<ArrayForTrees*>(array);
     self->sbbt->bst->binary_tree->tree = arr;
     self->tree = self->sbbt->bst->binary_tree->tree;
     Py_RETURN_NONE;
@@ -77,7 +87,14 @@ static long AVLTree_right_height(AVLTree* self, PyObject *args) {
 }
 
 static PyObject* AVLTree_balance_factor(AVLTree* self, PyObject *args) {
-    TreeNode* node = reinterpret_cast<TreeNode*>(PyObject_GetItem(args, PyZero));
+    PyObject* node = Py_None;
+    if (!PyArg_ParseTuple(args, "O", &node)) {
+        return NULL;
+    }
+    if (!_check_compiled_type(node, &TreeNodeType)) {
+        PyErr_SetString(PyExc_TypeError, "Expected a TreeNode of the C++ backend.");
+        return NULL;
+    }
     return PyLong_FromLong(AVLTree_right_height(self, Py_BuildValue("(O)", node)) - AVLTree_left_height(self, Py_BuildValue("(O)", node)));
 }
 
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index d602824..3503923 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -117,6 +117,12 @@ static int _check_type(PyObject* arg, PyTypeObject* type) {
     return strcmp(arg->ob_type->tp_name, type->tp_name) == 0;
 }
 
+// Every extension module has its own copies of the types of the C++ backend,
+// and classes of the Python backend have the same names.
+static int _check_compiled_type(PyObject* arg, PyTypeObject* type) {
+    return _check_type(arg, type) && !PyType_HasFeature(Py_TYPE(arg), Py_TPFLAGS_HEAPTYPE);
+}
+
 static int _comp(PyObject* u, PyObject* v, PyObject* tcomp) {
     int u_isNone = u == Py_None;
     int v_isNone = v == Py_None;
-- 
2.43.0


From 44c33cd5ba895e4e6b7a1d9601b63786cd60b528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:08 +0000
Subject: [PATCH 135/156] fix: traversals of C++ trees read outside of the tree
 when the given node does not exist

---
 .../_backend/cpp/BinaryTreeTraversal.hpp      | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
index a335434..0e2de64 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
@@ -35,6 +35,9 @@ static PyObject* BinaryTreeTraversal___new__(PyTypeObject* type, PyObject *args,
     self = reinterpret_cast<BinaryTreeTraversal*>(type->tp_alloc(type, 0));
 
     PyObject* tree = PyObject_GetItem(args, PyZero);
+    if (!tree) {
+        return NULL;
+    }
     if (PyType_Ready(&BinarySearchTreeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
@@ -87,6 +90,20 @@ static PyObject* BinaryTreeTraversal___new__(PyTypeObject* type, PyObject *args,
     return reinterpret_cast<PyObject*>(self);
 }
 
+// Returns the position at which the traversal starts or NULL if there is no such node.
+static PyObject* BinaryTreeTraversal__get_start(BinaryTreeTraversal* self, PyObject* node) {
+    long index = PyLong_AsLong(node == Py_None ? self->tree->root_idx : node);
+    if (index == -1 && PyErr_Occurred()) {
+        return NULL;
+    }
+    ArrayForTrees* tree = self->tree->tree;
+    if (index < 0 || index > tree->_last_pos_filled || tree->_one_dimensional_array->_data[index] == Py_None) {
+        PyErr_Format(PyExc_IndexError, "There is no node at the index %ld of the tree.", index);
+        return NULL;
+    }
+    return get_position(index);
+}
+
 static PyObject* BinaryTreeTraversal__pre_order(BinaryTreeTraversal* self, PyObject *args) {
     long node = PyLong_AsLong(PyObject_GetItem(args, PyZero));
     PyObject* visit = PyList_New(0);
@@ -188,8 +205,9 @@ static PyObject* BinaryTreeTraversal_depth_first_search(BinaryTreeTraversal* sel
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "|UO", keywords, &order, &node)) {
         return NULL;
     }
-    if (node == Py_None) {
-        node = self->tree->root_idx;
+    node = BinaryTreeTraversal__get_start(self, node);
+    if (!node) {
+        return NULL;
     }
     if (PyUnicode_Compare(order, PyUnicode_FromString("pre_order")) == 0) {
         return BinaryTreeTraversal__pre_order(self, Py_BuildValue("(O)", node));
@@ -218,8 +236,9 @@ static PyObject* BinaryTreeTraversal_breadth_first_search(BinaryTreeTraversal* s
         return NULL;
     }
     if (PyUnicode_Compare(strategy, PyUnicode_FromString("queue")) == 0) {
-        if (node == Py_None) {
-            node = self->tree->root_idx;
+        node = BinaryTreeTraversal__get_start(self, node);
+        if (!node) {
+            return NULL;
         }
         std::queue<PyObject*> q;
         PyObject* visit = PyList_New(0);
-- 
2.43.0


From 4eb828414ef13e998fed417d34d0d892196451bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:55 +0000
Subject: [PATCH 136/156] fix: keys without hash and flags without truth crash
 C++ trees

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 10 +++++++---
 pydatastructs/trees/_backend/cpp/BinaryTree.hpp       |  9 ++++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index d01e7cf..3d24cb0 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -164,6 +164,9 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
     if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
+    if (PyObject_Hash(key) == -1) { // nodes are found by their keys when the array of nodes is compacted
+        return NULL;
+    }
 
     PyObject* parent = PyLong_FromLong(0);
 
@@ -599,11 +602,12 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         }
 
         if (curr_root == u || curr_root == v) {
-            if (curr_root == Py_None) {
-                Py_RETURN_NONE;
-            }
             return get_key(bt, curr_root);
         }
+        if (curr_root == Py_None) { // the comparator contradicts the tree
+            PyErr_SetString(PyExc_ValueError, "One of the nodes doesn't exist.");
+            return NULL;
+        }
 
         if (!PyCallable_Check(bt->comparator)) {
             PyErr_SetString(PyExc_ValueError, "comparator should be callable");
diff --git a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
index 6126f27..abf2533 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
@@ -36,6 +36,9 @@ static PyObject* BinaryTree___new__(PyTypeObject* type, PyObject *args, PyObject
         PyErr_SetString(PyExc_ValueError, "Key required.");
         return NULL;
     }
+    if (PyObject_Hash(key) == -1) { // nodes are found by their keys when the array of nodes is compacted
+        return NULL;
+    }
     Py_INCREF(Py_None);
     key = root_data == Py_None ? Py_None : key;
 
@@ -75,7 +78,11 @@ static PyObject* BinaryTree___new__(PyTypeObject* type, PyObject *args, PyObject
             return NULL;
     }
     self->comparator = comp;
-    self->is_order_statistic = PyLong_AsLong(is_order_statistic);
+    int order_statistic = PyObject_IsTrue(is_order_statistic);
+    if (order_statistic == -1) {
+        return NULL;
+    }
+    self->is_order_statistic = order_statistic;
 
     return reinterpret_cast<PyObject*>(self);
 }
-- 
2.43.0


From 928002c44ae5e6c9c96d42046c08e564b79733a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:55 +0000
Subject: [PATCH 137/156] fix: inserting with an inconsistent comparator
 crashes self balancing C++ trees

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp          |  2 +-
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 10 ++++++++++
 pydatastructs/trees/_backend/cpp/CartesianTree.hpp    |  5 ++++-
 pydatastructs/trees/_backend/cpp/RedBlackTree.hpp     |  5 ++++-
 pydatastructs/trees/_backend/cpp/SplayTree.hpp        | 10 +++++-----
 5 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 63ed4fc..1aaeca9 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -259,7 +259,7 @@ static PyObject* AVLTree_insert(AVLTree* self, PyObject *args) {
         return NULL;
     }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
-    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    PyObject* node_idx = BinarySearchTree__search_inserted(self->sbbt->bst, key);
     if (!node_idx) {
         return NULL;
     }
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 3d24cb0..c58ae71 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -156,6 +156,16 @@ static PyObject* BinarySearchTree__append_node(BinarySearchTree* self, TreeNode*
     return new_node->parent;
 }
 
+// Looks for a key which was just inserted, sets an exception if it cannot be found.
+static PyObject* BinarySearchTree__search_inserted(BinarySearchTree* self, PyObject* key) {
+    PyObject* node_idx = BinarySearchTree_search(self, Py_BuildValue("(O)", key), PyDict_New());
+    if (node_idx == Py_None) {
+        PyErr_SetString(PyExc_ValueError, "The comparator does not order the keys consistently.");
+        return NULL;
+    }
+    return node_idx;
+}
+
 static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args) {
     Py_INCREF(Py_None);
     PyObject* key = Py_None;
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 350db14..03ca908 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -142,7 +142,10 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     if (!SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data))) {
         return NULL;
     }
-    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    PyObject* node_idx = BinarySearchTree__search_inserted(self->sbbt->bst, key);
+    if (!node_idx) {
+        return NULL;
+    }
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
     if (PyType_Ready(&TreeNodeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 1877fe0..174ab30 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -176,7 +176,10 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     if (present_idx != Py_None) {
         Py_RETURN_NONE;
     }
-    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    PyObject* node_idx = BinarySearchTree__search_inserted(self->sbbt->bst, key);
+    if (!node_idx) {
+        return NULL;
+    }
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 6faf183..d2196e9 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -139,11 +139,11 @@ static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
     if (!SelfBalancingBinaryTree_insert(self->sbbt, args)) {
         return NULL;
     }
-    PyObject* kwd_parent = PyDict_New();
-    PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
-    PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), kwd_parent);
-    PyObject* e = PyTuple_GetItem(tup, 0);
-    PyObject* p = PyTuple_GetItem(tup, 1);
+    PyObject* e = BinarySearchTree__search_inserted(self->sbbt->bst, key);
+    if (!e) {
+        return NULL;
+    }
+    PyObject* p = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(e)])->parent;
     SplayTree_splay(self, Py_BuildValue("(OO)", e, p));
 
     Py_RETURN_NONE;
-- 
2.43.0


From bd79749568cb69c81fbcda2ee054a405838c8332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:17 +0000
Subject: [PATCH 138/156] fix: the size of C++ arrays can overflow

---
 .../_backend/cpp/arrays/OneDimensionalArray.hpp              | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
index 9bbae3c..97c3fa0 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
@@ -176,6 +176,11 @@ static PyObject* OneDimensionalArray___new__(PyTypeObject* type, PyObject *args,
                 Py_DECREF(args0);
                 return NULL;
             }
+            if (self->_size > PY_SSIZE_T_MAX / sizeof(PyObject*)) {
+                Py_DECREF(args0);
+                PyErr_NoMemory();
+                return NULL;
+            }
             self->_data = reinterpret_cast<PyObject**>(std::malloc(self->_size * sizeof(PyObject*)));
             if (!self->_data) {
                 Py_DECREF(args0);
-- 
2.43.0


From d96070fcb90c2b6da32ac05fd8907f8e2ad0d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 139/156] fix: wrong ranges, missing values and failing
 comparators crash or hang C++ searching and sorting

---
 .../cpp/algorithms/misc_algorithms.hpp        | 78 +++++++++++++++++--
 .../cpp/algorithms/quadratic_time_sort.hpp    | 60 +++++++++++++-
 .../_backend/cpp/algorithms/quick_sort.hpp    | 27 ++++++-
 3 files changed, 152 insertions(+), 13 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 96b09ba..a441789 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -15,11 +15,17 @@ static bool is_ordered_impl(PyObject* array, size_t lower, size_t upper,
         PyObject* i1_PyObject = PyLong_FromSize_t(i-1);
         PyObject* i_item = PyObject_GetItem(array, i_PyObject);
         PyObject* i1_item = PyObject_GetItem(array, i1_PyObject);
+        if ( i_item == NULL || i1_item == NULL ) {
+            return false;
+        }
         if (i_item == Py_None || i1_item == Py_None) continue;
         if ( _comp(i_item, i1_item, comp) == 1 &&
              _comp(i1_item, i_item, comp) != 1 ) {
             return false;
         }
+        if ( PyErr_Occurred() ) {
+            return false;
+        }
     }
     return true;
 }
@@ -29,6 +35,9 @@ static PyObject* is_ordered(PyObject* self, PyObject* args, PyObject* kwds) {
     PyObject *comp = NULL, *res = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
@@ -53,8 +62,14 @@ static PyObject* is_ordered(PyObject* self, PyObject* args, PyObject* kwds) {
     } else {
         upper = PyLong_AsSize_t(end);
     }
+    if ( PyErr_Occurred() ) {
+        return NULL;
+    }
 
     bool _res = is_ordered_impl(args0, lower, upper, comp);
+    if ( PyErr_Occurred() ) {
+        return NULL;
+    }
     res = PyBool_FromLong(_res);
     Py_INCREF(res);
     return res;
@@ -65,6 +80,9 @@ static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
     PyObject *value = NULL, *res = NULL, *u = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
@@ -85,13 +103,20 @@ static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
     } else {
         upper = PyLong_AsSize_t(end);
     }
+    if ( PyErr_Occurred() ) {
+        return NULL;
+    }
     value = PyObject_GetItem(args, PyLong_FromSize_t(1));
     if ( value == NULL ) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
+        return NULL;
     }
     for (size_t i = lower;  i < upper + 1; i++) {
         u = PyObject_GetItem(args0, PyLong_FromSize_t(i));
+        if ( u == NULL ) {
+            return NULL;
+        }
         int result = PyObject_RichCompareBool(u, value, Py_EQ);
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
@@ -99,6 +124,7 @@ static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
                 PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
                 PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
             );
+            return NULL;
         } else if (result == 1) {
             if (i == 0) {
                 res = PyZero;
@@ -119,6 +145,9 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
     PyObject *value = NULL, *res = NULL, *u = NULL, *comp = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
@@ -143,17 +172,28 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
     } else {
         upper = PyLong_AsSize_t(end);
     }
+    if ( PyErr_Occurred() ) {
+        return NULL;
+    }
     value = PyObject_GetItem(args, PyLong_FromSize_t(1));
     if ( value == NULL ) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
+        return NULL;
     }
 
-    int left = lower, right = upper;
+    int64_t left = lower, right = upper;
+    if ( left < 0 ) {
+        PyErr_SetString(PyExc_IndexError, "Index out of range.");
+        return NULL;
+    }
     while (left <= right)
     {
-        int middle = left/2 + right/2 + left % 2 * right % 2;
+        int64_t middle = left/2 + right/2 + left % 2 * right % 2;
         u = PyObject_GetItem(args0, PyLong_FromSize_t(middle));
+        if ( u == NULL ) {
+            return NULL;
+        }
         int result = PyObject_RichCompareBool(u, value, Py_EQ);
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
@@ -161,6 +201,7 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
                 PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
                 PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
             );
+            return NULL;
         } else if (result == 1) {
             if (middle == 0) {
                 res = PyZero;
@@ -175,6 +216,9 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
         } else {
             right = middle - 1;
         }
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
     res = Py_None;
     Py_INCREF(res);
@@ -186,6 +230,9 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
     PyObject *value = NULL, *res = NULL, *u = NULL, *comp = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
@@ -210,26 +257,40 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
     } else {
         upper = PyLong_AsSize_t(end);
     }
+    if ( PyErr_Occurred() ) {
+        return NULL;
+    }
     value = PyObject_GetItem(args, PyLong_FromSize_t(1));
     if ( value == NULL ) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
+        return NULL;
     }
-    int step = int(sqrt(double(upper - lower + 1)));
-    int prev = lower;
-    int element_pos = prev;
+    int64_t last = upper;
+    int64_t prev = lower;
+    if ( last < prev ) {
+        Py_RETURN_NONE;
+    }
+    int64_t step = int64_t(sqrt(double(last - prev + 1)));
+    int64_t element_pos = prev;
     u = PyObject_GetItem(args0, PyLong_FromSize_t(element_pos));
-    while (element_pos <= upper && _comp(u, value, comp) == 1) {
+    while (u != NULL && _comp(u, value, comp) == 1) {
         prev = element_pos;
         element_pos += step;
-        if (element_pos > upper) {
+        if (element_pos > last) {
             break;
         }
         u = PyObject_GetItem(args0, PyLong_FromSize_t(element_pos));
     }
+    if ( PyErr_Occurred() ) {
+        return NULL;
+    }
 
-    while (prev <= upper) {
+    while (prev <= last) {
         u = PyObject_GetItem(args0, PyLong_FromSize_t(prev));
+        if ( u == NULL ) {
+            return NULL;
+        }
         int result = PyObject_RichCompareBool(u, value, Py_EQ);
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
@@ -237,6 +298,7 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
                 PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
                 PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
             );
+            return NULL;
         } else if (result == 1) {
             if (prev == 0) {
                 res = PyZero;
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index dd1bbc9..58e13f9 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -15,8 +15,16 @@ static PyObject* bubble_sort_impl(PyObject* array, size_t lower, size_t upper,
         for (size_t j = lower; j < upper; j++) {
             PyObject* j_PyObject = PyLong_FromSize_t(j);
             PyObject* j1_PyObject = PyLong_FromSize_t(j+1);
-            if ( _comp(PyObject_GetItem(array, j_PyObject),
-                        PyObject_GetItem(array, j1_PyObject), comp) != 1 ) {
+            PyObject* j_item = PyObject_GetItem(array, j_PyObject);
+            PyObject* j1_item = PyObject_GetItem(array, j1_PyObject);
+            if ( j_item == NULL || j1_item == NULL ) {
+                return NULL;
+            }
+            int in_order = _comp(j_item, j1_item, comp);
+            if ( PyErr_Occurred() ) {
+                return NULL;
+            }
+            if ( in_order != 1 ) {
                 PyObject* tmp = PyObject_GetItem(array, j1_PyObject);
                 PyObject_SetItem(array, j1_PyObject,
                                 PyObject_GetItem(array, j_PyObject));
@@ -33,6 +41,9 @@ static PyObject* bubble_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     PyObject *comp = NULL, *pick_pivot_element = NULL;
     size_t lower, upper, arr_length;
     args0 = PyObject_GetItem(args, PyZero);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
@@ -57,9 +68,15 @@ static PyObject* bubble_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     } else {
         upper = PyLong_AsSize_t(end);
     }
+    if ( PyErr_Occurred() ) {
+        return NULL;
+    }
     arr_length = PyObject_Length(args0);
 
     args0 = bubble_sort_impl(args0, lower, upper, comp, arr_length);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
@@ -592,12 +609,23 @@ static PyObject* selection_sort_impl(PyObject* array, size_t lower, size_t upper
         PyObject* i_PyObject = PyLong_FromSize_t(i);
         for (size_t j = i + 1; j < upper + 1; j++) {
             PyObject* j_PyObject = PyLong_FromSize_t(j);
-            if ( _comp(PyObject_GetItem(array, j_min_PyObject),
-                        PyObject_GetItem(array, j_PyObject), comp) != 1 ) {
+            PyObject* j_min_item = PyObject_GetItem(array, j_min_PyObject);
+            PyObject* j_item = PyObject_GetItem(array, j_PyObject);
+            if ( j_min_item == NULL || j_item == NULL ) {
+                return NULL;
+            }
+            int in_order = _comp(j_min_item, j_item, comp);
+            if ( PyErr_Occurred() ) {
+                return NULL;
+            }
+            if ( in_order != 1 ) {
                 j_min_PyObject = j_PyObject;
             }
         }
         PyObject* tmp = PyObject_GetItem(array, j_min_PyObject);
+        if ( tmp == NULL ) {
+            return NULL;
+        }
         PyObject_SetItem(array, j_min_PyObject,
                         PyObject_GetItem(array, i_PyObject));
         PyObject_SetItem(array, i_PyObject, tmp);
@@ -611,6 +639,9 @@ static PyObject* selection_sort(PyObject* self, PyObject* args, PyObject* kwds)
     PyObject *comp = NULL, *pick_pivot_element = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
@@ -635,8 +666,14 @@ static PyObject* selection_sort(PyObject* self, PyObject* args, PyObject* kwds)
     } else {
         upper = PyLong_AsSize_t(end);
     }
+    if ( PyErr_Occurred() ) {
+        return NULL;
+    }
 
     args0 = selection_sort_impl(args0, lower, upper, comp);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
@@ -1168,9 +1205,15 @@ static PyObject* insertion_sort_impl(PyObject* array, size_t lower, size_t upper
     for (size_t i = lower + 1; i < upper + 1; i++) {
         PyObject* i_PyObject = PyLong_FromSize_t(i);
         PyObject* temp = PyObject_GetItem(array, i_PyObject);
+        if ( temp == NULL ) {
+            return NULL;
+        }
         size_t j = i;
         while (j > lower && _comp(PyObject_GetItem(array, PyLong_FromSize_t(j-1)),
                         temp, comp) != 1) {
+            if ( PyErr_Occurred() ) {
+                return NULL;
+            }
             PyObject_SetItem(array, PyLong_FromSize_t(j),
                         PyObject_GetItem(array, PyLong_FromSize_t(j-1)));
             j -= 1;
@@ -1185,6 +1228,9 @@ static PyObject* insertion_sort(PyObject* self, PyObject* args, PyObject* kwds)
     PyObject *comp = NULL, *pick_pivot_element = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
@@ -1209,8 +1255,14 @@ static PyObject* insertion_sort(PyObject* self, PyObject* args, PyObject* kwds)
     } else {
         upper = PyLong_AsSize_t(end);
     }
+    if ( PyErr_Occurred() ) {
+        return NULL;
+    }
 
     args0 = insertion_sort_impl(args0, lower, upper, comp);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index 4c39648..9379532 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -25,9 +25,15 @@ static size_t quick_sort_partition(size_t low, size_t high,
     PyObject* pick_pivot_element, PyObject* comp, PyObject* array) {
     int64_t i = low - 1;
     PyObject* x = call_pick_pivot_element(pick_pivot_element, low, high, array);
+    if ( x == NULL ) {
+        return low;
+    }
     for( size_t j = low; j < high; j++ ) {
         PyObject* j_PyObject = PyLong_FromSize_t(j);
         PyObject* j_item = PyObject_GetItem(array, j_PyObject);
+        if ( j_item == NULL ) {
+            return low;
+        }
         if ( j_item == x ) {
             PyObject* high_PyObject = PyLong_FromSize_t(high);
             PyObject_SetItem(array, j_PyObject,
@@ -38,7 +44,11 @@ static size_t quick_sort_partition(size_t low, size_t high,
     }
     for( size_t j = low; j < high; j++ ) {
         PyObject* j_PyObject = PyLong_FromSize_t(j);
-        if ( _comp(PyObject_GetItem(array, j_PyObject), x, comp) == 1 ) {
+        PyObject* j_item = PyObject_GetItem(array, j_PyObject);
+        if ( j_item == NULL ) {
+            return low;
+        }
+        if ( _comp(j_item, x, comp) == 1 ) {
             i = i + 1;
             PyObject* i_PyObject = PyLong_FromLongLong(i);
             PyObject* tmp = PyObject_GetItem(array, i_PyObject);
@@ -46,6 +56,9 @@ static size_t quick_sort_partition(size_t low, size_t high,
                              PyObject_GetItem(array, j_PyObject));
             PyObject_SetItem(array, j_PyObject, tmp);
         }
+        if ( PyErr_Occurred() ) {
+            return low;
+        }
     }
     PyObject* i_PyObject = PyLong_FromLongLong(i + 1);
     PyObject* high_PyObject = PyLong_FromSize_t(high);
@@ -76,6 +89,9 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
         rstack.pop();
         p = quick_sort_partition(low, high, pick_pivot_element,
                                  comp, array);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
         if ( p > low + 1 ) {
             rstack.push(low);
             rstack.push(p - 1);
@@ -94,6 +110,9 @@ static PyObject* quick_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     PyObject *comp = NULL, *pick_pivot_element = NULL;
     size_t lower, upper;
     args0 = PyObject_GetItem(args, PyZero);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
@@ -122,8 +141,14 @@ static PyObject* quick_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     } else {
         upper = PyLong_AsSize_t(end);
     }
+    if ( PyErr_Occurred() ) {
+        return NULL;
+    }
 
     args0 = quick_sort_impl(args0, lower, upper, comp, pick_pivot_element);
+    if ( args0 == NULL ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
-- 
2.43.0


From 192633674e711d2da02a107f22571d8d8bdcd5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 140/156] fix: filled dynamic arrays lose their elements, C++
 ones write behind their memory

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp      | 18 +++++++++++++++++-
 .../cpp/arrays/DynamicOneDimensionalArray.hpp  | 18 +++++++++++++++++-
 pydatastructs/linear_data_structures/arrays.py |  5 +++++
 3 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 2711f92..91e53a9 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -72,7 +72,14 @@ static int ArrayForTrees___setitem__(ArrayForTrees *self,
 }
 
 static PyObject* ArrayForTrees_fill(ArrayForTrees *self, PyObject *args) {
-    return OneDimensionalArray_fill(self->_one_dimensional_array, args);
+    PyObject* res = OneDimensionalArray_fill(self->_one_dimensional_array, args);
+    if ( !res ) {
+        return NULL;
+    }
+    bool is_empty = PyTuple_GetItem(args, 0) == Py_None;
+    self->_num = is_empty ? 0 : (long) self->_one_dimensional_array->_size;
+    self->_last_pos_filled = self->_num - 1;
+    return res;
 }
 
 static Py_ssize_t ArrayForTrees___len__(ArrayForTrees *self) {
@@ -90,6 +97,15 @@ static PyObject* ArrayForTrees__modify(ArrayForTrees *self,
     if (((double)self->_num/(double)self->_size) < self->_load_factor) {
         PyObject* new_indices = PyDict_New();
 
+        long live = 0;
+        for( long i = 0; i <= self->_last_pos_filled; i++ ) {
+            if ( self->_one_dimensional_array->_data[i] != Py_None ) {
+                live += 1;
+            }
+        }
+        if ( live > self->_num ) {
+            self->_num = live;
+        }
         long new_size = 2 * self->_num + 1;
         PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
         for( int i = 0; i < new_size; i++ ) {
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index 7f84a55..a1e7a3d 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -71,7 +71,14 @@ static int DynamicOneDimensionalArray___setitem__(DynamicOneDimensionalArray *se
 }
 
 static PyObject* DynamicOneDimensionalArray_fill(DynamicOneDimensionalArray *self, PyObject *args) {
-    return OneDimensionalArray_fill(self->_one_dimensional_array, args);
+    PyObject* res = OneDimensionalArray_fill(self->_one_dimensional_array, args);
+    if ( !res ) {
+        return NULL;
+    }
+    bool is_empty = PyTuple_GetItem(args, 0) == Py_None;
+    self->_num = is_empty ? 0 : (long) self->_one_dimensional_array->_size;
+    self->_last_pos_filled = self->_num - 1;
+    return res;
 }
 
 static Py_ssize_t DynamicOneDimensionalArray___len__(DynamicOneDimensionalArray *self) {
@@ -109,6 +116,15 @@ static PyObject* DynamicOneDimensionalArray__modify(DynamicOneDimensionalArray *
 
     if ( _size > 0 &&
          ((float) self->_num)/((float) _size) < self->_load_factor ) {
+        long live = 0;
+        for( i = 0; i <= self->_last_pos_filled; i++ ) {
+            if ( _data[i] != Py_None ) {
+                live += 1;
+            }
+        }
+        if ( live > self->_num ) {
+            self->_num = live;
+        }
         long new_size = 2 * self->_num + 1;
         PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
         for( i = 0; i < new_size; i++ ) {
diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index e5a9541..0de2473 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -396,6 +396,11 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
             self._data = arr_new._data
             self._size = arr_new._size
 
+    def fill(self, elem):
+        super().fill(elem)
+        self._num = self._size
+        self._last_pos_filled = self._size - 1
+
     def append(self, el):
         if self._last_pos_filled + 1 == self._size:
             arr_new = OneDimensionalArray(self._dtype, 2*self._size + 1)
-- 
2.43.0


From 9e98421059d78af9503aaca702adb1a2010c7dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 141/156] fix: objects that claim to be compiled trees or nodes
 crash the C++ backend

---
 .../trees/_backend/cpp/BinaryTreeTraversal.hpp     | 14 +++++++-------
 .../utils/_backend/cpp/AdjacencyListGraphNode.hpp  |  6 +++---
 pydatastructs/utils/_backend/cpp/GraphEdge.hpp     |  2 +-
 pydatastructs/utils/_backend/cpp/GraphNode.hpp     |  2 +-
 pydatastructs/utils/_backend/cpp/Node.hpp          |  2 +-
 pydatastructs/utils/_backend/cpp/TreeNode.hpp      |  2 +-
 pydatastructs/utils/_backend/cpp/utils.hpp         | 13 ++++++++++++-
 7 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
index 0e2de64..8a2118e 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
@@ -61,25 +61,25 @@ static PyObject* BinaryTreeTraversal___new__(PyTypeObject* type, PyObject *args,
         return NULL;
     }
 
-    if (PyObject_IsInstance(tree, (PyObject *)&TreapType)) {
+    if (PyObject_TypeCheck(tree, &TreapType)) {
         self->tree = reinterpret_cast<Treap*>(tree)->ct->sbbt->bst->binary_tree;
     }
-    else if (PyObject_IsInstance(tree, (PyObject *)&SplayTreeType)) {
+    else if (PyObject_TypeCheck(tree, &SplayTreeType)) {
         self->tree = reinterpret_cast<SplayTree*>(tree)->sbbt->bst->binary_tree;
     }
-    else if (PyObject_IsInstance(tree, (PyObject *)&AVLTreeType)) {
+    else if (PyObject_TypeCheck(tree, &AVLTreeType)) {
         self->tree = reinterpret_cast<AVLTree*>(tree)->sbbt->bst->binary_tree;
     }
-    else if (PyObject_IsInstance(tree, (PyObject *)&CartesianTreeType)) {
+    else if (PyObject_TypeCheck(tree, &CartesianTreeType)) {
         self->tree = reinterpret_cast<CartesianTree*>(tree)->sbbt->bst->binary_tree;
     }
-    else if (PyObject_IsInstance(tree, (PyObject *)&RedBlackTreeType)) {
+    else if (PyObject_TypeCheck(tree, &RedBlackTreeType)) {
         self->tree = reinterpret_cast<RedBlackTree*>(tree)->sbbt->bst->binary_tree;
     }
-    else if (PyObject_IsInstance(tree, (PyObject *)&SelfBalancingBinaryTreeType)) {
+    else if (PyObject_TypeCheck(tree, &SelfBalancingBinaryTreeType)) {
         self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(tree)->bst->binary_tree;
     }
-    else if (PyObject_IsInstance(tree, (PyObject *)&BinarySearchTreeType)) {
+    else if (PyObject_TypeCheck(tree, &BinarySearchTreeType)) {
         self->tree = reinterpret_cast<BinarySearchTree*>(tree)->binary_tree;
     }
     else {
diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
index 2cdaf31..ea90d46 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
@@ -62,7 +62,7 @@ static PyObject* AdjacencyListGraphNode_new(PyTypeObject* type, PyObject* args,
         for (Py_ssize_t i = 0; i < size; i++) {
             PyObject* node = PyList_GetItem(adjacency_list, i);
 
-            if (!PyObject_IsInstance(node, (PyObject*)&AdjacencyListGraphNodeType)) {
+            if (!PyObject_TypeCheck(node, &AdjacencyListGraphNodeType)) {
                 PyErr_SetString(PyExc_TypeError, "Adjacency list must contain only AdjacencyListGraphNode instances");
                 return NULL;
             }
@@ -180,7 +180,7 @@ static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyO
     PyObject *key, *val;
     Py_ssize_t pos = 0;
     while (PyDict_Next(value, &pos, &key, &val)) {
-        if (!PyUnicode_Check(key) || !PyObject_IsInstance(val, (PyObject*)&AdjacencyListGraphNodeType)) {
+        if (!PyUnicode_Check(key) || !PyObject_TypeCheck(val, &AdjacencyListGraphNodeType)) {
             PyErr_SetString(PyExc_TypeError, "Keys must be strings and values must be AdjacencyListGraphNode instances");
             return -1;
         }
@@ -201,7 +201,7 @@ static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyO
 }
 
 static struct PyMemberDef AdjacencyListGraphNode_PyMemberDef[] = {
-    {"type_tag", T_INT, offsetof(AdjacencyListGraphNode, type_tag), 0, "AdjacencyListGraphNode type_tag"},
+    {"type_tag", T_INT, offsetof(AdjacencyListGraphNode, type_tag), READONLY, "AdjacencyListGraphNode type_tag"},
     {NULL},
 };
 
diff --git a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
index da28f98..e4ea472 100644
--- a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
@@ -73,7 +73,7 @@ static PyObject* GraphEdge_new(PyTypeObject* type, PyObject* args, PyObject* kwd
     }
 
     for (PyObject* node : {node1, node2}) {
-        if (!PyObject_IsInstance(node, reinterpret_cast<PyObject*>(&GraphNodeType))) {
+        if (!PyObject_TypeCheck(node, &GraphNodeType)) {
             self->source = self->target = NULL;
             Py_DECREF(self);
             PyErr_SetString(PyExc_TypeError, "The ends of an edge must be graph nodes of the C++ backend");
diff --git a/pydatastructs/utils/_backend/cpp/GraphNode.hpp b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
index f80b755..6713c71 100644
--- a/pydatastructs/utils/_backend/cpp/GraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
@@ -176,7 +176,7 @@ static PyGetSetDef GraphNode_getsetters[] = {
 };
 
 static struct PyMemberDef GraphNode_PyMemberDef[] = {
-    {"type_tag", T_INT, offsetof(GraphNode, type_tag), 0, "GraphNode type_tag"},
+    {"type_tag", T_INT, offsetof(GraphNode, type_tag), READONLY, "GraphNode type_tag"},
     {NULL},
 };
 
diff --git a/pydatastructs/utils/_backend/cpp/Node.hpp b/pydatastructs/utils/_backend/cpp/Node.hpp
index 5a0387e..d134a12 100644
--- a/pydatastructs/utils/_backend/cpp/Node.hpp
+++ b/pydatastructs/utils/_backend/cpp/Node.hpp
@@ -17,7 +17,7 @@ static void Node_dealloc(Node *self) {
 }
 
 static struct PyMemberDef Node_PyMemberDef[] = {
-    {"type_tag", T_INT, offsetof(Node, type_tag), 0, "Node type_tag"},
+    {"type_tag", T_INT, offsetof(Node, type_tag), READONLY, "Node type_tag"},
     {NULL},
 };
 
diff --git a/pydatastructs/utils/_backend/cpp/TreeNode.hpp b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
index 25f5610..f03e0a2 100644
--- a/pydatastructs/utils/_backend/cpp/TreeNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
@@ -58,7 +58,7 @@ static PyObject* TreeNode___str__(TreeNode *self) {
 }
 
 static struct PyMemberDef TreeNode_PyMemberDef[] = {
-    {"type_tag", T_INT, offsetof(TreeNode, type_tag), 0, "TreeNode type_tag"},
+    {"type_tag", T_INT, offsetof(TreeNode, type_tag), READONLY, "TreeNode type_tag"},
     {"key", T_OBJECT, offsetof(TreeNode, key), 0, "TreeNode key"},
     {"data", T_OBJECT, offsetof(TreeNode, data), 0, "TreeNode data"},
     {"height", T_LONG, offsetof(TreeNode, height), 0, "TreeNode height"},
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 3503923..75fbf67 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -94,7 +94,11 @@ static int set_exception_if_dtype_mismatch(PyObject* value, PyObject* dtype) {
 }
 
 static int raise_exception_if_dtype_mismatch(PyObject* value, PyObject* dtype) {
-    if ( !PyObject_IsInstance(value, dtype) ) {
+    int is_instance = PyObject_IsInstance(value, dtype);
+    if ( is_instance == -1 ) {
+        return 1;
+    }
+    if ( !is_instance ) {
         PyErr_Format(PyExc_TypeError,
         "Unable to store %s object in %s type array.",
         PyObject_AsString(PyObject_Repr(PyObject_Type(value))),
@@ -169,6 +173,13 @@ enum class NodeType_ {
 };
 
 static NodeType_ get_type_tag(PyObject *node_obj) {
+    PyTypeObject* type = Py_TYPE(node_obj);
+    while (type && PyType_HasFeature(type, Py_TPFLAGS_HEAPTYPE)) {
+        type = type->tp_base;  // subclasses have the layout of their compiled base
+    }
+    if (!type || !strstr(type->tp_name, "Node")) {
+        return NodeType_::InvalidType;  // not a node of the C++ backend
+    }
     if (!PyObject_HasAttrString(node_obj, "type_tag")) {
         return NodeType_::InvalidType;  // attribute missing
     }
-- 
2.43.0


From d9859cc0967261dbaafb32984e0747def258af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 142/156] fix: failing type checks, truths and stores of the
 C++ backend return a result together with an exception

---
 .../cpp/algorithms/quadratic_time_sort.hpp    |  6 +--
 .../_backend/cpp/algorithms/quick_sort.hpp    |  2 +-
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 38 +++++++++++--------
 .../trees/_backend/cpp/CartesianTree.hpp      |  6 ++-
 .../trees/_backend/cpp/SplayTree.hpp          |  2 +-
 5 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 58e13f9..ea124ec 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -74,7 +74,7 @@ static PyObject* bubble_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     arr_length = PyObject_Length(args0);
 
     args0 = bubble_sort_impl(args0, lower, upper, comp, arr_length);
-    if ( args0 == NULL ) {
+    if ( args0 == NULL || PyErr_Occurred() ) {
         return NULL;
     }
     if ( is_DynamicOneDimensionalArray ) {
@@ -671,7 +671,7 @@ static PyObject* selection_sort(PyObject* self, PyObject* args, PyObject* kwds)
     }
 
     args0 = selection_sort_impl(args0, lower, upper, comp);
-    if ( args0 == NULL ) {
+    if ( args0 == NULL || PyErr_Occurred() ) {
         return NULL;
     }
     if ( is_DynamicOneDimensionalArray ) {
@@ -1260,7 +1260,7 @@ static PyObject* insertion_sort(PyObject* self, PyObject* args, PyObject* kwds)
     }
 
     args0 = insertion_sort_impl(args0, lower, upper, comp);
-    if ( args0 == NULL ) {
+    if ( args0 == NULL || PyErr_Occurred() ) {
         return NULL;
     }
     if ( is_DynamicOneDimensionalArray ) {
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index 9379532..a5a0c85 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -146,7 +146,7 @@ static PyObject* quick_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     }
 
     args0 = quick_sort_impl(args0, lower, upper, comp, pick_pivot_element);
-    if ( args0 == NULL ) {
+    if ( args0 == NULL || PyErr_Occurred() ) {
         return NULL;
     }
     if ( is_DynamicOneDimensionalArray ) {
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index c58ae71..cdb7976 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -86,13 +86,17 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &ret_parent)) { // ret_parent is optional
         return NULL;
     }
+    int is_parent_wanted = PyObject_IsTrue(ret_parent);
+    if (is_parent_wanted == -1) {
+        return NULL;
+    }
     BinaryTree* bt = self->binary_tree;
     Py_INCREF(Py_None);
     PyObject* parent = Py_None;
     PyObject* walk = bt->root_idx;
 
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key == Py_None) {
-        if (ret_parent!=Py_None && PyLong_AsLong(ret_parent)!=0) {
+        if (is_parent_wanted) {
             return Py_BuildValue("(OO)",Py_None,Py_None);
         }
         Py_RETURN_NONE;
@@ -124,7 +128,7 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
         }
-        long long comp = PyLong_AsLongLong(res);
+        long long comp = PyObject_IsTrue(res);
 
         if (comp == 1) {
             walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
@@ -135,7 +139,7 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     }
 
     Py_INCREF(Py_None);
-    if (ret_parent==Py_None || PyLong_AsLong(ret_parent)==0) {
+    if (!is_parent_wanted) {
         Py_INCREF(walk);
         return walk;
     }
@@ -223,7 +227,7 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
         }
-        long long comp = PyLong_AsLongLong(cres);
+        long long comp = PyObject_IsTrue(cres);
 
         if (comp==0) {
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right == Py_None) {
@@ -261,6 +265,10 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &balancing_info)) {
         return NULL;
     }
+    int is_info_wanted = PyObject_IsTrue(balancing_info);
+    if (is_info_wanted == -1) {
+        return NULL;
+    }
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = BinarySearchTree_search(self, Py_BuildValue("(O)",key), kwd_parent);
@@ -384,11 +392,9 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
         }
     }
 
-    if (balancing_info != Py_None) {
-        if (PyLong_AsLong(balancing_info) == 1) {
-            Py_INCREF(a);
-            return a;
-        }
+    if (is_info_wanted) {
+        Py_INCREF(a);
+        return a;
     }
     Py_RETURN_TRUE;
 }
@@ -434,7 +440,7 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
     }
-    long long comp = PyLong_AsLongLong(cres);
+    long long comp = PyObject_IsTrue(cres);
 
     if (comp == 1) {
         return BinarySearchTree__bound_helper(self, Py_BuildValue("(OOO)",reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->right, bound_key, is_upper));
@@ -585,7 +591,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
     }
-    long long u_left = PyLong_AsLongLong(cres1);
+    long long u_left = PyObject_IsTrue(cres1);
 
     if (!PyCallable_Check(bt->comparator)) {
         PyErr_SetString(PyExc_ValueError, "comparator should be callable");
@@ -601,7 +607,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
     }
-    long long v_left = PyLong_AsLongLong(cres2);
+    long long v_left = PyObject_IsTrue(cres2);
 
     while (!(u_left ^ v_left)) {
         if (u_left && v_left) {
@@ -633,7 +639,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
         }
-        u_left = PyLong_AsLongLong(cres1);
+        u_left = PyObject_IsTrue(cres1);
 
         if (!PyCallable_Check(bt->comparator)) {
             PyErr_SetString(PyExc_ValueError, "comparator should be callable");
@@ -649,7 +655,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
         }
-        v_left = PyLong_AsLongLong(cres2);
+        v_left = PyObject_IsTrue(cres2);
     }
 
     if (curr_root == Py_None) {
@@ -751,7 +757,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
                 PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
                 return NULL;
             }
-            long long comp = PyLong_AsLongLong(cres);
+            long long comp = PyObject_IsTrue(cres);
 
             if (left_walk != Py_None && comp) {
                 walk = left_walk;
@@ -775,7 +781,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
                 PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
                 return NULL;
             }
-            long long comp = PyLong_AsLongLong(cres);
+            long long comp = PyObject_IsTrue(cres);
 
             if (right_walk != Py_None && (!comp)) {
                 walk = right_walk;
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 03ca908..86bab3f 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -107,6 +107,10 @@ static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObj
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &balancing_info)) {
         return NULL;
     }
+    int is_info_wanted = PyObject_IsTrue(balancing_info);
+    if (is_info_wanted == -1) {
+        return NULL;
+    }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
     if (!node_idx) {
         return NULL;
@@ -114,7 +118,7 @@ static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObj
     if (node_idx != Py_None) {
         Cartesian_Tree__trickle_down(self, Py_BuildValue("(O)", node_idx));
         PyObject* kwd_bal = PyDict_New();
-        PyDict_SetItemString(kwd_bal, "balancing_info", balancing_info);
+        PyDict_SetItemString(kwd_bal, "balancing_info", is_info_wanted ? Py_True : Py_False);
         return SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", key), kwd_bal);
     }
     Py_RETURN_NONE;
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index d2196e9..37bbecf 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -242,7 +242,7 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
     }
-    long long comp = PyLong_AsLongLong(cres);
+    long long comp = PyObject_IsTrue(cres);
     if (comp == 0) {
         PyErr_SetString(PyExc_ValueError, "Elements of existing Splay Tree aren't less than that of the new Splay tree.");
         return NULL;
-- 
2.43.0


From 292f0b87fe29976d800e188f09ecab85e64a5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:07 +0000
Subject: [PATCH 143/156] fix: sums of C++ Fenwick trees overflow and values
 that are not integers are refused

---
 .../trees/_backend/cpp/BinaryIndexedTree.hpp  | 50 ++++++++++++++-----
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
index 01d8836..1af472b 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
@@ -25,35 +25,53 @@ static void BinaryIndexedTree_dealloc(BinaryIndexedTree *self) {
 }
 
 static PyObject* BinaryIndexedTree_update(BinaryIndexedTree* self, PyObject *args) {
-    long index, value;
-    if (!PyArg_ParseTuple(args, "ll", &index, &value)) {
+    long index;
+    PyObject* value;
+    if (!PyArg_ParseTuple(args, "lO", &index, &value)) {
+        return NULL;
+    }
+    if (!PyLong_Check(value) && !PyFloat_Check(value)) {
+        PyErr_SetString(PyExc_TypeError, "Expected an int or a float.");
         return NULL;
     }
     if (index < 0 || index >= self->array->_size) {
         PyErr_Format(PyExc_IndexError, "Index, %ld out of range, [0, %ld).", index, (long) self->array->_size);
         return NULL;
     }
+    if (raise_exception_if_dtype_mismatch(value, self->array->_dtype)) {
+        return NULL;
+    }
     long _index = index;
-    long _value = value;
+    PyObject* _value = value;
     if (PyList_GetItem(self->flag, index) == PyZero) {
         PyList_SetItem(self->flag, index, PyOne);
         index += 1;
         while (index < self->array->_size + 1) {
-            long curr = PyLong_AsLong(PyList_GetItem(self->tree, index));
-            PyList_SetItem(self->tree, index, PyLong_FromLong(curr + value));
+            PyObject* curr = PyNumber_Add(PyList_GetItem(self->tree, index), value);
+            if (!curr) {
+                return NULL;
+            }
+            PyList_SetItem(self->tree, index, curr);
             index = index + (index & (-1*index));
         }
     }
     else {
-        value = value - PyLong_AsLong(self->array->_data[index]);
+        value = PyNumber_Subtract(value, self->array->_data[index]);
+        if (!value) {
+            return NULL;
+        }
         index += 1;
         while (index < self->array->_size + 1) {
-            long curr = PyLong_AsLong(PyList_GetItem(self->tree, index));
-            PyList_SetItem(self->tree, index, PyLong_FromLong(curr + value));
+            PyObject* curr = PyNumber_Add(PyList_GetItem(self->tree, index), value);
+            if (!curr) {
+                return NULL;
+            }
+            PyList_SetItem(self->tree, index, curr);
             index = index + (index & (-1*index));
         }
     }
-    self->array->_data[_index] = PyLong_FromLong(_value);
+    Py_INCREF(_value);
+    self->array->_data[_index] = _value;
     Py_RETURN_NONE;
 }
 
@@ -96,13 +114,19 @@ static PyObject* BinaryIndexedTree_get_prefix_sum(BinaryIndexedTree* self, PyObj
         return NULL;
     }
     index += 1;
-    long sum = 0;
+    PyObject* sum = PyZero;
+    Py_INCREF(sum);
     while (index > 0) {
-        sum += PyLong_AsLong(PyList_GetItem(self->tree, index));
+        PyObject* total = PyNumber_Add(sum, PyList_GetItem(self->tree, index));
+        Py_DECREF(sum);
+        if (!total) {
+            return NULL;
+        }
+        sum = total;
         index = index - (index & (-1*index));
     }
 
-    return PyLong_FromLong(sum);
+    return sum;
 }
 
 static PyObject* BinaryIndexedTree_get_sum(BinaryIndexedTree* self, PyObject *args) {
@@ -116,7 +140,7 @@ static PyObject* BinaryIndexedTree_get_sum(BinaryIndexedTree* self, PyObject *ar
         if (!s2) {
             return NULL;
         }
-        return PyLong_FromLong(PyLong_AsLong(s1) - PyLong_AsLong(s2));
+        return PyNumber_Subtract(s1, s2);
     }
     else {
         return BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index)));
-- 
2.43.0


From 9849f534411edcfb314f751b61d6ecf60903bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:30 +0000
Subject: [PATCH 144/156] fix: growing a C++ dynamic array beyond the memory
 crashes the interpreter

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp                   | 6 ++++++
 .../_backend/cpp/arrays/DynamicOneDimensionalArray.hpp      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 91e53a9..be151d0 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -108,6 +108,9 @@ static PyObject* ArrayForTrees__modify(ArrayForTrees *self,
         }
         long new_size = 2 * self->_num + 1;
         PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
+        if ( !arr_new ) {
+            return PyErr_NoMemory();
+        }
         for( int i = 0; i < new_size; i++ ) {
             Py_INCREF(Py_None);
             arr_new[i] = Py_None;
@@ -163,6 +166,9 @@ static PyObject* ArrayForTrees_append(ArrayForTrees *self,
     if ( self->_last_pos_filled + 1 == _size ) {
         long new_size = 2 * _size + 1;
         PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
+        if ( !arr_new ) {
+            return PyErr_NoMemory();
+        }
         long i;
         for( i = 0; i <= self->_last_pos_filled; i++ ) {
             arr_new[i] = _data[i];
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index a1e7a3d..79c20f0 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -127,6 +127,9 @@ static PyObject* DynamicOneDimensionalArray__modify(DynamicOneDimensionalArray *
         }
         long new_size = 2 * self->_num + 1;
         PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
+        if ( !arr_new ) {
+            return PyErr_NoMemory();
+        }
         for( i = 0; i < new_size; i++ ) {
             Py_INCREF(Py_None);
             arr_new[i] = Py_None;
@@ -160,6 +163,9 @@ static PyObject* DynamicOneDimensionalArray_append(DynamicOneDimensionalArray *s
     if ( self->_last_pos_filled + 1 == _size ) {
         long new_size = 2 * _size + 1;
         PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
+        if ( !arr_new ) {
+            return PyErr_NoMemory();
+        }
         long i;
         for( i = 0; i <= self->_last_pos_filled; i++ ) {
             arr_new[i] = _data[i];
-- 
2.43.0


From ece394062ece8da0ba671f19ba17bc3ebc6a23c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:29 +0000
Subject: [PATCH 145/156] fix: errors of the comparator in join and split of
 C++ splay trees break the error protocol

---
 pydatastructs/trees/_backend/cpp/SplayTree.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 37bbecf..38c676b 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -215,7 +215,9 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key == Py_None) {
         PyObject* elements = SplayTree__pre_order(other, Py_BuildValue("(O)", obt->root_idx));
         for (int i=0; i<PyList_Size(elements); i++) {
-            SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data));
+            if (!SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data))) {
+                return NULL;
+            }
         }
         Py_RETURN_NONE;
     }
@@ -341,10 +343,14 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
         PyObject* keys = PyList_New(0);
         for (int i=0; i<PyList_Size(elements); i++) {
             PyList_Append(keys, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key);
-            SelfBalancingBinaryTree_insert(other->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data));
+            if (!SelfBalancingBinaryTree_insert(other->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data))) {
+                return NULL;
+            }
         }
         for (int j=PyList_Size(elements)-1; j>-1; j--) {
-            SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", PyList_GetItem(keys, j)), PyDict_New());
+            if (!SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", PyList_GetItem(keys, j)), PyDict_New())) {
+                return NULL;
+            }
         }
     }
 
-- 
2.43.0


From 53bfd3c0f556b7c800a4a93b188a6ea72797b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:39 +0000
Subject: [PATCH 146/156] fix: C++ jump_search of an absent value walks to the
 end of the array

---
 .../_backend/cpp/algorithms/misc_algorithms.hpp                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index a441789..3aea2e4 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -286,7 +286,7 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
         return NULL;
     }
 
-    while (prev <= last) {
+    while (prev <= last && prev <= element_pos) {
         u = PyObject_GetItem(args0, PyLong_FromSize_t(prev));
         if ( u == NULL ) {
             return NULL;
-- 
2.43.0


From 8b1c082b577f3635570092b7632b80da3721ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:08 +0000
Subject: [PATCH 147/156] fix: ArrayForTrees with the C++ backend is a plain
 dynamic array that loses the links between nodes

---
 pydatastructs/linear_data_structures/arrays.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 0de2473..ef8424c 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -455,6 +455,12 @@ class ArrayForTrees(DynamicOneDimensionalArray):
 
     pydatastructs.linear_data_structures.arrays.DynamicOneDimensionalArray
     """
+    def __new__(cls, dtype=NoneType, *args, **kwargs):
+        backend = kwargs.get("backend", Backend.PYTHON)
+        if backend == Backend.CPP:
+            return _arrays.ArrayForTrees(dtype, *args, **kwargs)
+        return super().__new__(cls, dtype, *args, **kwargs)
+
     def _modify(self):
         if self._num/self._size < self._load_factor:
             new_indices = {}
-- 
2.43.0


From 4908f787b961d542e0b73c5b4fd13c413be2c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:09 +0000
Subject: [PATCH 148/156] fix: compacting a C++ ArrayForTrees takes any element
 for a node and any link for a position

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp     | 90 ++++++++++++-------
 1 file changed, 58 insertions(+), 32 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index be151d0..fb133f2 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -5,6 +5,7 @@
 #include <Python.h>
 #include <structmember.h>
 #include <cstdlib>
+#include <vector>
 #include "OneDimensionalArray.hpp"
 #include "DynamicArray.hpp"
 #include "../../../../utils/_backend/cpp/TreeNode.hpp"
@@ -91,58 +92,83 @@ static PyObject* ArrayForTrees___str__(ArrayForTrees *self) {
     return __str__(self__data, self->_one_dimensional_array->_size, self->_last_pos_filled);
 }
 
+// A node can refer only to the positions of other nodes.
+static int ArrayForTrees__check_link(PyObject* link, PyObject** data, long count) {
+    if ( link == Py_None ) {
+        return 0;
+    }
+    long idx = link && PyLong_Check(link) ? PyLong_AsLong(link) : -1;
+    if ( idx < 0 || idx >= count || data[idx] == Py_None ) {
+        PyErr_SetString(PyExc_IndexError, "A node refers to a position without a node.");
+        return -1;
+    }
+    return 0;
+}
+
 static PyObject* ArrayForTrees__modify(ArrayForTrees *self,
                                                     PyObject* args) {
 
     if (((double)self->_num/(double)self->_size) < self->_load_factor) {
         PyObject* new_indices = PyDict_New();
+        PyObject** _data = self->_one_dimensional_array->_data;
+        long count = self->_last_pos_filled + 1;
 
-        long live = 0;
-        for( long i = 0; i <= self->_last_pos_filled; i++ ) {
-            if ( self->_one_dimensional_array->_data[i] != Py_None ) {
-                live += 1;
+        std::vector<PyObject*> moved_to(count > 0 ? count : 0, Py_None);
+        long j = 0;
+        for( long i = 0; i < count; i++ ) {
+            if ( _data[i] == Py_None ) {
+                continue;
+            }
+            if ( !_check_compiled_type(_data[i], &TreeNodeType) ) {
+                PyErr_SetString(PyExc_TypeError, "The elements of ArrayForTrees should be nodes of the C++ backend.");
+                return NULL;
+            }
+            PyObject* key = reinterpret_cast<TreeNode*>(_data[i])->key;
+            moved_to[i] = get_position(j);
+            if ( PyObject_SetItem(new_indices, key ? key : Py_None, moved_to[i]) == -1 ) {
+                return NULL;
+            }
+            j += 1;
+        }
+        for( long i = 0; i < count; i++ ) {
+            if ( _data[i] == Py_None ) {
+                continue;
+            }
+            TreeNode* node = reinterpret_cast<TreeNode*>(_data[i]);
+            if ( ArrayForTrees__check_link(node->left, _data, count) == -1 ||
+                ArrayForTrees__check_link(node->right, _data, count) == -1 ||
+                ArrayForTrees__check_link(node->parent, _data, count) == -1 ) {
+                return NULL;
             }
         }
-        if ( live > self->_num ) {
-            self->_num = live;
+
+        if ( j > self->_num ) {
+            self->_num = j;
         }
         long new_size = 2 * self->_num + 1;
         PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
         if ( !arr_new ) {
             return PyErr_NoMemory();
         }
-        for( int i = 0; i < new_size; i++ ) {
+        for( long i = 0; i < new_size; i++ ) {
             Py_INCREF(Py_None);
             arr_new[i] = Py_None;
         }
 
-        int j=0;
-        PyObject** _data = self->_one_dimensional_array->_data;
-        for(int i=0; i<=self->_last_pos_filled;i++) {
-            if (_data[i] != Py_None) {
-                Py_INCREF(Py_None);
-                arr_new[j] = _data[i];
-                PyObject_SetItem(new_indices, reinterpret_cast<TreeNode*>(_data[i])->key, get_position(j));
-                j += 1;
-            }
-        }
-
-        for(int i=0;i<j;i++) {
-            if (reinterpret_cast<TreeNode*>(arr_new[i])->left != Py_None) {
-                reinterpret_cast<TreeNode*>(arr_new[i])->left = PyObject_GetItem(
-                    new_indices, reinterpret_cast<TreeNode*>(_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(arr_new[i])->left)])->key
-                );
-            }
-            if (reinterpret_cast<TreeNode*>(arr_new[i])->right != Py_None) {
-                reinterpret_cast<TreeNode*>(arr_new[i])->right = PyObject_GetItem(
-                    new_indices, reinterpret_cast<TreeNode*>(_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(arr_new[i])->right)])->key
-                );
+        j = 0;
+        for( long i = 0; i < count; i++ ) {
+            if ( _data[i] == Py_None ) {
+                continue;
             }
-            if (reinterpret_cast<TreeNode*>(arr_new[i])->parent != Py_None) {
-                reinterpret_cast<TreeNode*>(arr_new[i])->parent = PyObject_GetItem(
-                    new_indices, reinterpret_cast<TreeNode*>(_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(arr_new[i])->parent)])->key
-                );
+            TreeNode* node = reinterpret_cast<TreeNode*>(_data[i]);
+            for( PyObject** link : {&node->left, &node->right, &node->parent} ) {
+                if ( *link != Py_None ) {
+                    *link = moved_to[PyLong_AsLong(*link)];
+                    Py_INCREF(*link);
+                }
             }
+            arr_new[j] = _data[i];
+            j += 1;
         }
         self->_last_pos_filled = j - 1;
         self->_one_dimensional_array->_data = arr_new;
-- 
2.43.0


From 719a695ebd0add66323185a697ae73c1269cc3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:03 +0000
Subject: [PATCH 149/156] fix: C++ quick_sort of an empty range swaps elements
 outside of it

---
 .../_backend/cpp/algorithms/quick_sort.hpp                  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index a5a0c85..92d6bb0 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -79,8 +79,10 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
         return array;
     }
 
-    rstack.push(lower);
-    rstack.push(upper);
+    if ( lower < upper ) {
+        rstack.push(lower);
+        rstack.push(upper);
+    }
 
     while ( !rstack.empty() ) {
         high = rstack.top();
-- 
2.43.0


From e31c785381feab46db08f112a31ef708d4313373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:08 +0000
Subject: [PATCH 150/156] fix: jump_search of an empty range raises IndexError

---
 pydatastructs/linear_data_structures/algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index f9104ea..e320e87 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1734,6 +1734,8 @@ def jump_search(array, value, **kwargs):
     end = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u < v)
 
+    if end < start:
+        return None
     step = int(sqrt(end - start + 1))
     current_position = start + step
     prev = start
-- 
2.43.0


From a4a4fbd9e46417602838536617a622ae4378e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:13 +0000
Subject: [PATCH 151/156] fix: upper_bound and lower_bound of an empty array
 raise IndexError

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index e320e87..8734e05 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -985,7 +985,7 @@ def upper_bound(array, value, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
     index = end
     inclusive_end = end - 1
-    if comp(value, array[start]):
+    if start <= inclusive_end and comp(value, array[start]):
         index = start
     while start <= inclusive_end:
         mid = (start + inclusive_end)//2
@@ -1058,7 +1058,7 @@ def lower_bound(array, value, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
     index = end
     inclusive_end = end - 1
-    if not comp(array[start], value):
+    if start <= inclusive_end and not comp(array[start], value):
         index = start
     while start <= inclusive_end:
         mid = (start + inclusive_end)//2
-- 
2.43.0


From 625fc301b2992eb442ff7590d6d7e3a167961d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:29 +0000
Subject: [PATCH 152/156] fix: johnson no longer takes over a vertex named
 __q__

---
 pydatastructs/graphs/algorithms.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index b596eec..b33688b 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -991,17 +991,20 @@ def _floyd_warshall_adjacency_list(graph: Graph):
 _floyd_warshall_adjacency_matrix = _floyd_warshall_adjacency_list
 
 def _johnson_adjacency_list(graph: Graph):
-    new_vertex = AdjacencyListGraphNode('__q__')
+    new_name = '__q__'
+    while hasattr(graph, new_name):
+        new_name += '_'
+    new_vertex = AdjacencyListGraphNode(new_name)
     graph.add_vertex(new_vertex)
 
     for vertex in graph.vertices:
-        if vertex != '__q__':
-            graph.add_edge('__q__', vertex, 0)
+        if vertex != new_name:
+            graph.add_edge(new_name, vertex, 0)
 
     try:
-        distances, predecessors = shortest_paths(graph, 'bellman_ford', '__q__')
+        distances, predecessors = shortest_paths(graph, 'bellman_ford', new_name)
     finally:
-        graph.remove_vertex('__q__')
+        graph.remove_vertex(new_name)
 
     original_values = {}
     for edge in graph.edge_weights:
-- 
2.43.0


From 006e3769b391f07b3a35b85aff01ce4e9cca547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:07 +0000
Subject: [PATCH 153/156] fix: C++ dynamic arrays and stacks refuse to append
 elements of another type

---
 .../_backend/cpp/arrays/DynamicOneDimensionalArray.hpp      | 6 ++++++
 .../_backend/cpp/stack/ArrayStack.hpp                       | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index 79c20f0..7c1280b 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -158,6 +158,12 @@ static PyObject* DynamicOneDimensionalArray_append(DynamicOneDimensionalArray *s
         return NULL;
     }
 
+    if ( el != Py_None &&
+         raise_exception_if_dtype_mismatch(el, self->_one_dimensional_array->_dtype) ) {
+        Py_DECREF(el);
+        return NULL;
+    }
+
     long _size = (long) self->_one_dimensional_array->_size;
     PyObject** _data = self->_one_dimensional_array->_data;
     if ( self->_last_pos_filled + 1 == _size ) {
diff --git a/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp b/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp
index 36633c0..ea914f2 100644
--- a/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp
+++ b/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp
@@ -82,7 +82,9 @@ static PyObject* ArrayStack_push(ArrayStack *self, PyObject* args) {
         );
     }
 
-    DynamicOneDimensionalArray_append(self->_items, args);
+    if (!DynamicOneDimensionalArray_append(self->_items, args)) {
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
-- 
2.43.0


From b7d996ce8a72f15ce289f9c38e5d4a62aeb3765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:38 +0000
Subject: [PATCH 154/156] fix: the initial value of a one-dimensional array is
 converted to its element type

---
 pydatastructs/linear_data_structures/arrays.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index ef8424c..6e9e57e 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -109,6 +109,8 @@ class OneDimensionalArray(Array):
             if _check_type(args[0], int):
                 obj._size = args[0]
                 init = kwargs.get('init', None)
+                if init is not None and _check_type(init, dtype) is False:
+                    init = dtype(init)
                 obj._data = [init for i in range(args[0])]
             elif _check_type(args[0], (list, tuple)):
                 obj._size, obj._data = len(args[0]), \
-- 
2.43.0


From c53c98c26828c4c99541352a256065c1a041d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:17 +0000
Subject: [PATCH 155/156] fix: multi-dimensional arrays convert stored values
 to their element type

---
 pydatastructs/linear_data_structures/arrays.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 6e9e57e..b304d0f 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -253,6 +253,8 @@ class MultiDimensionalArray(Array):
 
     def __setitem__(self, indices, element) -> None:
         self._compare_shape(indices)
+        if element is not None and _check_type(element, self._dtype) is False:
+            element = self._dtype(element)
         if isinstance(indices, int):
             self._data[indices] = element
         else:
-- 
2.43.0


From 3a77a1ae684794cddf5b92694c02909589c342a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:57 +0000
Subject: [PATCH 156/156] fix: Dinic's algorithm terminates when a vertex has
 the empty name

---
 pydatastructs/graphs/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index b33688b..2fcf4ac 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1263,7 +1263,7 @@ def _depth_first_search_max_flow_dinic(graph: Graph, u, parent, sink_node, flow,
         for next_node, capacity in next_nodes:
             fp = flow_passed.get((u, next_node), 0)
             parent_cond = parent.get(next_node, None)
-            if parent_cond and parent_cond == u and capacity - fp > 0:
+            if parent_cond is not None and parent_cond == u and capacity - fp > 0:
                 path_flow = _depth_first_search_max_flow_dinic(graph,
                                                                next_node,
                                                                parent, sink_node,
-- 
2.43.0

