From 7e919965ce0a7f9c8534de735f1945337a728ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:22 +0000
Subject: [PATCH 001/158] fix: slice items made from non-contiguous integer or
 boolean arrays are read as if contiguous

---
 src/libawkward/array/NumpyArray.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 1dc0ada..c615bc1 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -3010,13 +3010,17 @@ namespace awkward {
                     "same slice item") + FILENAME(__LINE__));
     }
     if (dtype_ == util::dtype::int64) {
-        int64_t* raw = reinterpret_cast<int64_t*>(ptr_.get());
-        std::shared_ptr<int64_t> ptr(ptr_, raw);
+        NumpyArray contiguous_self = contiguous();
+        std::shared_ptr<void> contiguous_ptr = contiguous_self.ptr();
+        int64_t* raw = reinterpret_cast<int64_t*>(contiguous_ptr.get());
+        std::shared_ptr<int64_t> ptr(contiguous_ptr, raw);
         std::vector<int64_t> shape({ (int64_t)shape_[0] });
-        std::vector<int64_t> strides({ (int64_t)strides_[0] /
-                                       (int64_t)itemsize_ });
+        std::vector<int64_t> strides({ 1 });
         return std::make_shared<SliceArray64>(
-          Index64(ptr, (int64_t)byteoffset_ / (int64_t)itemsize_, length(), ptr_lib_),
+          Index64(ptr,
+                  (int64_t)contiguous_self.byteoffset() / (int64_t)itemsize_,
+                  length(),
+                  ptr_lib_),
           shape,
           strides,
           false);
@@ -3097,22 +3101,23 @@ namespace awkward {
     }
 
     else if (dtype_ == util::dtype::boolean) {
+      NumpyArray contiguous_self = contiguous();
       int64_t numtrue;
       struct Error err1 = kernel::NumpyArray_getitem_boolean_numtrue(
         kernel::lib::cpu,   // DERIVE
         &numtrue,
-        reinterpret_cast<int8_t*>(data()),
+        reinterpret_cast<int8_t*>(contiguous_self.data()),
         (int64_t)shape_[0],
-        (int64_t)strides_[0]);
+        1);
       util::handle_error(err1, classname(), identities_.get());
 
       Index64 index(numtrue);
       struct Error err2 = kernel::NumpyArray_getitem_boolean_nonzero_64(
         kernel::lib::cpu,   // DERIVE
         index.data(),
-        reinterpret_cast<int8_t*>(data()),
+        reinterpret_cast<int8_t*>(contiguous_self.data()),
         (int64_t)shape_[0],
-        (int64_t)strides_[0]);
+        1);
       util::handle_error(err2, classname(), identities_.get());
 
       std::vector<int64_t> shape({ numtrue });
-- 
2.43.0


From 04ca854539531d618baa5b69bfc5dde88b9ace7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:31 +0000
Subject: [PATCH 002/158] fix: missing lists in a nested slice address the
 content of a list array as if it had no gaps

---
 src/libawkward/array/ListArray.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 76ad0fd..8894f36 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1926,7 +1926,11 @@ namespace awkward {
 
     ContentPtr out;
     if (dynamic_cast<SliceJagged64*>(slicecontent.content().get())) {
-      ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
+      // nextcarry counts list items without gaps, as toListOffsetArray64(true) does
+      ContentPtr asListOffsetArray64 = toListOffsetArray64(true);
+      ContentPtr compact_content = dynamic_cast<ListOffsetArrayOf<int64_t>*>(
+        asListOffsetArray64.get())->content();
+      ContentPtr nextcontent = compact_content.get()->carry(nextcarry, true);
       ContentPtr next = std::make_shared<ListOffsetArray64>(Identities::none(),
                                                             util::Parameters(),
                                                             smalloffsets,
-- 
2.43.0


From 54a545c8af0afbafefda027af3c8cd00af3d79dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:39 +0000
Subject: [PATCH 003/158] fix: zero-length nested slices leave the first offset
 uninitialized

---
 src/cpu-kernels/awkward_ListArray_getitem_jagged_apply.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cpu-kernels/awkward_ListArray_getitem_jagged_apply.cpp b/src/cpu-kernels/awkward_ListArray_getitem_jagged_apply.cpp
index 3a77f79..d63be97 100644
--- a/src/cpu-kernels/awkward_ListArray_getitem_jagged_apply.cpp
+++ b/src/cpu-kernels/awkward_ListArray_getitem_jagged_apply.cpp
@@ -17,6 +17,7 @@ ERROR awkward_ListArray_getitem_jagged_apply(
   const C* fromstops,
   int64_t contentlen) {
   int64_t k = 0;
+  tooffsets[0] = 0;
   for (int64_t i = 0;  i < sliceouterlen;  i++) {
     T slicestart = slicestarts[i];
     T slicestop = slicestops[i];
-- 
2.43.0


From 1cc867e10e4e253a402091a151c25dca986e6844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:39 +0000
Subject: [PATCH 004/158] fix: a slice of records applies its later items to
 the dimension the first one was applied to

---
 src/libawkward/array/RecordArray.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 571f0d4..9cbbc6e 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1680,23 +1680,28 @@ namespace awkward {
       return Content::getitem_next(*missing, tail, advanced);
     }
     else {
-      SliceItemPtr nexthead = tail.head();
-      Slice nexttail = tail.tail();
-      Slice emptytail;
-      emptytail.become_sealed();
+      // the rest of the slice applies to each field's nested dimensions, not to
+      // the dimension that head has already been applied to
+      Slice only_fields = tail.only_fields();
+      Slice not_fields = tail.not_fields();
 
       ContentPtrVec contents;
       for (auto content : contents_) {
-        contents.push_back(content.get()->getitem_next(head,
-                                                       emptytail,
+        ContentPtr trimmed = content.get()->getitem_range_nowrap(0, length());
+        contents.push_back(trimmed.get()->getitem_next(head,
+                                                       not_fields,
                                                        advanced));
       }
+      bool preserves_type = head.get()->preserves_type(advanced);
+      for (auto item : not_fields.items()) {
+        preserves_type = preserves_type  &&  item.get()->preserves_type(advanced);
+      }
       util::Parameters parameters;
-      if (head.get()->preserves_type(advanced)) {
+      if (preserves_type) {
         parameters = parameters_;
       }
       RecordArray out(Identities::none(), parameters, contents, recordlookup_);
-      return out.getitem_next(nexthead, nexttail, advanced);
+      return out.getitem_next(only_fields.head(), only_fields.tail(), advanced);
     }
   }
 
-- 
2.43.0


From 4fe7076cc03a0af018c0233d78d22a6729422978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:39 +0000
Subject: [PATCH 005/158] fix: missing items misalign the remaining array items
 of an advanced slice

---
 src/libawkward/array/ByteMaskedArray.cpp | 12 ++++++++++--
 src/libawkward/array/IndexedArray.cpp    | 11 ++++++++++-
 src/libawkward/array/ListArray.cpp       |  3 ++-
 src/libawkward/array/ListOffsetArray.cpp |  3 ++-
 src/libawkward/array/RegularArray.cpp    |  3 ++-
 5 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index 2624678..a329d86 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -720,8 +720,16 @@ namespace awkward {
       Index64 outindex = pair.second;
 
       ContentPtr next = content_.get()->carry(nextcarry, true);
-
-      ContentPtr out = next.get()->getitem_next(head, tail, advanced);
+      // one advanced index per non-missing item
+      Index64 advanced_nonmissing(advanced.length() == 0 ? 0 : nextcarry.length());
+      for (int64_t i = 0;  i < advanced.length();  i++) {
+        int64_t j = (int64_t)outindex.getitem_at_nowrap(i);
+        if (j >= 0) {
+          advanced_nonmissing.setitem_at_nowrap(j, advanced.getitem_at_nowrap(i));
+        }
+      }
+      ContentPtr out = next.get()->getitem_next(
+        head, tail, advanced.length() == 0 ? advanced : advanced_nonmissing);
       IndexedOptionArray64 out2(identities_, parameters_, outindex, out);
       return out2.simplify_optiontype();
     }
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index b8594a9..c36f48f 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1390,7 +1390,16 @@ namespace awkward {
         IndexOf<T> outindex = pair.second;
 
         ContentPtr next = content_.get()->carry(nextcarry, true);
-        ContentPtr out = next.get()->getitem_next(head, tail, advanced);
+        // one advanced index per non-missing item
+        Index64 advanced_nonmissing(advanced.length() == 0 ? 0 : nextcarry.length());
+        for (int64_t i = 0;  i < advanced.length();  i++) {
+          int64_t j = (int64_t)outindex.getitem_at_nowrap(i);
+          if (j >= 0) {
+            advanced_nonmissing.setitem_at_nowrap(j, advanced.getitem_at_nowrap(i));
+          }
+        }
+        ContentPtr out = next.get()->getitem_next(
+          head, tail, advanced.length() == 0 ? advanced : advanced_nonmissing);
         IndexedArrayOf<T, ISOPTION> out2(identities_,
                                          parameters_,
                                          outindex,
diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 8894f36..7e68f28 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1761,7 +1761,8 @@ namespace awkward {
         content_.get()->length());
       util::handle_error(err, classname(), identities_.get());
       ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
-      return nextcontent.get()->getitem_next(nexthead, nexttail, nextadvanced);
+      // the same positions in the array items as before (missing items may have been dropped)
+      return nextcontent.get()->getitem_next(nexthead, nexttail, advanced);
     }
   }
 
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 79216dc..c502474 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -2252,7 +2252,8 @@ namespace awkward {
         content_.get()->length());
       util::handle_error(err, classname(), identities_.get());
       ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
-      return nextcontent.get()->getitem_next(nexthead, nexttail, nextadvanced);
+      // the same positions in the array items as before (missing items may have been dropped)
+      return nextcontent.get()->getitem_next(nexthead, nexttail, advanced);
     }
   }
 
diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 79080b0..d343dd4 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1515,7 +1515,8 @@ namespace awkward {
       util::handle_error(err, classname(), identities_.get());
 
       ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
-      return nextcontent.get()->getitem_next(nexthead, nexttail, nextadvanced);
+      // the same positions in the array items as before (missing items may have been dropped)
+      return nextcontent.get()->getitem_next(nexthead, nexttail, advanced);
     }
   }
 
-- 
2.43.0


From 8276d8cae4703c9fdef91c7a05e74d32f3933289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:18 +0000
Subject: [PATCH 006/158] fix: slicing a non-contiguous multidimensional
 NumpyArray inside another node reads past its rows

---
 src/libawkward/array/NumpyArray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index c615bc1..bf8c915 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -1433,6 +1433,9 @@ namespace awkward {
   NumpyArray::getitem_next(const SliceItemPtr& head,
                            const Slice& tail,
                            const Index64& advanced) const {
+    if (!iscontiguous()) {
+      return contiguous().getitem_next(head, tail, advanced);
+    }
     Index64 carry(shape_[0]);
     struct Error err = kernel::carry_arange<int64_t>(
       kernel::lib::cpu,   // DERIVE
-- 
2.43.0


From 0ca198ce12a5002a6152fec1655d8b2b1bf3378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:21 +0000
Subject: [PATCH 007/158] fix: converting integers to complex numbers in
 ArrayBuilder reads and writes twice the buffer's length

---
 src/libawkward/builder/Complex128Builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/builder/Complex128Builder.cpp b/src/libawkward/builder/Complex128Builder.cpp
index 6615ed1..1e46935 100644
--- a/src/libawkward/builder/Complex128Builder.cpp
+++ b/src/libawkward/builder/Complex128Builder.cpp
@@ -24,7 +24,7 @@ namespace awkward {
       GrowableBuffer<std::complex<double>>::empty(options, old.reserved());
     int64_t* oldraw = old.ptr().get();
     std::complex<double>* newraw = buffer.ptr().get();
-    for (int64_t i = 0;  i < 2*old.length();  i++) {
+    for (int64_t i = 0;  i < old.length();  i++) {
       newraw[i] = {static_cast<double>(oldraw[i]), 0};
     }
     buffer.set_length(old.length());
-- 
2.43.0


From 05f4461b20f8d3225fdc4f23acc12eb31dce94a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:21 +0000
Subject: [PATCH 008/158] fix: the index of an inner tuple is checked against
 the size of the outer one in ArrayBuilder, and negative indexes not at all

---
 src/libawkward/builder/TupleBuilder.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/builder/TupleBuilder.cpp b/src/libawkward/builder/TupleBuilder.cpp
index a6dd45e..a922f0c 100644
--- a/src/libawkward/builder/TupleBuilder.cpp
+++ b/src/libawkward/builder/TupleBuilder.cpp
@@ -340,16 +340,16 @@ namespace awkward {
         std::string("called 'index' without 'begin_tuple' at the same level before it")
         + FILENAME(__LINE__));
     }
-    else if (index >= (int64_t)contents_.size()) {
-      throw std::invalid_argument(
-        std::string("'index' ")
-        + std::to_string(index)
-        + (" is out of bounds for a tuple with number of fields ")
-        + std::to_string(contents_.size())
-        + FILENAME(__LINE__));
-    }
     else if (nextindex_ == -1  ||
              !contents_[(size_t)nextindex_].get()->active()) {
+      if (index < 0  ||  index >= (int64_t)contents_.size()) {
+        throw std::invalid_argument(
+          std::string("'index' ")
+          + std::to_string(index)
+          + (" is out of bounds for a tuple with number of fields ")
+          + std::to_string(contents_.size())
+          + FILENAME(__LINE__));
+      }
       nextindex_ = index;
     }
     else {
-- 
2.43.0


From cd54e88834b9601ae4ccd8b099d5b5b75209c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:55 +0000
Subject: [PATCH 009/158] fix: ArrayBuilder stores bytestrings as strings (or
 the reverse) when they follow each other

---
 src/libawkward/builder/StringBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libawkward/builder/StringBuilder.cpp b/src/libawkward/builder/StringBuilder.cpp
index 3810f04..bd3c07e 100644
--- a/src/libawkward/builder/StringBuilder.cpp
+++ b/src/libawkward/builder/StringBuilder.cpp
@@ -152,6 +152,11 @@ namespace awkward {
 
   const BuilderPtr
   StringBuilder::string(const char* x, int64_t length, const char* encoding) {
+    if (encoding != encoding_) {
+      BuilderPtr out = UnionBuilder::fromsingle(options_, shared_from_this());
+      out.get()->string(x, length, encoding);
+      return out;
+    }
     if (length < 0) {
       for (int64_t i = 0;  x[i] != 0;  i++) {
         content_.append((uint8_t)x[i]);
-- 
2.43.0


From 3c0e0e2c7ee8bd0d9e2756ae9fceab2aacad2d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:55 +0000
Subject: [PATCH 010/158] fix: clearing an ArrayBuilder leaves records and
 tuples with stale fields and structures half open

---
 src/libawkward/builder/ListBuilder.cpp   | 1 +
 src/libawkward/builder/RecordBuilder.cpp | 9 +++------
 src/libawkward/builder/TupleBuilder.cpp  | 4 +++-
 src/libawkward/builder/UnionBuilder.cpp  | 1 +
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/libawkward/builder/ListBuilder.cpp b/src/libawkward/builder/ListBuilder.cpp
index b5520f6..9cfeab0 100644
--- a/src/libawkward/builder/ListBuilder.cpp
+++ b/src/libawkward/builder/ListBuilder.cpp
@@ -50,6 +50,7 @@ namespace awkward {
     offsets_.clear();
     offsets_.append(0);
     content_.get()->clear();
+    begun_ = false;
   }
 
   const ContentPtr
diff --git a/src/libawkward/builder/RecordBuilder.cpp b/src/libawkward/builder/RecordBuilder.cpp
index 60036f0..8065aad 100644
--- a/src/libawkward/builder/RecordBuilder.cpp
+++ b/src/libawkward/builder/RecordBuilder.cpp
@@ -83,15 +83,12 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
-    keys_.clear();
-    pointers_.clear();
-    name_ = "";
-    nameptr_ = nullptr;
-    length_ = -1;
+    if (length_ != -1) {
+      length_ = 0;
+    }
     begun_ = false;
     nextindex_ = -1;
     nexttotry_ = 0;
-    keys_size_ = 0;
   }
 
   const ContentPtr
diff --git a/src/libawkward/builder/TupleBuilder.cpp b/src/libawkward/builder/TupleBuilder.cpp
index a922f0c..b8a086b 100644
--- a/src/libawkward/builder/TupleBuilder.cpp
+++ b/src/libawkward/builder/TupleBuilder.cpp
@@ -58,7 +58,9 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
-    length_ = -1;
+    if (length_ != -1) {
+      length_ = 0;
+    }
     begun_ = false;
     nextindex_ = -1;
   }
diff --git a/src/libawkward/builder/UnionBuilder.cpp b/src/libawkward/builder/UnionBuilder.cpp
index 1064cea..3a49de0 100644
--- a/src/libawkward/builder/UnionBuilder.cpp
+++ b/src/libawkward/builder/UnionBuilder.cpp
@@ -65,6 +65,7 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
+    current_ = -1;
   }
 
   const ContentPtr
-- 
2.43.0


From e57b6968429ec1d6e083fc075bc823a989141597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:55 +0000
Subject: [PATCH 011/158] fix: growing a buffer of size zero (or by a factor of
 one) does not make room for the next item

---
 src/libawkward/builder/GrowableBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/builder/GrowableBuffer.cpp b/src/libawkward/builder/GrowableBuffer.cpp
index 38cd6b6..dbfbcbe 100644
--- a/src/libawkward/builder/GrowableBuffer.cpp
+++ b/src/libawkward/builder/GrowableBuffer.cpp
@@ -123,7 +123,8 @@ namespace awkward {
   void
   GrowableBuffer<T>::append(T datum) {
     if (length_ == reserved_) {
-      set_reserved((int64_t)ceil(reserved_ * options_.resize()));
+      int64_t minreserved = (int64_t)ceil(reserved_ * options_.resize());
+      set_reserved(minreserved > reserved_ ? minreserved : reserved_ + 1);
     }
     ptr_.get()[length_] = datum;
     length_++;
-- 
2.43.0


From 1630861a7894164e4f3f019ac8607ef09a761c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:47 +0000
Subject: [PATCH 012/158] fix: merging complex numbers with real numbers loses
 the real numbers and reads uninitialized memory

---
 src/libawkward/array/NumpyArray.cpp | 66 +++++++++++++++++++----------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index bf8c915..6700a1f 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -2684,7 +2684,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<float>>(
@@ -2692,7 +2693,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<float>>(
@@ -2700,7 +2702,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<float>>(
@@ -2708,7 +2711,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<float>>(
@@ -2716,7 +2720,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<float>>(
@@ -2724,7 +2729,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<float>>(
@@ -2732,7 +2738,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<float>>(
@@ -2740,7 +2747,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<float>>(
@@ -2748,7 +2756,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2761,7 +2770,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<float>>(
@@ -2769,7 +2779,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<float>>(
@@ -2798,7 +2809,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<double>>(
@@ -2806,7 +2818,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<double>>(
@@ -2814,7 +2827,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<double>>(
@@ -2822,7 +2836,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<double>>(
@@ -2830,7 +2845,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<double>>(
@@ -2838,7 +2854,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<double>>(
@@ -2846,7 +2863,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<double>>(
@@ -2854,7 +2872,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<double>>(
@@ -2862,7 +2881,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2875,7 +2895,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<double>>(
@@ -2883,7 +2904,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<double>>(
-- 
2.43.0


From 5f81e61b00aa9ee74f387b812d6f18aacb51187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:47 +0000
Subject: [PATCH 013/158] fix: end_record without begin_record is accepted by
 ArrayBuilder after complex numbers

---
 src/libawkward/builder/Complex128Builder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/builder/Complex128Builder.cpp b/src/libawkward/builder/Complex128Builder.cpp
index 1e46935..aec7998 100644
--- a/src/libawkward/builder/Complex128Builder.cpp
+++ b/src/libawkward/builder/Complex128Builder.cpp
@@ -190,7 +190,9 @@ namespace awkward {
 
   const BuilderPtr
   Complex128Builder::endrecord() {
-    return shared_from_this();
+    throw std::invalid_argument(
+      std::string("called 'end_record' without 'begin_record' at the same level before it")
+      + FILENAME(__LINE__));
   }
 
   const BuilderPtr
-- 
2.43.0


From 4add31313fa6442e192943b33e6b244c0bcdafeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:10 +0000
Subject: [PATCH 014/158] fix: merging an array with a 32-bit IndexedArray
 always fails

---
 src/libawkward/array/IndexedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index c36f48f..dcdd8d8 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1766,7 +1766,7 @@ namespace awkward {
         theirlength);
       util::handle_error(err2, classname(), identities_.get());
     }
-    if (std::is_same<T, int64_t>::value) {
+    else if (std::is_same<T, int64_t>::value) {
       struct Error err2 = kernel::IndexedArray_fill<int64_t, int64_t>(
         kernel::lib::cpu,   // DERIVE
         index.data(),
-- 
2.43.0


From e15ffb18469e703ab41a4746afce3aa19e1b7f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:20 +0000
Subject: [PATCH 015/158] fix: merging an option-type array followed by an
 IndexedArray yields negative indexes without option type

---
 src/libawkward/array/IndexedArray.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index dcdd8d8..1f237ec 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1867,7 +1867,6 @@ namespace awkward {
       }
 
       if (IndexedArray32* raw = dynamic_cast<IndexedArray32*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         Index32 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<int32_t, int64_t>(
@@ -1882,7 +1881,6 @@ namespace awkward {
         length_so_far += array.get()->length();
       }
       else if (IndexedArrayU32* raw = dynamic_cast<IndexedArrayU32*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         IndexU32 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<uint32_t, int64_t>(
@@ -1897,7 +1895,6 @@ namespace awkward {
         length_so_far += array.get()->length();
       }
       else if (IndexedArray64* raw = dynamic_cast<IndexedArray64*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         Index64 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<int64_t, int64_t>(
-- 
2.43.0


From 6700e0de8edaf2b83651e09d50f67fbf7c2a8ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:13 +0000
Subject: [PATCH 016/158] fix: reducing along an inner axis moves results to
 the wrong list when a list contains only empty lists

---
 ...rray_reduce_nonlocal_outstartsstops_64.cpp | 27 ++++++-------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64.cpp b/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64.cpp
index 5be6ea5..882f268 100644
--- a/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64.cpp
+++ b/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64.cpp
@@ -11,26 +11,15 @@ ERROR awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64(
   int64_t lendistincts,
   const int64_t* gaps,
   int64_t outlength) {
-  int64_t j = 0;
-  int64_t k = 0;
-  int64_t maxdistinct = -1;
-  for (int64_t i = 0;  i < lendistincts;  i++) {
-    if (maxdistinct < distincts[i]) {
-      maxdistinct = distincts[i];
-      for (int64_t gappy = 0;  gappy < gaps[j];  gappy++) {
-        outstarts[k] = i;
-        outstops[k] = i;
-        k++;
-      }
-      j++;
+  // distincts has one block of maxcount items per output list, -1 where no
+  // input list (with this parent) reaches that position
+  int64_t maxcount = (outlength == 0 ? 0 : lendistincts / outlength);
+  for (int64_t k = 0;  k < outlength;  k++) {
+    outstarts[k] = k*maxcount;
+    outstops[k] = k*maxcount;
+    while (outstops[k] < (k + 1)*maxcount  &&  distincts[outstops[k]] != -1) {
+      outstops[k]++;
     }
-    if (distincts[i] != -1) {
-      outstops[k - 1] = i + 1;
-    }
-  }
-  for (;  k < outlength;  k++) {
-    outstarts[k] = lendistincts + 1;
-    outstops[k] = lendistincts + 1;
   }
   return success();
 }
-- 
2.43.0


From 9bbbddf618183f6a949bfbd3c0be03200f6b8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:02 +0000
Subject: [PATCH 017/158] fix: argmin and argmax of a sliced list array are off
 by its first offset, and reducing sliced lists with missing lists fails

---
 src/libawkward/array/ListOffsetArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index c502474..41b987a 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1456,7 +1456,7 @@ namespace awkward {
                                                              nextstarts,
                                                              nextshifts,
                                                              nextparents,
-                                                             maxnextparents + 1,
+                                                             nextoutlength,
                                                              mask,
                                                              false);
 
-- 
2.43.0


From d5ce9ddf9c9ed0566c3bd7e7bae4818bba3b7804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 018/158] fix: reducing an IndexedArray without missing values
 makes its lists missing-capable and fails on records

---
 src/libawkward/array/IndexedArray.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 1f237ec..9f743bd 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2182,6 +2182,21 @@ namespace awkward {
                                            int64_t outlength,
                                            bool mask,
                                            bool keepdims) const {
+    bool allpresent = !ISOPTION;
+    for (int64_t i = 0;  allpresent  &&  i < index_.length();  i++) {
+      allpresent = ((int64_t)index_.getitem_at_nowrap(i) >= 0);
+    }
+    if (allpresent) {
+      return project().get()->reduce_next(reducer,
+                                          negaxis,
+                                          starts,
+                                          shifts,
+                                          parents,
+                                          outlength,
+                                          mask,
+                                          keepdims);
+    }
+
     int64_t numnull;
     struct Error err1 = kernel::IndexedArray_numnull<T>(
       kernel::lib::cpu,   // DERIVE
-- 
2.43.0


From 5ba60d676730b8c3ab37052243e668c95aa85252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 019/158] fix: argmin and argmax with axis=None fail on
 multidimensional numeric data

---
 src/awkward/_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 76bde2e..962d115 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -503,9 +503,10 @@ def completely_flatten(array):
 
     elif isinstance(array, ak.layout.NumpyArray):
         if array.format.upper().startswith("M"):
-            return (ak.nplike.of(array).asarray(array.view_int64).view(array.format),)
+            out = ak.nplike.of(array).asarray(array.view_int64).view(array.format)
         else:
-            return (ak.nplike.of(array).asarray(array),)
+            out = ak.nplike.of(array).asarray(array)
+        return (out.reshape(-1),)
 
     else:
         raise RuntimeError(
-- 
2.43.0


From d9e6dafb032345d11093547c3577f5360e1b7f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 020/158] fix: reducing an outer axis of fixed-size lists fails
 if there is nothing to reduce for one of the results

---
 src/libawkward/array/ListOffsetArray.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 41b987a..76e1c34 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1429,6 +1429,16 @@ namespace awkward {
         outlength);
       util::handle_error(err6, classname(), identities_.get());
 
+      int64_t nextoutlength = maxnextparents + 1;
+      if (represents_regular_  &&  maxcount > 0) {
+        // fixed-size lists reduce to fixed-size lists, even if there are none
+        // to reduce: all of their items are the reducer's identity
+        nextoutlength = maxcount * outlength;
+        for (int64_t k = 0;  k < outlength;  k++) {
+          outstops.setitem_at_nowrap(k, outstarts.getitem_at_nowrap(k) + maxcount);
+        }
+      }
+
       bool make_shifts = reducer.returns_positions();
 
       Index64 nextshifts(make_shifts ? nextlen : 0);
@@ -1501,7 +1511,7 @@ namespace awkward {
                                                                 globalstop);
       ContentPtr outcontent = trimmed.get()->reduce_next(reducer,
                                                          negaxis,
-                                                         util::make_starts(offsets_),
+                                                         util::make_starts(compact_offsets64(true)),
                                                          shifts,
                                                          nextparents,
                                                          offsets_.length() - 1,
-- 
2.43.0


From ce21ff5cbd50754cf986c9081d3a3f3b444365b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:46 +0000
Subject: [PATCH 021/158] fix: variance and covariance of regular arrays
 subtract the means of the wrong rows

---
 src/awkward/operations/reducers.py | 39 ++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/awkward/operations/reducers.py b/src/awkward/operations/reducers.py
index 5727e07..52e090e 100644
--- a/src/awkward/operations/reducers.py
+++ b/src/awkward/operations/reducers.py
@@ -958,6 +958,15 @@ def mean(x, weight=None, axis=None, keepdims=False, mask_identity=True):
         return ak.nplike.of(sumwx, sumw).true_divide(sumwx, sumw)
 
 
+def _regular_axes(x, axis):
+    # Regular arrays broadcast on the right, like NumPy arrays, so that means
+    # have to keep the reduced dimension to match the array they came from.
+    if axis is None:
+        return False
+    layout = ak.operations.convert.to_layout(x, allow_record=False, allow_other=True)
+    return isinstance(layout, ak.layout.Content) and layout.purelist_isregular
+
+
 @ak._connect._numpy.implements("var")
 def var(x, weight=None, ddof=0, axis=None, keepdims=False, mask_identity=True):
     """
@@ -1009,7 +1018,11 @@ def var(x, weight=None, ddof=0, axis=None, keepdims=False, mask_identity=True):
     """
     with np.errstate(invalid="ignore"):
         xmean = mean(
-            x, weight=weight, axis=axis, keepdims=keepdims, mask_identity=mask_identity
+            x,
+            weight=weight,
+            axis=axis,
+            keepdims=keepdims or _regular_axes(x, axis),
+            mask_identity=mask_identity,
         )
         if weight is None:
             sumw = count(x, axis=axis, keepdims=keepdims, mask_identity=mask_identity)
@@ -1136,10 +1149,18 @@ def covar(x, y, weight=None, axis=None, keepdims=False, mask_identity=True):
     """
     with np.errstate(invalid="ignore"):
         xmean = mean(
-            x, weight=weight, axis=axis, keepdims=keepdims, mask_identity=mask_identity
+            x,
+            weight=weight,
+            axis=axis,
+            keepdims=keepdims or _regular_axes(x, axis),
+            mask_identity=mask_identity,
         )
         ymean = mean(
-            y, weight=weight, axis=axis, keepdims=keepdims, mask_identity=mask_identity
+            y,
+            weight=weight,
+            axis=axis,
+            keepdims=keepdims or _regular_axes(y, axis),
+            mask_identity=mask_identity,
         )
         if weight is None:
             sumw = count(x, axis=axis, keepdims=keepdims, mask_identity=mask_identity)
@@ -1207,10 +1228,18 @@ def corr(x, y, weight=None, axis=None, keepdims=False, mask_identity=True):
     """
     with np.errstate(invalid="ignore"):
         xmean = mean(
-            x, weight=weight, axis=axis, keepdims=keepdims, mask_identity=mask_identity
+            x,
+            weight=weight,
+            axis=axis,
+            keepdims=keepdims or _regular_axes(x, axis),
+            mask_identity=mask_identity,
         )
         ymean = mean(
-            y, weight=weight, axis=axis, keepdims=keepdims, mask_identity=mask_identity
+            y,
+            weight=weight,
+            axis=axis,
+            keepdims=keepdims or _regular_axes(y, axis),
+            mask_identity=mask_identity,
         )
         xdiff = x - xmean
         ydiff = y - ymean
-- 
2.43.0


From b1b2ffa2de6411237f726efbb7d82988cec324d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:16 +0000
Subject: [PATCH 022/158] fix: ufuncs fail on regular arrays whose content is
 longer than their lists

---
 src/awkward/_connect/_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/_connect/_numpy.py b/src/awkward/_connect/_numpy.py
index 7ac0a3c..be8036d 100644
--- a/src/awkward/_connect/_numpy.py
+++ b/src/awkward/_connect/_numpy.py
@@ -114,7 +114,7 @@ def array_ufunc(ufunc, method, inputs, kwargs):
             node = layout
             while isinstance(node, ak.layout.RegularArray):
                 shape.append(node.size)
-                node = node.content
+                node = node.content[: len(node) * node.size]
             if node.format.upper().startswith("M"):
                 nparray = ak.nplike.of(node).asarray(node.view_int64).view(node.format)
                 nparray = nparray.reshape(tuple(shape) + nparray.shape[1:])
-- 
2.43.0


From 53ffe2834529f4846821ef32f2183c12116c3713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:27 +0000
Subject: [PATCH 023/158] fix: fixed-size lists of variable-length lists do not
 broadcast with numbers, and those of size zero lose their length

---
 src/awkward/_util.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 962d115..29c884d 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -819,11 +819,23 @@ def broadcast_and_apply(  # noqa: C901
                                 )
                                 + exception_suffix(__file__)
                             )
+                    # handle implicit left-broadcasting (unlike NumPy)
+                    elif left_broadcast and isinstance(x, ak.layout.Content):
+                        nextinputs.append(
+                            ak.layout.IndexedArray64(
+                                ak.layout.Index64(
+                                    nplike.repeat(
+                                        nplike.arange(len(x), dtype=np.int64), maxsize
+                                    )
+                                ),
+                                x,
+                            ).project()
+                        )
                     else:
                         nextinputs.append(x)
 
                 maxlen = max(
-                    [len(x) for x in nextinputs if isinstance(x, ak.layout.Content)]
+                    [len(x) for x in inputs if isinstance(x, ak.layout.RegularArray)]
                 )
                 outcontent = apply(nextinputs, depth + 1, user)
                 assert isinstance(outcontent, tuple)
-- 
2.43.0


From 68673c6bd296ebafcdb3bdbc9f0fd5eecb34f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:41 +0000
Subject: [PATCH 024/158] fix: multidimensional numeric data inside lists
 broadcast with numbers along the wrong axis

---
 src/awkward/_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 29c884d..41d97b0 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -610,7 +610,11 @@ def broadcast_and_apply(  # noqa: C901
             ]
 
         # handle implicit right-broadcasting (i.e. NumPy-like)
-        if right_broadcast and any(isinstance(x, listtypes) for x in inputs):
+        if right_broadcast and any(
+            isinstance(x, listtypes)
+            or (isinstance(x, ak.layout.NumpyArray) and x.ndim > 1)
+            for x in inputs
+        ):
             maxdepth = max(
                 x.purelist_depth for x in inputs if isinstance(x, ak.layout.Content)
             )
-- 
2.43.0


From f42f1be6a8f1ca50bc26803bba73a0153b861329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:24 +0000
Subject: [PATCH 025/158] fix: lists whose offsets look alike are broadcast
 without dropping unreachable content, and broadcast_arrays leaves
 multidimensional data unbroadcast

---
 src/awkward/_util.py                | 29 +++++++++++------------------
 src/awkward/operations/structure.py |  4 +++-
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 41d97b0..902505f 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -565,32 +565,25 @@ def broadcast_and_apply(  # noqa: C901
             ):
                 starts = nplike.asarray(x.starts)
                 stops = nplike.asarray(x.stops)
-                if not nplike.array_equal(starts[1:], stops[:-1]):
+                if len(starts) == 0 or not nplike.array_equal(
+                    starts[1:], stops[: len(starts) - 1]
+                ):
                     return False
                 if offsets is None:
                     offsets = nplike.empty(len(starts) + 1, dtype=starts.dtype)
-                    if len(offsets) == 1:
-                        offsets[0] = 0
-                    else:
-                        offsets[:-1] = starts
-                        offsets[-1] = stops[-1]
-                elif not nplike.array_equal(offsets[:-1], starts) or (
-                    len(stops) != 0 and offsets[-1] != stops[-1]
+                    offsets[:-1] = starts
+                    offsets[-1] = stops[len(starts) - 1]
+                elif (
+                    not nplike.array_equal(offsets[:-1], starts)
+                    or offsets[-1] != stops[len(starts) - 1]
                 ):
                     return False
-            elif isinstance(x, ak.layout.RegularArray):
-                if x.size == 0:
-                    my_offsets = nplike.empty(0, dtype=np.int64)
-                else:
-                    my_offsets = nplike.arange(0, len(x.content), x.size)
-                if offsets is None:
-                    offsets = my_offsets
-                elif not nplike.array_equal(offsets, my_offsets):
-                    return False
             elif isinstance(x, ak.layout.Content):
                 return False
         else:
-            return True
+            # content before the first list (which might not be broadcastable)
+            # has to be dropped
+            return offsets[0] == 0
 
     def apply(inputs, depth, user):
         nplike = ak.nplike.of(*inputs)
diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 195463b..bfb45c5 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1403,7 +1403,9 @@ def broadcast_arrays(*arrays, **kwargs):
         inputs.append(y)
 
     def getfunction(inputs):
-        if all(isinstance(x, ak.layout.NumpyArray) for x in inputs):
+        if all(
+            isinstance(x, ak.layout.NumpyArray) and x.ndim <= 1 for x in inputs
+        ):
             return lambda: tuple(inputs)
         else:
             return None
-- 
2.43.0


From 18996b88f548db3f6d8d0f9f95c751e0ff7f1f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:01 +0000
Subject: [PATCH 026/158] fix: argmin and argmax along an outer axis ignore
 missing lists and read uninitialized memory

---
 src/libawkward/array/ListOffsetArray.cpp | 36 ++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 76e1c34..e9fe5ab 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1443,6 +1443,13 @@ namespace awkward {
 
       Index64 nextshifts(make_shifts ? nextlen : 0);
       if (make_shifts) {
+        // position of the first list with each parent; if missing lists have
+        // been removed from this array, this is not the same as starts
+        Index64 firsts(outlength);
+        for (int64_t i = offsets_.length() - 2;  i >= 0;  i--) {
+          firsts.setitem_at_nowrap(parents.getitem_at_nowrap(i), i);
+        }
+
         Index64 nummissing(maxcount);
         Index64 missing(offsets_.getitem_at(offsets_.length() - 1));
         struct Error err7 = kernel::ListOffsetArray_reduce_nonlocal_nextshifts_64(
@@ -1452,19 +1459,44 @@ namespace awkward {
           nextshifts.data(),
           offsets_.data(),
           offsets_.length() - 1,
-          starts.data(),
+          firsts.data(),
           parents.data(),
           maxcount,
           nextlen,
           nextcarry.data());
         util::handle_error(err7, classname(), identities_.get());
+
+        if (shifts.length() != 0) {
+          // lists that were missing at an outer level
+          Index64 outershifts(nextlen);
+          for (int64_t i = 0;  i < offsets_.length() - 1;  i++) {
+            int64_t parent = parents.getitem_at_nowrap(i);
+            int64_t outershift = shifts.getitem_at_nowrap(i)
+                                 + firsts.getitem_at_nowrap(parent)
+                                 - starts.getitem_at_nowrap(parent);
+            for (int64_t j = offsets_.getitem_at_nowrap(i);
+                 j < offsets_.getitem_at_nowrap(i + 1);
+                 j++) {
+              outershifts.setitem_at_nowrap(j - globalstart, outershift);
+            }
+          }
+          for (int64_t k = 0;  k < nextlen;  k++) {
+            nextshifts.setitem_at_nowrap(
+              k,
+              nextshifts.getitem_at_nowrap(k)
+              + outershifts.getitem_at_nowrap(nextcarry.getitem_at_nowrap(k) - globalstart));
+          }
+        }
       }
 
       ContentPtr nextcontent = content_.get()->carry(nextcarry, false);
       ContentPtr outcontent = nextcontent.get()->reduce_next(reducer,
                                                              negaxis - 1,
                                                              nextstarts,
-                                                             nextshifts,
+                                                             // short lists only shift positions
+                                                             // in the innermost dimension
+                                                             negaxis > 2 ? Index64(0)
+                                                                         : nextshifts,
                                                              nextparents,
                                                              nextoutlength,
                                                              mask,
-- 
2.43.0


From f0758d007362d41b4e07a2bac2358b113aa473fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:10 +0000
Subject: [PATCH 027/158] fix: converting fixed-size lists to variable-length
 lists keeps content beyond the last list

---
 src/libawkward/array/RegularArray.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index d343dd4..38420fd 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -334,7 +334,8 @@ namespace awkward {
       return std::make_shared<ListOffsetArray64>(identities,
                                                  parameters_,
                                                  offsets,
-                                                 content_);
+                                                 content_.get()->getitem_range_nowrap(
+                                                   0, len * size_));
     }
   }
 
-- 
2.43.0


From 791acd9176aef55e152b50f77fb1054871f14b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:13 +0000
Subject: [PATCH 028/158] fix: words in AwkwardForth comments no longer count
 as delimiters of definitions, conditionals and loops

---
 src/libawkward/forth/ForthMachine.cpp | 35 ++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 78474f9..70c91f8 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -1712,14 +1712,43 @@ namespace awkward {
                                 const std::vector<std::pair<int64_t, int64_t>>& linecol) {
     std::vector<std::vector<I>> dictionary;
 
+    // Words in comments must not count as the delimiters of definitions,
+    // conditionals, and loops, so complete comments are removed before parsing.
+    std::vector<std::string> code;
+    std::vector<std::pair<int64_t, int64_t>> codelinecol;
+    for (IndexTypeOf<int64_t> i = 0;  i < tokenized.size();  i++) {
+      IndexTypeOf<int64_t> end = i;
+      if (i != 0  &&  (tokenized[i - 1] == ".\""  ||  tokenized[i - 1] == "s\"")) {
+        // The text of a string is not a comment, whatever it contains.
+      }
+      else if (tokenized[i] == "(") {
+        int64_t nesting = 1;
+        while (nesting > 0  &&  ++end < tokenized.size()) {
+          nesting += (tokenized[end] == "(" ? 1 : (tokenized[end] == ")" ? -1 : 0));
+        }
+      }
+      else if (tokenized[i] == "\\") {
+        while (end + 1 < tokenized.size()  &&  tokenized[end] != "\n") {
+          end++;
+        }
+      }
+      if (end > i  &&  end < tokenized.size()) {
+        i = end;
+      }
+      else {
+        code.push_back(tokenized[i]);
+        codelinecol.push_back(linecol[i]);
+      }
+    }
+
     // Start recursive parsing.
     std::vector<I> bytecodes;
     dictionary.push_back(bytecodes);
     parse("",
-          tokenized,
-          linecol,
+          code,
+          codelinecol,
           0,
-          (int64_t)tokenized.size(),
+          (int64_t)code.size(),
           bytecodes,
           dictionary,
           0,
-- 
2.43.0


From 6a72f316a10ee78900fb022d67cfb0df740b3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:13 +0000
Subject: [PATCH 029/158] fix: AwkwardForth 'exit' ends the loops of the word
 it leaves, and not its caller's

---
 src/libawkward/forth/ForthMachine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 70c91f8..1f94959 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -3184,7 +3184,7 @@ namespace awkward {
               bytecodes_pointer_where()++;
               recursion_current_depth_ -= exitdepth;
               while (do_current_depth_ != 0  &&
-                     do_abs_recursion_depth() != recursion_current_depth_) {
+                     do_abs_recursion_depth() >= recursion_current_depth_) {
                 do_current_depth_--;
               }
 
-- 
2.43.0


From a04188267bb77270c20a225e3b7559dbd4afb566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:13 +0000
Subject: [PATCH 030/158] fix: stepping through AwkwardForth advances 'do'
 loops and leaves words on 'exit' as running does

---
 src/libawkward/forth/ForthMachine.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 1f94959..51bc587 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2678,6 +2678,9 @@ namespace awkward {
   template <typename T, typename I>
   void
   ForthMachineOf<T, I>::internal_run(bool single_step, int64_t recursion_target_depth_top) { // noexcept
+    // True when a single step has been made, except for ending its segment.
+    bool stepped = false;
+
     while (recursion_current_depth_ != recursion_target_depth_top) {
       while (bytecodes_pointer_where() < (
                  bytecodes_offsets_[(IndexTypeOf<int64_t>)bytecodes_pointer_which() + 1] -
@@ -3189,12 +3192,7 @@ namespace awkward {
               }
 
               count_instructions_++;
-              if (single_step) {
-                if (is_segment_done()) {
-                  bytecodes_pointer_pop();
-                }
-                return;
-              }
+              stepped = single_step;
 
               // StackOverflow said I could: https://stackoverflow.com/a/1257776/1623645
               //
@@ -3820,7 +3818,8 @@ namespace awkward {
         count_instructions_++;
         if (single_step) {
           if (is_segment_done()) {
-            bytecodes_pointer_pop();
+            stepped = true;
+            break;
           }
           return;
         }
@@ -3845,6 +3844,10 @@ namespace awkward {
         }
       }
 
+      if (stepped) {
+        return;
+      }
+
     } // end of all segments
   }
 
-- 
2.43.0


From ded91888f6a1d10f9c6a53afb42ed62057eb66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:37 +0000
Subject: [PATCH 031/158] fix: the 64-bit AwkwardForth machine keeps 64 bits of
 numbers read, loop counters, lengths, positions and absolute values

---
 src/libawkward/forth/ForthMachine.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 51bc587..edc46d6 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2,6 +2,7 @@
 
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS("src/libawkward/forth/ForthMachine.cpp", line)
 
+#include <cstdlib>
 #include <sstream>
 #include <stdexcept>
 #include <chrono>
@@ -2956,7 +2957,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -2982,7 +2983,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -3244,7 +3245,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
               break;
             }
 
@@ -3255,7 +3256,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
               break;
             }
 
@@ -3351,7 +3352,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
+              stack_push((T)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
               break;
             }
 
@@ -3415,7 +3416,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_i());
+              stack_push((T)do_i());
               break;
             }
 
@@ -3424,7 +3425,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_j());
+              stack_push((T)do_j());
               break;
             }
 
@@ -3433,7 +3434,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_k());
+              stack_push((T)do_k());
               break;
             }
 
@@ -3641,7 +3642,7 @@ namespace awkward {
                 return;
               }
               T* top = stack_peek();
-              *top = abs(*top);
+              *top = std::abs(*top);
               break;
             }
 
-- 
2.43.0


From fa5ca0991aad31624acaea609922ff4194bc5269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:37 +0000
Subject: [PATCH 032/158] fix: AwkwardForth reads fields of 31 bits and more

---
 src/libawkward/forth/ForthMachine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index edc46d6..4ab2e85 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2823,7 +2823,7 @@ namespace awkward {
               output = current_outputs_[(IndexTypeOf<int64_t>)out_num].get();
             }
 
-            uint64_t mask = (1 << bit_width) - 1;
+            uint64_t mask = ~(uint64_t)0 >> (64 - bit_width);
             uint64_t bits_wnd_l = 8;
             uint64_t bits_wnd_r = 0;
             int64_t items_remaining = num_items;
-- 
2.43.0


From db32a38a39a41ccc25ff3123aa01d0d5f730b1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:37 +0000
Subject: [PATCH 033/158] fix: an AwkwardForth input that any instruction
 byteswaps in place is required to be writable

---
 src/libawkward/forth/ForthMachine.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 4ab2e85..a7a0655 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -1953,7 +1953,7 @@ namespace awkward {
         }
 
         input_names_.push_back(name);
-        input_must_be_writable_.push_back(true);
+        input_must_be_writable_.push_back(false);
 
         pos += 2;
       }
@@ -2385,7 +2385,9 @@ namespace awkward {
           else {
             must_be_writable &= ((bytecode & READ_BIGENDIAN) != 0);
           }
-          input_must_be_writable_[input_index] = must_be_writable;
+          if (must_be_writable) {
+            input_must_be_writable_[input_index] = true;
+          }
 
           bool good = true;
           I nbits = 0;
-- 
2.43.0


From 59ded36f5dbdbdb2d833334d0f36a2ebbd747190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:46 +0000
Subject: [PATCH 034/158] fix: calling an AwkwardForth word checks the
 recursion depth

---
 src/libawkward/forth/ForthMachine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index a7a0655..c41f3c2 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -1234,6 +1234,10 @@ namespace awkward {
     if (current_error_ != util::ForthError::none) {
       return current_error_;
     }
+    if (recursion_current_depth_ == recursion_max_depth_) {
+      current_error_ = util::ForthError::recursion_depth_exceeded;
+      return current_error_;
+    }
 
     recursion_target_depth_.push(recursion_current_depth_);
     bytecodes_pointer_push(dictionary_bytecodes_[(IndexTypeOf<int64_t>)index] - BOUND_DICTIONARY);
-- 
2.43.0


From 8abff6d6f866548b73f9083e63086e10895c1c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:51 +0000
Subject: [PATCH 035/158] fix: calling an AwkwardForth word does not advance
 the loop in which the machine is paused

---
 src/libawkward/forth/ForthMachine.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index c41f3c2..febe984 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -3836,7 +3836,9 @@ namespace awkward {
     after_end_of_segment:
       bytecodes_pointer_pop();
 
-      if (do_current_depth_ != 0  &&
+      // The end of a word that was called while paused is not the end of a step.
+      if (recursion_current_depth_ != recursion_target_depth_top  &&
+          do_current_depth_ != 0  &&
           do_abs_recursion_depth() == recursion_current_depth_) {
         // End one step of a 'do ... loop' or a 'do ... +loop'.
         if (do_loop_is_step()) {
-- 
2.43.0


From feb0ed59c6e963d5d361bd509b85545e61b9f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:21 +0000
Subject: [PATCH 036/158] fix: AwkwardForth division and modulo of numbers near
 the limits of the integer type

---
 src/libawkward/forth/ForthMachine.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index febe984..3a29da1 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -3571,8 +3571,9 @@ namespace awkward {
               }
               // Forth (gforth, at least) does floor division; C++ does integer division.
               // This makes a difference for negative numerator or denominator.
-              T tmp = pair[0] / pair[1];
-              pair[0] = tmp * pair[1] == pair[0] ? tmp : tmp - ((pair[0] < 0) ^ (pair[1] < 0));
+              // Dividing the lowest number by -1 wraps around, like its negation.
+              T tmp = pair[1] == -1 ? (T)(0 - (uint64_t)pair[0]) : pair[0] / pair[1];
+              pair[0] = pair[1] == -1  ||  tmp * pair[1] == pair[0] ? tmp : tmp - ((pair[0] < 0) ^ (pair[1] < 0));
               break;
             }
 
@@ -3588,7 +3589,8 @@ namespace awkward {
               }
               // Forth (gforth, at least) does modulo; C++ does remainder.
               // This makes a difference for negative numerator or denominator.
-              pair[0] = (pair[1] + (pair[0] % pair[1])) % pair[1];
+              T tmp = pair[1] == -1 ? 0 : pair[0] % pair[1];
+              pair[0] = tmp == 0  ||  (tmp < 0) == (pair[1] < 0) ? tmp : tmp + pair[1];
               break;
             }
 
@@ -3604,11 +3606,12 @@ namespace awkward {
                 return;
               }
               // See notes on division and modulo/remainder above.
-              T tmp = one / two;
+              T tmp = two == -1 ? (T)(0 - (uint64_t)one) : one / two;
               stack_buffer_[stack_depth_ - 1] =
-                  tmp * two == one ? tmp : tmp - ((one < 0) ^ (two < 0));
+                  two == -1  ||  tmp * two == one ? tmp : tmp - ((one < 0) ^ (two < 0));
+              tmp = two == -1 ? 0 : one % two;
               stack_buffer_[stack_depth_ - 2] =
-                  (two + (one % two)) % two;
+                  tmp == 0  ||  (tmp < 0) == (two < 0) ? tmp : tmp + two;
               break;
             }
 
-- 
2.43.0


From a8c8fc0baa1a0a8dc986314787f12403873ee83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:54 +0000
Subject: [PATCH 037/158] fix: run_lengths of lists of which the first or the
 last ones are empty

---
 src/awkward/operations/structure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index bfb45c5..c2d09f6 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -349,7 +349,11 @@ def run_lengths(array, highlevel=True, behavior=None):
             if isinstance(diffs, ak.highlevel.Array):
                 diffs = nplike.asarray(diffs)
             if offsets is not None:
-                diffs[offsets[1:-1] - 1] = True
+                # a run cannot cross the boundary between two lists; empty lists
+                # at either end have no such boundary inside the data
+                boundaries = offsets[1:-1]
+                boundaries = boundaries[(boundaries > 0) & (boundaries < len(data))]
+                diffs[boundaries - 1] = True
             positions = nplike.nonzero(diffs)[0]
             full_positions = nplike.empty(len(positions) + 2, np.int64)
             full_positions[0] = 0
-- 
2.43.0


From 9f351e06769312acdd70afa529a02efdd8522657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:54 +0000
Subject: [PATCH 038/158] fix: packing arrays of zero-size lists, and keeping
 the parameters of regular and option-type nodes

---
 src/awkward/operations/structure.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index c2d09f6..952a2a0 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2204,7 +2204,10 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
             new_index[~is_none] = nplike.arange(len(new_index) - nplike.sum(is_none))
 
             return ak.layout.IndexedOptionArray64(
-                ak.layout.Index64(new_index), apply(layout.project(), depth, posaxis)
+                ak.layout.Index64(new_index),
+                apply(layout.project(), depth, posaxis),
+                layout.identities,
+                layout.parameters,
             )
 
         # Project indexed arrays
@@ -2242,7 +2245,11 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
 
         # UnmaskedArray just wraps another array
         elif isinstance(layout, ak.layout.UnmaskedArray):
-            return ak.layout.UnmaskedArray(apply(layout.content, depth, posaxis))
+            return ak.layout.UnmaskedArray(
+                apply(layout.content, depth, posaxis),
+                layout.identities,
+                layout.parameters,
+            )
 
         # UnionArrays can be simplified
         # and their contents too
@@ -2290,19 +2297,16 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
 
         # RegularArrays can change length
         elif isinstance(layout, ak.layout.RegularArray):
-            if not len(layout):
-                return layout
-
-            content = layout.content
-
             # Truncate content if it is larger than a perfect
             # multiple of the RegularArray size
-            n, r = divmod(len(content), layout.size)
-            if r != 0:
-                content = truncate(content, n * layout.size)
+            content = truncate(layout.content, len(layout) * layout.size)
 
             return ak.layout.RegularArray(
-                apply(content, depth + 1, posaxis), layout.size
+                apply(content, depth + 1, posaxis),
+                layout.size,
+                len(layout),
+                layout.identities,
+                layout.parameters,
             )
 
         # BitMaskedArrays can change length
-- 
2.43.0


From 47491471fb895a8524a78124fb2ccf3c8a84ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:54 +0000
Subject: [PATCH 039/158] fix: unflatten at axis >= 1 of multidimensional NumPy
 arrays

---
 src/awkward/operations/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 952a2a0..f835c5c 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2141,6 +2141,7 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
                         pass_depth=True,
                         pass_user=True,
                         user=axis,
+                        numpy_to_regular=True,
                     )
                 )
             out = ak.partition.IrregularlyPartitionedArray(outparts)
@@ -2151,6 +2152,7 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
                 pass_depth=True,
                 pass_user=True,
                 user=axis,
+                numpy_to_regular=True,
             )
 
     if current_offsets is not None and not (
-- 
2.43.0


From 6f5bb0f70cb7707e994c5cdd8da241299eeb3a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:10 +0000
Subject: [PATCH 040/158] fix: mask (and firsts) of arrays with regular
 dimensions

---
 src/awkward/operations/structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index f835c5c..93b99a1 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -181,6 +181,7 @@ def mask(array, mask, valid_when=True, highlevel=True, behavior=None):
         behavior,
         right_broadcast=False,
         pass_depth=False,
+        numpy_to_regular=True,
     )
     assert isinstance(out, tuple) and len(out) == 1
     if highlevel:
-- 
2.43.0


From eadc4e89aa4ac4495da5e72a03ec7dfaf5b24f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:32 +0000
Subject: [PATCH 041/158] fix: num below lists whose offsets do not start at
 zero

---
 src/libawkward/array/ListOffsetArray.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index e9fe5ab..47ebc77 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -966,7 +966,10 @@ namespace awkward {
       return std::make_shared<NumpyArray>(tonum);
     }
     else {
-      ContentPtr next = content_.get()->num(posaxis, depth + 1);
+      int64_t start = (int64_t)offsets_.getitem_at(0);
+      int64_t stop = (int64_t)offsets_.getitem_at(offsets_.length() - 1);
+      ContentPtr content = content_.get()->getitem_range_nowrap(start, stop);
+      ContentPtr next = content.get()->num(posaxis, depth + 1);
       Index64 offsets = compact_offsets64(true);
       return std::make_shared<ListOffsetArray64>(Identities::none(),
                                                  util::Parameters(),
-- 
2.43.0


From a6415d259d78010dfffae0f7fa046f73ea9138c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:32 +0000
Subject: [PATCH 042/158] fix: unflatten (axis=0) of records whose fields have
 different depths

---
 src/awkward/operations/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 93b99a1..fdc12e2 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2021,7 +2021,7 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
     # Pack the layout above the axis that will be unflattened. This ensures that
     # the `counts` array, which is computed through these layouts, aligns with
     # the layout to be unflattened (#910)
-    layout = _packed(layout, axis=axis - 1, highlevel=False)
+    layout = _packed(layout, axis=None if axis == 0 else axis - 1, highlevel=False)
 
     if isinstance(counts, (numbers.Integral, np.integer)):
         current_offsets = None
-- 
2.43.0


From 28fa9493dfb6fe130e2a659ca37efc47ca72cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:32 +0000
Subject: [PATCH 043/158] fix: packing masked arrays that simplify to another
 option type

---
 src/awkward/operations/structure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index fdc12e2..fbee79d 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2316,6 +2316,9 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
         elif isinstance(layout, ak.layout.BitMaskedArray):
             layout = layout.simplify()
 
+            if not isinstance(layout, ak.layout.BitMaskedArray):
+                return apply(layout, depth, posaxis)
+
             if not isinstance(ak.type(layout.content), ak.types.PrimitiveType):
                 return apply(layout.toIndexedOptionArray64(), depth, posaxis)
 
@@ -2333,6 +2336,9 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
         elif isinstance(layout, ak.layout.ByteMaskedArray):
             layout = layout.simplify()
 
+            if not isinstance(layout, ak.layout.ByteMaskedArray):
+                return apply(layout, depth, posaxis)
+
             if not isinstance(ak.type(layout.content), ak.types.PrimitiveType):
                 return apply(layout.toIndexedOptionArray64(), depth, posaxis)
 
-- 
2.43.0


From f294e9e32bcb2b39993d279fa96ffd1d2176f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:22 +0000
Subject: [PATCH 044/158] fix: pad_none with clip=True at axis=0 clips arrays
 of option type without missing values

---
 src/libawkward/array/UnmaskedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index d1ef89b..cd0b0c4 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -883,7 +883,7 @@ namespace awkward {
                                int64_t depth) const {
     int64_t posaxis = axis_wrap_if_negative(axis);
     if (posaxis == depth) {
-      return rpad_axis0(target, false);
+      return rpad_axis0(target, true);
     }
     else if (posaxis == depth + 1) {
       return content_.get()->rpad_and_clip(target, posaxis, depth);
-- 
2.43.0


From 760eb1750563744a93983e3eb14e474cf0cb1798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:31 +0000
Subject: [PATCH 045/158] fix: pad_none inside of records keeps the length of
 the record array

---
 src/libawkward/array/RecordArray.cpp | 36 ++++++++--------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 9cbbc6e..e41532c 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1420,19 +1420,11 @@ namespace awkward {
       for (auto content : contents_) {
         contents.push_back(content.get()->rpad(target, posaxis, depth));
       }
-      if (contents.empty()) {
-        return std::make_shared<RecordArray>(identities_,
-                                             parameters_,
-                                             contents,
-                                             recordlookup_,
-                                             length_);
-      }
-      else {
-        return std::make_shared<RecordArray>(identities_,
-                                             parameters_,
-                                             contents,
-                                             recordlookup_);
-      }
+      return std::make_shared<RecordArray>(identities_,
+                                           parameters_,
+                                           contents,
+                                           recordlookup_,
+                                           length_);
     }
   }
 
@@ -1450,19 +1442,11 @@ namespace awkward {
         contents.push_back(
           content.get()->rpad_and_clip(target, posaxis, depth));
       }
-      if (contents.empty()) {
-        return std::make_shared<RecordArray>(identities_,
-                                             parameters_,
-                                             contents,
-                                             recordlookup_,
-                                             length_);
-      }
-      else {
-        return std::make_shared<RecordArray>(identities_,
-                                             parameters_,
-                                             contents,
-                                             recordlookup_);
-      }
+      return std::make_shared<RecordArray>(identities_,
+                                           parameters_,
+                                           contents,
+                                           recordlookup_,
+                                           length_);
     }
   }
 
-- 
2.43.0


From fcd87c8739b0c65288cb61b44f236e3809ac3e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:17 +0000
Subject: [PATCH 046/158] fix: sort and argsort of lists whose offsets do not
 start at zero

---
 src/libawkward/array/ListOffsetArray.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 47ebc77..0afbf6f 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1761,6 +1761,16 @@ namespace awkward {
       return shallow_copy();
     }
 
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->sort_next(negaxis,
+                                                 starts,
+                                                 parents,
+                                                 outlength,
+                                                 ascending,
+                                                 stable,
+                                                 keepdims);
+    }
+
     std::pair<bool, int64_t> branchdepth = branch_depth();
 
     if (parameter_equals("__array__", "\"string\"")  ||
@@ -1965,6 +1975,16 @@ namespace awkward {
      return shallow_copy();
     }
 
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->argsort_next(negaxis,
+                                                    starts,
+                                                    parents,
+                                                    outlength,
+                                                    ascending,
+                                                    stable,
+                                                    keepdims);
+    }
+
     std::pair<bool, int64_t> branchdepth = branch_depth();
 
     if (parameter_equals("__array__", "\"string\"")  ||
-- 
2.43.0


From 7c01a3c039b0fa3527d05cf62ff4514e2694025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:10 +0000
Subject: [PATCH 047/158] fix: sort and argsort put NaN last

---
 src/cpu-kernels/awkward_argsort.cpp | 15 +++++++++++----
 src/cpu-kernels/awkward_sort.cpp    | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/cpu-kernels/awkward_argsort.cpp b/src/cpu-kernels/awkward_argsort.cpp
index 23b91ae..0be3f67 100644
--- a/src/cpu-kernels/awkward_argsort.cpp
+++ b/src/cpu-kernels/awkward_argsort.cpp
@@ -8,6 +8,13 @@
 
 #include "awkward/kernels.h"
 
+// NaN compares false with everything, which is not a strict weak ordering:
+// put NaN values last (regardless of the direction), as NumPy does.
+template <typename T>
+bool awkward_argsort_before(bool compare, T left, T right) {
+  return left == left  &&  (right != right  ||  compare);
+}
+
 template <typename T>
 ERROR awkward_argsort(
   int64_t* toptr,
@@ -25,7 +32,7 @@ ERROR awkward_argsort(
       auto start = std::next(result.begin(), offsets[i]);
       auto stop = std::next(result.begin(), offsets[i + 1]);
       std::stable_sort(start, stop, [&fromptr](int64_t i1, int64_t i2) {
-        return fromptr[i1] < fromptr[i2];
+        return awkward_argsort_before(fromptr[i1] < fromptr[i2], fromptr[i1], fromptr[i2]);
       });
       std::transform(start, stop, start, [&](int64_t j) -> int64_t {
         return j - offsets[i];
@@ -37,7 +44,7 @@ ERROR awkward_argsort(
       auto start = std::next(result.begin(), offsets[i]);
       auto stop = std::next(result.begin(), offsets[i + 1]);
       std::stable_sort(start, stop, [&fromptr](int64_t i1, int64_t i2) {
-        return fromptr[i1] > fromptr[i2];
+        return awkward_argsort_before(fromptr[i1] > fromptr[i2], fromptr[i1], fromptr[i2]);
       });
       std::transform(start, stop, start, [&](int64_t j) -> int64_t {
         return j - offsets[i];
@@ -49,7 +56,7 @@ ERROR awkward_argsort(
       auto start = std::next(result.begin(), offsets[i]);
       auto stop = std::next(result.begin(), offsets[i + 1]);
       std::sort(start, stop, [&fromptr](int64_t i1, int64_t i2) {
-        return fromptr[i1] < fromptr[i2];
+        return awkward_argsort_before(fromptr[i1] < fromptr[i2], fromptr[i1], fromptr[i2]);
       });
       std::transform(start, stop, start, [&](int64_t j) -> int64_t {
         return j - offsets[i];
@@ -61,7 +68,7 @@ ERROR awkward_argsort(
       auto start = std::next(result.begin(), offsets[i]);
       auto stop = std::next(result.begin(), offsets[i + 1]);
       std::sort(start, stop, [&fromptr](int64_t i1, int64_t i2) {
-        return fromptr[i1] > fromptr[i2];
+        return awkward_argsort_before(fromptr[i1] > fromptr[i2], fromptr[i1], fromptr[i2]);
       });
       std::transform(start, stop, start, [&](int64_t j) -> int64_t {
         return j - offsets[i];
diff --git a/src/cpu-kernels/awkward_sort.cpp b/src/cpu-kernels/awkward_sort.cpp
index 9a71958..7d94583 100644
--- a/src/cpu-kernels/awkward_sort.cpp
+++ b/src/cpu-kernels/awkward_sort.cpp
@@ -8,6 +8,13 @@
 #include <numeric>
 #include <vector>
 
+// NaN compares false with everything, which is not a strict weak ordering:
+// put NaN values last (regardless of the direction), as NumPy does.
+template <typename T>
+bool awkward_sort_before(bool compare, T left, T right) {
+  return left == left  &&  (right != right  ||  compare);
+}
+
 template <typename T>
 ERROR awkward_sort(
   T* toptr,
@@ -26,7 +33,7 @@ ERROR awkward_sort(
       auto start = std::next(index.begin(), offsets[i]);
       auto stop = std::next(index.begin(), offsets[i + 1]);
       std::stable_sort(start, stop, [&fromptr](int64_t i1, int64_t i2) {
-        return fromptr[i1] < fromptr[i2];
+        return awkward_sort_before(fromptr[i1] < fromptr[i2], fromptr[i1], fromptr[i2]);
       });
     }
   }
@@ -35,7 +42,7 @@ ERROR awkward_sort(
       auto start = std::next(index.begin(), offsets[i]);
       auto stop = std::next(index.begin(), offsets[i + 1]);
       std::stable_sort(start, stop, [&fromptr](int64_t i1, int64_t i2) {
-        return fromptr[i1] > fromptr[i2];
+        return awkward_sort_before(fromptr[i1] > fromptr[i2], fromptr[i1], fromptr[i2]);
       });
     }
   }
@@ -44,7 +51,7 @@ ERROR awkward_sort(
       auto start = std::next(index.begin(), offsets[i]);
       auto stop = std::next(index.begin(), offsets[i + 1]);
       std::sort(start, stop, [&fromptr](int64_t i1, int64_t i2) {
-        return fromptr[i1] < fromptr[i2];
+        return awkward_sort_before(fromptr[i1] < fromptr[i2], fromptr[i1], fromptr[i2]);
       });
     }
   }
@@ -53,7 +60,7 @@ ERROR awkward_sort(
       auto start = std::next(index.begin(), offsets[i]);
       auto stop = std::next(index.begin(), offsets[i + 1]);
       std::sort(start, stop, [&fromptr](int64_t i1, int64_t i2) {
-        return fromptr[i1] > fromptr[i2];
+        return awkward_sort_before(fromptr[i1] > fromptr[i2], fromptr[i1], fromptr[i2]);
       });
     }
   }
-- 
2.43.0


From 38efc43505ac1d2ae28152af1da3519c55dbd868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:55 +0000
Subject: [PATCH 048/158] fix: unstable sort and argsort put NaN last

---
 src/cpu-kernels/awkward_quick_argsort.cpp | 4 ++--
 src/cpu-kernels/awkward_quick_sort.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cpu-kernels/awkward_quick_argsort.cpp b/src/cpu-kernels/awkward_quick_argsort.cpp
index 34abe73..3993391 100644
--- a/src/cpu-kernels/awkward_quick_argsort.cpp
+++ b/src/cpu-kernels/awkward_quick_argsort.cpp
@@ -11,13 +11,13 @@
 template <typename T>
 bool order_ascending(T left, T right)
 {
-  return left <= right;
+  return left <= right  ||  right != right;   // NaN comes last
 }
 
 template <typename T>
 bool order_descending(T left, T right)
 {
-  return left >= right;
+  return left >= right  ||  right != right;   // NaN comes last
 }
 
 template <typename T>
diff --git a/src/cpu-kernels/awkward_quick_sort.cpp b/src/cpu-kernels/awkward_quick_sort.cpp
index 475813a..09277c3 100644
--- a/src/cpu-kernels/awkward_quick_sort.cpp
+++ b/src/cpu-kernels/awkward_quick_sort.cpp
@@ -7,13 +7,13 @@
 template <typename T>
 bool order_ascending(T left, T right)
 {
-  return left <= right;
+  return left <= right  ||  right != right;   // NaN comes last
 }
 
 template <typename T>
 bool order_descending(T left, T right)
 {
-  return left >= right;
+  return left >= right  ||  right != right;   // NaN comes last
 }
 
 template <typename T>
-- 
2.43.0


From 493c9c4bacbb5be5cb83b028d1d54058ec478ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:55 +0000
Subject: [PATCH 049/158] fix: sorting strings in descending order and strings
 that contain zero bytes

---
 .../awkward_ListOffsetArray_argsort_strings.cpp     | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
index 932270c..d9ad612 100644
--- a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
+++ b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
@@ -24,19 +24,12 @@ ERROR awkward_ListOffsetArray_argsort_strings_impl(
           size_t right_n = stringstops[right] - stringstarts[right];
           const char* left_str = &stringdata[stringstarts[left]];
           const char* right_str = &stringdata[stringstarts[right]];
-          int cmp = strncmp(left_str, right_str, std::min(left_n, right_n));
-          bool out;
-          if (cmp == 0) {
-            out = left_n < right_n;
-          }
-          else {
-            out = cmp < 0;
-          }
+          int cmp = memcmp(left_str, right_str, std::min(left_n, right_n));
           if (is_ascending) {
-            return out;
+            return cmp == 0 ? left_n < right_n : cmp < 0;
           }
           else {
-            return !out;
+            return cmp == 0 ? left_n > right_n : cmp > 0;
           }
         };
 
-- 
2.43.0


From 8f142a1a45451b0f79e495377225eba1e70246ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:06 +0000
Subject: [PATCH 050/158] fix: sort and argsort keep missing values: in place
 above the sorted axis, last within it

---
 src/libawkward/array/IndexedArray.cpp | 184 +++++++-------------------
 1 file changed, 46 insertions(+), 138 deletions(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 9f743bd..420e92a 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2399,7 +2399,6 @@ namespace awkward {
     int64_t index_length = index_.length();
     int64_t parents_length = parents.length();
 
-    int64_t starts_length = starts.length();
     int64_t numnull(0);
     struct Error err1 = kernel::IndexedArray_numnull<T>(
       kernel::lib::cpu,   // DERIVE
@@ -2424,94 +2423,49 @@ namespace awkward {
 
     ContentPtr next = content_.get()->carry(nextcarry, false);
 
-    bool inject_nones = false;
-    std::pair<bool, int64_t> branchdepth = branch_depth();
-    if (numnull > 0  &&  !branchdepth.first  &&  negaxis != branchdepth.second) {
-      keepdims = false;
-      inject_nones = true;
-    }
     ContentPtr out = next.get()->sort_next(negaxis,
                                            starts,
                                            nextparents,
                                            outlength,
                                            ascending,
                                            stable,
-                                           keepdims);
+                                           false);
 
-    Index64 nextoutindex(parents_length);
-    struct Error err3 = kernel::IndexedArray_local_preparenext_64(
+    // at the axis that is being sorted, missing values come last (or are dropped,
+    // if it is the outermost one); above it, they stay in place
+    std::pair<bool, int64_t> branchdepth = branch_depth();
+    if (!branchdepth.first  &&  negaxis == branchdepth.second) {
+      if (keepdims) {
+        return std::make_shared<RegularArray>(Identities::none(),
+                                              util::Parameters(),
+                                              out,
+                                              out.get()->length(),
+                                              1);
+      }
+      struct Error err3 = kernel::IndexedArray_local_preparenext_64(
         kernel::lib::cpu,   // DERIVE
-        nextoutindex.data(),
+        outindex.data(),
         starts.data(),
         parents.data(),
         parents_length,
         nextparents.data(),
         next_length);
-    util::handle_error(err3, classname(), identities_.get());
+      util::handle_error(err3, classname(), identities_.get());
+    }
 
     IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
                                           parameters_,
-                                          nextoutindex,
+                                          outindex,
                                           out);
     out = tmp.simplify_optiontype();
 
-    if (inject_nones) {
+    if (keepdims) {
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
                                            out,
-                                           parents_length,
-                                           0);
-    }
-
-    if (!branchdepth.first  &&  negaxis == branchdepth.second) {
-      return out;
+                                           out.get()->length(),
+                                           1);
     }
-    else {
-      if (RegularArray* raw =
-        dynamic_cast<RegularArray*>(out.get())) {
-        out = raw->toListOffsetArray64(true);
-      }
-      if (ListOffsetArray64* raw =
-        dynamic_cast<ListOffsetArray64*>(out.get())) {
-        Index64 outoffsets(starts.length() + 1);
-        if (starts.length() > 0  &&  starts.getitem_at_nowrap(0) != 0) {
-          throw std::runtime_error(
-            std::string("sort_next with unbranching depth > negaxis expects a "
-                        "ListOffsetArray64 whose offsets start at zero")
-            + FILENAME(__LINE__));
-        }
-        struct Error err4 = kernel::IndexedArray_reduce_next_fix_offsets_64(
-          kernel::lib::cpu,   // DERIVE
-          outoffsets.data(),
-          starts.data(),
-          starts_length,
-          outindex.length());
-        util::handle_error(err4, classname(), identities_.get());
-
-        IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
-                                              parameters_,
-                                              outindex,
-                                              raw->content());
-        return std::make_shared<ListOffsetArray64>(
-          raw->identities(),
-          raw->parameters(),
-          outoffsets,
-          tmp.simplify_optiontype());
-      }
-      if (IndexedArrayOf<int64_t, ISOPTION>* raw =
-        dynamic_cast<IndexedArrayOf<int64_t, ISOPTION>*>(out.get())) {
-          return out;
-      }
-      else {
-        throw std::runtime_error(
-          std::string("sort_next with unbranching depth > negaxis is only "
-                      "expected to return RegularArray or ListOffsetArray64 or "
-                      "IndexedArrayOf<int64_t, ISOPTION>; "
-                      "instead, it returned ") + out.get()->classname()
-          + FILENAME(__LINE__));
-      }
-    }
-
     return out;
   }
 
@@ -2531,7 +2485,6 @@ namespace awkward {
     int64_t index_length = index_.length();
     int64_t parents_length = parents.length();
 
-    int64_t starts_length = starts.length();
     int64_t numnull(0);
     struct Error err1 = kernel::IndexedArray_numnull<T>(
       kernel::lib::cpu,   // DERIVE
@@ -2556,94 +2509,49 @@ namespace awkward {
 
     ContentPtr next = content_.get()->carry(nextcarry, false);
 
-    bool inject_nones = false;
-    std::pair<bool, int64_t> branchdepth = branch_depth();
-    if (numnull > 0  &&  !branchdepth.first  &&  negaxis != branchdepth.second) {
-      keepdims = false;
-      inject_nones = true;
-    }
     ContentPtr out = next.get()->argsort_next(negaxis,
                                               starts,
                                               nextparents,
                                               outlength,
                                               ascending,
                                               stable,
-                                              keepdims);
+                                              false);
 
-    Index64 nextoutindex(parents_length);
-    struct Error err3 = kernel::IndexedArray_local_preparenext_64(
-      kernel::lib::cpu,   // DERIVE
-      nextoutindex.data(),
-      starts.data(),
-      parents.data(),
-      parents_length,
-      nextparents.data(),
-      next_length);
-    util::handle_error(err3, classname(), identities_.get());
+    // at the axis that is being sorted, missing values come last (or are dropped,
+    // if it is the outermost one); above it, they stay in place
+    std::pair<bool, int64_t> branchdepth = branch_depth();
+    if (!branchdepth.first  &&  negaxis == branchdepth.second) {
+      if (keepdims) {
+        return std::make_shared<RegularArray>(Identities::none(),
+                                              util::Parameters(),
+                                              out,
+                                              out.get()->length(),
+                                              1);
+      }
+      struct Error err3 = kernel::IndexedArray_local_preparenext_64(
+        kernel::lib::cpu,   // DERIVE
+        outindex.data(),
+        starts.data(),
+        parents.data(),
+        parents_length,
+        nextparents.data(),
+        next_length);
+      util::handle_error(err3, classname(), identities_.get());
+    }
 
     IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
                                           util::Parameters(),
-                                          nextoutindex,
+                                          outindex,
                                           out);
     out = tmp.simplify_optiontype();
 
-    if (inject_nones) {
+    if (keepdims) {
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
                                            out,
-                                           parents_length,
-                                           0);
-    }
-
-    if (!branchdepth.first  &&  negaxis == branchdepth.second) {
-      return out;
+                                           out.get()->length(),
+                                           1);
     }
-    else {
-      if (RegularArray* raw =
-        dynamic_cast<RegularArray*>(out.get())) {
-          out = raw->toListOffsetArray64(true);
-      }
-      if (ListOffsetArray64* raw =
-        dynamic_cast<ListOffsetArray64*>(out.get())) {
-        Index64 outoffsets(starts.length() + 1);
-        if (starts.length() > 0  &&  starts.getitem_at_nowrap(0) != 0) {
-          throw std::runtime_error(
-            std::string("argsort_next with unbranching depth > negaxis expects a "
-                        "ListOffsetArray64 whose offsets start at zero")
-            + FILENAME(__LINE__));
-        }
-        struct Error err4 = kernel::IndexedArray_reduce_next_fix_offsets_64(
-          kernel::lib::cpu,   // DERIVE
-          outoffsets.data(),
-          starts.data(),
-          starts_length,
-          outindex.length());
-        util::handle_error(err4, classname(), identities_.get());
-
-        IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
-                                              util::Parameters(),
-                                              outindex,
-                                              raw->content());
-        return std::make_shared<ListOffsetArray64>(
-          raw->identities(),
-          raw->parameters(),
-          outoffsets,
-          tmp.simplify_optiontype());
-      }
-      if (IndexedArrayOf<int64_t, ISOPTION>* raw =
-        dynamic_cast<IndexedArrayOf<int64_t, ISOPTION>*>(out.get())) {
-          return out;
-      }
-      else {
-        throw std::runtime_error(
-          std::string("argsort_next with unbranching depth > negaxis is only "
-                      "expected to return RegularArray or ListOffsetArray64 or "
-                      "IndexedArrayOf<int64_t, ISOPTION>; "
-                      "instead, it returned ") + out.get()->classname()
-          + FILENAME(__LINE__));
-      }
-    }
-
     return out;
   }
 
-- 
2.43.0


From 730ecb607a5d941ec63de5721ff0918e1ae0debd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:06 +0000
Subject: [PATCH 051/158] fix: sorting empty arrays of strings and of lists

---
 src/libawkward/array/ListOffsetArray.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 0afbf6f..c955357 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1758,6 +1758,13 @@ namespace awkward {
     bool keepdims) const {
 
     if (length() == 0 ) {
+      if (keepdims) {
+        return std::make_shared<RegularArray>(Identities::none(),
+                                              util::Parameters(),
+                                              shallow_copy(),
+                                              0,
+                                              1);
+      }
       return shallow_copy();
     }
 
@@ -1972,7 +1979,11 @@ namespace awkward {
                                            bool stable,
                                            bool keepdims) const {
     if (length() == 0 ) {
-     return shallow_copy();
+      if (parameter_equals("__array__", "\"string\"")  ||
+          parameter_equals("__array__", "\"bytestring\"")) {
+        return std::make_shared<NumpyArray>(Index64(0));
+      }
+      return shallow_copy();
     }
 
     if (offsets_.getitem_at_nowrap(0) != 0) {
-- 
2.43.0


From b129ca8b946006c02337f590f7a52611abbfc205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:53 +0000
Subject: [PATCH 052/158] fix: combinations of more items than a fixed-size
 list has (heap overflow)

---
 src/libawkward/array/RegularArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 38420fd..06bff30 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1219,10 +1219,10 @@ namespace awkward {
       }
       std::shared_ptr<int64_t> toindex =
           kernel::malloc<int64_t>(kernel::lib::cpu,   // DERIVE
-                                  size*(int64_t)sizeof(int64_t));
+                                  n*(int64_t)sizeof(int64_t));
       std::shared_ptr<int64_t> fromindex =
           kernel::malloc<int64_t>(kernel::lib::cpu,   // DERIVE
-                                  size*(int64_t)sizeof(int64_t));
+                                  n*(int64_t)sizeof(int64_t));
 
       if (size_ != 0) {
         struct Error err = kernel::RegularArray_combinations_64(
-- 
2.43.0


From d501bb87cc0e63ba70fe708879ef9df508b3b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:48 +0000
Subject: [PATCH 053/158] fix: nested cartesian products at axis=0 of empty
 arrays and of dicts

---
 src/awkward/operations/structure.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index fbee79d..9dbe73d 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -3224,7 +3224,7 @@ def cartesian(
         if isinstance(new_arrays, dict):
             if nested is True:
                 nested = list(new_arrays.keys())  # last key is ignored below
-            if any(not (isinstance(n, str) and n in new_arrays) for x in nested):
+            if any(not (isinstance(x, str) and x in new_arrays) for x in nested):
                 raise ValueError(
                     "the 'nested' parameter of cartesian must be dict keys "
                     "for a dict of arrays" + ak._util.exception_suffix(__file__)
@@ -3273,9 +3273,13 @@ def cartesian(
         ]
 
         result = ak.layout.RecordArray(outs, recordlookup, parameters=parameters)
-        for i in range(len(new_arrays) - 1, -1, -1):
+        for i in range(len(new_arrays) - 2, -1, -1):
             if i in nested:
-                result = ak.layout.RegularArray(result, len(layouts[i + 1]), 0)
+                # the length is needed if the size is zero
+                length = 1
+                for x in layouts[: i + 1]:
+                    length *= len(x)
+                result = ak.layout.RegularArray(result, len(layouts[i + 1]), length)
 
     elif is_partitioned:
         sample = None
@@ -3362,7 +3366,7 @@ def cartesian(
         if isinstance(new_arrays, dict):
             if nested is True:
                 nested = list(new_arrays.keys())  # last key is ignored below
-            if any(not (isinstance(n, str) and n in new_arrays) for x in nested):
+            if any(not (isinstance(x, str) and x in new_arrays) for x in nested):
                 raise ValueError(
                     "the 'nested' parameter of cartesian must be dict keys "
                     "for a dict of arrays" + ak._util.exception_suffix(__file__)
-- 
2.43.0


From 4c1eaa61182cad9e6d511bec8b0c34586a556f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:02 +0000
Subject: [PATCH 054/158] fix: values_astype of n-dimensional NumPy arrays (out
 of bounds)

---
 src/libawkward/array/NumpyArray.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 6700a1f..ced81c8 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -5132,9 +5132,11 @@ namespace awkward {
       ssize_t itemsize = util::dtype_to_itemsize(dtype);
       std::vector<ssize_t> shape = contiguous_self.shape();
       std::vector<ssize_t> strides;
+      int64_t flatlength = 1;
       for (int64_t j = (int64_t)shape.size();  j > 0;  j--) {
         strides.insert(strides.begin(), itemsize);
         itemsize *= shape[(size_t)(j - 1)];
+        flatlength *= (int64_t)shape[(size_t)(j - 1)];
       }
 
       IdentitiesPtr identities = contiguous_self.identities();
@@ -5145,47 +5147,47 @@ namespace awkward {
       switch (dtype_) {
       case util::dtype::boolean:
         ptr = as_type<bool>(reinterpret_cast<bool*>(contiguous_self.data()),
-                            contiguous_self.length(),
+                            flatlength,
                             dtype);
         break;
       case util::dtype::int8:
         ptr = as_type<int8_t>(reinterpret_cast<int8_t*>(contiguous_self.data()),
-                              contiguous_self.length(),
+                              flatlength,
                               dtype);
         break;
       case util::dtype::int16:
         ptr = as_type<int16_t>(reinterpret_cast<int16_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::int32:
         ptr = as_type<int32_t>(reinterpret_cast<int32_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::int64:
         ptr = as_type<int64_t>(reinterpret_cast<int64_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::uint8:
         ptr = as_type<uint8_t>(reinterpret_cast<uint8_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::uint16:
         ptr = as_type<uint16_t>(reinterpret_cast<uint16_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                flatlength,
                                 dtype);
         break;
       case util::dtype::uint32:
         ptr = as_type<uint32_t>(reinterpret_cast<uint32_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                flatlength,
                                 dtype);
         break;
       case util::dtype::uint64:
         ptr = as_type<uint64_t>(reinterpret_cast<uint64_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                flatlength,
                                 dtype);
         break;
       case util::dtype::float16:
@@ -5195,12 +5197,12 @@ namespace awkward {
         break;
       case util::dtype::float32:
         ptr = as_type<float>(reinterpret_cast<float*>(contiguous_self.data()),
-                             contiguous_self.length(),
+                             flatlength,
                              dtype);
         break;
       case util::dtype::float64:
         ptr = as_type<double>(reinterpret_cast<double*>(contiguous_self.data()),
-                              contiguous_self.length(),
+                              flatlength,
                               dtype);
         break;
       case util::dtype::float128:
@@ -5210,12 +5212,12 @@ namespace awkward {
         break;
       case util::dtype::complex64:
         ptr = as_type<std::complex<float>>(reinterpret_cast<std::complex<float>*>(contiguous_self.data()),
-                                           contiguous_self.length(),
+                                           flatlength,
                                            dtype);
         break;
       case util::dtype::complex128:
         ptr = as_type<std::complex<double>>(reinterpret_cast<std::complex<double>*>(contiguous_self.data()),
-                                            contiguous_self.length(),
+                                            flatlength,
                                             dtype);
         break;
       case util::dtype::complex256:
-- 
2.43.0


From e81f6a8c63d77493dfd038fbabaede388b147368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:02 +0000
Subject: [PATCH 055/158] fix: converting negative numbers to bool gives True

---
 kernel-specification.yml                           | 2 +-
 src/cpu-kernels/awkward_NumpyArray_fill_tobool.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel-specification.yml b/kernel-specification.yml
index 726c7d3..29bf248 100644
--- a/kernel-specification.yml
+++ b/kernel-specification.yml
@@ -4477,7 +4477,7 @@ kernels:
     definition: |
       def awkward_NumpyArray_fill_tobool(toptr, tooffset, fromptr, length):
           for i in range(length):
-              toptr[tooffset + i] = True if fromptr[i] > 0 else False
+              toptr[tooffset + i] = fromptr[i] != 0
     automatic-tests: true
     manual-tests: []
 
diff --git a/src/cpu-kernels/awkward_NumpyArray_fill_tobool.cpp b/src/cpu-kernels/awkward_NumpyArray_fill_tobool.cpp
index fdb4d0d..9047b8c 100644
--- a/src/cpu-kernels/awkward_NumpyArray_fill_tobool.cpp
+++ b/src/cpu-kernels/awkward_NumpyArray_fill_tobool.cpp
@@ -11,7 +11,7 @@ awkward_NumpyArray_fill_tobool(bool* toptr,
                                const FROM* fromptr,
                                int64_t length) {
   for (int64_t i = 0; i < length; i++) {
-    toptr[tooffset + i] = fromptr[i] > 0 ? true : false;
+    toptr[tooffset + i] = fromptr[i] != 0;
   }
   return success();
 }
-- 
2.43.0


From 9ce608aaca0cf99bf265331dfd1905d135ea7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:18 +0000
Subject: [PATCH 056/158] fix: fill_none also fills missing values inside of
 option-type lists and records

---
 src/libawkward/array/IndexedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 420e92a..a09074f 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2062,7 +2062,7 @@ namespace awkward {
     }
     if (ISOPTION) {
       ContentPtrVec contents;
-      contents.emplace_back(content());
+      contents.emplace_back(content_.get()->fillna(value));
       contents.emplace_back(value);
 
       Index8 tags = bytemask();
-- 
2.43.0


From d6f5af486fc759359200479a3252471ada5dbc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:18 +0000
Subject: [PATCH 057/158] fix: is_none in the inner dimensions of n-dimensional
 NumPy arrays

---
 src/awkward/operations/structure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 9dbe73d..f0f9f55 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2843,7 +2843,12 @@ def is_none(array, axis=0, highlevel=True, behavior=None):
     layout = ak.operations.convert.to_layout(array)
 
     out = ak._util.recursively_apply(
-        layout, getfunction, pass_depth=True, pass_user=True, user=axis
+        layout,
+        getfunction,
+        pass_depth=True,
+        pass_user=True,
+        user=axis,
+        numpy_to_regular=True,
     )
 
     if highlevel:
-- 
2.43.0


From 950a77b4f93196c5e0af3e24f7cef5f19f646122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:18 +0000
Subject: [PATCH 058/158] fix: nan_to_num keeps parameters (strings)

---
 src/awkward/operations/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index f0f9f55..66b7d4e 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -4408,7 +4408,9 @@ def nan_to_num(
                     nan=nan,
                     posinf=posinf,
                     neginf=neginf,
-                )
+                ),
+                layout.identities,
+                layout.parameters,
             )
         else:
             return None
-- 
2.43.0


From b64cbee8b436887dc518d9dbe0703d5bc0e3a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:57 +0000
Subject: [PATCH 059/158] fix: merging records whose columns are longer than
 the record array

---
 src/libawkward/array/RecordArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index e41532c..abab3fd 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1274,7 +1274,7 @@ namespace awkward {
     std::vector<ContentPtrVec> for_each_field;
     for (auto field : contents_) {
       ContentPtr trimmed = field.get()->getitem_range_nowrap(0, length_);
-      for_each_field.push_back(ContentPtrVec({ field }));
+      for_each_field.push_back(ContentPtrVec({ trimmed }));
     }
 
     if (istuple()) {
-- 
2.43.0


From 98c40bd8fcadd4f5bf8e38e2c9f3eaab1106526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:42 +0000
Subject: [PATCH 060/158] fix: zip of lists of strings goes down to the strings

---
 src/awkward/operations/structure.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 66b7d4e..f8b814e 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -634,15 +634,7 @@ def zip(
     def getfunction(inputs, depth):
         if depth_limit == depth or (
             depth_limit is None
-            and all(
-                x.purelist_depth == 1
-                or (
-                    x.purelist_depth == 2
-                    and x.purelist_parameter("__array__")
-                    in ("string", "bytestring", "categorical")
-                )
-                for x in inputs
-            )
+            and all(x.purelist_depth == 1 for x in inputs)
         ):
             return lambda: (
                 ak.layout.RecordArray(inputs, recordlookup, parameters=parameters),
-- 
2.43.0


From 8ff5c981611ac759c7999b636553376cc20f04d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:42 +0000
Subject: [PATCH 061/158] fix: with_field replaces the only field inside of
 lists and missing values

---
 src/awkward/operations/structure.py | 70 +++++++++++++----------------
 1 file changed, 32 insertions(+), 38 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index f8b814e..df1a269 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -946,47 +946,41 @@ def with_field(base, what, where=None, highlevel=True, behavior=None):
         if where in base.keys():
             keys.remove(where)
 
-        if len(keys) == 0:
-            # the only key was removed, so just create new Record
-            out = (ak.layout.RecordArray([what], [where], parameters=base.parameters),)
-
-        else:
-
-            def getfunction(inputs):
-                nplike = ak.nplike.of(*inputs)
-                base, what = inputs
-                if isinstance(base, ak.layout.RecordArray):
-                    if what is None:
-                        what = ak.layout.IndexedOptionArray64(
-                            ak.layout.Index64(nplike.full(len(base), -1, np.int64)),
-                            ak.layout.EmptyArray(),
-                        )
-                    elif not isinstance(what, ak.layout.Content):
-                        what = ak.layout.NumpyArray(nplike.repeat(what, len(base)))
-                    if base.istuple and where is None:
-                        recordlookup = None
-                    elif base.istuple:
-                        recordlookup = keys + [where]
-                    elif where is None:
-                        recordlookup = keys + [str(len(keys))]
-                    else:
-                        recordlookup = keys + [where]
-                    out = ak.layout.RecordArray(
-                        [base[k] for k in keys] + [what],
-                        recordlookup,
-                        parameters=base.parameters,
+        def getfunction(inputs):
+            nplike = ak.nplike.of(*inputs)
+            base, what = inputs
+            if isinstance(base, ak.layout.RecordArray):
+                if what is None:
+                    what = ak.layout.IndexedOptionArray64(
+                        ak.layout.Index64(nplike.full(len(base), -1, np.int64)),
+                        ak.layout.EmptyArray(),
                     )
-                    return lambda: (out,)
+                elif not isinstance(what, ak.layout.Content):
+                    what = ak.layout.NumpyArray(nplike.repeat(what, len(base)))
+                if base.istuple and where is None:
+                    recordlookup = None
+                elif base.istuple:
+                    recordlookup = keys + [where]
+                elif where is None:
+                    recordlookup = keys + [str(len(keys))]
                 else:
-                    return None
+                    recordlookup = keys + [where]
+                out = ak.layout.RecordArray(
+                    [base[k] for k in keys] + [what],
+                    recordlookup,
+                    parameters=base.parameters,
+                )
+                return lambda: (out,)
+            else:
+                return None
 
-            out = ak._util.broadcast_and_apply(
-                [base, what],
-                getfunction,
-                behavior,
-                right_broadcast=False,
-                pass_depth=False,
-            )
+        out = ak._util.broadcast_and_apply(
+            [base, what],
+            getfunction,
+            behavior,
+            right_broadcast=False,
+            pass_depth=False,
+        )
 
         assert isinstance(out, tuple) and len(out) == 1
 
-- 
2.43.0


From 86bef9c3e6b12064092fc0d6f64ecefd140cc8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:42 +0000
Subject: [PATCH 062/158] fix: where with an n-dimensional NumPy condition

---
 src/awkward/operations/structure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index df1a269..64b13c3 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1762,7 +1762,11 @@ def where(condition, *args, **kwargs):
 
         behavior = ak._util.behaviorof(akcondition, left, right)
         out = ak._util.broadcast_and_apply(
-            [akcondition, left, right], getfunction, behavior, pass_depth=False
+            [akcondition, left, right],
+            getfunction,
+            behavior,
+            pass_depth=False,
+            numpy_to_regular=True,
         )
 
         if highlevel:
-- 
2.43.0


From 1c21ec692716a32cf8e3f648fe54d4f0fc47f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:42 +0000
Subject: [PATCH 063/158] fix: concatenate treats missing lists as empty in
 every layout

---
 src/awkward/operations/structure.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 64b13c3..703ae83 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1572,12 +1572,17 @@ def concatenate(
             if depth == posaxis and any(
                 isinstance(x, ak._util.optiontypes) for x in inputs
             ):
+                # missing lists are empty, as are lists behind any index or in NumPy
                 nextinputs = []
                 for x in inputs:
-                    if isinstance(x, ak._util.optiontypes) and isinstance(
-                        x.content, ak._util.listtypes
+                    if (
+                        isinstance(x, ak._util.optiontypes + ak._util.indexedtypes)
+                        and x.purelist_depth > 1
                     ):
-                        nextinputs.append(fill_none(x, [], highlevel=False))
+                        offsets, flattened = x.offsets_and_flatten(1)
+                        nextinputs.append(
+                            ak.layout.ListOffsetArray64(offsets, flattened)
+                        )
                     else:
                         nextinputs.append(x)
                 inputs = nextinputs
-- 
2.43.0


From 92c8582972bd19666c28e301ee07852c5573e1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:36 +0000
Subject: [PATCH 064/158] fix: merging fixed-size lists with unused trailing
 content

---
 src/libawkward/array/ListArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 7e68f28..6de0b20 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1266,7 +1266,7 @@ namespace awkward {
           raw->length(),
           contentlength_so_far);
         util::handle_error(err, raw->classname(), raw->identities().get());
-        contentlength_so_far += raw->content().get()->length();
+        contentlength_so_far += rawregular->content().get()->length();
         length_so_far += raw->length();
       }
       else if (EmptyArray* raw = dynamic_cast<EmptyArray*>(array.get())) {
-- 
2.43.0


From bef56ab6ddacc54aba8e950f5ec34e6c53e8629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:36 +0000
Subject: [PATCH 065/158] fix: with_field keeps records whose new field is
 missing

---
 src/awkward/operations/structure.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 703ae83..5aa0ce9 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -949,6 +949,25 @@ def with_field(base, what, where=None, highlevel=True, behavior=None):
         def getfunction(inputs):
             nplike = ak.nplike.of(*inputs)
             base, what = inputs
+
+            if (
+                isinstance(base, ak._util.optiontypes)
+                and isinstance(what, ak._util.optiontypes)
+                and len(base) == len(what)
+            ):
+                # a missing value in the new field doesn't make the record missing
+                valid = nplike.asarray(base.bytemask()) == 0
+                records = base.project()
+                while isinstance(records, ak._util.indexedtypes):
+                    records = records.project()
+                if isinstance(records, ak.layout.RecordArray):
+                    index = nplike.full(len(base), -1, np.int64)
+                    index[valid] = nplike.arange(len(records), dtype=np.int64)
+                    (out,) = getfunction((records, what[valid]))()
+                    return lambda: (
+                        ak.layout.IndexedOptionArray64(ak.layout.Index64(index), out),
+                    )
+
             if isinstance(base, ak.layout.RecordArray):
                 if what is None:
                     what = ak.layout.IndexedOptionArray64(
-- 
2.43.0


From 0ddc777bb1e8306c74acad56ed9187669143b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:53 +0000
Subject: [PATCH 066/158] fix: to_numpy of zero-size fixed-size lists keeps the
 shape

---
 src/awkward/operations/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index c1f2913..fa26c4d 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -326,7 +326,7 @@ def to_numpy(array, allow_missing=True):
         out = to_numpy(array.content, allow_missing=allow_missing)
         head, tail = out.shape[0], out.shape[1:]
         if array.size == 0:
-            shape = (0, 0) + tail
+            shape = (len(array), 0) + tail
         else:
             shape = (head // array.size, array.size) + tail
         return out[: shape[0] * array.size].reshape(shape)
-- 
2.43.0


From 0cbf3c139d4e130f75611c41b0f50e2a18a70a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:25 +0000
Subject: [PATCH 067/158] fix: JSON with NaN and infinity (to_json wrote
 malformed text)

---
 src/libawkward/io/json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index cc10337..05f72c7 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -4,6 +4,8 @@
 
 #include <complex>
 
+// without this flag, writing NaN or infinity fails, leaving malformed JSON
+#define RAPIDJSON_WRITE_DEFAULT_FLAGS kWriteNanAndInfFlag
 #include "rapidjson/document.h"
 #include "rapidjson/reader.h"
 #include "rapidjson/writer.h"
@@ -775,7 +777,8 @@ namespace awkward {
     int64_t number = 0;
     while (stream.Peek() != 0) {
       handler.reset_moved();
-      bool fully_parsed = reader.Parse<rj::kParseStopWhenDoneFlag>(stream, handler);
+      bool fully_parsed = reader.Parse<rj::kParseStopWhenDoneFlag
+                                       | rj::kParseNanAndInfFlag>(stream, handler);
       if (handler.moved()) {
         if (!fully_parsed) {
           if (stream.Peek() == 0) {
-- 
2.43.0


From e027de54d206d69a7b22f78df2dde4b1e661d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:25 +0000
Subject: [PATCH 068/158] fix: from_numpy of zero-size arrays as fixed-size
 lists

---
 src/awkward/operations/convert.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index fa26c4d..8c1c24d 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -83,7 +83,12 @@ def from_numpy(
     def recurse(array, mask):
         if regulararray and len(array.shape) > 1:
             return ak.layout.RegularArray(
-                recurse(array.reshape((-1,) + array.shape[2:]), mask),
+                recurse(
+                    array.reshape(
+                        (array.shape[0] * array.shape[1],) + array.shape[2:]
+                    ),
+                    mask,
+                ),
                 array.shape[1],
                 array.shape[0],
             )
-- 
2.43.0


From db24ddc7f156f28b250087d1f81efa84207c36e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:24 +0000
Subject: [PATCH 069/158] fix: to_numpy of records and fixed-size lists with
 unused content, missing values in records

---
 src/awkward/operations/convert.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 8c1c24d..287d8db 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -251,7 +251,7 @@ def to_numpy(array, allow_missing=True):
             return numpy.concatenate(tocat)
 
     elif isinstance(array, ak._util.virtualtypes):
-        return to_numpy(array.array, allow_missing=True)
+        return to_numpy(array.array, allow_missing=allow_missing)
 
     elif isinstance(array, ak._util.unknowntypes):
         return numpy.array([])
@@ -328,13 +328,10 @@ def to_numpy(array, allow_missing=True):
                 return content
 
     elif isinstance(array, ak.layout.RegularArray):
-        out = to_numpy(array.content, allow_missing=allow_missing)
-        head, tail = out.shape[0], out.shape[1:]
-        if array.size == 0:
-            shape = (len(array), 0) + tail
-        else:
-            shape = (head // array.size, array.size) + tail
-        return out[: shape[0] * array.size].reshape(shape)
+        out = to_numpy(
+            array.content[: len(array) * array.size], allow_missing=allow_missing
+        )
+        return out.reshape((len(array), array.size) + out.shape[1:])
 
     elif isinstance(array, ak._util.listtypes):
         return to_numpy(array.toRegularArray(), allow_missing=allow_missing)
@@ -343,16 +340,19 @@ def to_numpy(array, allow_missing=True):
         if array.numfields == 0:
             return numpy.empty(len(array), dtype=[])
         contents = [
-            to_numpy(array.field(i), allow_missing=allow_missing)
-            for i in range(array.numfields)
+            to_numpy(array[key], allow_missing=allow_missing) for key in array.keys()
         ]
         if any(len(x.shape) != 1 for x in contents):
             raise ValueError(
                 "cannot convert {0} into np.ndarray".format(array)
                 + ak._util.exception_suffix(__file__)
             )
-        out = numpy.empty(
-            len(contents[0]),
+        if any(isinstance(x, numpy.ma.MaskedArray) for x in contents):
+            empty = numpy.ma.empty
+        else:
+            empty = numpy.empty
+        out = empty(
+            len(array),
             dtype=[(str(n), x.dtype) for n, x in zip(array.keys(), contents)],
         )
         for n, x in zip(array.keys(), contents):
-- 
2.43.0


From 6a873855f170efeaff6426e62e83cdd1a4164d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:24 +0000
Subject: [PATCH 070/158] fix: from_numpy of masked structured arrays

---
 src/awkward/operations/convert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 287d8db..98edce3 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -164,7 +164,11 @@ def from_numpy(
     else:
         contents = []
         for name in array.dtype.names:
-            contents.append(recurse(array[name], mask))
+            if isinstance(mask, np.ndarray) and mask.dtype.names is not None:
+                # a masked structured array has one mask per field
+                contents.append(recurse(array[name], mask[name]))
+            else:
+                contents.append(recurse(array[name], mask))
         layout = ak.layout.RecordArray(contents, array.dtype.names)
 
     if highlevel:
-- 
2.43.0


From 69f922dcff9be55a1e52d200df2fae9993be6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:02 +0000
Subject: [PATCH 071/158] fix: from_numpy of bytestrings that are not
 contiguous in memory

---
 src/awkward/operations/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 98edce3..3e8b35d 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -97,7 +97,7 @@ def from_numpy(
             array = array.reshape(1)
 
         if array.dtype.kind == "S":
-            asbytes = array.reshape(-1)
+            asbytes = numpy.ascontiguousarray(array.reshape(-1))
             itemsize = asbytes.dtype.itemsize
             starts = numpy.arange(0, len(asbytes) * itemsize, itemsize, dtype=np.int64)
             stops = starts + numpy.char.str_len(asbytes)
-- 
2.43.0


From 72196c1dd901533f5f2ab4f77db8bd97561e729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:29 +0000
Subject: [PATCH 072/158] fix: zero-size n-dimensional NumPy arrays as
 fixed-size lists

---
 src/libawkward/array/NumpyArray.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index ced81c8..06ca3ba 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -494,11 +494,15 @@ namespace awkward {
       contiguous_self.dtype(),
       ptr_lib_);
     for (int64_t i = (int64_t)shape_.size() - 1;  i > 0;  i--) {
+      int64_t zeros_length = 1;
+      for (int64_t j = 0;  j < i;  j++) {
+        zeros_length = zeros_length * (int64_t)shape_[(size_t)j];
+      }
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
                                            out,
                                            shape_[(size_t)i],
-                                           shape_[(size_t)(i - 1)]);
+                                           zeros_length);
     }
     return out;
   }
-- 
2.43.0


From 14c10c6b74f5bec7c11e40c7bcb15be272314d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:16 +0000
Subject: [PATCH 073/158] fix: from_buffers with empty bytes objects and with
 arrays that are not contiguous

---
 src/awkward/operations/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 3e8b35d..c6489d9 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4431,12 +4431,14 @@ _index_form_to_dtype = _index_form_to_index = _form_to_layout_class = None
 
 
 def _asbuf(obj):
+    if isinstance(obj, (bytes, bytearray)):
+        return numpy.frombuffer(obj, np.uint8)
     try:
         tmp = numpy.asarray(obj)
     except Exception:
         return numpy.frombuffer(obj, np.uint8)
     else:
-        return tmp.reshape(-1).view(np.uint8)
+        return numpy.ascontiguousarray(tmp.reshape(-1)).view(np.uint8)
 
 
 def _form_to_layout(
-- 
2.43.0


From 614d5ff57e9d76711d087405ce3422e88f72aa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:16 +0000
Subject: [PATCH 074/158] fix: lazy from_buffers of tuples

---
 src/awkward/operations/convert.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index c6489d9..255a23b 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4933,7 +4933,8 @@ def _from_buffers_key():
 def _wrap_record_with_virtual(input_form):
     def modify(form):
         if form["class"] == "RecordArray":
-            for item in form["contents"].values():
+            contents = form["contents"]
+            for item in contents.values() if isinstance(contents, dict) else contents:
                 modify(item)
         elif form["class"].startswith("UnionArray"):
             for item in form["contents"]:
@@ -4942,11 +4943,13 @@ def _wrap_record_with_virtual(input_form):
             modify(form["content"])
 
         if form["class"] == "RecordArray":
-            for key in form["contents"].keys():
-                form["contents"][key] = {
+            # a dict for records, a list for tuples
+            contents = form["contents"]
+            for key in contents if isinstance(contents, dict) else range(len(contents)):
+                contents[key] = {
                     "class": "VirtualArray",
                     "has_length": True,
-                    "form": form["contents"][key],
+                    "form": contents[key],
                 }
 
     form = json.loads(input_form.tojson())
-- 
2.43.0


From bf6dadc6cc08a2c7d9204c9e9e4e1b8d81ea9eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:41 +0000
Subject: [PATCH 075/158] fix: parameters with fractions and large integers in
 forms as JSON

---
 src/libawkward/io/json.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index 05f72c7..983bf34 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -44,14 +44,17 @@ namespace awkward {
     else if (value.IsBool()) {
       writer.Bool(value.GetBool());
     }
-    else if (value.IsInt()) {
-      writer.Int64(value.GetInt());
+    else if (value.IsInt64()) {
+      writer.Int64(value.GetInt64());
+    }
+    else if (value.IsUint64()) {
+      writer.Uint64(value.GetUint64());
     }
     else if (value.IsDouble()) {
-      writer.Int64((int64_t)value.GetDouble());
+      writer.Double(value.GetDouble());
     }
     else if (value.IsString()) {
-      writer.String(value.GetString());
+      writer.String(value.GetString(), value.GetStringLength());
     }
     else if (value.IsArray()) {
       writer.StartArray();
-- 
2.43.0


From 904a34ee45dc77db8c619a3c6245472770cf3c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:03 +0000
Subject: [PATCH 076/158] fix: from_buffers of masks that are longer than their
 array

---
 src/awkward/operations/convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 255a23b..e64eaf3 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4551,6 +4551,9 @@ def _form_to_layout(
                 )
                 + ak._util.exception_suffix(__file__)
             )
+        elif length < len(mask):
+            # the content may have only as many items as the mask is meant to have
+            mask = mask[:length]
 
         content = _form_to_layout(
             form.content,
-- 
2.43.0


From 3f96f2ab427eb51e4a546822c21897f3ccb7d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:03 +0000
Subject: [PATCH 077/158] fix: from_buffers (and pickling) of NumPy arrays with
 zero-size items

---
 src/awkward/operations/convert.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index e64eaf3..963dfbf 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4737,6 +4737,11 @@ def _form_to_layout(
         else:
             dtype, inner_shape = dtype_inner_shape.subdtype
 
+        if dtype_inner_shape.itemsize == 0:
+            # no data: only the expected length says how many items there are
+            array = numpy.empty((0 if length is None else length,) + inner_shape, dtype)
+            return ak.layout.NumpyArray(array, identities, parameters)
+
         if length is not None:
             actual = len(raw_array) // dtype_inner_shape.itemsize
             if length > actual:
-- 
2.43.0


From 49d27221a2c57cca93ec6bbb99f3a7952226a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:40 +0000
Subject: [PATCH 078/158] fix: from_buffers of lists and unions that are longer
 than their array

---
 src/awkward/operations/convert.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 963dfbf..33385a5 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4674,12 +4674,13 @@ def _form_to_layout(
                 + ak._util.exception_suffix(__file__)
             )
 
+        # items beyond the length may refer to data that the content does not have
+        if len(starts) != length:
+            starts = starts[:length]
+        if len(stops) != length:
+            stops = stops[:length]
         array_starts = numpy.asarray(starts)
-        if len(array_starts) != length:
-            array_starts = array_starts[:length]
         array_stops = numpy.asarray(stops)
-        if len(array_stops) != length:
-            array_stops = array_stops[:length]
         array_stops = array_stops[array_starts != array_stops]
         content = _form_to_layout(
             form.content,
@@ -4846,12 +4847,13 @@ def _form_to_layout(
                 + ak._util.exception_suffix(__file__)
             )
 
+        # items beyond the length may refer to data that the contents do not have
+        if len(tags) != length:
+            tags = tags[:length]
+        if len(index) != length:
+            index = index[:length]
         array_tags = numpy.asarray(tags)
-        if len(array_tags) != length:
-            array_tags = array_tags[:length]
         array_index = numpy.asarray(index)
-        if len(array_index) != length:
-            array_index = array_index[:length]
 
         contents = []
         for i, content_form in enumerate(form.contents):
-- 
2.43.0


From 8ff1ec14322ba82414cffcf1772dcdd9bc18e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 079/158] fix: merging with lazy arrays of indexed, option and
 union type

---
 src/libawkward/Content.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 39a6e99..99605cc 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -941,6 +941,9 @@ namespace awkward {
     size_t i = 0;
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      while (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       if (dynamic_cast<IndexedArray32*>(other.get())  ||
           dynamic_cast<IndexedArrayU32*>(other.get())  ||
           dynamic_cast<IndexedArray64*>(other.get())  ||
@@ -954,9 +957,6 @@ namespace awkward {
           dynamic_cast<UnionArray8_64*>(other.get())) {
         break;
       }
-      else if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
-        head.push_back(raw->array());
-      }
       else {
         head.push_back(other);
       }
@@ -964,6 +964,9 @@ namespace awkward {
 
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      while (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       tail.push_back(other);
     }
 
-- 
2.43.0


From 9bda3b4762b5689371fc446dea51a3c6da989b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 080/158] fix: slices of lazy arrays with bit-masked values
 inside of them

---
 src/libawkward/array/BitMaskedArray.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libawkward/array/BitMaskedArray.cpp b/src/libawkward/array/BitMaskedArray.cpp
index e52a9ec..175e2a3 100644
--- a/src/libawkward/array/BitMaskedArray.cpp
+++ b/src/libawkward/array/BitMaskedArray.cpp
@@ -210,6 +210,17 @@ namespace awkward {
               valid_when_ == t->valid_when()  &&
               lsb_order_ == t->lsb_order());
     }
+    else if (compatibility_check  &&
+             dynamic_cast<ByteMaskedForm*>(other.get())) {
+      // a BitMaskedArray becomes a ByteMaskedArray when it is sliced
+      ByteMaskedForm* t = dynamic_cast<ByteMaskedForm*>(other.get());
+      return (content_.get()->equal(t->content(),
+                                    check_identities,
+                                    check_parameters,
+                                    check_form_key,
+                                    compatibility_check)  &&
+              valid_when_ == t->valid_when());
+    }
     else {
       return false;
     }
-- 
2.43.0


From 7bf4eca393632052c0370c97b927baf58cd1a191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:42 +0000
Subject: [PATCH 081/158] fix: run_lengths of lazy arrays

---
 src/awkward/operations/structure.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 5aa0ce9..c11d3c1 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -367,10 +367,17 @@ def run_lengths(array, highlevel=True, behavior=None):
                 nextoffsets = nplike.searchsorted(full_positions, offsets, side="left")
             return nextcontent, nextoffsets
 
+    def materialize(layout):
+        while isinstance(layout, (ak._util.virtualtypes, ak._util.indexedtypes)):
+            if isinstance(layout, ak._util.virtualtypes):
+                layout = layout.array
+            else:
+                layout = layout.project()
+        return layout
+
     def getfunction(layout):
         if layout.branch_depth == (False, 1):
-            if isinstance(layout, ak._util.indexedtypes):
-                layout = layout.project()
+            layout = materialize(layout)
 
             if (
                 layout.parameter("__array__") == "string"
@@ -390,8 +397,7 @@ def run_lengths(array, highlevel=True, behavior=None):
             return lambda: ak.layout.NumpyArray(nextcontent)
 
         elif layout.branch_depth == (False, 2):
-            if isinstance(layout, ak._util.indexedtypes):
-                layout = layout.project()
+            layout = materialize(layout)
 
             if not isinstance(layout, ak._util.listtypes):
                 raise NotImplementedError(
@@ -400,16 +406,13 @@ def run_lengths(array, highlevel=True, behavior=None):
                     + ak._util.exception_suffix(__file__)
                 )
 
-            if (
-                layout.content.parameter("__array__") == "string"
-                or layout.content.parameter("__array__") == "bytestring"
-            ):
+            parameters = materialize(layout.content).parameters
+            if parameters.get("__array__") in ("string", "bytestring"):
                 listoffsetarray = layout.toListOffsetArray64(False)
                 offsets = nplike.asarray(listoffsetarray.offsets)
                 content = listoffsetarray.content[offsets[0] : offsets[-1]]
 
-                if isinstance(content, ak._util.indexedtypes):
-                    content = content.project()
+                content = materialize(content)
 
                 nextcontent, nextoffsets = lengths_of(
                     ak.highlevel.Array(content), offsets - offsets[0]
@@ -422,8 +425,7 @@ def run_lengths(array, highlevel=True, behavior=None):
             offsets = nplike.asarray(listoffsetarray.offsets)
             content = listoffsetarray.content[offsets[0] : offsets[-1]]
 
-            if isinstance(content, ak._util.indexedtypes):
-                content = content.project()
+            content = materialize(content)
 
             if not isinstance(content, (ak.layout.NumpyArray, ak.layout.EmptyArray)):
                 raise NotImplementedError(
-- 
2.43.0


From 2ece32da0ee9b1093d5410c14459d588bd376af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:21 +0000
Subject: [PATCH 082/158] fix: with_field of lazy records and missing values

---
 src/awkward/operations/structure.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index c11d3c1..423fc85 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -960,8 +960,13 @@ def with_field(base, what, where=None, highlevel=True, behavior=None):
                 # a missing value in the new field doesn't make the record missing
                 valid = nplike.asarray(base.bytemask()) == 0
                 records = base.project()
-                while isinstance(records, ak._util.indexedtypes):
-                    records = records.project()
+                while isinstance(
+                    records, (ak._util.virtualtypes, ak._util.indexedtypes)
+                ):
+                    if isinstance(records, ak._util.virtualtypes):
+                        records = records.array
+                    else:
+                        records = records.project()
                 if isinstance(records, ak.layout.RecordArray):
                     index = nplike.full(len(base), -1, np.int64)
                     index[valid] = nplike.arange(len(records), dtype=np.int64)
-- 
2.43.0


From e85be6294e0460e0b2255e0fdc2eb92898b4cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:25 +0000
Subject: [PATCH 083/158] fix: fields of lazy arrays whose parts are lazy, too

---
 src/libawkward/array/VirtualArray.cpp | 77 ++++++++++++++++++++++++++-
 1 file changed, 75 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/VirtualArray.cpp b/src/libawkward/array/VirtualArray.cpp
index c2f53e4..1dc9c18 100644
--- a/src/libawkward/array/VirtualArray.cpp
+++ b/src/libawkward/array/VirtualArray.cpp
@@ -10,11 +10,76 @@
 #include "awkward/common.h"
 #include "awkward/Reducer.h"
 #include "awkward/io/json.h"
+#include "awkward/array/BitMaskedArray.h"
+#include "awkward/array/ByteMaskedArray.h"
+#include "awkward/array/IndexedArray.h"
+#include "awkward/array/ListArray.h"
+#include "awkward/array/ListOffsetArray.h"
+#include "awkward/array/RecordArray.h"
 #include "awkward/array/RegularArray.h"
+#include "awkward/array/UnionArray.h"
+#include "awkward/array/UnmaskedArray.h"
 
 #include "awkward/array/VirtualArray.h"
 
 namespace awkward {
+  // Indexed, option, and union types are simplified when fields are taken out
+  // of them, unless their content is (still) lazy. If that can be the case, the
+  // Form of the result depends on what has been materialized: it is not known.
+  bool
+  field_form_is_uncertain(const FormPtr& form, bool simplifies) {
+    if (form.get() == nullptr) {
+      return false;
+    }
+    else if (VirtualForm* raw = dynamic_cast<VirtualForm*>(form.get())) {
+      return simplifies  ||  field_form_is_uncertain(raw->form(), false);
+    }
+    else if (RecordForm* raw = dynamic_cast<RecordForm*>(form.get())) {
+      for (auto content : raw->contents()) {
+        if (field_form_is_uncertain(content, simplifies)) {
+          return true;
+        }
+      }
+      return false;
+    }
+    else if (UnionForm* raw = dynamic_cast<UnionForm*>(form.get())) {
+      for (auto content : raw->contents()) {
+        if (field_form_is_uncertain(content, true)) {
+          return true;
+        }
+      }
+      return false;
+    }
+    else if (IndexedForm* raw = dynamic_cast<IndexedForm*>(form.get())) {
+      return field_form_is_uncertain(raw->content(), true);
+    }
+    else if (IndexedOptionForm* raw =
+             dynamic_cast<IndexedOptionForm*>(form.get())) {
+      return field_form_is_uncertain(raw->content(), true);
+    }
+    else if (ByteMaskedForm* raw = dynamic_cast<ByteMaskedForm*>(form.get())) {
+      return field_form_is_uncertain(raw->content(), true);
+    }
+    else if (BitMaskedForm* raw = dynamic_cast<BitMaskedForm*>(form.get())) {
+      return field_form_is_uncertain(raw->content(), true);
+    }
+    else if (UnmaskedForm* raw = dynamic_cast<UnmaskedForm*>(form.get())) {
+      return field_form_is_uncertain(raw->content(), true);
+    }
+    else if (ListForm* raw = dynamic_cast<ListForm*>(form.get())) {
+      return field_form_is_uncertain(raw->content(), false);
+    }
+    else if (ListOffsetForm* raw = dynamic_cast<ListOffsetForm*>(form.get())) {
+      return field_form_is_uncertain(raw->content(), false);
+    }
+    else if (RegularForm* raw = dynamic_cast<RegularForm*>(form.get())) {
+      return field_form_is_uncertain(raw->content(), false);
+    }
+    else {
+      return false;
+    }
+  }
+
   ////////// VirtualForm
 
   VirtualForm::VirtualForm(bool has_identities,
@@ -643,8 +708,12 @@ namespace awkward {
       }
     }
 
+    FormPtr knownform(nullptr);
+    if (!field_form_is_uncertain(generator_.get()->form(), false)) {
+      knownform = sliceform;
+    }
     ArrayGeneratorPtr generator = std::make_shared<SliceGenerator>(
-                 sliceform, generator_.get()->length(), shallow_copy(), slice);
+                 knownform, generator_.get()->length(), shallow_copy(), slice);
     ArrayCachePtr cache(nullptr);
     std::shared_ptr<VirtualArray> out = std::make_shared<VirtualArray>(
                                               Identities::none(),
@@ -677,8 +746,12 @@ namespace awkward {
       sliceform = generator_.get()->form().get()->getitem_fields(keys);
     }
 
+    FormPtr knownform(nullptr);
+    if (!field_form_is_uncertain(generator_.get()->form(), false)) {
+      knownform = sliceform;
+    }
     ArrayGeneratorPtr generator = std::make_shared<SliceGenerator>(
-                 sliceform, generator_.get()->length(), shallow_copy(), slice);
+                 knownform, generator_.get()->length(), shallow_copy(), slice);
     ArrayCachePtr cache(nullptr);
     std::shared_ptr<VirtualArray> out = std::make_shared<VirtualArray>(
                                               Identities::none(),
-- 
2.43.0


From 242bfdd7d44f834a4dfd25ea295784b10f81608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:15 +0000
Subject: [PATCH 084/158] fix: deep copies of NumPy arrays that start inside of
 their buffer

---
 src/libawkward/array/NumpyArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 06ca3ba..0ea02e1 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -1156,6 +1156,7 @@ namespace awkward {
           reinterpret_cast<uint8_t*>(data()),
           bytelength());
         util::handle_error(err, classname(), identities_.get());
+        byteoffset = 0;
       }
     }
     IdentitiesPtr identities = identities_;
-- 
2.43.0


From cf73c7c572b071e66e64fc6647ed74e007b32897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:15 +0000
Subject: [PATCH 085/158] fix: to_json of partitioned arrays

---
 include/awkward/partition/PartitionedArray.h  | 35 +++++++++++++-
 src/libawkward/array/NumpyArray.cpp           | 40 ++++++++++++----
 src/libawkward/partition/PartitionedArray.cpp | 47 ++++++++++++++++---
 src/python/partition.cpp                      | 42 ++++++++++++++---
 4 files changed, 140 insertions(+), 24 deletions(-)

diff --git a/include/awkward/partition/PartitionedArray.h b/include/awkward/partition/PartitionedArray.h
index c5f93a6..0e9a345 100644
--- a/include/awkward/partition/PartitionedArray.h
+++ b/include/awkward/partition/PartitionedArray.h
@@ -75,13 +75,29 @@ namespace awkward {
     /// If `false`, return a compact representation.
     /// @param maxdecimals Maximum number of decimals for floating-point
     /// numbers or `-1` for no limit.
+    /// @param nan_string User-defined string for a not-a-number (NaN) value
+    /// representation in JSON format.
+    /// @param infinity_string User-defined string for a positive infinity
+    /// representation in JSON format.
+    /// @param minus_infinity_string User-defined string for a negative
+    /// infinity representation in JSON format.
+    /// @param complex_real_string User-defined string for a complex number
+    /// real part representation in JSON format.
+    /// @param complex_imag_string User-defined string for a complex number
+    /// imaginary part representation in JSON format.
     ///
     /// Although the JSON output contains all of the data from the array
     /// (and therefore might not be safe to print to the screen), it
     /// does not preserve the type information of an array. In particular,
     /// the distinction between ListType and RegularType is lost.
     const std::string
-      tojson(bool pretty, int64_t maxdecimals) const;
+      tojson(bool pretty,
+             int64_t maxdecimals,
+             const char* nan_string = nullptr,
+             const char* infinity_string = nullptr,
+             const char* minus_infinity_string = nullptr,
+             const char* complex_real_string = nullptr,
+             const char* complex_imag_string = nullptr) const;
 
     /// @brief Writes a JSON representation of this array to a `destination`
     /// file.
@@ -92,6 +108,16 @@ namespace awkward {
     /// @param maxdecimals Maximum number of decimals for floating-point
     /// numbers or `-1` for no limit.
     /// @param buffersize Size of a temporary buffer in bytes.
+    /// @param nan_string User-defined string for a not-a-number (NaN) value
+    /// representation in JSON format.
+    /// @param infinity_string User-defined string for a positive infinity
+    /// representation in JSON format.
+    /// @param minus_infinity_string User-defined string for a negative
+    /// infinity representation in JSON format.
+    /// @param complex_real_string User-defined string for a complex number
+    /// real part representation in JSON format.
+    /// @param complex_imag_string User-defined string for a complex number
+    /// imaginary part representation in JSON format.
     ///
     /// Although the JSON output contains all of the data from the array
     /// (and therefore might not be safe to print to the screen), it
@@ -101,7 +127,12 @@ namespace awkward {
       tojson(FILE* destination,
              bool pretty,
              int64_t maxdecimals,
-             int64_t buffersize) const;
+             int64_t buffersize,
+             const char* nan_string = nullptr,
+             const char* infinity_string = nullptr,
+             const char* minus_infinity_string = nullptr,
+             const char* complex_real_string = nullptr,
+             const char* complex_imag_string = nullptr) const;
 
     /// @brief The length of the full array, summed over all partitions.
     virtual int64_t
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 0ea02e1..f66044c 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -4878,7 +4878,9 @@ namespace awkward {
     else {
       const std::vector<ssize_t> shape(std::next(shape_.begin()), shape_.end());
       const std::vector<ssize_t> strides(std::next(strides_.begin()), strides_.end());
-      builder.beginlist();
+      if (include_beginendlist) {
+        builder.beginlist();
+      }
       for (int64_t i = 0;  i < length();  i++) {
         ssize_t byteoffset = byteoffset_ + strides_[0]*((ssize_t)i);
         NumpyArray numpy(Identities::none(),
@@ -4893,7 +4895,9 @@ namespace awkward {
                          ptr_lib_);
         numpy.tojson_boolean(builder, true);
       }
-      builder.endlist();
+      if (include_beginendlist) {
+        builder.endlist();
+      }
     }
   }
 
@@ -4921,7 +4925,9 @@ namespace awkward {
     else {
       const std::vector<ssize_t> shape(std::next(shape_.begin()), shape_.end());
       const std::vector<ssize_t> strides(std::next(strides_.begin()), strides_.end());
-      builder.beginlist();
+      if (include_beginendlist) {
+        builder.beginlist();
+      }
       for (int64_t i = 0;  i < length();  i++) {
         ssize_t byteoffset = byteoffset_ + strides_[0]*((ssize_t)i);
         NumpyArray numpy(Identities::none(),
@@ -4936,7 +4942,9 @@ namespace awkward {
                          ptr_lib_);
         numpy.tojson_integer<T>(builder, true);
       }
-      builder.endlist();
+      if (include_beginendlist) {
+        builder.endlist();
+      }
     }
   }
 
@@ -4964,7 +4972,9 @@ namespace awkward {
     else {
       const std::vector<ssize_t> shape(std::next(shape_.begin()), shape_.end());
       const std::vector<ssize_t> strides(std::next(strides_.begin()), strides_.end());
-      builder.beginlist();
+      if (include_beginendlist) {
+        builder.beginlist();
+      }
       for (int64_t i = 0;  i < length();  i++) {
         ssize_t byteoffset = byteoffset_ + strides_[0]*((ssize_t)i);
         NumpyArray numpy(Identities::none(),
@@ -4979,7 +4989,9 @@ namespace awkward {
                          ptr_lib_);
         numpy.tojson_real<T>(builder, true);
       }
-      builder.endlist();
+      if (include_beginendlist) {
+        builder.endlist();
+      }
     }
   }
 
@@ -5007,7 +5019,9 @@ namespace awkward {
     else {
       const std::vector<ssize_t> shape(std::next(shape_.begin()), shape_.end());
       const std::vector<ssize_t> strides(std::next(strides_.begin()), strides_.end());
-      builder.beginlist();
+      if (include_beginendlist) {
+        builder.beginlist();
+      }
       for (int64_t i = 0;  i < length();  i++) {
         ssize_t byteoffset = byteoffset_ + strides_[0]*((ssize_t)i);
         NumpyArray numpy(Identities::none(),
@@ -5022,7 +5036,9 @@ namespace awkward {
                          ptr_lib_);
         numpy.tojson_complex<T>(builder, true);
       }
-      builder.endlist();
+      if (include_beginendlist) {
+        builder.endlist();
+      }
     }
   }
 
@@ -5040,7 +5056,9 @@ namespace awkward {
     else {
       const std::vector<ssize_t> shape(std::next(shape_.begin()), shape_.end());
       const std::vector<ssize_t> strides(std::next(strides_.begin()), strides_.end());
-      builder.beginlist();
+      if (include_beginendlist) {
+        builder.beginlist();
+      }
       for (int64_t i = 0;  i < length();  i++) {
         ssize_t byteoffset = byteoffset_ + strides_[0]*((ssize_t)i);
         NumpyArray numpy(Identities::none(),
@@ -5055,7 +5073,9 @@ namespace awkward {
                          ptr_lib_);
         numpy.tojson_string(builder, true);
       }
-      builder.endlist();
+      if (include_beginendlist) {
+        builder.endlist();
+      }
     }
   }
 
diff --git a/src/libawkward/partition/PartitionedArray.cpp b/src/libawkward/partition/PartitionedArray.cpp
index b1875e9..00022f8 100644
--- a/src/libawkward/partition/PartitionedArray.cpp
+++ b/src/libawkward/partition/PartitionedArray.cpp
@@ -42,9 +42,20 @@ namespace awkward {
   }
 
   const std::string
-  PartitionedArray::tojson(bool pretty, int64_t maxdecimals) const {
+  PartitionedArray::tojson(bool pretty,
+                           int64_t maxdecimals,
+                           const char* nan_string,
+                           const char* infinity_string,
+                           const char* minus_infinity_string,
+                           const char* complex_real_string,
+                           const char* complex_imag_string) const {
     if (pretty) {
-      ToJsonPrettyString builder(maxdecimals);
+      ToJsonPrettyString builder(maxdecimals,
+                                 nan_string,
+                                 infinity_string,
+                                 minus_infinity_string,
+                                 complex_real_string,
+                                 complex_imag_string);
       builder.beginlist();
       for (auto p : partitions_) {
         p.get()->tojson_part(builder, false);
@@ -53,7 +64,12 @@ namespace awkward {
       return builder.tostring();
     }
     else {
-      ToJsonString builder(maxdecimals);
+      ToJsonString builder(maxdecimals,
+                           nan_string,
+                           infinity_string,
+                           minus_infinity_string,
+                           complex_real_string,
+                           complex_imag_string);
       builder.beginlist();
       for (auto p : partitions_) {
         p.get()->tojson_part(builder, false);
@@ -67,9 +83,21 @@ namespace awkward {
   PartitionedArray::tojson(FILE* destination,
                            bool pretty,
                            int64_t maxdecimals,
-                           int64_t buffersize) const {
+                           int64_t buffersize,
+                           const char* nan_string,
+                           const char* infinity_string,
+                           const char* minus_infinity_string,
+                           const char* complex_real_string,
+                           const char* complex_imag_string) const {
     if (pretty) {
-      ToJsonPrettyFile builder(destination, maxdecimals, buffersize);
+      ToJsonPrettyFile builder(destination,
+                               maxdecimals,
+                               buffersize,
+                               nan_string,
+                               infinity_string,
+                               minus_infinity_string,
+                               complex_real_string,
+                               complex_imag_string);
       builder.beginlist();
       for (auto p : partitions_) {
         p.get()->tojson_part(builder, false);
@@ -77,7 +105,14 @@ namespace awkward {
       builder.endlist();
     }
     else {
-      ToJsonFile builder(destination, maxdecimals, buffersize);
+      ToJsonFile builder(destination,
+                         maxdecimals,
+                         buffersize,
+                         nan_string,
+                         infinity_string,
+                         minus_infinity_string,
+                         complex_real_string,
+                         complex_imag_string);
       builder.beginlist();
       for (auto p : partitions_) {
         p.get()->tojson_part(builder, false);
diff --git a/src/python/partition.cpp b/src/python/partition.cpp
index f0e01ae..1b7750a 100644
--- a/src/python/partition.cpp
+++ b/src/python/partition.cpp
@@ -16,9 +16,19 @@ template <typename T>
 std::string
 tojson_string(const T& self,
               bool pretty,
-              const py::object& maxdecimals) {
+              const py::object& maxdecimals,
+              const char* nan_string,
+              const char* infinity_string,
+              const char* minus_infinity_string,
+              const char* complex_real_string,
+              const char* complex_imag_string) {
   return self.tojson(pretty,
-                     check_maxdecimals(maxdecimals));
+                     check_maxdecimals(maxdecimals),
+                     nan_string,
+                     infinity_string,
+                     minus_infinity_string,
+                     complex_real_string,
+                     complex_imag_string);
 }
 
 template <typename T>
@@ -27,7 +37,12 @@ tojson_file(const T& self,
             const std::string& destination,
             bool pretty,
             py::object maxdecimals,
-            int64_t buffersize) {
+            int64_t buffersize,
+            const char* nan_string,
+            const char* infinity_string,
+            const char* minus_infinity_string,
+            const char* complex_real_string,
+            const char* complex_imag_string) {
 #ifdef _MSC_VER
   FILE* file;
   if (fopen_s(&file, destination.c_str(), "wb") != 0) {
@@ -43,7 +58,12 @@ tojson_file(const T& self,
     self.tojson(file,
                 pretty,
                 check_maxdecimals(maxdecimals),
-                buffersize);
+                buffersize,
+                nan_string,
+                infinity_string,
+                minus_infinity_string,
+                complex_real_string,
+                complex_imag_string);
   }
   catch (...) {
     fclose(file);
@@ -88,13 +108,23 @@ partitionedarray_methods(py::class_<T, std::shared_ptr<T>,
           .def("tojson",
                &tojson_string<T>,
                py::arg("pretty") = false,
-               py::arg("maxdecimals") = py::none())
+               py::arg("maxdecimals") = py::none(),
+               py::arg("nan_string") = nullptr,
+               py::arg("infinity_string") = nullptr,
+               py::arg("minus_infinity_string") = nullptr,
+               py::arg("complex_real_string") = nullptr,
+               py::arg("complex_imag_string") = nullptr)
           .def("tojson",
                &tojson_file<T>,
                py::arg("destination"),
                py::arg("pretty") = false,
                py::arg("maxdecimals") = py::none(),
-               py::arg("buffersize") = 65536)
+               py::arg("buffersize") = 65536,
+               py::arg("nan_string") = nullptr,
+               py::arg("infinity_string") = nullptr,
+               py::arg("minus_infinity_string") = nullptr,
+               py::arg("complex_real_string") = nullptr,
+               py::arg("complex_imag_string") = nullptr)
           .def("getitem_at", [](const T& self, int64_t at) -> py::object {
             return box(self.getitem_at(at));
           })
-- 
2.43.0


From 6589746b710c236e469418239052e73fd8e28578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:15 +0000
Subject: [PATCH 086/158] fix: empty slices of partitioned arrays keep their
 type

---
 src/libawkward/partition/PartitionedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/partition/PartitionedArray.cpp b/src/libawkward/partition/PartitionedArray.cpp
index 00022f8..2d10bf7 100644
--- a/src/libawkward/partition/PartitionedArray.cpp
+++ b/src/libawkward/partition/PartitionedArray.cpp
@@ -289,7 +289,7 @@ namespace awkward {
     }
 
     if (partitions.empty()) {
-      partitions.push_back(partitions_[0].get()->getitem_nothing());
+      partitions.push_back(partitions_[0].get()->getitem_range_nowrap(0, 0));
       stops.push_back(0);
     }
     return std::make_shared<IrregularlyPartitionedArray>(partitions, stops);
-- 
2.43.0


From e9fe3653d20df67a685d6c1d3094bd7f3c5dd896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:15 +0000
Subject: [PATCH 087/158] fix: string arrays next to partitioned arrays are
 partitioned, too

---
 src/awkward/partition.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index c1293ca..eaf7907 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -43,9 +43,13 @@ def partition_as(sample, arrays):
         for n, x in arrays.items():
             if isinstance(x, PartitionedArray):
                 out[n] = x.repartition(stops)
-            elif isinstance(x, ak.layout.Content) and (
-                x.parameter("__array__") == "string"
-                or x.parameter("__array__") == "bytestring"
+            elif (
+                isinstance(x, ak.layout.Content)
+                and len(x) == 1
+                and (
+                    x.parameter("__array__") == "string"
+                    or x.parameter("__array__") == "bytestring"
+                )
             ):
                 out[n] = x
             elif isinstance(x, ak.layout.Content):
@@ -58,9 +62,13 @@ def partition_as(sample, arrays):
         for x in arrays:
             if isinstance(x, PartitionedArray):
                 out.append(x.repartition(stops))
-            elif isinstance(x, ak.layout.Content) and (
-                x.parameter("__array__") == "string"
-                or x.parameter("__array__") == "bytestring"
+            elif (
+                isinstance(x, ak.layout.Content)
+                and len(x) == 1
+                and (
+                    x.parameter("__array__") == "string"
+                    or x.parameter("__array__") == "bytestring"
+                )
             ):
                 out.append(x)
             elif isinstance(x, ak.layout.Content):
-- 
2.43.0


From b727dbc00f502f96c5b845444e4dda35c436834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:15 +0000
Subject: [PATCH 088/158] fix: deep copies of partitioned arrays

---
 src/awkward/partition.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index eaf7907..1be15ee 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -411,10 +411,9 @@ class PartitionedArray(object):
         return sum(x.nbytes for x in self.partitions)
 
     def deep_copy(self, *args, **kwargs):
-        out = type(self).__new__(type(self))
-        out.__dict__.update(self.__dict__)
-        out._partitions = [x.deep_copy(*args, **kwargs) for x in out.partitions]
-        return out
+        return self.replace_partitions(
+            [x.deep_copy(*args, **kwargs) for x in self.partitions]
+        )
 
     @property
     def identity(self):
-- 
2.43.0


From 529f6f3e244a23c95ba5ce5b4508a2ae8e3e29e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:23 +0000
Subject: [PATCH 089/158] fix: partitioned arrays of fixed-size lists keep
 their sizes when merged

---
 src/awkward/operations/structure.py | 3 +++
 src/awkward/partition.py            | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 423fc85..2019f02 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -741,6 +741,9 @@ def to_regular(array, axis=1, highlevel=True, behavior=None):
 
     out = ak.operations.convert.to_layout(array)
     if axis != 0:
+        if isinstance(out, ak.partition.PartitionedArray):
+            # all partitions must get the same size
+            out = out.toContent()
         out = ak._util.recursively_apply(
             out,
             getfunction,
diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index 1be15ee..808d414 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -169,6 +169,12 @@ class PartitionedArray(object):
         out = batch[0].mergemany(batch[1:])
         if isinstance(out, ak._util.uniontypes):
             out = out.simplify(mergebool=False)
+        if self.purelist_isregular and not out.purelist_isregular:
+            # merging fixed-size lists results in variable-size lists
+            for axis in range(1, self.purelist_depth):
+                out = ak.operations.structure.to_regular(
+                    out, axis=axis, highlevel=False
+                )
         return out
 
     def __array__(self):
-- 
2.43.0


From fb5f32b7c12f0b7503de038929f5037ee87ce87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:23 +0000
Subject: [PATCH 090/158] fix: slices of partitioned arrays that reach across
 partitions

---
 src/awkward/partition.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index 808d414..6b664c9 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -296,6 +296,10 @@ class PartitionedArray(object):
                     [x[(slice(None),) + tail] for x in partitions]
                 )
 
+            elif head is Ellipsis and len(tail) >= first(self).minmax_depth[0]:
+                # the tail might reach the partitioned axis
+                return self.toContent()[(head,) + tail]
+
             elif head is Ellipsis:
                 return IrregularlyPartitionedArray(
                     [x[(head,) + tail] for x in self.partitions]
@@ -365,6 +369,15 @@ class PartitionedArray(object):
                         and isinstance(t.type, ak.types.UnionType)
                         and all(ti in int_types for ti in t.type.types)
                     )
+                    or (layout.purelist_isregular and layout.purelist_depth > 1)
+                    or any(
+                        not isinstance(
+                            x, (numbers.Integral, np.integer, slice, str, bytes)
+                        )
+                        and x is not Ellipsis
+                        and x is not np.newaxis
+                        for x in tail
+                    )
                 ):
                     if isinstance(layout, PartitionedArray):
                         layout = layout.toContent()
-- 
2.43.0


From e1735714e352e27c153a7c6ad2c3cb5371d6dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:23 +0000
Subject: [PATCH 091/158] fix: counting partitioned tuples

---
 src/awkward/partition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index 6b664c9..5fc17a2 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -519,6 +519,8 @@ class PartitionedArray(object):
                         for i, ci in enumerate(c):
                             counts[i] += ci
                 arraycounts = [ak.layout.NumpyArray(numpy.array([x])) for x in counts]
+                if prepared[0].istuple:
+                    names = None
                 return ak.layout.Record(ak.layout.RecordArray(arraycounts, names), 0)
             else:
                 return sum(prepared)
-- 
2.43.0


From 1097d93504558b0a1afce6a16745d9fd8f218a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:23 +0000
Subject: [PATCH 092/158] fix: reductions of partitioned arrays that result in
 records or have an initial value

---
 src/awkward/partition.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index 5fc17a2..f771463 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -578,19 +578,21 @@ class PartitionedArray(object):
         return out
 
     def reduce(self, name, axis, mask, keepdims, initial=None):
+        args = (axis, mask, keepdims)
+        if initial is not None:
+            args = args + (initial,)
+
         branch, depth = first(self).branch_depth
         negaxis = -axis
         if not branch and negaxis <= 0:
             negaxis += depth
-        if not branch and negaxis == depth:
-            if initial is None:
-                return getattr(self.toContent(), name)(axis, mask, keepdims)
-            else:
-                return getattr(self.toContent(), name)(axis, mask, keepdims, initial)
-        else:
-            return self.replace_partitions(
-                [getattr(x, name)(axis, mask, keepdims) for x in self.partitions]
-            )
+        if not branch and negaxis != depth:
+            outs = [getattr(x, name)(*args) for x in self.partitions]
+            if all(isinstance(x, ak.layout.Content) for x in outs):
+                return self.replace_partitions(outs)
+
+        # the reduction includes the partitioned axis or results in a Record
+        return getattr(self.toContent(), name)(*args)
 
     def count(self, axis, mask, keepdims):
         return self.reduce("count", axis, mask, keepdims)
-- 
2.43.0


From 1199f11f9e87391ed2cd2611db3788ba4e99bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 093/158] fix: arrays of another length next to partitioned
 arrays

---
 src/awkward/partition.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index f771463..3dac6a9 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -687,6 +687,13 @@ class PartitionedArray(object):
 class IrregularlyPartitionedArray(PartitionedArray):
     @classmethod
     def toPartitioned(cls, layout, stops):
+        if len(layout) != stops[-1]:
+            raise ValueError(
+                "cannot partition array of length {0} to length {1}".format(
+                    len(layout), stops[-1]
+                )
+                + ak._util.exception_suffix(__file__)
+            )
         partitions = []
         start = 0
         for stop in stops:
-- 
2.43.0


From dd22f9488f364c74f185b749e8f10fe90957f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 094/158] fix: to_numpy of partitioned arrays in which
 everything is missing

---
 src/awkward/operations/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 33385a5..0ded252 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -249,7 +249,10 @@ def to_numpy(array, allow_missing=True):
 
     elif isinstance(array, ak.partition.PartitionedArray):
         tocat = [to_numpy(x, allow_missing=allow_missing) for x in array.partitions]
-        if any(isinstance(x, numpy.ma.MaskedArray) for x in tocat):
+        if len(set(x.shape[1:] for x in tocat)) > 1:
+            # shapes of partitions in which everything is missing are unknown
+            return to_numpy(array.toContent(), allow_missing=allow_missing)
+        elif any(isinstance(x, numpy.ma.MaskedArray) for x in tocat):
             return numpy.ma.concatenate(tocat)
         else:
             return numpy.concatenate(tocat)
-- 
2.43.0


From a26b03b8868f2b96c1047c822a2d3b9afa259efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 095/158] fix: argmin and argmax of all values in partitioned
 arrays

---
 src/awkward/operations/reducers.py | 60 +++++++++---------------------
 1 file changed, 18 insertions(+), 42 deletions(-)

diff --git a/src/awkward/operations/reducers.py b/src/awkward/operations/reducers.py
index 52e090e..bfa8310 100644
--- a/src/awkward/operations/reducers.py
+++ b/src/awkward/operations/reducers.py
@@ -712,27 +712,15 @@ def argmin(array, axis=None, keepdims=False, mask_identity=True):
 
     if axis is None:
         if isinstance(layout, ak.partition.PartitionedArray):
-            start = 0
-            best_index = None
-            best_value = None
-            for partition in layout.partitions:
-                for tmp in ak._util.completely_flatten(partition):
-                    out = ak.nplike.of(tmp).argmin(tmp, axis=None)
-                    if best_index is None or tmp[out] < best_value:
-                        best_index = start + out
-                        best_value = tmp[out]
-                start += len(partition)
-            return best_index
-
-        else:
-            best_index = None
-            best_value = None
-            for tmp in ak._util.completely_flatten(layout):
-                out = ak.nplike.of(tmp).argmin(tmp, axis=None)
-                if best_index is None or tmp[out] < best_value:
-                    best_index = out
-                    best_value = tmp[out]
-            return best_index
+            layout = layout.toContent()
+        best_index = None
+        best_value = None
+        for tmp in ak._util.completely_flatten(layout):
+            out = ak.nplike.of(tmp).argmin(tmp, axis=None)
+            if best_index is None or tmp[out] < best_value:
+                best_index = out
+                best_value = tmp[out]
+        return best_index
 
     else:
         behavior = ak._util.behaviorof(array)
@@ -782,27 +770,15 @@ def argmax(array, axis=None, keepdims=False, mask_identity=True):
 
     if axis is None:
         if isinstance(layout, ak.partition.PartitionedArray):
-            start = 0
-            best_index = None
-            best_value = None
-            for partition in layout.partitions:
-                for tmp in ak._util.completely_flatten(partition):
-                    out = ak.nplike.of(tmp).argmax(tmp, axis=None)
-                    if best_index is None or tmp[out] > best_value:
-                        best_index = start + out
-                        best_value = tmp[out]
-                start += len(partition)
-            return best_index
-
-        else:
-            best_index = None
-            best_value = None
-            for tmp in ak._util.completely_flatten(layout):
-                out = ak.nplike.of(tmp).argmax(tmp, axis=None)
-                if best_index is None or tmp[out] > best_value:
-                    best_index = out
-                    best_value = tmp[out]
-            return best_index
+            layout = layout.toContent()
+        best_index = None
+        best_value = None
+        for tmp in ak._util.completely_flatten(layout):
+            out = ak.nplike.of(tmp).argmax(tmp, axis=None)
+            if best_index is None or tmp[out] > best_value:
+                best_index = out
+                best_value = tmp[out]
+        return best_index
 
     else:
         behavior = ak._util.behaviorof(array)
-- 
2.43.0


From 74a9fcfd25ef455b46e49ca3ddbaaa84f1fa90ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 096/158] fix: variances of partitioned regular arrays

---
 src/awkward/operations/reducers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/reducers.py b/src/awkward/operations/reducers.py
index bfa8310..645a66d 100644
--- a/src/awkward/operations/reducers.py
+++ b/src/awkward/operations/reducers.py
@@ -940,7 +940,10 @@ def _regular_axes(x, axis):
     if axis is None:
         return False
     layout = ak.operations.convert.to_layout(x, allow_record=False, allow_other=True)
-    return isinstance(layout, ak.layout.Content) and layout.purelist_isregular
+    return (
+        isinstance(layout, (ak.layout.Content, ak.partition.PartitionedArray))
+        and layout.purelist_isregular
+    )
 
 
 @ak._connect._numpy.implements("var")
-- 
2.43.0


From 0126b284de7616adffe5dbdbc274bca74c52bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:44 +0000
Subject: [PATCH 097/158] fix: argmin and argmax of complex numbers compare
 with the best so far

---
 src/cpu-kernels/awkward_reduce_argmax_complex.cpp | 6 +++---
 src/cpu-kernels/awkward_reduce_argmin_complex.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu-kernels/awkward_reduce_argmax_complex.cpp b/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
index 37069b7..e281bb7 100644
--- a/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
+++ b/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
@@ -17,9 +17,9 @@ ERROR awkward_reduce_argmax_complex(
   for (int64_t i = 0;  i < lenparents;  i++) {
     int64_t parent = parents[i];
     if (toptr[parent] == -1  ||
-      (fromptr[i * 2] > fromptr[toptr[parent * 2]]  ||
-        (fromptr[i * 2] == fromptr[toptr[parent * 2]]  &&
-         fromptr[i * 2 + 1] > fromptr[toptr[parent * 2 + 1]]))) {
+      (fromptr[i * 2] > fromptr[toptr[parent] * 2]  ||
+        (fromptr[i * 2] == fromptr[toptr[parent] * 2]  &&
+         fromptr[i * 2 + 1] > fromptr[toptr[parent] * 2 + 1]))) {
       toptr[parent] = i;
     }
   }
diff --git a/src/cpu-kernels/awkward_reduce_argmin_complex.cpp b/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
index 711c050..a106410 100644
--- a/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
+++ b/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
@@ -17,9 +17,9 @@ ERROR awkward_reduce_argmin_complex(
   for (int64_t i = 0;  i < lenparents;  i++) {
     int64_t parent = parents[i];
     if (toptr[parent] == -1  ||
-      (fromptr[i * 2] < fromptr[toptr[parent * 2]]  ||
-        (fromptr[i * 2] == fromptr[toptr[parent * 2]]  &&
-         fromptr[i * 2 + 1] < fromptr[toptr[parent * 2 + 1]]))) {
+      (fromptr[i * 2] < fromptr[toptr[parent] * 2]  ||
+        (fromptr[i * 2] == fromptr[toptr[parent] * 2]  &&
+         fromptr[i * 2 + 1] < fromptr[toptr[parent] * 2 + 1]))) {
       toptr[parent] = i;
     }
   }
-- 
2.43.0


From 7ef6529a606e44325a47a99799afeb21b4feaeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:44 +0000
Subject: [PATCH 098/158] fix: max of complex numbers with negative real parts

---
 src/libawkward/Reducer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/Reducer.cpp b/src/libawkward/Reducer.cpp
index 637ba3f..33d25d1 100644
--- a/src/libawkward/Reducer.cpp
+++ b/src/libawkward/Reducer.cpp
@@ -2334,7 +2334,7 @@ namespace awkward {
     kernel::lib ptr_lib = kernel::lib::cpu;   // DERIVE
     std::shared_ptr<std::complex<float>> ptr = kernel::malloc<std::complex<float>>(
       ptr_lib, outlength*(int64_t)sizeof(std::complex<float>));
-    float initial = 0;
+    float initial = -std::numeric_limits<float>::infinity();
     if (has_initial_) {
       initial = (float)initial_f64_;
     }
@@ -2357,7 +2357,7 @@ namespace awkward {
     kernel::lib ptr_lib = kernel::lib::cpu;   // DERIVE
     std::shared_ptr<std::complex<double>> ptr = kernel::malloc<std::complex<double>>(
       ptr_lib, outlength*(int64_t)sizeof(std::complex<double>));
-    double initial = 0;
+    double initial = -std::numeric_limits<double>::infinity();
     if (has_initial_) {
       initial = (double)initial_f64_;
     }
-- 
2.43.0


From 9f48b40f7b35c6f967df256afe35ac58cd5f9921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:20 +0000
Subject: [PATCH 099/158] fix: read JSON numbers with full precision

---
 src/libawkward/io/json.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index 983bf34..104adcf 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -781,7 +781,8 @@ namespace awkward {
     while (stream.Peek() != 0) {
       handler.reset_moved();
       bool fully_parsed = reader.Parse<rj::kParseStopWhenDoneFlag
-                                       | rj::kParseNanAndInfFlag>(stream, handler);
+                                       | rj::kParseNanAndInfFlag
+                                       | rj::kParseFullPrecisionFlag>(stream, handler);
       if (handler.moved()) {
         if (!fully_parsed) {
           if (stream.Peek() == 0) {
-- 
2.43.0


From 1afa58e579d27705991b07d6782178d760febc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:31 +0000
Subject: [PATCH 100/158] fix: dates and durations as NumPy arrays

---
 src/awkward/nplike.py             |  6 ++++++
 src/awkward/operations/convert.py | 15 +++------------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/awkward/nplike.py b/src/awkward/nplike.py
index a957bfc..5d33088 100644
--- a/src/awkward/nplike.py
+++ b/src/awkward/nplike.py
@@ -128,6 +128,12 @@ class NumpyLike(Singleton):
 
     def asarray(self, *args, **kwargs):
         # array[, dtype=]
+        if isinstance(args[0], ak.layout.NumpyArray) and args[
+            0
+        ].format.upper().startswith("M"):
+            # dates and durations are not in the buffer protocol
+            array = self._module.asarray(args[0].view_int64).view(args[0].format)
+            args = (array,) + args[1:]
         return self._module.asarray(*args, **kwargs)
 
     def ascontiguousarray(self, *args, **kwargs):
diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 0ded252..9288d5a 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -241,12 +241,6 @@ def to_numpy(array, allow_missing=True):
             ]
         )
 
-    elif (
-        str(ak.operations.describe.type(array)) == "datetime64"
-        or str(ak.operations.describe.type(array)) == "timedelta64"
-    ):
-        return array
-
     elif isinstance(array, ak.partition.PartitionedArray):
         tocat = [to_numpy(x, allow_missing=allow_missing) for x in array.partitions]
         if len(set(x.shape[1:] for x in tocat)) > 1:
@@ -981,13 +975,10 @@ def to_list(array):
 
     elif isinstance(array, ak.layout.NumpyArray):
         if array.format.upper().startswith("M"):
+            if len(array.shape) > 1:
+                return [to_list(x) for x in array]
             return (
-                [
-                    x
-                    for x in ak.nplike.of(array)
-                    .asarray(array.view_int64)
-                    .view(array.format)
-                ]
+                [x for x in ak.nplike.of(array).asarray(array)]
                 # FIXME: .tolist() returns
                 # [[1567416600000000000], [1568367000000000000], [1569096000000000000]]
                 # instead of [numpy.datetime64('2019-09-02T09:30:00'), numpy.datetime64('2019-09-13T09:30:00'), numpy.datetime64('2019-09-21T20:00:00')]
-- 
2.43.0


From 8937ba2780e5872d3d3b0aa977dece88c1573f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:31 +0000
Subject: [PATCH 101/158] fix: complex numbers inside of lists and records from
 JSON

---
 src/awkward/operations/convert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 9288d5a..0c3afbc 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -1094,13 +1094,14 @@ def from_json(
                     and isinstance(imag, ak.layout.NumpyArray)
                     and len(imag.shape) == 1
                 ):
-                    return lambda: nplike.asarray(real) + nplike.asarray(imag) * 1j
+                    return lambda: ak.layout.NumpyArray(
+                        nplike.asarray(real) + nplike.asarray(imag) * 1j
+                    )
                 else:
                     raise ValueError(
                         "Complex number fields must be numbers"
                         + ak._util.exception_suffix(__file__)
                     )
-                return lambda: ak.layout.NumpyArray(real + imag * 1j)
             else:
                 return None
         else:
-- 
2.43.0


From 40112a148d26763c4e24d996856f01a5ef1deba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:52 +0000
Subject: [PATCH 102/158] fix: missing lists of unions in concatenate are empty
 lists

---
 src/awkward/operations/structure.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 2019f02..4adc0d8 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1604,9 +1604,23 @@ def concatenate(
                 # missing lists are empty, as are lists behind any index or in NumPy
                 nextinputs = []
                 for x in inputs:
-                    if (
-                        isinstance(x, ak._util.optiontypes + ak._util.indexedtypes)
-                        and x.purelist_depth > 1
+                    content = x
+                    while isinstance(
+                        content,
+                        ak._util.optiontypes
+                        + ak._util.indexedtypes
+                        + ak._util.virtualtypes,
+                    ):
+                        if isinstance(content, ak._util.virtualtypes):
+                            content = content.array
+                        else:
+                            content = content.content
+                    if content is not x and (
+                        isinstance(content, ak._util.listtypes)
+                        or (
+                            isinstance(content, ak.layout.NumpyArray)
+                            and content.ndim > 1
+                        )
                     ):
                         offsets, flattened = x.offsets_and_flatten(1)
                         nextinputs.append(
-- 
2.43.0


From 209cc7ae2904650d72e12c17a4299a2908de2004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:44 +0000
Subject: [PATCH 103/158] fix: report the validity of records

---
 src/awkward/operations/describe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/operations/describe.py b/src/awkward/operations/describe.py
index 209be09..3252d37 100644
--- a/src/awkward/operations/describe.py
+++ b/src/awkward/operations/describe.py
@@ -59,6 +59,8 @@ def validity_error(array, exception=False):
             ak.partition.PartitionedArray,
         ),
     ):
+        if isinstance(array, ak.layout.Record):
+            array = array.array
         out = array.validityerror()
         if out is not None and exception:
             raise ValueError(out)
-- 
2.43.0


From 931cefd2cba3df136cf0ca16b8ce3b6d022f63da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:44 +0000
Subject: [PATCH 104/158] fix: validity of strings whose content is not a
 NumpyArray

---
 src/libawkward/Content.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 99605cc..136adaa 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1764,7 +1764,7 @@ namespace awkward {
         // }
       }
       else {
-        return (std::string("at ") + path + std::string(" (") + raw->classname()
+        return (std::string("at ") + path + std::string(" (") + content.get()->classname()
                 + std::string("): __array__ = \"char\" only allowed for NumpyArray"));
       }
       return std::string("");
@@ -1819,7 +1819,7 @@ namespace awkward {
         // }
       }
       else {
-        return (std::string("at ") + path + std::string(" (") + raw->classname()
+        return (std::string("at ") + path + std::string(" (") + content.get()->classname()
                 + std::string("): __array__ = \"byte\" only allowed for NumpyArray"));
       }
       return std::string("");
-- 
2.43.0


From 63bd210e2119b4e5c652505e150552e11f4cd8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:44 +0000
Subject: [PATCH 105/158] fix: uniqueness of strings some of which are empty

---
 src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp | 2 +-
 src/libawkward/array/NumpyArray.cpp                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp b/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
index cbebea3..638faef 100644
--- a/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
+++ b/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
@@ -20,7 +20,7 @@ ERROR awkward_NumpyArray_unique_strings_uint8(
 
   for (int64_t i = 0;  i < offsetslength - 1;  i++) {
     differ = false;
-    if (offsets[i + 1] - offsets[i] != slen) {
+    if (i == 0  ||  offsets[i + 1] - offsets[i] != slen) {
       differ = true;
     }
     else {
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index f66044c..d988e91 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -5662,7 +5662,7 @@ namespace awkward {
                             int64_t& outlength) const {
     std::shared_ptr<T> ptr = kernel::malloc<T>(kernel::lib::cpu,   // DERIVE
                                                length*((int64_t)sizeof(T)));
-    if (length == 0) {
+    if (offsets.length() <= 1) {
       return ptr;
     }
 
-- 
2.43.0


From 008fb4a0153d9f3c2e1a21a4e5959a8be5067f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:44 +0000
Subject: [PATCH 106/158] fix: uniqueness of numbers that are not contiguous

---
 src/libawkward/array/NumpyArray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index d988e91..4913365 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -5937,6 +5937,10 @@ namespace awkward {
 
   const ContentPtr
   NumpyArray::unique_data() const {
+    if (!iscontiguous()) {
+      return contiguous().unique_data();
+    }
+
     Index64 starts(1);
     starts.setitem_at_nowrap(0, 0);
 
-- 
2.43.0


From ee894a1ad78f1918a9cd0fc491ba4275ed5ffd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:22 +0000
Subject: [PATCH 107/158] fix: validity of categories before their uniqueness

---
 src/libawkward/Content.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 136adaa..c4c16bb 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1857,6 +1857,10 @@ namespace awkward {
       else {
         return (std::string("at ") + path + std::string(" (") + classname()
                 + std::string("): __array__ = \"categorical\" only allowed for "
+      const std::string sub = content.get()->validityerror(path + std::string(".content"));
+      if (!sub.empty()) {
+        return sub;
+      }
                               "IndexedArray and IndexedOptionArray"));
       }
       if (!content.get()->is_unique()) {
-- 
2.43.0


From 545faf4908ca3804e44cbd583c50c061905d636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:22 +0000
Subject: [PATCH 108/158] fix: combinations and cartesian at axis=0 do not nest
 options

---
 src/awkward/operations/structure.py | 3 +--
 src/libawkward/Content.cpp          | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 4adc0d8..63f4f92 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -3311,8 +3311,7 @@ def cartesian(
             )
         ]
         outs = [
-            ak.layout.IndexedArray64(x, y)
-            for x, y in __builtins__["zip"](indexes, layouts)
+            y.carry(x, True) for x, y in __builtins__["zip"](indexes, layouts)
         ]
 
         result = ak.layout.RecordArray(outs, recordlookup, parameters=parameters)
diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index c4c16bb..ed8e2de 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1357,9 +1357,7 @@ namespace awkward {
 
     ContentPtrVec contents;
     for (auto ptr : tocarry) {
-      contents.push_back(std::make_shared<IndexedArray64>(
-        Identities::none(),
-        util::Parameters(),
+      contents.push_back(carry(
         Index64(ptr, 0, combinationslen, kernel::lib::cpu),   // DERIVE
         shallow_copy()));
     }
-- 
2.43.0


From c7dca3cd9dd0c1b0bbd489efc90a451efd34fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:22 +0000
Subject: [PATCH 109/158] fix: reducers of missing lists do not nest options

---
 src/libawkward/array/ByteMaskedArray.cpp | 2 +-
 src/libawkward/array/IndexedArray.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index a329d86..67cddcb 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -1210,7 +1210,7 @@ namespace awkward {
           std::make_shared<IndexedOptionArray64>(Identities::none(),
                                                  util::Parameters(),
                                                  outindex,
-                                                 raw->content()));
+                                                 raw->content()).get()->simplify_optiontype());
       }
       else {
         throw std::runtime_error(
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index a09074f..73fbc1e 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2294,7 +2294,7 @@ namespace awkward {
           std::make_shared<IndexedOptionArray64>(Identities::none(),
                                                  util::Parameters(),
                                                  outindex,
-                                                 raw->content()));
+                                                 raw->content()).get()->simplify_optiontype());
       }
       else {
         throw std::runtime_error(
-- 
2.43.0


From fb683cdbfb159adac298f8c8e4913acfba452bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:22 +0000
Subject: [PATCH 110/158] fix: rearranged masked records do not nest options

---
 src/libawkward/array/ByteMaskedArray.cpp | 2 +-
 src/libawkward/array/UnmaskedArray.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index 67cddcb..c63b982 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -790,7 +790,7 @@ namespace awkward {
                                              parameters_,
                                              nextmask,
                                              content_.get()->carry(carry, allow_lazy),
-                                             valid_when_);
+                                             valid_when_).get()->simplify_optiontype();
   }
 
   int64_t
diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index cd0b0c4..0d33c5e 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -651,7 +651,8 @@ namespace awkward {
     }
     return std::make_shared<UnmaskedArray>(identities,
                                            parameters_,
-                                           content_.get()->carry(carry, allow_lazy));
+                                           content_.get()->carry(carry, allow_lazy))
+      .get()->simplify_optiontype();
   }
 
   int64_t
-- 
2.43.0


From b8322e346c45e18fb2ce0170e905c89ee56b693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:22 +0000
Subject: [PATCH 111/158] fix: fields of packed structured NumPy arrays have
 whole strides

---
 src/awkward/operations/convert.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 0c3afbc..faaed66 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -164,11 +164,15 @@ def from_numpy(
     else:
         contents = []
         for name in array.dtype.names:
+            column = array[name]
+            if any(x % max(1, column.dtype.itemsize) != 0 for x in column.strides):
+                # NumpyArray's strides have to be multiples of its itemsize
+                column = column.copy()
             if isinstance(mask, np.ndarray) and mask.dtype.names is not None:
                 # a masked structured array has one mask per field
-                contents.append(recurse(array[name], mask[name]))
+                contents.append(recurse(column, mask[name]))
             else:
-                contents.append(recurse(array[name], mask))
+                contents.append(recurse(column, mask))
         layout = ak.layout.RecordArray(contents, array.dtype.names)
 
     if highlevel:
-- 
2.43.0


From 9dbefa6b183eb8031a5bc9e3cc0ce13b19e371bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:22 +0000
Subject: [PATCH 112/158] fix: simplify unions of unions of unions

---
 src/libawkward/array/UnionArray.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/libawkward/array/UnionArray.cpp b/src/libawkward/array/UnionArray.cpp
index 4f64688..3075ab9 100644
--- a/src/libawkward/array/UnionArray.cpp
+++ b/src/libawkward/array/UnionArray.cpp
@@ -739,11 +739,21 @@ namespace awkward {
       return contents[0].get()->carry(index, true);
     }
     else {
-      return std::make_shared<UnionArray8_64>(identities_,
-                                              parameters_,
-                                              tags,
-                                              index,
-                                              contents);
+      std::shared_ptr<UnionArray8_64> out =
+        std::make_shared<UnionArray8_64>(identities_,
+                                         parameters_,
+                                         tags,
+                                         index,
+                                         contents);
+      for (auto content : contents) {
+        // unions can be deeply nested, and merging with a union makes a union
+        if (dynamic_cast<UnionArray8_32*>(content.get())  ||
+            dynamic_cast<UnionArray8_U32*>(content.get())  ||
+            dynamic_cast<UnionArray8_64*>(content.get())) {
+          return out.get()->simplify_uniontype(merge, mergebool);
+        }
+      }
+      return out;
     }
   }
 
-- 
2.43.0


From fa8f4294a1c364791ea761229b87c8e0e1d55e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:21 +0000
Subject: [PATCH 113/158] fix: combinations at axis=0 do not nest options

---
 src/libawkward/Content.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index ed8e2de..1878838 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1359,7 +1359,7 @@ namespace awkward {
     for (auto ptr : tocarry) {
       contents.push_back(carry(
         Index64(ptr, 0, combinationslen, kernel::lib::cpu),   // DERIVE
-        shallow_copy()));
+        true));
     }
     return std::make_shared<RecordArray>(Identities::none(),
                                          parameters,
@@ -1855,11 +1855,11 @@ namespace awkward {
       else {
         return (std::string("at ") + path + std::string(" (") + classname()
                 + std::string("): __array__ = \"categorical\" only allowed for "
+                              "IndexedArray and IndexedOptionArray"));
+      }
       const std::string sub = content.get()->validityerror(path + std::string(".content"));
       if (!sub.empty()) {
         return sub;
-      }
-                              "IndexedArray and IndexedOptionArray"));
       }
       if (!content.get()->is_unique()) {
         return (std::string("at ") + path + std::string(" (") + classname()
-- 
2.43.0


From d0d338a20a40f95f7a5b347a0c57c6b28a5e17f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:01 +0000
Subject: [PATCH 114/158] fix: UnmaskedArray of an indexed array simplifies to
 an option type

---
 src/libawkward/array/UnmaskedArray.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index 0d33c5e..f68ff2b 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -251,14 +251,19 @@ namespace awkward {
 
   const ContentPtr
   UnmaskedArray::simplify_optiontype() const {
-    if (dynamic_cast<IndexedArray32*>(content_.get())        ||
-        dynamic_cast<IndexedArrayU32*>(content_.get())       ||
-        dynamic_cast<IndexedArray64*>(content_.get())        ||
-        dynamic_cast<IndexedOptionArray32*>(content_.get())  ||
-        dynamic_cast<IndexedOptionArray64*>(content_.get())  ||
-        dynamic_cast<ByteMaskedArray*>(content_.get())       ||
-        dynamic_cast<BitMaskedArray*>(content_.get())        ||
-        dynamic_cast<UnmaskedArray*>(content_.get())) {
+    if (dynamic_cast<IndexedArray32*>(content_.get())   ||
+        dynamic_cast<IndexedArrayU32*>(content_.get())  ||
+        dynamic_cast<IndexedArray64*>(content_.get())) {
+      ContentPtr step1 = toIndexedOptionArray64();
+      IndexedOptionArray64* step2 =
+        dynamic_cast<IndexedOptionArray64*>(step1.get());
+      return step2->simplify_optiontype();
+    }
+    else if (dynamic_cast<IndexedOptionArray32*>(content_.get())  ||
+             dynamic_cast<IndexedOptionArray64*>(content_.get())  ||
+             dynamic_cast<ByteMaskedArray*>(content_.get())       ||
+             dynamic_cast<BitMaskedArray*>(content_.get())        ||
+             dynamic_cast<UnmaskedArray*>(content_.get())) {
       return content_;
     }
     else {
-- 
2.43.0


From 69e8ba973170a528a3b1d37cb7c9bc99bb4320de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:01 +0000
Subject: [PATCH 115/158] fix: to_arrow of numbers and characters that are not
 contiguous

---
 src/awkward/operations/convert.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index faaed66..820659e 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2017,7 +2017,7 @@ def to_arrow(
 
     def recurse(layout, mask, is_option):
         if isinstance(layout, ak.layout.NumpyArray):
-            numpy_arr = numpy.asarray(layout)
+            numpy_arr = numpy.ascontiguousarray(layout)
             length = len(numpy_arr)
             arrow_type = pyarrow.from_numpy_dtype(numpy_arr.dtype)
 
@@ -2076,7 +2076,7 @@ def to_arrow(
                         [
                             None,
                             pyarrow.py_buffer(offsets),
-                            pyarrow.py_buffer(layout.content),
+                            pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                         ],
                         children=[],
                     )
@@ -2087,7 +2087,7 @@ def to_arrow(
                         [
                             pyarrow.py_buffer(mask),
                             pyarrow.py_buffer(offsets),
-                            pyarrow.py_buffer(layout.content),
+                            pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                         ],
                         children=[],
                     )
@@ -2098,13 +2098,13 @@ def to_arrow(
                     arrow_arr = pyarrow.StringArray.from_buffers(
                         len(offsets) - 1,
                         pyarrow.py_buffer(offsets),
-                        pyarrow.py_buffer(layout.content),
+                        pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                     )
                 else:
                     arrow_arr = pyarrow.StringArray.from_buffers(
                         len(offsets) - 1,
                         pyarrow.py_buffer(offsets),
-                        pyarrow.py_buffer(layout.content),
+                        pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                         pyarrow.py_buffer(mask),
                     )
                 return arrow_arr
@@ -2162,7 +2162,7 @@ def to_arrow(
                         [
                             None,
                             pyarrow.py_buffer(offsets),
-                            pyarrow.py_buffer(layout.content),
+                            pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                         ],
                         children=[],
                     )
@@ -2173,7 +2173,7 @@ def to_arrow(
                         [
                             pyarrow.py_buffer(mask),
                             pyarrow.py_buffer(offsets),
-                            pyarrow.py_buffer(layout.content),
+                            pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                         ],
                         children=[],
                     )
@@ -2184,13 +2184,13 @@ def to_arrow(
                     arrow_arr = pyarrow.LargeStringArray.from_buffers(
                         len(offsets) - 1,
                         pyarrow.py_buffer(offsets),
-                        pyarrow.py_buffer(layout.content),
+                        pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                     )
                 else:
                     arrow_arr = pyarrow.LargeStringArray.from_buffers(
                         len(offsets) - 1,
                         pyarrow.py_buffer(offsets),
-                        pyarrow.py_buffer(layout.content),
+                        pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                         pyarrow.py_buffer(mask),
                     )
                 return arrow_arr
-- 
2.43.0


From a32908eebc119ba23a6387caeb93526e6337e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:01 +0000
Subject: [PATCH 116/158] fix: from_arrow of chunked arrays without elements

---
 src/awkward/operations/convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 820659e..1a929e4 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2881,7 +2881,9 @@ def _from_arrow(
             layouts = [handle_arrow(x) for x in obj.chunks if len(x) > 0]
             if all(isinstance(x, ak.layout.UnmaskedArray) for x in layouts):
                 layouts = [x.content for x in layouts]
-            if len(layouts) == 1:
+            if len(layouts) == 0:
+                return handle_arrow(pyarrow.array([], obj.type))
+            elif len(layouts) == 1:
                 return layouts[0]
             else:
                 return ak.operations.structure.concatenate(layouts, highlevel=False)
-- 
2.43.0


From d1833f4150d5396bf911917a86891cf26635081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:20 +0000
Subject: [PATCH 117/158] fix: to_arrow of missing values without any content

---
 src/awkward/operations/convert.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 1a929e4..4d7982b 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2364,11 +2364,12 @@ def to_arrow(
                 layout_content = layout.content
 
                 if len(layout_content) == 0:
-                    empty = recurse(layout_content, None, False)
-                    if mask is None:
+                    nothing = ak.layout.Index64(numpy.zeros(0, dtype=np.int64))
+                    empty = recurse(layout_content.carry(nothing, False), None, False)
+                    if mask is None or len(index) == 0:
                         return empty
                     else:
-                        return pyarrow.array([None] * len(index)).cast(empty.type)
+                        return pyarrow.nulls(len(index), empty.type)
 
                 elif isinstance(layout_content, ak.layout.RecordArray):
                     values = [
-- 
2.43.0


From 72916d33d774b553769c35c0a0acca4ad9638af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:20 +0000
Subject: [PATCH 118/158] fix: to_arrow of masks that are longer than their
 arrays

---
 src/awkward/operations/convert.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 4d7982b..719641f 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2460,6 +2460,7 @@ def to_arrow(
 
         elif isinstance(layout, ak.layout.BitMaskedArray):
             bitmask = numpy.asarray(layout.mask, dtype=np.uint8)
+            bitmask = bitmask[: int(math.ceil(len(layout) / 8.0))]
 
             if layout.lsb_order is False:
                 bitmask = numpy.packbits(
@@ -2469,9 +2470,7 @@ def to_arrow(
             if layout.valid_when is False:
                 bitmask = ~bitmask
 
-            return recurse(layout.content[: len(layout)], bitmask, True).slice(
-                length=min(len(bitmask) * 8, len(layout.content))
-            )
+            return recurse(layout.content[: len(layout)], bitmask, True)
 
         elif isinstance(layout, ak.layout.ByteMaskedArray):
             mask = numpy.asarray(layout.mask, dtype=np.bool_) == layout.valid_when
@@ -2483,9 +2482,7 @@ def to_arrow(
             bytemask[len(mask) :] = 0
             bitmask = numpy.packbits(bytemask.reshape(-1, 8)[:, ::-1].reshape(-1))
 
-            return recurse(layout.content[: len(layout)], bitmask, True).slice(
-                length=len(mask)
-            )
+            return recurse(layout.content[: len(layout)], bitmask, True)
 
         elif isinstance(layout, (ak.layout.UnmaskedArray)):
             return recurse(layout.content, None, True)
-- 
2.43.0


From ac07fececac14c98511148c8a5fd9eb46a1e7c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:20 +0000
Subject: [PATCH 119/158] fix: to_arrow of masks that are longer than their
 arrays, byte by byte

---
 src/awkward/operations/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 719641f..3f2f573 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2476,7 +2476,7 @@ def to_arrow(
             mask = numpy.asarray(layout.mask, dtype=np.bool_) == layout.valid_when
 
             bytemask = numpy.zeros(
-                8 * math.ceil(len(layout.content) / 8), dtype=np.bool_
+                8 * int(math.ceil(len(layout) / 8.0)), dtype=np.bool_
             )
             bytemask[: len(mask)] = mask
             bytemask[len(mask) :] = 0
-- 
2.43.0


From 26670b95680d98c2bc187c3d3df2e3e56cff0e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:20 +0000
Subject: [PATCH 120/158] fix: to_arrow_table of multidimensional NumPy arrays

---
 src/awkward/operations/convert.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 3f2f573..3a4e755 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2558,6 +2558,7 @@ def to_arrow_table(
                 list_to32=list_to32,
                 string_to32=string_to32,
                 bytestring_to32=bytestring_to32,
+                allow_tensor=False,
             )
         )
         pa_fields.append(
-- 
2.43.0


From e7b0ce0c292dde7d13aa661ebf3d58e20069d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:20 +0000
Subject: [PATCH 121/158] fix: from_arrow of dictionaries that are not nullable

---
 src/awkward/operations/convert.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 3a4e755..dde345d 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2620,6 +2620,13 @@ def _from_arrow(
 ):
     pyarrow = _import_pyarrow("ak.from_arrow")
 
+    def remove_option(content):
+        if isinstance(content, ak._util.indexedtypes):
+            # DictionaryArrays without missing values don't have an option-type
+            return content
+        else:
+            return content.content
+
     def popbuffers(array, tpe, buffers):
         if isinstance(tpe, pyarrow.lib.DictionaryType):
             index = popbuffers(array.indices, tpe.index_type, buffers)
@@ -2654,7 +2661,7 @@ def _from_arrow(
                 for i in range(tpe.num_fields):
                     content = popbuffers(array.field(tpe[i].name), tpe[i].type, buffers)
                     if not tpe[i].nullable:
-                        content = content.content
+                        content = remove_option(content)
                     child_arrays.append(content)
                     keys.append(tpe[i].name)
             else:
@@ -2667,7 +2674,7 @@ def _from_arrow(
                             array.field(tpe[i].name), tpe[i].type, buffers
                         )
                         if not tpe[i].nullable:
-                            content = content.content
+                            content = remove_option(content)
                         child_arrays.append(content)
                         keys.append(tpe[i].name)
                 assert found
@@ -2688,7 +2695,7 @@ def _from_arrow(
             )
             content = popbuffers(array.values, tpe.value_type, buffers)
             if not tpe.value_field.nullable:
-                content = content.content
+                content = remove_option(content)
 
             out = ak.layout.ListOffsetArray32(offsets, content)
             # No return yet!
@@ -2701,7 +2708,7 @@ def _from_arrow(
             )
             content = popbuffers(array.values, tpe.value_type, buffers)
             if not tpe.value_field.nullable:
-                content = content.content
+                content = remove_option(content)
 
             out = ak.layout.ListOffsetArray64(offsets, content)
             # No return yet!
@@ -2711,7 +2718,7 @@ def _from_arrow(
             mask = buffers.pop(0)
             content = popbuffers(array.values, tpe.value_type, buffers)
             if not tpe.value_field.nullable:
-                content = content.content
+                content = remove_option(content)
 
             out = ak.layout.RegularArray(content, tpe.list_size)
             # No return yet!
@@ -2747,7 +2754,7 @@ def _from_arrow(
                     contents[i] = contents[i][: these.max() + 1]
             for i in range(len(contents)):
                 if not tpe[i].nullable:
-                    contents[i] = contents[i].content
+                    contents[i] = remove_option(contents[i])
 
             tags = ak.layout.Index8(tags)
             index = ak.layout.Index32(index)
-- 
2.43.0


From b474bf6d71beae6e81e25a416411e0df25f20ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:20 +0000
Subject: [PATCH 122/158] fix: from_arrow of sliced dictionaries with missing
 values

---
 src/awkward/operations/convert.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index dde345d..7ec2cad 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2638,13 +2638,11 @@ def _from_arrow(
                 parameters={"__array__": "categorical"},
             ).simplify()
 
-            if isinstance(index, ak.layout.BitMaskedArray):
-                return ak.layout.BitMaskedArray(
-                    index.mask,
+            if not isinstance(index, ak.layout.UnmaskedArray):
+                return ak.layout.ByteMaskedArray(
+                    ak.layout.Index8(numpy.asarray(index.bytemask())),
                     out,
-                    True,
-                    len(index),
-                    True,
+                    False,
                     parameters={"__array__": "categorical"},
                 ).simplify()
             else:
-- 
2.43.0


From cb541d1e03439fd2dbeb4c0e266b7b03cc3841ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:20 +0000
Subject: [PATCH 123/158] fix: from_arrow of sliced structs with missing values

---
 src/awkward/operations/convert.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 7ec2cad..0e28dea 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2679,8 +2679,13 @@ def _from_arrow(
 
             out = ak.layout.RecordArray(child_arrays, keys, length=len(array))
             if mask is not None:
-                mask = ak.layout.IndexU8(numpy.frombuffer(mask, dtype=np.uint8))
-                return ak.layout.BitMaskedArray(mask, out, True, len(out), True)
+                # unlike the fields, the mask has not been offset-corrected
+                mask = numpy.unpackbits(
+                    numpy.frombuffer(mask, dtype=np.uint8), bitorder="little"
+                )[array.offset : array.offset + len(array)]
+                return ak.layout.ByteMaskedArray(
+                    ak.layout.Index8(mask.view(np.int8)), out, True
+                )
             else:
                 return ak.layout.UnmaskedArray(out)
             # RETURNED because each field has already been offset-corrected.
-- 
2.43.0


From bcf001384f6596c5cc6ff3932731482610739922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:20 +0000
Subject: [PATCH 124/158] fix: from_arrow of values in longer buffers than
 their masks

---
 src/awkward/operations/convert.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 0e28dea..3c43608 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2864,6 +2864,7 @@ def _from_arrow(
 
         # All 'no return yet' cases need to become option-type (even if the UnmaskedArray
         # is just going to get stripped off in the recursive step that calls this one).
+        out = out[: array.offset + len(array)]
         if mask is not None:
             mask = ak.layout.IndexU8(numpy.frombuffer(mask, dtype=np.uint8))
             out = ak.layout.BitMaskedArray(mask, out, True, len(out), True)
-- 
2.43.0


From 62830eb09f010d0d064b0c426d2976b3a12f8bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:20 +0000
Subject: [PATCH 125/158] fix: from_arrow of tables without rows

---
 src/awkward/operations/convert.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 3c43608..1909fff 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2916,7 +2916,12 @@ def _from_arrow(
             batches = obj.combine_chunks().to_batches()
             if len(batches) == 0:
                 # zero-length array with the right type
-                return from_buffers(_parquet_schema_to_form(obj.schema), 0, {})
+                return handle_arrow(
+                    pyarrow.RecordBatch.from_arrays(
+                        [pyarrow.array([], x.type) for x in obj.schema],
+                        schema=obj.schema,
+                    )
+                )
             elif len(batches) == 1:
                 return handle_arrow(batches[0])
             else:
-- 
2.43.0


From 4b06c70f1fc25642c10dabc5621eb53d02a7669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:07 +0000
Subject: [PATCH 126/158] fix: element-wise functions do not change the masks
 of their arguments

---
 src/awkward/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 902505f..9a28c9e 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -751,7 +751,7 @@ def broadcast_and_apply(  # noqa: C901
                     if mask is None:
                         mask = m
                     else:
-                        nplike.bitwise_or(mask, m, out=mask)
+                        mask = nplike.bitwise_or(mask, m)
 
             nextmask = ak.layout.Index8(mask.view(np.int8))
             index = nplike.full(len(mask), -1, dtype=np.int64)
-- 
2.43.0


From 07aeac7bad171fd77f53ce1d56ce7b78bcf48474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:07 +0000
Subject: [PATCH 127/158] fix: slices that are too short for size-1 dimensions
 are errors

---
 src/libawkward/Slice.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/libawkward/Slice.cpp b/src/libawkward/Slice.cpp
index 94c961b..5d8f1b3 100644
--- a/src/libawkward/Slice.cpp
+++ b/src/libawkward/Slice.cpp
@@ -13,6 +13,20 @@
 #include "awkward/Slice.h"
 
 namespace awkward {
+  namespace {
+    void
+    check_carry(const Index64& carry, int64_t length) {
+      for (int64_t i = 0;  i < carry.length();  i++) {
+        if (carry.getitem_at_nowrap(i) >= length) {
+          throw std::invalid_argument(
+            std::string("slice has length ") + std::to_string(length)
+            + std::string(", which is too short for the array to be sliced")
+            + FILENAME(__LINE__));
+        }
+      }
+    }
+  }
+
   ////////// SliceItem
 
   SliceItem::~SliceItem() = default;
@@ -260,6 +274,7 @@ namespace awkward {
   template <typename T>
   const SliceItemPtr
   SliceArrayOf<T>::carry(const Index64& carry) const {
+    check_carry(carry, shape_[0]);
     IndexOf<T> nextindex(carry.length());
     struct Error err = kernel::Index_carry_64<T>(
       kernel::lib::cpu,   // DERIVE
@@ -536,6 +551,7 @@ namespace awkward {
   template <typename T>
   const SliceItemPtr
   SliceMissingOf<T>::carry(const Index64& carry) const {
+    check_carry(carry, index_.length());
     IndexOf<T> nextindex(carry.length());
     struct Error err1 = kernel::Index_carry_64<T>(
       kernel::lib::cpu,   // DERIVE
@@ -670,6 +686,7 @@ namespace awkward {
   template <typename T>
   const SliceItemPtr
   SliceJaggedOf<T>::carry(const Index64& carry) const {
+    check_carry(carry, offsets_.length() - 1);
     IndexOf<T> nextoffsets(carry.length() + 1);
 
     struct Error err1 = kernel::carry_SliceJagged_offsets<T>(
-- 
2.43.0


From 7f2831bebac392cb5f81309d0426805bfcf7fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:05 +0000
Subject: [PATCH 128/158] fix: pad_none of no lists at all does not read beyond
 their boundaries

---
 src/libawkward/array/ListArray.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 6de0b20..6a7b65d 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1319,13 +1319,15 @@ namespace awkward {
     }
     else if (posaxis == depth + 1) {
       int64_t min = target;
-      struct Error err1 = kernel::ListArray_min_range<T>(
-        kernel::lib::cpu,   // DERIVE
-        &min,
-        starts_.data(),
-        stops_.data(),
-        starts_.length());
-      util::handle_error(err1, classname(), identities_.get());
+      if (starts_.length() != 0) {
+        struct Error err1 = kernel::ListArray_min_range<T>(
+          kernel::lib::cpu,   // DERIVE
+          &min,
+          starts_.data(),
+          stops_.data(),
+          starts_.length());
+        util::handle_error(err1, classname(), identities_.get());
+      }
       if (target < min) {
         return shallow_copy();
       }
-- 
2.43.0


From 076ff006c0f0e31171e884f0bbd5fc0acf6291b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:59 +0000
Subject: [PATCH 129/158] fix: categories of more than 256 characters are
 compared in full

---
 src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp b/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp
index fe55538..5ca2932 100644
--- a/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp
+++ b/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp
@@ -27,10 +27,8 @@ ERROR awkward_NumpyArray_sort_asstrings_uint8(
   for (int64_t k = 0;  k < offsetslength - 1;  k++) {
     int64_t start = offsets[k];
     int64_t stop = offsets[k + 1];
-    int64_t slen = start;
     std::string strvar;
-    for (uint8_t i = (uint8_t)start;  slen < stop;  i++) {
-      slen++;
+    for (int64_t i = start;  i < stop;  i++) {
       strvar += (char)fromptr[i];
     }
     words.emplace_back(strvar);
-- 
2.43.0


From 3cd502dab0bd22a058308ae74ea1e7b0d55be618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:09 +0000
Subject: [PATCH 130/158] fix: unsigned integers beyond int64 in JSON

---
 include/awkward/io/json.h           | 11 ++++++++++
 src/libawkward/array/NumpyArray.cpp | 15 +++++++++++--
 src/libawkward/io/json.cpp          | 33 ++++++++++++++++++++++++++++-
 3 files changed, 56 insertions(+), 3 deletions(-)

diff --git a/include/awkward/io/json.h b/include/awkward/io/json.h
index 8bf0bae..3648159 100644
--- a/include/awkward/io/json.h
+++ b/include/awkward/io/json.h
@@ -33,6 +33,9 @@ namespace awkward {
     /// @brief Append an integer value `x`.
     virtual void
       integer(int64_t x) = 0;
+    /// @brief Append an unsigned integer value `x`.
+    virtual void
+      unsigned_integer(uint64_t x) = 0;
     /// @brief Append a real value `x`.
     virtual void
       real(double x) = 0;
@@ -101,6 +104,8 @@ namespace awkward {
       boolean(bool x) override;
     void
       integer(int64_t x) override;
+    void
+      unsigned_integer(uint64_t x) override;
     void
       real(double x) override;
     void
@@ -165,6 +170,8 @@ namespace awkward {
       boolean(bool x) override;
     void
       integer(int64_t x) override;
+    void
+      unsigned_integer(uint64_t x) override;
     void
       real(double x) override;
     void
@@ -233,6 +240,8 @@ namespace awkward {
       boolean(bool x) override;
     void
       integer(int64_t x) override;
+    void
+      unsigned_integer(uint64_t x) override;
     void
       real(double x) override;
     void
@@ -298,6 +307,8 @@ namespace awkward {
       boolean(bool x) override;
     void
       integer(int64_t x) override;
+    void
+      unsigned_integer(uint64_t x) override;
     void
       real(double x) override;
     void
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 4913365..11db9c1 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -9,6 +9,7 @@
 #include <numeric>
 #include <sstream>
 #include <stdexcept>
+#include <type_traits>
 
 #include "awkward/kernels.h"
 #include "awkward/kernel-utils.h"
@@ -4907,7 +4908,12 @@ namespace awkward {
                              bool include_beginendlist) const {
     if (ndim() == 0) {
       T* array = reinterpret_cast<T*>(data());
-      builder.integer((int64_t)array[0]);
+      if (std::is_same<T, uint64_t>::value) {
+        builder.unsigned_integer((uint64_t)array[0]);
+      }
+      else {
+        builder.integer((int64_t)array[0]);
+      }
     }
     else if (ndim() == 1) {
       T* array = reinterpret_cast<T*>(data());
@@ -4916,7 +4922,12 @@ namespace awkward {
         builder.beginlist();
       }
       for (int64_t i = 0;  i < length();  i++) {
-        builder.integer((int64_t)array[i*stride]);
+        if (std::is_same<T, uint64_t>::value) {
+          builder.unsigned_integer((uint64_t)array[i*stride]);
+        }
+        else {
+          builder.integer((int64_t)array[i*stride]);
+        }
       }
       if (include_beginendlist) {
         builder.endlist();
diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index 104adcf..281a49b 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -3,6 +3,7 @@
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS("src/libawkward/io/json.cpp", line)
 
 #include <complex>
+#include <limits>
 
 // without this flag, writing NaN or infinity fails, leaving malformed JSON
 #define RAPIDJSON_WRITE_DEFAULT_FLAGS kWriteNanAndInfFlag
@@ -87,6 +88,7 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
+    void unsigned_integer(uint64_t x) { writer_.Uint64(x); }
     void real(double x) { writer_.Double(x); }
     void complex(std::complex<double> x,
                  const char* complex_real_string,
@@ -150,6 +152,11 @@ namespace awkward {
     impl_->integer(x);
   }
 
+  void
+  ToJsonString::unsigned_integer(uint64_t x) {
+    impl_->unsigned_integer(x);
+  }
+
   void
   ToJsonString::real(double x) {
     if (nan_string_ != nullptr  &&  std::isnan(x)) {
@@ -228,6 +235,7 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
+    void unsigned_integer(uint64_t x) { writer_.Uint64(x); }
     void real(double x) { writer_.Double(x); }
     void complex(std::complex<double> x,
                  const char* complex_real_string,
@@ -291,6 +299,11 @@ namespace awkward {
     impl_->integer(x);
   }
 
+  void
+  ToJsonPrettyString::unsigned_integer(uint64_t x) {
+    impl_->unsigned_integer(x);
+  }
+
   void
   ToJsonPrettyString::real(double x) {
     if (nan_string_ != nullptr  &&  std::isnan(x)) {
@@ -373,6 +386,7 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
+    void unsigned_integer(uint64_t x) { writer_.Uint64(x); }
     void real(double x) { writer_.Double(x); }
     void complex(std::complex<double> x,
                  const char* complex_real_string,
@@ -436,6 +450,11 @@ namespace awkward {
     impl_->integer(x);
   }
 
+  void
+  ToJsonFile::unsigned_integer(uint64_t x) {
+    impl_->unsigned_integer(x);
+  }
+
   void
   ToJsonFile::real(double x) {
     if (nan_string_ != nullptr  &&  std::isnan(x)) {
@@ -513,6 +532,7 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
+    void unsigned_integer(uint64_t x) { writer_.Uint64(x); }
     void real(double x) { writer_.Double(x); }
     void complex(std::complex<double> x,
                  const char* complex_real_string,
@@ -578,6 +598,11 @@ namespace awkward {
     impl_->integer(x);
   }
 
+  void
+  ToJsonPrettyFile::unsigned_integer(uint64_t x) {
+    impl_->unsigned_integer(x);
+  }
+
   void
   ToJsonPrettyFile::real(double x) {
     if (nan_string_ != nullptr  &&  std::isnan(x)) {
@@ -696,7 +721,13 @@ namespace awkward {
 
     bool Uint64(uint64_t x) {
       moved_ = true;
-      builder_.integer((int64_t)x);
+      if (x > (uint64_t)std::numeric_limits<int64_t>::max()) {
+        // the builder has no unsigned integers; like larger numbers, it's real
+        builder_.real((double)x);
+      }
+      else {
+        builder_.integer((int64_t)x);
+      }
       return true;
     }
 
-- 
2.43.0


From 709247432b431d02a567349cb7a1ad1cbbd72656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:02 +0000
Subject: [PATCH 131/158] fix: strings and field names in Numba do not need the
 removed llvmlite.llvmpy

---
 src/awkward/_connect/_numba/builder.py | 2 +-
 src/awkward/behaviors/string.py        | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/awkward/_connect/_numba/builder.py b/src/awkward/_connect/_numba/builder.py
index 47bacac..d87dc27 100644
--- a/src/awkward/_connect/_numba/builder.py
+++ b/src/awkward/_connect/_numba/builder.py
@@ -23,7 +23,7 @@ def globalstring(context, builder, pyvalue):
         )
     ptr = context.get_constant(numba.types.uintp, dynamic_addrs[pyvalue].ctypes.data)
     return builder.inttoptr(
-        ptr, llvmlite.llvmpy.core.Type.pointer(llvmlite.llvmpy.core.Type.int(8))
+        ptr, llvmlite.ir.types.PointerType(llvmlite.ir.types.IntType(8))
     )
 
 
diff --git a/src/awkward/behaviors/string.py b/src/awkward/behaviors/string.py
index b00b8e7..e61b04a 100644
--- a/src/awkward/behaviors/string.py
+++ b/src/awkward/behaviors/string.py
@@ -184,7 +184,7 @@ def _string_numba_lower(
     context, builder, rettype, viewtype, viewval, viewproxy, attype, atval
 ):
     import numba
-    import llvmlite.llvmpy.core
+    import llvmlite.ir.types
 
     whichpos = ak._connect._numba.layout.posat(
         context, builder, viewproxy.pos, viewtype.type.CONTENT
@@ -230,8 +230,8 @@ def _string_numba_lower(
     )
     rawptr_cast = builder.inttoptr(
         rawptr,
-        llvmlite.llvmpy.core.Type.pointer(
-            llvmlite.llvmpy.core.Type.int(numba.intp.bitwidth // 8)
+        llvmlite.ir.types.PointerType(
+            llvmlite.ir.types.IntType(numba.intp.bitwidth // 8)
         ),
     )
     strsize = builder.sub(stop, start)
-- 
2.43.0


From afcb9045727f759fa6cb6d1247962588e3ff277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:02 +0000
Subject: [PATCH 132/158] fix: BitMaskedArrays in Numba take the bit of the
 item, not of the view

---
 src/awkward/_connect/_numba/layout.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index 4ba773c..0e36cab 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -1642,18 +1642,18 @@ class BitMaskedArrayType(ContentType):
         atval = regularize_atval(
             context, builder, viewproxy, attype, atval, wrapneg, checkbounds
         )
-        bitatval = builder.sdiv(atval, context.get_constant(numba.intp, 8))
+        bitpos = builder.add(viewproxy.start, atval)
+        maskarraypos = builder.sdiv(bitpos, context.get_constant(numba.intp, 8))
         shiftval = ak._connect._numba.castint(
             context,
             builder,
             numba.intp,
             numba.uint8,
-            builder.srem(atval, context.get_constant(numba.intp, 8)),
+            builder.srem(bitpos, context.get_constant(numba.intp, 8)),
         )
 
         maskpos = posat(context, builder, viewproxy.pos, self.MASK)
         maskptr = getat(context, builder, viewproxy.arrayptrs, maskpos)
-        maskarraypos = builder.add(viewproxy.start, bitatval)
         byte = getat(
             context, builder, maskptr, maskarraypos, rettype=self.masktype.dtype
         )
-- 
2.43.0


From f9caffdd12aa9ad5acbcde885809ba4548738c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:02 +0000
Subject: [PATCH 133/158] fix: ranges and empty partitions of partitioned
 arrays in Numba

---
 src/awkward/_connect/_numba/arrayview.py | 29 ++++++++++++++----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/awkward/_connect/_numba/arrayview.py b/src/awkward/_connect/_numba/arrayview.py
index 275ed9c..4229c5f 100644
--- a/src/awkward/_connect/_numba/arrayview.py
+++ b/src/awkward/_connect/_numba/arrayview.py
@@ -1544,6 +1544,8 @@ def lower_getitem_at_partitioned(context, builder, sig, args):
             builder, ValueError, ("slice index out of bounds",)
         )
 
+    atval = builder.add(partviewproxy.start, atval)
+
     localstart = partviewtype.lower_get_localstart(
         context, builder, partviewproxy.stops, builder.load(partviewproxy.partitionid)
     )
@@ -1663,8 +1665,8 @@ def lower_getitem_range_partitioned(context, builder, sig, args):
     proxyout.view = numba.core.cgutils.alloca_once_value(
         builder, builder.load(partviewproxy.view)
     )
-    proxyout.start = builder.load(regular_start)
-    proxyout.stop = builder.load(regular_stop)
+    proxyout.start = builder.add(partviewproxy.start, builder.load(regular_start))
+    proxyout.stop = builder.add(partviewproxy.start, builder.load(regular_stop))
 
     if context.enable_nrt:
         context.nrt.incref(builder, partviewtype.stopstype, proxyout.stops)
@@ -1754,7 +1756,7 @@ class PartitionedIteratorModel(numba.core.datamodel.models.StructModel):
     def __init__(self, dmm, fe_type):
         members = [
             ("partview", fe_type.partviewtype),
-            ("length", numba.intp),
+            ("stop", numba.intp),
             ("at", numba.types.EphemeralPointer(numba.intp)),
         ]
         super(PartitionedIteratorModel, self).__init__(dmm, fe_type, members)
@@ -1793,10 +1795,8 @@ def lower_getiter_partitioned(context, builder, sig, args):
 
     proxyout = context.make_helper(builder, rettype)
     proxyout.partview = partoutproxy._getvalue()
-    proxyout.length = builder.sub(partviewproxy.stop, partviewproxy.start)
-    proxyout.at = numba.core.cgutils.alloca_once_value(
-        builder, context.get_constant(numba.intp, 0)
-    )
+    proxyout.stop = partviewproxy.stop
+    proxyout.at = numba.core.cgutils.alloca_once_value(builder, partviewproxy.start)
 
     if context.enable_nrt:
         context.nrt.incref(builder, partviewtype.stopstype, partoutproxy.stops)
@@ -1818,7 +1818,7 @@ def lower_iternext_partitioned(context, builder, sig, args, result):
     )
     at = builder.load(proxyin.at)
 
-    is_valid = builder.icmp_signed("<", at, proxyin.length)
+    is_valid = builder.icmp_signed("<", at, proxyin.stop)
     result.set_valid(is_valid)
 
     with builder.if_then(is_valid, likely=True):
@@ -1829,11 +1829,16 @@ def lower_iternext_partitioned(context, builder, sig, args, result):
             builder.load(partviewproxy.partitionid),
         )
 
-        with builder.if_then(builder.icmp_signed("==", at, maybestop)):
+        with builder.if_then(builder.icmp_signed(">=", at, maybestop)):
+            searchsorted_sig = numba.intp(itertype.partviewtype.stopstype, numba.intp)
+            searchsorted_args = (partviewproxy.stops, at)
+
+            def searchsorted_impl(stops, where):
+                return ak.nplike.numpy.searchsorted(stops, where, side="right")
+
             builder.store(
-                builder.add(
-                    builder.load(partviewproxy.partitionid),
-                    context.get_constant(numba.intp, 1),
+                context.compile_internal(
+                    builder, searchsorted_impl, searchsorted_sig, searchsorted_args
                 ),
                 partviewproxy.partitionid,
             )
-- 
2.43.0


From ee8bedf06b721eb14018f3584382ff9bdc08b370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:21 +0000
Subject: [PATCH 134/158] fix: strided arrays that are read lazily in Numba

---
 src/awkward/_connect/_numba/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index 0e36cab..b7bafaa 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -587,9 +587,9 @@ class NumpyArrayType(ContentType):
         lookup.sharedptrs[pos] = lookup.sharedptrs_hold[pos].ptr()
         self.form_fill_identities(pos, layout, lookup)
 
-        lookup.original_positions[pos + self.ARRAY] = ak.nplike.of(layout).asarray(
+        lookup.original_positions[pos + self.ARRAY] = ak.nplike.of(
             layout
-        )
+        ).ascontiguousarray(layout)
         lookup.arrayptrs[pos + self.ARRAY] = lookup.original_positions[
             pos + self.ARRAY
         ].ctypes.data
-- 
2.43.0


From 18d7e5146fd92aa0c75d9b661b7f2ffcef452acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:19 +0000
Subject: [PATCH 135/158] fix: strings that are not ASCII in Numba

---
 src/awkward/behaviors/string.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/awkward/behaviors/string.py b/src/awkward/behaviors/string.py
index e61b04a..2c572bc 100644
--- a/src/awkward/behaviors/string.py
+++ b/src/awkward/behaviors/string.py
@@ -180,6 +180,10 @@ def _string_numba_typer(viewtype):
         return numba.cpython.charseq.bytes_type
 
 
+def _string_numba_decode(pybytes):
+    return pybytes.decode(errors="surrogateescape")
+
+
 def _string_numba_lower(
     context, builder, rettype, viewtype, viewval, viewproxy, attype, atval
 ):
@@ -245,8 +249,11 @@ def _string_numba_lower(
     strptr = builder.bitcast(rawptr_cast, pyapi.cstring)
 
     if viewtype.type.parameters["__array__"] == "string":
-        kind = context.get_constant(numba.types.int32, pyapi.py_unicode_1byte_kind)
-        pystr = pyapi.string_from_kind_and_data(kind, strptr, strsize_cast)
+        pybytes = pyapi.bytes_from_string_and_size(strptr, strsize_cast)
+        decode = pyapi.unserialize(pyapi.serialize_object(_string_numba_decode))
+        pystr = pyapi.call_function_objargs(decode, (pybytes,))
+        pyapi.decref(decode)
+        pyapi.decref(pybytes)
     else:
         pystr = pyapi.bytes_from_string_and_size(strptr, strsize_cast)
 
-- 
2.43.0


From 9a4c49653abb5b762b009b0742c9859efc048578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:37 +0000
Subject: [PATCH 136/158] fix: ArrayBuilder.append(array, at) in Numba counts
 from the start of the view

---
 src/awkward/_connect/_numba/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/awkward/_connect/_numba/builder.py b/src/awkward/_connect/_numba/builder.py
index d87dc27..3084e4d 100644
--- a/src/awkward/_connect/_numba/builder.py
+++ b/src/awkward/_connect/_numba/builder.py
@@ -572,6 +572,7 @@ def lower_append_array_at(context, builder, sig, args):
     atval = ak._connect._numba.layout.regularize_atval(
         context, builder, viewproxy, attype, atval, True, True
     )
+    atval = builder.add(viewproxy.start, atval)
     atval = ak._connect._numba.castint(context, builder, numba.intp, numba.int64, atval)
 
     sharedptr = ak._connect._numba.layout.getat(
-- 
2.43.0


From 74686622308f7bc1dba8fd463b3f8e2f818ec8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:38 +0000
Subject: [PATCH 137/158] fix: regular arrays of size 0 keep their length
 through Numba

---
 src/awkward/_connect/_numba/layout.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index b7bafaa..366e7b4 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -705,7 +705,12 @@ class RegularArrayType(ContentType):
         content = self.contenttype.tolayout(
             lookup, lookup.positions[pos + self.CONTENT], fields
         )
-        return ak.layout.RegularArray(content, self.size, 0, parameters=self.parameters)
+        return ak.layout.RegularArray(
+            content,
+            self.size,
+            len(lookup.sharedptrs_hold[pos].layout()),
+            parameters=self.parameters,
+        )
 
     def hasfield(self, key):
         return self.contenttype.hasfield(key)
-- 
2.43.0


From 8ea85cfc90687ef2135ac7b74db47a60e4ed68f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:38 +0000
Subject: [PATCH 138/158] fix: fields of virtual arrays that are returned from
 Numba

---
 src/awkward/_connect/_numba/layout.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index 366e7b4..99f030f 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -2578,6 +2578,8 @@ class VirtualArrayType(ContentType):
         pyptr = ctypes.cast(voidptr, ctypes.py_object)
         ctypes.pythonapi.Py_IncRef(pyptr)
         virtualarray = pyptr.value
+        for field in fields:
+            virtualarray = virtualarray[field]
         return virtualarray
 
     def hasfield(self, key):
-- 
2.43.0


From 73523deb6e77ef42dbc37a73e4acdf4ea3b5acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:45 +0000
Subject: [PATCH 139/158] fix: items of partitioned arrays in Numba are taken
 from the partition they are in

---
 src/awkward/_connect/_numba/arrayview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/_connect/_numba/arrayview.py b/src/awkward/_connect/_numba/arrayview.py
index 4229c5f..84f9227 100644
--- a/src/awkward/_connect/_numba/arrayview.py
+++ b/src/awkward/_connect/_numba/arrayview.py
@@ -1557,7 +1557,7 @@ def lower_getitem_at_partitioned(context, builder, sig, args):
         builder.not_(
             builder.and_(
                 builder.icmp_signed("<=", localstart, atval),
-                builder.icmp_signed(">", atval, localstop),
+                builder.icmp_signed("<", atval, localstop),
             )
         ),
         likely=False,
-- 
2.43.0


From be99cd32ddafbaba7f0f8758d2e388aa2fde743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 140/158] fix: fields of virtual lists and options in Numba

---
 src/awkward/_connect/_numba/layout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index 99f030f..e4fb5ff 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -2583,7 +2583,8 @@ class VirtualArrayType(ContentType):
         return virtualarray
 
     def hasfield(self, key):
-        return self.generator_form.haskey(key)
+        numbatype = ak._connect._numba.arrayview.tonumbatype(self.generator_form)
+        return numbatype.hasfield(key)
 
     def getitem_at(self, viewtype):
         def getitem_at(form):
-- 
2.43.0


From 39b07301c7609dd15e3d086f1f0d9e31b74ee62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 141/158] fix: BitMaskedArrays keep their length through Numba

---
 src/awkward/_connect/_numba/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index e4fb5ff..c93396f 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -1616,7 +1616,7 @@ class BitMaskedArrayType(ContentType):
             mask,
             content,
             self.valid_when,
-            len(content),
+            len(lookup.sharedptrs_hold[pos].layout()),
             self.lsb_order,
             parameters=self.parameters,
         )
-- 
2.43.0


From eaeabc96ecf0e9f62baa7f659cd005c33254a786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:45 +0000
Subject: [PATCH 142/158] fix: ArrayBuilder.append(record) in Numba counts from
 the start of the view

---
 src/awkward/_connect/_numba/builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/awkward/_connect/_numba/builder.py b/src/awkward/_connect/_numba/builder.py
index 3084e4d..7cdd627 100644
--- a/src/awkward/_connect/_numba/builder.py
+++ b/src/awkward/_connect/_numba/builder.py
@@ -623,7 +623,11 @@ def lower_append_record(context, builder, sig, args):
         builder, recordviewtype.arrayviewtype, recordviewproxy.arrayview
     )
     atval = ak._connect._numba.castint(
-        context, builder, numba.intp, numba.int64, recordviewproxy.at
+        context,
+        builder,
+        numba.intp,
+        numba.int64,
+        builder.add(arrayviewproxy.start, recordviewproxy.at),
     )
 
     sharedptr = ak._connect._numba.layout.getat(
-- 
2.43.0


From 9a3216c13db9ef5c79a1074340da02c4412ba586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:25 +0000
Subject: [PATCH 143/158] fix: virtual strings in Numba are strings

---
 src/awkward/_connect/_numba/layout.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index c93396f..52ece66 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -2628,6 +2628,12 @@ class VirtualArrayType(ContentType):
                     ak.forms.ListOffsetForm,
                 ),
             ):
+                arrayview = wrap(form)
+                if (
+                    ak._util.numba_array_typer(arrayview.type, arrayview.behavior)
+                    is not None
+                ):
+                    return arrayview.type.getitem_at_check(arrayview)
                 return form.content
 
             elif isinstance(form, ak.forms.IndexedForm):
-- 
2.43.0


From 4715cd62a678cbe2ab0520d675488ed76d208884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:13 +0000
Subject: [PATCH 144/158] fix: partitioned arrays whose partitions have
 different forms can be pickled

---
 src/awkward/highlevel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/awkward/highlevel.py b/src/awkward/highlevel.py
index 41b82e3..e27850b 100644
--- a/src/awkward/highlevel.py
+++ b/src/awkward/highlevel.py
@@ -1456,6 +1456,10 @@ class Array(
 
     def __getstate__(self):
         packed = ak.operations.structure.packed(self.layout, highlevel=False)
+        if isinstance(packed, ak.partition.PartitionedArray) and any(
+            x.form != packed.partition(0).form for x in packed.partitions
+        ):
+            packed = ak.operations.structure.packed(packed.toContent(), highlevel=False)
         form, length, container = ak.operations.convert.to_buffers(packed)
         if self._behavior is ak.behavior:
             behavior = None
-- 
2.43.0


From b4eb1a9c78d31874bfa69d6f0a49f5ad1f989c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:00 +0000
Subject: [PATCH 145/158] fix: padding lists in an UnmaskedArray keeps them
 optional

---
 src/libawkward/array/UnmaskedArray.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index f68ff2b..6d22795 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -872,9 +872,6 @@ namespace awkward {
     if (posaxis == depth) {
       return rpad_axis0(target, false);
     }
-    else if (posaxis == depth + 1) {
-      return content_.get()->rpad(target, posaxis, depth);
-    }
     else {
       return std::make_shared<UnmaskedArray>(
         Identities::none(),
@@ -891,9 +888,6 @@ namespace awkward {
     if (posaxis == depth) {
       return rpad_axis0(target, true);
     }
-    else if (posaxis == depth + 1) {
-      return content_.get()->rpad_and_clip(target, posaxis, depth);
-    }
     else {
       return std::make_shared<UnmaskedArray>(
         Identities::none(),
@@ -986,7 +980,8 @@ namespace awkward {
                                                              ascending,
                                                              stable,
                                                              keepdims);
-    if (RegularArray* raw = dynamic_cast<RegularArray*>(out.get())) {
+    RegularArray* raw = dynamic_cast<RegularArray*>(out.get());
+    if (keepdims  &&  raw != nullptr) {
       UnmaskedArray tmp(Identities::none(),
                         parameters_,
                         raw->content());
@@ -998,7 +993,8 @@ namespace awkward {
           length());
     }
     else {
-      return out;
+      UnmaskedArray tmp(Identities::none(), parameters_, out);
+      return tmp.simplify_optiontype();
     }
   }
 
-- 
2.43.0


From e0e38034215f18d22a14d3136e15183d8d70c695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:00 +0000
Subject: [PATCH 146/158] fix: padding a named list does not name the values in
 it

---
 src/libawkward/array/ListOffsetArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index c955357..bc05c5a 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1283,8 +1283,8 @@ namespace awkward {
       util::handle_error(err2, classname(), identities_.get());
 
       std::shared_ptr<IndexedOptionArray64> next =
-        std::make_shared<IndexedOptionArray64>(identities_,
-                                               parameters_,
+        std::make_shared<IndexedOptionArray64>(Identities::none(),
+                                               util::Parameters(),
                                                outindex,
                                                content());
       return std::make_shared<ListOffsetArrayOf<T>>(
-- 
2.43.0


From f46847f31769d7ebc4c868d1a8f6a4cf59008811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:00 +0000
Subject: [PATCH 147/158] fix: ak.firsts of empty fixed-size lists is missing;
 ak.to_regular ignores unreachable lists

---
 src/awkward/operations/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 63f4f92..c8a8701 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -744,6 +744,8 @@ def to_regular(array, axis=1, highlevel=True, behavior=None):
         if isinstance(out, ak.partition.PartitionedArray):
             # all partitions must get the same size
             out = out.toContent()
+        # only the lengths of lists that are in the array count
+        out = packed(out, highlevel=False)
         out = ak._util.recursively_apply(
             out,
             getfunction,
@@ -2993,6 +2995,7 @@ def firsts(array, axis=1, highlevel=True, behavior=None):
                 + ak._util.exception_suffix(__file__)
             )
         toslice = (slice(None, None, None),) * posaxis + (0,)
+        layout = from_regular(layout, axis=posaxis, highlevel=False)
         out = ak.mask(layout, ak.num(layout, axis=posaxis) > 0, highlevel=False)[
             toslice
         ]
-- 
2.43.0


From c964103b21929d9537d58030f0149e739e66e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:48 +0000
Subject: [PATCH 148/158] fix: categories may be records or missing, and
 compare as the values they stand for

---
 src/awkward/behaviors/categorical.py | 30 ++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/awkward/behaviors/categorical.py b/src/awkward/behaviors/categorical.py
index 85c7ec3..c181904 100644
--- a/src/awkward/behaviors/categorical.py
+++ b/src/awkward/behaviors/categorical.py
@@ -18,7 +18,7 @@ class _HashableDict(object):
     def __init__(self, obj):
         self.keys = tuple(sorted(obj))
         self.values = tuple(_hashable(obj[k]) for k in self.keys)
-        self.hash = hash((_HashableDict,) + self.keys, self.values)
+        self.hash = hash((_HashableDict, self.keys, self.values))
 
     def __hash__(self):
         return self.hash
@@ -33,7 +33,7 @@ class _HashableDict(object):
 
 class _HashableList(object):
     def __init__(self, obj):
-        self.values = tuple(obj)
+        self.values = tuple(_hashable(x) for x in obj)
         self.hash = hash((_HashableList,) + self.values)
 
     def __hash__(self):
@@ -64,8 +64,9 @@ def _categorical_equal(one, two):
     assert one.parameter("__array__") == "categorical"
     assert two.parameter("__array__") == "categorical"
 
-    one_index = ak.nplike.numpy.asarray(one.index)
-    two_index = ak.nplike.numpy.asarray(two.index)
+    # any negative index stands for a missing value
+    one_index = ak.nplike.numpy.maximum(ak.nplike.numpy.asarray(one.index), -1)
+    two_index = ak.nplike.numpy.maximum(ak.nplike.numpy.asarray(two.index), -1)
     one_content = ak._util.wrap(one.content, behavior)
     two_content = ak._util.wrap(two.content, behavior)
 
@@ -89,13 +90,18 @@ def _categorical_equal(one, two):
         one_mapped = one_to_two[one_index]
 
     out = one_mapped == two_index
-    return ak._util.wrap(ak.layout.NumpyArray(out), ak._util.behaviorof(one, two))
+    return ak._util.wrap(ak.layout.NumpyArray(out), behavior)
 
 
 ak.behavior[ak.nplike.numpy.equal, "categorical", "categorical"] = _categorical_equal
 
 
 def _apply_ufunc(ufunc, method, inputs, kwargs):
+    for x in inputs:
+        if isinstance(x, ak.highlevel.Array) and x.layout.purelist_depth != 1:
+            # not broadcasted to the level of the categories yet
+            return NotImplemented
+
     nextinputs = []
     for x in inputs:
         if isinstance(x, ak.highlevel.Array) and isinstance(
@@ -104,6 +110,10 @@ def _apply_ufunc(ufunc, method, inputs, kwargs):
             nextinputs.append(
                 ak.highlevel.Array(x.layout.project(), behavior=ak._util.behaviorof(x))
             )
+        elif isinstance(x, ak.highlevel.Array) and isinstance(
+            x.layout, ak._util.indexedoptiontypes
+        ):
+            nextinputs.append(from_categorical(x))
         else:
             nextinputs.append(x)
 
@@ -271,8 +281,9 @@ def to_categorical(array, highlevel=True):
 
             if isinstance(layout, ak._util.indexedoptiontypes):
                 original_index = ak.nplike.numpy.asarray(layout.index)
-                index = mapping[original_index]
-                index[original_index < 0] = -1
+                index = ak.nplike.numpy.full(len(original_index), -1, dtype=np.int64)
+                is_valid = original_index >= 0
+                index[is_valid] = mapping[original_index[is_valid]]
                 index = ak.layout.Index64(index)
 
             elif isinstance(layout, ak._util.indexedtypes):
@@ -281,6 +292,7 @@ def to_categorical(array, highlevel=True):
 
             elif isinstance(layout, ak._util.optiontypes):
                 mask = ak.nplike.numpy.asarray(layout.bytemask())
+                mapping = mapping[: len(mask)]
                 mapping[mask.view(np.bool_)] = -1
                 index = ak.layout.Index64(mapping)
 
@@ -296,7 +308,9 @@ def to_categorical(array, highlevel=True):
     layout = ak.operations.convert.to_layout(
         array, allow_record=False, allow_other=False
     )
-    out = ak._util.recursively_apply(layout, getfunction, pass_depth=False)
+    out = ak._util.recursively_apply(
+        layout, getfunction, pass_depth=False, numpy_to_regular=True
+    )
     if highlevel:
         return ak._util.wrap(out, ak._util.behaviorof(array))
     else:
-- 
2.43.0


From 68bff13aa797b1c87b8df7b27b63741178c6156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:48 +0000
Subject: [PATCH 149/158] fix: ak.where keeps the behavior of its arguments

---
 src/awkward/operations/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index c8a8701..50c160a 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1810,7 +1810,7 @@ def where(condition, *args, **kwargs):
             else:
                 return None
 
-        behavior = ak._util.behaviorof(akcondition, left, right)
+        behavior = ak._util.behaviorof(condition, *args)
         out = ak._util.broadcast_and_apply(
             [akcondition, left, right],
             getfunction,
-- 
2.43.0


From 3492997d08ac3ec893624d2e1f5e22b49e6583d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:48 +0000
Subject: [PATCH 150/158] fix: the class of an array does not depend on whether
 it is an IndexedArray

---
 src/awkward/_util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 9a28c9e..4bd2d62 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -142,6 +142,12 @@ class Behavior(Mapping):
 def arrayclass(layout, behavior):
     layout = ak.partition.first(layout)
     behavior = Behavior(ak.behavior, behavior)
+    while (
+        isinstance(layout, indexedtypes)
+        and layout.parameter("__array__") is None
+        and layout.parameter("__record__") is None
+    ):
+        layout = layout.content
     arr = layout.parameter("__array__")
     if isinstance(arr, str) or (py27 and isinstance(arr, unicode)):
         cls = behavior[arr]
-- 
2.43.0


From 3d7c186f9d10a2b287ccc7abdfff444f52a141c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:48 +0000
Subject: [PATCH 151/158] fix: strings are broadcasted as a whole, and
 dimensions of size 1 to size 0

---
 src/awkward/_util.py | 77 +++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 4bd2d62..54b817d 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -788,25 +788,47 @@ def broadcast_and_apply(  # noqa: C901
             )
 
         elif any(isinstance(x, listtypes) for x in inputs):
-            if all(
-                isinstance(x, ak.layout.RegularArray) or not isinstance(x, listtypes)
+            fcns = [
+                custom_broadcast(x, behavior)
+                if isinstance(x, ak.layout.Content)
+                else None
                 for x in inputs
+            ]
+            # lists with custom broadcasting (such as strings) are not matched up
+            # with other lists, unless there are no others
+            secondround = not any(
+                isinstance(x, listtypes) and not callable(fcn)
+                for x, fcn in zip(inputs, fcns)
+            )
+            if secondround:
+                fcns = [None] * len(inputs)
+
+            if all(
+                isinstance(x, ak.layout.RegularArray)
+                or not isinstance(x, listtypes)
+                or callable(fcn)
+                for x, fcn in zip(inputs, fcns)
             ):
-                maxsize = max(
-                    [x.size for x in inputs if isinstance(x, ak.layout.RegularArray)]
-                )
-                for x in inputs:
-                    if isinstance(x, ak.layout.RegularArray):
-                        if maxsize > 1 and x.size == 1:
+                regulars = [
+                    isinstance(x, ak.layout.RegularArray) and not callable(fcn)
+                    for x, fcn in zip(inputs, fcns)
+                ]
+                sizes = [x.size for x, r in zip(inputs, regulars) if r]
+                maxsize = max(sizes)
+                if maxsize == 1 and min(sizes) == 0:
+                    maxsize = 0
+                for x, regular in zip(inputs, regulars):
+                    if regular:
+                        if maxsize != 1 and x.size == 1:
                             tmpindex = ak.layout.Index64(
                                 nplike.repeat(
                                     nplike.arange(len(x), dtype=np.int64), maxsize
                                 )
                             )
                 nextinputs = []
-                for x in inputs:
-                    if isinstance(x, ak.layout.RegularArray):
-                        if maxsize > 1 and x.size == 1:
+                for x, fcn, regular in zip(inputs, fcns, regulars):
+                    if regular:
+                        if maxsize != 1 and x.size == 1:
                             nextinputs.append(
                                 ak.layout.IndexedArray64(
                                     tmpindex, x.content[: len(x) * x.size]
@@ -822,6 +844,9 @@ def broadcast_and_apply(  # noqa: C901
                                 )
                                 + exception_suffix(__file__)
                             )
+                    elif callable(fcn):
+                        offsets = nplike.arange(len(x) + 1, dtype=np.int64) * maxsize
+                        nextinputs.append(fcn(x, ak.layout.Index64(offsets)))
                     # handle implicit left-broadcasting (unlike NumPy)
                     elif left_broadcast and isinstance(x, ak.layout.Content):
                         nextinputs.append(
@@ -837,9 +862,7 @@ def broadcast_and_apply(  # noqa: C901
                     else:
                         nextinputs.append(x)
 
-                maxlen = max(
-                    [len(x) for x in inputs if isinstance(x, ak.layout.RegularArray)]
-                )
+                maxlen = max([len(x) for x, r in zip(inputs, regulars) if r])
                 outcontent = apply(nextinputs, depth + 1, user)
                 assert isinstance(outcontent, tuple)
 
@@ -847,38 +870,24 @@ def broadcast_and_apply(  # noqa: C901
                     ak.layout.RegularArray(x, maxsize, maxlen) for x in outcontent
                 )
 
-            elif not all_same_offsets(nplike, inputs):
-                fcns = [
-                    custom_broadcast(x, behavior)
-                    if isinstance(x, ak.layout.Content)
-                    else None
-                    for x in inputs
-                ]
-
-                first, secondround = None, False
+            elif any(callable(fcn) for fcn in fcns) or not all_same_offsets(
+                nplike, inputs
+            ):
+                first = None
                 for x, fcn in zip(inputs, fcns):
                     if (
                         isinstance(x, listtypes)
                         and not isinstance(x, ak.layout.RegularArray)
-                        and fcn is None
+                        and not callable(fcn)
                     ):
                         first = x
                         break
 
-                if first is None:
-                    secondround = True
-                    for x in inputs:
-                        if isinstance(x, listtypes) and not isinstance(
-                            x, ak.layout.RegularArray
-                        ):
-                            first = x
-                            break
-
                 offsets = first.compact_offsets64(True)
 
                 nextinputs = []
                 for x, fcn in zip(inputs, fcns):
-                    if callable(fcn) and not secondround:
+                    if callable(fcn):
                         nextinputs.append(fcn(x, offsets))
                     elif isinstance(x, listtypes):
                         nextinputs.append(x.broadcast_tooffsets64(offsets).content)
-- 
2.43.0


From 1f9dcee7c3a58eae51138930380df89dfb96236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:22 +0000
Subject: [PATCH 152/158] fix: lazy arrays in option types keep their missing
 values in Arrow

---
 src/awkward/operations/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 1909fff..d0a30b8 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2488,7 +2488,7 @@ def to_arrow(
             return recurse(layout.content, None, True)
 
         elif isinstance(layout, (ak.layout.VirtualArray)):
-            return recurse(layout.array, None, False)
+            return recurse(layout.array, mask, is_option)
 
         elif isinstance(layout, (ak.partition.PartitionedArray)):
             return pyarrow.chunked_array(
-- 
2.43.0


From 00f1e8f8930fa7f60c391bb580454283d494606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:22 +0000
Subject: [PATCH 153/158] fix: Parquet files without any rows can be read

---
 src/awkward/operations/convert.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index d0a30b8..87eaac9 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -3982,7 +3982,12 @@ def from_parquet(
 
     else:
         batches = dataset.read_row_group_batches()
-        out = _from_arrow(batches, False, highlevel=False)
+        if any(len(x) > 0 for x in batches):
+            out = _from_arrow(batches, False, highlevel=False)
+        else:
+            # zero-length array with the right type
+            table = dataset.read_row_group(dataset.row_groups[0])
+            out = _from_arrow(table, False, highlevel=False)
         assert isinstance(out, ak.layout.RecordArray) and not out.istuple
 
         if dataset.partition_columns != []:
-- 
2.43.0


From f9f739de7b10a47f038afa15bf7c0c53016fec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:12 +0000
Subject: [PATCH 154/158] fix: arrays of bytes can be compared with !=

---
 src/awkward/behaviors/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/behaviors/string.py b/src/awkward/behaviors/string.py
index 2c572bc..2b9d5c0 100644
--- a/src/awkward/behaviors/string.py
+++ b/src/awkward/behaviors/string.py
@@ -34,7 +34,7 @@ class ByteBehavior(ak.highlevel.Array):
             return False
 
     def __ne__(self, other):
-        return not self.__eq__(self, other)
+        return not self.__eq__(other)
 
     def __add__(self, other):
         if isinstance(other, (bytes, ByteBehavior)):
-- 
2.43.0


From f65577e4c3032f892ed40f8c7b99f5b2a38104dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:39 +0000
Subject: [PATCH 155/158] fix: with_field keeps the caches of the array it adds
 a field to

---
 src/awkward/operations/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 50c160a..a2fffd1 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -899,6 +899,8 @@ def with_field(base, what, where=None, highlevel=True, behavior=None):
     other.)
     """
 
+    if isinstance(base, (ak.highlevel.Array, ak.highlevel.Record)):
+        base_caches = base.caches  # noqa: F841
     if isinstance(what, (ak.highlevel.Array, ak.highlevel.Record)):
         what_caches = what.caches  # noqa: F841
 
-- 
2.43.0


From 5326f0a74bfd8df6b7bb5c8af56c53df422b7df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:39 +0000
Subject: [PATCH 156/158] fix: unflatten keeps the caches of its counts

---
 src/awkward/operations/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index a2fffd1..39cdb18 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2068,6 +2068,8 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
     if isinstance(counts, (numbers.Integral, np.integer)):
         current_offsets = None
     else:
+        if isinstance(counts, ak.highlevel.Array):
+            counts_caches = counts.caches  # noqa: F841
         counts = ak.operations.convert.to_layout(
             counts, allow_record=False, allow_other=False
         )
-- 
2.43.0


From f07a64a0d24c275af012e4b6a86975ac4420d7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:54 +0000
Subject: [PATCH 157/158] fix: the fields of record forms keep their order,
 also through pickling

---
 src/python/forms.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/python/forms.cpp b/src/python/forms.cpp
index 280f309..0dd5a4f 100644
--- a/src/python/forms.cpp
+++ b/src/python/forms.cpp
@@ -577,8 +577,7 @@ make_RecordForm(const py::handle& m, const std::string& name) {
           py::arg("has_identities") = false,
           py::arg("parameters") = py::none(),
           py::arg("form_key") = py::none())
-      .def(py::init([](const std::map<std::string,
-                                      std::shared_ptr<ak::Form>>& contents,
+      .def(py::init([](const py::dict& contents,
                        bool has_identities,
                        const py::object& parameters,
                        const py::object& form_key) -> ak::RecordForm {
@@ -586,8 +585,9 @@ make_RecordForm(const py::handle& m, const std::string& name) {
           std::make_shared<ak::util::RecordLookup>();
         std::vector<std::shared_ptr<ak::Form>> contentvec;
         for (auto pair : contents) {
-          recordlookup.get()->push_back(pair.first);
-          contentvec.push_back(pair.second);
+          recordlookup.get()->push_back(pair.first.cast<std::string>());
+          contentvec.push_back(
+            pair.second.cast<std::shared_ptr<ak::Form>>());
         }
         return ak::RecordForm(has_identities,
                               dict2parameters(parameters),
@@ -599,10 +599,10 @@ make_RecordForm(const py::handle& m, const std::string& name) {
           py::arg("parameters") = py::none(),
           py::arg("form_key") = py::none())
       .def_property_readonly("contents", [](const ak::RecordForm& self)
-           -> std::map<std::string, std::shared_ptr<ak::Form>> {
-        std::map<std::string, std::shared_ptr<ak::Form>> out;
+           -> py::dict {
+        py::dict out;
         for (int64_t i = 0;  i < self.numfields();  i++) {
-          out[self.key(i)] = self.content(i);
+          out[py::cast(self.key(i))] = py::cast(self.content(i));
         }
         return out;
       })
-- 
2.43.0


From ddca68210181e45853292def9799bc6867772284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 158/158] fix: ranges of lazy arrays don't expect a form that
 depends on what has been generated

---
 src/libawkward/array/VirtualArray.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/VirtualArray.cpp b/src/libawkward/array/VirtualArray.cpp
index 1dc9c18..7973a05 100644
--- a/src/libawkward/array/VirtualArray.cpp
+++ b/src/libawkward/array/VirtualArray.cpp
@@ -666,7 +666,8 @@ namespace awkward {
     slice.become_sealed();
     FormPtr sliceform(nullptr);
 
-    if (generator_.get()->form().get() != nullptr) {
+    if (generator_.get()->form().get() != nullptr  &&
+        !field_form_is_uncertain(generator_.get()->form(), false)) {
       sliceform = generator_.get()->form().get()->getitem_range();
     }
 
-- 
2.43.0

