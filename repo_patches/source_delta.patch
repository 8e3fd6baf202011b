From 1993239269093ebd59d104016fe902b745648fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 01/33] fix: rotate about the end of the range returns the
 beginning and leaves the range alone

---
 include/bitlib/bit-algorithms/rotate.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index f9509ba..3ee1ac7 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -193,6 +193,7 @@ bit_iterator<ForwardIt> rotate(
     _assert_range_viability(first, last);
     //if (first == n_first) return n_first;
     if (first == n_first) return last;
+    if (n_first == last) return first;
 
     // Types and constants
     using word_type = typename bit_iterator<ForwardIt>::word_type;
-- 
2.43.0


From 17d2237016ca9dcc11bda892598a32b669b8eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 02/33] fix: bit_vector computes word counts beyond 2^32 bits

---
 include/bitlib/bit-containers/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index f971c49..ee4e74d 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -41,7 +41,7 @@ class bit_vector {
 
         // TODO are privates always inlined?
         // @brief Get the number of words needed to represet num_bits bits
-        constexpr uint64_t word_count(unsigned int num_bits) {
+        constexpr uint64_t word_count(size_t num_bits) {
             return ((num_bits + digits - 1) / digits);
         }
 
-- 
2.43.0


From 5d65007384d34824b134ff80f0aa38fc1ad1e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 03/33] fix: bit_vector::insert computes available bits exactly

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index ee4e74d..4ffc137 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -529,7 +529,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size() * digits;
+    const size_type bits_available = word_vector.size() * digits;
     const bool need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
@@ -552,7 +552,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size()*digits;
+    const size_type bits_available = word_vector.size()*digits;
     const auto need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
-- 
2.43.0


From 4061f4abe8177645296b1892877b00caca38d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 04/33] fix: bit_vector::resize gives every added bit the
 requested value

---
 include/bitlib/bit-containers/bit_vector.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 4ffc137..eed7344 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -610,8 +610,7 @@ constexpr void bit_vector<WordType, Allocator>::pop_back() {
 
 template<class WordType, class Allocator>
 constexpr void bit_vector<WordType, Allocator>::resize(size_type count) {
-    word_vector.resize(word_count(count));
-    length_ = count;
+    resize(count, bit0);
     return;
 }
 
@@ -621,7 +620,7 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
     word_vector.resize(word_count(count));
     length_ = count;
     if (length_ > old_length) {
-        fill(begin() + length_, end(), value);
+        fill(begin() + old_length, end(), value);
     }
     return;
 }
-- 
2.43.0


From 525dbb2d7f6980869e1923b0f1935f1e92bd3410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 05/33] fix: moving a bit_vector takes over its storage instead
 of copying it

---
 include/bitlib/bit-containers/bit_vector.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index eed7344..6c5c527 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -112,8 +112,8 @@ class bit_vector {
                 const Allocator& alloc=Allocator());
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other) = default;
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc);
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept;
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other) noexcept;
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
         constexpr bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<bool> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<WordType> init, const Allocator& alloc=Allocator());
@@ -242,12 +242,16 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
 }
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept
-    : word_vector(std::move(other.word_vector)), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other) noexcept
+    : word_vector(std::move(other.word_vector)), length_(other.length_) {
+    other.length_ = 0;
+}
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
-    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
+    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {
+    other.length_ = 0;
+}
 
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
-- 
2.43.0


From 2d8fe764df92bc1dadff509a6112ae69f42a96af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 06/33] fix: range and string constructors allocate words, not
 one word per bit

---
 include/bitlib/bit-containers/bit_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 6c5c527..3e156c1 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -223,7 +223,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
         bit_iterator<RandomAccessIt> first,
         bit_iterator<RandomAccessIt> last,
         const Allocator& alloc)
-    : word_vector(distance(first, last), alloc), length_(distance(first, last)) {
+    : word_vector(word_count(distance(first, last)), alloc), length_(distance(first, last)) {
     copy(first, last, this->begin());
 }
 
@@ -279,7 +279,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::string_view s) {
     this->length_ = std::count(s.begin(), s.end(), '0') + std::count(s.begin(), s.end(), '1');
-    this->word_vector = std::vector<WordType, Allocator>(this->length_);
+    this->word_vector = std::vector<WordType, Allocator>(word_count(this->length_));
     size_type i = 0;
     for (char c : s) {
         if (c == '0') {
@@ -304,7 +304,7 @@ constexpr bit_vector<WordType, Allocator>::range_constructor(
         RandomAccessIt first,
         RandomAccessIt last,
         const Allocator& alloc) {
-    word_vector = std::vector<WordType, Allocator>(std::distance(first, last), alloc);
+    word_vector = std::vector<WordType, Allocator>(word_count(std::distance(first, last)), alloc);
     length_ = std::distance(first, last);
     std::transform(
             first,
-- 
2.43.0


From 973aa46331d1c4edc3a1acb6c87b29a416e06590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 07/33] fix: constant bit_vectors, custom allocators and lists
 of bit values compile

---
 include/bitlib/bit-containers/bit_vector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 3e156c1..6302e6b 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -82,10 +82,10 @@ class bit_vector {
         using size_type = std::size_t;
         using difference_type = std::ptrdiff_t;
         using reference = bit_reference<WordType>;
-        using const_reference = const reference;
+        using const_reference = bit_reference<const WordType>;
         using pointer = bit_pointer<WordType>;
-        using iterator = bit_iterator<typename std::vector<WordType>::iterator>;
-        using const_iterator = bit_iterator<const typename std::vector<WordType>::const_iterator>;
+        using iterator = bit_iterator<typename std::vector<WordType, Allocator>::iterator>;
+        using const_iterator = bit_iterator<typename std::vector<WordType, Allocator>::const_iterator>;
 
 
         /*
@@ -137,7 +137,7 @@ class bit_vector {
          * Element Access
          */
         constexpr reference operator[](size_type pos);
-        constexpr reference operator[](size_type pos) const;
+        constexpr const_reference operator[](size_type pos) const;
         constexpr reference at(size_type pos);
         constexpr const_reference at(size_type pos) const;
         constexpr reference front();
@@ -256,7 +256,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Alloc
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
     : word_vector(alloc), length_(0) {
-    for (const_reference b : init) {
+    for (const bit_value& b : init) {
         this->push_back(b);
     }
 }
@@ -362,7 +362,7 @@ constexpr typename bit_vector<WordType, Allocator>::reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) {return begin()[pos];}
 
 template<class WordType, class Allocator>
-constexpr typename bit_vector<WordType, Allocator>::reference
+constexpr typename bit_vector<WordType, Allocator>::const_reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) const {return begin()[pos];}
 
 template<class WordType, class Allocator>
-- 
2.43.0


From c39db0ee71e3c8d462f163788bfc37dedbf81df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 08/33] fix: allocator-extended copy is defined, word and bool
 ranges use the given allocator

---
 include/bitlib/bit-containers/bit_vector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 6302e6b..94eb669 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -233,7 +233,7 @@ template<class RandomAccessIt>
 constexpr bit_vector<WordType, Allocator>::bit_vector(
         RandomAccessIt first,
         RandomAccessIt last,
-        const Allocator& alloc) {
+        const Allocator& alloc) : word_vector(alloc) {
     bit_vector<WordType, Allocator>::range_constructor(
         first,
         last,
@@ -241,6 +241,10 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
     );
 }
 
+template<class WordType, class Allocator>
+constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc)
+    : word_vector(other.word_vector, alloc), length_(other.length_) {}
+
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other) noexcept
     : word_vector(std::move(other.word_vector)), length_(other.length_) {
-- 
2.43.0


From 022bf274e3f081fc3e8effd917bf7756a11a0bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 09/33] fix: debug_string of constant vectors and sub-ranges,
 assignment from iterator to const_iterator

---
 include/bitlib/bit-containers/bit_vector.hpp | 16 ++++++++--------
 include/bitlib/bit-iterator/bit_iterator.hpp |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 94eb669..d1cfdcc 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -187,8 +187,8 @@ class bit_vector {
         /*
          * Helper functions
          */
-        constexpr std::string debug_string(const_iterator first, const_iterator last);
-        constexpr std::string debug_string();
+        constexpr std::string debug_string(const_iterator first, const_iterator last) const;
+        constexpr std::string debug_string() const;
 
         // TODO Make constexpr
         //friend std::ostream& operator<<(std::ostream& os, bit_vector bv) {
@@ -638,11 +638,11 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
 
 // ------------------------ BIT VECTOR: DEBUGGING -------------------------- //
 template<class WordType, class Allocator>
-constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) {
+constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) const {
     std::string ret = "";
-    iterator mem = first;
+    const_iterator mem = first;
     auto position = 0;
-    for (iterator it = first; it != last; ++it) {
+    for (const_iterator it = first; it != last; ++it) {
         if (position % digits == 0 && position != 0) {
             ret += " ";
         } else if (position % 8 == 0 && position != 0) {
@@ -656,13 +656,13 @@ constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterat
 }
 
 template<class WordType, class Allocator>
-constexpr std::string bit_vector<WordType, Allocator>::debug_string() {
+constexpr std::string bit_vector<WordType, Allocator>::debug_string() const {
     auto first = begin();
     auto last = end();
     std::string ret = "";
-    iterator mem = first;
+    const_iterator mem = first;
     auto position = 0;
-    for (iterator it = first; it != last; ++it) {
+    for (const_iterator it = first; it != last; ++it) {
         if (position % digits == 0 && position != 0) {
             ret += " ";
         } else if (position % 8 == 0 && position != 0) {
diff --git a/include/bitlib/bit-iterator/bit_iterator.hpp b/include/bitlib/bit-iterator/bit_iterator.hpp
index 235d028..19c6b81 100644
--- a/include/bitlib/bit-iterator/bit_iterator.hpp
+++ b/include/bitlib/bit-iterator/bit_iterator.hpp
@@ -190,8 +190,8 @@ constexpr bit_iterator<Iterator>& bit_iterator<Iterator>::operator=(
     const bit_iterator<T>& other
 )
 {
-    _current = other._current;
-    _position = other._position;
+    _current = other.base();
+    _position = other.position();
     return *this;
 }
 // -------------------------------------------------------------------------- //
-- 
2.43.0


From e47a05b249a902b6cb414d63f8670e50848fa52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 10/33] fix: null bit pointers compare equal however obtained,
 bit pointers assign to pointers to constant bits

---
 include/bitlib/bit-iterator/bit_pointer.hpp   | 2 +-
 include/bitlib/bit-iterator/bit_reference.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_pointer.hpp b/include/bitlib/bit-iterator/bit_pointer.hpp
index 4a56472..ce172ab 100644
--- a/include/bitlib/bit-iterator/bit_pointer.hpp
+++ b/include/bitlib/bit-iterator/bit_pointer.hpp
@@ -190,7 +190,7 @@ constexpr bit_pointer<WordType>& bit_pointer<WordType>::operator=(
 ) noexcept
 {
     _ref._ptr = nullptr;
-    _ref._mask = 0;
+    _ref._mask = 1;
     return *this;
 }
 
diff --git a/include/bitlib/bit-iterator/bit_reference.hpp b/include/bitlib/bit-iterator/bit_reference.hpp
index 9344158..c8a57db 100644
--- a/include/bitlib/bit-iterator/bit_reference.hpp
+++ b/include/bitlib/bit-iterator/bit_reference.hpp
@@ -33,7 +33,7 @@ class bit_reference
 
     // Friendship
     template <class> friend class bit_reference;
-    friend class bit_pointer<WordType>;
+    template <class> friend class bit_pointer;
 
     // Types
     public:
@@ -515,7 +515,7 @@ constexpr bit_reference<WordType>::bit_reference(
     std::nullptr_t
 ) noexcept
 : _ptr(nullptr)
-, _mask()
+, _mask(1)
 {
 }
 
-- 
2.43.0


From b3530fe5b8848afe06d42a90495a441fa7d6aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 11/33] fix: bit_value::swap with a bit reference compiles

---
 include/bitlib/bit-iterator/bit_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_value.hpp b/include/bitlib/bit-iterator/bit_value.hpp
index 0fd6ee4..602e0a9 100644
--- a/include/bitlib/bit-iterator/bit_value.hpp
+++ b/include/bitlib/bit-iterator/bit_value.hpp
@@ -287,7 +287,7 @@ void bit_value::swap(
     bit_reference<T> other
 ) noexcept
 {
-    if (other != _value) {
+    if (static_cast<bool>(other) != _value) {
         flip();
         other.flip();
     }
-- 
2.43.0


From b2ebe84b60b76cb659fc15804e8e60cb6b3892a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 12/33] fix: swap_ranges accepts ranges of different iterator
 types

---
 include/bitlib/bit-algorithms/swap_ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/swap_ranges.hpp b/include/bitlib/bit-algorithms/swap_ranges.hpp
index 67cd5a0..9af430a 100644
--- a/include/bitlib/bit-algorithms/swap_ranges.hpp
+++ b/include/bitlib/bit-algorithms/swap_ranges.hpp
@@ -106,7 +106,7 @@ constexpr bit_iterator<RandomAccessIt2> swap_ranges(
                         last1.position()
                 );
             }
-            return bit_iterator<RandomAccessIt1>(it2, last1.position());
+            return bit_iterator<RandomAccessIt2>(it2, last1.position());
 
         // first1 range spans mutliple words and is not aligned with first2
         } else {
-- 
2.43.0


From 7e2d79ca168bae97cc9479e85fc522b65d163ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 13/33] fix: shifts of raw word memory compile in C++17

---
 include/bitlib/bit-algorithms/bit_algorithm_details.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index 984c499..c6e6fdf 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -279,11 +279,11 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_left(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
     if (n <= 0) return last;
-    if (n >= distance(first, last)) return first;
+    if (n >= std::distance(first, last)) return first;
     RandomAccessIt mid = first + n;
     auto ret = std::move(mid, last, first);
     return ret;
@@ -296,10 +296,10 @@ RandomAccessIt word_shift_left(RandomAccessIt first,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_right(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
-    auto d = distance(first, last);
+    auto d = std::distance(first, last);
     if (n <= 0) return first;
     if (n >= d) return last;
     std::move_backward(first, last-n, last);
-- 
2.43.0


From cd80d87200b634ec54309e645d1c8569635e3523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 14/33] fix: read-only algorithms accept iterators over
 constant words

---
 include/bitlib/bit-algorithms/copy.hpp          | 4 ++--
 include/bitlib/bit-algorithms/copy_backward.hpp | 4 ++--
 include/bitlib/bit-algorithms/count.hpp         | 2 +-
 include/bitlib/bit-algorithms/equal.hpp         | 4 ++--
 include/bitlib/bit-algorithms/find.hpp          | 2 +-
 include/bitlib/bit-algorithms/move.hpp          | 4 ++--
 6 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/bitlib/bit-algorithms/copy.hpp b/include/bitlib/bit-algorithms/copy.hpp
index 2d50751..4503402 100644
--- a/include/bitlib/bit-algorithms/copy.hpp
+++ b/include/bitlib/bit-algorithms/copy.hpp
@@ -34,8 +34,8 @@ constexpr bit_iterator<RandomAccessIt2> copy(bit_iterator<RandomAccessIt1> first
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/copy_backward.hpp b/include/bitlib/bit-algorithms/copy_backward.hpp
index 55bd6f6..c4ed25f 100644
--- a/include/bitlib/bit-algorithms/copy_backward.hpp
+++ b/include/bitlib/bit-algorithms/copy_backward.hpp
@@ -31,8 +31,8 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index 1a804b1..4f460b7 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -42,7 +42,7 @@ count(
     _assert_range_viability(first, last);
 
     // Types and constants
-    using word_type = typename bit_iterator<RandomAccessIt>::word_type;
+    using word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt>::word_type>::type;
     using difference_type = typename bit_iterator<RandomAccessIt>::difference_type;
     constexpr difference_type digits = binary_digits<word_type>::value;
 
diff --git a/include/bitlib/bit-algorithms/equal.hpp b/include/bitlib/bit-algorithms/equal.hpp
index e3fb144..d166c32 100644
--- a/include/bitlib/bit-algorithms/equal.hpp
+++ b/include/bitlib/bit-algorithms/equal.hpp
@@ -34,8 +34,8 @@ constexpr bool equal(
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/find.hpp b/include/bitlib/bit-algorithms/find.hpp
index b35583c..79c93eb 100644
--- a/include/bitlib/bit-algorithms/find.hpp
+++ b/include/bitlib/bit-algorithms/find.hpp
@@ -36,7 +36,7 @@ constexpr bit_iterator<RandomAccessIt> find(
         bit_iterator<RandomAccessIt> last, bit::bit_value bv
 ) {
 
-    using word_type = typename bit_iterator<RandomAccessIt>::word_type;
+    using word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt>::word_type>::type;
     using size_type = typename bit_iterator<RandomAccessIt>::size_type;
     const std::size_t digits = binary_digits<word_type>::value;
 
diff --git a/include/bitlib/bit-algorithms/move.hpp b/include/bitlib/bit-algorithms/move.hpp
index 401cbfd..290b4a1 100644
--- a/include/bitlib/bit-algorithms/move.hpp
+++ b/include/bitlib/bit-algorithms/move.hpp
@@ -29,8 +29,8 @@ constexpr bit_iterator<RandomAccessIt2> move(bit_iterator<RandomAccessIt1> first
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
-- 
2.43.0


From 70bde08ea225cfccb923c8475e91dd0192fc430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 15/33] fix: equal with the ends of both ranges, as the README
 documents

---
 include/bitlib/bit-algorithms/equal.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/bitlib/bit-algorithms/equal.hpp b/include/bitlib/bit-algorithms/equal.hpp
index d166c32..35aca76 100644
--- a/include/bitlib/bit-algorithms/equal.hpp
+++ b/include/bitlib/bit-algorithms/equal.hpp
@@ -97,6 +97,19 @@ constexpr bool equal(
     }
     return true;
 }
+
+// Also compares the lengths of the two ranges
+template <class RandomAccessIt1, class RandomAccessIt2>
+constexpr bool equal(
+        bit_iterator<RandomAccessIt1> first1,
+        bit_iterator<RandomAccessIt1> last1,
+        bit_iterator<RandomAccessIt2> first2,
+        bit_iterator<RandomAccessIt2> last2
+)
+{
+    return distance(first1, last1) == distance(first2, last2)
+        && ::bit::equal(first1, last1, first2);
+}
 // -------------------------------------------------------------------------- //
 
 
-- 
2.43.0


From 7e7d83642e2e147b8ceaefb48c657da641468d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 16/33] fix: sizes beyond the largest possible are refused
 instead of wrapping around

---
 include/bitlib/bit-containers/bit_vector.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index d1cfdcc..7493fd7 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -15,6 +15,8 @@
 // C++ standard library
 #include <vector>
 #include <cmath>
+#include <limits>
+#include <stdexcept>
 #include <string>
 #include <iostream>
 #include <algorithm>
@@ -42,7 +44,7 @@ class bit_vector {
         // TODO are privates always inlined?
         // @brief Get the number of words needed to represet num_bits bits
         constexpr uint64_t word_count(size_t num_bits) {
-            return ((num_bits + digits - 1) / digits);
+            return num_bits / digits + (num_bits % digits != 0);
         }
 
         // Iterator pair constructor specializations
@@ -483,7 +485,8 @@ bit_vector<WordType, Allocator>::size() const noexcept {
 template<class WordType, class Allocator>
 constexpr typename bit_vector<WordType, Allocator>::size_type
 bit_vector<WordType, Allocator>::max_size() const noexcept {
-    return word_vector.max_size() * digits;
+    constexpr size_type limit = std::numeric_limits<difference_type>::max();
+    return word_vector.max_size() < limit / digits ? word_vector.max_size() * digits : limit;
 }
 
 template<class WordType, class Allocator>
@@ -537,6 +540,9 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
+    if (count > max_size() - length_) {
+        throw std::length_error("Size is out of range");
+    }
     const size_type bits_available = word_vector.size() * digits;
     const bool need_to_add = length_ + count > bits_available;
     if (need_to_add) {
-- 
2.43.0


From 44f548a148d05ad9031379837f53708371cd93b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 17/33] fix: vector assignment keeps length and words
 consistent when an allocation fails

---
 include/bitlib/bit-containers/bit_vector.hpp | 22 +++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 7493fd7..50f7700 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -131,8 +131,9 @@ class bit_vector {
         /*
          * Assignment
          */
-        constexpr bit_vector& operator=(const bit_vector<WordType, Allocator>& other) = default;
-        constexpr bit_vector& operator=(bit_vector<WordType, Allocator>&& other) noexcept;
+        constexpr bit_vector& operator=(const bit_vector<WordType, Allocator>& other);
+        constexpr bit_vector& operator=(bit_vector<WordType, Allocator>&& other)
+            noexcept(std::is_nothrow_move_assignable<std::vector<WordType, Allocator>>::value);
 
 
         /*
@@ -352,9 +353,24 @@ constexpr bit_vector<WordType, Allocator>::~bit_vector() {
 // ------------------------ BIT VECTOR: ASSIGNMENT ------------------------ //
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>&
-bit_vector<WordType, Allocator>::operator=(bit_vector<WordType, Allocator>&& other) noexcept {
+bit_vector<WordType, Allocator>::operator=(const bit_vector<WordType, Allocator>& other) {
+    if constexpr (std::allocator_traits<Allocator>::propagate_on_container_copy_assignment::value) {
+        if (word_vector.get_allocator() != other.word_vector.get_allocator()) {
+            // The words are given up before new ones are allocated
+            length_ = 0;
+        }
+    }
+    word_vector = other.word_vector;
     length_ = other.length_;
+    return *this;
+}
+
+template<class WordType, class Allocator>
+constexpr bit_vector<WordType, Allocator>&
+bit_vector<WordType, Allocator>::operator=(bit_vector<WordType, Allocator>&& other)
+        noexcept(std::is_nothrow_move_assignable<std::vector<WordType, Allocator>>::value) {
     word_vector = std::move(other.word_vector);
+    length_ = other.length_;
     other.length_ = 0;
     return *this;
 }
-- 
2.43.0


From bb6503475c3b98b8e981abf1153798d5ff9812a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 18/33] fix: count, find and reverse do not touch memory for
 empty ranges

---
 include/bitlib/bit-algorithms/count.hpp   | 3 +++
 include/bitlib/bit-algorithms/find.hpp    | 3 +++
 include/bitlib/bit-algorithms/reverse.hpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index 4f460b7..a869f81 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -41,6 +41,9 @@ count(
     // Assertions
     _assert_range_viability(first, last);
 
+    // An empty range holds no word to read
+    if (first == last) return 0;
+
     // Types and constants
     using word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt>::word_type>::type;
     using difference_type = typename bit_iterator<RandomAccessIt>::difference_type;
diff --git a/include/bitlib/bit-algorithms/find.hpp b/include/bitlib/bit-algorithms/find.hpp
index 79c93eb..cb73278 100644
--- a/include/bitlib/bit-algorithms/find.hpp
+++ b/include/bitlib/bit-algorithms/find.hpp
@@ -40,6 +40,9 @@ constexpr bit_iterator<RandomAccessIt> find(
     using size_type = typename bit_iterator<RandomAccessIt>::size_type;
     const std::size_t digits = binary_digits<word_type>::value;
 
+    // An empty range holds no word to read
+    if (first == last) return last;
+
     // Initialization
     const bool is_first_aligned = first.position() == 0;
     const bool is_last_aligned = last.position() == 0;
diff --git a/include/bitlib/bit-algorithms/reverse.hpp b/include/bitlib/bit-algorithms/reverse.hpp
index 37dacb7..b335b06 100644
--- a/include/bitlib/bit-algorithms/reverse.hpp
+++ b/include/bitlib/bit-algorithms/reverse.hpp
@@ -33,6 +33,9 @@ constexpr void reverse(
     // Assertions
     _assert_range_viability(first, last);
 
+    // An empty range holds no word to read or write
+    if (first == last) return;
+
     // Types and constants
     using word_type = typename bit_iterator<RandomAccessIt>::word_type;
     using size_type = typename bit_iterator<RandomAccessIt>::size_type;
-- 
2.43.0


From e1ade0a6a25d6ecd5560770f5e10cb018d6056a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 19/33] fix: field extraction, blend and double shifts no
 longer shift by the whole word width

---
 include/bitlib/bit-iterator/bit_details.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 595cd81..6da4a76 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -538,8 +538,8 @@ constexpr T _bextr(T src, T start, T len, X...) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     constexpr T one = 1;
-    const T msk = (one << len) * (len < digits) - one;
-    return (src >> start) & msk * (start < digits);
+    const T msk = len < digits ? static_cast<T>((one << len) - one) : ~T();
+    return start < digits ? static_cast<T>((src >> start) & msk) : T();
 }
 // -------------------------------------------------------------------------- //
 
@@ -756,8 +756,9 @@ constexpr T _bitblend(T src0, T src1, T start, T len) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     constexpr T one = 1;
-    const T msk = ((one << len) * (len < digits) - one) << start;
-    return src0 ^ ((src0 ^ src1) & msk * (start < digits));
+    T msk = len < digits ? static_cast<T>((one << len) - one) : ~T();
+    msk = start < digits ? static_cast<T>(msk << start) : T();
+    return src0 ^ ((src0 ^ src1) & msk);
 }
 // -------------------------------------------------------------------------- //
 
@@ -858,10 +859,10 @@ constexpr T _shld(T dst, T src, T cnt) noexcept
 {
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
-    if (cnt < digits) {
+    if (cnt > 0 && cnt < digits) {
         dst = (dst << cnt) | (src >> (digits - cnt));
-    } else {
-        dst = (src << (cnt - digits)) * (cnt < digits + digits);
+    } else if (cnt >= digits) {
+        dst = cnt - digits < digits ? src << (cnt - digits) : T();
     }
     return dst;
 }
@@ -876,10 +877,10 @@ constexpr T _shrd(T dst, T src, T cnt) noexcept
 {
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
-    if (cnt < digits) {
+    if (cnt > 0 && cnt < digits) {
         dst = (dst >> cnt) | (src << (digits - cnt));
-    } else {
-        dst = (src >> (cnt - digits)) * (cnt < digits + digits);
+    } else if (cnt >= digits) {
+        dst = cnt - digits < digits ? src >> (cnt - digits) : T();
     }
     return dst;
 }
-- 
2.43.0


From e7571bfbd8c8fbca901e91430c69a2fbab36ef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 20/33] fix: the wider type of a word type is wider

---
 include/bitlib/bit-iterator/bit_details.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 6da4a76..a5dd5e0 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -235,7 +235,7 @@ struct _wider_type
         typename std::tuple_element<I, tuple>::type,
         typename std::conditional<
             (I + 1 < std::tuple_size<tuple>::value),
-            typename _narrower_type<
+            typename _wider_type<
                 T,
                 (I + 1 < std::tuple_size<tuple>::value ? I + 1 : -1)
             >::type,
-- 
2.43.0


From 54edaeaecba8cdcb6b354f8d9b9b4f29c154d06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 21/33] fix: get_word and write_word work for words of another
 width than the sequence's

---
 .../bit-algorithms/bit_algorithm_details.hpp  | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index c6e6fdf..dc09df3 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -107,7 +107,7 @@ T get_word(bit_iterator<InputIt> first, size_t len=binary_digits<T>::value)
 {
     using native_word_type = typename bit_iterator<InputIt>::word_type;
     constexpr T digits = binary_digits<native_word_type>::value;
-    assert(digits >= len);
+    assert(binary_digits<T>::value >= len);
     T offset = digits - first.position();
     T ret_word = *first.base() >> first.position();
 
@@ -222,9 +222,9 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
             *dst_bit_it.base() = src;
         }
         else {
-            *dst_bit_it.base() = _bitblend<src_type>(
+            *dst_bit_it.base() = _bitblend<dst_type>(
                    *dst_bit_it.base(),
-                   src << dst_bit_it.position(),
+                   static_cast<dst_type>(src) << dst_bit_it.position(),
                    dst_bit_it.position(),
                    std::min<src_type>(
                        dst_digits - dst_bit_it.position(),
@@ -233,7 +233,7 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
             );
             if (len > dst_digits - dst_bit_it.position()) {
                 OutputIt overflow_dst = std::next(dst_bit_it.base());
-                *overflow_dst = _bitblend<src_type>(
+                *overflow_dst = _bitblend<dst_type>(
                         *overflow_dst,
                         src >> (dst_digits - dst_bit_it.position()),
                         0,
@@ -244,16 +244,21 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
     } else {
         OutputIt it = dst_bit_it.base();
         if (dst_bit_it.position() != 0) {
-            *it = _bitblend(
+            const src_type available = dst_digits - dst_bit_it.position();
+            *it = _bitblend<dst_type>(
                     *it,
-                    static_cast<dst_type>(src),
-                    static_cast<dst_type>(-1) << dst_bit_it.position()
+                    static_cast<dst_type>(src << dst_bit_it.position()),
+                    dst_bit_it.position(),
+                    std::min<src_type>(available, len)
             );
-            len -= dst_digits - dst_bit_it.position();
+            if (len <= available) {
+                return;
+            }
+            len -= available;
             // TODO would it be faster to jsut shift src every time it is
             // passed as an argument and keep track of how much we need to
             // shift?
-            src >>= dst_digits - dst_bit_it.position();
+            src >>= available;
             ++it;
         }
         while (len >= dst_digits) {
@@ -263,10 +268,11 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
             ++it;
         }
         if (len > 0 ) {
-            *it = _bitblend(
+            *it = _bitblend<dst_type>(
                     *it,
                     static_cast<dst_type>(src),
-                    (1 << len) - 1
+                    0,
+                    len
             );
         }
     }
-- 
2.43.0


From a46b254f083a0bd23157d531e4fc6d6e617098cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 22/33] fix: count handles words that are not adjacent in
 memory

---
 include/bitlib/bit-algorithms/count.hpp     |  8 +++++++-
 include/bitlib/bit-iterator/bit_details.hpp | 19 +++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index a869f81..eb3b971 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -96,7 +96,13 @@ count(
             //);
 
             // libpopcnt
-            result += popcnt(&*it, (digits / 8) * std::distance(it, last.base()));
+            if (_is_contiguous(it, last.base())) {
+                result += popcnt(&*it, (digits / 8) * std::distance(it, last.base()));
+            } else {
+                for (; it != last.base(); ++it) {
+                    result += _popcnt<word_type>(*it);
+                }
+            }
         }
         if (last.position() != 0) {
             word_type last_value = *last.base() << (digits - last.position());
diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index a5dd5e0..f852fb0 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -1047,6 +1047,25 @@ constexpr T _mulx(T src0, T src1, T* hi, X...) noexcept
 
 
 
+// ------------- IMPLEMENTATION DETAILS: UTILITIES: CONTIGUITY -------------- //
+// Checks whether the words are adjacent in memory, which is not the case of
+// every random access iterator (the comparisons of pointers are folded)
+template <class RandomAccessIt>
+constexpr bool _is_contiguous(RandomAccessIt first, RandomAccessIt last)
+{
+    using difference_type = typename std::iterator_traits<RandomAccessIt>::difference_type;
+    const difference_type n = last - first;
+    for (difference_type i = 1; i < n; ++i) {
+        if (&first[i] != &*first + i) {
+            return false;
+        }
+    }
+    return true;
+}
+// -------------------------------------------------------------------------- //
+
+
+
 // ========================================================================== //
 } // namespace bit
 #endif // _BIT_DETAILS_HPP_INCLUDED
-- 
2.43.0


From e7e2ee53d50a8b03d0d54a3625ad674ccb0664e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 23/33] fix: SIMD loops are used only on words that are
 adjacent in memory

---
 include/bitlib/bit-algorithms/fill.hpp      |  4 +++-
 include/bitlib/bit-algorithms/find.hpp      |  4 +++-
 include/bitlib/bit-algorithms/shift.hpp     | 12 ++++++++----
 include/bitlib/bit-algorithms/transform.hpp |  5 ++++-
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/bitlib/bit-algorithms/fill.hpp b/include/bitlib/bit-algorithms/fill.hpp
index 08f9c61..bf69527 100644
--- a/include/bitlib/bit-algorithms/fill.hpp
+++ b/include/bitlib/bit-algorithms/fill.hpp
@@ -62,13 +62,15 @@ void fill(bit_iterator<RandomAccessIt> first, bit_iterator<RandomAccessIt> last,
         }
 
 #ifdef BITLIB_HWY
+        // Vector stores need words which are adjacent in memory
+        const bool contiguous = _is_contiguous(it, last.base());
         // Align to 64 bit boundary
         for (; it != last.base() && !is_aligned(&*it, 64); it++) {
             *it = fill_word;
         }
         const hn::ScalableTag<word_type> d;
         const auto fill_vec = bv == bit0 ? hn::Set(d, 0) : hn::Set(d, ones);
-        for (; std::distance(it, last.base()) >= hn::Lanes(d); it += hn::Lanes(d))
+        for (; contiguous && std::distance(it, last.base()) >= hn::Lanes(d); it += hn::Lanes(d))
         {
             hn::Store(fill_vec, d, &*it);
         }
diff --git a/include/bitlib/bit-algorithms/find.hpp b/include/bitlib/bit-algorithms/find.hpp
index cb73278..b7ab4de 100644
--- a/include/bitlib/bit-algorithms/find.hpp
+++ b/include/bitlib/bit-algorithms/find.hpp
@@ -67,6 +67,8 @@ constexpr bit_iterator<RandomAccessIt> find(
 
 // Waiting on github issue
 #ifdef BITLIB_HWY
+    // Vector loads need words which are adjacent in memory
+    const bool contiguous = _is_contiguous(it, last.base());
     // Align the iterator
     while (it != last.base() && !is_aligned(&(*it), 64)) {
         if ((bv == bit1 && (*it == 0)) || (bv == bit0 && (*it == static_cast<word_type>(-1)))) {
@@ -83,7 +85,7 @@ constexpr bit_iterator<RandomAccessIt> find(
     // SIMD
     hn::ScalableTag<word_type> d;
     const auto z = hn::Zero(d);
-    for (; std::distance(it, last.base()) >= hn::Lanes(d); it += hn::Lanes(d))
+    for (; contiguous && std::distance(it, last.base()) >= hn::Lanes(d); it += hn::Lanes(d))
     {
         auto v = hn::Load(d, &*it);
         if (bv == bit0)
diff --git a/include/bitlib/bit-algorithms/shift.hpp b/include/bitlib/bit-algorithms/shift.hpp
index e598e0c..e501624 100644
--- a/include/bitlib/bit-algorithms/shift.hpp
+++ b/include/bitlib/bit-algorithms/shift.hpp
@@ -184,15 +184,17 @@ bit_iterator<RandomAccessIt> shift_left(
 
     // Shift bit sequence to the lsb
 #ifdef BITLIB_HWY
+    // Vector loads and stores need words which are adjacent in memory
+    const bool contiguous = _is_contiguous(first.base(), last.base());
     // Align to 64 bit boundary
-    while (std::next(middle.base()) < last.base() && !is_aligned(&*first.base(), 64)) {
+    while (contiguous && std::next(middle.base()) < last.base() && !is_aligned(&*first.base(), 64)) {
         *first.base() = _shrd<word_type>(*middle.base(), *std::next(middle.base()), offset);
         first += digits;
         middle += digits;
     }
 
     const hn::ScalableTag<word_type> d_tag;
-    while (std::distance(middle.base(), last.base()) >= hn::Lanes(d_tag) + 10 + !is_last_aligned)
+    while (contiguous && std::distance(middle.base(), last.base()) >= hn::Lanes(d_tag) + 10 + !is_last_aligned)
     {
         const auto v = hn::ShiftRightSame(hn::LoadU(d_tag, &*middle.base()), offset);
         const auto v_plus1 = hn::ShiftLeftSame(hn::LoadU(d_tag, &*(middle.base()+1)), digits - offset);
@@ -318,15 +320,17 @@ bit_iterator<RandomAccessIt> shift_right(
     if (bit::distance(first, middle) >= digits)
     {
 #ifdef BITLIB_HWY
+        // Vector loads and stores need words which are adjacent in memory
+        const bool contiguous = _is_contiguous(first.base(), last.base());
         // Align to 64 bit boundary
         const hn::ScalableTag<word_type> d;
-        while (std::prev(middle.base()) > first.base() && !is_aligned(&*(last.base() - hn::Lanes(d)), 64)) {
+        while (contiguous && std::prev(middle.base()) > first.base() && !is_aligned(&*(last.base() - hn::Lanes(d)), 64)) {
             *std::prev(last.base()) = _shrd<word_type>(*std::prev(middle.base()), *middle.base(), offset);
             last -= digits;
             middle -= digits;
         }
 
-        while (std::distance(first.base(), middle.base()) > hn::Lanes(d) + 1)
+        while (contiguous && std::distance(first.base(), middle.base()) > hn::Lanes(d) + 1)
         {
             const auto v = hn::ShiftRightSame(
                     hn::LoadU(d, &*(middle.base() - hn::Lanes(d))),
diff --git a/include/bitlib/bit-algorithms/transform.hpp b/include/bitlib/bit-algorithms/transform.hpp
index 8857788..f8e235f 100644
--- a/include/bitlib/bit-algorithms/transform.hpp
+++ b/include/bitlib/bit-algorithms/transform.hpp
@@ -82,6 +82,9 @@ constexpr bit_iterator<RandomAccessIt> transform(
 #ifdef BITLIB_HWY
             if constexpr (std::is_same_v<UnaryOperation, std::bit_not<word_type>>)
             {
+                // Vector loads and stores need words which are adjacent in memory
+                const bool contiguous = _is_contiguous(firstIt, last.base())
+                    && _is_contiguous(it, it + N);
                 // Align to 64 bit boundary
                 for (; firstIt != last.base() && !is_aligned(&*firstIt, 64); firstIt++, it++) {
                     *it = unary_op(*firstIt);
@@ -90,7 +93,7 @@ constexpr bit_iterator<RandomAccessIt> transform(
                 bool out_is_aligned = is_aligned(&*it, 64);
 
                 constexpr hn::ScalableTag<word_type> d;
-                for (; std::distance(firstIt, last.base()) >= hn::Lanes(d); firstIt += hn::Lanes(d), it += hn::Lanes(d))
+                for (; contiguous && std::distance(firstIt, last.base()) >= hn::Lanes(d); firstIt += hn::Lanes(d), it += hn::Lanes(d))
                 {
                     const auto v = hn::Not(hn::Load(d, &*firstIt));
                     if (out_is_aligned)
-- 
2.43.0


From febf5699e3a3b85e12be22e878bca61e79465891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:28 +0000
Subject: [PATCH 24/33] fix: rotate within one word for words wider than 64
 bits

---
 include/bitlib/bit-algorithms/rotate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index 3ee1ac7..618597b 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -222,7 +222,7 @@ bit_iterator<ForwardIt> rotate(
             size_type p = last_pos - n_first.position();
             size_type d = last_pos - first.position();
 
-            word_type mask = ((1ULL << d) - 1) << first.position();
+            word_type mask = ((static_cast<word_type>(1) << d) - 1) << first.position();
             word_type rotated = *first.base() & mask;
             rotated = static_cast<word_type>(rotated >> k)
                 | static_cast<word_type>(rotated << p);
-- 
2.43.0


From 292b50e2568d4f4fa622472fbeb2663f402fcd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 25/33] fix: word types that are no vector lanes take the
 scalar path in SIMD builds

---
 include/bitlib/bit-algorithms/fill.hpp      |  2 ++
 include/bitlib/bit-algorithms/find.hpp      |  2 ++
 include/bitlib/bit-algorithms/shift.hpp     |  4 ++++
 include/bitlib/bit-algorithms/transform.hpp |  3 ++-
 include/bitlib/bit-iterator/bit_details.hpp | 14 ++++++++++++++
 5 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/fill.hpp b/include/bitlib/bit-algorithms/fill.hpp
index bf69527..65b433d 100644
--- a/include/bitlib/bit-algorithms/fill.hpp
+++ b/include/bitlib/bit-algorithms/fill.hpp
@@ -62,6 +62,7 @@ void fill(bit_iterator<RandomAccessIt> first, bit_iterator<RandomAccessIt> last,
         }
 
 #ifdef BITLIB_HWY
+        if constexpr (_is_lane<word_type>::value) {
         // Vector stores need words which are adjacent in memory
         const bool contiguous = _is_contiguous(it, last.base());
         // Align to 64 bit boundary
@@ -74,6 +75,7 @@ void fill(bit_iterator<RandomAccessIt> first, bit_iterator<RandomAccessIt> last,
         {
             hn::Store(fill_vec, d, &*it);
         }
+        }
 #endif
         std::fill(it, last.base(), fill_word);
         if (last.position() != 0) {
diff --git a/include/bitlib/bit-algorithms/find.hpp b/include/bitlib/bit-algorithms/find.hpp
index b7ab4de..f42ed3f 100644
--- a/include/bitlib/bit-algorithms/find.hpp
+++ b/include/bitlib/bit-algorithms/find.hpp
@@ -67,6 +67,7 @@ constexpr bit_iterator<RandomAccessIt> find(
 
 // Waiting on github issue
 #ifdef BITLIB_HWY
+    if constexpr (_is_lane<word_type>::value) {
     // Vector loads need words which are adjacent in memory
     const bool contiguous = _is_contiguous(it, last.base());
     // Align the iterator
@@ -102,6 +103,7 @@ constexpr bit_iterator<RandomAccessIt> find(
             return bit_iterator(it, (size_type) num_trailing_complementary_bits);
         }
     }
+    }
 #endif
 
     if (bv == bit1) {
diff --git a/include/bitlib/bit-algorithms/shift.hpp b/include/bitlib/bit-algorithms/shift.hpp
index e501624..b9dd033 100644
--- a/include/bitlib/bit-algorithms/shift.hpp
+++ b/include/bitlib/bit-algorithms/shift.hpp
@@ -184,6 +184,7 @@ bit_iterator<RandomAccessIt> shift_left(
 
     // Shift bit sequence to the lsb
 #ifdef BITLIB_HWY
+    if constexpr (_is_lane<word_type>::value) {
     // Vector loads and stores need words which are adjacent in memory
     const bool contiguous = _is_contiguous(first.base(), last.base());
     // Align to 64 bit boundary
@@ -202,6 +203,7 @@ bit_iterator<RandomAccessIt> shift_left(
         first += hn::Lanes(d_tag)*digits;
         middle += hn::Lanes(d_tag)*digits;
     }
+    }
 #endif
     auto first_base = first.base();
     auto middle_base = middle.base();
@@ -320,6 +322,7 @@ bit_iterator<RandomAccessIt> shift_right(
     if (bit::distance(first, middle) >= digits)
     {
 #ifdef BITLIB_HWY
+        if constexpr (_is_lane<word_type>::value) {
         // Vector loads and stores need words which are adjacent in memory
         const bool contiguous = _is_contiguous(first.base(), last.base());
         // Align to 64 bit boundary
@@ -343,6 +346,7 @@ bit_iterator<RandomAccessIt> shift_right(
             last -= digits * hn::Lanes(d);
             middle -= digits * hn::Lanes(d);
         }
+        }
 #endif
 
         auto last_base_prev   = std::prev(last.base());
diff --git a/include/bitlib/bit-algorithms/transform.hpp b/include/bitlib/bit-algorithms/transform.hpp
index f8e235f..f8803df 100644
--- a/include/bitlib/bit-algorithms/transform.hpp
+++ b/include/bitlib/bit-algorithms/transform.hpp
@@ -80,7 +80,8 @@ constexpr bit_iterator<RandomAccessIt> transform(
         if (is_first_aligned && remaining_bits_to_op > digits) {
             auto N = ::std::distance(firstIt, last.base());
 #ifdef BITLIB_HWY
-            if constexpr (std::is_same_v<UnaryOperation, std::bit_not<word_type>>)
+            if constexpr (std::is_same_v<UnaryOperation, std::bit_not<word_type>>
+                && _is_lane<word_type>::value)
             {
                 // Vector loads and stores need words which are adjacent in memory
                 const bool contiguous = _is_contiguous(firstIt, last.base())
diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index f852fb0..358b690 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -1047,6 +1047,20 @@ constexpr T _mulx(T src0, T src1, T* hi, X...) noexcept
 
 
 
+// ------------ IMPLEMENTATION DETAILS: UTILITIES: VECTOR LANES ------------- //
+// Checks whether words can be the lanes of vectors: the SIMD library knows the
+// fixed width types only, not other types of the same size or wider ones
+template <class T>
+struct _is_lane : std::integral_constant<bool,
+    std::is_same<T, std::uint8_t>::value
+    || std::is_same<T, std::uint16_t>::value
+    || std::is_same<T, std::uint32_t>::value
+    || std::is_same<T, std::uint64_t>::value
+> {};
+// -------------------------------------------------------------------------- //
+
+
+
 // ------------- IMPLEMENTATION DETAILS: UTILITIES: CONTIGUITY -------------- //
 // Checks whether the words are adjacent in memory, which is not the case of
 // every random access iterator (the comparisons of pointers are folded)
-- 
2.43.0


From 8b419c3daa32eb4cba7b75f516ede48d0f0d67ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 26/33] fix: debug_string compiles in C++17 mode with clang

---
 include/bitlib/bit-containers/bit_vector.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 50f7700..a2df782 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -27,6 +27,12 @@
 #include "bitlib/bit-algorithms/bit_algorithm.hpp"
 // Third-party libraries
 // Miscellaneous
+// Strings are literal types, which constexpr functions can return, since C++20
+#if __cplusplus >= 202002L
+#define BITLIB_CONSTEXPR_STRING constexpr
+#else
+#define BITLIB_CONSTEXPR_STRING
+#endif
 namespace bit {
 // ========================================================================== //
 
@@ -190,8 +196,8 @@ class bit_vector {
         /*
          * Helper functions
          */
-        constexpr std::string debug_string(const_iterator first, const_iterator last) const;
-        constexpr std::string debug_string() const;
+        BITLIB_CONSTEXPR_STRING std::string debug_string(const_iterator first, const_iterator last) const;
+        BITLIB_CONSTEXPR_STRING std::string debug_string() const;
 
         // TODO Make constexpr
         //friend std::ostream& operator<<(std::ostream& os, bit_vector bv) {
@@ -660,7 +666,7 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
 
 // ------------------------ BIT VECTOR: DEBUGGING -------------------------- //
 template<class WordType, class Allocator>
-constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) const {
+BITLIB_CONSTEXPR_STRING std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) const {
     std::string ret = "";
     const_iterator mem = first;
     auto position = 0;
@@ -678,7 +684,7 @@ constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterat
 }
 
 template<class WordType, class Allocator>
-constexpr std::string bit_vector<WordType, Allocator>::debug_string() const {
+BITLIB_CONSTEXPR_STRING std::string bit_vector<WordType, Allocator>::debug_string() const {
     auto first = begin();
     auto last = end();
     std::string ret = "";
@@ -701,5 +707,6 @@ constexpr std::string bit_vector<WordType, Allocator>::debug_string() const {
 
 // ========================================================================== //
 } // namespace bit
+#undef BITLIB_CONSTEXPR_STRING
 #endif // _BIT_VECTOR_HPP_INCLUDED
 // ========================================================================== //
-- 
2.43.0


From a60bab5ec271c47126bd5a5964146d6de1fc3687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 27/33] fix: portable count of bytes at odd addresses stays
 within the range

The loop over whole words starts at an aligned address, not at a multiple of
eight bytes from the beginning, so its bound let it count bytes behind the range.
---
 include/bitlib/bit-algorithms/libpopcnt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/libpopcnt.h b/include/bitlib/bit-algorithms/libpopcnt.h
index ffcd976..2624cce 100644
--- a/include/bitlib/bit-algorithms/libpopcnt.h
+++ b/include/bitlib/bit-algorithms/libpopcnt.h
@@ -740,7 +740,7 @@ static inline uint64_t popcnt(const void* data, uint64_t size)
     /* Align memory to an 8 byte boundary */
     for (; (uintptr_t)(ptr + i) % 8; i++)
       cnt += popcnt64(ptr[i]);
-    for (; i < size - size % 8; i += 8)
+    for (; i + 8 <= size; i += 8)
       cnt += popcnt64(*(const uint64_t*)(ptr + i));
   }
 #endif
@@ -779,7 +779,7 @@ static inline uint64_t popcnt(const void* data, uint64_t size)
      */
     for (; (uintptr_t)(ptr + i) % 8; i++)
       cnt += popcnt64(ptr[i]);
-    for (; i < size - size % 8; i += 8)
+    for (; i + 8 <= size; i += 8)
       cnt += popcnt64(*(const uint64_t*)(ptr + i));
   }
 
-- 
2.43.0


From edee1914af3f81b6fdc34824d2d26aff70dbb485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 28/33] fix: count loads words from any address without
 undefined behaviour

64-bit words were read through pointers to uint64_t whatever the alignment and
the type of the words counted.
---
 include/bitlib/bit-algorithms/libpopcnt.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/bitlib/bit-algorithms/libpopcnt.h b/include/bitlib/bit-algorithms/libpopcnt.h
index 2624cce..6f9191f 100644
--- a/include/bitlib/bit-algorithms/libpopcnt.h
+++ b/include/bitlib/bit-algorithms/libpopcnt.h
@@ -163,6 +163,17 @@ static inline uint64_t popcount64(uint64_t x)
   return (x * h01) >> 56;
 }
 
+/*
+ * Load of a word at an arbitrary address, whatever the
+ * type of the objects there.
+ */
+static inline uint64_t load64(const uint8_t* ptr)
+{
+  uint64_t val;
+  memcpy(&val, ptr, sizeof(val));
+  return val;
+}
+
 #if defined(HAVE_ASM_POPCNT) && \
     defined(__x86_64__)
 
@@ -630,7 +641,7 @@ static inline uint64_t popcnt(const void* data, uint64_t size)
     {
       /* We use unaligned memory accesses here to improve performance */
       for (; i < size - size % 8; i += 8)
-        cnt += popcnt64(*(const uint64_t*)(ptr + i));
+        cnt += popcnt64(load64(ptr + i));
       for (; i < size; i++)
         cnt += popcnt64(ptr[i]);
 
@@ -645,7 +656,7 @@ static inline uint64_t popcnt(const void* data, uint64_t size)
    * We use unaligned memory accesses here to improve performance.
    */
   for (; i < size - size % 8; i += 8)
-    cnt += popcount64(*(const uint64_t*)(ptr + i));
+    cnt += popcount64(load64(ptr + i));
 
   if (i < size)
   {
@@ -733,7 +744,7 @@ static inline uint64_t popcnt(const void* data, uint64_t size)
 #if defined(__ARM_FEATURE_UNALIGNED)
   /* We use unaligned memory accesses here to improve performance */
   for (; i < size - size % 8; i += 8)
-    cnt += popcnt64(*(const uint64_t*)(ptr + i));
+    cnt += popcnt64(load64(ptr + i));
 #else
   if (i + 8 <= size)
   {
@@ -741,7 +752,7 @@ static inline uint64_t popcnt(const void* data, uint64_t size)
     for (; (uintptr_t)(ptr + i) % 8; i++)
       cnt += popcnt64(ptr[i]);
     for (; i + 8 <= size; i += 8)
-      cnt += popcnt64(*(const uint64_t*)(ptr + i));
+      cnt += popcnt64(load64(ptr + i));
   }
 #endif
 
@@ -780,7 +791,7 @@ static inline uint64_t popcnt(const void* data, uint64_t size)
     for (; (uintptr_t)(ptr + i) % 8; i++)
       cnt += popcnt64(ptr[i]);
     for (; i + 8 <= size; i += 8)
-      cnt += popcnt64(*(const uint64_t*)(ptr + i));
+      cnt += popcnt64(load64(ptr + i));
   }
 
   for (; i < size; i++)
-- 
2.43.0


From d20a458758645cf7264652c140b91161ffb39141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:24 +0000
Subject: [PATCH 29/33] fix: count does not dereference the end of the words

When all whole words were done, or there were none, the address of the word at
the end was taken.
---
 include/bitlib/bit-algorithms/count.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index eb3b971..26d6d24 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -96,7 +96,7 @@ count(
             //);
 
             // libpopcnt
-            if (_is_contiguous(it, last.base())) {
+            if (it != last.base() && _is_contiguous(it, last.base())) {
                 result += popcnt(&*it, (digits / 8) * std::distance(it, last.base()));
             } else {
                 for (; it != last.base(); ++it) {
-- 
2.43.0


From 8e857b703e06fde1e031b3275d7ca40b4185614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:24 +0000
Subject: [PATCH 30/33] fix: SIMD transform does not dereference the end of the
 destination

---
 include/bitlib/bit-algorithms/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/transform.hpp b/include/bitlib/bit-algorithms/transform.hpp
index f8803df..7515fbb 100644
--- a/include/bitlib/bit-algorithms/transform.hpp
+++ b/include/bitlib/bit-algorithms/transform.hpp
@@ -91,7 +91,7 @@ constexpr bit_iterator<RandomAccessIt> transform(
                     *it = unary_op(*firstIt);
                 }
 
-                bool out_is_aligned = is_aligned(&*it, 64);
+                bool out_is_aligned = firstIt != last.base() && is_aligned(&*it, 64);
 
                 constexpr hn::ScalableTag<word_type> d;
                 for (; contiguous && std::distance(firstIt, last.base()) >= hn::Lanes(d); firstIt += hn::Lanes(d), it += hn::Lanes(d))
-- 
2.43.0


From 20e6bbe0f54378301cb508672a6a9f7e73d899a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:24 +0000
Subject: [PATCH 31/33] fix: shifts keep their iterators within the range

The position shifted from was computed before the count was checked, so that
counts far beyond the length moved iterators out of the sequence: with words in
a std::deque, this crashed.  shift_right also stepped before the first word.
---
 include/bitlib/bit-algorithms/shift.hpp | 28 ++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/bitlib/bit-algorithms/shift.hpp b/include/bitlib/bit-algorithms/shift.hpp
index b9dd033..28552ce 100644
--- a/include/bitlib/bit-algorithms/shift.hpp
+++ b/include/bitlib/bit-algorithms/shift.hpp
@@ -62,7 +62,6 @@ bit_iterator<RandomAccessIt> shift_left(
     auto d = bit::distance(first, last);
     const bool is_first_aligned = first.position() == 0;
     const bool is_last_aligned = last.position() == 0;
-    auto middle = first + n;
 
     // Out of range cases
     if (n <= 0) return last;
@@ -71,6 +70,7 @@ bit_iterator<RandomAccessIt> shift_left(
         //bit::fill(first, last, bit::bit0);    
         return first;
     }
+    auto middle = first + n;
 
     // Single word case
     // Triggered if all relevant bits are in first.base()
@@ -256,11 +256,11 @@ bit_iterator<RandomAccessIt> shift_right(
     const bool is_last_aligned = last.position() == 0;
     constexpr auto digits = binary_digits<word_type>::value;
     auto d = bit::distance(first, last);
-    bit_iterator<RandomAccessIt> middle = last - n;
 
     // Out of range cases
     if (n <= 0) return first;
     else if (n >= d) return last;
+    bit_iterator<RandomAccessIt> middle = last - n;
 
     // Single word case
     if (std::next(first.base(), is_last_aligned) == last.base()) {
@@ -327,7 +327,7 @@ bit_iterator<RandomAccessIt> shift_right(
         const bool contiguous = _is_contiguous(first.base(), last.base());
         // Align to 64 bit boundary
         const hn::ScalableTag<word_type> d;
-        while (contiguous && std::prev(middle.base()) > first.base() && !is_aligned(&*(last.base() - hn::Lanes(d)), 64)) {
+        while (contiguous && std::prev(middle.base()) > first.base() && !is_aligned(&*std::prev(last.base()) + 1, 64)) {
             *std::prev(last.base()) = _shrd<word_type>(*std::prev(middle.base()), *middle.base(), offset);
             last -= digits;
             middle -= digits;
@@ -349,24 +349,24 @@ bit_iterator<RandomAccessIt> shift_right(
         }
 #endif
 
-        auto last_base_prev   = std::prev(last.base());
-        auto middle_base_prev = std::prev(middle.base());
+        auto last_base   = last.base();
+        auto middle_base = middle.base();
 
-        while (middle_base_prev > first.base()) {
-            *last_base_prev = _shrd<word_type>(*middle_base_prev, *std::next(middle_base_prev), offset);
-            last_base_prev--;
-            middle_base_prev--;
+        while (std::prev(middle_base) > first.base()) {
+            --last_base;
+            --middle_base;
+            *last_base = _shrd<word_type>(*middle_base, *std::next(middle_base), offset);
         }
 
         if (first.position() <= middle.position())
         {
-            *last_base_prev = _shrd<word_type>(*middle_base_prev, *std::next(middle_base_prev), offset);
-            last_base_prev--;
-            middle_base_prev--;
+            --last_base;
+            --middle_base;
+            *last_base = _shrd<word_type>(*middle_base, *std::next(middle_base), offset);
         }
 
-        last = bit_iterator<RandomAccessIt>(std::next(last_base_prev), last.position());
-        middle = bit_iterator<RandomAccessIt>(std::next(middle_base_prev), middle.position());
+        last = bit_iterator<RandomAccessIt>(last_base, last.position());
+        middle = bit_iterator<RandomAccessIt>(middle_base, middle.position());
     }
 
     if (first.position() != middle.position())
-- 
2.43.0


From 94890f4abd3c401303c131c83158e93335d9e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:24 +0000
Subject: [PATCH 32/33] fix: erase of one bit returns a valid iterator

---
 include/bitlib/bit-containers/bit_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index a2df782..46f265d 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -603,12 +603,13 @@ bit_vector<WordType, Allocator>::insert(
 template<class WordType, class Allocator>
 constexpr typename bit_vector<WordType, Allocator>::iterator
 bit_vector<WordType, Allocator>::erase(iterator pos) {
+    const auto d = distance(begin(), pos);
     shift_left(pos, begin() + length_, 1);
     length_ -= 1;
     if (length_ % digits == 0) {
         word_vector.pop_back();
     }
-    return pos;
+    return begin() + d;
 }
 
 template<class WordType, class Allocator>
-- 
2.43.0


From 38c40e62a10b4153bc8dcc0cfea45259e6297a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:11 +0000
Subject: [PATCH 33/33] fix: copy_backward stays within the words of the
 destination

---
 include/bitlib/bit-algorithms/copy_backward.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/copy_backward.hpp b/include/bitlib/bit-algorithms/copy_backward.hpp
index c4ed25f..b700bf9 100644
--- a/include/bitlib/bit-algorithms/copy_backward.hpp
+++ b/include/bitlib/bit-algorithms/copy_backward.hpp
@@ -76,7 +76,6 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
             it = ::std::copy_backward(first.base() + 1, last.base(), it);
             last -= digits * N;
             remaining_bits_to_copy -= digits * N;
-            it--;
         } else {
             // TODO benchmark if its faster to ::std::copy the entire range then shift
             while (remaining_bits_to_copy >= digits) {
@@ -84,9 +83,9 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
                 remaining_bits_to_copy -= digits;
                 advance(last, -digits);
             }
-            it--;
         }
         if (remaining_bits_to_copy > 0) {
+            it--;
             *it = _bitblend<word_type>(
                     *it,
                     get_word<word_type>(last - remaining_bits_to_copy, remaining_bits_to_copy)
-- 
2.43.0

