From d20a8db56749e6ea6df4040b5e3ba9fe52fd705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 01/68] fix: aborting a transaction that queued nothing leaves
 the output buffer alone

Dropping zero bytes from a full ring buffer emptied it, so the abort wiped replies that were already committed.
---
 src/spine/io/stream/transaction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/io/stream/transaction.cpp b/src/spine/io/stream/transaction.cpp
index 605ee0a..8c95ff8 100644
--- a/src/spine/io/stream/transaction.cpp
+++ b/src/spine/io/stream/transaction.cpp
@@ -56,6 +56,7 @@ void Transaction::finalize() {
 bool Transaction::is_finalized() const { return _is_finalized; }
 void Transaction::undo(size_t n_bytes) const {
     n_bytes = n_bytes > 0 ? std::min(n_bytes, _outgoing_queued_bytes) : _outgoing_queued_bytes;
+    if (n_bytes == 0) return; // nothing was queued by this transaction
     _stream->output_buffer_drop_last(n_bytes);
 }
 
-- 
2.43.0


From e807b5363388d06ce49848aceac534ca560039a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 02/68] fix: RingBuffer::drop_last/drop_first with n = 0 drop
 all elements, as documented

They dropped nothing, or emptied a full buffer while reporting that nothing was dropped.
---
 src/spine/structure/ringbuffer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 81472bc..66c34f9 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -150,7 +150,8 @@ bool RingBuffer<T>::peek_at(T** ptr, size_t index) {
 
 template<typename T>
 size_t RingBuffer<T>::drop_last(size_t n) {
-    n = std::min(used_space(), n);
+    n = n == 0 ? used_space() : std::min(used_space(), n);
+    if (n == 0) return 0;
     retract_head(n);
 
     m_is_full = false;
@@ -160,7 +161,8 @@ size_t RingBuffer<T>::drop_last(size_t n) {
 
 template<typename T>
 size_t RingBuffer<T>::drop_first(size_t n) {
-    n = std::min(used_space(), n);
+    n = n == 0 ? used_space() : std::min(used_space(), n);
+    if (n == 0) return 0;
     advance_tail(n);
 
     m_is_full = false;
-- 
2.43.0


From 75f7562897dc68ae97aa964c35a9c66f7fbaeaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 03/68] fix: RingBuffer::drop_last no longer wraps the overrun
 count below zero

---
 src/spine/structure/ringbuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 66c34f9..ddbf9ff 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -155,7 +155,7 @@ size_t RingBuffer<T>::drop_last(size_t n) {
     retract_head(n);
 
     m_is_full = false;
-    m_overwritten = std::max(static_cast<size_t>(0), m_overwritten - n);
+    m_overwritten -= std::min(m_overwritten, n);
     return n;
 }
 
-- 
2.43.0


From 61a2c2cc9f0aff5b9e3148fa10a4c128ed206023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 04/68] fix: RingBuffer counts overwritten elements for a
 capacity of one as well

---
 src/spine/structure/ringbuffer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index ddbf9ff..37729cb 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -81,11 +81,11 @@ bool RingBuffer<T>::push(const T& value, bool rollover) {
     if (m_is_full && !rollover) return false;
     m_buffer[m_head] = value;
     m_head = (m_head + 1) % m_buffer.size();
-    if (m_head == m_tail) {
-        m_is_full = true;
-    } else if (m_is_full) {
-        m_tail = (m_tail + 1) % m_buffer.size();
+    if (m_is_full) {
+        m_tail = m_head;
         ++m_overwritten;
+    } else if (m_head == m_tail) {
+        m_is_full = true;
     }
     return true;
 }
-- 
2.43.0


From 3f59377176477b01455c554e977e2800a9ddc02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 05/68] fix: LineBuffer views no longer read past the storage
 when the line wraps around

---
 src/spine/structure/linebuffer.cpp |  1 +
 src/spine/structure/ringbuffer.hpp | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/spine/structure/linebuffer.cpp b/src/spine/structure/linebuffer.cpp
index 960d3a7..483a4bf 100644
--- a/src/spine/structure/linebuffer.cpp
+++ b/src/spine/structure/linebuffer.cpp
@@ -13,6 +13,7 @@ std::optional<std::string_view> LineBuffer::get_next_line_view(const std::option
     auto length = discovered_length.value_or(length_of_next_line());
     if (length == 0) return {};
     length -= 1; // ignore delimiter
+    if (!is_contiguous(length)) linearize(); // a view cannot wrap around
     char* str;
     if (peek_at(&str, 0) == false) return std::nullopt;
     return std::string_view(str, length);
diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 37729cb..73453e6 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -3,6 +3,8 @@
 #include "spine/core/debugging.hpp"
 #include "spine/structure/array.hpp"
 
+#include <algorithm>
+
 namespace spn::structure {
 
 template<typename T>
@@ -67,6 +69,17 @@ protected:
     /// Pull the writing head backwards by `n`, effectively dropping `n` last inserted  elements
     void retract_head(size_t n) { m_head = (m_head + m_buffer.size() - (n % m_buffer.size())) % m_buffer.size(); }
 
+    /// Returns true if the first `n` elements are stored without wrapping around the end of the storage
+    bool is_contiguous(size_t n) const { return m_tail + n <= m_buffer.size(); }
+
+    /// Move the elements to the start of the storage, such that they are stored without wrapping around its end
+    void linearize() {
+        const auto used = used_space();
+        std::rotate(m_buffer.data(), m_buffer.data() + m_tail, m_buffer.data() + m_buffer.size());
+        m_tail = 0;
+        m_head = used % m_buffer.size();
+    }
+
 private:
     Array<T> m_buffer;
     size_t m_head{0};
-- 
2.43.0


From 7eadd931a8ab5ae02be459e731f34193bcf9411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 06/68] fix: BufferedStream input never overwrites a complete
 line after an earlier overrun

---
 src/spine/io/stream/buffered_stream.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index 8606fcd..dc61f03 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -29,12 +29,8 @@ size_t BufferedStream::pull_in_data() {
 
     while (_stream->available() > 0) {
         // early break when a delimiter has been found, as to lose no input if possible
-        if (_input_buffer.full()) {
-            if (_input_buffer.delimiters().find(last_char) != std::string::npos)
-                break; // break when the last incoming was a delimiter
-            if (_input_buffer.overrun_space() == 0 && _input_buffer.has_line())
-                break; // break when the buffer just turned full and the buffer already contains a line
-        }
+        if (_input_buffer.full() && _input_buffer.has_line())
+            break; // reading on would overwrite (part of) a complete line
 
         if (!_stream->read(last_char)) {
             return bytes_read; // read failure
-- 
2.43.0


From 652a44b986290e77353fff5d38496b84f71152a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 07/68] fix: BufferedStream keeps a byte queued when the
 underlying stream fails to write it

---
 src/spine/io/stream/buffered_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index dc61f03..1d37056 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -46,7 +46,8 @@ size_t BufferedStream::push_out_data() {
 
     while (_stream->available_for_write() > 0) {
         char v;
-        if (!_output_buffer.pop(v) || !_stream->write(v)) return bytes_written;
+        if (!_output_buffer.peek_at(v, 0) || !_stream->write(v)) return bytes_written;
+        _output_buffer.pop(); // only give up the byte once it has been written
         ++bytes_written;
     }
     return bytes_written;
-- 
2.43.0


From f8bfbe8b3ba38484e31a15684affe889e1667eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 08/68] fix: Transaction accepts a reply that fills the output
 buffer exactly

---
 src/spine/io/stream/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/io/stream/transaction.cpp b/src/spine/io/stream/transaction.cpp
index 8c95ff8..b489b8e 100644
--- a/src/spine/io/stream/transaction.cpp
+++ b/src/spine/io/stream/transaction.cpp
@@ -25,7 +25,7 @@ size_t Transaction::outgoing(char value) {
 }
 size_t Transaction::outgoing(const char* buffer, size_t length) {
     spn_assert(!is_finalized());
-    spn_assert(outgoing_space_left() > length); // todo: instead make it optional to flush out bytes in between
+    spn_assert(outgoing_space_left() >= length); // todo: instead make it optional to flush out bytes in between
     length = std::min(outgoing_space_left(), length);
     size_t bytes_written = _stream->buffered_write(buffer, length);
     _outgoing_queued_bytes += bytes_written;
-- 
2.43.0


From f963358c483782a2f7f8ba7938f822d446fb1e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:39 +0000
Subject: [PATCH 09/68] fix: Vector::pop_back of the only element returns that
 element wherever it is stored

---
 src/spine/structure/vector.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 4ed5d8c..726beb3 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -158,14 +158,13 @@ T& Vector<T>::peek_back() const {
 template<typename T>
 [[nodiscard]] T&& Vector<T>::pop_back() {
     spn_assert(size() > 0);
-    if (m_tail > 0) {
-        m_tail--;
-        if (m_tail == m_head) {
-            m_tail = 0;
-            m_head = 0;
-        }
+    if (m_tail > 0) m_tail--;
+    const auto cur_tail = m_tail;
+    if (m_tail == m_head) {
+        m_tail = 0;
+        m_head = 0;
     }
-    return std::move(this->m_store[m_tail]);
+    return std::move(this->m_store[cur_tail]);
 }
 
 template<typename T>
-- 
2.43.0


From fa867a904f3b809edd1c2d30773170a1fa55b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:44 +0000
Subject: [PATCH 10/68] fix: Vector::remove removes by position and leaves no
 second copy of the last element behind

---
 src/spine/structure/vector.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 726beb3..81881a8 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -242,19 +242,18 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
 
 template<typename T>
 T Vector<T>::remove(ArrayBase::Size index) {
-    if (index == m_head) {
+    if (index == 0) {
         return std::move(pop_front());
     }
-    if (index == m_tail) {
+    if (index == size()) {
         return std::move(pop_back());
     }
-    if (index > m_head && index < m_tail) {
-        auto removed = std::move(this->m_store[index]);
-        memmove(&this->m_store[index], &this->m_store[index + 1], (m_tail-- - index) * sizeof(T));
-        if (m_tail == m_head) {
-            m_tail = 0;
-            m_head = 0;
-        }
+    if (index < size()) {
+        const auto idx = m_head + index;
+        auto removed = std::move(this->m_store[idx]);
+        --m_tail;
+        memmove((char*)&this->m_store[idx], (char*)&this->m_store[idx + 1], (m_tail - idx) * sizeof(T));
+        memset((char*)&this->m_store[m_tail], '\0', sizeof(T)); // the element there was moved, not copied
         return removed;
     }
     spn_assert(!"remove was called with illegal index");
-- 
2.43.0


From 7e1c7e4dd2ae83ac64dbca086e5358e325cc379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:49 +0000
Subject: [PATCH 11/68] fix: Vector front, at, data and const iterators show
 the elements instead of the raw storage

---
 src/spine/structure/vector.hpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 81881a8..57fd26f 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -53,18 +53,28 @@ public:
 
     void clear();
 
+    T& at(Size index) const;
+    T& front();
     T& back();
+    T* data();
+    const T* data() const;
 
     typename Array<T>::iterator begin();
     typename Array<T>::const_iterator begin() const;
     typename Array<T>::iterator end();
     typename Array<T>::const_iterator end() const;
 
+    typename Array<T>::const_iterator cbegin() const { return begin(); }
+    typename Array<T>::const_iterator cend() const { return end(); }
+
     typename Array<T>::reverse_iterator rbegin();
     typename Array<T>::reverse_iterator rend();
     typename Array<T>::const_reverse_iterator rbegin() const;
     typename Array<T>::const_reverse_iterator rend() const;
 
+    typename Array<T>::const_reverse_iterator crbegin() const { return rbegin(); }
+    typename Array<T>::const_reverse_iterator crend() const { return rend(); }
+
     bool empty() const;
     bool full() const;
     Size size() const;
@@ -267,6 +277,27 @@ void Vector<T>::clear() {
     }
 }
 
+template<typename T>
+T& Vector<T>::at(ArrayBase::Size index) const {
+    spn_assert(m_head + index < m_tail);
+    return Array<T>::at(m_head + index);
+}
+
+template<typename T>
+T& Vector<T>::front() {
+    return this->m_store[m_head];
+}
+
+template<typename T>
+T* Vector<T>::data() {
+    return this->m_store + m_head;
+}
+
+template<typename T>
+const T* Vector<T>::data() const {
+    return this->m_store + m_head;
+}
+
 template<typename T>
 T& Vector<T>::back() {
     return this->m_store[m_tail > 0 ? m_tail - 1 : 0];
-- 
2.43.0


From 1d66adc5f3871709c8b6276c400b9f4c3d05df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:57 +0000
Subject: [PATCH 12/68] fix: Array and Vector swap exchange length and
 ownership along with the storage

---
 src/spine/structure/array.hpp  | 7 ++++---
 src/spine/structure/vector.hpp | 8 ++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 83df11f..2bf28f9 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <initializer_list>
+#include <utility>
 
 namespace spn::structure {
 
@@ -318,9 +319,9 @@ ArrayBase::Size Array<T>::max_size() const {
 
 template<typename T>
 void Array<T>::swap(Array& other) noexcept {
-    T* tmp = this->m_store;
-    this->m_store = other.m_store;
-    other.m_store = tmp;
+    std::swap(m_store, other.m_store);
+    std::swap(m_max_size, other.m_max_size);
+    std::swap(m_store_is_internal, other.m_store_is_internal);
 }
 
 template<typename T>
diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 57fd26f..a983a84 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -79,6 +79,7 @@ public:
     bool full() const;
     Size size() const;
 
+    void swap(Vector& other) noexcept;
     void fill(const T& value);
 
 private:
@@ -364,6 +365,13 @@ bool Vector<T>::full() const {
     return size() == this->m_max_size;
 }
 
+template<typename T>
+void Vector<T>::swap(Vector& other) noexcept {
+    Array<T>::swap(other);
+    std::swap(m_head, other.m_head);
+    std::swap(m_tail, other.m_tail);
+}
+
 template<typename T>
 void Vector<T>::fill(const T& value) {
     Array<T>::fill(value);
-- 
2.43.0


From 729e7c04df60c6a93eb760b8e9d35070994240d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:06 +0000
Subject: [PATCH 13/68] fix: constant reverse iteration over an Array visits
 its elements

---
 src/spine/structure/array.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 2bf28f9..003b932 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -282,22 +282,22 @@ typename Array<T>::reverse_iterator Array<T>::rend() {
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 /* utility */
-- 
2.43.0


From 51954f765fbe5075bdd56de794cd7a705363dcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:40 +0000
Subject: [PATCH 14/68] fix: post-increment and post-decrement of Array
 iterators return the previous position

---
 src/spine/structure/array.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 003b932..bdbbbbf 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -358,8 +358,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator++() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator++(int) {
-    m_index++;
-    return *this;
+    auto previous = *this;
+    ++*this;
+    return previous;
 }
 
 template<typename T>
@@ -370,8 +371,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator--() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator--(int) {
-    m_index--;
-    return *this;
+    auto previous = *this;
+    --*this;
+    return previous;
 }
 
 template<typename T>
@@ -409,8 +411,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator++() {
 
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator++(int) {
-    --this->m_index;
-    return *this;
+    auto previous = *this;
+    ++*this;
+    return previous;
 }
 template<typename T>
 ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
@@ -419,8 +422,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
 }
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator--(int) {
-    ++this->m_index;
-    return *this;
+    auto previous = *this;
+    --*this;
+    return previous;
 }
 
 } // namespace spn::structure
-- 
2.43.0


From 7ce9289fe4ccf2a0e240711a903b54588553491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:49 +0000
Subject: [PATCH 15/68] fix: Array destroys the elements of its own store along
 with it

---
 src/spine/structure/array.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index bdbbbbf..7ce89ee 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -113,6 +113,15 @@ protected:
     Size m_max_size;
 
 private:
+    /// Destroy the elements and free the store, if it belongs to this array
+    void release() noexcept {
+        if (!m_store_is_internal || m_store == nullptr) return;
+        for (Size i = 0; i < m_max_size; ++i)
+            m_store[i].~T();
+        std::free((void*)m_store);
+        m_store = nullptr;
+    }
+
     bool m_store_is_internal;
 };
 
@@ -148,10 +157,7 @@ Array<T>::Array(const std::initializer_list<T>& init_values) : Array(init_values
 
 template<typename T>
 Array<T>::~Array() {
-    if (m_store_is_internal) {
-        std::free(m_store);
-        m_store = nullptr;
-    }
+    release();
 }
 
 template<typename T>
@@ -170,6 +176,7 @@ Array<T>::Array(Array&& other) noexcept
 template<typename T>
 Array<T>& Array<T>::operator=(const Array& other) {
     if (this == &other) return *this;
+    if (m_store != other.m_store) release();
     ArrayBase::operator=(other);
     m_store = other.m_store;
     m_max_size = other.m_max_size;
@@ -180,6 +187,7 @@ Array<T>& Array<T>::operator=(const Array& other) {
 template<typename T>
 Array<T>& Array<T>::operator=(Array&& other) noexcept {
     if (this == &other) return *this;
+    if (m_store != other.m_store) release();
     ArrayBase::operator=(std::move(other));
     m_store = other.m_store;
     other.m_store = nullptr;
@@ -190,9 +198,6 @@ Array<T>& Array<T>::operator=(Array&& other) noexcept {
 
 template<typename T>
 Array<T>& Array<T>::operator=(const std::initializer_list<T>& value_list) noexcept {
-    if (m_store_is_internal) {
-        std::free(m_store);
-    }
     *this = Array<T>(value_list);
     return *this;
 }
-- 
2.43.0


From 9ec8414177f890dcf0e6f1e0a1d081c2b5558a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:29 +0000
Subject: [PATCH 16/68] fix: a moved-from Array or Vector is empty instead of
 claiming elements it no longer has

---
 src/spine/structure/array.hpp  |  2 ++
 src/spine/structure/vector.hpp | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 7ce89ee..1fbcec5 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -171,6 +171,7 @@ Array<T>::Array(Array&& other) noexcept
     : ArrayBase(std::move(other)), m_store(other.m_store), m_max_size(other.m_max_size),
       m_store_is_internal(other.m_store_is_internal) {
     other.m_store = nullptr;
+    other.m_max_size = 0;
 }
 
 template<typename T>
@@ -192,6 +193,7 @@ Array<T>& Array<T>::operator=(Array&& other) noexcept {
     m_store = other.m_store;
     other.m_store = nullptr;
     m_max_size = other.m_max_size;
+    other.m_max_size = 0;
     m_store_is_internal = other.m_store_is_internal;
     return *this;
 }
diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index a983a84..bbce09b 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -25,7 +25,11 @@ public:
     Vector(T (&store)[CAP], Size size = 0);
     Vector(Size max_size, T init_value);
     Vector(const std::initializer_list<T>& value_list);
+    Vector(const Vector& other) = default;
+    Vector(Vector&& other) noexcept;
 
+    Vector& operator=(const Vector& other) = default;
+    Vector& operator=(Vector&& other) noexcept;
     Vector& operator=(const std::initializer_list<T>& value_list) noexcept;
 
     T& operator[](Size index);
@@ -129,6 +133,19 @@ template<typename T>
 template<ArrayBase::Size CAP>
 Vector<T>::Vector(T (&store)[CAP], ArrayBase::Size size) : Array<T>(store), m_tail(size) {}
 
+template<typename T>
+Vector<T>::Vector(Vector&& other) noexcept
+    : Array<T>(std::move(other)), m_head(std::exchange(other.m_head, 0)), m_tail(std::exchange(other.m_tail, 0)) {}
+
+template<typename T>
+Vector<T>& Vector<T>::operator=(Vector&& other) noexcept {
+    if (this == &other) return *this;
+    Array<T>::operator=(std::move(other));
+    m_head = std::exchange(other.m_head, 0);
+    m_tail = std::exchange(other.m_tail, 0);
+    return *this;
+}
+
 template<typename T>
 T& Vector<T>::operator[](ArrayBase::Size index) {
     spn_assert(m_head + index < m_tail);
-- 
2.43.0


From 19963c6e538e3fdb40e82ecb7ee323f127e240fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:32 +0000
Subject: [PATCH 17/68] fix: destroying a Pool releases all of its objects
 instead of half of them

---
 src/spine/structure/pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 38068ba..52c18bf 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -16,7 +16,7 @@ protected:
 public:
     Pool(size_t size) : _pointers(Vector<Pointer>(size)) {}
     ~Pool() {
-        for (size_t i = 0; i < _pointers.size(); ++i)
+        while (!_pointers.empty())
             depopulate().reset();
         spn_assert(_pointers.empty());
     }
-- 
2.43.0


From 07e79aeba66ad4afe6835b3a50bf59ec075a437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:35 +0000
Subject: [PATCH 18/68] fix: Pool::acquire terminates for pools of more than
 65535 objects

---
 src/spine/structure/pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 52c18bf..633005f 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -84,7 +84,7 @@ protected:
     Vector<Pointer> _pointers;
 
 private:
-    uint16_t _lookup_index = 0;
+    size_t _lookup_index = 0;
 };
 
 } // namespace spn::structure
-- 
2.43.0


From bdce62b9c0615e249a35815e61b22ad7852b9ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:09 +0000
Subject: [PATCH 19/68] fix: integer units convert, add and compare exactly
 instead of through a float

---
 src/spine/structure/units/primitives/unit.hpp | 36 +++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 04ae1f7..9baa194 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -1,9 +1,11 @@
 #pragma once
 
 #include "spine/core/exception.hpp"
+#include "spine/structure/units/primitives/raw_types.hpp"
 
 #include <cmath>
 #include <cstdint>
+#include <numeric>
 #include <type_traits>
 
 namespace spn::structure::units {
@@ -137,9 +139,37 @@ private:
 
     template<typename MOther>
     ValueType from_other(const Unit<UT, MOther, VT>& other) const {
-        constexpr float ratio = MOther::Magnitude / MT::Magnitude;
-        if constexpr (is_integral()) return std::round(ratio * other.raw());
-        return ratio * other.raw();
+        if constexpr (is_integral()) {
+            // integers are converted in integer arithmetic, since a float is exact up to 2^24 only
+            constexpr auto divisor = std::gcd(multiple<MOther>() * fraction<MT>(), fraction<MOther>() * multiple<MT>());
+            constexpr auto numerator = multiple<MOther>() * fraction<MT>() / divisor;
+            constexpr auto denominator = fraction<MOther>() * multiple<MT>() / divisor;
+
+            const auto scaled = static_cast<IntegerRawType>(other.raw()) * numerator;
+            const auto remainder = scaled % denominator;
+            auto value = scaled / denominator;
+            // round to nearest, half away from zero
+            if (remainder > 0 && remainder >= denominator - remainder) value++;
+            if (remainder < 0 && -remainder >= denominator + remainder) value--;
+            return static_cast<ValueType>(value);
+        } else {
+            constexpr float ratio = MOther::Magnitude / MT::Magnitude;
+            return ratio * other.raw();
+        }
+    }
+
+    /// The amount of base units in one unit of magnitude M (1 for the magnitudes smaller than the base)
+    template<typename M>
+    static constexpr IntegerRawType multiple() {
+        return M::Magnitude < 1.0f ? 1 : static_cast<IntegerRawType>(M::Magnitude);
+    }
+
+    /// The amount of units of magnitude M in one base unit (1 for the magnitudes larger than the base)
+    template<typename M>
+    static constexpr IntegerRawType fraction() {
+        IntegerRawType count = 1;
+        while (count * M::Magnitude < 0.5f) count *= 10;
+        return count;
     }
 };
 
-- 
2.43.0


From 51047793a8579a3e57ea9a57d06732008bf54d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:39 +0000
Subject: [PATCH 20/68] fix: the native clock shows microsecond delays in
 milliseconds and the other way around exactly

---
 src/spine/platform/implementations/mock.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index fd890e9..2322f97 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -217,8 +217,8 @@ struct Mock : Platform<Mock, MockConfig, MockGPIO, MockAnalogue, MockUART> {
 
     static void printflush() {}
 
-    static k_time_ms millis() { return k_time_ms(MockStateInstance().millis + MockStateInstance().micros / 1000); }
-    static k_time_us micros() { return k_time_us(MockStateInstance().micros + MockStateInstance().millis * 1000); }
+    static k_time_ms millis() { return MockStateInstance().millis + k_time_ms(MockStateInstance().micros.raw() / 1000); }
+    static k_time_us micros() { return MockStateInstance().micros + MockStateInstance().millis; }
     static void delay_us(k_time_us us) { MockStateInstance().micros += us; }
     static void delay_ms(k_time_ms ms) { MockStateInstance().millis += ms; }
 
-- 
2.43.0


From 3546b1cd3d2b0c33372e197efb00598135b7a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:39 +0000
Subject: [PATCH 21/68] fix: EventSystem::loop honours the maximum delay
 between ticks instead of 1000 times that

---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 4c6337c..74989d7 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -81,7 +81,7 @@ void EventSystem::loop() {
 
     if (_cfg.delay_between_ticks) {
         if (_pipeline.contains_futures())
-            HAL::delay_ms(std::min(_pipeline.time_until_next_future().raw(), _cfg.max_delay_between_ticks.raw()));
+            HAL::delay(std::min(_pipeline.time_until_next_future(), k_time_ms(_cfg.max_delay_between_ticks)));
         else
             HAL::delay(_cfg.min_delay_between_ticks);
     }
-- 
2.43.0


From 7373012fc9227e47d92c82776b0841db0020cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:39 +0000
Subject: [PATCH 22/68] fix: destroying an EventSystem releases all of its
 events instead of half of them

---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 74989d7..fb0ee37 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -48,7 +48,7 @@ EventSystem::~EventSystem() {
     for (size_t i = 0; i < _map.size(); i++) {
         _map[i].reset();
     }
-    for (size_t i = 0; i < _store.size(); ++i) {
+    while (_store.size() > 0) {
         auto ev = _store.depopulate();
         ev.reset();
     }
-- 
2.43.0


From a03b28e2a30790851eb5b34d40fffc4cdb6870a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:39 +0000
Subject: [PATCH 23/68] fix: triggering by id with no event left does nothing
 instead of crashing

---
 src/spine/eventsystem/eventsystem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index fb0ee37..921b910 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -56,7 +56,9 @@ EventSystem::~EventSystem() {
 }
 
 void EventSystem::trigger(const std::shared_ptr<Event>& event) {
-    spn_assert(event);
+    spn_assert(event); // catch gracefully here for use in nested calls
+    if (!event) return;
+
     trigger(*event.get());
 }
 
-- 
2.43.0


From 83bb24c124e71871d784a25190b33043d956433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:39 +0000
Subject: [PATCH 24/68] fix: scheduling by id with no event left does nothing
 instead of crashing

---
 src/spine/eventsystem/eventsystem.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.hpp b/src/spine/eventsystem/eventsystem.hpp
index d6c51ee..1946c97 100644
--- a/src/spine/eventsystem/eventsystem.hpp
+++ b/src/spine/eventsystem/eventsystem.hpp
@@ -152,7 +152,10 @@ public:
     }
 
     /// Schedule a provided event
-    void schedule(std::shared_ptr<Event>&& event) { _pipeline.push(std::move(event)); }
+    void schedule(std::shared_ptr<Event>&& event) {
+        if (!event) return; // no event was left in the store
+        _pipeline.push(std::move(event));
+    }
 
     /// Main loop of event system. It is crucial that this loop is called often enough to fire events in time
     void loop();
-- 
2.43.0


From 6d23eb5e32fe028add0883967baa5c5fea00464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 25/68] fix: Schedule::start_of_next_block finds the earliest
 next start whatever the order of the blocks

---
 src/spine/structure/time/schedule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/time/schedule.cpp b/src/spine/structure/time/schedule.cpp
index 487c0b0..1c70fc3 100644
--- a/src/spine/structure/time/schedule.cpp
+++ b/src/spine/structure/time/schedule.cpp
@@ -23,10 +23,11 @@ float Schedule::value_at(const k_time_s t) const {
 }
 
 k_time_s Schedule::start_of_next_block(const k_time_s t) const {
+    k_time_s next = k_time_h(24);
     for (auto& b : _blocks) {
-        if (t < b.start) return b.start;
+        if (t < b.start && b.start < next) next = b.start;
     }
-    return k_time_h(24);
+    return next;
 }
 
 } // namespace spn::structure::time
-- 
2.43.0


From 9c49058d804de6dc91f750d4a6303a8a8070c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 26/68] fix: SRLatch readings that confirm the state do not
 restart its maximum time

---
 src/spine/controller/sr_latch.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/controller/sr_latch.hpp b/src/spine/controller/sr_latch.hpp
index 1e6f2c1..fc0a5f5 100644
--- a/src/spine/controller/sr_latch.hpp
+++ b/src/spine/controller/sr_latch.hpp
@@ -35,6 +35,7 @@ public:
 
 protected:
     void set(const State state) {
+        if (state == _value) return; // confirming the present state does not extend it
         _value = state;
         _last_turned.reset();
     }
-- 
2.43.0


From 9e6e7afc6e2fbeff223cdab368b8f3f6b60fe0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:13 +0000
Subject: [PATCH 27/68] fix: PID applies the configured proportionality instead
 of always on measurement

---
 src/spine/controller/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/pid.cpp b/src/spine/controller/pid.cpp
index 3b4334b..0d145bb 100644
--- a/src/spine/controller/pid.cpp
+++ b/src/spine/controller/pid.cpp
@@ -5,7 +5,7 @@ namespace spn::controller {
 PID::PID(PID::Config&& cfg)
     : _cfg(cfg),
       _pid_backend(PIDController(&_input, &_output, &_setpoint, _cfg.tunings.Kp, _cfg.tunings.Ki, _cfg.tunings.Kd,
-                                 PIDController::Proportionality::ON_MEASUREMENT, _cfg.direction)) {
+                                 _cfg.proportionality, _cfg.direction)) {
     spn_assert(k_time_ms(_cfg.sample_interval).raw() > 0);
 }
 
-- 
2.43.0


From c2641c85ab6e1d6983ca993d6d054d8f49b55ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:13 +0000
Subject: [PATCH 28/68] fix: changing the PID sampling time keeps the tunings
 for non-multiples of the previous one

---
 src/spine/controller/implementations/pid/pid_controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/implementations/pid/pid_controller.cpp b/src/spine/controller/implementations/pid/pid_controller.cpp
index 6737297..2aafb8b 100644
--- a/src/spine/controller/implementations/pid/pid_controller.cpp
+++ b/src/spine/controller/implementations/pid/pid_controller.cpp
@@ -111,7 +111,7 @@ void PIDController::set_controller_direction(const PIDController::Direction dire
 void PIDController::set_sampling_time(const k_time_ms sampling_time) {
     // adjust sample
     if (sampling_time > k_time_ms(0)) {
-        float ratio = sampling_time.raw() / _sampling_time.raw();
+        float ratio = sampling_time.raw<float>() / _sampling_time.raw<float>();
         _ki *= ratio;
         _kd /= ratio;
         _sampling_time = sampling_time;
-- 
2.43.0


From b6f899ceca8c29a198108f6f9e13ce140b937ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 29/68] fix: filter::Stack::detach_filter compiles and detaches
 the filter at the index

---
 src/spine/filter/filterstack.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 1baa066..54973cb 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -24,7 +24,10 @@ public:
     /// Detach a filter for a provided slot's index
     std::unique_ptr<Filter<ValueType>> detach_filter(uint8_t index) {
         spn_expect(index < _filters.size());
-        return index < _filters.size() ? _filters.remove(index) : nullptr;
+        if (index >= _filters.size()) return nullptr;
+        auto filter = std::move(_filters[index]);
+        _filters.erase(_filters.begin() + index);
+        return filter;
     }
 
     /// Take a new sample, returns filtered value
-- 
2.43.0


From 253e021c71b2c026f33429b7804ab2b0d264d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 30/68] fix: filter::Stack is limited to the slots it was made
 with and reports those

---
 src/spine/filter/filterstack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 54973cb..37e4c48 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -17,8 +17,8 @@ public:
 
     /// Attach a filter to the provided slot's index
     void attach_filter(std::unique_ptr<Filter<ValueType>> filter) {
-        spn_expect(_filters.size() < _filters.max_size());
-        if (_filters.size() < _filters.max_size()) _filters.emplace_back(std::move(filter));
+        spn_expect(_filters.size() < filter_slots());
+        if (_filters.size() < filter_slots()) _filters.emplace_back(std::move(filter));
     }
 
     /// Detach a filter for a provided slot's index
@@ -54,7 +54,7 @@ public:
     }
 
     /// Returns count of pre-allocated filter slots
-    size_t filter_slots() const { return _filters.max_size(); }
+    size_t filter_slots() const { return _filters.capacity(); }
 
     /// Returns count of occupied filter slots
     size_t filter_slots_occupied() const { return _filters.size(); }
-- 
2.43.0


From 992d43738a52523da8a0859b0003720269c8268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 31/68] fix: filter::Stack takes samples in its own value type
 instead of through a float

---
 src/spine/filter/filterstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 37e4c48..f07451b 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -31,7 +31,7 @@ public:
     }
 
     /// Take a new sample, returns filtered value
-    ValueType value(const float new_sample) {
+    ValueType value(const ValueType new_sample) {
         ValueType new_value = new_sample;
         for (auto& sf : _filters) {
             spn_assert(sf.get() != nullptr);
-- 
2.43.0


From 6a352797d788fa8e78432e322181fdbd9f86e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 32/68] fix: BandPass envelops mantissa*10^(decades+1) as
 documented

---
 src/spine/filter/implementations/bandpass.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index 5983670..c5c20a2 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -93,8 +93,8 @@ public:
 protected:
     void update_limits() {
         ValueType compensated_midpoint = _cfg.mode == Mode::RELATIVE ? _value + _cfg.offset : _cfg.offset;
-        _upper = compensated_midpoint + std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
-        _lower = compensated_midpoint - std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
+        _upper = compensated_midpoint + _cfg.mantissa * std::pow(ValueType(10), _cfg.decades + 1);
+        _lower = compensated_midpoint - _cfg.mantissa * std::pow(ValueType(10), _cfg.decades + 1);
     }
 
     /// Arbitrary value to be used as a default value
-- 
2.43.0


From b5db8dc01275a1191c0bb46a70e45038d25f7186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 33/68] fix: Result made from a non-constant value or Result is
 not taken for an error it converts to

---
 src/spine/structure/result.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index b445a64..0303386 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -17,6 +17,12 @@ namespace uv = spn::core::meta::unique_variant;
 /// Container for function-driven processing with safety by default
 template<typename T, typename E = T, typename I = T>
 class Result {
+    /// An error is neither a value nor a Result, even if those would convert to one
+    template<typename U>
+    static constexpr bool is_error_only = std::is_convertible_v<U, E> && !std::is_same_v<E, T>
+                                          && !std::is_same_v<std::decay_t<U>, T>
+                                          && !std::is_same_v<std::decay_t<U>, Result>;
+
 public:
     Result() : _type(Type::NO_VALUE) {}
 
@@ -35,10 +41,10 @@ public:
     static Result failed(const E& v) { return Result(Type::FAILED, WrappedE(v)); }
     static Result failed(E&& v) { return Result(Type::FAILED, WrappedE(std::move(v))); }
 
-    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
+    template<typename U = E, typename = std::enable_if_t<is_error_only<U>>>
     Result(const U& error) : _v(std::in_place, WrappedE(error)), _type(Type::FAILED) {}
 
-    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
+    template<typename U = E, typename = std::enable_if_t<is_error_only<U>>>
     Result(U&& error) : _v(std::in_place, WrappedE(std::forward<U>(error))), _type(Type::FAILED) {}
 
     bool is_success() const { return _type == Type::OK; }
-- 
2.43.0


From 0be12023a6d5342ecd23d5c0b352ac120ee2cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 34/68] fix: Result::chain passes an empty result on instead of
 reading a payload it does not have

---
 src/spine/structure/result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index 0303386..814127c 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -98,7 +98,7 @@ public:
         using ExpectedResult = Result<std::decay_t<T>, std::decay_t<E>, std::decay_t<I>>;
         static_assert(std::is_invocable_r_v<ExpectedResult, F, I&>,
                       "Function passed to chain must return a Result<T, E, I> and take I& as a parameter.");
-        if (is_failed() || is_success()) {
+        if (!is_intermediary()) {
             return *this;
         }
         return func(intermediary_value_mut());
-- 
2.43.0


From 6ecce667b34e8092d356ffce4f8804b3c46b85df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:35 +0000
Subject: [PATCH 35/68] fix: lstrip and rstrip stop at the end of the text and
 rstrip strips its end

---
 src/spine/core/utils/string.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 4c1ad1d..b6e2c22 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -9,7 +9,7 @@ namespace spn::core::utils {
 /// Returns a string_view with the beginning of the string `strv` stripped of any char in `delimiters`
 std::string_view lstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.begin();
     return {strv.data() + len, strv.size() - len};
@@ -18,10 +18,10 @@ std::string_view lstrip(const std::string_view& strv, const std::string_view& de
 /// Returns a string_view with the end of the string `strv` stripped of any char in `delimiters`
 std::string_view rstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.rbegin();
-    return {strv.data() + len, strv.size() - len};
+    return {strv.data(), strv.size() - len};
 }
 
 /// Returns true if string `strv` starts with `needle
-- 
2.43.0


From a20833d0b093f9ae9a55273176a994da8fa42cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:35 +0000
Subject: [PATCH 36/68] fix: ends_with is false for a needle longer than the
 text instead of throwing

---
 src/spine/core/utils/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index b6e2c22..3d71609 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -31,7 +31,7 @@ bool starts_with(const std::string_view& strv, const std::string_view& needle) {
 
 /// Returns true if string `strv` ends with `needle
 bool ends_with(const std::string_view& strv, const std::string_view& needle) {
-    return strv.compare(strv.size() - needle.size(), strv.size(), needle) == 0;
+    return strv.size() >= needle.size() && strv.compare(strv.size() - needle.size(), needle.size(), needle) == 0;
 }
 
 /// Find the first occurence of any char in `delimiters` in the string `strv` or return std::string::npos when nothing
-- 
2.43.0


From 00ebbb177026ba97f7cf1088ced915dc84911248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:35 +0000
Subject: [PATCH 37/68] fix: to_float reads no further than the view it was
 given

---
 src/spine/core/utils/string.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 3d71609..cf4e1ca 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -57,10 +57,11 @@ std::size_t find_first_of(const std::string_view& strv, const std::string_view&
 // }
 
 float to_float(const std::string_view& sv) {
+    const std::string text(sv); // a view is not null terminated
     char* end;
-    float result = std::strtof(sv.data(), &end);
+    float result = std::strtof(text.c_str(), &end);
 
-    if (end == sv.data() || *end != '\0') {
+    if (end == text.c_str() || end != text.c_str() + text.size()) {
         return 0.0f; // Handle conversion error
     }
 
-- 
2.43.0


From 8f7bf9156d62c74fd0cd252977ed96ad980be70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:35 +0000
Subject: [PATCH 38/68] fix: StaticString strips stop at the end of the string

---
 src/spine/structure/static_string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/static_string.cpp b/src/spine/structure/static_string.cpp
index bdf3927..9f0ad8c 100644
--- a/src/spine/structure/static_string.cpp
+++ b/src/spine/structure/static_string.cpp
@@ -17,7 +17,7 @@ char* StaticString::data(const size_t expected_bytes_written) {
 }
 StaticString& StaticString::lstrip(std::string_view delimiters) {
     auto it = _buffer.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.begin();
     std::memmove(data(), data() + len, size() - len);
@@ -26,7 +26,7 @@ StaticString& StaticString::lstrip(std::string_view delimiters) {
 }
 StaticString& StaticString::rstrip(std::string_view delimiters) {
     auto it = _buffer.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.rbegin();
     set_size(_buffer.size() - len);
-- 
2.43.0


From 97c77a21b761d9565421b7ee1cba53dd37edca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:35 +0000
Subject: [PATCH 39/68] fix: StaticString::ends_with is false for a longer
 needle instead of throwing

---
 src/spine/structure/static_string.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/static_string.cpp b/src/spine/structure/static_string.cpp
index 9f0ad8c..9c6fe97 100644
--- a/src/spine/structure/static_string.cpp
+++ b/src/spine/structure/static_string.cpp
@@ -36,6 +36,7 @@ bool StaticString::starts_with(const std::string_view needle) const {
     return _buffer.compare(0, needle.size(), needle, 0) == 0;
 }
 bool StaticString::ends_with(const std::string_view needle) const {
-    return _buffer.compare(_buffer.size() - needle.size(), _buffer.size(), needle) == 0;
+    return _buffer.size() >= needle.size()
+           && _buffer.compare(_buffer.size() - needle.size(), needle.size(), needle) == 0;
 }
 } // namespace spn::structure
-- 
2.43.0


From 6878aa5527ab07afa1711c70439169512daaba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:35 +0000
Subject: [PATCH 40/68] fix: parse_time rejects a missing number and reads or
 rejects a large one instead of throwing

---
 src/spine/core/utils/time_repr.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/spine/core/utils/time_repr.cpp b/src/spine/core/utils/time_repr.cpp
index 98643fc..594536b 100644
--- a/src/spine/core/utils/time_repr.cpp
+++ b/src/spine/core/utils/time_repr.cpp
@@ -2,6 +2,7 @@
 
 // #include <charconv>
 #include <iterator>
+#include <limits>
 #include <numeric>
 #include <optional>
 #include <variant>
@@ -34,9 +35,16 @@ parse_time(const std::string_view input) {
     // Find the position of the first non-digit character
     std::size_t pos = input.find_first_not_of("0123456789");
     if (pos == std::string_view::npos) return std::nullopt; // No unit found
+    if (pos == 0) return std::nullopt; // No number found
 
     // Extract numeric value and unit
-    int value = std::stoi(std::string(input.substr(0, pos)));
+    using Raw = decltype(k_time_us().raw());
+    Raw value = 0;
+    for (const char c : input.substr(0, pos)) {
+        const Raw digit = c - '0';
+        if (value > (std::numeric_limits<Raw>::max() - digit) / 10) return std::nullopt; // Too large to represent
+        value = value * 10 + digit;
+    }
     std::string_view unit = input.substr(pos);
 
     if (unit == "us") return k_time_us(value);
-- 
2.43.0


From f56bacc8506fb74a27edbec7699781093d8b3d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:35 +0000
Subject: [PATCH 41/68] fix: logging a debug message that was cut does not
 write beyond the message buffer

---
 src/spine/core/logging.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spine/core/logging.cpp b/src/spine/core/logging.cpp
index 9413373..51c9682 100644
--- a/src/spine/core/logging.cpp
+++ b/src/spine/core/logging.cpp
@@ -2,6 +2,7 @@
 
 #include "spine/platform/hal.hpp"
 
+#include <algorithm>
 #include <cinttypes>
 
 namespace spn::logging {
@@ -48,6 +49,7 @@ void print(const LogLevel level, const char* filename, const int line_number, co
     va_start(args, fmt);
     space_used += vsnprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, fmt, args);
     va_end(args);
+    space_used = std::min(space_used, sizeof(msg_buffer) - 1); // the message may have been cut
 
     if (level == LogLevel::DEBUG) {
         space_used += snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
-- 
2.43.0


From ce99b771ac50faa4ab0c7acdff9d0f979387c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:01 +0000
Subject: [PATCH 42/68] fix: DateTime reads 08 and 09 in a time text as
 decimals

---
 src/spine/structure/time/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 806a5f3..b87b6fe 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -133,7 +133,7 @@ DateTime::DateTime(const char* date, const char* time) {
     _tm.tm_mon = month - 1;
     _tm.tm_mday = day;
     int hour, min, sec;
-    sscanf(time, "%i:%i:%i", &hour, &min, &sec);
+    sscanf(time, "%d:%d:%d", &hour, &min, &sec);
     _tm.tm_hour = hour;
     _tm.tm_min = min;
     _tm.tm_sec = sec;
-- 
2.43.0


From 4c8ddcb777245357912a7b6d7ca395b7fc8c847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:01 +0000
Subject: [PATCH 43/68] fix: DateTime made from texts does not depend on an
 uninitialised daylight saving flag

---
 src/spine/structure/time/datetime.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index b87b6fe..7b4c3b3 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -138,6 +138,7 @@ DateTime::DateTime(const char* date, const char* time) {
     _tm.tm_min = min;
     _tm.tm_sec = sec;
     _tm.tm_yday = calcYearDay(year, month, day);
+    _tm.tm_isdst = -1; // unknown, as for the other fields
     set_timestamps();
 }
 
-- 
2.43.0


From 286ebe61fae0dba883ee23fb27ed1e3a0daae65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:01 +0000
Subject: [PATCH 44/68] fix: DateTime accepts timestamps before 2000 in debug
 builds

---
 src/spine/structure/time/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 7b4c3b3..9bc095f 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -86,7 +86,7 @@ static uint8_t bcd2bin(uint8_t val) { return static_cast<uint8_t>(val - 6 * (val
  */
 DateTime::DateTime(time_t unix_timestamp)
     : _unix_timestamp{unix_timestamp}, _y2k_timestamp{static_cast<time_t>(unix_timestamp - UNIX_OFFSET)} {
-    spn_assert(unix_timestamp - UNIX_OFFSET <= LONG_MAX);
+    spn_assert(_y2k_timestamp <= LONG_MAX);
     gmtime_r(&_unix_timestamp, &_tm);
 }
 
-- 
2.43.0


From 150cd7db357c468a2aac94271f900486fbe90149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:01 +0000
Subject: [PATCH 45/68] fix: fade_to ends at the setpoint whatever the
 increment instead of short of or beyond it

---
 src/spine/platform/gpio.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/spine/platform/gpio.cpp b/src/spine/platform/gpio.cpp
index 42ba896..cb0e982 100644
--- a/src/spine/platform/gpio.cpp
+++ b/src/spine/platform/gpio.cpp
@@ -10,18 +10,16 @@ void fade_to(void (*set_value)(void*, float), void* imp, float value, float setp
              k_time_ms increment_interval) {
     spn_assert(setpoint >= 0.0f && setpoint <= 1.0f);
 
-    const float decimals_of_diff = 1.0f / increment;
-    float diff = std::round(std::fabs(value - setpoint) * decimals_of_diff) / decimals_of_diff;
+    const float diff = std::fabs(value - setpoint);
 
-    if (diff < increment) {
+    if (increment <= 0 || diff < increment) {
         set_value(imp, setpoint);
         return;
     }
     const auto invert = value > setpoint ? -1 : 1;
-    while (diff > 0) {
-        value = std::clamp(value + invert * increment, 0.0f, 1.0f);
+    while (value != setpoint) {
+        value = std::fabs(setpoint - value) > increment ? value + invert * increment : setpoint;
         set_value(imp, value);
-        diff -= increment;
         HAL::delay(increment_interval);
     }
 }
-- 
2.43.0


From 05e4fae36df6430990f827bc4450a852f35003d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:01 +0000
Subject: [PATCH 46/68] fix: AnalogueOutput::value follows values set on the
 platform's output directly

---
 src/spine/platform/gpio.hpp                    | 2 +-
 src/spine/platform/implementations/arduino.hpp | 5 ++++-
 src/spine/platform/implementations/mock.hpp    | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/spine/platform/gpio.hpp b/src/spine/platform/gpio.hpp
index cc9c4ce..a4e6587 100644
--- a/src/spine/platform/gpio.hpp
+++ b/src/spine/platform/gpio.hpp
@@ -48,7 +48,7 @@ public:
     /// Set the output to the provided `value`
     void set_value(float value) {
         _value = value;
-        ((GPIOImp*)(this))->set_value(value);
+        static_cast<GPIOImp*>(this)->set_value_impl(value);
     }
 
     /// Returns the currently active value
diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 1381c6b..f0bc2ec 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -99,14 +99,17 @@ public:
         set_value(0.0);
     }
 
+protected:
     // value between 0 and 1 where 1 is the logical state ON
-    void set_value(float value) {
+    void set_value_impl(float value) {
         spn_assert(value >= 0.0f && value <= 1.0f);
         if (_cfg.active_on_low) value = 1.0f - value;
 
         analogWrite(_cfg.pin, int(value * powf(2, _cfg.resolution)));
     }
 
+    friend AnalogueOutput;
+
 private:
     const Config _cfg;
 };
diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index 2322f97..094701d 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -86,12 +86,15 @@ public:
 
     void initialize() { set_value(0.0f); }
 
+protected:
     // value between 0 and 1 where 1 is the logical state ON
-    void set_value(float value) {
+    void set_value_impl(float value) {
         spn_assert(value >= 0.0f && value <= 1.0f);
         if (_cfg.active_on_low) value = 1.0f - value;
     }
 
+    friend AnalogueOutput;
+
 private:
     const Config _cfg;
 };
-- 
2.43.0


From 0148410c45b1fb4d62a3e3fb847f359fb0634c43 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 02:24:21 +0000
Subject: [PATCH 47/68] fix: convert real units by a whole ratio, so that 30 mm
 equals 3 cm

---
 .../structure/units/primitives/magnitudes.hpp | 46 +++++++++----------
 src/spine/structure/units/primitives/unit.hpp | 12 +++--
 2 files changed, 31 insertions(+), 27 deletions(-)

diff --git a/src/spine/structure/units/primitives/magnitudes.hpp b/src/spine/structure/units/primitives/magnitudes.hpp
index c34c14f..d09659d 100644
--- a/src/spine/structure/units/primitives/magnitudes.hpp
+++ b/src/spine/structure/units/primitives/magnitudes.hpp
@@ -4,76 +4,76 @@ namespace spn::structure::units {
 
 // SI magnitude tags
 struct Atto {
-    static constexpr float Magnitude = 1e-18f;
+    static constexpr double Magnitude = 1e-18;
 };
 struct Femto {
-    static constexpr float Magnitude = 1e-15f;
+    static constexpr double Magnitude = 1e-15;
 };
 struct Pico {
-    static constexpr float Magnitude = 1e-12f;
+    static constexpr double Magnitude = 1e-12;
 };
 struct Nano {
-    static constexpr float Magnitude = 1e-9f;
+    static constexpr double Magnitude = 1e-9;
 };
 struct Micro {
-    static constexpr float Magnitude = 1e-6f;
+    static constexpr double Magnitude = 1e-6;
 };
 struct Milli {
-    static constexpr float Magnitude = 1e-3f;
+    static constexpr double Magnitude = 1e-3;
 };
 struct Centi {
-    static constexpr float Magnitude = 1e-2f;
+    static constexpr double Magnitude = 1e-2;
 };
 struct Deci {
-    static constexpr float Magnitude = 1e-1f;
+    static constexpr double Magnitude = 1e-1;
 };
 struct Deca {
-    static constexpr float Magnitude = 1e1f;
+    static constexpr double Magnitude = 1e1;
 };
 struct Hecto {
-    static constexpr float Magnitude = 1e2f;
+    static constexpr double Magnitude = 1e2;
 };
 struct Kilo {
-    static constexpr float Magnitude = 1e3f;
+    static constexpr double Magnitude = 1e3;
 };
 struct Mega {
-    static constexpr float Magnitude = 1e6f;
+    static constexpr double Magnitude = 1e6;
 };
 struct Giga {
-    static constexpr float Magnitude = 1e9f;
+    static constexpr double Magnitude = 1e9;
 };
 struct Tera {
-    static constexpr float Magnitude = 1e12f;
+    static constexpr double Magnitude = 1e12;
 };
 struct Peta {
-    static constexpr float Magnitude = 1e15f;
+    static constexpr double Magnitude = 1e15;
 };
 struct Exa {
-    static constexpr float Magnitude = 1e18f;
+    static constexpr double Magnitude = 1e18;
 };
 
 struct Base {
-    static constexpr float Magnitude = 1.0f;
+    static constexpr double Magnitude = 1.0;
 };
 
 // time types
 struct Minute {
-    static constexpr float Magnitude = 60.0f;
+    static constexpr double Magnitude = 60.0;
 };
 struct Hour {
-    static constexpr float Magnitude = 60.0f * 60.0f;
+    static constexpr double Magnitude = 60.0 * 60.0;
 };
 struct Day {
-    static constexpr float Magnitude = 60.0f * 60.0f * 24.0f;
+    static constexpr double Magnitude = 60.0 * 60.0 * 24.0;
 };
 struct Week {
-    static constexpr float Magnitude = Day::Magnitude * 7.0f;
+    static constexpr double Magnitude = Day::Magnitude * 7.0;
 };
 struct Month {
-    static constexpr float Magnitude = Week::Magnitude * 4.0f;
+    static constexpr double Magnitude = Week::Magnitude * 4.0;
 };
 struct Year {
-    static constexpr float Magnitude = Day::Magnitude * 365.0f;
+    static constexpr double Magnitude = Day::Magnitude * 365.0;
 };
 
 } // namespace spn::structure::units
diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 9baa194..870d597 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -153,22 +153,26 @@ private:
             if (remainder < 0 && -remainder >= denominator + remainder) value--;
             return static_cast<ValueType>(value);
         } else {
-            constexpr float ratio = MOther::Magnitude / MT::Magnitude;
-            return ratio * other.raw();
+            // a whole ratio is exact, whereas a fraction such as 0.001 is not
+            if constexpr (MOther::Magnitude >= MT::Magnitude) {
+                return other.raw() * static_cast<ValueType>(MOther::Magnitude / MT::Magnitude);
+            } else {
+                return other.raw() / static_cast<ValueType>(MT::Magnitude / MOther::Magnitude);
+            }
         }
     }
 
     /// The amount of base units in one unit of magnitude M (1 for the magnitudes smaller than the base)
     template<typename M>
     static constexpr IntegerRawType multiple() {
-        return M::Magnitude < 1.0f ? 1 : static_cast<IntegerRawType>(M::Magnitude);
+        return M::Magnitude < 1.0 ? 1 : static_cast<IntegerRawType>(M::Magnitude);
     }
 
     /// The amount of units of magnitude M in one base unit (1 for the magnitudes larger than the base)
     template<typename M>
     static constexpr IntegerRawType fraction() {
         IntegerRawType count = 1;
-        while (count * M::Magnitude < 0.5f) count *= 10;
+        while (count * M::Magnitude < 0.5) count *= 10;
         return count;
     }
 };
-- 
2.43.0


From 1c7b26a95145b67a94e74742b9a67ecbdf9e7dcf Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 02:24:21 +0000
Subject: [PATCH 48/68] fix: give lux a magnitude, so that it can be used like
 any other unit

---
 src/spine/structure/units/illuminance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/units/illuminance.hpp b/src/spine/structure/units/illuminance.hpp
index 95ae4c0..85f8f16 100644
--- a/src/spine/structure/units/illuminance.hpp
+++ b/src/spine/structure/units/illuminance.hpp
@@ -9,4 +9,4 @@ struct TagIlluminance {};
 } // namespace spn::structure::units
 
 // Illuminance, with unit: lux
-using lux = spnu::Unit<spnu::TagIlluminance, spnu::TagIlluminance, spnu::RealRawType>;
+using lux = spnu::Unit<spnu::TagIlluminance, spnu::Base, spnu::RealRawType>;
-- 
2.43.0


From 27c6608ae72da2e58c65b6d099ddb268a6e62bc4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 02:24:39 +0000
Subject: [PATCH 49/68] fix: divide a negative integer unit in place by an
 unsigned scalar

---
 src/spine/structure/units/primitives/unit.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 870d597..848f242 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -97,7 +97,11 @@ public:
     template<typename AT>
     std::enable_if_t<std::is_arithmetic_v<AT>, Unit&> operator/=(const AT& scalar) {
         if (scalar == 0) spn::throw_exception(runtime_exception("tried to divide by zero"));
-        _value /= scalar;
+        if constexpr (std::is_integral_v<VT> && std::is_integral_v<AT>) {
+            _value /= static_cast<VT>(scalar); // an unsigned scalar would turn a negative value unsigned
+        } else {
+            _value /= scalar;
+        }
         return *this;
     }
 
-- 
2.43.0


From 21168a9a733c17200ba6e1b6217bbdef3110634d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 02:24:39 +0000
Subject: [PATCH 50/68] fix: simplify compound units that are negative or zero
 at the provided precision

---
 src/spine/structure/units/primitives/compound_unit.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index 654e214..5ddd7aa 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -105,6 +105,7 @@ public:
     /// `scaling_factor` determines precision. A `scaling_factor` of 1e6 makes 6 decimals of precision.
     void simplify(RealRawType scaling_factor = 1e6) {
         const auto gcd = compute_gcd(_numerator.raw(), _denominator.raw(), scaling_factor);
+        if (gcd == 0) return; // both are zero at this precision
         _numerator /= gcd;
         _denominator /= gcd;
     }
@@ -218,7 +219,7 @@ private:
     }
 
     inline unsigned long scale_to_integer(ValueType num, RealRawType scaling_factor) {
-        return static_cast<unsigned long>(std::round(num * scaling_factor));
+        return static_cast<unsigned long>(std::round(std::fabs(num * scaling_factor)));
     }
     unsigned long compute_gcd(ValueType numerator, ValueType denominator, RealRawType scaling_factor) {
         if constexpr (std::is_integral_v<ValueType>) return std::gcd(numerator, denominator);
-- 
2.43.0


From c547d463cb767b97a97d35f923e29aaa408c113f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 02:24:50 +0000
Subject: [PATCH 51/68] fix: compare compound units of different magnitudes by
 their quantity

---
 .../structure/units/primitives/compound_unit.hpp  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index 5ddd7aa..d4251b8 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -187,8 +187,8 @@ public:
 
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator==(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        if constexpr (std::is_integral_v<ValueType>) return raw() == other.raw();
-        return approximately_equal(raw(), other.raw());
+        if constexpr (std::is_integral_v<ValueType>) return raw() == raw_of(other);
+        return approximately_equal(raw(), raw_of(other));
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator!=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
@@ -196,22 +196,25 @@ public:
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() < other.raw();
+        return raw() < raw_of(other);
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() > other.raw();
+        return raw() > raw_of(other);
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() <= other.raw();
+        return raw() <= raw_of(other);
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() >= other.raw();
+        return raw() >= raw_of(other);
     }
 
 private:
+    /// Returns the value of `other` in the magnitudes of this unit
+    static ValueType raw_of(const CompoundUnit& other) { return other.raw(); }
+
     static constexpr ValueType epsilon = std::numeric_limits<ValueType>::epsilon();
 
     bool approximately_equal(ValueType a, ValueType b) const {
-- 
2.43.0


From dc2c104af5490891802b8e025524f465105f5844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:08 +0000
Subject: [PATCH 52/68] fix: the quotient of a negative integer unit and an
 unsigned scalar is negative

---
 src/spine/structure/units/primitives/unit.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 848f242..1e49fa8 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -92,7 +92,11 @@ public:
     template<typename AT>
     std::enable_if_t<std::is_arithmetic_v<AT>, Unit> operator/(const AT& scalar) const {
         if (scalar == 0) spn::throw_exception(runtime_exception("tried to divide by zero"));
-        return Unit{_value / scalar};
+        if constexpr (std::is_integral_v<VT> && std::is_integral_v<AT>) {
+            return Unit{_value / static_cast<VT>(scalar)}; // an unsigned scalar would turn a negative value unsigned
+        } else {
+            return Unit{_value / scalar};
+        }
     }
     template<typename AT>
     std::enable_if_t<std::is_arithmetic_v<AT>, Unit&> operator/=(const AT& scalar) {
-- 
2.43.0


From a2b646c9040b3369486a9a54ce5fd39165ceb1e2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:07:17 +0000
Subject: [PATCH 53/68] fix: assigning an array a copy of itself keeps its
 storage owned

---
 src/spine/structure/array.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 1fbcec5..79f9e76 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -177,24 +177,26 @@ Array<T>::Array(Array&& other) noexcept
 template<typename T>
 Array<T>& Array<T>::operator=(const Array& other) {
     if (this == &other) return *this;
-    if (m_store != other.m_store) release();
+    const bool same_store = m_store == other.m_store; // other may be a copy of this array
+    if (!same_store) release();
     ArrayBase::operator=(other);
     m_store = other.m_store;
     m_max_size = other.m_max_size;
-    m_store_is_internal = false; // prevent double free
+    m_store_is_internal = same_store && m_store_is_internal; // prevent double free
     return *this;
 }
 
 template<typename T>
 Array<T>& Array<T>::operator=(Array&& other) noexcept {
     if (this == &other) return *this;
-    if (m_store != other.m_store) release();
+    const bool same_store = m_store == other.m_store; // other may be a copy of this array
+    if (!same_store) release();
     ArrayBase::operator=(std::move(other));
     m_store = other.m_store;
     other.m_store = nullptr;
     m_max_size = other.m_max_size;
     other.m_max_size = 0;
-    m_store_is_internal = other.m_store_is_internal;
+    m_store_is_internal = other.m_store_is_internal || (same_store && m_store_is_internal);
     return *this;
 }
 
-- 
2.43.0


From fbd3cf4cf316112fc825c7f79aac4cd0a4463223 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:08:49 +0000
Subject: [PATCH 54/68] fix: add a vector's own element to it without losing
 the value while elements move

---
 src/spine/structure/vector.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index bbce09b..89cbd14 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -160,7 +160,12 @@ const T& Vector<T>::operator[](ArrayBase::Size index) const {
 
 template<typename T>
 void Vector<T>::push_back(const T& item) {
-    if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
+    if (m_tail >= this->max_size() && m_head > 0) {
+        const T copy(item); // `item` may be one of the elements that are about to move
+        rearrange(0);
+        this->m_store[m_tail++] = copy;
+        return;
+    }
     spn_assert(m_tail < this->max_size());
 
     if (m_tail < this->max_size()) this->m_store[m_tail++] = item;
@@ -203,13 +208,15 @@ void Vector<T>::push_front(const T& item) {
         return;
     }
 
+    const T copy(item); // `item` may be one of the elements that are about to move
+
     // todo: use `rearrange()`
     // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
     memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
     memset((char*)&this->m_store[m_head], '\0',
            sizeof(T)); // otherwise copy assignment below interacts with moved memory
 
-    this->m_store[m_head] = item;
+    this->m_store[m_head] = copy;
     m_tail++;
 }
 
@@ -257,6 +264,7 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
         push_back(item);
         return;
     }
+    const T copy(item); // `item` may be one of the elements that are about to move
     if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
     spn_assert(m_tail < this->max_size());
 
@@ -265,7 +273,7 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
             (m_tail++ - (m_head + index)) * sizeof(T));
     memset((char*)&this->m_store[m_head + index], '\0',
            sizeof(T)); // otherwise copy assignment below interacts with moved memory
-    this->m_store[m_head + index] = item;
+    this->m_store[m_head + index] = copy;
 }
 
 template<typename T>
-- 
2.43.0


From 465451b276c1059c8e79754a922cbf6b1a3ccf14 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:14:39 +0000
Subject: [PATCH 55/68] fix: autotune averages its gains over the cycles it
 gathered

---
 src/spine/controller/implementations/pid/pid_tuner.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/implementations/pid/pid_tuner.cpp b/src/spine/controller/implementations/pid/pid_tuner.cpp
index 26f334b..e32e4e5 100644
--- a/src/spine/controller/implementations/pid/pid_tuner.cpp
+++ b/src/spine/controller/implementations/pid/pid_tuner.cpp
@@ -117,9 +117,12 @@ float PIDAutotuner::do_autotune(float input, k_time_ms ms) {
     if (is_finished()) {
         output = false;
         outputValue = minOutput;
-        kp = pAverage / (cycle - 1);
-        ki = iAverage / (cycle - 1);
-        kd = dAverage / (cycle - 1);
+        // With no more than two cycles there is nothing to average, the gains of the last cycle are the result
+        if (const int averaged = cycle - 2; averaged > 0) {
+            kp = pAverage / averaged;
+            ki = iAverage / averaged;
+            kd = dAverage / averaged;
+        }
     }
 
     return outputValue;
-- 
2.43.0


From 7655fe17fd10c4d3585c74691db3c874393c3deb Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:15:54 +0000
Subject: [PATCH 56/68] fix: autotune returns tunings in the units set_tunings
 takes

---
 src/spine/controller/pid.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spine/controller/pid.cpp b/src/spine/controller/pid.cpp
index 0d145bb..b49421b 100644
--- a/src/spine/controller/pid.cpp
+++ b/src/spine/controller/pid.cpp
@@ -129,7 +129,12 @@ PID::Tunings PID::autotune(const PID::TuneConfig& tune_config, std::function<voi
         }
     }
     process_setter(0); // Turn the output off.
-    return Tunings{.Kp = tuner.get_Kp(), .Ki = tuner.get_Ki(), .Kd = tuner.get_Kd()};
+
+    // The tuner's gains are per loop interval, the controller's tunings are per second
+    const float interval_in_seconds = k_time_ms(_cfg.sample_interval).raw() / 1000.0f;
+    return Tunings{.Kp = tuner.get_Kp(),
+                   .Ki = tuner.get_Ki() / interval_in_seconds,
+                   .Kd = tuner.get_Kd() * interval_in_seconds};
 }
 
 } // namespace spn::controller
-- 
2.43.0


From 80b3261f348bd431cc49f26c4bfff55cbd6b4242 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:15:54 +0000
Subject: [PATCH 57/68] fix: PID::tunings returns the tunings that were set

---
 .../controller/implementations/pid/pid_controller.cpp |  3 +++
 .../controller/implementations/pid/pid_controller.hpp | 11 ++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/implementations/pid/pid_controller.cpp b/src/spine/controller/implementations/pid/pid_controller.cpp
index 2aafb8b..d8c3bb2 100644
--- a/src/spine/controller/implementations/pid/pid_controller.cpp
+++ b/src/spine/controller/implementations/pid/pid_controller.cpp
@@ -86,6 +86,9 @@ void PIDController::set_tunings(float Kp, float Ki, float Kd, const PIDControlle
     spn_assert(_sampling_time > k_time_ms{});
 
     _proportionality = proportionality;
+    _set_kp = Kp;
+    _set_ki = Ki;
+    _set_kd = Kd;
 
     const auto sampletime_in_seconds = _sampling_time.raw() / 1000.0f;
     _kp = Kp;
diff --git a/src/spine/controller/implementations/pid/pid_controller.hpp b/src/spine/controller/implementations/pid/pid_controller.hpp
index d2748d1..aa01dfb 100644
--- a/src/spine/controller/implementations/pid/pid_controller.hpp
+++ b/src/spine/controller/implementations/pid/pid_controller.hpp
@@ -42,9 +42,10 @@ public:
 
     void set_sampling_time(const k_time_ms sampling_time);
 
-    float Kp() const { return _kp; }
-    float Ki() const { return _ki; }
-    float Kd() const { return _kd; }
+    // The tunings as they were set
+    float Kp() const { return _set_kp; }
+    float Ki() const { return _set_ki; }
+    float Kd() const { return _set_kd; }
 
     Direction direction() const { return _controller_direction; }
 
@@ -53,6 +54,10 @@ private:
     float _ki = 0; // * (I)ntegral Tuning Parameter
     float _kd = 0; // * (D)erivative Tuning Parameter
 
+    float _set_kp = 0; // the tunings as set; the above are scaled to the sampling time and signed by direction
+    float _set_ki = 0;
+    float _set_kd = 0;
+
     enum Direction _controller_direction = Direction::FORWARD;
 
     float* _user_input = nullptr; // * Pointers to the Input, Output, and Setpoint variables
-- 
2.43.0


From d4a98a50c51a95e110451b7048bbe61b41583923 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 03:50:18 +0000
Subject: [PATCH 58/68] fix: Pipeline::to_string separates only between futures
 and does not assert on short pipelines

---
 src/spine/eventsystem/pipeline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 6447275..57a99ff 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -23,9 +23,9 @@ std::string Pipeline::to_string() const {
         };
         put("Pipeline: [");
         for (auto it = _pipe.begin(); it != _pipe.end(); ++it) {
+            if (it != _pipe.begin()) put(", ");
             auto& future = *it;
             put(utils::repr(future->time_until_future()));
-            if (it != _pipe.end()) put(", ");
         }
         put("]");
         return len;
@@ -42,7 +42,7 @@ std::string Pipeline::to_string() const {
     pipeline_repr(&result, false);
 
     spn_assert(result.size() <= total_length); // no reallocation
-    spn_assert(result.capacity() == total_length); // no reallocation
+    spn_assert(result.capacity() >= total_length); // no reallocation
     return result;
 }
 
-- 
2.43.0


From 2ef8fea0f389576399ec6bce4dc1f4334ea752ec Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 04:21:04 +0000
Subject: [PATCH 59/68] fix: Vector refuses front pushes and inserts without
 room, as push_back does, instead of writing past its store

---
 src/spine/structure/vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 89cbd14..41cec10 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -203,6 +203,7 @@ template<typename T>
 template<typename T>
 void Vector<T>::push_front(const T& item) {
     spn_assert(this->size() < this->max_size());
+    if (full()) return;
     if (m_head > 0) {
         this->m_store[--m_head] = item;
         return;
@@ -222,6 +223,8 @@ void Vector<T>::push_front(const T& item) {
 
 template<typename T>
 void Vector<T>::emplace_front(const T&& item) {
+    spn_assert(this->size() < this->max_size());
+    if (full()) return;
     if (m_head > 0) {
         this->m_store[--m_head] = std::move(item);
         return;
@@ -255,6 +258,7 @@ T&& Vector<T>::pop_front() {
 template<typename T>
 void Vector<T>::insert(ArrayBase::Size index, const T& item) {
     spn_assert(this->size() < this->m_max_size);
+    if (full()) return;
 
     if (index == 0) {
         push_front(item);
-- 
2.43.0


From 5ab740deb73d8f80427b5e6d17f5566951e1e61b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 04:45:24 +0000
Subject: [PATCH 60/68] fix: the bases of GPIO inputs and interrupts forward to
 their implementation

---
 src/spine/platform/gpio.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/spine/platform/gpio.hpp b/src/spine/platform/gpio.hpp
index a4e6587..5321d48 100644
--- a/src/spine/platform/gpio.hpp
+++ b/src/spine/platform/gpio.hpp
@@ -30,8 +30,8 @@ template<typename GPIOImp>
 struct DigitalInput {
     using LogicalState = core::LogicalState;
 
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
-    LogicalState state() const { return static_cast<GPIOImp>(this)->state(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
+    LogicalState state() const { return static_cast<LogicalState>(static_cast<const GPIOImp*>(this)->state()); }
 };
 
 namespace detail {
@@ -43,7 +43,7 @@ template<typename GPIOImp>
 class AnalogueOutput {
 public:
     /// Initialize a port/pin
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Set the output to the provided `value`
     void set_value(float value) {
@@ -68,10 +68,10 @@ private:
 template<typename GPIOImp>
 struct AnalogueInput {
     /// Initialize an analogue input port/pin
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Reads the Analogue input port/pin
-    float read() { return static_cast<GPIOImp>(this)->read(); }
+    float read() { return static_cast<GPIOImp*>(this)->read(); }
 };
 
 // todo: Add an ADC/DAC configuration blocks to set up stuff like read/write resolution, ref voltage and sampling
@@ -82,15 +82,15 @@ struct Interrupt {
     using TriggerType = core::TriggerType;
 
     /// Intializes the interrupt (doesn't attach it)
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Attaches the interrupt to the callback.
     void attach_interrupt(void (*callback)() = nullptr, TriggerType trigger = TriggerType::UNDEFINED) {
-        static_cast<GPIOImp>(this)->attach_interrupt(callback, trigger);
+        static_cast<GPIOImp*>(this)->attach_interrupt(callback, trigger);
     }
 
     /// Detaches the interrupt from the callback
-    void detach_interrupt() { static_cast<GPIOImp>(this)->detach_interrupt(); }
+    void detach_interrupt() { static_cast<GPIOImp*>(this)->detach_interrupt(); }
 };
 
 } // namespace spn::platform
-- 
2.43.0


From 9a08a40bc8286b0a8079aae03173c4ae090bc086 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 04:45:24 +0000
Subject: [PATCH 61/68] fix: Stack can be created, and pop lets go of the
 element

---
 src/spine/structure/stack.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/stack.hpp b/src/spine/structure/stack.hpp
index 58aa474..56fef04 100644
--- a/src/spine/structure/stack.hpp
+++ b/src/spine/structure/stack.hpp
@@ -6,7 +6,7 @@ namespace spn::structure {
 
 template<typename T>
 /// A Vector that only allows Last-In-First-Out access order.
-class Stack : public Vector<T> {
+class Stack {
 public:
     using Size = ArrayBase::Size;
 
@@ -16,7 +16,7 @@ public:
     void push(T& element) { emplace(std::forward<T>(element)); }
 
     /// Pop an element from the stack.
-    void pop() { store.pop_back(); }
+    void pop() { [[maybe_unused]] const T popped = store.pop_back(); }
 
     /// Returns a reference to the element on top without removing it (dangerous!).
     T& top() {
-- 
2.43.0


From af5236c045954f5b189390df51fd6f5702468f59 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 05:03:39 +0000
Subject: [PATCH 62/68] fix: an Arduino analogue output that is fully on stays
 within its own resolution

---
 src/spine/platform/implementations/arduino.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index f0bc2ec..e337bfb 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -105,7 +105,9 @@ protected:
         spn_assert(value >= 0.0f && value <= 1.0f);
         if (_cfg.active_on_low) value = 1.0f - value;
 
-        analogWrite(_cfg.pin, int(value * powf(2, _cfg.resolution)));
+        // the resolution is shared by all outputs; the largest value it holds is one less than its number of steps
+        analogWriteResolution(_cfg.resolution);
+        analogWrite(_cfg.pin, int(value * (powf(2, _cfg.resolution) - 1)));
     }
 
     friend AnalogueOutput;
-- 
2.43.0


From 8c1508d539b394d80dd38c7e49598b13c09dbec5 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 05:03:39 +0000
Subject: [PATCH 63/68] fix: Arduino interrupts trigger on the edge asked for,
 whatever the numbering of the core

---
 src/spine/platform/implementations/arduino.hpp             | 6 +++---
 .../platform/implementations/arduino_without_sugar.hpp     | 7 +++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index e337bfb..cf23d67 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -198,9 +198,9 @@ public:
         //        spn_assert(mode_actual != Mode::NOP);
 
         switch (mode_actual) {
-        case TriggerType::RISING_AND_FALLING_EDGE: mode_bits = 1; break;
-        case TriggerType::FALLING_EDGE: mode_bits = 2; break;
-        case TriggerType::RISING_EDGE: mode_bits = 3; break;
+        case TriggerType::RISING_AND_FALLING_EDGE: mode_bits = detail::arduino_change; break;
+        case TriggerType::FALLING_EDGE: mode_bits = detail::arduino_falling; break;
+        case TriggerType::RISING_EDGE: mode_bits = detail::arduino_rising; break;
         default: mode_bits = 0; break;
         }
 
diff --git a/src/spine/platform/implementations/arduino_without_sugar.hpp b/src/spine/platform/implementations/arduino_without_sugar.hpp
index f46124f..feab14c 100644
--- a/src/spine/platform/implementations/arduino_without_sugar.hpp
+++ b/src/spine/platform/implementations/arduino_without_sugar.hpp
@@ -4,6 +4,13 @@
 
 #include <Arduino.h>
 
+namespace spn::platform::detail {
+// cores number these differently
+constexpr int arduino_rising = static_cast<int>(RISING);
+constexpr int arduino_falling = static_cast<int>(FALLING);
+constexpr int arduino_change = static_cast<int>(CHANGE);
+} // namespace spn::platform::detail
+
 // Undefine Arduino-specific macros if they are defined
 #if defined(LOW)
 #    undef LOW
-- 
2.43.0


From 96f550ab569352a9829154b2d35be1fe2bd14e91 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 05:03:39 +0000
Subject: [PATCH 64/68] fix: Arduino interrupts detach what they attached

---
 src/spine/platform/implementations/arduino.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index cf23d67..f1a4b88 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -215,7 +215,13 @@ public:
 #endif
     }
 
-    void detach_interrupt() { ::detachInterrupt(_cfg.pin); }
+    void detach_interrupt() {
+#if defined(__AVR_ATmega8__) || defined(__AVR_ATmega168__) || defined(__AVR_ATmega328P__)
+        ::detachInterrupt(_cfg.pin);
+#else
+        ::detachInterrupt(digitalPinToInterrupt(_cfg.pin));
+#endif
+    }
 
 private:
     const Config _cfg;
-- 
2.43.0


From b887dfd6922d458a5973a385de2c767e04fd49bd Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 05:03:39 +0000
Subject: [PATCH 65/68] fix: reading a byte from an Arduino UART that has none
 fails

---
 src/spine/platform/implementations/arduino.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index f1a4b88..6fa24dc 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -264,7 +264,9 @@ public:
 
     size_t read(uint8_t* const buffer, size_t length) override { return _stream_ref->readBytes(buffer, length); }
     bool read(uint8_t& value) override {
-        value = _stream_ref->read();
+        const int byte = _stream_ref->read();
+        if (byte < 0) return false;
+        value = static_cast<uint8_t>(byte);
         return true;
     }
 
-- 
2.43.0


From 55b4c35ca89ba6b6083c3ce38bc9f2797c3a8fc6 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 05:13:53 +0000
Subject: [PATCH 66/68] fix: a Zephyr delay in microseconds lasts as long as
 asked for

---
 src/spine/platform/implementations/zephyr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/platform/implementations/zephyr.hpp b/src/spine/platform/implementations/zephyr.hpp
index 5580703..5ba640f 100644
--- a/src/spine/platform/implementations/zephyr.hpp
+++ b/src/spine/platform/implementations/zephyr.hpp
@@ -40,6 +40,7 @@ struct Zephyr : Platform<Zephyr, ZephyrConfig> {
     static void delay_us(k_time_us us) {
         if (us.raw() >= 1000) {
             k_msleep(us.raw() / 1000);
+            k_busy_wait(us.raw() % 1000); // Busy wait for what remains
         } else {
             k_busy_wait(us.raw()); // Busy wait for shorter delays
         }
-- 
2.43.0


From 5b25a1122f9ea02aac33ee4ea096bd5aee07f328 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 05:13:53 +0000
Subject: [PATCH 67/68] fix: turning logging off on Zephyr does not let errors
 through

---
 src/spine/platform/implementations/zephyr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/zephyr.cpp b/src/spine/platform/implementations/zephyr.cpp
index fd40d9c..457f1a8 100644
--- a/src/spine/platform/implementations/zephyr.cpp
+++ b/src/spine/platform/implementations/zephyr.cpp
@@ -29,7 +29,7 @@ void zephyr_set_log_level(spn::logging::LogLevel level) {
     LOG_MODULE_DECLARE(spine, LOG_LEVEL_INF);
 
     switch (level) {
-    case spn::logging::LogLevel::OFF: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_NONE);
+    case spn::logging::LogLevel::OFF: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_NONE); break;
     case spn::logging::LogLevel::ERR: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_ERR); break;
     case spn::logging::LogLevel::WARN: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_WRN); break;
     case spn::logging::LogLevel::INFO: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_INF); break;
-- 
2.43.0


From 35dd08ae8e65446cb9b761fc26dcb9be73789ca1 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 05:20:14 +0000
Subject: [PATCH 68/68] fix: Arduino::free_memory refers to the C library's end
 of the heap, so that it links

---
 src/spine/platform/implementations/arduino.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/platform/implementations/arduino.cpp b/src/spine/platform/implementations/arduino.cpp
index 56fd583..1f971c0 100644
--- a/src/spine/platform/implementations/arduino.cpp
+++ b/src/spine/platform/implementations/arduino.cpp
@@ -2,8 +2,6 @@
 
 #    include "spine/platform/implementations/arduino.hpp"
 
-namespace spn::platform {
-
 // ripped from: https://github.com/mpflaga/Arduino-MemoryFree/tree/master
 #    ifdef __arm__
 // should use uinstd.h to define sbrk but Due causes a conflict
@@ -12,6 +10,8 @@ extern "C" char* sbrk(int incr);
 extern char* __brkval;
 #    endif // __arm__
 
+namespace spn::platform {
+
 unsigned long Arduino::free_memory() {
     char top;
 #    ifdef __arm__
-- 
2.43.0

