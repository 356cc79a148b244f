From fbda4c2f46ac4dccd45c4be533692127807690ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 01/42] fix: Slice::sub bounds check must not overflow

---
 rpp/slice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/slice.h b/rpp/slice.h
index f2f2058..ff1c062 100644
--- a/rpp/slice.h
+++ b/rpp/slice.h
@@ -114,7 +114,7 @@ struct Slice {
     }
 
     [[nodiscard]] constexpr Slice sub(u64 start, u64 length) const noexcept {
-        assert(start + length <= length_);
+        assert(start <= length_ && length <= length_ - start);
         return Slice{data_ + start, length};
     }
 
-- 
2.43.0


From f317b1605983feba6b742e447e316409449268b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 02/42] fix: Queue::erase_first must shift the following
 elements down

---
 rpp/queue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index d036f02..abdf42b 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -246,11 +246,12 @@ struct Queue {
         while(consumed < length_) {
             u64 next = idx == capacity_ - 1 ? 0 : idx + 1;
             if(found) {
+                u64 prev = idx == 0 ? capacity_ - 1 : idx - 1;
                 if constexpr(Trivially_Movable<T>) {
-                    Libc::memcpy(&data_[next], &data_[idx], sizeof(T));
+                    Libc::memcpy(&data_[prev], &data_[idx], sizeof(T));
                 } else {
                     static_assert(Move_Constructable<T>);
-                    new(&data_[next]) T{rpp::move(data_[idx])};
+                    new(&data_[prev]) T{rpp::move(data_[idx])};
                 }
             } else if(data_[idx] == value) {
                 if constexpr(Must_Destruct<T>) {
-- 
2.43.0


From 52a1877d05fb6abc6dfae0bc990989748d8a92f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 03/42] fix: Queue::clone must copy every element of
 non-trivial types

---
 rpp/queue.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index abdf42b..c88bfff 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -77,16 +77,14 @@ struct Queue {
         if constexpr(Trivially_Copyable<T>) {
             Libc::memcpy(ret.data_, data_, capacity_ * sizeof(T));
         } else if constexpr(Clone<T>) {
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
+            for(u64 n = 0; n < length_; n++) {
+                u64 i = idx_at(n);
                 new(&ret.data_[i]) T{data_[i].clone()};
             }
         } else {
             static_assert(Copy_Constructable<T>);
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
+            for(u64 n = 0; n < length_; n++) {
+                u64 i = idx_at(n);
                 new(&ret.data_[i]) T{data_[i]};
             }
         }
-- 
2.43.0


From 195822af60b769d3c21e664caf5a8fb3e22539e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 04/42] fix: Heap::top on an empty heap must assert

---
 rpp/heap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/heap.h b/rpp/heap.h
index dc65cae..fe6ab72 100644
--- a/rpp/heap.h
+++ b/rpp/heap.h
@@ -174,9 +174,11 @@ struct Heap {
     }
 
     [[nodiscard]] T& top() noexcept {
+        assert(length_ > 0);
         return data_[0];
     }
     [[nodiscard]] const T& top() const noexcept {
+        assert(length_ > 0);
         return data_[0];
     }
 
-- 
2.43.0


From f4e90a261c36333337cc4087216a6099fcb19aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 05/42] fix: Map length must not grow when an insert replaces
 an equal key

---
 rpp/map.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index d3ddf09..d903d1e 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -164,9 +164,10 @@ struct Map {
         usable_ = (capacity_ / 4) * 3;
         shift_ = Math::ctlz(capacity_) + 1;
 
+        u64 moved = 0;
         for(u64 i = 0; i < old_capacity; i++) {
             if(old_data[i].hash != Slot::EMPTY)
-                static_cast<void>(insert_slot(rpp::move(old_data[i])));
+                static_cast<void>(insert_slot(rpp::move(old_data[i]), moved));
         }
         A::free(old_data);
     }
@@ -218,8 +219,7 @@ struct Map {
     V& insert(K&& key, V&& value) noexcept {
         if(full()) grow();
         Slot slot{rpp::move(key), rpp::move(value)};
-        Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
+        Slot& placed = insert_slot(rpp::move(slot), length_);
         return placed.data->second;
     }
 
@@ -228,8 +228,7 @@ struct Map {
     V& emplace(K&& key, Args&&... args) noexcept {
         if(full()) grow();
         Slot slot{rpp::move(key), V{rpp::forward<Args>(args)...}};
-        Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
+        Slot& placed = insert_slot(rpp::move(slot), length_);
         return placed.data->second;
     }
 
@@ -404,7 +403,8 @@ struct Map {
     }
 
 private:
-    [[nodiscard]] Slot& insert_slot(Slot&& slot) noexcept {
+    // Increments count unless the slot replaces one with an equal key.
+    [[nodiscard]] Slot& insert_slot(Slot&& slot, u64& count) noexcept {
         u64 idx = slot.hash >> shift_;
         Slot* placement = null;
         u64 dist = 0;
@@ -412,6 +412,7 @@ private:
             u64 hash = data_[idx].hash;
             if(hash == Slot::EMPTY) {
                 data_[idx] = rpp::move(slot);
+                count++;
                 return placement ? *placement : data_[idx];
             }
             if(hash == slot.hash && data_[idx].data->first == slot.data->first) {
-- 
2.43.0


From 62aa9f52167a920add43194167caa5a516059fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 06/42] fix: Map capacities must be powers of two with room for
 an element

---
 rpp/map.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rpp/map.h b/rpp/map.h
index d903d1e..98dac3c 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -79,6 +79,7 @@ struct Map {
 
     explicit Map(u64 capacity) noexcept {
         capacity_ = Math::next_pow2(capacity);
+        if(capacity_ && capacity_ < 4) capacity_ = 4;
         shift_ = Math::ctlz(capacity_) + 1;
         usable_ = (capacity_ / 4) * 3;
         length_ = 0;
@@ -154,6 +155,8 @@ struct Map {
 
     void reserve(u64 new_capacity) noexcept {
         if(new_capacity <= capacity_) return;
+        new_capacity = Math::next_pow2(new_capacity);
+        if(new_capacity < 4) new_capacity = 4;
 
         Slot* old_data = data_;
         u64 old_capacity = capacity_;
-- 
2.43.0


From fc80343e8cd25750a0fefb33a714a8e0b1e07deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 07/42] fix: Map::get by view on an empty map must report the
 missing key

---
 rpp/map.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index 98dac3c..fda38f3 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -292,8 +292,10 @@ struct Map {
     [[nodiscard]] V& get(String_View key) noexcept
         requires(Any_String<K>)
     {
-        if(auto idx = try_get_<String_View>(key); idx.ok()) {
-            return data_[*idx].data->second;
+        if(!empty()) {
+            if(auto idx = try_get_<String_View>(key); idx.ok()) {
+                return data_[*idx].data->second;
+            }
         }
         die("Failed to find key %!", key);
     }
-- 
2.43.0


From e379945a9991c9f1936a92ce01fcdac0d5f393d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:31 +0000
Subject: [PATCH 08/42] fix: Map::get_or_insert of an rvalue key must compile

---
 rpp/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/map.h b/rpp/map.h
index fda38f3..aa1d28d 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -334,7 +334,7 @@ struct Map {
         requires Default_Constructable<V>
     {
         Opt<Ref<V>> entry = try_get(key);
-        if(entry) {
+        if(entry.ok()) {
             return **entry;
         }
         return insert(rpp::move(key), V{});
-- 
2.43.0


From 062ac4212e4e49b870f6437e0e9d5c6e365f604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 09/42] fix: Variant self-move must not use its destroyed value

---
 rpp/variant.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/variant.h b/rpp/variant.h
index d4700eb..a3a1f21 100644
--- a/rpp/variant.h
+++ b/rpp/variant.h
@@ -61,6 +61,7 @@ struct Variant {
     Variant& operator=(Variant&& src) noexcept
         requires(Move_Constructable<Ts> && ...)
     {
+        if(this == &src) return *this;
         destruct();
         if constexpr((Trivially_Movable<Ts> && ...)) {
             index_ = src.index_;
-- 
2.43.0


From 9b350b517beb71188aa9b545714d6a8878b77471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:12 +0000
Subject: [PATCH 10/42] fix: String comparison must not stop at an embedded NUL

---
 rpp/string0.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rpp/string0.h b/rpp/string0.h
index d692e42..d0679b9 100644
--- a/rpp/string0.h
+++ b/rpp/string0.h
@@ -198,8 +198,7 @@ template<Allocator A>
 
 [[nodiscard]] constexpr bool operator==(String_View l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 [[nodiscard]] constexpr bool operator<(String_View l, String_View r) noexcept {
@@ -214,22 +213,19 @@ template<Allocator A>
 template<Allocator A>
 [[nodiscard]] bool operator==(const String<A>& l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator B>
 [[nodiscard]] bool operator==(String_View l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
 [[nodiscard]] bool operator==(const String<A>& l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
-- 
2.43.0


From ef09deced8be639ee57fa1d1f26bcd240428a033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:12 +0000
Subject: [PATCH 11/42] fix: String::write bounds check must not overflow

---
 rpp/string1.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/string1.h b/rpp/string1.h
index bdf9b9c..71ebbb8 100644
--- a/rpp/string1.h
+++ b/rpp/string1.h
@@ -120,14 +120,14 @@ template<Allocator A>
 template<Allocator A>
 template<Allocator B>
 [[nodiscard]] u64 String<A>::write(u64 i, const String<B>& text) noexcept {
-    assert(i + text.length() <= length_);
+    assert(i <= length_ && text.length() <= length_ - i);
     Libc::memcpy(data_ + i, text.data(), text.length());
     return i + text.length();
 }
 
 template<Allocator A>
 [[nodiscard]] u64 String<A>::write(u64 i, String_View text) noexcept {
-    assert(i + text.length() <= length_);
+    assert(i <= length_ && text.length() <= length_ - i);
     Libc::memcpy(data_ + i, text.data(), text.length());
     return i + text.length();
 }
-- 
2.43.0


From 011404c9236a0c80a97c929c8620a79b05e654b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:13 +0000
Subject: [PATCH 12/42] fix: String_View path functions must see a separator at
 index 0

---
 rpp/string1.h | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/rpp/string1.h b/rpp/string1.h
index 71ebbb8..6b0d231 100644
--- a/rpp/string1.h
+++ b/rpp/string1.h
@@ -64,50 +64,38 @@ template<Allocator RA>
 
 [[nodiscard]] constexpr String_View String_View::file_suffix() const noexcept {
 
-    if(length_ == 0) return String_View{};
-
-    u64 i = length_ - 1;
-    u64 offset = 0;
+    u64 i = length_;
 
     for(; i != 0; i--) {
-        if(data_[i] == '\\' || data_[i] == '/') {
-            offset = 1;
+        if(data_[i - 1] == '\\' || data_[i - 1] == '/') {
             break;
         }
     }
-    return String_View{data_ + i + offset, length_ - i - offset};
+    return String_View{data_ + i, length_ - i};
 }
 
 [[nodiscard]] constexpr String_View String_View::file_extension() const noexcept {
 
-    if(length_ == 0) return String_View{};
-
-    u64 i = length_ - 1;
-    u64 offset = 0;
+    u64 i = length_;
 
     for(; i != 0; i--) {
-        if(data_[i] == '.' || data_[i] == '\\' || data_[i] == '/') {
-            offset = 1;
+        if(data_[i - 1] == '.' || data_[i - 1] == '\\' || data_[i - 1] == '/') {
             break;
         }
     }
-    return String_View{data_ + i + offset, length_ - i - offset};
+    return String_View{data_ + i, length_ - i};
 }
 
 [[nodiscard]] constexpr String_View String_View::remove_file_suffix() const noexcept {
 
-    if(length_ == 0) return String_View{};
-
-    bool found = 0;
-    u64 i = length_ - 1;
+    u64 i = length_;
 
     for(; i != 0; i--) {
-        if(data_[i] == '\\' || data_[i] == '/') {
-            found = 1;
+        if(data_[i - 1] == '\\' || data_[i - 1] == '/') {
             break;
         }
     }
-    return String_View{data_, i + found};
+    return String_View{data_, i};
 }
 
 template<Allocator A>
-- 
2.43.0


From 6a7dfad08fcb9923f0f1ccc31212c02c046f98b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:45 +0000
Subject: [PATCH 13/42] fix: parse_string must report a one-byte final word and
 exclude trailing white space

---
 rpp/format1.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rpp/format1.h b/rpp/format1.h
index 3b8215f..640991a 100644
--- a/rpp/format1.h
+++ b/rpp/format1.h
@@ -60,13 +60,13 @@ template<Enum E>
         start++;
     }
     for(u64 i = start; i < s.length(); i++) {
-        if((i + 1 == s.length() && start < i)) {
-            return Opt<Pair<String_View, String_View>>{Pair{s.sub(start, i + 1), String_View{}}};
-        }
         if(ascii::is_whitespace(s[i])) {
             return Opt<Pair<String_View, String_View>>{
                 Pair{s.sub(start, i), s.sub(i + 1, s.length())}};
         }
+        if(i + 1 == s.length()) {
+            return Opt<Pair<String_View, String_View>>{Pair{s.sub(start, i + 1), String_View{}}};
+        }
     }
     return {};
 }
-- 
2.43.0


From 886b58a56afee352871a70d63b3a6b2e3dc2e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:33 +0000
Subject: [PATCH 14/42] fix: Math::pow must not overflow when its result is
 representable

---
 rpp/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/math.h b/rpp/math.h
index 24f550f..2eff486 100644
--- a/rpp/math.h
+++ b/rpp/math.h
@@ -68,7 +68,7 @@ template<Int I>
             result *= base;
         }
         exp >>= 1;
-        base *= base;
+        if(exp) base *= base;
     }
     return result;
 }
-- 
2.43.0


From e286f82aab562cd229fb2f55e1f6b04141209618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:40 +0000
Subject: [PATCH 15/42] fix: scalar - Vec4 and scalar / Vec4 must not swap
 their operands

---
 rpp/vmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index e3d5f3e..c0a293c 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -900,7 +900,7 @@ constexpr Math::Vect<T, N> operator+(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator-(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::sub(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::sub(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s - v.data[i];
@@ -922,7 +922,7 @@ constexpr Math::Vect<T, N> operator*(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator/(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::div(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::div(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s / v.data[i];
-- 
2.43.0


From 2486dba85816227fb608b2fa1058bc142600efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:40 +0000
Subject: [PATCH 16/42] fix: negating a vector must not modify it

---
 rpp/vmath.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index c0a293c..ab02ef1 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -242,14 +242,15 @@ struct Vect : Vect_Base<T, N> {
             for(u64 i = 0; i < N; i++) r.data[i] = Math::abs(this->data[i]);
         return r;
     }
-    constexpr Vect operator-() noexcept
+    constexpr Vect operator-() const noexcept
         requires is_float || Signed_Int<T>
     {
+        Vect r;
         if constexpr(is_simd)
-            this->pack = F32x4::sub(F32x4::zero(), this->pack);
+            r.pack = F32x4::sub(F32x4::zero(), this->pack);
         else
-            for(u64 i = 0; i < N; i++) this->data[i] = -this->data[i];
-        return *this;
+            for(u64 i = 0; i < N; i++) r.data[i] = -this->data[i];
+        return r;
     }
 
     constexpr Vect normalize() noexcept
-- 
2.43.0


From 82c03ff5d9545575f077f30721085f0f7b0dff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:40 +0000
Subject: [PATCH 17/42] fix: Quat::inverse must be the inverse of non-unit
 quaternions too

---
 rpp/vmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index ab02ef1..8066114 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -698,7 +698,7 @@ struct Quat : detail::Vect_Base<f32, 4> {
         return Quat(-x, -y, -z, w);
     }
     Quat inverse() const noexcept {
-        return conjugate().unit();
+        return conjugate() * (1.0f / norm2());
     }
     constexpr Vec3 complex() const noexcept {
         return Vec3(x, y, z);
-- 
2.43.0


From e1f499e609858d693f66047636622c8a808e1acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 18/42] fix: Mat4::ortho must map the near and far planes to
 depths zero and one

---
 rpp/impl/vmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/impl/vmath.cpp b/rpp/impl/vmath.cpp
index 585bceb..d267218 100644
--- a/rpp/impl/vmath.cpp
+++ b/rpp/impl/vmath.cpp
@@ -228,7 +228,7 @@ Mat4 Mat4::ortho(f32 l, f32 r, f32 b, f32 t, f32 n, f32 f) noexcept {
     Mat4 ret;
     ret[0][0] = 2.0f / (r - l);
     ret[1][1] = 2.0f / (t - b);
-    ret[2][2] = 2.0f / (n - f);
+    ret[2][2] = 1.0f / (n - f);
     ret[3][0] = (-l - r) / (r - l);
     ret[3][1] = (-b - t) / (t - b);
     ret[3][2] = -n / (f - n);
-- 
2.43.0


From 87f42a301b6a79a9d566169e834dc50ea92be95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:17 +0000
Subject: [PATCH 19/42] fix: RNG unit draws must be scaled by powers of two,
 not of ten

---
 rpp/rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 7a3a5f1..00324f0 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -29,11 +29,11 @@ struct Stream {
     [[nodiscard]] constexpr F unit() noexcept {
         if constexpr(Same<F, f32>) {
             u64 r = operator()() >> 40;
-            return r * 1e-24f;
+            return r * 0x1p-24f;
         } else {
             static_assert(Same<F, f64>);
             u64 r = operator()() >> 11;
-            return r * 1e-53;
+            return r * 0x1p-53;
         }
     }
 
-- 
2.43.0


From 248f68be434c4fed986b09b00667929b254cad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:17 +0000
Subject: [PATCH 20/42] fix: shuffling an empty vector divided by zero

---
 rpp/rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 00324f0..3dda09d 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -44,7 +44,7 @@ struct Stream {
 
     template<Allocator A, Move_Constructable T>
     constexpr void shuffle(Vec<T, A>& vec) noexcept {
-        for(u64 i = 0; i < vec.length() - 1; i++) {
+        for(u64 i = 0; i + 1 < vec.length(); i++) {
             u64 j = range(i, vec.length());
             swap(vec[i], vec[j]);
         }
-- 
2.43.0


From 5031236a8a6c4dbca37ed75a40245aad3efcfed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:17 +0000
Subject: [PATCH 21/42] fix: signed ranged draws could fall below the range

---
 rpp/rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 3dda09d..a2d7d3a 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -57,8 +57,8 @@ struct Stream {
 
     template<Int I>
     [[nodiscard]] constexpr I range(I min, I max) noexcept {
-        I r = max - min;
-        return min + static_cast<I>(operator()()) % r;
+        u64 r = static_cast<u64>(max) - static_cast<u64>(min);
+        return static_cast<I>(static_cast<u64>(min) + operator()() % r);
     }
 
 private:
-- 
2.43.0


From 794e1d395d87b2110cccb923b3510cedffcf18af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 22/42] fix: equal floating-point zeros must hash equally

---
 rpp/hash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/hash.h b/rpp/hash.h
index 206eba5..632a018 100644
--- a/rpp/hash.h
+++ b/rpp/hash.h
@@ -54,6 +54,7 @@ struct Hash<char> {
 template<>
 struct Hash<f32> {
     [[nodiscard]] static u64 hash(f32 key) noexcept {
+        if(key == 0.0f) key = 0.0f; // -0.0f == 0.0f
         return squirrel5(static_cast<u64>(*reinterpret_cast<u32*>(&key)));
     }
 };
@@ -61,6 +62,7 @@ struct Hash<f32> {
 template<>
 struct Hash<f64> {
     [[nodiscard]] static u64 hash(f64 key) noexcept {
+        if(key == 0.0) key = 0.0; // -0.0 == 0.0
         return squirrel5(*reinterpret_cast<u64*>(&key));
     }
 };
-- 
2.43.0


From fa9d4c36e124e3e5584b10b74a17e6d14821ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:12 +0000
Subject: [PATCH 23/42] fix: range allocation must not wrap around when padding
 a huge request

---
 rpp/range_allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index d65b490..d320458 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -90,7 +90,7 @@ struct Range_Allocator {
         u64 padding = 0;
         while(block) {
             padding = Math::align(block->start, alignment) - block->start;
-            if(block->size >= size + padding) {
+            if(block->size >= padding && block->size - padding >= size) {
                 break;
             }
             block = block->next_free;
-- 
2.43.0


From 78d5dd4aafe78b2ea85fe97f2dffe673c1999fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:57 +0000
Subject: [PATCH 24/42] fix: a moved-to Range_Allocator must not keep using its
 destroyed mutex

---
 rpp/range_allocator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index d320458..e76dbf9 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -30,7 +30,11 @@ struct Range_Allocator {
         *this = rpp::move(src);
     }
     Range_Allocator& operator=(Range_Allocator&& src) noexcept {
-        this->~Range_Allocator();
+        if(this == &src) return *this;
+        {
+            Thread::Lock lock(mutex);
+            reset();
+        }
 
         Thread::Lock lock(src.mutex);
 
-- 
2.43.0


From 53d8b19629e3865f1ddab9e4b41f56aee8460f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:54 +0000
Subject: [PATCH 25/42] fix: assigning a Lock must release the mutex it held

---
 rpp/thread0.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpp/thread0.h b/rpp/thread0.h
index efe4e20..b64babe 100644
--- a/rpp/thread0.h
+++ b/rpp/thread0.h
@@ -64,7 +64,12 @@ struct Lock {
     Lock& operator=(const Lock&) noexcept = delete;
 
     Lock(Lock&& src) noexcept = default;
-    Lock& operator=(Lock&& src) noexcept = default;
+    Lock& operator=(Lock&& src) noexcept {
+        if(this == &src) return *this;
+        if(mutex_.ok()) mutex_->unlock();
+        mutex_ = rpp::move(src.mutex_);
+        return *this;
+    }
 
 private:
     Ref<Mutex> mutex_;
-- 
2.43.0


From 423a2884ec093938525c95b122ac6656179abcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:27 +0000
Subject: [PATCH 26/42] fix: an interrupted futex wait must not be fatal

---
 rpp/pos/thread_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index 949ec4a..bee9967 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -161,7 +161,7 @@ void Flag::block() noexcept {
 #ifdef RPP_OS_LINUX
     while(__atomic_load_n(&value_, __ATOMIC_SEQ_CST) == 0) {
         int ret = syscall(SYS_futex, &value_, FUTEX_WAIT, 0, NULL, NULL, 0);
-        if(ret == -1 && errno != EAGAIN) {
+        if(ret == -1 && errno != EAGAIN && errno != EINTR) {
             die("Failed to wait on futex: %", error(errno));
         }
     }
-- 
2.43.0


From 024099056afbd2bc8c57f2f787535b6de316a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:32 +0000
Subject: [PATCH 27/42] fix: Task::then must keep a temporary callable alive
 until it has run

---
 rpp/async.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rpp/async.h b/rpp/async.h
index 8fb0f15..9835ff8 100644
--- a/rpp/async.h
+++ b/rpp/async.h
@@ -215,15 +215,21 @@ struct Task {
     template<typename F>
         requires Invocable<F, R> && Is_Task<Invoke_Result<F, R>>
     [[nodiscard]] auto then(F&& f) noexcept -> Invoke_Result<F, R> {
+        return then_<F>(*this, rpp::forward<F>(f));
+    }
+
+private:
+    // Keeps temporary callables in the coroutine frame.
+    template<typename F>
+    [[nodiscard]] static auto then_(Task& task, F f) noexcept -> Invoke_Result<F, R> {
         if constexpr(Same<R, void>) {
-            co_await *this;
+            co_await task;
             co_return (co_await f());
         } else {
-            co_return (co_await f(co_await *this));
+            co_return (co_await f(co_await task));
         }
     }
 
-private:
     std::coroutine_handle<Promise<R, A>> handle;
 };
 
-- 
2.43.0


From d1a1da9964a6a1c3117b3e03a04e2c3d9c7f608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:12 +0000
Subject: [PATCH 28/42] fix: Pool::enqueue must not read a queue while its
 worker changes it

---
 rpp/pool.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rpp/pool.h b/rpp/pool.h
index eaad301..f20182a 100644
--- a/rpp/pool.h
+++ b/rpp/pool.h
@@ -115,9 +115,8 @@ private:
     void enqueue(Handle<> job) noexcept {
         for(u64 i = 0; i < thread_states.length(); i++) {
             Thread_State& state = thread_states[i];
-            // Race on empty
+            Thread::Lock lock(state.mut);
             if(state.jobs.empty()) {
-                Thread::Lock lock(state.mut);
                 state.jobs.push(rpp::move(job));
                 state.cond.signal();
                 return;
-- 
2.43.0


From 8850e2b4c06244411ff4dacc0bb0f85d7bc1b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:45 +0000
Subject: [PATCH 29/42] fix: a thread pool needs a worker on single-processor
 machines too

---
 rpp/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/pool.h b/rpp/pool.h
index f20182a..5543b23 100644
--- a/rpp/pool.h
+++ b/rpp/pool.h
@@ -52,7 +52,7 @@ template<Allocator A = Alloc>
 struct Pool {
 
     explicit Pool() noexcept
-        : thread_states{Vec<Thread_State, A>::make(Thread::hardware_threads() - 1)} {
+        : thread_states{Vec<Thread_State, A>::make(Math::max<u64>(Thread::hardware_threads(), 2) - 1)} {
 
         u64 h_threads = Thread::hardware_threads();
         u64 n_threads = thread_states.length();
@@ -61,7 +61,7 @@ struct Pool {
         for(u64 i = 0; i < n_threads; i++) {
             threads.push(Thread::Thread([this, i, h_threads] {
                 u64 j = i < h_threads / 2 ? i * 2 : (i - h_threads / 2) * 2 + 1;
-                Thread::set_affinity(j);
+                Thread::set_affinity(j % h_threads);
                 do_work(i);
             }));
         }
-- 
2.43.0


From 7a38697adf56cc704896c307bc318c6ff3cc4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:50 +0000
Subject: [PATCH 30/42] fix: Files::write must open the file for writing

---
 rpp/pos/files_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 1a9af7f..af1d7f5 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -42,7 +42,7 @@ namespace rpp::Files {
     int fd = -1;
     Region(R) {
         auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
+        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC, 0644);
     }
 
     if(fd == -1) {
-- 
2.43.0


From 65b503ed6de36f65ae0583b8112389c9310e0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:59 +0000
Subject: [PATCH 31/42] fix: file transfers must be complete and must not leak
 the descriptor

---
 rpp/pos/files_pos.cpp | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index af1d7f5..7fdd278 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -1,6 +1,7 @@
 
 #include "../files.h"
 
+#include <errno.h>
 #include <fcntl.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -21,17 +22,30 @@ namespace rpp::Files {
     }
 
     off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
+    if(full_size == -1 || lseek(fd, 0, SEEK_SET) == -1) {
+        warn("Failed to size file %: %", path_, Log::sys_error());
+        close(fd);
+        return {};
+    }
 
     assert(full_size <= RPP_UINT32_MAX);
 
     Vec<u8, Alloc> data(static_cast<u64>(full_size));
     data.resize(static_cast<u64>(full_size));
 
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        return {};
+    u64 done = 0;
+    while(done < data.length()) {
+        ssize_t got = ::read(fd, data.data() + done, data.length() - done);
+        if(got == -1 && errno == EINTR) continue;
+        if(got == -1) {
+            warn("Failed to read file %: %", path_, Log::sys_error());
+            close(fd);
+            return {};
+        }
+        if(got == 0) break;
+        done += static_cast<u64>(got);
     }
+    data.resize(done);
 
     close(fd);
     return Opt{rpp::move(data)};
@@ -50,12 +64,22 @@ namespace rpp::Files {
         return false;
     }
 
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        return false;
+    u64 done = 0;
+    while(done < data.length()) {
+        ssize_t put = ::write(fd, data.data() + done, data.length() - done);
+        if(put == -1 && errno == EINTR) continue;
+        if(put == -1) {
+            warn("Failed to write file %: %", path_, Log::sys_error());
+            close(fd);
+            return false;
+        }
+        done += static_cast<u64>(put);
     }
 
-    close(fd);
+    if(close(fd) == -1) {
+        warn("Failed to close file %: %", path_, Log::sys_error());
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From 151cb25701b7e3b78def4e158df6cc3af5cd9ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:31 +0000
Subject: [PATCH 32/42] fix: assigning a Udp socket must close the one it held

---
 rpp/pos/net_pos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 5da2d9b..c83e7f7 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -44,6 +44,8 @@ Udp::Udp(Udp&& src) noexcept {
 }
 
 Udp& Udp::operator=(Udp&& src) noexcept {
+    if(this == &src) return *this;
+    this->~Udp();
     fd = src.fd;
     src.fd = -1;
     return *this;
-- 
2.43.0


From 135ded2e7f94c6e1d34c714d0c6416c1cad2573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:31 +0000
Subject: [PATCH 33/42] fix: Udp::recv must not report errors or oversized
 datagrams as data

---
 rpp/pos/net_pos.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index c83e7f7..1b8f868 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -65,7 +65,15 @@ void Udp::bind(Address address) noexcept {
     i64 ret = ::recvfrom(fd, in.begin(), in.capacity, MSG_DONTWAIT | MSG_TRUNC,
                          reinterpret_cast<sockaddr*>(&src.sockaddr_), &src_len);
 
-    if(ret == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+    if(ret == -1) {
+        if(errno != EAGAIN && errno != EWOULDBLOCK) {
+            warn("Failed to receive packet: %", Log::sys_error());
+        }
+        return Opt<Data>{};
+    }
+
+    if(static_cast<u64>(ret) > in.capacity) {
+        warn("Dropped packet of length %: larger than %.", ret, in.capacity);
         return Opt<Data>{};
     }
 
-- 
2.43.0


From ec015a45aef930e04625e8f48dd7ca407e8b6576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:31 +0000
Subject: [PATCH 34/42] fix: Udp::send must not read past the end of the packet

---
 rpp/pos/net_pos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 1b8f868..d9ee2b3 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -82,6 +82,8 @@ void Udp::bind(Address address) noexcept {
 
 [[nodiscard]] u64 Udp::send(Address address, const Packet& out, u64 length) noexcept {
 
+    assert(length <= out.capacity);
+
     i64 ret = ::sendto(fd, out.data(), length, 0,
                        reinterpret_cast<const sockaddr*>(&address.sockaddr_), sizeof(sockaddr_in));
     if(ret == -1) {
-- 
2.43.0


From b8389b01810364180d3ea504dab321efd46407eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:31 +0000
Subject: [PATCH 35/42] fix: Net::Address must not read past the end of its
 text

---
 rpp/pos/net_pos.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index d9ee2b3..6e19957 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -12,9 +12,12 @@ Address::Address(String_View address, u16 port) noexcept {
     sockaddr_.sin_family = AF_INET;
     sockaddr_.sin_port = htons(port);
 
-    if(inet_pton(AF_INET, reinterpret_cast<const char*>(address.data()),
-                 &sockaddr_.sin_addr.s_addr) != 1) {
-        die("Failed to create address: %", Log::sys_error());
+    Region(R) {
+        auto terminated = address.terminate<Mregion<R>>();
+        if(inet_pton(AF_INET, reinterpret_cast<const char*>(terminated.data()),
+                     &sockaddr_.sin_addr.s_addr) != 1) {
+            die("Failed to create address: %", Log::sys_error());
+        }
     }
 }
 
-- 
2.43.0


From ee1eb4443b94fa9ee314408088c6f85e209b6dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:35 +0000
Subject: [PATCH 36/42] fix: asynchronous file transfers must be complete and
 must not leak the descriptor

---
 rpp/pos/asyncio_pos.cpp | 55 +++--------------------------------------
 1 file changed, 4 insertions(+), 51 deletions(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 8748b85..e6b11dd 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -2,66 +2,19 @@
 #include "../asyncio.h"
 #include "../files.h"
 
-#include <fcntl.h>
 #include <sys/epoll.h>
-#include <sys/stat.h>
 #include <sys/timerfd.h>
-#include <unistd.h>
 
 // The file IO operations are not actually async.
 
 namespace rpp::Async {
 
-[[nodiscard]] Task<Opt<Vec<u8, Files::Alloc>>> read(Pool<>& pool, String_View path_) noexcept {
-
-    int fd = -1;
-    Region(R) {
-        auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
-    }
-
-    if(fd == -1) {
-        warn("Failed to open file %: %", path_, Log::sys_error());
-        co_return {};
-    }
-
-    off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
-
-    assert(full_size <= UINT32_MAX);
-
-    Vec<u8, Files::Alloc> data(static_cast<u64>(full_size));
-    data.resize(static_cast<u64>(full_size));
-
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        co_return {};
-    }
-
-    close(fd);
-    co_return Opt{rpp::move(data)};
+[[nodiscard]] Task<Opt<Vec<u8, Files::Alloc>>> read(Pool<>& pool, String_View path) noexcept {
+    co_return Files::read(path);
 }
 
-[[nodiscard]] Task<bool> write(Pool<>& pool, String_View path_, Slice<u8> data) noexcept {
-
-    int fd = -1;
-    Region(R) {
-        auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC);
-    }
-
-    if(fd == -1) {
-        warn("Failed to create file %: %", path_, Log::sys_error());
-        co_return false;
-    }
-
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        co_return false;
-    }
-
-    close(fd);
-    co_return true;
+[[nodiscard]] Task<bool> write(Pool<>& pool, String_View path, Slice<u8> data) noexcept {
+    co_return Files::write(path, data);
 }
 
 [[nodiscard]] Task<void> wait(Pool<>& pool, u64 ms) noexcept {
-- 
2.43.0


From 4b17e4ab9f8009eb72bd655e71553997833549dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:35 +0000
Subject: [PATCH 37/42] fix: an asynchronous wait of zero milliseconds must end

---
 rpp/pos/asyncio_pos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index e6b11dd..21afdd5 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -27,6 +27,10 @@ namespace rpp::Async {
     itimerspec spec = {};
     spec.it_value.tv_sec = ms / 1000;
     spec.it_value.tv_nsec = (ms % 1000) * 1000000;
+    if(ms == 0) {
+        // A zero value would disarm the timer.
+        spec.it_value.tv_nsec = 1;
+    }
 
     if(timerfd_settime(fd, 0, &spec, null) == -1) {
         die("Failed to set timerfd: %", Log::sys_error());
-- 
2.43.0


From 2ce18050fa9ba9a7374e3ba76cf538bb824556da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:35 +0000
Subject: [PATCH 38/42] fix: an interrupted wait for events must not be fatal

---
 rpp/pos/async_pos.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index 7877f47..e72d4f1 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -1,6 +1,7 @@
 
 #include "../async.h"
 
+#include <errno.h>
 #include <sys/epoll.h>
 #include <sys/eventfd.h>
 #include <unistd.h>
@@ -83,7 +84,10 @@ void Event::reset() const noexcept {
     }
 
     epoll_event ev;
-    int ret = epoll_wait(epfd, &ev, 1, -1);
+    int ret;
+    do {
+        ret = epoll_wait(epfd, &ev, 1, -1);
+    } while(ret == -1 && errno == EINTR);
 
     if(ret == -1) {
         die("Failed to wait on events: %", Log::sys_error());
-- 
2.43.0


From 6776a00918639512c806797f013cd10a8fe39816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:35 +0000
Subject: [PATCH 39/42] fix: resetting an event that is not signalled must not
 be fatal

---
 rpp/pos/async_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index e72d4f1..893e970 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -57,7 +57,7 @@ void Event::signal() const noexcept {
 void Event::reset() const noexcept {
     u64 value = 0;
     int ret = read(fd, &value, sizeof(value));
-    if(ret == -1) {
+    if(ret == -1 && errno != EAGAIN) {
         die("Failed to reset event: %", Log::sys_error());
     }
 }
-- 
2.43.0


From 4b37635da5e6a7ead0698549d6ad2d8fb5663197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:21 +0000
Subject: [PATCH 40/42] fix: region memory must be aligned for every type

---
 rpp/impl/alloc.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/alloc.cpp b/rpp/impl/alloc.cpp
index e5efca6..e1d7c32 100644
--- a/rpp/impl/alloc.cpp
+++ b/rpp/impl/alloc.cpp
@@ -10,12 +10,14 @@ static Thread::Atomic g_net_allocs;
 
 using Regions = Mallocator<"Regions", false>;
 
-struct Chunk {
+constexpr u64 REGION_ALIGN = 16;
+
+struct alignas(REGION_ALIGN) Chunk {
     Chunk* up = null;
     u64 size = 0;
     u64 used = 0;
 };
-static_assert(sizeof(Chunk) == 24);
+static_assert(sizeof(Chunk) == 32);
 
 constexpr u64 FIRST_CHUNK_SIZE = Math::KB(1);
 constexpr u64 MAX_REGION_DEPTH = 128;
@@ -49,6 +51,7 @@ static void assert_brand(Region brand) noexcept {
 
 [[nodiscard]] void* Region_Allocator::alloc(Region brand, u64 size) noexcept {
     assert_brand(brand);
+    size = Math::align_pow2(size, REGION_ALIGN);
     if(chunks->size - chunks->used < size) {
         new_chunk(size);
     }
-- 
2.43.0


From 9e5757973932e7880cdb793019ceb1edc0b312f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:21 +0000
Subject: [PATCH 41/42] fix: re-entering a profiled zone must count towards the
 zone, not its parent

---
 rpp/impl/profile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index f1b40a3..6ae6fe3 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -134,8 +134,9 @@ void Profile::Frame_Profile::enter(Log::Location loc) noexcept {
         nodes.push(Timing_Node::make(rpp::move(loc), current_node));
         current_node = child_idx;
     } else {
-        node.begin = timestamp();
-        node.calls++;
+        Timing_Node& child = nodes[current_node];
+        child.begin = timestamp();
+        child.calls++;
     }
 }
 
-- 
2.43.0


From a448ed36fef2012429c53a9c7c1d9e5d0b144581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:21 +0000
Subject: [PATCH 42/42] fix: a thread that ends during a profiled frame must
 not stop the program

---
 rpp/profile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/profile.h b/rpp/profile.h
index 62d2369..dc26bd1 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -141,9 +141,9 @@ private:
         }
 
         void finalize() noexcept {
-            frames = {};
             if(during_frame) Profile::end_frame();
             if(registered) Profile::unregister_thread();
+            frames = {};
         }
 
         bool ready() noexcept {
-- 
2.43.0

