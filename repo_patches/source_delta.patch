From c91ecb983a1af4508d2d9565a3fa9425812a4a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:08 +0000
Subject: [PATCH 01/19] fix: don't leak the slot reference when an invoked slot
 throws

---
 include/kl/signal.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 578d981..08487b4 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -612,6 +612,9 @@ public:
                 current->add_ref();
         }
         KL_DEFER({
+            // Still set only if the slot being invoked has thrown
+            if (current)
+                current->release();
             if (last)
                 last->release();
 
-- 
2.43.0


From b4ca36fe745222b4c17ae4740bbadcbb1aafab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:02 +0000
Subject: [PATCH 02/19] fix: destroy slots outside of the signal's lock

---
 include/kl/signal.hpp | 64 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 08487b4..718b7a5 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -428,8 +428,9 @@ public:
             deferred_cleanup_ = other.deferred_cleanup_;
             other.deferred_cleanup_ = false;
         }
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
-        rebind_locked();
+        rebind_locked(removed);
     }
 
     /**
@@ -618,10 +619,11 @@ public:
             if (last)
                 last->release();
 
+            removed_slots removed;
             std::lock_guard<std::mutex> lock{mutex_};
             const auto prev = active_emissions_--;
             if (prev == 1)
-                cleanup_invalidated_slots_locked();
+                cleanup_invalidated_slots_locked(removed);
         });
 
         while (current)
@@ -660,6 +662,7 @@ public:
      */
     void disconnect_all_slots() noexcept
     {
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
         const bool can_remove = !emission_in_progress();
         for (slot *iter = slots_, *prev = nullptr; iter;)
@@ -667,7 +670,7 @@ public:
             iter->invalidate();
             if (can_remove)
             {
-                iter = remove_slot_locked(*iter, prev);
+                iter = remove_slot_locked(*iter, prev, removed);
             }
             else
             {
@@ -704,6 +707,7 @@ public:
     {
         if (&left == &right)
             return;
+        removed_slots removed;
         std::scoped_lock lock{left.mutex_, right.mutex_};
         terminate_if_emitting_locked(left.emission_in_progress() ||
                                      right.emission_in_progress());
@@ -712,11 +716,46 @@ public:
         swap(left.tail_, right.tail_);
         swap(left.deferred_cleanup_, right.deferred_cleanup_);
 
-        left.rebind_locked();
-        right.rebind_locked();
+        left.rebind_locked(removed);
+        right.rebind_locked(removed);
     }
 
 private:
+    struct slot;
+
+    // Slots unlinked from the list while holding the mutex. Destroying a slot
+    // runs user code (destructors of captured objects) which may call back into
+    // the signal, hence they're released only after the mutex is unlocked.
+    struct removed_slots
+    {
+        removed_slots() noexcept = default;
+        ~removed_slots()
+        {
+            while (head)
+            {
+                slot* next = head->next;
+                head->release();
+                head = next;
+            }
+        }
+
+        removed_slots(const removed_slots&) = delete;
+        removed_slots& operator=(const removed_slots&) = delete;
+
+        void push_back(slot& removed) noexcept
+        {
+            removed.next = nullptr;
+            if (tail)
+                tail->next = &removed;
+            else
+                head = &removed;
+            tail = &removed;
+        }
+
+        slot* head{nullptr};
+        slot* tail{nullptr};
+    };
+
     static void terminate_if_emitting_locked(bool emission_in_progress) noexcept
     {
         if (!emission_in_progress)
@@ -728,6 +767,7 @@ private:
 
     void disconnect(std::uintptr_t id) noexcept override
     {
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
         const bool can_remove = !emission_in_progress();
         for (slot *iter = slots_, *prev = nullptr; iter;
@@ -739,7 +779,7 @@ private:
             iter->invalidate();
             if (can_remove)
             {
-                remove_slot_locked(*iter, prev);
+                remove_slot_locked(*iter, prev, removed);
             }
             else
             {
@@ -750,9 +790,9 @@ private:
         }
     }
 
-    void rebind_locked() noexcept
+    void rebind_locked(removed_slots& removed) noexcept
     {
-        cleanup_invalidated_slots_locked();
+        cleanup_invalidated_slots_locked(removed);
 
         // Rebind back-pointer to new signal
         for (auto iter = slots_; iter; iter = iter->next)
@@ -761,7 +801,7 @@ private:
         }
     }
 
-    void cleanup_invalidated_slots_locked() noexcept
+    void cleanup_invalidated_slots_locked(removed_slots& removed) noexcept
     {
         if (!deferred_cleanup_)
             return;
@@ -782,7 +822,7 @@ private:
             }
             else
             {
-                iter = remove_slot_locked(*iter, prev);
+                iter = remove_slot_locked(*iter, prev, removed);
             }
         }
         deferred_cleanup_ = false;
@@ -847,7 +887,7 @@ private:
         }
     }
 
-    slot* remove_slot_locked(slot& to_remove, slot* prev) noexcept
+    slot* remove_slot_locked(slot& to_remove, slot* prev, removed_slots& removed) noexcept
     {
         assert(!emission_in_progress());
         slot* next = to_remove.next;
@@ -857,7 +897,7 @@ private:
             slots_ = next;
         if (tail_ == &to_remove)
             tail_ = prev ? prev : slots_;
-        to_remove.release();
+        removed.push_back(to_remove);
         return next;
     }
 };
-- 
2.43.0


From c4b185a1d8b96aac5008573930622f171d3d88f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:01 +0000
Subject: [PATCH 03/19] fix: treat characters as octets in the hash functions

---
 include/kl/hash.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/kl/hash.hpp b/include/kl/hash.hpp
index ac174c5..4fada48 100644
--- a/include/kl/hash.hpp
+++ b/include/kl/hash.hpp
@@ -11,7 +11,7 @@ constexpr std::uint32_t fnv1a(const char* data, std::size_t length) noexcept
 {
     uint32_t hash = 2166136261U;
     for (std::size_t i = 0; i < length; ++i)
-        hash = (hash ^ static_cast<uint32_t>(data[i])) * 16777619U;
+        hash = (hash ^ static_cast<unsigned char>(data[i])) * 16777619U;
     return hash;
 }
 
@@ -39,7 +39,8 @@ namespace detail {
 
 constexpr std::uint16_t get16bits(const char* d) noexcept
 {
-    return static_cast<std::uint16_t>(d[0] | (d[1] << 8));
+    return static_cast<std::uint16_t>(static_cast<unsigned char>(d[0]) |
+                                      (static_cast<unsigned char>(d[1]) << 8));
 }
 } // namespace detail
 
@@ -70,7 +71,9 @@ constexpr std::uint32_t hsieh(const char* data, std::size_t length) noexcept
     case 3:
         hash += detail::get16bits(data);
         hash ^= hash << 16;
-        hash ^= static_cast<signed char>(data[sizeof(uint16_t)]) << 18;
+        hash ^= static_cast<uint32_t>(
+                    static_cast<signed char>(data[sizeof(uint16_t)]))
+                << 18;
         hash += hash >> 11;
         break;
     case 2:
-- 
2.43.0


From ea300bb0c02087ff8a98c546ce48ae4b42e068c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:01 +0000
Subject: [PATCH 04/19] fix: don't overflow when skipping back by the lowest
 offset

---
 include/kl/binary_rw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kl/binary_rw.hpp b/include/kl/binary_rw.hpp
index 3eb0702..c0ddaeb 100644
--- a/include/kl/binary_rw.hpp
+++ b/include/kl/binary_rw.hpp
@@ -35,7 +35,7 @@ public:
         // Make sure pos_ does not escape of buffer range
         if (off > 0 && static_cast<std::size_t>(off) > left())
             err_ = true;
-        if (off < 0 && static_cast<std::size_t>(-off) > pos_)
+        if (off < 0 && 0 - static_cast<std::size_t>(off) > pos_)
             err_ = true;
 
         if (!err_)
-- 
2.43.0


From 94d4569187daf5c09c1d8ff0df6bddda6ab9a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:01 +0000
Subject: [PATCH 05/19] fix: don't pass null pointers to memcpy for empty spans

---
 include/kl/binary_rw.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kl/binary_rw.hpp b/include/kl/binary_rw.hpp
index c0ddaeb..17c56e5 100644
--- a/include/kl/binary_rw.hpp
+++ b/include/kl/binary_rw.hpp
@@ -155,7 +155,8 @@ private:
         if (err_ || static_cast<std::size_t>(left()) < size)
             return false;
 
-        std::memcpy(data, cursor(), size);
+        if (size != 0)
+            std::memcpy(data, cursor(), size);
         return true;
     }
 
@@ -235,7 +236,8 @@ private:
             return false;
         }
 
-        std::memcpy(cursor(), data, size);
+        if (size != 0)
+            std::memcpy(cursor(), data, size);
         pos_ += size;
 
         return true;
-- 
2.43.0


From 9eca476ac2f5e3d885f52ed605adf164b25af560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:01 +0000
Subject: [PATCH 06/19] fix: check lengths against the remaining bytes before
 allocating

---
 include/kl/binary_rw/string.hpp | 6 ++++++
 include/kl/binary_rw/vector.hpp | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/kl/binary_rw/string.hpp b/include/kl/binary_rw/string.hpp
index 270174b..392d408 100644
--- a/include/kl/binary_rw/string.hpp
+++ b/include/kl/binary_rw/string.hpp
@@ -24,6 +24,12 @@ void read_binary(kl::binary_reader& r, std::string& str)
     if (!size)
         return;
 
+    if (size > r.left())
+    {
+        r.notify_error();
+        return;
+    }
+
     str.resize(size);
     r >> gsl::make_span(str);
 
diff --git a/include/kl/binary_rw/vector.hpp b/include/kl/binary_rw/vector.hpp
index 0a039c5..73d8d17 100644
--- a/include/kl/binary_rw/vector.hpp
+++ b/include/kl/binary_rw/vector.hpp
@@ -3,6 +3,7 @@
 #include "kl/binary_rw.hpp"
 #include "kl/type_traits.hpp"
 
+#include <algorithm>
 #include <vector>
 
 namespace kl {
@@ -39,6 +40,12 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
 
     if (size)
     {
+        if (size > r.left() / sizeof(T))
+        {
+            r.notify_error();
+            return;
+        }
+
         vec.resize(size);
         r >> gsl::span<T>{vec};
 
@@ -57,7 +64,7 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
     const auto size = r.read<std::uint32_t>();
 
     vec.clear();
-    vec.reserve(size);
+    vec.reserve(std::min<std::size_t>(size, r.left()));
 
     for (std::uint32_t i = 0; i < size; ++i)
     {
-- 
2.43.0


From 6a3677bfdb0b2d9dd3dd8028a32e9578be49cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:24 +0000
Subject: [PATCH 07/19] fix: don't negate the distance between enum iterators

---
 include/kl/enum_range.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kl/enum_range.hpp b/include/kl/enum_range.hpp
index 2fa4738..6ae00eb 100644
--- a/include/kl/enum_range.hpp
+++ b/include/kl/enum_range.hpp
@@ -35,7 +35,8 @@ public:
 
     std::ptrdiff_t distance_to(const enum_iterator& other) const
     {
-        return other.index_ - index_;
+        return static_cast<std::ptrdiff_t>(index_) -
+               static_cast<std::ptrdiff_t>(other.index_);
     }
 
     bool equal_to(const enum_iterator& other) const
-- 
2.43.0


From 128355f7d7dc36af3b3d5c115238f97d5474064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:24 +0000
Subject: [PATCH 08/19] fix: check integers of the other signedness against an
 enum range properly

---
 include/kl/enum_traits.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/kl/enum_traits.hpp b/include/kl/enum_traits.hpp
index 895c3db..fee596a 100644
--- a/include/kl/enum_traits.hpp
+++ b/include/kl/enum_traits.hpp
@@ -92,7 +92,20 @@ struct enum_trait_support_range
     template <typename Integral, enable_if<std::is_integral<Integral>> = true>
     static constexpr bool in_range(Integral v) noexcept
     {
-        return v >= min_value() && v < max_value();
+        return !less(v, min_value()) && less(v, max_value());
+    }
+
+private:
+    // Compares values of integers, also of different signedness
+    template <typename T, typename U>
+    static constexpr bool less(T left, U right) noexcept
+    {
+        if constexpr (std::is_signed_v<T> == std::is_signed_v<U>)
+            return left < right;
+        else if constexpr (std::is_signed_v<T>)
+            return left < 0 || static_cast<std::make_unsigned_t<T>>(left) < right;
+        else
+            return right >= 0 && left < static_cast<std::make_unsigned_t<U>>(right);
     }
 };
 
-- 
2.43.0


From 0987094b37a8f86d9802777fbb98856b062a55c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:56 +0000
Subject: [PATCH 09/19] fix: detect a failed mmap

---
 src/file_view_unix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_view_unix.cpp b/src/file_view_unix.cpp
index a9e84d0..fa5a5f6 100644
--- a/src/file_view_unix.cpp
+++ b/src/file_view_unix.cpp
@@ -77,7 +77,7 @@ file_view::file_view(const char* file_path)
 
     void* mapped = ::mmap(nullptr, static_cast<std::size_t>(file_info.st_size),
                           PROT_READ, MAP_PRIVATE, fd, 0);
-    if (!mapped)
+    if (mapped == MAP_FAILED)
         throw_system_error();
 
     contents_ = gsl::span{static_cast<const std::byte*>(mapped),
-- 
2.43.0


From 34416d7d5a0d7cfdaa6db90f7061d87fcca42213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:56 +0000
Subject: [PATCH 10/19] fix: don't unmap the same file twice when a file_view
 is moved

---
 include/kl/file_view.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/kl/file_view.hpp b/include/kl/file_view.hpp
index 0ac80a8..4a8fc10 100644
--- a/include/kl/file_view.hpp
+++ b/include/kl/file_view.hpp
@@ -3,6 +3,7 @@
 #include <gsl/span>
 
 #include <cstddef>
+#include <utility>
 
 namespace kl {
 
@@ -12,6 +13,17 @@ public:
     explicit file_view(const char* file_path);
     ~file_view();
 
+    file_view(file_view&& other) noexcept
+        : contents_{std::exchange(other.contents_, {})}
+    {
+    }
+
+    file_view& operator=(file_view&& other) noexcept
+    {
+        std::swap(contents_, other.contents_);
+        return *this;
+    }
+
     gsl::span<const std::byte> get_bytes() const noexcept { return contents_; }
 
 private:
-- 
2.43.0


From eac145820ac85a1f75adf68b5bb7983ba8707133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:56 +0000
Subject: [PATCH 11/19] fix: don't change copies of exception_info when
 unsetting a value

---
 include/kl/exception_info.hpp | 76 ++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/include/kl/exception_info.hpp b/include/kl/exception_info.hpp
index 41813cf..1fb1eb1 100644
--- a/include/kl/exception_info.hpp
+++ b/include/kl/exception_info.hpp
@@ -26,8 +26,13 @@ public:
     virtual const void* find(const std::type_info& tag) const noexcept = 0;
     virtual void* find(const std::type_info& tag) noexcept = 0;
     virtual void diagnostic_info(std::ostream& os) = 0;
+};
 
-    std::shared_ptr<exception_info_node_base> next_{};
+// Links are shared between copies of exception_info thus they're never modified
+struct exception_info_link
+{
+    std::shared_ptr<exception_info_node_base> node;
+    std::shared_ptr<exception_info_link> next;
 };
 
 struct demangled_type_name
@@ -134,46 +139,38 @@ public:
     template <typename Tag>
     exception_info& set(const typename Tag::type& x)
     {
-        auto node = std::make_shared<detail::exception_info_node<Tag>>(x);
-        node->next_ = head_;
-        head_ = node;
+        push(std::make_shared<detail::exception_info_node<Tag>>(x));
         return *this;
     }
 
     template <typename Tag>
     exception_info& set(typename Tag::type&& x)
     {
-        auto node =
-            std::make_shared<detail::exception_info_node<Tag>>(std::move(x));
-        node->next_ = head_;
-        head_ = node;
+        push(std::make_shared<detail::exception_info_node<Tag>>(std::move(x)));
         return *this;
     }
 
     template <typename Tag>
-    exception_info& unset() noexcept
+    exception_info& unset()
     {
-        if (!head_)
-            return *this;
-
-        std::shared_ptr<detail::exception_info_node_base>* node = &head_;
-        std::shared_ptr<detail::exception_info_node_base>* prev = nullptr;
         const auto& tag = typeid(Tag);
 
-        while (*node)
+        auto found = head_;
+        while (found && !found->node->find(tag))
+            found = found->next;
+        if (!found)
+            return *this;
+
+        // Rebuild the links in front of the one being removed
+        std::shared_ptr<detail::exception_info_link> head;
+        auto* tail = &head;
+        for (auto link = head_; link != found; link = link->next)
         {
-            if ((*node)->find(tag))
-            {
-                if (prev)
-                    (*prev)->next_ = (*node)->next_;
-                else
-                    head_ = (*node)->next_;
-                break;
-            }
-
-            prev = node;
-            node = &(*node)->next_;
+            *tail = make_link(link->node, nullptr);
+            tail = &(*tail)->next;
         }
+        *tail = found->next;
+        head_ = std::move(head);
 
         return *this;
     }
@@ -188,11 +185,11 @@ public:
     [[nodiscard]] typename Tag::type* get() noexcept
     {
         const auto& tag = typeid(Tag);
-        for (auto* node = &head_; *node;)
+        for (auto* link = &head_; *link;)
         {
-            if (void* ptr = (*node)->find(tag); ptr)
+            if (void* ptr = (*link)->node->find(tag); ptr)
                 return static_cast<typename Tag::type*>(ptr);
-            node = &(*node)->next_;
+            link = &(*link)->next;
         }
 
         return nullptr;
@@ -208,21 +205,34 @@ public:
 
         ss << ": throw_with_info in function "
            << (function_ ? function_ : "<unknown-function>") << '\n';
-        for (auto* node = &head_; *node;)
+        for (auto* link = &head_; *link;)
         {
-            (*node)->diagnostic_info(ss);
-            node = &(*node)->next_;
+            (*link)->node->diagnostic_info(ss);
+            link = &(*link)->next;
         }
         return ss.str();
     }
 
 private:
+    static std::shared_ptr<detail::exception_info_link>
+        make_link(std::shared_ptr<detail::exception_info_node_base> node,
+                  std::shared_ptr<detail::exception_info_link> next)
+    {
+        return std::make_shared<detail::exception_info_link>(
+            detail::exception_info_link{std::move(node), std::move(next)});
+    }
+
+    void push(std::shared_ptr<detail::exception_info_node_base> node)
+    {
+        head_ = make_link(std::move(node), head_);
+    }
+
     const char* file_{};
     int line_{};
     const char* function_{};
 
     // Not unique because of copyability requirement
-    std::shared_ptr<detail::exception_info_node_base> head_{};
+    std::shared_ptr<detail::exception_info_link> head_{};
 };
 
 namespace detail {
-- 
2.43.0


From e4ee4ae72f942bc331a916c459945d61318e6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:52 +0000
Subject: [PATCH 12/19] fix: don't ignore text after a NUL when parsing JSON

---
 include/kl/json.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kl/json.hpp b/include/kl/json.hpp
index 8e6a3ae..8464536 100644
--- a/include/kl/json.hpp
+++ b/include/kl/json.hpp
@@ -859,6 +859,10 @@ rapidjson::Value serialize(const T& obj, Context& ctx)
 
 inline rapidjson::Document parse(std::string_view text)
 {
+    // RapidJSON takes a NUL for the end of the text and would ignore whatever follows it
+    if (text.find('\0') != std::string_view::npos)
+        throw kl::serialization::parse_error{"Unexpected NUL character."};
+
     rapidjson::Document doc;
     rapidjson::ParseResult ok = doc.Parse(text.data(), text.length());
     if (!ok)
-- 
2.43.0


From be6bc045aa8018fe8aa53c05763965b96f60422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:08 +0000
Subject: [PATCH 13/19] fix: don't take members of the enclosing object for
 extra fields of a flattened field

---
 include/kl/detail/serialization.hpp | 64 +++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/include/kl/detail/serialization.hpp b/include/kl/detail/serialization.hpp
index 0a0da12..4c3fff2 100644
--- a/include/kl/detail/serialization.hpp
+++ b/include/kl/detail/serialization.hpp
@@ -487,6 +487,21 @@ const string_set* reserved_field_names()
     }
 }
 
+// Checks if there's an extra_fields field among the (possibly flattened) fields
+template <typename Reflectable>
+constexpr bool has_extra_fields()
+{
+    bool result = false;
+    ctti::reflect_type<Reflectable, validator_attribute_filter>([&result](auto field) {
+        using Field = decltype(field);
+        if constexpr (Field::template has<attributes::extra_fields_t>())
+            result = true;
+        else if constexpr (Field::template has<attributes::flatten_t>())
+            result = result || has_extra_fields<typename Field::value_type>();
+    });
+    return result;
+}
+
 template <typename Reflectable>
 constexpr std::size_t sequence_deserializable_field_count()
 {
@@ -897,10 +912,11 @@ void deserialize_adl(FixedSizeRange& out, const typename Backend::value_type& va
     }
 }
 
-template <typename Backend, typename Reflectable, typename Context,
-          enable_if<ctti::is_reflectable<Reflectable>> = true>
-void deserialize_adl(Reflectable& out, const typename Backend::value_type& value,
-                     Context& ctx)
+// When `out` is a flattened field, `enclosing_names` are the reserved names of the object it's
+// flattened into: these aren't extra fields either
+template <typename Backend, typename Reflectable, typename Context>
+void deserialize_reflectable(Reflectable& out, const typename Backend::value_type& value,
+                             const string_set* enclosing_names, Context& ctx)
 try
 {
     static_assert(deserialize_field_names_validator<Reflectable>::validate(),
@@ -908,7 +924,8 @@ try
 
     if (Backend::is_map(value))
     {
-        const auto* reserved_names = reserved_field_names<Reflectable>();
+        const auto* reserved_names =
+            enclosing_names ? enclosing_names : reserved_field_names<Reflectable>();
 
         ctti::reflect_object(out, [&value, &reserved_names, &ctx](auto field) {
             check_field_attributes<decltype(field)>();
@@ -952,7 +969,11 @@ try
                 {
                     if constexpr (Field::template has<attributes::flatten_t>())
                     {
-                        Backend::deserialize(field.value(), value, ctx);
+                        if constexpr (has_extra_fields<typename Field::value_type>())
+                            deserialize_reflectable<Backend>(field.value(), value,
+                                                             reserved_names, ctx);
+                        else
+                            Backend::deserialize(field.value(), value, ctx);
                         return;
                     }
 
@@ -1037,6 +1058,14 @@ catch (deserialize_error& ex)
     throw;
 }
 
+template <typename Backend, typename Reflectable, typename Context,
+          enable_if<ctti::is_reflectable<Reflectable>> = true>
+void deserialize_adl(Reflectable& out, const typename Backend::value_type& value,
+                     Context& ctx)
+{
+    deserialize_reflectable<Backend>(out, value, nullptr, ctx);
+}
+
 template <typename Backend, typename Enum, typename Context,
           enable_if<std::is_enum<Enum>> = true>
 void deserialize_adl(Enum& out, const typename Backend::value_type& value, Context& ctx)
@@ -1119,10 +1148,9 @@ void deserialize_adl(std::optional<T>& out, const typename Backend::value_type&
 
 // patch_adl implementation
 
-template <typename Backend, typename Reflectable, typename Context,
-          enable_if<ctti::is_reflectable<Reflectable>> = true>
-void patch_adl(Reflectable& out, const typename Backend::value_type& value,
-               Context& ctx)
+template <typename Backend, typename Reflectable, typename Context>
+void patch_reflectable(Reflectable& out, const typename Backend::value_type& value,
+                       const string_set* enclosing_names, Context& ctx)
 try
 {
     static_assert(deserialize_field_names_validator<Reflectable>::validate(),
@@ -1135,7 +1163,8 @@ try
         return;
     }
 
-    const auto* reserved_names = reserved_field_names<Reflectable>();
+    const auto* reserved_names =
+        enclosing_names ? enclosing_names : reserved_field_names<Reflectable>();
 
     ctti::reflect_object(out, [&value, &reserved_names, &ctx](auto field) {
         check_field_attributes<decltype(field)>();
@@ -1188,7 +1217,10 @@ try
             {
                 if constexpr (Field::template has<attributes::flatten_t>())
                 {
-                    Backend::patch(field.value(), value, ctx);
+                    if constexpr (has_extra_fields<typename Field::value_type>())
+                        patch_reflectable<Backend>(field.value(), value, reserved_names, ctx);
+                    else
+                        Backend::patch(field.value(), value, ctx);
                     return;
                 }
 
@@ -1220,6 +1252,14 @@ catch (deserialize_error& ex)
     throw;
 }
 
+template <typename Backend, typename Reflectable, typename Context,
+          enable_if<ctti::is_reflectable<Reflectable>> = true>
+void patch_adl(Reflectable& out, const typename Backend::value_type& value,
+               Context& ctx)
+{
+    patch_reflectable<Backend>(out, value, nullptr, ctx);
+}
+
 template <typename Backend, typename T, typename Context>
 void patch_adl(std::optional<T>& out, const typename Backend::value_type& value,
                Context& ctx)
-- 
2.43.0


From 54490229de45c9d6b0f0163dcafb746c304776c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:23 +0000
Subject: [PATCH 14/19] fix: don't skip an incomplete byte order mark when
 parsing JSON

---
 include/kl/json.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kl/json.hpp b/include/kl/json.hpp
index 8464536..41a2675 100644
--- a/include/kl/json.hpp
+++ b/include/kl/json.hpp
@@ -862,6 +862,10 @@ inline rapidjson::Document parse(std::string_view text)
     // RapidJSON takes a NUL for the end of the text and would ignore whatever follows it
     if (text.find('\0') != std::string_view::npos)
         throw kl::serialization::parse_error{"Unexpected NUL character."};
+    // It also skips any part of a byte order mark the text begins with
+    constexpr std::string_view bom{"\xEF\xBB\xBF"};
+    if (text.find_first_of(bom) == 0 && text.substr(0, bom.size()) != bom)
+        throw kl::serialization::parse_error{"Invalid byte order mark."};
 
     rapidjson::Document doc;
     rapidjson::ParseResult ok = doc.Parse(text.data(), text.length());
-- 
2.43.0


From 568c49596cba55b22141de64dcf29dcfc67f4dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:05 +0000
Subject: [PATCH 15/19] fix: report everything below a deleted optional
 collection as changed

---
 include/kl/resource_op.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index 08ead13..8ddad6a 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -1061,7 +1061,8 @@ try
                 rollback.commit();
 
                 r.state.modifications.notify_changed(
-                    path, kl::ctti::is_reflectable_v<typename optional_traits::value_type>);
+                    path,
+                    detail::has_addressable_descendants_v<typename optional_traits::value_type>);
 
                 return operation_result{status_code::no_content, {}};
             }
-- 
2.43.0


From e24875d0fc7559e93db435e50b448f811a6d81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:05 +0000
Subject: [PATCH 16/19] fix: don't resolve indices with leading zeros

---
 include/kl/resource_op.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index 8ddad6a..924981f 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -473,6 +473,10 @@ inline bool parse_index(std::string_view text, std::size_t& out)
     if (text.empty())
         return false;
 
+    // Elements have exactly one path: a change reported for /items/07 would not be seen at /items/7
+    if (text.size() > 1 && text.front() == '0')
+        return false;
+
     std::size_t value = 0;
     const auto* first = text.data();
     const auto* last = first + text.size();
-- 
2.43.0


From a46eb2d43b532dc5a987226bfe04e7fd87c9d695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:53 +0000
Subject: [PATCH 17/19] fix: assigning a yaml::view no longer modifies the
 document it referred to

YAML::Node::operator= assigns to the referenced node, so reassigning a view
(e.g. deserializing into an object that holds one already) rewired the node it
referred to so far, in the document that node belongs to.
---
 include/kl/yaml.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/kl/yaml.hpp b/include/kl/yaml.hpp
index 01f4401..bf1a7a9 100644
--- a/include/kl/yaml.hpp
+++ b/include/kl/yaml.hpp
@@ -32,6 +32,15 @@ public:
     view() = default;
     view(YAML::Node node) : node_{std::move(node)} {}
 
+    view(const view&) = default;
+    view& operator=(const view& other)
+    {
+        // Refer to the other node. Node's own operator= would also redirect the node referred to so
+        // far, that is modify the document it belongs to.
+        node_.reset(other.node_);
+        return *this;
+    }
+
     const YAML::Node& value() const { return node_; }
     operator const YAML::Node&() const { return value(); }
 
-- 
2.43.0


From ba34008f2db980fb444e165cf7837a29d3a9ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:16 +0000
Subject: [PATCH 18/19] fix: don't read a freed handle when copy-assigning
 connections and blockers

Releasing the previous slot may destroy its callable and, with it, the very
handle that is being assigned from.
---
 include/kl/signal.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 718b7a5..9bbf0e1 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -146,11 +146,13 @@ public:
     {
         if (this != &other)
         {
-            if (slot_)
-                slot_->release();
+            // Released last: it may own `other`
+            auto* prev = slot_;
             slot_ = other.slot_;
             if (slot_)
                 slot_->add_ref();
+            if (prev)
+                prev->release();
         }
         return *this;
     }
@@ -231,17 +233,19 @@ public:
         {
             if (this != &other)
             {
-                if (slot_)
-                {
-                    slot_->unblock();
-                    slot_->release();
-                }
+                // Released last: it may own `other`
+                auto* prev = slot_;
                 slot_ = other.slot_;
                 if (slot_)
                 {
                     slot_->add_ref();
                     slot_->block();
                 }
+                if (prev)
+                {
+                    prev->unblock();
+                    prev->release();
+                }
             }
             return *this;
         }
-- 
2.43.0


From 559e705c1381d51a484b9650d6805aee1a0bb95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:16 +0000
Subject: [PATCH 19/19] fix: don't leak a slot connected to a handle that is
 being disconnected

Releasing the slot may destroy its callable, whose captured objects may put a
new connection into this very handle.
---
 include/kl/signal.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 9bbf0e1..228bd98 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -177,9 +177,9 @@ public:
     {
         if (!slot_)
             return;
-        slot_->disconnect();
-        slot_->release();
-        slot_ = nullptr;
+        auto* slot = std::exchange(slot_, nullptr);
+        slot->disconnect();
+        slot->release();
     }
 
     /// Returns whether the connection still refers to a connected slot.
-- 
2.43.0

