From d3c2cd6bd8d70dc06f7feb0022d3cc01b2ad588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:43 +0000
Subject: [PATCH 01/12] fix: release the source's storage when moving an array
 to an unequal allocator

The constructor taking an rvalue array and an allocator moved the elements
into a new block when the two allocators differ. It then dropped the source's
block without destroying its elements or releasing it, and recorded the
source's capacity for a block that holds only the source's size.
---
 include/cetl/variable_length_array.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 5f8f917..3e4813a 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -832,10 +832,13 @@ protected:
             if (rhs.size_ > 0)
             {
                 data_ = std::allocator_traits<allocator_type>::allocate(alloc_, rhs.size_);
-                fast_forward_construct(data_, rhs.size_, rhs.data_, rhs.size_, alloc_);
+                if (data_ != nullptr)
+                {
+                    capacity_ = rhs.size_;
+                    size_     = fast_forward_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+                }
             }
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
+            fast_deallocate(rhs.data_, rhs.size_, rhs.capacity_, rhs.alloc_);
         }
         rhs.size_     = 0;
         rhs.capacity_ = 0;
-- 
2.43.0


From 7f86b3e9554d2a8cb48b073b574daea172710db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:43 +0000
Subject: [PATCH 02/12] fix: compare allocators when move-constructing an array
 with an allocator

With an allocator that propagates on move assignment, the constructor taking an
rvalue array and an allocator adopted the source's block although the given
allocator need not be equal to the source's, so the block was later released to
an allocator it did not come from.
---
 include/cetl/variable_length_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 3e4813a..043968c 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -791,7 +791,7 @@ protected:
     constexpr VariableLengthArrayBase(
         VariableLengthArrayBase&& rhs,
         const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
+        typename std::enable_if_t<std::allocator_traits<UAlloc>::is_always_equal::value>* = nullptr) noexcept
         : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
         , data_(std::move(rhs.data_))
         , capacity_(rhs.capacity_)
@@ -809,7 +809,7 @@ protected:
     constexpr VariableLengthArrayBase(
         VariableLengthArrayBase&& rhs,
         const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<!is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
+        typename std::enable_if_t<!std::allocator_traits<UAlloc>::is_always_equal::value>* = nullptr) noexcept
         : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
         , data_{nullptr}
         , capacity_(0)
-- 
2.43.0


From 925030936db0c08e3a1d017d4dc3088111da190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:43 +0000
Subject: [PATCH 03/12] fix: keep the capacity of an assigned array within its
 maximum size

Assigning an array adopts the maximum size of the source. The destination kept
a larger block, so later growth could exceed the maximum. Move assignment with
unequal allocators did not adopt the maximum at all and could leave more
elements than the maximum allows.
---
 include/cetl/variable_length_array.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 043968c..d31492c 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -425,7 +425,7 @@ protected:
         max_size_max_ = rhs.max_size_max_;
         if ((std::allocator_traits<allocator_type>::is_always_equal::value || alloc_ == rhs.alloc_ ||
              !std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) &&
-            rhs.size_ <= capacity_)
+            rhs.size_ <= capacity_ && capacity_ <= rhs_max_size)
         {
             // First off, we're here because the incoming data will fit within our existing capacity.
 
@@ -540,7 +540,8 @@ protected:
         }
         else
         {
-            if (rhs.size_ <= capacity_)
+            max_size_max_ = rhs.max_size_max_;
+            if (rhs.size_ <= capacity_ && capacity_ <= rhs_max_size)
             {
                 // We're here because the incoming data will fit within our existing capacity and because we can't
                 // just move the memory from the rhs allocator since that allocator is neither equal to our own nor are
-- 
2.43.0


From 4134dbf6febf6dbda7a52f25dcdd3ee311ece867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:10 +0000
Subject: [PATCH 04/12] fix: keep the buffer in use when resizing it in place
 fails

A failed reallocate() of the block served from the buffer cleared the in-use
marker. The buffer was then handed out again while still in use, and the block
was later released to the upstream resource.
---
 .../cetl/pmr/buffer_memory_resource_delegate.hpp   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pmr/buffer_memory_resource_delegate.hpp b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
index 652f2db..bd8665e 100644
--- a/include/cetl/pmr/buffer_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
@@ -110,8 +110,11 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = allocate_internal_buffer(new_object_count, new_align);
+            if (nullptr != result)
+            {
+                in_use_ = result;
+            }
         }
         return result;
     }
@@ -128,8 +131,11 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = allocate_internal_buffer(new_object_count, new_align);
+            if (nullptr != result)
+            {
+                in_use_ = result;
+            }
         }
         else
         {
-- 
2.43.0


From 578d433de6c47bf27af196b573f7f9747d6c236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:10 +0000
Subject: [PATCH 05/12] fix: throw when the heap resource runs out of memory

With exceptions enabled memory_resource::allocate() reports failure by throwing
std::bad_alloc. The malloc-based resource returned a null pointer instead.
---
 include/cetl/pf17/sys/memory_resource.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/sys/memory_resource.hpp b/include/cetl/pf17/sys/memory_resource.hpp
index 4193a0a..d396548 100644
--- a/include/cetl/pf17/sys/memory_resource.hpp
+++ b/include/cetl/pf17/sys/memory_resource.hpp
@@ -44,7 +44,14 @@ protected:
 #endif
             return nullptr;
         }
-        return std::malloc(size_bytes);
+        void* const result = std::malloc(size_bytes);
+#if defined(__cpp_exceptions)
+        if (nullptr == result && 0 != size_bytes)
+        {
+            throw std::bad_alloc();
+        }
+#endif
+        return result;
     }
 
     void do_deallocate(void* p, std::size_t size_bytes, std::size_t alignment) override
-- 
2.43.0


From 034cd3ad638848a311784d41caa8844cac8b6a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:16 +0000
Subject: [PATCH 06/12] fix: let resizing through the allocator fail cleanly

polymorphic_allocator::reallocate() multiplied the element count without
checking for overflow and could ask the resource for too few bytes. The traits
helper it calls was noexcept, so a resource that throws ended the program.
---
 include/cetl/pf17/memory_resource.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index e718ba2..9bcb571 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -276,7 +276,7 @@ private:
                     void*       ptr,
                     std::size_t old_size_bytes,
                     std::size_t new_size_bytes,
-                    std::size_t alignment) noexcept
+                    std::size_t alignment)
     {
         return mr.reallocate(ptr, old_size_bytes, new_size_bytes, alignment);
     }
@@ -492,6 +492,10 @@ public:
     typename std::enable_if<deviant::memory_resource_traits<memory_resource>::is_reallocate_defined::value, U>::type*
     reallocate(U* ptr, std::size_t old_object_count, std::size_t new_object_count)
     {
+        if (std::numeric_limits<std::size_t>::max() / sizeof(U) < new_object_count)
+        {
+            return nullptr;
+        }
         return static_cast<T*>(
             deviant::memory_resource_traits<memory_resource>::reallocate(*memory_resource_,
                                                                          ptr,
-- 
2.43.0


From da7658505ecbdf01f784182cc8ca40b62ccc9645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:16 +0000
Subject: [PATCH 07/12] fix: size and align the blocks of the monotonic
 resource correctly

Adding the block header to a huge buffer size wrapped around, so the upstream
block was smaller than recorded and was overrun. A request whose size plus
alignment wraps around kept taking ever larger blocks from upstream. The block
header was also placed in memory aligned only for the caller's request.
---
 include/cetl/pf17/memory_resource.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 9bcb571..8865381 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -687,17 +687,34 @@ protected:
 
         const std::size_t max_size_v = max_size();
 
+        // The largest buffer that can follow a buffer control in one block.
+        constexpr std::size_t max_buffer_size = std::numeric_limits<std::size_t>::max() - sizeof(BufferControl);
+
+        // The buffer control is placed at the start of each block.
+        const std::size_t block_alignment = std::max(alignment, alignof(BufferControl));
+
         while (nullptr == result)
         {
+            if (size_bytes > max_buffer_size - alignment)
+            {
+                // No block can be this large.
+#if defined(__cpp_exceptions)
+                throw std::bad_alloc();
+#endif
+                break;
+            }
+
             // Grow the buffer starting with, at minimum 4 bytes, the current buffer size, or the requested size
             // plus alignment, whichever is larger.
             const std::size_t grow_from_size =
-                std::max({static_cast<std::size_t>(4), current_buffer_->buffer_size, size_bytes + alignment});
+                std::min(max_buffer_size,
+                         std::max({static_cast<std::size_t>(4), current_buffer_->buffer_size, size_bytes + alignment}));
 
             // Simple geometric progression of buffer size growth.
-            const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + (grow_from_size / 2U));
+            const std::size_t next_buffer_size =
+                std::min(max_size_v, grow_from_size + std::min(grow_from_size / 2U, max_buffer_size - grow_from_size));
 
-            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, alignment);
+            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, block_alignment);
             if (nullptr == raw)
             {
                 // out-of-memory with no exceptions.
@@ -705,7 +722,7 @@ protected:
             }
             void* buffer = &static_cast<BufferControl*>(raw)[1];
             current_buffer_ =
-                new (raw) BufferControl{buffer, next_buffer_size, alignment, next_buffer_size, current_buffer_};
+                new (raw) BufferControl{buffer, next_buffer_size, block_alignment, next_buffer_size, current_buffer_};
 
             result = do_allocate_from_current_buffer(size_bytes, alignment);
         }
-- 
2.43.0


From 4fbb91000b91137a6d390c0f7ce6084ee602a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:21 +0000
Subject: [PATCH 08/12] fix: do not destroy an object whose constructor threw
 in the factory

Factory::make_unique() held the raw memory in an owning pointer while
constructing, so a throwing constructor ran the destructor of the object.
---
 include/cetl/pmr/memory.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index be4e333..5b7002a 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -239,7 +239,19 @@ public:
             p{alloc.allocate(1), typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>::deleter_type{alloc, 1}};
         if (nullptr != p)
         {
+#if defined(__cpp_exceptions)
+            try
+            {
+                alloc.construct(p.get(), std::forward<Args>(args)...);
+            } catch (...)
+            {
+                // There is no object to destroy; only the memory needs to be released.
+                alloc.deallocate(p.release(), 1);
+                throw;
+            }
+#else
             alloc.construct(p.get(), std::forward<Args>(args)...);
+#endif
         }
         return p;
     }
-- 
2.43.0


From f8155db29f29445a4b36b01fb24f55fccb8644c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:21 +0000
Subject: [PATCH 09/12] fix: keep the resource of a deleter that is moved to
 itself

Moving an owning pointer to itself kept the pointer but cleared the memory
resource of its deleter, so the memory was never released.
---
 include/cetl/pmr/memory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index 5b7002a..fad57e1 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -69,7 +69,10 @@ public:
     /// @return Reference to this.
     MemoryResourceDeleter& operator=(MemoryResourceDeleter&& rhs) noexcept
     {
-        swap(std::move(rhs));
+        if (this != &rhs)
+        {
+            swap(std::move(rhs));
+        }
         return *this;
     }
 
-- 
2.43.0


From daaf22b4558d58735aa9bbedf57dc0bd51d88f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:25 +0000
Subject: [PATCH 10/12] fix: Let optional pass on exceptions and use the
 operators of its value type

Copying or moving an optional whose value type throws on copy or move
called std::terminate, because the defaulted functions of the policy
classes were declared noexcept.

The comparisons !=, <=, > and >= of two optionals were computed from ==
and < of the value type. They now use the corresponding operator of the
value type as documented, which matters for partially ordered values.
---
 include/cetl/pf17/optional.hpp | 54 +++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 19b2e94..28b03b4 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -128,10 +128,10 @@ struct base_destruction<T, false>
             new (std::addressof(m_value)) T(std::forward<U>(other).m_value);
         }
     }
-    constexpr base_destruction(const base_destruction&) noexcept            = default;
-    constexpr base_destruction(base_destruction&&) noexcept                 = default;
-    constexpr base_destruction& operator=(const base_destruction&) noexcept = default;
-    constexpr base_destruction& operator=(base_destruction&&) noexcept      = default;
+    constexpr base_destruction(const base_destruction&)            = default;
+    constexpr base_destruction(base_destruction&&)                 = default;
+    constexpr base_destruction& operator=(const base_destruction&) = default;
+    constexpr base_destruction& operator=(base_destruction&&)      = default;
     ~base_destruction() noexcept
     {
         reset();
@@ -172,10 +172,10 @@ struct base_copy_construction<T, false> : base_destruction<T>
         : base_destruction<T>(copy_tag{}, other)
     {
     }
-    constexpr base_copy_construction(base_copy_construction&&) noexcept                 = default;
-    constexpr base_copy_construction& operator=(const base_copy_construction&) noexcept = default;
-    constexpr base_copy_construction& operator=(base_copy_construction&&) noexcept      = default;
-    ~base_copy_construction() noexcept                                                  = default;
+    constexpr base_copy_construction(base_copy_construction&&)                 = default;
+    constexpr base_copy_construction& operator=(const base_copy_construction&) = default;
+    constexpr base_copy_construction& operator=(base_copy_construction&&)      = default;
+    ~base_copy_construction() noexcept                                         = default;
 };
 
 /// MOVE CONSTRUCTION POLICY
@@ -192,16 +192,16 @@ template <typename T>
 struct base_move_construction<T, false> : base_copy_construction<T>
 {
     using base_copy_construction<T>::base_copy_construction;
-    constexpr base_move_construction() noexcept                              = default;
-    constexpr base_move_construction(const base_move_construction&) noexcept = default;
+    constexpr base_move_construction() noexcept                     = default;
+    constexpr base_move_construction(const base_move_construction&) = default;
     constexpr base_move_construction(base_move_construction&& other) noexcept(
         std::is_nothrow_move_constructible<T>::value)
         : base_copy_construction<T>(copy_tag{}, std::move(other))
     {
     }
-    constexpr base_move_construction& operator=(const base_move_construction&) noexcept = default;
-    constexpr base_move_construction& operator=(base_move_construction&&) noexcept      = default;
-    ~base_move_construction() noexcept                                                  = default;
+    constexpr base_move_construction& operator=(const base_move_construction&) = default;
+    constexpr base_move_construction& operator=(base_move_construction&&)      = default;
+    ~base_move_construction() noexcept                                         = default;
 };
 
 /// COPY ASSIGNMENT POLICY
@@ -221,9 +221,9 @@ template <typename T>
 struct base_copy_assignment<T, false> : base_move_construction<T>
 {
     using base_move_construction<T>::base_move_construction;
-    constexpr base_copy_assignment() noexcept                            = default;
-    constexpr base_copy_assignment(const base_copy_assignment&) noexcept = default;
-    constexpr base_copy_assignment(base_copy_assignment&&) noexcept      = default;
+    constexpr base_copy_assignment() noexcept                   = default;
+    constexpr base_copy_assignment(const base_copy_assignment&) = default;
+    constexpr base_copy_assignment(base_copy_assignment&&)      = default;
     constexpr base_copy_assignment& operator=(const base_copy_assignment& other) noexcept(
         std::is_nothrow_copy_assignable<T>::value && std::is_nothrow_copy_constructible<T>::value)
     {
@@ -242,8 +242,8 @@ struct base_copy_assignment<T, false> : base_move_construction<T>
         }
         return *this;
     }
-    constexpr base_copy_assignment& operator=(base_copy_assignment&&) noexcept = default;
-    ~base_copy_assignment() noexcept                                           = default;
+    constexpr base_copy_assignment& operator=(base_copy_assignment&&) = default;
+    ~base_copy_assignment() noexcept                                  = default;
 };
 
 /// MOVE ASSIGNMENT POLICY
@@ -263,10 +263,10 @@ template <typename T>
 struct base_move_assignment<T, false> : base_copy_assignment<T>
 {
     using base_copy_assignment<T>::base_copy_assignment;
-    constexpr base_move_assignment() noexcept                                       = default;
-    constexpr base_move_assignment(const base_move_assignment&) noexcept            = default;
-    constexpr base_move_assignment(base_move_assignment&&) noexcept                 = default;
-    constexpr base_move_assignment& operator=(const base_move_assignment&) noexcept = default;
+    constexpr base_move_assignment() noexcept                              = default;
+    constexpr base_move_assignment(const base_move_assignment&)            = default;
+    constexpr base_move_assignment(base_move_assignment&&)                 = default;
+    constexpr base_move_assignment& operator=(const base_move_assignment&) = default;
     constexpr base_move_assignment& operator=(base_move_assignment&& other) noexcept(
         std::is_nothrow_move_assignable<T>::value && std::is_nothrow_move_constructible<T>::value)
     {
@@ -676,7 +676,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs == rhs);
+    return (lhs.has_value() != rhs.has_value()) || (lhs.has_value() && ((*lhs) != (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
@@ -690,21 +690,21 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() <= st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(rhs < lhs);
+    return (!lhs.has_value()) || (rhs.has_value() && ((*lhs) <= (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() > std::declval<const U&>())> operator>(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return rhs < lhs;
+    return lhs.has_value() && ((!rhs.has_value()) || ((*lhs) > (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() >= std::declval<const U&>())> operator>=(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs < rhs);
+    return (!rhs.has_value()) || (lhs.has_value() && ((*lhs) >= (*rhs)));
 }
 /// @}
 
@@ -803,7 +803,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const T&           value,
     const optional<U>& opt)
 {
-    return (!opt.has_value()) || ((*opt) != value);
+    return (!opt.has_value()) || (value != (*opt));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
-- 
2.43.0


From 7adaaabc335f4b197994c1e24a231236f7a786d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:27 +0000
Subject: [PATCH 11/12] fix: pass on references returned by variant visitors

visit() returned a copy of the result when the visitor returned a reference.
---
 include/cetl/pf17/variant.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 3357e0f..49b46d9 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -66,6 +66,12 @@ using req = std::enable_if_t<C, int>;
 
 // --------------------------------------------------------------------------------------------------------------------
 
+/// The type shared by all results if there is one, including its reference category; otherwise their common type.
+template <typename R, typename... Rs>
+struct chronomorphize_result
+    : std::conditional_t<conjunction_v<std::is_same<R, Rs>...>, std::enable_if<true, R>, std::common_type<R, Rs...>>
+{};
+
 template <typename>
 struct chronomorphize_impl;
 template <std::size_t... Is>
@@ -78,8 +84,9 @@ struct chronomorphize_impl<std::index_sequence<Is...>>
         static decltype(auto)
         lookup(F&& fun, const std::size_t index, Args&&... ar)
     {
-        using R = std::common_type_t<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
-                                                                   std::forward<Args>(ar)...))...>;
+        using R =
+            typename chronomorphize_result<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
+                                                                         std::forward<Args>(ar)...))...>::type;
 #if __cplusplus >= 201703L
         constexpr
 #else
@@ -752,7 +759,7 @@ constexpr decltype(auto) visit(F&& fun, V&& var)
 {
     // https://twitter.com/PavelKirienko/status/1761525562370040002
     return chronomorphize(
-        [&fun, &var](const auto index) {
+        [&fun, &var](const auto index) -> decltype(auto) {
             return std::forward<F>(fun)(alt<index.value>(std::forward<V>(var)));  //
         },
         var);
@@ -765,9 +772,9 @@ constexpr decltype(auto) visit(F&& fun, V0&& var0, Vs&&... vars)
     // per variant. The recursive structure below builds a Cartesian product of the variant combinations
     // one level at a time starting with the leftmost variant. The complexity is one table jump per variant level.
     return visit(
-        [&](auto&& hh) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
+        [&](auto&& hh) -> decltype(auto) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
             return visit(
-                [&](auto&&... tt) {
+                [&](auto&&... tt) -> decltype(auto) {
                     return std::forward<F>(fun)(std::forward<decltype(hh)>(hh), std::forward<decltype(tt)>(tt)...);
                 },
                 std::forward<Vs>(vars)...);
-- 
2.43.0


From 590decc4ced208b9725f2c8664d02d018afdbf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:58:49 +0000
Subject: [PATCH 12/12] fix: find the empty string at the end of a string view

---
 include/cetl/pf17/string_view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index ce2ca61..e76a056 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -332,6 +332,10 @@ public:
         {
             return npos;
         }
+        if (sv.size_ == 0)
+        {
+            return pos;
+        }
         const const_iterator result = std::search(data_ + pos, data_ + size_, sv.data_, sv.data_ + sv.size_);
         return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
     }
-- 
2.43.0

