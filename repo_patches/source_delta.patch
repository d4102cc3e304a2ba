From d0d813e1f76afaaafa3234ab858423b99570b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:20 +0000
Subject: [PATCH 01/56] fix: make buffer::pop_back and the allocator-extended
 move constructor of buffer instantiable

---
 include/sparrow/buffer/buffer.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index a91b47b..ea08399 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -495,7 +495,7 @@ namespace sparrow
     {
         if (rhs.get_allocator() == get_allocator())
         {
-            get_data() = std::move(rhs.m_data);
+            get_data() = std::move(rhs.get_data());
         }
         else if (!rhs.empty())
         {
@@ -910,8 +910,7 @@ namespace sparrow
     constexpr void buffer<T>::pop_back()
     {
         SPARROW_ASSERT_FALSE(empty());
-        destroy(get_allocator(), get_data().p_end - 1);
-        --get_data().p_end;
+        erase_at_end(get_data().p_end - 1);
     }
 
     template <class T>
-- 
2.43.0


From 828a353ceda239eb1e7c111a9738db7d694da1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 02/56] fix: handle values aliasing buffer elements and object
 lifetimes in buffer insertions

---
 include/sparrow/buffer/buffer.hpp | 69 +++++++++++++------------------
 1 file changed, 29 insertions(+), 40 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index ea08399..de982b3 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -785,28 +785,16 @@ namespace sparrow
         const difference_type offset = std::distance(cbegin(), pos);
         if (count != 0)
         {
-            reserve_with_growth_factor( size() + count);
-            const iterator it = std::next(begin(), offset);
-            std::move_backward(it, end(), std::next(end(), static_cast<difference_type>(count)));
-            std::fill_n(it, count, value);
-            get_data().p_end += count;
+            // value may refer to an element of this buffer, which is about to be moved
+            const value_type copy(value);
+            const difference_type old_size = static_cast<difference_type>(size());
+            reserve_with_growth_factor(size() + count);
+            get_data().p_end = fill_initialize(get_data().p_end, count, copy, get_allocator());
+            std::rotate(std::next(begin(), offset), std::next(begin(), old_size), end());
         }
         return std::next(begin(), offset);
     }
 
-    template <typename T>
-    struct is_move_iterator : std::false_type
-    {
-    };
-
-    template <typename Iterator>
-    struct is_move_iterator<std::move_iterator<Iterator>> : std::true_type
-    {
-    };
-
-    template <typename T>
-    constexpr bool is_move_iterator_v = is_move_iterator<T>::value;
-
     template <class T>
     template <mpl::iterator_of_type<T> InputIt>
     constexpr auto buffer<T>::insert(const_iterator pos, InputIt first, InputIt last) -> iterator
@@ -815,20 +803,11 @@ namespace sparrow
         const difference_type num_elements = std::distance(first, last);
         const size_type new_size = size() + static_cast<size_type>(num_elements);
         const difference_type offset = std::distance(cbegin(), pos);
-        const size_type old_size = size();
+        const difference_type old_size = static_cast<difference_type>(size());
         reserve_with_growth_factor(new_size);
-        resize(new_size);
+        get_data().p_end = copy_initialize(first, last, get_data().p_end, get_allocator());
         const iterator new_pos = std::next(begin(), offset);
-        const iterator end_it = std::next(begin(), static_cast<difference_type>(old_size));
-        std::move_backward(new_pos, end_it, end());
-        if constexpr (is_move_iterator_v<InputIt>)
-        {
-            std::uninitialized_move(first, last, new_pos);
-        }
-        else
-        {
-            std::uninitialized_copy(first, last, new_pos);
-        }
+        std::rotate(new_pos, std::next(begin(), old_size), end());
         return new_pos;
     }
 
@@ -857,20 +836,29 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type offset = std::distance(cbegin(), pos);
-        reserve_with_growth_factor(size() + 1);
-        pointer p = get_data().p_begin + offset;
-        if (p != get_data().p_end)
+        if (pos == cend() && size() < capacity())
         {
-            alloc_traits::construct(get_allocator(), get_data().p_end, std::move(*(get_data().p_end - 1)));
-            std::move_backward(p, get_data().p_end - 1, get_data().p_end);
-            alloc_traits::construct(get_allocator(), p, std::forward<Args>(args)...);
+            alloc_traits::construct(get_allocator(), get_data().p_end, std::forward<Args>(args)...);
         }
         else
         {
-            alloc_traits::construct(get_allocator(), get_data().p_end, std::forward<Args>(args)...);
+            // args may refer to elements of this buffer, which are about to be moved
+            value_type value(std::forward<Args>(args)...);
+            reserve_with_growth_factor(size() + 1);
+            pointer p = get_data().p_begin + offset;
+            if (p != get_data().p_end)
+            {
+                alloc_traits::construct(get_allocator(), get_data().p_end, std::move(*(get_data().p_end - 1)));
+                std::move_backward(p, get_data().p_end - 1, get_data().p_end);
+                *p = std::move(value);
+            }
+            else
+            {
+                alloc_traits::construct(get_allocator(), p, std::move(value));
+            }
         }
         ++get_data().p_end;
-        return iterator(p);
+        return std::next(begin(), offset);
     }
 
     template <class T>
@@ -928,11 +916,12 @@ namespace sparrow
     template <class T>
     constexpr void buffer<T>::resize(size_type new_size, const value_type& value)
     {
+        // value may refer to an element of this buffer, which is about to be moved
         resize_impl(
             new_size,
-            [this, &value](size_type nb_init)
+            [this, copy = value_type(value)](size_type nb_init)
             {
-                get_data().p_end = fill_initialize(get_data().p_end, nb_init, value, get_allocator());
+                get_data().p_end = fill_initialize(get_data().p_end, nb_init, copy, get_allocator());
             }
         );
     }
-- 
2.43.0


From b0a917a37a0722796365408a13216ff22ff19289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 03/56] fix: keep the value of a moved-from any_allocator, the
 moved-from buffer still uses it

---
 include/sparrow/buffer/allocator.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/allocator.hpp b/include/sparrow/buffer/allocator.hpp
index a0dc13a..4f80b47 100644
--- a/include/sparrow/buffer/allocator.hpp
+++ b/include/sparrow/buffer/allocator.hpp
@@ -70,7 +70,7 @@ namespace sparrow
 
         any_allocator();
         any_allocator(const any_allocator& rhs);
-        any_allocator(any_allocator&&) = default;
+        any_allocator(any_allocator&& rhs);
 
         any_allocator& operator=(const any_allocator& rhs) = delete;
         any_allocator& operator=(any_allocator&& rhs) = delete;
@@ -207,6 +207,14 @@ namespace sparrow
     {
     }
 
+    // Moving from an allocator must not change its value: the moved-from
+    // container still uses it.
+    template <class T>
+    any_allocator<T>::any_allocator(any_allocator&& rhs)
+        : m_storage(copy_storage(rhs.m_storage))
+    {
+    }
+
     template <class T>
     [[nodiscard]] T* any_allocator<T>::allocate(std::size_t n)
     {
-- 
2.43.0


From f27723b4e4dc72f52f002526b2457c4d79ec5ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 04/56] fix: decrementing a bitset_iterator at a block boundary
 goes to the last bit of the previous block

---
 include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
index 0547083..5ab4787 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
@@ -126,7 +126,7 @@ namespace sparrow
         if (is_first_bit_of_block(m_index))
         {
             --p_block;
-            m_index = sizeof(block_type);
+            m_index = bitset_type::s_bits_per_block - 1u;
         }
         else
         {
-- 
2.43.0


From 33336079c94f827475bbecec1fb117f81a03d589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 05/56] fix: end() of a bitset whose size is a multiple of the
 block size, or whose buffer is padded

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 074b537..71a67fe 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -276,8 +276,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::end() -> iterator
     {
-        block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return iterator(this, block, size() % s_bits_per_block);
+        return iterator(this, data() + block_index(size()), bit_index(size()));
     }
 
     template <typename B>
@@ -305,8 +304,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::cend() const -> const_iterator
     {
-        const block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return const_iterator(this, block, size() % s_bits_per_block);
+        return const_iterator(this, data() + block_index(size()), bit_index(size()));
     }
 
     template <typename B>
-- 
2.43.0


From a05c17b1e2bfa64c18cee4b63715116d4b75c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 06/56] fix: inserting an empty range at the beginning of a
 bitset

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 71a67fe..1de009f 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -557,9 +557,9 @@ namespace sparrow
 
         resize(new_size);
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = new_size; i > index + count; --i)
         {
-            set(i, test(i - count));
+            set(i - 1, test(i - 1 - count));
         }
 
         for (size_type i = 0; i < count; ++i)
@@ -589,9 +589,9 @@ namespace sparrow
 
         // TODO: The current implementation is not efficient. It can be improved.
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = new_size; i > index + count; --i)
         {
-            set(i, test(i - count));
+            set(i - 1, test(i - 1 - count));
         }
 
         for (size_type i = 0; i < count; ++i)
-- 
2.43.0


From b0244f905bb2044703315d972c50c8b464f82d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 07/56] fix: bitset views must not write to the viewed memory
 on construction

---
 .../buffer/dynamic_bitset/dynamic_bitset_base.hpp   | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 1de009f..34df384 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -148,6 +148,10 @@ namespace sparrow
     private:
 
         static constexpr std::size_t s_bits_per_block = sizeof(block_type) * CHAR_BIT;
+        // Views do not own the bits after the last one of the bitset: they must not be changed.
+        static constexpr bool s_is_resizable = requires(storage_type_without_cvrefpointer& b, size_type n) {
+            b.resize(n);
+        };
         static constexpr size_type block_index(size_type pos) noexcept;
         static constexpr size_type bit_index(size_type pos) noexcept;
         static constexpr block_type bit_mask(size_type pos) noexcept;
@@ -382,7 +386,7 @@ namespace sparrow
         , m_size(size)
         , m_null_count(m_size - count_non_null())
     {
-        if constexpr (!std::is_const_v<block_type>)
+        if constexpr (s_is_resizable)
         {
             zero_unused_bits();
         }
@@ -395,9 +399,12 @@ namespace sparrow
         , m_size(size)
         , m_null_count(null_count)
     {
-        if constexpr (!std::is_const_v<block_type>)
+        if constexpr (s_is_resizable)
         {
             zero_unused_bits();
+        }
+        if constexpr (!std::is_const_v<block_type>)
+        {
             SPARROW_ASSERT_TRUE(m_null_count == m_size - count_non_null());
         }
     }
@@ -479,7 +486,7 @@ namespace sparrow
         const size_type extra_bits = count_extra_bits();
         if (extra_bits != 0)
         {
-            buffer().back() &= block_type(~(~block_type(0) << extra_bits));
+            buffer().data()[block_index(size())] &= block_type(~(~block_type(0) << extra_bits));
         }
     }
 
-- 
2.43.0


From cc6e4021f892ced5598e818596038ea3936bd4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 08/56] fix: growing a bitset without storage or with a padded
 buffer, inserting in an empty bitset

---
 .../buffer/dynamic_bitset/dynamic_bitset.hpp  |  4 +--
 .../dynamic_bitset/dynamic_bitset_base.hpp    | 34 +++++++++++++++----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
index b1dcf20..f19eae7 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
@@ -99,13 +99,13 @@ namespace sparrow
 
     template <std::integral T>
     constexpr dynamic_bitset<T>::dynamic_bitset(block_type* p, size_type n)
-        : base_type(storage_type(p, this->compute_block_count(n)), n)
+        : base_type(storage_type(p, p != nullptr ? this->compute_block_count(n) : 0u), n)
     {
     }
 
     template <std::integral T>
     constexpr dynamic_bitset<T>::dynamic_bitset(block_type* p, size_type n, size_type null_count)
-        : base_type(storage_type(p, this->compute_block_count(n)), n, null_count)
+        : base_type(storage_type(p, p != nullptr ? this->compute_block_count(n) : 0u), n, null_count)
     {
     }
 
diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 34df384..b4249cf 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -159,6 +159,7 @@ namespace sparrow
         size_type count_non_null() const noexcept;
         constexpr size_type count_extra_bits() const noexcept;
         constexpr void zero_unused_bits();
+        constexpr void ensure_storage();
         constexpr void update_null_count(bool old_value, bool new_value);
 
         storage_type m_buffer;
@@ -490,6 +491,18 @@ namespace sparrow
         }
     }
 
+    template <typename B>
+        requires std::ranges::random_access_range<std::remove_pointer_t<B>>
+    constexpr void dynamic_bitset_base<B>::ensure_storage()
+    {
+        // A bitset without storage is a bitset whose bits are all set
+        if (data() == nullptr)
+        {
+            storage_type_without_cvrefpointer storage(compute_block_count(m_size), block_type(~block_type(0)));
+            buffer() = std::move(storage);
+        }
+    }
+
     template <typename B>
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr void dynamic_bitset_base<B>::update_null_count(bool old_value, bool new_value)
@@ -508,6 +521,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr void dynamic_bitset_base<B>::resize(size_type n, value_type b)
     {
+        ensure_storage();
         const size_type old_block_count = buffer().size();
         const size_type new_block_count = compute_block_count(n);
         const block_type value = b ? block_type(~block_type(0)) : block_type(0);
@@ -517,12 +531,20 @@ namespace sparrow
             buffer().resize(new_block_count, value);
         }
 
-        if (b && n > m_size)
+        if (n > m_size)
         {
+            // The buffer may contain anything after the last bit
+            size_type block = block_index(m_size);
             const size_type extra_bits = count_extra_bits();
             if (extra_bits > 0)
             {
-                buffer().data()[old_block_count - 1] |= static_cast<block_type>(value << extra_bits);
+                const block_type mask = block_type(~block_type(0) << extra_bits);
+                block_type& last_block = buffer().data()[block++];
+                last_block = static_cast<block_type>((last_block & block_type(~mask)) | (value & mask));
+            }
+            for (; block < new_block_count; ++block)
+            {
+                buffer().data()[block] = value;
             }
         }
 
@@ -553,7 +575,6 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::insert(const_iterator pos, size_type count, value_type value)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr);
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
@@ -584,7 +605,6 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::insert(const_iterator pos, InputIt first, InputIt last)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr);
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
@@ -633,14 +653,14 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::erase(const_iterator first, const_iterator last)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr);
         SPARROW_ASSERT_TRUE(cbegin() <= first);
         SPARROW_ASSERT_TRUE(first <= last);
         SPARROW_ASSERT_TRUE(last <= cend());
 
         const auto first_index = static_cast<size_type>(std::distance(cbegin(), first));
+        const auto last_index = static_cast<size_type>(std::distance(cbegin(), last));
 
-        if (last == cend())
+        if (last_index == size())
         {
             resize(first_index);
             return end();
@@ -648,7 +668,7 @@ namespace sparrow
 
         // TODO: The current implementation is not efficient. It can be improved.
 
-        const auto last_index = static_cast<size_type>(std::distance(cbegin(), last));
+        ensure_storage();
         const size_type count = last_index - first_index;
 
         const size_type bit_to_move = size() - last_index;
-- 
2.43.0


From 68ac09924ebd1811289343dc893647dacff9cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 09/56] fix: define dynamic_bitset insertion of an
 initializer_list

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index b4249cf..7291905 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -630,6 +630,14 @@ namespace sparrow
         return iterator(this, block, bit_index(index));
     }
 
+    template <typename B>
+        requires std::ranges::random_access_range<std::remove_pointer_t<B>>
+    constexpr dynamic_bitset_base<B>::iterator
+    dynamic_bitset_base<B>::insert(const_iterator pos, std::initializer_list<value_type> ilist)
+    {
+        return insert(pos, ilist.begin(), ilist.end());
+    }
+
     template <typename B>
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr dynamic_bitset_base<B>::iterator
-- 
2.43.0


From ab048b74a5ad92d357c1451cadc18fd51edd89a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 10/56] fix: a copied bitset without storage stays readable

---
 .../buffer/dynamic_bitset/bitset_iterator.hpp |  2 +-
 .../dynamic_bitset/bitset_reference.hpp       |  2 +-
 .../dynamic_bitset/dynamic_bitset_base.hpp    | 31 ++++++++++---------
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
index 5ab4787..be9e505 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
@@ -94,7 +94,7 @@ namespace sparrow
     {
         if constexpr (is_const)
         {
-            if(p_bitset->data() == nullptr)
+            if (!p_bitset->has_storage())
             {
                 return true;
             }
diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
index ef7585a..a036f00 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
@@ -101,7 +101,7 @@ namespace sparrow
     template <class B>
     constexpr bitset_reference<B>::operator bool() const noexcept
     {
-        if(m_bitset.data() == nullptr)
+        if (!m_bitset.has_storage())
         {
             return true;
         }
diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 7291905..7ac95b1 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -156,6 +156,7 @@ namespace sparrow
         static constexpr size_type bit_index(size_type pos) noexcept;
         static constexpr block_type bit_mask(size_type pos) noexcept;
 
+        constexpr bool has_storage() const noexcept;
         size_type count_non_null() const noexcept;
         constexpr size_type count_extra_bits() const noexcept;
         constexpr void zero_unused_bits();
@@ -197,7 +198,7 @@ namespace sparrow
     constexpr auto dynamic_bitset_base<B>::operator[](size_type pos) -> reference
     {
         SPARROW_ASSERT_TRUE(pos < size());
-        SPARROW_ASSERT_TRUE(data() != nullptr);
+        SPARROW_ASSERT_TRUE(has_storage());
         return reference(*this, buffer().data()[block_index(pos)], bit_mask(pos));
     }
 
@@ -213,7 +214,7 @@ namespace sparrow
     constexpr bool dynamic_bitset_base<B>::test(size_type pos) const
     {
         SPARROW_ASSERT_TRUE(pos < size());
-        if(data() == nullptr)
+        if (!has_storage())
         {
             return true;
         }
@@ -225,7 +226,7 @@ namespace sparrow
     constexpr void dynamic_bitset_base<B>::set(size_type pos, value_type value)
     {
         SPARROW_ASSERT_TRUE(pos < size());
-        SPARROW_ASSERT_TRUE(data() != nullptr);
+        SPARROW_ASSERT_TRUE(has_storage());
         block_type& block = buffer().data()[block_index(pos)];
         const bool old_value = block & bit_mask(pos);
         if (value)
@@ -353,7 +354,7 @@ namespace sparrow
     constexpr auto dynamic_bitset_base<B>::front() const -> const_reference
     {
         SPARROW_ASSERT_TRUE(size() >= 1);
-        if(data() == nullptr)
+        if (!has_storage())
         {
             return true;
         }
@@ -373,7 +374,7 @@ namespace sparrow
     constexpr auto dynamic_bitset_base<B>::back() const -> const_reference
     {
         SPARROW_ASSERT_TRUE(size() >= 1);
-        if(data() == nullptr)
+        if (!has_storage())
         {
             return true;
         }
@@ -439,19 +440,22 @@ namespace sparrow
         return static_cast<block_type>(block_type(1) << bit);
     }
 
+    // A bitset without storage is a bitset whose bits are all set
+    template <typename B>
+        requires std::ranges::random_access_range<std::remove_pointer_t<B>>
+    constexpr bool dynamic_bitset_base<B>::has_storage() const noexcept
+    {
+        return data() != nullptr && !buffer().empty();
+    }
+
     template <typename B>
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     auto dynamic_bitset_base<B>::count_non_null() const noexcept -> size_type
     {
-        if(data() == nullptr)
+        if (!has_storage())
         {
             return m_size;
         }
-        if (buffer().empty())
-        {
-            return 0u;
-        }
-
         int res = 0;
         size_t full_blocks = m_size / s_bits_per_block;
         for (size_t i = 0; i < full_blocks; ++i)
@@ -480,7 +484,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr void dynamic_bitset_base<B>::zero_unused_bits()
     {
-        if(data() == nullptr)
+        if (!has_storage())
         {
             return;
         }
@@ -495,8 +499,7 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr void dynamic_bitset_base<B>::ensure_storage()
     {
-        // A bitset without storage is a bitset whose bits are all set
-        if (data() == nullptr)
+        if (!has_storage())
         {
             storage_type_without_cvrefpointer storage(compute_block_count(m_size), block_type(~block_type(0)));
             buffer() = std::move(storage);
-- 
2.43.0


From 5d0131fdb37918072184d5c6d8b1606dee0d8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 11/56] fix: inserting in a buffer_adaptor a value that refers
 to one of its elements

---
 include/sparrow/buffer/buffer_adaptor.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/buffer_adaptor.hpp b/include/sparrow/buffer/buffer_adaptor.hpp
index d4d46a8..f3d624c 100644
--- a/include/sparrow/buffer/buffer_adaptor.hpp
+++ b/include/sparrow/buffer/buffer_adaptor.hpp
@@ -460,8 +460,10 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        // value may refer to an element of this buffer, which is about to be moved
+        const value_type copy = value;
         m_buffer.insert(buffer_pos, m_to_from_size_ratio, 0);
-        operator[](static_cast<size_type>(index)) = value;
+        operator[](static_cast<size_type>(index)) = copy;
         return std::next(begin(), index);
     }
 
@@ -475,10 +477,12 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        // value may refer to an element of this buffer, which is about to be moved
+        const value_type copy = value;
         m_buffer.insert(buffer_pos, count * m_to_from_size_ratio, 0);
         for (size_type i = 0; i < count; ++i)
         {
-            data()[static_cast<size_t>(index) + i] = value;
+            data()[static_cast<size_t>(index) + i] = copy;
         }
         return std::next(begin(), index);
     }
@@ -521,8 +525,9 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        const value_type value(std::forward<Args>(args)...);
         m_buffer.insert(buffer_pos, m_to_from_size_ratio, 0);
-        data()[index] = value_type(std::forward<Args>(args)...);
+        data()[index] = value;
         return std::next(begin(), index);
     }
 
@@ -610,10 +615,12 @@ namespace sparrow
         const auto new_size_for_buffer = static_cast<size_type>(
             static_cast<double>(new_size) / m_from_to_size_ratio
         );
+        // value may refer to an element of this buffer, which is about to be moved
+        const value_type copy = value;
         m_buffer.resize(new_size_for_buffer, 0);
         for (size_type i = original_size; i < new_size; ++i)
         {
-            operator[](i) = value;
+            operator[](i) = copy;
         }
     }
 
-- 
2.43.0


From c00faa32db48972919413dd012baf3a292db7352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 12/56] fix: free the memory of released children and
 dictionaries

---
 include/sparrow/arrow_array_schema_proxy.hpp  |  1 +
 .../arrow_array_schema_utils.hpp              | 34 +++++++++--
 src/arrow_array_schema_proxy.cpp              | 59 +++++++++++++++----
 3 files changed, 78 insertions(+), 16 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 948293f..40aac66 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -398,6 +398,7 @@ namespace sparrow
 
         [[nodiscard]] bool empty() const;
         SPARROW_API void resize_children(size_t children_count);
+        void release_child(size_t index);
 
         [[nodiscard]] SPARROW_API non_owning_dynamic_bitset<uint8_t> get_non_owning_dynamic_bitset();
 
diff --git a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
index dd095af..7985944 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
@@ -41,6 +41,9 @@ namespace sparrow
 
         constexpr void resize_children(std::size_t size);
 
+        constexpr void set_dictionary_ownership(bool ownership) noexcept;
+        [[nodiscard]] constexpr bool has_dictionary_ownership() const noexcept;
+
     protected:
 
         constexpr explicit children_ownership(std::size_t size = 0);
@@ -49,6 +52,8 @@ namespace sparrow
 
         using children_owner_list = std::vector<bool>;
         children_owner_list m_children = {};
+        // Whether the memory of the dictionary structure has been allocated by sparrow.
+        bool m_dictionary = true;
     };
 
     /**
@@ -173,6 +178,16 @@ namespace sparrow
         m_children.resize(size);
     }
 
+    constexpr void children_ownership::set_dictionary_ownership(bool ownership) noexcept
+    {
+        m_dictionary = ownership;
+    }
+
+    [[nodiscard]] constexpr bool children_ownership::has_dictionary_ownership() const noexcept
+    {
+        return m_dictionary;
+    }
+
     template <class T>
     requires std::same_as<T, ArrowArray> || std::same_as<T, ArrowSchema>
     void release_common_arrow(T& t)
@@ -182,12 +197,19 @@ namespace sparrow
             return;
         }
         
+        const children_ownership* own = static_cast<const children_ownership*>(t.private_data);
+
         if (t.dictionary)
         {
             if (t.dictionary->release)
             {
                 t.dictionary->release(t.dictionary);
             }
+            if (own != nullptr && own->has_dictionary_ownership())
+            {
+                delete t.dictionary;
+            }
+            t.dictionary = nullptr;
         }
 
         if (t.children)
@@ -197,16 +219,16 @@ namespace sparrow
                 T* child = t.children[i];
                 if (child)
                 {
-                    if (child->release)
+                    SPARROW_ASSERT_TRUE(own != nullptr);
+                    if (own->has_child_ownership(static_cast<std::size_t>(i)))
                     {
-                        SPARROW_ASSERT_TRUE(t.private_data != nullptr);
-                        children_ownership* own = static_cast<children_ownership*>(t.private_data);
-                        if (own->has_child_ownership(static_cast<std::size_t>(i)))
+                        // The child may have been moved, in that case its memory
+                        // must still be freed.
+                        if (child->release)
                         {
                             child->release(child);
-                            delete child;
-                            child = nullptr;
                         }
+                        delete child;
                     }
                 }
             }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 3760662..762d7f1 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -28,6 +28,34 @@ namespace sparrow
 {
     static constexpr size_t bitmap_buffer_index = 0;
 
+    // Releases a structure and frees its memory, which must have been allocated by sparrow.
+    template <any_arrow_c_interface T>
+    static void release_and_delete(T* structure)
+    {
+        if (structure != nullptr)
+        {
+            if (structure->release != nullptr)
+            {
+                structure->release(structure);
+            }
+            delete structure;
+        }
+    }
+
+    template <any_arrow_c_interface T>
+    static void release_dictionary(T& structure, const children_ownership& own)
+    {
+        if (own.has_dictionary_ownership())
+        {
+            release_and_delete(structure.dictionary);
+        }
+        else if (structure.dictionary != nullptr && structure.dictionary->release != nullptr)
+        {
+            structure.dictionary->release(structure.dictionary);
+        }
+        structure.dictionary = nullptr;
+    }
+
     arrow_proxy arrow_proxy::view() const
     {
         ArrowArray* array_ptr = const_cast<ArrowArray*>(&array());
@@ -432,11 +460,11 @@ namespace sparrow
         {
             if (schema_private_data->has_child_ownership(i))
             {
-                schema().children[i]->release(schema().children[i]);
+                release_and_delete(schema().children[i]);
             }
             if (array_private_data->has_child_ownership(i))
             {
-                array().children[i]->release(array().children[i]);
+                release_and_delete(array().children[i]);
             }
         }
 
@@ -526,6 +554,18 @@ namespace sparrow
         return m_children;
     }
 
+    void arrow_proxy::release_child(size_t index)
+    {
+        if (get_array_private_data()->has_child_ownership(index))
+        {
+            release_and_delete(std::exchange(array().children[index], nullptr));
+        }
+        if (get_schema_private_data()->has_child_ownership(index))
+        {
+            release_and_delete(std::exchange(schema().children[index], nullptr));
+        }
+    }
+
     void arrow_proxy::set_child(size_t index, ArrowArray* child_array, ArrowSchema* child_schema)
     {
         SPARROW_ASSERT_TRUE(std::cmp_less(index, n_children()));
@@ -537,6 +577,7 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
+        release_child(index);
         array().children[index] = child_array;
         schema().children[index] = child_schema;
         m_children[index] = arrow_proxy(child_array, child_schema);
@@ -553,6 +594,7 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
+        release_child(index);
         array().children[index] = new ArrowArray(std::move(child_array));
         schema().children[index] = new ArrowSchema(std::move(child_schema));
         m_children[index] = arrow_proxy(array().children[index], schema().children[index]);
@@ -590,17 +632,14 @@ namespace sparrow
             );
         }
 
-        if (array().dictionary != nullptr)
-        {
-            array().dictionary->release(array().dictionary);
-        }
-        if (schema().dictionary != nullptr)
-        {
-            schema().dictionary->release(schema().dictionary);
-        }
+        release_dictionary(array(), *get_array_private_data());
+        release_dictionary(schema(), *get_schema_private_data());
 
         array().dictionary = array_dictionary;
         schema().dictionary = schema_dictionary;
+        // The content of the structures is released with this one, their memory belongs to the caller.
+        get_array_private_data()->set_dictionary_ownership(false);
+        get_schema_private_data()->set_dictionary_ownership(false);
         update_dictionary();
     }
 
-- 
2.43.0


From 101c51a00753d9ba7894c0617dfd48021afea33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 13/56] fix: null count of an arrow_proxy is the one of its
 window, after its buffers changed

---
 src/arrow_array_schema_proxy.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 762d7f1..bf0fffc 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -528,8 +528,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, buffer);
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     void arrow_proxy::set_buffer(size_t index, buffer<uint8_t>&& buffer)
@@ -540,8 +540,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, std::move(buffer));
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     [[nodiscard]] const std::vector<arrow_proxy>& arrow_proxy::children() const
@@ -717,14 +717,14 @@ namespace sparrow
 
     void arrow_proxy::update_null_count()
     {
-        if(has_bitmap(data_type()))
+        if (has_bitmap(data_type()))
         {
+            // Only the elements in [offset, offset + length) must be taken into account
             const auto& validity_buffer = buffers().front();
-            const dynamic_bitset_view<const std::uint8_t> bitmap(validity_buffer.data(), length() + offset());
-            const auto null_count = bitmap.null_count();
-            set_null_count(static_cast<int64_t>(null_count));
+            const dynamic_bitset_view<const std::uint8_t> until_end(validity_buffer.data(), offset() + length());
+            const dynamic_bitset_view<const std::uint8_t> until_offset(validity_buffer.data(), offset());
+            array().null_count = static_cast<int64_t>(until_end.null_count() - until_offset.null_count());
         }
-        
     }
 
     bool arrow_proxy::is_arrow_array_valid() const
-- 
2.43.0


From cfe493873d55cb037fe7ee733a9bddb8af65891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:03 +0000
Subject: [PATCH 14/56] fix: slices of slices, null counts of slices and bitmap
 changes in an arrow_proxy with an offset

---
 include/sparrow/arrow_array_schema_proxy.hpp | 10 +++++--
 src/arrow_array_schema_proxy.cpp             | 29 ++++++++++++++++----
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 40aac66..cdd9c9e 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -405,6 +405,7 @@ namespace sparrow
         void update_children();
         void update_dictionary();
         void update_null_count();
+        void update_sliced_null_count(size_t original_length);
         void reset();
 
         [[nodiscard]] bool array_created_with_sparrow() const;
@@ -478,8 +479,13 @@ namespace sparrow
         }
         SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
         auto bitmap = get_non_owning_dynamic_bitset();
-        const auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), range.begin(), range.end());
-        return static_cast<size_t>(std::distance(bitmap.begin(), it));
+        const auto it = bitmap.insert(
+            sparrow::next(bitmap.cbegin(), index + offset()),
+            range.begin(),
+            range.end()
+        );
+        update_buffers();
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
 }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index bf0fffc..9d56d4c 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -727,6 +727,19 @@ namespace sparrow
         }
     }
 
+    void arrow_proxy::update_sliced_null_count(size_t original_length)
+    {
+        // The null count of the layouts without bitmap
+        if (data_type() == sparrow::data_type::NA)
+        {
+            array().null_count = array().length;
+        }
+        else if (!has_bitmap(data_type()) && array().null_count != 0 && length() != original_length)
+        {
+            array().null_count = -1;  // Not computed
+        }
+    }
+
     bool arrow_proxy::is_arrow_array_valid() const
     {
         return array().release != nullptr;
@@ -801,9 +814,9 @@ namespace sparrow
             return index;
         }
         auto bitmap = get_non_owning_dynamic_bitset();
-        auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), count, value);
+        const auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index + offset()), count, value);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     size_t arrow_proxy::erase_bitmap(size_t index, size_t count)
@@ -821,7 +834,7 @@ namespace sparrow
         const auto it_last = sparrow::next(it_first, count);
         const auto it = bitmap.erase(it_first, it_last);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     void arrow_proxy::push_back_bitmap(bool value)
@@ -854,8 +867,9 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(start <= end);
         arrow_proxy copy = *this;
-        copy.set_offset(start);
+        copy.set_offset(offset() + start);
         copy.set_length(end - start);
+        copy.update_sliced_null_count(length());
         return copy;
     }
 
@@ -865,9 +879,12 @@ namespace sparrow
         ArrowSchema as = schema();
         as.release = empty_release_arrow_schema;
         ArrowArray ar = array();
-        ar.offset = static_cast<int64_t>(start);
+        ar.offset += static_cast<int64_t>(start);
         ar.length = static_cast<int64_t>(end - start);
         ar.release = empty_release_arrow_array;
-        return arrow_proxy{std::move(ar), std::move(as)};
+        arrow_proxy view{std::move(ar), std::move(as)};
+        view.update_null_count();
+        view.update_sliced_null_count(length());
+        return view;
     }
 }
-- 
2.43.0


From ba85622739c7699bbed9f2f7e98fe37ba2b88f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 15/56] fix: resizing an array with a null value, and resizing
 a slice of a primitive array

---
 include/sparrow/layout/array_bitmap_base.hpp  | 6 +++---
 include/sparrow/layout/mutable_array_base.hpp | 2 +-
 include/sparrow/layout/primitive_array.hpp    | 7 +++++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/sparrow/layout/array_bitmap_base.hpp b/include/sparrow/layout/array_bitmap_base.hpp
index 3865477..b3ec2ed 100644
--- a/include/sparrow/layout/array_bitmap_base.hpp
+++ b/include/sparrow/layout/array_bitmap_base.hpp
@@ -63,7 +63,7 @@ namespace sparrow
             requires is_mutable;
         const bitmap_type& get_bitmap() const;
 
-        void resize_bitmap(size_type new_length)
+        void resize_bitmap(size_type new_length, bool value)
             requires is_mutable;
 
         bitmap_iterator insert_bitmap(const_bitmap_iterator pos, bool value, size_type count)
@@ -161,12 +161,12 @@ namespace sparrow
     }
 
     template <class D, bool is_mutable>
-    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length)
+    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length, bool value)
         requires is_mutable
     {
         arrow_proxy& arrow_proxy = this->get_arrow_proxy();
         const size_t new_size = new_length + arrow_proxy.offset();
-        arrow_proxy.resize_bitmap(new_size);
+        arrow_proxy.resize_bitmap(new_size, value);
     }
 
     template <class D, bool is_mutable>
diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index d6359fa..1661145 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -254,7 +254,7 @@ namespace sparrow
     void mutable_array_base<D>::resize(size_type new_length, const value_type& value)
     {
         auto& derived = this->derived_cast();
-        derived.resize_bitmap(new_length);
+        derived.resize_bitmap(new_length, value.has_value());
         derived.resize_values(new_length, value.get());
         this->get_arrow_proxy().set_length(new_length);  // Must be done after resizing the bitmap and values
         derived.update();
diff --git a/include/sparrow/layout/primitive_array.hpp b/include/sparrow/layout/primitive_array.hpp
index 331546e..d746307 100644
--- a/include/sparrow/layout/primitive_array.hpp
+++ b/include/sparrow/layout/primitive_array.hpp
@@ -416,8 +416,11 @@ namespace sparrow
     template <class T>
     void primitive_array<T>::resize_values(size_type new_length, inner_value_type value)
     {
-        const size_t new_size = new_length + static_cast<size_t>(this->get_arrow_proxy().offset());
-        get_data_buffer().resize(new_size, value);
+        const size_t offset = static_cast<size_t>(this->get_arrow_proxy().offset());
+        auto data_buffer = get_data_buffer();
+        // The buffer of a slice may hold elements past the end of the array
+        data_buffer.resize(offset + std::min(this->size(), new_length), value);
+        data_buffer.resize(offset + new_length, value);
     }
 
     template <class T>
-- 
2.43.0


From 2e387836de87be368497fa5d317acdd522ecae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 16/56] fix: insertion, erasure and assignment in string arrays
 at any offset

---
 .../variable_size_binary_array.hpp            | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index 2e18f15..2c62f59 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -419,6 +419,8 @@ namespace sparrow
         const auto new_value_length = static_cast<OT>(std::ranges::size(rhs));
         const OT shift_byte_count = new_value_length - initial_value_length;
         auto& data_buffer = this->get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
+        // The new value may be an element of this array, that is moved below
+        const std::vector<data_value_type> new_value(std::ranges::begin(rhs), std::ranges::end(rhs));
         if (shift_byte_count != 0)
         {
             const auto shift_val_abs = static_cast<size_type>(std::abs(shift_byte_count));
@@ -442,13 +444,13 @@ namespace sparrow
             );
         }
         // Copy the new value into the buffer
-        std::copy(std::ranges::begin(rhs), std::ranges::end(rhs), data_buffer.begin() + offset_beg);
+        std::copy(new_value.cbegin(), new_value.cend(), data_buffer.begin() + offset_beg);
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
     auto variable_size_binary_array_impl<T, CR, OT>::offset(size_type i) -> offset_iterator
     {
-        SPARROW_ASSERT_TRUE(i <= size() + this->get_arrow_proxy().offset());
+        SPARROW_ASSERT_TRUE(i <= size() + 1);
         return get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].template data<OT>()
                + static_cast<size_type>(this->get_arrow_proxy().offset()) + i;
     }
@@ -456,7 +458,7 @@ namespace sparrow
     template <std::ranges::sized_range T, class CR, layout_offset OT>
     auto variable_size_binary_array_impl<T, CR, OT>::offset(size_type i) const -> const_offset_iterator
     {
-        SPARROW_ASSERT_TRUE(i <= this->size() + this->get_arrow_proxy().offset());
+        SPARROW_ASSERT_TRUE(i <= this->size() + 1);
         return this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].template data<OT>()
                + static_cast<size_type>(this->get_arrow_proxy().offset()) + i;
     }
@@ -566,7 +568,7 @@ namespace sparrow
         auto& data_buffer = this->get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
         const auto pos_to_insert = sparrow::next(data_buffer.cbegin(), offset_begin);
         data_buffer.insert(pos_to_insert, joined_repeated_value_range.begin(), joined_repeated_value_range.end());
-        insert_offset(offsets_cbegin() + idx + 1, static_cast<offset_type>(value.size()), count);
+        insert_offset(offsets_cbegin() + idx, static_cast<offset_type>(value.size()), count);
         return sparrow::next(value_begin(), idx);
     }
 
@@ -578,7 +580,9 @@ namespace sparrow
     ) -> offset_iterator
     {
         auto& offset_buffer = get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
-        const auto idx = static_cast<size_t>(std::distance(offsets_cbegin(), pos));
+        const size_t pos_idx = static_cast<size_t>(std::distance(offsets_cbegin(), pos));
+        // Position in the buffer, which starts before the first offset of a slice
+        const size_t idx = pos_idx + get_arrow_proxy().offset();
         auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
         const offset_type cumulative_size = value_size * static_cast<offset_type>(count);
         // Adjust offsets for subsequent elements
@@ -596,7 +600,7 @@ namespace sparrow
         {
             offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + value_size;
         }
-        return offsets_begin() + idx;
+        return offsets_begin() + pos_idx;
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
@@ -642,7 +646,7 @@ namespace sparrow
                 return static_cast<offset_type>(value.size());
             }
         );
-        insert_offsets(offset(idx + 1), sizes_of_each_value.begin(), sizes_of_each_value.end());
+        insert_offsets(offset(idx), sizes_of_each_value.begin(), sizes_of_each_value.end());
         return sparrow::next(value_begin(), idx);
     }
 
@@ -659,7 +663,9 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(first_sizes <= last_sizes);
         auto& offset_buffer = get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
         auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
-        const auto idx = std::distance(offsets_cbegin(), pos);
+        const auto pos_idx = std::distance(offsets_cbegin(), pos);
+        // Position in the buffer, which starts before the first offset of a slice
+        const auto idx = pos_idx + static_cast<difference_type>(get_arrow_proxy().offset());
         const OT cumulative_sizes = std::reduce(first_sizes, last_sizes, OT(0));
         const auto sizes_count = std::distance(first_sizes, last_sizes);
         offset_buffer_adaptor.resize(offset_buffer_adaptor.size() + static_cast<size_t>(sizes_count));
@@ -685,7 +691,7 @@ namespace sparrow
             offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + *it;
             ++it;
         }
-        return offset(static_cast<size_t>(idx));
+        return offset(static_cast<size_t>(pos_idx));
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
@@ -727,16 +733,18 @@ namespace sparrow
         const OT offset_start_value = *offset(index);
         const OT offset_end_value = *offset(index + count);
         const OT difference = offset_end_value - offset_start_value;
+        // Position in the buffer, which starts before the first offset of a slice
+        const size_t buffer_index = index + get_arrow_proxy().offset();
         // move the offsets after the erased ones
         std::move(
-            sparrow::next(offset_buffer_adaptor.begin(), index + count + 1),
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_index + count + 1),
             offset_buffer_adaptor.end(),
-            sparrow::next(offset_buffer_adaptor.begin(), index + 1)
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_index + 1)
         );
         offset_buffer_adaptor.resize(offset_buffer_adaptor.size() - count);
         // adjust the offsets for the subsequent elements
         std::for_each(
-            sparrow::next(offset_buffer_adaptor.begin(), index + 1),
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_index + 1),
             offset_buffer_adaptor.end(),
             [difference](OT& offset)
             {
-- 
2.43.0


From 7c3580a76882b1cdf1fde7b5fcbf54b20357a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 17/56] fix: buffer sizes of decimal, map, large string and
 view arrays, arrays without offsets

---
 src/array_factory.cpp               |  4 ++++
 src/arrow_interface/arrow_array.cpp | 30 +++++++++++++++++++++++------
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/array_factory.cpp b/src/array_factory.cpp
index 4e4302c..99d882e 100644
--- a/src/array_factory.cpp
+++ b/src/array_factory.cpp
@@ -109,6 +109,10 @@ namespace sparrow
             case data_type::STRUCT:
                 return detail::make_wrapper_ptr<struct_array>(std::move(proxy));
             case data_type::STRING:
+                if (proxy.format() == "U")
+                {
+                    throw std::runtime_error("not yet supported data type");
+                }
                 return detail::make_wrapper_ptr<string_array>(std::move(proxy)); 
             case data_type::RUN_ENCODED:
                 return detail::make_wrapper_ptr<run_end_encoded_array>(std::move(proxy));
diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index fa9e6b9..3318b59 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -94,7 +94,7 @@ namespace sparrow
         else
         {
             // get the position of second comma
-            const auto second_comma_ptr = std::strchr(format, ',');
+            const auto second_comma_ptr = std::strchr(std::strchr(format, ',') + 1, ',');
             if(!all_digits(std::string_view(second_comma_ptr + 1)))
             {
                 throw std::runtime_error("Invalid format for decimal");
@@ -125,14 +125,31 @@ namespace sparrow
         auto make_buffer =  [&](auto index, auto size)
         {
             auto buffer_ptr = static_const_ptr_cast<uint8_t>(array.buffers[index]);
-            return buffer_view_type(buffer_ptr, size);
+            return buffer_ptr != nullptr ? buffer_view_type(buffer_ptr, size) : buffer_view_type(nullptr, 0);
+        };
+
+        // The offsets of the large layouts are 64 bits wide
+        auto make_typed_variable_size_binary_buffers = [&]<class OT>(OT)
+        {
+            const auto* offsets = static_const_ptr_cast<OT>(array.buffers[1]);
+            const auto data_size = offsets != nullptr ? static_cast<size_t>(offsets[size]) : size_t(0);
+            return std::vector<buffer_view_type>{
+                make_valid_buffer(),
+                make_buffer(1, (size + 1) * sizeof(OT)),
+                make_buffer(2, data_size)
+            };
+        };
+        auto make_variable_size_binary_buffers = [&]()
+        {
+            const bool is_large = schema.format[0] == 'U' || schema.format[0] == 'Z';
+            return is_large ? make_typed_variable_size_binary_buffers(int64_t{})
+                            : make_typed_variable_size_binary_buffers(int32_t{});
         };
 
         switch(format_to_data_type(schema.format))
         {   
             case data_type::NA:
             case data_type::RUN_ENCODED:
-            case data_type::MAP:
                 return {};
             case data_type::BOOL:   
                 return {make_valid_buffer(), make_buffer(1, (size + 7) / 8)};
@@ -153,7 +170,7 @@ namespace sparrow
                 return {make_valid_buffer(), make_buffer(1, size * 8)};
             case data_type::STRING:
             case data_type::BINARY:
-                return {make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, static_const_ptr_cast<int32_t>(array.buffers[1])[size])};
+                return make_variable_size_binary_buffers();
             case data_type::LIST:
                 return {make_valid_buffer(), make_buffer(1, (size + 1) * 4)};
             case data_type::LARGE_LIST:
@@ -164,6 +181,7 @@ namespace sparrow
                 return {make_valid_buffer(), make_buffer(1, size * 8), make_buffer(2, size * 8)};
             case data_type::FIXED_SIZED_LIST:
             case data_type::STRUCT:
+            case data_type::MAP:
                 return  {make_valid_buffer()};
             case data_type::SPARSE_UNION:
                 return {make_buffer(0, size)};
@@ -172,7 +190,7 @@ namespace sparrow
             case data_type::TIMESTAMP:
                 return {make_valid_buffer(), make_buffer(1, size * 8)};
             case data_type::DECIMAL:
-                return {make_valid_buffer(), make_buffer(1, size * 16)}; 
+                return {make_valid_buffer(), make_buffer(1, size * num_bytes_for_decimal(schema.format))};
             case data_type::FIXED_WIDTH_BINARY:
                 return {make_valid_buffer(), make_buffer(1, size *  num_bytes_for_fixed_sized_binary(schema.format))};
             case data_type::STRING_VIEW:
@@ -187,7 +205,7 @@ namespace sparrow
                 {
                     buffers[i + 2] = make_buffer(i + 2, var_buffer_sizes[i]);
                 }
-                buffers.back() = make_buffer(buffer_count -1 , size * 4);
+                buffers.back() = make_buffer(buffer_count - 1, num_extra_data_buffers * sizeof(int64_t));
                 return buffers;
         }
         // To avoid stupid warning "control reaches end of non-void function"
-- 
2.43.0


From 1306af1299ffe3dc87813463615385e9424dda33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 18/56] fix: view arrays with an offset, and the data buffer
 index of their long values

---
 .../layout/variable_size_binary_view_array.hpp        | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index a39c201..f0206cc 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -219,8 +219,8 @@ namespace sparrow
                 auto prefix_sub_range = val_casted | std::ranges::views::take(PREFIX_SIZE);
                 std::ranges::copy(prefix_sub_range, length_ptr + PREFIX_OFFSET);
 
-                // write the buffer index
-                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = static_cast<std::int32_t>(FIRST_VAR_DATA_BUFFER_INDEX);
+                // write the index of the data buffer
+                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = std::int32_t(0);
 
                 // write the buffer offset
                 *reinterpret_cast<std::int32_t*>(length_ptr + BUFFER_OFFSET_OFFSET) = static_cast<std::int32_t>(long_string_storage_size);
@@ -308,7 +308,8 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(i < this->size());
 
         constexpr std::size_t element_size = 16;
-        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>() + (i * element_size);
+        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>()
+                        + ((i + this->get_arrow_proxy().offset()) * element_size);
 
         auto length = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr));
         using char_or_byte = typename inner_const_reference::value_type;
@@ -326,7 +327,7 @@ namespace sparrow
             constexpr std::ptrdiff_t buffer_offset_offset = 12;
             auto buffer_index = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_index_offset));
             auto buffer_offset = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_offset_offset));
-            auto buffer = this->get_arrow_proxy().buffers()[buffer_index].template data<const char_or_byte>();
+            auto buffer = this->get_arrow_proxy().buffers()[FIRST_VAR_DATA_BUFFER_INDEX + buffer_index].template data<const char_or_byte>();
             return inner_const_reference(buffer + buffer_offset,  length);
         }
 
@@ -338,7 +339,7 @@ namespace sparrow
     template <class T>
     auto variable_size_binary_view_array_impl<T>::value_begin() -> value_iterator
     {
-        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(), 0);
+        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(this), 0);
     }
 
     template <class T>
-- 
2.43.0


From d5a6c6aeb4ded3fb565900ae18bf80ed7109a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 19/56] fix: list arrays with an offset

---
 .../sparrow/layout/list_layout/list_array.hpp   | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index d1fda9f..c85507e 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -562,9 +562,8 @@ namespace sparrow
     template <bool BIG>
     auto list_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
     /***************************************
@@ -656,17 +655,15 @@ namespace sparrow
     template <bool BIG>
     auto list_view_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
     template <bool BIG>
     auto list_view_array_impl<BIG>::make_list_sizes() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
 #ifdef __GNUC__
@@ -693,7 +690,7 @@ namespace sparrow
 
     inline auto fixed_sized_list_array::offset_range(size_type i) const -> std::pair<offset_type, offset_type>
     {
-        const auto offset = i * m_list_size;
+        const auto offset = (i + this->get_arrow_proxy().offset()) * m_list_size;
         return std::make_pair(offset, offset + m_list_size);
     }
 
-- 
2.43.0


From 1c6442e68802747b61f789a779c50f150d020cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 20/56] fix: struct arrays with an offset, without children or
 with children that cannot be extracted

---
 include/sparrow/array_api.hpp                 | 21 +++++++++++++++++++
 .../layout/struct_layout/struct_array.hpp     | 11 +++++-----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/array_api.hpp b/include/sparrow/array_api.hpp
index bbad177..7d167cd 100644
--- a/include/sparrow/array_api.hpp
+++ b/include/sparrow/array_api.hpp
@@ -308,4 +308,25 @@ namespace sparrow
      */
     template <layout_or_array A>
     std::pair<ArrowArray, ArrowSchema> extract_arrow_structures(A&& a);
+
+    namespace detail
+    {
+        /**
+         * Throws an exception if the structures of one of the given arrays cannot be extracted. This
+         * allows to leave all the arrays untouched in that case.
+         *
+         * @exception std::runtime_error If an array does not own its internal ArrowArray and ArrowSchema.
+         */
+        template <class R>
+        void check_extractable(const R& arrays)
+        {
+            for (const auto& a : arrays)
+            {
+                if (!owns_arrow_array(a) || !owns_arrow_schema(a))
+                {
+                    throw std::runtime_error("cannot extract Arrow structures not owned by the array");
+                }
+            }
+        }
+    }
 }
diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index 97067e5..e76e067 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -150,10 +150,11 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
-        ArrowSchema** child_schemas = new ArrowSchema*[n_children];
-        ArrowArray** child_arrays = new ArrowArray*[n_children];
+        detail::check_extractable(children);
+        ArrowSchema** child_schemas = n_children == 0 ? nullptr : new ArrowSchema*[n_children];
+        ArrowArray** child_arrays = n_children == 0 ? nullptr : new ArrowArray*[n_children];
 
-        const auto size = children[0].size();
+        const auto size = n_children == 0 ? std::size_t(0) : children[0].size();
         
         for(std::size_t i=0; i<n_children; ++i)
         {
@@ -228,12 +229,12 @@ namespace sparrow
 
     inline auto struct_array::value(size_type i) -> inner_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + this->get_arrow_proxy().offset()};
     }
 
     inline auto struct_array::value(size_type i) const -> inner_const_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + this->get_arrow_proxy().offset()};
     }
 
     inline auto struct_array::make_children() -> children_type
-- 
2.43.0


From 0d3d44ccdc8cf4bedc86732b7fe8d2b584f656c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 21/56] fix: union arrays with an offset, without children or
 with children that cannot be extracted

---
 include/sparrow/layout/union_array.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index 0bd32b9..eb23415 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -268,7 +268,10 @@ namespace sparrow
                     ret += std::to_string(v) + ",";
                 }
             }
-            ret.pop_back();
+            if (n > 0)
+            {
+                ret.pop_back();
+            }
             return ret;       
         }
         else
@@ -325,7 +328,7 @@ namespace sparrow
     template <class DERIVED>
     auto union_array_crtp_base<DERIVED>::operator[](std::size_t i) const -> value_type
     {   
-        const auto type_id = static_cast<std::size_t>(p_type_ids[i]);
+        const auto type_id = static_cast<std::size_t>(p_type_ids[i + m_proxy.offset()]);
         const auto child_index = m_type_id_map[type_id];
         const auto offset = this->derived_cast().element_offset(i);
         return array_element(*m_children[child_index], static_cast<std::size_t>(offset));
@@ -437,8 +440,10 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
-        ArrowSchema** child_schemas = new ArrowSchema*[n_children];
-        ArrowArray** child_arrays = new ArrowArray*[n_children];
+        detail::check_extractable(children);
+        std::string format = make_format_string(true /*dense union*/, n_children, child_index_to_type_id);
+        ArrowSchema** child_schemas = n_children == 0 ? nullptr : new ArrowSchema*[n_children];
+        ArrowArray** child_arrays = n_children == 0 ? nullptr : new ArrowArray*[n_children];
         const auto size = element_type.size();
 
         // inverse type mapping (type_id -> child_index)
@@ -467,8 +472,6 @@ namespace sparrow
             child_schemas[i] = new ArrowSchema(std::move(flat_schema));
         }
 
-        std::string format = make_format_string(true /*dense union*/, n_children, std::forward<TYPE_MAPPING>(child_index_to_type_id));
-        
         ArrowSchema schema = make_arrow_schema(
             format,
             std::nullopt, // name
@@ -502,7 +505,7 @@ namespace sparrow
 
     inline std::size_t dense_union_array::element_offset(std::size_t i) const
     {
-        return static_cast<std::size_t>(p_offsets[i]) + m_proxy.offset();
+        return static_cast<std::size_t>(p_offsets[i + m_proxy.offset()]);
     }
 
     /*************************************
@@ -525,8 +528,10 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
-        ArrowSchema** child_schemas = new ArrowSchema*[n_children];
-        ArrowArray** child_arrays = new ArrowArray*[n_children];
+        detail::check_extractable(children);
+        std::string format = make_format_string(false /*is dense union*/, n_children, child_index_to_type_id);
+        ArrowSchema** child_schemas = n_children == 0 ? nullptr : new ArrowSchema*[n_children];
+        ArrowArray** child_arrays = n_children == 0 ? nullptr : new ArrowArray*[n_children];
         const auto size = element_type.size();
 
         // inverse type mapping (type_id -> child_index)
@@ -554,8 +559,6 @@ namespace sparrow
             child_schemas[i] = new ArrowSchema(std::move(flat_schema));
         }
 
-        std::string format = make_format_string(false /*is dense union*/, n_children, std::forward<TYPE_MAPPING>(child_index_to_type_id));
-
         ArrowSchema schema = make_arrow_schema(
             format,
             std::nullopt, // name
-- 
2.43.0


From e63dd787507f378a6dc9151d0087ab65c7f2ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 22/56] fix: run-end encoded arrays with an offset, signed run
 ends or without elements

---
 .../run_end_encoded_array.hpp                 | 29 +++++------
 .../run_end_encoded_iterator.hpp              |  8 ++-
 src/run_encoded_array.cpp                     | 50 ++++++++++++-------
 3 files changed, 49 insertions(+), 38 deletions(-)

diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
index 4f52832..4b5cac5 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
@@ -93,11 +93,15 @@ namespace sparrow
             array && encoded_values
         ) -> arrow_proxy;
 
-        using acc_length_ptr_variant_type = std::variant< const std::uint16_t*, const std::uint32_t*,const std::uint64_t*> ;
+        using acc_length_ptr_variant_type = std::variant<
+            const std::uint16_t*, const std::uint32_t*, const std::uint64_t*,
+            const std::int16_t*, const std::int32_t*, const std::int64_t*>;
 
         SPARROW_API static std::pair<std::int64_t, std::int64_t> extract_length_and_null_count( const array&, const array&);
         SPARROW_API static acc_length_ptr_variant_type get_acc_lengths_ptr(const array_wrapper& ar);
-        SPARROW_API std::uint64_t get_run_length(std::uint64_t run_index) const;
+        SPARROW_API std::uint64_t get_run_end(std::uint64_t run_index) const;
+        // index of the run covering the i-th element of the array
+        SPARROW_API std::uint64_t get_run_index(std::uint64_t i) const;
 
         [[nodiscard]] arrow_proxy& get_arrow_proxy();
         [[nodiscard]] const arrow_proxy& get_arrow_proxy() const;
@@ -154,26 +158,17 @@ namespace sparrow
         return m_proxy.length();
     }
 
-    inline auto run_end_encoded_array::get_run_length(std::uint64_t run_index) const -> std::uint64_t
+    inline auto run_end_encoded_array::get_run_end(std::uint64_t run_index) const -> std::uint64_t
     {
-
-        auto ret =  std::visit(
+        return std::visit(
             [run_index](auto&& acc_lengths_ptr) -> std::uint64_t
             {
-                if(run_index == 0)
-                {   
-                    return static_cast<std::uint64_t>(acc_lengths_ptr[run_index]);
-                }
-                else
-                {
-                    return static_cast<std::uint64_t>(acc_lengths_ptr[run_index] - acc_lengths_ptr[run_index - 1]);
-                }
+                return static_cast<std::uint64_t>(acc_lengths_ptr[run_index]);
             },
             m_acc_lengths
         );
-        return ret;
     }
-    
+
     inline arrow_proxy& run_end_encoded_array::get_arrow_proxy()
     {
         return m_proxy;
@@ -191,7 +186,7 @@ namespace sparrow
 
     inline auto run_end_encoded_array::begin() -> iterator
     {
-        return iterator(this, 0, 0);
+        return iterator(this, 0, get_run_index(0));
     }
 
     inline auto run_end_encoded_array::end() -> iterator
@@ -211,7 +206,7 @@ namespace sparrow
 
     inline auto run_end_encoded_array::cbegin() const -> const_iterator
     {
-        return const_iterator(this, 0, 0);
+        return const_iterator(this, 0, get_run_index(0));
     }
 
     inline auto run_end_encoded_array::cend() const -> const_iterator
diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
index 8faafb8..79ad493 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
@@ -66,8 +66,12 @@ namespace sparrow
         p_encoded_values_array(array_ptr->p_encoded_values_array.get()),
         m_index(index), 
         m_run_end_index(run_end_index),
-        m_runs_left(array_ptr->get_run_length(index))
+        m_runs_left(0)
     {
+        if(m_index < p_array->size())
+        {
+            m_runs_left = p_array->get_run_end(m_run_end_index) - (m_index + p_array->get_arrow_proxy().offset());
+        }
     }
 
     template<bool CONST>
@@ -84,7 +88,7 @@ namespace sparrow
         if(m_runs_left == 0 && m_index < p_array->size())
         {
             ++m_run_end_index;
-            m_runs_left = p_array->get_run_length(m_run_end_index);
+            m_runs_left = p_array->get_run_end(m_run_end_index) - (m_index + p_array->get_arrow_proxy().offset());
         }
     }
 
diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index a5d5608..edbc9d4 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -11,7 +11,10 @@ namespace sparrow
              mpl::is_type_instance_of_v<T, primitive_array> && (
              std::same_as<typename T::inner_value_type, std::uint16_t> ||
              std::same_as<typename T::inner_value_type, std::uint32_t> ||
-             std::same_as<typename T::inner_value_type, std::uint64_t>);
+             std::same_as<typename T::inner_value_type, std::uint64_t> ||
+             std::same_as<typename T::inner_value_type, std::int16_t> ||
+             std::same_as<typename T::inner_value_type, std::int32_t> ||
+             std::same_as<typename T::inner_value_type, std::int64_t>);
     
     auto run_end_encoded_array::get_acc_lengths_ptr(const array_wrapper& ar) -> acc_length_ptr_variant_type
     {
@@ -33,24 +36,32 @@ namespace sparrow
         );
     }
 
-    auto run_end_encoded_array::operator[](std::uint64_t i) const -> array_traits::const_reference
+    std::uint64_t run_end_encoded_array::get_run_index(std::uint64_t i) const
     {
-        return visit(
-            [i, this](const auto& acc_lengths_ptr) -> array_traits::const_reference
+        return std::visit(
+            [i, this](const auto& acc_lengths_ptr) -> std::uint64_t
             {
                 const auto it = std::upper_bound(
                     acc_lengths_ptr,
                     acc_lengths_ptr + this->m_encoded_length,
-                    i
+                    i + m_proxy.offset(),
+                    [](std::uint64_t index, const auto& acc_length)
+                    {
+                        return index < static_cast<std::uint64_t>(acc_length);
+                    }
                 );
-                // std::lower_bound returns an iterator, so we need to convert it to an index
-                const auto index = static_cast<std::size_t>(std::distance(acc_lengths_ptr, it));
-                return array_element(*p_encoded_values_array, static_cast<std::size_t>(index));
+                // std::upper_bound returns an iterator, so we need to convert it to an index
+                return static_cast<std::uint64_t>(std::distance(acc_lengths_ptr, it));
             },
             m_acc_lengths
         );
     }
 
+    auto run_end_encoded_array::operator[](std::uint64_t i) const -> array_traits::const_reference
+    {
+        return array_element(*p_encoded_values_array, static_cast<std::size_t>(get_run_index(i)));
+    }
+
     std::pair<std::int64_t, std::int64_t> run_end_encoded_array::extract_length_and_null_count(
         const array& acc_lengths_arr, 
         const array& encoded_values_arr
@@ -58,8 +69,6 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(acc_lengths_arr.size() == encoded_values_arr.size());
 
-        // get the raw null count
-        std::uint64_t raw_null_count = detail::array_access::get_arrow_proxy(acc_lengths_arr).null_count();
         auto raw_size = acc_lengths_arr.size();
         // visit the acc_lengths array
         std::int64_t length = 0;
@@ -69,12 +78,12 @@ namespace sparrow
                 if constexpr(usable_array<std::decay_t<decltype(acc_lengths_array)>>)
                 {   
                     auto acc_length_data = acc_lengths_array.data();
-                    // get the length of the array (ie last element in the acc_lengths array)
-                    length = acc_length_data[raw_size - 1];
-
-                    if(raw_null_count == 0){
+                    if(raw_size == 0){
                         return;
                     }
+                    // get the length of the array (ie last element in the acc_lengths array)
+                    length = static_cast<std::int64_t>(acc_length_data[raw_size - 1]);
+
                     for(std::size_t i = 0; i < raw_size; ++i)
                     {
                         // check if the value is null
@@ -82,11 +91,7 @@ namespace sparrow
                         {
                             // how often is this value repeated?
                             const auto run_length = i == 0 ? acc_length_data[i] : acc_length_data[i] - acc_length_data[i - 1];
-                            null_count += run_length;
-                            raw_null_count -= 1;
-                            if(raw_null_count == 0){
-                                return;
-                            }
+                            null_count += static_cast<std::int64_t>(run_length);
                         }
                     }
                     
@@ -108,6 +113,13 @@ namespace sparrow
     {   
         auto [null_count, length] = extract_length_and_null_count(acc_lengths, encoded_values);
 
+        for (const array* child : {&acc_lengths, &encoded_values})
+        {
+            if (!owns_arrow_array(*child) || !owns_arrow_schema(*child))
+            {
+                throw std::runtime_error("cannot extract Arrow structures not owned by the array");
+            }
+        }
         auto [acc_length_array, acc_length_schema] = extract_arrow_structures(std::move(acc_lengths));
         auto [encoded_values_array, encoded_values_schema] = extract_arrow_structures(std::move(encoded_values));
 
-- 
2.43.0


From abe6f676ae7cb0e0926aaf0327521a0e86256675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:14 +0000
Subject: [PATCH 23/56] fix: null count after null elements have been assigned

---
 include/sparrow/array.hpp                    |  5 ++++-
 include/sparrow/arrow_array_schema_proxy.hpp |  6 ++++++
 src/arrow_array_schema_proxy.cpp             | 11 +++++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/array.hpp b/include/sparrow/array.hpp
index 1766e5c..9608471 100644
--- a/include/sparrow/array.hpp
+++ b/include/sparrow/array.hpp
@@ -59,7 +59,9 @@ namespace sparrow
     template <layout_or_array A>
     ArrowArray* get_arrow_array(A& a)
     {
-        return &(detail::array_access::get_arrow_proxy(a).array());
+        arrow_proxy& proxy = detail::array_access::get_arrow_proxy(a);
+        proxy.refresh_null_count();
+        return &(proxy.array());
     }
 
     template <layout_or_array A>
@@ -72,6 +74,7 @@ namespace sparrow
     std::pair<ArrowArray*, ArrowSchema*> get_arrow_structures(A& a)
     {
         arrow_proxy& proxy = detail::array_access::get_arrow_proxy(a);
+        proxy.refresh_null_count();
         return std::make_pair(&(proxy.array()), &(proxy.schema()));
     }
 
diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index cdd9c9e..6ba4b36 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -336,6 +336,12 @@ namespace sparrow
          */
         [[nodiscard]] SPARROW_API arrow_proxy view() const;
 
+        /**
+         * Recomputes the null count of the `ArrowArray`, if it is owned and was created with sparrow. The
+         * bits of the validity bitmap can be changed without the null count being aware of it.
+         */
+        SPARROW_API void refresh_null_count();
+
         [[nodiscard]] SPARROW_API bool owns_array() const;
         [[nodiscard]] SPARROW_API ArrowArray extract_array();
         [[nodiscard]] SPARROW_API ArrowArray& array();
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 9d56d4c..837540a 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -182,6 +182,7 @@ namespace sparrow
             update_buffers();
             update_children();
             update_dictionary();
+            refresh_null_count();
         }
         else
         {
@@ -696,6 +697,7 @@ namespace sparrow
             throw std::runtime_error("cannot extract an ArrowArray not owned by the structure");
         }
 
+        refresh_null_count();
         ArrowArray res = std::get<ArrowArray>(std::move(m_array));
         m_array = ArrowArray{};
         reset();
@@ -709,6 +711,7 @@ namespace sparrow
             throw std::runtime_error("cannot extract an ArrowSchema not owned by the structure");
         }
 
+        refresh_null_count();
         ArrowSchema res = std::get<ArrowSchema>(std::move(m_schema));
         m_schema = ArrowSchema{};
         reset();
@@ -727,6 +730,14 @@ namespace sparrow
         }
     }
 
+    void arrow_proxy::refresh_null_count()
+    {
+        if (owns_array() && array_created_with_sparrow() && schema().release != nullptr)
+        {
+            update_null_count();
+        }
+    }
+
     void arrow_proxy::update_sliced_null_count(size_t original_length)
     {
         // The null count of the layouts without bitmap
-- 
2.43.0


From 1c7cda3b02275bbb1f6f938a9a408f10161ab548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 24/56] fix: extraction of Arrow structures of which only one
 is owned

---
 include/sparrow/array.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/array.hpp b/include/sparrow/array.hpp
index 9608471..707aae3 100644
--- a/include/sparrow/array.hpp
+++ b/include/sparrow/array.hpp
@@ -94,6 +94,11 @@ namespace sparrow
     std::pair<ArrowArray, ArrowSchema> extract_arrow_structures(A&& a)
     {
         arrow_proxy& proxy = detail::array_access::get_arrow_proxy(a);
-        return std::make_pair(proxy.extract_array(), proxy.extract_schema());
+        if (!proxy.owns_array() || !proxy.owns_schema())
+        {
+            throw std::runtime_error("cannot extract Arrow structures not owned by the array");
+        }
+        ArrowArray array = proxy.extract_array();
+        return std::make_pair(std::move(array), proxy.extract_schema());
     }
 }
-- 
2.43.0


From 93270d952284e176b898f7bccc294265dbfafe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:10 +0000
Subject: [PATCH 25/56] fix: released slice views are marked as released

---
 src/arrow_interface/arrow_array.cpp  | 1 +
 src/arrow_interface/arrow_schema.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 3318b59..5a90ded 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -38,6 +38,7 @@ namespace sparrow
     {
         SPARROW_ASSERT_FALSE(array == nullptr);
         SPARROW_ASSERT_TRUE(array->release == std::addressof(empty_release_arrow_array));
+        array->release = nullptr;
     }
 
 
diff --git a/src/arrow_interface/arrow_schema.cpp b/src/arrow_interface/arrow_schema.cpp
index dcf587c..41efe49 100644
--- a/src/arrow_interface/arrow_schema.cpp
+++ b/src/arrow_interface/arrow_schema.cpp
@@ -38,6 +38,7 @@ namespace sparrow
     {
         SPARROW_ASSERT_FALSE(schema == nullptr);
         SPARROW_ASSERT_TRUE(schema->release == std::addressof(empty_release_arrow_schema));
+        schema->release = nullptr;
     }
 
     void copy_schema(const ArrowSchema& source, ArrowSchema& target)
-- 
2.43.0


From ed80859750b687ee2bf8a4a59fc805ddf9b4e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:09 +0000
Subject: [PATCH 26/56] fix: children given by value to a proxy are moved

---
 src/arrow_array_schema_proxy.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 837540a..206a60f 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -596,8 +596,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
         release_child(index);
-        array().children[index] = new ArrowArray(std::move(child_array));
-        schema().children[index] = new ArrowSchema(std::move(child_schema));
+        array().children[index] = new ArrowArray(std::exchange(child_array, {}));
+        schema().children[index] = new ArrowSchema(std::exchange(child_schema, {}));
         m_children[index] = arrow_proxy(array().children[index], schema().children[index]);
         get_array_private_data()->set_child_ownership(index, true);
         get_schema_private_data()->set_child_ownership(index, true);
@@ -612,7 +612,9 @@ namespace sparrow
     void arrow_proxy::add_child(ArrowArray&& array, ArrowSchema&& schema)
     {
         using value_type = arrow_array_and_schema;
-        add_children(std::ranges::single_view(value_type{std::move(array), std::move(schema)}));
+        add_children(
+            std::ranges::single_view(value_type{std::exchange(array, {}), std::exchange(schema, {})})
+        );
     }
 
     [[nodiscard]] const std::unique_ptr<arrow_proxy>& arrow_proxy::dictionary() const
-- 
2.43.0


From e8cc8d10d178b1056b368e373a2669408399eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:19 +0000
Subject: [PATCH 27/56] fix: null elements of dictionary encoded arrays have
 the type of their own dictionary

---
 .../layout/dictionary_encoded_array.hpp       | 32 +++++--------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/include/sparrow/layout/dictionary_encoded_array.hpp b/include/sparrow/layout/dictionary_encoded_array.hpp
index e14fd46..ce16b2f 100644
--- a/include/sparrow/layout/dictionary_encoded_array.hpp
+++ b/include/sparrow/layout/dictionary_encoded_array.hpp
@@ -152,8 +152,6 @@ namespace sparrow
         using keys_layout = primitive_array<IT>;
         using values_layout = cloning_ptr<array_wrapper>;
 
-        const inner_value_type& dummy_inner_value() const;
-        //inner_const_reference dummy_inner_const_reference() const;
         const_reference dummy_const_reference() const;
 
         static keys_layout create_keys_layout(arrow_proxy& proxy);
@@ -325,31 +323,17 @@ namespace sparrow
         return const_iterator(const_functor_type(this), size());
     }
 
-    template <std::integral IT>
-    auto dictionary_encoded_array<IT>::dummy_inner_value() const -> const inner_value_type&
-    {
-        static const inner_value_type instance = array_default_element_value(*p_values_layout);
-        return instance;
-    }
-
-    /*template <std::integral IT>
-    auto dictionary_encoded_array<IT>::dummy_inner_const_reference() const -> inner_const_reference
-    {
-        static const inner_const_reference instance =
-            std::visit([](const auto& val) -> inner_const_reference { return val; }, dummy_inner_value());
-        return instance;
-    }*/
-
     template <std::integral IT>
     auto dictionary_encoded_array<IT>::dummy_const_reference() const -> const_reference
     {
-        static const const_reference instance =
-            std::visit([](const auto& val) -> const_reference {
-                using inner_ref = typename arrow_traits<std::decay_t<decltype(val)>>::const_reference;
-                return nullable<inner_ref>(inner_ref(val), false);
-            },
-            dummy_inner_value());
-        return instance;
+        // The type of the default value depends on the values layout, there must be one instance per type.
+        return std::visit([](const auto& val) -> const_reference {
+            using inner_value = std::decay_t<decltype(val)>;
+            using inner_ref = typename arrow_traits<inner_value>::const_reference;
+            static const inner_value instance{};
+            return nullable<inner_ref>(inner_ref(instance), false);
+        },
+        array_default_element_value(*p_values_layout));
     }
 
     template <std::integral IT>
-- 
2.43.0


From 5c02796a2daf0953c5fec0525e8b03d050a2b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 28/56] fix: size and data type of a default constructed array

---
 src/array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index 2b08f14..86789da 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -44,7 +44,7 @@ namespace sparrow
 
     enum data_type array::data_type() const
     {
-        return p_array->data_type();
+        return p_array ? p_array->data_type() : data_type::NA;
     }
 
     bool array::empty() const
@@ -54,7 +54,7 @@ namespace sparrow
 
     array::size_type array::size() const
     {
-        return array_size(*p_array);
+        return p_array ? array_size(*p_array) : size_type(0);
     }
 
     array::const_reference array::at(size_type index) const
-- 
2.43.0


From 788676ea175876976098769b99d948afddf1df8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:22 +0000
Subject: [PATCH 29/56] fix: arrays with a validity bitmap are flagged as
 nullable

---
 include/sparrow/layout/dictionary_encoded_array.hpp         | 2 +-
 include/sparrow/layout/list_layout/list_array.hpp           | 6 +++---
 include/sparrow/layout/primitive_array.hpp                  | 2 +-
 include/sparrow/layout/struct_layout/struct_array.hpp       | 2 +-
 .../variable_size_binary_array.hpp                          | 2 +-
 include/sparrow/layout/variable_size_binary_view_array.hpp  | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/sparrow/layout/dictionary_encoded_array.hpp b/include/sparrow/layout/dictionary_encoded_array.hpp
index ce16b2f..247546f 100644
--- a/include/sparrow/layout/dictionary_encoded_array.hpp
+++ b/include/sparrow/layout/dictionary_encoded_array.hpp
@@ -243,7 +243,7 @@ namespace sparrow
             sparrow::data_type_format_of<IT>(),
             std::nullopt, // name
             std::nullopt, // metadata
-            std::nullopt, // flags
+            ArrowFlag::NULLABLE, // flags
             0, // n_children
             nullptr, // children
             new ArrowSchema(std::move(value_schema)) // dictionary
diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index c85507e..e04293b 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -512,7 +512,7 @@ namespace sparrow
             BIG ? std::string("+L") : std::string("+l"), // format
             std::nullopt, // name
             std::nullopt, // metadata
-            std::nullopt, // flags,
+            ArrowFlag::NULLABLE, // flags,
             1, // n_children
             new ArrowSchema*[1]{new ArrowSchema(std::move(flat_schema))}, // children
             nullptr // dictionary
@@ -600,7 +600,7 @@ namespace sparrow
             BIG ? std::string("+vL") : std::string("+vl"), // format
             std::nullopt, // name
             std::nullopt, // metadata
-            std::nullopt, // flags,
+            ArrowFlag::NULLABLE, // flags,
             1, // n_children
             new ArrowSchema*[1]{new ArrowSchema(std::move(flat_schema))}, // children
             nullptr // dictionary
@@ -712,7 +712,7 @@ namespace sparrow
             format,
             std::nullopt, // name
             std::nullopt, // metadata
-            std::nullopt, // flags,
+            ArrowFlag::NULLABLE, // flags,
             1, // n_children
             new ArrowSchema*[1]{new ArrowSchema(std::move(flat_schema))}, // children
             nullptr // dictionary
diff --git a/include/sparrow/layout/primitive_array.hpp b/include/sparrow/layout/primitive_array.hpp
index d746307..9d18819 100644
--- a/include/sparrow/layout/primitive_array.hpp
+++ b/include/sparrow/layout/primitive_array.hpp
@@ -271,7 +271,7 @@ namespace sparrow
             sparrow::data_type_format_of<T>(),
             std::nullopt,  // name
             std::nullopt,  // metadata
-            std::nullopt,  // flags
+            ArrowFlag::NULLABLE,  // flags
             0,             // n_children
             nullptr,       // children
             nullptr        // dictionary
diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index e76e067..af59d77 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -172,7 +172,7 @@ namespace sparrow
             std::string("+s"), // format
             std::nullopt, // name
             std::nullopt, // metadata
-            std::nullopt, // flags,
+            ArrowFlag::NULLABLE, // flags,
             static_cast<int64_t>(n_children),
             child_schemas, // children
             nullptr // dictionary
diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index 2c62f59..ba9b09c 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -322,7 +322,7 @@ namespace sparrow
             detail::variable_size_binary_format<T, OT>::format(),
             std::nullopt,  // name
             std::nullopt,  // metadata
-            std::nullopt,  // flags,
+            ArrowFlag::NULLABLE,  // flags,
             0,             // n_children
             nullptr,       // children
             nullptr        // dictionary
diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index f0206cc..25302ec 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -259,7 +259,7 @@ namespace sparrow
             std::is_same<T, std::string_view>::value ? std::string_view("vu") : std::string_view("vz"),
             std::nullopt, // name
             std::nullopt, // metadata
-            std::nullopt, // flags
+            ArrowFlag::NULLABLE, // flags
             0, // n_children
             nullptr, // children
             nullptr // dictionary
-- 
2.43.0


From 8d2224e504039b59e6e59ecf22b5259d58b1ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 30/56] fix: run ends are exported with the signed types of the
 Arrow format

---
 src/run_encoded_array.cpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index edbc9d4..bc59359 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -4,6 +4,8 @@
 #include "sparrow/layout/primitive_array.hpp"
 #include "sparrow/array.hpp"
 
+#include <limits>
+
 namespace sparrow   
 {    
     template<class T>
@@ -106,6 +108,32 @@ namespace sparrow
     };
 
 
+    // The Arrow format specifies signed run ends. The representation of the unsigned ones is the same as long
+    // as the last one can be represented in the signed type.
+    static std::pair<ArrowArray, ArrowSchema>
+    make_signed_run_ends(std::pair<ArrowArray, ArrowSchema> structures, std::int64_t length)
+    {
+        arrow_proxy proxy(std::move(structures.first), std::move(structures.second));
+        if (proxy.is_created_with_sparrow())
+        {
+            const auto type = proxy.data_type();
+            if (type == data_type::UINT16 && length <= std::numeric_limits<std::int16_t>::max())
+            {
+                proxy.set_data_type(data_type::INT16);
+            }
+            else if (type == data_type::UINT32 && length <= std::numeric_limits<std::int32_t>::max())
+            {
+                proxy.set_data_type(data_type::INT32);
+            }
+            else if (type == data_type::UINT64)
+            {
+                proxy.set_data_type(data_type::INT64);
+            }
+        }
+        ArrowArray array = proxy.extract_array();
+        return {array, proxy.extract_schema()};
+    }
+
     auto run_end_encoded_array::create_proxy(
         array && acc_lengths,
         array && encoded_values
@@ -120,7 +148,10 @@ namespace sparrow
                 throw std::runtime_error("cannot extract Arrow structures not owned by the array");
             }
         }
-        auto [acc_length_array, acc_length_schema] = extract_arrow_structures(std::move(acc_lengths));
+        auto [acc_length_array, acc_length_schema] = make_signed_run_ends(
+            extract_arrow_structures(std::move(acc_lengths)),
+            length
+        );
         auto [encoded_values_array, encoded_values_schema] = extract_arrow_structures(std::move(encoded_values));
 
         constexpr auto n_children = 2;
-- 
2.43.0


From b6713bc36471835912a97906cf3b4b1ba0925bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 31/56] fix: building lists whose null elements have hidden
 values

---
 include/sparrow/builder/builder_utils.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/sparrow/builder/builder_utils.hpp b/include/sparrow/builder/builder_utils.hpp
index 0fd7c58..5da0796 100644
--- a/include/sparrow/builder/builder_utils.hpp
+++ b/include/sparrow/builder/builder_utils.hpp
@@ -273,14 +273,8 @@ namespace detail
         using decayed = std::decay_t<T>;
         if constexpr(is_nullable_like<decayed>)
         {
-            if (t.has_value())
-            {
-                return get_size_save(t.get());
-            }
-            else
-            {
-                return 0;
-            }
+            // The value of a null element is flattened like any other, see ensure_value
+            return get_size_save(t.get());
         }
         else if constexpr(is_express_layout_desire<decayed>)
         {
-- 
2.43.0


From 003f55b645f95b2c3aa7d3ee5598e9fee183ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 32/56] fix: dictionary encoding of NaNs by the builder

---
 include/sparrow/builder/nested_less.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/sparrow/builder/nested_less.hpp b/include/sparrow/builder/nested_less.hpp
index b3116ce..1a550ca 100644
--- a/include/sparrow/builder/nested_less.hpp
+++ b/include/sparrow/builder/nested_less.hpp
@@ -15,6 +15,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <vector>
 
 #include <sparrow/builder/builder_utils.hpp>
@@ -37,6 +38,14 @@ namespace sparrow
         {
             bool operator()(const T& a, const T& b) const
             {
+                if constexpr (std::is_floating_point_v<T>)
+                {
+                    // NaNs are equivalent to each other and come last, so that this is a strict weak ordering
+                    if (std::isnan(a) || std::isnan(b))
+                    {
+                        return !std::isnan(a) && std::isnan(b);
+                    }
+                }
                 return a < b;
             }
         };  
-- 
2.43.0


From c752df2f3661fe84ec4bed2fda97884385cc6db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 33/56] fix: run-end encoding of an empty input by the builder

---
 include/sparrow/builder/builder.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/builder/builder.hpp b/include/sparrow/builder/builder.hpp
index ff306fa..e96f2d6 100644
--- a/include/sparrow/builder/builder.hpp
+++ b/include/sparrow/builder/builder.hpp
@@ -407,7 +407,11 @@ struct builder<T, enforce_run_end_encoded_layout, OPTION_FLAGS>
             }
             ++i;
         }
-        acc_run_lengths.push_back(i);
+        // there is no run in an empty input
+        if(i != 0)
+        {
+            acc_run_lengths.push_back(i);
+        }
     
         auto run_length_typed_array = primitive_array<std::size_t>(acc_run_lengths);
 
-- 
2.43.0


From db2a8f14386b4996c79b27290ec1e7e2fab1b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:43 +0000
Subject: [PATCH 34/56] fix: three-way comparison of a nullable with nullval

---
 include/sparrow/utils/nullable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/utils/nullable.hpp b/include/sparrow/utils/nullable.hpp
index 2d90860..0865d0c 100644
--- a/include/sparrow/utils/nullable.hpp
+++ b/include/sparrow/utils/nullable.hpp
@@ -735,7 +735,7 @@ namespace sparrow
     template <class T, class B>
     constexpr std::strong_ordering operator<=>(const nullable<T, B>& lhs, nullval_t) noexcept
     {
-        return lhs <=> false;
+        return bool(lhs) <=> false;
     }
     
     template <class T, class B, class U>
-- 
2.43.0


From 59acd596c5ad40de2f607571ebd6e12b952c783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 35/56] fix: subrange of a mutable buffer view from iterators

---
 include/sparrow/buffer/buffer_view.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/buffer_view.hpp b/include/sparrow/buffer/buffer_view.hpp
index 69535b5..0a90273 100644
--- a/include/sparrow/buffer/buffer_view.hpp
+++ b/include/sparrow/buffer/buffer_view.hpp
@@ -333,7 +333,10 @@ namespace sparrow
     buffer_view<T> buffer_view<T>::subrange(const_iterator first, const_iterator last) const
     {
         SPARROW_ASSERT_TRUE(first >= begin() && last <= end());
-        return buffer_view<T>(first, last);
+        return subrange(
+            static_cast<size_type>(std::distance(begin(), first)),
+            static_cast<size_type>(std::distance(first, last))
+        );
     }
 
     template <class T>
-- 
2.43.0


From 1e19eafe18e8dbe1e928664700c727b2054caa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 36/56] fix: record batches built from lvalue ranges copy them

---
 include/sparrow/record_batch.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/record_batch.hpp b/include/sparrow/record_batch.hpp
index c6f3e75..8708cab 100644
--- a/include/sparrow/record_batch.hpp
+++ b/include/sparrow/record_batch.hpp
@@ -157,8 +157,8 @@ namespace sparrow
         requires(std::convertible_to<std::ranges::range_value_t<NR>, std::string>
                  and std::same_as<std::ranges::range_value_t<CR>, array>)
     record_batch::record_batch(NR&& names, CR&& columns)
-        : m_name_list(to_vector<name_type>(std::move(names)))
-        , m_array_list(to_vector<array>(std::move(columns)))
+        : m_name_list(to_vector<name_type>(std::forward<NR>(names)))
+        , m_array_list(to_vector<array>(std::forward<CR>(columns)))
     {
         init_array_map();
         SPARROW_ASSERT_TRUE(check_consistency());
@@ -172,7 +172,15 @@ namespace sparrow
         {
             v.reserve(std::ranges::size(range));
         }
-        std::ranges::move(range, std::back_inserter(v));
+        // The elements can be moved only if the range owns them and is not used anymore
+        if constexpr (std::is_lvalue_reference_v<R> || std::ranges::view<std::remove_cvref_t<R>>)
+        {
+            std::ranges::copy(range, std::back_inserter(v));
+        }
+        else
+        {
+            std::ranges::move(range, std::back_inserter(v));
+        }
         return v;
     }
 }
-- 
2.43.0


From d4c1b073c44bb96cf250a992b161c7c5a411ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 37/56] fix: element access of view arrays

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index 25302ec..4d55cae 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -165,6 +165,7 @@ namespace sparrow
 
         friend base_type;
         friend base_type::base_type;
+        friend base_type::base_type::base_type;
 
     };
 
-- 
2.43.0


From f69084241aa42c24ef5d7c272c0542bde06a63ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 38/56] fix: assigning a shorter string to an element of a
 string array

---
 .../variable_size_binary_array.hpp            | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index ba9b09c..2538682 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -426,13 +426,26 @@ namespace sparrow
             const auto shift_val_abs = static_cast<size_type>(std::abs(shift_byte_count));
             const auto new_data_buffer_size = shift_byte_count < 0 ? data_buffer.size() - shift_val_abs
                                                                    : data_buffer.size() + shift_val_abs;
-            data_buffer.resize(new_data_buffer_size);
-            // Move elements to make space for the new value
-            std::move_backward(
-                data_buffer.begin() + offset_end,
-                data_buffer.end() - shift_byte_count,
-                data_buffer.end()
-            );
+            if (shift_byte_count < 0)
+            {
+                // Move elements next to the new value, which is shorter
+                std::move(
+                    data_buffer.begin() + offset_end,
+                    data_buffer.end(),
+                    data_buffer.begin() + offset_end + shift_byte_count
+                );
+                data_buffer.resize(new_data_buffer_size);
+            }
+            else
+            {
+                data_buffer.resize(new_data_buffer_size);
+                // Move elements to make space for the new value
+                std::move_backward(
+                    data_buffer.begin() + offset_end,
+                    data_buffer.end() - shift_byte_count,
+                    data_buffer.end()
+                );
+            }
             // Adjust offsets for subsequent elements
             std::for_each(
                 offset(index + 1),
-- 
2.43.0


From c8448f07df1179cbfdd57ce86612bd23470a7a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 39/56] fix: copies of arrays without validity bitmap have no
 nulls

---
 src/arrow_interface/arrow_array.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 5a90ded..505c2c1 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -251,7 +251,15 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(buffers.size() == static_cast<std::size_t>(source_array.n_buffers));
         for (const auto& buffer : buffers)
         {
-            buffers_copy.emplace_back(buffer);
+            // An absent validity bitmap means that all the elements are valid, it must stay absent
+            if (buffer.data() == nullptr)
+            {
+                buffers_copy.emplace_back();
+            }
+            else
+            {
+                buffers_copy.emplace_back(buffer);
+            }
         }
         target.private_data = new arrow_array_private_data(
             std::move(buffers_copy),
-- 
2.43.0


From 4251e1f0c8fa934c63000691d843762e66556b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:08 +0000
Subject: [PATCH 40/56] fix: iteration over view arrays

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index 4d55cae..4495fcb 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -166,6 +166,8 @@ namespace sparrow
         friend base_type;
         friend base_type::base_type;
         friend base_type::base_type::base_type;
+        friend class detail::layout_value_functor<self_type, inner_value_type>;
+        friend class detail::layout_value_functor<const self_type, inner_value_type>;
 
     };
 
-- 
2.43.0


From 78c3b3a7c7762f27441e603464463c44ef087e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:38 +0000
Subject: [PATCH 41/56] fix: slice views of an array stay valid when another
 view of it is made

---
 .../arrow_interface/arrow_array/private_data.hpp     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/arrow_interface/arrow_array/private_data.hpp b/include/sparrow/arrow_interface/arrow_array/private_data.hpp
index 277dcf3..8ddc0da 100644
--- a/include/sparrow/arrow_interface/arrow_array/private_data.hpp
+++ b/include/sparrow/arrow_interface/arrow_array/private_data.hpp
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <vector>
 
 #include "sparrow/arrow_interface/arrow_array_schema_utils.hpp"
@@ -112,6 +113,15 @@ namespace sparrow
 
     constexpr void arrow_array_private_data::update_buffers_ptrs()
     {
-        m_buffers_pointers = to_raw_ptr_vec<std::uint8_t>(m_buffers);
+        // In place: slice views of the array refer to the current table of pointers.
+        m_buffers_pointers.resize(m_buffers.size());
+        std::ranges::transform(
+            m_buffers,
+            m_buffers_pointers.begin(),
+            [](auto& buffer)
+            {
+                return buffer.data();
+            }
+        );
     }
 }
-- 
2.43.0


From 546c251c8b310941e6e9dbea75f58e8b5fb0f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:22 +0000
Subject: [PATCH 42/56] fix: the proxies of the children stay views when
 children are added

---
 include/sparrow/arrow_array_schema_proxy.hpp | 4 ++--
 src/arrow_array_schema_proxy.cpp             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 6ba4b36..0060d21 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -81,8 +81,8 @@ namespace sparrow
         SPARROW_API arrow_proxy& operator=(const arrow_proxy&);
 
         // Move constructors
-        SPARROW_API arrow_proxy(arrow_proxy&&);
-        SPARROW_API arrow_proxy& operator=(arrow_proxy&&);
+        SPARROW_API arrow_proxy(arrow_proxy&&) noexcept;
+        SPARROW_API arrow_proxy& operator=(arrow_proxy&&) noexcept;
 
         SPARROW_API ~arrow_proxy();
 
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 206a60f..85db22d 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -202,7 +202,7 @@ namespace sparrow
         return *this;
     }
 
-    arrow_proxy::arrow_proxy(arrow_proxy&& other)
+    arrow_proxy::arrow_proxy(arrow_proxy&& other) noexcept
         : m_array(std::move(other.m_array))
         , m_schema(std::move(other.m_schema))
         , m_buffers(std::move(other.m_buffers))
@@ -214,7 +214,7 @@ namespace sparrow
         other.reset();
     }
 
-    arrow_proxy& arrow_proxy::operator=(arrow_proxy&& rhs)
+    arrow_proxy& arrow_proxy::operator=(arrow_proxy&& rhs) noexcept
     {
         swap(rhs);
         return *this;
-- 
2.43.0


From b77b214940509c6ebbf598868bf95046c7108ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:31 +0000
Subject: [PATCH 43/56] fix: assigning elements of arrays without validity
 buffer

---
 .../buffer/dynamic_bitset/bitset_iterator.hpp |  2 +-
 .../dynamic_bitset/bitset_reference.hpp       | 36 +++++++++++--------
 .../dynamic_bitset/dynamic_bitset_base.hpp    |  2 +-
 include/sparrow/layout/array_bitmap_base.hpp  | 15 ++++++++
 include/sparrow/layout/mutable_array_base.hpp |  3 ++
 5 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
index be9e505..00347ea 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
@@ -102,7 +102,7 @@ namespace sparrow
         }
         else
         {
-            return bitset_reference<B>(*p_bitset, *p_block, bitset_type::bit_mask(m_index));
+            return bitset_reference<B>(*p_bitset, p_block, bitset_type::bit_mask(m_index));
         }
     }
 
diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
index a036f00..30b6740 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
@@ -15,6 +15,8 @@
 
 #pragma once
 
+#include "sparrow/utils/contracts.hpp"
+
 namespace sparrow
 {
     template <class B, bool is_const>
@@ -55,14 +57,15 @@ namespace sparrow
         using block_type = typename B::block_type;
         using bitset_type = B;
 
-        bitset_reference(bitset_type& bitset, block_type& block, block_type mask);
+        // `block` may be null if `bitset` has no storage, in that case all the bits are set.
+        bitset_reference(bitset_type& bitset, block_type* block, block_type mask);
 
         constexpr void assign(bool) noexcept;
         constexpr void set() noexcept;
         constexpr void reset() noexcept;
 
         bitset_type& m_bitset;
-        block_type& m_block;
+        block_type* p_block;
         block_type m_mask;
 
         friend class bitset_iterator<B, false>;
@@ -105,13 +108,13 @@ namespace sparrow
         {
             return true;
         }
-        return (m_block & m_mask) != 0;
+        return (*p_block & m_mask) != 0;
     }
 
     template <class B>
     constexpr bool bitset_reference<B>::operator~() const noexcept
     {
-        return (m_block & m_mask) == 0;
+        return !bool(*this);
     }
 
     template <class B>
@@ -139,17 +142,15 @@ namespace sparrow
     {
         if (rhs)
         {
-            bool old_value = m_block & m_mask;
-            m_block ^= m_mask;
-            m_bitset.update_null_count(old_value, !old_value);
+            assign(!bool(*this));
         }
         return *this;
     }
 
     template <class B>
-    bitset_reference<B>::bitset_reference(bitset_type& bitset, block_type& block, block_type mask)
+    bitset_reference<B>::bitset_reference(bitset_type& bitset, block_type* block, block_type mask)
         : m_bitset(bitset)
-        , m_block(block)
+        , p_block(block)
         , m_mask(mask)
     {
     }
@@ -163,17 +164,22 @@ namespace sparrow
     template <class B>
     constexpr void bitset_reference<B>::set() noexcept
     {
-        bool old_value = m_block & m_mask;
-        m_block |= m_mask;
-        m_bitset.update_null_count(old_value, m_block & m_mask);
+        if (!m_bitset.has_storage())
+        {
+            return;  // Already set
+        }
+        bool old_value = *p_block & m_mask;
+        *p_block |= m_mask;
+        m_bitset.update_null_count(old_value, *p_block & m_mask);
     }
 
     template <class B>
     constexpr void bitset_reference<B>::reset() noexcept
     {
-        bool old_value = m_block & m_mask;
-        m_block &= ~m_mask;
-        m_bitset.update_null_count(old_value, m_block & m_mask);
+        SPARROW_ASSERT_TRUE(m_bitset.has_storage());
+        bool old_value = *p_block & m_mask;
+        *p_block &= ~m_mask;
+        m_bitset.update_null_count(old_value, *p_block & m_mask);
     }
 
     template <class B1, class B2>
diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 7ac95b1..b8db62e 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -199,7 +199,7 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(pos < size());
         SPARROW_ASSERT_TRUE(has_storage());
-        return reference(*this, buffer().data()[block_index(pos)], bit_mask(pos));
+        return reference(*this, buffer().data() + block_index(pos), bit_mask(pos));
     }
 
     template <typename B>
diff --git a/include/sparrow/layout/array_bitmap_base.hpp b/include/sparrow/layout/array_bitmap_base.hpp
index b3ec2ed..061023f 100644
--- a/include/sparrow/layout/array_bitmap_base.hpp
+++ b/include/sparrow/layout/array_bitmap_base.hpp
@@ -80,6 +80,10 @@ namespace sparrow
         void update()
             requires is_mutable;
 
+        // An array without validity buffer needs one before its elements can be assigned null.
+        void ensure_bitmap()
+            requires is_mutable;
+
         non_owning_dynamic_bitset<uint8_t> get_non_owning_dynamic_bitset();
 
         bitmap_type make_bitmap();
@@ -212,6 +216,17 @@ namespace sparrow
         return sparrow::next(this->bitmap_begin(), idx);
     }
 
+    template <class D, bool is_mutable>
+    void array_bitmap_base_impl<D, is_mutable>::ensure_bitmap()
+        requires is_mutable
+    {
+        if (m_bitmap.data() == nullptr && m_bitmap.size() > 0u && this->get_arrow_proxy().is_created_with_sparrow())
+        {
+            resize_bitmap(this->size(), true);
+            update();
+        }
+    }
+
     template <class D, bool is_mutable>
     void array_bitmap_base_impl<D, is_mutable>::update()
         requires is_mutable
diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index 1661145..cad3dcc 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -198,6 +198,7 @@ namespace sparrow
     template <class D>
     auto mutable_array_base<D>::begin() -> iterator
     {
+        this->derived_cast().ensure_bitmap();
         return iterator(this->derived_cast().value_begin(), this->derived_cast().bitmap_begin());
     }
 
@@ -208,6 +209,7 @@ namespace sparrow
     template <class D>
     auto mutable_array_base<D>::end() -> iterator
     {
+        this->derived_cast().ensure_bitmap();
         return iterator(this->derived_cast().value_end(), this->derived_cast().bitmap_end());
     }
 
@@ -220,6 +222,7 @@ namespace sparrow
     auto mutable_array_base<D>::operator[](size_type i) -> reference
     {
         SPARROW_ASSERT_TRUE(i < this->size());
+        this->derived_cast().ensure_bitmap();
         return reference(inner_reference(this->derived_cast().value(i)), this->derived_cast().has_value(i));
     }
 
-- 
2.43.0


From af512aeb5a838cd757c486a9a041f1a0c913216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 44/56] fix: width of the date, time and interval types in
 copied structures

---
 src/arrow_interface/arrow_array.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 505c2c1..4885e17 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -111,6 +111,15 @@ namespace sparrow
         }       
     }
     
+    // get the byte width of the date, time, timestamp, duration and interval types from format
+    std::size_t num_bytes_for_temporal(std::string_view format)
+    {
+        if (format == "tdD" || format == "tts" || format == "ttm" || format == "tiM")
+        {
+            return 4;
+        }
+        return format == "tin" ? 16 : 8;
+    }
 
     std::vector<sparrow::buffer_view<uint8_t>>
     get_arrow_array_buffers(const ArrowArray& array, const ArrowSchema& schema)
@@ -189,7 +198,7 @@ namespace sparrow
             case data_type::DENSE_UNION:
                 return {make_buffer(0, size), make_buffer(1, size*4)};
             case data_type::TIMESTAMP:
-                return {make_valid_buffer(), make_buffer(1, size * 8)};
+                return {make_valid_buffer(), make_buffer(1, size * num_bytes_for_temporal(schema.format))};
             case data_type::DECIMAL:
                 return {make_valid_buffer(), make_buffer(1, size * num_bytes_for_decimal(schema.format))};
             case data_type::FIXED_WIDTH_BINARY:
-- 
2.43.0


From f4e8fa4c5e32f62f7dc978863913a323645c4a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 45/56] fix: copies of map arrays have their offsets

---
 src/arrow_interface/arrow_array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 4885e17..527f07c 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -182,6 +182,7 @@ namespace sparrow
             case data_type::BINARY:
                 return make_variable_size_binary_buffers();
             case data_type::LIST:
+            case data_type::MAP:
                 return {make_valid_buffer(), make_buffer(1, (size + 1) * 4)};
             case data_type::LARGE_LIST:
                 return {make_valid_buffer(), make_buffer(1, (size + 1) * 8)};
@@ -191,7 +192,6 @@ namespace sparrow
                 return {make_valid_buffer(), make_buffer(1, size * 8), make_buffer(2, size * 8)};
             case data_type::FIXED_SIZED_LIST:
             case data_type::STRUCT:
-            case data_type::MAP:
                 return  {make_valid_buffer()};
             case data_type::SPARSE_UNION:
                 return {make_buffer(0, size)};
-- 
2.43.0


From 8c887ef1739a5ba9293715cf92ab7450181592f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 46/56] fix: null elements of arrays whose dictionary is itself
 encoded have its type of elements

---
 src/array_helper.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/array_helper.cpp b/src/array_helper.cpp
index ff7157a..c6e21ae 100644
--- a/src/array_helper.cpp
+++ b/src/array_helper.cpp
@@ -33,12 +33,36 @@ namespace sparrow
         return visit([index](const auto& impl) -> return_type { return return_type(impl[index]); }, ar);
     }
 
+    namespace
+    {
+        // default value of the index-th type of elements
+        template <std::size_t... I>
+        array_traits::inner_value_type make_default_value(std::size_t index, std::index_sequence<I...>)
+        {
+            array_traits::inner_value_type res;
+            (void) ((I == index && (res.emplace<I>(), true)) || ...);
+            return res;
+        }
+    }
+
     array_traits::inner_value_type array_default_element_value(const array_wrapper& ar)
     {
         using return_type = array_traits::inner_value_type;
         return visit([](const auto& impl) -> return_type {
             using value_type = typename std::decay_t<decltype(impl)>::inner_value_type;
-            return value_type();
+            if constexpr (std::same_as<value_type, return_type>)
+            {
+                // The layout does not determine the type of the elements (run-end encoded and dictionary
+                // encoded arrays), they do.
+                return make_default_value(
+                    impl.size() == 0 ? 0 : impl[0].index(),
+                    std::make_index_sequence<std::variant_size_v<return_type>>()
+                );
+            }
+            else
+            {
+                return value_type();
+            }
         }, ar);
     }
 }
-- 
2.43.0


From 97a21e72a0bc12553c44497f6adbaf5b61cb9a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 47/56] fix: reading null elements of view arrays ignores their
 view

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index 4495fcb..2e7283e 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -310,6 +310,12 @@ namespace sparrow
 
         SPARROW_ASSERT_TRUE(i < this->size());
 
+        // The view of a null element may contain anything.
+        if (!this->has_value(i))
+        {
+            return inner_const_reference();
+        }
+
         constexpr std::size_t element_size = 16;
         auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>()
                         + ((i + this->get_arrow_proxy().offset()) * element_size);
-- 
2.43.0


From d9a036c38191adbb89ed440ee9e40737659cf82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 48/56] fix: arrays built with a validity bitmap without
 storage have all their elements

---
 include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
index f19eae7..e4ca2aa 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
@@ -118,7 +118,8 @@ namespace sparrow
         using validity_bitmap = sparrow::validity_bitmap;
         inline validity_bitmap ensure_validity_bitmap_impl(std::size_t size, const validity_bitmap & bitmap)
         {
-            if(bitmap.size() == 0)
+            // a bitmap without storage has all its bits set
+            if(bitmap.size() == 0 || bitmap.data() == nullptr)
             {
                 return validity_bitmap(size, true);
             }
@@ -127,9 +128,10 @@ namespace sparrow
     
         inline validity_bitmap ensure_validity_bitmap_impl(std::size_t size, validity_bitmap && bitmap)
         {
-            if(bitmap.size() == 0)
+            // a bitmap without storage has all its bits set
+            if(bitmap.size() == 0 || bitmap.data() == nullptr)
             {
-                bitmap.resize(size, true);
+                return validity_bitmap(size, true);
             }
             return std::move(bitmap);
         }
-- 
2.43.0


From 09e6aeee241e15de414064377705ac84981b0ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 49/56] fix: structures are released when their import fails

---
 src/arrow_array_schema_proxy.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 85db22d..239ed26 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -130,9 +130,13 @@ namespace sparrow
         requires std::same_as<std::remove_pointer_t<std::remove_cvref_t<AA>>, ArrowArray>
                      && std::same_as<std::remove_pointer_t<std::remove_cvref_t<AS>>, ArrowSchema>
     arrow_proxy::arrow_proxy(AA&& array, AS&& schema, impl_tag)
-        : m_array(std::forward<AA>(array))
-        , m_schema(std::forward<AS>(schema))
+        : arrow_proxy()
     {
+        // The construction is complete at this point: the structures taken here are released by
+        // the destructor if an exception is thrown below.
+        m_array = std::forward<AA>(array);
+        m_schema = std::forward<AS>(schema);
+
         if constexpr (std::is_rvalue_reference_v<AA&&>)
         {
             array = {};
-- 
2.43.0


From 4ed0c6c96752ec0bcb84206a1696569691b6ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 50/56] fix: children of a struct array are kept when reading
 the validity throws

---
 include/sparrow/layout/struct_layout/struct_array.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index af59d77..d7f261c 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -151,11 +151,15 @@ namespace sparrow
     {
         const auto n_children = children.size();
         detail::check_extractable(children);
+        const auto size = n_children == 0 ? std::size_t(0) : children[0].size();
+
+        // reading the validity input may throw: the children must not have been extracted yet
+        validity_bitmap vbitmap = ensure_validity_bitmap(size, std::forward<VB>(validity_input));
+        const auto null_count = vbitmap.null_count();
+
         ArrowSchema** child_schemas = n_children == 0 ? nullptr : new ArrowSchema*[n_children];
         ArrowArray** child_arrays = n_children == 0 ? nullptr : new ArrowArray*[n_children];
 
-        const auto size = n_children == 0 ? std::size_t(0) : children[0].size();
-        
         for(std::size_t i=0; i<n_children; ++i)
         {
             auto & child = children[i];
@@ -165,9 +169,6 @@ namespace sparrow
             child_schemas[i] = new ArrowSchema(std::move(flat_schema));
         }
 
-        validity_bitmap vbitmap = ensure_validity_bitmap(size, std::forward<VB>(validity_input));
-        const auto null_count = vbitmap.null_count();
-        
         ArrowSchema schema = make_arrow_schema(
             std::string("+s"), // format
             std::nullopt, // name
-- 
2.43.0


From 7e95115aef6c25701a2f9baed7f4973079bf490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 51/56] fix: a child is kept by the caller when adding it is
 refused

---
 src/arrow_array_schema_proxy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 239ed26..4c1a204 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -615,6 +615,10 @@ namespace sparrow
 
     void arrow_proxy::add_child(ArrowArray&& array, ArrowSchema&& schema)
     {
+        if (!is_created_with_sparrow())
+        {
+            throw arrow_proxy_exception("Cannot add a child on non-sparrow created ArrowArray or ArrowSchema");
+        }
         using value_type = arrow_array_and_schema;
         add_children(
             std::ranges::single_view(value_type{std::exchange(array, {}), std::exchange(schema, {})})
-- 
2.43.0


From cceff7ea209351175cff9a9dce827f50dfab92c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 52/56] fix: builder: null elements of nested nullable lists

where_null indexed its input, so that the nulls of a flattened range of
lists (std::vector<nullable<std::vector<nullable<std::string>>>> for
instance) could not be found and building it was ill-formed.
---
 include/sparrow/builder/builder_utils.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/builder/builder_utils.hpp b/include/sparrow/builder/builder_utils.hpp
index 5da0796..9e60be9 100644
--- a/include/sparrow/builder/builder_utils.hpp
+++ b/include/sparrow/builder/builder_utils.hpp
@@ -304,12 +304,15 @@ namespace detail
     std::vector<std::size_t> where_null(T && t)
     {
         std::vector<std::size_t> result;
-        for (std::size_t i = 0; i < t.size(); ++i)
+        // Flattened nested ranges are neither sized nor random access ranges
+        std::size_t i = 0;
+        for (auto&& v : t)
         {
-            if (!t[i].has_value())
+            if (!v.has_value())
             {
                 result.push_back(i);
             }
+            ++i;
         }
         return result;
     }
@@ -322,12 +325,14 @@ namespace detail
     std::vector<std::size_t>  where_null(T && t)
     {
         std::vector<std::size_t> result;
-        for (std::size_t i = 0; i < t.size(); ++i)
+        std::size_t i = 0;
+        for (auto&& v : t)
         {
-            if (!(t[i].get().has_value()))
+            if (!v.get().has_value())
             {
                 result.push_back(i);
             }
+            ++i;
         }
         return result;
     }
-- 
2.43.0


From fc046cd8d3df5f5f687f7a26b8f0c3984301197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 53/56] fix: swap of references to bits and strings

std::swap kept a copy of the proxy, which reads the element after it was
overwritten: swapping two nullable elements of an array lost one of the
flags (and one of the strings).
---
 .../sparrow/buffer/dynamic_bitset/bitset_reference.hpp    | 8 ++++++++
 .../variable_size_binary_reference.hpp                    | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
index 30b6740..23456ba 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
@@ -52,6 +52,14 @@ namespace sparrow
         constexpr self_type& operator|=(bool) noexcept;
         constexpr self_type& operator^=(bool) noexcept;
 
+        // std::swap would keep a copy of the reference instead of a copy of the bit
+        friend constexpr void swap(self_type lhs, self_type rhs) noexcept
+        {
+            const bool tmp = lhs;
+            lhs = rhs;
+            rhs = tmp;
+        }
+
     private:
 
         using block_type = typename B::block_type;
diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp
index 6ca1914..7f0ebe3 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp
@@ -83,6 +83,14 @@ namespace sparrow
             requires std::assignable_from<U&, const char*>
         auto operator<=>(const char* rhs) const;
 
+        // std::swap would keep a copy of the reference instead of a copy of the value
+        friend void swap(self_type lhs, self_type rhs)
+        {
+            const value_type tmp(lhs.cbegin(), lhs.cend());
+            lhs = rhs;
+            rhs = tmp;
+        }
+
     private:
 
         offset_type offset(size_type index) const;
-- 
2.43.0


From 4adab95ea83465651ee173fbd2554a98b7219345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 54/56] fix: nullable of bool initialized from another nullable

The flag was taken for the value, and the result was never null, because a
nullable is explicitly convertible to bool: nullable<bool>(a[i]) did not
hold what element i of an array of bools holds.
---
 include/sparrow/utils/nullable.hpp | 46 +++++++++---------------------
 1 file changed, 14 insertions(+), 32 deletions(-)

diff --git a/include/sparrow/utils/nullable.hpp b/include/sparrow/utils/nullable.hpp
index 0865d0c..ab151ad 100644
--- a/include/sparrow/utils/nullable.hpp
+++ b/include/sparrow/utils/nullable.hpp
@@ -208,6 +208,15 @@ namespace sparrow
 
         template <class T>
         static constexpr bool is_nullable_v = mpl::is_type_instance_of_v<T, nullable>;
+
+        // A nullable can be converted to bool, but this tells whether it has a value: a
+        // nullable of bool must be initialized from the value and the flag of another one.
+        template <class T, class From>
+        concept nullable_to_bool = is_nullable_v<From> and std::same_as<std::decay_t<T>, bool>;
+
+        template <class T, class From>
+        concept initializable_from_nullable =
+            not nullable_to_bool<T, From> and initializable_from_refs<T, From>;
     }
 
     /**
@@ -305,6 +314,7 @@ namespace sparrow
         template <class U>
         requires (
             not std::same_as<self_type, std::decay_t<U>> and
+            not impl::nullable_to_bool<T, std::decay_t<U>> and
             std::constructible_from<T, U&&>
         )
         explicit (not std::convertible_to<U&&, T>)
@@ -319,7 +329,7 @@ namespace sparrow
         template <class TO, mpl::boolean_like BO>
         requires (
             impl::both_constructible_from_cref<T, TO, B, BO> and
-            not impl::initializable_from_refs<T, nullable<TO, BO>>
+            not impl::initializable_from_nullable<T, nullable<TO, BO>>
         )
         explicit(not impl::both_convertible_from_cref<T, TO, B, BO>)
         SPARROW_CONSTEXPR nullable(const nullable<TO, BO>& rhs)
@@ -328,26 +338,12 @@ namespace sparrow
         {
         }
 
-#ifdef __clang__
-        template <class TO, mpl::boolean_like BO>
-        requires (
-            impl::both_constructible_from_cref<T, TO, B, BO> and
-            std::same_as<std::decay_t<T>, bool>
-        )
-        explicit(not impl::both_convertible_from_cref<T, TO, B, BO>)
-        SPARROW_CONSTEXPR nullable(const nullable<TO, BO>& rhs)
-            : m_value(rhs.get())
-            , m_null_flag(rhs.null_flag())
-        {
-        }
-#endif
-
         constexpr nullable(self_type&&) noexcept = default;
 
         template <class TO, mpl::boolean_like BO>
         requires (
             impl::both_constructible_from_cond_ref<T, TO, B, BO> and
-            not impl::initializable_from_refs<T, nullable<TO, BO>>
+            not impl::initializable_from_nullable<T, nullable<TO, BO>>
         )
         explicit(not impl::both_convertible_from_cond_ref<T, TO, B, BO>)
         SPARROW_CONSTEXPR nullable(nullable<TO, BO>&& rhs)
@@ -356,20 +352,6 @@ namespace sparrow
         {
         }
 
-#ifdef __clang__
-        template <class TO, mpl::boolean_like BO>
-        requires (
-            impl::both_constructible_from_cond_ref<T, TO, B, BO> and
-            std::same_as<std::decay_t<T>, bool>
-        )
-        explicit(not impl::both_convertible_from_cond_ref<T, TO, B, BO>)
-        SPARROW_CONSTEXPR nullable(nullable<TO, BO>&& rhs)
-            : m_value(std::move(rhs).get())
-            , m_null_flag(std::move(rhs).null_flag())
-        {
-        }
-#endif
-  
         constexpr nullable(value_type&& value, flag_type&& null_flag)
             : m_value(std::move(value))
             , m_null_flag(std::move(null_flag))
@@ -422,7 +404,7 @@ namespace sparrow
         template <class TO, mpl::boolean_like BO>
         requires(
             impl::both_assignable_from_cref<T, TO, B, BO> and
-            not impl::initializable_from_refs<T, nullable<TO, BO>> and
+            not impl::initializable_from_nullable<T, nullable<TO, BO>> and
             not impl::assignable_from_refs<T, nullable<TO, BO>>
         )
         constexpr self_type& operator=(const nullable<TO, BO>& rhs)
@@ -442,7 +424,7 @@ namespace sparrow
         template <class TO, mpl::boolean_like BO>
         requires(
             impl::both_assignable_from_cond_ref<T, TO, B, BO> and
-            not impl::initializable_from_refs<T, nullable<TO, BO>> and
+            not impl::initializable_from_nullable<T, nullable<TO, BO>> and
             not impl::assignable_from_refs<T, nullable<TO, BO>>
         )
         constexpr self_type& operator=(nullable<TO, BO>&& rhs)
-- 
2.43.0


From fecf3c1f87c07570ebb6ae42f43aa46a2b350934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 55/56] fix: comparison of nullable references with nullval

The declaration of operator<=>(nullable, nullval_t) and its definition had
different constraints, hence were different templates: the constrained
declaration is chosen by overload resolution and is never defined.
---
 include/sparrow/utils/nullable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/utils/nullable.hpp b/include/sparrow/utils/nullable.hpp
index ab151ad..33fdb8b 100644
--- a/include/sparrow/utils/nullable.hpp
+++ b/include/sparrow/utils/nullable.hpp
@@ -714,7 +714,7 @@ namespace sparrow
         return !lhs;
     }
 
-    template <class T, class B>
+    template <class T, mpl::boolean_like B>
     constexpr std::strong_ordering operator<=>(const nullable<T, B>& lhs, nullval_t) noexcept
     {
         return bool(lhs) <=> false;
-- 
2.43.0


From 404665c6442fcd7f6843a06ccae6afc08069f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 56/56] fix: any_allocator made from an lvalue of a standard
 allocator is stored like one made from an rvalue

---
 include/sparrow/buffer/allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/allocator.hpp b/include/sparrow/buffer/allocator.hpp
index 4f80b47..bc6893f 100644
--- a/include/sparrow/buffer/allocator.hpp
+++ b/include/sparrow/buffer/allocator.hpp
@@ -145,7 +145,7 @@ namespace sparrow
         }
 
         template <class A>
-            requires can_any_allocator_sbo<A, T>
+            requires can_any_allocator_sbo<std::remove_cvref_t<A>, T>
         A&& make_storage(A&& alloc) const
         {
             return std::forward<A>(alloc);
-- 
2.43.0

