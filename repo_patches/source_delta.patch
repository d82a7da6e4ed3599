From 563ecaa4154739f6ed6497db5a479fda7d7cd667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 01/75] fix: StackVector: leave a moved-from vector empty

The defaulted move operations left the source with its size but a null
storage pointer (its destructor then destroyed elements through it), and
move assignment leaked the elements of the destination.
---
 include/NazaraUtils/StackVector.hpp |  4 ++--
 include/NazaraUtils/StackVector.inl | 28 ++++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackVector.hpp b/include/NazaraUtils/StackVector.hpp
index 2bf14a7..7f06b0c 100644
--- a/include/NazaraUtils/StackVector.hpp
+++ b/include/NazaraUtils/StackVector.hpp
@@ -41,7 +41,7 @@ namespace Nz
 			StackVector();
 			StackVector(T* stackMemory, std::size_t capacity);
 			StackVector(const StackVector&) = delete;
-			StackVector(StackVector&&) noexcept = default;
+			StackVector(StackVector&& vector) noexcept;
 			~StackVector();
 
 			reference back();
@@ -104,7 +104,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackVector& operator=(const StackVector&) = delete;
-			StackVector& operator=(StackVector&&) noexcept = default;
+			StackVector& operator=(StackVector&& vector) noexcept;
 
 		private:
 			std::size_t m_capacity;
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 48b3502..4910ec4 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -31,6 +31,14 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackVector<T>::StackVector(StackVector&& vector) noexcept :
+	m_capacity(std::exchange(vector.m_capacity, 0)),
+	m_size(std::exchange(vector.m_size, 0)),
+	m_ptr(std::move(vector.m_ptr))
+	{
+	}
+
 	template<typename T>
 	StackVector<T>::~StackVector()
 	{
@@ -330,4 +338,24 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackVector<T>& StackVector<T>::operator=(StackVector&& vector) noexcept
+	{
+		if (this != &vector)
+		{
+			clear();
+
+			#ifndef NAZARA_ALLOCA_SUPPORT
+			operator delete(m_ptr);
+			#endif
+
+			m_capacity = std::exchange(vector.m_capacity, 0);
+			m_size = std::exchange(vector.m_size, 0);
+			m_ptr = nullptr;
+			m_ptr = std::move(vector.m_ptr);
+		}
+
+		return *this;
+	}
 }
-- 
2.43.0


From 98499c62d6794de0194f328a065527019f49848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 02/75] fix: StackVector: clear and erase do not require
 default-constructible elements

clear() (hence the destructor) and erase(first, last) went through
resize(), whose growing branch default-constructs elements.
---
 include/NazaraUtils/StackVector.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 4910ec4..26f8da8 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -84,7 +84,10 @@ namespace Nz
 	template<typename T>
 	void StackVector<T>::clear() noexcept
 	{
-		resize(0);
+		for (std::size_t i = 0; i < m_size; ++i)
+			PlacementDestroy(&m_ptr[i]);
+
+		m_size = 0;
 	}
 
 	template<typename T>
@@ -197,7 +200,10 @@ namespace Nz
 		std::size_t count = std::distance(first, last);
 
 		std::move(begin() + index + count, end(), begin() + index);
-		resize(size() - count);
+		for (std::size_t i = m_size - count; i < m_size; ++i)
+			PlacementDestroy(&m_ptr[i]);
+
+		m_size -= count;
 
 		return iterator(&m_ptr[index]);
 	}
-- 
2.43.0


From 78224217ad50d1cf448f6b4343304b442de7f574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 03/75] fix: StackVector: stay consistent when an element
 constructor throws

push_back, emplace_back, emplace and growing resize counted elements that
were never constructed (or lost constructed ones) when a constructor threw,
so the destructor then destroyed a non-existing element.
---
 include/NazaraUtils/StackVector.inl | 48 +++++++++++++++++------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 26f8da8..89c5d36 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -134,19 +134,24 @@ namespace Nz
 		assert(pos >= begin() && pos <= end());
 
 		std::size_t index = std::distance(cbegin(), pos);
-		if (pos < end())
+		if (index < m_size)
 		{
-			iterator lastElement = end() - 1;
-			PlacementNew(&m_ptr[m_size], std::move(*lastElement));
+			// Build the new value first, so a throwing constructor doesn't leave a hole in the vector
+			T value(std::forward<Args>(args)...);
 
-			if (&m_ptr[index] < lastElement)
-				std::move_backward(&m_ptr[index], &m_ptr[m_size - 1], &m_ptr[m_size]);
+			PlacementNew(&m_ptr[m_size], std::move(m_ptr[m_size - 1]));
+			m_size++;
 
-			PlacementDestroy(&m_ptr[index]);
+			std::move_backward(&m_ptr[index], &m_ptr[m_size - 2], &m_ptr[m_size - 1]);
+			m_ptr[index] = std::move(value);
+		}
+		else
+		{
+			PlacementNew(&m_ptr[index], std::forward<Args>(args)...);
+			m_size++;
 		}
-		m_size++;
 
-		return PlacementNew(&m_ptr[index], std::forward<Args>(args)...);
+		return iterator(&m_ptr[index]);
 	}
 
 	template<typename T>
@@ -154,7 +159,10 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::emplace_back(Args&&... args)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::forward<Args>(args)...);
+		T* element = PlacementNew(&m_ptr[m_size], std::forward<Args>(args)...);
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T>
@@ -244,14 +252,20 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], value);
+		T* element = PlacementNew(&m_ptr[m_size], value);
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T>
 	typename StackVector<T>::reference StackVector<T>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::move(value));
+		T* element = PlacementNew(&m_ptr[m_size], std::move(value));
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T>
@@ -267,10 +281,8 @@ namespace Nz
 		assert(count <= m_capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(&m_ptr[i]);
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(&m_ptr[m_size]);
 		}
 		else if (count < m_size)
 		{
@@ -287,10 +299,8 @@ namespace Nz
 		assert(count <= m_capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(&m_ptr[i], value);
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(&m_ptr[m_size], value);
 		}
 		else if (count < m_size)
 		{
-- 
2.43.0


From fdacaec3bf05b2972b532b45a860645d362d7868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 04/75] fix: FixedVector: const rbegin and rend were ill-formed

---
 include/NazaraUtils/FixedVector.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 16f10ca..2a25196 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -647,7 +647,7 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::rbegin() const noexcept -> const_reverse_iterator
 	{
-		return reverse_iterator(iterator(data(size())));
+		return const_reverse_iterator(const_iterator(data(size())));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -659,7 +659,7 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::rend() const noexcept -> const_reverse_iterator
 	{
-		return reverse_iterator(iterator(data()));
+		return const_reverse_iterator(const_iterator(data()));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-- 
2.43.0


From d286c4ca700054402d0e483dfec673e09a94dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 05/75] fix: FixedVector: push_back(T&&) copied the element
 once the fallback was in use

---
 include/NazaraUtils/FixedVector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 2a25196..57a728c 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -526,7 +526,7 @@ namespace Nz
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
+				return *Base::EmplaceBackInFallback(std::move(value));
 		}
 
 		NazaraAssert(m_size < Capacity);
-- 
2.43.0


From c7ad63679211f37a6ae1b8ef13d70001d24088e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 06/75] fix: FixedVector: assignment leaked inline elements and
 lost everything on self-assignment

Assigning from a vector using its fallback storage left the inline elements of
the destination undestroyed, and assigning a vector to itself emptied it.
---
 include/NazaraUtils/FixedVector.inl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 57a728c..2f96e1f 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -691,10 +691,14 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(const FixedVector& vec) -> FixedVector&
 	{
+		if (this == &vec)
+			return *this;
+
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (vec.IsUsingFallback())
 			{
+				clear();
 				Base::operator=(vec);
 				m_size = vec.m_size;
 				return *this;
@@ -712,8 +716,13 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(FixedVector&& vec) noexcept -> FixedVector&
 	{
+		if (this == &vec)
+			return *this;
+
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
+			clear();
+
 			// Always move fallback container to steal capacity
 			Base::operator=(std::move(vec));
 			if (vec.IsUsingFallback())
-- 
2.43.0


From 577ebdaa13675921a424d51b3ba3d9564d7b8841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 07/75] fix: FixedVector: erasing a range does not require
 default-constructible elements

---
 include/NazaraUtils/FixedVector.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 2f96e1f..8125d76 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -467,7 +467,8 @@ namespace Nz
 		std::size_t count = std::distance(first, last);
 
 		std::move(begin() + index + count, end(), begin() + index);
-		resize(size() - count);
+		for (std::size_t i = 0; i < count; ++i)
+			pop_back();
 
 		return iterator(data(index));
 	}
-- 
2.43.0


From 1f65e1e309db78c19b904e771b453633bb32f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 08/75] fix: FixedVector: stay consistent when an element
 constructor throws

Growing operations counted elements that were never constructed (or lost
constructed ones) when a constructor threw, the copy constructor leaked the
elements already copied, and moving the elements to the fallback storage left
destroyed elements behind.
---
 include/NazaraUtils/FixedVector.inl | 79 ++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 8125d76..4096186 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -209,16 +209,21 @@ namespace Nz
 
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(const FixedVector& vec) :
-	Base(vec)
+	FixedVector()
 	{
-		if (!vec.IsUsingFallback())
+		// Since the default constructor already ran, our destructor will be called if one of these operations throw
+		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			m_size = 0;
-			for (size_type i = 0; i < vec.size(); ++i)
-				push_back(vec[i]);
+			if (vec.IsUsingFallback())
+			{
+				Base::operator=(vec);
+				m_size = FallbackInUse;
+				return;
+			}
 		}
-		else
-			m_size = FallbackInUse;
+
+		for (size_type i = 0; i < vec.size(); ++i)
+			push_back(vec[i]);
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -372,19 +377,24 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		if (pos < end())
+		if (index < m_size)
 		{
-			iterator lastElement = end() - 1;
-			PlacementNew(data(m_size), std::move(*lastElement));
+			// Build the new value first, so a throwing constructor doesn't leave a hole in the vector
+			T value(std::forward<Args>(args)...);
 
-			if (data(index) < lastElement)
-				std::move_backward(data(index), data(m_size - 1), data(m_size));
+			PlacementNew(data(m_size), std::move(*data(m_size - 1)));
+			m_size++;
 
-			PlacementDestroy(data(index));
+			std::move_backward(data(index), data(m_size - 2), data(m_size - 1));
+			*data(index) = std::move(value);
+		}
+		else
+		{
+			PlacementNew(data(index), std::forward<Args>(args)...);
+			m_size++;
 		}
-		m_size++;
 
-		return PlacementNew(data(index), std::forward<Args>(args)...);
+		return iterator(data(index));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -398,7 +408,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::forward<Args>(args)...);
+		T* element = PlacementNew(data(m_size), std::forward<Args>(args)...);
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -518,7 +531,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), value);
+		T* element = PlacementNew(data(m_size), value);
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -531,7 +547,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::move(value));
+		T* element = PlacementNew(data(m_size), std::move(value));
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -571,10 +590,8 @@ namespace Nz
 		NazaraAssert(count <= Capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(data(i));
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(data(m_size));
 		}
 		else if (count < m_size)
 		{
@@ -606,10 +623,8 @@ namespace Nz
 		NazaraAssert(count <= Capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(data(i), value);
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(data(m_size), value);
 		}
 		else if (count < m_size)
 		{
@@ -775,13 +790,15 @@ namespace Nz
 	{
 		NazaraAssert(!IsUsingFallback());
 
+		// Fallback may not be empty if moving an element to it has previously thrown
+		Base::ClearFallback();
 		Base::ReserveFallback(capacity);
 		for (std::size_t i = 0; i < m_size; ++i)
-		{
-			T* ptr = data(i);
-			Base::EmplaceBackInFallback(std::move(*ptr));
-			PlacementDestroy(ptr);
-		}
+			Base::EmplaceBackInFallback(std::move(*data(i)));
+
+		for (std::size_t i = 0; i < m_size; ++i)
+			PlacementDestroy(data(i));
+
 		m_size = FallbackInUse;
 	}
 }
-- 
2.43.0


From d6b5a2467610c2a85c87f142c6daae09262bd8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 09/75] fix: FixedVector: inserting one of its own elements
 while moving to the fallback

The inline elements were moved and destroyed before the arguments, which may
refer to one of them, were read.
---
 include/NazaraUtils/FixedVector.hpp |  1 -
 include/NazaraUtils/FixedVector.inl | 48 +++++++++++++----------------
 2 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index 3d7489f..79d416a 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -119,7 +119,6 @@ namespace Nz
 			constexpr FixedVector& operator=(FixedVector&& vec) noexcept;
 
 		private:
-			constexpr bool CheckFallbackOnGrow();
 			constexpr bool IsUsingFallback() const;
 			constexpr void MoveStorageToFallback(std::size_t capacity);
 
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 4096186..1b6932f 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -372,8 +372,16 @@ namespace Nz
 
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return Base::EmplaceInFallback(index, std::forward<Args>(args)...);
+
+			if (m_size >= Capacity)
+			{
+				// Build the new value first, as args may refer to one of our elements
+				T value(std::forward<Args>(args)...);
+				MoveStorageToFallback(m_size + 1);
+				return Base::EmplaceInFallback(index, std::move(value));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -403,8 +411,16 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return *Base::EmplaceBackInFallback(std::forward<Args>(args)...);
+
+			if (m_size >= Capacity)
+			{
+				// Build the new value first, as args may refer to one of our elements
+				T value(std::forward<Args>(args)...);
+				MoveStorageToFallback(m_size + 1);
+				return *Base::EmplaceBackInFallback(std::move(value));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -526,8 +542,8 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
+			if (IsUsingFallback() || m_size >= Capacity)
+				return emplace_back(value);
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -542,8 +558,8 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(std::move(value));
+			if (IsUsingFallback() || m_size >= Capacity)
+				return emplace_back(std::move(value));
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -756,26 +772,6 @@ namespace Nz
 		return *this;
 	}
 
-	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr bool FixedVector<T, Capacity, Fallback>::CheckFallbackOnGrow()
-	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (IsUsingFallback())
-				return true;
-
-			if (m_size >= Capacity)
-			{
-				MoveStorageToFallback(m_size + 1);
-				return true;
-			}
-			else
-				return false;
-		}
-		else
-			return false;
-	}
-
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr bool FixedVector<T, Capacity, Fallback>::IsUsingFallback() const
 	{
-- 
2.43.0


From ca577467d8ae735013681ba953bde6576aad07dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 10/75] fix: FixedVector: (count, value) construction was
 ill-formed for integers

The iterator pair constructor was a better match and did not compile.
---
 include/NazaraUtils/FixedVector.hpp | 2 +-
 include/NazaraUtils/FixedVector.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index 79d416a..829f22e 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -46,7 +46,7 @@ namespace Nz
 
 			constexpr FixedVector();
 			constexpr explicit FixedVector(size_type size, const T& value = T{});
-			template<typename InputIt> constexpr FixedVector(InputIt first, InputIt last);
+			template<typename InputIt, typename = typename std::iterator_traits<InputIt>::iterator_category> constexpr FixedVector(InputIt first, InputIt last);
 			constexpr FixedVector(std::initializer_list<T> init);
 			constexpr FixedVector(const FixedVector& vec);
 			constexpr FixedVector(FixedVector&& vec) noexcept;
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 1b6932f..14f6423 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -193,7 +193,7 @@ namespace Nz
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	template<typename InputIt>
+	template<typename InputIt, typename>
 	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(InputIt first, InputIt last) :
 	FixedVector()
 	{
-- 
2.43.0


From 7460a1d01cdb81496b30bc36cbdc5c574654829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 11/75] fix: StackArray: const rbegin and rend were ill-formed

---
 include/NazaraUtils/StackArray.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index d3bd353..0f07f80 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -162,7 +162,7 @@ namespace Nz
 	template<typename T>
 	typename StackArray<T>::const_reverse_iterator StackArray<T>::rbegin() const noexcept
 	{
-		return reverse_iterator(&m_ptr[m_size]);
+		return const_reverse_iterator(&m_ptr[m_size]);
 	}
 
 	template<typename T>
@@ -174,7 +174,7 @@ namespace Nz
 	template<typename T>
 	typename StackArray<T>::const_reverse_iterator StackArray<T>::rend() const noexcept
 	{
-		return reverse_iterator(&m_ptr[0]);
+		return const_reverse_iterator(&m_ptr[0]);
 	}
 
 	template<typename T>
-- 
2.43.0


From 59380fd839b7cb793b1319a481a827110bd1077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 12/75] fix: StackArray: moving left the source counting
 elements it no longer owns

The defaulted move operations kept the size of the source while stealing its
pointer, so accessing or destroying the moved-from array was undefined, and the
elements of the destination of a move assignment were never destroyed.
---
 include/NazaraUtils/StackArray.hpp |  4 ++--
 include/NazaraUtils/StackArray.inl | 27 +++++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackArray.hpp b/include/NazaraUtils/StackArray.hpp
index 3654a89..d7add20 100644
--- a/include/NazaraUtils/StackArray.hpp
+++ b/include/NazaraUtils/StackArray.hpp
@@ -45,7 +45,7 @@ namespace Nz
 			StackArray(T* stackMemory, std::size_t size);
 			StackArray(T* stackMemory, std::size_t size, NoInitTag);
 			StackArray(const StackArray&) = delete;
-			StackArray(StackArray&&) = default;
+			StackArray(StackArray&& array) noexcept;
 			~StackArray();
 
 			reference back();
@@ -86,7 +86,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackArray& operator=(const StackArray&) = delete;
-			StackArray& operator=(StackArray&&) = default;
+			StackArray& operator=(StackArray&& array) noexcept;
 
 		private:
 			std::size_t m_size;
diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index 0f07f80..c76a552 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -38,6 +38,13 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackArray<T>::StackArray(StackArray&& array) noexcept :
+	m_size(std::exchange(array.m_size, 0)),
+	m_ptr(std::move(array.m_ptr))
+	{
+	}
+
 	template<typename T>
 	StackArray<T>::~StackArray()
 	{
@@ -196,4 +203,24 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackArray<T>& StackArray<T>::operator=(StackArray&& array) noexcept
+	{
+		if (this != &array)
+		{
+			for (std::size_t i = 0; i < m_size; ++i)
+				PlacementDestroy(&m_ptr[i]);
+
+			#ifndef NAZARA_ALLOCA_SUPPORT
+			OperatorDelete(m_ptr);
+			#endif
+
+			m_size = std::exchange(array.m_size, 0);
+			m_ptr = nullptr;
+			m_ptr = std::move(array.m_ptr);
+		}
+
+		return *this;
+	}
 }
-- 
2.43.0


From 4c2191749d5c0ac76680bd4072c501313c0d59a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 13/75] fix: StackArray: destroy the constructed elements when
 an element constructor throws

---
 include/NazaraUtils/StackArray.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index c76a552..6e58a4f 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -24,11 +24,11 @@ namespace Nz
 
 	template<typename T>
 	StackArray<T>::StackArray(T* stackMemory, std::size_t size) :
-	m_size(size),
-	m_ptr(stackMemory)
+	StackArray(stackMemory, 0, NoInitTag{})
 	{
-		for (std::size_t i = 0; i < m_size; ++i)
-			PlacementNew(&m_ptr[i]);
+		// Since a constructor already ran, our destructor will destroy the constructed elements if one of them throws
+		for (; m_size < size; ++m_size)
+			PlacementNew(&m_ptr[m_size]);
 	}
 
 	template<typename T>
-- 
2.43.0


From 0e4e49f80d93f15595e491f8ff35ba4847e8c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 14/75] fix: MemoryPool: Reset did not mark the entries as free

Bitset::Reset takes a bit index, so Reset(true) and Reset(false) only cleared
bits 1 and 0: entries stayed marked as occupied after their destruction and
were destroyed again by the next Reset.
---
 include/NazaraUtils/MemoryPool.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 2503503..5976a4d 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -230,8 +230,8 @@ namespace Nz
 				PlacementDestroy(entry);
 			}
 
-			block.freeEntries.Reset(true);
-			block.occupiedEntries.Reset(false);
+			block.freeEntries.Set(true);
+			block.occupiedEntries.Reset();
 			block.occupiedEntryCount = 0;
 		}
 	}
-- 
2.43.0


From 4e60696b11d87304e0f04df70417a840036d5de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 15/75] fix: MemoryPool: move assignment released the memory of
 live entries without destroying them

---
 include/NazaraUtils/MemoryPool.hpp |  2 +-
 include/NazaraUtils/MemoryPool.inl | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.hpp b/include/NazaraUtils/MemoryPool.hpp
index 79a8f2a..4c9bbc7 100644
--- a/include/NazaraUtils/MemoryPool.hpp
+++ b/include/NazaraUtils/MemoryPool.hpp
@@ -63,7 +63,7 @@ namespace Nz
 			std::size_t size();
 
 			MemoryPool& operator=(const MemoryPool&) = delete;
-			MemoryPool& operator=(MemoryPool&& pool) noexcept = default;
+			MemoryPool& operator=(MemoryPool&& pool) noexcept;
 
 			static constexpr DeferConstruct_t DeferConstruct = {};
 			static constexpr std::size_t InvalidIndex = std::numeric_limits<std::size_t>::max();
diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 5976a4d..08f27f8 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -350,6 +350,21 @@ namespace Nz
 		return GetAllocatedEntryCount();
 	}
 
+	template<typename T, std::size_t Alignment>
+	MemoryPool<T, Alignment>& MemoryPool<T, Alignment>::operator=(MemoryPool&& pool) noexcept
+	{
+		if (this != &pool)
+		{
+			// Destroy our entries before releasing their memory
+			Reset();
+
+			m_blockSize = pool.m_blockSize;
+			m_blocks = std::move(pool.m_blocks);
+		}
+
+		return *this;
+	}
+
 	template<typename T, std::size_t Alignment>
 	void MemoryPool<T, Alignment>::AllocateBlock()
 	{
-- 
2.43.0


From 6d236492574b613428d780dae56718e2836b341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 16/75] fix: MemoryPool: RetrieveEntryIndex was wrong when the
 alignment pads the entries

---
 include/NazaraUtils/MemoryPool.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 08f27f8..f0f2f00 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -287,11 +287,12 @@ namespace Nz
 		for (; blockIndex < m_blocks.size(); ++blockIndex)
 		{
 			auto& block = m_blocks[blockIndex];
-			const T* startPtr = reinterpret_cast<const T*>(&block.memory[0]);
-			if (data >= startPtr && data < startPtr + m_blockSize)
+			const AlignedStorage* startPtr = &block.memory[0];
+			const AlignedStorage* entryPtr = reinterpret_cast<const AlignedStorage*>(data); //< entries may be bigger than T
+			if (entryPtr >= startPtr && entryPtr < startPtr + m_blockSize)
 			{
 				// Part of block
-				localIndex = SafeCast<std::size_t>(data - startPtr);
+				localIndex = SafeCast<std::size_t>(entryPtr - startPtr);
 				assert(data == reinterpret_cast<const T*>(&block.memory[localIndex]));
 
 				break;
-- 
2.43.0


From 78acd4194584ec94844cc42aca7633b440c7e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 17/75] fix: MemoryPool: give the entry back when the element
 constructor throws

---
 include/NazaraUtils/MemoryPool.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index f0f2f00..1b4a20d 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -3,6 +3,7 @@
 // For conditions of distribution and use, see copyright notice in Config.hpp
 
 #include <NazaraUtils/Algorithm.hpp>
+#include <NazaraUtils/CallOnExit.hpp>
 #include <NazaraUtils/MemoryHelper.hpp>
 #include <stdexcept>
 #include <utility>
@@ -93,7 +94,11 @@ namespace Nz
 	T* MemoryPool<T, Alignment>::Allocate(std::size_t& index, Args&&... args)
 	{
 		T* entry = Allocate(DeferConstruct, index);
+
+		// Release the entry if its constructor throws
+		CallOnExit freeEntry([this, entryIndex = index] { Free(entryIndex, NoDestruction); });
 		PlacementNew(entry, std::forward<Args>(args)...);
+		freeEntry.Reset();
 
 		return entry;
 	}
-- 
2.43.0


From cb8e139b22bd0cbf40fbd03eb8c17b08a74ddf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 18/75] fix: CallOnExit: CallAndReset called the function twice
 when it throws

---
 include/NazaraUtils/CallOnExit.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index f8f60a3..0e9b387 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -40,9 +40,13 @@ namespace Nz
 	void CallOnExit<F>::CallAndReset()
 	{
 		if (m_functor)
-			(*m_functor)();
+		{
+			// Reset first, so the function is not called again on destruction if it throws
+			F functor(std::move(*m_functor));
+			m_functor.reset();
 
-		m_functor.reset();
+			functor();
+		}
 	}
 
 	/*!
-- 
2.43.0


From 9d92c7691e0f1b0f492a3850b31e9e859f015343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 19/75] fix: CallOnExit: a moved-from object still called its
 function

---
 include/NazaraUtils/CallOnExit.hpp |  2 +-
 include/NazaraUtils/CallOnExit.inl | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/CallOnExit.hpp b/include/NazaraUtils/CallOnExit.hpp
index d35a314..ab5492e 100644
--- a/include/NazaraUtils/CallOnExit.hpp
+++ b/include/NazaraUtils/CallOnExit.hpp
@@ -28,7 +28,7 @@ namespace Nz
 			void Reset();
 
 			CallOnExit& operator=(const CallOnExit&) = delete;
-			CallOnExit& operator=(CallOnExit&&) = default;
+			CallOnExit& operator=(CallOnExit&& other);
 
 		private:
 			std::optional<F> m_functor;
diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index 0e9b387..6954de7 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -59,5 +59,26 @@ namespace Nz
 	{
 		m_functor.reset();
 	}
+
+	/*!
+	* \brief Moves the function of another object into this one, which will no longer call it
+	*
+	* \param other Object to move the function from
+	*/
+	template<typename F>
+	CallOnExit<F>& CallOnExit<F>::operator=(CallOnExit&& other)
+	{
+		if (this != &other)
+		{
+			m_functor.reset();
+			if (other.m_functor)
+			{
+				m_functor.emplace(std::move(*other.m_functor));
+				other.m_functor.reset();
+			}
+		}
+
+		return *this;
+	}
 }
 
-- 
2.43.0


From cb7c76a9235a537d07974d4b54b1f8d7584b2ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 20/75] fix: Bitset: AppendBits left bits past the end and lost
 a full last block

---
 include/NazaraUtils/Bitset.inl | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 66a8c7a..163d483 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -182,12 +182,11 @@ namespace Nz
 				bitCount -= bitsPerBlock;
 			}
 
-			// For the last iteration, mask out the bits we don't want
-			std::size_t remainingBits = bitCount;
-
-			bits &= ((Block(1U) << remainingBits) - 1U);
 			m_blocks.push_back(static_cast<Block>(bits));
 		}
+
+		// Mask out the bits we don't want
+		ResetExtraBits();
 	}
 
 	/*!
-- 
2.43.0


From f4c7da4dac2dbb12a67e10b27aa6cc2641dd66be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 21/75] fix: Bitset: writing no bits read one byte and skipped
 it

---
 include/NazaraUtils/Bitset.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 163d483..a20e66a 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -367,6 +367,9 @@ namespace Nz
 		NazaraAssertMsg(sequence.first, "invalid pointer sequence");
 		NazaraAssertMsg(sequence.second < 8, "invalid next bit index (must be < 8)");
 
+		if (bitCount == 0)
+			return sequence;
+
 		std::size_t totalBitCount = sequence.second + bitCount;
 
 		const UInt8* u8Ptr = static_cast<const UInt8*>(sequence.first);
-- 
2.43.0


From c2d7adb4e36924a0c52f31170d671a5f67766e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 22/75] fix: Bitset: construction from a negative integer set
 bits past the end

---
 include/NazaraUtils/Bitset.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index a20e66a..b243dd5 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -125,6 +125,7 @@ namespace Nz
 		{
 			m_bitCount = BitCount<T>;
 			m_blocks.push_back(static_cast<Block>(value));
+			ResetExtraBits(); //< a negative value is sign-extended
 		}
 		else
 		{
-- 
2.43.0


From ebaaaafa5c24e838114e023cfd9d3f9648e0846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 23/75] fix: Bitset: ordering read out of bounds and ignored
 greater high blocks

---
 include/NazaraUtils/Bitset.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index b243dd5..eaf9076 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1539,9 +1539,9 @@ namespace Nz
 		std::size_t minBlockCount = lesser.GetBlockCount();
 
 		// If the greatest bitset has a single bit active in a block outside the lesser bitset range, then it is greater
-		for (std::size_t i = maxBlockCount; i > minBlockCount; ++i)
+		for (std::size_t i = maxBlockCount; i > minBlockCount; --i)
 		{
-			if (greater.GetBlock(i))
+			if (greater.GetBlock(i - 1))
 				return lhs.GetBlockCount() < rhs.GetBlockCount();
 		}
 
@@ -1549,8 +1549,8 @@ namespace Nz
 		for (std::size_t i = 0; i < minBlockCount; ++i)
 		{
 			std::size_t index = (minBlockCount - i - 1); // Compare from the most significant block to the less significant block
-			if (lhs.GetBlock(index) < rhs.GetBlock(index))
-				return true;
+			if (lhs.GetBlock(index) != rhs.GetBlock(index))
+				return lhs.GetBlock(index) < rhs.GetBlock(index);
 		}
 
 		return false; // They are equal
-- 
2.43.0


From 716c8b2d9312426c8ed644b6b925a247cf48e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 24/75] fix: Bitset: post-incrementing a bit iterator did not
 advance it

---
 include/NazaraUtils/Bitset.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index eaf9076..4aaea07 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1437,7 +1437,7 @@ namespace Nz
 	constexpr auto Bitset<Block, Container>::BitIterator::operator++(int) -> BitIterator
 	{
 		BitIterator copy(*this);
-		++copy;
+		operator++();
 		return copy;
 	}
 
-- 
2.43.0


From eaff1eb6054f64c778e526dacea306a4803afefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 25/75] fix: Bitset: a moved-from bitset kept its size without
 its blocks

---
 include/NazaraUtils/Bitset.hpp |  4 ++--
 include/NazaraUtils/Bitset.inl | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Bitset.hpp b/include/NazaraUtils/Bitset.hpp
index d547ffd..ccffcbb 100644
--- a/include/NazaraUtils/Bitset.hpp
+++ b/include/NazaraUtils/Bitset.hpp
@@ -38,7 +38,7 @@ namespace Nz
 			constexpr explicit Bitset(const std::string_view& bits);
 			constexpr explicit Bitset(const std::string& bits);
 			template<typename T> constexpr Bitset(T value);
-			constexpr Bitset(Bitset&& bitset) noexcept = default;
+			constexpr Bitset(Bitset&& bitset) noexcept;
 			~Bitset() noexcept = default;
 
 			template<typename T> constexpr void AppendBits(T bits, std::size_t bitCount);
@@ -104,7 +104,7 @@ namespace Nz
 			constexpr Bitset& operator=(const Bitset& bitset) = default;
 			constexpr Bitset& operator=(const std::string_view& bits);
 			template<typename T> constexpr Bitset& operator=(T value);
-			constexpr Bitset& operator=(Bitset&& bitset) noexcept = default;
+			constexpr Bitset& operator=(Bitset&& bitset) noexcept;
 
 			constexpr Bitset operator<<(std::size_t pos) const;
 			constexpr Bitset& operator<<=(std::size_t pos);
diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 4aaea07..4ba9cd1 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -138,6 +138,19 @@ namespace Nz
 		}
 	}
 
+	/*!
+	* \brief Constructs a Bitset object by moving another one, which becomes empty
+	*
+	* \param bitset Bitset to move
+	*/
+	template<typename Block, typename Container>
+	constexpr Bitset<Block, Container>::Bitset(Bitset&& bitset) noexcept :
+	m_blocks(std::move(bitset.m_blocks)),
+	m_bitCount(bitset.m_bitCount)
+	{
+		bitset.Clear();
+	}
+
 	/*!
 	* \brief Appends bits to the bitset
 	*
@@ -1005,6 +1018,25 @@ namespace Nz
 		return *this;
 	}
 
+	/*!
+	* \brief Moves another bitset into this one, the other one becomes empty
+	* \return A reference to this
+	*
+	* \param bitset Bitset to move
+	*/
+	template<typename Block, typename Container>
+	constexpr Bitset<Block, Container>& Bitset<Block, Container>::operator=(Bitset&& bitset) noexcept
+	{
+		if (this != &bitset)
+		{
+			m_blocks = std::move(bitset.m_blocks);
+			m_bitCount = bitset.m_bitCount;
+			bitset.Clear();
+		}
+
+		return *this;
+	}
+
 	/*!
 	* \brief Shift all the bits toward the left
 	*
-- 
2.43.0


From 4ebd24d47b0de2ca19bb2a8a0631fcb18436005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 26/75] fix: FunctionRef: an empty reference left its callback
 uninitialized

---
 include/NazaraUtils/FunctionRef.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index 13bdb6f..de6c300 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -10,6 +10,7 @@ namespace Nz
 {
 	template<typename Ret, typename ...Args>
 	FunctionRef<Ret(Args...)>::FunctionRef(std::nullptr_t) noexcept :
+	m_callback(nullptr),
 	m_functor(nullptr)
 	{
 	}
-- 
2.43.0


From 464c0f99f0d3affb5725334343d716137293900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 27/75] fix: FunctionRef: references to const functors were
 ill-formed

---
 include/NazaraUtils/FunctionRef.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index de6c300..863c285 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -19,7 +19,7 @@ namespace Nz
 	template<typename F, typename>
 	FunctionRef<Ret(Args...)>::FunctionRef(F&& f) noexcept
 	{
-		m_functor = reinterpret_cast<void*>(std::addressof(f));
+		m_functor = const_cast<void*>(reinterpret_cast<const volatile void*>(std::addressof(f)));
 		m_callback = [](void* functor, Args... args) -> Ret
 		{
 			return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
-- 
2.43.0


From 001326f3e2eedcefbdbf7ef56b8075156e55ea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 28/75] fix: FunctionRef: ignoring the result of a functor was
 ill-formed

---
 include/NazaraUtils/FunctionRef.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index 863c285..69ada34 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -22,7 +22,10 @@ namespace Nz
 		m_functor = const_cast<void*>(reinterpret_cast<const volatile void*>(std::addressof(f)));
 		m_callback = [](void* functor, Args... args) -> Ret
 		{
-			return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
+			if constexpr (std::is_void_v<Ret>)
+				std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
+			else
+				return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
 		};
 	}
 	
-- 
2.43.0


From 0e50566d3be0da0fa6f88729c528003a4176a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 29/75] fix: MovableValue: assigning from an lvalue moved from
 it

---
 include/NazaraUtils/MovableValue.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MovableValue.inl b/include/NazaraUtils/MovableValue.inl
index 1093929..c84ec2f 100644
--- a/include/NazaraUtils/MovableValue.inl
+++ b/include/NazaraUtils/MovableValue.inl
@@ -66,7 +66,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableLiteral<T, DefaultValue>& MovableLiteral<T, DefaultValue>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
@@ -132,7 +132,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableValue<T>& MovableValue<T>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
-- 
2.43.0


From f91b62e39c39e7b25a00f6704b6c99de41f83925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 30/75] fix: PrivateImpl: self-assignment and throwing copies
 used a destroyed object

---
 include/NazaraUtils/PrivateImpl.inl | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 849645c..5060c24 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -91,8 +91,18 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(const PrivateImpl& pimpl) -> PrivateImpl&
 	{
-		PlacementDestroy(Get());
-		PlacementNew(Get(), *pimpl.Get());
+		if (this != &pimpl)
+		{
+			// Don't lose our object if the copy throws
+			if constexpr (std::is_copy_assignable_v<T>)
+				*Get() = *pimpl.Get();
+			else
+			{
+				T copy(*pimpl.Get());
+				PlacementDestroy(Get());
+				PlacementNew(Get(), std::move(copy));
+			}
+		}
 
 		return *this;
 	}
@@ -100,8 +110,11 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(PrivateImpl&& pimpl) noexcept -> PrivateImpl&
 	{
-		PlacementDestroy(Get());
-		PlacementNew(Get(), std::move(*pimpl.Get()));
+		if (this != &pimpl)
+		{
+			PlacementDestroy(Get());
+			PlacementNew(Get(), std::move(*pimpl.Get()));
+		}
 
 		return *this;
 	}
-- 
2.43.0


From 62fc4c3e5918782a28a9d3e289b2c4afb1614457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 31/75] fix: PrivateImpl: copying an empty implementation
 dereferenced a null pointer

---
 include/NazaraUtils/PrivateImpl.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 5060c24..89cff8a 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -144,7 +144,8 @@ namespace Nz
 	PrivateImpl<T, 0, Alignment>::PrivateImpl(const PrivateImpl& pimpl)
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy constructor has to be called in the source file");
-		m_ptr = new T(*pimpl);
+		if (pimpl.HasValue())
+			m_ptr = new T(*pimpl);
 	}
 
 	template<typename T, std::size_t Alignment>
@@ -238,6 +239,12 @@ namespace Nz
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy assignation operator has to be called in the source file");
 
+		if (!pimpl.HasValue())
+		{
+			Reset();
+			return *this;
+		}
+
 		if constexpr (std::is_copy_assignable_v<T>)
 		{
 			if (m_ptr)
-- 
2.43.0


From 8b0cb8d0fdeb674c8fa43bf7157a601e776737fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 32/75] fix: PrivateImpl: assignment destroyed its object
 before copying the new one

---
 include/NazaraUtils/PrivateImpl.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 89cff8a..05fa2cc 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -254,8 +254,9 @@ namespace Nz
 		}
 		else
 		{
+			T* copy = new T(*pimpl);
 			delete m_ptr;
-			m_ptr = new T(*pimpl);
+			m_ptr = copy;
 		}
 
 		return *this;
-- 
2.43.0


From 882fad8b6f6a6eaba379d0c5beccb75bca2a681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 33/75] fix: Result: building a void result from an lvalue
 error moved from it

---
 include/NazaraUtils/Result.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 92dae39..3ba89bb 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -278,7 +278,7 @@ namespace Nz
 	template<typename E>
 	template<typename T>
 	constexpr Result<void, E>::Result(ResultError<T> error) :
-	m_error(std::move(error.value))
+	m_error(std::in_place, std::forward<T>(error.value))
 	{
 	}
 
-- 
2.43.0


From 9f18342708ceed66e352f7dfee920cf9637a7b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 34/75] fix: Result: building a void result from a default
 error gave a value

---
 include/NazaraUtils/Result.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 3ba89bb..085b290 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -290,7 +290,7 @@ namespace Nz
 	template<typename E>
 	template<typename... Args>
 	constexpr Result<void, E>::Result(ErrorTag, Args&&... args) :
-	m_error(std::forward<Args>(args)...)
+	m_error(std::in_place, std::forward<Args>(args)...)
 	{
 	}
 
-- 
2.43.0


From a83fefd62058cc5dba1bf6b7ec3170347538fab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 35/75] fix: Result: converting a result required a
 default-constructible value

---
 include/NazaraUtils/Result.inl | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 085b290..a7fd050 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -69,22 +69,20 @@ namespace Nz
 
 	template<typename V, typename E>
 	template<typename V2, typename E2, typename>
-	constexpr Result<V, E>::Result(const Result<V2, E2>& result)
+	constexpr Result<V, E>::Result(const Result<V2, E2>& result) :
+	m_value(result.IsOk() ?
+		std::variant<V, E>(std::in_place_index_t<ValueIndex>{}, result.GetValue()) :
+		std::variant<V, E>(std::in_place_index_t<ErrorIndex>{}, result.GetError()))
 	{
-		if (result.IsOk())
-			m_value.template emplace<ValueIndex>(result.GetValue());
-		else
-			m_value.template emplace<ErrorIndex>(result.GetError());
 	}
 
 	template<typename V, typename E>
 	template<typename V2, typename E2, typename>
-	constexpr Result<V, E>::Result(Result<V2, E2>&& result)
+	constexpr Result<V, E>::Result(Result<V2, E2>&& result) :
+	m_value(result.IsOk() ?
+		std::variant<V, E>(std::in_place_index_t<ValueIndex>{}, std::move(result).GetValue()) :
+		std::variant<V, E>(std::in_place_index_t<ErrorIndex>{}, std::move(result).GetError()))
 	{
-		if (result.IsOk())
-			m_value.template emplace<ValueIndex>(std::move(result).GetValue());
-		else
-			m_value.template emplace<ErrorIndex>(std::move(result).GetError());
 	}
 
 	template<typename V, typename E>
-- 
2.43.0


From 60fd20664e6f2a8bc394d287b0c72db5072859e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 36/75] fix: Signal: move-assigning a connection to a guard was
 ill-formed

---
 include/NazaraUtils/Signal.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index f5803ee..0d6a161 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -451,7 +451,7 @@ namespace Nz
 	template<typename... Args>
 	typename Signal<Args...>::ConnectionGuard& Signal<Args...>::ConnectionGuard::operator=(Connection&& connection)
 	{
-		if (&connection != this)
+		if (&connection != &m_connection)
 		{
 			m_connection.Disconnect();
 			m_connection = std::move(connection);
-- 
2.43.0


From 62f0bdca011bcb2f3a2fefcd47616d6e5fcc066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 37/75] fix: Signal: a moved-from signal kept a null slot

---
 include/NazaraUtils/Signal.inl | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 0d6a161..ccda9cc 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -203,12 +203,19 @@ namespace Nz
 	template<typename... Args>
 	Signal<Args...>& Signal<Args...>::operator=(Signal&& signal) noexcept
 	{
-		m_slots = std::move(signal.m_slots);
-		m_slotIterator = signal.m_slotIterator;
+		if (this != &signal)
+		{
+			m_slots = std::move(signal.m_slots);
+			m_slotIterator = signal.m_slotIterator;
+
+			// Don't leave null slots behind us
+			signal.m_slots.clear();
+			signal.m_slotIterator = 0;
 
-		// We need to update the signal pointer inside of each slot
-		for (SlotPtr& slot : m_slots)
-			slot->signal = this;
+			// We need to update the signal pointer inside of each slot
+			for (SlotPtr& slot : m_slots)
+				slot->signal = this;
+		}
 
 		return *this;
 	}
-- 
2.43.0


From 9d0cf394df55ba03488b2e0cb53f26e53b60b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 38/75] fix: Signal: a slot disconnecting itself then
 connecting another one ended the emission

---
 include/NazaraUtils/Signal.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index ccda9cc..cb636d0 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -82,8 +82,8 @@ namespace Nz
 		assert((func) &&  "Invalid function");
 
 		// Since we're incrementing the slot vector size, we need to replace our iterator at the end
-		// (Except when we are iterating on the signal)
-		bool resetIt = (m_slotIterator >= m_slots.size());
+		// (Except when we are iterating on the signal, which may be from before the first slot if it just disconnected itself)
+		bool resetIt = (m_slotIterator >= m_slots.size() && m_slotIterator != SlotListIndex(-1));
 
 		auto tempPtr = std::make_shared<Slot>(this);
 		tempPtr->callback = std::move(func);
-- 
2.43.0


From 9d203548d6b855ea9b4824f0d4875d8963c50849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 39/75] fix: Signal: a slot disconnecting itself was destroyed
 while being called

---
 include/NazaraUtils/Signal.inl | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index cb636d0..3bea5f9 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -52,6 +52,9 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::Clear()
 	{
+		for (SlotPtr& slot : m_slots)
+			slot->signal = nullptr;
+
 		m_slots.clear();
 		m_slotIterator = 0;
 	}
@@ -179,7 +182,11 @@ namespace Nz
 	void Signal<Args...>::operator()(Args... args) const
 	{
 		for (m_slotIterator = 0; m_slotIterator < m_slots.size(); ++m_slotIterator)
-			m_slots[m_slotIterator]->callback(args...);
+		{
+			// Keep the slot alive until it returns, as it may disconnect itself
+			SlotPtr slot = m_slots[m_slotIterator];
+			slot->callback(args...);
+		}
 	}
 
 	/*!
@@ -205,6 +212,8 @@ namespace Nz
 	{
 		if (this != &signal)
 		{
+			Clear();
+
 			m_slots = std::move(signal.m_slots);
 			m_slotIterator = signal.m_slotIterator;
 
@@ -237,6 +246,9 @@ namespace Nz
 		assert((slot->index < m_slots.size()) &&  "Invalid slot index");
 		assert((slot->signal == this) &&  "Slot is not attached to this signal");
 
+		// The slot may outlive its disconnection if it's currently being called
+		slot->signal = nullptr;
+
 		// "Swap this slot with the last one and pop" idiom
 		// This will preserve slot indexes
 
@@ -317,7 +329,7 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::Connection::Disconnect() noexcept
 	{
-		if (SlotPtr ptr = m_ptr.lock())
+		if (SlotPtr ptr = m_ptr.lock(); ptr && ptr->signal)
 			ptr->signal->Disconnect(ptr);
 	}
 
@@ -329,7 +341,8 @@ namespace Nz
 	template<typename... Args>
 	bool Signal<Args...>::Connection::IsConnected() const
 	{
-		return !m_ptr.expired();
+		SlotPtr ptr = m_ptr.lock();
+		return ptr && ptr->signal;
 	}
 
 	/*!
-- 
2.43.0


From d793cd6e3ae278289f68ca9d618a525c96ae44ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 40/75] fix: MathUtils: IntegralLog2 was wrong for 64 bits
 values with a high word of 1

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 87ec435..21a2104 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -71,7 +71,7 @@ namespace Nz
 
 				// Call of the function with 32 bits number, if the result is non-null we have our answer
 				unsigned int log2 = IntegralLog2<UInt32>(static_cast<UInt32>(val));
-				if (log2)
+				if (log2 || val == 1)
 					return log2 + i * 8;
 			}
 
-- 
2.43.0


From fd7a89d00d0446de922428d0dc025c7fe42047e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 41/75] fix: MathUtils: FindLastBit was wrong for negative 8
 and 16 bits values

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 21a2104..b9b7188 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -466,7 +466,7 @@ NAZARA_WARNING_POP()
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(int));
-				return BitCount<unsigned int> - __builtin_clz(static_cast<unsigned int>(number));
+				return BitCount<unsigned int> - __builtin_clz(static_cast<unsigned int>(static_cast<std::make_unsigned_t<T>>(number)));
 			}
 #endif
 		}
-- 
2.43.0


From 9eaff268d2ffadfcfbddba91ee8f148daa5fa321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 42/75] fix: MathUtils: CountBits was wrong for negative 8 and
 16 bits values

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index b9b7188..75d6917 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -346,7 +346,7 @@ namespace Nz
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(unsigned int));
-				return __builtin_popcount(static_cast<unsigned int>(value));
+				return __builtin_popcount(static_cast<unsigned int>(static_cast<std::make_unsigned_t<T>>(value)));
 			}
 #endif
 		}
-- 
2.43.0


From f632033b968a3ca18b37fcf9dc48fab81c97efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 43/75] fix: MathUtils: constant evaluation of CountBits
 overflowed for negative values

---
 include/NazaraUtils/MathUtils.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 75d6917..ec592a0 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -352,10 +352,12 @@ namespace Nz
 		}
 
 		// https://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetKernighan
+		auto unsignedVal = static_cast<std::make_unsigned_t<T>>(value);
+
 		std::size_t count = 0;
-		while (value)
+		while (unsignedVal)
 		{
-			value &= value - 1;
+			unsignedVal &= unsignedVal - 1;
 			count++;
 		}
 
-- 
2.43.0


From 5463f0e5da01dc2b82d481a951dab9d673875242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 44/75] fix: MathUtils: SwapBytes accessed memory outside of an
 empty buffer

---
 include/NazaraUtils/MathUtils.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index ec592a0..28241c3 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -536,6 +536,9 @@ NAZARA_WARNING_POP()
 	*/
 	inline void SwapBytes(void* buffer, std::size_t size) noexcept
 	{
+		if (size == 0)
+			return;
+
 		UInt8* bytes = static_cast<UInt8*>(buffer);
 		std::size_t i = 0;
 		std::size_t j = size - 1;
-- 
2.43.0


From 29af3729d0571212ad4b79790f1fea04dbe7b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 45/75] fix: Algorithm: SafeCast from a signed integer to a
 narrower unsigned one accepted any positive value

---
 include/NazaraUtils/Algorithm.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 7430b47..2310413 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -214,7 +214,7 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			else if constexpr (std::is_integral_v<From>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<From> && std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
+				using MaxValueType = std::conditional_t<((!std::is_signed_v<From> && std::is_signed_v<To>) || sizeof(From) > sizeof(To)), From, To>;
 				// Type capable of storing the smallest value between the two types
 				using MinValueType = std::conditional_t<((std::is_signed_v<From> && !std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
 
-- 
2.43.0


From 04ba0fe4daf26a25ee7ef4c4a9c341c01132a2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 46/75] fix: Algorithm: SafeCast from a floating-point accepted
 out of range values and refused large unsigned ones

---
 include/NazaraUtils/Algorithm.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 2310413..fd9595f 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -207,9 +207,10 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			}
 			else if constexpr (std::is_floating_point_v<From>)
 			{
-				NazaraAssert(static_cast<long long>(value) == value);
-				NazaraAssert(value <= static_cast<From>(std::numeric_limits<To>::max()));
+				// The maximum value may not be representable by the floating-point type, unlike the power of two following it
+				NazaraAssert(value < static_cast<From>(std::numeric_limits<To>::max() / 2 + 1) * From(2));
 				NazaraAssert(value >= static_cast<From>(std::numeric_limits<To>::lowest()));
+				NazaraAssert(static_cast<From>(static_cast<To>(value)) == value);
 			}
 			else if constexpr (std::is_integral_v<From>)
 			{
-- 
2.43.0


From 713ab46dc7076799eaa56de002f8dcf26b9e7d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 47/75] fix: Algorithm: SafeCast did not check lvalues

---
 include/NazaraUtils/Algorithm.inl | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index fd9595f..e511886 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -199,25 +199,28 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 	{
 #if defined(NAZARA_DEBUG) && !defined(NDEBUG)
 
+		// From is deduced as a reference when value is a lvalue
+		using FromType = std::remove_cv_t<std::remove_reference_t<From>>;
+
 		if constexpr (std::is_integral_v<To>)
 		{
-			if constexpr (std::is_enum_v<From>)
+			if constexpr (std::is_enum_v<FromType>)
 			{
-				return SafeCast<To>(static_cast<std::underlying_type_t<From>>(value));
+				return SafeCast<To>(static_cast<std::underlying_type_t<FromType>>(value));
 			}
-			else if constexpr (std::is_floating_point_v<From>)
+			else if constexpr (std::is_floating_point_v<FromType>)
 			{
 				// The maximum value may not be representable by the floating-point type, unlike the power of two following it
-				NazaraAssert(value < static_cast<From>(std::numeric_limits<To>::max() / 2 + 1) * From(2));
-				NazaraAssert(value >= static_cast<From>(std::numeric_limits<To>::lowest()));
-				NazaraAssert(static_cast<From>(static_cast<To>(value)) == value);
+				NazaraAssert(value < static_cast<FromType>(std::numeric_limits<To>::max() / 2 + 1) * FromType(2));
+				NazaraAssert(value >= static_cast<FromType>(std::numeric_limits<To>::lowest()));
+				NazaraAssert(static_cast<FromType>(static_cast<To>(value)) == value);
 			}
-			else if constexpr (std::is_integral_v<From>)
+			else if constexpr (std::is_integral_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<From> && std::is_signed_v<To>) || sizeof(From) > sizeof(To)), From, To>;
+				using MaxValueType = std::conditional_t<((!std::is_signed_v<FromType> && std::is_signed_v<To>) || sizeof(FromType) > sizeof(To)), FromType, To>;
 				// Type capable of storing the smallest value between the two types
-				using MinValueType = std::conditional_t<((std::is_signed_v<From> && !std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
+				using MinValueType = std::conditional_t<((std::is_signed_v<FromType> && !std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
 
 				if constexpr (!std::is_signed_v<To>)
 					NazaraAssert(value >= 0);
@@ -232,12 +235,12 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		}
 		else if constexpr (std::is_floating_point_v<To>)
 		{
-			if constexpr (std::is_floating_point_v<From>)
+			if constexpr (std::is_floating_point_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<(sizeof(From) > sizeof(To)), From, To>;
+				using MaxValueType = std::conditional_t<(sizeof(FromType) > sizeof(To)), FromType, To>;
 				// Type capable of storing the smallest value between the two types
-				using MinValueType = std::conditional_t<(sizeof(From) > sizeof(To)), From, To>;
+				using MinValueType = std::conditional_t<(sizeof(FromType) > sizeof(To)), FromType, To>;
 
 				NazaraAssert(static_cast<MaxValueType>(value) <= static_cast<MaxValueType>(std::numeric_limits<To>::max()));
 				NazaraAssert(static_cast<MinValueType>(value) >= static_cast<MinValueType>(std::numeric_limits<To>::lowest()));
-- 
2.43.0


From 25feac38b98f581161d8dee0419a53e9e634f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 48/75] fix: Algorithm: SafeCast never checked downcasts

---
 include/NazaraUtils/Algorithm.inl | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index e511886..b228ef1 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -250,26 +250,29 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		{
 			if constexpr (std::is_reference_v<From>)
 			{
-				using BaseFromType = std::remove_reference_t<std::remove_cv_t<From>>;
-				using BaseToType = std::remove_reference_t<std::remove_cv_t<To>>;
+				using BaseToType = std::remove_cv_t<std::remove_reference_t<To>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
+				if constexpr (!std::is_same_v<FromType, BaseToType> && std::is_base_of_v<FromType, BaseToType>)
 				{
-					using ToPtr = std::add_pointer_t<std::remove_reference_t<To>>;
-					NazaraAssert(dynamic_cast<ToPtr>(&value) != nullptr);
+					if constexpr (std::is_polymorphic_v<FromType>)
+					{
+						using ToPtr = std::add_pointer_t<std::remove_reference_t<To>>;
+						NazaraAssert(dynamic_cast<ToPtr>(&value) != nullptr);
+					}
 				}
 			}
 		}
 		else if constexpr (std::is_pointer_v<To>)
 		{
-			if constexpr (std::is_pointer_v<From>)
+			if constexpr (std::is_pointer_v<FromType>)
 			{
-				using BaseFromType = std::remove_pointer_t<std::remove_cv_t<From>>;
-				using BaseToType = std::remove_pointer_t<std::remove_cv_t<To>>;
+				using BaseFromType = std::remove_cv_t<std::remove_pointer_t<FromType>>;
+				using BaseToType = std::remove_cv_t<std::remove_pointer_t<To>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
+				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<BaseFromType, BaseToType>)
 				{
-					NazaraAssert(!value || dynamic_cast<To>(value) != nullptr);
+					if constexpr (std::is_polymorphic_v<BaseFromType>)
+						NazaraAssert(!value || dynamic_cast<To>(value) != nullptr);
 				}
 			}
 		}
-- 
2.43.0


From 8bd80f087b6998a8006e91aeb218450c8a6866c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 49/75] fix: MathUtils: NumberEquals was wrong for distant 8
 and 16 bits signed values

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 28241c3..feae7ee 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -138,7 +138,7 @@ namespace Nz
 				std::swap(a, b);
 
 			using UnsignedT = std::make_unsigned_t<T>;
-			return static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b) <= static_cast<UnsignedT>(maxDifference);
+			return static_cast<UnsignedT>(static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b)) <= static_cast<UnsignedT>(maxDifference);
 		}
 	}
 
-- 
2.43.0


From c93e03e387b9b8a625be7a6db3508d1d5cdd7765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 50/75] fix: MathUtils: Approach went past the objective on
 overflow and was ill-formed for 8 and 16 bits values

---
 include/NazaraUtils/MathUtils.inl | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index feae7ee..6a62775 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -630,12 +630,26 @@ NAZARA_WARNING_POP()
 	template<typename T>
 	[[nodiscard]] constexpr T Approach(T value, T objective, T increment) noexcept
 	{
-		if (value < objective)
-			return std::min(value + increment, objective);
-		else if (value > objective)
-			return std::max(value - increment, objective);
+		if constexpr (std::is_integral_v<T>)
+		{
+			// Compare the increment with the remaining distance, as adding it to the value could overflow
+			using UnsignedT = std::make_unsigned_t<T>;
+			if (value < objective)
+				return (static_cast<UnsignedT>(static_cast<UnsignedT>(objective) - static_cast<UnsignedT>(value)) > static_cast<UnsignedT>(increment)) ? static_cast<T>(value + increment) : objective;
+			else if (value > objective)
+				return (static_cast<UnsignedT>(static_cast<UnsignedT>(value) - static_cast<UnsignedT>(objective)) > static_cast<UnsignedT>(increment)) ? static_cast<T>(value - increment) : objective;
+			else
+				return value;
+		}
 		else
-			return value;
+		{
+			if (value < objective)
+				return std::min(value + increment, objective);
+			else if (value > objective)
+				return std::max(value - increment, objective);
+			else
+				return value;
+		}
 	}
 
 	/*!
-- 
2.43.0


From c484e5c6dc3fef1f7494c9c0b2231ec22fefcb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 51/75] fix: Assert: NazaraAssert captured the else of an
 enclosing if

---
 include/NazaraUtils/Assert.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Assert.hpp b/include/NazaraUtils/Assert.hpp
index 23c3a10..f788308 100644
--- a/include/NazaraUtils/Assert.hpp
+++ b/include/NazaraUtils/Assert.hpp
@@ -11,8 +11,8 @@
 #include <NazaraUtils/ConstantEvaluated.hpp>
 
 #if !defined(NAZARA_NO_ASSERT) && (defined(NAZARA_ENABLE_ASSERTS) || !defined(NDEBUG))
-	#define NazaraAssert(cond) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond)
-	#define NazaraAssertMsg(cond, ...) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__)
+	#define NazaraAssert(cond) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond); } while (false)
+	#define NazaraAssertMsg(cond, ...) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__); } while (false)
 #else
 	#define NazaraAssert(...) do {} while (false)
 	#define NazaraAssertMsg(...) do {} while (false)
-- 
2.43.0


From 14865ce9151f8bb77c0832f9e94cc2c9733b1079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 52/75] fix: Hash: FNV-1a of strings sign-extended the
 characters above 0x7F

---
 include/NazaraUtils/Hash.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Hash.inl b/include/NazaraUtils/Hash.inl
index 5414680..d9f55f8 100644
--- a/include/NazaraUtils/Hash.inl
+++ b/include/NazaraUtils/Hash.inl
@@ -147,7 +147,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= UInt8(str[i]);
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -160,7 +160,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= UInt8(str[i]);
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -199,7 +199,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= UInt8(str[i]);
 			hash *= Detail::FNV1Prime_64;
 		}
 
@@ -212,7 +212,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= UInt8(str[i]);
 			hash *= Detail::FNV1Prime_64;
 		}
 
-- 
2.43.0


From 8d391afc79ca8e00e46f2101f189e02ed1dd8140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 53/75] fix: Flags: enumerators from 32 on shifted a 32 bits
 value

---
 include/NazaraUtils/Flags.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index 33632b0..d71139d 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -283,7 +283,7 @@ namespace Nz
 	constexpr auto Flags<E>::GetFlagValue(E enumValue) -> BitField
 	{
 		if constexpr (AutoFlag)
-			return 1U << static_cast<BitField>(enumValue);
+			return static_cast<BitField>(BitField(1) << static_cast<BitField>(enumValue));
 		else
 			return static_cast<BitField>(enumValue);
 	}
@@ -332,7 +332,7 @@ namespace Nz
 		if constexpr (AutoFlag)
 			return static_cast<T>(bitIndex - 1);
 		else
-			return static_cast<T>(1U << ((bitIndex) - 1));
+			return static_cast<T>(BitField(1) << (bitIndex - 1));
 	}
 
 	/*!
-- 
2.43.0


From 968440c30477ee7b2b4784e503692256047e0d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 54/75] fix: Flags: ValueMask did not compile for 64 values and
 was not the mask of enumerations holding bit values

---
 include/NazaraUtils/Flags.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index a7b773a..c96b614 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -97,7 +97,8 @@ namespace Nz
 
 			static constexpr BitField GetFlagValue(E enumValue);
 
-			static constexpr BitField ValueMask = BitField((UInt64(1) << (MaxValue + 1)) - 1);
+			static constexpr std::size_t MaxBit = (AutoFlag) ? MaxValue : IntegralLog2(UInt64(MaxValue));
+			static constexpr BitField ValueMask = BitField((UInt64(2) << MaxBit) - 1);
 
 		private:
 			BitField m_value;
-- 
2.43.0


From 1e50d9aeabde9246e6ab51ee762821cadf9bef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 55/75] fix: Flags: std::hash could not be called on a const
 object

---
 include/NazaraUtils/Flags.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index d71139d..663c6fb 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -451,7 +451,7 @@ namespace std
 	template<typename E>
 	struct hash<Nz::Flags<E>>
 	{
-		std::size_t operator()(const Nz::Flags<E>& flags)
+		std::size_t operator()(const Nz::Flags<E>& flags) const
 		{
 			using UnderlyingType = typename Nz::Flags<E>::BitField;
 			using Hasher = hash<UnderlyingType>;
-- 
2.43.0


From 260f6cbf611c2ad032acb78aa56218272ba06ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 56/75] fix: SparsePtr: offsets were computed on 32 bits,
 wrapping for unsigned indices with negative strides

---
 include/NazaraUtils/SparsePtr.inl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index e8d3d01..0111ea6 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -250,7 +250,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "index must be an integral type");
 
-		return *reinterpret_cast<T*>(m_ptr + index * m_stride);
+		return *reinterpret_cast<T*>(m_ptr + static_cast<std::ptrdiff_t>(index) * m_stride);
 	}
 
 	/*!
@@ -266,7 +266,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr + count * m_stride, m_stride);
+		return SparsePtr(m_ptr + static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -282,7 +282,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr - count * m_stride, m_stride);
+		return SparsePtr(m_ptr - static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -311,7 +311,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr += count * m_stride;
+		m_ptr += static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
@@ -321,7 +321,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr -= count * m_stride;
+		m_ptr -= static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
-- 
2.43.0


From 86cb4b63b93ed2eeb75087b703c6983a856bb2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 57/75] fix: SparsePtr: conversion to a base class did not
 adjust the address

---
 include/NazaraUtils/SparsePtr.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index 0111ea6..44dbbbd 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -165,7 +165,7 @@ namespace Nz
 	{
 		static_assert(std::is_convertible<U*, T*>::value, "Source type pointer cannot be implicitly converted to target type pointer");
 
-		SetPtr(static_cast<T*>(ptr.GetPtr()));
+		SetPtr(static_cast<T*>(static_cast<U*>(ptr.GetPtr())));
 		SetStride(ptr.GetStride());
 	}
 
-- 
2.43.0


From d3e40e59cc415e1455e8613ee794c3c4bb109a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 58/75] fix: EnumArray: adding or subtracting an offset to a
 key-value iterator did not compile

---
 include/NazaraUtils/EnumArray.hpp | 4 ++--
 include/NazaraUtils/EnumArray.inl | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 387959c..6ae3c4e 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -76,8 +76,8 @@ namespace Nz
 			constexpr EnumArrayKvIterator operator--(int) noexcept;
 			constexpr EnumArrayKvIterator& operator--() noexcept;
 
-			constexpr EnumArrayKvIterator operator+(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
+			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
 
 			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
 			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index d7bad3e..6970aaa 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -96,15 +96,15 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index + n);
+		return EnumArrayKvIterator({ m_array }, m_index + n);
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index - n);
+		return EnumArrayKvIterator({ m_array }, m_index - n);
 	}
 
 	template<typename E, typename V, bool Const>
-- 
2.43.0


From a889809721690e424a24792f89fa1f79389d231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 59/75] fix: Constants: the header did not compile on its own
 in C++17

---
 include/NazaraUtils/Constants.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NazaraUtils/Constants.hpp b/include/NazaraUtils/Constants.hpp
index 51f71b3..c03d517 100644
--- a/include/NazaraUtils/Constants.hpp
+++ b/include/NazaraUtils/Constants.hpp
@@ -10,7 +10,9 @@
 #include <NazaraUtils/Prerequisites.hpp>
 #include <NazaraUtils/Concepts.hpp>
 #include <climits>
+#include <cstddef>
 #include <limits>
+#include <type_traits>
 
 namespace Nz
 {
-- 
2.43.0


From 3b05385c8e353c817e41f62c419dd27fec55495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 60/75] fix: OffsetOf: the header did not compile on its own

---
 include/NazaraUtils/OffsetOf.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NazaraUtils/OffsetOf.hpp b/include/NazaraUtils/OffsetOf.hpp
index a65aa4c..22abc11 100644
--- a/include/NazaraUtils/OffsetOf.hpp
+++ b/include/NazaraUtils/OffsetOf.hpp
@@ -7,6 +7,8 @@
 #ifndef NAZARAUTILS_OFFSETOF_HPP
 #define NAZARAUTILS_OFFSETOF_HPP
 
+#include <cstddef>
+
 // By "Jesse Good" from SO:
 // http://stackoverflow.com/questions/12811330/c-compile-time-offsetof-inside-a-template?answertab=votes#tab-top
 
-- 
2.43.0


From cfcaefdbf2d5a89077a3d6ce7ebe4f55c1ff1ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 61/75] fix: CountOf: an overload for string literals was
 declared but never defined

---
 include/NazaraUtils/Algorithm.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/NazaraUtils/Algorithm.hpp b/include/NazaraUtils/Algorithm.hpp
index a6f04a9..8d54ebc 100644
--- a/include/NazaraUtils/Algorithm.hpp
+++ b/include/NazaraUtils/Algorithm.hpp
@@ -40,7 +40,6 @@ namespace Nz
 	template<typename To, typename From> [[nodiscard]] NAZARA_CONSTEXPR_BITCAST To BitCast(const From& value) noexcept;
 	template<typename T, std::size_t N> [[nodiscard]] constexpr std::size_t CountOf(T(&name)[N]) noexcept;
 	template<typename T> [[nodiscard]] constexpr std::size_t CountOf(const T& c) noexcept;
-	template<std::size_t N> [[nodiscard]] constexpr std::size_t CountOf(const char(&str)[N]) noexcept;
 	template<typename P, typename T> [[nodiscard]] NAZARA_CONSTEXPR_BITCAST P IntegerToPointer(T ptrAsInt) noexcept;
 	template<typename T, typename P> [[nodiscard]] NAZARA_CONSTEXPR_BITCAST T PointerToInteger(P* ptr) noexcept;
 	template<typename M, typename T> [[nodiscard]] NAZARA_CONSTEXPR20 auto& Retrieve(M& map, const T& key) noexcept;
-- 
2.43.0


From e501efa9b9251b684729ed3a6ce6fa9c28649746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 62/75] fix: NumberEquals: could not be used in constant
 expressions before C++20

---
 include/NazaraUtils/MathUtils.inl | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 6a62775..279217e 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -115,30 +115,27 @@ namespace Nz
 			}
 			else
 			{
-				if (b > a)
-					std::swap(a, b);
-
-				T diff = a - b;
+				// std::swap is not constexpr before C++20
+				T diff = (b > a) ? b - a : a - b;
 				return diff <= maxDifference;
 			}
 		}
 
 		template<typename T> constexpr std::enable_if_t<!std::is_signed<T>::value || (!std::is_integral<T>::value && !std::is_floating_point<T>::value), bool> NumberEquals(T a, T b, T maxDifference)
 		{
-			if (b > a)
-				std::swap(a, b);
-
-			T diff = a - b;
+			// std::swap is not constexpr before C++20
+			T diff = (b > a) ? b - a : a - b;
 			return diff <= maxDifference;
 		}
 
 		template<typename T> constexpr std::enable_if_t<std::is_signed<T>::value&& std::is_integral<T>::value, bool> NumberEquals(T a, T b, T maxDifference)
 		{
-			if (b > a)
-				std::swap(a, b);
-
 			using UnsignedT = std::make_unsigned_t<T>;
-			return static_cast<UnsignedT>(static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b)) <= static_cast<UnsignedT>(maxDifference);
+
+			// std::swap is not constexpr before C++20
+			UnsignedT ua = static_cast<UnsignedT>(a);
+			UnsignedT ub = static_cast<UnsignedT>(b);
+			return static_cast<UnsignedT>((b > a) ? ub - ua : ua - ub) <= static_cast<UnsignedT>(maxDifference);
 		}
 	}
 
-- 
2.43.0


From 4d83f0f05443b79a077d5882bc1dc6d154eefba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 63/75] fix: TypeName: long type names were followed by the end
 of the function signature

---
 include/NazaraUtils/TypeName.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/TypeName.inl b/include/NazaraUtils/TypeName.inl
index 5081c25..24a0945 100644
--- a/include/NazaraUtils/TypeName.inl
+++ b/include/NazaraUtils/TypeName.inl
@@ -12,16 +12,17 @@ constexpr std::string_view NzDetailTypeName()
 
 #ifdef NAZARA_COMPILER_MSVC
 	constexpr std::string_view prefix = "NzDetailTypeName<"sv;
-	constexpr std::string_view suffixes = ">"sv;
+	constexpr std::size_t e = prettyFuncName.rfind('>');
 #else
 	constexpr std::string_view prefix = "T = "sv;
-	constexpr std::string_view suffixes = ";]"sv;
+	// GCC lists the expansion of std::string_view after the type ("[with T = Type; std::string_view = ...]")
+	constexpr std::size_t s = prettyFuncName.rfind("; std::string_view = "sv);
+	constexpr std::size_t e = (s != prettyFuncName.npos) ? s : prettyFuncName.rfind(']');
 #endif
 
 	constexpr std::size_t b = prettyFuncName.find(prefix);
 	static_assert(b != prettyFuncName.npos);
 
-	constexpr std::size_t e = prettyFuncName.substr(b).find_last_of(suffixes, b) + b;
 	static_assert(e != prettyFuncName.npos);
 
 	std::size_t p = b + prefix.size();
-- 
2.43.0


From ff18e3a8ee1c9ffc3934db1ced67758461168147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 64/75] fix: Constants: long double constants only had the
 precision of double

---
 include/NazaraUtils/Constants.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/Constants.hpp b/include/NazaraUtils/Constants.hpp
index c03d517..24c0551 100644
--- a/include/NazaraUtils/Constants.hpp
+++ b/include/NazaraUtils/Constants.hpp
@@ -49,37 +49,37 @@ namespace Nz
 		static constexpr T HalfPi()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.5707963267948966192313216916398);
+			return T(1.5707963267948966192313216916398L);
 		}
 
 		static constexpr T Pi()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(3.1415926535897932384626433832795);
+			return T(3.1415926535897932384626433832795L);
 		}
 
 		static constexpr T Sqrt2()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.4142135623730950488016887242097);
+			return T(1.4142135623730950488016887242097L);
 		}
 
 		static constexpr T Sqrt3()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.7320508075688772935274463415059);
+			return T(1.7320508075688772935274463415059L);
 		}
 
 		static constexpr T Sqrt5()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(2.2360679774997896964091736687313);
+			return T(2.2360679774997896964091736687313L);
 		}
 
 		static constexpr T Tau()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(6.2831853071795864769252867665590);
+			return T(6.2831853071795864769252867665590L);
 		}
 	};
 
-- 
2.43.0


From 86973e0eee243e74c05a2d877ccf964557293ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 65/75] fix: FunctionTraits: noexcept function types were not
 supported

---
 include/NazaraUtils/FunctionTraits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/FunctionTraits.hpp b/include/NazaraUtils/FunctionTraits.hpp
index e5402ec..367c39f 100644
--- a/include/NazaraUtils/FunctionTraits.hpp
+++ b/include/NazaraUtils/FunctionTraits.hpp
@@ -39,6 +39,9 @@ namespace Nz
 		using ArgType = typename Arg<I>::type;
 	};
 
+	template<typename Ret, typename... Args>
+	struct FunctionTraits<Ret(Args...) noexcept> : FunctionTraits<Ret(Args...)> {};
+
 	template<typename Ret, typename... Args>
 	struct FunctionTraits<Ret(*)(Args...)> : FunctionTraits<Ret(Args...)> {};
 
-- 
2.43.0


From 23a6e8700956087a0522fde341ad053c5d7bf631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 66/75] fix: FunctionPtr: noexcept function types were not
 supported

---
 include/NazaraUtils/TypeTraits.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/NazaraUtils/TypeTraits.hpp b/include/NazaraUtils/TypeTraits.hpp
index a1c23f2..9001077 100644
--- a/include/NazaraUtils/TypeTraits.hpp
+++ b/include/NazaraUtils/TypeTraits.hpp
@@ -68,6 +68,12 @@ namespace Nz
 		{
 			using type = Ret(*)(Args...);
 		};
+
+		template<typename Ret, typename... Args>
+		struct FunctionPtrType<Ret(Args...) noexcept>
+		{
+			using type = Ret(*)(Args...) noexcept;
+		};
 	}
 
 	template<typename T> using FunctionPtr = typename Detail::FunctionPtrType<T>::type;
-- 
2.43.0


From 1bd1f942a2c767492e1eb6074f74cd864477f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 67/75] fix: Bitset: operator[] could not be used in constant
 expressions

---
 include/NazaraUtils/Bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.hpp b/include/NazaraUtils/Bitset.hpp
index ccffcbb..db7bfe0 100644
--- a/include/NazaraUtils/Bitset.hpp
+++ b/include/NazaraUtils/Bitset.hpp
@@ -175,7 +175,7 @@ namespace Nz
 			constexpr Bit& operator-=(bool val);
 
 		private:
-			Bit(Block& block, Block mask) :
+			constexpr Bit(Block& block, Block mask) :
 			m_block(block),
 			m_mask(mask)
 			{
-- 
2.43.0


From 64f22a94e25882da0fe750cc8277d87cfbe033cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 68/75] fix: Bitset: construction from a string could not be
 used in constant expressions

---
 include/NazaraUtils/Bitset.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 4ba9cd1..67883ae 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -52,7 +52,7 @@ namespace Nz
 	*/
 	template<typename Block, typename Container>
 	constexpr Bitset<Block, Container>::Bitset(const char* bits) :
-	Bitset(bits, std::strlen(bits))
+	Bitset(bits, std::char_traits<char>::length(bits)) //< unlike std::strlen, usable in constant expressions
 	{
 	}
 
-- 
2.43.0


From 57c82dcda854ae5d2b4e6777a212a70d122f5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:14 +0000
Subject: [PATCH 69/75] fix: move-assigning a small hybrid vector over a
 spilled one allocated memory in a noexcept function

---
 include/NazaraUtils/FixedVector.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 14f6423..59b3ed6 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -762,6 +762,9 @@ namespace Nz
 				m_size = vec.m_size;
 				return *this;
 			}
+
+			// The elements fit in the fixed storage, don't allocate memory for them
+			m_size = 0;
 		}
 
 		clear();
-- 
2.43.0


From 6af925276c30044c1ed1a8a4ae5ad663985ec79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:04 +0000
Subject: [PATCH 70/75] fix: stack arrays did not compile where alloca is not
 available

---
 include/NazaraUtils/StackArray.hpp | 4 ++--
 include/NazaraUtils/StackArray.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/StackArray.hpp b/include/NazaraUtils/StackArray.hpp
index d7add20..537ec48 100644
--- a/include/NazaraUtils/StackArray.hpp
+++ b/include/NazaraUtils/StackArray.hpp
@@ -14,8 +14,8 @@
 	#define NazaraStackArray(T, size) Nz::StackArray<T>(static_cast<T*>(NAZARA_ALLOCA((size) * sizeof(T))), size)
 	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(static_cast<T*>(NAZARA_ALLOCA((size) * sizeof(T))), size, typename Nz::StackArray<T>::NoInitTag())
 #else
-	#define NazaraStackArray(T, size) Nz::StackArray<T>(static_cast<T*>(Nz::OperatorNew((size) * sizeof(T))), size)
-	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(static_cast<T*>(Nz::OperatorNew((size) * sizeof(T))), size, typename Nz::StackArray<T>::NoInitTag())
+	#define NazaraStackArray(T, size) Nz::StackArray<T>(static_cast<T*>(operator new((size) * sizeof(T))), size)
+	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(static_cast<T*>(operator new((size) * sizeof(T))), size, typename Nz::StackArray<T>::NoInitTag())
 #endif
 
 #include <cstddef>
diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index 6e58a4f..3de759a 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -52,7 +52,7 @@ namespace Nz
 			PlacementDestroy(&m_ptr[i]);
 
 		#ifndef NAZARA_ALLOCA_SUPPORT
-		OperatorDelete(m_ptr);
+		operator delete(m_ptr);
 		#endif
 	}
 
@@ -213,7 +213,7 @@ namespace Nz
 				PlacementDestroy(&m_ptr[i]);
 
 			#ifndef NAZARA_ALLOCA_SUPPORT
-			OperatorDelete(m_ptr);
+			operator delete(m_ptr);
 			#endif
 
 			m_size = std::exchange(array.m_size, 0);
-- 
2.43.0


From 6994f962579bf506e94f5d4e2e1666da0f3fd08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 71/75] fix: iterator_traits of sparse pointers declared the
 elements constant

---
 include/NazaraUtils/SparsePtr.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index 44dbbbd..a3653d2 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -472,9 +472,9 @@ namespace std
 	{
 		using difference_type = ptrdiff_t;
 		using iterator_category = random_access_iterator_tag;
-		using reference = const T&;
-		using pointer = const T*;
-		using value_type = T;
+		using reference = T&;
+		using pointer = T*;
+		using value_type = remove_cv_t<T>;
 	};
 }
 
-- 
2.43.0


From 139fe354f023dcc323fe32dcde6a3ec51d11940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 72/75] fix: bit iterators had no iterator_traits

---
 include/NazaraUtils/Bitset.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/Bitset.hpp b/include/NazaraUtils/Bitset.hpp
index db7bfe0..1659d2c 100644
--- a/include/NazaraUtils/Bitset.hpp
+++ b/include/NazaraUtils/Bitset.hpp
@@ -193,6 +193,9 @@ namespace Nz
 		public:
 			using iterator_category = std::input_iterator_tag;
 			using value_type = std::size_t;
+			using difference_type = std::ptrdiff_t;
+			using pointer = void;
+			using reference = value_type;
 
 			constexpr BitIterator(const BitIterator&) = default;
 			constexpr BitIterator(BitIterator&&) noexcept = default;
-- 
2.43.0


From 827c66c68f844f9bd346eeb223c1d5be33a19636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 73/75] fix: flags iterators had no iterator_traits

---
 include/NazaraUtils/Flags.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index c96b614..7a52fd6 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -113,6 +113,8 @@ namespace Nz
 			using iterator_category = std::input_iterator_tag;
 			using value_type = T;
 			using difference_type = std::ptrdiff_t;
+			using pointer = void;
+			using reference = value_type;
 
 			iterator(const iterator&) = default;
 			iterator(iterator&&) = default;
-- 
2.43.0


From b6f0ec902a43dc43a575a59bb0e544cf5ae3a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 74/75] fix: key-value iterators of enum arrays could not be
 used as the random access iterators they claim to be

---
 include/NazaraUtils/EnumArray.hpp |  7 +++++--
 include/NazaraUtils/EnumArray.inl | 11 +++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 6ae3c4e..de336dd 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -62,6 +62,8 @@ namespace Nz
 			using iterator_category = std::random_access_iterator_tag;
 			using value_type = std::pair<E, std::conditional_t<Const, const V&, V&>>;
 			using difference_type = typename Array::difference_type;
+			using pointer = void;
+			using reference = value_type;
 
 			constexpr EnumArrayKvIterator(kv_tag arrayTag, difference_type index);
 			EnumArrayKvIterator(const EnumArrayKvIterator&) = default;
@@ -78,9 +80,10 @@ namespace Nz
 
 			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
 			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
+			constexpr difference_type operator-(const EnumArrayKvIterator& rhs) const noexcept;
 
-			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator+=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator-=(difference_type n) noexcept;
 
 			constexpr value_type operator*() const noexcept;
 			constexpr value_type operator[](difference_type n) const noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index 6970aaa..4631138 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -108,14 +108,21 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(const EnumArrayKvIterator& rhs) const noexcept -> difference_type
+	{
+		assert(m_array == rhs.m_array);
+		return m_index - rhs.m_index;
+	}
+
+	template<typename E, typename V, bool Const>
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index += n;
 		return *this;
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index -= n;
 		return *this;
-- 
2.43.0


From f4b3553b521174f782aa4b061e17591483309e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:58 +0000
Subject: [PATCH 75/75] fix: member offsets were wrong for inherited members
 and did not compile for array or constant ones

---
 include/NazaraUtils/OffsetOf.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/NazaraUtils/OffsetOf.hpp b/include/NazaraUtils/OffsetOf.hpp
index 22abc11..9ffe108 100644
--- a/include/NazaraUtils/OffsetOf.hpp
+++ b/include/NazaraUtils/OffsetOf.hpp
@@ -16,17 +16,15 @@ namespace Nz
 {
 	namespace Detail
 	{
-		template <typename T, typename M> T GetClassType(M T::*);
-		template <typename T, typename M> M GetMemberType(M T::*);
-
-		template <typename T, typename R, R T::*M>
-		constexpr std::size_t OffsetOf()
+		template <typename T, typename C, typename M>
+		constexpr std::size_t OffsetOf(M C::* classMember)
 		{
-			return reinterpret_cast<std::size_t>(&((static_cast<T*>(0))->*M));
+			M T::* member = classMember; //< the offset of an inherited member depends on the derived class
+			return reinterpret_cast<std::size_t>(&((static_cast<T*>(0))->*member));
 		}
 	}
 }
 
-#define NazaraOffsetOf(type, member) Nz::Detail::OffsetOf<decltype(Nz::Detail::GetClassType(&type::member)), decltype(Nz::Detail::GetMemberType(&type::member)), &type::member>()
+#define NazaraOffsetOf(type, member) Nz::Detail::OffsetOf<type>(&type::member)
 
 #endif // NAZARAUTILS_OFFSETOF_HPP
-- 
2.43.0

