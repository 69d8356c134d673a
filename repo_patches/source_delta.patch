From cc81927ff1ef9c3107248b81486f3924b55fea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 001/119] fix: C<N> constructed from a negative multiple of N
 is the neutral element

---
 include/Conserved/quantity.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index 76ed977..222766e 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -93,15 +93,15 @@ class C
 	 *
 	 *
 	 */
-	constexpr C(int16_t _val) noexcept : val(  (_val != -N)*(_val < 0) * N + (_val % N) )
+	constexpr C(int16_t _val) noexcept : val((_val % N + N) % N)
 	{
 		/*
 		 * A quick explanation of the init line for val:
 		 * The modulo operation on signed integers preserve the sign of the value, and give the same absolute value for
 		 * both possible input sign. To get the correct (positive) value, the inverse of the absolute of the input, we
-		 * must first take the modulo of the negative number to bring it in range ]-N,N[. Then if it is negative, we add
-		 * N to bring it in the range [0,N[, and assign to the unsigned storage of this type. After this initial
-		 * assigment business, no modulo operation are ever needed.
+		 * must first take the modulo of the negative number to bring it in range ]-N,N[. Then we add N, to bring it in
+		 * the range ]0,2N[, and the last modulo brings it in the range [0,N[, including for the negative multiples of
+		 * N. After this initial assigment business, no modulo operation are ever needed.
 		 */
 	}
 	constexpr C() : val(0) {} // default to the neutral element.
-- 
2.43.0


From ef02a96935f0537a41854fb208ad3cff40dbce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 002/119] fix: group operation of C<N> overflowed for N > 2^15

---
 include/Conserved/quantity.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index 222766e..371b2a1 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -119,8 +119,9 @@ class C
 
 	constexpr C &op(C other, bool cond) noexcept
 	{
-		val += cond * other.val;
-		val -= (val >= N) * N;
+		// the sum of two elements doesn't always fit in the 16 bits of val when N > 2^15
+		const uint32_t sum = uint32_t(val) + cond * uint32_t(other.val);
+		val = sum - (sum >= N) * N;
 		return *this;
 	}
 
-- 
2.43.0


From b3d6d61d792e282a128a99669090bbae92d1a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 003/119] fix: copy assignment of any_quantity can change the
 underlying type, as documented

---
 include/Conserved/Composite/cquantity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Conserved/Composite/cquantity.h b/include/Conserved/Composite/cquantity.h
index 47cb85e..d18104e 100644
--- a/include/Conserved/Composite/cquantity.h
+++ b/include/Conserved/Composite/cquantity.h
@@ -239,7 +239,7 @@ inline any_quantity any_quantity::inverse() &&
 }
 inline any_quantity_ref any_quantity::operator=(const any_quantity &other)
 {
-	*impl = *other.impl;
+	impl = other.impl->clone(); // like the other assignments, can change the underlying type
 	return *this;
 }
 inline void any_quantity::swap(any_quantity_ref other) { impl->swap(other); }
-- 
2.43.0


From 7ced25c8e30ef2a5a6f603f662aa0b92e0249016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 004/119] fix: conversion of a concrete quantity_vector into an
 any_quantity_vector didn't compile or lost the content

---
 include/Conserved/Composite/quantity_vector.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index 9fa4640..32e0d2e 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -61,12 +61,9 @@ public:
 	template <class Conc_cgroup, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
 	any_quantity_vector(std::initializer_list<Conc_cgroup> list) : ptr(std::make_unique<quantity_vector<Conc_cgroup>>(list)) {}
 	template <class Conc_cgroup, class Allocator, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
-	any_quantity_vector(const quantity_vector<Conc_cgroup, Allocator>& other) : ptr(other.clone()) {}
+	any_quantity_vector(const quantity_vector<Conc_cgroup, Allocator>& other) : ptr(std::make_unique<quantity_vector<Conc_cgroup, Allocator>>(other)) {}
 	template <class Conc_cgroup, class Allocator, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
-	any_quantity_vector(quantity_vector<Conc_cgroup, Allocator>&& other) : ptr(std::make_unique<quantity_vector<Conc_cgroup, Allocator>>())
-	{
-		*ptr = std::move(other);
-	}
+	any_quantity_vector(quantity_vector<Conc_cgroup, Allocator>&& other) : ptr(std::make_unique<quantity_vector<Conc_cgroup, Allocator>>(std::move(other))) {}
 
 	any_quantity_vector& operator=(any_quantity_vector other)
 	{
-- 
2.43.0


From 5ea8a5cd38567261b0a11e03dc60e58b36955fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 005/119] fix: default constructed any_quantity_vector crashed
 when copied, compared or asked for its size

---
 include/Conserved/Composite/quantity_vector.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index 32e0d2e..867d2c2 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -42,7 +42,7 @@ public:
 
 	any_quantity_vector(std::unique_ptr<vquantity_vector>&& _ptr) : ptr(std::move(_ptr)) {}
 	any_quantity_vector() = default;
-	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr->clone()) {}
+	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr ? other.ptr->clone() : nullptr) {}
 	any_quantity_vector(any_quantity_vector&& other) : ptr(std::move(other.ptr)) {}
 	any_quantity_vector(size_t cnt, any_quantity_cref val) : ptr(val.make_vector(cnt)) {}
 	/**
@@ -73,7 +73,8 @@ public:
 
 	bool operator==(const any_quantity_vector& other) const
 	{
-		return ptr and *ptr == *(other.ptr);
+		if (not ptr or not other.ptr) return empty() and other.empty();
+		return *ptr == *(other.ptr);
 	}
 	bool operator!=(const any_quantity_vector& other) const
 	{
@@ -134,11 +135,11 @@ public:
 	// capacity
 	[[nodiscard]] bool empty() const
 	{
-		return ptr->empty();
+		return not ptr or ptr->empty();
 	}
 	[[nodiscard]] size_t size() const
 	{
-		return ptr->size();
+		return ptr ? ptr->size() : 0;
 	}
 	[[nodiscard]] size_t max_size() const
 	{
@@ -150,7 +151,7 @@ public:
 	}
 	[[nodiscard]] size_t capacity() const
 	{
-		return ptr->capacity();
+		return ptr ? ptr->capacity() : 0;
 	}
 	void shrink_to_fit()
 	{
-- 
2.43.0


From a2e11a2b79cb934848d30133fbf582c70609b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 006/119] fix: iterating on a default constructed
 any_quantity_vector crashed

---
 include/Conserved/Composite/quantity_vector_impl.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/Conserved/Composite/quantity_vector_impl.h b/include/Conserved/Composite/quantity_vector_impl.h
index 35dda66..694037d 100644
--- a/include/Conserved/Composite/quantity_vector_impl.h
+++ b/include/Conserved/Composite/quantity_vector_impl.h
@@ -130,7 +130,13 @@ struct cgroup_iterator
 	                                                       any_quantity, any_quantity_ref, vquantity *, std::ptrdiff_t>;
 	any_quantity_ref operator*() const { return *it; }
 	vquantity *operator->() const { return it; }
-	base_type::difference_type operator-(cgroup_iterator rhs) { return ar->ptr_diff(it, rhs.it); }
+	base_type::difference_type operator-(cgroup_iterator rhs)
+	{
+		if (ar)
+			return ar->ptr_diff(it, rhs.it);
+		else
+			return 0;
+	}
 	cgroup_iterator &operator+=(base_type::difference_type n)
 	{
 		it = ar->ptr_add(it, n);
-- 
2.43.0


From c3c3f1b9657d01df0568f9375cf650b0e6e91a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 007/119] fix: flat_map range insertion applied the no
 collision handler on elements that were already in the map

Subtracting block tensors flipped the sign of blocks of the left operand when all the
blocks absent from it come after one of its own blocks.
---
 include/blockTensor/flat_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 9f1e87e..e93d1a9 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -421,7 +421,8 @@ class flat_map
 		    lastmfirst == 0 or
 		    movembegin == lastmfirst); // we've copied everything, or we still have some stuff to copy and the room necessary
 		std::copy_backward(first, last, move_to_end);
-		std::for_each(begin(), move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
+		// only the elements just copied are new, anything before them was in the map before the call.
+		std::for_each(move_to_end - lastmfirst, move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
 	}
 
 	template <class M>
-- 
2.43.0


From b6775d2d5e4c0a8af03148fc68e0d8c78a896f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 008/119] fix: flat_map lower_bound and upper_bound
 dereferenced the end iterator, lower_bound lost the bound of absent keys

---
 include/blockTensor/flat_map.h | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index e93d1a9..5c19496 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -691,34 +691,10 @@ class flat_map
 		return std::make_from_tuple<std::pair<const_iterator, const_iterator>>(
 		    const_cast<flat_map *>(this)->equal_range(k));
 	}
-	iterator lower_bound(const key_type &k)
-	{
-		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
-			it = end();
-		return it;
-	}
-	const_iterator lower_bound(const key_type &k) const
-	{
-		auto it = std::lower_bound(cbegin(), cend(), k, comp);
-		if (comp(k, *it))
-			it = end();
-		return it;
-	}
-	iterator upper_bound(const key_type &k)
-	{
-		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
-		return it;
-	}
-	const_iterator upper_bound(const key_type &k) const
-	{
-		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
-		return it;
-	}
+	iterator lower_bound(const key_type &k) { return std::lower_bound(begin(), end(), k, comp); }
+	const_iterator lower_bound(const key_type &k) const { return std::lower_bound(cbegin(), cend(), k, comp); }
+	iterator upper_bound(const key_type &k) { return std::upper_bound(begin(), end(), k, comp); }
+	const_iterator upper_bound(const key_type &k) const { return std::upper_bound(cbegin(), cend(), k, comp); }
 
 	key_compare key_comp() const { return comp.comp; }
 
-- 
2.43.0


From 346cf42df649c4e6f2643826c594751debdbf275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 009/119] fix: flat_map::erase of an absent key erased the next
 element

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 5c19496..3f6551a 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -586,7 +586,7 @@ class flat_map
 	size_type erase(const key_type &k)
 	{
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
+		if (it == end() or comp(k, *it))
 		{
 			return 0;
 		}
-- 
2.43.0


From 065764f1420f34dfe977d85488ccf558d13966bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 010/119] fix: flat_map insertion with a hint before the right
 position broke the ordering or duplicated a key

---
 include/blockTensor/flat_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 3f6551a..4ddce4c 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -734,7 +734,7 @@ class flat_map
 		bool is_end = hint == cend();
 		hint = hint - 1*is_end;// avoid dereferencing the end iterator, which isn't a valid value. It an acceptable hint.
 		const_iterator first = comp(*hint, key) ? hint : cbegin();
-		const_iterator last = comp(key, *hint) ? cend() : hint + 1;
+		const_iterator last = comp(*hint, key) ? cend() : hint + 1;
 		return std::make_pair(first, last);
 	}
 	std::pair<iterator, iterator> use_hint(iterator hint,const key_type &key)
@@ -743,7 +743,7 @@ class flat_map
 		bool is_end = hint == end();
 		hint = hint - is_end;// avoid dereferencing the end iterator, which isn't a valid value. It an acceptable hint.
 		iterator first = comp(*hint, key) ? hint : begin();
-		iterator last = comp(key, *hint) ? hint + 1 : end();
+		iterator last = comp(*hint, key) ? end() : hint + 1;
 		return std::make_pair(first, last);
 	}
 	typename content_t::iterator filter_unique(typename content_t::iterator first, typename content_t::iterator last)
-- 
2.43.0


From ef29c96d93373c40dd9c5d137cfb26f8428091f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 011/119] fix: flat_map constructed from its content type kept
 repeated keys

---
 include/blockTensor/flat_map.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 4ddce4c..c1e17b4 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -148,8 +148,13 @@ class flat_map
 	{
 	}
 	flat_map(const allocator_type &_alloc = allocator_type()) : comp(), content(_alloc) {}
-	flat_map(content_t &&in) : comp(), content(std::move(in)) { sort(content.begin(), content.end()); }
-	flat_map(const content_t &in) : comp(), content((in)) { sort(content.begin(), content.end()); }
+	flat_map(content_t &&in) : comp(), content(std::move(in))
+	{
+		sort(content.begin(), content.end());
+		auto l = filter_unique(content.begin(), content.end());
+		content.erase(l, content.end());
+	}
+	flat_map(const content_t &in) : flat_map(content_t(in)) {}
 	template <class InputIt>
 	flat_map(InputIt first, InputIt last, const key_compare &_comp = key_compare(),
 	         const allocator_type &_alloc = allocator_type())
-- 
2.43.0


From f28350fcc0f079c08604153b149f770dff179c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 012/119] fix: merging a temporary flat_map applied the no
 collision handler on the elements of the destination

---
 include/blockTensor/flat_map.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index c1e17b4..9911628 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -619,12 +619,6 @@ class flat_map
 
 	template <class C2, class Collision>
 	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision)
-	{
-		merge(std::move(source), std::forward<Collision>(collision), [](auto &&) {});
-	}
-	template <class C2, class Collision, class NoCollision>
-	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision,
-	           NoCollision &&nocollision)
 	{
 		if (source.capacity() >= source.size() + size()) // reuse source's resources if it avoid doing an allocation.
 		{
@@ -638,15 +632,21 @@ class flat_map
 				    auto &c = const_cast<std::remove_const_t<std::remove_reference_t<decltype(b)>> &>(b);
 				    std::swap(a, c);
 				    collision(a, c);
-			    },
-			    std::forward<NoCollision>(nocollision));
+			    });
 		}
 		else
 		{
-			insert(source.begin(), source.end(), std::forward<Collision>(collision),
-			       std::forward<NoCollision>(nocollision));
+			insert(source.begin(), source.end(), std::forward<Collision>(collision));
 		}
 	}
+	template <class C2, class Collision, class NoCollision>
+	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision,
+	           NoCollision &&nocollision)
+	{
+		// source's resources can't be reused: its elements are the ones nocollision must be applied to.
+		insert(source.begin(), source.end(), std::forward<Collision>(collision),
+		       std::forward<NoCollision>(nocollision));
+	}
 	template <class C2>
 	void merge(const flat_map<key_type, mapped_type, C2, allocator_type> &source)
 	{
-- 
2.43.0


From 35b4806174217384022cf0c60670661e3c5555d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 013/119] fix: elementwise operations of block tensors got the
 structure wrong for dimensions with the same number of sections

A dimension of a single section broadcast against a dimension of size one took the size of
the latter, and sections of different sizes were accepted when their number was the same.
---
 sources/btensor.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 186e177..b587677 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1001,7 +1001,13 @@ struct mul_helpers
 				constexpr auto message = "The section and tensor size of tensor a (section size {},tensor size {}) "
 				                         "must match the section size and tensor size"
 				                         "of tensor b (section size {}, tensor size {}) at non-singleton dimension {}";
-				if (not(*it) and *smaller_sec != *larger_sec)
+				auto same_sections = [&]()
+				{
+					auto [small_start, small_end] = smaller_tensor.section_sizes(smaller_rank - n);
+					auto [large_start, large_end] = larger_tensor.section_sizes(larger_rank - n);
+					return std::equal(small_start, small_end, large_start, large_end);
+				};
+				if (not(*it) and not same_sections())
 				{
 					if (this_is_large)
 					{
@@ -1037,14 +1043,14 @@ struct mul_helpers
 				--it;
 				--larger_sec;
 				--smaller_sec;
-				if (*larger_sec > *smaller_sec) // one of them is one
+				if (*it & 1) // the smaller tensor is broadcast along this dimension
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    larger_tensor.section_sizes_cqtts(larger_rank - n);
 					std::tie(short_cval_start, short_cval_end) =
 					    smaller_tensor.section_conserved_qtt_range(smaller_rank - n);
 				}
-				else // or they are equal
+				else // the larger tensor is broadcast, or they are equal
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    smaller_tensor.section_sizes_cqtts(smaller_rank - n);
-- 
2.43.0


From 217e4da4699bf6b3e2cbcccb8c703b6632c6e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 014/119] fix: in place elementwise operation with a block
 tensor of greater rank read out of bounds and gave an invalid tensor

---
 sources/btensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index b587677..9cf32fd 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1218,6 +1218,8 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 	// The larger and smaller identification buisiness can be mostly illiminated: the output MUST be the larger one in
 	// rank for the inplace case. This is a bit of a silly decision on torch's part, since it allow reallocation if the
 	// tensor has a large enough rank.
+	if (other.rank > rank)
+		throw std::invalid_argument("the rank of the output of an inplace operation can't be increased by broadcasting");
 
 	const auto &smaller_rank = std::min(rank, other.rank);
 	const auto &larger_rank = std::max(rank, other.rank);
-- 
2.43.0


From 38e02afd3b8a8599a0d8cb56907283d967bd93c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 015/119] fix: btensor::pow_ with broadcasting worked in place
 on the wrong blocks

The in place and out of place operations were exchanged: a block broadcast several times was
raised to all the powers one after the other.
---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 9cf32fd..428657e 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1752,8 +1752,8 @@ btensor btensor::pow(const btensor &exponent) const
 btensor &btensor::pow_(const btensor &exponent)
 {
 	return broadcast_operation_(
-	    exponent, [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); },
-	    [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); });
+	    exponent, [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); },
+	    [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); });
 }
 btensor btensor::mul(const btensor &other) const
 {
-- 
2.43.0


From 632a66dab52c447c08ce3fb79fc2119cce2a086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 016/119] fix: adding or subtracting a temporary block tensor
 modified the left operand, and crashed on empty tensors

---
 sources/btensor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 428657e..1f9015a 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2697,6 +2697,10 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
 	auto out = *this;
+	for (auto &a : out)
+	{
+		std::get<1>(a) = std::get<1>(a).clone();
+	}
 	out.blocks_list.merge(
 	    other.blocks_list, // must not use the move merge, no way to get the nocollision case to behave correctly
 	                       // with that variant. torch::tensor do shallow copy by default anyway, so it doesn't
@@ -2714,7 +2718,8 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
 		    }
 	    });
-	out._options = std::get<1>(*out.begin()).options();
+	if (out.begin() != out.end())
+		out._options = std::get<1>(*out.begin()).options();
 	return out;
 }
 /*!
-- 
2.43.0


From 928972556d6df5971087eddab043e40c1c12665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 017/119] fix: block tensors of different rank were accepted in
 sums and comparisons when their lists of sections were the same

---
 sources/btensor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 1f9015a..e502e72 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2230,7 +2230,8 @@ void btensor::shift_impl(any_quantity_cref shift, int64_t dim)
 
 bool btensor::test_same_shape(const btensor &a, const btensor &b)
 {
-	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes))
+	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes) or
+	    !(a.sections_by_dim == b.sections_by_dim))
 		return false;
 	return true;
 }
@@ -2241,7 +2242,7 @@ void btensor::add_tensor_check(const btensor &a, const btensor &b)
 		throw non_matching_cvals("The conserved quantities of the tensors must be a perfect match");
 	if (!(a.selection_rule == b.selection_rule))
 		throw bad_selection_rule("The selection rules of the tensors must be the same");
-	if (!(a.sections_sizes == b.sections_sizes))
+	if (!(a.sections_sizes == b.sections_sizes) or !(a.sections_by_dim == b.sections_by_dim))
 		throw non_matching_sizes("The blocks of the tensors must have the same dimensions");
 }
 
-- 
2.43.0


From 81c7842771fe132aa95411719f18e22466770f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 018/119] fix: division of a scalar by a block tensor wrote out
 of bounds and returned an empty tensor

---
 sources/btensor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index e502e72..5daacc3 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3174,8 +3174,10 @@ btensor operator/(const btensor::Scalar &A, const btensor &B)
 {
 	auto out = quantit::sparse_zeros_like(B);
 	out.reserve_space_(std::distance(B.begin(), B.end()));
-	std::transform(B.begin(), B.end(), out.begin(),
-	               [&A](const auto &in) { return std::make_pair(in.first, A / in.second); });
+	for (const auto &in : B)
+	{
+		out.block(std::get<0>(in)) = A / std::get<1>(in);
+	}
 	return out;
 }
 /**
-- 
2.43.0


From 383df71e99048b3656022bee0ae4047dbb7f13e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 019/119] fix: btensor::any only looked at the first block

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 5daacc3..ddb313f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3122,7 +3122,7 @@ torch::Tensor btensor::any() const
 	auto &out_acc = *(out.data_ptr<bool>());
 	while (it != this->end() and !out_acc)
 	{
-		out &= std::get<1>(*it).any();
+		out |= std::get<1>(*it).any();
 		++it;
 	}
 	return out;
-- 
2.43.0


From f25482bfeff9ced2aa2425396783499ae4081268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 020/119] fix: conversion of a rank 0 block tensor to a dense
 tensor always threw

---
 sources/btensor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index ddb313f..3c785c0 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2506,7 +2506,10 @@ torch::Tensor btensor::to_dense() const
 		auto &index = std::get<0>(index_block);
 		auto &tens = std::get<1>(index_block);
 		auto Slices = full_slice(*this, index);
-		out.index_put_(Slices, tens);
+		if (Slices.size())
+			out.index_put_(Slices, tens);
+		else
+			out.copy_(tens);
 	}
 	return out;
 }
-- 
2.43.0


From 6b129cfe868aa4a8cc49389df337f3fcad09b0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 021/119] fix: the sum of a block tensor broke its own
 selection rule, and always threw for boolean tensors

---
 sources/btensor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 3c785c0..def0333 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1506,14 +1506,14 @@ btensor btensor::bmm(const btensor &mat) const
 
 btensor btensor::sum() const
 {
-	auto out = btensor({}, selection_rule.value, this->options());
+	auto out = btensor({}, selection_rule->neutral(), this->options());
 	auto list = new_block_list_apply_to_all_blocks([](const torch::Tensor &t) { return t.sum(); });
 	torch::Tensor out_val = torch::zeros({}, options());
 	for (auto &a : list)
 	{
-		out_val += std::get<1>(a);
+		out_val = out_val + std::get<1>(a);
 	}
-	return btensor(out, btensor::block_list_t({{{}, out_val}}));
+	return btensor(out, btensor::block_list_t({{{}, out_val}}), out_val.options());
 }
 
 btensor btensor::sqrt() const
-- 
2.43.0


From 2fa78f466be34b9eeeafd2559fda630c5000ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 022/119] fix: allclose of block tensors ignored the relative
 tolerance for blocks present in the second tensor only

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index def0333..1dd4cde 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2573,7 +2573,7 @@ bool allclose(const btensor &a, const btensor &b, double rtol, double atol, bool
 		}
 		else if (a_index > b_index)
 		{
-			is_allclose &= torch::allclose(b_tens, torch::zeros_like(b_tens), rtol, atol, equal_nan);
+			is_allclose &= torch::allclose(torch::zeros_like(b_tens), b_tens, rtol, atol, equal_nan);
 			++b_it;
 		}
 		else // equal index
@@ -2595,7 +2595,7 @@ bool allclose(const btensor &a, const btensor &b, double rtol, double atol, bool
 	{
 		const auto &b_index = std::get<0>(*b_it);
 		const auto &b_tens = std::get<1>(*b_it);
-		is_allclose &= torch::allclose(b_tens, torch::zeros_like(b_tens), rtol, atol, equal_nan);
+		is_allclose &= torch::allclose(torch::zeros_like(b_tens), b_tens, rtol, atol, equal_nan);
 		++b_it;
 	}
 	return is_allclose;
-- 
2.43.0


From 0228006b069bd967319ba77a4897ce19277c8bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 023/119] fix: block tensor times a scalar announced an element
 type its blocks don't have

Converting the product of a float block tensor with a double to a dense tensor threw an exception.
---
 sources/btensor.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 1dd4cde..bef36e4 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -902,11 +902,12 @@ btensor btensor::mul(Scalar other) const
 	// auto out = btensor(*this);
 	// out.apply_to_all_blocks([](torch::Tensor &tensor, auto &&other_val) { tensor.mul(other_val); }, other);
 	// return out;
-	auto out_dtype = promote_types(_options.dtype(), other.type());
+	// torch's promotion rules for a tensor and a scalar differ from those for a pair of tensors
+	auto out_opt = torch::ones({1}, options()).mul(other).options();
 	return btensor(*this,
 	               new_block_list_apply_to_all_blocks(
 	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.mul(other_val); }, other),
-	               out_dtype);
+	               out_opt);
 }
 btensor btensor::le(btensor::Scalar other) const
 {
@@ -968,11 +969,12 @@ btensor btensor::div(btensor::Scalar other) const
 	// auto out = btensor(*this);
 	// out.apply_to_all_blocks([](torch::Tensor &tensor, auto &&other_val) { tensor.mul(other_val); }, other);
 	// return out;
-	auto out_dtype = promote_types(_options.dtype(), other.type());
+	// torch's promotion rules for a tensor and a scalar differ from those for a pair of tensors
+	auto out_opt = torch::ones({1}, options()).div(other).options();
 	return btensor(*this,
 	               new_block_list_apply_to_all_blocks(
 	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.div(other_val); }, other),
-	               out_dtype);
+	               out_opt);
 }
 struct mul_helpers
 {
-- 
2.43.0


From 1064d8a9d10a49f089d2d7f5cc6e5ec8cb37ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 024/119] fix: sum of block tensors of different element types
 had blocks of different types

The conversion of such a sum to a dense tensor threw an exception or depended on which blocks are present.
---
 sources/btensor.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index bef36e4..ba7a760 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2681,18 +2681,19 @@ btensor btensor::add(const btensor &other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
 	auto out = *this;
+	// all the blocks have the same type, even those that are present in a single operand
+	const auto dtype = promote_types(options().dtype(), other.options().dtype());
+	out._options = out._options.merge_in(dtype);
 	for (auto &a : out)
 	{
-		std::get<1>(a) = std::get<1>(a).clone();
+		std::get<1>(a) = std::get<1>(a).to(dtype, false, true);
 	}
 	out.blocks_list.merge(
 	    other.blocks_list,
 	    // collision : do an addition in place
 	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
 	    // no collision, multiply with the constant and make an independent copy
-	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
-	if (out.begin() != out.end())
-		out._options = std::get<1>(*out.begin()).options();
+	    [&alpha, dtype](torch::Tensor &x) { x = x.mul(alpha).to(dtype); });
 	return out;
 }
 /*!
@@ -2703,9 +2704,12 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
 	auto out = *this;
+	// all the blocks have the same type, even those that are present in a single operand
+	const auto dtype = promote_types(options().dtype(), other.options().dtype());
+	out._options = out._options.merge_in(dtype);
 	for (auto &a : out)
 	{
-		std::get<1>(a) = std::get<1>(a).clone();
+		std::get<1>(a) = std::get<1>(a).to(dtype, false, true);
 	}
 	out.blocks_list.merge(
 	    other.blocks_list, // must not use the move merge, no way to get the nocollision case to behave correctly
@@ -2713,19 +2717,17 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 	                       // change the cost of the operations. collision
 	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
 	    // no collision
-	    [&alpha](torch::Tensor &x)
+	    [&alpha, dtype](torch::Tensor &x)
 	    {
-		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
+		    if (get_refcount(x) > 2 or x.dtype() != dtype) // greater than 2 because we've just made a temp copy for this algorithm
 		    {
-			    x = x.mul(alpha);
+			    x = x.mul(alpha).to(dtype);
 		    }
 		    else
 		    {
 			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
 		    }
 	    });
-	if (out.begin() != out.end())
-		out._options = std::get<1>(*out.begin()).options();
 	return out;
 }
 /*!
-- 
2.43.0


From 7c92d1f6b2069aa978cfce51d9c4e635ba99d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 025/119] fix: element type of sqrt, abs and pow of a block
 tensor without blocks

---
 sources/btensor.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index ba7a760..cab134b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1521,11 +1521,7 @@ btensor btensor::sum() const
 btensor btensor::sqrt() const
 {
 	auto out_list = new_block_list_apply_to_all_blocks(torch::sqrt);
-	auto opt = options();
-	if (out_list.size())
-	{
-		opt = out_list.begin()->second.options();
-	}
+	auto opt = torch::ones({1}, options()).sqrt().options();
 	return btensor(*this, std::move(out_list), opt);
 }
 
@@ -1551,11 +1547,7 @@ btensor &btensor::abs_()
 btensor btensor::abs() const
 {
 	auto out_list = new_block_list_apply_to_all_blocks(torch::abs);
-	auto opt = options();
-	if (out_list.size())
-	{
-		opt = out_list.begin()->second.options();
-	}
+	auto opt = torch::ones({1}, options()).abs().options();
 	return btensor(*this, std::move(out_list), opt);
 }
 
@@ -1563,11 +1555,7 @@ btensor btensor::pow(btensor::Scalar exponent) const
 {
 	auto out_list = new_block_list_apply_to_all_blocks(
 	    [](const torch::Tensor &x, btensor::Scalar exponent) { return x.pow(exponent); }, exponent);
-	auto opt = options();
-	if (out_list.size())
-	{
-		opt = out_list.begin()->second.options();
-	}
+	auto opt = torch::ones({1}, options()).pow(exponent).options();
 	return btensor(*this, std::move(out_list), opt);
 }
 /*
-- 
2.43.0


From 9d29b362ff8f07624976746640ae8553e166615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 026/119] fix: contraction of two rank 0 block tensors never
 terminated

---
 sources/btensor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index cab134b..2549f48 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1998,7 +1998,11 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 		// compute the smallest possible block index that correspond to a different output index than the input
 		// The last dim_l dimension do not contribute to the output block index.
 		auto next = std::get<0>(*iterator);
-		if (next.begin() != next.end())
+		if (next.begin() == next.end())
+		{ // rank zero: any longer index comes after the only block.
+			next.push_back(0);
+		}
+		else
 		{
 			bool null_dim_l = dim_l == 0;
 			const auto rank = std::distance(next.begin(), next.end());
-- 
2.43.0


From c18388b87949f588ded2196cc85ec140182153d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 027/119] fix: contraction of block tensors accepted sections
 of different sizes when no blocks met

---
 sources/btensor.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 2549f48..aa5a387 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -805,6 +805,21 @@ bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch
 		{
 			return false;
 		}
+		{
+			auto [size1_beg, size1_end] = in1.section_sizes(dims1[i]);
+			auto [size2_beg, size2_end] = in2.section_sizes(dims2[i]);
+			ok_CR = std::equal(size1_beg, size1_end, size2_beg, size2_end);
+		}
+		if constexpr (Throws)
+		{
+			TORCH_CHECK(ok_CR, fmt::format("contracted dimensions need to have sections of the same sizes, but dim {} of "
+			                               "the left tensor and dim {} of the right tensor don't",
+			                               dims1[i], dims2[i]));
+		}
+		else if (!ok_CR)
+		{
+			return false;
+		}
 		ok_CR = std::distance(std::get<0>(q1), std::get<1>(q1)) == std::distance(std::get<0>(q2), std::get<1>(q2));
 		auto neut = in1.selection_rule->neutral();
 		for (auto [it1, it2] = std::make_tuple(std::get<0>(q1), std::get<0>(q2)); it1 != std::get<1>(q1) and ok_CR;
-- 
2.43.0


From a1d3f42fb4f20d477f57213f6cf989090822f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 028/119] fix: contraction of block tensors over out of range
 or negative dimensions read out of bounds

---
 sources/btensor.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index aa5a387..d9a6aad 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -854,8 +854,18 @@ template bool btensor::check_product_compat<true>(const btensor &in1, const bten
  * @return std::tuple<std::vector<int64_t>, std::vector<int64_t>, std::vector<int64_t>>
  */
 std::tuple<std::vector<int64_t>, std::vector<int64_t>, std::vector<int64_t>> compute_tdot_shape(
-    const btensor &input1, const btensor &input2, torch::IntArrayRef dims1, torch::IntArrayRef dims2)
+    const btensor &input1, const btensor &input2, torch::IntArrayRef in_dims1, torch::IntArrayRef in_dims2)
 {
+	// throws on out of range dimensions, negative ones are counted from the last, as torch does.
+	auto wrap_dims = [](torch::IntArrayRef dims, int64_t rank)
+	{
+		std::vector<int64_t> out(dims.begin(), dims.end());
+		for (auto &dim : out)
+			dim = at::maybe_wrap_dim(dim, rank);
+		return out;
+	};
+	const auto dims1 = wrap_dims(in_dims1, input1.dim());
+	const auto dims2 = wrap_dims(in_dims2, input2.dim());
 	TORCH_CHECK(dims1.size() == dims2.size(), "both dimension lists should have the same length.")
 	TORCH_CHECK(input1.selection_rule->get().same_type(input2.selection_rule->get()),
 	            "the two tensors have different type of conserved quantities");
-- 
2.43.0


From 2916dfa1663bfd155025ec595b7edb7f48a11b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 029/119] fix: permutation of a block tensor did not check the
 permutation

---
 sources/btensor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index d9a6aad..2cfbc17 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1780,11 +1780,13 @@ btensor btensor::permute(torch::IntArrayRef in_permutation) const
 	block_list_t::content_t out_block_list; // unordered.
 	out_block_list.reserve(blocks_list.size());
 	index_list out_section_by_dim(rank);
-	assert(in_permutation.size() == rank);
+	TORCH_CHECK(in_permutation.size() == rank, "permutation of ", in_permutation.size(),
+	            " dimensions given for a tensor of rank ", rank);
+	at::dim_list_to_bitset(in_permutation, rank); // throws on repeated dimensions
 	std::vector<int64_t> permutation(rank);
 	// turn it into a positive indexed permutation.
 	std::transform(in_permutation.begin(), in_permutation.end(), permutation.begin(),
-	               [rank = this->rank](auto &&x) { return rank * (x < 0) + x; });
+	               [rank = this->rank](auto &&x) { return at::maybe_wrap_dim(x, rank, false); });
 	// permute the tensors and their position in the block matrix
 	for (size_t i = 0; i < rank; ++i)
 	{
-- 
2.43.0


From 9b74f587ec87fcc46afc04f7b60df36abeca0ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 030/119] fix: transposition of a block tensor wrote out of
 bounds for dimensions out of range

---
 sources/btensor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 2cfbc17..56fa279 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1973,8 +1973,8 @@ btensor btensor::tensor_product_shape(const btensor &other) const
 btensor btensor::transpose(int64_t dim0, int64_t dim1) const
 {
 	// convert to a permutation? That's the simplest option for me.
-	dim0 = rank * (dim0 < 0) + dim0;
-	dim1 = rank * (dim1 < 0) + dim1;
+	dim0 = at::maybe_wrap_dim(dim0, rank, false);
+	dim1 = at::maybe_wrap_dim(dim1, rank, false);
 	std::vector<int64_t> permutation(rank);
 	std::iota(permutation.begin(), permutation.end(), 0);
 	permutation[dim0] = dim1;
@@ -1984,8 +1984,8 @@ btensor btensor::transpose(int64_t dim0, int64_t dim1) const
 btensor &btensor::transpose_(int64_t dim0, int64_t dim1)
 {
 	// convert to a permutation? That's the simplest option for me.
-	dim0 = rank * (dim0 < 0) + dim0;
-	dim1 = rank * (dim1 < 0) + dim1;
+	dim0 = at::maybe_wrap_dim(dim0, rank, false);
+	dim1 = at::maybe_wrap_dim(dim1, rank, false);
 	std::vector<int64_t> permutation(rank);
 	std::iota(permutation.begin(), permutation.end(), 0);
 	permutation[dim0] = dim1;
-- 
2.43.0


From 45b45ae768bff32feb342b30168f1cf266d12c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 031/119] fix: grouping the dimensions of a block tensor read
 out of bounds for rank 0 or invalid groups

---
 sources/btensor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 56fa279..e33c6af 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2905,7 +2905,7 @@ btensor::index_list new_block_shape(torch::IntArrayRef index_groups, btensor::co
 	auto index_it = index_groups.begin() + 1;
 	for (auto i = index_groups.front(); i < old_rank; ++i)
 	{
-		if (i >= (*index_it))
+		while (i >= (*index_it))
 		{
 			++out_it;
 			++index_it;
@@ -3033,12 +3033,16 @@ btensor btensor::reshape(torch::IntArrayRef index_groups) const
 	m_index_group[0] = 0;
 	m_index_group.back() = rank;
 	std::copy(index_groups.begin(), index_groups.end(), m_index_group.begin() + 1);
+	if (not std::is_sorted(m_index_group.begin(), m_index_group.end()))
+		throw std::invalid_argument(fmt::format(
+		    "index groups {} must be increasing and between 0 and the rank {}", index_groups, rank));
 	// adresses contains the offset for section quantities for each dimensions of the tensor. perhaps i should
 	// refactor such that this quantity is a class property. wouldn't be too hard. require modification to the
 	// constructor to initialize this, and modification to the view subclasses to make use of this. Would upgrade
 	// them from bidirectionnal to random access.
 	auto addresses = btensor::index_list(sections_by_dim.size(), 0);
-	std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
+	if (not sections_by_dim.empty())
+		std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
 
 	auto out_sections_by_dim = reshape_sections_by_dim(m_index_group, out_rank, sections_by_dim);
 	auto out_size = std::reduce(out_sections_by_dim.begin(), out_sections_by_dim.end());
-- 
2.43.0


From 28930c8c740cc590c2926aa3c180f2287f0b395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 032/119] fix: squeezing a block tensor along a dimension
 counted from the last wrote out of bounds

---
 sources/btensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index e33c6af..558f2bf 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2148,6 +2148,7 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 }
 btensor &btensor::squeeze_(int64_t dim)
 {
+	dim = at::maybe_wrap_dim(dim, rank, false);
 	if (section_number(dim) == 1 and section_size(dim, 0) == 1)
 	{ // do the squeeze
 		std::vector<int64_t> res(this->dim(), -1);
-- 
2.43.0


From b0da9a34f1391b0ab1711ffe31bd0d46e138335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 033/119] fix: squeezing a block tensor threw when a removed
 dimension has a non neutral conserved quantity

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 558f2bf..6c05f62 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2169,7 +2169,7 @@ btensor &btensor::squeeze_()
 	{
 		res[dim] *= !(section_number(dim) == 1 and section_size(dim, 0) == 1);
 	}
-	*this = reshape_as(shape_from(res));
+	*this = basic_create_view(res);
 	return *this;
 }
 btensor btensor::squeeze() const
-- 
2.43.0


From 2ed1317a3b24876bbf5801442b74f0f7f11f2584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 034/119] fix: slice of a block tensor kept blocks that are not
 selected by its last dimensions

---
 sources/btensor.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 6c05f62..7a698d7 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -675,13 +675,12 @@ btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preser
 		bool keep = true;
 		auto out_it = out_index.begin();
 		auto filter_it = filter.begin();
-		for (auto index_it = index_in.begin(); index_it != index_in.end() and out_it != out_index.end() and keep;
-		     ++index_it, ++filter_it)
+		for (auto index_it = index_in.begin(); index_it != index_in.end() and keep; ++index_it, ++filter_it)
 		{
-			*out_it = *index_it;
 			auto sliced = *filter_it == -1;
 			keep &= sliced or *index_it == *filter_it;
-			out_it += sliced;
+			if (sliced)
+				*(out_it++) = *index_it;
 		}
 		return std::make_tuple(keep, out_index);
 	};
-- 
2.43.0


From 476522ef74d783c1030f4b6706cbb9f54d9eab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 035/119] fix: assignment of a slice of a block tensor read
 past the end of the block index

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 7a698d7..958f92f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -718,8 +718,8 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		for (auto ito = out.begin(); ito != out.end(); ++ito)
 		{
 			bool isNegative1 = (*ito) == -1;
-			*ito = (*itv) * isNegative1 + (!isNegative1) * (*ito);
-			itv += isNegative1;
+			if (isNegative1)
+				*ito = *(itv++);
 		}
 		return out;
 	};
-- 
2.43.0


From 7324e69ecd79970f011502ced387d17ef07d46c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 036/119] fix: slice, assignment and conversion from dense of
 rank 0 block tensors threw

---
 sources/btensor.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 958f92f..9608751 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -691,7 +691,8 @@ btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preser
 		if (keep)
 		{
 			out_tensor.blocks_list.insert(out_tensor.blocks_list.end(),
-			                              {out_index, std::get<1>(index_block).index(element)});
+			                              {out_index, element.empty() ? std::get<1>(index_block)
+			                                                          : std::get<1>(index_block).index(element)});
 		}
 	}
 	if (preserve_rank)
@@ -735,7 +736,11 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 			                          size_view.end()); // because torch factories don't accept iterator pairs.
 			this->blocks_list.insert({out_ind, torch::zeros(size, options())});
 		}
-		this->blocks_list.at(out_ind).index_put_(element, block);
+		auto &destination = this->blocks_list.at(out_ind);
+		if (element.empty()) // rank 0
+			destination.copy_(block);
+		else
+			destination.index_put_(element, block);
 	}
 	return *this;
 }
@@ -2548,7 +2553,7 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 		{
 			auto shape_view = out.block_sizes(index);
 			auto S = btensor::full_slice(out, index);
-			auto block = values.index(torch::ArrayRef(S));
+			auto block = S.empty() ? values : values.index(torch::ArrayRef(S));
 			if ((torch::linalg::vector_norm(block.flatten().to(torch::promote_types(
 			                                    torch::kFloat, torch::typeMetaToScalarType(block.options().dtype()))),
 			                                2, {}, false, {}) > cutoff)
-- 
2.43.0


From 90a15998da9e4ad17de25c6ff863d976f97a8e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 037/119] fix: assignment to a slice of a block tensor left the
 elements where the value has no block

---
 sources/btensor.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 9608751..d434318 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -724,6 +724,28 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		}
 		return out;
 	};
+	// the selected part of the blocks that are absent from value must become zero.
+	for (auto &index_block : this->blocks_list)
+	{
+		const auto &index = std::get<0>(index_block);
+		index_list value_index;
+		bool selected = true;
+		for (size_t i = 0; i < blocks.size(); ++i)
+		{
+			if (blocks[i] == -1)
+				value_index.push_back(index[i]);
+			else
+				selected &= index[i] == blocks[i];
+		}
+		if (selected and not value.blocks_list.contains(value_index))
+		{
+			auto &block = std::get<1>(index_block);
+			if (element.empty())
+				block.zero_();
+			else
+				block.index_put_(element, 0);
+		}
+	}
 	for (const auto &index_block : value)
 	{
 		const auto &index = std::get<0>(index_block);
-- 
2.43.0


From 116cf9da2f7168232ac58511a2e42dd145004716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 038/119] fix: slice of a block tensor accepted element indices
 below -1

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index d434318..f29866b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -507,7 +507,7 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 		auto it_size = sizes.begin();
 		while (it_dims != dims.end())
 		{
-			size_compat &= *it_dims < *it_size or *it_dims == -1;
+			size_compat &= *it_dims < *it_size and *it_dims >= -1;
 			++it_dims;
 			++it_size;
 		}
-- 
2.43.0


From 74c7dd84b2e525bf701544bcad469649f396fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 039/119] fix: conversion of a dense tensor of another size to
 a block tensor made blocks of the wrong size

---
 sources/btensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index f29866b..9a9dcc8 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2566,6 +2566,8 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 {
 	if (out.dim() != values.dim())
 		throw std::invalid_argument("input arguments have incompatible rank!");
+	if (values.sizes() != torch::IntArrayRef(out.sizes()))
+		throw std::invalid_argument("input arguments have incompatible sizes!");
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
 	// fmt::print("construction of btensor from full basic tensor\n==============\n");
-- 
2.43.0


From 97b59917f3cecbc9042e9ba607b5d23831926fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 040/119] fix: shape of a slice of a dense tensor wrote past
 the end of the sizes, and accepted any list of indices

---
 sources/btensor.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 9a9dcc8..bb35fc5 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2342,22 +2342,19 @@ torch_shape shape_from(std::initializer_list<torch_shape> shapes)
 }
 torch_shape shape_from(const torch_shape &shape, const std::vector<int64_t> inds)
 {
-	size_t rank = 0;
-	for (auto &ind : inds)
-	{
-		rank += ind == -1;
-	}
-	std::vector<int64_t> sizes(rank);
-	auto it = sizes.begin();
+	if (inds.size() != shape._sizes.size())
+		throw std::invalid_argument(
+		    fmt::format("{} indices were given for a shape of rank {}.", inds.size(), shape._sizes.size()));
+	std::vector<int64_t> sizes;
+	sizes.reserve(inds.size());
 	auto shape_it = shape._sizes.begin();
-	if (rank)
+	for (auto &ind : inds)
 	{
-		for (auto &ind : inds)
-		{
-			*it = *shape_it;
-			it += ind == -1;
-			++shape_it;
-		}
+		if (ind < -1 or ind >= *shape_it)
+			throw std::invalid_argument(fmt::format("index {} is out of range for a size of {}.", ind, *shape_it));
+		if (ind == -1)
+			sizes.push_back(*shape_it);
+		++shape_it;
 	}
 	return {sizes, shape.opt};
 }
-- 
2.43.0


From 0beb4d872b963605c8ead931073e70fca0f69eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 041/119] fix: eye of a shape of rank 0 read out of bounds

---
 sources/btensor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index bb35fc5..cd61ba3 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2488,9 +2488,11 @@ btensor randint_like(int64_t low, int64_t high, const btensor &tens, c10::Tensor
 }
 btensor eye(const btensor::vec_list_t &shape_n, c10::TensorOptions opt)
 {
-	auto shape = btensor(shape_n, std::get<1>(shape_n[0][0]).neutral(), opt);
-	if (shape.dim() > 2)
+	if (shape_n.size() == 0 or shape_n.size() > 2)
 		throw std::invalid_argument("the input shape must be 1 or 2 dimensionnal");
+	if (shape_n[0].size() == 0)
+		throw std::invalid_argument("the dimensions of the input shape must have at least one section");
+	auto shape = btensor(shape_n, std::get<1>(shape_n[0][0]).neutral(), opt);
 	if (shape.dim() == 1)
 		shape = shape_from(shape, shape.conj());
 	return eye_like(shape);
-- 
2.43.0


From ae61fc0ce7eb11827b9f91488ba08c8bb5ba4651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 042/119] fix: block tensor made from a dense tensor had blocks
 of another type than announced, sharing the storage of the dense tensor

---
 sources/btensor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index cd61ba3..0cc240c 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2582,7 +2582,7 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 			                                2, {}, false, {}) > cutoff)
 			        .item()
 			        .toBool()) // only insert the block if it's a significative quantity.
-				out.block(index) = block;
+				out.block(index) = block.to(out.options(), false, true); // a copy: the blocks don't share their storage with values
 			// fmt::print("\tindex {}\n\tSlice {}\n\t block {}\n================\n",index,S,out.block(index));
 		}
 		out.block_increment(index);
@@ -2591,14 +2591,14 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 btensor from_basic_tensor(const btensor::vec_list_t &shape_spec, any_quantity selection_rul,
                           const torch::Tensor &values, const torch::Scalar cutoff, c10::TensorOptions opt)
 {
-	auto shape = quantit::sparse_zeros(shape_spec, selection_rul, opt);
+	auto shape = quantit::sparse_zeros(shape_spec, selection_rul, values.options().merge_in(opt));
 	from_basic_impl(shape, values, cutoff);
 	return shape;
 }
 btensor from_basic_tensor_like(const btensor &shape, const torch::Tensor &values, const torch::Scalar cutoff,
                                c10::TensorOptions opt)
 {
-	auto out = quantit::sparse_zeros_like(shape, opt);
+	auto out = quantit::sparse_zeros_like(shape, values.options().merge_in(opt));
 	from_basic_impl(out, values, cutoff);
 	return out;
 }
-- 
2.43.0


From 8b93b29e963b34fe32a28b0e1d1b8d647f7fa321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 043/119] fix: conversion of a block tensor without blocks lost
 the options that were not converted

---
 include/blockTensor/btensor.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index 6686698..241af4c 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -743,7 +743,7 @@ class btensor
 		    new_block_list_apply_to_all_blocks([&options, non_blocking, copy, memory_format](const auto &atensor)
 		                                       { return atensor.to(options, non_blocking, copy, memory_format); });
 		auto out = btensor(*this, std::move(out_list));
-		out._options = out.begin()!= out.end() ? out.begin()->second.options() : torch::empty({},options).options();
+		out._options = out.begin()!= out.end() ? out.begin()->second.options() : _options.merge_in(options);
 		return out;
 	}
 	btensor to(const btensor &other, bool non_blocking = false, bool copy = false,
@@ -759,7 +759,7 @@ class btensor
 		    [device, dtype, non_blocking, copy, memory_format](const auto &atensor)
 		    { return atensor.to(device, dtype, non_blocking, copy, memory_format); });
 		auto out = btensor(*this, std::move(out_list));
-		out._options = out.begin()!= out.end() ? out.begin()->second.options() : torch::empty({},torch::TensorOptions().device(device).dtype(dtype).memory_format(memory_format)).options();
+		out._options = out.begin()!= out.end() ? out.begin()->second.options() : _options.device(device).dtype(dtype);
 		return out;
 	}
 	btensor to(torch::ScalarType dtype, bool non_blocking = false, bool copy = false,
@@ -769,7 +769,7 @@ class btensor
 		    new_block_list_apply_to_all_blocks([dtype, non_blocking, copy, memory_format](const auto &atensor)
 		                                       { return atensor.to(dtype, non_blocking, copy, memory_format); });
 		auto out = btensor(*this, std::move(out_list));
-		out._options = out.begin()!= out.end() ? out.begin()->second.options() :torch::empty({},torch::TensorOptions().dtype(dtype).memory_format(memory_format)).options();
+		out._options = out.begin()!= out.end() ? out.begin()->second.options() :_options.dtype(dtype);
 		return out;
 	}
 	btensor to(caffe2::TypeMeta type_meta, bool non_blocking = false, bool copy = false,
@@ -779,7 +779,7 @@ class btensor
 		    new_block_list_apply_to_all_blocks([type_meta, non_blocking, copy, memory_format](const auto &atensor)
 		                                       { return atensor.to(type_meta, non_blocking, copy, memory_format); });
 		auto out = btensor(*this, std::move(out_list));
-		out._options = out.begin()!= out.end() ? out.begin()->second.options() : torch::empty({},torch::TensorOptions().dtype(torch::typeMetaToScalarType(type_meta)).memory_format(memory_format)).options();
+		out._options = out.begin()!= out.end() ? out.begin()->second.options() : _options.dtype(type_meta);
 		return out;
 	}
 	btensor to(const torch::Tensor &other, bool non_blocking = false, bool copy = false,
-- 
2.43.0


From d82cfd38f117447c55bb7e70cbf69e4d5af56dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:04 +0000
Subject: [PATCH 044/119] fix: search for the selection rule of a dense tensor
 read out of bounds for a shape of another size

---
 sources/btensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 0cc240c..471a8d0 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2656,6 +2656,8 @@ any_quantity find_selection_rule(const torch::Tensor &tens, const btensor &shape
 		throw std::invalid_argument("the input tensor must be rank 2");
 	if (shape.dim() != 2)
 		throw std::invalid_argument("the shape specifying btensor must be rank 2");
+	if (tens.sizes() != torch::IntArrayRef(shape.sizes()))
+		throw std::invalid_argument("the input tensor and the shape specifying btensor must have the same sizes");
 	auto state = torch::zeros(tens.sizes()[tens.dim() - 1], tens.options());
 	auto quantitiesi = [&shape](size_t element_pos, size_t dim) -> const vquantity &
 	{ // return type must be specified, because return by value isn't an option here.
-- 
2.43.0


From 5da9f083bf60a639069d695385a46f93c68a1062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:05 +0000
Subject: [PATCH 045/119] fix: shifting the conserved quantities of a dimension
 shifted the selection rule the wrong way, every block became forbidden

---
 include/blockTensor/btensor.h | 12 ++++++------
 sources/btensor.cpp           |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index 241af4c..5ded35c 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -676,16 +676,16 @@ class btensor
 	 */
 	btensor &inverse_cvals_();
 	/**
-	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
-	 * conservation rule.
+	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
+	 * selection rule, such that the same blocks are allowed.
 	 *
 	 * @param shift shift to apply
 	 * @param dim dimension to which the shift is applied
 	 */
 	btensor cval_shift(any_quantity_cref shift, int64_t dim) const;
 	/**
-	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
-	 * conservation rule.
+	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
+	 * selection rule, such that the same blocks are allowed.
 	 *
 	 * @param shift shift to apply
 	 * @param dim dimension to which the shift is applied
@@ -1465,8 +1465,8 @@ inline torch::Tensor inverse_cvals(torch::Tensor &&tens) { return std::move(tens
 inline btensor &inverse_cvals_(btensor &tens) { return tens.inverse_cvals_(); }
 inline torch::Tensor &inverse_cvals_(torch::Tensor &tens) { return tens; }
 /**
- * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
- * conservation rule.
+ * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
+ * selection rule, such that the same blocks are allowed.
  *
  * @param shift shift to apply
  * @param dim dimension to which the shift is applied
diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 471a8d0..7aa88fc 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2236,7 +2236,7 @@ btensor btensor::cval_shift(any_quantity_cref shift, int64_t dim) const
 btensor &btensor::cval_shift_(any_quantity_cref shift, int64_t dim)
 {
 	shift_impl(shift, dim);
-	selection_rule.value *= shift.inverse();
+	selection_rule.value *= shift;
 	return *this;
 }
 
-- 
2.43.0


From 9c096f2413bf8dafff416828a9d88e2b3069b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:05 +0000
Subject: [PATCH 046/119] fix: shifting the conserved quantities of a dimension
 by one of its own quantities gave wrong quantities

---
 sources/btensor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 7aa88fc..11d342f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2233,8 +2233,9 @@ btensor btensor::cval_shift(any_quantity_cref shift, int64_t dim) const
 	return out.cval_shift_(shift, dim);
 }
 
-btensor &btensor::cval_shift_(any_quantity_cref shift, int64_t dim)
+btensor &btensor::cval_shift_(any_quantity_cref shift_, int64_t dim)
 {
+	const any_quantity shift(shift_); // a copy: the shift can be one of the quantities of this tensor
 	shift_impl(shift, dim);
 	selection_rule.value *= shift;
 	return *this;
@@ -2244,7 +2245,7 @@ btensor &btensor::non_conserving_cval_shift_(any_quantity_cref shift, int64_t di
 {
 	if (blocks_list.size() != 0)
 		throw std::logic_error("This transformation can only be applied to empty btensors");
-	shift_impl(shift, dim);
+	shift_impl(any_quantity(shift), dim); // a copy: the shift can be one of the quantities of this tensor
 	return *this;
 }
 
-- 
2.43.0


From e4d95ee58432fb0222d529e1226f743e7cf9129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:05 +0000
Subject: [PATCH 047/119] fix: a block tensor accepted a selection rule of
 another kind than its conserved quantities

---
 sources/btensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 11d342f..7434bcb 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2260,6 +2260,8 @@ btensor &btensor::set_selection_rule_(any_quantity_cref value)
 {
 	if (blocks_list.size() != 0)
 		throw std::logic_error("This transformation can only be applied to empty btensors");
+	if (c_vals.size() != 0 and value.neutral() != c_vals.begin()->neutral())
+		throw std::invalid_argument("The selection rule must be of the same kind as the conserved quantities");
 	selection_rule.value = value;
 	return *this;
 }
-- 
2.43.0


From f7730583e8f3ca0a90319e6799204df7c4696fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 048/119] fix: validity check of a block tensor read out of
 bounds when a block index is invalid or the structure is incoherent

---
 sources/btensor.cpp | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 7434bcb..05ead62 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -56,19 +56,20 @@ auto promote_types(caffe2::TypeMeta a, caffe2::TypeMeta b)
 	return at::promote_types(at::typeMetaToScalarType(a), at::typeMetaToScalarType(b));
 }
 
-void throw_on_bad_arg_blocks(size_t index, size_t block, size_t rank, size_t section_size)
+void throw_on_bad_arg_blocks(size_t index, size_t block, const btensor::index_list &sections_by_dim)
 {
-	if (index >= rank)
-		throw std::invalid_argument(fmt::format("given index {} is too large for rank {}.", index, rank));
-	if (block >= section_size)
-		std::invalid_argument(fmt::format("there are only {} blocks along the dimension {}. block requested {}",
-		                                  section_size, index, block));
+	if (index >= sections_by_dim.size())
+		throw std::invalid_argument(
+		    fmt::format("given index {} is too large for rank {}.", index, sections_by_dim.size()));
+	if (block >= sections_by_dim[index])
+		throw std::invalid_argument(fmt::format("there are only {} blocks along the dimension {}. block requested {}",
+		                                        sections_by_dim[index], index, block));
 }
 
 size_t btensor::section_size(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, sections_by_dim);
 	assert(index < sections_by_dim.size());
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
@@ -78,7 +79,7 @@ size_t btensor::section_size(size_t index, size_t block) const
 any_quantity_cref btensor::section_conserved_qtt(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, sections_by_dim);
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
 	return c_vals[ori + block];
@@ -125,7 +126,7 @@ std::tuple<any_quantity_vector::iterator, any_quantity_vector::iterator> btensor
 std::tuple<size_t, any_quantity_cref> btensor::section_size_cqtt(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, sections_by_dim);
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
 	return std::tuple<size_t, any_quantity_cref>(sections_sizes[ori + block], any_quantity_cref(c_vals[ori + block]));
@@ -418,6 +419,11 @@ std::string btensor::check_tensor(const btensor &T)
 		M += fmt::format(
 		    "number of section accross all dimension ({}) incoherent with number of specified section sizes ({})\n",
 		    total_sections, T.sections_sizes.size());
+	if (T.c_vals.size() != T.sections_sizes.size())
+		M += fmt::format("number of conserved quantities ({}) incoherent with the number of section sizes ({})\n",
+		                 T.c_vals.size(), T.sections_sizes.size());
+	if (M != "")
+		return M; // the blocks can't be compared with an incoherent structure
 
 	for (const auto &a : T.blocks_list)
 	{
@@ -427,12 +433,21 @@ std::string btensor::check_tensor(const btensor &T)
 		any_quantity sel_test = T.selection_rule.value.neutral();
 		{
 			std::string cq = "";
-			for (auto i = 0U; i < ind.size(); ++i)
+			bool in_range = ind.size() == T.sections_by_dim.size();
+			for (auto i = 0U; i < ind.size() and in_range; ++i)
 			{
-				if (!(ind[i] < T.sections_by_dim[i]))
+				if (ind[i] < 0 or ind[i] >= T.sections_by_dim[i])
+				{
 					M += fmt::format(
-					    "block index {} {}th element is greater than the number of section along that dimension ({})\n",
+					    "block index {} {}th element is out of the range of the section along that dimension ({})\n",
 					    ind, i, T.sections_by_dim[i]);
+					in_range = false;
+				}
+			}
+			if (!in_range)
+				continue; // there are no quantity nor size to compare with
+			for (auto i = 0U; i < ind.size(); ++i)
+			{
 				const auto &qt = T.section_conserved_qtt(i, ind[i]);
 				sel_test += qt;
 				cq += fmt::format("index {}: ", i) + fmt::format("{}\n", qt);
-- 
2.43.0


From cd63c23cb52ac41769df87eb40562155e3ca6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 049/119] fix: access to a block at an index of the wrong rank
 or out of range read out of bounds

---
 sources/btensor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 05ead62..92e56ca 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -387,7 +387,12 @@ torch::Tensor &btensor::block(const index_list &block_index) // create the block
                                                              // freestanding sparrse tensor of zeros.
 {
 	if (block_index.size() != rank)
-		std::invalid_argument(fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+		throw std::invalid_argument(
+		    fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+	for (size_t i = 0; i < rank; ++i)
+		if (block_index[i] < 0 or block_index[i] >= sections_by_dim[i])
+			throw std::invalid_argument(fmt::format("block index {} is out of range along dimension {}, it has {} sections",
+			                                        block_index, i, sections_by_dim[i]));
 	if (!block_conservation_rule_test(block_index))
 	{
 		auto message = fmt::format("block index {} not allowed by selection rule. {} != {}", block_index,
-- 
2.43.0


From 0bd98f832d681dab8ae9e6b04724804e484d83ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:11 +0000
Subject: [PATCH 050/119] fix: the copy of a view of the sizes or quantities of
 a block referred to the index of the original view

---
 include/blockTensor/btensor.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index 5ded35c..a1bea8a 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -1188,25 +1188,28 @@ struct btensor::block_prop_view : boost::stl_interfaces::view_interface<block_pr
 	block_prop_view(typename iterator::ValueIterator val_first, typename iterator::ValueIterator val_last,
 	                index_list::const_iterator section_by_dim_begin, index_list::const_iterator section_by_dim_end,
 	                index_list _block_index)
-	    : block_index(std::move(_block_index)), first(val_first, section_by_dim_begin, block_index.begin()),
-	      last(val_last, section_by_dim_end, block_index.end())
+	    : block_index(std::move(_block_index)), value_first(val_first), value_last(val_last),
+	      section_first(section_by_dim_begin), section_last(section_by_dim_end)
 	{
 	}
 	block_prop_view(typename iterator::ValueIterator val_first, typename iterator::ValueIterator val_last,
 	                const index_list &section_by_dim, index_list _block_index)
-	    : block_index(std::move(_block_index)), first(val_first, section_by_dim.begin(), block_index.begin()),
-	      last(val_last, section_by_dim.end(), block_index.end())
+	    : block_index(std::move(_block_index)), value_first(val_first), value_last(val_last),
+	      section_first(section_by_dim.begin()), section_last(section_by_dim.end())
 	{
 	}
-	auto begin() const { return first; }
-	auto end() const { return last; }
+	// the iterators refer to the index held by this view, they can't be kept through a copy of the view.
+	auto begin() const { return iterator(value_first, section_first, block_index.begin()); }
+	auto end() const { return iterator(value_last, section_last, block_index.end()); }
 
 	const index_list &get_index() const { return block_index; }
 
   private:
 	btensor::index_list block_index;
-	iterator first;
-	iterator last;
+	typename iterator::ValueIterator value_first;
+	typename iterator::ValueIterator value_last;
+	index_list::const_iterator section_first;
+	index_list::const_iterator section_last;
 };
 template <class const_iterator, class iterator>
 struct btensor::const_block_prop_view : btensor::block_prop_view<const_iterator>
-- 
2.43.0


From e5be2f2bc413095d4bcd8751563f29bbc987d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:11 +0000
Subject: [PATCH 051/119] fix: contraction of a tensor of rank 0 over dimension
 0 or -1 read out of bounds

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 92e56ca..972e25d 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -907,7 +907,7 @@ std::tuple<std::vector<int64_t>, std::vector<int64_t>, std::vector<int64_t>> com
 	{
 		std::vector<int64_t> out(dims.begin(), dims.end());
 		for (auto &dim : out)
-			dim = at::maybe_wrap_dim(dim, rank);
+			dim = at::maybe_wrap_dim(dim, rank, false);
 		return out;
 	};
 	const auto dims1 = wrap_dims(in_dims1, input1.dim());
-- 
2.43.0


From e96355b1e3e46e075c241d6384a2add37fc986c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 052/119] fix: adding or subtracting a temporary view scaled
 the blocks of the tensor it is a view of

---
 sources/btensor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 972e25d..eff416b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2791,7 +2791,9 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 	    // no collision
 	    [&alpha, dtype](torch::Tensor &x)
 	    {
-		    if (get_refcount(x) > 2 or x.dtype() != dtype) // greater than 2 because we've just made a temp copy for this algorithm
+		    // greater than 2 because we've just made a temp copy for this algorithm. A view has its own reference count
+		    // but shares its storage.
+		    if (get_refcount(x) > 2 or x.storage().use_count() > 1 or x.dtype() != dtype)
 		    {
 			    x = x.mul(alpha).to(dtype);
 		    }
@@ -2832,7 +2834,9 @@ btensor &btensor::add_(btensor &&other, Scalar alpha)
 	    b_blocks, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
 	    [&alpha](torch::Tensor &x)
 	    {
-		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
+		    // greater than 2 because we've just made a temp copy for this algorithm. A view has its own reference count
+		    // but shares its storage.
+		    if (get_refcount(x) > 2 or x.storage().use_count() > 1)
 		    {
 			    x = x.mul(alpha);
 		    }
-- 
2.43.0


From a1a00be3673b61bd61a9b41b4354f54597342dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 053/119] fix: decompositions of block tensors converted the
 elements to the default type, complex ones lost their imaginary part

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 1dd5886..27b0354 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -131,7 +131,7 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 			row_acc = slice_end;
 		}
 	}
-	auto out_tensor = torch::zeros(tensor_size);
+	auto out_tensor = torch::zeros(tensor_size, start->second.options());
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
 	{
-- 
2.43.0


From ae611b0eb945bb8de717a68a5dec7e1b40363cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 054/119] fix: factors of the decomposition of a block tensor
 announced the default element type instead of that of their blocks

---
 sources/btensor_linalg.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 27b0354..1504171 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -319,8 +319,10 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	}
 	std::vector<int64_t> d_shape(tensor.dim(), -1);
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
-	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
+	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
+	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                     tensor.options());
 	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
@@ -428,8 +430,10 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	}
 	std::vector<int64_t> d_shape(tensor.dim(), -1);
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
-	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
+	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
+	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                     tensor.options());
 	// small d is just the diagonnal of D, the diagonal matrix of singular values.
 	//  because it is a vector, the correct operation to multiply it with the other matrices is a broadcasting
 	//  elementwise multiplication. This operation must multiply together the conserved value. We adopt a convention
-- 
2.43.0


From aa5be4fe476ab41cd1828ce7cb0d8bfe0621d2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 055/119] fix: singular values and eigenvalues of complex block
 tensors were announced as complex, truncation refused them

---
 sources/btensor_linalg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 1504171..281abbb 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -324,6 +324,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
 	                     tensor.options());
 	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	d = d.to(c10::toValueType(torch::typeMetaToScalarType(tensor.options().dtype()))); // the values are always real
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
@@ -440,6 +441,7 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	//  where D always has the neutral selection rule therefor, all the conserved quantities of d must be the neutral
 	//  element.
 	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	d = d.to(c10::toValueType(torch::typeMetaToScalarType(tensor.options().dtype()))); // the values are always real
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-- 
2.43.0


From 93301de3563c621fba5ae41cdb348f22497ca20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 056/119] fix: full singular value decomposition of a block
 tensor had blocks that don't fit the factors

---
 sources/btensor_linalg.cpp | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 281abbb..0eee90f 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -403,9 +403,13 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	any_quantity_vector right_D_cvals(d_blocks, tensor.selection_rule->neutral());
 	any_quantity_vector left_D_cvals(d_blocks, tensor.selection_rule->neutral());
 	std::vector<int64_t> D_block_sizes(tensors_n_indices.size());
+	std::vector<int64_t> U_bond_sizes(tensors_n_indices.size()); // larger than the number of singular values when
+	std::vector<int64_t> V_bond_sizes(tensors_n_indices.size()); // the full svd is asked for.
 	auto D_rcval_it = right_D_cvals.begin();
 	auto D_lcval_it = left_D_cvals.begin();
 	auto D_bsize_it = D_block_sizes.begin();
+	auto U_bsize_it = U_bond_sizes.begin();
+	auto V_bsize_it = V_bond_sizes.begin();
 	size_t U_blocks = 0;
 	size_t V_blocks = 0;
 	// compute the room needed in the output structure.
@@ -415,38 +419,35 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 		*D_lcval_it = D_rcval_it->inverse();
 		U_blocks += rows.size();
 		V_blocks += cols.size();
-		if (some)
-		{
-			*D_bsize_it =
-			    std::min(basictensor.sizes()[basictensor.dim() - 1], basictensor.sizes()[basictensor.dim() - 2]);
-		}
-		else
-		{
-			*D_bsize_it =
-			    std::max(basictensor.sizes()[basictensor.dim() - 1], basictensor.sizes()[basictensor.dim() - 2]);
-		}
+		const auto row_size = basictensor.sizes()[basictensor.dim() - 2];
+		const auto col_size = basictensor.sizes()[basictensor.dim() - 1];
+		*D_bsize_it = std::min(row_size, col_size);
+		*U_bsize_it = some ? *D_bsize_it : row_size;
+		*V_bsize_it = some ? *D_bsize_it : col_size;
 		++D_rcval_it;
 		++D_lcval_it;
 		++D_bsize_it;
+		++U_bsize_it;
+		++V_bsize_it;
 	}
 	std::vector<int64_t> d_shape(tensor.dim(), -1);
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
-	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
-	                    tensor.options());
-	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
-	                     tensor.options());
+	auto bond_shape = [&](const any_quantity_vector &cvals, const std::vector<int64_t> &sizes)
+	{
+		return btensor({static_cast<long>(d_blocks)}, cvals, sizes, tensor.selection_rule->neutral(), tensor.options());
+	};
 	// small d is just the diagonnal of D, the diagonal matrix of singular values.
 	//  because it is a vector, the correct operation to multiply it with the other matrices is a broadcasting
 	//  elementwise multiplication. This operation must multiply together the conserved value. We adopt a convention
 	//  where D always has the neutral selection rule therefor, all the conserved quantities of d must be the neutral
 	//  element.
-	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	auto d = shape_from(tensor.shape_from(d_shape), bond_shape(right_D_cvals, D_block_sizes)).neutral_shape_();
 	d = d.to(c10::toValueType(torch::typeMetaToScalarType(tensor.options().dtype()))); // the values are always real
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
-	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
+	btensor U = shape_from(tensor.shape_from(to_U_shape), bond_shape(right_D_cvals, U_bond_sizes))
+	                .set_selection_rule_(tensor.selection_rule);
 	std::vector<int64_t> to_V_others(tensor.dim(), -1);
 	*(to_V_others.end() - 2) = to_V_others.back() = 0;
 	std::vector<int64_t> to_V_left(tensor.dim(), 0);
@@ -455,7 +456,8 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	// as well in sucha a situation Any decomposition of the conserved quantities of the input tensor on those would do,
 	// we choose the simplest, the input on U
 	//  and all neutral element on d and V.
-	btensor V = shape_from(tensor.shape_from(to_V_others).neutral_shape_(), tensor.shape_from(to_V_left), leftD_shape);
+	btensor V = shape_from(tensor.shape_from(to_V_others).neutral_shape_(), tensor.shape_from(to_V_left),
+	                       bond_shape(left_D_cvals, V_bond_sizes));
 	V.set_selection_rule_(V.selection_rule->neutral());
 	// fmt::print("V: \n {}\n",V);
 	// preallocate the blocks, with index, so that the SVD calls can be parallelized.
-- 
2.43.0


From 07f0b28ab96f95511391710034cb5226467e338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 057/119] fix: singular value decomposition without vectors
 stored blocks of zeros that don't fit in U and V

---
 sources/btensor_linalg.cpp | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 0eee90f..ca8d032 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -470,15 +470,18 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	{ // The two inner loops are independent from one another. Their respective steps are also independent if the
 	  // btensor's block_list already has a block there.
 		auto extra_block_slice = std::make_tuple(b_i, torch::indexing::Slice());
-		for (auto &row : rows)
-		{
-			auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, row, extra_block_slice);
-			U.block(block_ind) = torch::Tensor();
-		}
-		for (auto &col : cols)
+		if (compute_uv) // U and V are left empty otherwise
 		{
-			auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, col, extra_block_slice);
-			V.block(block_ind) = torch::Tensor();
+			for (auto &row : rows)
+			{
+				auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, row, extra_block_slice);
+				U.block(block_ind) = torch::Tensor();
+			}
+			for (auto &col : cols)
+			{
+				auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, col, extra_block_slice);
+				V.block(block_ind) = torch::Tensor();
+			}
 		}
 		auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, extra_block_slice, extra_block_slice);
 		d.block(btensor::index_list(block_ind.begin(), block_ind.end() - 1)) = torch::Tensor();
@@ -490,15 +493,18 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 		// fmt::print("======basictensor=======\n {}\n\n", basictensor );
 		auto [bU, bD, bV] = torch::svd(basictensor, some, compute_uv);
 		auto extra_block_slice = std::make_tuple(b_i, torch::indexing::Slice());
-		for (auto &row : rows)
-		{
-			auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, row, extra_block_slice);
-			U.block(block_ind) = bU.index(slice);
-		}
-		for (auto &col : cols)
+		if (compute_uv)
 		{
-			auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, col, extra_block_slice);
-			V.block(block_ind) = bV.index(slice);
+			for (auto &row : rows)
+			{
+				auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, row, extra_block_slice);
+				U.block(block_ind) = bU.index(slice);
+			}
+			for (auto &col : cols)
+			{
+				auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, col, extra_block_slice);
+				V.block(block_ind) = bV.index(slice);
+			}
 		}
 		auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, extra_block_slice, extra_block_slice);
 		d.block(btensor::index_list(block_ind.begin(), block_ind.end() - 1)) = bD;
-- 
2.43.0


From 9610c8755abaa4ad301ac11ea839b2e3c88f7fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 058/119] fix: decomposition of a block tensor without blocks
 read out of bounds or failed with bad_cast

---
 sources/btensor_linalg.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index ca8d032..e282e6f 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -232,7 +232,7 @@ compact_dense(const btensor &tensor)
 	out_type out_tensors(compact_tensor_count(block_list, rank_greater_than_2, rank, equal_index, equal_c_vals));
 	// create the list of <tensorIndex, bloc_position> pairs for all the sections involved.
 	auto it1 = block_list.begin();
-	auto it2 = block_list.begin() + 1;
+	auto it2 = block_list.begin() + (it1 != block_list.end());
 	auto out_it = out_tensors.begin();
 	auto block_list_l = std::distance(it1, block_list.end());
 	auto out_l = std::distance(out_it, out_tensors.end());
@@ -300,9 +300,10 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	// compute the size and conserved values of the diagonnal matrix, most likely to be the same code for the eigenvalue
 	// problem.
 	auto d_blocks = tensors_n_indices.size();
-	any_quantity_vector right_D_cvals(d_blocks, tensor.selection_rule->neutral());
-	any_quantity_vector left_D_cvals(d_blocks, tensor.selection_rule->neutral());
-	std::vector<int64_t> D_block_sizes(tensors_n_indices.size());
+	const auto bond_sections = std::max<size_t>(d_blocks, 1); // a tensor without blocks gets a single, empty, section
+	any_quantity_vector right_D_cvals(bond_sections, tensor.selection_rule->neutral());
+	any_quantity_vector left_D_cvals(bond_sections, tensor.selection_rule->neutral());
+	std::vector<int64_t> D_block_sizes(bond_sections);
 	auto D_rcval_it = right_D_cvals.begin();
 	auto D_lcval_it = left_D_cvals.begin();
 	auto D_bsize_it = D_block_sizes.begin();
@@ -319,9 +320,9 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	}
 	std::vector<int64_t> d_shape(tensor.dim(), -1);
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
-	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	btensor leftD_shape({static_cast<long>(bond_sections)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
 	                    tensor.options());
-	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	btensor rightD_shape({static_cast<long>(bond_sections)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
 	                     tensor.options());
 	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
 	d = d.to(c10::toValueType(torch::typeMetaToScalarType(tensor.options().dtype()))); // the values are always real
@@ -400,11 +401,12 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	// compute the size and conserved values of the diagonnal matrix, most likely to be the same code for the eigenvalue
 	// problem.
 	auto d_blocks = tensors_n_indices.size();
-	any_quantity_vector right_D_cvals(d_blocks, tensor.selection_rule->neutral());
-	any_quantity_vector left_D_cvals(d_blocks, tensor.selection_rule->neutral());
-	std::vector<int64_t> D_block_sizes(tensors_n_indices.size());
-	std::vector<int64_t> U_bond_sizes(tensors_n_indices.size()); // larger than the number of singular values when
-	std::vector<int64_t> V_bond_sizes(tensors_n_indices.size()); // the full svd is asked for.
+	const auto bond_sections = std::max<size_t>(d_blocks, 1); // a tensor without blocks gets a single, empty, section
+	any_quantity_vector right_D_cvals(bond_sections, tensor.selection_rule->neutral());
+	any_quantity_vector left_D_cvals(bond_sections, tensor.selection_rule->neutral());
+	std::vector<int64_t> D_block_sizes(bond_sections);
+	std::vector<int64_t> U_bond_sizes(bond_sections); // larger than the number of singular values when
+	std::vector<int64_t> V_bond_sizes(bond_sections); // the full svd is asked for.
 	auto D_rcval_it = right_D_cvals.begin();
 	auto D_lcval_it = left_D_cvals.begin();
 	auto D_bsize_it = D_block_sizes.begin();
@@ -434,7 +436,7 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
 	auto bond_shape = [&](const any_quantity_vector &cvals, const std::vector<int64_t> &sizes)
 	{
-		return btensor({static_cast<long>(d_blocks)}, cvals, sizes, tensor.selection_rule->neutral(), tensor.options());
+		return btensor({static_cast<long>(bond_sections)}, cvals, sizes, tensor.selection_rule->neutral(), tensor.options());
 	};
 	// small d is just the diagonnal of D, the diagonal matrix of singular values.
 	//  because it is a vector, the correct operation to multiply it with the other matrices is a broadcasting
-- 
2.43.0


From 530870773c18a74c42d02e6f29fedb2d11829a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 059/119] fix: eigenvalue decomposition of block tensors mixed
 up the columns when sections of a sector lack blocks, and accepted matrices
 that have no such decomposition

---
 sources/btensor_linalg.cpp | 62 +++++++++++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 5 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index e282e6f..3579028 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -117,10 +117,8 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 		                            [](const auto &a, const auto &b) { return std::get<0>(a) < b; });
 		if (pos == encountered_block_col.end() or std::get<0>(*pos) != col)
 		{
-			auto slice_end = col_acc + it->second.sizes()[rank - 1];
-			encountered_block_col.emplace(pos, col, torch::indexing::Slice(col_acc, slice_end));
-			col_size += it->second.sizes()[rank - 1];
-			col_acc = slice_end;
+			// the slice's position depends on the column sections yet to be encountered, only the size is known for now.
+			encountered_block_col.emplace(pos, col, torch::indexing::Slice(0, it->second.sizes()[rank - 1]));
 		}
 		if (cur_row != it->first[rank - 2])
 		{
@@ -131,6 +129,14 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 			row_acc = slice_end;
 		}
 	}
+	// The columns are laid out in the order of their sections, like the rows are.
+	for (auto &[col, slice] : encountered_block_col)
+	{
+		auto slice_end = col_acc + slice.stop();
+		slice = torch::indexing::Slice(col_acc, slice_end);
+		col_acc = slice_end;
+	}
+	col_size = col_acc;
 	auto out_tensor = torch::zeros(tensor_size, start->second.options());
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
@@ -286,6 +292,52 @@ void reverse_compact_dense(torch::Tensor &tensor, btensor &out, btensor::index_l
 	}
 }
 
+/**
+ * @brief prepare the matrices of a tensor for the eigenvalue decomposition.
+ *
+ * Every section with a stored block on its row or its column gets a block on the diagonal, so that the compact matrices
+ * have the same sections in the same order along their rows and columns.
+ *
+ * throws if the blocks don't form square matrices that map each sector of conserved value to itself.
+ */
+btensor with_diagonal_blocks(const btensor &tensor)
+{
+	const auto rank = tensor.dim();
+	if (rank < 2)
+		throw std::invalid_argument("The eigenvalue problem is only defined for matrices.");
+	auto [row_beg, row_end] = tensor.section_sizes(rank - 2);
+	auto [col_beg, col_end] = tensor.section_sizes(rank - 1);
+	if (not std::equal(row_beg, row_end, col_beg, col_end))
+		throw std::invalid_argument("The eigenvalue problem is undefined for rectangular matrices. Either you've input "
+		                            "the wrong split, or you need svd");
+	for (size_t i = 0; i < tensor.section_number(rank - 1); ++i)
+	{
+		if (tensor.section_conserved_qtt(rank - 2, i) != tensor.section_conserved_qtt(rank - 1, i).inverse())
+			throw std::invalid_argument("The eigenvalue problem is only defined when the conserved values of the "
+			                            "columns are the inverse of those of the rows.");
+	}
+	auto out = tensor;
+	for (auto &[index, block] : tensor)
+	{
+		if (tensor.section_conserved_qtt(rank - 2, index[rank - 2]) !=
+		    tensor.section_conserved_qtt(rank - 1, index[rank - 1]).inverse())
+			throw std::invalid_argument("The eigenvalue problem is undefined for a selection rule that connects "
+			                            "different sectors of conserved values.");
+		for (auto section : {index[rank - 2], index[rank - 1]})
+		{
+			auto diagonal = index;
+			diagonal[rank - 2] = diagonal[rank - 1] = section;
+			if (out.blocks().find(diagonal) == out.blocks().end())
+			{
+				auto sizes = block.sizes().vec();
+				sizes[rank - 2] = sizes[rank - 1] = *(row_beg + section);
+				out.block(diagonal) = torch::zeros(sizes, block.options());
+			}
+		}
+	}
+	return out;
+}
+
 } // namespace LA_helpers
 using namespace LA_helpers;
 
@@ -296,7 +348,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	// extract independant btensors
 	std::vector<std::tuple<torch::Tensor, btensor::index_list, std::vector<std::tuple<int, torch::indexing::Slice>>,
 	                       std::vector<std::tuple<int, torch::indexing::Slice>>>>
-	    tensors_n_indices = LA_helpers::compact_dense(tensor);
+	    tensors_n_indices = LA_helpers::compact_dense(LA_helpers::with_diagonal_blocks(tensor));
 	// compute the size and conserved values of the diagonnal matrix, most likely to be the same code for the eigenvalue
 	// problem.
 	auto d_blocks = tensors_n_indices.size();
-- 
2.43.0


From 8063d139ac50d6ecc6553cd19f061ee1d05a039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 060/119] fix: selection rule of the eigenvectors of a block
 tensor

---
 sources/btensor_linalg.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 3579028..a1baaac 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -381,9 +381,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape)
-	                           .shift_selection_rule_(tensor.section_conserved_qtt(tensor.dim() - 1, 0).inverse()),
-	                       rightD_shape);
+	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	// fmt::print("V: \n {}\n",V);
 	int b_i = 0;
-- 
2.43.0


From d4d30df5572ecc1cd08c4dab67735a7f620733f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 061/119] fix: eigenvalue decomposition of a block tensor with
 a split called itself without end

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index a1baaac..d064e6f 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -425,7 +425,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, size_t split)
 	// reshape according to split
 	auto rtensor = tensor.reshape({static_cast<int64_t>(split)});
 	// call batched SVD
-	auto [d, rU] = eigh(rtensor, true); // we want the eigenvectors.
+	auto [d, rU] = eigh(rtensor, BOOL(true)); // the bare bool is closer to the overload with a split, this one, than to BOOL
 	// undo reshape
 	std::vector<int64_t> U_shape(tensor.dim(), -1);
 	{
-- 
2.43.0


From ce4e5fb63bc36731a36cf6dab033becd38f64a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 062/119] fix: number of values kept by a truncation was
 computed in single precision, and ran past the first value when no minimum is
 asked for

---
 sources/LinearAlgebra.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 6bafc72..68e8534 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -11,6 +11,7 @@
  * Licensed under GPL v3
  */
 
+#include <cmath>
 #include <exception>
 #include <limits>
 #include "LinearAlgebra.h"
@@ -61,15 +62,17 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
 	// not trying to optimize based on underlying type of the tensors. might be necessary, but will require significant efforts.
 	using namespace torch::indexing;
 	auto Last_dim_size = d.sizes()[d.sizes().size()-1];
-	auto toln = torch::pow(torch::ones({})*tol,pow);
+	// in double precision whatever the default type is: the square of a small tolerance vanishes in single precision.
+	const double toln = std::pow(tol.toDouble(),pow.toDouble());
+	auto weight = d.abs().to(torch::kDouble).pow(pow);
 	int64_t last_index = Last_dim_size-1;
-	auto trunc_val = d.index({Ellipsis,last_index}).abs().pow(pow);// will have to test to make sure we're not doing the abs and pow in place in d
-	while (last_index >= min_size)
+	auto trunc_val = torch::zeros_like(weight.sum(-1));
+	while (last_index >= 0 and static_cast<size_t>(last_index) >= min_size)
 	{
-		if (  (  trunc_val > toln).any().item().to<bool>() and last_index < max_size)
+		trunc_val += weight.index({Ellipsis,last_index});
+		if (  (  trunc_val > toln).any().item().to<bool>() and static_cast<size_t>(last_index) < max_size)
 			break;
 		--last_index;
-		trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again, abs and pow must not be in place...
 	}
 	return last_index;
 }
-- 
2.43.0


From 2d055257fc1f52f6d15fa0c062f4bf2fc498c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 063/119] fix: compute_first_index_ascending ignored the
 tolerance unless the maximum size is binding, and could run past the last
 value

---
 sources/LinearAlgebra.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 68e8534..2577043 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -32,15 +32,15 @@ int64_t compute_first_index_ascending(torch::Tensor d, torch::Scalar tol, torch:
 	auto Last_dim_size = d.sizes()[d.sizes().size() - 1];
 	// auto last_index = Last_dim_size-1;
 	int64_t first_index = 0;
-	auto trunc_val = d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
-	auto min_index = Last_dim_size - min_size;
-	auto max_index = Last_dim_size - max_size;
-	while (first_index <= min_index)
+	const double toln = std::pow(tol.toDouble(), pow.toDouble());
+	auto weight = d.abs().to(torch::kDouble).pow(pow);
+	auto trunc_val = torch::zeros_like(weight.sum(-1));
+	while (first_index < Last_dim_size and static_cast<size_t>(Last_dim_size - first_index) > min_size)
 	{
-		if (  (trunc_val > tol).any().item().to<bool>() and first_index >= max_index)
+		trunc_val += weight.index({Ellipsis, first_index});
+		if (  (trunc_val > toln).any().item().to<bool>() and static_cast<size_t>(Last_dim_size - first_index) <= max_size)
 			break;
 		++first_index;
-		trunc_val += d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
 	}
 	return first_index;
 }
-- 
2.43.0


From 6321c88dbea03f2b145093fec9d935d3d8ebb903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 064/119] fix: truncate of a tuple of tensors was declared and
 never defined

---
 include/LinearAlgebra.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/LinearAlgebra.h b/include/LinearAlgebra.h
index 0cb4cee..c28768a 100644
--- a/include/LinearAlgebra.h
+++ b/include/LinearAlgebra.h
@@ -68,7 +68,7 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
  * Output is in the same order as input
  */
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor d, torch::Tensor v, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
-std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
+std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
 
 /**
  * truncate the input tensors according to the small values of e.
@@ -92,7 +92,7 @@ std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e
  * @param pow power in the computation of the truncation error
  * @return std::tuple<torch::Tensor,torch::Tensor> 
  */
-std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
+std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
 
 /**
  * perform the singular value decomposition of the rank N tensor A. 
-- 
2.43.0


From ec60f05162817e6925863362e52b128eb98ed49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 065/119] fix: truncation of eigenvalue decompositions took the
 eigenvectors for the values and dropped the largest ones

---
 sources/LinearAlgebra.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 2577043..08932d0 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -89,8 +89,8 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,t
 
 std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size, size_t max_size, torch::Scalar pow)
 {	
-	auto& [d,u] = tensors;
-	return truncate(u,d,tol,min_size,max_size,pow);
+	auto& [u,e] = tensors;
+	return truncate(u,e,tol,min_size,max_size,pow);
 }
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {	
@@ -98,7 +98,7 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch:
 	return truncate(u,d,v,tol,min_size,max_size,pow);
 }
 
-std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor e,torch::Tensor u, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
+std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
 	using namespace torch::indexing;
 	auto last_index = compute_last_index(e,tol,pow,min_size,max_size);
@@ -159,7 +159,10 @@ std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch
 
 std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
-	return truncate(quantit::eigh(A,split),tol,min_size,max_size,pow);
+	auto [e,u] = quantit::eigh(A,split);
+	auto order = e.abs().argsort(-1,true); // eigh gives the values in ascending order, the smallest must come last.
+	std::tie(u,e) = truncate(u.index_select(-1,order),e.index_select(-1,order),tol,min_size,max_size,pow);
+	return std::make_tuple(e,u);
 }
 
 std::tuple<torch::Tensor,torch::Tensor> eig(torch::Tensor A, size_t split)
-- 
2.43.0


From 25d95ce3d17679ac1f54042df047b4ede893a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 066/119] fix: truncation of the eigenvalue decomposition of a
 block tensor dropped the eigenvectors

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index d064e6f..225be9b 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -853,7 +853,7 @@ std::tuple<btensor, btensor> truncate(std::tuple<btensor, btensor> &&e_S, size_t
                                       btensor::Scalar pow)
 {
 	auto [d, unit] =
-	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<0>(e_S))), max, min, tol, pow);
+	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<1>(e_S))), max, min, tol, pow);
 	return std::make_tuple(std::move(d), std::move(std::get<0>(unit)));
 }
 std::tuple<btensor, btensor, btensor> truncate(btensor &&U, btensor &&e, btensor &&S, size_t max, size_t min,
-- 
2.43.0


From 6997e3d987e6bb45b0fdd8b8b256d1dea28e50ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 067/119] fix: truncation of the eigenvalue decomposition of a
 block tensor ignored the order and the sign of the eigenvalues

---
 sources/btensor_linalg.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 225be9b..0077aed 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -736,7 +736,7 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	{
 		auto &tens = std::get<1>(block);
 		auto l = tens.sizes()[0];
-		vd.index_put_({torch::indexing::Slice(n, n + l)}, tens); // bug here.
+		vd.index_put_({torch::indexing::Slice(n, n + l)}, tens.abs().to(vd.options()));
 		n += l;
 	}
 	// quantit::print(vd);
@@ -794,7 +794,8 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		using namespace torch::indexing;
 		// fmt::print("last_index! {}\n\n", db > smallest_value);
 		// fmt::print("last_index other order because of implicit casts!! {}\n\n",  smallest_value < db);
-		auto last_index = lower_bound(db, smallest_value.item());
+		auto magnitude = db.abs();
+		auto last_index = lower_bound(magnitude, smallest_value.item());
 		if (last_index == 0)
 		{ // remove the whole block...
 			// i think, out of laziness and lack of advantages to the converse, i will only erase the blocks without
@@ -852,6 +853,17 @@ std::tuple<btensor, btensor, btensor> truncate(std::tuple<btensor, btensor, bten
 std::tuple<btensor, btensor> truncate(std::tuple<btensor, btensor> &&e_S, size_t max, size_t min, btensor::Scalar tol,
                                       btensor::Scalar pow)
 {
+	// The eigenvalues are in ascending order and can be negative, the smallest in magnitude must come last.
+	for (auto &[e_ind, eb] : std::get<0>(e_S))
+	{
+		auto order = eb.abs().argsort(-1, true);
+		eb = eb.index_select(-1, order);
+		for (auto &[S_ind, Sb] : std::get<1>(e_S))
+		{
+			if (S_ind.back() == e_ind.back())
+				Sb = Sb.index_select(-1, order);
+		}
+	}
 	auto [d, unit] =
 	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<1>(e_S))), max, min, tol, pow);
 	return std::make_tuple(std::move(d), std::move(std::get<0>(unit)));
-- 
2.43.0


From 5f329fb42e1dee03447be91da636411741e7119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 068/119] fix: truncation left blocks of discarded singular
 vectors in the factors when a sector has several of them

---
 sources/btensor_linalg.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 0077aed..67a5d60 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -754,23 +754,14 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	to_remove.reserve(std::distance(d.begin(), d.end()));
 	auto remove_unit_blocks = [](btensor &unitary, const auto &d_ind)
 	{
-		auto U_src = unitary.begin();
-		auto U_dest = unitary.begin();
-		while (U_dest != unitary.end())
+		auto U_it = unitary.begin();
+		while (U_it != unitary.end())
 		{
-			auto &src_ind = std::get<0>(*U_src);
-			auto &dest_ind = std::get<0>(*U_dest);
-			U_dest += (dest_ind.back() == d_ind.back());
-			if (U_dest != U_src and U_dest != unitary.end())
-			{
-				swap(*U_dest, *U_src);
-			}
-			U_dest += U_dest != unitary.end(); // stop incrementing if we reached the end
-			++U_src;
+			if (std::get<0>(*U_it).back() == d_ind.back())
+				U_it = unitary.blocks_list.erase(U_it);
+			else
+				++U_it;
 		}
-		unitary.blocks_list.resize(
-		    unitary.blocks_list.size() -
-		    std::distance(U_src, U_dest)); // the unwanted blocks are pushed to the end, resizing down destroy them.
 	};
 	auto trunc_unit_block = [&d](btensor &U, const auto &d_ind, const auto last_index)
 	{
-- 
2.43.0


From b77d8fba0ab9c74634f9f0cfb59b951bf556cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 069/119] fix: truncation that keeps no value kept some, or
 failed when there are no values

---
 sources/btensor_linalg.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 67a5d60..6b3eeaa 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -743,9 +743,11 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	vd = std::get<0>(
 	    vd.sort(-1, true)); // sort the last (only) dimension in descending order //no inplace sort in torch...
 	// vd is now sorted in ascending order.
-	auto smallest_value = vd.index({torch::indexing::Ellipsis, compute_last_index(vd, tol, pow, min, max)});
-	smallest_value -=
-	    2 * smallest_value * epsilon(d.options().dtype()); // Better chance to preserve degenerate multiplets that way.
+	const auto last_kept = compute_last_index(vd, tol, pow, min, max);
+	// when nothing is kept, nothing is larger than infinity.
+	auto smallest_value = last_kept < 0
+	                          ? torch::full({}, std::numeric_limits<double>::infinity(), vd.options())
+	                          : vd.index({last_kept}) * (1 - 2 * epsilon(d.options().dtype()).toDouble()); // Better chance to preserve degenerate multiplets that way.
 	// fmt::print("epsilon {}\n",epsilon(smallest_value).toDouble());
 	// for each block trio, we can remove all the values smaller than the one in smallest_value
 	// without inducing an error larger than the tol.
-- 
2.43.0


From c545f5849160330497e8386cdfcdbb30d0a73d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 070/119] fix: decompositions of a block tensor without blocks
 gave a bond of size zero that nothing can be contracted with

---
 sources/btensor_linalg.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 6b3eeaa..fe8eecf 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -352,10 +352,10 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	// compute the size and conserved values of the diagonnal matrix, most likely to be the same code for the eigenvalue
 	// problem.
 	auto d_blocks = tensors_n_indices.size();
-	const auto bond_sections = std::max<size_t>(d_blocks, 1); // a tensor without blocks gets a single, empty, section
+	const auto bond_sections = std::max<size_t>(d_blocks, 1); // a tensor without blocks gets a single section, without blocks
 	any_quantity_vector right_D_cvals(bond_sections, tensor.selection_rule->neutral());
 	any_quantity_vector left_D_cvals(bond_sections, tensor.selection_rule->neutral());
-	std::vector<int64_t> D_block_sizes(bond_sections);
+	std::vector<int64_t> D_block_sizes(bond_sections, 1);
 	auto D_rcval_it = right_D_cvals.begin();
 	auto D_lcval_it = left_D_cvals.begin();
 	auto D_bsize_it = D_block_sizes.begin();
@@ -451,12 +451,12 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	// compute the size and conserved values of the diagonnal matrix, most likely to be the same code for the eigenvalue
 	// problem.
 	auto d_blocks = tensors_n_indices.size();
-	const auto bond_sections = std::max<size_t>(d_blocks, 1); // a tensor without blocks gets a single, empty, section
+	const auto bond_sections = std::max<size_t>(d_blocks, 1); // a tensor without blocks gets a single section, without blocks
 	any_quantity_vector right_D_cvals(bond_sections, tensor.selection_rule->neutral());
 	any_quantity_vector left_D_cvals(bond_sections, tensor.selection_rule->neutral());
-	std::vector<int64_t> D_block_sizes(bond_sections);
-	std::vector<int64_t> U_bond_sizes(bond_sections); // larger than the number of singular values when
-	std::vector<int64_t> V_bond_sizes(bond_sections); // the full svd is asked for.
+	std::vector<int64_t> D_block_sizes(bond_sections, 1);
+	std::vector<int64_t> U_bond_sizes(bond_sections, 1); // larger than the number of singular values when
+	std::vector<int64_t> V_bond_sizes(bond_sections, 1); // the full svd is asked for.
 	auto D_rcval_it = right_D_cvals.begin();
 	auto D_lcval_it = left_D_cvals.begin();
 	auto D_bsize_it = D_block_sizes.begin();
-- 
2.43.0


From 4f3de23fe7f480d00fb6782109eaac0166a37ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 071/119] fix: checking or coalescing an empty tensor train
 crashed

---
 sources/MPT.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 138057d..2ecd511 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -119,7 +119,9 @@ bool MPS::check_one(const Tens &tens)
 
 bool MPS::check_ranks() const
 {
-	auto prev_bond = operator[](0).sizes()[0];
+	if (empty())
+		return true;
+	auto prev_bond = front().sizes()[0];
 	bool all_rank_3 = std::all_of(begin(), end(),
 	                              [&prev_bond](const Tens &el)
 	                              {
@@ -153,6 +155,8 @@ bool bMPO::check_one(const Tens &tens)
 
 bMPO &bMPO::coalesce(btensor::Scalar cutoff)
 {
+	if (empty())
+		return *this;
 	auto it = begin();
 	auto next_it = it + 1;
 	for (; next_it != end(); ++it, ++next_it)
@@ -169,7 +173,9 @@ bMPO &bMPO::coalesce(btensor::Scalar cutoff)
 
 bool MPO::check_ranks() const
 {
-	auto prev_bond = operator[](0).sizes()[0];
+	if (empty())
+		return true;
+	auto prev_bond = front().sizes()[0];
 	bool all_rank_4 = std::all_of(begin(), end(),
 	                              [&prev_bond](const Tens &el)
 	                              {
@@ -183,6 +189,8 @@ bool MPO::check_ranks() const
 }
 bool bMPO::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto it = begin();
 	auto next = begin() + 1;
 	bool all_rank_4 = it->dim() == 4;
@@ -196,6 +204,8 @@ bool bMPO::check_ranks() const
 }
 bool bMPS::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto next = begin() + 1;
 	auto it = begin();
 	bool all_rank_3 = it->dim() == 3;
-- 
2.43.0


From 996152a1d58cd30245bc2267b36b70040fc34a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 072/119] fix: matrix product states and operators made from
 iterators weren't checked, and the centre of a bMPS was left undefined

---
 include/MPT.h | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/MPT.h b/include/MPT.h
index aeb0016..503d141 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -365,7 +365,13 @@ class MPS final
 		if (oc >= size() and oc != 0)
 			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
 	}
-	MPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0) {}
+	MPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0)
+	{
+		bool ok = check_ranks();
+		if (not ok)
+			throw std::invalid_argument("one or more input Tensors has rank differing from 3 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~MPS() = default;
 
@@ -464,7 +470,13 @@ class MPO final : public vector_lift<MPO> // specialization for rank 4 tensors
 			throw std::invalid_argument("Input MPT is an invalid MPO: one or more Tensors has rank differing from 4 "
 			                            "and/or a bond dimension mismatch with its neighbor (dims 0 and 2).");
 	}
-	MPO(const_iterator begin, const_iterator end) : vector_lift<MPO>(begin, end) {}
+	MPO(const_iterator begin, const_iterator end) : vector_lift<MPO>(begin, end)
+	{
+		bool ok = check_ranks();
+		if (not ok)
+			throw std::invalid_argument("one or more input Tensors has rank differing from 4 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~MPO() = default;
 
@@ -579,7 +591,13 @@ class bMPS final : public vector_lift<bMPS, btensor> // specialization for rank
 		if (oc >= size() and oc != 0)
 			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
 	}
-	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end) {}
+	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0)
+	{
+		bool ok = check_ranks();
+		if (not ok)
+			throw std::invalid_argument("one or more input Tensors has rank differing from 3 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~bMPS() = default;
 
@@ -678,7 +696,13 @@ class bMPO final : public vector_lift<bMPO, btensor> // specialization for rank
 			throw std::invalid_argument("Input bMPT is an invalid bMPO: one or more Tensors has rank differing from 4 "
 			                            "and/or a bond dimension mismatch with its neighbor (dims 0 and 2).");
 	}
-	bMPO(const_iterator begin, const_iterator end) : vector_lift(begin, end) {}
+	bMPO(const_iterator begin, const_iterator end) : vector_lift(begin, end)
+	{
+		bool ok = check_ranks();
+		if (not ok)
+			throw std::invalid_argument("one or more input Tensors has rank differing from 4 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~bMPO() = default;
 
-- 
2.43.0


From a935f6312a5df7929039d1f1187de58a2cdd5b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 073/119] fix: the centre of a matrix product state of unset
 tensors could be outside of the chain

---
 include/MPT.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/MPT.h b/include/MPT.h
index 503d141..eacdc8b 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -315,7 +315,11 @@ class MPS final
 	static bool check_one(const Tens &tens);
 	MPS() : vector_lift<MPS>(), orthogonality_center(0) {}
 	MPS(size_type size) : vector_lift<MPS>(size), orthogonality_center(0) {}
-	MPS(size_type size, size_t oc) : vector_lift<MPS>(size), orthogonality_center(oc) {}
+	MPS(size_type size, size_t oc) : vector_lift<MPS>(size), orthogonality_center(oc)
+	{
+		if (oc >= size and oc != 0)
+			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
+	}
 	MPS(const MPS &other) : vector_lift(other), orthogonality_center(other.orthogonality_center) {}
 	MPS(MPS &&other) noexcept : vector_lift(std::move(other)), orthogonality_center(other.orthogonality_center) {}
 	MPS(std::vector<Tens> initl, size_t oc = 0) : vector_lift<MPS>(std::move(initl)), orthogonality_center(oc)
@@ -540,7 +544,7 @@ class bMPS final : public vector_lift<bMPS, btensor> // specialization for rank
 	static bool check_one(const Tens &tens);
 	bMPS() : vector_lift<bMPS, btensor>(), orthogonality_center(0) {}
 	bMPS(size_type size) : vector_lift<bMPS, btensor>(size), orthogonality_center(0) {}
-	bMPS(size_type size, size_t oc) : vector_lift<bMPS, btensor>(size), orthogonality_center(std::min(oc, size - 1)) {}
+	bMPS(size_type size, size_t oc) : vector_lift<bMPS, btensor>(size), orthogonality_center(std::min(oc, size - (size > 0))) {}
 	bMPS(const bMPS &other) : vector_lift(other), orthogonality_center(other.orthogonality_center) {}
 	bMPS(bMPS &&other) noexcept : vector_lift(std::move(other)), orthogonality_center(other.orthogonality_center) {}
 	bMPS(std::vector<Tens> initl, size_t oc = 0)
-- 
2.43.0


From 71e4b400d4576995e2c87bcc2020c9202ad80595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 074/119] fix: overlaps of block matrix product states depended
 on the order of their bond sections

---
 sources/MPT.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 2ecd511..3e4965b 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -229,14 +229,18 @@ btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs, btensor left_edg
 	}
 	return tensordot(left_edge, right_edge, {0, 1, 2}, {0, 1, 2});
 }
+// identity on the dimension dim of the edges of two states. Its selection rule depends only on that dimension, such that
+// the first section of each edge are connected.
+static btensor state_edge(const btensor &a, const btensor &b, int64_t dim)
+{
+	return eye_like(shape_from(details::edge_shape_prep(a, dim), details::edge_shape_prep(b, dim).inverse_cvals_()));
+}
 btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs)
 {
 	// todo:: adapt to work with Btensors.
 	// need a btensor implementation of ones. must be a one_like thing.
-	auto left_edge =
-	    eye_like(shape_from(shape_from(a.front(), {-1, 0, 0}).inverse_cvals_(), shape_from(b.front(), {-1, 0, 0})));
-	auto right_edge =
-	    eye_like(shape_from(shape_from(a.back(), {0, 0, -1}).inverse_cvals_(), shape_from(b.back(), {0, 0, -1})));
+	auto left_edge = state_edge(a.front(), b.front(), 0);
+	auto right_edge = state_edge(a.back(), b.back(), 2);
 	left_edge = tensordot(left_edge, ones_like(details::edge_shape_prep(obs.front(), 0)), {}, {}).permute({0, 2, 1});
 	right_edge = tensordot(right_edge, ones_like(details::edge_shape_prep(obs.back(), 2)), {}, {}).permute({0, 2, 1});
 	return contract(a, b, obs, std::move(left_edge), right_edge);
@@ -294,10 +298,8 @@ btensor contract(const bMPS &a, const bMPS &b, btensor left_edge, const btensor
 }
 btensor contract(const bMPS &a, const bMPS &b)
 {
-	auto left_edge =
-	    eye_like(shape_from(a.front().shape_from({-1, 0, 0}).inverse_cvals_(), b.front().shape_from({-1, 0, 0})));
-	auto right_edge =
-	    eye_like(shape_from(a.back().shape_from({0, 0, -1}).inverse_cvals_(), b.back().shape_from({0, 0, -1})));
+	auto left_edge = state_edge(a.front(), b.front(), 0);
+	auto right_edge = state_edge(a.back(), b.back(), 2);
 	return contract(a, b, left_edge, right_edge);
 }
 
-- 
2.43.0


From 92a68e2f8f964d60427559ccd34d7e5baf161ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 075/119] fix: slices of references to lists of dimensions were
 declared and not defined

---
 sources/dimension_manip.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dimension_manip.cpp b/sources/dimension_manip.cpp
index ff1e253..09f6aa9 100644
--- a/sources/dimension_manip.cpp
+++ b/sources/dimension_manip.cpp
@@ -59,5 +59,9 @@ torch::IntArrayRef slice(const std::vector<int64_t>& in, size_t start, size_t n)
 {
 	return torch::IntArrayRef(in).slice(start,n);
 }
+torch::IntArrayRef slice(torch::IntArrayRef in, size_t start, size_t n)
+{
+	return in.slice(start,n);
+}
 
 }//QuantiT
\ No newline at end of file
-- 
2.43.0


From 06e62298a473bb6a95f6cea903a5af865ba5cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 076/119] fix: reversed lists of dimensions had as many zeros
 appended

---
 sources/dimension_manip.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/dimension_manip.cpp b/sources/dimension_manip.cpp
index 09f6aa9..89cab98 100644
--- a/sources/dimension_manip.cpp
+++ b/sources/dimension_manip.cpp
@@ -49,9 +49,7 @@ int64_t prod(torch::IntArrayRef dims, size_t start, size_t n)
 
 std::vector<int64_t> reverse(torch::IntArrayRef dims)
 {
-	std::vector<int64_t> out(dims.size());
-	out.insert(out.begin(),dims.rbegin(),dims.rend());
-	return out;
+	return std::vector<int64_t>(dims.rbegin(),dims.rend());
 }
 
 
-- 
2.43.0


From 034af697a583ce42ad312ab29a8a0d3e8c6f3fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 077/119] fix: eigenvector of two by two matrices with very
 different elements or in large units was wrong, and nan for complex ones

---
 sources/dmrg.cpp | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index df7bbb3..7fca994 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -544,30 +544,37 @@ template <class Tensor>
 std::tuple<Tensor, Tensor, Tensor> eig2x2Mat_impl(const Tensor &a0, const Tensor &a1, const Tensor &b)
 {
 	// fmt::print("input: {}\n{}\n{}\n",a0,a1,b);
-	auto crit = sqrt(pow(a0 - a1, 2) + 4 * (b.conj() * b));
-	// fmt::print("crit {}\n\n",crit);
-	auto E0 = (a0 + a1 - crit) / 2; // smallest eigenvalue. largest is (a0+a1 +crit)/2
-	// auto E1 = (a0 + a1 + crit) / 2; // smallest eigenvalue. largest is (a0+a1 +crit)/2
-	// fmt::print("E0 {}\n\n",E0);
-	// fmt::print("test!\n E0-a1 {}\n\n -crit {} \n\n(E0-a1)/crit {}",E0-a1, -crit, (E0-a1)/crit); //E0-a1 somehow has
-	// the wrong sign.
-	auto delt = (E0 - a1);
-	auto o_coeff = sqrt(delt / (-crit)); // from arxiv.org/pdf/1908.03795.pdf
-	// fmt::print("O {}\n\n",o_coeff);
-	bool zero_o = (((o_coeff + E0) == E0).item()).toBool() or std::isnan(o_coeff.item().toDouble());
-	auto n_coeff = (b * o_coeff) / (delt); // can't use o^2+n^2 = 1: loose important phase information that way.
-	if (zero_o)
+	const auto real_value = [](const Tensor &x) { return x.item().toComplexDouble().real(); };
+	const auto d = (a0 - a1) / 2;
+	const auto b2 = b.conj() * b;
+	const auto r = sqrt(pow(d, 2) + b2);
+	auto E0 = (a0 + a1) / 2 - r; // smallest eigenvalue. largest is (a0+a1)/2 + r
+	// the eigenvector is (E0 - a1, b) up to its norm, with E0 - a1 = d - r. (see arxiv.org/pdf/1908.03795.pdf)
+	// When d is positive, d - r = -b2/(d+r): no two nearly identical values are ever subtracted.
+	Tensor o_coeff, n_coeff;
+	if (real_value(r) == 0) // the matrix is proportionnal to the identity
 	{
-		// o_coeff could be nan if crit is zero, this should only happen if the input is proportionnal to the identity
-		// if o_coeff is zero, the computed n_coeff will likely be nan, but must be one.
-		n_coeff = ones_like(n_coeff);
-		o_coeff = zeros_like(o_coeff);
+		o_coeff = ones_like(r);
+		n_coeff = zeros_like(r);
+	}
+	else if (real_value(d) > 0)
+	{
+		const auto s = r + d;
+		const auto abs_b = b.abs();
+		const bool zero_b = real_value(abs_b) == 0;
+		o_coeff = zero_b ? zeros_like(r) : abs_b / sqrt(2 * r * s);
+		n_coeff = zero_b ? ones_like(r) : -(b / abs_b) * sqrt(s / (2 * r));
+	}
+	else
+	{
+		const auto s = r - d;
+		o_coeff = sqrt(s / (2 * r));
+		n_coeff = -b / sqrt(2 * r * s);
 	}
 	if (o_coeff.isnan().any().item().toBool())
 		throw std::logic_error("nan found in output tensor");
 	if (n_coeff.isnan().any().item().toBool())
 		throw std::logic_error("nan found in output tensor");
-	// wackadoodle conditionnals in previous expression to have 1 instead of a nan when o_coeff is zeros.
 	return std::make_tuple(E0, o_coeff, n_coeff);
 }
 std::tuple<torch::Tensor, torch::Tensor, torch::Tensor> details::eig2x2Mat(const torch::Tensor &a0,
-- 
2.43.0


From 78db6ed94028fd2df525ab469f5321f9041a2a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 078/119] fix: any of a block tensor without blocks was an
 undefined tensor

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index eff416b..3169782 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3203,8 +3203,8 @@ btensor btensor::isnan() const
 torch::Tensor btensor::any() const
 {
 	auto it = this->begin();
-	if (it == this->end())
-		return torch::Tensor();
+	if (it == this->end()) // the tensor is full of zeros
+		return torch::zeros({}, torch::TensorOptions(torch::kBool));
 	auto out = std::get<1>(*it).any();
 	auto &out_acc = *(out.data_ptr<bool>());
 	while (it != this->end() and !out_acc)
-- 
2.43.0


From 28f3f6e9106de65bde544ee375072d22515246b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 079/119] fix: results of in-place dense contractions were lost
 when the output was not contiguous in memory

---
 sources/tensorgdot.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index e17b31f..ddb3442 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -99,6 +99,15 @@ compute_shape(const torch::Tensor& add, torch::Tensor& t1, torch::Tensor& t2, co
 	return make_tuple(p1, p2, rsizes, size1, csize, size2);
 }
 
+/**
+ * @brief put the result in the output tensor, when its layout in memory made the matrix used for the computation a copy.
+ */
+static void copy_back(torch::Tensor& output, const torch::Tensor& matrix)
+{
+	if (!matrix.is_alias_of(output))
+		output.copy_(matrix.reshape(output.sizes()));
+}
+
 torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add_tens, const torch::Tensor& input1, const torch::Tensor& input2,
                               torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                               torch::Scalar beta, torch::Scalar alpha)
@@ -113,6 +122,7 @@ torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add_te
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	at::addmm_out(rout, add_tens.reshape({size1, size2}), t1, t2, beta, alpha);
+	copy_back(output, rout);
 	return output;
 }
 
@@ -147,6 +157,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	copy_back(output, rout);
 	return output;
 }
 
@@ -189,6 +200,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	copy_back(output, rout);
 	return output;
 }
 
-- 
2.43.0


From 4e7047f5918d1ee95445c86dd8f5976d695c7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 080/119] fix: output tensors of the wrong shape were accepted
 by dense contractions

---
 sources/tensorgdot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index ddb3442..54c9a2c 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -116,6 +116,7 @@ torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add_te
 	Tensor t1 = input1;
 	Tensor t2 = input2;
 	auto [p1, p2, rsizes, size1, csize, size2] = compute_shape(add_tens, t1, t2, input1, input2, dims1, dims2);
+	TORCH_CHECK(rsizes == output.sizes(), "tensordot result incompatible with output tensor shape");
 	// permut and reshape for matrix multiplication
 	t1 = t1.permute(p1).reshape({size1, csize});
 	t2 = t2.permute(p2).reshape({csize, size2});
-- 
2.43.0


From d8dd64536ae77df36cca74b3fb998adfd1aeeecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 081/119] fix: contracting more dimensions than a dense tensor
 has read out of bounds

---
 sources/tensorgdot.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index 54c9a2c..9157ffd 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -169,6 +169,8 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	using namespace torch;
 	Tensor t1 = input1;
 	Tensor t2 = input2;
+	TORCH_CHECK(dims >= 0 && dims <= t1.dim() && dims <= t2.dim(),
+	            fmt::format("cannot contract {} dimensions of tensors of rank {} and {}", dims, t1.dim(), t2.dim()));
 	auto sizes1 = t1.sizes();
 	auto sizes2 = t2.sizes();
 	// auto [p1, p2, rsizes, size1, csize, size2] = compute_shape(output, t1, t2, input1, input2, dims1, dims2);
-- 
2.43.0


From 22de71e3ceb25d61f61e719611d45f7e71a2bef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 082/119] fix: the documentation of tensorgdot exchanged its
 two scalar coefficients

---
 include/tensorgdot.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/tensorgdot.h b/include/tensorgdot.h
index 929139d..02d1745 100644
--- a/include/tensorgdot.h
+++ b/include/tensorgdot.h
@@ -19,7 +19,7 @@
 namespace quantit
 {
 /**
- * @brief generalized tensordot, performs \f$ D_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * @brief generalized tensordot, performs \f$ D_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param add The input tensor C
@@ -27,15 +27,15 @@ namespace quantit
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor C
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor The output tensor D
  */
 torch::Tensor tensorgdot(const torch::Tensor& add, const torch::Tensor& mul1, const torch::Tensor& mul2,
                          torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                          torch::Scalar beta = 1, torch::Scalar alpha = 1);
 /**
- * @brief generalized tensordot, performs \f$ C_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} ­\f$
+ * @brief generalized tensordot, performs \f$ C_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} ­\f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * 
@@ -44,8 +44,8 @@ torch::Tensor tensorgdot(const torch::Tensor& add, const torch::Tensor& mul1, co
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor C
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor& refrence to the output tensor
  */
 torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, const torch::Tensor& mul2,
@@ -53,7 +53,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, con
                            torch::Scalar beta = 1, torch::Scalar alpha = 1);
 
 /**
- * generalized tensordot, performs \f$ D_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * generalized tensordot, performs \f$ D_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param output the output tensor D
@@ -62,23 +62,23 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, con
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor C
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor& Reference to the output tensor D
  */
 torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add, const torch::Tensor& mul1, const torch::Tensor& mul2,
                               torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                               torch::Scalar beta = 1, torch::Scalar alpha = 1);
 /**
- * @brief generalized tensordot, performs \f$ C_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * @brief generalized tensordot, performs \f$ C_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param output output tensor C, result of the contraction is added to it.
  * @param input1 tensor A
  * @param input2 tensor B
  * @param dims the number of dimensions to contract
- * @param beta scalar coefficient for the addition
- * @param alpha scalar coefficient for the addition
+ * @param beta scalar coefficient to scale the tensor C
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor& reference to the output tensor.
  */
 torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, const torch::Tensor& input2,
-- 
2.43.0


From f18fd195c60958b15d0b8197da4eb67c90513b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 083/119] fix: the documentation of the product of a slice
 contradicted itself

---
 include/dimension_manip.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dimension_manip.h b/include/dimension_manip.h
index e9ec058..36f1e44 100644
--- a/include/dimension_manip.h
+++ b/include/dimension_manip.h
@@ -41,7 +41,7 @@ std::vector<int64_t> concat(Args... args)//allow us to call concat without putti
  * compute the product of the dimensions given.
  * 
  * With start and n, compute the product of a slice of the dimensions, using the same rules as torch::IntArrayRef::slice;
- * It compute the product of of the slice spaning the interval [start,n[.
+ * It compute the product of of the slice spaning the interval [start,start+n[.
  */
 int64_t prod(torch::IntArrayRef dims, size_t start, size_t n);
 int64_t prod(torch::IntArrayRef dims);
-- 
2.43.0


From 9b48905a746902fa14af3c3cb2b2d4afdbff4450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 084/119] fix: pauli() returned the raising operator as the
 lowering operator

The documentation says that lo reduces the spin by one, and Sz is +1 on
the first state: lo has to take the first state to the second one. The
documentation of the conserving version also listed its operators in the
wrong order.
---
 include/operators.h   | 2 +-
 sources/operators.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operators.h b/include/operators.h
index 5119e9a..0cab732 100644
--- a/include/operators.h
+++ b/include/operators.h
@@ -57,7 +57,7 @@ std::tuple<tens, tens, tens, tens, tens> pauli();
  * Sx and Sy cannot be returned because they do not have a well defined quantum number. To make use of conservation rule
  * with Heisenberg, Ising and other spin models, it must be done in terms of the lower/raising operator and Sz.
  * @param shape A btensor specifying the conserved quantities of the bra an ket sides of the operators.
- * @return std::tuple<btensor,btensor,btensor> lowering operator, Sz, identity
+ * @return std::tuple<btensor,btensor,btensor> Sz, lowering operator, identity
  */
 std::tuple<btensor, btensor, btensor> pauli(const btensor &shape);
 
diff --git a/sources/operators.cpp b/sources/operators.cpp
index b4feaeb..26310d9 100644
--- a/sources/operators.cpp
+++ b/sources/operators.cpp
@@ -82,7 +82,7 @@ std::tuple<tens,tens,tens,tens,tens> pauli()
 	}
 	{
 		auto Acc = lo.accessor<int8_t,2>();
-		Acc[0][1] = 1;
+		Acc[1][0] = 1;
 	}
 	return std::make_tuple(Sx,iSy,Sz,lo,id);
 }
-- 
2.43.0


From 0877c7df2803530059cb81d502dbbbaa99c8df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 085/119] fix: the conserving Heisenberg model threw for most
 physical indices

The quantities of the bonds are the changes made by the ladder operators,
that is quotients of the quantities of the two states, and not the
quantities of the states.
---
 sources/models.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 8221a0a..c02452d 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -91,9 +91,12 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 
 bMPO Heisenberg(torch::Tensor J, size_t lenght,const btensor& phys_shape)
 {
-	auto p = [&phys_shape](size_t i)-> any_quantity_cref{return phys_shape.element_conserved_qtt(0,i);};
-	auto neutral = p(0).neutral();
-	auto left_bond = btensor({{{1,neutral},{1,p(0)},{1,p(1)},{1,neutral},{1,neutral}}},p(0),phys_shape.options());
+	auto p = [&phys_shape](size_t i)-> any_quantity{return phys_shape.element_conserved_qtt(0,i);};
+	const any_quantity neutral = p(0).neutral();
+	// element: 0 spin up, 1 spin down. The bonds carry what the operators of the next sites take away.
+	const any_quantity lowered = p(0) * p(1).inverse();
+	const any_quantity raised = lowered.inverse();
+	auto left_bond = btensor({{{1,neutral},{1,lowered},{1,raised},{1,neutral},{1,neutral}}},neutral,phys_shape.options());
 	auto local_shape = shape_from(left_bond,phys_shape,left_bond.conj(),phys_shape.conj());
 	MPO tmp_hamil = Heisenberg(J,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
-- 
2.43.0


From b93e21c3b45b9c4f897bf4cc88296cb41838690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 086/119] fix: the conserving Hubbard model needed a neutral
 empty site

The quantities of the bonds are those of an electron, the quotient of the
quantities of an occupied and of an empty site.
---
 sources/models.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index c02452d..828f549 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -166,9 +166,13 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
  */
 bMPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght,const btensor& Phys_shape)
 {
-	// element: 0 empty, 1 single down electron, 2 single up electron,3 one up and one down
+	// element: 0 empty, 1 single up electron, 2 single down electron,3 one up and one down
 	auto p = [&Phys_shape](size_t i)->any_quantity{return Phys_shape.element_conserved_qtt(0,i);};
-	auto left_bond = btensor({{{1,p(0)},{1,p(1)},{1,p(2)},{1,p(1).inverse()},{1,p(2).inverse()},{1,p(0)}}},p(0),Phys_shape.options());
+	const any_quantity neutral = p(0).neutral();
+	// the bonds carry what the operators of the next sites take away.
+	const any_quantity up = p(1) * p(0).inverse();
+	const any_quantity dn = p(2) * p(0).inverse();
+	auto left_bond = btensor({{{1,neutral},{1,up},{1,dn},{1,up.inverse()},{1,dn.inverse()},{1,neutral}}},neutral,Phys_shape.options());
 	auto local_shape = shape_from(left_bond,Phys_shape,left_bond.conj(),Phys_shape.conj());
 	MPO tmp_hamil = Hubbard(U,mu,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
-- 
2.43.0


From 29c433fed9ffdf5ecdee66d3f69fee1b175303de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 087/119] fix: the hopping of the Hubbard model had the wrong
 sign

The documented local tensor, and the usual definition of the model with a
hopping t=1, have a minus sign.
---
 sources/models.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 828f549..34f7d92 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -137,10 +137,10 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
 	local_tens.index_put_({3, Slice(), 0, Slice()}, c_up.conj().t());
 	local_tens.index_put_({4, Slice(), 0, Slice()}, c_dn.conj().t());
 	local_tens.index_put_({5, Slice(), 0, Slice()}, Local);
-	local_tens.index_put_({5, Slice(), 1, Slice()}, torch::matmul(c_up.conj().t(), F));
-	local_tens.index_put_({5, Slice(), 2, Slice()}, torch::matmul(c_dn.conj().t(), F));
-	local_tens.index_put_({5, Slice(), 3, Slice()}, torch::matmul(F, c_up));
-	local_tens.index_put_({5, Slice(), 4, Slice()}, torch::matmul(F, c_dn));
+	local_tens.index_put_({5, Slice(), 1, Slice()}, -torch::matmul(c_up.conj().t(), F));
+	local_tens.index_put_({5, Slice(), 2, Slice()}, -torch::matmul(c_dn.conj().t(), F));
+	local_tens.index_put_({5, Slice(), 3, Slice()}, -torch::matmul(F, c_up));
+	local_tens.index_put_({5, Slice(), 4, Slice()}, -torch::matmul(F, c_dn));
 	local_tens.index_put_({5, Slice(), 5, Slice()}, id);
 	local_tens.contiguous();
 	MPO out(lenght, local_tens);
@@ -152,12 +152,12 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
  * @brief create the MPO representation for the 1D Hubbard hamiltonian with the specified conservation laws.
  * 
  * The local tensor are defined by the following matrix of operators:
- * 1           0         0       0       0    0
- * c_up        0         0       0       0    0
- * c_dn        0         0       0       0    0
- * c_up^dg     0         0       0       0    0
- * c_dn^dg     0         0       0       0    0
- * Û-{mu}^\^  c_up^dg*F c_dn^dg*F F*c_up F*c_dn  1
+ * 1                      0           0          0       0     0
+ * c_up                   0           0          0       0     0
+ * c_dn                   0           0          0       0     0
+ * c_up^dg                0           0          0       0     0
+ * c_dn^dg                0           0          0       0     0
+ * U n_up n_dn-mu*N  -c_up^dg*F  -c_dn^dg*F  -F*c_up  -F*c_dn  1
  * 
  * @param U e-e interaction
  * @param mu chemical potential
-- 
2.43.0


From 01474493d351a42f1f35e5cfa8468338773a1858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 088/119] fix: the models without a site wrote out of bounds

---
 sources/models.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 34f7d92..b1cd0db 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -40,6 +40,8 @@ MPO details::Heisenberg_impl(torch::Tensor J, size_t lenght)
 	constexpr char errorstr[] = "{0} must be a rank 0 tensor (a scalar), the supplied {0} is rank {1}";
 	if (J.sizes().size() > 0)
 		throw std::invalid_argument(fmt::format(errorstr, "J", J.sizes().size()));
+	if (lenght == 0)
+		throw std::invalid_argument("the model needs at least one site");
 	auto type = torch::get_default_dtype();
 	if (!J.is_floating_point())
 		type = torch::scalarTypeToTypeMeta(torch::kInt8);
@@ -58,8 +60,8 @@ MPO details::Heisenberg_impl(torch::Tensor J, size_t lenght)
 	local_tens.index_put_({4, Slice(), 4, Slice()}, id);
 	local_tens.contiguous();
 	MPO out(lenght, local_tens);
-	out[0] = out[0].index({Slice(4, 5), Slice(), Slice(), Slice()});
-	out[lenght - 1] = out[lenght - 1].index({Slice(), Slice(), Slice(0, 1), Slice()});
+	out.front() = out.front().index({Slice(4, 5), Slice(), Slice(), Slice()});
+	out.back() = out.back().index({Slice(), Slice(), Slice(0, 1), Slice()});
 	return out;
 }
 MPO Heisenberg(torch::Tensor J, size_t lenght)
@@ -125,6 +127,8 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
 		throw std::invalid_argument(fmt::format(errorstr, "U", U.dim()));
 	if (mu.sizes().size() > 0)
 		throw std::invalid_argument(fmt::format(errorstr, "mu", mu.dim()));
+	if (lenght == 0)
+		throw std::invalid_argument("the model needs at least one site");
 	auto local_tens = torch::zeros({6, 4, 6, 4});
 	auto [c_up, c_dn, F, id] = fermions();
 	auto n_up = torch::matmul(c_up.conj().t(), c_up);
-- 
2.43.0


From 238e643b998b744d7bafed89aea68c635773ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 089/119] fix: conserving models lost their small couplings and
 could not have a single site

Blocks with elements below 1e-4 were dropped, and terms forbidden by the
conservation laws were silently accepted when small. With a single site
the two edges of the chain are on the same tensor.
---
 sources/models.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index b1cd0db..d263114 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -73,21 +73,17 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 {
 	auto length = tmp_hamil.size();
 	bMPO out(length);
-	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front(),1e-4);
 	constexpr auto message = "the local shape is incompatible with the MPO at site {}.";
-	if (!torch::allclose(out.front().to_dense(),tmp_hamil.front())) 
+	const int64_t last_row = local_shape.sizes()[0]-1;
+	for(size_t i=0; i<length;++i)
 	{
-		fmt::print("out: {}\n\n", out.front());
-		throw std::invalid_argument(fmt::format(message,0));
+		// only the last row is left at the first site, and the first column at the last site
+		const int64_t row = i == 0 ? last_row : -1;
+		const int64_t col = i+1 == length ? 0 : -1;
+		out[i] = from_basic_tensor_like(local_shape.basic_create_view({row,-1,col,-1},true),tmp_hamil[i]);
+		// whatever the shape doesn't allow is missing
+		if (!torch::equal(out[i].to_dense(),tmp_hamil[i])) throw std::invalid_argument(fmt::format(message,i));
 	}
-	size_t i =1;
-	for(; i<length-1;++i)
-	{
-		out[i] = from_basic_tensor_like(local_shape,tmp_hamil[i],1e-4);
-		if (!torch::allclose(out[i].to_dense(),tmp_hamil[i]))throw std::invalid_argument(fmt::format(message,i));
-	}
-	out.back() = from_basic_tensor_like(local_shape.basic_create_view({-1,-1,0,-1},true),tmp_hamil.back(),1e-4);
-	if (!torch::allclose(out.back().to_dense(),tmp_hamil.back())) throw std::invalid_argument(fmt::format(message,i));
 	return out;
 }
 
-- 
2.43.0


From 2e83f1d7029f76721cc63774eb93381a94ffda68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 090/119] fix: bMPO::coalesce modified in place the output of a
 decomposition

Automatic differentiation needs that output in the backward pass.
---
 sources/MPT.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 3e4965b..c7c0117 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -164,9 +164,8 @@ bMPO &bMPO::coalesce(btensor::Scalar cutoff)
 		auto tens = it->permute({0, 1, 3, 2});
 		auto &next = *next_it;
 		auto [U, d, V] = svd(tens, 3, cutoff);
-		U.mul_(d);
 		next = tensordot(V.conj(), next, {0}, {0});
-		*it = U.permute({0, 1, 3, 2});
+		*it = U.mul(d).permute({0, 1, 3, 2});
 	}
 	return *this;
 }
-- 
2.43.0


From 4d917d338f19e742f8f64108d3d2e130517e798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 091/119] fix: integer couplings of the Hubbard model
 overflowed

They were multiplied by operators with 8 bits elements.
---
 sources/models.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index d263114..ec30cb5 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -127,8 +127,9 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
 		throw std::invalid_argument("the model needs at least one site");
 	auto local_tens = torch::zeros({6, 4, 6, 4});
 	auto [c_up, c_dn, F, id] = fermions();
-	auto n_up = torch::matmul(c_up.conj().t(), c_up);
-	auto n_dn = torch::matmul(c_dn.conj().t(), c_dn);
+	// the couplings would be truncated to the integer type of the operators
+	auto n_up = torch::matmul(c_up.conj().t(), c_up).to(local_tens.dtype());
+	auto n_dn = torch::matmul(c_dn.conj().t(), c_dn).to(local_tens.dtype());
 	auto Local = U * torch::matmul(n_up, n_dn) - mu * (n_up + n_dn);
 	using namespace torch::indexing;
 	local_tens.index_put_({0, Slice(), 0, Slice()}, id);
-- 
2.43.0


From 6eec27806a68d695038468376caba2f120c7a6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 092/119] fix: random matrix product states failed at random
 for sectors that exist

Moving greedily toward the requested quantum number gets stuck, depending
on the random starting point, when the quantities of the sites differ from
one another or have gaps. A search through the reachable quantities takes
over when it does.
---
 sources/MPT.cpp | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index c7c0117..25c4a1e 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -306,11 +306,10 @@ btensor contract(const bMPS &a, const bMPS &b)
  * @brief generate a string of index O for phys_dim such that Sum_i { phys_dim[i][O][i]] } == constraint.
  *
  * By default, the algorithm attempt to generate a string satisfying the constraint in a single pass. However a greater
- * number of pass can be required when phys_dim doesn't return an identical result for every i. I *believe* 1 pass for
- * every unique physical dimension is enough.
+ * number of pass can be required when phys_dim doesn't return an identical result for every i. When the constraint isn't
+ * satisfied in the number of pass specified, an exhaustive search takes over.
  *
- * Throws if the constraint cannot be satisfied in the number of pass specified, or if the constraint cannot be
- * satisfied at all.
+ * Throws if the constraint cannot be satisfied at all.
  *
  * @param L length of the MPS
  * @param phys_dim function like object that return the list of conserved value for each of the free index of the random
@@ -376,9 +375,39 @@ void generate_random_string(std::vector<size_t>::iterator out, size_t L, T &&phy
 		if (curr_dist == 0)
 			return;
 	}
-	throw std::invalid_argument("The physical dimensions cannot satisfy the sum rule for the MPS with this number of "
-	                            "pass, verify that the constraint is possible or increase the number of pass");
-	// error we failed!
+	// Greedy adjustments are not always enough. Find, for every site, everything that it and the sites to its right can
+	// add up to, to follow only the choices from which the constraint can still be satisfied.
+	std::vector<std::vector<any_quantity>> reachable(L + 1);
+	reachable[L].push_back(neutral);
+	for (size_t i = L; i-- > 0;)
+	{
+		const auto &a = phys_dim(i);
+		auto &here = reachable[i];
+		for (const auto &rest : reachable[i + 1])
+			for (size_t j = 0; j < a.size(); ++j)
+				here.push_back(rest * a[j]);
+		std::sort(here.begin(), here.end());
+		here.erase(std::unique(here.begin(), here.end()), here.end());
+	}
+	any_quantity missing(constraint);
+	if (!std::binary_search(reachable[0].begin(), reachable[0].end(), missing))
+		throw std::invalid_argument("The physical dimensions cannot satisfy the sum rule for the MPS, verify that the "
+		                            "constraint is possible");
+	for (size_t i = 0; i < L; ++i)
+	{
+		const auto &a = phys_dim(i);
+		const size_t x = a.size();
+		distrib.param(param_type(0, x - 1));
+		size_t candidate = distrib(random_gen);
+		any_quantity after = missing * a[candidate].inverse();
+		while (!std::binary_search(reachable[i + 1].begin(), reachable[i + 1].end(), after))
+		{
+			candidate = (candidate + 1) % x;
+			after = missing * a[candidate].inverse();
+		}
+		out[i] = candidate;
+		missing = after;
+	}
 }
 template <class T>
 MPS random_MPS_impl(size_t length, size_t bond_dim, T phys_dim, torch::TensorOptions opt)
-- 
2.43.0


From 2e6862613fd0ccde63febc3f980fa788534dd6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 093/119] fix: random matrix product states without sites or
 bonds wrote out of bounds

---
 sources/MPT.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 25c4a1e..a152a2e 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -412,7 +412,11 @@ void generate_random_string(std::vector<size_t>::iterator out, size_t L, T &&phy
 template <class T>
 MPS random_MPS_impl(size_t length, size_t bond_dim, T phys_dim, torch::TensorOptions opt)
 {
+	if (bond_dim == 0)
+		throw std::invalid_argument("the bond dimension must be greater than zero");
 	MPS out(length);
+	if (length == 0)
+		return out;
 	for (auto i = 0u; i < length; ++i)
 	{
 		auto bd = static_cast<int64_t>(bond_dim);
@@ -464,6 +468,10 @@ template <class T>
 bMPS random_bMPS_impl(size_t length, int64_t bond_dim, T &&phys_dim, any_quantity_cref constraint, size_t string_N_pass,
                       torch::TensorOptions opt, std::random_device::result_type seed)
 {
+	if (bond_dim <= 0)
+		throw std::invalid_argument("the bond dimension must be greater than zero");
+	if (length == 0)
+		return bMPS(0);
 	std::mt19937 gen(seed); // Standard mersenne_twister_engine seeded with rd()
 	std::vector<size_t> phys_inds(bond_dim * length);
 	static_assert(std::is_same_v<decltype(phys_dim(0)), btensor>,
@@ -542,6 +550,9 @@ bMPS random_bMPS(size_t bond_dim, const std::vector<btensor> &phys_dim_spec, any
                   torch::TensorOptions opt,std::random_device::result_type seed)
 {
 	auto S = phys_dim_spec.size();
+	if (S == 0)
+		return random_bMPS_impl(
+		    S, bond_dim, [](size_t) { return btensor(); }, q_num, 1, opt, seed);
 	auto phys_dim = [&phys_dim_spec, S](size_t i) { return phys_dim_spec[i]; };
 	size_t N_pass = [S, &phys_dim_spec]()
 	{
@@ -558,8 +569,6 @@ bMPS random_bMPS(size_t bond_dim, const std::vector<btensor> &phys_dim_spec, any
 		    { return std::lexicographical_compare(std::get<0>(X), std::get<1>(X), std::get<0>(Y), std::get<1>(Y)); });
 		auto last = X.cend() - 1;
 		size_t count = 1;
-		if (X.cbegin() == X.cend())
-			throw std::invalid_argument("The supplied MPO is empty!");
 		for (auto it = X.cbegin(); it != last; ++it)
 		{
 			auto range_A = *it;
-- 
2.43.0


From 2bf530b5b0737a18dbd39749c176dea0665b4775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 094/119] fix: random_bMPS ignored the options of a uniform
 physical index

Unlike those of a list of physical indices.
---
 sources/MPT.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index a152a2e..4b21a04 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -544,7 +544,8 @@ bMPS random_bMPS(size_t length, size_t bond_dim, const btensor &phys_dim_spec, a
                   torch::TensorOptions opt,std::random_device::result_type seed)
 {
 	return random_bMPS_impl(
-	    length, bond_dim, [&phys_dim_spec](size_t i) { return phys_dim_spec; }, q_num, 1, opt, seed);
+	    length, bond_dim, [&phys_dim_spec](size_t i) { return phys_dim_spec; }, q_num, 1,
+	    phys_dim_spec.options().merge_in(opt), seed);
 }
 bMPS random_bMPS(size_t bond_dim, const std::vector<btensor> &phys_dim_spec, any_quantity_cref q_num,
                   torch::TensorOptions opt,std::random_device::result_type seed)
-- 
2.43.0


From 8bf6251a0d43e5033d61f5584a34075f5517a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 095/119] fix: the selection rule of the physical index changed
 the sector of random matrix product states

---
 sources/MPT.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 4b21a04..b3af5e6 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -494,7 +494,9 @@ bMPS random_bMPS_impl(size_t length, int64_t bond_dim, T &&phys_dim, any_quantit
 	{
 		any_quantity_cref local_sel_rule = i == 0 ? any_quantity_cref(constraint) : any_quantity_cref(sel_rule);
 		right_side = make_right_side(phys_inds, accumulate_in_out, local_sel_rule, phys_ind_cvals, i, bond_dim, length);
-		out[i] = rand_like(shape_from(left_side, phys_dim(i), right_side), opt);
+		auto phys = phys_dim(i); // only its quantities matter, the sector is that of the constraint
+		phys.set_selection_rule_(sel_rule);
+		out[i] = rand_like(shape_from(left_side, phys, right_side), opt);
 		out[i] /= sqrt((out[i] * out[i].conj()).sum());
 		if (i == 0)
 			right_side.set_selection_rule_(sel_rule);
-- 
2.43.0


From fef7b09693b3a67c43f0f358e603115b66a7d274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 096/119] fix: dmrg on a single site, or with a state of
 another length, went out of bounds

---
 sources/dmrg.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 7fca994..38299da 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -89,8 +89,25 @@ class dmrg_gradient_guard
 	}
 };
 
+template <class MPO_t>
+void check_two_sites_length(const MPO_t &hamil)
+{
+	if (hamil.size() < 2)
+		throw std::invalid_argument("the two sites dmrg needs a hamiltonian with at least two sites!");
+}
+template <class MPO_t, class MPS_t>
+void check_two_sites_length(const MPO_t &hamil, const MPS_t &state)
+{
+	check_two_sites_length(hamil);
+	if (hamil.size() != state.size())
+		throw std::invalid_argument(
+		    fmt::format("the hamiltonian ({} sites) and the initial state ({} sites) have different lengths!",
+		                hamil.size(), state.size()));
+}
+
 btensor dmrg(bMPO &hamiltonian, bMPS &in_out_state, const dmrg_options &options, dmrg_logger &logger)
 {
+	check_two_sites_length(hamiltonian, in_out_state);
 	dmrg_gradient_guard guard(hamiltonian, in_out_state,
 	                          options); // set the tracing of hamil and state to whatever is specified in the option,
 	                                    // then set it back to its original value at the end.
@@ -100,6 +117,7 @@ btensor dmrg(bMPO &hamiltonian, bMPS &in_out_state, const dmrg_options &options,
 }
 torch::Tensor dmrg(MPO &hamiltonian, MPS &in_out_state, const dmrg_options &options, dmrg_logger &logger)
 {
+	check_two_sites_length(hamiltonian, in_out_state);
 	dmrg_gradient_guard guard(hamiltonian, in_out_state, options);
 	auto Env = generate_env(hamiltonian, in_out_state);
 	auto TwositesH = compute_2sitesHamil(hamiltonian);
@@ -109,7 +127,7 @@ torch::Tensor dmrg(MPO &hamiltonian, MPS &in_out_state, const dmrg_options &opti
 std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const dmrg_options &options,
                                dmrg_logger &logger)
 {
-	auto length = hamiltonian.size();
+	check_two_sites_length(hamiltonian);
 	auto out_mps = random_MPS(options.minimum_bond, hamiltonian, qnum);
 	// size_t counter=0;
 	// for(auto&a:out_mps){fmt::print("====== ===pos {}===========\n{}",counter++,a);}
@@ -118,7 +136,7 @@ std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const
 }
 std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &options, dmrg_logger &logger)
 {
-	auto length = hamiltonian.size();
+	check_two_sites_length(hamiltonian);
 	auto out_mps = random_MPS(options.minimum_bond, hamiltonian);
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
 	return std::make_tuple(E0, out_mps);
-- 
2.43.0


From 374750e8754f6d83a232bd34ef93ebe587517241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 097/119] fix: dmrg threw when asked to track gradients, and
 tracked them when asked not to

---
 sources/dmrg.cpp | 55 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 38299da..c67840c 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -64,28 +64,53 @@ std::tuple<torch::Tensor, torch::Tensor> two_sites_update(const torch::Tensor &s
                                                           const torch::Tensor &Left_environment,
                                                           const torch::Tensor &Right_environment);
 
+bool requires_grad(const torch::Tensor &X) { return X.requires_grad(); }
+bool requires_grad(const btensor &X)
+{
+	return std::any_of(X.begin(), X.end(), [](const auto &block) { return std::get<1>(block).requires_grad(); });
+}
+/**
+ * Turn the tracing of gradients on or off. A tensor that's already traced keeps its history when the tracing is on.
+ */
+void set_tracing(torch::Tensor &X, bool trace)
+{
+	if (X.requires_grad() == trace)
+		return;
+	X = X.detach();
+	if (trace)
+		X.requires_grad_(true);
+}
+void set_tracing(btensor &X, bool trace)
+{
+	for (auto &block : X) set_tracing(std::get<1>(block), trace);
+}
+
 template <class MPO_t, class MPS_t>
 class dmrg_gradient_guard
 {
 	MPO_t &hamil;
 	MPS_t &state;
-	bool guard_hamil;
-	bool guard_state;
-	torch::TensorOptions hamil_opt;
-	torch::TensorOptions state_opt;
+	MPO_t original_hamil;
+	std::vector<char> state_required_grad;
 
   public:
 	dmrg_gradient_guard(MPO_t &_hamil, MPS_t &_state, const dmrg_options &options)
-	    : hamil(_hamil), state(_state), guard_hamil(options.hamil_gradient), guard_state(options.state_gradient),
-	      hamil_opt(hamil[0].options()), state_opt(state[0].options())
+	    : hamil(_hamil), state(_state), original_hamil(_hamil)
 	{
-		hamil.to_(torch::TensorOptions().requires_grad(guard_hamil));
-		state.to_(torch::TensorOptions().requires_grad(guard_state));
+		for (const auto &site : state) state_required_grad.push_back(requires_grad(site));
+		// a copy of a tensor shares its data and its gradient: the hamiltonian of the caller isn't modified.
+		for (auto &site : hamil) set_tracing(site, options.hamil_gradient);
+		for (auto &site : state) set_tracing(site, options.state_gradient);
 	}
 	~dmrg_gradient_guard()
 	{
-		hamil.to_(hamil_opt);
-		state.to_(state_opt);
+		using std::swap;
+		swap(hamil, original_hamil);
+		for (size_t i = 0; i < state.size(); ++i)
+		{ // the optimized tensors aren't tracked unless the options ask for it.
+			if (state_required_grad[i] and !requires_grad(state[i]))
+				set_tracing(state[i], true);
+		}
 	}
 };
 
@@ -203,17 +228,17 @@ struct dmrg_2sites_update
 		auto local_state = tensordot(state[oc], state[oc + 1], {2}, {0});
 		std::tie(E0, local_state) = two_sites_update(local_state, twosite_hamil[oc], Env[oc - 1], Env[oc + 2]);
 		auto [u, d, v] = quantit::svd(local_state, 2, options.cutoff, options.minimum_bond, options.maximum_bond);
-		d /= sqrt(sum(d.pow(2)));
+		d = d / sqrt(sum(d.pow(2)));
 		if (forward)
 		{
 			state[oc] = u;
-			state[oc + 1] = (v.mul_(d).conj()).permute({2, 0, 1});
+			state[oc + 1] = (v.mul(d).conj()).permute({2, 0, 1});
 			Env[oc] = compute_left_env(hamil[oc], state[oc], Env[oc - 1]);
 		}
 		else
 		{
 			auto d_r = d.reshape_as(shape_from(unsqueezing_shape, d));
-			state[oc] = u.mul_(d);
+			state[oc] = u.mul(d);
 			state[oc + 1] = (v.conj()).permute({2, 0, 1});
 			Env[oc + 1] = compute_right_env(hamil[oc + 1], state[oc + 1], Env[oc + 2]);
 		}
@@ -617,7 +642,7 @@ std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &s
 	// the dtype isn't complex... hopefully will be solved on pytorch's end once the complex support is completed
 	auto a0 = (tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}));
 	// fmt::print("a0 {}\n",a0);
-	psi_ip -= state * a0;
+	psi_ip = psi_ip - state * a0; // out of place: the gradients might need the value used above.
 	auto b = sqrt((tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));
 	const bool non_singular = [&]()
 	{
@@ -625,7 +650,7 @@ std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &s
 		return X.to<bool>();
 	}();
 	if (non_singular)
-		psi_ip /= b;
+		psi_ip = psi_ip / b;
 	// fmt::print("\t\tnon singular {}\n",non_singular);
 	auto a1 = (tensordot(psi_ip.conj(), quantit::details::hamil2site_times_state(psi_ip, hamil, Lenv, Renv),
 	                     {0, 1, 2, 3}, {0, 1, 2, 3}));
-- 
2.43.0


From f77d60614ca2e1d389a8a20d32ddd1a98a9632c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 098/119] fix: the orthogonality centre of the state was
 misplaced by dmrg

---
 sources/dmrg.cpp | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index c67840c..a0755cc 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -19,6 +19,7 @@
 #include "torch_formatter.h"
 #include <fmt/core.h>
 #include <random>
+#include <utility>
 namespace quantit
 {
 
@@ -168,7 +169,7 @@ std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &option
 }
 
 template <class T, class MPS_t>
-auto sweep(MPS_t &state, T update, int step, size_t Nstep, size_t right_edge, size_t left_edge = 0)
+auto sweep(MPS_t &state, T &update, int step, size_t Nstep, size_t right_edge, size_t left_edge = 0)
 {
 	using tensor_t = typename dependant_tensor_network<MPS_t>::base_tensor_type;
 	tensor_t E0;
@@ -194,12 +195,13 @@ struct dmrg_2sites_update
 	using tensor_t = typename dependant_tensor_network<MPO_t>::base_tensor_type;
 	const MPT_t &twosite_hamil;
 	size_t &oc;
+	size_t centre; // where the orthogonality center really is, oc is the position of the next update.
 	env_t &Env;
 	const dmrg_options &options;
 
 	dmrg_2sites_update(const MPO_t &_hamil, const MPT_t &_twosites_hamil, size_t &_oc, env_t &_Env,
 	                   const dmrg_options &_options)
-	    : hamil(_hamil), twosite_hamil(_twosites_hamil), oc(_oc), Env(_Env), options(_options)
+	    : hamil(_hamil), twosite_hamil(_twosites_hamil), oc(_oc), centre(_oc), Env(_Env), options(_options)
 	{
 	}
 	// using print = dummy_print.operator();
@@ -244,6 +246,7 @@ struct dmrg_2sites_update
 		}
 		// fmt::print("full norm: \n{}\n",contract(sta6te,state));
 		// fmt::print("full E: \n{}\n",contract(state,state,hamil));
+		centre = forward ? oc + 1 : oc;
 		oc += step;
 		return E0;
 	}
@@ -272,12 +275,11 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 		step = 0;
 	// fmt::print("step {}\n",step);
 	auto &oc = in_out_state.oc;
+	dmrg_2sites_update update(hamiltonian, two_sites_hamil, oc, Env, options);
 	if (oc == in_out_state.size() - 1)
 	{
-		--init_pos;
 		--oc;
 	}
-	dmrg_2sites_update update(hamiltonian, two_sites_hamil, oc, Env, options);
 	auto iteration = 0u;
 	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
@@ -285,7 +287,9 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 		btensor E0_tens;
 		std::tie(E0_tens, step) =
 		    sweep(in_out_state, update, step, 2 * N_step, in_out_state.size() - 2); // sweep from the oc and back to it.
+		const auto next_update = std::exchange(oc, update.centre); // the logger sees the real center.
 		logger.it_log_all(iteration, E0_tens, in_out_state);
+		oc = next_update;
 		swap(E0, E0_tens);
 		if (!((((E0 - E0_tens) / E0).abs() > options.convergence_criterion))
 		         .item()
@@ -297,14 +301,7 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 		}
 		// E0 = E0_tens;
 	}
-	if (oc != init_pos)
-	{
-		// The oc isn't actually where the orthogonaility center variable says it is in the python binding after
-		// dmrg....
-		if (oc != init_pos - 1 and init_pos != in_out_state.size() - 1)
-			throw std::runtime_error(fmt::format(
-			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
-	}
+	oc = update.centre; // a leftward update leaves the center one site to the right of the next update.
 	if (oc != init_pos)
 		in_out_state.move_oc(init_pos);
 
@@ -334,12 +331,11 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 		step = 0;
 	// fmt::print("step {}\n",step);
 	auto &oc = in_out_state.oc;
+	dmrg_2sites_update update(hamiltonian, twosites_hamil, oc, Env, options);
 	if (oc == in_out_state.size() - 1)
 	{
-		--init_pos;
 		--oc;
 	}
-	dmrg_2sites_update update(hamiltonian, twosites_hamil, oc, Env, options);
 	auto iteration = 0u;
 	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
@@ -347,7 +343,9 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 		// fmt::print("\nSweep\n\n");
 		std::tie(E0_update, step) =
 		    sweep(in_out_state, update, step, 2 * N_step, in_out_state.size() - 2); // sweep from the oc and back to it.
+		const auto next_update = std::exchange(oc, update.centre); // the logger sees the real center.
 		logger.it_log_all(iteration, E0_update, in_out_state);
+		oc = next_update;
 		std::swap(E0, E0_update);
 		// print("{:-^40}\n", "");
 		if (!((abs(E0_update - E0) > options.convergence_criterion))
@@ -358,13 +356,7 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 			break;
 		}
 	}
-	if (oc != init_pos)
-	{
-		if (oc != init_pos - 1 and init_pos != in_out_state.size() - 1)
-			throw std::runtime_error(fmt::format(
-			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
-	}
-	oc += (oc == 0); // The oc never really finishes at 0 with the current algo.
+	oc = update.centre;
 	// The leftward sweep finishes with the oc at 1, but set the oc at 0,
 	// such the site 0 and 1 are updated together once by the next rightward sweep.
 	// this trickery is necessary to get this optimization without writing special code in the sweeper.
-- 
2.43.0


From ea4dedf679bc9bc3e5a05676c7f52b1508528976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 099/119] fix: dmrg refused small or complex initial states,
 and didn't refuse a null block state

---
 sources/dmrg.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index a0755cc..dac6f8c 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -251,6 +251,13 @@ struct dmrg_2sites_update
 		return E0;
 	}
 };
+template <class MPS_t>
+void check_norm(const MPS_t &state)
+{
+	// The value is real up to rounding errors when the state is complex
+	if (!(contract(state, state).item().toComplexDouble().real() > 0)) // also true when the norm is nan.
+		throw std::invalid_argument("initial state has zero norm!");
+}
 /**
  * @brief Shared implementation of the differeent interface to dmrg with 2 sites update.
  *
@@ -265,6 +272,7 @@ struct dmrg_2sites_update
 btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil, bMPS &in_out_state,
                            const dmrg_options &options, benv_holder &Env, dmrg_logger &logger)
 {
+	check_norm(in_out_state);
 	btensor E0 = quantit::full({}, hamiltonian[0].selection_rule->neutral(), 100000.0,
 	                           hamiltonian[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
@@ -317,10 +325,7 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_hamil, MPS &in_out_state,
                                  const dmrg_options &options, env_holder &Env, dmrg_logger &logger)
 {
-	// TODO check for non-zero input.
-	auto norm = contract(in_out_state, in_out_state).item().toDouble();
-	if (norm == 0 or norm < 1e-15)
-		throw std::invalid_argument("initial state has zero norm!"); // this test is less than ideal.
+	check_norm(in_out_state);
 	torch::Tensor E0 = torch::full({}, 100000.0, in_out_state[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
 	size_t init_pos = in_out_state.orthogonality_center;
-- 
2.43.0


From d9ae582f6f0b54ed53791d6fcee248b146c5c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 100/119] fix: dmrg destroyed local eigenstates and supposed
 the initial state was normalised

---
 sources/dmrg.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index dac6f8c..14a07b6 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -628,6 +628,19 @@ std::tuple<btensor, btensor, btensor> details::eig2x2Mat(const btensor &a0, cons
 	return eig2x2Mat_impl(a0, a1, b);
 }
 
+/**
+ * false when the state is an eigenstate of the hamiltonian to within rounding errors.
+ */
+template <class Tensor>
+bool lanczos_non_singular(const Tensor &a0, const Tensor &b)
+{
+	const auto type = c10::typeMetaToScalarType(b.options().dtype());
+	const double eps = (type == torch::kFloat or type == torch::kComplexFloat)
+	                       ? std::numeric_limits<float>::epsilon()
+	                       : std::numeric_limits<double>::epsilon();
+	const double threshold = std::max(1e-15, 64 * eps * std::abs(a0.item().toComplexDouble()));
+	return !(std::abs(b.item().toComplexDouble()) < threshold); // true for nan
+}
 template <class Tensor>
 std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &state, const Tensor &hamil,
                                                                  const Tensor &Lenv, const Tensor &Renv)
@@ -640,13 +653,10 @@ std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &s
 	auto a0 = (tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}));
 	// fmt::print("a0 {}\n",a0);
 	psi_ip = psi_ip - state * a0; // out of place: the gradients might need the value used above.
+	// once more: what's left may be dominated by the rounding errors of the first subtraction
+	psi_ip = psi_ip - state * tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3});
 	auto b = sqrt((tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));
-	const bool non_singular = [&]()
-	{
-		btensor::Scalar X = ge(b.abs(), 1e-15).item();
-		return X.to<bool>();
-	}();
-	if (non_singular)
+	if (lanczos_non_singular(a0, b))
 		psi_ip = psi_ip / b;
 	// fmt::print("\t\tnon singular {}\n",non_singular);
 	auto a1 = (tensordot(psi_ip.conj(), quantit::details::hamil2site_times_state(psi_ip, hamil, Lenv, Renv),
@@ -668,10 +678,14 @@ std::tuple<btensor, btensor, btensor, btensor> details::one_step_lanczos(const b
  * return the energy, and the state. In that order
  */
 template <class Tensor>
-std::tuple<Tensor, Tensor> two_sites_update_impl(const Tensor &state, const Tensor &hamil, const Tensor &Lenv,
+std::tuple<Tensor, Tensor> two_sites_update_impl(const Tensor &in_state, const Tensor &hamil, const Tensor &Lenv,
                                                  const Tensor &Renv)
 {
+	const auto state =
+	    in_state / sqrt(tensordot(in_state, in_state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})); // the matrix elements suppose a normalized state
 	auto [psi_ip, a0, a1, b] = one_step_lanczos(state, hamil, Lenv, Renv);
+	if (!lanczos_non_singular(a0, b))
+		return std::make_tuple(a0, state); // psi_ip is null, there's nothing to improve the state with.
 	// print("STATE UPDATE\nnorm psi_ip {}\n",
 	//    tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}).item().toDouble());
 	// fmt::print("Psi_ip {}\n\na0 {}\n\n a1 {}\n\nb
-- 
2.43.0


From a1576210a1a52795d32368964477516371ec2db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 101/119] fix: dmrg returned an arbitrary energy when no
 iteration was allowed

---
 sources/dmrg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 14a07b6..65b5b79 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -289,6 +289,8 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 		--oc;
 	}
 	auto iteration = 0u;
+	if (options.maximum_iterations == 0) // there won't be any update to compute the energy.
+		E0 = contract(in_out_state, in_out_state, hamiltonian) / contract(in_out_state, in_out_state);
 	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
 	{
@@ -342,6 +344,8 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 		--oc;
 	}
 	auto iteration = 0u;
+	if (options.maximum_iterations == 0) // there won't be any update to compute the energy.
+		E0 = contract(in_out_state, in_out_state, hamiltonian) / contract(in_out_state, in_out_state);
 	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
 	{
-- 
2.43.0


From 962e256c48ec830d12cf13bf121c1a7d02cbfc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 102/119] fix: the last step number given to the dmrg logger
 wasn't the one of the last iteration

---
 sources/dmrg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 65b5b79..8de01f2 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -315,6 +315,8 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 	if (oc != init_pos)
 		in_out_state.move_oc(init_pos);
 
+	// the loop went one past the last iteration, unless the convergence criterion stopped it.
+	iteration -= (iteration > 0 and iteration == options.maximum_iterations);
 	logger.end_log_all(iteration, E0, in_out_state);
 
 	return E0;
@@ -372,6 +374,8 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 	if (oc != init_pos) // then we actually move it back to its origin location.
 		in_out_state.move_oc(init_pos);
 
+	// the loop went one past the last iteration, unless the convergence criterion stopped it.
+	iteration -= (iteration > 0 and iteration == options.maximum_iterations);
 	logger.end_log_all(iteration, E0, in_out_state);
 
 	return E0;
-- 
2.43.0


From 1baa29ae939aecd69cdda4564d72d8f2156d0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 103/119] fix: dmrg from a random state ignored the type of the
 hamiltonian and a null minimum bond

---
 sources/dmrg.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 8de01f2..ea1ad84 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -150,11 +150,24 @@ torch::Tensor dmrg(MPO &hamiltonian, MPS &in_out_state, const dmrg_options &opti
 	return details::dmrg_impl(hamiltonian, TwositesH, in_out_state, options, Env, logger);
 }
 
+/**
+ * options for the initial state: that of the hamiltonian, unless it's incapable of representing the state.
+ */
+template <class MPO_t>
+torch::TensorOptions initial_state_options(const MPO_t &hamil)
+{
+	torch::TensorOptions out = hamil[0].options();
+	const auto type = c10::typeMetaToScalarType(out.dtype());
+	if (!c10::isFloatingType(type) and !c10::isComplexType(type))
+		out = out.dtype(torch::get_default_dtype());
+	return out.requires_grad(c10::nullopt);
+}
 std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const dmrg_options &options,
                                dmrg_logger &logger)
 {
 	check_two_sites_length(hamiltonian);
-	auto out_mps = random_MPS(options.minimum_bond, hamiltonian, qnum);
+	auto out_mps =
+	    random_MPS(std::max<size_t>(options.minimum_bond, 1), hamiltonian, qnum, initial_state_options(hamiltonian));
 	// size_t counter=0;
 	// for(auto&a:out_mps){fmt::print("====== ===pos {}===========\n{}",counter++,a);}
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
@@ -163,7 +176,7 @@ std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const
 std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &options, dmrg_logger &logger)
 {
 	check_two_sites_length(hamiltonian);
-	auto out_mps = random_MPS(options.minimum_bond, hamiltonian);
+	auto out_mps = random_MPS(std::max<size_t>(options.minimum_bond, 1), hamiltonian, initial_state_options(hamiltonian));
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
 	return std::make_tuple(E0, out_mps);
 }
-- 
2.43.0


From 0408dd834d89aeadaaef02bd809d9b3a4b6adf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 104/119] fix: the dmrg options and loggers didn't include what
 they use

---
 include/dmrg_logger.h  | 3 +++
 include/dmrg_options.h | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/dmrg_logger.h b/include/dmrg_logger.h
index a5d4bfb..6d75f41 100644
--- a/include/dmrg_logger.h
+++ b/include/dmrg_logger.h
@@ -13,7 +13,10 @@
 #include "MPT.h"
 #include "blockTensor/btensor.h"
 #include "dmrg_options.h"
+#include <algorithm>
+#include <chrono>
 #include <torch/torch.h>
+#include <vector>
 
 namespace quantit
 {
diff --git a/include/dmrg_options.h b/include/dmrg_options.h
index c9358f4..3f3127a 100644
--- a/include/dmrg_options.h
+++ b/include/dmrg_options.h
@@ -9,6 +9,8 @@
 
 #ifndef INCLUDE_DMRG_OPTIONS_H
 #define INCLUDE_DMRG_OPTIONS_H
+#include <cstddef>
+#include <limits>
 namespace quantit
 {
 
-- 
2.43.0


From e4d7b6c406c9ee605e3cda283b85d88769e3f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 105/119] fix: dmrg truncated random initial states as if they
 were canonical

---
 sources/dmrg.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index ea1ad84..d121d90 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -150,6 +150,18 @@ torch::Tensor dmrg(MPO &hamiltonian, MPS &in_out_state, const dmrg_options &opti
 	return details::dmrg_impl(hamiltonian, TwositesH, in_out_state, options, Env, logger);
 }
 
+/**
+ * put the state in the canonical form its orthogonality center claims, the truncations of dmrg suppose it.
+ */
+template <class MPS_t>
+void canonicalize(MPS_t &state)
+{
+	const size_t oc = state.orthogonality_center;
+	state.move_oc(0);
+	state.move_oc(state.size() - 1);
+	state.move_oc(0);
+	state.move_oc(oc);
+}
 /**
  * options for the initial state: that of the hamiltonian, unless it's incapable of representing the state.
  */
@@ -168,6 +180,7 @@ std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const
 	check_two_sites_length(hamiltonian);
 	auto out_mps =
 	    random_MPS(std::max<size_t>(options.minimum_bond, 1), hamiltonian, qnum, initial_state_options(hamiltonian));
+	canonicalize(out_mps);
 	// size_t counter=0;
 	// for(auto&a:out_mps){fmt::print("====== ===pos {}===========\n{}",counter++,a);}
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
@@ -177,6 +190,7 @@ std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &option
 {
 	check_two_sites_length(hamiltonian);
 	auto out_mps = random_MPS(std::max<size_t>(options.minimum_bond, 1), hamiltonian, initial_state_options(hamiltonian));
+	canonicalize(out_mps);
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
 	return std::make_tuple(E0, out_mps);
 }
-- 
2.43.0


From b105bf684713208182e9624bd431a6679ebeda8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:16 +0000
Subject: [PATCH 106/119] fix: dmrg misplaced the orthogonality centre when the
 initialisation of the logger threw

---
 sources/dmrg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index d121d90..ad6869f 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -300,6 +300,7 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
                            const dmrg_options &options, benv_holder &Env, dmrg_logger &logger)
 {
 	check_norm(in_out_state);
+	logger.init(options); // may throw: nothing was done to the state yet.
 	btensor E0 = quantit::full({}, hamiltonian[0].selection_rule->neutral(), 100000.0,
 	                           hamiltonian[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
@@ -318,7 +319,6 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 	auto iteration = 0u;
 	if (options.maximum_iterations == 0) // there won't be any update to compute the energy.
 		E0 = contract(in_out_state, in_out_state, hamiltonian) / contract(in_out_state, in_out_state);
-	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
 	{
 		btensor E0_tens;
@@ -357,6 +357,7 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
                                  const dmrg_options &options, env_holder &Env, dmrg_logger &logger)
 {
 	check_norm(in_out_state);
+	logger.init(options); // may throw: nothing was done to the state yet.
 	torch::Tensor E0 = torch::full({}, 100000.0, in_out_state[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
 	size_t init_pos = in_out_state.orthogonality_center;
@@ -375,7 +376,6 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 	auto iteration = 0u;
 	if (options.maximum_iterations == 0) // there won't be any update to compute the energy.
 		E0 = contract(in_out_state, in_out_state, hamiltonian) / contract(in_out_state, in_out_state);
-	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
 	{
 		// fmt::print("\nSweep\n\n");
-- 
2.43.0


From ddae311056769157dc17b76eb2bacaa00b5d3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 107/119] fix: contracting block tensors that require gradients
 threw when a block had a dimension of size one

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 3169782..6c60f4b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1952,7 +1952,7 @@ btensor::block_list_t permute_bl(const btensor::block_list_t &block_list, torch:
 				// 	fmt::print("wtf?\n");
 				// }
 				// fmt::print("new_stride: {} ", new_stride);
-				tens.as_strided_(tens.sizes(), new_stride);
+				tens = tens.as_strided(tens.sizes(), new_stride); // not in place: tens might be a view of a leaf of the gradients
 				// fmt::print("after: {} \n", tens.strides());
 			}
 
-- 
2.43.0


From ddb255eddb05b57c7c2b964bffaf7b14b8f35318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 108/119] fix: emplace_back of a chain gives back the new
 element and not a copy of it

---
 include/MPT.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MPT.h b/include/MPT.h
index eacdc8b..9ee458e 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -190,7 +190,7 @@ class vector_lift
 	void push_back(const Tens &val) { tensors.push_back(val); }
 	void push_back(Tens &&val) { tensors.push_back(val); }
 	template <class... Args>
-	auto emplace_back(Args &&...args)
+	decltype(auto) emplace_back(Args &&...args)
 	{
 		return tensors.emplace_back(std::forward<Args>(args)...);
 	}
-- 
2.43.0


From 45baa731b52b8835da3db2a7998b1a4a0f8ca3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 109/119] fix: moving the orthogonality center of a chain that
 was cut before it read past the end

---
 sources/MPT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index b3af5e6..f188d64 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -28,6 +28,8 @@ void MPS::move_oc(int i)
 {
 	if (not(i >= 0 and i < size()))
 		throw std::invalid_argument(" Proposed orthogonality center falls outside the MPS");
+	if (orthogonality_center >= size())
+		throw std::invalid_argument("the tensor of the current orthogonality center was removed");
 	auto dims = (*this)[orthogonality_center].sizes();
 	auto prod = [&dims](size_t start, size_t end)
 	{
@@ -76,6 +78,8 @@ void bMPS::move_oc(int i)
 {
 	if (not(i >= 0 and i < size()))
 		throw std::invalid_argument(" Proposed orthogonality center falls outside the MPS");
+	if (orthogonality_center >= size())
+		throw std::invalid_argument("the tensor of the current orthogonality center was removed");
 
 	while (i < orthogonality_center)
 	{
-- 
2.43.0


From 40812b912ccebff33d1b089bc3a317d1c35a5453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 110/119] fix: the line length in the format of a tensor lost
 its first and last digits, and short lines never ended

---
 include/torch_formatter.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/torch_formatter.h b/include/torch_formatter.h
index 0accb4d..7565694 100644
--- a/include/torch_formatter.h
+++ b/include/torch_formatter.h
@@ -17,6 +17,7 @@
 #include <torch/torch.h>
 #include <fmt/ostream.h>
 #include <fmt/format.h>
+#include <algorithm>
 #include <charconv>
 namespace quantit
 {
@@ -36,24 +37,17 @@ struct fmt::formatter<torch::Tensor>
 		auto it = ctx.begin(), end = ctx.end();
 		if (it and *it != '}')
 		{
-			++it;
 			auto first_pos = it;
 			while (it != end && *it != '}')
 			{
 				++it;
 			}
-			auto last_pos = it - 1;
 			uint width = 80;
-			if (last_pos > first_pos)
-			{
-				auto code = std::from_chars(first_pos, last_pos, width);
-				if (code.ptr != last_pos || std::errc::invalid_argument == code.ec)
-					throw format_error("invalid format, only a single integer supported for torch::Tensor");
-				else
-				{
-					linelenght = width;
-				}
-			}
+			auto code = std::from_chars(first_pos, it, width);
+			if (code.ptr != it || code.ec != std::errc())
+				throw format_error("invalid format, only a single integer supported for torch::Tensor");
+			// torch never ends when a column doesn't fit in the line
+			linelenght = std::max(width, 16u);
 		}
 		if (it and *it != '}')
 			throw format_error("invalid format,closing brace missing");
-- 
2.43.0


From a460567fcfd557d4068044f4571a064c6578e54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 111/119] fix: an in place addition keeps one element type, or
 is refused before anything is changed

Blocks present only in the added tensor kept their own element type, and an addition torch refuses was either accepted
or threw halfway through, with undefined blocks left in the tensor.
---
 sources/btensor.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 6c60f4b..cca8b08 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2816,10 +2816,13 @@ btensor &btensor::add_(const btensor &other, Scalar alpha)
 	// of is to implement the state sharing logic at the level of the btensor as well. That's quite a bit of work
 	// and won't be done right away.
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	// throws before anything is changed if torch can't add in place a tensor of that type
+	torch::ones({1}, options()).add_(torch::ones({1}, other.options()), alpha);
+	const auto dtype = torch::typeMetaToScalarType(options().dtype());
 	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });
 	this->blocks_list.merge(
 	    other.blocks_list, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
+	    [&alpha, dtype](torch::Tensor &x) { x = x.mul(alpha).to(dtype); });
 	return *this;
 }
 /**
@@ -2828,17 +2831,20 @@ btensor &btensor::add_(const btensor &other, Scalar alpha)
 btensor &btensor::add_(btensor &&other, Scalar alpha)
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	// throws before anything is changed if torch can't add in place a tensor of that type
+	torch::ones({1}, options()).add_(torch::ones({1}, other.options()), alpha);
+	const auto dtype = torch::typeMetaToScalarType(options().dtype());
 	auto b_blocks = std::move(other.blocks_list);
 	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });
 	this->blocks_list.merge(
 	    b_blocks, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    [&alpha](torch::Tensor &x)
+	    [&alpha, dtype](torch::Tensor &x)
 	    {
 		    // greater than 2 because we've just made a temp copy for this algorithm. A view has its own reference count
 		    // but shares its storage.
-		    if (get_refcount(x) > 2 or x.storage().use_count() > 1)
+		    if (get_refcount(x) > 2 or x.storage().use_count() > 1 or x.dtype() != dtype)
 		    {
-			    x = x.mul(alpha);
+			    x = x.mul(alpha).to(dtype);
 		    }
 		    else
 		    {
-- 
2.43.0


From 262433b8332ea3c362c7148b981caeae5dbff5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 112/119] fix: an addition with a multiplier that doesn't fit
 the element types is refused as torch does

---
 sources/btensor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index cca8b08..2a25f53 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2754,7 +2754,9 @@ btensor btensor::add(const btensor &other, Scalar alpha) const
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
 	auto out = *this;
 	// all the blocks have the same type, even those that are present in a single operand
-	const auto dtype = promote_types(options().dtype(), other.options().dtype());
+	// throws before anything is computed if torch can't add tensors of those types
+	const auto dtype = torch::typeMetaToScalarType(
+	    torch::ones({1}, options()).add(torch::ones({1}, other.options()), alpha).dtype());
 	out._options = out._options.merge_in(dtype);
 	for (auto &a : out)
 	{
@@ -2777,7 +2779,9 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
 	auto out = *this;
 	// all the blocks have the same type, even those that are present in a single operand
-	const auto dtype = promote_types(options().dtype(), other.options().dtype());
+	// throws before anything is computed if torch can't add tensors of those types
+	const auto dtype = torch::typeMetaToScalarType(
+	    torch::ones({1}, options()).add(torch::ones({1}, other.options()), alpha).dtype());
 	out._options = out._options.merge_in(dtype);
 	for (auto &a : out)
 	{
-- 
2.43.0


From 5eb5c915b1f6624379667c391d2942c8901ecd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 113/119] fix: adding a scalar gives the element type torch
 gives

The sum of an integer tensor and 0.5 truncated the scalar, a complex scalar couldn't be added to a real tensor, and in
place the additions torch refuses were done with a truncated scalar.
---
 sources/btensor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 2a25f53..7a68e53 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1670,10 +1670,13 @@ btensor::Scalar Scalar_mul(btensor::Scalar a, btensor::Scalar b)
 }
 btensor btensor::add(btensor::Scalar other, btensor::Scalar alpha) const
 {
-	return full_like(*this, Scalar_mul(other, alpha)).add_(*this);
+	// the types follow torch's rules for a tensor and a scalar, among which refusals
+	auto out_opt = torch::ones({1}, options()).add(other, alpha).options();
+	return full_like(*this, Scalar_mul(other, alpha), out_opt).add_(*this);
 }
 btensor &btensor::add_(btensor::Scalar other, btensor::Scalar alpha)
 {
+	torch::ones({1}, options()).add_(other, alpha); // throws when the scalar can't be added in place to that type
 	return add_(full_like(*this, Scalar_mul(other, alpha)));
 }
 btensor &btensor::pow_(btensor::Scalar exponent)
-- 
2.43.0


From 1209eecda90d6a8d060aa82e316539ac03f1ab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 114/119] fix: a scalar divided by a tensor announces the type
 of its blocks

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 7a68e53..2290751 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3272,7 +3272,7 @@ std::tuple<btensor::index_list, btensor::index_list> btensor::element_index_deco
 }
 btensor operator/(const btensor::Scalar &A, const btensor &B)
 {
-	auto out = quantit::sparse_zeros_like(B);
+	auto out = quantit::sparse_zeros_like(B, (A / torch::ones({1}, B.options())).options());
 	out.reserve_space_(std::distance(B.begin(), B.end()));
 	for (const auto &in : B)
 	{
-- 
2.43.0


From 2b6d04e1957f5c809e34ec5536f724808cb5d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 115/119] fix: the quotient of integer tensors announces the
 type of its blocks

---
 sources/btensor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 2290751..7569b74 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1754,7 +1754,9 @@ btensor btensor::broadcast_operation(const btensor &other, F &&f) const
 	auto dtype = torch::typeMetaToScalarType(options().dtype());
 	if constexpr (promote)
 	{
-		dtype = promote_types(options().dtype(), other.options().dtype());
+		// the type of the blocks, e.g. a quotient of integers isn't an integer
+		dtype =
+		    torch::typeMetaToScalarType(f(torch::ones({1}, options()), torch::ones({1}, other.options())).dtype());
 	}
 	// fmt::print("new_sections_by_dim {}\n", new_sections_by_dim);
 	// fmt::print("new_cvals {}\n", new_cvals);
-- 
2.43.0


From 9729794b584014c9018a28af2c461b04e6523ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 116/119] fix: the sum of an integer tensor without blocks has
 the type of any other sum

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 7569b74..aa8bd26 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1581,7 +1581,7 @@ btensor btensor::sum() const
 {
 	auto out = btensor({}, selection_rule->neutral(), this->options());
 	auto list = new_block_list_apply_to_all_blocks([](const torch::Tensor &t) { return t.sum(); });
-	torch::Tensor out_val = torch::zeros({}, options());
+	torch::Tensor out_val = torch::zeros({}, options()).sum(); // the sum of integers is of a wider type
 	for (auto &a : list)
 	{
 		out_val = out_val + std::get<1>(a);
-- 
2.43.0


From 6cf321460483f0914807249be11979511d8455a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 117/119] fix: in place products keep the element type of the
 tensor, or are refused before anything is changed

---
 sources/btensor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index aa8bd26..1339612 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1293,6 +1293,12 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 	// tensor has a large enough rank.
 	if (other.rank > rank)
 		throw std::invalid_argument("the rank of the output of an inplace operation can't be increased by broadcasting");
+	{
+		// throws before anything is changed if torch can't do the operation in place on those types
+		auto probe = torch::ones({1}, options());
+		f_(probe, torch::ones({1}, other.options()));
+	}
+	const auto dtype = torch::typeMetaToScalarType(options().dtype());
 
 	const auto &smaller_rank = std::min(rank, other.rank);
 	const auto &larger_rank = std::max(rank, other.rank);
@@ -1356,7 +1362,7 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 					                   f_(this_tensor, other_tensor));
 				else
 					out_blocks.emplace(out_blocks.end(), mul_helpers::out_index(smaller_rank, this_index, other_index),
-					                   f(this_tensor, other_tensor));
+					                   f(this_tensor, other_tensor).to(dtype));
 			}
 		}
 	}
-- 
2.43.0


From 24aa4d18b7f2637c543555a41f21ed77b23cae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:42 +0000
Subject: [PATCH 118/119] fix: a default constructed block tensor has rank 0
 and not an undetermined rank

---
 include/blockTensor/btensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index a1bea8a..4345415 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -818,7 +818,7 @@ class btensor
 	std::tuple<index_list, index_list> element_index_decompose(const index_list &element_index) const;
 
   private:
-	int rank;
+	int rank = 0;
 	/**
 	 * @brief number of section for each of the dimensions of the tensor
 	 *
-- 
2.43.0


From b9338bc2e311a2292c220cf667dd3c48cb174189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 119/119] fix: decompositions of tensors whose blocks have no
 elements had bonds of size zero

---
 sources/btensor_linalg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index fe8eecf..46971d6 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -257,6 +257,10 @@ compact_dense(const btensor &tensor)
 	}
 	// concatenate the blocs according to their bloc position.
 	// return the tensor and the list.
+	// a matrix without elements has no values nor vectors, it would only add a section of size zero to the bond.
+	out_tensors.erase(std::remove_if(out_tensors.begin(), out_tensors.end(),
+	                                 [](const auto &a) { return std::get<0>(a).numel() == 0; }),
+	                  out_tensors.end());
 	return out_tensors;
 }
 using Slice = torch::indexing::Slice;
-- 
2.43.0

