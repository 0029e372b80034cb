From d56820ae6c98030ab0ca3b580d953bff8aceafb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 001/100] fix: copy_backward_fast clamps the unaligned head and
 resumes the tail at the right byte

---
 ualgobase.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ualgobase.cc b/ualgobase.cc
index 9561e6f..2fcacd0 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -142,6 +142,7 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
     size_t nBytes (distance (first, last));
     movsb_dir_down();
     size_t nHeadBytes = uintptr_t(last) % 4;
+    nHeadBytes = min (nHeadBytes, nBytes);
     advance (last, -1);
     advance (result, -1);
     movsb (last, nHeadBytes, result);
@@ -151,6 +152,8 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
 	advance (last, -3);
 	advance (result, -3);
 	movsd (last, nMiddleBlocks, result);
+	advance (last, 3);
+	advance (result, 3);
 	nBytes %= 4;
     }
     movsb (last, nBytes, result);
-- 
2.43.0


From a8111ad767472bd6bc55a2d7c3a0f97b94541221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 002/100] fix: copy_backward on bytes returns the beginning of
 its result

---
 ualgobase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ualgobase.h b/ualgobase.h
index 1d9b28a..fbdd938 100644
--- a/ualgobase.h
+++ b/ualgobase.h
@@ -200,7 +200,7 @@ template <>
 inline uint8_t* copy_backward (const uint8_t* first, const uint8_t* last, uint8_t* result)
 {
     copy_backward_fast (first, last, result);
-    return result;
+    return result - (last - first);
 }
 
 template <typename T>
-- 
2.43.0


From 56749cc1fe41344a4a65e38723a4f83b7d0d08be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 003/100] fix: rotate returns the new position of the first
 element

---
 ualgo.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index c95b699..4e54e14 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -204,14 +204,17 @@ inline constexpr OutputIterator reverse_copy (BidirectionalIterator first, Bidir
 template <typename ForwardIterator>
 constexpr ForwardIterator rotate (ForwardIterator first, ForwardIterator middle, ForwardIterator last)
 {
-    if (first == middle || middle == last)
+    if (first == middle)
+	return last;
+    if (middle == last)
 	return first;
+    const ForwardIterator rv (first + (last - middle));
     reverse (first, middle);
     reverse (middle, last);
     for (;first != middle && middle != last; ++first)
 	iter_swap (first, --last);
     reverse (first, (first == middle ? last : middle));
-    return first;
+    return rv;
 }
 
 /// Specialization for pointers, which can be treated identically.
@@ -219,7 +222,7 @@ template <typename T>
 inline T* rotate (T* first, T* middle, T* last)
 {
     rotate_fast (first, middle, last);
-    return first;
+    return first + (last - middle);
 }
  
 
-- 
2.43.0


From 365ed8b1ff868957b5ba5b1466edb54791846f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 004/100] fix: memblock::reserve does not read past the end of
 a linked block

---
 memblock.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index a90cc68..96cf47c 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -88,8 +88,12 @@ void memblock::reserve (size_type newSize, bool bExact)
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
-    if (!oldBlock & (cdata() != nullptr))
-	copy_n (cdata(), min (size() + 1, newSize), newBlock);
+    if (!oldBlock & (cdata() != nullptr)) {
+	const size_type nCopied = min (size(), newSize);
+	copy_n (cdata(), nCopied, newBlock);
+	if (nCopied < newSize)
+	    newBlock[nCopied] = 0;
+    }
     link (newBlock, size());
     _capacity = newSize;
 }
-- 
2.43.0


From adde7971b791df6f2be81bfbdc6a183b6256600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 005/100] fix: memblock::reserve of a linked block provides
 room for its contents

---
 memblock.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memblock.cc b/memblock.cc
index 96cf47c..b0a63e9 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -81,6 +81,7 @@ void memblock::reserve (size_type newSize, bool bExact)
 {
     if ((newSize += minimumFreeCapacity()) <= _capacity)
 	return;
+    newSize = max (newSize, size() + minimumFreeCapacity());	// a linked block must keep its contents
     pointer oldBlock (is_linked() ? nullptr : data());
     const size_t alignedSize (NextPow2 (newSize));
     if (!bExact)
-- 
2.43.0


From a334c2412816a1f100efee269c96d01b25f821bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 006/100] fix: memblock::reserve does not truncate sizes above
 2G

---
 memblock.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memblock.cc b/memblock.cc
index b0a63e9..6020c9c 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -85,7 +85,7 @@ void memblock::reserve (size_type newSize, bool bExact)
     pointer oldBlock (is_linked() ? nullptr : data());
     const size_t alignedSize (NextPow2 (newSize));
     if (!bExact)
-	newSize = alignedSize;
+	newSize = max (newSize, alignedSize);	// NextPow2 is 32 bit
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
-- 
2.43.0


From 7e1ae3d9cee9c8a058f97e58848e6492c649600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 007/100] fix: vector insertion and resize accept an element of
 the vector itself

---
 uvector.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/uvector.h b/uvector.h
index 4e33096..400ef6b 100644
--- a/uvector.h
+++ b/uvector.h
@@ -123,6 +123,7 @@ protected:
 private:
     inline iterator		insert_hole (const_iterator ip, size_type n);
     inline iterator		append_hole (size_type n);
+    inline bool			is_element (const T& v) const	{ return &v >= begin() && &v < end(); }
     void			destroy_all (void)
 				    { if (!is_linked()) destroy (begin(), end()); }
 private:
@@ -164,6 +165,10 @@ void vector<T>::resize (size_type n)
 template <typename T>
 void vector<T>::resize (size_type n, const_reference v)
 {
+    if (is_element (v)) {	// will be moved or destroyed
+	const T t (v);
+	return resize (n, t);
+    }
     size_type nb = n*sizeof(T);
     _data.reserve (nb);
     iterator inewend = iterator(_data.begin()+nb);
@@ -275,6 +280,10 @@ inline typename vector<T>::iterator vector<T>::insert_space (const_iterator ip,
 template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, size_type n, const T& v)
 {
+    if (is_element (v)) {	// will be moved by the insertion
+	const T t (v);
+	return insert (ip, n, t);
+    }
     iterator d = insert_hole (ip, n);
     uninitialized_fill_n (d, n, v);
     return d;
@@ -284,6 +293,10 @@ inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, size_t
 template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, const T& v)
 {
+    if (is_element (v)) {	// will be moved by the insertion
+	const T t (v);
+	return insert (ip, t);
+    }
     iterator d = insert_hole (ip, 1);
     construct_at (d, v);
     return d;
@@ -320,6 +333,10 @@ inline typename vector<T>::iterator vector<T>::erase (const_iterator ep1, const_
 template <typename T>
 inline void vector<T>::push_back (const T& v)
 {
+    if (is_element (v)) {	// will be moved by reallocation
+	const T t (v);
+	return push_back (t);
+    }
     construct_at (append_hole(1), v);
 }
 
-- 
2.43.0


From 17256754f742b43a5bf62813cf9ddc31846e87e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 008/100] fix: vector equality compares elements, not their
 bytes

---
 uvector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uvector.h b/uvector.h
index 400ef6b..bfa907d 100644
--- a/uvector.h
+++ b/uvector.h
@@ -43,7 +43,7 @@ public:
 				vector (const_iterator i1, const_iterator i2);
     inline			~vector (void) noexcept;
     inline const vector&	operator= (const vector& v);
-    inline bool			operator== (const vector& v) const	{ return _data == v._data; }
+    inline bool			operator== (const vector& v) const	{ return size() == v.size() && equal (begin(), end(), v.begin()); }
     inline			operator cmemlink (void) const	{ return cmemlink (_data); }
     inline			operator cmemlink (void)	{ return cmemlink (_data); }
     inline			operator memlink (void)		{ return memlink (_data); }
-- 
2.43.0


From 5326a564b1b3eeb85057964798683d53e9050822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 009/100] fix: construct_at from an rvalue compiles

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 13ec13a..8990266 100644
--- a/umemory.h
+++ b/umemory.h
@@ -321,7 +321,7 @@ inline void construct_at (T* p, const T& value)
 ///
 template <typename T>
 inline void construct_at (T* p, T&& value)
-    { new (p) T (move<T>(value)); }
+    { new (p) T (move (value)); }
 #endif
 
 template <typename T>
-- 
2.43.0


From dcad0a379b7e609f0515d25c19b5994a14e77b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 010/100] fix: queue::swap and move assignment compile

---
 uqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index 5701e2c..fd64b88 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -38,7 +38,7 @@ public:
 					_front = 0;
 				    }
 				}
-    inline void			swap (queue& v)			{ _storage.swap (v); swap (_front, v._front); }
+    inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
     inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
-- 
2.43.0


From f36469b8f71007813964dd7197d4f04837102356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 011/100] fix: stack::swap and move assignment compile

---
 ustack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustack.h b/ustack.h
index 0599842..5d62502 100644
--- a/ustack.h
+++ b/ustack.h
@@ -31,7 +31,7 @@ public:
     inline const_reference	top (void) const		{ return _storage.back(); }
     inline void			push (const_reference v)	{ _storage.push_back (v); }
     inline void			pop (void)			{ _storage.pop_back(); }
-    inline void			swap (stack& v)			{ _storage.swap (v); }
+    inline void			swap (stack& v)			{ _storage.swap (v._storage); }
     inline bool			operator== (const stack& s) const	{ return _storage == s._storage; }
     inline bool			operator< (const stack& s) const	{ return _storage.size() < s._storage.size(); }
 #if HAVE_CPP11
-- 
2.43.0


From 199aea1ecb75deb1ad562549e7931afb5d8a6298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 012/100] fix: list, queue and stack are copy assignable

---
 ulist.h  | 1 +
 uqueue.h | 1 +
 ustack.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/ulist.h b/ulist.h
index a911529..81be45d 100644
--- a/ulist.h
+++ b/ulist.h
@@ -28,6 +28,7 @@ public:
     inline			list (size_type n, const T& v)	: vector<T> (n, v) {}
     inline			list (const list<T>& v)		: vector<T> (v) {}
     inline			list (const_iterator i1, const_iterator i2)	: vector<T> (i1, i2) {}
+    inline const list&		operator= (const list& v)	{ vector<T>::operator= (v); return *this; }
     inline size_type		size (void) const		{ return vector<T>::size(); }
     inline iterator		begin (void)			{ return vector<T>::begin(); }
     inline const_iterator	begin (void) const		{ return vector<T>::begin(); }
diff --git a/uqueue.h b/uqueue.h
index fd64b88..19bea13 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -25,6 +25,7 @@ public:
     inline			queue (void)			: _storage(), _front (0) { }
     explicit inline		queue (const container_type& s)	: _storage (s), _front (0) { }
     explicit inline		queue (const queue& s)		: _storage (s._storage), _front (0) { }
+    inline const queue&		operator= (const queue& s)	{ _storage = s._storage; _front = s._front; return *this; }
     inline size_type		size (void) const		{ return _storage.size() - _front; }
     inline bool			empty (void) const		{ return !size(); }
     inline reference		front (void)			{ return _storage [_front]; }
diff --git a/ustack.h b/ustack.h
index 5d62502..c27f5cf 100644
--- a/ustack.h
+++ b/ustack.h
@@ -25,6 +25,7 @@ public:
     inline			stack (void)			: _storage () { }
     explicit inline		stack (const container_type& s)	: _storage (s) { }
     explicit inline		stack (const stack& s)		: _storage (s._storage) { }
+    inline const stack&		operator= (const stack& s)	{ _storage = s._storage; return *this; }
     inline bool			empty (void) const		{ return _storage.empty(); }
     inline size_type		size (void) const		{ return _storage.size(); }
     inline reference		top (void)			{ return _storage.back(); }
-- 
2.43.0


From cd79a92ea11b4eeebb5191b4695e1c0fae837e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 013/100] fix: copies of a queue do not bring back popped
 elements

---
 uqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index 19bea13..a27204c 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -24,7 +24,7 @@ public:
 public:
     inline			queue (void)			: _storage(), _front (0) { }
     explicit inline		queue (const container_type& s)	: _storage (s), _front (0) { }
-    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (0) { }
+    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (s._front) { }
     inline const queue&		operator= (const queue& s)	{ _storage = s._storage; _front = s._front; return *this; }
     inline size_type		size (void) const		{ return _storage.size() - _front; }
     inline bool			empty (void) const		{ return !size(); }
-- 
2.43.0


From 7227b7c7b5df27264669631705fcc2d98a568546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 014/100] fix: queue equality ignores popped elements

---
 uqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index a27204c..20aae84 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -40,7 +40,7 @@ public:
 				    }
 				}
     inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
-    inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
+    inline bool			operator== (const queue& s) const	{ return size() == s.size() && equal (_storage.begin() + _front, _storage.end(), s._storage.begin() + s._front); }
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
     inline			queue (queue&& v)		: _storage(move(v._storage)),_front(v._front) { v._front = 0; }
-- 
2.43.0


From 557738b2f6efebd8c56fdbd95743693ac9830124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 015/100] fix: set::insert with a hint and emplace_hint compile

---
 uset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uset.h b/uset.h
index 51220d4..25a6da0 100644
--- a/uset.h
+++ b/uset.h
@@ -73,7 +73,7 @@ public:
     inline			set (initlist_t v)			: base_class() { insert (v.begin(), v.end()); }
     inline set&			operator= (set&& v)			{ base_class::operator= (move(v)); return *this; }
     insertrv_t			insert (T&& v);
-    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)); }
+    inline iterator		insert (const_iterator, T&& v)		{ return insert(move(v)).first; }
     inline void			insert (initlist_t v)			{ insert (v.begin(), v.end()); }
     template <typename... Args>
     inline insertrv_t		emplace (Args&&... args)		{ return insert (T(forward<Args>(args)...)); }
-- 
2.43.0


From 1ef76ac464658e4c6bd70290e0a9bf9cfcee4271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 016/100] fix: set and multiset find use the set's own order

---
 umultiset.h | 2 +-
 uset.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/umultiset.h b/umultiset.h
index b8e0272..1923d2f 100644
--- a/umultiset.h
+++ b/umultiset.h
@@ -48,7 +48,7 @@ public:
     inline Comp			value_comp (void) const			{ return Comp(); }
     inline Comp			key_comp (void) const			{ return value_comp(); }
     inline void			assign (const_iterator i1, const_iterator i2)	{ clear(); insert (i1, i2); }
-    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
diff --git a/uset.h b/uset.h
index 25a6da0..2e3f31f 100644
--- a/uset.h
+++ b/uset.h
@@ -46,7 +46,7 @@ public:
     inline iterator		end (void)		{ return base_class::end(); }
     inline const_iterator	end (void) const	{ return base_class::end(); }
     inline const_iterator	cend (void) const	{ return base_class::cend(); }
-    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)	{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
-- 
2.43.0


From d9af4d1c7a54dda39830a0aa58ad6c8d75a3716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 017/100] fix: string::replace must not write into linked text

---
 ustring.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index 261e47d..b2f996b 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -225,7 +225,9 @@ string& string::replace (const_iterator first, const_iterator last, const_pointe
     assert (first >= begin() && first <= end() && last >= first && last <= end());
     assert ((i1 < begin() || i1 >= end() || abs_distance(i1,i2) * n + size() < capacity()) && "Replacement by self can not autoresize");
     const size_type bte = distance(first, last), bti = distance(i1, i2) * n;
-    memblock::const_iterator rp = static_cast<memblock::const_iterator>(first);
+    const uoff_t rpo = distance (cdata(), static_cast<memblock::const_iterator>(first));
+    reserve (size());	// copy-on-write, as equal length replacement does not resize
+    memblock::const_iterator rp = memblock::iat (rpo);
     if (bti < bte)
 	rp = memblock::erase (rp, bte - bti);
     else if (bte < bti)
-- 
2.43.0


From 5722b53b322778baa21f575b9f30155fe253db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:59 +0000
Subject: [PATCH 018/100] fix: memblock::shrink_to_fit must keep the minimum
 free capacity

---
 memblock.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index 6020c9c..d9ace04 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -104,10 +104,11 @@ void memblock::shrink_to_fit (void)
 {
     if (is_linked())
 	return;
-    pointer newBlock = static_cast<pointer> (realloc (begin(), size()));
-    if (!newBlock && size())
-	throw bad_alloc (size());
-    _capacity = size();
+    const size_type newCapacity = size() + minimumFreeCapacity();
+    pointer newBlock = static_cast<pointer> (realloc (begin(), newCapacity));
+    if (!newBlock && newCapacity)
+	throw bad_alloc (newCapacity);
+    _capacity = newCapacity;
     memlink::relink (newBlock, size());
 }
 
-- 
2.43.0


From 85532f887378bcccbff4814b19b5893a01700254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 019/100] fix: string::insert of a string inserts it once

---
 ustring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.h b/ustring.h
index c13eac2..0123fc9 100644
--- a/ustring.h
+++ b/ustring.h
@@ -157,7 +157,7 @@ public:
     inline string&		insert (pos_type ip, size_type n, value_type c)				{ insert (iat(ip), n, c); return *this; }
     inline string&		insert (pos_type ip, const_pointer s)					{ insert (iat(ip), s, s + strlen(s)); return *this; }
     inline string&		insert (pos_type ip, const_pointer s, size_type nlen)			{ insert (iat(ip), s, s + nlen); return *this; }
-    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.c_str(), s.size()); return *this; }
+    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.begin(), s.end()); return *this; }
     inline string&		insert (pos_type ip, const string& s, size_type sp, size_type slen)	{ insert (iat(ip), s.iat(sp), s.iat(sp + slen)); return *this; }
     string&			insert (pos_type ip, size_type n, wvalue_type c);
     string&			insert (pos_type ip, const_wpointer first, const_wpointer last, size_type n = 1);
-- 
2.43.0


From 30765aefb612534da33c6a0db164ce3e385bde50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 020/100] fix: string::append of a part of itself

---
 ustring.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ustring.cc b/ustring.cc
index b2f996b..a169483 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -82,7 +82,11 @@ string& string::append (const_pointer s)
 /// Appends to itself the value of string \p s of length \p len.
 string& string::append (const_pointer s, size_type len)
 {
+    const bool isSelf = !is_linked() && s >= begin() && s < end();
+    const uoff_t so = isSelf ? s - begin() : 0;
     resize (size() + len);
+    if (isSelf)	// follow the reallocated text
+	s = begin() + so;
     copy_n (s, len, end() - len);
     return *this;
 }
-- 
2.43.0


From 0f4faa95e87c49f5bf5b6248dd1cc76c06e7e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 021/100] fix: string::format of an empty result and of a
 format error

---
 ustring.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index a169483..185cec9 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -337,8 +337,12 @@ int string::vformat (const char* fmt, va_list args)
     do {
 	__va_copy (args2, args);
 	rv = vsnprintf (data(), wcap = memblock::capacity(), fmt, args2);
+	if (rv < 0) {	// output error
+	    clear();
+	    break;
+	}
 	resize (rv);
-    } while (rv >= wcap);
+    } while (rv && rv >= wcap);	// an empty result always fits
     return rv;
 }
 
-- 
2.43.0


From 7a0e6423f9fc759e5909e4fc95ba36931dccf533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 022/100] fix: refuse a size with no room for the minimum free
 capacity

---
 memblock.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/memblock.cc b/memblock.cc
index d9ace04..e286c0b 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -27,7 +27,7 @@ void memblock::unlink (void) noexcept
 /// resizes the block to \p newSize bytes, reallocating if necessary.
 void memblock::resize (size_type newSize, bool bExact)
 {
-    if (_capacity < newSize + minimumFreeCapacity())
+    if (_capacity < newSize + minimumFreeCapacity() || newSize > SIZE_MAX - minimumFreeCapacity())
 	reserve (newSize, bExact);
     memlink::resize (newSize);
 }
@@ -79,6 +79,8 @@ void memblock::assign (const void* p, size_type n)
 ///
 void memblock::reserve (size_type newSize, bool bExact)
 {
+    if (newSize > SIZE_MAX - minimumFreeCapacity())
+	throw bad_alloc (newSize);
     if ((newSize += minimumFreeCapacity()) <= _capacity)
 	return;
     newSize = max (newSize, size() + minimumFreeCapacity());	// a linked block must keep its contents
-- 
2.43.0


From ac4af5661b144ac2f47d31db1c25fb4f0475afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:50 +0000
Subject: [PATCH 023/100] fix: string::rfind of text at the start of the string

---
 ustring.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index 185cec9..e519461 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -277,14 +277,12 @@ string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of substring \p s of size \p n before \p pos.
 string::pos_type string::rfind (const string& s, pos_type pos) const noexcept
 {
-    const_iterator d = iat(pos) - 1;
-    const_iterator sp = begin() + s.size() - 1;
-    const_iterator m = s.end() - 1;
-    for (long int i = 0; d > sp && size_type(i) < s.size(); -- d)
-	for (i = 0; size_type(i) < s.size(); ++ i)
-	    if (m[-i] != d[-i])
-		break;
-    return d > sp ? pos_type (distance (begin(), d + 2 - s.size())) : npos;
+    if (s.empty() || s.size() > size())
+	return npos;
+    for (size_type i = min (size_type(pos), size() - s.size()) + 1; i--;)
+	if (memcmp (begin() + i, s.begin(), s.size()) == 0)
+	    return i;
+    return npos;
 }
 
 /// Returns the offset of the first occurence of one of characters in \p s of size \p n after \p pos.
-- 
2.43.0


From b90823fc135139c36cc31a0b9bad8fc259e99c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:52 +0000
Subject: [PATCH 024/100] fix: reverse string searches of an empty string

---
 ustring.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index e519461..3b690dd 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -268,7 +268,7 @@ string::pos_type string::find (const string& s, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of character \p c before \p pos.
 string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; --i)
+    for (size_type i = size_type(pos) < size() ? pos+1 : size(); i--;)
 	if (at(i) == c)
 	    return i;
     return npos;
@@ -306,7 +306,7 @@ string::pos_type string::find_first_not_of (const string& s, pos_type pos) const
 /// Returns the offset of the last occurence of one of characters in \p s of size \p n before \p pos.
 string::pos_type string::find_last_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(size_type(pos),size()-1); i >= 0; -- i)
+    for (size_type i = size_type(pos) < size() ? pos+1 : size(); i--;)
 	if (s.find (at(i)) != npos)
 	    return i;
     return npos;
@@ -315,7 +315,7 @@ string::pos_type string::find_last_of (const string& s, pos_type pos) const noex
 /// Returns the offset of the last occurence of one of characters not in \p s of size \p n before \p pos.
 string::pos_type string::find_last_not_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; -- i)
+    for (size_type i = size_type(pos) < size() ? pos+1 : size(); i--;)
 	if (s.find (at(i)) == npos)
 	    return i;
     return npos;
-- 
2.43.0


From 0c93776a2934e0177afa19350a90ec652da97714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 025/100] fix: string <= and >= a C string must compare the
 text

---
 ustring.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ustring.h b/ustring.h
index 0123fc9..14215e7 100644
--- a/ustring.h
+++ b/ustring.h
@@ -154,6 +154,8 @@ public:
     inline bool			operator< (value_type c) const		{ return 0 > compare (begin(), end(), &c, &c + 1); }
     inline bool			operator< (uvalue_type c) const		{ return operator< (value_type(c)); }
     inline bool			operator> (const_pointer s) const	{ return 0 < compare (s); }
+    inline bool			operator<= (const_pointer s) const	{ return 0 >= compare (s); }
+    inline bool			operator>= (const_pointer s) const	{ return 0 <= compare (s); }
     inline string&		insert (pos_type ip, size_type n, value_type c)				{ insert (iat(ip), n, c); return *this; }
     inline string&		insert (pos_type ip, const_pointer s)					{ insert (iat(ip), s, s + strlen(s)); return *this; }
     inline string&		insert (pos_type ip, const_pointer s, size_type nlen)			{ insert (iat(ip), s, s + nlen); return *this; }
-- 
2.43.0


From 6029fec639feb984d776d7c3692ce1752efd073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 026/100] fix: UTF-8 encoding of values above 0x7fffffff

---
 utf8.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utf8.h b/utf8.h
index 7fb47d0..04c472c 100644
--- a/utf8.h
+++ b/utf8.h
@@ -183,10 +183,11 @@ utf8out_iterator<Iterator,WChar>& utf8out_iterator<Iterator,WChar>::operator= (W
     if (nBytes > 1) {
 	// Write the bits 6 bits at a time, except for the first one,
 	// which may be less than 6 bits.
+	const uint64_t bits = uint32_t(v);	// 7 byte sequences shift by more than 32
 	wchar_t shift = nBytes * 6;
-	*_i++ = ((v >> (shift -= 6)) & 0x3F) | (0xFF << (8 - nBytes));
+	*_i++ = ((bits >> (shift -= 6)) & 0x3F) | (0xFF << (8 - nBytes));
 	while (shift)
-	    *_i++ = ((v >> (shift -= 6)) & 0x3F) | 0x80;
+	    *_i++ = ((bits >> (shift -= 6)) & 0x3F) | 0x80;
     } else	// If only one byte, there is no header.
 	*_i++ = v;
     return *this;
-- 
2.43.0


From f16f168103fdf4f0718ffd90f6fc8d6179baed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:01 +0000
Subject: [PATCH 027/100] fix: distance to a UTF-8 iterator at a multibyte
 character

---
 utf8.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utf8.h b/utf8.h
index 04c472c..3f29097 100644
--- a/utf8.h
+++ b/utf8.h
@@ -140,7 +140,8 @@ typename utf8in_iterator<Iterator,WChar>::difference_type
 utf8in_iterator<Iterator,WChar>::operator- (const utf8in_iterator<Iterator,WChar>& last) const
 {
     difference_type dist = 0;
-    for (Iterator first (last._i); first < _i; ++dist)
+    const Iterator end (base());	// _i is at the last byte of the character
+    for (Iterator first (last._i); first < end; ++dist)
 	advance (first, Utf8SequenceBytes (*first));
     return dist;
 }
-- 
2.43.0


From b9df3d537985ae58829f240420a529247e073560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 028/100] fix: ostream::align must align the position, as
 istream::align does

---
 mistream.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mistream.cc b/mistream.cc
index ea99d97..623feb4 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -78,8 +78,7 @@ void ostream::align (size_type grain)
 {
     assert (!((grain-1)&grain) && "grain must be a power of 2");
     iterator ip = ipos();
-    iterator ipa = iterator((uintptr_t(ip) + (grain-1)) & ~(grain-1));
-    size_t nb = distance (ip, ipa);
+    const size_t nb = align_size (grain);	// by position, as istream::align does
 #if WANT_STREAM_BOUNDS_CHECKING
     if (!verify_remaining ("align", "padding", nb))
 	return;
-- 
2.43.0


From 6a6e07cc7044cb3146a5d872cd02d6567c30dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 029/100] fix: istream::read_strz of an unterminated string

---
 mistream.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mistream.cc b/mistream.cc
index 623feb4..0b64bf3 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -48,8 +48,10 @@ void istream::text_write (ostringstream& os) const
 void istream::read_strz (string& str)
 {
     const_iterator zp = find (ipos(), end(), '\0');
-    if (zp == end())
-	zp = ipos();
+    if (zp == end()) {
+	str.clear();
+	return overrun ("read", "null-terminated string", remaining()+1, pos(), remaining());
+    }
     const size_type strl = distance (ipos(), zp);
     str.assign (ipos(), strl);
     _pos += strl + 1;
-- 
2.43.0


From 9c3801414f16e3725bb7a0e1e731e260252de685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:29 +0000
Subject: [PATCH 030/100] fix: skip by more than remains must not wrap around

---
 mistream.h | 4 ++++
 mostream.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mistream.h b/mistream.h
index 4e32a1f..5a90501 100644
--- a/mistream.h
+++ b/mistream.h
@@ -208,6 +208,10 @@ inline void istream::seekg (off_t p, seekdir d)
 /// Skips \p nBytes without reading them.
 inline void istream::skip (streamsize nBytes)
 {
+#if WANT_STREAM_BOUNDS_CHECKING
+    if (!verify_remaining ("skip", "byte", nBytes))	// pos() + nBytes may wrap around
+	return;
+#endif
     seek (pos() + nBytes);
 }
 
diff --git a/mostream.h b/mostream.h
index 7e8ecaf..65e12bf 100644
--- a/mostream.h
+++ b/mostream.h
@@ -186,6 +186,10 @@ inline void ostream::seekp (off_t p, seekdir d)
 /// Skips \p nBytes without writing anything.
 inline void ostream::skip (streamsize nBytes)
 {
+#if WANT_STREAM_BOUNDS_CHECKING
+    if (!verify_remaining ("skip", "byte", nBytes))	// pos() + nBytes may wrap around
+	return;
+#endif
     seek (pos() + nBytes);
 }
 
-- 
2.43.0


From 268a9f0e308550251a2d8b460ed62145372aab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:28 +0000
Subject: [PATCH 031/100] fix: string::read used an uninitialized length at end
 of stream

---
 ustring.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ustring.cc b/ustring.cc
index 3b690dd..4e9ab18 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -364,6 +364,7 @@ size_t string::stream_size (void) const noexcept
 void string::read (istream& is)
 {
     char szbuf [8];
+    if (!is.verify_remaining ("read", "ustl::string", 1)) return;
     is >> szbuf[0];
     size_t szsz (Utf8SequenceBytes (szbuf[0]) - 1), n = 0;
     if (!is.verify_remaining ("read", "ustl::string", szsz)) return;
-- 
2.43.0


From 3f99cf1a91df69cde38b5d5c81fcca868676eddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 032/100] fix: negative istream_iterator difference for
 multibyte types

---
 mistream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mistream.h b/mistream.h
index 5a90501..fb28a64 100644
--- a/mistream.h
+++ b/mistream.h
@@ -144,7 +144,7 @@ public:
     inline istream_iterator&	operator+= (streamsize n)	{ while (n--) operator++(); return *this; }
     inline istream_iterator&	operator-= (streamsize n)	{ _pis->seek (_pis->pos() - (n + 1) * stream_size_of(_v)); return operator++(); }
     inline istream_iterator	operator- (streamoff n) const			{ istream_iterator result (*this); return result -= n; }
-    constexpr difference_type	operator- (const istream_iterator& i) const	{ return distance (i._pis->pos(), _pis->pos()) / stream_size_of(_v); }
+    constexpr difference_type	operator- (const istream_iterator& i) const	{ return distance (i._pis->pos(), _pis->pos()) / difference_type(stream_size_of(_v)); }
     constexpr bool		operator== (const istream_iterator& i) const	{ return (!_pis && !i._pis) || (_pis && i._pis && _pis->pos() == i._pis->pos()); }
     constexpr bool		operator< (const istream_iterator& i) const	{ return !i._pis || (_pis && _pis->pos() < i._pis->pos()); }
 private:
-- 
2.43.0


From 936be108ec275a112ad1001ddf92ece8665fdea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 033/100] fix: number extraction read past the end of text and
 restarted at buffer boundaries

---
 sistream.cc | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 4081cc8..87b6205 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -84,6 +84,10 @@ template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base,
     { v = strtoll (i, const_cast<char**>(iend), base); }
 #endif
 
+/// True if \p c may be a part of a number.
+inline bool is_number_char (char c)
+    { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '+' || c == '-' || c == '.'; }
+
 } //}}} namespace
 
 template <typename T>
@@ -93,11 +97,31 @@ inline void istringstream::read_number (T& v)
     if (!skip_delimiters())
 	return;
     ungetc();
-    iterator ilast;
-    do {
-	str_to_num<T> (ipos(), &ilast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : 0, v);
-	skip (distance (ipos(), ilast));
-    } while (ilast == end() && underflow());
+    string num;	// the conversion functions need a terminated string
+    issiter_t ilast;
+    for (;;) {
+	iterator i = ipos();
+	while (i < end() && (*i == ' ' || (*i >= '\t' && *i <= '\r')))
+	    ++i;
+	while (i < end() && is_number_char (*i))
+	    ++i;
+	num.assign (ipos(), i);
+	str_to_num<T> (num.c_str(), &ilast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : 0, v);
+	if (i < end())
+	    break;
+	// The number may continue in the next buffer; there being none is not an error here.
+	const iostate oldState (rdstate()), oldExceptions (exceptions());
+	exceptions (goodbit);
+	const bool bMore = underflow (num.size()+1) > num.size();
+	exceptions (oldExceptions);
+	if (!bMore) {
+	    clear (oldState);
+	    break;
+	}
+    }
+    skip (distance (num.c_str(), ilast));
+    if (!remaining())
+	underflow();
 }
 
 void istringstream::iread (int& v)		{ read_number (v); }
-- 
2.43.0


From 42cceacd75ccb7ee811b7083a287160ad13405b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 034/100] fix: unsigned long text above LONG_MAX was read as
 LONG_MAX

---
 sistream.cc | 8 ++++++++
 sistream.h  | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 87b6205..46f4c9a 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -77,12 +77,18 @@ typedef istringstream::iterator issiter_t;
 template <typename T>
 inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, T& v)
     { v = strtol (i, const_cast<char**>(iend), base); }
+template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, unsigned long& v)
+    { v = strtoul (i, const_cast<char**>(iend), base); }
 template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned, double& v)
     { v = strtod (i, const_cast<char**>(iend)); }
 #if HAVE_LONG_LONG && SIZE_OF_LONG_LONG > SIZE_OF_LONG
 template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, long long& v)
     { v = strtoll (i, const_cast<char**>(iend), base); }
 #endif
+#if HAVE_LONG_LONG
+template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, unsigned long long& v)
+    { v = strtoull (i, const_cast<char**>(iend), base); }
+#endif
 
 /// True if \p c may be a part of a number.
 inline bool is_number_char (char c)
@@ -125,10 +131,12 @@ inline void istringstream::read_number (T& v)
 }
 
 void istringstream::iread (int& v)		{ read_number (v); }
+void istringstream::iread (unsigned long& v)	{ read_number (v); }
 void istringstream::iread (double& v)		{ read_number (v); } 
 void istringstream::iread (long& v)		{ read_number (v); }
 #if HAVE_LONG_LONG
 void istringstream::iread (long long& v)	{ read_number (v); }
+void istringstream::iread (unsigned long long& v) { read_number (v); }
 #endif
 
 void istringstream::iread (wchar_t& v)
diff --git a/sistream.h b/sistream.h
index 9070bdf..399988a 100644
--- a/sistream.h
+++ b/sistream.h
@@ -37,13 +37,13 @@ public:
     inline void			iread (short& v)		{ int c; iread(c); v = c; }
     inline void			iread (unsigned short& v)	{ int c; iread(c); v = c; }
     void			iread (long& v);
-    inline void			iread (unsigned long& v)	{ long c; iread(c); v = c; }
+    void			iread (unsigned long& v);
 #if HAVE_THREE_CHAR_TYPES
     void			iread (signed char& v)		{ char c; iread(c); v = c; }
 #endif
 #if HAVE_LONG_LONG
     void			iread (long long& v);
-    inline void			iread (unsigned long long& v)	{ long long c; iread(c); v = c; }
+    void			iread (unsigned long long& v);
 #endif
     void			iread (double& v);
     inline void			iread (float& v)		{ double c; iread(c); v = c; }
-- 
2.43.0


From b494ab126bdf1666a6ed38ec977037dd1b0da2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:26 +0000
Subject: [PATCH 035/100] fix: bool extraction left the last letter at end of
 text and overran its name table

---
 sistream.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 46f4c9a..1b2bbf5 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -160,9 +160,13 @@ void istringstream::iread (bool& v)
     v = (c == 't' || c == '1');
     if (c != tf[v][0])
 	return;
-    for (const char* tv = tf[v]; c == *tv && (remaining() || underflow()); ++tv)
+    for (const char* tv = tf[v]; *++tv && (remaining() || underflow());) {
 	istream::iread (c);
-    ungetc();
+	if (c != *tv) {
+	    ungetc();
+	    break;
+	}
+    }
 }
 
 void istringstream::iread (string& v)
-- 
2.43.0


From ff7735516042420de85b7934ccc127df82469ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 036/100] fix: escaped backslash escaped the next character

---
 sistream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sistream.cc b/sistream.cc
index 1b2bbf5..0123243 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -196,6 +196,7 @@ void istringstream::iread (string& v)
 		case '\\':	c = '\\'; break;
 	    };
 	    v.end()[-1] = c;
+	    c = 0;	// an escaped backslash escapes nothing
 	} else {
 	    if (c == quoteChar)
 		break;
-- 
2.43.0


From 842eefc5558944ad1840f507abc3bb5a8df4a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 037/100] fix: short text read stopped at NUL and get returned
 0 at the end

---
 sistream.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 0123243..ce43553 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -207,10 +207,10 @@ void istringstream::iread (string& v)
 
 istringstream& istringstream::read (void* buffer, size_type sz)
 {
-    if (remaining() < sz && underflow(sz) < sz)
-	get (static_cast<char*>(buffer), sz, 0);
-    else
-	istream::read (buffer, _gcount = sz);
+    const size_type nr = (remaining() < sz && underflow(sz) < sz) ? remaining() : sz;
+    istream::read (buffer, _gcount = nr);
+    if (nr < sz)
+	underflow();	// at the end now
     return *this;
 }
 
-- 
2.43.0


From 2ff349d03388222d4d5ee640fdc467c2e0ca8f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 038/100] fix: peek at end of text moved the cursor back

---
 sistream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sistream.h b/sistream.h
index 399988a..e548cf4 100644
--- a/sistream.h
+++ b/sistream.h
@@ -61,7 +61,7 @@ public:
     istringstream&		getline (char* p, size_type n, char delim = '\n');
     istringstream&		getline (string& s, char delim = '\n');
     istringstream&		ignore (size_type n, char delim = '\0');
-    inline char			peek (void)	{ char v = get(); ungetc(); return v; }
+    inline char			peek (void)	{ return (remaining() || underflow()) ? *ipos() : char(EOF); }
     inline istringstream&	unget (void)	{ ungetc(); return *this; }
     inline void			set_delimiters (const char* delimiters);
     istringstream&		read (void* buffer, size_type size);
-- 
2.43.0


From c313600ad150214b950e177cc60f1991f741df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 039/100] fix: ignore reported a wrong gcount

---
 sistream.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index ce43553..0c96e1f 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -270,9 +270,9 @@ istringstream& istringstream::getline (char* p, size_type n, char delim)
 /// Extract until \p delim or \p n chars have been read.
 istringstream& istringstream::ignore (size_type n, char delim)
 {
-    _gcount = n;
-    while (n-- && (remaining() || underflow()) && get() != delim) {}
-    _gcount -= n;
+    size_type ng = 0;	// get sets _gcount
+    while (ng < n && (remaining() || underflow()) && (++ng, get() != delim)) {}
+    _gcount = ng;
     return *this;
 }
 
-- 
2.43.0


From 4354fdaebf3b8a8d9f4388fa8e82deb8f4b6c591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 040/100] fix: write the width and precision digits of a text
 stream format in order

---
 sostream.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sostream.cc b/sostream.cc
index f094b17..d540e5b 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -64,9 +64,11 @@ ostringstream& ostringstream::write (const void* buffer, size_type sz)
 /// Simple decimal encoding of \p n into \p fmt.
 inline char* ostringstream::encode_dec (char* fmt, uint32_t n) const noexcept
 {
-    do {
-	*fmt++ = '0' + n % 10;
-    } while (n /= 10);
+    uint32_t place = 1;
+    while (n / place >= 10)
+	place *= 10;
+    for (; place; place /= 10)
+	*fmt++ = '0' + n / place % 10;
     return fmt;
 }
 
-- 
2.43.0


From 33732b15acc1d7944ca618d0d69f75cab787c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 041/100] fix: put text stream format flags before the width

---
 sostream.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sostream.cc b/sostream.cc
index d540e5b..a7e2241 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -76,11 +76,6 @@ inline char* ostringstream::encode_dec (char* fmt, uint32_t n) const noexcept
 void ostringstream::fmtstring (char* fmt, const char* typestr, bool bInteger) const
 {
     *fmt++ = '%';
-    if (_width) {
-	if (_fill == '0')
-	    *fmt++ = '0';
-	fmt = encode_dec (fmt, _width);
-    }
     if (_flags & left)
 	*fmt++ = '-';
     if (bInteger) {
@@ -88,7 +83,13 @@ void ostringstream::fmtstring (char* fmt, const char* typestr, bool bInteger) co
 	    *fmt++ = '+';
 	if (_flags & showbase)
 	    *fmt++ = '#';
-    } else {
+    }
+    if (_width) {
+	if (_fill == '0')
+	    *fmt++ = '0';
+	fmt = encode_dec (fmt, _width);
+    }
+    if (!bInteger) {
 	*fmt++ = '.';
 	fmt = encode_dec (fmt, _precision);
     }
-- 
2.43.0


From 089f5a3f5713c72b0d16e9334cecf763ce508a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:53 +0000
Subject: [PATCH 042/100] fix: keep the text of a linked ostringstream through
 flush and str

---
 sostream.cc | 22 ++++++++++++++++++++++
 sostream.h  |  2 +-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index a7e2241..f453802 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -159,11 +159,33 @@ void ostringstream::link (void* p, size_type n) noexcept
     _buffer.link (p, n);
 }
 
+/// Terminates the text, making it available through str()
+ostream& ostringstream::flush (void)
+{
+    ostream::flush();
+    if (_buffer.is_linked() && remaining()) {	// keep writing to the linked block
+	*ipos() = 0;
+	_buffer.link (begin(), pos());
+    } else {
+	const uoff_t oldPos (pos());
+	if (_buffer.is_linked())
+	    _buffer.link (begin(), oldPos);
+	_buffer.resize (oldPos);
+	if (_buffer.begin() != begin()) {	// it was linked to a full block
+	    ostream::link (_buffer);
+	    SetPos (oldPos);
+	}
+    }
+    return *this;
+}
+
 /// Attempts to create more output space. Returns remaining().
 ostringstream::size_type ostringstream::overflow (size_type n)
 {
     if (n > remaining() && (good() || n <= capacity() - pos())) {
 	const uoff_t oldPos (pos());
+	if (_buffer.is_linked())
+	    _buffer.link (begin(), oldPos);	// flush may have linked less
 	_buffer.reserve (oldPos + n, false);
 	_buffer.resize (oldPos + n);
 	ostream::link (_buffer);
diff --git a/sostream.h b/sostream.h
index 0c394c8..3161860 100644
--- a/sostream.h
+++ b/sostream.h
@@ -68,7 +68,7 @@ public:
     ostringstream&		write (const void* buffer, size_type size);
     inline ostringstream&	write (const cmemlink& buf)	{ return write (buf.begin(), buf.size()); }
     inline ostringstream&	seekp (off_t p, seekdir d =beg)	{ ostream::seekp(p,d); return *this; }
-    virtual ostream&		flush (void) override		{ ostream::flush(); _buffer.resize (pos()); return *this; }
+    virtual ostream&		flush (void) override;
     virtual size_type		overflow (size_type n = 1) override;
 protected:
     inline void			reserve (size_type n)		{ _buffer.reserve (n, false); }
-- 
2.43.0


From b020f08fb22d46ff10b3851b78caabb7fc866472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 043/100] fix: do not close a file descriptor again after a
 close error

---
 fstream.cc | 12 ++++++++++--
 fstream.h  |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index 37e9cc5..de60d27 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -118,13 +118,21 @@ void fstream::close (void)
 {
     if (_fd < 0)
 	return;	// already closed
-    while (::close(_fd)) {
+    const int ofd (_fd);
+    _fd = -1;	// an error does not leave it open
+    close_fd (ofd);
+    detach();
+}
+
+/// Closes \p ofd and throws on error.
+void fstream::close_fd (int ofd)
+{
+    while (::close(ofd)) {
 	if (errno != EINTR) {
 	    set_and_throw (badbit | failbit, "close");
 	    break;
 	}
     }
-    detach();
 }
 
 /// Moves the current file position to \p n.
diff --git a/fstream.h b/fstream.h
index 1f973b8..c8cf874 100644
--- a/fstream.h
+++ b/fstream.h
@@ -61,6 +61,7 @@ public:
 private:
     static int		om_to_flags (openmode m) noexcept;
     void		set_and_throw (iostate s, const char* op);
+    void		close_fd (int ofd);
 private:
     int			_fd;		///< Currently open file descriptor.
     string		_filename;	///< Currently open filename.
-- 
2.43.0


From 38ca5984c88835a2dbc9daccc1299e867378f70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 044/100] fix: keep the new name and descriptor when attach
 closes the old file

---
 fstream.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstream.cc b/fstream.cc
index de60d27..276ba6f 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -68,8 +68,10 @@ void fstream::attach (int nfd, const char* filename)
     clear (goodbit);
     if (nfd < 0)
 	set_and_throw (badbit, "open");
-    close();
+    const int ofd (_fd);
     _fd = nfd;
+    if (ofd >= 0)
+	close_fd (ofd);	// close would clear the new name and, throwing, lose nfd
 }
 
 /// Detaches from the current fd.
-- 
2.43.0


From c6c3a4f2c8cf11006aa3bb50d7aa9be25eb6b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 045/100] fix: stop flushing an ofstream after a write error
 and do not repeat written bytes

---
 ofstream.cc | 23 ++++++++++++++++++-----
 ofstream.h  |  2 ++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index fb99918..ee65701 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -6,6 +6,7 @@
 #include "ofstream.h"
 #include "ustring.h"
 #include "uexception.h"
+#include "ustdxept.h"
 #include <stdio.h>
 
 namespace ustl {
@@ -62,10 +63,24 @@ void ofstream::close (void)
 /// Flushes the buffer to the file.
 ostream& ofstream::flush (void)
 {
-    while (good() && pos() && overflow (capacity())) {}
+    while (good() && pos())
+	write_file();
     return *this;
 }
 
+/// Writes the buffered text to the file, erasing what was written.
+void ofstream::write_file (void)
+{
+    const iostate ex (_file.exceptions());
+    _file.exceptions (goodbit);		// nothing may be thrown before erasing
+    const size_type bw = _file.write (cdata(), pos());
+    _file.exceptions (ex);
+    erase (begin(), bw);
+    ostringstream::setstate (_file.rdstate());
+    if (_file.rdstate() & ex)
+	throw file_exception ("write", _file.name());
+}
+
 /// Seeks to \p p based on \p d.
 ofstream& ofstream::seekp (off_t p, seekdir d)
 {
@@ -78,10 +93,8 @@ ofstream& ofstream::seekp (off_t p, seekdir d)
 /// Called when more buffer space (\p n bytes) is needed.
 ofstream::size_type ofstream::overflow (size_type n)
 {
-    if (_file.good() && n > capacity() - pos()) {
-	size_type bw = _file.write (cdata(), pos());
-	erase (begin(), bw);
-    }
+    if (_file.good() && n > capacity() - pos())
+	write_file();
     return ostringstream::overflow (n);
 }
 
diff --git a/ofstream.h b/ofstream.h
index 413ba5a..e1cb46f 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -35,6 +35,8 @@ public:
     ofstream&		seekp (off_t p, seekdir d = beg);
     virtual ostream&	flush (void) override;
     virtual size_type	overflow (size_type n = 1) override;
+private:
+    void		write_file (void);
 private:
     fstream		_file;
 };
-- 
2.43.0


From b49293893efd0ed2548cb5eae2fd151af2b60829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:54 +0000
Subject: [PATCH 046/100] fix: drop read-ahead and write pending text to the
 old file when reopening file streams

---
 ofstream.cc | 9 +++++++++
 ofstream.h  | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index ee65701..c501844 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -52,6 +52,15 @@ ofstream::~ofstream (void) noexcept
 	_file.detach();
 }
 
+/// Opens \p filename in \p mode. What was written to the file already open goes there.
+void ofstream::open (const char* filename, openmode mode)
+{
+    if (is_open())
+	flush();
+    _file.open (filename, mode);
+    clear (_file.rdstate());
+}
+
 /// Flushes the buffer and closes the file.
 void ofstream::close (void)
 {
diff --git a/ofstream.h b/ofstream.h
index e1cb46f..de69ebe 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -19,7 +19,7 @@ public:
     explicit		ofstream (int ofd);
     explicit		ofstream (const char* filename, openmode mode = out);
     virtual		~ofstream (void) noexcept;
-    inline void		open (const char* filename, openmode mode = out) { _file.open (filename, mode); clear (_file.rdstate()); }
+    void		open (const char* filename, openmode mode = out);
     void		close (void);
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ ostringstream::exceptions(v); return _file.exceptions(v); }
@@ -49,7 +49,7 @@ public:
 			ifstream (void);
     explicit		ifstream (int ifd);
     explicit		ifstream (const char* filename, openmode mode = in);
-    inline void		open (const char* filename, openmode mode = in)	{ _file.open (filename, mode); clear (_file.rdstate()); }
+    inline void		open (const char* filename, openmode mode = in)	{ link (_buffer.data(), streamsize(0)); _file.open (filename, mode); clear (_file.rdstate()); }
     inline void		close (void)			{ _file.close(); clear (_file.rdstate()); }
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ istringstream::exceptions(v); return _file.exceptions(v); }
-- 
2.43.0


From 8ee3585c5ecb4587b809a2f815012fce6795730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:55 +0000
Subject: [PATCH 047/100] fix: account for read-ahead in relative
 ifstream::seekg

---
 ofstream.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index c501844..b65d8ca 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -192,8 +192,9 @@ int ifstream::sync (void)
 /// Seeks to \p p based on \p d.
 ifstream& ifstream::seekg (off_t p, seekdir d)
 {
-    _buffer.clear();
-    link (_buffer);
+    if (d == cur)
+	p -= remaining();	// the file is past what has been buffered
+    link (_buffer.data(), streamsize(0));
     _file.seekg (p, d);
     clear (_file.rdstate());
     return *this;
-- 
2.43.0


From eb710f9bcc90eb3bd9b071b0161fb685fe2ad97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 048/100] fix: keep unread bytes when ifstream refills its
 buffer

---
 ofstream.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index b65d8ca..b292c58 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -158,9 +158,9 @@ ifstream::size_type ifstream::underflow (size_type n)
 	_buffer.memlink::erase (_buffer.begin(), nToErase);
 	const uoff_t oldPos (pos() - nToErase);
 
-	size_type br = oldPos;
-	if (_buffer.size() - br < n) {
-	    _buffer.resize (br + neededFreeSpace);
+	size_type br = oldPos + remaining();	// what is not read yet stays
+	if (_buffer.size() - oldPos < n) {
+	    _buffer.resize (oldPos + neededFreeSpace);
 	    link (_buffer.data(), streamsize(0));
 	}
 	if (_file.fd() == STDIN_FILENO)
-- 
2.43.0


From 9ad3e0ac109478e5bf70a70f92804cfa312b4c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 049/100] fix: do not count the terminator of a truncated
 formatted text

---
 sostream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index f453802..c3a2c98 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -137,7 +137,7 @@ int ostringstream::vformat (const char* fmt, va_list args)
 	if (0 > (rv = vsnprintf (ipos(), space, fmt, args2)))
 	    return rv;
     } while (rv >= space && rv < int(overflow(rv+1)));
-    SetPos (pos() + min (rv, space));
+    SetPos (pos() + min (rv, max (space-1, 0)));	// a truncated text includes the terminator
     return rv;
 }
 
-- 
2.43.0


From 03509448d2991a5ff1bcd961104a490e587b1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:39 +0000
Subject: [PATCH 050/100] fix: deliver what was read before an error or end of
 file raises an exception

---
 ofstream.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ofstream.cc b/ofstream.cc
index b292c58..f9ae0df 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -166,14 +166,19 @@ ifstream::size_type ifstream::underflow (size_type n)
 	if (_file.fd() == STDIN_FILENO)
 	    cout.flush();
 
+	const iostate ex (_file.exceptions());
+	_file.exceptions (goodbit);	// nothing may be thrown before what was read is linked
 	size_type brn = 1;
 	for (; br < oldPos + n && brn && _file.good(); br += brn)
 	    brn = _file.readsome (_buffer.begin() + br, _buffer.size() - br);
+	_file.exceptions (ex);
 	clear (_file.rdstate());
 
 	_buffer[br] = 0;
 	link (_buffer.data(), br);
 	seek (oldPos);
+	if ((_file.rdstate() & ex) && !_file.eof())
+	    throw file_exception ("read", _file.name());
     }
     if (_file.eof())
 	verify_remaining ("read", _file.name(), n);
-- 
2.43.0


From 2da5d08e17ecfb318c399ce59c196d128424fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:13 +0000
Subject: [PATCH 051/100] fix: report ofstream close errors in the stream state

---
 ofstream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ofstream.cc b/ofstream.cc
index f9ae0df..bc7c467 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -67,6 +67,7 @@ void ofstream::close (void)
     clear (_file.rdstate());
     flush();
     _file.close();
+    clear (_file.rdstate());
 }
 
 /// Flushes the buffer to the file.
-- 
2.43.0


From e829da393bddd8db998e06cefa1d154daae2a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:38 +0000
Subject: [PATCH 052/100] fix: priority_queue::swap did not compile because the
 member hides ustl::swap

---
 uheap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uheap.h b/uheap.h
index 2fbbf81..02f6d8a 100644
--- a/uheap.h
+++ b/uheap.h
@@ -143,7 +143,7 @@ public:
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
     inline void			pop (void)		{ pop_heap (_v.begin(), _v.end()); _v.pop_back(); }
-    constexpr void		swap (priority_queue& v){ _v.swap (v._v); swap (_c, v._c); }
+    constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
     constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
-- 
2.43.0


From c3b8a477218e3f2088a1a92f2ae3e5ae5888cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 053/100] fix: priority_queue::pop ignored the comparator

---
 uheap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uheap.h b/uheap.h
index 02f6d8a..a17e544 100644
--- a/uheap.h
+++ b/uheap.h
@@ -142,7 +142,7 @@ public:
     constexpr bool			empty (void) const	{ return _v.empty(); }
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
-    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end()); _v.pop_back(); }
+    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end(), _c); _v.pop_back(); }
     constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
-- 
2.43.0


From 9b428e7651d4ea7d4147191a05c7cbf6f3aba96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 054/100] fix: priority_queue constructed from a container did
 not make it a heap

---
 uheap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uheap.h b/uheap.h
index a17e544..2a3ee67 100644
--- a/uheap.h
+++ b/uheap.h
@@ -135,7 +135,7 @@ public:
     typedef typename container_type::const_iterator	const_iterator;
 public:
     constexpr explicit		priority_queue (const Comp& c = Comp()) : _v(), _c(c) {}
-    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) {}
+    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr			priority_queue (const_iterator f, const_iterator l, const Comp& c = Comp())
 				    : _v(f, l), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr size_type		size (void) const	{ return _v.size(); }
@@ -146,7 +146,7 @@ public:
     constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
-    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
+    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) { make_heap (_v.begin(), _v.end(), _c); }
 				priority_queue (const_iterator f, const_iterator l, const Comp& c, container_type&& v)
 				    : _v(move(v)), _c(c) { _v.insert (_v.end(), f, l); make_heap (_v.begin(), _v.end(), _c); }
     constexpr priority_queue&	operator= (priority_queue&& v)	{ swap (v); return *this; }
-- 
2.43.0


From b1e5c54f7a564f783422099303c3a7abae3475c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:32 +0000
Subject: [PATCH 055/100] fix: find_end missed a match at the beginning and
 read before the range for long patterns

---
 upredalgo.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/upredalgo.h b/upredalgo.h
index 1ba9e29..be536e8 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -296,12 +296,12 @@ constexpr ForwardIterator1 search (ForwardIterator1 first1, ForwardIterator1 las
 template <typename ForwardIterator1, typename ForwardIterator2, typename BinaryPredicate>
 constexpr ForwardIterator1 find_end (ForwardIterator1 first1, ForwardIterator1 last1, ForwardIterator2 first2, ForwardIterator2 last2, BinaryPredicate comp)
 {
-    ForwardIterator1 s = last1 - distance(first2, last2);
-    for (; first1 < s; --s) {
-	ForwardIterator2 i = first2, j = s;
+    for (ptrdiff_t n = distance(first1, last1) - distance(first2, last2); n >= 0; --n) {
+	ForwardIterator2 i = first2;
+	ForwardIterator1 j = first1 + n;
 	for (; i != last2 && comp(*j, *i); ++i, ++j) {}
 	if (i == last2)
-	    return s;
+	    return first1 + n;
     }
     return last1;
 }
-- 
2.43.0


From 1a67122089395b5b0142c7b03368943814b41033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 056/100] fix: search_n for zero occurrences is found at once

---
 upredalgo.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/upredalgo.h b/upredalgo.h
index be536e8..3ae1ca9 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -312,6 +312,8 @@ constexpr ForwardIterator1 find_end (ForwardIterator1 first1, ForwardIterator1 l
 template <typename Iterator, typename T, typename BinaryPredicate>
 constexpr Iterator search_n (Iterator first, Iterator last, size_t count, const T& value, BinaryPredicate comp)
 {
+    if (!count)
+	return first;
     size_t n = 0;
     for (; first != last; ++first) {
 	if (!comp (*first, value))
-- 
2.43.0


From b5ebd425cba5dcc0ecc51ee81d82e43a024ec267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:40 +0000
Subject: [PATCH 057/100] fix: minmax_element returns the last of equally great
 elements

---
 ualgo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 4e54e14..f18df8f 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -682,7 +682,7 @@ constexpr pair<ForwardIterator,ForwardIterator> minmax_element (ForwardIterator
     for (; first != last; ++first) {
 	if (*first < *r.first)
 	    r.first = first;
-	if (*r.second < *first)
+	if (!(*first < *r.second))
 	    r.second = first;
     }
     return r;
@@ -694,7 +694,7 @@ constexpr pair<ForwardIterator,ForwardIterator> minmax_element (ForwardIterator
     for (; first != last; ++first) {
 	if (comp (*first, *r.first))
 	    r.first = first;
-	if (comp (*r.second, *first))
+	if (!comp (*first, *r.second))
 	    r.second = first;
     }
     return r;
-- 
2.43.0


From f7afda1a145bbd9f608718401d0094e3934d2cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 058/100] fix: minmax with a comparator was ambiguous with a
 deleted overload

---
 ualgo.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ualgo.h b/ualgo.h
index f18df8f..9ecf96b 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -649,7 +649,6 @@ template <typename T, typename Compare>
 inline constexpr auto minmax (const T& a, const T& b, Compare comp)
     { return comp(a,b) ? make_pair<const T&,const T&>(a,b) : make_pair<const T&,const T&>(b,a); }
 template <typename T> constexpr void minmax (T&& a, T&& b) = delete;
-template <typename T, typename Compare> constexpr void minmax (const T& a, const T& b, Compare comp) = delete;
 
 template <typename T>
 constexpr auto minmax (std::initializer_list<T> l)
-- 
2.43.0


From 7068626c15f71fccb19fec2189c95b7528a439a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:44 +0000
Subject: [PATCH 059/100] fix: replace_copy and replace_copy_if returned
 nothing

---
 ualgo.h     | 1 +
 upredalgo.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ualgo.h b/ualgo.h
index 9ecf96b..90ea34e 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -147,6 +147,7 @@ inline constexpr OutputIterator replace_copy (InputIterator first, InputIterator
 {
     for (; first != last; ++result, ++first)
         *result = (*first == old_value) ? new_value : *first;
+    return result;
 }
 
 /// Generate assigns the result of invoking gen, a function object that
diff --git a/upredalgo.h b/upredalgo.h
index 3ae1ca9..1474831 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -120,6 +120,7 @@ constexpr OutputIterator replace_copy_if (InputIterator first, InputIterator las
 {
     for (; first != last; ++result, ++first)
         *result = pred(*first) ? new_value : *first;
+    return result;
 }
 
 /// Remove_copy_if copies elements from the range [first, last) to a range
-- 
2.43.0


From ec5dac8f2ce4663fd0cb11b71306112d52c398eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 060/100] fix: merge placed equal elements of the second range
 first

---
 ualgo.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 90ea34e..ee02608 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -244,10 +244,10 @@ OutputIterator merge (InputIterator1 first1, InputIterator1 last1,
 		      InputIterator2 first2, InputIterator2 last2, OutputIterator result)
 {
     for (; first1 != last1 && first2 != last2; ++result) {
-	if (*first1 < *first2)
-	    *result = *first1++;
-	else
+	if (*first2 < *first1)
 	    *result = *first2++;
+	else
+	    *result = *first1++;
     }
     if (first1 < last1)
 	return copy (first1, last1, result);
-- 
2.43.0


From d6fa94fd4c5f95bf53b57b970c3182ec9e024487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:48 +0000
Subject: [PATCH 061/100] fix: inplace_merge ran past the middle and was not
 stable

---
 ualgo.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ualgo.h b/ualgo.h
index ee02608..5e8687f 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -262,8 +262,10 @@ template <typename InputIterator>
 constexpr void inplace_merge (InputIterator first, InputIterator middle, InputIterator last)
 {
     for (; middle != last; ++first) {
-	while (*first < *middle)
+	while (first != middle && !(*middle < *first))
 	    ++ first;
+	if (first == middle)
+	    break;
 	reverse (first, middle);
 	reverse (first, ++middle);
     }
-- 
2.43.0


From ec17078062a9ae5aac0d417b4b10014edf6d2ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 062/100] fix: binary_search by predicate tested the wrong
 order

---
 upredalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upredalgo.h b/upredalgo.h
index 1474831..8e04e9b 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -225,7 +225,7 @@ template <typename ForwardIterator, typename T, typename StrictWeakOrdering>
 constexpr bool binary_search (ForwardIterator first, ForwardIterator last, const T& value, StrictWeakOrdering comp)
 {
     ForwardIterator found = lower_bound (first, last, value, comp);
-    return found != last && !comp(*found, value);
+    return found != last && !comp(value, *found);
 }
 
 /// Returns the furthermost iterator i in [first,last) such that for
-- 
2.43.0


From e1f0c6341274091fcb5e1eeea1f5de2f2541d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:53 +0000
Subject: [PATCH 063/100] fix: bitset::set of a bit range did not clear bits
 that were set

---
 ubitset.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ubitset.h b/ubitset.h
index bdf0d8b..3c2afc8 100644
--- a/ubitset.h
+++ b/ubitset.h
@@ -80,12 +80,13 @@ public:
 			    br = val ? bOn : bOff;
 			}
 			// Sets the value of the bitrange \p first through \p last to the equivalent number of bits from \p v.
-    constexpr void	set (uoff_t first, uoff_t DebugArg(last), value_type v)
+    constexpr void	set (uoff_t first, uoff_t last, value_type v)
 			{
 			    assert (size_t (distance (first, last)) <= s_WordBits && "Bit ranges must be 32 bits or smaller");
 			    assert (first / s_WordBits == last / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
 			    assert ((v & BitMask(value_type,distance(first,last))) == v && "The value is too large to fit in the given bit range");
-			    BitRef(first) |= v << (first % s_WordBits);
+			    value_type& br (BitRef (first));
+			    br = (br & ~(BitMask(value_type,distance(first,last)) << (first % s_WordBits))) | (v << (first % s_WordBits));
 			}
     			/// Clears the bit \p n.
     constexpr void	reset (uoff_t n)		{ set (n, false); }
-- 
2.43.0


From 65c5fd85afd635480bd43b2e9b3ec7a372363193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:55 +0000
Subject: [PATCH 064/100] fix: shared_ptr copy assignment did not compile and
 lost the object on self assignment

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 8990266..80b8b7b 100644
--- a/umemory.h
+++ b/umemory.h
@@ -192,7 +192,7 @@ public:
     inline constexpr explicit	operator bool (void) const	{ return get(); }
     inline shared_ptr&		operator= (pointer p)		{ reset (p); return *this; }
     inline shared_ptr&		operator= (shared_ptr&& p)	{ swap (p); return *this; }
-    inline shared_ptr&		operator= (const shared_ptr& p)	{ reset(); _p = p; if (_p) ++_p->refs; return *this; }
+    inline shared_ptr&		operator= (const shared_ptr& p)	{ shared_ptr (p).swap (*this); return *this; }
     inline constexpr reference	operator* (void) const		{ return *get(); }
     inline constexpr pointer	operator-> (void) const		{ return get(); }
     inline constexpr reference	operator[] (size_t i) const	{ return get()[i]; }
-- 
2.43.0


From b9a204bc23c86e05580b669868b8bfbd14e7c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:59 +0000
Subject: [PATCH 065/100] fix: shared_ptr move assignment kept the old object
 alive in the source

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 80b8b7b..8047e16 100644
--- a/umemory.h
+++ b/umemory.h
@@ -191,7 +191,7 @@ public:
     inline void			swap (shared_ptr& v)		{ ::ustl::swap (_p, v._p); }
     inline constexpr explicit	operator bool (void) const	{ return get(); }
     inline shared_ptr&		operator= (pointer p)		{ reset (p); return *this; }
-    inline shared_ptr&		operator= (shared_ptr&& p)	{ swap (p); return *this; }
+    inline shared_ptr&		operator= (shared_ptr&& p)	{ shared_ptr (move (p)).swap (*this); return *this; }
     inline shared_ptr&		operator= (const shared_ptr& p)	{ shared_ptr (p).swap (*this); return *this; }
     inline constexpr reference	operator* (void) const		{ return *get(); }
     inline constexpr pointer	operator-> (void) const		{ return get(); }
-- 
2.43.0


From c6c82e852aad9bdaf5a8454b7d411e7eb6f93aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 066/100] fix: auto_ptr operator< compared in the wrong
 direction

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 8047e16..0f0628b 100644
--- a/umemory.h
+++ b/umemory.h
@@ -51,7 +51,7 @@ public:
     inline pointer	operator-> (void) const		{ return _p; }
     inline bool		operator== (const pointer p) const	{ return _p == p; }
     inline bool		operator== (const auto_ptr<T>& p) const	{ return _p == p._p; }
-    inline bool		operator< (const auto_ptr<T>& p) const	{ return p._p < _p; }
+    inline bool		operator< (const auto_ptr<T>& p) const	{ return _p < p._p; }
 private:
     pointer		_p;
 };
-- 
2.43.0


From f688f2ae5a5db6d144fdeb1fa09bf07c942d4237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:14 +0000
Subject: [PATCH 067/100] fix: shared_ptr::use_count and unique did not compile

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 0f0628b..ad1dbf4 100644
--- a/umemory.h
+++ b/umemory.h
@@ -178,7 +178,7 @@ public:
     inline			shared_ptr (shared_ptr&& p)	: _p (p._p) { p._p = nullptr; }
     inline			shared_ptr (const shared_ptr& p): _p (p._p) { if (_p) ++_p->refs; }
     inline			~shared_ptr (void)		{ reset(); }
-    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs : 0; }
+    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs.load() : 0; }
     inline constexpr bool	unique (void) const		{ return use_count() == 1; }
     inline constexpr pointer	get (void) const		{ return _p ? _p->p : nullptr; }
     void			reset (pointer p = nullptr) {
-- 
2.43.0


From 70fa41ccd89baf5e4b429e8b7971c720982a3b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:48 +0000
Subject: [PATCH 068/100] fix: atomic operators return the value of the
 operation

---
 uatomic.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/uatomic.h b/uatomic.h
index e030139..a5fb7d3 100644
--- a/uatomic.h
+++ b/uatomic.h
@@ -67,15 +67,15 @@ public:
 			    { return __atomic_xor_fetch (&_v, v, order); }
     inline		operator T (void) const	{ return load(); }
     inline atomic&	operator= (T v)		{ store(v); return *this; }
-    inline atomic	operator++ (int)	{ return fetch_add (1); }
-    inline atomic	operator-- (int)	{ return fetch_sub (1); }
-    inline atomic&	operator++ (void)	{ add_fetch (1); return *this; }
-    inline atomic&	operator-- (void)	{ sub_fetch (1); return *this; }
-    inline atomic&	operator+= (T v)	{ add_fetch (v); return *this; }
-    inline atomic&	operator-= (T v)	{ sub_fetch (v); return *this; }
-    inline atomic&	operator&= (T v)	{ and_fetch (v); return *this; }
-    inline atomic&	operator|= (T v)	{  or_fetch (v); return *this; }
-    inline atomic&	operator^= (T v)	{ xor_fetch (v); return *this; }
+    inline T		operator++ (int)	{ return fetch_add (1); }
+    inline T		operator-- (int)	{ return fetch_sub (1); }
+    inline T		operator++ (void)	{ return add_fetch (1); }
+    inline T		operator-- (void)	{ return sub_fetch (1); }
+    inline T		operator+= (T v)	{ return add_fetch (v); }
+    inline T		operator-= (T v)	{ return sub_fetch (v); }
+    inline T		operator&= (T v)	{ return and_fetch (v); }
+    inline T		operator|= (T v)	{ return or_fetch (v); }
+    inline T		operator^= (T v)	{ return xor_fetch (v); }
 };
 #define ATOMIC_VAR_INIT	{0}
 
-- 
2.43.0


From 98fb00445aa750692440724fc45c0470d2976368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 069/100] fix: CBacktrace without symbols, with a + in a file
 name, assigned over another, or read from corrupt data

---
 bktrace.cc | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/bktrace.cc b/bktrace.cc
index 7be0f3d..b805a50 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -37,10 +37,14 @@ CBacktrace::CBacktrace (const CBacktrace& v) noexcept
 /// Copy operator.
 const CBacktrace& CBacktrace::operator= (const CBacktrace& v) noexcept
 {
+    if (&v == this)
+	return *this;
     memcpy (_addresses, v._addresses, sizeof(_addresses));
-    _symbols = strdup (v._symbols);
+    nfree (_symbols);
+    if (v._symbols)
+	_symbols = strdup (v._symbols);
     _nFrames = v._nFrames;
-    _symbolsSize = v._symbolsSize;
+    _symbolsSize = _symbols ? v._symbolsSize : 0;
     return *this;
 }
 
@@ -54,7 +58,7 @@ static size_t ExtractAbiName (const char* isym, char* nmbuf) noexcept
 	const char* mnStart = strchr (isym, '(');
 	if (++mnStart == reinterpret_cast<const char*>(1))
 	    mnStart = isym;
-	const char* mnEnd = strchr (isym, '+');
+	const char* mnEnd = strchr (mnStart, '+');	// the file name may contain one too
 	const char* isymEnd = isym + strlen (isym);
 	if (!mnEnd)
 	    mnEnd = isymEnd;
@@ -97,12 +101,14 @@ void CBacktrace::GetSymbols (void) noexcept
 /// Prints the backtrace to \p os.
 void CBacktrace::text_write (ostringstream& os) const
 {
-    const char *ss = _symbols, *se;
+    const char *ss = _symbols ? _symbols : "", *se;
     for (uoff_t i = 0; i < _nFrames; ++ i) {
 	os.format (ADDRESS_FMT, _addresses[i]);
-	se = strchr (ss, '\n') + 1;
-	os.write (ss, distance (ss, se));
-	ss = se;
+	if ((se = strchr (ss, '\n'))) {
+	    os.write (ss, distance (ss, ++se));
+	    ss = se;
+	} else			// no symbol available
+	    os.write ("\n", 1);
     }
 }
 
@@ -110,13 +116,22 @@ void CBacktrace::text_write (ostringstream& os) const
 void CBacktrace::read (istream& is)
 {
     assert (is.aligned (stream_align_of (_addresses[0])) && "Backtrace object contains pointers and must be void* aligned");
-    is >> _nFrames >> _symbolsSize;
     nfree (_symbols);
-    _symbols = static_cast<char*> (malloc (_symbolsSize + 1));
-    is.read (_symbols, _symbolsSize);
-    _symbols [_symbolsSize] = 0;
+    _symbols = nullptr;
+    _nFrames = _symbolsSize = 0;
+    uint32_t nFrames = 0, symbolsSize = 0;
+    is >> nFrames >> symbolsSize;
+    if (!is.verify_remaining ("read", "ustl::CBacktrace", symbolsSize + nFrames * sizeof(void*)))
+	return;
+    if (!(_symbols = static_cast<char*> (malloc (size_t(symbolsSize) + 1))))
+	throw bad_alloc (size_t(symbolsSize) + 1);
+    is.read (_symbols, symbolsSize);
+    _symbols [symbolsSize] = 0;
+    _symbolsSize = symbolsSize;
     is.align();
+    _nFrames = min (nFrames, uint32_t(VectorSize(_addresses)));
     is.read (_addresses, _nFrames * sizeof(void*));
+    is.skip ((nFrames - _nFrames) * sizeof(void*));
 }
 
 /// Writes the object to stream \p os.
-- 
2.43.0


From c3ffcaa588961087bed8847827530d2bd3a22ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:01 +0000
Subject: [PATCH 070/100] fix: exception messages print all bits of size_t
 values

---
 uexception.cc | 4 ++--
 ustdxept.cc   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/uexception.cc b/uexception.cc
index 8cfacc8..bc8496a 100644
--- a/uexception.cc
+++ b/uexception.cc
@@ -100,10 +100,10 @@ bad_alloc::bad_alloc (size_t nBytes) noexcept
     set_format (ustl::xfmt_BadAlloc);
 }
 
-/// Returns a descriptive error message. fmt="failed to allocate %d bytes"
+/// Returns a descriptive error message. fmt="failed to allocate %zu bytes"
 void bad_alloc::info (ustl::string& msgbuf, const char* fmt) const noexcept
 {
-    if (!fmt) fmt = "failed to allocate %d bytes";
+    if (!fmt) fmt = "failed to allocate %zu bytes";
     try { msgbuf.format (fmt, _bytesRequested); } catch (...) {}
 }
 
diff --git a/ustdxept.cc b/ustdxept.cc
index 7f0715c..51a080a 100644
--- a/ustdxept.cc
+++ b/ustdxept.cc
@@ -152,13 +152,13 @@ stream_bounds_exception::stream_bounds_exception (const char* operation, const c
     set_format (xfmt_StreamBoundsException);
 }
 
-/// Returns a descriptive error message. fmt="%s stream %s: @%u: expected %u, available %u";
+/// Returns a descriptive error message. fmt="%s stream %s: @0x%zX: need %zu bytes, have %zu";
 void stream_bounds_exception::info (string& msgbuf, const char* fmt) const noexcept
 {
     char typeName [256];
     strncpy (typeName, _typeName, VectorSize(typeName));
     typeName[VectorSize(typeName)-1] = 0;
-    if (!fmt) fmt = "%s stream %s: @0x%X: need %u bytes, have %u";
+    if (!fmt) fmt = "%s stream %s: @0x%zX: need %zu bytes, have %zu";
     try { msgbuf.format (fmt, demangle_type_name (VectorBlock(typeName)), Operation(), _offset, _expected, _remaining); } catch (...) {}
 }
 
-- 
2.43.0


From cf46728977aff0355ab8da7b9a2baaa17b98dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:06 +0000
Subject: [PATCH 071/100] fix: stream overruns of more than 4G are reported
 with their size

---
 mistream.cc | 2 +-
 uios.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mistream.cc b/mistream.cc
index 0b64bf3..e1b9170 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -14,7 +14,7 @@ namespace ustl {
 //--------------------------------------------------------------------
 
 /// Checks that \p n bytes are available in the stream, or else throws.
-void ios_base::overrun (const char* op, const char* type, uint32_t n, uint32_t pos, uint32_t rem)
+void ios_base::overrun (const char* op, const char* type, streamsize n, streamsize pos, streamsize rem)
 {
     if (set_and_throw (rem ? failbit : (failbit | eofbit)))
 	throw stream_bounds_exception (op, type, pos, n, rem);
diff --git a/uios.h b/uios.h
index 6295dd7..42886c3 100644
--- a/uios.h
+++ b/uios.h
@@ -90,7 +90,7 @@ public:
     constexpr iostate	exceptions (iostate v)		{ return _exceptions = v; }
 protected:
     constexpr bool	set_and_throw (iostate v)	{ setstate(v); return exceptions() & v; }
-    void		overrun (const char* op, const char* type, uint32_t n, uint32_t p, uint32_t rem);
+    void		overrun (const char* op, const char* type, streamsize n, streamsize p, streamsize rem);
 private:
     uint16_t		_state;		///< Open state, using ios::iostate_bits.
     uint16_t		_exceptions;	///< Exception flags, using ios::iostate_bits.
-- 
2.43.0


From dff4ffe04591166b2c8361313a0c0c9ce389adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 072/100] fix: system_error made of an error_code has the
 format of system_error

---
 ustdxept.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustdxept.h b/ustdxept.h
index 77d7003..881b233 100644
--- a/ustdxept.h
+++ b/ustdxept.h
@@ -156,7 +156,7 @@ public:
     inline const char*	Operation (void) const	{ return _operation.c_str(); }
 #if HAVE_CPP14
 			system_error (error_code ec, const char* operation) noexcept
-			    : runtime_error (ec.message()),_operation(operation),_errno(ec.value()) {}
+			    : runtime_error (ec.message()),_operation(operation),_errno(ec.value()) { set_format (xfmt_SystemError); }
     inline              system_error (error_code ec, const string& operation) noexcept
 			    : system_error (ec, operation.c_str()) {}
     inline              system_error (int ec, const error_category& ecat, const char* operation)
-- 
2.43.0


From 1e37ef97693fc521627f92dd89bb14e8ad5f3ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:19 +0000
Subject: [PATCH 073/100] fix: assigning a CBacktrace without symbols leaves
 none

---
 bktrace.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bktrace.cc b/bktrace.cc
index b805a50..78f0b5b 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -41,8 +41,7 @@ const CBacktrace& CBacktrace::operator= (const CBacktrace& v) noexcept
 	return *this;
     memcpy (_addresses, v._addresses, sizeof(_addresses));
     nfree (_symbols);
-    if (v._symbols)
-	_symbols = strdup (v._symbols);
+    _symbols = v._symbols ? strdup (v._symbols) : nullptr;
     _nFrames = v._nFrames;
     _symbolsSize = _symbols ? v._symbolsSize : 0;
     return *this;
-- 
2.43.0


From ffd9890195839721f7dfcb2bb0f0f348007a1957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:01 +0000
Subject: [PATCH 074/100] fix: copying a CBacktrace copies all of its symbols

---
 bktrace.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bktrace.cc b/bktrace.cc
index 78f0b5b..e1965eb 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -41,7 +41,9 @@ const CBacktrace& CBacktrace::operator= (const CBacktrace& v) noexcept
 	return *this;
     memcpy (_addresses, v._addresses, sizeof(_addresses));
     nfree (_symbols);
-    _symbols = v._symbols ? strdup (v._symbols) : nullptr;
+    _symbols = nullptr;
+    if (v._symbols && (_symbols = static_cast<char*> (malloc (size_t(v._symbolsSize) + 1))))
+	memcpy (_symbols, v._symbols, size_t(v._symbolsSize) + 1);	// what was read from a stream may contain zeroes
     _nFrames = v._nFrames;
     _symbolsSize = _symbols ? v._symbolsSize : 0;
     return *this;
-- 
2.43.0


From c875e583599fda53e788d642f7b02537e6d0bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:08 +0000
Subject: [PATCH 075/100] fix: hrtime_t division

---
 uchrono.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 5e986c4..9dedb06 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -230,8 +230,7 @@ struct hrtime_t : public timespec {
 				    return *this;
 				}
     constexpr hrtime_t&		operator/= (intmax_t v)	{
-				    tv_nsec /= v;
-				    tv_nsec += (tv_sec % v) * nano::den;
+				    tv_nsec = (tv_nsec + (tv_sec % v) * nano::den) / v;
 				    tv_sec /= v;
 				    return *this;
 				}
-- 
2.43.0


From 306b3ccc06ffde1ea596aebcf65cf2f23ca022fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:13 +0000
Subject: [PATCH 076/100] fix: hrtime_t increment carries into the seconds

---
 uchrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index 9dedb06..c724074 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -189,7 +189,7 @@ struct hrtime_t : public timespec {
     inline constexpr hrtime_t	operator+ (void) const		{ return *this; }
     inline constexpr hrtime_t	operator- (void) const		{ return hrtime_t(-tv_sec,-tv_nsec); }
     constexpr hrtime_t&		operator++ (void) {
-				    if (++tv_nsec > nano::den) {
+				    if (++tv_nsec >= nano::den) {
 					tv_nsec -= nano::den;
 					++tv_sec;
 				    }
-- 
2.43.0


From c2cf5e29ad0207374fae3f74198975351ab76d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:17 +0000
Subject: [PATCH 077/100] fix: the smallest hrtime_t has no nanoseconds

---
 uchrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index c724074..9ace8f6 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -251,7 +251,7 @@ template <> struct duration_values<hrtime_t> {
     static constexpr hrtime_t zero (void)
 	{ return hrtime_t(); }
     static constexpr hrtime_t min (void)
-	{ return hrtime_t (numeric_limits<decltype(hrtime_t::tv_sec)>::lowest(), nano::den-1); }
+	{ return hrtime_t (numeric_limits<decltype(hrtime_t::tv_sec)>::lowest(), 0); }
     static constexpr hrtime_t max (void)
 	{ return hrtime_t (numeric_limits<decltype(hrtime_t::tv_sec)>::max(), nano::den-1); }
 };
-- 
2.43.0


From 111b8c19dbe6bd07f28270061ca16e39f6988e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:49 +0000
Subject: [PATCH 078/100] fix: duration_cast scales before narrowing to the
 destination type

---
 uchrono.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index 9ace8f6..dc6e934 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -19,8 +19,10 @@ template <typename ToDuration, typename Rep, typename Period>
 struct __duration_cast_impl {
     using to_rep	= typename ToDuration::rep;
     using conv_ratio	= typename ratio_divide<Period, typename ToDuration::period>::type;
+    // Scale before narrowing the value to the destination type
+    using calc_rep	= conditional_t<numeric_limits<to_rep>::is_integer, common_type_t<to_rep,Rep,intmax_t>, to_rep>;
     static inline constexpr ToDuration cast (const duration<Rep, Period>& d)
-	{ return ToDuration (static_cast<to_rep>(d.count()) * conv_ratio::num / conv_ratio::den); }
+	{ return ToDuration (static_cast<to_rep>(static_cast<calc_rep>(d.count()) * conv_ratio::num / conv_ratio::den)); }
 };
 
 /// Converts durations of different periods or representations
-- 
2.43.0


From 599285c2aafe9fd54ca940e9655a1c172b954f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 079/100] fix: ratio type is the reduced ratio

---
 uratio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uratio.h b/uratio.h
index a5a6ceb..4e32b82 100644
--- a/uratio.h
+++ b/uratio.h
@@ -12,10 +12,10 @@ namespace ustl {
 template <intmax_t N, intmax_t D = 1>
 struct ratio {
     static_assert (D, "denominator cannot be zero");
-    using type = ratio<N,D>;
     enum : intmax_t { init_gcd = gcd(N,D) };
     static constexpr intmax_t num = N*sign(D) / init_gcd;
     static constexpr intmax_t den = absv(D) / init_gcd;
+    using type = ratio<num,den>;
     void text_write (ostringstream& os) const
 	{ os.format ("%jd/%jd", num, den); }
 };
-- 
2.43.0


From 572094742e8dd87f307f085458e8ebcd24f791a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:45 +0000
Subject: [PATCH 080/100] fix: durations of different types compare when
 implicitly convertible

---
 uchrono.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index dc6e934..068715b 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -94,25 +94,25 @@ struct duration {
     inline constexpr bool	operator< (const duration& v) const	{ return count() < v.count(); }
 
     // Comparisons with different duration types are allowed when implicitly convertible
-    template <typename Rep2, typename Period2>
+    template <typename Period2, typename Rep2 = rep>
     inline constexpr typename enable_if<
 		ratio_greater<ratio_divide<period,Period2>,ratio<1>>::value
 		    && is_convertible<duration,duration<Rep2,Period2>>::value,
     bool>::type			operator== (const duration<rep,Period2>& v) const
 				    { return duration<Rep2,Period2>(*this) == v; }
-    template <typename Rep2, typename Period2>
+    template <typename Period2, typename Rep2 = rep>
     inline constexpr typename enable_if<
 		ratio_less_equal<ratio_divide<period,Period2>,ratio<1>>::value
 		    && is_convertible<duration,duration<Rep2,Period2>>::value,
     bool>::type			operator== (const duration<rep,Period2>& v) const
 				    { return operator== (duration(v)); }
-    template <typename Rep2, typename Period2>
+    template <typename Period2, typename Rep2 = rep>
     inline constexpr typename enable_if<
 		ratio_greater<ratio_divide<period,Period2>,ratio<1>>::value
 		    && is_convertible<duration,duration<Rep2,Period2>>::value,
     bool>::type			operator< (const duration<rep,Period2>& v) const
 				    { return duration<Rep2,Period2>(*this) < v; }
-    template <typename Rep2, typename Period2>
+    template <typename Period2, typename Rep2 = rep>
     inline constexpr typename enable_if<
 		ratio_less_equal<ratio_divide<period,Period2>,ratio<1>>::value
 		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-- 
2.43.0


From 950dde923144a31bcff04e7c37c0aadbd03b626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:15 +0000
Subject: [PATCH 081/100] fix: float 4x4 matrix products use the right vector
 lane

---
 ulaalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index 4c69c0e..b727e5a 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -104,7 +104,7 @@ inline void _sse_transform_to_vector (float* result)
 	"movaps %%xmm0, %%xmm2		\n\t" // xmm1 = t[0 1 2 3]
 	"movaps %%xmm0, %%xmm3		\n\t" // xmm1 = t[0 1 2 3]
 	"shufps $0x00, %%xmm0, %%xmm0	\n\t" // xmm0 = t[0 0 0 0]
-	"shufps $0x66, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
+	"shufps $0x55, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
 	"shufps $0xAA, %%xmm2, %%xmm2	\n\t" // xmm2 = t[2 2 2 2]
 	"shufps $0xFF, %%xmm3, %%xmm3	\n\t" // xmm3 = t[3 3 3 3]
 	"mulps  %%xmm4, %%xmm0		\n\t" // xmm0 = t[0 0 0 0] * m[0 1 2 3]
-- 
2.43.0


From 20d88415635be6d8bab1326db0aaceddf8aace82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:19 +0000
Subject: [PATCH 082/100] fix: load_identity does not modify its asm input

---
 ulaalgo.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index b727e5a..98a693d 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -68,18 +68,20 @@ void transpose (matrix<N,N,T>& m)
 template <>
 inline void load_identity (matrix<4,4,float>& m)
 {
+    const float one = 1.0f;
     asm (
-	"movaps %4, %%xmm1		\n\t"	// 1 0 0 0
-	"movups %4, %0			\n\t"	// 1 0 0 0
+	"movss %4, %%xmm0		\n\t"	// 1 0 0 0
+	"movaps %%xmm0, %%xmm1		\n\t"	// 1 0 0 0
+	"movups %%xmm0, %0		\n\t"	// 1 0 0 0
 	"shufps $0xB1,%%xmm1,%%xmm1	\n\t"	// 0 1 0 0
 	"movups %%xmm1, %1		\n\t"	// 0 1 0 0
-	"shufps $0x4F,%4,%%xmm1		\n\t"	// 0 0 1 0
-	"shufps $0x1B,%4,%4		\n\t"	// 0 0 0 1
+	"shufps $0x4F,%%xmm0,%%xmm1	\n\t"	// 0 0 1 0
+	"shufps $0x1B,%%xmm0,%%xmm0	\n\t"	// 0 0 0 1
 	"movups %%xmm1, %2		\n\t"	// 0 0 1 0
-	"movups %4, %3"				// 0 0 0 1
+	"movups %%xmm0, %3"			// 0 0 0 1
 	: "=m"(m[0][0]), "=m"(m[1][0]), "=m"(m[2][0]), "=m"(m[3][0])
-	: "x"(1.0f)
-	: "xmm1", "memory"
+	: "m"(one)
+	: "xmm0", "xmm1", "memory"
     );
     asm ("":::"memory");
 }
-- 
2.43.0


From 1b6e470ff2db695e6035e1748724217fca6736b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:24 +0000
Subject: [PATCH 083/100] fix: SSE packed operations declare the register they
 use

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index 74d97a1..f05c517 100644
--- a/simd.h
+++ b/simd.h
@@ -389,7 +389,7 @@ MMX_DBL_IPASSIGN_SPEC(4,int32_t)
 #endif // __MMX__
 
 #if __SSE__
-#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "memory"
+#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "xmm1", "memory"
 #define SSE_PKOP2_SPEC(n,type,optype,instruction)	\
 SIMD_PKOP2_SPEC(n,type,optype)		\
 { asm ("movups %0, %%xmm0\n\tmovups %1, %%xmm1\n\t" #instruction " %%xmm1, %%xmm0\n\tmovups %%xmm0, %0" : STD_SSE_ARGS);}
-- 
2.43.0


From 4e2d3312d430ace1fcda25fa0e8117942ef0ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:33 +0000
Subject: [PATCH 084/100] fix: fpadds and fpsubs saturate in both directions

---
 simd.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simd.h b/simd.h
index f05c517..c55635b 100644
--- a/simd.h
+++ b/simd.h
@@ -84,8 +84,8 @@ inline void pconvert (const Ctr1& op1, Ctr2& op2, ConvertFunction f)
 }
 
 // Functionoids for SIMD operations, like saturation arithmetic, shifts, etc.
-STD_BINARY_FUNCTOR (fpadds, T, ((b > numeric_limits<T>::max() - a) ? numeric_limits<T>::max() : a + b))
-STD_BINARY_FUNCTOR (fpsubs, T, ((a < numeric_limits<T>::min() + b) ? numeric_limits<T>::min() : a - b))
+STD_BINARY_FUNCTOR (fpadds, T, (b < 0 ? (a < numeric_limits<T>::lowest() - b ? numeric_limits<T>::lowest() : T(a + b)) : (a > numeric_limits<T>::max() - b ? numeric_limits<T>::max() : T(a + b))))
+STD_BINARY_FUNCTOR (fpsubs, T, (b < 0 ? (a > numeric_limits<T>::max() + b ? numeric_limits<T>::max() : T(a - b)) : (a < numeric_limits<T>::lowest() + b ? numeric_limits<T>::lowest() : T(a - b))))
 STD_BINARY_FUNCTOR (fpshl,  T, (a << b))
 STD_BINARY_FUNCTOR (fpshr,  T, (a >> b))
 STD_BINARY_FUNCTOR (fpmin,  T, (min (a, b)))
@@ -343,9 +343,7 @@ MMX_DBL_PKOP2_SPEC(4,int32_t,bitwise_xor,pxor)
 
 #if __SSE2__ || __3DNOW__
 MMX_PKOP2_SPEC(8,uint8_t,fpavg,pavgb)
-MMX_PKOP2_SPEC(8,int8_t,fpavg,pavgb)
 MMX_PKOP2_SPEC(4,uint16_t,fpavg,pavgw)
-MMX_PKOP2_SPEC(4,int16_t,fpavg,pavgw)
 MMX_PKOP2_SPEC(8,uint8_t,fpmin,pminub)
 MMX_PKOP2_SPEC(8,uint8_t,fpmax,pmaxub)
 MMX_PKOP2_SPEC(4,int16_t,fpmax,pmaxsw)
-- 
2.43.0


From 9cdecee50235dfb5e860514a047d06ce5c8d5b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:37 +0000
Subject: [PATCH 085/100] fix: unary packop stores its result

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index c55635b..abbba22 100644
--- a/simd.h
+++ b/simd.h
@@ -32,7 +32,7 @@ template <typename Ctr, typename UnaryOperation>
 inline void packop (Ctr& op1, UnaryOperation op)
 {
     foreach (typename Ctr::iterator, i, op1)
-	op (*i);
+	*i = op (*i);
 }
 
 /// Applies \p op to each element in \p op1 and \p op2 and stores in \p op2.
-- 
2.43.0


From e4f32baa6ecf6fed43f4f2c61e34c18943e99a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 086/100] fix: three-operand packop compiles, two-operand padds
 exist

---
 simd.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simd.h b/simd.h
index abbba22..eb78a9f 100644
--- a/simd.h
+++ b/simd.h
@@ -51,8 +51,10 @@ template <typename Ctr, typename BinaryOperation>
 inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation op)
 {
     assert (op1.size() <= op2.size() && op1.size() <= result.size());
-    passign (op1, result);
-    op (op2, result);
+    typename Ctr::const_iterator i1 (op1.begin()), i2 (op2.begin());
+    typename Ctr::iterator d (result.begin());
+    for (; i1 != op1.end(); ++i1, ++i2, ++d)
+	*d = op (*i1, *i2);
 }
 
 /// Copies \p op1 into \p result.
@@ -155,6 +157,7 @@ SIMD_PACKEDOP2 (por, bitwise_or)
 SIMD_PACKEDOP2 (pxor, bitwise_xor)
 SIMD_PACKEDOP2 (pshl, fpshl)
 SIMD_PACKEDOP2 (pshr, fpshr)
+SIMD_PACKEDOP2 (padds, fpadds)
 SIMD_PACKEDOP2 (psubs, fpsubs)
 SIMD_PACKEDOP2 (pmin, fpmin)
 SIMD_PACKEDOP2 (pmax, fpmax)
-- 
2.43.0


From 8db67f24f8bed9a3b81e9397d9bdbfb3cd08d1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:46 +0000
Subject: [PATCH 087/100] fix: matrix converting constructor compiles

---
 umatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umatrix.h b/umatrix.h
index ddf7e8c..c610a13 100644
--- a/umatrix.h
+++ b/umatrix.h
@@ -34,7 +34,7 @@ public:
 public:
     inline			matrix (void)			: tuple<NX*NY,T>() { }
     template <typename T2>
-    inline			matrix (const matrix<NX,NY,T2>& src) : tuple<NX*NY,T2>(src) {}
+    inline			matrix (const matrix<NX,NY,T2>& src) : tuple<NX*NY,T>(src) {}
     inline			matrix (const matrix<NX,NY,T>& src) : tuple<NX*NY,T>(src) {}
     inline size_type		columns (void) const		{ return NX; }
     inline size_type		rows (void) const		{ return NY; }
-- 
2.43.0


From d77272cdc5c0deb25bf0d7d48338ec4ca81eed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:51 +0000
Subject: [PATCH 088/100] fix: fround to uint32_t covers the upper half

---
 simd.h | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/simd.h b/simd.h
index eb78a9f..333429b 100644
--- a/simd.h
+++ b/simd.h
@@ -435,13 +435,6 @@ template <> inline int32_t fround<float,int32_t>::operator()(const float& a) con
 	 : "=r"(rv) : "m"(a) : "xmm0" );
     return rv;
 }
-template <> inline uint32_t fround<float,uint32_t>::operator()(const float& a) const {
-    uint32_t rv;
-    asm ("movss %1, %%xmm0\n\t"
-	 "cvtss2si %%xmm0, %0"
-	 : "=r"(rv) : "m"(a) : "xmm0" );
-    return rv;
-}
 
 SSE_IPASSIGN_SPEC(4,float)
 SSE_IPASSIGN_SPEC(4,int32_t)
-- 
2.43.0


From 37b8e5e5d8fe7eb49e85ae00e5b0977a32738588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:56 +0000
Subject: [PATCH 089/100] fix: adjacent_difference advances

---
 unumeric.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index fa9601b..9750ab3 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -98,7 +98,7 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 {
     if (first < last)
 	*result++ = *first++;
-    while (first < last)
+    for (; first < last; ++first)
 	*result++ = *first - *(first - 1);
     return result;
 }
@@ -111,7 +111,7 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 {
     if (first < last)
 	*result++ = *first++;
-    while (first < last)
+    for (; first < last; ++first)
 	*result++ = differenceOp (*first, *(first - 1));
     return result;
 }
-- 
2.43.0


From e2fddf809fd38104d818c416dffd019cb2b8b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:00 +0000
Subject: [PATCH 090/100] fix: partial_sum returns the end and passes operands
 in order

---
 unumeric.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index 9750ab3..ec05ede 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -4,6 +4,7 @@
 // This file is free software, distributed under the MIT License.
 
 #pragma once
+#include "uiterator.h"
 
 namespace ustl {
 
@@ -70,10 +71,14 @@ constexpr T inner_product
 template <typename InputIterator, typename OutputIterator>
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result)
 {
-    if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = *first++ + *result;
+    if (first < last) {
+	typename iterator_traits<InputIterator>::value_type sum (*first);
+	*result++ = sum;
+	while (++first < last) {
+	    sum = sum + *first;
+	    *result++ = sum;
+	}
+    }
     return result;
 }
 
@@ -83,10 +88,14 @@ constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, O
 template <typename InputIterator, typename OutputIterator, typename BinaryOperation>
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result, BinaryOperation sumOp)
 {
-    if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = sumOp (*first++, *result);
+    if (first < last) {
+	typename iterator_traits<InputIterator>::value_type sum (*first);
+	*result++ = sum;
+	while (++first < last) {
+	    sum = sumOp (sum, *first);
+	    *result++ = sum;
+	}
+    }
     return result;
 }
 
-- 
2.43.0


From 73c96457ead20a03fc3a58656fa1b67469788ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:04 +0000
Subject: [PATCH 091/100] fix: adjacent_difference works in place

---
 unumeric.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index ec05ede..b1a66b5 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -105,10 +105,15 @@ constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, O
 template <typename InputIterator, typename OutputIterator>
 constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator last, OutputIterator result)
 {
-    if (first < last)
-	*result++ = *first++;
-    for (; first < last; ++first)
-	*result++ = *first - *(first - 1);
+    if (first < last) {
+	typename iterator_traits<InputIterator>::value_type prev (*first);
+	*result++ = prev;
+	while (++first < last) {
+	    typename iterator_traits<InputIterator>::value_type v (*first);
+	    *result++ = v - prev;
+	    prev = v;
+	}
+    }
     return result;
 }
 
@@ -118,10 +123,15 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 template <typename InputIterator, typename OutputIterator, typename BinaryOperation>
 constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator last, OutputIterator result, BinaryOperation differenceOp)
 {
-    if (first < last)
-	*result++ = *first++;
-    for (; first < last; ++first)
-	*result++ = differenceOp (*first, *(first - 1));
+    if (first < last) {
+	typename iterator_traits<InputIterator>::value_type prev (*first);
+	*result++ = prev;
+	while (++first < last) {
+	    typename iterator_traits<InputIterator>::value_type v (*first);
+	    *result++ = differenceOp (v, prev);
+	    prev = v;
+	}
+    }
     return result;
 }
 
-- 
2.43.0


From 433b9ff1cc9ce6c2790f6e0931e3844acdaf4fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:08 +0000
Subject: [PATCH 092/100] fix: move_iterator adds, subtracts and measures in
 the right direction

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index 1d82ce5..29bd8a9 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -307,10 +307,10 @@ public:
     constexpr move_iterator	operator-- (int)		{ move_iterator r (*this); -- _i; return r; }
     constexpr move_iterator&	operator+= (size_t n)		{ _i += n; return *this; }
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
-    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
     constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
-    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (_i, i._i); }
+    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
 };
-- 
2.43.0


From b4cd4208c27dbd04c40f7cbd0df6f675426a1672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:13 +0000
Subject: [PATCH 093/100] fix: index_iterate difference has the right sign

---
 uiterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uiterator.h b/uiterator.h
index 29bd8a9..0467aba 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -454,7 +454,7 @@ public:
     constexpr index_iterate	operator+ (size_t n) const { return index_iterate (_base, _i + n); }
     constexpr index_iterate	operator- (size_t n) const { return index_iterate (_base, _i - n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const index_iterate& i) const { return distance (_i, i._i); }
+    constexpr difference_type	operator- (const index_iterate& i) const { return distance (i._i, _i); }
 private:
     RandomAccessIterator	_base;
     IndexIterator		_i;
-- 
2.43.0


From 4db89263d72d5567b50ae865e7f5ef4291c94fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:18 +0000
Subject: [PATCH 094/100] fix: reverse_iterator difference has the right sign

---
 uiterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uiterator.h b/uiterator.h
index 0467aba..dd1e4cb 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -267,7 +267,7 @@ public:
     constexpr reverse_iterator	operator+ (size_t n) const { return reverse_iterator (_i - n); }
     constexpr reverse_iterator	operator- (size_t n) const { return reverse_iterator (_i + n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (i._i, _i); }
+    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (_i, i._i); }
 protected:
     Iterator			_i;
 };
-- 
2.43.0


From c6d005d4ebdd1dbbc7a8cdd94490c1cc5b53d60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:23 +0000
Subject: [PATCH 095/100] fix: insert_iterator stays valid through *i++ = v

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index dd1e4cb..cbfd1f2 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -340,10 +340,10 @@ public:
 public:
     constexpr explicit		insert_iterator (Container& ctr, iterator ip) : _rctr (ctr), _ip (ip) {}
     inline insert_iterator&	operator= (typename Container::const_reference v)
-				    { _ip = _rctr.insert (_ip, v); return *this; }
+				    { _ip = _rctr.insert (_ip, v); ++_ip; return *this; }
     constexpr insert_iterator&	operator* (void)  { return *this; }
-    constexpr insert_iterator&	operator++ (void) { ++ _ip; return *this; }
-    constexpr insert_iterator	operator++ (int)  { insert_iterator prev (*this); ++_ip; return prev; }
+    constexpr insert_iterator&	operator++ (void) { return *this; }
+    constexpr insert_iterator&	operator++ (int)  { return *this; }
 protected:
     Container&			_rctr;
     iterator			_ip;
-- 
2.43.0


From f566b97f6945a77591039dc331e58b60ce95bb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:29 +0000
Subject: [PATCH 096/100] fix: move_iterator can be dereferenced

---
 uiterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index cbfd1f2..d69d810 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -299,7 +299,7 @@ public:
     constexpr bool		operator== (const move_iterator& iter) const	{ return _i == iter._i; }
     constexpr bool		operator< (const move_iterator& iter) const	{ return _i < iter._i; }
     constexpr Iterator		base (void) const		{ return _i; }
-    constexpr reference		operator* (void) const		{ return move(*_i); }
+    constexpr reference		operator* (void) const		{ return static_cast<reference>(*_i); }
     constexpr pointer		operator-> (void) const		{ return &*_i; }
     constexpr move_iterator&	operator++ (void)		{ ++_i; return *this; }
     constexpr move_iterator&	operator-- (void)		{ --_i; return *this; }
@@ -309,7 +309,7 @@ public:
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
     constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
     constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
+    constexpr reference		operator[] (uoff_t n) const	{ return *(*this + n); }
     constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
-- 
2.43.0


From bff536a1542b6dbaf32fb16c719904dc4e0de564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:48 +0000
Subject: [PATCH 097/100] fix: uninitialized algorithms destroy what they made
 when a constructor throws

---
 umemory.h | 62 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/umemory.h b/umemory.h
index ad1dbf4..ec6cda5 100644
--- a/umemory.h
+++ b/umemory.h
@@ -328,6 +328,9 @@ template <typename T>
 inline void construct (T* p)
     { construct_at(p); }
 
+template <typename ForwardIterator>
+inline void destroy (ForwardIterator first, ForwardIterator last) noexcept;
+
 /// Calls the placement new on \p p.
 /// \ingroup RawStorageAlgorithms
 ///
@@ -341,9 +344,13 @@ inline void uninitialized_default_construct (ForwardIterator first, ForwardItera
     if (numeric_limits<value_type>::is_integral)
 #endif
 	memset (static_cast<void*>(first), 0, max(distance(first,last),0)*sizeof(value_type));
-    else
-	for (--last; intptr_t(first) <= intptr_t(last); ++first)
-	    construct_at (&*first);
+    else {
+	const ForwardIterator start (first);
+	try {
+	    for (--last; intptr_t(first) <= intptr_t(last); ++first)
+		construct_at (&*first);
+	} catch (...) { destroy (start, first); throw; }
+    }
 }
 template <typename ForwardIterator>
 inline void uninitialized_default_construct_n (ForwardIterator first, size_t n)
@@ -357,8 +364,11 @@ template <typename ForwardIterator>
 inline void uninitialized_value_construct (ForwardIterator first, ForwardIterator last)
 {
     typedef typename iterator_traits<ForwardIterator>::value_type value_type;
-    for (--last; intptr_t(first) <= intptr_t(last); ++first)
-	construct_at (&*first, value_type());
+    const ForwardIterator start (first);
+    try {
+	for (--last; intptr_t(first) <= intptr_t(last); ++first)
+	    construct_at (&*first, value_type());
+    } catch (...) { destroy (start, first); throw; }
 }
 template <typename ForwardIterator>
 inline void uninitialized_value_construct_n (ForwardIterator first, size_t n)
@@ -440,8 +450,11 @@ inline pair<T*, ptrdiff_t> make_temporary_buffer (void* p, size_t n, const T* pt
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_copy (InputIterator first, InputIterator last, ForwardIterator result)
 {
-    for (; first < last; ++result, ++first)
-	construct_at (&*result, *first);
+    const ForwardIterator start (result);
+    try {
+	for (; first < last; ++result, ++first)
+	    construct_at (&*result, *first);
+    } catch (...) { destroy (start, result); throw; }
     return result;
 }
 
@@ -451,8 +464,11 @@ ForwardIterator uninitialized_copy (InputIterator first, InputIterator last, For
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_copy_n (InputIterator first, size_t n, ForwardIterator result)
 {
-    for (++n; --n; ++result, ++first)
-	construct_at (&*result, *first);
+    const ForwardIterator start (result);
+    try {
+	for (++n; --n; ++result, ++first)
+	    construct_at (&*result, *first);
+    } catch (...) { destroy (start, result); throw; }
     return result;
 }
 
@@ -462,8 +478,11 @@ ForwardIterator uninitialized_copy_n (InputIterator first, size_t n, ForwardIter
 template <typename ForwardIterator, typename T>
 void uninitialized_fill (ForwardIterator first, ForwardIterator last, const T& v)
 {
-    for (; first < last; ++first)
-	construct_at (&*first, v);
+    const ForwardIterator start (first);
+    try {
+	for (; first < last; ++first)
+	    construct_at (&*first, v);
+    } catch (...) { destroy (start, first); throw; }
 }
 
 /// Calls construct on all elements in [first, first + n) with value \p v.
@@ -472,8 +491,11 @@ void uninitialized_fill (ForwardIterator first, ForwardIterator last, const T& v
 template <typename ForwardIterator, typename T>
 ForwardIterator uninitialized_fill_n (ForwardIterator first, size_t n, const T& v)
 {
-    for (++n; --n; ++first)
-	construct_at (&*first, v);
+    const ForwardIterator start (first);
+    try {
+	for (++n; --n; ++first)
+	    construct_at (&*first, v);
+    } catch (...) { destroy (start, first); throw; }
     return first;
 }
 
@@ -485,8 +507,11 @@ ForwardIterator uninitialized_fill_n (ForwardIterator first, size_t n, const T&
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_move (InputIterator first, InputIterator last, ForwardIterator result)
 {
-    for (; first < last; ++result, ++first)
-	construct_at (&*result, move(*first));
+    const ForwardIterator start (result);
+    try {
+	for (; first < last; ++result, ++first)
+	    construct_at (&*result, move(*first));
+    } catch (...) { destroy (start, result); throw; }
     return result;
 }
 
@@ -496,8 +521,11 @@ ForwardIterator uninitialized_move (InputIterator first, InputIterator last, For
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_move_n (InputIterator first, size_t n, ForwardIterator result)
 {
-    for (++n; --n; ++result, ++first)
-	construct_at (&*result, move(*first));
+    const ForwardIterator start (result);
+    try {
+	for (++n; --n; ++result, ++first)
+	    construct_at (&*result, move(*first));
+    } catch (...) { destroy (start, result); throw; }
     return result;
 }
 
-- 
2.43.0


From 5bfae048007590e57c6278a942bf74c9d286590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:03 +0000
Subject: [PATCH 098/100] fix: a failed element construction leaves no hole in
 the vector

---
 uvector.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/uvector.h b/uvector.h
index bfa907d..6851fb0 100644
--- a/uvector.h
+++ b/uvector.h
@@ -123,6 +123,7 @@ protected:
 private:
     inline iterator		insert_hole (const_iterator ip, size_type n);
     inline iterator		append_hole (size_type n);
+    inline void			close_hole (iterator h, size_type n)	{ _data.erase (memblock::iterator(h), n * sizeof(T)); }
     inline bool			is_element (const T& v) const	{ return &v >= begin() && &v < end(); }
     void			destroy_all (void)
 				    { if (!is_linked()) destroy (begin(), end()); }
@@ -272,7 +273,7 @@ template <typename T>
 inline typename vector<T>::iterator vector<T>::insert_space (const_iterator ip, size_type n)
 {
     iterator ih = insert_hole (ip, n);
-    uninitialized_default_construct_n (ih, n);
+    try { uninitialized_default_construct_n (ih, n); } catch (...) { close_hole (ih, n); throw; }
     return ih;
 }
 
@@ -285,7 +286,7 @@ inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, size_t
 	return insert (ip, n, t);
     }
     iterator d = insert_hole (ip, n);
-    uninitialized_fill_n (d, n, v);
+    try { uninitialized_fill_n (d, n, v); } catch (...) { close_hole (d, n); throw; }
     return d;
 }
 
@@ -298,7 +299,7 @@ inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, const
 	return insert (ip, t);
     }
     iterator d = insert_hole (ip, 1);
-    construct_at (d, v);
+    try { construct_at (d, v); } catch (...) { close_hole (d, 1); throw; }
     return d;
 }
 
@@ -307,8 +308,9 @@ template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, const_iterator i1, const_iterator i2)
 {
     assert (i1 <= i2);
-    iterator d = insert_hole (ip, distance (i1, i2));
-    uninitialized_copy (i1, i2, d);
+    const size_type n = distance (i1, i2);
+    iterator d = insert_hole (ip, n);
+    try { uninitialized_copy (i1, i2, d); } catch (...) { close_hole (d, n); throw; }
     return d;
 }
 
@@ -337,7 +339,8 @@ inline void vector<T>::push_back (const T& v)
 	const T t (v);
 	return push_back (t);
     }
-    construct_at (append_hole(1), v);
+    iterator d = append_hole (1);
+    try { construct_at (d, v); } catch (...) { close_hole (d, 1); throw; }
 }
 
 #if HAVE_CPP11
@@ -347,7 +350,9 @@ template <typename T>
 template <typename... Args>
 inline typename vector<T>::iterator vector<T>::emplace (const_iterator ip, Args&&... args)
 {
-    return new (insert_hole(ip,1)) T (forward<Args>(args)...);
+    T t (forward<Args>(args)...);	// args may be elements, which will be moved by the insertion
+    iterator d = insert_hole (ip, 1);
+    try { return new (d) T (move(t)); } catch (...) { close_hole (d, 1); throw; }
 }
 
 /// Constructs value at the end of the vector.
@@ -355,7 +360,8 @@ template <typename T>
 template <typename... Args>
 inline void vector<T>::emplace_back (Args&&... args)
 {
-    new (append_hole(1)) T (forward<Args>(args)...);
+    iterator d = append_hole (1);
+    try { new (d) T (forward<Args>(args)...); } catch (...) { close_hole (d, 1); throw; }
 }
 
 #endif
-- 
2.43.0


From b338d97472625eaee18088b67661764ad145fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:09 +0000
Subject: [PATCH 099/100] fix: shared_ptr deletes the pointer it can not own

---
 umemory.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/umemory.h b/umemory.h
index ec6cda5..de4c80f 100644
--- a/umemory.h
+++ b/umemory.h
@@ -174,7 +174,7 @@ private:
     };
 public:
     inline constexpr		shared_ptr (void)		: _p (nullptr) {}
-    inline explicit		shared_ptr (pointer p)		: _p (new container (p)) {}
+    inline explicit		shared_ptr (pointer p)		: _p (make_container (p)) {}
     inline			shared_ptr (shared_ptr&& p)	: _p (p._p) { p._p = nullptr; }
     inline			shared_ptr (const shared_ptr& p): _p (p._p) { if (_p) ++_p->refs; }
     inline			~shared_ptr (void)		{ reset(); }
@@ -183,8 +183,9 @@ public:
     inline constexpr pointer	get (void) const		{ return _p ? _p->p : nullptr; }
     void			reset (pointer p = nullptr) {
 				    assert (p != get() || !p);
+				    auto nv = p ? make_container(p) : nullptr;
 				    auto ov = _p;
-				    _p = p ? new container(p) : nullptr;
+				    _p = nv;
 				    if (ov && !--ov->refs)
 					delete ov;
 				}
@@ -200,6 +201,10 @@ public:
     inline constexpr bool	operator!= (const pointer p) const	{ return get() != p; }
     inline constexpr bool	operator== (const shared_ptr& p) const	{ return get() == p.get(); }
     inline constexpr bool	operator< (const shared_ptr& p) const	{ return get() < p.get(); }
+private:
+    /// Takes ownership of \p p, deleting it if that is not possible.
+    static container*		make_container (pointer p)
+				    { try { return new container (p); } catch (...) { delete p; throw; } }
 private:
     container*			_p;
 };
-- 
2.43.0


From 230215d550c376c5612a163feaa636a30b342f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:15 +0000
Subject: [PATCH 100/100] fix: sizes that overflow throw bad_alloc

---
 memblock.cc |  2 ++
 ustring.cc  | 18 ++++++++++++++----
 uvector.h   | 13 ++++++++-----
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index e286c0b..21e76a2 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -119,6 +119,8 @@ memblock::iterator memblock::insert (const_iterator start, size_type n)
 {
     const uoff_t ip = start - begin();
     assert (ip <= size());
+    if (n > SIZE_MAX - size())
+	throw bad_alloc (n);
     resize (size() + n, false);
     memlink::insert (iat(ip), n);
     return iat (ip);
diff --git a/ustring.cc b/ustring.cc
index 4e9ab18..322401c 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -94,6 +94,8 @@ string& string::append (const_pointer s, size_type len)
 /// Appends to itself \p n characters of value \p c.
 string& string::append (size_type n, value_type c)
 {
+    if (n > SIZE_MAX - size())
+	throw bad_alloc (n);
     resize (size() + n);
     fill_n (end() - n, n, c);
     return *this;
@@ -138,6 +140,14 @@ string::const_iterator string::wiat (pos_type i) const noexcept
     return cfinder.base();
 }
 
+/// Returns the size of \p n repetitions of \p sz bytes.
+static inline string::size_type repeated_size (string::size_type n, string::size_type sz)
+{
+    if (sz && n > SIZE_MAX / sz)
+	throw bad_alloc (SIZE_MAX);
+    return n * sz;
+}
+
 /// Inserts wide character \p c at \p ipo \p n times as a UTF-8 string.
 ///
 /// \p ipo is a byte position, not a character position, and is intended
@@ -148,7 +158,7 @@ string::const_iterator string::wiat (pos_type i) const noexcept
 string& string::insert (pos_type ipo, size_type n, wvalue_type c)
 {
     iterator ip (iat(ipo));
-    ip = iterator (memblock::insert (memblock::iterator(ip), n * Utf8Bytes(c)));
+    ip = iterator (memblock::insert (memblock::iterator(ip), repeated_size (n, Utf8Bytes(c))));
     fill_n (utf8out (ip), n, c);
     *end() = 0;
     return *this;
@@ -161,7 +171,7 @@ string& string::insert (pos_type ipo, const wvalue_type* first, const wvalue_typ
     size_type nti = distance (first, last), bti = 0;
     for (size_type i = 0; i < nti; ++ i)
 	bti += Utf8Bytes(first[i]);
-    ip = iterator (memblock::insert (memblock::iterator(ip), n * bti));
+    ip = iterator (memblock::insert (memblock::iterator(ip), repeated_size (n, bti)));
     utf8out_iterator<string::iterator> uout (utf8out (ip));
     for (size_type j = 0; j < n; ++ j)
 	for (size_type k = 0; k < nti; ++ k, ++ uout)
@@ -192,7 +202,7 @@ string::iterator string::insert (const_iterator start, const_pointer first, cons
     assert (first <= last);
     assert (begin() <= start && end() >= start);
     assert ((first < begin() || first >= end() || size() + abs_distance(first,last) < capacity()) && "Insertion of self with autoresize is not supported");
-    memblock::iterator ip = iterator (memblock::insert (memblock::const_iterator(start), distance(first, last) * n));
+    memblock::iterator ip = iterator (memblock::insert (memblock::const_iterator(start), repeated_size (n, distance(first, last))));
     fill (ip, first, distance(first, last), n);
     *end() = 0;
     return iterator(ip);
@@ -228,7 +238,7 @@ string& string::replace (const_iterator first, const_iterator last, const_pointe
     assert (n || distance(first, last));
     assert (first >= begin() && first <= end() && last >= first && last <= end());
     assert ((i1 < begin() || i1 >= end() || abs_distance(i1,i2) * n + size() < capacity()) && "Replacement by self can not autoresize");
-    const size_type bte = distance(first, last), bti = distance(i1, i2) * n;
+    const size_type bte = distance(first, last), bti = repeated_size (n, distance(i1, i2));
     const uoff_t rpo = distance (cdata(), static_cast<memblock::const_iterator>(first));
     reserve (size());	// copy-on-write, as equal length replacement does not resize
     memblock::const_iterator rp = memblock::iat (rpo);
diff --git a/uvector.h b/uvector.h
index 6851fb0..efabf3e 100644
--- a/uvector.h
+++ b/uvector.h
@@ -125,6 +125,9 @@ private:
     inline iterator		append_hole (size_type n);
     inline void			close_hole (iterator h, size_type n)	{ _data.erase (memblock::iterator(h), n * sizeof(T)); }
     inline bool			is_element (const T& v) const	{ return &v >= begin() && &v < end(); }
+    /// Returns the byte size of \p n more elements after \p sz.
+    static size_type		bytes_for (size_type n, size_type sz = 0)
+				    { if (n > SIZE_MAX / sizeof(T) - sz) throw bad_alloc (SIZE_MAX); return (sz + n) * sizeof(T); }
     void			destroy_all (void)
 				    { if (!is_linked()) destroy (begin(), end()); }
 private:
@@ -135,13 +138,13 @@ private:
 template <typename T>
 inline void vector<T>::reserve (size_type n, bool bExact)
 {
-    _data.reserve (n*sizeof(T), bExact);
+    _data.reserve (bytes_for (n), bExact);
 }
 
 template <typename T>
 inline typename vector<T>::iterator vector<T>::append_hole (size_type n)
 {
-    size_type nsz = _data.size() + n*sizeof(T);
+    size_type nsz = bytes_for (n, size());
     _data.reserve (nsz);
     iterator hp = end();
     _data.memlink::resize (nsz);
@@ -152,7 +155,7 @@ inline typename vector<T>::iterator vector<T>::append_hole (size_type n)
 template <typename T>
 void vector<T>::resize (size_type n)
 {
-    size_type nb = n*sizeof(T);
+    size_type nb = bytes_for (n);
     _data.reserve (nb);
     iterator inewend = iterator(_data.begin()+nb);
     if (nb < _data.size())
@@ -170,7 +173,7 @@ void vector<T>::resize (size_type n, const_reference v)
 	const T t (v);
 	return resize (n, t);
     }
-    size_type nb = n*sizeof(T);
+    size_type nb = bytes_for (n);
     _data.reserve (nb);
     iterator inewend = iterator(_data.begin()+nb);
     if (nb < _data.size())
@@ -264,7 +267,7 @@ template <typename T>
 inline typename vector<T>::iterator vector<T>::insert_hole (const_iterator ip, size_type n)
 {
     const uoff_t ipmi = distance (_data.begin(), memblock::const_iterator(ip));
-    reserve (size() + n);
+    _data.reserve (bytes_for (n, size()));
     return iterator (_data.insert (_data.iat(ipmi), n * sizeof(T)));
 }
 
-- 
2.43.0

