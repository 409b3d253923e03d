From b090125741f422971e2f354479297addcc090048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:56 +0000
Subject: [PATCH 001/184] fix: CompactArray::SetCapacity could shrink the heap
 buffer below the stored length

---
 include/bss-util/CompactArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CompactArray.h b/include/bss-util/CompactArray.h
index 868f7ff..9a359be 100644
--- a/include/bss-util/CompactArray.h
+++ b/include/bss-util/CompactArray.h
@@ -85,7 +85,7 @@ namespace bss {
     }
     inline void SetCapacity(CT capacity)
     {
-      if(capacity > I)
+      if(capacity > Capacity())
       {
         capacity = T_FBNEXT(capacity);
 
-- 
2.43.0


From fa8c7826f6e0d26840b7145c993982bb8f329905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:56 +0000
Subject: [PATCH 002/184] fix: CompactArray initializer_list constructor wrote
 through the heap pointer while using inline storage

---
 include/bss-util/CompactArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CompactArray.h b/include/bss-util/CompactArray.h
index 9a359be..c03307a 100644
--- a/include/bss-util/CompactArray.h
+++ b/include/bss-util/CompactArray.h
@@ -46,7 +46,7 @@ namespace bss {
       CT len = Length();
 
       for(auto i = list.begin(); i != end && j < len; ++i)
-        new(_array + (j++)) T(*i);
+        new(begin() + (j++)) T(*i);
     }
     inline ~CompactArray() 
     { 
-- 
2.43.0


From 5239209f0c97627462c7f2398a73e9f7bb60ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:03 +0000
Subject: [PATCH 003/184] fix: DynArray<bool>::AddConstruct indexed the packed
 storage by bit index

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index c118a4e..3c4e3a5 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -191,7 +191,7 @@ namespace bss {
     }
     inline ~DynArray() {}
     BSS_FORCEINLINE CT Add(bool item) { _checkSize(); GetBit(_length++) = item; return _length - 1; }
-    BSS_FORCEINLINE CT AddConstruct() { _checkSize(); _array[_length] = false; return _length++; }
+    BSS_FORCEINLINE CT AddConstruct() { return Add(false); }
     inline void Remove(CT index)
     {
       assert(index < _length);
-- 
2.43.0


From 659e169d2fd50f82b61a0384c7524e4c87e8765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:03 +0000
Subject: [PATCH 004/184] fix: DynArray<bool>::SetCapacity recursed forever
 instead of growing the storage

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 3c4e3a5..c8ae2c9 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -213,7 +213,7 @@ namespace bss {
       for(CT i = _length; i < length; ++i) GetBit(i) = false;
       _length = length;
     }
-    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) SetCapacity(capacity); }
+    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) BASE::_setCapacity(capacity); }
     inline void Flip() { for(CT i = 0; i < _capacity; ++i) _array[i] = ~_array[i]; }
     CT CountBits(CT bitindex, CT length) const
     {
-- 
2.43.0


From 31c168a8ed2b520f54b3eee4a71ab796bb2f4b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:03 +0000
Subject: [PATCH 005/184] fix: const DynArray<bool>::Front/Back read whole
 storage bytes instead of the bit

---
 include/bss-util/DynArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index c8ae2c9..3034ec2 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -238,8 +238,8 @@ namespace bss {
     }
     BSS_FORCEINLINE CT Length() const { return _length; }
     BSS_FORCEINLINE CT Capacity() const { return _capacity*DIV_AMT; }
-    BSS_FORCEINLINE bool Front() const { assert(_length > 0); return _array[0]; }
-    BSS_FORCEINLINE bool Back() const { assert(_length > 0); return _array[_length - 1]; }
+    BSS_FORCEINLINE bool Front() const { assert(_length > 0); return operator[](0); }
+    BSS_FORCEINLINE bool Back() const { assert(_length > 0); return operator[](_length - 1); }
     BSS_FORCEINLINE BITREF Front() { assert(_length > 0); return GetBit(0); }
     BSS_FORCEINLINE BITREF Back() { assert(_length > 0); return GetBit(_length - 1); }
     BSS_FORCEINLINE bool operator[](CT index) const { assert(index < _length); return (_array[(index / DIV_AMT)] & (((STORE)1) << (index&MOD_AMT))) != 0; }
-- 
2.43.0


From 1a54d7ebfdf52620b2227f40af39a63e2e01e302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:03 +0000
Subject: [PATCH 006/184] fix: DynArray<bool> copy assignment read past the end
 of a smaller source

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 3034ec2..379344f 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -256,7 +256,7 @@ namespace bss {
     {
       if(copy._length > (_capacity*DIV_AMT))
         BASE::_setCapacityDiscard(copy._capacity);
-      memcpy(_array, copy._array, _capacity * sizeof(STORE));
+      memcpy(_array, copy._array, (_maxChunks(copy._length) / DIV_AMT) * sizeof(STORE));
       _length = copy._length;
       return *this;
     }
-- 
2.43.0


From afa36fa48a34fde9765a6cb538da7f2c66a37a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:03 +0000
Subject: [PATCH 007/184] fix: DynArray<bool>::Insert carried the shifted
 byte's top bit instead of the original one

---
 include/bss-util/DynArray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 379344f..6c07027 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -317,12 +317,12 @@ namespace bss {
       STORE mask = (STORE)(~0) << off;
       STORE store = _array[ind];
       _array[ind] = ((_array[ind] & mask) << 1) | (_array[ind] & (~mask));
-      STORE test = _array[ind];
 
       for(CT i = ind + 1; i < len; ++i)
       {
-        _array[i] = (store >> MOD_AMT) | ((_array[i] << 1) & (STORE)(~1));
-        store = _array[i];
+        STORE next = _array[i];
+        _array[i] = (store >> MOD_AMT) | ((next << 1) & (STORE)(~1));
+        store = next;
       }
     }
 
-- 
2.43.0


From e1017e4967da01546a846b77b62d59c15b61607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:29 +0000
Subject: [PATCH 008/184] fix: ArbitraryArray::Add overflowed when the spare
 capacity was smaller than one element

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 6c07027..ff70d8b 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -354,7 +354,7 @@ namespace bss {
     template<typename T>
     inline CT Add(const T& item)
     {
-      if((_length*_element) >= _capacity) BASE::_setCapacity(T_FBNEXT(_length)*_element);
+      if(((_length + 1)*_element) > _capacity) BASE::_setCapacity(T_FBNEXT(_length)*_element);
       memcpy(_array + (_length*_element), &item, std::min<CT>(sizeof(T), _element));
       return _length++;
     }
-- 
2.43.0


From 6d507776d1bdf8a44add6f5db3c91317f591fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:43 +0000
Subject: [PATCH 009/184] fix: Queue::Discard dropped the oldest item without
 destroying it

---
 include/bss-util/Queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Queue.h b/include/bss-util/Queue.h
index af98476..7154fe9 100644
--- a/include/bss-util/Queue.h
+++ b/include/bss-util/Queue.h
@@ -30,7 +30,7 @@ namespace bss {
     // Peeks at the value at the top of the queue but does not remove it. If there is no value, this is an illegal call.
     BSS_FORCEINLINE T& Peek() { assert(_length != 0); return BASE::Back(); }
     BSS_FORCEINLINE const T& Peek() const { assert(_length != 0); return BASE::Back(); }
-    BSS_FORCEINLINE void Discard() { --_length; }
+    BSS_FORCEINLINE void Discard() { assert(_length != 0); BASE::PopBack(); }
     // Returns true if there are no values in the queue (indicating that Pop() and Peek() cannot be called)
     BSS_FORCEINLINE bool Empty() { return !_length; }
     BSS_FORCEINLINE void Clear() { BASE::Clear(); }
-- 
2.43.0


From 1bc22d9da531f6f03efce13d3275f7a414f72c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:43 +0000
Subject: [PATCH 010/184] fix: RandomQueue::Pop, Remove and Clear never
 destroyed the elements they dropped

---
 include/bss-util/RandomQueue.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/RandomQueue.h b/include/bss-util/RandomQueue.h
index 200e692..3056cbb 100644
--- a/include/bss-util/RandomQueue.h
+++ b/include/bss-util/RandomQueue.h
@@ -35,9 +35,15 @@ namespace bss {
       return r;
     }
     BSS_FORCEINLINE T Pop() { return Pop(bss_getdefaultengine()); }
-    inline void Remove(CT index) { _array[index] = std::move(_array[--_length]); }
+    inline void Remove(CT index)
+    {
+      assert(index < _length);
+      if(index != _length - 1)
+        _array[index] = std::move(_array[_length - 1]);
+      BASE::RemoveLast();
+    }
     inline bool Empty() const { return !_length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     BSS_FORCEINLINE void SetLength(CT length) { BASE::SetLength(length); }
     inline CT Length() const { return _length; }
     inline const T* begin() const { return _array; }
-- 
2.43.0


From d1474aa04a973becf4e9135eb16fe20c1f830efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:43 +0000
Subject: [PATCH 011/184] fix: BinaryHeap::Clear never destroyed the stored
 elements

---
 include/bss-util/BinaryHeap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 9f1f022..125c25b 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -61,7 +61,7 @@ namespace bss {
     }
     inline bool Empty() { return !_length; }
     inline CT Length() { return _length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     // Inserts a value
     inline void Insert(const T& val) { _insert(val); }
     inline void Insert(T&& val) { _insert(std::move(val)); }
-- 
2.43.0


From fc98b12f508660bfe7bf4237002c8531b7cfcd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:43 +0000
Subject: [PATCH 012/184] fix: BinaryHeap::Remove asserted on the last element
 and could break heap order when removing from the middle

---
 include/bss-util/BinaryHeap.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 125c25b..8b3cb5d 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -68,12 +68,17 @@ namespace bss {
     // Sets a key and percolates
     inline bool Set(CT index, const T& val) { return _set(index, val); }
     inline bool Set(CT index, T&& val) { return _set(index, std::move(val)); }
-    // To remove a node, we replace it with the last item in the heap and then percolate down
+    // To remove a node, we replace it with the last item in the heap and then percolate it in whichever direction is needed
     inline bool Remove(CT index)
     {
       if(index >= _length) return false; //We don't have to copy _array[_length - 1] because it stays valid during the percolation
-      if(_length > 1) //We can't percolate down if there's nothing in the array! 
-        PercolateDown(_array, _length - 1, index, _array[_length - 1], this);
+      if(index < _length - 1) //We don't have to percolate anything if we are removing the last item
+      {
+        if(index > 0 && CFunc(_array[_length - 1], _array[CBH_PARENT(index)]) > 0)
+          PercolateUp(_array, _length - 1, index, _array[_length - 1], this);
+        else
+          PercolateDown(_array, _length - 1, index, _array[_length - 1], this);
+      }
       BASE::RemoveLast();
       return true;
     }
-- 
2.43.0


From f3d9a17f1d2289f7caea6c4348a1b2bac86bd9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:20 +0000
Subject: [PATCH 013/184] fix: PriorityHeap move constructor discarded the
 handle table it had just moved

---
 include/bss-util/PriorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/PriorityQueue.h b/include/bss-util/PriorityQueue.h
index 7dc3039..d3e6d12 100644
--- a/include/bss-util/PriorityQueue.h
+++ b/include/bss-util/PriorityQueue.h
@@ -65,7 +65,7 @@ namespace bss {
 
   public:
     PriorityHeap(const PriorityHeap& copy) : BASE(copy), _freelist(copy._freelist) { _subarray = copy._subarray; }
-    PriorityHeap(PriorityHeap&& mov) : BASE(std::move(mov)), _freelist(mov._freelist) { _subarray = std::move(mov._subarray); }
+    PriorityHeap(PriorityHeap&& mov) : BASE(std::move(mov)), _freelist(mov._freelist) { mov._freelist = (CT_)-1; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     explicit PriorityHeap(typename Alloc::policy_type* policy) : BASE(policy), _freelist((CT_)-1) {}
     PriorityHeap() : _freelist((CT_)-1) {}
-- 
2.43.0


From 8396fca0bea66d82334af97d80d18df4f4f0f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:17 +0000
Subject: [PATCH 014/184] fix: Scheduler::Update read the top of an empty event
 heap

---
 include/bss-util/Scheduler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Scheduler.h b/include/bss-util/Scheduler.h
index 37914a7..7931d8c 100644
--- a/include/bss-util/Scheduler.h
+++ b/include/bss-util/Scheduler.h
@@ -33,7 +33,7 @@ namespace bss {
     {
       HighPrecisionTimer::Update();
 
-      while(BASE::Peek().first <= _time)
+      while(!BASE::Empty() && BASE::Peek().first <= _time)
       {
         double r = BASE::Peek().second();
 
-- 
2.43.0


From 923e84c9b5e47dd5288a6f08be88a3331ca89fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:47 +0000
Subject: [PATCH 015/184] fix: AATree::Clear left the root pointing at freed
 nodes

---
 include/bss-util/AATree.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 8951010..1596cbd 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -59,7 +59,11 @@ namespace bss {
 
       return 0;
     }
-    inline void Clear() { _clear(_root); }
+    inline void Clear()
+    {
+      _clear(_root);
+      _root = _sentinel;
+    }
     // Gets the root, unless the tree is empty, in which case returns nullptr
     inline AANODE<T>* GetRoot() { return _root == _sentinel ? 0 : _root; }
     inline bool IsEmpty() { return _root == _sentinel; }
-- 
2.43.0


From 13400ab1ffc4eb9d9626196775416344a4fcbc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:47 +0000
Subject: [PATCH 016/184] fix: AATree::Remove consulted an uninitialised or
 stale candidate node

---
 include/bss-util/AATree.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 1596cbd..a42dba2 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -41,7 +41,11 @@ namespace bss {
       Alloc::deallocate(_sentinel, 1);
     }
     inline void Insert(const T& data) { _insert(_root, data); }
-    inline bool Remove(const T& data) { return _remove(_root, data); }
+    inline bool Remove(const T& data)
+    {
+      _deleted = _last = _sentinel;
+      return _remove(_root, data);
+    }
     // Gets the node that belongs to the data or returns nullptr if not found.
     inline AANODE<T>* Get(const T& data)
     {
-- 
2.43.0


From 59c7a1f3a5d51a8687b05ec149cf8fe2173b5fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:47 +0000
Subject: [PATCH 017/184] fix: AATree assigned to unconstructed elements and
 never destroyed removed ones

---
 include/bss-util/AATree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index a42dba2..6822b75 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -118,7 +118,7 @@ namespace bss {
       {
         n = Alloc::allocate(1);
         n->left = n->right = _sentinel;
-        n->data = data;
+        new(&n->data) T(data);
         n->level = 1;
         return;
       }
@@ -152,6 +152,7 @@ namespace bss {
         _deleted->data = n->data;
         _deleted = _sentinel;
         n = n->right;
+        _last->~AANODE<T>();
         Alloc::deallocate(_last);
         _last = _sentinel;
         b = true;
-- 
2.43.0


From d334215c6a75352b3a8abe94f683308e29989b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:47 +0000
Subject: [PATCH 018/184] fix: TRBtree move constructor rebuilt the moved
 sentinel over the stolen one

---
 include/bss-util/TRBtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/TRBtree.h b/include/bss-util/TRBtree.h
index 2578cfa..d51eb8e 100644
--- a/include/bss-util/TRBtree.h
+++ b/include/bss-util/TRBtree.h
@@ -403,7 +403,7 @@ namespace bss {
       mov._first = 0;
       mov._last = 0;
       mov.NIL = Alloc::allocate(1);
-      new (NIL) TRB_Node<T>(0);
+      new (mov.NIL) TRB_Node<T>(0);
       mov.NIL->left = mov.NIL;
       mov.NIL->right = mov.NIL;
       mov._root = mov.NIL;
-- 
2.43.0


From 85633c8c070d58e0b336d5626e3c189585152c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:24 +0000
Subject: [PATCH 019/184] fix: TRBtree::GetNear returned a duplicate of the
 preceding key when asked for the following one

---
 include/bss-util/TRBtree.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/TRBtree.h b/include/bss-util/TRBtree.h
index d51eb8e..27af5c5 100644
--- a/include/bss-util/TRBtree.h
+++ b/include/bss-util/TRBtree.h
@@ -528,8 +528,12 @@ namespace bss {
 
       if(before)
         return (res < 0 && parent->prev) ? parent->prev : parent;
-      else
-        return (res > 0 && parent->next) ? parent->next : parent;
+      if(res <= 0)
+        return parent;
+      TRB_Node<T>* next = parent->next;
+      while(next && next->color == -1) // skip any duplicates of parent
+        next = next->next;
+      return next ? next : parent;
     }
 
     inline int DEBUGVERIFY() { return TRB_Node<T>::DEBUGVERIFY(_root, NIL); }
-- 
2.43.0


From 64a782bca3341811c505bd049615a7226900616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:14 +0000
Subject: [PATCH 020/184] fix: Hash never destroyed the moved-from keys and
 values left behind by a rehash

---
 include/bss-util/Hash.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index f1bb146..6314dde 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -485,7 +485,12 @@ namespace bss {
             [[maybe_unused]] FakeData val;
             khint_t new_mask;
             new_mask = new_n_buckets - 1;
-            if constexpr(IsMap)val = std::move(vals[j]);
+            keys[j].~Key();
+            if constexpr(IsMap)
+            {
+              val = std::move(vals[j]);
+              vals[j].~Data();
+            }
             __ac_set_isdel_true(flags, j);
             while(1)
             { /* kick-out process; sort of like in Cuckoo hashing */
@@ -622,7 +627,10 @@ namespace bss {
           for(khint_t i = 0; i < n_buckets; ++i)
           {
             if(!__ac_iseither(flags, i))
+            {
               new(n + i) T(std::move(src[i]));
+              src[i].~T();
+            }
           }
         }
 
-- 
2.43.0


From 2a1c3bbdd90226f9ee3be5165d73d028ba5670a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 021/184] fix: Trie looked words up in signed character order
 although they are sorted as unsigned bytes

---
 include/bss-util/Trie.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index 049c7bd..141e086 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -105,7 +105,7 @@ namespace bss {
     inline T operator[](const char* word) const { return Get(word); }
     inline Trie& operator=(const Trie& copy) { BASE::operator=(copy); _length = copy._length; return *this; }
     inline Trie& operator=(Trie&& mov) { BASE::operator=(std::move(mov)); _length = mov._length; mov._length = 0; return *this; }
-    static inline char _CompTNode(const TNODE& t, const char& c) { return SGNCOMPARE(t.chr, c); }
+    static inline char _CompTNode(const TNODE& t, const char& c) { return SGNCOMPARE((unsigned char)t.chr, (unsigned char)c); }
 
   protected:
     void _construct(T num, const char* const* initstr)
-- 
2.43.0


From cf86b2b86bdad64c7d3b4e8e083097edc0503b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 022/184] fix: Trie wrote past its nodes when the word list
 contained the empty word

---
 include/bss-util/Trie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index 141e086..37a6d2e 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -142,8 +142,8 @@ namespace bss {
 
       if(!c) // The only place we'll recieve the end of the word is in our starting position due to alphabetical order
       {
-        _checkSize(r + 1);
-        _array[r + 1].word = str[0].first; 
+        _checkSize(cnt);
+        _array[cnt].word = str[0].first; 
         ++str;
         --len; 
       }
-- 
2.43.0


From 9fb5bded5fdf575a72bb41c3cb88837f7186a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 023/184] fix: DisjointSet::Union of a set with itself created
 a cycle that made Find loop forever

---
 include/bss-util/DisjointSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index ed2930d..b484dcf 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -39,7 +39,7 @@ namespace bss {
     // Union (combine) two disjoint sets into one set. Returns false if set1 or set2 aren't set names.
     inline bool Union(T set1, T set2)
     {
-      if(_invalidIndex(set1) || _invalidIndex(set2))
+      if(set1 == set2 || _invalidIndex(set1) || _invalidIndex(set2))
         return false;
 
       Ty w1 = _array[set1];
-- 
2.43.0


From db8b90f8860206ba5fdf2095bbea2df2948e3e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:28 +0000
Subject: [PATCH 024/184] fix: Trie's node storage wrapped around and shrank
 when it grew past half its index range

---
 include/bss-util/Trie.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index 37a6d2e..3865996 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -132,7 +132,7 @@ namespace bss {
         _array[i].chr = 0;
       }
     }
-    BSS_FORCEINLINE void _checkSize(T r) { assert(r < (std::numeric_limits<T>::max() - 2)); if(r >= _capacity) { T s = _capacity; BASE::_setCapacity(_capacity << 1); _fill(s, _capacity); } }
+    BSS_FORCEINLINE void _checkSize(T r) { assert(r < (std::numeric_limits<T>::max() - 2)); if(r >= _capacity) { T s = _capacity; BASE::_setCapacity((_capacity > (std::numeric_limits<T>::max() >> 1)) ? std::numeric_limits<T>::max() : (T)(_capacity << 1)); _fill(s, _capacity); } }
     T _init(T len, PAIR const* str, T cnt, T level)
     {
       T r = cnt - 1;
-- 
2.43.0


From 19736c630e4a7ed1b3969435d99b4dabbcf37530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:01 +0000
Subject: [PATCH 025/184] fix: StringTable::AppendString read before the index
 array of an empty table

---
 include/bss-util/StringTable.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/StringTable.h b/include/bss-util/StringTable.h
index 6ca7859..02be984 100644
--- a/include/bss-util/StringTable.h
+++ b/include/bss-util/StringTable.h
@@ -61,7 +61,9 @@ namespace bss {
     inline const T* GetString(CT_ index) const { assert(index < _indices.Capacity()); return _strings + _indices[index]; }
     inline void AppendString(const char* s)
     {
-      CT_ last = internal::STR_CT<T>::SLEN(_strings + _indices[_indices.Capacity() - 1]) + 1 + _indices[_indices.Capacity() - 1];
+      CT_ last = 0;
+      if(_indices.Capacity() > 0)
+        last = internal::STR_CT<T>::SLEN(_strings + _indices[_indices.Capacity() - 1]) + 1 + _indices[_indices.Capacity() - 1];
       CT_ sz = internal::STR_CT<T>::SLEN(s) + 1;
 
       _indices.SetCapacity(_indices.Capacity() + 1);
-- 
2.43.0


From 663037fd1b5f4c9c88372f919203cd2dec6f177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:12 +0000
Subject: [PATCH 026/184] fix: strccount with a length gave up whenever the
 first character was a terminator

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 2fda1b3..1c85ee0 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -146,7 +146,7 @@ namespace bss {
   {
     static_assert(std::is_integral<T>::value, "T must be integral");
     size_t ret = 0;
-    for(size_t i = 0; (i < length) && ((*string) != 0); ++i)
+    for(size_t i = 0; i < length; ++i)
       if(string[i] == c) ++ret;
     return ret;
   }
-- 
2.43.0


From 683e6825e6ed2fd8b44c1d7a1fef8d51fd37b11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 027/184] fix: LinkedArray move left the source claiming slots
 it no longer owned (and the move constructor did not compile)

---
 include/bss-util/LinkedArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/LinkedArray.h b/include/bss-util/LinkedArray.h
index 3d8865b..5face86 100644
--- a/include/bss-util/LinkedArray.h
+++ b/include/bss-util/LinkedArray.h
@@ -29,7 +29,7 @@ namespace bss {
 
     inline LinkedArray() : _ref(1), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
     inline LinkedArray(const LinkedArray& copy) : _ref(copy._ref), _length(copy._length), _start(copy._start), _end(copy._end), _freelist(copy._freelist) {}
-    inline LinkedArray(LinkedArray&& mov) : _ref(std::move(mov._ref)), _length(mov._length), _start(mov._start), _end(mov._end), _freelist(mov._freelist) { mov._ref = 1; mov._length = 0; mov._start = mov._end = -1 = mov._freelist = -1; }
+    inline LinkedArray(LinkedArray&& mov) : _ref(std::move(mov._ref)), _length(mov._length), _start(mov._start), _end(mov._end), _freelist(mov._freelist) { mov._length = 0; mov._start = mov._end = mov._freelist = (CT_)-1; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline LinkedArray(CT_ size, typename Alloc::policy_type* policy) : _ref(size, policy), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
     inline explicit LinkedArray(CT_ size) : _ref(size), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
@@ -78,7 +78,7 @@ namespace bss {
     //inline LinkedArray& operator +=(const LinkedArray& right);
     //inline LinkedArray operator +(const LinkedArray& right) const { LinkedArray retval(*this); retval+=right; return retval; }
     inline LinkedArray& operator =(const LinkedArray& right) { _ref = right._ref; _length = right._length; _start = right._start; _end = right._end; _freelist = right._freelist; return *this; }
-    inline LinkedArray& operator =(LinkedArray&& mov) { _ref = std::move(mov._ref); _length = mov._length; _start = mov._start; _end = mov._end; _freelist = mov._freelist; return *this; }
+    inline LinkedArray& operator =(LinkedArray&& mov) { _ref = std::move(mov._ref); _length = mov._length; _start = mov._start; _end = mov._end; _freelist = mov._freelist; mov._length = 0; mov._start = mov._end = mov._freelist = (CT_)-1; return *this; }
     BSS_FORCEINLINE T& GetItem(CT_ index) { return _ref[index].val; }
     BSS_FORCEINLINE const T& GetItem(CT_ index) const { return _ref[index].val; }
     BSS_FORCEINLINE T* GetItemPtr(CT_ index) { return &_ref[index].val; }
-- 
2.43.0


From 871547a6cd6ccfea60d74a70f569544a7838dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:30 +0000
Subject: [PATCH 028/184] fix: BreadthFirstGraph visited a vertex once per
 incoming edge and overflowed the queue

---
 include/bss-util/Graph.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 163c736..de52135 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -423,7 +423,7 @@ namespace bss {
     size_t l = 0;
     for(E* edge = n[root].to; edge != 0; edge = edge->next)
     {
-      if(edge->to != root)
+      if(set.Union(root, set.Find(edge->to))) // Mark vertices when they are queued, so each is queued at most once
         queue[l++] = edge->to;
     }
 
@@ -432,11 +432,9 @@ namespace bss {
       if(FACTION(queue[i]))
         return;
 
-      set.Union(root, queue[i]);
-
       for(E* edge = n[queue[i]].to; edge != 0; edge = edge->next)
       {
-        if(set.Find(edge->to) != root) //Enqueue the children if they aren't already in the set.
+        if(set.Union(root, set.Find(edge->to))) //Enqueue the children if they aren't already in the set.
           queue[l++] = edge->to; // Doesn't need to be circular because we can only enqueue n-1 anyway.
       }
     }
-- 
2.43.0


From 8cb84026c83d286013637a4363c02f568280a49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:30 +0000
Subject: [PATCH 029/184] fix: Graph::ToMatrix wrote vertex data at the slot
 index instead of the matrix row

---
 include/bss-util/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index de52135..98251d6 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -141,7 +141,7 @@ namespace bss {
 
       for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i))
       {
-        _setVertex(nodes, i, _nodes[i]);
+        _setVertex(nodes, hash[i], _nodes[i]);
 
         for(cur = _nodes[i].to; cur != 0; cur = cur->next)
           _getData(matrix[(hash[i] * len) + hash[cur->to]], *cur);
-- 
2.43.0


From 65e011b0db8c5c8cb8a73cbb7179237cc77b427b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:30 +0000
Subject: [PATCH 030/184] fix: Graph move assignment leaked the edges it
 replaced

---
 include/bss-util/Graph.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 98251d6..f8344d4 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -153,6 +153,9 @@ namespace bss {
     inline Node<E, V, CT>& operator[](CT index) { return _nodes[index]; }
     inline Graph& operator=(Graph&& mov) 
     { 
+      for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i))
+        while(_nodes[i].to)
+          RemoveEdge(_nodes[i].to);
       Alloc::operator=(std::move(mov));
       _nodes = std::move(mov._nodes); 
       _nedges = mov._nedges; 
-- 
2.43.0


From 9cdfbdd5d6cdefa0f061d3ca4de881352c115701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:30 +0000
Subject: [PATCH 031/184] fix: MaxFlow_PushRelabel looped forever on dead ends,
 lost flow on parallel edges and indexed its arc cursors wrongly

---
 include/bss-util/Graph.h | 60 ++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index f8344d4..93c3e4e 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -209,10 +209,12 @@ namespace bss {
     VARARRAY(int, excess, cap);
     VARARRAY(CT, height, cap);
     VARARRAY(PEDGE, seen, cap);
+    VARARRAY(bool, back, cap); // true if the current arc is a reversed (incoming) edge
     VARARRAY(PAIR, v, (len - 2)); //integer based singly-linked list.
     bssFillN<int>(excess, cap);
     bssFillN<CT>(height, cap);
     bssFillN<PEDGE>(seen, cap);
+    bssFillN<bool>(back, cap);
     bssFillN<PAIR>(v, (len - 2), -1);
     PEDGE edge;
     auto& nodes = graph.GetNodes();
@@ -220,13 +222,13 @@ namespace bss {
     height[s] = len;
     excess[s] = (INT_MAX >> 1); //ensures we can't blow stuff up while sending flow backwards
 
-    CT root;
+    CT root = (CT)-1;
     CT* plast = &root;
     CT k = 0; // Build a list of all vertices except s and t
 
     for(CT i = nodes.Front(); i != (CT)-1; nodes.Next(i))
     {
-      seen[k] = nodes[i].to;
+      seen[i] = nodes[i].to;
 
       if(i != s && i != t)
       {
@@ -242,7 +244,7 @@ namespace bss {
     for(edge = nodes[s].to; edge != 0; edge = edge->next)
     {
       edge->data.flow = edge->data.capacity;
-      excess[edge->to] = edge->data.capacity;
+      excess[edge->to] += edge->data.capacity;
     }
 
     int send;
@@ -257,54 +259,51 @@ namespace bss {
 
       while(excess[k] > 0) // Discharge current vertex
       {
-        if(!seen[k]) //If seen is null, we tried all our neighbors so relabel
+        if(!seen[k])
         {
-          send = INT_MAX;
+          if(!back[k]) // We tried all our outgoing edges, so move on to pushing things backwards along the incoming ones
+          {
+            back[k] = true;
+            seen[k] = nodes[k].from;
+            continue;
+          }
+
+          send = INT_MAX; // We tried all our neighbors so relabel above the lowest one that has any residual capacity in either direction
 
           for(edge = nodes[k].to; edge != 0; edge = edge->next)
-          { // First we try to send it forward
-            if(edge->data.capacity - edge->data.flow > 0)
-            {
-              if(height[edge->to] < send) send = height[edge->to];
-              height[k] = send + 1; // we have to do this in here because if there is no valid relabel, the height can't change.
-            }
+          {
+            if(edge->to != k && edge->data.capacity - edge->data.flow > 0 && height[edge->to] < send)
+              send = height[edge->to];
           }
 
-          if(send == INT_MAX) // If this is true, our forward relabel failed, so that means we need to try to push things backwards
+          for(edge = nodes[k].from; edge != 0; edge = edge->alt.next)
           {
-            for(edge = nodes[k].from; edge != 0; edge = edge->alt.next)
-            {
-              if(edge->data.flow > 0)
-              { // Negate the flow and set capacity to 0 because we're going backwards
-                if(height[edge->from] < send)
-                  send = height[edge->from];
-
-                height[k] = send + 1;
-              }
-            }
-            seen[k] = nodes[k].from;
+            if(edge->from != k && edge->data.flow > 0 && height[edge->from] < send)
+              send = height[edge->from];
           }
-          else
-            seen[k] = nodes[k].to;
 
+          assert(send != INT_MAX); // Excess can always go back the way it came
+          height[k] = send + 1;
+          back[k] = false;
+          seen[k] = nodes[k].to;
           continue;
         }
         if(excess[k] > 0)
         {// If possible, do a push. We must check whether our current edge is backwards or not
-          send = (seen[k]->from == k) ? seen[k]->data.capacity - seen[k]->data.flow : seen[k]->data.flow;
-          target = (seen[k]->from == k) ? seen[k]->to : seen[k]->from;
+          send = !back[k] ? seen[k]->data.capacity - seen[k]->data.flow : seen[k]->data.flow;
+          target = !back[k] ? seen[k]->to : seen[k]->from;
 
           if(height[k] > height[target] && send > 0)
           { // If possible, do a push
             if(excess[k] < send)
               send = excess[k]; // send an amount equal to min(excess, capacity - flow)
 
-            seen[k]->data.flow += (seen[k]->from == k) ? send : -send; // Negate if the edge is backwards
+            seen[k]->data.flow += !back[k] ? send : -send; // Negate if the edge is backwards
             excess[target] += send;
             excess[k] -= send;
           }
         }
-        seen[k] = (seen[k]->from == k) ? seen[k]->next : seen[k]->alt.next;
+        seen[k] = !back[k] ? seen[k]->next : seen[k]->alt.next;
       }
 
       if(lh != height[k]) // If the height changed...
@@ -316,7 +315,8 @@ namespace bss {
           root = c;
         }
 
-        c = root; // restart traversal at start of list
+        last = c; // continue traversal after the vertex that is now at the start of the list
+        c = v[c].second;
         continue;
       }
 
-- 
2.43.0


From 9980d22b4975a176a2b70df39e5cbae49986b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 032/184] fix: KDTree rebalancing only moved items that crossed
 the last of the four dividers, so queries missed the others

---
 include/bss-util/KDTree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 91be8af..186ecee 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -240,9 +240,9 @@ namespace bss {
         itemr = FRECT(item);
 
         if(itemr[0] < r[0]) i = 0; // Check for a violation. We don't bother checking to see if there are multiple violations, because 
-        if(itemr[1] < r[1]) i = 1; // if that happens, we'll catch it on our way back up the stack.
-        if(itemr[2] > r[2]) i = 2;
-        if(itemr[3] > r[3]) i = 3;
+        else if(itemr[1] < r[1]) i = 1; // if that happens, we'll catch it on our way back up the stack.
+        else if(itemr[2] > r[2]) i = 2;
+        else if(itemr[3] > r[3]) i = 3;
         else continue;
 
         node->total[0] -= itemr[0] + itemr[2]; // Remove image from us
-- 
2.43.0


From d3a31bd233bd249477bb12d646331b30751761e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:11 +0000
Subject: [PATCH 033/184] fix: KDTree::Solve moved the dividers of existing
 nodes without moving the items that now cross them

---
 include/bss-util/KDTree.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 186ecee..4ce376c 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -148,7 +148,13 @@ namespace bss {
       ++_root->num;
       _insertItem(_root, item);
     }
-    inline void Solve() { if(_root) _solve(&_root); }
+    inline void Solve()
+    {
+      if(_root)
+        _solve(&_root);
+      if(_root)
+        Rebalance(_root); // Moves items in already existing nodes that cross the new dividers
+    }
     inline KDNode<T>* GetRoot() { return _root; }
     inline uint32_t GetRBThreshold() const { return _rbthreshold; }
     inline void SetRBThreshold(uint32_t rbthreshold) { _rbthreshold = rbthreshold; }
-- 
2.43.0


From ade264e3cbae72492ebd23253c4c65e42aecb227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:34 +0000
Subject: [PATCH 034/184] fix: KDTree rebalancing widened a cell when a
 descendant's divider lay outside it, leaving items on the wrong side

---
 include/bss-util/KDTree.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 4ce376c..426c5e0 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -216,8 +216,11 @@ namespace bss {
       if(node->left)
       {
         node->num -= node->left->num;
-        rect[axis + 2] = node->div;
-        parents[axis + 2] = node;
+        if(node->div < r[axis + 2]) // Our cell can only get smaller, even if our divider is outside of it
+        {
+          rect[axis + 2] = node->div;
+          parents[axis + 2] = node;
+        }
         _rebalance(node->left, rect, parents, node->total);
         node->num += node->left->num;
         _checkDestroy(node->left);
@@ -227,8 +230,11 @@ namespace bss {
       if(node->right)
       {
         node->num -= node->right->num;
-        rect[axis] = node->div;
-        parents[axis] = node;
+        if(node->div > r[axis])
+        {
+          rect[axis] = node->div;
+          parents[axis] = node;
+        }
         _rebalance(node->right, rect, parents, node->total);
         node->num += node->right->num;
         _checkDestroy(node->right);
-- 
2.43.0


From cc847a893d7e960acb781380b77b2721e353dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:52 +0000
Subject: [PATCH 035/184] fix: KDTree::Solve recursed forever when rounding put
 the mean of identical items beside all of them

---
 include/bss-util/KDTree.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 426c5e0..68728ef 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -180,6 +180,20 @@ namespace bss {
       T* item;
       T* next = node->items;
 
+      if(node->items && !node->left && !node->right)
+      { // Rounding can put the average beside all of the items, so move it back to ensure at least one item always stays in this node.
+        float lo = FLT_MAX;
+        float hi = -FLT_MAX;
+
+        for(item = node->items; item != 0; item = FLIST(item).next)
+        {
+          r = FRECT(item);
+          lo = bssmin(lo, r[node->axis]);
+          hi = bssmax(hi, r[node->axis + 2]);
+        }
+        node->div = bssmin(bssmax(node->div, lo), hi);
+      }
+
       while((item = next))
       {
         next = FLIST(item).next;
-- 
2.43.0


From ad9e099c86354a12495291f31bc32f37f86beca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:04 +0000
Subject: [PATCH 036/184] fix: LocklessBlockPolicy move assignment leaked the
 chunks it replaced

---
 include/bss-util/BlockAllocMT.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bss-util/BlockAllocMT.h b/include/bss-util/BlockAllocMT.h
index 0259175..a0fe6f7 100644
--- a/include/bss-util/BlockAllocMT.h
+++ b/include/bss-util/BlockAllocMT.h
@@ -92,6 +92,11 @@ namespace bss {
 
     LocklessBlockPolicy& operator=(LocklessBlockPolicy&& mov) noexcept
     {
+      while(Node* hold = _root)
+      {
+        _root = hold->next;
+        free(hold);
+      }
       _root = mov._root;
       _freelist.p = mov._freelist.p;
       _freelist.tag = mov._freelist.tag;
-- 
2.43.0


From 01731966264b5ae29b88e949061006cf1268c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:04 +0000
Subject: [PATCH 037/184] fix: GreedyAlloc move assignment leaked the chunks it
 replaced

---
 include/bss-util/GreedyAlloc.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bss-util/GreedyAlloc.h b/include/bss-util/GreedyAlloc.h
index f5bf9c9..981bc25 100644
--- a/include/bss-util/GreedyAlloc.h
+++ b/include/bss-util/GreedyAlloc.h
@@ -124,6 +124,12 @@ namespace bss {
 
     GreedyAlloc& operator=(GreedyAlloc&& mov)
     {
+      for(Node* hold = _root.load(std::memory_order_relaxed); hold != nullptr;)
+      {
+        Node* next = hold->next;
+        ALIGNEDFREE(hold);
+        hold = next;
+      }
       _root.store(mov._root.load(std::memory_order_relaxed), std::memory_order_relaxed);
       _curpos.store(mov._curpos.load(std::memory_order_relaxed), std::memory_order_relaxed);
       assert(_align == mov._align);
-- 
2.43.0


From 7c189afdb06f9eafb06408170d6b2250d30c533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:04 +0000
Subject: [PATCH 038/184] fix: CacheAlloc move construction left the free lists
 of the moved chunks behind

---
 include/bss-util/CacheAlloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index d2f48d5..f23fdd3 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -15,7 +15,7 @@ namespace bss {
     CacheAlloc& operator=(const CacheAlloc& copy) = delete;
     
   public:
-    inline CacheAlloc(CacheAlloc&& mov) : GreedyAlloc(std::move(mov)), _maxsize(mov._maxsize), _debugalign(mov._debugalign) {}
+    inline CacheAlloc(CacheAlloc&& mov) : GreedyAlloc(std::move(mov)), _maxsize(mov._maxsize), _debugalign(mov._debugalign), _cache(std::move(mov._cache)) {}
     inline explicit CacheAlloc(size_t maxsize = 8192, size_t init = 64, size_t align = 1) : GreedyAlloc(init, align), _maxsize(maxsize), _debugalign(bssmax(align, sizeof(size_t))) {}
     inline ~CacheAlloc() {}
 
-- 
2.43.0


From d161c42239eff5d21f21d56c6e0ea563119496aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:04 +0000
Subject: [PATCH 039/184] fix: CachePolicy::allocate returned a shrunk block to
 the free list of the wrong size

---
 include/bss-util/CacheAlloc.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index f23fdd3..4e89d70 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -145,9 +145,7 @@ namespace bss {
       if(p)
       {
         assert(old > 0);
-        if(cnt < old)
-          old = cnt;
-        MEMCPY(n, cnt * sizeof(T), p, old * sizeof(T));
+        MEMCPY(n, cnt * sizeof(T), p, bssmin(cnt, old) * sizeof(T));
         CacheAlloc::Dealloc(p, old * sizeof(T));
       }
       return n;
-- 
2.43.0


From 9a5818595b0c7722a1f8fdeca0bd60a4fa7f62ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:22 +0000
Subject: [PATCH 040/184] fix: asmbts/asmbtr with a constant bit assembled to
 the 32-bit form, so optimised builds locked the wrong bit

---
 include/bss-util/lockless.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index bc6b735..9080bec 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -211,10 +211,11 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock bts %[bit], %[x]\n\t"
+          "lock btsl %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit)
+          : "cc", "memory");
         return retval != 0;
       }
     };
@@ -223,10 +224,11 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock bts %[bit], %[x]\n\t"
+          "lock btsq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit)
+          : "cc", "memory");
         return retval != 0;
       }
     };
@@ -248,10 +250,11 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock btr %[bit], %[x]\n\t"
+          "lock btrl %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit)
+          : "cc", "memory");
         return retval != 0;
       }
     };
@@ -260,10 +263,11 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock btr %[bit], %[x]\n\t"
+          "lock btrq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit)
+          : "cc", "memory");
         return retval != 0;
       }
     };
-- 
2.43.0


From 1cb21804a35010406fd077f41b98f9b92052d36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:39 +0000
Subject: [PATCH 041/184] fix: LocklessBlockPolicy wrote past its first chunk
 when created with no initial blocks

---
 include/bss-util/BlockAllocMT.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/BlockAllocMT.h b/include/bss-util/BlockAllocMT.h
index a0fe6f7..f719212 100644
--- a/include/bss-util/BlockAllocMT.h
+++ b/include/bss-util/BlockAllocMT.h
@@ -143,7 +143,8 @@ namespace bss {
         hold = memref;
       }
 
-      _setFreeList(hold, (void*)(chunk + 1)); // The target here is different because normally, the first block (at chunk+1) would point to whatever _freelist used to be. However, since we are lockless, _freelist could not be 0 at the time we insert this, so we have to essentially go backwards and set the first one to whatever freelist is NOW, before setting freelist to the one on the end.
+      if(hold != 0) // An empty chunk has no blocks to add
+        _setFreeList(hold, (void*)(chunk + 1)); // The target here is different because normally, the first block (at chunk+1) would point to whatever _freelist used to be. However, since we are lockless, _freelist could not be 0 at the time we insert this, so we have to essentially go backwards and set the first one to whatever freelist is NOW, before setting freelist to the one on the end.
     }
 
     inline void _setFreeList(void* p, void* target) noexcept
-- 
2.43.0


From d0e9ea5cc8412363d25302e8014ccd30049fe9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:05 +0000
Subject: [PATCH 042/184] fix: GreedyAlloc passed aligned_alloc a size that is
 not a multiple of the alignment, which may fail

---
 include/bss-util/GreedyAlloc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/GreedyAlloc.h b/include/bss-util/GreedyAlloc.h
index 981bc25..b106891 100644
--- a/include/bss-util/GreedyAlloc.h
+++ b/include/bss-util/GreedyAlloc.h
@@ -142,6 +142,7 @@ namespace bss {
   protected:
     BSS_FORCEINLINE void _allocChunk(size_t nsize) noexcept
     {
+      nsize = AlignSize(nsize, _align); // aligned_alloc requires a multiple of the alignment
       Node* retval = reinterpret_cast<Node*>(ALIGNEDALLOC(_alignsize + nsize, _align));
       assert(retval != 0);
       retval->next = _root.load(std::memory_order_acquire);
-- 
2.43.0


From 3342910a4b46577950be30eedb9a4cc7e2eef787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:13 +0000
Subject: [PATCH 043/184] fix: MicroLockQueue read the front node outside the
 consumer lock, after another consumer may have freed it

---
 include/bss-util/LocklessQueue.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index 0e0a706..2ead5bb 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -168,8 +168,6 @@ namespace bss {
     BSS_FORCEINLINE void Push(T&& item) { _produce<T&&>(std::move(item)); }
     inline bool Pop(T& result)
     {
-      if(!_div->next) return false; // Remove some contending pressure
-
       while(_cflag.test_and_set(std::memory_order_acquire));
       QNODE* ref = _div;
       QNODE* n = _div->next;
@@ -188,7 +186,13 @@ namespace bss {
       _cflag.clear(std::memory_order_release);
       return false;
     }
-    inline bool Peek() { return _div->next != 0; }
+    inline bool Peek()
+    {
+      while(_cflag.test_and_set(std::memory_order_acquire));
+      bool r = _div->next != 0;
+      _cflag.clear(std::memory_order_release);
+      return r;
+    }
     inline MicroLockQueue& operator=(MicroLockQueue&& mov)
     {
       Alloc::operator=(std::move(mov));
-- 
2.43.0


From c3e692f97fc6694feba0029c26a97e1fed48926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:29 +0000
Subject: [PATCH 044/184] fix: MicroLockQueue move assignment leaked the queue
 it replaced

---
 include/bss-util/LocklessQueue.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index 2ead5bb..6963e01 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -195,6 +195,12 @@ namespace bss {
     }
     inline MicroLockQueue& operator=(MicroLockQueue&& mov)
     {
+      while(QNODE* tmp = _div)
+      {
+        _div = _div->next;
+        tmp->~QNODE();
+        Alloc::deallocate(tmp, 1);
+      }
       Alloc::operator=(std::move(mov));
       _div = mov._div;
       _last = mov._last;
-- 
2.43.0


From cd05df182dd2143ef3b075818acfba7453d71487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:59 +0000
Subject: [PATCH 045/184] fix: 4-byte asmcas and asmcasr compared and wrote 8
 bytes where long is 64 bits wide

---
 include/bss-util/lockless.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index 9080bec..147ae36 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -138,7 +138,7 @@ namespace bss {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 4> {
-      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
+      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 8> {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval) != 0; }
@@ -183,7 +183,7 @@ namespace bss {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(short*)&retval = __sync_val_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval); return *(int16_t*)&retval == *(int16_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 4> {
-      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long*)&retval = __sync_val_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
+      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(int32_t*)&retval = __sync_val_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 8> {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long long*)&retval = __sync_val_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval); return *(int64_t*)&retval == *(int64_t*)&oldval; }
-- 
2.43.0


From debf5006012aa58588c02595ba0e1d3a9b0829f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:59 +0000
Subject: [PATCH 046/184] fix: Thread::join with a timeout could build an
 invalid timespec and give up without waiting

---
 include/bss-util/Thread.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bss-util/Thread.h b/include/bss-util/Thread.h
index 1235749..934282a 100644
--- a/include/bss-util/Thread.h
+++ b/include/bss-util/Thread.h
@@ -93,6 +93,11 @@ namespace bss {
         {
           ts.tv_sec += mstimeout / 1000;
           ts.tv_nsec += (mstimeout % 1000) * 1000000;
+          if(ts.tv_nsec >= 1000000000)
+          {
+            ts.tv_nsec -= 1000000000;
+            ++ts.tv_sec;
+          }
           if(pthread_timedjoin_np(native_handle(), (void**)&ret, &ts) != 0) // size_t is defined as being big enough to hold a pointer
             return (size_t)~0;
         }
-- 
2.43.0


From e2d69b0ad36a7b3b0e4f8aa255e0c501738e2218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:59 +0000
Subject: [PATCH 047/184] fix: JSON numbers lost precision and 8-bit integers
 were written and read as characters

---
 include/bss-util/JSON.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 1cb213b..332d0df 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -12,6 +12,7 @@
 #include <sstream>
 #include <istream>
 #include <ostream>
+#include <limits>
 #include <utility>
 
 namespace bss {
@@ -330,6 +331,14 @@ namespace bss {
     if(s.peek() == ',' || s.peek() == ']' || s.peek() == '}')
       return;
 
+    if constexpr(sizeof(T) == 1) // 8-bit integers would be read as characters
+    {
+      int wide = obj;
+      ParseNumber<int>(e, wide, id);
+      obj = (T)wide;
+      return;
+    }
+
     if(s.peek() == '"') // if true, we have to attempt to coerce the string to T
     {
       s.get();
@@ -462,7 +471,14 @@ namespace bss {
   {
     WriteJSONComma(*e.out, e.engine.pretty);
     WriteJSONId(id, *e.out, e.engine.pretty);
-    (*e.out) << obj;
+    if constexpr(std::is_floating_point<T>::value)
+    {
+      std::streamsize precision = e.out->precision(std::numeric_limits<T>::max_digits10); // Enough digits to read the same value back
+      (*e.out) << obj;
+      e.out->precision(precision);
+    }
+    else
+      (*e.out) << +obj; // Promotion prevents 8-bit integers from being written as characters
   }
 
   template<typename T>
-- 
2.43.0


From 669e74781e521c944c47d5289766e089cf5e11cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:59 +0000
Subject: [PATCH 048/184] fix: JSON numbers given as strings swallowed the
 field after them, and null stopped the parser

---
 include/bss-util/JSON.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 332d0df..8906fe6 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -343,10 +343,9 @@ namespace bss {
     {
       s.get();
       s >> obj; // grab whatever we can
-      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string
-      s.get(); // eat the " character
+      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string, including the closing quote
     }
-    else
+    else if(s.peek() != 'n') // null leaves the value alone
       s >> obj;
   }
 
-- 
2.43.0


From 93380f6fcf83e032b942efc83d154f395602d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:59 +0000
Subject: [PATCH 049/184] fix: JSON values written in exponent notation were
 read as truncated integers

---
 include/bss-util/JSON.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 8906fe6..a425587 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -273,7 +273,7 @@ namespace bss {
     {
       Str buf;
       ParseJSONBase<Str>(e, buf, s);
-      const char* dot = strchr(buf.c_str(), '.');
+      const char* dot = strpbrk(buf.c_str(), ".eE");
 
       if(dot)
         target = (double)strtod(buf.c_str(), 0);
-- 
2.43.0


From b98a5131bbabfcfa30641f7fc19c46362e2bc355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:59 +0000
Subject: [PATCH 050/184] fix: JSON literals followed by whitespace were read
 as strings

---
 include/bss-util/JSON.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index a425587..cc311ee 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -228,6 +228,8 @@ namespace bss {
       target += c;
       while(!!s && s.peek() != ',' && s.peek() != '}' && s.peek() != ']' && s.peek() != -1)
         target += s.get();
+      while(!target.empty() && isspace((unsigned char)target.back())) // Whitespace before the next delimiter isn't part of the value
+        target.pop_back();
       return;
     }
 
-- 
2.43.0


From 8f4eacdbcc930e9f35759edfafaafc8b353342fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:53 +0000
Subject: [PATCH 051/184] fix: JSON surrogate pair escapes were decoded as two
 invalid code points

---
 include/bss-util/JSON.h | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index cc311ee..a439309 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -92,15 +92,40 @@ namespace bss {
       case 'r': str += '\r'; break;
       case 't': str += '\t'; break;
       case 'u':
-        char buf[5];
-
-        for(int i = 0; i < 4; ++i)
-          buf[i] = src.get();
-
-        buf[4] = 0;
-        OutputUnicode(str, strtoul(buf, 0, 16));
+      {
+        int c = ParseJSONHex(src);
+        if(c >= 0xD800 && c < 0xDC00 && src.peek() == '\\') // This should be the first half of a surrogate pair
+        {
+          src.get();
+          if(src.peek() == 'u')
+          {
+            src.get();
+            int low = ParseJSONHex(src);
+            if(low >= 0xDC00 && low < 0xE000)
+              c = 0x10000 + ((c - 0xD800) << 10) + (low - 0xDC00);
+            else
+            {
+              OutputUnicode(str, c);
+              c = low;
+            }
+          }
+          else
+            src.unget();
+        }
+        OutputUnicode(str, c);
         break;
       }
+      }
+    }
+    static inline int ParseJSONHex(std::istream& src)
+    {
+      char buf[5];
+
+      for(int i = 0; i < 4; ++i)
+        buf[i] = src.get();
+
+      buf[4] = 0;
+      return (int)strtoul(buf, 0, 16);
     }
     template<typename F>
     static inline void ParseJSONObject(Serializer<JSONEngine>& e, F f);
-- 
2.43.0


From c666a693856539c95f2632a334aa8d3aae59b1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:53 +0000
Subject: [PATCH 052/184] fix: JSON object keys were written without escaping
 and control characters were written raw

---
 include/bss-util/JSON.h | 51 +++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index a439309..315f8c1 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -138,6 +138,34 @@ namespace bss {
         s << '\t';
     }
 
+    static inline void WriteJSONString(const char* str, size_t len, std::ostream& s)
+    {
+      s << '"';
+
+      for(size_t i = 0; i < len; ++i)
+      {
+        switch(str[i])
+        {
+        case '"': s << "\\\""; break;
+        case '\\': s << "\\\\"; break;
+        case '/': s << "\\/"; break;
+        case '\b': s << "\\b"; break;
+        case '\f': s << "\\f"; break;
+        case '\n': s << "\\n"; break;
+        case '\r': s << "\\r"; break;
+        case '\t': s << "\\t"; break;
+        default:
+          if((unsigned char)str[i] < 0x20) // All other control characters must be escaped
+            s << "\\u00" << "01"[str[i] >> 4] << "0123456789abcdef"[str[i] & 0xF];
+          else
+            s << str[i];
+          break;
+        }
+      }
+
+      s << '"';
+    }
+
     static inline void WriteJSONId(const char* id, std::ostream& s, size_t pretty)
     {
       if(id)
@@ -148,7 +176,8 @@ namespace bss {
           WriteJSONTabs(s, pretty);
         }
 
-        s << '"' << id << '"' << ": ";
+        WriteJSONString(id, strlen(id), s);
+        s << ": ";
       }
     }
 
@@ -415,25 +444,7 @@ namespace bss {
   {
     JSONEngine::WriteJSONComma(s, e.engine.pretty);
     JSONEngine::WriteJSONId(id, s, e.engine.pretty);
-    s << '"';
-
-    for(size_t i = 0; i < obj.size(); ++i)
-    {
-      switch(obj[i])
-      {
-      case '"': s << "\\\""; break;
-      case '\\': s << "\\\\"; break;
-      case '/': s << "\\/"; break;
-      case '\b': s << "\\b"; break;
-      case '\f': s << "\\f"; break;
-      case '\n': s << "\\n"; break;
-      case '\r': s << "\\r"; break;
-      case '\t': s << "\\t"; break;
-      default: s << obj[i]; break;
-      }
-    }
-
-    s << '"';
+    JSONEngine::WriteJSONString(obj.data(), obj.size(), s);
   }
 
   template<>
-- 
2.43.0


From 72bb72ce05e650bbc6a4cd7c32eb7709eed7ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:53 +0000
Subject: [PATCH 053/184] fix: JSON null values were dropped when writing and
 ignored when reading

---
 include/bss-util/JSON.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 315f8c1..6ab548c 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -343,7 +343,7 @@ namespace bss {
       ParseJSONBase<Str>(e, buf, s);
       if(!STRICMP(buf.c_str(), "true")) target = true;
       else if(!STRICMP(buf.c_str(), "false")) target = false;
-      else if(!STRICMP(buf.c_str(), "null")) break;
+      else if(!STRICMP(buf.c_str(), "null")) target = JSONValue();
       else target = buf;
       break;
     }
@@ -471,6 +471,11 @@ namespace bss {
     case JSONValue::Type<JSONValue::JSONObject>::value:
       Serializer<JSONEngine>::template ActionBind<JSONValue::JSONObject>::Serialize(e, obj.get<JSONValue::JSONObject>(), id);
       break;
+    default:
+      JSONEngine::WriteJSONComma(s, e.engine.pretty);
+      JSONEngine::WriteJSONId(id, s, e.engine.pretty);
+      s << "null";
+      break;
     }
   }
   template<typename T>
-- 
2.43.0


From 302dc5ebe97991007a248d81241251335afd6e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:53 +0000
Subject: [PATCH 054/184] fix: JSON parser took the inside of a skipped value
 for fields of the enclosing object

---
 include/bss-util/JSON.h | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 6ab548c..5955ddd 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -127,6 +127,25 @@ namespace bss {
       buf[4] = 0;
       return (int)strtoul(buf, 0, 16);
     }
+    // Skips the rest of the current value, up to the next comma or closing character that isn't inside of it
+    static inline void ParseJSONSkip(std::istream& s, char end)
+    {
+      size_t depth = 0;
+      while(!!s && s.peek() != -1 && (depth > 0 || (s.peek() != ',' && s.peek() != end)))
+      {
+        switch(s.get())
+        {
+        case '{': case '[': ++depth; break;
+        case '}': case ']': if(depth > 0) --depth; break;
+        case '"':
+          while(!!s && s.peek() != '"' && s.peek() != -1)
+            if(s.get() == '\\')
+              s.get();
+          s.get(); // eat last " character
+          break;
+        }
+      }
+    }
     template<typename F>
     static inline void ParseJSONObject(Serializer<JSONEngine>& e, F f);
 
@@ -227,7 +246,8 @@ namespace bss {
     std::istream& s = *e.in;
     Str buf;
     ParseJSONEatWhitespace(s);
-    if(!s || s.get() != '{') return;
+    if(!s || s.peek() != '{') return;
+    s.get();
     ParseJSONEatWhitespace(s);
     while(!!s && s.peek() != '}' && s.peek() != -1)
     {
@@ -247,8 +267,7 @@ namespace bss {
       ParseJSONEatWhitespace(s);
       f(e, buf.c_str());
 
-      while(!!s && s.peek() != ',' && s.peek() != '}' && s.peek() != -1) // eat everything up to a , or } character
-        s.get();
+      ParseJSONSkip(s, '}'); // eat everything up to a , or } character
       if(!!s && s.peek() == ',') // Only eat comma if it's there.
         s.get();
 
@@ -362,17 +381,17 @@ namespace bss {
     std::istream& s = *e.in;
     ParseJSONEatWhitespace(s);
 
-    if(!s || s.get() != '[')
+    if(!s || s.peek() != '[')
       return;
 
+    s.get();
     ParseJSONEatWhitespace(s);
     int n = 0;
 
     while(!!s && s.peek() != ']' && s.peek() != -1)
     {
       Add(e, obj, n);
-      while(!!s && s.peek() != ',' && s.peek() != ']' && s.peek() != -1) // eat everything up to a , or ] character
-        s.get();
+      ParseJSONSkip(s, ']'); // eat everything up to a , or ] character
       if(!!s && s.peek() == ',' && s.peek() != -1) // Only eat comma if it's there.
         s.get();
       ParseJSONEatWhitespace(s);
-- 
2.43.0


From de6a9586bc4aab19909d7fd365cd8bd1d1a1706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:53 +0000
Subject: [PATCH 055/184] fix: assigning an empty Variant to an empty Variant
 asserted

---
 include/bss-util/Variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 2a59cd3..41be6ba 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -216,7 +216,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<typename std::remove_reference<U>::type, Tx...>(v);
         else
-          assert(false);
+          assert(_tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
@@ -229,7 +229,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<U, Tx...>(std::move(v));
         else
-          assert(false);
+          assert(_tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
-- 
2.43.0


From ed8f1b979b569de362709f6d1d6ea99dc9919d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:07 +0000
Subject: [PATCH 056/184] fix: OutputUnicode dropped the last valid code point,
 U+10FFFF

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 1c85ee0..97ebb95 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -331,7 +331,7 @@ namespace bss {
     if(c < 0x0080) s += c;
     else if(c < 0x0800) { s += (0xC0 | c >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
     else if(c < 0x10000) { s += (0xE0 | c >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
-    else if(c < 0x10FFFF) { s += (0xF0 | c >> (6 * 3)); s += (0x80 | (c & 0x03F000) >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
+    else if(c < 0x110000) { s += (0xF0 | c >> (6 * 3)); s += (0x80 | (c & 0x03F000) >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
     // Otherwise this is an illegal codepoint so just ignore it
   }
 
-- 
2.43.0


From d0580e4f56a952eb9f6b129329fd26c2b6899ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:32 +0000
Subject: [PATCH 057/184] fix: UBJSON lost trailing null and boolean elements
 of a counted container at the end of the input

---
 include/bss-util/UBJSON.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 3c87855..ee21777 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -93,6 +93,9 @@ namespace bss {
       return v;
     }
 
+    // Returns true if values of this type have no payload, so they take up no space in a container that specifies the type.
+    inline static bool IsEmptyType(TYPE type) { return type == TYPE_NULL || type == TYPE_TRUE || type == TYPE_FALSE; }
+
     template<typename FnAdd, typename FnInsert, typename FnBulk>
     inline void Parse(std::istream& s, TYPE ty, FnAdd add, FnInsert insert, FnBulk bulkadd)
     {
@@ -122,7 +125,7 @@ namespace bss {
           if(count >= 0 && (ty == TYPE_CHAR || ty == TYPE_UINT8 || ty == TYPE_INT8) && bulkadd(ty, count))
             break;
 
-        while(!!s && s.peek() != -1 && (count > 0 || count < 0) && (count > 0 || s.peek() != TYPE_ARRAY_END))
+        while(!!s && count != 0 && (IsEmptyType(ty) || s.peek() != -1) && (count > 0 || s.peek() != TYPE_ARRAY_END))
         {
           if constexpr(std::is_null_pointer_v<FnAdd>)
           {
@@ -144,7 +147,7 @@ namespace bss {
         int64_t count = ParseTypeCount(s, ty);
         new (&Object) UBJSONObject(std::is_null_pointer_v<FnInsert> ? bssmax(count, 1) : 0);
         Str buf;
-        while(!!s && s.peek() != -1 && (count > 0 || count < 0) && (count > 0 || s.peek() != TYPE_OBJECT_END))
+        while(!!s && count != 0 && s.peek() != -1 && (count > 0 || s.peek() != TYPE_OBJECT_END))
         {
           int64_t length = ParseLength(s);
           buf.reserve(length + 1);
-- 
2.43.0


From e44b6ff544a8c1c968c183edd9c4e711da3cebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:33 +0000
Subject: [PATCH 058/184] fix: a rejected UBJSON container destroyed an array
 that was never constructed

---
 include/bss-util/UBJSON.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index ee21777..f430732 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -118,7 +118,9 @@ namespace bss {
         break;
       case TYPE_ARRAY:
       {
+        Type = TYPE_NONE; // Prevents the destructor from destroying the array if an exception is thrown before it exists
         int64_t count = ParseTypeCount(s, ty);
+        Type = TYPE_ARRAY;
         new (&Array) UBJSONArray(std::is_null_pointer_v<FnAdd> ? bssmax(count, 1) : 0);
 
         if constexpr(!std::is_null_pointer_v<FnBulk>)
@@ -144,7 +146,9 @@ namespace bss {
       }
       case TYPE_OBJECT:
       {
+        Type = TYPE_NONE; // Prevents the destructor from destroying the array if an exception is thrown before it exists
         int64_t count = ParseTypeCount(s, ty);
+        Type = TYPE_OBJECT;
         new (&Object) UBJSONObject(std::is_null_pointer_v<FnInsert> ? bssmax(count, 1) : 0);
         Str buf;
         while(!!s && count != 0 && s.peek() != -1 && (count > 0 || s.peek() != TYPE_OBJECT_END))
-- 
2.43.0


From 9c04dc42ffbc6b3f532f6a32e9b122b6861c85cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:33 +0000
Subject: [PATCH 059/184] fix: UBJSON read characters as numbers and cut
 strings at embedded zeros

---
 include/bss-util/UBJSON.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index f430732..7eff347 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -289,7 +289,7 @@ namespace bss {
         switch(tuple.Type) // we will shove just about anything we possibly can into a string
         {
         case UBJSONTuple::TYPE_NULL: break;
-        case UBJSONTuple::TYPE_CHAR: obj.assign(&tuple.Int8, 1);
+        case UBJSONTuple::TYPE_CHAR: obj.assign(&tuple.Int8, 1); break;
         case UBJSONTuple::TYPE_INT8: obj = std::to_string((int)tuple.Int8); break;
         case UBJSONTuple::TYPE_UINT8: obj = std::to_string(tuple.UInt8); break;
         case UBJSONTuple::TYPE_INT16: obj = std::to_string(tuple.Int16); break;
@@ -299,7 +299,7 @@ namespace bss {
         case UBJSONTuple::TYPE_DOUBLE: obj = std::to_string(tuple.Double); break;
         case UBJSONTuple::TYPE_BIGNUM:
         case UBJSONTuple::TYPE_STRING:
-          obj = tuple.String;
+          obj.assign(tuple.String, (size_t)tuple.Length);
           break;
         }
       }
-- 
2.43.0


From c8cfd52b53bf1b5eba22b3a39d5697360112082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:33 +0000
Subject: [PATCH 060/184] fix: UBJSON wrote arrays of unlisted element types as
 objects

---
 include/bss-util/UBJSON.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 7eff347..a37c74f 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -257,8 +257,11 @@ namespace bss {
     };
   };
 
+  class UBJSONEngine;
+
   namespace internal {
-    template<class T> struct WriteUBJSONType { static const UBJSONTuple::TYPE t = internal::serializer::is_serializer_array<T>::value ? UBJSONTuple::TYPE_ARRAY : UBJSONTuple::TYPE_OBJECT; };
+    // Anything without a type of its own (fixed arrays, standard containers, enumerations, UBJSONTuple...) writes its type with each element.
+    template<class T> struct WriteUBJSONType { static const UBJSONTuple::TYPE t = internal::serializer::is_serializer_array<T>::value ? UBJSONTuple::TYPE_ARRAY : (internal::serializer::is_serializable<UBJSONEngine, T>::value ? UBJSONTuple::TYPE_OBJECT : UBJSONTuple::TYPE_NONE); };
     template<> struct WriteUBJSONType<uint8_t> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_UINT8; };
     template<> struct WriteUBJSONType<char> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_INT8; };
     template<> struct WriteUBJSONType<bool> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_NONE; };
-- 
2.43.0


From b32f4f1300268d2aa495d7e2265e18635d31877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:33 +0000
Subject: [PATCH 061/184] fix: integers that need a UBJSON high-precision
 number were written from an invalid string

---
 include/bss-util/UBJSON.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index a37c74f..3043dbb 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -69,8 +69,15 @@ namespace bss {
       case TYPE_INT32: Int32 = (int32_t)n; break;
       case TYPE_INT64: Int64 = (int64_t)n; break;
       case TYPE_FLOAT: Float = (float)n; break;
-      case TYPE_BIGNUM:
       case TYPE_DOUBLE: Double = (double)n; break;
+      case TYPE_BIGNUM:
+      {
+        std::string digits = std::to_string(n);
+        Length = digits.size();
+        String = new char[digits.size() + 1];
+        MEMCPY(String, digits.size() + 1, digits.c_str(), digits.size() + 1);
+        break;
+      }
       default: assert(false); break;
       }
     }
@@ -360,7 +367,14 @@ namespace bss {
       case UBJSONTuple::TYPE_INT64: obj = (T)tuple.Int64; break;
       case UBJSONTuple::TYPE_FLOAT: obj = (T)tuple.Float; break;
       case UBJSONTuple::TYPE_DOUBLE: obj = (T)tuple.Double; break;
-      case UBJSONTuple::TYPE_BIGNUM: break;// we can't deal with bignum
+      case UBJSONTuple::TYPE_BIGNUM: // we can only deal with a bignum that fits into the target
+        if constexpr(std::is_floating_point_v<T>)
+          obj = (T)strtod(tuple.String, 0);
+        else if constexpr(std::is_unsigned_v<T>)
+          obj = (T)strtoull(tuple.String, 0, 10);
+        else
+          obj = (T)strtoll(tuple.String, 0, 10);
+        break;
       default: assert(false); break;
       }
     }
-- 
2.43.0


From 36f79e41c75aad6c29e1b92f130fc7a8ecf74d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:33 +0000
Subject: [PATCH 062/184] fix: UBJSON fields the target object does not have
 were read as further fields

---
 include/bss-util/UBJSON.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 3043dbb..86e44f8 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -329,7 +329,10 @@ namespace bss {
         [&](UBJSONTuple::TYPE ty, const char* id, size_t len)
       {
         internal::serializer::PushValue<UBJSONTuple::TYPE> push(e.engine.type, ty);
+        auto pos = e.in->tellg();
         f(e, id);
+        if(pos != std::istream::pos_type(-1) && e.in->tellg() == pos) // If nothing was read, this field isn't known to the object, so skip its value
+          UBJSONTuple().Parse(*e.in, ty);
       }, nullptr);
       assert(tuple.Type == UBJSONTuple::TYPE_OBJECT);
     }
-- 
2.43.0


From 2cdf90739751eb7540b4825a43e7048f7ad72e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:33 +0000
Subject: [PATCH 063/184] fix: reading a block of bytes into a std::vector
 doubled it, and into wider elements read past the block

---
 include/bss-util/Serializer.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Serializer.h b/include/bss-util/Serializer.h
index 98098f8..f8c3b1c 100644
--- a/include/bss-util/Serializer.h
+++ b/include/bss-util/Serializer.h
@@ -149,8 +149,13 @@ namespace bss {
         }
         static inline bool Read(Serializer<Engine>& e, std::vector<T, Alloc>& obj, int64_t count)
         {
-          obj.resize(count);
-          return e.BulkRead(std::begin(obj), std::end(obj), count);
+          if constexpr(sizeof(T) == 1 && !std::is_same_v<T, bool>)
+          {
+            obj.resize(count);
+            return e.BulkRead(obj.data(), obj.data() + obj.size(), count);
+          }
+          else
+            return false;
         }
         static inline void Parse(Serializer<Engine>& e, std::vector<T, Alloc>& obj, const char* id)
         {
@@ -362,7 +367,7 @@ namespace bss {
     static inline void FixedAdd(Serializer<Engine>& e, T& obj, int& n) { if(n < (std::end(obj) - std::begin(obj))) Serializer<Engine>::template ActionBind<remove_cvref_t<decltype(obj[0])>>::Parse(e, obj[n++], 0); }
 
     template<class T>
-    static inline bool FixedRead(Serializer<Engine>& e, T& obj, int64_t count) { return e.BulkRead(std::begin(obj), std::end(obj), count); }
+    static inline bool FixedRead(Serializer<Engine>& e, T& obj, int64_t count) { return sizeof(*std::begin(obj)) == 1 && e.BulkRead(std::begin(obj), std::end(obj), count); }
 
     template<class T>
     static inline bool DisabledRead(Serializer<Engine>& e, T& obj, int64_t count) { return false; }
@@ -370,6 +375,8 @@ namespace bss {
     template<class T, class C, void (T::*SET)(C)>
     static inline bool DynamicRead(Serializer<Engine>& e, T& obj, int64_t count)
     {
+      if(sizeof(*std::begin(obj)) != 1 || !std::is_pointer_v<decltype(std::begin(obj))>)
+        return false;
       (obj.*SET)(count);
       return e.BulkRead(std::begin(obj), std::end(obj), count);
     }
-- 
2.43.0


From af61acfda60c6149309770707a73b0f7dbebadc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:02 +0000
Subject: [PATCH 064/184] fix: UBJSON objects moved their keys with memcpy when
 growing, which corrupts short strings

---
 include/bss-util/UBJSON.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 86e44f8..a170c3b 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -42,7 +42,7 @@ namespace bss {
       TYPE_COUNT = '#',
     };
     typedef DynArray<UBJSONTuple, size_t, ARRAY_CONSTRUCT> UBJSONArray;
-    typedef DynArray<std::pair<Str, UBJSONTuple>, size_t, ARRAY_CONSTRUCT> UBJSONObject;
+    typedef DynArray<std::pair<Str, UBJSONTuple>, size_t, ARRAY_SAFE> UBJSONObject;
 
     UBJSONTuple(const UBJSONTuple& copy);
     UBJSONTuple(UBJSONTuple&& mov);
-- 
2.43.0


From fd6957fe547b9a60071f4bf7846685b058c0d26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:16 +0000
Subject: [PATCH 065/184] fix: XMLNode copies shared or lost their child nodes
 and assignment kept the old ones

---
 bss-util/XML.cpp       | 7 +++++--
 include/bss-util/XML.h | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 9b74a09..96ee669 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -55,9 +55,10 @@ void XMLFile::Write(std::ostream& stream, bool pretty) const
     _nodes[i]->_write(stream, pretty, 0);
 }
 
-XMLNode::XMLNode(const XMLNode& copy) : _nodes(copy._nodes), _nodehash(copy._nodehash), _attributes(copy._attributes), _attrhash(copy._attrhash),
-  _value(copy._value), _name(copy._name)
+XMLNode::XMLNode(const XMLNode& copy) : _attributes(copy._attributes), _attrhash(copy._attrhash), _value(copy._value), _name(copy._name)
 {
+  for(size_t i = 0; i < copy._nodes.Length(); ++i)
+    AddNode(*copy._nodes[i].get());
   next = 0;
   prev = 0;
 }
@@ -79,6 +80,8 @@ XMLNode& XMLNode::operator=(const XMLNode& copy)
   _attrhash = copy._attrhash;
   _value = copy._value;
   _name = copy._name;
+  _nodes.Clear();
+  _nodehash.Clear();
   for(size_t i = 0; i < copy._nodes.Length(); ++i)
     AddNode(*copy._nodes[i].get());
   return *this;
diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index 2dcaf69..63e895d 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -107,7 +107,7 @@ namespace bss {
 
     DynArray<std::unique_ptr<XMLNode>, size_t, ARRAY_MOVE> _nodes;
     Hash<Str, size_t, ARRAY_SAFE> _nodehash;
-    DynArray<XMLValue, size_t, ARRAY_MOVE> _attributes;
+    DynArray<XMLValue, size_t, ARRAY_SAFE> _attributes;
     Hash<Str, size_t, ARRAY_SAFE> _attrhash;
     XMLValue _value;
     Str _name;
-- 
2.43.0


From e2d5cb875a5fbbca647eb34b0ad6d8cac7cdabc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:16 +0000
Subject: [PATCH 066/184] fix: removing XML nodes left stale name lookups and
 removing attributes removed nodes

---
 bss-util/XML.cpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 96ee669..ae083d4 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -105,32 +105,40 @@ bool XMLNode::RemoveNode(size_t index)
 {
   if(index >= _nodes.Length()) 
     return false;
-  khiter_t iter = _nodehash.Iterator(_nodes[index]->_name);
-  if(_nodes[index]->next)
+  XMLNode* node = _nodes[index].get();
+  khiter_t iter = _nodehash.Iterator(node->_name);
+  if(node->prev)
+    node->prev->next = node->next;
+  if(node->next)
+    node->next->prev = node->prev;
+
+  if(_nodehash.ExistsIter(iter) && _nodehash.Value(iter) == index) // Only change the hash if it refers to this node
   {
-    for(size_t i = 0; i < _nodes.Length(); ++i)
+    if(node->next)
     {
-      if(_nodes[i].get() == _nodes[index]->next)
-      {
-        _nodes[i]->prev = 0;
-        if(_nodehash.ExistsIter(iter))
+      for(size_t i = 0; i < _nodes.Length(); ++i)
+        if(_nodes[i].get() == node->next)
           _nodehash.SetValue(iter, i);
-      }
     }
+    else
+      _nodehash.RemoveIter(iter);
   }
-  else if(_nodehash.ExistsIter(iter))
-    _nodehash.RemoveIter(iter);
 
   _nodes.Remove(index);
+  for(khiter_t i = _nodehash.Front(); i != _nodehash.Back(); ++i) // Everything after the removed node moved down
+    if(_nodehash.ExistsIter(i) && _nodehash.Value(i) > index)
+      _nodehash.SetValue(i, _nodehash.Value(i) - 1);
   return true;
 }
 bool XMLNode::RemoveNode(const char* name) { return RemoveNode(_nodehash[name]); }
 bool XMLNode::RemoveAttribute(size_t index)
 {
-  if(index >= _nodes.Length()) 
+  if(index >= _attributes.Length()) 
     return false;
-  _attrhash.Remove(_nodes[index]->_name);
-  _nodes.Remove(index);
+  _attrhash.Remove(_attributes[index].Name);
+  _attributes.Remove(index);
+  for(size_t i = index; i < _attributes.Length(); ++i) // Everything after the removed attribute moved down
+    _attrhash.SetValue(_attrhash.Iterator(_attributes[i].Name), i);
   return true;
 }
 bool XMLNode::RemoveAttribute(const char* name) { return RemoveAttribute(_attrhash[name]); }
-- 
2.43.0


From 6423744ac5e4a5175e928b4e91528018c2e6b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:16 +0000
Subject: [PATCH 067/184] fix: XML attribute values were written unescaped and
 read without decoding entities

---
 bss-util/XML.cpp       | 41 +++++++++++++++++++++++------------------
 include/bss-util/XML.h |  2 +-
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index ae083d4..99ecb06 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -302,7 +302,19 @@ void XMLNode::_parseAttribute(Str& buf)
     if(_match(ss, v.Name, "*="))
     {
       v.Name = v.Name.Trim();
-      if(!_match(ss, v.String, "\"*\"")) // If we can't get a valid string just eat everything until the next space.
+      Str quoted;
+      if(_match(ss, quoted, "\"*\""))
+      {
+        std::istringstream text(quoted);
+        while(text.peek() != -1)
+        {
+          if(text.peek() == '&')
+            _parseEntity(text, v.String);
+          else
+            v.String += text.get();
+        }
+      }
+      else // If we can't get a valid string just eat everything until the next space.
       {
         while(ss.peek() != -1 && ss && !isspace(ss.peek())) 
           v.String += ss.get();
@@ -361,31 +373,24 @@ void XMLNode::_writeAttribute(std::ostream& stream) const
   for(size_t i = 0; i < _attributes.Length(); ++i)
   {
     stream << ' ' << _attributes[i].Name << "=\"";
-    _writeString(stream, _attributes[i].String, true);
+    _writeString(stream, _attributes[i].String);
     stream.put('"');
   }
 }
 
-void XMLNode::_writeString(std::ostream& stream, const char* s, bool attribute)
+void XMLNode::_writeString(std::ostream& stream, const char* s)
 {
   while(*s)
   {
-    if(!attribute)
+    switch(*s)
     {
-      switch(*s)
-      {
-      case '<': stream << "&lt;"; break;
-      case '>': stream << "&gt;"; break;
-      case '&': stream << "&amp;"; break;
-      case '\'': stream << "&apos;"; break;
-      case '"': stream << "&quot;"; break;
-      default: stream.put(*s); break;
-      }
+    case '<': stream << "&lt;"; break;
+    case '>': stream << "&gt;"; break;
+    case '&': stream << "&amp;"; break;
+    case '\'': stream << "&apos;"; break;
+    case '"': stream << "&quot;"; break;
+    default: stream.put(*s); break;
     }
-    else if(*s == '"')
-      stream << "&quot;";
-    else
-      stream.put(*s);
 
     ++s;
   }
@@ -410,7 +415,7 @@ void XMLNode::_write(std::ostream& stream, bool pretty, int depth) const
   }
 
   stream.put('>');
-  if(content) _writeString(stream, _value.String, false);
+  if(content) _writeString(stream, _value.String);
 
   for(size_t i = 0; i < _nodes.Length(); ++i)
     _nodes[i]->_write(stream, pretty, depth + 1);
diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index 63e895d..e81d52e 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -101,7 +101,7 @@ namespace bss {
     static bool _match(std::istream& stream, Str& out, const char* pattern, bool reset = false);
     static void _parseEntity(std::istream& stream, Str& target);
     static void _evalValue(XMLValue& val);
-    static void _writeString(std::ostream& stream, const char* s, bool attribute);
+    static void _writeString(std::ostream& stream, const char* s);
 
     friend class XMLFile;
 
-- 
2.43.0


From f5c92d88219318069d5e26438226571f73c96129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:16 +0000
Subject: [PATCH 068/184] fix: XML floating point values lost precision when
 written

---
 bss-util/XML.cpp       | 2 +-
 include/bss-util/XML.h | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 99ecb06..cf37512 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -142,7 +142,7 @@ bool XMLNode::RemoveAttribute(size_t index)
   return true;
 }
 bool XMLNode::RemoveAttribute(const char* name) { return RemoveAttribute(_attrhash[name]); }
-void XMLNode::SetValue(double value) { _value.Float = value; _value.Integer = (int64_t)value; _value.String = std::to_string(value); }
+void XMLNode::SetValue(double value) { _value.Float = value; _value.Integer = (int64_t)value; std::ostringstream ss; ss.precision(std::numeric_limits<double>::max_digits10); ss << value; _value.String = ss.str(); }
 void XMLNode::SetValue(int64_t value) { _value.Integer = value; _value.Float = (double)value; _value.String = std::to_string(value); }
 void XMLNode::SetValue(const char* value) { _value.String = value; _evalValue(_value); }
 void XMLNode::Clear()
diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index e81d52e..9c71d04 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -10,6 +10,7 @@
 #include "Str.h"
 #include "Serializer.h"
 #include <sstream>
+#include <limits>
 
 namespace bss {
   // Represents an XML value converted to various forms.
@@ -195,6 +196,7 @@ namespace bss {
       XMLValue* v = id ? e.engine.cur->AddAttribute(id) : &e.engine.cur->AddNode(e.engine.arrayID)->GetValue(); // We don't need to update e.engine.cur here because there's nothing else to serialize
       std::ostringstream ss(std::ios_base::out);
 
+      ss.precision(std::numeric_limits<double>::max_digits10); // Enough digits to read the same value back
       if constexpr(std::is_floating_point<T>::value)
         ss << static_cast<double>(t);
       else
-- 
2.43.0


From fbd337d3e5e621b7cb687d028082a3fcbca35584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:16 +0000
Subject: [PATCH 069/184] fix: XML values that say true converted to false

---
 bss-util/XML.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index cf37512..aa014e7 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -353,7 +353,9 @@ void XMLNode::_evalValue(XMLValue& val)
   val.Float = 0.0;
   if(val.String.length() > 0)
   {
-    if(val.String[0] == '-')
+    if(!STRICMP(val.String.c_str(), "true"))
+      val.Integer = 1;
+    else if(val.String[0] == '-')
       val.Integer = strtoll(val.String, &c, 10);
     else if(val.String.length() > 1 && val.String[0] == '0' && val.String[1] == 'x')
       val.Integer = (int64_t)strtoull(val.String, &c, 16);
-- 
2.43.0


From 202626ff8fefc13167dbec2e5710707a107037ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:15 +0000
Subject: [PATCH 070/184] fix: Str::Trim wrote past empty strings, kept one
 space of blank ones and removed trailing non-ASCII bytes

---
 include/bss-util/Str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Str.h b/include/bss-util/Str.h
index a235ec3..12991af 100644
--- a/include/bss-util/Str.h
+++ b/include/bss-util/Str.h
@@ -308,7 +308,7 @@ namespace bss {
     }
 
     inline static T* _ltrim(T* str) { for(; *str > 0 && *str < 33; ++str); return str; }
-    inline static T* _rtrim(T* str, size_t size) { T* inter = str + size; for(; inter > str && *inter < 33; --inter); *(++inter) = 0; return str; }
+    inline static T* _rtrim(T* str, size_t size) { T* inter = str + size; for(; inter > str && inter[-1] > 0 && inter[-1] < 33; --inter); *inter = 0; return str; }
 
   };
 #pragma warning(pop)
-- 
2.43.0


From ad3fc59a3e1197b81eec96f047f40c50257aef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:15 +0000
Subject: [PATCH 071/184] fix: strrtrim wrote past empty strings, kept one
 space of blank ones and removed trailing non-ASCII bytes

---
 include/bss-util/bss_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 97ebb95..a89c30e 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -209,8 +209,8 @@ namespace bss {
     static_assert(std::is_integral<T>::value, "T must be integral");
     T* inter = str + strlen(str);
 
-    for(; inter > str && *inter < 33; --inter);
-    *(++inter) = '\0';
+    for(; inter > str && inter[-1] > 0 && inter[-1] < 33; --inter);
+    *inter = '\0';
     return str;
   }
 
-- 
2.43.0


From 005d2907c621a0df97a0e17c8de60846f62fab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:35 +0000
Subject: [PATCH 072/184] fix: TOML strings: line-continuation white space,
 trailing white space of bare keys, invalid escapes

---
 include/bss-util/TOML.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index c6d9f6b..9f02319 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -153,8 +153,7 @@ namespace bss {
       {
         if(s.peek() == '\n' || s.peek() == '\r')
         {
-          ParseTOMLEatNewline(s);
-          ParseTOMLEatWhitespace(s);
+          while(!!s && (s.peek() == ' ' || s.peek() == '\t' || s.peek() == '\n' || s.peek() == '\r')) s.get();
           return;
         }
       }
@@ -178,8 +177,7 @@ namespace bss {
         buf[8] = 0;
         OutputUnicode(out, strtoul(buf, 0, 16));
         break;
-      default:
-        assert(false);
+      default: // invalid escape sequence, ignore it
         break;
       }
     }
@@ -263,8 +261,8 @@ namespace bss {
       const char* inter = str + buf.size();
       if(str != inter)
       {
-        for(; inter > str && *inter < 33; --inter);
-        buf.resize((inter - str) + 1);
+        for(; inter > str && static_cast<unsigned char>(inter[-1]) < 33; --inter);
+        buf.resize(inter - str);
       }
     }
     break;
-- 
2.43.0


From c7c817acadb9f7eeff4b5469d6912d61f041e8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:35 +0000
Subject: [PATCH 073/184] fix: TOML reader skips nested arrays, inline tables,
 strings and comments of values it does not use

---
 include/bss-util/TOML.h | 45 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 9f02319..7216902 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -94,6 +94,29 @@ namespace bss {
           s.get();
       }
     }
+    // Skips whatever remains of a value, including any strings or brackets in it, up to the comma, closing bracket or line ending that follows it.
+    static void ParseTOMLSkip(std::istream& s)
+    {
+      std::string buf;
+      for(size_t depth = 0; !!s && s.peek() != -1;)
+      {
+        int c = s.peek();
+        if(!depth && (c == ',' || c == ']' || c == '}' || c == '\n' || c == '\r'))
+          return;
+        if(c == '"' || c == '\'')
+          ParseTOMLString<true, 0, 0>(buf, s);
+        else if(c == '#')
+          while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != -1) s.get();
+        else
+        {
+          if(c == '[' || c == '{')
+            ++depth;
+          else if(c == ']' || c == '}')
+            --depth;
+          s.get();
+        }
+      }
+    }
     template<bool MULTILINE>
     static void ParseTOMLCharacter(std::string& out, std::istream& s);
     template<bool MULTILINE, char END, char END2>
@@ -284,8 +307,8 @@ namespace bss {
         internal::serializer::PushValue<decltype(e.engine.state)> push(e.engine.state, STATE_NORMAL);
         f(e, buf.c_str()); // This will call FindParse by default, or a special function for TOMLValue types
       }
-      while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != ',' && s.peek() != '}' && s.peek() != -1) s.get(); // Eat everything until the next comma or the end of the table
-      if(s.peek() == ',') s.get();
+      ParseTOMLSkip(s); // Eat everything until the next comma or the end of the table
+      if(s.peek() == ',' || s.peek() == ']') s.get();
       ParseTOMLEatWhitespace(s);
     }
     if(s.peek() == '}') s.get();
@@ -305,8 +328,9 @@ namespace bss {
         s.get();
         internal::serializer::PushValue<decltype(e.engine.state)> push(e.engine.state, STATE_NORMAL);
         f(e, buf.c_str()); // This will call ParseTOMLBase on the appropriate value.
-        while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != -1) s.get(); // Eat all remaining characters on this line that weren't parsed.
+        ParseTOMLSkip(s); // Eat whatever remains of the value
       }
+      while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != -1) s.get(); // Eat all remaining characters on this line that weren't parsed.
       ParseTOMLEatAllspace(s);
     }
   }
@@ -329,13 +353,12 @@ namespace bss {
       ParseTOMLEatWhitespace(s);
       if(!!s && (s.peek() == ']' || s.peek() == '.'))
         f(e, buf.c_str());
-      while(!!s && s.peek() != '[' && s.peek() != -1) // eat lines until we find one that starts with [
+      if(!!s && s.peek() != '[' && s.peek() != -1) // If the table was not recognized, eat the rest of its header and all of its pairs
       {
         while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != -1)
           s.get();
-        ParseTOMLEatNewline(s);
+        ParseTOMLPairs(e, s, [](Serializer<TOMLEngine>&, const char*) {});
       }
-      ParseTOMLEatAllspace(s);
     }
   }
 
@@ -582,10 +605,18 @@ namespace bss {
       while(!!s && s.peek() != ']' && s.peek() != -1)
       {
         Add(e, obj, n);
-        while(!!s && s.peek() != ',' && s.peek() != ']' && s.peek() != -1) s.get(); // eat everything up to a , or ] character
+        ParseTOMLEatAllspace(s);
+        while(!!s && s.peek() != ',' && s.peek() != ']' && s.peek() != -1) // eat everything up to a , or ] character
+        {
+          ParseTOMLSkip(s);
+          ParseTOMLEatAllspace(s);
+          if(s.peek() == '}')
+            s.get();
+        }
         if(!!s && s.peek() == ',' && s.peek() != -1) s.get(); // Only eat comma if it's there.
         ParseTOMLEatAllspace(s);
       }
+      if(!!s && s.peek() == ']') s.get();
     }
   }
 
-- 
2.43.0


From 6b34f3ddef0bf5faad8b69bd2bb4e48452ca8445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:35 +0000
Subject: [PATCH 074/184] fix: TOML integers and dates in untyped documents,
 full floating point precision, numbers quoted as strings

---
 include/bss-util/TOML.h | 44 ++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 7216902..362e569 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -393,15 +393,15 @@ namespace bss {
   void TOMLEngine::ParseNumber(Serializer<TOMLEngine>& e, T& obj, const char* id)
   {
     std::istream& s = *e.in;
+    ParseTOMLEatWhitespace(s);
     if(s.peek() == '\n' || s.peek() == '\r' || s.peek() == ',')
       return;
-    typename std::conditional<sizeof(T) <= 2, int, T>::type o; // Prevent the stream from trying to read a number as an actual character
+    typename std::conditional<sizeof(T) <= 2, int, T>::type o = 0; // Prevent the stream from trying to read a number as an actual character
     if(s.peek() == '"') // if true, we have to attempt to coerce the string to T
     {
       s.get();
       s >> o; // grab whatever we can
-      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string
-      s.get(); // eat the " character
+      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string and the " character
     }
     else
       s >> o;
@@ -552,14 +552,38 @@ namespace bss {
     case '.':
     case '-':
     case '+':
-      target = 0.0;
-      TOMLEngine::ParseNumber<double>(e, target.get<double>(), 0);
-      double ipart;
-
-      if(modf(target.get<double>(), &ipart) == 0.0)
+    {
+      std::string token;
+      while(!!s && (isalnum(s.peek()) || s.peek() == '+' || s.peek() == '-' || s.peek() == '.' || s.peek() == ':'))
+        token += s.get();
+      std::istringstream ss(token);
+#ifdef BSS_COMPILER_HAS_TIME_GET
+      if(token.size() > 4 && token[4] == '-' && token.find_first_of("eE") == std::string::npos)
+      {
+        target = std::chrono::system_clock::time_point();
+        ParseTOMLBase<std::chrono::system_clock::time_point>(e, target.get<std::chrono::system_clock::time_point>(), ss);
+        break;
+      }
+#endif
+      if(token.find_first_of(".eE") == std::string::npos) // Integers must not lose any digits by going through a double
+      {
+        int64_t i = 0;
+        if(ss >> i)
+        {
+          target = i;
+          break;
+        }
+        ss.clear();
+        ss.str(token);
+      }
+      double d = 0.0, ipart;
+      ss >> d;
+      if(modf(d, &ipart) == 0.0 && ipart >= -9223372036854775808.0 && ipart < 9223372036854775808.0)
         target = (int64_t)ipart;
-
+      else
+        target = d;
       break;
+    }
     case 't':
     case 'f':
       target = false;
@@ -722,6 +746,8 @@ namespace bss {
       return;
     std::ostream& s = *e.out;
     WriteTOMLId(e, id, s);
+    if constexpr(std::is_floating_point<T>::value)
+      s.precision(std::numeric_limits<T>::max_digits10);
     s << (typename std::conditional<sizeof(T) <= 2, int, T>::type)obj; // Converts all smaller numbers to integers to avoid character insertion bullshit
     if(e.engine.state != STATE_INLINE_TABLE && id)
       s << std::endl;
-- 
2.43.0


From c340eb90f1975ba3038b2f516227a30967938455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:35 +0000
Subject: [PATCH 075/184] fix: TOML dates with a Z suffix or no time zone lost
 their time of day

---
 include/bss-util/TOML.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 362e569..539d5b2 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -434,36 +434,35 @@ namespace bss {
     TOMLEngine::ParseTOMLEatWhitespace(s);
     tg.get(s, 0, s, err, &t, DATE, std::end(DATE) - 1);
 
-    if(err == std::ios_base::goodbit)
+    if(!(err & std::ios_base::failbit))
     {
       if(s.peek() == 'T')
       {
         s.get();
         tg.get(s, 0, s, err, &t, TIME, std::end(TIME) - 1);
 
-        if(err == std::ios_base::goodbit)
+        if(!(err & std::ios_base::failbit))
         {
           char sign = s.peek();
+          std::chrono::minutes offset(0);
 
           if(sign == '+' || sign == '-')
           {
             s.get();
             std::tm tz = { 0 };
             tg.get(s, 0, s, err, &tz, ZONE, std::end(ZONE) - 1);
-            std::chrono::minutes offset(0);
 
-            if(err == std::ios_base::goodbit)
+            if(!(err & std::ios_base::failbit))
               offset = (sign == '+' ? 1 : -1) * (std::chrono::hours{ tz.tm_hour } +std::chrono::minutes{ tz.tm_min });
-
-            target = std::chrono::system_clock::time_point{
-              days { DaysFromCivil(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) } +
-              std::chrono::hours { t.tm_hour } +std::chrono::minutes { t.tm_min } +std::chrono::seconds { t.tm_sec } -
-              offset };
-
-            return;
           }
           else if(sign == 'Z')
             s.get();
+
+          target = std::chrono::system_clock::time_point{
+            days { DaysFromCivil(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) } +
+            std::chrono::hours { t.tm_hour } +std::chrono::minutes { t.tm_min } +std::chrono::seconds { t.tm_sec } -
+            offset };
+          return;
         }
       }
 
-- 
2.43.0


From 8ee9e34f104afffa69f1f0d3160c848108fc6f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:35 +0000
Subject: [PATCH 076/184] fix: TOML headers: arrays of tables and implicitly
 defined tables in untyped documents, white space around dots, malformed
 headers

---
 include/bss-util/TOML.h | 72 ++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 37 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 539d5b2..36e9160 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -128,6 +128,11 @@ namespace bss {
     template<typename F>
     static void ParseTOMLRoot(Serializer<TOMLEngine>& e, std::istream& s, F && f);
 
+    template<class T> // Whether a collection has a last element, which is always true of tuples
+    static auto HasElements(const T& obj, int) -> decltype(std::begin(obj) != std::end(obj)) { return std::begin(obj) != std::end(obj); }
+    template<class T>
+    static bool HasElements(const T& obj, long) { return true; }
+
     static void WriteTOMLId(Serializer<TOMLEngine>& e, const char* id, std::ostream& s)
     {
       if(!id || e.engine.state == STATE_INLINE_TABLE)
@@ -471,11 +476,19 @@ namespace bss {
   }
 #endif
 
+  // Resolves the remainder of a table header. Tables that have not been defined yet are created, ones that have been keep their contents.
+  inline void ParseTOMLHeader(Serializer<TOMLEngine>& e, TOMLValue& target)
+  {
+    if(target.tag() == -1)
+      target = TOMLValue::TOMLTable();
+    if(target.is<TOMLValue::TOMLTable>())
+      Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
+  }
+
   // This function parses values and is recursive, allowing for nested inline tables or arrays, etc.
   template<>
   inline void ParseTOMLBase<TOMLValue>(Serializer<TOMLEngine>& e, TOMLValue& target, std::istream& s)
   {
-    auto test = e.in->peek();
     switch(e.engine.state)
     {
     case TOMLEngine::STATE_BEGIN:
@@ -483,40 +496,20 @@ namespace bss {
       Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
       return;
     case TOMLEngine::STATE_TABLE:
-      if(e.in->peek() == '.')
-      {
-        e.in->get();
-        Str buf;
-        TOMLEngine::ParseTOMLString<false, '.', ']'>(buf, *e.in);
-        TOMLValue* v = target.get<TOMLValue::TOMLTable>()[buf];
-        if(v)
-          ParseTOMLBase<TOMLValue>(e, *v, *e.in);
-      }
-      else if(e.in->peek() == ']')
-      {
-        target = TOMLValue::TOMLTable();
-        Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
-      }
-      else
-        assert(false);
-      return;
-    case TOMLEngine::STATE_INLINE_TABLE:
-      if(e.in->peek() == '.')
+    case TOMLEngine::STATE_INLINE_TABLE: // In a table header, the value is either a table or an array of tables, whose last table is the one meant
+      if(e.engine.state == TOMLEngine::STATE_INLINE_TABLE && e.in->peek() == ']')
       {
-        e.in->get();
-        Str buf;
-        TOMLEngine::ParseTOMLString<false, '.', ']'>(buf, *e.in);
-        TOMLValue* v = target.get<TOMLValue::TOMLTable>()[buf];
-        if(v)
-          ParseTOMLBase<TOMLValue>(e, *v, *e.in);
+        if(!target.is<TOMLValue::TOMLArray>())
+          target = TOMLValue::TOMLArray();
+        target.get<TOMLValue::TOMLArray>().Add(TOMLValue(TOMLValue::TOMLTable()));
       }
-      else if(e.in->peek() == ']')
+      if(target.is<TOMLValue::TOMLArray>())
       {
-        target = TOMLValue::TOMLTable();
-        Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
+        if(target.get<TOMLValue::TOMLArray>().Length() > 0)
+          ParseTOMLHeader(e, target.get<TOMLValue::TOMLArray>().Back());
       }
       else
-        assert(false);
+        ParseTOMLHeader(e, target);
       return;
     case 0:
       break;
@@ -616,7 +609,12 @@ namespace bss {
     if(e.engine.state > STATE_NORMAL && e.in->peek() == '.') // If this happens, we are attempting to access an array
     {
       auto end = std::end(obj);
-      return Serializer<TOMLEngine>::ActionBind<E>::Parse(e, *--end, id);
+      if constexpr(std::is_lvalue_reference<decltype(*--end)>::value) // Bit references can't be tables
+      {
+        if(HasElements(obj, 0))
+          Serializer<TOMLEngine>::ActionBind<E>::Parse(e, *--end, id);
+      }
+      return;
     }
     if(e.engine.state == STATE_INLINE_TABLE) // If the state is 2 and not 0, this is a table array.
       Add(e, obj, n);
@@ -657,15 +655,15 @@ namespace bss {
         e.in->get();
         Str buf;
         ParseTOMLString<false, '.', ']'>(buf, *e.in);
-        f(e, buf.c_str());
+        ParseTOMLEatWhitespace(*e.in);
+        if(e.in->peek() == '.' || e.in->peek() == ']')
+          f(e, buf.c_str());
       }
       else if(e.in->peek() == ']')
       {
         e.in->get();
         ParseTOMLPairs(e, *e.in, f);
       }
-      else
-        assert(false);
       break;
     case STATE_INLINE_TABLE:
       if(e.in->peek() == '.')
@@ -673,7 +671,9 @@ namespace bss {
         e.in->get();
         Str buf;
         ParseTOMLString<false, '.', ']'>(buf, *e.in);
-        f(e, buf.c_str());
+        ParseTOMLEatWhitespace(*e.in);
+        if(e.in->peek() == '.' || e.in->peek() == ']')
+          f(e, buf.c_str());
       }
       else if(e.in->peek() == ']')
       {
@@ -684,8 +684,6 @@ namespace bss {
 
         ParseTOMLPairs(e, *e.in, f);
       }
-      else
-        assert(false);
       break;
     case STATE_NORMAL:
       ParseTOMLEatWhitespace(*e.in);
-- 
2.43.0


From 3c551216edda076e1aacfd6e0ec95c42ce95146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:54 +0000
Subject: [PATCH 077/184] fix: TOML writer quotes keys that are not bare keys
 and escapes control characters

---
 include/bss-util/TOML.h | 59 ++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 36e9160..04c6dc4 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -142,7 +142,45 @@ namespace bss {
         else
           s << ", ";
       }
-      if(id) s << id << " = ";
+      if(id)
+      {
+        WriteTOMLKey(id, s);
+        s << " = ";
+      }
+    }
+    // Writes a key, quoting it if it isn't a valid bare key
+    static void WriteTOMLKey(const char* id, std::ostream& s)
+    {
+      const char* c = id;
+      while((*c >= 'a' && *c <= 'z') || (*c >= 'A' && *c <= 'Z') || (*c >= '0' && *c <= '9') || *c == '_' || *c == '-') ++c;
+      if(c != id && !*c)
+        s << id;
+      else
+        WriteTOMLString(id, strlen(id), s);
+    }
+    static void WriteTOMLString(const char* str, size_t length, std::ostream& s)
+    {
+      s << '"';
+      for(size_t i = 0; i < length; ++i)
+      {
+        switch(str[i])
+        {
+        case '"': s << "\\\""; break;
+        case '\\': s << "\\\\"; break;
+        case '\b': s << "\\b"; break;
+        case '\f': s << "\\f"; break;
+        case '\n': s << "\\n"; break;
+        case '\r': s << "\\r"; break;
+        case '\t': s << "\\t"; break;
+        default:
+          if(static_cast<unsigned char>(str[i]) < 32 || str[i] == 127)
+            s << "\\u00" << "0123456789ABCDEF"[str[i] >> 4] << "0123456789ABCDEF"[str[i] & 15];
+          else
+            s << str[i];
+          break;
+        }
+      }
+      s << '"';
     }
     template<typename T>
     static void WriteTOMLTables(Serializer<TOMLEngine>& e, const char* id, const T& obj, std::ostream& s);
@@ -805,24 +843,7 @@ namespace bss {
         return;
 
       TOMLEngine::WriteTOMLId(e, id, s);
-      s << '"';
-
-      for(size_t i = 0; i < obj.size(); ++i)
-      {
-        switch(obj[i])
-        {
-        case '"': s << "\\\""; break;
-        case '\\': s << "\\\\"; break;
-        case '\b': s << "\\b"; break;
-        case '\f': s << "\\f"; break;
-        case '\n': s << "\\n"; break;
-        case '\r': s << "\\r"; break;
-        case '\t': s << "\\t"; break;
-        default: s << obj[i]; break;
-        }
-      }
-
-      s << '"';
+      TOMLEngine::WriteTOMLString(obj.data(), obj.size(), s);
       if(e.engine.state != STATE_INLINE_TABLE && id)
         s << std::endl;
     }
-- 
2.43.0


From b776fef588b88b2859f4f79658f813d6f4eb3f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:19 +0000
Subject: [PATCH 078/184] fix: TOML writer dropped the comma after an empty
 inline table and did not quote keys in table headers

---
 include/bss-util/TOML.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 04c6dc4..a82e466 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -795,7 +795,12 @@ namespace bss {
 
     if(e.engine.lastid.size())
       e.engine.lastid += '.';
-    e.engine.lastid += id;
+    if(id)
+    {
+      std::ostringstream key;
+      WriteTOMLKey(id, key);
+      e.engine.lastid += key.str().c_str();
+    }
     static_assert(internal::serializer::is_serializable<TOMLEngine, T>::value, "object missing Serialize<Engine>(Serializer<Engine>&, const char*) function!");
     const_cast<T&>(obj).template Serialize<TOMLEngine>(e, id);
     e.engine.lastid = last;
@@ -814,10 +819,11 @@ namespace bss {
       s << '[';
       if(e.engine.lastid.size())
         s << e.engine.lastid << '.';
-      s << id << ']' << std::endl;
+      WriteTOMLKey(id, s);
+      s << ']' << std::endl;
     }
 
-    e.engine.first = true;
+    internal::serializer::PushValue<bool> push(e.engine.first, true);
     static_assert(internal::serializer::is_serializable<TOMLEngine, T>::value, "object missing Serialize<Engine>(Serializer<Engine>&, const char*) function!");
     const_cast<T&>(obj).template Serialize<TOMLEngine>(e, id);
 
-- 
2.43.0


From e2e56778fc89cdf55dccd662a1b3ab299e596b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:20 +0000
Subject: [PATCH 079/184] fix: INI parser processed the last line again, or an
 uninitialized buffer, at the end of the file

---
 bss-util/INIParser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 9689fd4..b7a0f87 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -155,7 +155,8 @@ char bssParseLine(INIParser* parse)
 
   while(!feof(parse->file))
   {
-    fgets(parse->buf, MAXLINELENGTH, parse->file);
+    if(!fgets(parse->buf, MAXLINELENGTH, parse->file))
+      break;
     switch(_nextkeychar((const char**)&tc, parse->buf))
     {
     //case -1: //Garbage line
-- 
2.43.0


From 18350298478e826996a6df283baa724edbad7d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:20 +0000
Subject: [PATCH 080/184] fix: INI trimming wrote past empty strings and
 removed non-ASCII characters, names matched their prefixes

---
 bss-util/INIParser.c    | 8 ++++----
 bss-util/INIstorage.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index b7a0f87..b6ea072 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -60,8 +60,8 @@ char* _trimrstr(char* str)
 {
   char* inter = str + strlen(str);
 
-  for(; inter > str && *inter < 33; --inter);
-  *(++inter) = '\0';
+  for(; inter > str && (unsigned char)inter[-1] < 33; --inter);
+  *inter = '\0';
   return str;
 }
 
@@ -219,7 +219,7 @@ const char* _svalidatevalue(const char* start, const char* end)
 
 const char* _trimrstralt(const char* end, const char* begin)
 {
-  for(; end > begin && *end < 33; --end);
+  for(; end > begin && (unsigned char)*end < 33; --end);
   return end;
 }
 
@@ -230,7 +230,7 @@ int comparevalues(const char* start, const char* end, const char* comp)
   end = _trimrstralt(end - 1, start);
   a = (end - start) + 1;
   b = strlen(comp);
-  return STRNICMP(start, comp, bssmin(a, b));
+  return a != b ? 1 : STRNICMP(start, comp, b);
 }
 INICHUNK bssFindINISection(const void* data, size_t length, const char* section, size_t instance)
 {
diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 7a6649a..dfe122b 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -24,7 +24,7 @@ const T* ltrimstr(const T* str)
 template<typename T>
 const T* rtrimstr(const T* end, const T* begin)
 {
-  for(; end > begin && *end < 33; --end);
+  for(; end > begin && (*end >= 0 && *end < 33); --end);
   return end;
 }
 
-- 
2.43.0


From 5d96775ef06a0ba6c6f0b00682c5a73a5bbda1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:20 +0000
Subject: [PATCH 081/184] fix: INI section search ended a section at an invalid
 section header the parser ignores

---
 bss-util/INIParser.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index b6ea072..8603bff 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -249,13 +249,18 @@ INICHUNK bssFindINISection(const void* data, size_t length, const char* section,
     if(!line) line = end; //if that returned nothing we're on the last line
     if(_snextkeychar(&tc, cur, line) == 1)
     {
+      sec = _svalidatesection(tc, line); //if the validation function returns nullptr its garbage
+      if(sec == 0 || sec == (tc + 1))
+      {
+        cur = line + 1;
+        continue;
+      }
       if(retval.start != 0) //if this is true we already found the section and now we're just looking for the next valid one
       {
         retval.end = --cur;
         break;
       }
-      sec = _svalidatesection(tc, line); //if the validation function returns nullptr its garbage
-      if(sec != 0 && sec != (tc + 1) && comparevalues(tc + 1, sec, section) == 0 && (++curinstance) == instance)
+      if(comparevalues(tc + 1, sec, section) == 0 && (++curinstance) == instance)
       {
         retval.start = tc; //this is safe because we already verified that there is at least one valid character in this string. Ok, it still isn't safe, but it won't explode.
         retval.end = end; //just in case this is the last section
-- 
2.43.0


From cf511ddafe0f6fd908cd48a43d01eb80b7b4ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:20 +0000
Subject: [PATCH 082/184] fix: copies of INI objects with repeated names
 changed their source, moves freed the wrong nodes, sections kept their old
 parent

---
 bss-util/INIsection.cpp |  6 +++---
 bss-util/INIstorage.cpp | 10 ++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/bss-util/INIsection.cpp b/bss-util/INIsection.cpp
index 3fd23a8..b3e1e51 100644
--- a/bss-util/INIsection.cpp
+++ b/bss-util/INIsection.cpp
@@ -61,11 +61,10 @@ void INIsection::_copy(const INIsection& copy)
     if(t->instances.Capacity()!=0) {
       _entries.Insert(p->val.GetKey(),p);
       p->instances.SetCapacity(c=t->instances.Capacity());
-      last=t;
-      --c;
+      last=p;
     } else if(c>0) {
       assert(last!=0);
-      last->instances[last->instances.Capacity()-(c--)-1]=p; //This never goes negative because c>0 and is therefore at least 1
+      last->instances[last->instances.Capacity()-(c--)]=p; //This never goes negative because c is at most the capacity
     } else
       _entries.Insert(p->val.GetKey(),p);
 
@@ -111,6 +110,7 @@ INIsection& INIsection::operator=(const INIsection& right)
 INIsection& INIsection::operator=(INIsection&& mov)
 {
   if(&mov == this) return *this;
+  _destroy();
   _name=std::move(mov._name);
   _index=mov._index;
   _parent=mov._parent;
diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index dfe122b..ca9afce 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -58,6 +58,7 @@ INIstorage::INIstorage(INIstorage&& mov) : _path(std::move(mov._path)), _filenam
   mov._ini = 0;
   mov._root = 0;
   mov._last = 0;
+  for(_NODE* t = _root; t != 0; t = t->next) t->val._parent = this;
 }
 INIstorage::INIstorage(const char* file, std::ostream* logger) : _ini(0), _logger(logger), _root(0), _last(0)
 {
@@ -360,6 +361,7 @@ void INIstorage::_copy(const INIstorage& copy)
     _NODE* p = _alloc.allocate(1);
     bssFill(*p, 0);
     new (&p->val) INIsection(t->val);
+    p->val._parent = this;
     if(!_root)
       _root = _last = p;
     else
@@ -369,13 +371,12 @@ void INIstorage::_copy(const INIstorage& copy)
     {
       _sections.Insert(p->val.GetName(), p);
       p->instances.SetCapacity(c = t->instances.Capacity());
-      last = t;
-      --c;
+      last = p;
     }
     else if(c > 0)
     {
       assert(last != 0);
-      last->instances[last->instances.Capacity() - (c--) - 1] = p; //This never goes negative because c>0 and is therefore at least 1
+      last->instances[last->instances.Capacity() - (c--)] = p; //This never goes negative because c is at most the capacity
     }
     else
       _sections.Insert(p->val.GetName(), p);
@@ -404,14 +405,15 @@ INIstorage& INIstorage::operator=(INIstorage&& mov)
   _filename = mov._filename;
   if(_ini != 0) delete _ini;
   _ini = mov._ini;
+  _destroy();
   _root = mov._root;
   _last = mov._last;
   mov._ini = 0;
   mov._root = 0;
   mov._last = 0;
   _logger = mov._logger;
-  _destroy();
   _sections = std::move(mov._sections);
+  for(_NODE* t = _root; t != 0; t = t->next) t->val._parent = this;
   return *this;
 }
 
-- 
2.43.0


From b0c6c47868a6896a4401d44183c4103998037615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:20 +0000
Subject: [PATCH 083/184] fix: removing the first of several INI sections or
 entries left the hash referring to its freed name

---
 bss-util/INIstorage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index ca9afce..ec40e25 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -183,6 +183,8 @@ bool INIstorage::RemoveSection(const char* name, size_t instance)
       instance = 1;
       secnode->val = std::move(secnode->next->val);
       secnode->val._index = 0;
+      _sections.RemoveIter(iter); // The hash refers to the name of the section that was just replaced
+      _sections.Insert(secnode->val.GetName(), secnode);
       secnode = secnode->next;
     }
 
@@ -257,6 +259,8 @@ char INIstorage::EditEntry(const char* section, const char* key, const char* nva
     {
       keyinstance = 1;
       entnode->val = std::move(entnode->next->val);
+      psec->_entries.RemoveIter(iter); // The hash refers to the key of the entry that was just replaced
+      psec->_entries.Insert(entnode->val.GetKey(), entnode);
       entnode = entnode->next;
     }
 
-- 
2.43.0


From 3114a7e8729ce813861af9c6645a7872996497db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:20 +0000
Subject: [PATCH 084/184] fix: INI entries without a value were uninitialized,
 INI objects without a file crashed

---
 bss-util/INIentry.cpp   | 2 +-
 bss-util/INIstorage.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/bss-util/INIentry.cpp b/bss-util/INIentry.cpp
index 4fdff1c..7496f4e 100644
--- a/bss-util/INIentry.cpp
+++ b/bss-util/INIentry.cpp
@@ -14,7 +14,7 @@ INIentry::INIentry() : _ivalue(0), _dvalue(0.0)
 INIentry::INIentry(const char *key, const char *svalue, int64_t ivalue, double dvalue) : _key(key), _svalue(svalue),
 _ivalue(ivalue), _dvalue(dvalue)
 {}
-INIentry::INIentry(const char* key, const char* data) : _key(key) { Set(data); }
+INIentry::INIentry(const char* key, const char* data) : _key(key), _ivalue(0), _dvalue(0.0) { Set(data); }
 
 INIentry::~INIentry()
 {}
diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index ec40e25..5b3af63 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -34,11 +34,11 @@ void INIstorage::_openINI()
   targetpath += _filename;
   FILE* f;
   FOPEN(f, targetpath, "a+b"); //this will create the file if it doesn't already exist
+  _ini = new Str();
   if(!f) return;
   fseek(f, 0, SEEK_END);
   size_t size = (size_t)ftell(f);
   fseek(f, 0, SEEK_SET);
-  _ini = new Str();
   _ini->resize(size);
   size = fread(_ini->UnsafeString(), sizeof(char), size, f); //reads in the entire file
   _ini->UnsafeString()[size] = '\0';
@@ -63,6 +63,7 @@ INIstorage::INIstorage(INIstorage&& mov) : _path(std::move(mov._path)), _filenam
 INIstorage::INIstorage(const char* file, std::ostream* logger) : _ini(0), _logger(logger), _root(0), _last(0)
 {
   FILE* f;
+  if(!file) return;
   FOPEN(f, file, ("rt"));
   if(f)
   {
-- 
2.43.0


From 56f1193d8d3887a37fa191232c6cbd3cab982ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:48 +0000
Subject: [PATCH 085/184] fix: the Unicode conversions read one character past
 the given source length

---
 bss-util/ConvertUTF.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bss-util/ConvertUTF.c b/bss-util/ConvertUTF.c
index 0c758ce..058c076 100644
--- a/bss-util/ConvertUTF.c
+++ b/bss-util/ConvertUTF.c
@@ -118,7 +118,7 @@ BSS_DLLEXPORT size_t UTF32toUTF16(const char32_t*BSS_RESTRICT input, ptrdiff_t s
   UTF16* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char32_t*)source) < srclen)
+  while((input - (const char32_t*)source) < srclen && *input)
   {
     buflen += 1 + (*input > UNI_MAX_BMP);
     ++input;
@@ -255,7 +255,7 @@ BSS_DLLEXPORT size_t UTF32toUTF8(const char32_t*BSS_RESTRICT input, ptrdiff_t sr
   UTF8* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char32_t*)source) < srclen)
+  while((input - (const char32_t*)source) < srclen && *input)
   {
     if(*input < (UTF32)0x80)
       buflen += 1;
@@ -400,7 +400,7 @@ BSS_DLLEXPORT size_t UTF8toUTF32(const char*BSS_RESTRICT input, ptrdiff_t srclen
   UTF32* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char*)source) < srclen)
+  while((input - (const char*)source) < srclen && *input)
   {
     buflen += (((*input) & 0b11000000) != 0b10000000);
     ++input;
-- 
2.43.0


From 5f22d11cc2620b81c40a4ab7a3489b31b15e584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:48 +0000
Subject: [PATCH 086/184] fix: converting a counted or malformed string dropped
 the last character or threw on an empty result

---
 include/bss-util/Str.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Str.h b/include/bss-util/Str.h
index 12991af..dc66a93 100644
--- a/include/bss-util/Str.h
+++ b/include/bss-util/Str.h
@@ -291,7 +291,7 @@ namespace bss {
       if(r == (size_t)~0)
         return; // If somehow still invalid, bail again
 
-      BASE::resize(r - 1); // resize to actual number of characters instead of simply the maximum (disregard null terminator)
+      BASE::resize(r - (r > 0 && !_internalPtr()[r - 1])); // resize to actual number of characters instead of simply the maximum (disregard null terminator, if there is one)
     }
     BSS_FORCEINLINE void _convStr2(const OTHER_C2* src, ptrdiff_t len)
     {
@@ -304,7 +304,7 @@ namespace bss {
       if(r == (size_t)~0)
         return; // If somehow still invalid, bail again
 
-      BASE::resize(r - 1); // resize to actual number of characters instead of simply the maximum (disregard null terminator)
+      BASE::resize(r - (r > 0 && !_internalPtr()[r - 1])); // resize to actual number of characters instead of simply the maximum (disregard null terminator, if there is one)
     }
 
     inline static T* _ltrim(T* str) { for(; *str > 0 && *str < 33; ++str); return str; }
-- 
2.43.0


From 2650e1826133077c21dbbccd8e501444e8365f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:49 +0000
Subject: [PATCH 087/184] fix: tokenizing char32_t strings never ended and
 ignored all but one delimiter

---
 include/bss-util/Str.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/bss-util/Str.h b/include/bss-util/Str.h
index dc66a93..e7585c6 100644
--- a/include/bss-util/Str.h
+++ b/include/bss-util/Str.h
@@ -79,19 +79,18 @@ namespace bss {
       typedef char OTHER_C;
       typedef wchar_t OTHER_C2;
 
-      static BSS_FORCEINLINE const CHAR* SCHR(const CHAR* str, CHAR val) { while(*str && *str != val) ++str; return str; }
+      static BSS_FORCEINLINE const CHAR* SCHR(const CHAR* str, CHAR val) { while(*str && *str != val) ++str; return *str == val ? str : nullptr; }
       static BSS_FORCEINLINE size_t SLEN(const CHAR* str) { const CHAR* i = str; while(*i) ++i; return (size_t)(i - str); }
       static BSS_FORCEINLINE CHAR* STOK(CHAR* str, const CHAR* delim, CHAR** context)
       {
-        if(str)
-          *context = str;
-        else
-          **context = *delim;
-        CHAR* r = str = *context;
-        while(*str && *str != *delim) ++str;
+        if(!str)
+          str = *context;
+        while(*str && SCHR(delim, *str)) ++str;
+        CHAR* r = str;
+        while(*str && !SCHR(delim, *str)) ++str;
+        *context = str + (*str != 0);
         *str = 0;
-        *context = str;
-        return r;
+        return *r ? r : nullptr;
       }
       static BSS_FORCEINLINE size_t CONV(const OTHER_C* src, ptrdiff_t srclen, CHAR* dest, size_t len) { return UTF8toUTF32(src, srclen, dest, len); }
       static BSS_FORCEINLINE size_t CONV2(const OTHER_C2* src, ptrdiff_t srclen, CHAR* dest, size_t len) { return UTF16toUTF32(src, srclen, dest, len); }
@@ -214,7 +213,7 @@ namespace bss {
       while(*text)
       {
         dest.push_back(text);
-        text += strlen(text) + 1;
+        text += STRCT::SLEN(text) + 1;
       }
     }
     template<typename I, typename F> // F = I(const T* s)
-- 
2.43.0


From 85a39baadd8d7c05021fd25cb1e298a2fb1c9024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:11 +0000
Subject: [PATCH 088/184] fix: bssGetBit could not see the upper half of 64-bit
 words

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index a89c30e..cd6a0a1 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -108,7 +108,7 @@ namespace bss {
   BSS_FORCEINLINE T bssSetBit(T word, T bit, bool v) noexcept { return (((word) & (~(bit))) | ((T)(-(typename std::make_signed<T>::type)v) & (bit))); }
 
   template<class T>
-  BSS_FORCEINLINE constexpr bool bssGetBit(T* p, size_t index) { return (p[index / (sizeof(T) << 3)] & (1 << (index % (sizeof(T) << 3)))) != 0; }
+  BSS_FORCEINLINE constexpr bool bssGetBit(T* p, size_t index) { return (p[index / (sizeof(T) << 3)] & (((T)1) << (index % (sizeof(T) << 3)))) != 0; }
 
   // Replaces one character with another in a string
   template<typename T>
-- 
2.43.0


From 8494661f6571a2a8b4a3cf8dfb32cc7e8513e513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:11 +0000
Subject: [PATCH 089/184] fix: bssLog2 of 64-bit numbers counted the leading
 zeros of the lower half

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index cd6a0a1..f98d265 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -870,7 +870,7 @@ namespace bss {
     unsigned long r;
     _BitScanReverse64(&r, v);
 #elif defined(BSS_COMPILER_GCC) && defined(BSS_64BIT)
-    uint32_t r = !v ? 0 : ((sizeof(uint64_t) << 3) - 1 - __builtin_clz(v));
+    uint32_t r = !v ? 0 : ((sizeof(uint64_t) << 3) - 1 - __builtin_clzll(v));
 #else
     const uint64_t b[] = { 0x2, 0xC, 0xF0, 0xFF00, 0xFFFF0000, 0xFFFFFFFF00000000 };
     const uint32_t S[] = { 1, 2, 4, 8, 16, 32 };
-- 
2.43.0


From 1afcc499d8c5ff765fc462570ac469f5364da359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:11 +0000
Subject: [PATCH 090/184] fix: the integer square root of large 64-bit numbers
 lost its top bit

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index f98d265..6b6331d 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -646,7 +646,7 @@ namespace bss {
       if(n >= t)
       {
         n -= t;
-        root |= 2 << (i);
+        root |= ((T)2) << (i);
       }
     }
     return root >> 1;
-- 
2.43.0


From dc81291202aa151377732a5d8c004ec0c7e43bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:11 +0000
Subject: [PATCH 091/184] fix: bssVariance divided by the value instead of the
 number of values

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 6b6331d..e37d30f 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -693,7 +693,7 @@ namespace bss {
     static_assert(std::is_integral<CT_>::value, "CT_ must be integral");
     static_assert(std::is_floating_point<T>::value, "T must be float, double, or long double");
     T delta = nvalue - avg;
-    avg += delta / (T)nvalue;
+    avg += delta / (T)nextnum;
     curvariance += delta*(nvalue - avg);
   }
 
-- 
2.43.0


From c2e52221e961944fe8260204fdb9d8269ca46714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:11 +0000
Subject: [PATCH 092/184] fix: the 64-bit FNV-1a hash was cut to 32 bits, bytes
 above 127 were sign extended

---
 include/bss-util/bss_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index e37d30f..1b962dd 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -1007,11 +1007,11 @@ namespace bss {
 
   // post: https://notes.underscorediscovery.com/constexpr-fnv1a/
   inline constexpr uint32_t hash_fnv1a(const char* const str, const uint32_t value = 0x811c9dc5) noexcept {
-    return (str[0] == '\0') ? value : hash_fnv1a(&str[1], uint32_t(uint64_t(value ^ uint32_t(str[0])) * 0x1000193ULL));
+    return (str[0] == '\0') ? value : hash_fnv1a(&str[1], uint32_t(uint64_t(value ^ uint32_t((unsigned char)str[0])) * 0x1000193ULL));
   }
 
   inline constexpr uint64_t hash64_fnv1a(const char* const str, const uint64_t value = 0xcbf29ce484222325) noexcept {
-    return (str[0] == '\0') ? value : hash64_fnv1a(&str[1], uint32_t(uint64_t(value ^ uint64_t(str[0])) * 0x100000001b3ULL));
+    return (str[0] == '\0') ? value : hash64_fnv1a(&str[1], uint64_t(uint64_t(value ^ uint64_t((unsigned char)str[0])) * 0x100000001b3ULL));
   }
 
   // template helper is_specialization_of, which can check if T is a specialization of any type that takes a variadic number of arguments (variant, tuple, etc.)
-- 
2.43.0


From e8aa895bcd2e490ec0f045c79196767c62e01b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:11 +0000
Subject: [PATCH 093/184] fix: BitLimit picked too small a type for 24, 40, 48
 and 56 bits

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 1b962dd..e20852d 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -71,7 +71,7 @@ namespace bss {
   template<uint8_t BITS>
   struct BitLimit
   {
-    static constexpr uint16_t BYTES = ((T_CHARGETMSB(BITS) >> 3) << (0 + ((BITS % 8) > 0))) + (BITS < 8);
+    static constexpr uint16_t BYTES = ((T_CHARGETMSB(BITS) >> 3) << (0 + ((BITS & (BITS - 1)) > 0))) + (BITS < 8);
     typedef typename std::conditional<sizeof(char) == BYTES, char,  //rounds the type up if necessary.
       typename std::conditional<sizeof(short) == BYTES, short,
       typename std::conditional<sizeof(int) == BYTES, int,
-- 
2.43.0


From 9493dddb76e94e8569ca24f3cf7c9e4c7b3dffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:54 +0000
Subject: [PATCH 094/184] fix: converting between fixed-point formats shifted
 in the wrong direction

---
 include/bss-util/FixedPt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/FixedPt.h b/include/bss-util/FixedPt.h
index b487c14..bfa7702 100644
--- a/include/bss-util/FixedPt.h
+++ b/include/bss-util/FixedPt.h
@@ -62,7 +62,7 @@ namespace bss {
   public:
     inline constexpr Fixed(const Fixed& copy) : _bits(copy._bits) {}
     template<uint8_t B, typename U, bool S>
-    inline Fixed(const Fixed<B, U, S>& copy) : _bits((T)SafeShift<T, B - D>(copy.Bits())) {}
+    inline Fixed(const Fixed<B, U, S>& copy) : _bits((T)SafeShift<typename std::common_type<T, U>::type, D - B>(copy.Bits())) {}
     inline constexpr explicit Fixed(const T v) : _bits(v << D) {}
     inline constexpr Fixed(BITS bits) : _bits(bits.bits) {}
     inline explicit Fixed(const float f) : _bits(FixedPtConv<T, D, float>(f)) {}
@@ -75,7 +75,7 @@ namespace bss {
 
     inline Fixed& operator=(const Fixed& right) { _bits = right._bits; return *this; }
     template<uint8_t B, typename U, bool S>
-    inline Fixed& operator=(const Fixed<B, U, S>& right) { _bits = (T)SafeShift<T, B - D>(right.Bits()); return *this; }
+    inline Fixed& operator=(const Fixed<B, U, S>& right) { _bits = (T)SafeShift<typename std::common_type<T, U>::type, D - B>(right.Bits()); return *this; }
 
     inline Fixed<(sizeof(T) << 3) - D, T, SATURATE> Reciprocal() const
     { 
-- 
2.43.0


From da9dab1c394863f990e9fd94a62ed6a7ed46c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:04 +0000
Subject: [PATCH 095/184] fix: vector negation, v *= M and ~M did not compile
 when used

---
 include/bss-util/vector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 8e9bf5c..9bb3129 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -1091,7 +1091,7 @@ namespace bss {
   template<typename T, int N> inline Vector<T, N>& operator *=(Vector<T, N>& l, const T scalar) { for(int i = 0; i < N; ++i) l.v[i] *= scalar; return l; }
   template<typename T, int N> inline Vector<T, N>& operator /=(Vector<T, N>& l, const T scalar) { for(int i = 0; i < N; ++i) l.v[i] /= scalar; return l; }
 
-  template<typename T, int N> inline Vector<T, N> operator -(const Vector<T, N>& l) { for(int i = 0; i < N; ++i) l.v[i] = -l.v[i]; return l; }
+  template<typename T, int N> inline Vector<T, N> operator -(const Vector<T, N>& l) { Vector<T, N> n(l); for(int i = 0; i < N; ++i) n.v[i] = -l.v[i]; return n; }
 
   template<typename T, int N> inline bool operator !=(const Vector<T, N>& l, const Vector<T, N>& r) { bool ret = false; for(int i = 0; i < N; ++i) ret = ret || (l.v[i] != r.v[i]); return ret; }
   template<typename T, int N> inline bool operator ==(const Vector<T, N>& l, const Vector<T, N>& r) { bool ret = true; for(int i = 0; i < N; ++i) ret = ret && (l.v[i] == r.v[i]); return ret; }
@@ -1149,7 +1149,7 @@ namespace bss {
   template<typename T, int M, int N> inline bool operator !=(const Matrix<T, M, N>& l, const T scalar) { return !operator==(l, scalar); }
 
   template<typename T, int M, int N> inline Matrix<T, M, N> operator -(const Matrix<T, M, N>& l) { return l*((T)-1); }
-  template<typename T, int M, int N> inline Matrix<T, M, N> operator ~(const Matrix<T, M, N>& l) { Matrix<T, M, N> m; return l.Transpose(m.v); return m; }
+  template<typename T, int M, int N> inline Matrix<T, M, N> operator ~(const Matrix<T, M, N>& l) { Matrix<T, M, N> m; l.Transpose(m.v); return m; }
 
   template<typename T, int M, int N>
   inline const Vector<T, N> operator *(const Vector<T, M>& v, const Matrix<T, M, N>& m) // Does v * M and assumes v is a row vector
@@ -1166,7 +1166,7 @@ namespace bss {
     return out;
   }
   template<typename T, int N>
-  inline Matrix<T, N, N>& operator *=(Vector<T, N>& l, const Matrix<T, N, N>& r) // Does v *= M and assumes v is a row vector
+  inline Vector<T, N>& operator *=(Vector<T, N>& l, const Matrix<T, N, N>& r) // Does v *= M and assumes v is a row vector
   {
     MatrixMultiply<T, 1, N, N>(l.v_row, r.v, l.v_row);
     return l;
-- 
2.43.0


From 1511818e181d8203224f32c64f4b21e9fe49bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:39 +0000
Subject: [PATCH 096/184] fix: ordering vectors did not compile unless
 compare.h was included first

---
 include/bss-util/vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 9bb3129..c53a41d 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -5,6 +5,7 @@
 #define __BSS_VECTOR_H__
 
 #include "bss_util.h"
+#include "compare.h"
 #include "sseVec.h"
 #include <initializer_list>
 #include <array>
-- 
2.43.0


From e70536581a37fd44db53252b588c1ee8b52d3fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:39 +0000
Subject: [PATCH 097/184] fix: GenericBSpline returned three times one term of
 the sum

---
 include/bss-util/vector.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index c53a41d..e585681 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -1201,11 +1201,7 @@ namespace bss {
     float a[4] = { t*t*t, t*t, t, 1 };
     sseVec r = MatrixMultiply1x4<float>(a, m);
     r *= sseVec(p);
-    sseVec r2 = r;
-    sseVec::Shuffle<0xB1>(r2);
-    r += r2;
-    sseVec::Shuffle<0x1B>(r2);
-    return BSS_SSE_SS_F32(r + r2);
+    return r.Sum();
   }
 }
 
-- 
2.43.0


From 06834b8a1bcf0d3afa0499a8a0f75dc3adef8b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:54 +0000
Subject: [PATCH 098/184] fix: FromQuaternion did not compile, and its 4x4
 float version did not produce a rotation matrix

---
 include/bss-util/vector.h | 41 ++++++---------------------------------
 1 file changed, 6 insertions(+), 35 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index e585681..c691167 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -542,46 +542,17 @@ namespace bss {
     T yy = y*y, yz = y*z, yw = y*w;
     T zz = z*z, zw = z*w;
 
-    SetSubMatrix<T, 3, 3>::MM(out,
+    static_assert(N >= 3, "A rotation needs at least a 3x3 matrix");
+    for(int i = 0; i < N; ++i)
+      for(int j = 0; j < N; ++j)
+        out[i][j] = (T)(i == j);
+
+    SetSubMatrix<T, N, N>::M3x3(out,
       1 - 2 * (yy + zz), 2 * (xy - zw), 2 * (xz + yw),
       2 * (xy + zw), 1 - 2 * (xx + zz), 2 * (yz - xw),
       2 * (xz - yw), 2 * (yz + xw), 1 - 2 * (xx + yy));
   }
 
-  template<>
-  BSS_FORCEINLINE void FromQuaternion<float, 4>(float(&q)[4], float(&out)[4][4])
-  {
-    sseVec x(q[0]);
-    sseVec y(q[1]);
-    sseVec z(q[2]);
-    sseVec yxw(q[1], q[0], q[3], 0);
-    sseVec zwx(q[2], q[3], q[0], 0);
-    sseVec wzy(q[3], q[2], q[1], 0);
-    const sseVec n010(1, -1, 1, 0);
-    const sseVec n100(-1, 1, 1, 0);
-    const sseVec n001(1, 1, -1, 0);
-
-    (y*yxw + z*zwx*n010).Set(out[0]);
-    (x*yxw + z*wzy*n001).Set(out[1]);
-    (x*zwx + y*wzy*n100).Set(out[2]);
-    sseVec::ZeroVector().Set(out[3]);
-    out[3][3] = 1;
-    out[1][2] = -out[1][2];
-
-    /*
-    y y + z z
-    x y - z w
-    w y + z x
-
-    x y + z w
-    x x + z z
-    -(x w - z y)
-
-    x z - y w
-    x w + y z
-    x x + y y*/
-  }
-
   template<typename T, int M, int N>
   struct Matrix;
 
-- 
2.43.0


From 9712e21cedc0f2fcbc71006b6fc6cd5593a9c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:22 +0000
Subject: [PATCH 099/184] fix: multiplying an Mx4 matrix that is not 16-byte
 aligned by a 4x4 matrix failed an assertion

---
 include/bss-util/vector.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index c691167..817e499 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -388,27 +388,25 @@ namespace bss {
     if constexpr(N == 4 && P == 4 && (std::is_same_v<T, float> || std::is_same_v<T, int32_t>))
     {
       typedef sseVecT<T> SSE;
-      assert(!(((size_t)l) % 16));
       assert(!(((size_t)r) % 16));
-      assert(!(((size_t)out) % 16));
       SSE a(r[0]);
       SSE b(r[1]);
       SSE c(r[2]);
       SSE d(r[3]);
 
       if constexpr(M == 1)
-        ((a*SSE(l[0][0])) + (b*SSE(l[0][1])) + (c*SSE(l[0][2])) + (d*SSE(l[0][3]))).Set(out[0]);
+        ((a*SSE(l[0][0])) + (b*SSE(l[0][1])) + (c*SSE(l[0][2])) + (d*SSE(l[0][3]))).Set(BSS_UNALIGNED<T>(out[0]));
       else if constexpr(M == 4)
       {
-        ((a*SSE(l[0][0])) + (b*SSE(l[0][1])) + (c*SSE(l[0][2])) + (d*SSE(l[0][3]))).Set(out[0]);
-        ((a*SSE(l[1][0])) + (b*SSE(l[1][1])) + (c*SSE(l[1][2])) + (d*SSE(l[1][3]))).Set(out[1]);
-        ((a*SSE(l[2][0])) + (b*SSE(l[2][1])) + (c*SSE(l[2][2])) + (d*SSE(l[2][3]))).Set(out[2]);
-        ((a*SSE(l[3][0])) + (b*SSE(l[3][1])) + (c*SSE(l[3][2])) + (d*SSE(l[3][3]))).Set(out[3]);
+        ((a*SSE(l[0][0])) + (b*SSE(l[0][1])) + (c*SSE(l[0][2])) + (d*SSE(l[0][3]))).Set(BSS_UNALIGNED<T>(out[0]));
+        ((a*SSE(l[1][0])) + (b*SSE(l[1][1])) + (c*SSE(l[1][2])) + (d*SSE(l[1][3]))).Set(BSS_UNALIGNED<T>(out[1]));
+        ((a*SSE(l[2][0])) + (b*SSE(l[2][1])) + (c*SSE(l[2][2])) + (d*SSE(l[2][3]))).Set(BSS_UNALIGNED<T>(out[2]));
+        ((a*SSE(l[3][0])) + (b*SSE(l[3][1])) + (c*SSE(l[3][2])) + (d*SSE(l[3][3]))).Set(BSS_UNALIGNED<T>(out[3]));
       }
       else
       {
         for(int i = 0; i < M; ++i) // Note: It's ok if l, r, and out are all the same matrix because of the order they're accessed in.
-          ((a*SSE(l[i][0])) + (b*SSE(l[i][1])) + (c*SSE(l[i][2])) + (d*SSE(l[i][3]))).Set(out[i]);
+          ((a*SSE(l[i][0])) + (b*SSE(l[i][1])) + (c*SSE(l[i][2])) + (d*SSE(l[i][3]))).Set(BSS_UNALIGNED<T>(out[i]));
       }
     }
     else
-- 
2.43.0


From 73dbf689a2db825c18a58a3b9d02274c330c1579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 100/184] fix: Circle::CircleCollide compared the other
 circle's x coordinate with its own y

---
 include/bss-util/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 6b28f9e..a96d77c 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -66,7 +66,7 @@ namespace bss {
     BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { RadiusNearestPoint(r, X - x, Y - y, outX, outY); }
     BSS_FORCEINLINE int CircleIntersect(T X, T Y, T R, Vector<T, 2>(&out)[2]) const { return CircleRadiusIntersect<T>(r, X - x, Y - y, R, out); }
     BSS_FORCEINLINE bool CircleCollide(T X, T Y, T R) const { return RadiusContainsPoint(r + R, X - x, Y - y); }
-    BSS_FORCEINLINE bool CircleCollide(const Vector<T, 2>& C, T R) const { return RadiusContainsPoint(r + R, C.x - x, C.x - y); }
+    BSS_FORCEINLINE bool CircleCollide(const Vector<T, 2>& C, T R) const { return RadiusContainsPoint(r + R, C.x - x, C.y - y); }
     BSS_FORCEINLINE bool LineCollide(T X1, T Y1, T X2, T Y2) const { return LineRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool RayCollide(T X1, T Y1, T X2, T Y2) const { return RayRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool LineSegmentCollide(T X1, T Y1, T X2, T Y2) const { return LineSegmentRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
-- 
2.43.0


From e15f06d1e82f78b2eef04a70bad289eeef62939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 101/184] fix: assigning lines of another type returned nothing

---
 include/bss-util/Geometry.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index a96d77c..bb7f419 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -158,7 +158,7 @@ namespace bss {
     inline V ParametricPoint(T s) const { return p1 + (p2 - p1)*s; }
 
     template<class U>
-    inline LineN& operator=(const LineN<U, N>& other) { p1 = other.p1; p2 = other.p2; }
+    inline LineN& operator=(const LineN<U, N>& other) { p1 = other.p1; p2 = other.p2; return *this; }
 
     typedef T SerializerArray;
     template<typename Engine>
@@ -190,7 +190,7 @@ namespace bss {
     BSS_FORCEINLINE LineN Rotate(T r, T x, T y) const { return LineN(p1.Rotate(r, x, y), p2.Rotate(r, x, y)); }
 
     template<class U>
-    inline LineN& operator=(const LineN<U, 2>& other) { p1 = other.p1; p2 = other.p2; }
+    inline LineN& operator=(const LineN<U, 2>& other) { p1 = other.p1; p2 = other.p2; return *this; }
 
     typedef T SerializerArray;
     template<typename Engine>
@@ -226,7 +226,7 @@ namespace bss {
     inline V ParametricPoint(T s) const { return p1 + (p2 - p1)*s; }
 
     template<class U>
-    inline LineN& operator=(const LineN<U, 3>& other) { p1 = other.p1; p2 = other.p2; }
+    inline LineN& operator=(const LineN<U, 3>& other) { p1 = other.p1; p2 = other.p2; return *this; }
 
     typedef T SerializerArray;
     template<typename Engine>
-- 
2.43.0


From fe1077418dd6a95d33e881ca3f98696eb6b7c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 102/184] fix: constructing an ellipse from a circle did not
 compile

---
 include/bss-util/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index bb7f419..bf31c94 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -404,7 +404,7 @@ namespace bss {
     template<class U>
     inline constexpr Ellipse(const Ellipse<U>& other) : pos(other.pos), axes(other.axes) {}
     template<class U>
-    inline explicit constexpr Ellipse(const Circle<U>& other) : pos(other.pos), axes(other.r) {}
+    inline explicit constexpr Ellipse(const Circle<U>& other) : pos(other.c), axes((T)other.r) {}
     inline constexpr Ellipse(T X, T Y, T A, T B) : pos(X, Y), axes(A, B) {}
     inline constexpr Ellipse(const V& Pos, T A, T B) : pos(Pos), axes(A, B) {}
     inline constexpr Ellipse(const V& Pos, const V& Axes) : pos(Pos), axes(Axes) {}
-- 
2.43.0


From 9238843f126123e96f13d5efa7cb3bde4e9ca54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 103/184] fix: converting a rectangle that is not 16-byte
 aligned to or from SSE failed an assertion

---
 include/bss-util/Geometry.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index bf31c94..7d4c1a3 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -265,7 +265,7 @@ namespace bss {
     inline constexpr Rect(T X, T Y, const V& dim) : left(X), top(Y), right(X + dim.x), bottom(Y + dim.y) {}
     inline constexpr Rect(const V& pos, const V& dim) : left(pos.x), top(pos.y), right(pos.x + dim.x), bottom(pos.y + dim.y) {}
     inline explicit Rect(const V& v) : left(v.x), top(v.y), right(v.x), bottom(v.y) {}
-    inline explicit Rect(const sseVecT<T>& v) { v.Set(ltrb); }
+    inline explicit Rect(const sseVecT<T>& v) { v.Set(BSS_UNALIGNED<T>(ltrb)); }
     inline explicit Rect(const T(&rectarray)[4]) : left(rectarray[0]), top(rectarray[1]), right(rectarray[2]), bottom(rectarray[3]) {}
     inline explicit Rect(const std::array<T, 4>& rectarray) : left(rectarray[0]), top(rectarray[1]), right(rectarray[2]), bottom(rectarray[3]) {}
     inline T Area() const { return (right - left)*(bottom - top); }
@@ -275,7 +275,7 @@ namespace bss {
     BSS_FORCEINLINE V Dim() const { return V(right - left, bottom - top); }
     BSS_FORCEINLINE Rect Inflate(T amount) const { return Rect(left - amount, top - amount, right + amount, bottom + amount); }
     BSS_FORCEINLINE Rect Project(T Z) const { return Rect(*this) / (Z + 1); }
-    BSS_FORCEINLINE sseVecT<T> ToSSE() const { return sseVecT<T>(ltrb); }
+    BSS_FORCEINLINE sseVecT<T> ToSSE() const { return sseVecT<T>(BSS_UNALIGNED<const T>(ltrb)); }
     // Returns true if left <= right and top <= bottom
     BSS_FORCEINLINE bool IsCanonical() const { return left <= right && top <= bottom; }
     // Returns a rectangle with a proper LTRB description, such that left < right and top < bottom.
@@ -344,7 +344,7 @@ namespace bss {
     BSS_FORCEINLINE bool operator >=(const Rect &other) const { return !operator<(other); }
     BSS_FORCEINLINE bool operator <=(const Rect &other) const { return !operator>(other); }
 
-    inline Rect& operator =(const sseVecT<T>& _right) { _right.Set(ltrb); return *this; }
+    inline Rect& operator =(const sseVecT<T>& _right) { _right.Set(BSS_UNALIGNED<T>(ltrb)); return *this; }
     inline Rect& operator =(const Rect& _right) { left = _right.left; top = _right.top; right = _right.right;  bottom = _right.bottom; return *this; }
     template<class U>
     inline Rect& operator =(const Rect<U>& _right) { left = (T)_right.left; top = (T)_right.top; right = (T)_right.right; bottom = (T)_right.bottom; return *this; }
-- 
2.43.0


From a7a628ff0b583ee908716ae61b2edd7160cc93ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 104/184] fix: intersections with and nearest points on circles
 and ellipses were relative to their center

---
 include/bss-util/Collision.h |  8 +++++++-
 include/bss-util/Geometry.h  | 26 +++++++++++++++++++-------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 655b9cc..ca05d18 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -64,7 +64,13 @@ namespace bss {
   template<class T>
   BSS_FORCEINLINE int CircleCircleIntersect(T X1, T Y1, T R1, T X2, T Y2, T R2, Vector<T, 2>(&out)[2])
   {
-    return CircleRadiusIntersect<T>(R1, X2 - X1, Y2 - Y1, R2, out);
+    int n = CircleRadiusIntersect<T>(R1, X2 - X1, Y2 - Y1, R2, out);
+    for(int i = 0; i < n; ++i)
+    {
+      out[i].x += X1;
+      out[i].y += Y1;
+    }
+    return n;
   }
   template<class T>
   inline bool RadiusContainsPoint(T r, T X, T Y)
diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 7d4c1a3..14a99d6 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -62,17 +62,17 @@ namespace bss {
     BSS_FORCEINLINE bool ContainsCircle(const NSphere<T, 2>& s) const { return ContainsCircle(s.x, s.y, s.r); }
     BSS_FORCEINLINE bool ContainsCircle(const Vector<T, 2>& C, T R) const { return ContainsCircle(C.x, C.y, R); }
     BSS_FORCEINLINE bool ContainsCircle(T X, T Y, T R) const { if(r <= R) return false; return RadiusContainsPoint(r - R, X - x, Y - y); }
-    BSS_FORCEINLINE void NearestPoint(const Vector<T, 2>& p, T& outX, T& outY) const { RadiusNearestPoint(r, p.x - x, p.y - y, outX, outY); }
-    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { RadiusNearestPoint(r, X - x, Y - y, outX, outY); }
-    BSS_FORCEINLINE int CircleIntersect(T X, T Y, T R, Vector<T, 2>(&out)[2]) const { return CircleRadiusIntersect<T>(r, X - x, Y - y, R, out); }
+    BSS_FORCEINLINE void NearestPoint(const Vector<T, 2>& p, T& outX, T& outY) const { CircleNearestPoint(x, y, r, p.x, p.y, outX, outY); }
+    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { CircleNearestPoint(x, y, r, X, Y, outX, outY); }
+    BSS_FORCEINLINE int CircleIntersect(T X, T Y, T R, Vector<T, 2>(&out)[2]) const { return CircleCircleIntersect<T>(x, y, r, X, Y, R, out); }
     BSS_FORCEINLINE bool CircleCollide(T X, T Y, T R) const { return RadiusContainsPoint(r + R, X - x, Y - y); }
     BSS_FORCEINLINE bool CircleCollide(const Vector<T, 2>& C, T R) const { return RadiusContainsPoint(r + R, C.x - x, C.y - y); }
     BSS_FORCEINLINE bool LineCollide(T X1, T Y1, T X2, T Y2) const { return LineRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool RayCollide(T X1, T Y1, T X2, T Y2) const { return RayRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool LineSegmentCollide(T X1, T Y1, T X2, T Y2) const { return LineSegmentRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
-    BSS_FORCEINLINE bool LineIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return LineRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out); }
-    BSS_FORCEINLINE bool RayIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return RayRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out); }
-    BSS_FORCEINLINE bool LineSegmentIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return LineSegmentRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out); }
+    BSS_FORCEINLINE bool LineIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return _translate(LineRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out), out); }
+    BSS_FORCEINLINE bool RayIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return _translate(RayRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out), out); }
+    BSS_FORCEINLINE bool LineSegmentIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return _translate(LineSegmentRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out), out); }
     BSS_FORCEINLINE bool RectCollide(T left, T top, T right, T bottom) const { return RectCircleCollide<T>(left, top, right, bottom, x, y, r); }
     BSS_FORCEINLINE bool EllipseCollide(T X, T Y, T A, T B) const { return EllipseCircleCollide(X, Y, A, B, x, y, r); }
 
@@ -96,6 +96,18 @@ namespace bss {
       };
       T v[3];
     };
+
+  protected:
+    // Moves intersection points relative to our center to where they really are
+    BSS_FORCEINLINE int _translate(int n, Vector<T, 2>(&out)[2]) const
+    {
+      for(int i = 0; i < n; ++i)
+      {
+        out[i].x += x;
+        out[i].y += y;
+      }
+      return n;
+    }
   };
 
   // Traditional 3 dimensional sphere
@@ -410,7 +422,7 @@ namespace bss {
     inline constexpr Ellipse(const V& Pos, const V& Axes) : pos(Pos), axes(Axes) {}
     inline T Area() const { return (T)(PI*a*b); }
     BSS_FORCEINLINE bool ContainsPoint(T X, T Y) const { return EllipseContainsPoint(x, y, a, b, X, Y); }
-    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { return EllipseNearestPoint(a, b, X - x, Y - y, outX, outY); }
+    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { EllipseNearestPoint(a, b, X - x, Y - y, outX, outY); outX += x; outY += y; }
     BSS_FORCEINLINE bool RectCollide(T left, T top, T right, T bottom) const { return EllipseRectCollide(x, y, a, b, left, top, right, bottom); }
     BSS_FORCEINLINE bool RectCollide(const Rect<T>& r) const { return EllipseRectCollide(x, y, a, b, r.left, r.top, r.right, r.bottom); }
     BSS_FORCEINLINE bool CircleCollide(T X, T Y, T R) const { return EllipseCircleCollide(x, y, a, b, X, Y, R); }
-- 
2.43.0


From a2cc7f21e3e0b75e3f1bca84c1b1f9a191f63a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 105/184] fix: distances of points from lines and line segments
 were (partly) squared

---
 include/bss-util/Collision.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index ca05d18..e1e95d1 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -290,7 +290,7 @@ namespace bss {
     T tx = X2 - X1;
     T ty = Y2 - Y1;
     T det = (tx*(Y1 - pY)) - ((X1 - pX)*ty);
-    return (det*det) / bss::FastSqrt<T>((tx*tx) + (ty*ty));
+    return (det < 0 ? -det : det) / bss::FastSqrt<T>((tx*tx) + (ty*ty));
   }
   template<typename T>
   inline T LineSegmentPointDistanceSqr(T X1, T Y1, T X2, T Y2, T pX, T pY)
@@ -315,7 +315,7 @@ namespace bss {
   template<typename T>
   BSS_FORCEINLINE T LineSegmentPointDistance(T X1, T Y1, T X2, T Y2, T pX, T pY)
   {
-    return LineSegmentPointDistanceSqr(X1, Y1, X2, Y2, pX, pY);
+    return bss::FastSqrt<T>(LineSegmentPointDistanceSqr(X1, Y1, X2, Y2, pX, pY));
   }
   template<typename T>
   inline bool LineSegmentLineSegmentIntersect(T x1, T y1, T x2, T y2, T X1, T Y1, T X2, T Y2, Vector<T, 2>& retpoint)
-- 
2.43.0


From 8eb018d29d03d8a30b73d6411838863a18c16446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 106/184] fix: line intersections had the wrong sign and
 rejected lines at small negative angles

---
 include/bss-util/Collision.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index e1e95d1..7a74f92 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -326,10 +326,10 @@ namespace bss {
     Vector<T, 2> s(X2 - X1, Y2 - Y1);
     T rCrossS = r.Cross(s);
 
-    if(rCrossS <= 0 && rCrossS >= -1)
+    if(rCrossS == 0)
       return false;
-    T t = s.Cross(q -= p) / rCrossS;
-    T u = r.Cross(q) / rCrossS;
+    T t = (q -= p).Cross(s) / rCrossS;
+    T u = q.Cross(r) / rCrossS;
     if(0 <= u && u <= 1 && 0 <= t && t <= 1)
     {
       retpoint = (p += (r *= t));
@@ -346,9 +346,9 @@ namespace bss {
     Vector<T, 2> s(X2 - X1, Y2 - Y1);
     T rCrossS = r.Cross(s);
 
-    if(rCrossS <= 0 && rCrossS >= -1)
+    if(rCrossS == 0)
       return false;
-    T t = s.Cross(q -= p) / rCrossS;
+    T t = (q -= p).Cross(s) / rCrossS;
     retpoint = (p += (r *= t));
     return true;
   }
-- 
2.43.0


From 6046d3bb9e6d4e05ddf07c1f7741cced4aec77cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 107/184] fix: RectLineCollide reported vertical lines below
 the rectangle

---
 include/bss-util/Collision.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 7a74f92..f955b2e 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -410,7 +410,7 @@ namespace bss {
     T m = X2 - X1;
     if(m == (T)0) //this is a special case
     {
-      return !(X1 < left || X2 > right || (Y1 < top && Y2 < top) || (Y1 > bottom && Y2 < bottom));
+      return !(X1 < left || X2 > right || (Y1 < top && Y2 < top) || (Y1 > bottom && Y2 > bottom));
     }
     m = (Y2 - Y1) / m; //this is a precaution to prevent divide by zero
                        //T m = (Y2-Y1) / (X2-X1);
-- 
2.43.0


From c20c9be6ee69f288a43255ba4575a0480b7af43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 108/184] fix: TriangleContainsPoint did not compile

---
 include/bss-util/Collision.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index f955b2e..2ad8c16 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -466,7 +466,7 @@ namespace bss {
   /**************** Triangle ****************/
 
   template<typename T> //Uses the standard barycentric method to figure out point inclusion
-  inline bool TriangleContainsPoint(Vector<T, 2>(&p)[3], T X, T Y) 
+  inline bool TriangleContainsPoint(const Vector<T, 2>(&p)[3], T X, T Y) 
   {
     Vector<T, 2> v0(p[2]);
     Vector<T, 2> v1(p[1]);
@@ -476,11 +476,11 @@ namespace bss {
     v2 -= p[0];
 
     // Compute dot products
-    T dot00 = v0.DotProduct(v0);
-    T dot01 = v0.DotProduct(v1);
-    v0.x = v0.DotProduct(v2);
-    v0.y = v1.DotProduct(v1);
-    v1.x = v1.DotProduct(v2);
+    T dot00 = v0.Dot(v0);
+    T dot01 = v0.Dot(v1);
+    v0.x = v0.Dot(v2);
+    v0.y = v1.Dot(v1);
+    v1.x = v1.Dot(v2);
 
     // Compute barycentric coordinates
     v1.y = 1 / (dot00 * v0.y - dot01 * dot01);
-- 
2.43.0


From 8523a9105b48c57db2f0daad7eff0a69508ad3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:27 +0000
Subject: [PATCH 109/184] fix: ConvexPolygonContainsPoint rejected points
 inside and accepted some outside

---
 include/bss-util/Collision.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 2ad8c16..2bd88f0 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -620,12 +620,13 @@ namespace bss {
     assert(PolygonIsConvex<T>(verts, num));
 
     //(y - y0)*(x1 - x0) - (x - x0)*(y1 - y0) where x,y is the point being tested and 0 and 1 are vertices on the polygon, returns negative if on the right, 0 if its on the line, and positive if its on the left
-    T last = ((point.y - verts[0].y)*(verts[num - 1].x - verts[0].x)) - ((point.x - verts[0].x)*(verts[num - 1].y - verts[0].y));
+    T last = ((point.y - verts[num - 1].y)*(verts[0].x - verts[num - 1].x)) - ((point.x - verts[num - 1].x)*(verts[0].y - verts[num - 1].y));
     T cur;
     for(size_t i = 1; i< num; ++i)
     {
       cur = ((point.y - verts[i - 1].y)*(verts[i].x - verts[i - 1].x)) - ((point.x - verts[i - 1].x)*(verts[i].y - verts[i - 1].y));
-      if(cur<0 && last>0 || cur>0 && last<0) return false;//This is written so that being on the line counts as an intersection.
+      if((cur<0 && last>0) || (cur>0 && last<0)) return false;//This is written so that being on the line counts as an intersection.
+      if(cur != 0) last = cur;
     }
 
     return true;
-- 
2.43.0


From ca7ad06922154041349563396d0b769066d19d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:44 +0000
Subject: [PATCH 110/184] fix: PolygonCentroid added to uninitialized
 coordinates

---
 include/bss-util/Collision.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 2bd88f0..f1582e5 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -647,7 +647,7 @@ namespace bss {
   template<class T>
   inline Vector<T, 2> PolygonCentroid(const Vector<T, 2>* verts, size_t num)
   {
-    Vector<T, 2> c;
+    Vector<T, 2> c(0, 0);
 
     for(size_t i = 0, j = num - 1; i<num; j = i++) //for loop trick for iterating each edge taken from pnpoly
     {
-- 
2.43.0


From edc1c940425175b94605a8a27b764e7702f201bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:44 +0000
Subject: [PATCH 111/184] fix: RectLineCollide missed horizontal line segments
 and ones it only clips at a corner

---
 include/bss-util/Collision.h | 47 +++++++++---------------------------
 1 file changed, 11 insertions(+), 36 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index f1582e5..e05f7b8 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -407,42 +407,17 @@ namespace bss {
   template<typename T>
   inline bool RectLineCollide(T left, T top, T right, T bottom, T X1, T Y1, T X2, T Y2)
   {
-    T m = X2 - X1;
-    if(m == (T)0) //this is a special case
-    {
-      return !(X1 < left || X2 > right || (Y1 < top && Y2 < top) || (Y1 > bottom && Y2 > bottom));
-    }
-    m = (Y2 - Y1) / m; //this is a precaution to prevent divide by zero
-                       //T m = (Y2-Y1) / (X2-X1);
-    T c = Y1 - (m*X1);
-    T ti, bi, tp, bp;
-
-    if(m > 0) // if the line is going up from right to left then the top intersect point is on the left
-    {
-      ti = (m*left + c);
-      bi = (m*right + c);
-    }
-    else // otherwise it's on the right
-    {
-      ti = (m*right + c);
-      bi = (m*left + c);
-    }
-
-    if(Y1 < Y2) // work out the top and bottom extents for the triangle
-    {
-      tp = Y1;
-      bp = Y2;
-    }
-    else
-    {
-      tp = Y2;
-      bp = Y1;
-    }
-
-    ti = ti > tp ? ti : tp;
-    bi = bi < bp ? bi : bp;
-
-    return (ti < bi) && (!((bi < top) || (ti > bottom)));
+    if((X1 < left && X2 < left) || (X1 > right && X2 > right) || (Y1 < top && Y2 < top) || (Y1 > bottom && Y2 > bottom))
+      return false; // the bounding box of the line segment is outside the rectangle
+
+    // Otherwise they can only be apart if all four corners are on the same side of the line
+    T dx = X2 - X1;
+    T dy = Y2 - Y1;
+    T lt = dx*(top - Y1) - dy*(left - X1);
+    T rt = dx*(top - Y1) - dy*(right - X1);
+    T lb = dx*(bottom - Y1) - dy*(left - X1);
+    T rb = dx*(bottom - Y1) - dy*(right - X1);
+    return !((lt > 0 && rt > 0 && lb > 0 && rb > 0) || (lt < 0 && rt < 0 && lb < 0 && rb < 0));
   }
 
   template<typename T>
-- 
2.43.0


From ecec1f985460b7e0a7b9aefeac667bed00053401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:54 +0000
Subject: [PATCH 112/184] fix: concentric circle sectors compare their angles
 modulo a full turn

---
 include/bss-util/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 14a99d6..fd89696 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -563,7 +563,7 @@ namespace bss {
 
       // It is possible for coincidental circles to reach this point if they have a nonzero inner radius.
       if(fSmall(X) && fSmall(Y)) // If this true, both the angle range and radius range must intersect for the segments to intersect
-        return inner <= Outer && Inner <= outer && min <= (Min + Range) && Min <= (min + range);
+        return inner <= Outer && Inner <= outer && (bssFMod<T>(Min - min, (T)PI_DOUBLE) <= range || bssFMod<T>(min - Min, (T)PI_DOUBLE) <= Range);
 
       Vector<T, 2> out[2];
       if(_checkBothAngles(X, Y, CircleRadiusIntersect<T>(outer, X, Y, Outer, out), out, min, range, Min, Range))
-- 
2.43.0


From fe9d4adc55b8c84241ad9983d7f3f6c3db2d66eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:54 +0000
Subject: [PATCH 113/184] fix: CircleSectorCollide intersects the right circles
 for its outer and the other's inner radius

---
 include/bss-util/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index fd89696..9348080 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -572,7 +572,7 @@ namespace bss {
       if(inner > 0 && _checkBothAngles(X, Y, CircleRadiusIntersect<T>(inner, X, Y, Outer, out), out, min, range, Min, Range))
         return true; // inner <-> Outer intersection
 
-      if(Inner > 0 && _checkBothAngles(X, Y, CircleRadiusIntersect<T>(Inner, X, Y, outer, out), out, min, range, Min, Range))
+      if(Inner > 0 && _checkBothAngles(X, Y, CircleRadiusIntersect<T>(outer, X, Y, Inner, out), out, min, range, Min, Range))
         return true; // Inner <-> outer intersection
 
       if(inner > 0 && Inner > 0 && _checkBothAngles(X, Y, CircleRadiusIntersect<T>(inner, X, Y, Inner, out), out, min, range, Min, Range))
-- 
2.43.0


From cd59e5115e5e746b8645aadc4f19b936e0077b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:14 +0000
Subject: [PATCH 114/184] fix: QuadraticFit did not compile when instantiated

---
 include/bss-util/algo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index ecafb3f..51ae9dc 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -336,8 +336,8 @@ namespace bss {
     T x1_2 = x1*x1;
     T x2_2 = x2*x2;
     T x3_2 = x3*x3;
-    T A = ((y2 - y1)(x1 - x3) + (y3 - y1)(x2 - x1)) / ((x1 - x3)(x2_2 - x1_2) + (x2 - x1)(x3_2 - x1_2));
-    T B = ((y2 - y1) - A(x2_2 - x1_2)) / (x2 - x1);
+    T A = ((y2 - y1)*(x1 - x3) + (y3 - y1)*(x2 - x1)) / ((x1 - x3)*(x2_2 - x1_2) + (x2 - x1)*(x3_2 - x1_2));
+    T B = ((y2 - y1) - A*(x2_2 - x1_2)) / (x2 - x1);
     T C = y1 - A*x1_2 - B*x1;
     return A*t*t + B*t + C;
   }
-- 
2.43.0


From de3717a9667850ba9b63a9a43fe7a1a4776f4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:14 +0000
Subject: [PATCH 115/184] fix: GaussianQuadrature rejected every number of
 points and dropped the central weight of five

---
 include/bss-util/algo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index 51ae9dc..242a8e7 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -573,7 +573,7 @@ namespace bss {
   inline T GaussianQuadrature(T a, T b, T(*f)(T, D...), D... args)
   {
     static_assert(N <= 5, "Too many points for Guassian Quadrature!");
-    static_assert(N < 1, "Too few points for Guassian Quadrature!");
+    static_assert(N >= 1, "Too few points for Guassian Quadrature!");
 
     static const T points[5][5] = {
       0, 0, 0, 0, 0,
@@ -588,7 +588,7 @@ namespace bss {
       1.0, 1.0, 0, 0, 0,
       8.0 / 9.0, 5.0 / 9.0, 5.0 / 9.0, 0, 0,
       (18 + sqrt(30)) / 36, (18 + sqrt(30)) / 36, (18 - sqrt(30)) / 36, (18 - sqrt(30)) / 36, 0,
-      128 / 225, (322 + 13 * sqrt(70)) / 900, (322 + 13 * sqrt(70)) / 900, (322 - 13 * sqrt(70)) / 900, (322 - 13 * sqrt(70)) / 900,
+      128.0 / 225.0, (322 + 13 * sqrt(70)) / 900, (322 + 13 * sqrt(70)) / 900, (322 - 13 * sqrt(70)) / 900, (322 - 13 * sqrt(70)) / 900,
     };
 
     T scale = (b - a) / 2.0;
-- 
2.43.0


From 33f9ca8f50f46d464713064f783f1485c4230a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:35 +0000
Subject: [PATCH 116/184] fix: Base64Decode read outside its table for
 characters outside the alphabet

---
 include/bss-util/algo.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index 242a8e7..8ed7b22 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -679,19 +679,20 @@ namespace bss {
     uint8_t map[78] = { 62,0,0,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,
     0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,63,0,
     26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51 };
+    auto get = [&map](char ch) -> uint8_t { size_t index = (size_t)((uint8_t)ch) - '-'; return index < sizeof(map) ? map[index] : 0; }; // characters outside the alphabet count as zero
     size_t s = cnt & (~0b11);
 
     for(; i < s; i += 4)
     {
-      out[c++] = (map[src[i + 0] - '-'] << 2) | (map[src[i + 1] - '-'] >> 4);
-      out[c++] = (map[src[i + 1] - '-'] << 4) | (map[src[i + 2] - '-'] >> 2);
-      out[c++] = (map[src[i + 2] - '-'] << 6) | (map[src[i + 3] - '-']);
+      out[c++] = (get(src[i + 0]) << 2) | (get(src[i + 1]) >> 4);
+      out[c++] = (get(src[i + 1]) << 4) | (get(src[i + 2]) >> 2);
+      out[c++] = (get(src[i + 2]) << 6) | (get(src[i + 3]));
     }
 
     if(++i < cnt) // we do ++i here even though i was already valid because the first character requires TWO source characters, not 1.
-      out[c++] = (map[src[i - 1] - '-'] << 2) | (map[src[i] - '-'] >> 4); 
+      out[c++] = (get(src[i - 1]) << 2) | (get(src[i]) >> 4); 
     if(++i < cnt)
-      out[c++] = (map[src[i - 1] - '-'] << 4) | (map[src[i] - '-'] >> 2);
+      out[c++] = (get(src[i - 1]) << 4) | (get(src[i]) >> 2);
     return c;
   }
 }
-- 
2.43.0


From 6b1e7051159adda193686cf02cbf11ae42e8a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:35 +0000
Subject: [PATCH 117/184] fix: BreadthFirstTree lost the waiting nodes of a
 full tree with an odd number of nodes

---
 include/bss-util/algo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index 8ed7b22..df82cac 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -305,7 +305,7 @@ namespace bss {
       return;
     }
 
-    n = (n / 2) + 1;
+    n = ((n + 1) / 2) + 1; // at most (n + 1) / 2 nodes wait at once, beside the one being visited
     VARARRAY(T*, queue, n);
     queue[0] = root;
     size_t l = 1;
-- 
2.43.0


From 1d43955d69ad014baa177d515fa16fa0fe1327bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:14 +0000
Subject: [PATCH 118/184] fix: copying an AliasTable and reading its columns
 did not compile

---
 include/bss-util/AliasTable.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/AliasTable.h b/include/bss-util/AliasTable.h
index a8a088a..4acdea4 100644
--- a/include/bss-util/AliasTable.h
+++ b/include/bss-util/AliasTable.h
@@ -15,8 +15,8 @@ namespace bss {
     AliasTable(const AliasTable& copy) : _alias(new UINT[copy._count]), _prob(new F[copy._count]), _count(copy._count),
       _dist(copy._dist), _fdist(copy._fdist)
     {
-      memcpy(_alias, copy._alias, sizeof(UINT)*copy._count);
-      memcpy(_prob, copy._prob, sizeof(UINT)*copy._count);
+      memcpy(_alias.get(), copy._alias.get(), sizeof(UINT)*copy._count);
+      memcpy(_prob.get(), copy._prob.get(), sizeof(F)*copy._count);
     }
     AliasTable(AliasTable&& mov) : _prob(std::move(mov._prob)), _alias(std::move(mov._alias)),
       _dist(std::move(mov._dist)), _fdist(std::move(mov._fdist)), _count(mov._count)
@@ -101,8 +101,8 @@ namespace bss {
     template<typename ENGINE>
     BSS_FORCEINLINE UINT operator()(ENGINE& e) const { return Get<ENGINE>(e); }
     BSS_FORCEINLINE UINT operator()(void) const { return Get(); }
-    inline F* GetProbabilities() const { return _prob; }
-    inline UINT* GetAliases() const { return _alias; }
+    inline F* GetProbabilities() const { return _prob.get(); }
+    inline UINT* GetAliases() const { return _alias.get(); }
     inline UINT GetCount() const { return _count; }
 
     inline AliasTable& operator=(const AliasTable& copy)
-- 
2.43.0


From 7ebe74d12df3e093fa73e898fac4fdcbb2f3e8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:14 +0000
Subject: [PATCH 119/184] fix: AliasTable assignment copies its probabilities
 by their own size

---
 include/bss-util/AliasTable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/AliasTable.h b/include/bss-util/AliasTable.h
index 4acdea4..b5c18a1 100644
--- a/include/bss-util/AliasTable.h
+++ b/include/bss-util/AliasTable.h
@@ -113,7 +113,7 @@ namespace bss {
       _alias.reset(new UINT[copy._count]);
       _prob.reset(new F[copy._count]);
       memcpy(_alias.get(), copy._alias.get(), sizeof(UINT)*copy._count);
-      memcpy(_prob.get(), copy._prob.get(), sizeof(UINT)*copy._count);
+      memcpy(_prob.get(), copy._prob.get(), sizeof(F)*copy._count);
       return *this;
     }
     inline AliasTable& operator=(AliasTable&& mov)
-- 
2.43.0


From 0f088a32a980ec0295cdf4a4ce53dad7ba7ef878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:03 +0000
Subject: [PATCH 120/184] fix: a xorshift engine seeded with zero returned zero
 forever

---
 include/bss-util/XorshiftEngine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/XorshiftEngine.h b/include/bss-util/XorshiftEngine.h
index d1460eb..dd5b213 100644
--- a/include/bss-util/XorshiftEngine.h
+++ b/include/bss-util/XorshiftEngine.h
@@ -33,6 +33,8 @@ namespace bss {
   // Generates a seed for xorshift1024star from a 64-bit value
   inline void GenXor1024Seed(uint64_t x, uint64_t(&seed)[17])
   {
+    if(!x)
+      x = UINT64_C(0x9E3779B97F4A7C15); // an all-zero state would yield nothing but zeros
     xorshift64star(x);
     for(uint8_t i = 0; i < 16; ++i)
       seed[i] = xorshift64star(x);
-- 
2.43.0


From b77db101608a7e34b5696bb08c2c9289b0095de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:47 +0000
Subject: [PATCH 121/184] fix: Variant did not align its storage for its types

---
 include/bss-util/Variant.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 41be6ba..1aeae84 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -38,11 +38,10 @@ namespace bss {
     template<typename A, typename... Ax>
     struct max_alignof {
       static constexpr size_t value = (max_alignof<Ax...>::value > alignof(A)) ? max_alignof<Ax...>::value : alignof(A);
-      typedef std::conditional<(max_alignof<Ax...>::value > alignof(A)), A, typename max_alignof<Ax...>::type> type;
     };
 
     template<typename A>
-    struct max_alignof<A> { static constexpr size_t value = alignof(A); typedef A type; };
+    struct max_alignof<A> { static constexpr size_t value = alignof(A); };
 
     template<typename X, typename... Ts> struct getpos;
 
@@ -262,11 +261,7 @@ namespace bss {
     }
 
     int _tag;
-    union
-    {
-      char _store[max_sizeof<Arg, Args...>::value]; // actual storage
-      typename max_alignof<Arg, Args...>::type _align; // simply ensures we have the correct alignment for the type with the largest alignment
-    };
+    alignas(max_alignof<Arg, Args...>::value) char _store[max_sizeof<Arg, Args...>::value]; // actual storage, aligned for the type with the largest alignment
   };
 }
 
-- 
2.43.0


From 093f188d36bdd7713328a7d23ecff0caea1aa619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:47 +0000
Subject: [PATCH 122/184] fix: parsing into a Variant leaked or misread the
 value it already held

---
 include/bss-util/Serializer.h | 12 ++++++------
 include/bss-util/Variant.h    |  5 +++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/Serializer.h b/include/bss-util/Serializer.h
index f8c3b1c..2e8a8dd 100644
--- a/include/bss-util/Serializer.h
+++ b/include/bss-util/Serializer.h
@@ -193,25 +193,25 @@ namespace bss {
       template<typename... Args>
       struct ActionVariantRef
       {
-        ActionVariantRef(Variant<Args...>& ref) : _ref(ref) {}
+        ActionVariantRef(Variant<Args...>& ref, int& tag) : _ref(ref), _tag(tag) {}
 
         Variant<Args...>& _ref;
+        int& _tag;
       };
 
       template<class Engine, typename... Args>
       struct Action<Engine, ActionVariantRef<Args...>>
       {
         template<typename A, typename... Ax>
-        static inline void _parse(Serializer<Engine>& e, Variant<Args...>& obj, const char* id)
+        static inline void _parse(Serializer<Engine>& e, Variant<Args...>& obj, int tag, const char* id)
         {
-          if(obj.template is<A>())
+          if(tag == Variant<Args...>::template Type<A>::value)
           {
-            new (&obj) Variant<Args...>(); // Set _Tag to -1
             obj.template typeset<A>(); // Properly construct type
             Action<Engine, A>::Parse(e, obj.template get<A>(), id);
           }
           else if constexpr(sizeof...(Ax) > 0)
-            _parse<Ax...>(e, obj, id);
+            _parse<Ax...>(e, obj, tag, id);
         }
         template<typename A, typename... Ax>
         static inline void _serialize(Serializer<Engine>& e, const Variant<Args...>& obj, const char* id)
@@ -226,7 +226,7 @@ namespace bss {
 
         static inline void Parse(Serializer<Engine>& e, ActionVariantRef<Args...>& obj, const char* id)
         {
-          _parse<Args...>(e, obj._ref, id);
+          _parse<Args...>(e, obj._ref, obj._tag, id);
         }
         static inline void Serialize(Serializer<Engine>& e, const ActionVariantRef<Args...>& obj, const char* id)
         {
diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 1aeae84..c47450e 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -113,8 +113,9 @@ namespace bss {
     template<typename Engine>
     void Serialize(Serializer<Engine>& e, const char*)
     {
-      internal::serializer::ActionVariantRef<Arg, Args...> ref(*this);
-      e.template EvaluateType<Variant>(std::pair<const char*, int&>("t", _tag), std::pair<const char*, internal::serializer::ActionVariantRef<Arg, Args...>&>("o", ref));
+      int tag = _tag; // the tag being read, which may differ from that of the current value
+      internal::serializer::ActionVariantRef<Arg, Args...> ref(*this, tag);
+      e.template EvaluateType<Variant>(std::pair<const char*, int&>("t", tag), std::pair<const char*, internal::serializer::ActionVariantRef<Arg, Args...>&>("o", ref));
     }
 
   protected:
-- 
2.43.0


From faf20e3c7db83a739008e57752349786d09c32d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:03 +0000
Subject: [PATCH 123/184] fix: assigning a ref_ptr could destroy the object
 being assigned

---
 include/bss-util/RefCounter.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/bss-util/RefCounter.h b/include/bss-util/RefCounter.h
index 94ea157..adc239b 100644
--- a/include/bss-util/RefCounter.h
+++ b/include/bss-util/RefCounter.h
@@ -6,6 +6,7 @@
 
 #include "compiler.h"
 #include <assert.h>
+#include <utility>
 
 namespace bss {
   // A reference counter class that is entirely inline
@@ -63,21 +64,21 @@ namespace bss {
     inline ref_ptr& operator=(const ref_ptr& right) { return operator=(right._p); }
     inline ref_ptr& operator=(ref_ptr&& right)
     {
-      if(_p != 0) 
-        _p->Drop();
-
-      _p = right._p;
-      right._p = 0; 
+      ref_ptr old(std::move(right));
+      T* p = _p; // Our object is dropped last, because this can destroy right
+      _p = old._p;
+      old._p = p;
       return *this; 
     }
     inline ref_ptr& operator=(T* right)
     { 
-      if(_p != 0) 
-        _p->Drop();
+      T* old = _p;
+      if(right != 0) // Grab first: right can be the same object, or one kept alive only by the one being dropped
+        right->Grab(); 
 
       _p = right; 
-      if(_p != 0) 
-        _p->Grab(); 
+      if(old != 0) 
+        old->Drop();
 
       return *this; 
     }
-- 
2.43.0


From 7eabb0325909839a3b50c66f24919f3c5d21911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:12 +0000
Subject: [PATCH 124/184] fix: moving from an OwnerPtr that does not own its
 pointer made the target delete it

---
 include/bss-util/SmartPtr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/SmartPtr.h b/include/bss-util/SmartPtr.h
index d7fe210..4ec970c 100644
--- a/include/bss-util/SmartPtr.h
+++ b/include/bss-util/SmartPtr.h
@@ -63,7 +63,7 @@ namespace bss {
     { 
       _disown(); 
       _p = right._p; 
-      _owner = true; 
+      _owner = right._owner; 
       right._owner = false;
       return *this; 
     }
-- 
2.43.0


From 141b31fb1f0ab8e4eece6f09e5d19e79ab1af143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:31 +0000
Subject: [PATCH 125/184] fix: an animation interval ends its length after its
 start, not at that absolute time

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index f2a50f1..cf42dd9 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -242,7 +242,7 @@ namespace bss {
     }
 
   protected:
-    inline void _addToQueue(T* dest, const FRAME& v) { _queue.Push(v.data, (dest->*FN)(v.value)); }
+    inline void _addToQueue(T* dest, const FRAME& v) { _queue.Push(v.time + v.data, (dest->*FN)(v.value)); }
 
     void _clearQueue(T* dest)
     {
-- 
2.43.0


From dda2c369e1d7e82f7c3dcb8594a9a13a8929e68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:31 +0000
Subject: [PATCH 126/184] fix: animation intervals that end before another were
 not removed until that one ended

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index cf42dd9..3285b8b 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -250,7 +250,7 @@ namespace bss {
         (dest->*REMOVE)(_queue.Pop().second);
     }
 
-    PriorityQueue<double, AUX, CompT<double>, size_t, ARRAY_SIMPLE, QUEUEALLOC> _queue;
+    PriorityQueue<double, AUX, CompTInv<double>, size_t, ARRAY_SIMPLE, QUEUEALLOC> _queue; // earliest end first
     size_t _cur;
   };
 
-- 
2.43.0


From 0cc6ccbe1ee564efee82c72f416fa83501a900f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:31 +0000
Subject: [PATCH 127/184] fix: AniDataInterval built from frames had no end
 time

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index 3285b8b..e394b79 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -355,7 +355,7 @@ namespace bss {
     AniDataInterval() : _end(0.0) {}
     AniDataInterval(AniDataInterval&& mov) : BASE(std::move(mov)), _end(mov._end) { mov._end = 0.0f; }
     AniDataInterval(const AniDataInterval& copy) : BASE(copy), _end(copy._end) {}
-    AniDataInterval(const FRAME* src, size_t len) : BASE(src, len) {}
+    AniDataInterval(const FRAME* src, size_t len) : BASE(src, len) { _recalcLength(); }
     BSS_FORCEINLINE double End() const { return _end; }
     BSS_FORCEINLINE Slice<const FRAME> Frames() const { return _frames.GetSlice(); }
     BSS_FORCEINLINE size_t Add(const FRAME& frame)
-- 
2.43.0


From 9825b9e483bc5ded6388b8a36db84039a66a2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:31 +0000
Subject: [PATCH 128/184] fix: Animation::Set did not compile

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index e394b79..7d29c7e 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -504,7 +504,7 @@ namespace bss {
     inline void Set(const typename T::FRAME* src, size_t len)
     {
       static_assert(std::disjunction<std::is_same<T, Args>...>::value, "T is not in this Animation type!");
-      std::get<T>().Set(src, len);
+      std::get<T>(*this).Set(src, len);
       _calc = _calclength(std::index_sequence_for<Args...>{});
     }
 
-- 
2.43.0


From 1d0af21aa288b2bb3da43122de23c20da95f001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:31 +0000
Subject: [PATCH 129/184] fix: derivative of the animation easing curve has no
 such term

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index 7d29c7e..65e2545 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -545,7 +545,7 @@ namespace bss {
     AniCubicEasing() : t1(0), s1(0), t2(1.0), s2(1.0) {}
     AniCubicEasing(double T1, double S1, double T2, double S2) : t1(T1), s1(S1), t2(T2), s2(S2) {}
     static inline double TimeBezier(double s, double p1, double p2) { double inv = 1.0 - s; return 3.0*inv*inv*s*p1 + 3.0*inv*s*s*p2 + s*s*s; }
-    static inline double TimeBezierD(double s, double p1, double p2) { double inv = 1.0 - s; return 3.0*inv*inv*(p1)+6.0*inv*s*(p2 - p1) + inv*s*s*p2 + 3.0*s*s*(1.0 - p2); }
+    static inline double TimeBezierD(double s, double p1, double p2) { double inv = 1.0 - s; return 3.0*inv*inv*(p1)+6.0*inv*s*(p2 - p1) + 3.0*s*s*(1.0 - p2); }
 
     template<class T, class D>
     static inline double GetProgress(const AniFrame<T, D>* v, size_t l, size_t cur, double t)
-- 
2.43.0


From 05bcd9d67ba8e0fbfc234f6bc71812d074ab930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:31 +0000
Subject: [PATCH 130/184] fix: derivative of the cubic animation curve

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index 65e2545..61b03cc 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -665,7 +665,7 @@ namespace bss {
 
     static inline T Bezier(double s, const T& p0, const T& p1, const T& p2, const T& p3) { double inv = 1.0 - s; return inv*inv*inv*p0 + 3.0*inv*inv*s*p1 + 3.0*inv*s*s*p2 + s*s*s*p3; }
     template<class U>
-    static inline U BezierD(double s, const U& p0, const U& p1, const U& p2, const U& p3) { double inv = 1.0 - s; return 3.0*inv*inv*(p1 - p0) + 6.0*inv*s*(p2 - p1) + 3.0*inv*s*s*(p3 - p2); }
+    static inline U BezierD(double s, const U& p0, const U& p1, const U& p2, const U& p3) { double inv = 1.0 - s; return 3.0*inv*inv*(p1 - p0) + 6.0*inv*s*(p2 - p1) + 3.0*s*s*(p3 - p2); }
 
     // Almost all points are really just arrays of floats or doubles. This provides a general length function to handle all those cases in any number of dimensions
     template<class U, int I>
-- 
2.43.0


From 66b9acc430cfc9fc72eb1dcd423520df71af823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:31 +0000
Subject: [PATCH 131/184] fix: an event that schedules another one corrupted
 the scheduler, and a negative result hung it

---
 include/bss-util/Scheduler.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/Scheduler.h b/include/bss-util/Scheduler.h
index 7931d8c..abe5e3f 100644
--- a/include/bss-util/Scheduler.h
+++ b/include/bss-util/Scheduler.h
@@ -35,12 +35,15 @@ namespace bss {
 
       while(!BASE::Empty() && BASE::Peek().first <= _time)
       {
-        double r = BASE::Peek().second();
+        std::pair<double, F> event(std::move(BASE::Get(0))); // The event leaves the heap before it runs, because it may schedule others
+        BASE::Remove(0);
+        double r = event.second();
 
-        if(r == 0.0)
-          BASE::Remove(0);
-        else
-          BASE::Set(0, std::pair<double, F>(r + _time, BASE::Peek().second)); // This is why we don't use the actual priority queue data structure
+        if(r > 0.0)
+        {
+          event.first = r + _time;
+          BASE::Insert(std::move(event));
+        }
       }
     }
   };
-- 
2.43.0


From ba762ad40c6d2e5ba229be5ea7155b239199f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:31 +0000
Subject: [PATCH 132/184] fix: a warped timer's nanoseconds moved opposite to
 its milliseconds

---
 bss-util/HighPrecisionTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/HighPrecisionTimer.cpp b/bss-util/HighPrecisionTimer.cpp
index 75e1b84..b8605fb 100644
--- a/bss-util/HighPrecisionTimer.cpp
+++ b/bss-util/HighPrecisionTimer.cpp
@@ -48,7 +48,7 @@ double HighPrecisionTimer::Update(double timewarp)
   _nsDelta = ((newTime - _curTime) * 1000000000) / warpfreq;
 #else
   _delta = (newTime - _curTime) / (1000000 * timewarp);
-  _nsDelta = (uint64_t)((newTime - _curTime)*timewarp);
+  _nsDelta = (uint64_t)((newTime - _curTime) / timewarp);
 #endif
   _curTime = newTime;
   _nsTime += _nsDelta;
-- 
2.43.0


From 9a623f459ba68fec6bdc7ece8f65759cfddf68ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:42 +0000
Subject: [PATCH 133/184] fix: length of an animation curve's derivative used
 only its last component

---
 include/bss-util/Animation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index 61b03cc..3ab3edd 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -618,7 +618,7 @@ namespace bss {
         a += r * r;
       }
 
-      return FastSqrt<U>(r);
+      return FastSqrt<U>(a);
     }
     static inline T QuadraticInterpolateBase(const AniFrame<T, AniQuadData<T, LENGTH>>* v, size_t l, size_t cur, double t, const T& init)
     {
@@ -680,7 +680,7 @@ namespace bss {
         a += r * r;
       }
 
-      return FastSqrt<U>(r);
+      return FastSqrt<U>(a);
     }
     static inline T CubicInterpolateBase(const AniFrame<T, AniCubicData<T, LENGTH>>* v, size_t l, size_t cur, double t, const T& init)
     {
-- 
2.43.0


From 8e672a80a52ddcc66254fe1d2cea5fa6ea17b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 134/184] fix: BitStream::Read merged partial bytes with
 whatever the destination held

---
 include/bss-util/BitStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 0385f31..721b333 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -64,7 +64,7 @@ namespace bss {
       if(!i)
         return;
 
-      d[k] |= (_base->peek() >> _roffset);
+      d[k] = (_base->peek() >> _roffset);
 
       if((_roffset + i) >= 8) // We ran over our current character
       {
-- 
2.43.0


From 07a6d2ecea06ea30e8ec046fd389ed096bd455ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 135/184] fix: BitStream::Read of aligned bytes peeked past the
 last one

---
 include/bss-util/BitStream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 721b333..03bc966 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -58,7 +58,9 @@ namespace bss {
       {
         d[k] = (_base->peek() >> _roffset);
         _base->get(*((char*)&b));
-        d[k++] |= (_base->peek() << (8 - _roffset));
+        if(_roffset) // Only peek at the next character if we need bits from it, it might not exist
+          d[k] |= (_base->peek() << (8 - _roffset));
+        ++k;
       }
 
       if(!i)
-- 
2.43.0


From c26b2fdb11f61b9774250cd80316b87151ef9fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 136/184] fix: BitStream::Flush kept the bits it wrote and
 wrote them again

---
 include/bss-util/BitStream.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 03bc966..27d46e4 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -80,7 +80,13 @@ namespace bss {
     }
     template<typename T>
     void Read(T& dest) { Read(&dest, std::conditional<std::is_same<T, bool>::value, std::integral_constant<int, 1>, std::integral_constant<int, (sizeof(T) << 3)>>::type::value); }
-    void Flush() { if(_woffset) _flush(_base, _buf); }
+    void Flush()
+    {
+      if(_woffset)
+        _flush(_base, _buf);
+      _woffset = 0;
+      _buf = 0;
+    }
 
     BitStream& operator=(const BitStream& copy) { _base = copy._base; return *this; }
     BitStream& operator=(BitStream&& mov) { _base = mov._base; mov._base = 0; return *this; }
-- 
2.43.0


From 5c9042e71618a263f2acb14ba0c73e6b9c70a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 137/184] fix: assigning a BitStream lost the pending bits and
 offsets of both sides

---
 include/bss-util/BitStream.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 27d46e4..842e915 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -88,8 +88,26 @@ namespace bss {
       _buf = 0;
     }
 
-    BitStream& operator=(const BitStream& copy) { _base = copy._base; return *this; }
-    BitStream& operator=(BitStream&& mov) { _base = mov._base; mov._base = 0; return *this; }
+    BitStream& operator=(const BitStream& copy)
+    {
+      if(this == &copy)
+        return *this;
+      if(_base)
+        Flush();
+      _base = copy._base;
+      _buf = copy._buf;
+      _roffset = copy._roffset;
+      _woffset = copy._woffset;
+      return *this;
+    }
+    BitStream& operator=(BitStream&& mov)
+    {
+      if(this == &mov)
+        return *this;
+      operator=(static_cast<const BitStream&>(mov));
+      mov._base = 0;
+      return *this;
+    }
     template<typename T>
     BitStream& operator<<(const T& v) { Write<T>(v); return *this; }
     template<typename T>
-- 
2.43.0


From 4da141910d634c5f682aee48035fb72bdc46874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 138/184] fix: StreamBufArray could not put back bytes above
 127

---
 include/bss-util/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index d37b299..d4948e1 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -93,7 +93,7 @@ namespace bss {
     inline virtual int_type underflow() override { return (_cur == _end) ? traits_type::eof() : traits_type::to_int_type(*_cur); }
     inline virtual int_type pbackfail(int_type ch) override
     {
-      if(_cur == _begin || (ch != traits_type::eof() && ch != _cur[-1]))
+      if(_cur == _begin || (ch != traits_type::eof() && ch != traits_type::to_int_type(_cur[-1])))
         return traits_type::eof();
       return traits_type::to_int_type(*--_cur);
     }
-- 
2.43.0


From 45135c090ee050e74754c7b93aeb0845913707bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 139/184] fix: seeking a memory stream outside its data made it
 read outside its data

---
 include/bss-util/stream.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index d4948e1..00a14cf 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -114,17 +114,19 @@ namespace bss {
       switch(way)
       {
       case std::ios_base::cur:
-        _cur += off;
+        off += _cur - _begin;
         break;
       case std::ios_base::end:
-        _cur = _end + off;
+        off += _end - _begin;
         break;
-      case std::ios_base::beg:
-        _cur = _begin + off;
+      default:
         break;
       }
 
-      return _cur - _begin;
+      if(off < 0 || off > _end - _begin)
+        return pos_type(off_type(-1));
+      _cur = _begin + off;
+      return off;
     }
 
     const char* _begin;
@@ -152,20 +154,23 @@ namespace bss {
     inline virtual pos_type seekpos(pos_type sp_, std::ios_base::openmode which_) override { return seekoff(off_type(sp_), std::ios_base::beg, which_); }
     inline virtual pos_type seekoff(off_type off, std::ios_base::seekdir way, std::ios_base::openmode which_) override
     {	// change position by offset, according to way and mode
+      _fixlength();
       switch(way)
       {
       case std::ios_base::cur:
-        setg(eback(), gptr() + off, egptr());
+        off += gptr() - eback();
         break;
       case std::ios_base::end:
-        setg(eback(), egptr() + off, egptr());
+        off += egptr() - eback();
         break;
-      case std::ios_base::beg:
-        setg(eback(), eback() + off, egptr());
+      default:
         break;
       }
 
-      return gptr() - eback();
+      if(off < 0 || off > egptr() - eback())
+        return pos_type(off_type(-1));
+      setg(eback(), eback() + off, egptr());
+      return off;
     }
     inline virtual int_type underflow() override { return gptr() == egptr() ? traits_type::eof() : traits_type::to_int_type(*gptr()); }
     inline virtual std::streamsize xsgetn(char* s, std::streamsize n) override
-- 
2.43.0


From 4683252f7777b3d963910e4c7fc01d3f13777e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 140/184] fix: StreamBufDynArray lost characters put one at a
 time, its start offset, and the read position of wider elements

---
 include/bss-util/stream.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index 00a14cf..ed1455f 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -172,9 +172,19 @@ namespace bss {
       setg(eback(), eback() + off, egptr());
       return off;
     }
-    inline virtual int_type underflow() override { return gptr() == egptr() ? traits_type::eof() : traits_type::to_int_type(*gptr()); }
+    inline virtual int_type sync() override
+    {
+      _fixlength();
+      return 0;
+    }
+    inline virtual int_type underflow() override
+    {
+      _fixlength();
+      return gptr() == egptr() ? traits_type::eof() : traits_type::to_int_type(*gptr());
+    }
     inline virtual std::streamsize xsgetn(char* s, std::streamsize n) override
     {
+      _fixlength();
       std::streamsize r = egptr() - gptr();
       if(r > n)
         r = n;
@@ -186,14 +196,17 @@ namespace bss {
 
     void _fixlength()
     {
-      _ref._length = (pptr() - eback()) / sizeof(T); // Only set length to the number of fully written indexes
+      _ref._length = (pptr() - reinterpret_cast<char*>(_ref.begin())) / sizeof(T); // Only set length to the number of fully written indexes
       setg(eback(), gptr(), reinterpret_cast<char*>(_ref.end())); // We cast back from end() because we might not have finished writing through all the bytes in T
     }
     void _expand(CType sz)
     {
-      ptrdiff_t goff = gptr() - eback();
+      _fixlength(); // Characters put into the buffer one at a time haven't been counted yet
+      ptrdiff_t boff = eback() - reinterpret_cast<char*>(_ref.begin());
+      ptrdiff_t goff = gptr() - reinterpret_cast<char*>(_ref.begin());
       _ref.SetCapacity(std::max<CType>(fbnext(_ref._length), (sz / sizeof(T)) + _ref._length + 1));
-      setg(reinterpret_cast<char*>(_ref.begin()), reinterpret_cast<char*>(_ref.begin() + goff), reinterpret_cast<char*>(_ref.end()));
+      char* start = reinterpret_cast<char*>(_ref.begin());
+      setg(start + boff, start + goff, reinterpret_cast<char*>(_ref.end()));
       setp(reinterpret_cast<char*>(_ref.end()), reinterpret_cast<char*>(_ref.begin() + _ref.Capacity()));
     }
     inline virtual int_type overflow(int_type ch) override
-- 
2.43.0


From 8f3bd7c07acf8aca353966e5260e932cd931da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 141/184] fix: writing through a stream buffer in several
 pieces reported only the last one, which failed the stream

---
 include/bss-util/stream.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index ed1455f..55b8603 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -237,7 +237,7 @@ namespace bss {
       n -= r;
       s += r;
       if(n)
-        return xsputn(s, n);
+        return r + xsputn(s, n);
       return r;
     }
 
@@ -320,8 +320,8 @@ namespace bss {
       pbump(r);
       n -= r;
       s += r;
-      if(n)
-        return xsputn(s, n);
+      if(n && r)
+        return r + xsputn(s, n);
       return r;
     }
     virtual void _onwrite() = 0; // should read input from _in when appropriate.
-- 
2.43.0


From 8089e484bb5e5c132fe74d71ca2bbe4d8aa3f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 142/184] fix: reading across the end of a StreamBufFunction's
 buffer looked like the end of the stream

---
 include/bss-util/stream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index 55b8603..716c951 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -291,6 +291,8 @@ namespace bss {
       if(r > 0)
         MEMCPY(s, n, gptr(), r);
       setg(eback(), gptr() + r, egptr());
+      if(r > 0 && r < n) // More input might be available
+        return r + xsgetn(s + r, n - r);
       return r;
     }
     inline virtual int_type overflow(int_type ch) override
-- 
2.43.0


From b91051274c966e05ba6e863fb1f84d79e5e71e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:48 +0000
Subject: [PATCH 143/184] fix: Logger::SetLevel dropped the levels above it and
 did not make room for new ones

---
 bss-util/Logger.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 4b7e255..bf6bec8 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -103,8 +103,13 @@ void Logger::SetNullFormat(const char* format)
 
 void Logger::SetLevel(uint8_t level, const char* str)
 {
-  if(_levels.Capacity() >= level)
+  uint8_t i = _levels.Capacity();
+  if(i <= level)
+  {
     _levels.SetCapacity(level + 1);
+    for(; i < level; ++i)
+      _levels[i] = "";
+  }
   _levels[level] = str;
 }
 void Logger::SetMaxLevel(uint8_t level)
-- 
2.43.0


From 0ff36914e0f3096df44f4587b00674b59d538194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:48 +0000
Subject: [PATCH 144/184] fix: a stream assimilated twice was left with the
 destroyed logger's buffer

---
 bss-util/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index bf6bec8..9ac38e1 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -46,7 +46,7 @@ Logger::Logger(const wchar_t* logfile, std::ostream* log) : _levels(6), _split(n
 Logger::~Logger()
 {
   ClearTargets();
-  for(size_t i = 0; i < _backup.size(); ++i) //restore stream buffer backups so we don't blow up someone else's stream when destroying ourselves
+  for(size_t i = _backup.size(); i-- > 0;) //restore stream buffer backups (latest first) so we don't blow up someone else's stream when destroying ourselves
     _backup[i].first.rdbuf(_backup[i].second);
   if(_split != 0) delete _split;
 }
-- 
2.43.0


From baff39150f488663dad33400fdbc92554ea630af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:48 +0000
Subject: [PATCH 145/184] fix: move assigning a Logger leaked its buffer, left
 assimilated streams behind and dropped levels and formats

---
 bss-util/Logger.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 9ac38e1..0ba4fc4 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -146,9 +146,20 @@ bool Logger::_writeDateTime(long timez, std::ostream& log, bool timeonly)
 }
 Logger& Logger::operator=(Logger&& right)
 {
+  if(this == &right)
+    return *this;
+  ClearTargets();
+  for(size_t i = _backup.size(); i-- > 0;)
+    _backup[i].first.rdbuf(_backup[i].second);
+  if(_split != 0) delete _split;
   _tz = GetTimeZoneMinutes();
+  _levels = std::move(right._levels);
+  _maxlevel = right._maxlevel;
+  _format = right._format;
+  _nullformat = right._nullformat;
   _files = std::move(right._files);
-  _backup = std::move(right._backup);
+  _backup.swap(right._backup);
+  right._backup.clear();
   _split = right._split;
   right._split = 0;
   _stream.rdbuf(_split);
-- 
2.43.0


From 162ce02d3fc8531a6527eb60e877cecb33928d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:48 +0000
Subject: [PATCH 146/184] fix: a log entry without a source and without a null
 format stopped the log

---
 bss-util/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 0ba4fc4..a578fed 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -200,7 +200,7 @@ void Logger::_header(std::ostream& o, int n, const char* source, const char* fil
 {
   switch(n)
   {
-  case 0: o << source; break;
+  case 0: if(source) o << source; break;
   case 1: o << file; break;
   case 2: o << line; break;
   case 3: o << level; break;
-- 
2.43.0


From 64b0cfd80a7697921132ab107566e5b6b4b5c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:48 +0000
Subject: [PATCH 147/184] fix: GetTimeZoneMinutes always returned UTC on POSIX,
 and logs combined the local time with the UTC date

---
 bss-util/Logger.cpp   | 6 +++---
 bss-util/bss_util.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index a578fed..f9f51f8 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -121,14 +121,14 @@ bool Logger::_writeDateTime(long timez, std::ostream& log, bool timeonly)
 {
   time_t rawtime;
   TIME64(&rawtime);
+  rawtime += timez * 60; // Shift the whole date, not just the time of day
   tm stm;
   tm* ptm = &stm;
   if(GMTIMEFUNC(&rawtime, ptm) != 0)
     return false;
 
-  long m = ptm->tm_hour * 60 + ptm->tm_min + 1440 + timez; //+1440 ensures this is never negative because % does not properly respond to negative numbers.
-  long h = ((m / 60) % 24);
-  m %= 60;
+  long m = ptm->tm_min;
+  long h = ptm->tm_hour;
 
   char logchar = log.fill();
   std::streamsize logwidth = log.width();
diff --git a/bss-util/bss_util.cpp b/bss-util/bss_util.cpp
index bf41998..4daf068 100644
--- a/bss-util/bss_util.cpp
+++ b/bss-util/bss_util.cpp
@@ -173,9 +173,9 @@ long GetTimeZoneMinutes()
   time_t rawtime;
   TIME64(&rawtime);
   tm stm;
-  if(GMTIMEFUNC(&rawtime, &stm) != 0)
+  if(localtime_r(&rawtime, &stm) == 0)
     return 0;
-  return stm.tm_gmtoff;
+  return stm.tm_gmtoff / 60;
 #endif
 }
 
-- 
2.43.0


From 14922b4d130c0fa640222e3a78309ec27aac92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:48 +0000
Subject: [PATCH 148/184] fix: GetFontPath returned a string without a
 terminator

---
 bss-util/bss_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/bss_util.cpp b/bss-util/bss_util.cpp
index 4daf068..f767fc1 100644
--- a/bss-util/bss_util.cpp
+++ b/bss-util/bss_util.cpp
@@ -494,8 +494,8 @@ std::unique_ptr<char[], bss::bssDLLDelete<char[]>> bss::GetFontPath(const char*
     if(FcPatternGetString(font, FC_FILE, 0, &file) == FcResultMatch)
     {
       size_t len = strlen((char*)file);
-      p.reset(new char[len]);
-      memcpy(p.get(), file, len);
+      p.reset(new char[len + 1]);
+      memcpy(p.get(), file, len + 1);
     }
     FcPatternDestroy(font);
   }
-- 
2.43.0


From 06ff18e14fb81197627cb927c665e28e829dac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:48 +0000
Subject: [PATCH 149/184] fix: the profiler's flat output put sorted times next
 to unsorted names

---
 bss-util/profiler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index 45766ba..5283074 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -41,6 +41,7 @@ namespace bss {
       double avg;
       double var;
       uint64_t total;
+      Profiler::ProfilerInt id;
     };
   }
 }
@@ -87,10 +88,13 @@ void Profiler::WriteToStream(std::ostream& stream, uint8_t output)
     PROF_FLATOUT* avg = (PROF_FLATOUT*)calloc(_data.Capacity(), sizeof(PROF_FLATOUT));
     if(!avg) return;
     _flatOut(avg, _trie, 0, 0);
+    for(ProfilerInt i = 0; i < _data.Capacity(); ++i)
+      avg[i].id = i;
     std::sort(avg + 1, avg + _data.Capacity(), [](const PROF_FLATOUT& l, const PROF_FLATOUT& r) -> bool { return l.avg > r.avg; });
     for(ProfilerInt i = 1; i < _data.Capacity(); ++i)
     {
-      stream << '[' << _trimPath(_data[i]->file) << ':' << _data[i]->line << "] " << _data[i]->name << ": ";
+      ProfilerData* data = _data[avg[i].id];
+      stream << '[' << _trimPath(data->file) << ':' << data->line << "] " << data->name << ": ";
       _timeFormat(stream, avg[i].avg, avg[i].var, avg[i].total);
       stream << std::endl;
     }
-- 
2.43.0


From 825a054bbd9926f7e2ad24230084fc6060212372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:17 +0000
Subject: [PATCH 150/184] fix: the profiler's heat output never ended if
 everything took no time

---
 bss-util/profiler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index 5283074..fc11f21 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -173,9 +173,13 @@ void Profiler::_heatWrite(std::ostream& stream, PROF_HEATNODE& node, size_t leve
     double mag1 = pow(max, 1.0 / 4.0);
     double mag2 = pow(max, 2.0 / 4.0);
     double mag3 = pow(max, 3.0 / 4.0);
-    size_t num = fFastTruncate(std::min(node.avg / mag1, 10.0));
-    num += fFastTruncate(std::min(node.avg / mag2, 10.0));
-    num += fFastTruncate(std::min(node.avg / mag3, 10.0));
+    size_t num = 0;
+    if(max > 0.0) // If everything took no time at all these are all 0/0
+    {
+      num = fFastTruncate(std::min(node.avg / mag1, 10.0));
+      num += fFastTruncate(std::min(node.avg / mag2, 10.0));
+      num += fFastTruncate(std::min(node.avg / mag3, 10.0));
+    }
     char bar[BARLENGTH + 1] = {};
     bssFillN<char>(bar, BARLENGTH, ' ');
     for(size_t i = 0; i < num; ++i)
-- 
2.43.0


From 2a336d76d3dba1f0790d2393aac1b8fc90821faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:15 +0000
Subject: [PATCH 151/184] fix: DynArray<bool>::GetRawByte masked only the last
 storage byte, leaving unused bits of others set

---
 include/bss-util/DynArray.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index ff70d8b..62a8de7 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -245,7 +245,13 @@ namespace bss {
     BSS_FORCEINLINE bool operator[](CT index) const { assert(index < _length); return (_array[(index / DIV_AMT)] & (((STORE)1) << (index&MOD_AMT))) != 0; }
     BSS_FORCEINLINE BITREF operator[](CT index) { assert(index < _length); return GetBit(index); }
     // This gets the raw storage byte in such a way that unused bits are always set to zero. Useful for debugging.
-    inline STORE GetRawByte(CT index) const { assert(index < _capacity); return (index < (_capacity - 1)) ? _array[index] : (_array[index] & ((STORE)(~0) >> ((_capacity*DIV_AMT) - _length))); }
+    inline STORE GetRawByte(CT index) const
+    {
+      assert(index < _capacity);
+      CT begin = index * DIV_AMT;
+      if(begin >= _length) return 0;
+      return (_length - begin >= DIV_AMT) ? _array[index] : (STORE)(_array[index] & ((STORE)(~0) >> (DIV_AMT - (_length - begin))));
+    }
 
     BSS_FORCEINLINE internal::_BIT_ITER<const BITREF> begin() const { return GetBit(0); }
     BSS_FORCEINLINE internal::_BIT_ITER<const BITREF> end() const { return GetBit(_length); }
-- 
2.43.0


From 88cf800a8287aea51f19c47265c8b935cec4e456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:57 +0000
Subject: [PATCH 152/184] fix: an event whose result lies in the past runs
 again at once, as any result but zero asks for another run

---
 include/bss-util/Scheduler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Scheduler.h b/include/bss-util/Scheduler.h
index abe5e3f..48dd84e 100644
--- a/include/bss-util/Scheduler.h
+++ b/include/bss-util/Scheduler.h
@@ -39,7 +39,7 @@ namespace bss {
         BASE::Remove(0);
         double r = event.second();
 
-        if(r > 0.0)
+        if(r != 0.0)
         {
           event.first = r + _time;
           BASE::Insert(std::move(event));
-- 
2.43.0


From 6c3ada3adbad2bf88d976a39dae780ac9f24fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:42 +0000
Subject: [PATCH 153/184] fix: a disjoint set that was move-assigned from still
 counted its old sets

---
 include/bss-util/DisjointSet.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index b484dcf..f2966a4 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -187,6 +187,7 @@ namespace bss {
     {
       ARRAY::operator=(std::move(mov)); 
       _numsets = mov._numsets;
+      mov._numsets = 0;
       return *this;
     }
 
-- 
2.43.0


From 76a6be01ca23b6c4f1f7b88930b5b0f73661002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:42 +0000
Subject: [PATCH 154/184] fix: sorted arrays and hash sets could not be
 deserialized, their element functions did not compile

---
 include/bss-util/ArraySort.h | 2 +-
 include/bss-util/Hash.h      | 2 +-
 include/bss-util/TOML.h      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/ArraySort.h b/include/bss-util/ArraySort.h
index 3fa9178..23c5513 100644
--- a/include/bss-util/ArraySort.h
+++ b/include/bss-util/ArraySort.h
@@ -118,7 +118,7 @@ namespace bss {
     {
       T x;
       Serializer<Engine>::template ActionBind<T>::Parse(e, x, 0);
-      Insert(x);
+      obj.Insert(x);
     }
     template<typename U>
     CT _insert(U && item)
diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index 6314dde..36f1ff5 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -394,7 +394,7 @@ namespace bss {
     static inline void _serializeAdd(Serializer<Engine>& e, Hash& obj, int& n)
     {
       Key key;
-      Serializer<Engine>::template ActionBind<Engine, Key>::Parse(e, key, 0);
+      Serializer<Engine>::template ActionBind<Key>::Parse(e, key, 0);
       obj.Insert(std::move(key));
     }
     BSS_FORCEINLINE bool _exists(khiter_t iterator) const { return !__ac_iseither(flags, iterator); }
diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index a82e466..99ad92e 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -647,7 +647,7 @@ namespace bss {
     if(e.engine.state > STATE_NORMAL && e.in->peek() == '.') // If this happens, we are attempting to access an array
     {
       auto end = std::end(obj);
-      if constexpr(std::is_lvalue_reference<decltype(*--end)>::value) // Bit references can't be tables
+      if constexpr(std::is_lvalue_reference<decltype(*--end)>::value && !std::is_const<std::remove_reference_t<decltype(*--end)>>::value) // Bit references and the keys of a set can't be tables
       {
         if(HasElements(obj, 0))
           Serializer<TOMLEngine>::ActionBind<E>::Parse(e, *--end, id);
-- 
2.43.0


From 3449f2c8e1dccf4ae248e75abb927aa71b087735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:45 +0000
Subject: [PATCH 155/184] fix: a stack could not be copied or moved, its
 constructors passed the stack itself to its array

---
 include/bss-util/Stack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Stack.h b/include/bss-util/Stack.h
index 9d853d6..8b8a822 100644
--- a/include/bss-util/Stack.h
+++ b/include/bss-util/Stack.h
@@ -12,8 +12,8 @@ namespace bss {
   class BSS_COMPILER_DLLEXPORT Stack
   {
   public:
-    inline Stack(const Stack& copy) : _array(copy) {}
-    inline Stack(Stack&& mov) : _array(std::move(mov)) {}
+    inline Stack(const Stack& copy) : _array(copy._array) {}
+    inline Stack(Stack&& mov) : _array(std::move(mov._array)) {}
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline Stack(CType init, typename Alloc::policy_type* policy) : _array(init, policy) {}
     inline explicit Stack(CType init = 0) : _array(init) {}
-- 
2.43.0


From 47c5b8c5c3217ca16958638a6c1f6a918ac81378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:49 +0000
Subject: [PATCH 156/184] fix: disjoint sets could not be copied, assigned or
 extended, those members did not compile and did not keep the number of sets

---
 include/bss-util/DisjointSet.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index f2966a4..4176ed8 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -20,9 +20,9 @@ namespace bss {
 
   public:
     // Construct a disjoint set with num initial sets
-    inline DisjointSet(const DisjointSet& copy) : ARRAY(copy.Capacity(), copy), _numsets(copy._numsets) 
+    inline DisjointSet(const DisjointSet& copy) : ARRAY(copy._capacity, copy), _numsets(copy._numsets) 
     { 
-      memcpy(_array, copy._array, _capacity); 
+      memcpy(_array, copy._array, _capacity * sizeof(Ty)); 
     }
     inline DisjointSet(DisjointSet&& mov) : ARRAY(std::move(mov)), _numsets(mov._numsets) { mov._numsets = 0; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
@@ -100,7 +100,8 @@ namespace bss {
     inline void AddSets(T n)
     {
       T i = _capacity;
-      SetCapacity(_capacity + n);
+      ARRAY::_setCapacity(_capacity + n);
+      _numsets += n;
 
       for(; i < _capacity; ++i)
         _array[i] = -1;
@@ -178,8 +179,10 @@ namespace bss {
 
     inline DisjointSet& operator=(const DisjointSet& copy) 
     {
-      SetCapacityDiscard(copy._capacity);
-      memcpy(_array, copy._array, _capacity * sizeof(T));
+      if(this == &copy)
+        return *this;
+      ARRAY::_setCapacityDiscard(copy._capacity);
+      memcpy(_array, copy._array, _capacity * sizeof(Ty));
       _numsets = copy._numsets;
       return *this;
     }
-- 
2.43.0


From ea99b1b92a8da1f86e91042b2aeaed289d11dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:58 +0000
Subject: [PATCH 157/184] fix: a priority heap that had been moved from by
 assignment kept its list of free handles and broke on the next push

---
 include/bss-util/PriorityQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/PriorityQueue.h b/include/bss-util/PriorityQueue.h
index d3e6d12..3c53466 100644
--- a/include/bss-util/PriorityQueue.h
+++ b/include/bss-util/PriorityQueue.h
@@ -93,6 +93,7 @@ namespace bss {
     { 
       BASE::operator=(std::move(mov)); 
       _freelist = mov._freelist; 
+      mov._freelist = (CT_)-1;
       return *this; 
     }
 
-- 
2.43.0


From 492519ff500d96117f65b04a045dab0969793ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:44 +0000
Subject: [PATCH 158/184] fix: traversing an AA tree did not compile and would
 not have stopped at the leaves

---
 include/bss-util/AATree.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 6822b75..d82ceb5 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -87,9 +87,10 @@ namespace bss {
     template<void(*FACTION)(T&)>
     inline void _traverse(AANODE<T>* n)
     {
-      _traverse(n->left);
+      if(n == _sentinel) return;
+      _traverse<FACTION>(n->left);
       FACTION(n->data);
-      _traverse(n->right);
+      _traverse<FACTION>(n->right);
     }
     inline void _skew(AANODE<T>*& n)
     {
-- 
2.43.0


From b628f0bea29efc536280833bf71b433810139a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:44 +0000
Subject: [PATCH 159/184] fix: copying an AA tree shared its nodes and freed
 them twice, like the other trees it cannot be copied

---
 include/bss-util/AATree.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index d82ceb5..3f54fdf 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -21,6 +21,9 @@ namespace bss {
   template<typename T, char(*CFunc)(const T&, const T&) = CompT<T>, typename Alloc = PolymorphicAllocator<AANODE<T>, BlockPolicy>>
   class AATree : Alloc
   {
+    AATree(const AATree&) = delete;
+    AATree& operator=(const AATree&) = delete;
+
   public:
     inline AATree() : _sentinel(Alloc::allocate(1))
     {
-- 
2.43.0


From cf45537db838b5d2a2af728bd6fa80fa8aad1100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:15 +0000
Subject: [PATCH 160/184] fix: assigning an owning pointer to itself deleted
 the object it kept pointing to

---
 include/bss-util/SmartPtr.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bss-util/SmartPtr.h b/include/bss-util/SmartPtr.h
index 4ec970c..1dd8133 100644
--- a/include/bss-util/SmartPtr.h
+++ b/include/bss-util/SmartPtr.h
@@ -47,6 +47,8 @@ namespace bss {
     }
     inline OwnerPtr& operator=(const OwnerPtr& right)
     {
+      if(this == &right)
+        return *this;
       _disown();
       _p = right._p;
       _owner = false;
@@ -61,6 +63,8 @@ namespace bss {
     }
     inline OwnerPtr& operator=(OwnerPtr&& right)
     { 
+      if(this == &right)
+        return *this;
       _disown(); 
       _p = right._p; 
       _owner = right._owner; 
-- 
2.43.0


From a9500ae8c2f1042c1c316fbc4287efe425dfefc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:48 +0000
Subject: [PATCH 161/184] fix: assigning an array to itself destroyed its
 elements before copying them

---
 include/bss-util/Array.h    | 2 ++
 include/bss-util/DynArray.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 261411f..7676111 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -342,6 +342,8 @@ namespace bss {
 
     BSS_FORCEINLINE Array& operator=(const Array& copy) noexcept
     {
+      if(this == &copy)
+        return *this;
       BASE::_setLength(_array, _capacity, 0);
       BASE::_setCapacityDiscard(copy._capacity);
       BASE::_copy(_array, copy._array, _capacity);
diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 62a8de7..976e758 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -98,6 +98,8 @@ namespace bss {
     inline DynArray& operator=(Array<T, CT, ArrayType, Alloc>&& mov) { BASE::_setLength(_array, _length, 0); BASE::operator=(std::move(mov)); _length = mov._capacity; return *this; }
     inline DynArray& operator=(const DynArray& copy)
     {
+      if(this == &copy)
+        return *this;
       BASE::_setLength(_array, _length, 0);
       if(copy._length > _capacity)
         BASE::_setCapacityDiscard(copy._capacity);
-- 
2.43.0


From 3113456fe599b51e1daad1840d9ac88ce7cfe402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:48 +0000
Subject: [PATCH 162/184] fix: appending an array to itself copied twice its
 length, past the end of its storage

---
 include/bss-util/Array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 7676111..d4ee94c 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -363,8 +363,9 @@ namespace bss {
     BSS_FORCEINLINE Array& operator +=(const Array& add) noexcept
     {
       CT old = _capacity;
-      BASE::_setCapacity(_capacity + add._capacity, _capacity);
-      BASE::_copy(_array + old, add._array, add._capacity);
+      CT num = add._capacity; // add might be this array, whose capacity is about to change
+      BASE::_setCapacity(_capacity + num, _capacity);
+      BASE::_copy(_array + old, add._array, num);
       return *this;
     }
     BSS_FORCEINLINE Array operator +(const Array& add) const noexcept { Array r(*this); return (r += add); }
-- 
2.43.0


From 81ae8215ca6404e5a0754d7b5a282698b2f063e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:12 +0000
Subject: [PATCH 163/184] fix: assigning a circular array or a hash to itself
 emptied it

---
 include/bss-util/ArrayCircular.h | 2 ++
 include/bss-util/Hash.h          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/bss-util/ArrayCircular.h b/include/bss-util/ArrayCircular.h
index 3f7fa0d..e0ff6b1 100644
--- a/include/bss-util/ArrayCircular.h
+++ b/include/bss-util/ArrayCircular.h
@@ -100,6 +100,8 @@ namespace bss {
     BSS_FORCEINLINE const T& operator[](CT index) const { return _array[_modIndex(index)]; }
     inline ArrayCircular& operator=(const ArrayCircular& right)
     {
+      if(this == &right)
+        return *this;
       Clear();
       BASE::_setCapacityDiscard(right._capacity);
       _cur = right._cur;
diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index 36f1ff5..3c4c153 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -305,6 +305,8 @@ namespace bss {
 
     Hash& operator=(const Hash& copy)
     {
+      if(this == &copy)
+        return *this;
       Clear();
       if(!copy.n_buckets)
       {
-- 
2.43.0


From 3b9886bb7df35ef834bb9ed3a0a7a496fc39708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:34 +0000
Subject: [PATCH 164/184] fix: assigning an alias table to itself replaced its
 contents with uninitialized memory

---
 include/bss-util/AliasTable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/AliasTable.h b/include/bss-util/AliasTable.h
index b5c18a1..271a51f 100644
--- a/include/bss-util/AliasTable.h
+++ b/include/bss-util/AliasTable.h
@@ -107,6 +107,8 @@ namespace bss {
 
     inline AliasTable& operator=(const AliasTable& copy)
     {
+      if(this == &copy)
+        return *this;
       _count = copy._count;
       _dist = copy._dist;
       _fdist = copy._fdist;
-- 
2.43.0


From eab2d4c85c713e1a6f72dbaa71fd3517861c3fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:33 +0000
Subject: [PATCH 165/184] fix: assigning an XML node to itself or from one of
 its descendants destroyed the source before it was copied

---
 bss-util/XML.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index aa014e7..2587180 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -76,15 +76,7 @@ XMLNode::XMLNode(std::istream& stream) { Str buf; _parse(stream, buf); next = 0;
 
 XMLNode& XMLNode::operator=(const XMLNode& copy)
 {
-  _attributes = copy._attributes;
-  _attrhash = copy._attrhash;
-  _value = copy._value;
-  _name = copy._name;
-  _nodes.Clear();
-  _nodehash.Clear();
-  for(size_t i = 0; i < copy._nodes.Length(); ++i)
-    AddNode(*copy._nodes[i].get());
-  return *this;
+  return operator=(XMLNode(copy)); // copy might be this node or one of its descendants, so it must be copied before anything is destroyed
 }
 XMLNode& XMLNode::operator=(XMLNode&& mov)
 {
-- 
2.43.0


From c5b0aeccd238449c2248cb2490746989dda8be50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:43 +0000
Subject: [PATCH 166/184] fix: a part of a slice could not be taken: the const
 form called itself forever, the other one did not compile with assertions and
 counted a negative end away from the end of the slice

---
 include/bss-util/Array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index d4ee94c..8be8445 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -44,15 +44,15 @@ namespace bss {
       return r; 
     }
     inline const Slice operator()(CType begin) const { return operator()(begin, length); }
-    inline const Slice operator()(CType begin, CType end) const { return operator()(begin, length); }
+    inline const Slice operator()(CType begin, CType end) const { return Slice(*this)(begin, end); }
     inline Slice operator()(CType begin) { return operator()(begin, length); }
     inline Slice operator()(CType begin, CType end)
     {
-      assert(abs(begin) < length);
+      assert(begin < length && (std::is_unsigned<CType>::value || -begin < length));
       assert(end <= length);
       begin = bssMod(begin, length);
-      if(end <= 0) end = length - end;
-      assert(end >= start);
+      if(end <= 0) end = length + end;
+      assert(end >= begin);
       return Slice(start + begin, end - begin);
     }
     inline bool operator!() const noexcept { return !start || !length; }
-- 
2.43.0


From 43adf9b3002ce9432f5acde0f2b9f0e4262117cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:43 +0000
Subject: [PATCH 167/184] fix: the typed accessors of ArbitraryArray converted
 the first byte of an element (or did not compile) instead of referring to the
 element

---
 include/bss-util/DynArray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 976e758..afb62bd 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -420,14 +420,14 @@ namespace bss {
     inline void SetLength(CT length) { _length = length; length *= _element; if(length > _capacity) BASE::_setCapacity(length); }
     inline CT Length() const { return _length; }
     // These are templatized accessors, but we don't do an assertion on if the size of T is the same as _element, because there are many cases where this isn't actually true.
-    template<typename T> inline const T& Front() const { assert(_length > 0); return _array[0]; }
-    template<typename T> inline const T& Back() const { assert(_length > 0); return _array[(_length - 1)*_element]; }
-    template<typename T> inline T& Front() { assert(_length > 0); return _array[0]; }
-    template<typename T> inline T& Back() { assert(_length > 0); return _array[(_length - 1)*_element]; }
-    template<typename T> inline const T* begin() const { return _array; }
-    template<typename T> inline const T* end() const { return _array + (_length*_element); }
-    template<typename T> inline T* begin() { return _array; }
-    template<typename T> inline T* end() { return _array + (_length*_element); }
+    template<typename T> inline const T& Front() const { assert(_length > 0); return Get<T>(0); }
+    template<typename T> inline const T& Back() const { assert(_length > 0); return Get<T>(_length - 1); }
+    template<typename T> inline T& Front() { assert(_length > 0); return Get<T>(0); }
+    template<typename T> inline T& Back() { assert(_length > 0); return Get<T>(_length - 1); }
+    template<typename T> inline const T* begin() const { return (const T*)_array; }
+    template<typename T> inline const T* end() const { return (const T*)(_array + (_length*_element)); }
+    template<typename T> inline T* begin() { return (T*)_array; }
+    template<typename T> inline T* end() { return (T*)(_array + (_length*_element)); }
     template<typename T> inline const T& Get(CT index) const { return *(T*)Get(index); }
     template<typename T> inline T& Get(CT index) { return *(T*)Get(index); }
     BSS_FORCEINLINE const void* Get(CT index) const { assert(index < _length); return (_array + (index*_element)); }
-- 
2.43.0


From d68b1ce42ad4753ab164b098fbb649a6de69472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:13 +0000
Subject: [PATCH 168/184] fix: ArbitraryArray lost its contents when assigned
 to itself, kept a length after being moved from, and did not accept a
 std::array

---
 include/bss-util/DynArray.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index afb62bd..3b90e85 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -357,7 +357,7 @@ namespace bss {
 
   public:
     inline ArbitraryArray(const ArbitraryArray& copy) : BASE(copy._capacity), _length(copy._length), _element(copy._element) { memcpy(_array, copy._array, _length*_element); }
-    inline ArbitraryArray(ArbitraryArray&& mov) : BASE(std::move(mov)), _length(mov._length), _element(mov._element) {}
+    inline ArbitraryArray(ArbitraryArray&& mov) : BASE(std::move(mov)), _length(mov._length), _element(mov._element) { mov._length = 0; }
     inline ArbitraryArray(CT size = 0, CT element = 1) : BASE(size*element), _length(0), _element(element) {}
     template<typename T>
     inline CT Add(const T& item)
@@ -392,7 +392,7 @@ namespace bss {
     BSS_FORCEINLINE void SetElement(const T* newarray, CT num) { SetElement(newarray, sizeof(T), num); }
     template<typename T, int NUM>
     BSS_FORCEINLINE void SetElement(const T(&newarray)[NUM]) { SetElement(newarray, sizeof(T), NUM); }
-    template<typename T, int NUM>
+    template<typename T, size_t NUM>
     BSS_FORCEINLINE void SetElement(const std::array<T, NUM>& newarray) { SetElement(newarray.data(), sizeof(T), NUM); }
     void SetElement(CT element)
     {
@@ -437,6 +437,8 @@ namespace bss {
     inline void* operator[](CT index) { return Get(index); }
     inline ArbitraryArray& operator=(const ArbitraryArray& copy) 
     { 
+      if(this == &copy)
+        return *this;
       BASE::_setCapacityDiscard(copy._capacity);
       memcpy(_array, copy._array, _capacity);
       _length = copy._length; 
@@ -445,9 +447,12 @@ namespace bss {
     }
     inline ArbitraryArray& operator=(ArbitraryArray&& mov) 
     { 
+      if(this == &mov)
+        return *this;
       BASE::operator=(std::move(mov)); 
       _length = mov._length;
       _element = mov._element; 
+      mov._length = 0;
       return *this; 
     }
 
-- 
2.43.0


From 5e96e39a8decc4439454768fd8da05f793e054c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:44 +0000
Subject: [PATCH 169/184] fix: a slice counted in an unsigned type, the
 default, could not be divided

---
 include/bss-util/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 8be8445..0125b4e 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -50,7 +50,7 @@ namespace bss {
     {
       assert(begin < length && (std::is_unsigned<CType>::value || -begin < length));
       assert(end <= length);
-      begin = bssMod(begin, length);
+      if(begin < 0) begin = length + begin;
       if(end <= 0) end = length + end;
       assert(end >= begin);
       return Slice(start + begin, end - begin);
-- 
2.43.0


From 99773aeb9539fd4c1d29468c9c59e194558afc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:26 +0000
Subject: [PATCH 170/184] fix: a linked list that is const could not be
 iterated, its begin() and end() did not compile

---
 include/bss-util/LinkedList.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/LinkedList.h b/include/bss-util/LinkedList.h
index 66d854b..f9fd1b5 100644
--- a/include/bss-util/LinkedList.h
+++ b/include/bss-util/LinkedList.h
@@ -25,7 +25,7 @@ namespace bss {
 
   public:
     inline LLIter() : cur(0) {}
-    inline explicit LLIter(LLNode<T>* node) : cur(node) {}
+    inline explicit LLIter(LLNode<std::remove_const_t<T>>* node) : cur(node) {}
     inline reference operator*() const { return cur->item; }
     inline pointer operator->() const { return &cur->item; }
     inline LLIter& operator++() { cur = cur->next; return *this; } //prefix
@@ -37,7 +37,7 @@ namespace bss {
     inline bool operator!() const { return !cur; }
     inline bool IsValid() { return cur != 0; }
 
-    LLNode<T>* cur;
+    LLNode<std::remove_const_t<T>>* cur;
   }; // Remove a node by doing LinkedList.Remove(iter++);
 
   namespace internal {
-- 
2.43.0


From 417f42d21a61add7c0131a68736e786968f22982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:37 +0000
Subject: [PATCH 171/184] fix: a linked list could not be copied (its copy
 operations did not compile) and one with a last pointer or a size could not
 be moved; adding one to itself did not end

---
 include/bss-util/LinkedList.h | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/LinkedList.h b/include/bss-util/LinkedList.h
index f9fd1b5..f5e0fd6 100644
--- a/include/bss-util/LinkedList.h
+++ b/include/bss-util/LinkedList.h
@@ -126,8 +126,8 @@ namespace bss {
     inline explicit LinkedList(typename Alloc::policy_type* policy) : Alloc(policy) {}
     inline LinkedList() {}
     // Copy constructor
-    inline LinkedList(const LinkedList<T, Alloc>& copy) : Alloc(copy) { operator =(copy); }
-    inline LinkedList(LinkedList<T, Alloc>&& mov) : Alloc(std::move(mov)), internal::LList_LAST<T, useLast>(std::move(mov))
+    inline LinkedList(const LinkedList& copy) : Alloc(copy) { _copyNodes(copy._root); }
+    inline LinkedList(LinkedList&& mov) : Alloc(std::move(mov)), internal::LList_LAST<T, useLast>(std::move(mov))
     {
       internal::LList_SIZE<useSize>::operator=(mov);
       mov._zerosize();
@@ -198,14 +198,15 @@ namespace bss {
     inline LLIter<T> end() { return LLIter<T>(0); }
 
     template<typename U, bool V>
-    inline LinkedList& operator =(const LinkedList<T, U, useLast, V>& right) { if(&right == this) return *this; Clear(); return operator +=(right); }
-    template<typename U, bool V>
-    inline LinkedList& operator =(LinkedList<T, U, useLast, V>&& mov)
+    inline LinkedList& operator =(const LinkedList<T, U, useLast, V>& right) { Clear(); _copyNodes(right.Front()); return *this; }
+    inline LinkedList& operator =(const LinkedList& right) { if(&right == this) return *this; Clear(); _copyNodes(right._root); return *this; }
+    inline LinkedList& operator =(LinkedList&& mov)
     {
       if(&mov == this)
         return *this;
 
       Clear();
+      Alloc::operator=(std::move(mov));
       internal::LList_LAST<T, useLast>::operator=(std::move(mov));
       internal::LList_SIZE<useSize>::operator=(mov);
       mov._zerosize();
@@ -214,8 +215,15 @@ namespace bss {
     template<typename U, bool L, bool V>
     inline LinkedList& operator +=(const LinkedList<T, U, L, V>& right)
     {
-      for(LLNode<T>* cur = right._root; cur != 0; cur = cur->next)
+      const LLNode<T>* last = 0;
+      if constexpr(L)
+        last = right.Back(); // If the list is added to itself, the new nodes must not be added again
+      for(LLNode<T>* cur = right.Front(); cur != 0; cur = cur->next)
+      {
         Add(cur->item);
+        if(cur == last)
+          break;
+      }
 
       return *this;
     }
@@ -227,6 +235,20 @@ namespace bss {
     }
 
   protected:
+    inline void _copyNodes(const LLNode<T>* from) // Only valid on an empty list
+    {
+      LLNode<T>* last = 0;
+      for(; from != 0; from = from->next)
+      {
+        LLNode<T>* node = _createNode(from->item, last);
+        if(last) last->next = node;
+        else _root = node;
+        last = node;
+        _incsize();
+      }
+      if constexpr(useLast)
+        internal::LList_LAST<T, useLast>::_last = last;
+    }
     inline LLNode<T>* _createNode(T _item, LLNode<T>* _prev = 0, LLNode<T>* _next = 0)
     {
       LLNode<T>* retval = Alloc::allocate(1);
-- 
2.43.0


From 18319afd9952456945d0f5229489914e9e238788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:37 +0000
Subject: [PATCH 172/184] fix: clearing a linked list erased the pointer to its
 allocation policy, so the next insertion crashed

---
 include/bss-util/LinkedList.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/LinkedList.h b/include/bss-util/LinkedList.h
index f5e0fd6..eb4e673 100644
--- a/include/bss-util/LinkedList.h
+++ b/include/bss-util/LinkedList.h
@@ -188,7 +188,10 @@ namespace bss {
         hold = nexthold;
       }
 
-      bssFill(*this, 0);
+      _root = 0; // The allocator must survive this
+      if constexpr(useLast)
+        internal::LList_LAST<T, useLast>::_last = 0;
+      internal::LList_SIZE<useSize>::_zerosize();
     }
 
     inline LLNode<T>* Front() const { return _root; }
-- 
2.43.0


From 8fe7e727c35bcc3628d9a0f1a6f43ebe3185be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:37 +0000
Subject: [PATCH 173/184] fix: linked lists assigned to items that had never
 been constructed and never destroyed them

---
 include/bss-util/LinkedList.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/LinkedList.h b/include/bss-util/LinkedList.h
index eb4e673..23dfb1e 100644
--- a/include/bss-util/LinkedList.h
+++ b/include/bss-util/LinkedList.h
@@ -137,8 +137,7 @@ namespace bss {
     // Appends the item to the end of the list
     inline LLNode<T>* Add(T item)
     {
-      LLNode<T>* node = Alloc::allocate(1);
-      node->item = item;
+      LLNode<T>* node = _createNode(item);
       _add(node);
       _incsize(); //increment size by one
       return node;
@@ -255,13 +254,13 @@ namespace bss {
     inline LLNode<T>* _createNode(T _item, LLNode<T>* _prev = 0, LLNode<T>* _next = 0)
     {
       LLNode<T>* retval = Alloc::allocate(1);
-      retval->item = _item;
+      new(&retval->item) T(_item);
       retval->prev = _prev;
       retval->next = _next;
       return retval;
     }
 
-    inline void _deleteNode(LLNode<T>* target) { Alloc::deallocate(target, 1); }
+    inline void _deleteNode(LLNode<T>* target) { target->item.~T(); Alloc::deallocate(target, 1); }
   };
 }
 
-- 
2.43.0


From aba248d53e4853976124675af9dee4e6cb58289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:37 +0000
Subject: [PATCH 174/184] fix: a container whose contents had been moved away
 lost its allocation policy and crashed when it was used again

---
 include/bss-util/Alloc.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Alloc.h b/include/bss-util/Alloc.h
index 5fec64f..c846c5f 100644
--- a/include/bss-util/Alloc.h
+++ b/include/bss-util/Alloc.h
@@ -118,7 +118,7 @@ namespace bss {
     template<class U> using rebind = PolymorphicAllocator<U, Policy>;
     PolymorphicAllocator() noexcept : _policy(DefaultPolicy()) {}
     PolymorphicAllocator(const PolymorphicAllocator&) = default;
-    PolymorphicAllocator(PolymorphicAllocator&& mov) : _policy(mov._policy) { mov._policy = 0; }
+    PolymorphicAllocator(PolymorphicAllocator&& mov) : _policy(mov._policy) {}
     template <class U> constexpr PolymorphicAllocator(const PolymorphicAllocator<U, Policy>& copy) noexcept : _policy(copy._policy) {}
     explicit PolymorphicAllocator(policy_type* p) noexcept : _policy(p) {}
     inline T* allocate(size_t cnt, T* p = nullptr, size_t old = 0) noexcept { return _policy->allocate(cnt, p, old); }
@@ -127,8 +127,7 @@ namespace bss {
     PolymorphicAllocator& operator=(const PolymorphicAllocator&) = default;
     PolymorphicAllocator& operator=(PolymorphicAllocator&& mov) 
     {
-      _policy = mov._policy; 
-      mov._policy = 0;
+      _policy = mov._policy; // The policy isn't owned, so a moved-from container can go on using it
       return *this;
     }
 
-- 
2.43.0


From 9405c3322d9f12a690913ec688f447f5a2caf56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:18 +0000
Subject: [PATCH 175/184] fix: AVLTree::Traverse did not compile with GCC, the
 recursive function behind it was forced inline

---
 include/bss-util/AVLTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/AVLTree.h b/include/bss-util/AVLTree.h
index e432b1a..d2652a3 100644
--- a/include/bss-util/AVLTree.h
+++ b/include/bss-util/AVLTree.h
@@ -165,7 +165,7 @@ namespace bss {
 
   protected:
     template<typename F>
-    BSS_FORCEINLINE static void _traverse(F lambda, Node* node)
+    inline static void _traverse(F& lambda, Node* node)
     {
       if(!node)
         return;
-- 
2.43.0


From 42e80cd3ee4d34ebc3e6d4becb1e1b8ffe9aa5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:18 +0000
Subject: [PATCH 176/184] fix: an AVL tree moved into one with another
 allocation policy had its nodes freed by the wrong policy

---
 include/bss-util/AVLTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/AVLTree.h b/include/bss-util/AVLTree.h
index d2652a3..6b39993 100644
--- a/include/bss-util/AVLTree.h
+++ b/include/bss-util/AVLTree.h
@@ -161,7 +161,7 @@ namespace bss {
       return (cur != 0);
     }
 
-    inline AVLTree& operator=(AVLTree&& mov) { Clear(); _root = mov._root; mov._root = 0; return *this; }
+    inline AVLTree& operator=(AVLTree&& mov) { Clear(); Alloc::operator=(std::move(mov)); _root = mov._root; mov._root = 0; return *this; }
 
   protected:
     template<typename F>
-- 
2.43.0


From 0759ed63d1c6c94c2b2c8a2d36ae3bb6c677ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:26 +0000
Subject: [PATCH 177/184] fix: moving from a hash, or assigning an empty one to
 it, erased the pointer to its allocation policy, so the next insertion
 crashed

---
 include/bss-util/Hash.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index 3c4c153..7d63528 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -171,8 +171,7 @@ namespace bss {
     }
     Hash(Hash&& mov) : Alloc(std::move(mov))
     {
-      memcpy(this, &mov, sizeof(Hash));
-      bssFill(mov, 0);
+      _take(mov);
     }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     Hash(khint_t nbuckets, typename Alloc::policy_type* policy) : Alloc(policy), n_buckets(0), flags(0), keys(0), vals(0), size(0), n_occupied(0), upper_bound(0)
@@ -311,7 +310,7 @@ namespace bss {
       if(!copy.n_buckets)
       {
         _freeall();
-        bssFill(*this, 0);
+        _zero();
         return *this;
       }
       _docopy(copy);
@@ -323,8 +322,7 @@ namespace bss {
       Clear();
       _freeall();
       Alloc::operator=(std::move(mov));
-      memcpy(this, &mov, sizeof(Hash));
-      bssFill(mov);
+      _take(mov);
       return *this;
     }
 
@@ -400,6 +398,24 @@ namespace bss {
       obj.Insert(std::move(key));
     }
     BSS_FORCEINLINE bool _exists(khiter_t iterator) const { return !__ac_iseither(flags, iterator); }
+    inline void _zero() // The allocator must survive this
+    {
+      n_buckets = size = n_occupied = upper_bound = 0;
+      flags = 0;
+      keys = 0;
+      vals = 0;
+    }
+    inline void _take(Hash& mov)
+    {
+      n_buckets = mov.n_buckets;
+      size = mov.size;
+      n_occupied = mov.n_occupied;
+      upper_bound = mov.upper_bound;
+      flags = mov.flags;
+      keys = mov.keys;
+      vals = mov.vals;
+      mov._zero();
+    }
     inline void _freeall()
     {
       if(flags) Alloc::deallocate((char*)flags, n_buckets);
-- 
2.43.0


From c50ad38729ca219f515c85bbd443f89433580c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:26 +0000
Subject: [PATCH 178/184] fix: a threaded red-black tree moved into one with
 another allocation policy had its nodes freed by the wrong policy

---
 include/bss-util/TRBtree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/TRBtree.h b/include/bss-util/TRBtree.h
index 27af5c5..9cdf4e4 100644
--- a/include/bss-util/TRBtree.h
+++ b/include/bss-util/TRBtree.h
@@ -482,6 +482,7 @@ namespace bss {
     {
       Clear();
       TRB_Node<T>* nil = NIL;
+      std::swap(static_cast<Alloc&>(*this), static_cast<Alloc&>(mov)); // Each allocator follows the nodes it allocated
       _first = mov._first;
       _last = mov._last;
       _root = mov._root;
-- 
2.43.0


From de24d39305679da0e2fe9d68d3228d83a8ad05e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:53 +0000
Subject: [PATCH 179/184] fix: a lockless queue could not be moved (that did
 not compile), and move assignment would have leaked the nodes of the target

---
 include/bss-util/LocklessQueue.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index 6963e01..78f3b94 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -49,7 +49,7 @@ namespace bss {
     LocklessQueue& operator=(const LocklessQueue&) = delete;
 
   public:
-    LocklessQueue(LocklessQueue&& mov) : Alloc(std::move(mov)), internal::LocklessQueue_Length<LENGTH>(std::move(mov)), _div(mov._div), _last(mov._last), _first(mov._first) { mov._div = mov._last = mov._first = 0; }
+    LocklessQueue(LocklessQueue&& mov) : Alloc(std::move(mov)), internal::LocklessQueue_Length<LENGTH>(std::move(mov)), _div(mov._div.load()), _last(mov._last.load()), _first(mov._first) { mov._div = mov._last = mov._first = 0; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline LocklessQueue(typename Alloc::policy_type* policy) : Alloc(policy)
     {
@@ -91,9 +91,17 @@ namespace bss {
 
     inline LocklessQueue& operator=(LocklessQueue&& mov)
     {
+      if(this == &mov)
+        return *this;
+      while(QNODE* tmp = _first)
+      {
+        _first = _first->next;
+        tmp->~QNODE();
+        Alloc::deallocate(tmp, 1);
+      }
       Alloc::operator=(std::move(mov));
-      _div = mov._div;
-      _last = mov._last;
+      _div = mov._div.load();
+      _last = mov._last.load();
       _first = mov._first;
       mov._div = mov._last = mov._first = 0;
       internal::LocklessQueue_Length<LENGTH>::operator=(std::move(mov));
-- 
2.43.0


From ffbb6c7d9e5ddb273cff2eb0037b9ccc0b6fe421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:14 +0000
Subject: [PATCH 180/184] fix: Graph::GetNode did not compile, and refused
 valid nodes after an earlier one had been removed

---
 include/bss-util/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 93c3e4e..aa1b93c 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -82,7 +82,7 @@ namespace bss {
     inline CT NumNodes() const { return _nodes.Length(); }
     inline CT NumEdges() const { return _nedges; }
     inline CT Capacity() const { return _nodes.Capacity(); }
-    inline Node<E, V, CT>* GetNode(CT index) const { return index < _nodes.Length() ? &_nodes[index] : 0; }
+    inline Node<E, V, CT>* GetNode(CT index) const { return index < _nodes.Capacity() ? const_cast<Node<E, V, CT>*>(&_nodes[index]) : 0; }
     inline const LinkedArray<Node<E, V, CT>, CT, ArrayType, NODEALLOC>& GetNodes() const { return _nodes; }
     inline LinkedArray<Node<E, V, CT>, CT, ArrayType, NODEALLOC>& GetNodes() { return _nodes; }
     inline CT Front() const { return _nodes.Front(); }
-- 
2.43.0


From b1ccba71cd349a74bb892f52fb9fb3b18398f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:49 +0000
Subject: [PATCH 181/184] fix: a Future could not be created (all of its
 members were private), and its finished flag was never initialized

---
 include/bss-util/ThreadPool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/ThreadPool.h b/include/bss-util/ThreadPool.h
index e22256b..fe52d7f 100644
--- a/include/bss-util/ThreadPool.h
+++ b/include/bss-util/ThreadPool.h
@@ -131,7 +131,8 @@ namespace bss {
   template<typename R, typename ...Args>
   class Future : StoreFunction<R, Args...>
   {
-    inline Future(ThreadPool& pool, R(*f)(Args...), Args&&... args) : StoreFunction<R, Args...>(f, std::forward<Args>(args)...) { pool.AddTask(_eval, this); }
+  public:
+    inline Future(ThreadPool& pool, R(*f)(Args...), Args&&... args) : StoreFunction<R, Args...>(f, std::forward<Args>(args)...), _finished(false) { pool.AddTask(_eval, this); }
     ~Future() { assert(_finished.load(std::memory_order_acquire)); }
     R* Result() { return _finished.load(std::memory_order_acquire) ? &result : 0; }
 
-- 
2.43.0


From 11813b310e166161572752b7e02522214e6a4570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:15 +0000
Subject: [PATCH 182/184] fix: CompactArray::GetSlice did not compile

---
 include/bss-util/CompactArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CompactArray.h b/include/bss-util/CompactArray.h
index c03307a..d32acbd 100644
--- a/include/bss-util/CompactArray.h
+++ b/include/bss-util/CompactArray.h
@@ -117,7 +117,7 @@ namespace bss {
     BSS_FORCEINLINE const T* end() const noexcept { return begin() + Length(); }
     BSS_FORCEINLINE T* begin() noexcept { return (_length&COMPACTFLAG) ? _internal : _array; }
     BSS_FORCEINLINE T* end() noexcept { return begin() + Length(); }
-    BSS_FORCEINLINE Slice<T, CT> GetSlice() const noexcept { return Slice<T, CT>(begin(), Length()); }
+    BSS_FORCEINLINE Slice<T, CT> GetSlice() const noexcept { return Slice<T, CT>(const_cast<T*>(begin()), Length()); }
     BSS_FORCEINLINE operator T*() { return begin(); }
     BSS_FORCEINLINE operator const T*() const { return begin(); }
     inline CompactArray& operator=(const CompactArray& copy)
-- 
2.43.0


From 06b95f0c45a25ef2f010bb2620fc1dbba83536f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:45 +0000
Subject: [PATCH 183/184] fix: PoissonDiskSample over doubles looked up the
 wrong cells and returned points closer than the minimum distance

---
 include/bss-util/RandomQueue.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/RandomQueue.h b/include/bss-util/RandomQueue.h
index 3056cbb..bc358cf 100644
--- a/include/bss-util/RandomQueue.h
+++ b/include/bss-util/RandomQueue.h
@@ -84,6 +84,7 @@ namespace bss {
     size_t gh = ((size_t)ceil(h / cell)) + 4;
     VARARRAY(GRID, grid, (gw*gh));    //grid height
     uint64_t* ig = reinterpret_cast<uint64_t*>((GRID*)grid);
+    const size_t step = sizeof(GRID) / sizeof(uint64_t); // A cell of doubles takes up more than one integer
     bssFillN<GRID>(grid, gw*gh, 0xFF);
     assert(!(~ig[0]));
 
@@ -115,20 +116,20 @@ namespace bss {
           center = internal::_PDS_imageToGrid<T>(pt, cell, gw, rect); // If another point is in the neighborhood, abort this point.
           edge = center - gw - gw;
           assert(edge > 0);
-#define POISSONSAMPLE_CHECK(edge) if((~ig[edge])!=0 && DistSqr(grid[edge][0],grid[edge][1],pt[0],pt[1])<mindistsq) continue
+#define POISSONSAMPLE_CHECK(edge) if((~ig[(edge) * step])!=0 && DistSqr(grid[edge][0],grid[edge][1],pt[0],pt[1])<mindistsq) continue
           POISSONSAMPLE_CHECK(edge - 1);
           POISSONSAMPLE_CHECK(edge);
           POISSONSAMPLE_CHECK(edge + 1);
           edge += gw;
-          if(~(ig[edge - 1] & ig[edge] & ig[edge + 1])) continue;
+          if(~(ig[(edge - 1) * step] & ig[edge * step] & ig[(edge + 1) * step])) continue;
           POISSONSAMPLE_CHECK(edge - 2);
           POISSONSAMPLE_CHECK(edge + 2);
           edge += gw;
-          if(~(ig[edge - 1] & ig[edge] & ig[edge + 1])) continue;
+          if(~(ig[(edge - 1) * step] & ig[edge * step] & ig[(edge + 1) * step])) continue;
           POISSONSAMPLE_CHECK(edge - 2);
           POISSONSAMPLE_CHECK(edge + 2);
           edge += gw;
-          if(~(ig[edge - 1] & ig[edge] & ig[edge + 1])) continue;
+          if(~(ig[(edge - 1) * step] & ig[edge * step] & ig[(edge + 1) * step])) continue;
           POISSONSAMPLE_CHECK(edge - 2);
           POISSONSAMPLE_CHECK(edge + 2);
           edge += gw;
-- 
2.43.0


From 492abcec35ccabdc1889a49fa7081a8de245f640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:41 +0000
Subject: [PATCH 184/184] fix: converting a matrix of another element type did
 not compile for general sizes

---
 include/bss-util/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 817e499..30962e8 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -776,7 +776,7 @@ namespace bss {
     static const int MIN = M < N ? M : N;
 
     template<typename U>
-    inline Matrix(const Matrix<U, M, N>& copy) { T* p = v; U* cp = copy.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; }
+    inline Matrix(const Matrix<U, M, N>& copy) { for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) v[i][j] = (T)copy.v[i][j]; }
     inline Matrix(const std::initializer_list<T>& l) { assert(l.size() == (M*N)); T* p = (T*)v; int k = 0; for(const T* i = l.begin(); i != l.end() && k < M*N; ++i) p[k++] = *i; }
     inline explicit Matrix(const T(&m)[M][N]) { memcpy(v, m, sizeof(T)*M*N); }
     inline constexpr Matrix() {}
-- 
2.43.0

