From 127bd2824fd97f093b2a1ba7ff8c0233a32f14aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 01/35] fix: align the static memory pool to SMA_MEM_ALIGN

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 1d8c0ed..de42480 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -138,7 +138,7 @@ public: // mem-manager interface
 
 protected:
     int mFreeMemSize_d;
-    char mMemoryPool_d[MEMORY_SIZE];
+    alignas(SMA_MEM_ALIGN) char mMemoryPool_d[MEMORY_SIZE];
     dstruct::Array<Link_e, MAX_BLOCK_SIZE / SMA_MEM_ALIGN + 1/*MemPoolManager*/> mFreeMemList_d;
 
     static StaticMemAllocator & Instance_() {
-- 
2.43.0


From dc418484eefc11e3fcaf15d891b46e7bc8cde950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 02/35] fix: refuse non-positive and oversized requests in
 StaticMemAllocator

allocate(0) took a whole block out of the pool and allocate(INT_MAX)
overflowed the rounded size, both corrupting the free lists.
---
 memory/StaticMemAllocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index de42480..8235f80 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -156,6 +156,9 @@ protected:
 
     void * allocate_d(int bytes) {
 
+        // can't be met, and rounding up the size may overflow
+        if (bytes <= 0 || bytes > MEMORY_SIZE) return nullptr;
+
         MemBlock_e targetMemBlockIndex;
 
         if (bytes > MAX_BLOCK_SIZE) {
-- 
2.43.0


From 6eafeefd2400b2a169a974e23b1ceabea2ef45a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 03/35] fix: memory_merge recovers every contiguous run of free
 memory

The search for a neighbour stopped at the first block below instead of
above it, and quick blocks were never merged with mem-pool blocks.
---
 memory/StaticMemAllocator.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 8235f80..0eba8e1 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -235,17 +235,20 @@ protected: // quick allocator
                     insert_mem_block_to_list_d(firstMemBlockPtr, INDEX_TO_SIZE_(listIndex));
                 } else {
                     bool secondMemBlockFlag = false;
-                    for (int j = i + 1; j < mFreeMemList_d.size() - 1 && !secondMemBlockFlag; j++) {
+                    for (int j = i + 1; j < mFreeMemList_d.size() && !secondMemBlockFlag; j++) {
                         auto secondMemLinkPtr = &(mFreeMemList_d[j]);
                         secondMemBlockPtr = secondMemLinkPtr->next;
                         while (secondMemBlockPtr != nullptr) {
+                            // the last list is mem-pool
+                            int secondMemBlockSize = j == mFreeMemList_d.size() - 1 ?
+                                MemBlock_e::to_node(secondMemBlockPtr)->data : INDEX_TO_SIZE_(j);
                             /*                         +-----+ 
                               xUp                -->   |     |
                               firstMemBlockPtr   -->   |     |
                               xDown              -->   |     |
                                                        +-----+
                             */
-                            void *addrUP = reinterpret_cast<char *>(firstMemBlockPtr) - (j + 1) * SMA_MEM_ALIGN;
+                            void *addrUP = reinterpret_cast<char *>(firstMemBlockPtr) - secondMemBlockSize;
                             void *addrDown = reinterpret_cast<char *>(firstMemBlockPtr) + (i + 1) * SMA_MEM_ALIGN;
 
                             if (SMA_ADDRESS_EQUAL(addrUP, secondMemBlockPtr) || SMA_ADDRESS_EQUAL(addrDown, secondMemBlockPtr)) { // check merge-able
@@ -253,13 +256,13 @@ protected: // quick allocator
                                 secondMemLinkPtr->next = secondMemBlockPtr->next; // delete secondMemBlock from list[j]
                                 insert_mem_block_to_list_d(
                                     firstMemBlockPtr < secondMemBlockPtr ? firstMemBlockPtr : secondMemBlockPtr,
-                                    INDEX_TO_SIZE_(i + j + 1)
+                                    INDEX_TO_SIZE_(i) + secondMemBlockSize
                                 );
                                 secondMemBlockFlag = true;
                                 break;
                             }
 
-                            if (firstMemBlockPtr > secondMemBlockPtr) break;
+                            if (firstMemBlockPtr < secondMemBlockPtr) break; // ascending list
 
                             secondMemLinkPtr = secondMemBlockPtr;
                             secondMemBlockPtr = secondMemLinkPtr->next;
-- 
2.43.0


From 3bfb4a82fa091a0825968bd84c92054bec2d7779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 04/35] fix: stop when the allocator refuses a request

Vector::resize on an empty vector (and so Vector(n), Heap, String)
reported success with null storage.
---
 spec/DStructSpec.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spec/DStructSpec.hpp b/spec/DStructSpec.hpp
index 6de7657..778ad99 100644
--- a/spec/DStructSpec.hpp
+++ b/spec/DStructSpec.hpp
@@ -45,7 +45,9 @@ struct Alloc {
 template <typename T, typename Alloc>
 struct AllocSpec {
     static T *allocate(int n = 1) {
-        return static_cast<T *>(Alloc::allocate(n * sizeof(T)));
+        T *ptr = static_cast<T *>(Alloc::allocate(n * sizeof(T)));
+        DSTRUCT_CRASH(ptr == nullptr);
+        return ptr;
     }
 
     static void deallocate(T *ptr, int n = 1) {
-- 
2.43.0


From 2739c876034d3811530c7e264de131c741184247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 05/35] fix: Vector copy does not destroy elements it never
 constructed

---
 core/ds/array/Vector.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index 5032e34..c13bb38 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -36,7 +36,6 @@ public: // big five
         resize(ds.mCapacity_d);
         mSize_d = ds.mSize_d;
         for (int i = 0; i < mSize_d; i++) {
-            dstruct::destroy(mC_d + i);
             dstruct::construct(mC_d + i, ds.mC_d[i]);
         }
         return *this;
-- 
2.43.0


From a8a3784a340bd4568270ba48591d3c2cda45624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 06/35] fix: Vector push_back and resize accept the vector's
 own elements

The element was read after the storage holding it had been released.
---
 core/ds/array/Vector.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index c13bb38..d76b4a0 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -96,10 +96,14 @@ public: // Modifiers
 
     void push_back(ConstReferenceType element) {
         if (mSize_d + 1 > mCapacity_d) {
+            ValueType obj = element; // element may be in the storage released by resize
             if (mSize_d)
                 resize(2 * mSize_d);
             else
                 resize(2);
+            dstruct::construct(mC_d + mSize_d, obj);
+            mSize_d++;
+            return;
         }
         dstruct::construct(mC_d + mSize_d, element);
         mSize_d++;
@@ -190,6 +194,11 @@ public:
         PointerType oldC = mC_d;
         mC_d = Vector::Alloc_::allocate(n);
 
+        // set, before release: element may be in the old storage
+        for (int i = mSize_d; i < n; i++) {
+            dstruct::construct(mC_d + i, element);
+        }
+
         // release
         if (oldC) {
             for (int i = 0; i < mSize_d; i++) {
@@ -200,11 +209,6 @@ public:
             Vector::Alloc_::deallocate(oldC, mCapacity_d);
         }
 
-        // set
-        for (int i = mSize_d; i < n; i++) {
-            dstruct::construct(mC_d + i, element);
-        }
-
         mCapacity_d = mSize_d = n;
     }
 
-- 
2.43.0


From 0629f742fafba493d525e4846d43bd35d7d3a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 07/35] fix: SinglyLinkedList copies every element and keeps
 its own tail

The shadowed nodePtr made the copy repeat the first element, and the
tail pointed into the source list.
---
 core/ds/linked-list/SinglyLinkedList.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 66cf9b2..fd9d97d 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -69,18 +69,8 @@ public: // big five
     DSTRUCT_COPY_SEMANTICS(SinglyLinkedList) {
         clear();
         // copy
-        if (ds.mSize_d != 0) {
-            auto linkPtr =  ds.mHeadNode_d.link.next;
-            auto nextLinkPtr = linkPtr->next;
-            auto nodePtr = Node_::to_node(linkPtr);
-            while (nextLinkPtr != &(ds.mHeadNode_d.link)) {
-                push_back(nodePtr->data);
-                linkPtr = nextLinkPtr;
-                nextLinkPtr = nextLinkPtr->next;
-                auto nodePtr = Node_::to_node(linkPtr);
-            }
-            push_back(nodePtr->data);
-            mTailNodePtr_d = nodePtr;
+        for (auto it = ds.begin(); it != ds.end(); it++) {
+            push_back(*it);
         }
         return *this;
     }
-- 
2.43.0


From ae154b9cc3318836054543174060f9b74a706c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 08/35] fix: SinglyLinkedList push and pop keep the tail up to
 date

---
 core/ds/linked-list/SinglyLinkedList.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index fd9d97d..1c63ef1 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -93,6 +93,14 @@ public:
         return mTailNodePtr_d->data;
     }
 
+    void push(const T &obj) {
+        push_front(obj);
+    }
+
+    void pop() {
+        pop_front();
+    }
+
     void push_back(const T &obj) {
         // 1. alloc and construct node
         Node_ *nPtr = AllocNode_::allocate();
-- 
2.43.0


From fe97c5824312935d1c36659490e0be0408d7a746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 09/35] fix: moving an empty linked list leaves both lists
 well-formed

---
 core/ds/linked-list/LinkedList.hpp       | 2 ++
 core/ds/linked-list/SinglyLinkedList.hpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ds/linked-list/LinkedList.hpp b/core/ds/linked-list/LinkedList.hpp
index 6bff19b..149cb7d 100644
--- a/core/ds/linked-list/LinkedList.hpp
+++ b/core/ds/linked-list/LinkedList.hpp
@@ -49,6 +49,8 @@ public: // big five
         // 2.only move data
         LinkedList_::mHeadNode_d = ds.mHeadNode_d;
         LinkedList_::mSize_d = ds.mSize_d;
+        if (mSize_d == 0) // link of an empty list points to itself
+            Node_::init(&mHeadNode_d);
         // 3.spec move impl in subclass
         // 4.reset
         Node_::init(&(ds.mHeadNode_d));
diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 1c63ef1..fed43b6 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -78,7 +78,7 @@ public: // big five
     DSTRUCT_MOVE_SEMANTICS(SinglyLinkedList) {
         // move list
         List_::operator=(dstruct::move(ds));
-        mTailNodePtr_d = ds.mTailNodePtr_d;
+        mTailNodePtr_d = mSize_d == 0 ? &mHeadNode_d : ds.mTailNodePtr_d;
         mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);
         // reset
         ds.mTailNodePtr_d = &(ds.mHeadNode_d);
-- 
2.43.0


From 1e191a101574dd0c46833e30095d45018875f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 10/35] fix: Deque and its iterator use the deque's own
 allocator

The block table always came from the default allocator, and a deque with
any other allocator (smemory::Deque, smemory::Queue) did not compile.
---
 core/ds/queue/DoubleEndedQueue.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index d94b131..8457ef5 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -20,13 +20,13 @@ namespace dstruct {
 template <typename T, size_t ARR_SIZE, typename Alloc = dstruct::Alloc>
 class DoubleEndedQueue;
 
-template <typename T, size_t ARR_SIZE>
+template <typename T, size_t ARR_SIZE, typename Alloc = dstruct::Alloc>
 class DoubleEndedQueueIterator_ : public DStructIteratorTypeSpec<T, RandomIterator> {
-    friend class DoubleEndedQueue<T, ARR_SIZE, dstruct::Alloc>;
-    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE>; // for it -> const-it
+    friend class DoubleEndedQueue<T, ARR_SIZE, Alloc>;
+    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>; // for it -> const-it
 protected:
     using Array_         = dstruct::Array<T, ARR_SIZE>;
-    using ArrMapTable_   = dstruct::Vector<Array_ *>;
+    using ArrMapTable_   = dstruct::Vector<Array_ *, Alloc>;
 private:
     using Self = DoubleEndedQueueIterator_;
 
@@ -75,7 +75,7 @@ public:
 
     // for it -> const-it
     DoubleEndedQueueIterator_(
-        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE> &obj,
+        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE, Alloc> &obj,
         bool _unsedFlag // constructor dispatch flag
     ) : DoubleEndedQueueIterator_() {
 
@@ -157,12 +157,12 @@ protected:
  
 template <typename T, size_t ARR_SIZE, typename Alloc>
 class DoubleEndedQueue :
-    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE>, DoubleEndedQueueIterator_<const T, ARR_SIZE>> {
+    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE, Alloc>, DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>> {
 
 protected:
     using Array_         = Array<T, ARR_SIZE>;
     using AllocArray_    = dstruct::AllocSpec<Array_, Alloc>;
-    using ArrMapTable_   = Vector<Array_ *>;
+    using ArrMapTable_   = Vector<Array_ *, Alloc>;
 /*
     struct Block_ {
         typename ArrMapTable_::IteratorType arr; // point to Array
-- 
2.43.0


From a8b5754c71f57e70ce15ee76f4354e380c3283ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 11/35] fix: a new or cleared Deque iterates over nothing

Its iterators were uninitialised or pointed to released blocks, so
iterating or copying it read foreign memory.
---
 core/ds/queue/DoubleEndedQueue.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 8457ef5..1dfe2f2 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -31,7 +31,9 @@ private:
     using Self = DoubleEndedQueueIterator_;
 
 protected: // only for DoubleEndedQueue
-    DoubleEndedQueueIterator_() : mArrMapTablePtr_d { nullptr } { }
+    DoubleEndedQueueIterator_() : mCurrMapIndex_d { 0 }, mCurr_d { nullptr }, mArrMapTablePtr_d { nullptr } {
+        _sync();
+    }
 
 public:
     DoubleEndedQueueIterator_(
@@ -323,7 +325,7 @@ protected:
             // reset
             mSize_d = mCapacity_d = 0;
             mArrMapTable_d.clear();
-            //mBegin_d = mEnd_d = nullptr;
+            mBegin_d = mEnd_d = decltype(mBegin_d)();
         }
     }
 
-- 
2.43.0


From cb413688dc3bdbc6716464a23a8476d39f7519fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 12/35] fix: iterators of a moved Deque use its own block table

---
 core/ds/queue/DoubleEndedQueue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 1dfe2f2..c1e51f0 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -194,6 +194,7 @@ public:
         mArrMapTable_d = dstruct::move(ds.mArrMapTable_d);
         mBegin_d = dstruct::move(ds.mBegin_d);
         mEnd_d = dstruct::move(ds.mEnd_d);
+        mBegin_d.mArrMapTablePtr_d = mEnd_d.mArrMapTablePtr_d = &mArrMapTable_d;
 
         // reset ds
         ds.mSize_d = ds.mCapacity_d = 0;
-- 
2.43.0


From 26f4d95eb207ed881dd3ebf9ae4dccc228aebf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 13/35] fix: Deque blocks are raw storage

Whole blocks were filled with elements that pushes then overwrote by
constructing a second element in place, and that were never destroyed.
---
 core/ds/queue/DoubleEndedQueue.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index c1e51f0..100a135 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -341,7 +341,6 @@ protected:
         // alloc arr and fill map-table
         for (int i = 0; i < MIN_MAP_TABLE_SIZE; i++) {
             mArrMapTable_d[i] = AllocArray_::allocate();
-            dstruct::construct(mArrMapTable_d[i], Array_());
         }
         auto midMapIndex = MIN_MAP_TABLE_SIZE / 2;
         mBegin_d = mEnd_d = decltype(mBegin_d)(midMapIndex, 0, &mArrMapTable_d);
@@ -379,7 +378,6 @@ protected:
         for (int i = 0; i < newMapTableSize ; i++) {
             if (i < newArrStartIndex || newArrEndIndex < i) {
                 mArrMapTable_d[i] = AllocArray_::allocate();
-                dstruct::construct(mArrMapTable_d[i], Array_());
             } else {
                 mArrMapTable_d[i] = oldArrMapTable[oldArrStartIndex + (i - newArrStartIndex)];
             }
-- 
2.43.0


From 25f0d76a9424e4f4f08920c7d26781cf8ff5a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 14/35] fix: Deque gives memory back when it shrinks

The shrink condition was inverted, so capacity only ever grew and a
queue of bounded length used an unbounded amount of memory.
---
 core/ds/queue/DoubleEndedQueue.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 100a135..af31802 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -361,16 +361,17 @@ protected:
         size_t oldArrEndIndex = mEnd_d.mCurrMapIndex_d;
         size_t arrNum = oldArrEndIndex - oldArrStartIndex;
         size_t newArrStartIndex = ((n - mSize_d) / 2) / ARR_SIZE;
-        size_t newArrEndIndex = newArrStartIndex + arrNum;
+        // arrs in use, and the next one if mEnd_d is behind the last position of its arr
+        size_t usedArrNum = arrNum + 1 + (mEnd_d.mCurr_d == mArrMapTable_d[oldArrEndIndex]->end());
 
-        // request: n / ARR_SIZE <= ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
-        // n = y * oldCapacity  
-        if (!isExtend && newMapTableSize >= arrNum) {
-            // when arrNum = ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
-            // exist newMapTableSize < arrNum
-            return;
+        if (!isExtend) {
+            if (newMapTableSize < usedArrNum) return;
+            if (newArrStartIndex + usedArrNum > newMapTableSize)
+                newArrStartIndex = newMapTableSize - usedArrNum;
         }
 
+        size_t newArrEndIndex = newArrStartIndex + arrNum;
+
         ArrMapTable_ oldArrMapTable = mArrMapTable_d;
         mArrMapTable_d.resize(newMapTableSize, nullptr);
 
-- 
2.43.0


From a7438458af81fe0fc9731a6aac92753518820394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 15/35] fix: DisjointSet unions by rank and ignores a union of
 a set with itself

Connecting already connected elements made a root its own parent, and
find never returned. The root indexes were compared instead of their
ranks, so trees could become a list of linear depth.
---
 core/ds/set/DisjointSet.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/ds/set/DisjointSet.hpp b/core/ds/set/DisjointSet.hpp
index 59bc539..f8578cb 100644
--- a/core/ds/set/DisjointSet.hpp
+++ b/core/ds/set/DisjointSet.hpp
@@ -72,8 +72,10 @@ public:
     }
 
     void union_set(ConstReferenceType root1, ConstReferenceType root2) {
-        if (root1 < root2) {
-            mArray_d[root2] = root1;
+        if (root1 == root2) return;
+
+        if (mArray_d[root2] < mArray_d[root1]) { // root2's rank is higher
+            mArray_d[root1] = root2;
         } else {
             if (mArray_d[root1] == mArray_d[root2])
                 mArray_d[root1]--;
-- 
2.43.0


From d8ccdcec81d463a6cbf57b7b3a716dc91f445a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 16/35] fix: begin of an empty tree, and post-order iteration

begin() dereferenced a null root, and next_postorder visited a right
subtree after its parent and skipped others.
---
 core/ds/tree/BinaryTree.hpp         |  6 +++---
 core/ds/tree/EmbeddedBinaryTree.hpp | 26 ++++++++++++--------------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 382ed99..2586d86 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -211,9 +211,9 @@ public:
 
     static typename Node_::LinkType * first_node(typename Node_::LinkType *root, TraversalType ttype = TraversalType::InOrder) {
         auto first = root;
-        if (ttype != TraversalType::PreOrder) {
-            while (first->left != nullptr) {
-                first = first->left;
+        if (first != nullptr && ttype != TraversalType::PreOrder) {
+            while (first->left != nullptr || (ttype == TraversalType::PostOrder && first->right != nullptr)) {
+                first = first->left != nullptr ? first->left : first->right;
             }
         }
         return first;
diff --git a/core/ds/tree/EmbeddedBinaryTree.hpp b/core/ds/tree/EmbeddedBinaryTree.hpp
index a86f18d..e1b64dd 100644
--- a/core/ds/tree/EmbeddedBinaryTree.hpp
+++ b/core/ds/tree/EmbeddedBinaryTree.hpp
@@ -140,23 +140,21 @@ static BinaryTreeLink_ * next_postorder(BinaryTreeLink_ *link) {
         return nullptr;
     }
 
-    if (link->right != nullptr) {
-        link = link->right;
-        while (link->left != nullptr || link->right != nullptr) {
-            if (link->left != nullptr) {
-                link = link->left;
-            } else {
-                link = link->right;
-            }
-        }
-        return link;
+    // root check, right child or haven't right sibling
+    if (link->parent == nullptr || link->parent->right == link || link->parent->right == nullptr) {
+        return link->parent;
     }
 
-    // link->parent != nullptr : root check
-    while (link->parent != nullptr && link->parent->right == link) {
-        link = link->parent;
+    // first node of the right sibling
+    link = link->parent->right;
+    while (link->left != nullptr || link->right != nullptr) {
+        if (link->left != nullptr) {
+            link = link->left;
+        } else {
+            link = link->right;
+        }
     }
-    return link->parent;
+    return link;
 }
 
 template <typename Callback>
-- 
2.43.0


From 138d38301c06b085a82a9c2e678f7e53a62846af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 17/35] fix: tree traversal starts at the root

In-order and post-order traversal started at the first node in order and
so visited only the leftmost subtree.
---
 core/ds/tree/BinaryTree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 2586d86..0d293f3 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -155,17 +155,17 @@ public: // algo
 
         switch (ttype) {
             case TraversalType::PreOrder:
-                return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::InOrder:
-                return  tree::inorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::inorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::PostOrder:
-                return  tree::postorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::postorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             default: {
                 DSTRUCT_ASSERT(false);
             }
         }
 
-        return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+        return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
     }
 
 public: // range-for and iterator
-- 
2.43.0


From ca4e36a7c6b17e131d4d1f8e717ac0c8967120c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 18/35] fix: BinaryTree::copy compiles and constructs the nodes
 it copies

---
 core/ds/tree/BinaryTree.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 0d293f3..cb44086 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -184,16 +184,16 @@ public:
             return nullptr;
 
         Node_ *newRoot = AllocNode_::allocate();
-        newRoot->data = root->data;
-        newRoot->parent = nullptr;
+        dstruct::construct(newRoot, *root);
+        newRoot->link.parent = nullptr;
 
-        newRoot->left = copy(root->left);
-        if (newRoot->left)
-            newRoot->left->parent = newRoot;
+        newRoot->link.left = Node_::to_link(copy(Node_::to_node(root->link.left)));
+        if (newRoot->link.left)
+            newRoot->link.left->parent = Node_::to_link(newRoot);
 
-        newRoot->right = copy(root->right);
-        if (newRoot->right)
-            newRoot->right->parent = newRoot;
+        newRoot->link.right = Node_::to_link(copy(Node_::to_node(root->link.right)));
+        if (newRoot->link.right)
+            newRoot->link.right->parent = Node_::to_link(newRoot);
 
         return newRoot;
     }
-- 
2.43.0


From e9b5979e03c31b136cfef32f1e63eb6cfcee306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 19/35] fix: pushing a present value does not change the size
 of a BSTree

---
 core/ds/tree/BinarySearchTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 64aa446..c123548 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -70,7 +70,7 @@ public: // push/pop
         auto tree = _insert(obj);
         if (BinaryTree_e::mRootPtr_d == nullptr)
             BinaryTree_e::_update_root(tree);
-        BinaryTree_e::mSize_d++;
+        // mSize_d++; in _insert
     }
 
     void pop(const T &obj) {
@@ -166,6 +166,7 @@ protected:
         auto nodePtr = AllocNode_::allocate();
         auto newNodeLink = Node_::to_link(nodePtr);
         dstruct::construct(nodePtr, Node_(obj));
+        BinaryTree_e::mSize_d++;
 
         if (parent != nullptr) { // nodePtr isn't root
             newNodeLink->parent = parent;
-- 
2.43.0


From b1d3c9ecbf266edbcafc41f5127b9faa3bdd959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 20/35] fix: popping an absent value from a BSTree is a no-op

---
 core/ds/tree/BinarySearchTree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index c123548..8c99f6b 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -188,6 +188,8 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // haven't obj
+
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data)) {
             root->left = _delete(root->left, obj);
-- 
2.43.0


From d7c304f20d07db42007c30f03d37f5494a751ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 21/35] fix: BSTree removes a node with two children by its
 in-order successor

The inverted condition walked into a null pointer, or took a value other
than the smallest of the right subtree.
---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 8c99f6b..6cc3441 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -212,7 +212,7 @@ protected:
         } else { // have l and r, haven't del the node directly
             // step1: find right-bot
             typename Node_::LinkType *tmp = linkPtr->right;
-            while (nullptr == tmp->left) {
+            while (nullptr != tmp->left) {
                 tmp = tmp->left;
             }
 
-- 
2.43.0


From 7f6b200e5aa0ad18ad56ddcdae43d6c01eb83198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 22/35] fix: popping an absent value from an AVLTree is a no-op

---
 core/ds/tree/AVLTree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index df3ff65..a502310 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -297,6 +297,8 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // haven't obj
+
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data.val)) {
             root->left = _delete(root->left, obj);
-- 
2.43.0


From ce9fdadda5dcbbbfe5745bc3b35e96322083c63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 23/35] fix: AVLTree erase of the root updates the root pointer

Erasing a root with at most one child left mRootPtr_d pointing to the
released node.
---
 core/ds/tree/AVLTree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index a502310..02887a8 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -266,6 +266,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(nullptr);
             }
 
             _real_delete(target);
@@ -288,6 +290,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(child);
             }
 
             _real_delete(target);
-- 
2.43.0


From c085327dfe281e306419077cfed216f4f4a56ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 24/35] fix: AVLTree begin and end honour the traversal type

---
 core/ds/tree/AVLTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 02887a8..2d16c92 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -162,12 +162,12 @@ public: // range-for and iterator
 
     typename AVLTree::ConstIteratorType
     begin(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::begin();
+        return BinaryTree_e::begin(ttype);
     }
 
     typename AVLTree::ConstIteratorType
     end(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::end();
+        return BinaryTree_e::end(ttype);
     }
 
 protected:
-- 
2.43.0


From 47a3189c15808cae933e491f4c15d6fe97aa4541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 25/35] fix: AVLTree erase needs no copy of the next element,
 so Map::erase compiles

KeyValue has a const key and cannot be assigned to.
---
 core/ds/tree/AVLTree.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 2d16c92..a73dcc2 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -141,17 +141,10 @@ public:
     erase(typename AVLTree::ConstIteratorType it) {
         auto target = it._get_link_pointer();
         decltype(it) next = ++it;
-        typename RemoveConst<T>::Type nextData;
-        bool needUpdateNext = false;
-        
-        if (next._get_link_pointer() != nullptr) {
-            nextData = *next;
-            needUpdateNext = true;
-        }
 
-        _delete_by_target(target);
+        _delete_by_target(target); // only relinks the other nodes, next is still valid
 
-        return needUpdateNext ? find(nextData) : next;
+        return next;
     }
 
     int height() const {
-- 
2.43.0


From 3da1f1482923819b376d5ff97305fd867bf1737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 26/35] fix: AVLTree and Map copies are deep and moves empty
 the source

The implicit copy and move shared the nodes, which both trees released.
---
 core/ds/tree/AVLTree.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index a73dcc2..6de06d2 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -109,6 +109,31 @@ public:
 public:
     AVLTree(CMP cmp = CMP()) : BinaryTree_e { nullptr, 0 }, mCmp_d { cmp } { }
 
+    DSTRUCT_COPY_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+        BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+        return *this;
+    }
+
+    DSTRUCT_MOVE_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+
+        // move
+        BinaryTree_e::mRootPtr_d = ds.mRootPtr_d;
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+
+        // reset
+        ds.mRootPtr_d = nullptr;
+        ds.mSize_d = 0;
+
+        return *this;
+    }
+
+    ~AVLTree() = default;
+
 public:
     void push(const T &element) {
         auto root = _insert(Node_::to_link(BinaryTree_e::mRootPtr_d), element);
-- 
2.43.0


From 2304ad18ae094a3d91ce8316f2d4c05ba6c24ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 27/35] fix: lookups in a const Map compile

---
 core/ds/Map.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ds/Map.hpp b/core/ds/Map.hpp
index 807b6d7..a386429 100644
--- a/core/ds/Map.hpp
+++ b/core/ds/Map.hpp
@@ -118,6 +118,10 @@ public:
         return mDStruct_d.find(KeyValueType { key, ValueType() });
     }
 
+    ConstIteratorType find(const KeyType &key) const {
+        return mDStruct_d.find(KeyValueType { key, ValueType() });
+    }
+
     IteratorType erase(IteratorType &it) {
         return mDStruct_d.erase(it);
     }
-- 
2.43.0


From 399b086f54a4b2409074f702c001d78c7aa0b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 28/35] fix: a String can be constructed from an empty C string

The loop skipped the terminator and read past the end.
---
 core/ds/string/BasicString.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 0fcf118..0624651 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -38,11 +38,9 @@ public:
     }
 
     BasicString(const char *str) : BasicString() {
-        mCharList_d[-1] = *str;
-        while (*(++str) != '\0') {
-            mCharList_d.push_back(*str);
+        for (; *str != '\0'; str++) {
+            push_back(*str);
         }
-        mCharList_d.push_back('\0');
     }
 
     ~BasicString() = default;
-- 
2.43.0


From d3bc37bf7dc4a60a8a5bea23550465e4a8fe037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 29/35] fix: a String can be appended to itself

---
 core/ds/string/BasicString.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 0624651..ef94f15 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -115,6 +115,8 @@ public:
     }
 
     BasicString & operator+=(const BasicString &str) {
+        if (this == &str) return *this += BasicString(str);
+
         if (mCharList_d.capacity() < mCharList_d.size() + str.mCharList_d.size() - 1)
             mCharList_d.resize(mCharList_d.size() + str.mCharList_d.size() - 1);
         mCharList_d[-1] = str[0];
-- 
2.43.0


From 8076a74b23b12e5e22b344e21fc1d76c964d72a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 30/35] fix: a moved-from String is empty and terminated

Its size wrapped around and c_str dereferenced null.
---
 core/ds/string/BasicString.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index ef94f15..e8929c3 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -34,6 +34,7 @@ public:
 
     DSTRUCT_MOVE_SEMANTICS(BasicString) {
         mCharList_d = dstruct::move(ds.mCharList_d);
+        ds.clear();
         return *this;
     }
 
-- 
2.43.0


From 9418ee0532655ab0a10251f05737ac378fb45fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 31/35] fix: Heap self-move keeps its elements

---
 core/ds/Heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/Heap.hpp b/core/ds/Heap.hpp
index d2b98f1..f369db5 100644
--- a/core/ds/Heap.hpp
+++ b/core/ds/Heap.hpp
@@ -50,6 +50,7 @@ public:
 
     Heap(Heap &&hep) { *this = dstruct::move(hep); }
     Heap & operator=(Heap &&hep) {
+        if (this == &hep) return *this;
         this->mCmp_d = hep.mCmp_d;
         this->mHeap_d = dstruct::move(hep.mHeap_d);
         hep.mHeap_d.resize(1, this->mHeap_d[0]);
-- 
2.43.0


From 8cf9d41c49524435ff9eb7ba11d1591c2c6b8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 32/35] fix: Min/MaxStack handle repeated extremes and iterate
 over their elements only

Popping one of several equal extremes restored the older extreme while
the others were still held, and the saved extremes were stored among the
elements, so iteration showed them.
---
 core/ds/stack/XValueStack.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 4d1a174..b1e8561 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -28,14 +28,14 @@ public:
     XValueStack(const Compare &cmp) : mCmp_d { cmp } { }
 
     DSTRUCT_COPY_SEMANTICS(XValueStack) {
-        this->mXValue_d = ds.mXValue_d;
+        this->mXStack_d = ds.mXStack_d;
         this->mCmp_d = ds.mCmp_d;
         this->mStack_d = ds.mStack_d;
         return *this;
     }
 
     DSTRUCT_MOVE_SEMANTICS(XValueStack) {
-        mXValue_d = dstruct::move(ds.mXValue_d);
+        mXStack_d = dstruct::move(ds.mXStack_d);
         mCmp_d =  dstruct::move(ds.mCmp_d);
         mStack_d =  dstruct::move(ds.mStack_d);
         return *this;
@@ -48,25 +48,26 @@ public:
 
     T top() const { return mStack_d.top(); }
 
-    T getXValue() const { return mXValue_d; }
+    T getXValue() const { return mXStack_d.top(); }
 
     void push(const T &val) {
-        if (mStack_d.empty() || mCmp_d(val, mXValue_d)) {
-            mStack_d.push(mXValue_d); // save XValue
-            mXValue_d = val;
+        T data = val;
+        if (mXStack_d.empty() || !mCmp_d(mXStack_d.top(), data)) {
+            mXStack_d.push(data); // data is the XValue until it is popped
         }
-        mStack_d.push(val);
+        mStack_d.push(data);
     }
 
     void pop() {
         T data = mStack_d.top(); mStack_d.pop();
-        if (mXValue_d == data) {
-            mXValue_d = mStack_d.top(); mStack_d.pop();
+        if (!mCmp_d(mXStack_d.top(), data)) {
+            mXStack_d.pop();
         }
         // return dstruct::move(data);
     }
 
     void clear() {
+        mXStack_d.clear();
         mStack_d.clear();
     }
 
@@ -75,9 +76,9 @@ public:
     ConstIteratorType end() const { return mStack_d.end(); }
 
 protected:
-    T mXValue_d;
     Compare mCmp_d;
     StackType mStack_d;
+    StackType mXStack_d; // XValues, the current one on top
 };
 
 }
-- 
2.43.0


From 0e544065d6a3c892455c2679dfc601b62a1607f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 33/35] fix: Deque iterators at the end of an arr differ from
 those at its neighbour

Iterators compared addresses only: with adjacent blocks (static memory) the
end of the last arr is the begin of another one, so iteration stopped early,
copies and clear missed elements, and a resize could drop them.
---
 core/ds/queue/DoubleEndedQueue.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index af31802..e951cd9 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -89,6 +89,15 @@ public:
             _sync();
     }
 
+public: // Note: the end of an arr may have the same address as the begin of another one
+    bool operator==(const Self &it) const {
+        return mCurrMapIndex_d == it.mCurrMapIndex_d && Self::mPointer_d == it.mPointer_d;
+    }
+
+    bool operator!=(const Self &it) const {
+        return !(*this == it);
+    }
+
 public: // ForwardIterator
     Self& operator++() {
         static int cnt = 1;
@@ -247,7 +256,7 @@ public: // push/pop
         if (mCapacity_d == 0) {
             DSTRUCT_ASSERT(mArrMapTable_d.empty());
             _only_init();
-        } else if (mEnd_d.mCurr_d == mArrMapTable_d.back()->end()) {
+        } else if (mEnd_d.mCurrMapIndex_d + 1 == mArrMapTable_d.size() && mEnd_d.mCurr_d == mArrMapTable_d.back()->end()) {
             _resize(mCapacity_d * 2);
         }
         dstruct::construct(&(*mEnd_d), obj);
@@ -259,7 +268,7 @@ public: // push/pop
         if (mCapacity_d == 0) {
             DSTRUCT_ASSERT(mArrMapTable_d.empty());
             _only_init();
-        } else if (mBegin_d.mCurr_d == mArrMapTable_d[0]->begin()) {
+        } else if (mBegin_d.mCurrMapIndex_d == 0 && mBegin_d.mCurr_d == mArrMapTable_d[0]->begin()) {
             _resize(mCapacity_d * 2);
         }
         mBegin_d--;
@@ -398,12 +407,14 @@ protected:
 
         // boundary check
         if (mEnd_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {
+            // only if old_mEnd == mBegin_d
+            bool needUpdateBegin = mBegin_d == mEnd_d;
+
             mEnd_d.mCurrMapIndex_d++;
             mEnd_d.mCurr_d = mArrMapTable_d[mEnd_d.mCurrMapIndex_d]->begin();
             mEnd_d._sync();
 
-            // only if old_mEnd == mBegin_d
-            if (mBegin_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {
+            if (needUpdateBegin) {
                 mBegin_d = mEnd_d;
             }
         }
-- 
2.43.0


From b4ffb8951aa94da521b06912ba07b889bb40e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 34/35] fix: stop in Vector and Deque when the allocator
 refuses a request

The check in AllocSpec moves to the places that use the storage.
---
 core/ds/array/Vector.hpp           | 3 +++
 core/ds/queue/DoubleEndedQueue.hpp | 2 ++
 spec/DStructSpec.hpp               | 4 +---
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index d76b4a0..8a4d53b 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -167,6 +167,8 @@ public:
         else
             mC_d = Vector::Alloc_::allocate(n);
 
+        DSTRUCT_CRASH(n != 0 && mC_d == nullptr); // request was refused
+
         if (oldC) {
             DSTRUCT_ASSERT(mCapacity_d != 0);
             for (int i = 0; i < mSize_d; i++) {
@@ -193,6 +195,7 @@ public:
         // alloc
         PointerType oldC = mC_d;
         mC_d = Vector::Alloc_::allocate(n);
+        DSTRUCT_CRASH(mC_d == nullptr); // request was refused
 
         // set, before release: element may be in the old storage
         for (int i = mSize_d; i < n; i++) {
diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index e951cd9..128c253 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -350,6 +350,7 @@ protected:
         // alloc arr and fill map-table
         for (int i = 0; i < MIN_MAP_TABLE_SIZE; i++) {
             mArrMapTable_d[i] = AllocArray_::allocate();
+            DSTRUCT_CRASH(mArrMapTable_d[i] == nullptr); // request was refused
         }
         auto midMapIndex = MIN_MAP_TABLE_SIZE / 2;
         mBegin_d = mEnd_d = decltype(mBegin_d)(midMapIndex, 0, &mArrMapTable_d);
@@ -388,6 +389,7 @@ protected:
         for (int i = 0; i < newMapTableSize ; i++) {
             if (i < newArrStartIndex || newArrEndIndex < i) {
                 mArrMapTable_d[i] = AllocArray_::allocate();
+                DSTRUCT_CRASH(mArrMapTable_d[i] == nullptr); // request was refused
             } else {
                 mArrMapTable_d[i] = oldArrMapTable[oldArrStartIndex + (i - newArrStartIndex)];
             }
diff --git a/spec/DStructSpec.hpp b/spec/DStructSpec.hpp
index 778ad99..6de7657 100644
--- a/spec/DStructSpec.hpp
+++ b/spec/DStructSpec.hpp
@@ -45,9 +45,7 @@ struct Alloc {
 template <typename T, typename Alloc>
 struct AllocSpec {
     static T *allocate(int n = 1) {
-        T *ptr = static_cast<T *>(Alloc::allocate(n * sizeof(T)));
-        DSTRUCT_CRASH(ptr == nullptr);
-        return ptr;
+        return static_cast<T *>(Alloc::allocate(n * sizeof(T)));
     }
 
     static void deallocate(T *ptr, int n = 1) {
-- 
2.43.0


From 2616166a8f301847266ab15f0545dde91f02c1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 35/35] fix: find the node of a BSTree element aligned more
 strictly than the links

TreeNode::data_to_link took the element to lie sizeof(Link) bytes into its
node, so erase() of a tree of e.g. long double unlinked the wrong address.
---
 core/ds/tree/tree-base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/tree/tree-base.hpp b/core/ds/tree/tree-base.hpp
index 4850ef1..89c76e5 100644
--- a/core/ds/tree/tree-base.hpp
+++ b/core/ds/tree/tree-base.hpp
@@ -34,8 +34,8 @@ struct TreeNode {
     }
 
     static Link * data_to_link(const T *data) {
-        // TODO: (void *) verify/test
-        return reinterpret_cast<Link *>((int8_t *)(data) - sizeof(Link));
+        // data may be aligned more strictly than link, and then there is padding between them
+        return reinterpret_cast<Link *>((int8_t *)(data) - (sizeof(Link) + alignof(T) - 1) / alignof(T) * alignof(T));
     }
 };
 
-- 
2.43.0

