From 41842f9a18b6674c1217a084763b451a3043188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 01/33] fix: Int8 and UInt8 MarshalBinary panicked

The encoder wrote to index 0 of an empty slice, so marshaling any Int8 or
UInt8 panicked. Allocate the one byte it needs.
---
 types/int.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/int.go b/types/int.go
index 3431e04..8e9f06e 100644
--- a/types/int.go
+++ b/types/int.go
@@ -20,7 +20,7 @@ type Int int
 type UInt uint
 
 func (self *Int8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
@@ -54,7 +54,7 @@ func (self Int8) Hash() int {
 }
 
 func (self *UInt8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
-- 
2.43.0


From 63749e1a23d7bc5c107d4d6fcce5bba86dca72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 02/33] fix: Int and UInt did not survive
 MarshalBinary/UnmarshalBinary

Both were truncated to 4 bytes on the way out and zero extended on the way
in. Negative Ints came back as large positive numbers and anything wider
than 32 bits lost its high bits. Encode all 8 bytes. Data written with the
old 4 byte encoding can still be read.
---
 types/int.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/types/int.go b/types/int.go
index 8e9f06e..7482fe3 100644
--- a/types/int.go
+++ b/types/int.go
@@ -292,16 +292,21 @@ func (self UInt64) Hash() int {
 }
 
 func (self *Int) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *Int) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) == 4 {
+		// written when Int was encoded in 4 bytes
+		*self = Int(int32(binary.BigEndian.Uint32(data)))
+		return nil
+	}
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = Int(binary.BigEndian.Uint32(data))
+	*self = Int(binary.BigEndian.Uint64(data))
 	return nil
 }
 
@@ -326,16 +331,21 @@ func (self Int) Hash() int {
 }
 
 func (self *UInt) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *UInt) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) == 4 {
+		// written when UInt was encoded in 4 bytes
+		*self = UInt(binary.BigEndian.Uint32(data))
+		return nil
+	}
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = UInt(binary.BigEndian.Uint32(data))
+	*self = UInt(binary.BigEndian.Uint64(data))
 	return nil
 }
 
-- 
2.43.0


From e03f93fb896d6a380d330edce13b07cb2f38c53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 03/33] fix: unmarshaled ByteSlice aliased the input buffer

A decoded ByteSlice pointed into the caller's buffer. Reusing the buffer
changed the contents of already decoded lists and sets. Copy the data.
---
 types/string.go | 2 +-
 types/util.go   | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/types/string.go b/types/string.go
index d58393b..4ee0520 100644
--- a/types/string.go
+++ b/types/string.go
@@ -44,7 +44,7 @@ func (self *ByteSlice) MarshalBinary() ([]byte, error) {
 }
 
 func (self *ByteSlice) UnmarshalBinary(data []byte) error {
-	*self = ByteSlice(data)
+	*self = append(make(ByteSlice, 0, len(data)), data...)
 	return nil
 }
 
diff --git a/types/util.go b/types/util.go
index c489714..cf31417 100644
--- a/types/util.go
+++ b/types/util.go
@@ -318,7 +318,12 @@ func ByteSliceMarshals() (ItemMarshal, ItemUnmarshal) {
 		return []byte(item.(ByteSlice)), nil
 	}
 	unmarshal := func(bytes []byte) (Hashable, error) {
-		return ByteSlice(bytes), nil
+		i := ByteSlice(nil)
+		err := i.UnmarshalBinary(bytes)
+		if err != nil {
+			return nil, err
+		}
+		return i, nil
 	}
 	return marshal, unmarshal
 }
-- 
2.43.0


From 29dd4037ceedf061d7b7a7a082aa554f8ec8a2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 04/33] fix: IsNil panicked on values which cannot be nil

Tree nodes implemented by a non-pointer type could not be traversed
because reflect's IsNil panics on them. They are simply not nil.
---
 types/util.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/types/util.go b/types/util.go
index cf31417..5b8e82c 100644
--- a/types/util.go
+++ b/types/util.go
@@ -5,7 +5,15 @@ import (
 )
 
 func IsNil(object interface{}) bool {
-	return object == nil || reflect.ValueOf(object).IsNil()
+	if object == nil {
+		return true
+	}
+	v := reflect.ValueOf(object)
+	switch v.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
+		return v.IsNil()
+	}
+	return false
 }
 
 func MakeKVIteratorFromTreeNodeIterator(tni TreeNodeIterator) KVIterator {
-- 
2.43.0


From 2b9182ec7b50d002ac67bc1e90e5b70596ed3b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 05/33] fix: pre-order and post-order traversal of an empty
 tree panicked

The nil root was pushed on the stack and then dereferenced. The in-order
traversal already handles this, do the same for the other two.
---
 tree/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tree/util.go b/tree/util.go
index 0b86171..56c6eff 100644
--- a/tree/util.go
+++ b/tree/util.go
@@ -48,7 +48,10 @@ func TraverseBinaryTreeInOrder(node types.BinaryTreeNode) types.TreeNodeIterator
 }
 
 func TraverseTreePreOrder(node types.TreeNode) types.TreeNodeIterator {
-	stack := append(make([]types.TreeNode, 0, 10), tn_expose_nil(node))
+	stack := make([]types.TreeNode, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, root)
+	}
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
 		if len(stack) <= 0 {
@@ -86,7 +89,10 @@ func TraverseTreePostOrder(node types.TreeNode) types.TreeNodeIterator {
 		}
 	}
 
-	stack := append(make([]entry, 0, 10), entry{tn_expose_nil(node), 0})
+	stack := make([]entry, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, entry{root, 0})
+	}
 
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
-- 
2.43.0


From fa8aafbbc74523c8472f0c4eb95bdb9c3ba7b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 06/33] fix: empty containers that are equal had different
 hashes

List.Hash special cased the empty list to 0 while list.Hash, used by the
linked list and deque, did not. An empty List equals an empty LinkedList,
so they must hash the same.
---
 list/array_list.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/list/array_list.go b/list/array_list.go
index a27096a..710d899 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -235,9 +235,6 @@ func Less(a, b types.IterableContainer) bool {
 
 func (l *List) Hash() int {
 	h := fnv.New32a()
-	if len(l.list) == 0 {
-		return 0
-	}
 	bs := make([]byte, 4)
 	for _, item := range l.list {
 		binary.LittleEndian.PutUint32(bs, uint32(item.Hash()))
-- 
2.43.0


From 0c4cc146c3aecaaeac320db72445a557cb56506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 07/33] fix: MapSet.Put did not replace the value of an
 existing key

Put delegated to Add, which does nothing when the key is present, so the
new value was silently dropped.
---
 set/mapset.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/set/mapset.go b/set/mapset.go
index 20869e1..eb97581 100644
--- a/set/mapset.go
+++ b/set/mapset.go
@@ -84,7 +84,14 @@ func (m *MapSet) Add(item types.Hashable) (err error) {
 }
 
 func (m *MapSet) Put(key types.Hashable, value interface{}) (err error) {
-	return m.Add(&types.MapEntry{key, value})
+	me := &types.MapEntry{key, value}
+	if m.Has(me) {
+		// Adding an entry which is already in the set is a no-op.
+		if err := m.Delete(me); err != nil {
+			return err
+		}
+	}
+	return m.Add(me)
 }
 
 func (m *MapSet) Get(key types.Hashable) (value interface{}, err error) {
-- 
2.43.0


From 74f9bf9d45711fe9f2f412647f307f6cb663e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 08/33] fix: hash table panicked on the most negative hash
 value

The absolute value of the smallest int is itself, so the bucket index was
negative. Treat the hash as unsigned instead.
---
 hashtable/hashtable.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 5c94b03..0738d77 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -14,14 +14,6 @@ type Hash struct {
 	size  int
 }
 
-func abs(x int) int {
-	if x < 0 {
-		return -x
-	} else {
-		return x
-	}
-}
-
 func (self *entry) Put(key Hashable, value interface{}) (e *entry, appended bool) {
 	if self == nil {
 		return &entry{key, value, nil}, true
@@ -65,7 +57,7 @@ func NewHashTable(initial_size int) *Hash {
 }
 
 func (self *Hash) bucket(key Hashable) int {
-	return abs(key.Hash()) % len(self.table)
+	return int(uint(key.Hash()) % uint(len(self.table)))
 }
 
 func (self *Hash) Size() int { return self.size }
-- 
2.43.0


From 6993317b4fdc0f7f6de5f4ad01d116e961327362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 09/33] fix: hash table created with an initial size of 0
 panicked

The bucket computation divided by the number of buckets and doubling an
empty table leaves it empty. Always start with at least one bucket.
---
 hashtable/hashtable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 0738d77..8240bb0 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -50,6 +50,9 @@ func (self *entry) Remove(key Hashable) *entry {
 }
 
 func NewHashTable(initial_size int) *Hash {
+	if initial_size < 1 {
+		initial_size = 1
+	}
 	return &Hash{
 		table: make([]*entry, initial_size),
 		size:  0,
-- 
2.43.0


From 54f3b6b60b6b337a7a74afdbdc3ccbe777f01f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 10/33] fix: popping an empty UniquePQ panicked

Heap.Pop returns nil when it is empty. UniquePQ asserted the type of that
nil. Return nil as well.
---
 heap/unique.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heap/unique.go b/heap/unique.go
index d8014ec..9ebab1c 100644
--- a/heap/unique.go
+++ b/heap/unique.go
@@ -48,6 +48,9 @@ func (u *UniquePQ) Peek() interface{} {
 
 // Get and remove the top element
 func (u *UniquePQ) Pop() interface{} {
+	if u.pq.Size() == 0 {
+		return nil
+	}
 	item := u.pq.Pop().(types.Hashable)
 	u.set.Delete(item)
 	return item
-- 
2.43.0


From b4dd3087fb68c332169b87c9ae606a0bcef36fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 11/33] fix: Pool.Stop could return before queued work had run

Workers registered with the wait group from their own goroutine. When Stop
ran before they were scheduled it had nothing to wait for. Register the
worker before starting it.
---
 pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/pool.go b/pool/pool.go
index 5e919e7..0efbbf1 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -29,6 +29,7 @@ func New(n int) *Pool {
 			workin: &pool.workin,
 			workCond: pool.workCond,
 		}
+		pool.wg.Add(1)
 		go w.work()
 		pool.workers = append(pool.workers, w)
 	}
@@ -108,7 +109,6 @@ type worker struct {
 }
 
 func (w *worker) work() {
-	w.wg.Add(1)
 	for f := range w.in {
 		f()
 		w.workCond.L.Lock()
-- 
2.43.0


From 9026cd11fcce340ed4dbaca04dd80f0976e7c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 12/33] fix: an exception thrown by a finally skipped the
 remaining finallies

It also escaped from Error and Exception as a panic instead of being
returned. Run every finally and let the last exception thrown win.
---
 exc/block.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exc/block.go b/exc/block.go
index 6543f4f..dfc078a 100644
--- a/exc/block.go
+++ b/exc/block.go
@@ -144,7 +144,9 @@ func (b *Block) run() Throwable {
 		}
 	}
 	for _, finally := range b.finallies {
-		finally()
+		if e := Try(finally).exec(); e != nil {
+			err = e
+		}
 	}
 	return err
 }
-- 
2.43.0


From c9572b9cd05ba125cd51c61ebf8e6637d207ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 13/33] fix: Rethrow lost the type of custom exceptions

Chain is promoted from the embedded Exception and returns that embedded
value. A rethrown custom exception could therefore only be caught as
*Exception.
---
 exc/exception.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/exc/exception.go b/exc/exception.go
index f06db2f..d5b0745 100644
--- a/exc/exception.go
+++ b/exc/exception.go
@@ -169,7 +169,13 @@ func Throw(e Throwable) {
 //    }).Unwind()
 //
 func Rethrow(e Throwable, err *Error) {
-	throw(e.Chain(err))
+	t := e.Chain(err)
+	if t == Throwable(e.Exc()) {
+		// The error was chained on to the Exception embedded in e. Throw e to
+		// keep its type.
+		t = e
+	}
+	throw(t)
 }
 
 func throw(e Throwable) {
-- 
2.43.0


From 1b367f28726da9574660d8e687d79c9e308ef5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:41 +0000
Subject: [PATCH 14/33] fix: removing from a B+Tree with duplicate keys lost
 and skipped entries

The removal loop walked the leaves with an iterator while shifting entries
out from under it.
- It skipped the entry after each removed one.
- When a block in a run of duplicates became empty the wrong block was
  handed back to the parent, which dropped the rest of the run.
- It could leave the first block of a run partially filled. A later insert
  of a larger key then landed in the middle of the run.
- Removing from an empty tree panicked.

Filter each block of the run in place and then compact the run.
---
 tree/bptree/bptree_node.go | 78 +++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 0b010a4..4b9b3ff 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -463,13 +463,13 @@ func (self *BpNode) put_pointer_at(i int, pointer *BpNode) error {
 
 func (self *BpNode) remove(key types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
 	if self.Internal() {
-		return self.internal_remove(key, nil, where)
+		return self.internal_remove(key, where)
 	} else {
-		return self.leaf_remove(key, self.keys[len(self.keys)-1], where)
+		return self.leaf_remove(key, where)
 	}
 }
 
-func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where types.WhereFunc) (a *BpNode, err error) {
+func (self *BpNode) internal_remove(key types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
 	if !self.Internal() {
 		panic(errors.BpTreeError("Expected a internal node"))
 	}
@@ -479,20 +479,11 @@ func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where t
 		// so we have to subtract one from the index.
 		i--
 	}
-	if i+1 < len(self.keys) {
-		sibling = self.pointers[i+1]
-	} else if sibling != nil {
-		sibling = sibling.left_most_leaf()
-	}
 	child := self.pointers[i]
 	if child.Internal() {
-		child, err = child.internal_remove(key, sibling, where)
+		child, err = child.internal_remove(key, where)
 	} else {
-		if sibling == nil {
-			child, err = child.leaf_remove(key, nil, where)
-		} else {
-			child, err = child.leaf_remove(key, sibling.keys[0], where)
-		}
+		child, err = child.leaf_remove(key, where)
 	}
 	if err != nil {
 		return nil, err
@@ -514,13 +505,20 @@ func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where t
 	return self, nil
 }
 
-func (self *BpNode) leaf_remove(key, stop types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
+func (self *BpNode) leaf_remove(key types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
 	if self.Internal() {
 		return nil, errors.BpTreeError("Expected a leaf node")
 	}
-	a = self
-	for j, l, next := self.forward(key, key)(); next != nil; j, l, next = next() {
-		if where(l.values[j]) {
+	for l := self; l != nil; l = l.next {
+		j, has := l.find(key)
+		if !has {
+			break
+		}
+		for j < len(l.keys) && l.keys[j].Equals(key) {
+			if !where(l.values[j]) {
+				j++
+				continue
+			}
 			if err := l.remove_key_at(j); err != nil {
 				return nil, err
 			}
@@ -528,20 +526,40 @@ func (self *BpNode) leaf_remove(key, stop types.Hashable, where types.WhereFunc)
 				return nil, err
 			}
 		}
-		if len(l.keys) == 0 {
-			remove_linked_list_node(l)
-			if l.next == nil {
-				a = nil
-			} else if stop == nil {
-				a = nil
-			} else if !l.next.keys[0].Equals(stop) {
-				a = l.next
-			} else {
-				a = nil
-			}
+		if j < len(l.keys) {
+			break
+		}
+	}
+	self.compact_run(key)
+	if len(self.keys) == 0 {
+		remove_linked_list_node(self)
+		return nil, nil
+	}
+	return self, nil
+}
+
+/* Moves the entries of the blocks following this one in the run for key
+ * forward, such that every block in the run except for the last one is full.
+ * Inserting into the run depends on this. Emptied blocks (other than this one)
+ * are unlinked.
+ */
+func (self *BpNode) compact_run(key types.Hashable) {
+	dst := self
+	for src := self.next; src != nil && (len(src.keys) == 0 || src.keys[0].Equals(key)); src = src.next {
+		n := cap(dst.keys) - len(dst.keys)
+		if n > len(src.keys) {
+			n = len(src.keys)
+		}
+		dst.keys = append(dst.keys, src.keys[:n]...)
+		dst.values = append(dst.values, src.values[:n]...)
+		src.keys = src.keys[:copy(src.keys, src.keys[n:])]
+		src.values = src.values[:copy(src.values, src.values[n:])]
+		if len(src.keys) == 0 {
+			remove_linked_list_node(src)
+		} else {
+			dst = src
 		}
 	}
-	return a, nil
 }
 
 func (self *BpNode) remove_key_at(i int) error {
-- 
2.43.0


From f7471b5dbb5b486bf6ad11f8f67015272f783c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:41 +0000
Subject: [PATCH 15/33] fix: BpTree.Size was wrong after RemoveWhere

The size was always reduced by one, no matter how many entries matched.
Count the entries which are actually removed.
---
 tree/bptree/bptree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree/bptree/bptree.go b/tree/bptree/bptree.go
index bdf3d16..8ee60e3 100644
--- a/tree/bptree/bptree.go
+++ b/tree/bptree/bptree.go
@@ -93,7 +93,14 @@ func (self *BpTree) Range(from, to types.Hashable) (kvi types.KVIterator) {
 
 func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err error) {
 	ns := self.root.NodeSize()
-	new_root, err := self.root.remove(key, where)
+	removed := 0
+	new_root, err := self.root.remove(key, func(value interface{}) bool {
+		if !where(value) {
+			return false
+		}
+		removed++
+		return true
+	})
 	if err != nil {
 		return err
 	}
@@ -102,7 +109,7 @@ func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err
 	} else {
 		self.root = new_root
 	}
-	self.size -= 1
+	self.size -= removed
 	return nil
 }
 
-- 
2.43.0


From 187f5855a0a6f8b1ada7e783ed04ab930ec793ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:42 +0000
Subject: [PATCH 16/33] fix: B+Tree range scans starting past the last key
 returned it

get_start returns the last key when the search key is greater than all of
the keys. Range, Find and Replace treated it as part of the range.
---
 tree/bptree/bptree_node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 4b9b3ff..e5d4947 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -664,7 +664,10 @@ func (self *BpNode) all_backward() (li loc_iterator) {
 func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 	j, l := self.get_start(from)
 	end := false
-	j--
+	if j >= len(l.keys) || !l.keys[j].Less(from) {
+		// otherwise all of the keys are less than from
+		j--
+	}
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
 		j, l, end = next_location(j, l)
 		if end || to.Less(l.keys[j]) {
-- 
2.43.0


From 84dfd3953dafad560802ef750cac8a3b5601ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:42 +0000
Subject: [PATCH 17/33] fix: backward B+Tree range scans could start past the
 range

When the starting key was not in the tree the scan began at the next larger
key. It also panicked on an empty tree.
---
 tree/bptree/bptree_node.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index e5d4947..ee04d82 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -679,8 +679,14 @@ func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 }
 
 func (self *BpNode) backward(from, to types.Hashable) (li loc_iterator) {
+	if len(self.keys) == 0 {
+		return self.all_backward()
+	}
 	j, l := self.get_end(from)
 	end := false
+	if from.Less(l.keys[j]) {
+		j, l, end = prev_location(j, l)
+	}
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
 		if end || l.keys[j].Less(to) {
 			return -1, nil, nil
-- 
2.43.0


From 28b37e7435b32f5f8203bd810e1552f8395e7315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:43 +0000
Subject: [PATCH 18/33] fix: BpTree.Backward skipped duplicates of the largest
 key

Only the first block of a run of duplicates is in the parent node, the
backward scan has to start at the last one.
---
 tree/bptree/bptree_node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index ee04d82..5143504 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -98,6 +98,10 @@ func (self *BpNode) right_most_leaf() *BpNode {
 	if self.Internal() {
 		return self.pointers[len(self.pointers)-1].right_most_leaf()
 	}
+	for self.next != nil {
+		// the blocks of a run of duplicates are not in the parent
+		self = self.next
+	}
 	return self
 }
 
-- 
2.43.0


From 645f85676b6f05d649cf47feafa088fc838e8f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:43 +0000
Subject: [PATCH 19/33] fix: BpMap.Get and Remove panicked on an empty map

Return a not found error as they do for any other missing key.
---
 tree/bptree/bpmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/bptree/bpmap.go b/tree/bptree/bpmap.go
index e62ac48..ec178eb 100644
--- a/tree/bptree/bpmap.go
+++ b/tree/bptree/bpmap.go
@@ -40,7 +40,7 @@ func (self *BpMap) Put(key types.Hashable, value interface{}) (err error) {
 
 func (self *BpMap) Get(key types.Hashable) (value interface{}, err error) {
 	j, l := self.root.get_start(key)
-	if l.keys[j].Equals(key) {
+	if j < len(l.keys) && l.keys[j].Equals(key) {
 		return l.values[j], nil
 	}
 	return nil, errors.NotFound(key)
-- 
2.43.0


From c25a74d9c3bca158c3cea3d103fe5d14c60963f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:20 +0000
Subject: [PATCH 20/33] fix: AvlTree did not stay balanced

Inserting n keys in order produced a tree whose height grew with the square
root of n.
- Node heights were incremented on every insert instead of being computed
  from the children.
- Height differences of 2 were tolerated.
- Rotations moved single nodes around rather than rotating.
- Removals hung one subtree below the other and only rebalanced when the key
  was not found.

Use the textbook single and double rotations on the way back up from inserts
and removals.
---
 tree/avl/avltree.go | 74 ++++++++++++++++++---------------------------
 1 file changed, 30 insertions(+), 44 deletions(-)

diff --git a/tree/avl/avltree.go b/tree/avl/avltree.go
index 9363f7a..c80d9df 100644
--- a/tree/avl/avltree.go
+++ b/tree/avl/avltree.go
@@ -137,27 +137,7 @@ func (self *AvlNode) pop_node(node *AvlNode) *AvlNode {
 		self.right = self.right.pop_node(node)
 	}
 
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self
-}
-
-func (self *AvlNode) push_node(node *AvlNode) *AvlNode {
-	if node == nil {
-		panic("node can't be nil")
-	} else if node.left != nil || node.right != nil {
-		panic("node now be a leaf")
-	}
-
-	if self == nil {
-		node.height = 1
-		return node
-	} else if node.key.Less(self.key) {
-		self.left = self.left.push_node(node)
-	} else {
-		self.right = self.right.push_node(node)
-	}
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self
+	return self.balance()
 }
 
 func (self *AvlNode) rotate_right() *AvlNode {
@@ -167,13 +147,12 @@ func (self *AvlNode) rotate_right() *AvlNode {
 	if self.left == nil {
 		return self
 	}
-	new_root := self.left.rmd()
-	self = self.pop_node(new_root)
-	new_root.left = self.left
-	new_root.right = self.right
-	self.left = nil
-	self.right = nil
-	return new_root.push_node(self)
+	new_root := self.left
+	self.left = new_root.right
+	new_root.right = self
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
+	return new_root
 }
 
 func (self *AvlNode) rotate_left() *AvlNode {
@@ -183,23 +162,29 @@ func (self *AvlNode) rotate_left() *AvlNode {
 	if self.right == nil {
 		return self
 	}
-	new_root := self.right.lmd()
-	self = self.pop_node(new_root)
-	new_root.left = self.left
-	new_root.right = self.right
-	self.left = nil
-	self.right = nil
-	return new_root.push_node(self)
+	new_root := self.right
+	self.right = new_root.left
+	new_root.left = self
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
+	return new_root
 }
 
 func (self *AvlNode) balance() *AvlNode {
 	if self == nil {
 		return self
 	}
-	for abs(self.left.Height()-self.right.Height()) > 2 {
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	if abs(self.left.Height()-self.right.Height()) > 1 {
 		if self.left.Height() > self.right.Height() {
+			if self.left.left.Height() < self.left.right.Height() {
+				self.left = self.left.rotate_left()
+			}
 			self = self.rotate_right()
 		} else {
+			if self.right.right.Height() < self.right.left.Height() {
+				self.right = self.right.rotate_right()
+			}
 			self = self.rotate_left()
 		}
 	}
@@ -222,7 +207,6 @@ func (self *AvlNode) Put(key types.Hashable, value interface{}) (_ *AvlNode, upd
 		self.right, updated = self.right.Put(key, value)
 	}
 	if !updated {
-		self.height += 1
 		return self.balance(), updated
 	}
 	return self, updated
@@ -235,15 +219,17 @@ func (self *AvlNode) Remove(key types.Hashable) (_ *AvlNode, value interface{},
 
 	if self.key.Equals(key) {
 		if self.left != nil && self.right != nil {
+			var new_root *AvlNode
 			if self.left.Size() < self.right.Size() {
-				lmd := self.right.lmd()
-				lmd.left = self.left
-				return self.right, self.value, nil
+				new_root = self.right.lmd()
+				self.right = self.right.pop_node(new_root)
 			} else {
-				rmd := self.left.rmd()
-				rmd.right = self.right
-				return self.left, self.value, nil
+				new_root = self.left.rmd()
+				self.left = self.left.pop_node(new_root)
 			}
+			new_root.left = self.left
+			new_root.right = self.right
+			return new_root.balance(), self.value, nil
 		} else if self.left == nil {
 			return self.right, self.value, nil
 		} else if self.right == nil {
@@ -257,7 +243,7 @@ func (self *AvlNode) Remove(key types.Hashable) (_ *AvlNode, value interface{},
 	} else {
 		self.right, value, err = self.right.Remove(key)
 	}
-	if err != nil {
+	if err == nil {
 		return self.balance(), value, err
 	}
 	return self, value, err
-- 
2.43.0


From c5db7d3400d8451c8d7883d8cfd1e39df987d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:20 +0000
Subject: [PATCH 21/33] fix: ImmutableAvlTree did not stay balanced

It had the same problems as AvlTree: heights which were too large, too large
a tolerance, rotations which did not rotate and no rebalancing after
removals. Use single and double rotations which copy the nodes they change.
---
 tree/avl/imm_avltree.go | 72 ++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 41 deletions(-)

diff --git a/tree/avl/imm_avltree.go b/tree/avl/imm_avltree.go
index 9616bc4..8369173 100644
--- a/tree/avl/imm_avltree.go
+++ b/tree/avl/imm_avltree.go
@@ -140,28 +140,7 @@ func (self *ImmutableAvlNode) pop_node(node *ImmutableAvlNode) (new_self, new_no
 	}
 
 	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self, node
-}
-
-func (self *ImmutableAvlNode) push_node(node *ImmutableAvlNode) *ImmutableAvlNode {
-	if node == nil {
-		panic("node can't be nil")
-	} else if node.left != nil || node.right != nil {
-		panic("node must now be a leaf")
-	}
-
-	self = self.Copy()
-
-	if self == nil {
-		node.height = 1
-		return node
-	} else if node.key.Less(self.key) {
-		self.left = self.left.push_node(node)
-	} else {
-		self.right = self.right.push_node(node)
-	}
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self
+	return self.balance(), node
 }
 
 func (self *ImmutableAvlNode) rotate_right() *ImmutableAvlNode {
@@ -171,7 +150,13 @@ func (self *ImmutableAvlNode) rotate_right() *ImmutableAvlNode {
 	if self.left == nil {
 		return self
 	}
-	return self.rotate(self.left.rmd)
+	self = self.Copy()
+	new_root := self.left.Copy()
+	self.left = new_root.right
+	new_root.right = self
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
+	return new_root
 }
 
 func (self *ImmutableAvlNode) rotate_left() *ImmutableAvlNode {
@@ -181,26 +166,30 @@ func (self *ImmutableAvlNode) rotate_left() *ImmutableAvlNode {
 	if self.right == nil {
 		return self
 	}
-	return self.rotate(self.right.lmd)
-}
-
-func (self *ImmutableAvlNode) rotate(get_new_root func() *ImmutableAvlNode) *ImmutableAvlNode {
-	self, new_root := self.pop_node(get_new_root())
-	new_root.left = self.left
-	new_root.right = self.right
-	self.left = nil
-	self.right = nil
-	return new_root.push_node(self)
+	self = self.Copy()
+	new_root := self.right.Copy()
+	self.right = new_root.left
+	new_root.left = self
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
+	return new_root
 }
 
 func (self *ImmutableAvlNode) balance() *ImmutableAvlNode {
 	if self == nil {
 		return self
 	}
-	for abs(self.left.Height()-self.right.Height()) > 2 {
+	if abs(self.left.Height()-self.right.Height()) > 1 {
+		self = self.Copy()
 		if self.left.Height() > self.right.Height() {
+			if self.left.left.Height() < self.left.right.Height() {
+				self.left = self.left.rotate_left()
+			}
 			self = self.rotate_right()
 		} else {
+			if self.right.right.Height() < self.right.left.Height() {
+				self.right = self.right.rotate_right()
+			}
 			self = self.rotate_left()
 		}
 	}
@@ -227,7 +216,6 @@ func (self *ImmutableAvlNode) Put(key types.Hashable, value interface{}) (_ *Imm
 	self.height = max(self.left.Height(), self.right.Height()) + 1
 
 	if !updated {
-		self.height += 1
 		return self.balance(), updated
 	}
 	return self, updated
@@ -241,14 +229,16 @@ func (self *ImmutableAvlNode) Remove(key types.Hashable) (_ *ImmutableAvlNode, v
 	if self.key.Equals(key) {
 		if self.left != nil && self.right != nil {
 			var new_root *ImmutableAvlNode
+			left, right := self.left, self.right
 			if self.left.Size() < self.right.Size() {
-				self, new_root = self.pop_node(self.right.lmd())
+				right, new_root = self.right.pop_node(self.right.lmd())
 			} else {
-				self, new_root = self.pop_node(self.left.rmd())
+				left, new_root = self.left.pop_node(self.left.rmd())
 			}
-			new_root.left = self.left
-			new_root.right = self.right
-			return new_root, self.value, nil
+			new_root.left = left
+			new_root.right = right
+			new_root.height = max(left.Height(), right.Height()) + 1
+			return new_root.balance(), self.value, nil
 		} else if self.left == nil {
 			return self.right, self.value, nil
 		} else if self.right == nil {
@@ -266,7 +256,7 @@ func (self *ImmutableAvlNode) Remove(key types.Hashable) (_ *ImmutableAvlNode, v
 		self.right, value, err = self.right.Remove(key)
 	}
 	self.height = max(self.left.Height(), self.right.Height()) + 1
-	if err != nil {
+	if err == nil {
 		return self.balance(), value, err
 	}
 	return self, value, err
-- 
2.43.0


From 057455c4761210ed73ef32606a6a110376f7612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:26 +0000
Subject: [PATCH 22/33] fix: TST shared memory with the keys passed to it

Put, Get and Remove appended the terminator to the caller's slice. With
spare capacity this overwrote the byte following the key in the caller's
buffer and Put kept a reference to the buffer. Changing the buffer later
changed the keys in the trie. Copy the key.
---
 trie/tst.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/trie/tst.go b/trie/tst.go
index b9fd65e..756299b 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -34,11 +34,19 @@ func (self *TST) ValidateKey(key []byte) error {
 	return nil
 }
 
+// returns a copy of the key with END added to it
+func terminate(key []byte) ByteSlice {
+	symbol := make(ByteSlice, len(key)+1)
+	copy(symbol, key)
+	symbol[len(key)] = END
+	return symbol
+}
+
 func (self *TST) Put(key []byte, value interface{}) (err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return err
 	}
-	symbol := append(key, END)
+	symbol := terminate(key)
 	node, err := self.heads[symbol[0]].insert(symbol, value, 1)
 	if err != nil {
 		return err
@@ -62,7 +70,7 @@ func (self *TST) Get(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := append(key, END)
+	symbol := terminate(key)
 	next := &entry{self.heads[symbol[0]], 1}
 	for next != nil {
 		if next.n == nil {
@@ -90,7 +98,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := ByteSlice(append(key, END))
+	symbol := terminate(key)
 	check := func(n *TSTNode, err error) (*TSTNode, error) {
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 20cee3b09f7c4685a0caa2d4648c36e95ab07db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:32 +0000
Subject: [PATCH 23/33] fix: TST.Put failed after removing all keys with the
 same first byte

Remove left a node without children or key at the head. A later Put tried to
split it and returned an error. Prune the head like any other node.
---
 trie/tst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index 756299b..0c79a72 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -144,7 +144,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 		}
 		return n, nil
 	}
-	n, err := remove(self.heads[symbol[0]], 1)
+	n, err := check(remove(self.heads[symbol[0]], 1))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 857c6d6242acfbd5dd14a03de81d7a958a43f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:38 +0000
Subject: [PATCH 24/33] fix: TST.Put panicked when putting back a removed key

If the removed key was a prefix of another key the node for its terminator
stays without a middle child. Create the child when it is missing.
---
 trie/tst_node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trie/tst_node.go b/trie/tst_node.go
index b997a9f..0464243 100644
--- a/trie/tst_node.go
+++ b/trie/tst_node.go
@@ -168,7 +168,10 @@ func (n *TSTNode) insert(key ByteSlice, val interface{}, d int) (*TSTNode, error
 			}
 			n.l = l
 		} else if ch == n.ch {
-			if d+1 == len(key) && ch == END {
+			if d+1 == len(key) && ch == END && n.m == nil {
+				// the key was removed
+				n.m = NewAcceptingTSTNode(ch, key, val)
+			} else if d+1 == len(key) && ch == END {
 				n.m = n.m.Copy()
 				n.m.value = val
 			} else {
-- 
2.43.0


From 4e0385bdabfa8eae5d327622535c2b51716b15b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:44 +0000
Subject: [PATCH 25/33] fix: TST.PrefixFind with a prefix longer than the key
 it reached

It sliced the key to the length of the prefix, which panicked when the key
was too short. A prefix ending in a null byte matched the terminator.
---
 trie/tst.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index 0c79a72..c7ba4fa 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -1,6 +1,7 @@
 package trie
 
 import (
+	"bytes"
 	"fmt"
 	"strings"
 )
@@ -178,7 +179,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			} else if ch > next.n.ch {
 				next = &entry{next.n.r, next.d}
 			}
-		} else if next.n.accepting && next.n.key[:len(prefix)].Equals(prefix) {
+		} else if next.n.accepting && bytes.HasPrefix(next.n.key[:len(next.n.key)-1], prefix) {
 			root = next.n
 			break
 		} else {
-- 
2.43.0


From 0eb398b4b5b475b96431384e333a1e3071114877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:50 +0000
Subject: [PATCH 26/33] fix: appending to a key returned by a TST iterator
 corrupted the trie

The returned slice had the terminator as spare capacity. Limit the capacity
so that append has to copy.
---
 trie/tst.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trie/tst.go b/trie/tst.go
index c7ba4fa..08b9578 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -202,7 +202,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			}
 			n := tn.(*TSTNode)
 			if n.accepting {
-				return n.key[:len(n.key)-1], n.value, kv_iterator
+				return n.key[: len(n.key)-1 : len(n.key)-1], n.value, kv_iterator
 			}
 		}
 	}
@@ -230,7 +230,7 @@ func (self *TST) Iterate() KVIterator {
 			}
 			n := tn.(*TSTNode)
 			if n.accepting {
-				return n.key[:len(n.key)-1], n.value, kv_iterator
+				return n.key[: len(n.key)-1 : len(n.key)-1], n.value, kv_iterator
 			}
 		}
 	}
-- 
2.43.0


From 2f863dd9800256833a56cdfc9d0f43d1444c5ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:35 +0000
Subject: [PATCH 27/33] fix: unmarshaling truncated or corrupt lists panicked
 or dropped items

UnmarshalBinary sliced past the end of short data and ignored the error from
appending to a full fixed size list. A corrupt capacity could make it
allocate gigabytes. Check the lengths, report errors and leave the receiver
alone when decoding fails.
---
 list/array_list.go | 24 +++++++++++++++++++++---
 list/sorted.go     |  8 +++++++-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/list/array_list.go b/list/array_list.go
index 710d899..0fd8f76 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -56,24 +56,42 @@ func (m *MList) MarshalBinary() ([]byte, error) {
 }
 
 func (m *MList) UnmarshalBinary(bytes []byte) error {
-	m.List.fixed = bytes[0] == 1
+	if len(bytes) < 9 {
+		return errors.Errorf("data too short, expected at least 9 bytes got %v", len(bytes))
+	}
+	fixed := bytes[0] == 1
 	_cap := int(binary.LittleEndian.Uint32(bytes[1:5]))
 	size := int(binary.LittleEndian.Uint32(bytes[5:9]))
 	off := 9
-	m.list = make([]types.Hashable, 0, _cap)
+	if size > (len(bytes)-off)/4 {
+		return errors.Errorf("data too short for %v items", size)
+	}
+	if !fixed {
+		_cap = size
+	}
+	list := newList(_cap, fixed)
 	for i := 0; i < size; i++ {
 		s := off
 		e := off + 4
+		if e > len(bytes) {
+			return errors.Errorf("data too short for the length of item %v", i)
+		}
 		size := int(binary.LittleEndian.Uint32(bytes[s:e]))
 		s = e
 		e = s + size
+		if e > len(bytes) {
+			return errors.Errorf("data too short for item %v", i)
+		}
 		item, err := m.UnmarshalItem(bytes[s:e])
 		if err != nil {
 			return err
 		}
-		m.Append(item)
+		if err := list.Append(item); err != nil {
+			return err
+		}
 		off = e
 	}
+	m.List = *list
 	return nil
 }
 
diff --git a/list/sorted.go b/list/sorted.go
index 5e7c862..467ddf2 100644
--- a/list/sorted.go
+++ b/list/sorted.go
@@ -41,13 +41,19 @@ func (m *MSorted) MarshalBinary() ([]byte, error) {
 }
 
 func (m *MSorted) UnmarshalBinary(bytes []byte) error {
+	if len(bytes) < 1 {
+		return errors.Errorf("data too short, it is empty")
+	}
+	if err := m.MList.UnmarshalBinary(bytes[1:]); err != nil {
+		return err
+	}
 	allowDups := bytes[0]
 	if allowDups == 0 {
 		m.AllowDups = false
 	} else {
 		m.AllowDups = true
 	}
-	return m.MList.UnmarshalBinary(bytes[1:])
+	return nil
 }
 
 type Sorted struct {
-- 
2.43.0


From 2cc6d2f44ee4657090be0c4b83ccd6c96b9971c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:29 +0000
Subject: [PATCH 28/33] fix: running a Close block again could close the
 previous resource twice

The resource was remembered across runs of the block. When the second run
failed to create its resource, the one from the first run was closed again.
---
 exc/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exc/block.go b/exc/block.go
index dfc078a..33ea462 100644
--- a/exc/block.go
+++ b/exc/block.go
@@ -46,8 +46,8 @@ func Try(try func()) *Block {
 // returned. There are also ways to deal with that situation using an outer
 // Try/Finally.
 func Close(makeCloser func() io.Closer, try func(io.Closer)) *Block {
-	var c io.Closer = nil
 	return Try(func() {
+		var c io.Closer = nil
 		Try(func() {
 			c = makeCloser()
 			try(c)
-- 
2.43.0


From f5ccbac301ef9318f762ffeeeea6866c60e24b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:07 +0000
Subject: [PATCH 29/33] fix: in-order traversal followed typed nil children

---
 tree/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/util.go b/tree/util.go
index 56c6eff..365e04d 100644
--- a/tree/util.go
+++ b/tree/util.go
@@ -34,11 +34,11 @@ func TraverseBinaryTreeInOrder(node types.BinaryTreeNode) types.TreeNodeIterator
 		if len(stack) > 0 || cur != nil {
 			for cur != nil {
 				stack = append(stack, cur)
-				cur = cur.(types.BinaryTreeNode).Left()
+				cur = tn_expose_nil(cur.(types.BinaryTreeNode).Left())
 			}
 			stack, cur = pop(stack)
 			tn = cur
-			cur = cur.(types.BinaryTreeNode).Right()
+			cur = tn_expose_nil(cur.(types.BinaryTreeNode).Right())
 			return tn, tn_iterator
 		} else {
 			return nil, nil
-- 
2.43.0


From 7253c842536ea3d1e0eb1b307f55d67a0cc0f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:23 +0000
Subject: [PATCH 30/33] fix: Stop called while another Stop is running returned
 before the jobs had finished

---
 pool/pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pool/pool.go b/pool/pool.go
index 0efbbf1..3f4ba0d 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -66,6 +66,7 @@ func (p *Pool) Stop() {
 	p.mu.Lock()
 	if len(p.workers) == 0 {
 		p.mu.Unlock()
+		p.wg.Wait()
 		return
 	}
 	workers := p.workers
-- 
2.43.0


From de6b7a8bfd6dbe383257c81c02c8223f37db77f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:23 +0000
Subject: [PATCH 31/33] fix: WaitCount could be woken by a job that finished
 before it was called

---
 pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/pool.go b/pool/pool.go
index 3f4ba0d..0958dbf 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -114,8 +114,8 @@ func (w *worker) work() {
 		f()
 		w.workCond.L.Lock()
 		*w.workin -= 1
-		w.workCond.L.Unlock()
 		w.workCond.Broadcast()
+		w.workCond.L.Unlock()
 	}
 	w.wg.Done()
 }
-- 
2.43.0


From 5f1d75567f95ebc361a60793b793b91fe61da4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:39 +0000
Subject: [PATCH 32/33] fix: B+Tree kept removed entries and whole chains of
 removed blocks reachable through stale slots

---
 tree/bptree/bptree_node.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 5143504..d18ac0a 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -556,8 +556,9 @@ func (self *BpNode) compact_run(key types.Hashable) {
 		}
 		dst.keys = append(dst.keys, src.keys[:n]...)
 		dst.values = append(dst.values, src.values[:n]...)
-		src.keys = src.keys[:copy(src.keys, src.keys[n:])]
-		src.values = src.values[:copy(src.values, src.values[n:])]
+		copy(src.keys, src.keys[n:])
+		copy(src.values, src.values[n:])
+		src.truncate(len(src.keys) - n)
 		if len(src.keys) == 0 {
 			remove_linked_list_node(src)
 		} else {
@@ -573,6 +574,7 @@ func (self *BpNode) remove_key_at(i int) error {
 	for j := i; j < len(self.keys)-1; j++ {
 		self.keys[j] = self.keys[j+1]
 	}
+	self.keys[len(self.keys)-1] = nil // a stale slot would keep it reachable
 	self.keys = self.keys[:len(self.keys)-1]
 	return nil
 }
@@ -584,6 +586,7 @@ func (self *BpNode) remove_value_at(i int) error {
 	for j := i; j < len(self.values)-1; j++ {
 		self.values[j] = self.values[j+1]
 	}
+	self.values[len(self.values)-1] = nil // a stale slot would keep it reachable
 	self.values = self.values[:len(self.values)-1]
 	return nil
 }
@@ -595,6 +598,7 @@ func (self *BpNode) remove_ptr_at(i int) error {
 	for j := i; j < len(self.pointers)-1; j++ {
 		self.pointers[j] = self.pointers[j+1]
 	}
+	self.pointers[len(self.pointers)-1] = nil // a stale slot would keep it reachable
 	self.pointers = self.pointers[:len(self.pointers)-1]
 	return nil
 }
@@ -778,11 +782,27 @@ func balance_nodes(a, b *BpNode) {
 			b.pointers[i] = a.pointers[j]
 		}
 	}
-	a.keys = a.keys[:m]
-	if cap(a.values) > 0 {
-		a.values = a.values[:m]
+	a.truncate(m)
+}
+
+/* Drops the entries from n on. The slots are cleared, a stale slot would keep
+ * the entries (and blocks linked with them) reachable.
+ */
+func (self *BpNode) truncate(n int) {
+	for i := n; i < len(self.keys); i++ {
+		self.keys[i] = nil
+		if cap(self.values) > 0 {
+			self.values[i] = nil
+		}
+		if cap(self.pointers) > 0 {
+			self.pointers[i] = nil
+		}
 	}
-	if cap(a.pointers) > 0 {
-		a.pointers = a.pointers[:m]
+	self.keys = self.keys[:n]
+	if cap(self.values) > 0 {
+		self.values = self.values[:n]
+	}
+	if cap(self.pointers) > 0 {
+		self.pointers = self.pointers[:n]
 	}
 }
-- 
2.43.0


From 1341f1772fc3793ac112c957e255be337571dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:17 +0000
Subject: [PATCH 33/33] fix: BpTree.Keys compared the first key with nil

---
 tree/bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/bptree/bptree.go b/tree/bptree/bptree.go
index 8ee60e3..95e5a70 100644
--- a/tree/bptree/bptree.go
+++ b/tree/bptree/bptree.go
@@ -123,7 +123,7 @@ func (self *BpTree) Keys() (ki types.KIterator) {
 		if li == nil {
 			return nil, nil
 		}
-		if leaf.keys[i].Equals(prev) {
+		if prev != nil && leaf.keys[i].Equals(prev) {
 			return ki()
 		}
 		prev = leaf.keys[i]
-- 
2.43.0

