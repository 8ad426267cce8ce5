From c3296da107a74d0bed9a0288155cb0d06bad0d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 01/14] fix: evict the right item from HeapMedian windows

rebalance moves an item between the heaps and Push then queued the moved
item instead of the pushed one, so later evictions removed the wrong value;
with a window of 1 Push panicked on an empty low heap.
---
 quantile/heap_median.go | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/quantile/heap_median.go b/quantile/heap_median.go
index 76550a7..796d9c2 100644
--- a/quantile/heap_median.go
+++ b/quantile/heap_median.go
@@ -74,24 +74,20 @@ func (m *HeapMedian) Push(x float64) error {
 		}
 
 		item = tail.(*heap.Item)
-		low := item.HeapID == m.lowHeap.ID
-		switch {
-		// if new/old items are in the same heap, just replace the old item
-		case low && x <= m.lowHeap.Peek():
-			m.lowHeap.Update(item, x)
-		case !low && x > m.lowHeap.Peek():
-			m.highHeap.Update(item, x)
-		// otherwise, remove old item and push new value to other heap
-		case low && x > m.lowHeap.Peek():
+		// the low heap can only be empty here if the window size is 1
+		toLow := m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek()
+		// remove the old item, and reuse it for the new value
+		if item.HeapID == m.lowHeap.ID {
 			m.lowHeap.Remove(item)
-			item.Val = x
-			heapops.Push(m.highHeap, item)
-		default:
+		} else {
 			m.highHeap.Remove(item)
-			item.Val = x
+		}
+		item.Val = x
+		if toLow {
 			heapops.Push(m.lowHeap, item)
+		} else {
+			heapops.Push(m.highHeap, item)
 		}
-		item = m.rebalance(item)
 	} else {
 		item = &heap.Item{Val: x}
 		if m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek() {
@@ -99,8 +95,8 @@ func (m *HeapMedian) Push(x float64) error {
 		} else {
 			heapops.Push(m.highHeap, item)
 		}
-		item = m.rebalance(item)
 	}
+	m.rebalance()
 
 	if m.window != 0 {
 		err := m.queue.Put(item)
@@ -112,15 +108,12 @@ func (m *HeapMedian) Push(x float64) error {
 	return nil
 }
 
-func (m *HeapMedian) rebalance(item *heap.Item) *heap.Item {
+func (m *HeapMedian) rebalance() {
 	if m.lowHeap.Len()+1 < m.highHeap.Len() {
-		item = heapops.Pop(m.highHeap).(*heap.Item)
-		heapops.Push(m.lowHeap, item)
+		heapops.Push(m.lowHeap, heapops.Pop(m.highHeap))
 	} else if m.lowHeap.Len() > m.highHeap.Len()+1 {
-		item = heapops.Pop(m.lowHeap).(*heap.Item)
-		heapops.Push(m.highHeap, item)
+		heapops.Push(m.highHeap, heapops.Pop(m.lowHeap))
 	}
-	return item
 }
 
 // Value returns the value of the median.
-- 
2.43.0


From 7edc71195e2462bd47703990914262177c408e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 02/14] fix: compare skip list nodes by identity when computing
 widths

With duplicate values the walk stopped at the first equal value instead of
the next node of the level, leaving wrong widths and so a wrong Select/Rank.
---
 quantile/skiplist/skiplist.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/quantile/skiplist/skiplist.go b/quantile/skiplist/skiplist.go
index cde2ca6..d5c7d3b 100644
--- a/quantile/skiplist/skiplist.go
+++ b/quantile/skiplist/skiplist.go
@@ -31,10 +31,6 @@ func (n *Node) Value() float64 {
 	return n.val
 }
 
-func (n *Node) equals(m *Node) bool {
-	return (n == nil && m == nil) || (n != nil && m != nil && n.val == m.val)
-}
-
 func (n *Node) string() string {
 	if n == nil {
 		return "tail"
@@ -129,7 +125,7 @@ func (s *SkipList) Add(val float64) {
 		prevs[i].width[i]++
 	}
 	for i := 1; i < level; i++ {
-		for curr := node; !curr.equals(node.next[i]); curr = curr.next[i-1] {
+		for curr := node; curr != node.next[i]; curr = curr.next[i-1] {
 			node.width[i] += curr.width[i-1]
 		}
 		prevs[i].width[i] -= node.width[i]
-- 
2.43.0


From 8dce0dc7c9a958dd5af6fa88dffd69d2fc5777f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 03/14] fix: count equal values in the left subtree in the AVL
 tree's Rank

Rank returned the whole left subtree's size on an equal value, although the
left subtree also holds duplicates of it.
---
 quantile/ost/avl/node.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/quantile/ost/avl/node.go b/quantile/ost/avl/node.go
index a51bf74..5e2c98d 100644
--- a/quantile/ost/avl/node.go
+++ b/quantile/ost/avl/node.go
@@ -226,12 +226,11 @@ func (n *Node) Select(k int) order.Node {
 func (n *Node) Rank(val float64) int {
 	if n == nil {
 		return 0
-	} else if val < n.val {
+	} else if val <= n.val {
+		// values equal to n.val can also be in the left subtree
 		return n.left.Rank(val)
-	} else if val > n.val {
-		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	return 1 + n.left.Size() + n.right.Rank(val)
 }
 
 /*******************
-- 
2.43.0


From 62b2fb14775fc1e10e4095369e1c1aed8175e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 04/14] fix: handle duplicate values in the red-black tree's
 remove and Rank

A rotation on the way down could bring a duplicate of the removed value to
the top; deleting it there broke the color invariants and lost nodes or
panicked. Rank ignored duplicates in the left subtree.
---
 quantile/ost/rb/node.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index a1e7b29..62f307b 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -112,6 +112,9 @@ func (n *Node) remove(val float64) *Node {
 		}
 		n.left = n.left.remove(val)
 	} else {
+		// the rotations below can bring a duplicate of val to the top
+		// of the subtree, so remember which node is being looked at
+		root := n
 		if n.left.Color() == Red {
 			n = n.rotateRight()
 		}
@@ -121,7 +124,7 @@ func (n *Node) remove(val float64) *Node {
 		if n.right.Color() == Black && n.right.left.Color() == Black {
 			n = n.moveRedRight()
 		}
-		if val == n.val {
+		if n == root && val == n.val {
 			x := n.right.min()
 			n.val = x.val
 			n.right = n.right.removeMin()
@@ -272,12 +275,11 @@ func (n *Node) Select(k int) order.Node {
 func (n *Node) Rank(val float64) int {
 	if n == nil {
 		return 0
-	} else if val < n.val {
+	} else if val <= n.val {
+		// values equal to n.val can also be in the left subtree
 		return n.left.Rank(val)
-	} else if val > n.val {
-		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	return 1 + n.left.Size() + n.right.Rank(val)
 }
 
 /*******************
-- 
2.43.0


From bf9ec35a8a1a2d8884b0e1a0f160d0ba41ad78c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 05/14] fix: don't compare Tuples of different lengths when
 merging joint configs

simplifySums indexed past the end of a shorter Tuple, and dropped a Tuple as
a duplicate when only its hash equaled that of a Tuple of another length.
---
 joint/config.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index 766cdf1..342f5a5 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -88,19 +88,13 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 // remove any duplicate Tuples, or Tuples that are less than or equal
 // to other Tuples, since they'll get tracked automatically
 func simplifySums(sums SumsConfig) SumsConfig {
-	tupleMap := map[uint64]bool{}
 	newSums := SumsConfig{}
 	for i, m := range sums {
-		// remove dupes
-		if _, ok := tupleMap[m.hash()]; ok {
-			continue
-		}
-
-		// if Tuple is less than or equal to an already existing Tuple,
-		// skip this one
+		// if Tuple is less than or equal to an already existing Tuple
+		// (which must have the same length), skip this one
 		leq := false
 		for j, n := range sums {
-			if i <= j {
+			if i <= j || len(m) != len(n) {
 				continue
 			}
 
@@ -120,7 +114,6 @@ func simplifySums(sums SumsConfig) SumsConfig {
 			continue
 		}
 
-		tupleMap[m.hash()] = true
 		newSums = append(newSums, m)
 	}
 
-- 
2.43.0


From c2ca4420a2a6ad5e24249850af4dfe429b801b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 06/14] fix: remove a value only once from joint sums shared by
 several Tuples

The new sums were committed after each Tuple, so a sum tracked by two of them
had the old value removed from it twice.
---
 joint/core.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index cbb28b7..e80e7c0 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -320,10 +320,10 @@ func (c *Core) remove(xs ...float64) error {
 			if err != nil {
 				return errors.Wrapf(err, "error removing %v from sums for tuple %v", xs, tuple)
 			}
+		}
 
-			for hash, sum := range c.newSums {
-				c.sums[hash] = sum
-			}
+		for hash, sum := range c.newSums {
+			c.sums[hash] = sum
 		}
 	} else {
 		for i := range c.means {
-- 
2.43.0


From ebeccc4061b26dddccc4b0c180db3914f437969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 07/14] fix: keep a copy of pushed values in the joint Core's
 window

The window kept the caller's slice, so a caller reusing it changed the values
that were later removed from the sums.
---
 joint/core.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/joint/core.go b/joint/core.go
index e80e7c0..fdf7ba5 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -108,7 +108,8 @@ func (c *Core) UnsafePush(xs ...float64) error {
 			}
 		}
 
-		err := c.queue.Put(xs)
+		// copy the values, since the caller may reuse the slice
+		err := c.queue.Put(append([]float64(nil), xs...))
 		if err != nil {
 			return errors.Wrapf(err, "error pushing %v to queue", xs)
 		}
-- 
2.43.0


From 7808ca15ba8fa62c7ee273443afca3726238bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 08/14] fix: don't return another Tuple's sum for an untracked
 Tuple

UnsafeSum only looked up the hash, which a Tuple that is shorter, or has
large or negative exponents, can share with a tracked one.
---
 joint/core.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index fdf7ba5..23597a4 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -395,12 +395,27 @@ func (c *Core) UnsafeSum(xs ...int) (float64, error) {
 		return 0, errors.New("no values seen yet")
 	}
 
-	sum, ok := c.sums[Tuple(xs).hash()]
-	if !ok {
+	if !c.tracks(xs) {
 		return 0, errors.Errorf("%v is not a tracked power sum", xs)
 	}
 
-	return sum, nil
+	return c.sums[Tuple(xs).hash()], nil
+}
+
+// tracks returns if the sum of a Tuple is tracked, i.e. if the Tuple is
+// less than or equal to one that the Core was configured with. Checking the
+// hash is not enough, as any Tuple can share its hash with a tracked one.
+func (c *Core) tracks(m Tuple) bool {
+	for _, n := range c.tuples {
+		leq := len(m) == len(n)
+		for i := 0; leq && i < len(m); i++ {
+			leq = 0 <= m[i] && m[i] <= n[i]
+		}
+		if leq {
+			return true
+		}
+	}
+	return false
 }
 
 // Clear clears all stats being tracked.
-- 
2.43.0


From 0304709f0d071d81336b43a7a96d049f57516cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 09/14] fix: don't read lock a Core or Quantile that is already
 read locked

Value methods called locking methods while holding the read lock; if another
goroutine waits for the write lock in between, both wait forever.
---
 joint/corr.go        | 6 +++---
 joint/cov.go         | 4 ++--
 joint/ewmcorr.go     | 6 +++---
 moment/ewma.go       | 2 +-
 moment/kurtosis.go   | 6 +++---
 moment/mean.go       | 2 +-
 moment/moment.go     | 9 +++++++--
 moment/skewness.go   | 6 +++---
 quantile/iqr.go      | 4 ++--
 quantile/quantile.go | 5 +++++
 10 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index 6d28b68..2b35b65 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -86,18 +86,18 @@ func (corr *Corr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/joint/cov.go b/joint/cov.go
index 127dea1..f48e487 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -77,12 +77,12 @@ func (cov *Cov) Value() (float64, error) {
 	cov.core.RLock()
 	defer cov.core.RUnlock()
 
-	covariance, err := cov.core.Sum(1, 1)
+	covariance, err := cov.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := cov.core.Count()
+	count := cov.core.UnsafeCount()
 	covariance /= (float64(count) - 1.)
 
 	return covariance, nil
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index fbd5d48..7009d35 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -83,18 +83,18 @@ func (corr *EWMCorr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/moment/ewma.go b/moment/ewma.go
index f3805f6..83bffd5 100644
--- a/moment/ewma.go
+++ b/moment/ewma.go
@@ -66,7 +66,7 @@ func (a *EWMA) Value() (float64, error) {
 	a.core.RLock()
 	defer a.core.RUnlock()
 
-	ewma, err := a.core.Mean()
+	ewma, err := a.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/kurtosis.go b/moment/kurtosis.go
index 2a3c382..d512f5d 100644
--- a/moment/kurtosis.go
+++ b/moment/kurtosis.go
@@ -84,17 +84,17 @@ func (k *Kurtosis) Value() (float64, error) {
 	k.core.RLock()
 	defer k.core.RUnlock()
 
-	count := float64(k.core.Count())
+	count := float64(k.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := k.variance.Value()
+	variance, err := k.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 
-	moment, err := k.moment4.Value()
+	moment, err := k.moment4.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 4th moment")
 	}
diff --git a/moment/mean.go b/moment/mean.go
index 3afbb49..11f68da 100644
--- a/moment/mean.go
+++ b/moment/mean.go
@@ -69,7 +69,7 @@ func (m *Mean) Value() (float64, error) {
 	m.core.RLock()
 	defer m.core.RUnlock()
 
-	mean, err := m.core.Mean()
+	mean, err := m.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/moment.go b/moment/moment.go
index c411185..f0a35b3 100644
--- a/moment/moment.go
+++ b/moment/moment.go
@@ -77,13 +77,18 @@ func (m *Moment) Value() (float64, error) {
 
 	m.core.RLock()
 	defer m.core.RUnlock()
+	return m.unsafeValue()
+}
 
-	moment, err := m.core.Sum(m.k)
+// unsafeValue is the same as Value, but does not lock; this
+// allows it to be called while already holding the Core's lock.
+func (m *Moment) unsafeValue() (float64, error) {
+	moment, err := m.core.UnsafeSum(m.k)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := m.core.Count()
+	count := m.core.UnsafeCount()
 	moment /= (float64(count) - 1.)
 
 	return moment, nil
diff --git a/moment/skewness.go b/moment/skewness.go
index 57e922f..71efe51 100644
--- a/moment/skewness.go
+++ b/moment/skewness.go
@@ -84,18 +84,18 @@ func (s *Skewness) Value() (float64, error) {
 	s.core.RLock()
 	defer s.core.RUnlock()
 
-	count := float64(s.core.Count())
+	count := float64(s.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := s.variance.Value()
+	variance, err := s.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 	variance *= (count - 1) / count
 
-	moment, err := s.moment3.Value()
+	moment, err := s.moment3.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd moment")
 	}
diff --git a/quantile/iqr.go b/quantile/iqr.go
index 334037e..6145bd7 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -48,12 +48,12 @@ func (i *IQR) Value() (float64, error) {
 	i.quantile.RLock()
 	defer i.quantile.RUnlock()
 
-	q25, err := i.quantile.Value(0.25)
+	q25, err := i.quantile.unsafeValue(0.25)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 1st quartile")
 	}
 
-	q75, err := i.quantile.Value(0.75)
+	q75, err := i.quantile.unsafeValue(0.75)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd quartile")
 	}
diff --git a/quantile/quantile.go b/quantile/quantile.go
index 47170f9..d6c733f 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -98,7 +98,12 @@ func (q *Quantile) Value(quantile float64) (float64, error) {
 
 	q.mux.RLock()
 	defer q.mux.RUnlock()
+	return q.unsafeValue(quantile)
+}
 
+// unsafeValue returns the value of the quantile (which must lie in (0, 1)),
+// but does not lock; this allows it to be called while already holding the lock.
+func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
 	size := int(q.statistic.Size())
 	if size == 0 {
 		return 0, errors.New("no values seen yet")
-- 
2.43.0


From e5bca0eca3e5ea5c6d7e6c05e2512d7c3fcc8d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 10/14] fix: reject NaN as a quantile, decay or skip list
 probability

NaN passed the checks; a NaN quantile made Quantile.Value panic.
---
 joint/config.go             | 3 ++-
 moment/config.go            | 3 ++-
 quantile/quantile.go        | 3 ++-
 quantile/skiplist/option.go | 2 +-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index 342f5a5..ff81c03 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -132,7 +132,8 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		// negated so that NaN is rejected too
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/moment/config.go b/moment/config.go
index 7789c07..dccb8fc 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -80,7 +80,8 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		// negated so that NaN is rejected too
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/quantile/quantile.go b/quantile/quantile.go
index d6c733f..aa16ef0 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -92,7 +92,8 @@ func (q *Quantile) Push(x float64) error {
 
 // Value returns the value of the quantile.
 func (q *Quantile) Value(quantile float64) (float64, error) {
-	if quantile <= 0 || quantile >= 1 {
+	// negated so that NaN is rejected too
+	if !(quantile > 0 && quantile < 1) {
 		return 0, errors.Errorf("quantile %f not in (0, 1)", quantile)
 	}
 
diff --git a/quantile/skiplist/option.go b/quantile/skiplist/option.go
index a4963a7..b0fd933 100644
--- a/quantile/skiplist/option.go
+++ b/quantile/skiplist/option.go
@@ -35,7 +35,7 @@ func ProbabilityOption(p float64) order.Option {
 		)
 		if skiplist, ok = s.(*SkipList); !ok {
 			return errors.New("attempted to set probability on a non-skiplist")
-		} else if p <= 0 || p >= 1 {
+		} else if !(p > 0 && p < 1) { // negated so that NaN is rejected too
 			return errors.Errorf("attempted to set probability %f not in (0, 1)", p)
 		}
 		skiplist.p = p
-- 
2.43.0


From a50fd1a6fd0596f94fbe4d315e9fa58d3bb4c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 11/14] fix: keep Binom exact for n > 20 and free of shared
 state

The factorials overflowed for n > 20, and the table of them was a global
that concurrent pushes grew without synchronization.
---
 util/math/math.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/util/math/math.go b/util/math/math.go
index 6a17a4e..5ece745 100644
--- a/util/math/math.go
+++ b/util/math/math.go
@@ -1,14 +1,12 @@
 package math
 
-var factorials = []int{1, 1, 2, 6, 24, 120, 720, 5040}
-
 func factorial(n int) int {
-	for n >= len(factorials) {
-		next := factorials[len(factorials)-1] * len(factorials)
-		factorials = append(factorials, next)
+	result := 1
+	for i := 2; i <= n; i++ {
+		result *= i
 	}
 
-	return factorials[n]
+	return result
 }
 
 // Sign returns the sign of an integer (-1 if negative, 1 otherwise).
@@ -22,9 +20,17 @@ func Sign(n int) int {
 
 // Binom returns the binomial coefficient.
 func Binom(n, k int) int {
-	if k == 0 || k == n {
-		return 1
+	// C(n, k) = C(n, n - k), so use the smaller one
+	if n-k < k {
+		k = n - k
+	}
+
+	// multiply up from C(n-k, 0) to C(n, k), where every division is exact;
+	// the factorials themselves overflow for n > 20
+	result := 1
+	for i := 1; i <= k; i++ {
+		result = result * (n - k + i) / i
 	}
 
-	return factorial(n) / (factorial(k) * factorial(n-k))
+	return result
 }
-- 
2.43.0


From 49dfcbf14b3348a830ed2657d1e801fb58437475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:38 +0000
Subject: [PATCH 12/14] fix: don't append to the caller's slice of quantile
 options

NewMedian and NewIQR overwrote the element after the options in the caller's
array when it had spare capacity.
---
 quantile/iqr.go    | 4 +++-
 quantile/median.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantile/iqr.go b/quantile/iqr.go
index 6145bd7..fc177f2 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -13,7 +13,9 @@ type IQR struct {
 
 // NewIQR instantiates an IQR struct.
 func NewIQR(window int, options ...Option) (*IQR, error) {
-	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
+	// the capacity is limited so that append doesn't write to the caller's slice
+	options = append(options[:len(options):len(options)], InterpolationOption(Midpoint))
+	quantile, err := New(window, options...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
 	}
diff --git a/quantile/median.go b/quantile/median.go
index f740fc6..4088887 100644
--- a/quantile/median.go
+++ b/quantile/median.go
@@ -15,7 +15,9 @@ type Median struct {
 // structure for tracking order statistics can be configured by passing in a constant
 // of type Impl.
 func NewMedian(window int, options ...Option) (*Median, error) {
-	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
+	// the capacity is limited so that append doesn't write to the caller's slice
+	options = append(options[:len(options):len(options)], InterpolationOption(Midpoint))
+	quantile, err := New(window, options...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
 	}
-- 
2.43.0


From 894b70e503e14bb68e1b467254625dc6bb9ae57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 13/14] fix: default sums map is not shared between configs

---
 moment/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moment/config.go b/moment/config.go
index dccb8fc..1a3fae1 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -99,7 +99,8 @@ func validateConfig(config *CoreConfig) error {
 
 func setConfigDefaults(config *CoreConfig) *CoreConfig {
 	if config.Sums == nil {
-		config.Sums = defaultConfig.Sums
+		// a fresh map, since the caller can reach it through the config
+		config.Sums = SumsConfig{}
 	}
 
 	if config.Window == nil {
-- 
2.43.0


From b68f78831e74df86de269f36f3bbe806d0cad76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:39 +0000
Subject: [PATCH 14/14] fix: read the count and the value of Autocov/Autocorr
 under one lock

---
 joint/autocorr.go | 9 +++++++--
 joint/autocov.go  | 9 +++++++--
 joint/corr.go     | 4 ++++
 joint/cov.go      | 4 ++++
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/joint/autocorr.go b/joint/autocorr.go
index 562fcf0..8c60b63 100644
--- a/joint/autocorr.go
+++ b/joint/autocorr.go
@@ -108,14 +108,19 @@ func (a *Autocorr) Push(x float64) error {
 func (a *Autocorr) Value() (float64, error) {
 	if !a.IsSetCore() {
 		return 0, errors.New("Core is not set")
-	} else if a.corr.core.Count() == 0 {
+	}
+
+	a.core.RLock()
+	defer a.core.RUnlock()
+
+	if a.core.UnsafeCount() == 0 {
 		return 0, errors.Errorf(
 			"Not enough values seen; at least %d observations must be made",
 			a.lag+1,
 		)
 	}
 
-	return a.corr.Value()
+	return a.corr.unsafeValue()
 }
 
 // Clear resets the metric.
diff --git a/joint/autocov.go b/joint/autocov.go
index 8a090c8..ef40984 100644
--- a/joint/autocov.go
+++ b/joint/autocov.go
@@ -108,14 +108,19 @@ func (a *Autocov) Push(x float64) error {
 func (a *Autocov) Value() (float64, error) {
 	if !a.IsSetCore() {
 		return 0, errors.New("Core is not set")
-	} else if a.cov.core.Count() == 0 {
+	}
+
+	a.core.RLock()
+	defer a.core.RUnlock()
+
+	if a.core.UnsafeCount() == 0 {
 		return 0, errors.Errorf(
 			"Not enough values seen; at least %d observations must be made",
 			a.lag+1,
 		)
 	}
 
-	return a.cov.Value()
+	return a.cov.unsafeValue()
 }
 
 // Clear resets the metric.
diff --git a/joint/corr.go b/joint/corr.go
index 2b35b65..04a3224 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -81,7 +81,11 @@ func (corr *Corr) Value() (float64, error) {
 
 	corr.core.RLock()
 	defer corr.core.RUnlock()
+	return corr.unsafeValue()
+}
 
+// unsafeValue returns the same as Value, but does not lock.
+func (corr *Corr) unsafeValue() (float64, error) {
 	// this is technically not the covariance, as it is not normalized by
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
diff --git a/joint/cov.go b/joint/cov.go
index f48e487..b2dde60 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -76,7 +76,11 @@ func (cov *Cov) Value() (float64, error) {
 
 	cov.core.RLock()
 	defer cov.core.RUnlock()
+	return cov.unsafeValue()
+}
 
+// unsafeValue returns the same as Value, but does not lock.
+func (cov *Cov) unsafeValue() (float64, error) {
 	covariance, err := cov.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
-- 
2.43.0

