From 8d7df3f0f90110524bd3cbcc5c2026cdb9283958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 01/21] fix: skip list widths with duplicate values

Add computed the width of a new link by walking until a node with the same
value as the link's end, which stops early when there are duplicates.
---
 quantile/skiplist/skiplist.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/quantile/skiplist/skiplist.go b/quantile/skiplist/skiplist.go
index cde2ca6..d5c7d3b 100644
--- a/quantile/skiplist/skiplist.go
+++ b/quantile/skiplist/skiplist.go
@@ -31,10 +31,6 @@ func (n *Node) Value() float64 {
 	return n.val
 }
 
-func (n *Node) equals(m *Node) bool {
-	return (n == nil && m == nil) || (n != nil && m != nil && n.val == m.val)
-}
-
 func (n *Node) string() string {
 	if n == nil {
 		return "tail"
@@ -129,7 +125,7 @@ func (s *SkipList) Add(val float64) {
 		prevs[i].width[i]++
 	}
 	for i := 1; i < level; i++ {
-		for curr := node; !curr.equals(node.next[i]); curr = curr.next[i-1] {
+		for curr := node; curr != node.next[i]; curr = curr.next[i-1] {
 			node.width[i] += curr.width[i-1]
 		}
 		prevs[i].width[i] -= node.width[i]
-- 
2.43.0


From be01352b5ae3129a70914ce73a0bfe21c1ed8229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 02/21] fix: rank of duplicated values in the search trees

Duplicates of a value may be stored in the left subtree of the node that
holds it, so the left subtree's size overcounts the strictly smaller values.
---
 quantile/ost/avl/node.go | 5 ++---
 quantile/ost/rb/node.go  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/quantile/ost/avl/node.go b/quantile/ost/avl/node.go
index a51bf74..d7017ea 100644
--- a/quantile/ost/avl/node.go
+++ b/quantile/ost/avl/node.go
@@ -226,12 +226,11 @@ func (n *Node) Select(k int) order.Node {
 func (n *Node) Rank(val float64) int {
 	if n == nil {
 		return 0
-	} else if val < n.val {
-		return n.left.Rank(val)
 	} else if val > n.val {
 		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	// duplicates of n.val may also be in the left subtree
+	return n.left.Rank(val)
 }
 
 /*******************
diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index a1e7b29..cd726ae 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -272,12 +272,11 @@ func (n *Node) Select(k int) order.Node {
 func (n *Node) Rank(val float64) int {
 	if n == nil {
 		return 0
-	} else if val < n.val {
-		return n.left.Rank(val)
 	} else if val > n.val {
 		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	// duplicates of n.val may also be in the left subtree
+	return n.left.Rank(val)
 }
 
 /*******************
-- 
2.43.0


From d6ef2c3ef1f94bc4566320d3607c85757bcf66e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 03/21] fix: red-black removal of a duplicated value lost other
 values

After moveRedRight has rotated the node to remove into the right subtree, the
new subtree root may hold the same value; removing it in place then lost the
right-leaning red link that the rotation leaves behind.
---
 quantile/ost/rb/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index cd726ae..e7d4cc8 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -118,10 +118,13 @@ func (n *Node) remove(val float64) *Node {
 		if val == n.val && n.right == nil {
 			return nil
 		}
+		m := n
 		if n.right.Color() == Black && n.right.left.Color() == Black {
 			n = n.moveRedRight()
 		}
-		if val == n.val {
+		// if a rotation has moved the node down to the right, then the removal
+		// has to follow it, even if its replacement holds the same value
+		if val == n.val && n == m {
 			x := n.right.min()
 			n.val = x.val
 			n.right = n.right.removeMin()
-- 
2.43.0


From 660f1e0a1fb8348f270d5699ba41efbb22f63e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 04/21] fix: heap median with a window of 1 panicked

The low heap is empty whenever the only value of the window is in the high heap.
---
 quantile/heap_median.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantile/heap_median.go b/quantile/heap_median.go
index 76550a7..0098867 100644
--- a/quantile/heap_median.go
+++ b/quantile/heap_median.go
@@ -75,14 +75,16 @@ func (m *HeapMedian) Push(x float64) error {
 
 		item = tail.(*heap.Item)
 		low := item.HeapID == m.lowHeap.ID
+		// the low heap is empty if the window is 1 and its value is in the high heap
+		toLow := m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek()
 		switch {
 		// if new/old items are in the same heap, just replace the old item
-		case low && x <= m.lowHeap.Peek():
+		case low && toLow:
 			m.lowHeap.Update(item, x)
-		case !low && x > m.lowHeap.Peek():
+		case !low && !toLow:
 			m.highHeap.Update(item, x)
 		// otherwise, remove old item and push new value to other heap
-		case low && x > m.lowHeap.Peek():
+		case low && !toLow:
 			m.lowHeap.Remove(item)
 			item.Val = x
 			heapops.Push(m.highHeap, item)
-- 
2.43.0


From 0dc0be635e813e4ad74dd8654cbb42910b206b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 05/21] fix: heap median tracked the wrong item after
 rebalancing

Rebalancing returned the item it moved, which then took the place of the
pushed item in the arrival queue, so later evictions removed the wrong value.
The queue now always gets the pushed item. Items are removed and pushed
rather than updated in place.
---
 quantile/heap_median.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/quantile/heap_median.go b/quantile/heap_median.go
index 0098867..79134c5 100644
--- a/quantile/heap_median.go
+++ b/quantile/heap_median.go
@@ -77,23 +77,19 @@ func (m *HeapMedian) Push(x float64) error {
 		low := item.HeapID == m.lowHeap.ID
 		// the low heap is empty if the window is 1 and its value is in the high heap
 		toLow := m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek()
-		switch {
-		// if new/old items are in the same heap, just replace the old item
-		case low && toLow:
-			m.lowHeap.Update(item, x)
-		case !low && !toLow:
-			m.highHeap.Update(item, x)
-		// otherwise, remove old item and push new value to other heap
-		case low && !toLow:
+		// remove the old item and push the new value to the heap it belongs to
+		if low {
 			m.lowHeap.Remove(item)
-			item.Val = x
-			heapops.Push(m.highHeap, item)
-		default:
+		} else {
 			m.highHeap.Remove(item)
-			item.Val = x
+		}
+		item.Val = x
+		if toLow {
 			heapops.Push(m.lowHeap, item)
+		} else {
+			heapops.Push(m.highHeap, item)
 		}
-		item = m.rebalance(item)
+		m.rebalance()
 	} else {
 		item = &heap.Item{Val: x}
 		if m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek() {
@@ -101,7 +97,7 @@ func (m *HeapMedian) Push(x float64) error {
 		} else {
 			heapops.Push(m.highHeap, item)
 		}
-		item = m.rebalance(item)
+		m.rebalance()
 	}
 
 	if m.window != 0 {
@@ -114,15 +110,15 @@ func (m *HeapMedian) Push(x float64) error {
 	return nil
 }
 
-func (m *HeapMedian) rebalance(item *heap.Item) *heap.Item {
+// rebalance moves an item between the heaps if their sizes differ by more than 1.
+func (m *HeapMedian) rebalance() {
 	if m.lowHeap.Len()+1 < m.highHeap.Len() {
-		item = heapops.Pop(m.highHeap).(*heap.Item)
+		item := heapops.Pop(m.highHeap).(*heap.Item)
 		heapops.Push(m.lowHeap, item)
 	} else if m.lowHeap.Len() > m.highHeap.Len()+1 {
-		item = heapops.Pop(m.lowHeap).(*heap.Item)
+		item := heapops.Pop(m.lowHeap).(*heap.Item)
 		heapops.Push(m.highHeap, item)
 	}
-	return item
 }
 
 // Value returns the value of the median.
-- 
2.43.0


From e8949fba2a91e5e7fd84848ba65596c34436aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 06/21] fix: binomial coefficients overflowed and raced

Binom went through factorials, which overflow for n > 20 and were cached in a
package-level table that independent cores grew concurrently.
---
 util/math/math.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/util/math/math.go b/util/math/math.go
index 6a17a4e..fff2bf0 100644
--- a/util/math/math.go
+++ b/util/math/math.go
@@ -1,14 +1,12 @@
 package math
 
-var factorials = []int{1, 1, 2, 6, 24, 120, 720, 5040}
-
 func factorial(n int) int {
-	for n >= len(factorials) {
-		next := factorials[len(factorials)-1] * len(factorials)
-		factorials = append(factorials, next)
+	result := 1
+	for i := 2; i <= n; i++ {
+		result *= i
 	}
 
-	return factorials[n]
+	return result
 }
 
 // Sign returns the sign of an integer (-1 if negative, 1 otherwise).
@@ -26,5 +24,16 @@ func Binom(n, k int) int {
 		return 1
 	}
 
-	return factorial(n) / (factorial(k) * factorial(n-k))
+	if k > n-k {
+		k = n - k
+	}
+
+	// every intermediate result is itself a binomial coefficient, so that it
+	// neither overflows nor needs a table of factorials
+	result := 1
+	for i := 1; i <= k; i++ {
+		result = result * (n - k + i) / i
+	}
+
+	return result
 }
-- 
2.43.0


From 7cd3aaeec1b456cb34be4db597ce3b45edbb1406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:26 +0000
Subject: [PATCH 07/21] fix: joint eviction with overlapping tuples removed
 values repeatedly

The sums were replaced after each tuple, so that a sum below several tracked
tuples had the evicted value removed once per tuple.
---
 joint/core.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index cbb28b7..9a5fe34 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -320,10 +320,11 @@ func (c *Core) remove(xs ...float64) error {
 			if err != nil {
 				return errors.Wrapf(err, "error removing %v from sums for tuple %v", xs, tuple)
 			}
+		}
 
-			for hash, sum := range c.newSums {
-				c.sums[hash] = sum
-			}
+		// only replace the sums once all tuples are done, since they may overlap
+		for hash, sum := range c.newSums {
+			c.sums[hash] = sum
 		}
 	} else {
 		for i := range c.means {
-- 
2.43.0


From a0cf9ea81c32169211d43c65d06937cba2901666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 08/21] fix: evictions could leave a variance negative and a
 standard deviation NaN

Undoing an update rounds, so that an even power sum that should be zero could
end up slightly below it.
---
 joint/core.go  | 9 ++++++++-
 joint/tuple.go | 9 +++++++++
 moment/core.go | 5 +++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/joint/core.go b/joint/core.go
index 9a5fe34..23c03fb 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -284,7 +284,7 @@ func (c *Core) remove(xs ...float64) error {
 				a := Tuple(xs)
 				hash := a.hash()
 				c.newSums[hash] = 0
-				return iter(a, false, func(xs ...int) error {
+				err := iter(a, false, func(xs ...int) error {
 					b := Tuple(xs)
 
 					deltaPow, err := pow(delta, b)
@@ -316,6 +316,13 @@ func (c *Core) remove(xs ...float64) error {
 
 					return nil
 				})
+
+				// even power sums are never negative, but rounding can make them so
+				if a.even() && c.newSums[hash] < 0 {
+					c.newSums[hash] = 0
+				}
+
+				return err
 			})
 			if err != nil {
 				return errors.Wrapf(err, "error removing %v from sums for tuple %v", xs, tuple)
diff --git a/joint/tuple.go b/joint/tuple.go
index 61b273c..9f56253 100644
--- a/joint/tuple.go
+++ b/joint/tuple.go
@@ -35,6 +35,15 @@ func (m Tuple) hash() uint64 {
 	return uint64(result)
 }
 
+func (m Tuple) even() bool {
+	for _, i := range m {
+		if i%2 != 0 {
+			return false
+		}
+	}
+	return true
+}
+
 func (m Tuple) eq(n Tuple) bool {
 	if len(m) != len(n) {
 		return false
diff --git a/moment/core.go b/moment/core.go
index 0bbd850..1e68af2 100644
--- a/moment/core.go
+++ b/moment/core.go
@@ -175,6 +175,11 @@ func (c *Core) remove(x float64) {
 						math.Pow(delta/(count+1), float64(i)) *
 						c.sums[k-i]
 			}
+
+			// even power sums are never negative, but rounding can make them so
+			if k%2 == 0 && c.sums[k] < 0 {
+				c.sums[k] = 0
+			}
 		}
 	} else {
 		c.mean = 0
-- 
2.43.0


From 95b7ac882cac593cc9d55c3dd442d06caac6c7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:48 +0000
Subject: [PATCH 09/21] fix: a query waiting behind a writer could deadlock
 with itself

Value() read-locked the core (or the quantile) and then called accessors that
read-lock it again; a writer arriving in between blocks both for ever.
---
 joint/corr.go        |  6 +++---
 joint/cov.go         |  4 ++--
 joint/ewmcorr.go     |  6 +++---
 moment/ewma.go       |  2 +-
 moment/kurtosis.go   |  6 +++---
 moment/mean.go       |  2 +-
 moment/moment.go     |  9 +++++++--
 moment/skewness.go   |  6 +++---
 quantile/iqr.go      |  4 ++--
 quantile/quantile.go | 11 ++++++++---
 10 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index 6d28b68..2b35b65 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -86,18 +86,18 @@ func (corr *Corr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/joint/cov.go b/joint/cov.go
index 127dea1..f48e487 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -77,12 +77,12 @@ func (cov *Cov) Value() (float64, error) {
 	cov.core.RLock()
 	defer cov.core.RUnlock()
 
-	covariance, err := cov.core.Sum(1, 1)
+	covariance, err := cov.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := cov.core.Count()
+	count := cov.core.UnsafeCount()
 	covariance /= (float64(count) - 1.)
 
 	return covariance, nil
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index fbd5d48..7009d35 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -83,18 +83,18 @@ func (corr *EWMCorr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/moment/ewma.go b/moment/ewma.go
index f3805f6..83bffd5 100644
--- a/moment/ewma.go
+++ b/moment/ewma.go
@@ -66,7 +66,7 @@ func (a *EWMA) Value() (float64, error) {
 	a.core.RLock()
 	defer a.core.RUnlock()
 
-	ewma, err := a.core.Mean()
+	ewma, err := a.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/kurtosis.go b/moment/kurtosis.go
index 2a3c382..d512f5d 100644
--- a/moment/kurtosis.go
+++ b/moment/kurtosis.go
@@ -84,17 +84,17 @@ func (k *Kurtosis) Value() (float64, error) {
 	k.core.RLock()
 	defer k.core.RUnlock()
 
-	count := float64(k.core.Count())
+	count := float64(k.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := k.variance.Value()
+	variance, err := k.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 
-	moment, err := k.moment4.Value()
+	moment, err := k.moment4.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 4th moment")
 	}
diff --git a/moment/mean.go b/moment/mean.go
index 3afbb49..11f68da 100644
--- a/moment/mean.go
+++ b/moment/mean.go
@@ -69,7 +69,7 @@ func (m *Mean) Value() (float64, error) {
 	m.core.RLock()
 	defer m.core.RUnlock()
 
-	mean, err := m.core.Mean()
+	mean, err := m.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/moment.go b/moment/moment.go
index c411185..a1395b7 100644
--- a/moment/moment.go
+++ b/moment/moment.go
@@ -77,13 +77,18 @@ func (m *Moment) Value() (float64, error) {
 
 	m.core.RLock()
 	defer m.core.RUnlock()
+	return m.unsafeValue()
+}
 
-	moment, err := m.core.Sum(m.k)
+// unsafeValue returns the value of the kth sample central moment,
+// but does not lock; the caller must hold the lock of the Core.
+func (m *Moment) unsafeValue() (float64, error) {
+	moment, err := m.core.UnsafeSum(m.k)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := m.core.Count()
+	count := m.core.UnsafeCount()
 	moment /= (float64(count) - 1.)
 
 	return moment, nil
diff --git a/moment/skewness.go b/moment/skewness.go
index 57e922f..71efe51 100644
--- a/moment/skewness.go
+++ b/moment/skewness.go
@@ -84,18 +84,18 @@ func (s *Skewness) Value() (float64, error) {
 	s.core.RLock()
 	defer s.core.RUnlock()
 
-	count := float64(s.core.Count())
+	count := float64(s.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := s.variance.Value()
+	variance, err := s.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 	variance *= (count - 1) / count
 
-	moment, err := s.moment3.Value()
+	moment, err := s.moment3.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd moment")
 	}
diff --git a/quantile/iqr.go b/quantile/iqr.go
index 334037e..6145bd7 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -48,12 +48,12 @@ func (i *IQR) Value() (float64, error) {
 	i.quantile.RLock()
 	defer i.quantile.RUnlock()
 
-	q25, err := i.quantile.Value(0.25)
+	q25, err := i.quantile.unsafeValue(0.25)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 1st quartile")
 	}
 
-	q75, err := i.quantile.Value(0.75)
+	q75, err := i.quantile.unsafeValue(0.75)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd quartile")
 	}
diff --git a/quantile/quantile.go b/quantile/quantile.go
index 47170f9..3ea0827 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -92,13 +92,18 @@ func (q *Quantile) Push(x float64) error {
 
 // Value returns the value of the quantile.
 func (q *Quantile) Value(quantile float64) (float64, error) {
+	q.mux.RLock()
+	defer q.mux.RUnlock()
+	return q.unsafeValue(quantile)
+}
+
+// unsafeValue returns the value of the quantile, but does not lock;
+// the caller must hold the lock of the Quantile.
+func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
 	if quantile <= 0 || quantile >= 1 {
 		return 0, errors.Errorf("quantile %f not in (0, 1)", quantile)
 	}
 
-	q.mux.RLock()
-	defer q.mux.RUnlock()
-
 	size := int(q.statistic.Size())
 	if size == 0 {
 		return 0, errors.New("no values seen yet")
-- 
2.43.0


From 54de011b455dc5b7fbf9e642f65baad8fcdb0e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 10/21] fix: joint core kept the caller's slice of pushed
 values

Changing the slice afterwards corrupted the later eviction of the values.
---
 joint/core.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/joint/core.go b/joint/core.go
index 23c03fb..cc89d15 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -108,7 +108,8 @@ func (c *Core) UnsafePush(xs ...float64) error {
 			}
 		}
 
-		err := c.queue.Put(xs)
+		// the slice belongs to the caller, so a copy has to be kept
+		err := c.queue.Put(append([]float64{}, xs...))
 		if err != nil {
 			return errors.Wrapf(err, "error pushing %v to queue", xs)
 		}
-- 
2.43.0


From ac844ed21447cc01c15bdcf5caf414aa0fdc9479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:26 +0000
Subject: [PATCH 11/21] fix: joint core answered queries for untracked tuples

A tuple of another length, with a negative exponent or with a large one can
have the hash of a tracked tuple; the sum of that one was returned.
---
 joint/core.go  | 11 +++++++----
 joint/tuple.go | 15 +++++++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index cc89d15..0c1989d 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -403,12 +403,15 @@ func (c *Core) UnsafeSum(xs ...int) (float64, error) {
 		return 0, errors.New("no values seen yet")
 	}
 
-	sum, ok := c.sums[Tuple(xs).hash()]
-	if !ok {
-		return 0, errors.Errorf("%v is not a tracked power sum", xs)
+	// the hash alone does not identify a Tuple, unless it is a tracked one
+	tuple := Tuple(xs)
+	for _, t := range c.tuples {
+		if tuple.leq(t) {
+			return c.sums[tuple.hash()], nil
+		}
 	}
 
-	return sum, nil
+	return 0, errors.Errorf("%v is not a tracked power sum", xs)
 }
 
 // Clear clears all stats being tracked.
diff --git a/joint/tuple.go b/joint/tuple.go
index 9f56253..f00ec74 100644
--- a/joint/tuple.go
+++ b/joint/tuple.go
@@ -58,6 +58,21 @@ func (m Tuple) eq(n Tuple) bool {
 	return true
 }
 
+// leq returns if m is a valid Tuple that is less than or equal to n.
+func (m Tuple) leq(n Tuple) bool {
+	if len(m) != len(n) {
+		return false
+	}
+
+	for i := range m {
+		if m[i] < 0 || m[i] > n[i] {
+			return false
+		}
+	}
+
+	return true
+}
+
 func sub(m, n Tuple) (Tuple, error) {
 	if len(m) != len(n) {
 		return nil, errors.Errorf(
-- 
2.43.0


From 57e1027550924a465620def8fb30c75bb0f2fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 12/21] fix: merging joint configs with differing tuple lengths
 panicked

---
 joint/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/joint/config.go b/joint/config.go
index 766cdf1..b77a11d 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -77,6 +77,12 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 			}
 		}
 
+		for _, tuple := range mergedConfig.Sums {
+			if len(tuple) != len(mergedConfig.Sums[0]) {
+				return nil, errors.New("configs have sums of differing length")
+			}
+		}
+
 		mergedConfig.Sums = simplifySums(mergedConfig.Sums)
 		mergedConfig.Window = window
 		mergedConfig.Vars = vars
-- 
2.43.0


From cffe306033c117b4b939672682a099c47be54c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 13/21] fix: NaN passed as a valid decay, quantile or
 probability

It is not in (0, 1); Quantile.Value(NaN) went on to panic.
---
 joint/config.go             | 2 +-
 moment/config.go            | 2 +-
 quantile/quantile.go        | 2 +-
 quantile/skiplist/option.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index b77a11d..1fb63ca 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -145,7 +145,7 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/moment/config.go b/moment/config.go
index 7789c07..b894bf4 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -80,7 +80,7 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/quantile/quantile.go b/quantile/quantile.go
index 3ea0827..19711f6 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -100,7 +100,7 @@ func (q *Quantile) Value(quantile float64) (float64, error) {
 // unsafeValue returns the value of the quantile, but does not lock;
 // the caller must hold the lock of the Quantile.
 func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
-	if quantile <= 0 || quantile >= 1 {
+	if !(quantile > 0 && quantile < 1) {
 		return 0, errors.Errorf("quantile %f not in (0, 1)", quantile)
 	}
 
diff --git a/quantile/skiplist/option.go b/quantile/skiplist/option.go
index a4963a7..7736c43 100644
--- a/quantile/skiplist/option.go
+++ b/quantile/skiplist/option.go
@@ -35,7 +35,7 @@ func ProbabilityOption(p float64) order.Option {
 		)
 		if skiplist, ok = s.(*SkipList); !ok {
 			return errors.New("attempted to set probability on a non-skiplist")
-		} else if p <= 0 || p >= 1 {
+		} else if !(p > 0 && p < 1) {
 			return errors.Errorf("attempted to set probability %f not in (0, 1)", p)
 		}
 		skiplist.p = p
-- 
2.43.0


From e55bb582c63edc2c28968cc6aa97076652f0bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 14/21] fix: a nil rand source was accepted and panicked on the
 first value

---
 quantile/skiplist/option.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantile/skiplist/option.go b/quantile/skiplist/option.go
index 7736c43..a272b4b 100644
--- a/quantile/skiplist/option.go
+++ b/quantile/skiplist/option.go
@@ -52,6 +52,8 @@ func RandOption(r *rand.Rand) order.Option {
 		)
 		if skiplist, ok = s.(*SkipList); !ok {
 			return errors.New("attempted to set rand source on a non-skiplist")
+		} else if r == nil {
+			return errors.New("attempted to set nil rand source")
 		}
 		skiplist.rand = r
 		return nil
-- 
2.43.0


From d3c185227c044287c8ab3b0d11d1f56ca7fdf478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:28 +0000
Subject: [PATCH 15/21] fix: median, IQR and aggregates shared the caller's
 argument slices

NewMedian and NewIQR wrote into the spare capacity of the option slice, and
the aggregates saw later changes of the slice of metrics.
---
 aggregate/simple_aggregate.go       | 2 +-
 aggregate/simple_joint_aggregate.go | 2 +-
 quantile/iqr.go                     | 4 +++-
 quantile/median.go                  | 4 +++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/aggregate/simple_aggregate.go b/aggregate/simple_aggregate.go
index 47079b0..bda6225 100644
--- a/aggregate/simple_aggregate.go
+++ b/aggregate/simple_aggregate.go
@@ -19,7 +19,7 @@ type SimpleAggregateMetric struct {
 
 // NewSimpleAggregateMetric instantiates an SimpleAggregateMetric struct.
 func NewSimpleAggregateMetric(metrics ...stream.SimpleMetric) *SimpleAggregateMetric {
-	return &SimpleAggregateMetric{metrics: metrics}
+	return &SimpleAggregateMetric{metrics: append([]stream.SimpleMetric{}, metrics...)}
 }
 
 // Push adds a new value for the metrics to consume.
diff --git a/aggregate/simple_joint_aggregate.go b/aggregate/simple_joint_aggregate.go
index f18518f..8e0b006 100644
--- a/aggregate/simple_joint_aggregate.go
+++ b/aggregate/simple_joint_aggregate.go
@@ -18,7 +18,7 @@ type SimpleJointAggregateMetric struct {
 
 // NewSimpleJointAggregateMetric instantiates an SimpleJointAggregateMetric struct.
 func NewSimpleJointAggregateMetric(metrics ...stream.SimpleJointMetric) *SimpleJointAggregateMetric {
-	return &SimpleJointAggregateMetric{metrics: metrics}
+	return &SimpleJointAggregateMetric{metrics: append([]stream.SimpleJointMetric{}, metrics...)}
 }
 
 // Push adds a new value for the metrics to consume.
diff --git a/quantile/iqr.go b/quantile/iqr.go
index 6145bd7..5e3b1ad 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -13,7 +13,9 @@ type IQR struct {
 
 // NewIQR instantiates an IQR struct.
 func NewIQR(window int, options ...Option) (*IQR, error) {
-	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
+	// the slice may belong to the caller, so it must not be appended to
+	options = append(append([]Option{}, options...), InterpolationOption(Midpoint))
+	quantile, err := New(window, options...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
 	}
diff --git a/quantile/median.go b/quantile/median.go
index f740fc6..d3ba921 100644
--- a/quantile/median.go
+++ b/quantile/median.go
@@ -15,7 +15,9 @@ type Median struct {
 // structure for tracking order statistics can be configured by passing in a constant
 // of type Impl.
 func NewMedian(window int, options ...Option) (*Median, error) {
-	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
+	// the slice may belong to the caller, so it must not be appended to
+	options = append(append([]Option{}, options...), InterpolationOption(Midpoint))
+	quantile, err := New(window, options...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
 	}
-- 
2.43.0


From 4418cabe1b7730996286f2fd577ef167d7235fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 16/21] fix: configurations shared memory with metrics, cores
 and callers

NewCore altered the caller's config and kept its pointers and tuples, and
Config() and MergeConfigs() handed out pointers to internal or foreign state.
---
 joint/config.go     | 31 +++++++++++++++++++++++++++++--
 joint/core.go       |  3 +++
 joint/corr.go       |  4 +++-
 joint/cov.go        |  4 +++-
 joint/ewmcorr.go    |  2 +-
 joint/ewmcov.go     |  2 +-
 moment/config.go    | 27 +++++++++++++++++++++++++--
 moment/core.go      |  3 +++
 moment/ewma.go      |  2 +-
 moment/ewmmoment.go |  2 +-
 moment/kurtosis.go  |  2 +-
 moment/mean.go      |  4 +++-
 moment/moment.go    |  4 +++-
 moment/skewness.go  |  2 +-
 14 files changed, 78 insertions(+), 14 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index 1fb63ca..653f20a 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -2,6 +2,8 @@ package joint
 
 import (
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // SumsConfig is an alias for a slice of Tuples; this configures
@@ -23,6 +25,31 @@ type CoreConfig struct {
 	Decay  *float64   // optional, must lie in the interval (0, 1)
 }
 
+// copy returns a copy of the config that shares no memory with it.
+func (c *CoreConfig) copy() *CoreConfig {
+	result := &CoreConfig{}
+	if c.Sums != nil {
+		result.Sums = SumsConfig{}
+		for _, tuple := range c.Sums {
+			result.Sums = append(result.Sums, append(Tuple{}, tuple...))
+		}
+	}
+
+	if c.Window != nil {
+		result.Window = stream.IntPtr(*c.Window)
+	}
+
+	if c.Vars != nil {
+		result.Vars = stream.IntPtr(*c.Vars)
+	}
+
+	if c.Decay != nil {
+		result.Decay = stream.FloatPtr(*c.Decay)
+	}
+
+	return result
+}
+
 var defaultConfig = &CoreConfig{
 	Sums:   SumsConfig{},
 	Window: nil,
@@ -36,7 +63,7 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 	case 0:
 		return nil, errors.New("no configs available to merge")
 	case 1:
-		return configs[0], nil
+		return configs[0].copy(), nil
 	default:
 		var (
 			window *int
@@ -87,7 +114,7 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 		mergedConfig.Window = window
 		mergedConfig.Vars = vars
 		mergedConfig.Decay = decay
-		return mergedConfig, nil
+		return mergedConfig.copy(), nil
 	}
 }
 
diff --git a/joint/core.go b/joint/core.go
index 0c1989d..95dcd99 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -38,6 +38,9 @@ func Init(wrapper CoreWrapper) error {
 
 // NewCore instantiates a Core struct based on a provided config.
 func NewCore(config *CoreConfig) (*Core, error) {
+	// the config belongs to the caller, so it must be neither altered nor kept
+	config = config.copy()
+
 	// set defaults for any remaining unset fields
 	config = setConfigDefaults(config)
 
diff --git a/joint/corr.go b/joint/corr.go
index 2b35b65..fc279bc 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -5,6 +5,8 @@ import (
 	"math"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Corr is a metric that tracks the sample Pearson correlation coefficient.
@@ -42,7 +44,7 @@ func (corr *Corr) Config() *CoreConfig {
 			{2, 0},
 			{0, 2},
 		},
-		Window: &corr.window,
+		Window: stream.IntPtr(corr.window),
 	}
 }
 
diff --git a/joint/cov.go b/joint/cov.go
index f48e487..c6e2f7d 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Cov is a metric that tracks the sample covariance.
@@ -37,7 +39,7 @@ func (cov *Cov) IsSetCore() bool {
 func (cov *Cov) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{{1, 1}},
-		Window: &cov.window,
+		Window: stream.IntPtr(cov.window),
 	}
 }
 
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index 7009d35..7851220 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -39,7 +39,7 @@ func (corr *EWMCorr) Config() *CoreConfig {
 			{0, 2},
 		},
 		Window: stream.IntPtr(0),
-		Decay:  &corr.decay,
+		Decay:  stream.FloatPtr(corr.decay),
 	}
 }
 
diff --git a/joint/ewmcov.go b/joint/ewmcov.go
index 7c1f49e..f2e2e14 100644
--- a/joint/ewmcov.go
+++ b/joint/ewmcov.go
@@ -34,7 +34,7 @@ func (cov *EWMCov) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{{1, 1}},
 		Window: stream.IntPtr(0),
-		Decay:  &cov.decay,
+		Decay:  stream.FloatPtr(cov.decay),
 	}
 }
 
diff --git a/moment/config.go b/moment/config.go
index b894bf4..ac682be 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -2,6 +2,8 @@ package moment
 
 import (
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // CoreConfig is the struct containing configuration options for
@@ -12,6 +14,27 @@ type CoreConfig struct {
 	Decay  *float64   // optional, must lie in the interval (0, 1)
 }
 
+// copy returns a copy of the config that shares no memory with it.
+func (c *CoreConfig) copy() *CoreConfig {
+	result := &CoreConfig{}
+	if c.Sums != nil {
+		result.Sums = SumsConfig{}
+		for k, v := range c.Sums {
+			result.Sums[k] = v
+		}
+	}
+
+	if c.Window != nil {
+		result.Window = stream.IntPtr(*c.Window)
+	}
+
+	if c.Decay != nil {
+		result.Decay = stream.FloatPtr(*c.Decay)
+	}
+
+	return result
+}
+
 var defaultConfig = &CoreConfig{
 	Sums:   map[int]bool{},
 	Window: nil,
@@ -34,7 +57,7 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 	case 0:
 		return nil, errors.New("no configs available to merge")
 	case 1:
-		return configs[0], nil
+		return configs[0].copy(), nil
 	default:
 		var (
 			window *int
@@ -68,7 +91,7 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 
 		mergedConfig.Window = window
 		mergedConfig.Decay = decay
-		return mergedConfig, nil
+		return mergedConfig.copy(), nil
 	}
 }
 
diff --git a/moment/core.go b/moment/core.go
index 1e68af2..6d844fc 100644
--- a/moment/core.go
+++ b/moment/core.go
@@ -35,6 +35,9 @@ func Init(wrapper CoreWrapper) error {
 
 // NewCore instantiates a Core struct based on a provided config.
 func NewCore(config *CoreConfig) (*Core, error) {
+	// the config belongs to the caller, so it must be neither altered nor kept
+	config = config.copy()
+
 	// set defaults for any remaining unset fields
 	config = setConfigDefaults(config)
 
diff --git a/moment/ewma.go b/moment/ewma.go
index 83bffd5..3a34bb5 100644
--- a/moment/ewma.go
+++ b/moment/ewma.go
@@ -33,7 +33,7 @@ func (a *EWMA) IsSetCore() bool {
 func (a *EWMA) Config() *CoreConfig {
 	return &CoreConfig{
 		Window: stream.IntPtr(0),
-		Decay:  &a.decay,
+		Decay:  stream.FloatPtr(a.decay),
 	}
 }
 
diff --git a/moment/ewmmoment.go b/moment/ewmmoment.go
index 0549048..60d7cdd 100644
--- a/moment/ewmmoment.go
+++ b/moment/ewmmoment.go
@@ -42,7 +42,7 @@ func (m *EWMMoment) Config() *CoreConfig {
 		// weighting scheme that's used prevents weights from being
 		// updated in a time-efficient manner
 		Window: stream.IntPtr(0),
-		Decay:  &m.decay,
+		Decay:  stream.FloatPtr(m.decay),
 	}
 }
 
diff --git a/moment/kurtosis.go b/moment/kurtosis.go
index d512f5d..ae32ad3 100644
--- a/moment/kurtosis.go
+++ b/moment/kurtosis.go
@@ -52,7 +52,7 @@ func (k *Kurtosis) IsSetCore() bool {
 
 // Config returns the CoreConfig needed.
 func (k *Kurtosis) Config() *CoreConfig {
-	return k.config
+	return k.config.copy()
 }
 
 // String returns a string representation of the metric.
diff --git a/moment/mean.go b/moment/mean.go
index 11f68da..9b2fd76 100644
--- a/moment/mean.go
+++ b/moment/mean.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Mean is a metric that tracks the mean.
@@ -36,7 +38,7 @@ func (m *Mean) IsSetCore() bool {
 // Config returns the CoreConfig needed.
 func (m *Mean) Config() *CoreConfig {
 	return &CoreConfig{
-		Window: &m.window,
+		Window: stream.IntPtr(m.window),
 	}
 }
 
diff --git a/moment/moment.go b/moment/moment.go
index a1395b7..ab59ade 100644
--- a/moment/moment.go
+++ b/moment/moment.go
@@ -5,6 +5,8 @@ import (
 	"strings"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Moment is a metric that tracks the kth sample central moment.
@@ -42,7 +44,7 @@ func (m *Moment) IsSetCore() bool {
 func (m *Moment) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{m.k: true},
-		Window: &m.window,
+		Window: stream.IntPtr(m.window),
 	}
 }
 
diff --git a/moment/skewness.go b/moment/skewness.go
index 71efe51..9a43ded 100644
--- a/moment/skewness.go
+++ b/moment/skewness.go
@@ -52,7 +52,7 @@ func (s *Skewness) IsSetCore() bool {
 
 // Config returns the CoreConfig needed.
 func (s *Skewness) Config() *CoreConfig {
-	return s.config
+	return s.config.copy()
 }
 
 // String returns a string representation of the metric.
-- 
2.43.0


From 51e9446c08d7043f6cae722090431046b95c287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 17/21] fix: a failed push dropped a value from the lag queue
 of Autocov and Autocorr

---
 joint/autocorr.go | 8 ++++++++
 joint/autocov.go  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/joint/autocorr.go b/joint/autocorr.go
index 562fcf0..dcb5fdf 100644
--- a/joint/autocorr.go
+++ b/joint/autocorr.go
@@ -75,6 +75,14 @@ func (a *Autocorr) Push(x float64) error {
 	a.core.Lock()
 	defer a.core.Unlock()
 
+	// check this first, since a failed push must not drop a value from the lag queue
+	if len(a.core.means) != 2 {
+		return errors.Errorf(
+			"Autocorr needs a Core tracking 2 variables, but it is tracking %d",
+			len(a.core.means),
+		)
+	}
+
 	if a.lag == 0 {
 		err := a.core.UnsafePush(x, x)
 		if err != nil {
diff --git a/joint/autocov.go b/joint/autocov.go
index 8a090c8..2fe1d68 100644
--- a/joint/autocov.go
+++ b/joint/autocov.go
@@ -75,6 +75,14 @@ func (a *Autocov) Push(x float64) error {
 	a.core.Lock()
 	defer a.core.Unlock()
 
+	// check this first, since a failed push must not drop a value from the lag queue
+	if len(a.core.means) != 2 {
+		return errors.Errorf(
+			"Autocov needs a Core tracking 2 variables, but it is tracking %d",
+			len(a.core.means),
+		)
+	}
+
 	if a.lag == 0 {
 		err := a.core.UnsafePush(x, x)
 		if err != nil {
-- 
2.43.0


From a318d85cc9c8eac93a3ceb6c2b1e2a46e8b2217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:29 +0000
Subject: [PATCH 18/21] fix: ImplOption kept the caller's option slice

---
 quantile/option.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantile/option.go b/quantile/option.go
index cf1a0db..1a0af4a 100644
--- a/quantile/option.go
+++ b/quantile/option.go
@@ -12,6 +12,9 @@ type Option func(*Quantile) error
 // ImplOption creates an option that sets the implementation for the
 // underlying data structure.
 func ImplOption(impl Impl, options ...order.Option) Option {
+	// the closure outlives this call, so it must not depend on the caller's slice
+	options = append([]order.Option(nil), options...)
+
 	return func(q *Quantile) error {
 		if !impl.Valid() {
 			return errors.Errorf("attempted to set invalid Impl %d", impl)
-- 
2.43.0


From bb6c6303e720ff9cd35cb844094fc0aaf786903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:28 +0000
Subject: [PATCH 19/21] fix: correlations overflowed or vanished when the
 product of the variances left the float range

---
 joint/corr.go    | 3 ++-
 joint/ewmcorr.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index fc279bc..98e799f 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -104,7 +104,8 @@ func (corr *Corr) Value() (float64, error) {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
 
-	return cov / math.Sqrt(xVar*yVar), nil
+	// the product of the variances may overflow or underflow
+	return cov / (math.Sqrt(xVar) * math.Sqrt(yVar)), nil
 }
 
 // Clear resets the metric.
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index 7851220..42c00e3 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -99,7 +99,8 @@ func (corr *EWMCorr) Value() (float64, error) {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
 
-	return cov / math.Sqrt(xVar*yVar), nil
+	// the product of the variances may overflow or underflow
+	return cov / (math.Sqrt(xVar) * math.Sqrt(yVar)), nil
 }
 
 // Clear resets the metric.
-- 
2.43.0


From 79af76c0a1afeae41a5611cf4b12160ddb25137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:06 +0000
Subject: [PATCH 20/21] fix: pushing took cubic time in the power of a moment

Every binomial coefficient was calculated anew; complexity.md promises O(k^2).
---
 util/math/math.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/util/math/math.go b/util/math/math.go
index fff2bf0..09b8b87 100644
--- a/util/math/math.go
+++ b/util/math/math.go
@@ -18,8 +18,32 @@ func Sign(n int) int {
 	return -1
 }
 
+// binoms holds the binomial coefficients for small n, so that they do
+// not have to be calculated for every pushed value.
+var binoms = binomTable(64)
+
+func binomTable(size int) [][]int {
+	table := make([][]int, size)
+	for n := range table {
+		table[n] = make([]int, n+1)
+		for k := range table[n] {
+			table[n][k] = binom(n, k)
+		}
+	}
+
+	return table
+}
+
 // Binom returns the binomial coefficient.
 func Binom(n, k int) int {
+	if n >= 0 && n < len(binoms) && k >= 0 && k <= n {
+		return binoms[n][k]
+	}
+
+	return binom(n, k)
+}
+
+func binom(n, k int) int {
 	if k == 0 || k == n {
 		return 1
 	}
-- 
2.43.0


From 376219ef852c5edc1479eb31320b0aa136036623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:27 +0000
Subject: [PATCH 21/21] fix: querying a joint sum took time in the number of
 configured tuples

Finding out whether a tuple is tracked went through all of them;
complexity.md promises O(d).
---
 joint/core.go  | 26 ++++++++++++++++++++------
 joint/tuple.go | 15 ---------------
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index 95dcd99..fb7201f 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -18,6 +18,7 @@ type Core struct {
 	tuples  []Tuple
 	sums    map[uint64]float64
 	newSums map[uint64]float64
+	tracked map[uint64][]Tuple
 	count   int
 	window  int
 	decay   *float64
@@ -61,9 +62,14 @@ func NewCore(config *CoreConfig) (*Core, error) {
 
 	c.sums = map[uint64]float64{}
 	c.newSums = map[uint64]float64{}
+	c.tracked = map[uint64][]Tuple{}
 	for _, tuple := range config.Sums {
 		_ = iter(tuple, false, func(xs ...int) error {
 			c.sums[Tuple(xs).hash()] = 0
+			if !c.tracks(xs) {
+				hash := Tuple(xs).hash()
+				c.tracked[hash] = append(c.tracked[hash], append(Tuple{}, xs...))
+			}
 			return nil
 		})
 		_ = iter(tuple, false, func(xs ...int) error {
@@ -406,15 +412,23 @@ func (c *Core) UnsafeSum(xs ...int) (float64, error) {
 		return 0, errors.New("no values seen yet")
 	}
 
-	// the hash alone does not identify a Tuple, unless it is a tracked one
-	tuple := Tuple(xs)
-	for _, t := range c.tuples {
-		if tuple.leq(t) {
-			return c.sums[tuple.hash()], nil
+	if !c.tracks(xs) {
+		return 0, errors.Errorf("%v is not a tracked power sum", xs)
+	}
+
+	return c.sums[Tuple(xs).hash()], nil
+}
+
+// tracks returns if the sum for a Tuple is being tracked; the hash alone
+// does not identify a Tuple, unless it is a tracked one.
+func (c *Core) tracks(tuple Tuple) bool {
+	for _, t := range c.tracked[tuple.hash()] {
+		if t.eq(tuple) {
+			return true
 		}
 	}
 
-	return 0, errors.Errorf("%v is not a tracked power sum", xs)
+	return false
 }
 
 // Clear clears all stats being tracked.
diff --git a/joint/tuple.go b/joint/tuple.go
index f00ec74..9f56253 100644
--- a/joint/tuple.go
+++ b/joint/tuple.go
@@ -58,21 +58,6 @@ func (m Tuple) eq(n Tuple) bool {
 	return true
 }
 
-// leq returns if m is a valid Tuple that is less than or equal to n.
-func (m Tuple) leq(n Tuple) bool {
-	if len(m) != len(n) {
-		return false
-	}
-
-	for i := range m {
-		if m[i] < 0 || m[i] > n[i] {
-			return false
-		}
-	}
-
-	return true
-}
-
 func sub(m, n Tuple) (Tuple, error) {
 	if len(m) != len(n) {
 		return nil, errors.Errorf(
-- 
2.43.0

