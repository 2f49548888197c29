From 792fd7f453adb436d328fc7ebc8e65d39a7edf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:01 +0000
Subject: [PATCH 01/31] fix: scan dataset lines longer than 64 KiB

bufio.Scanner's default token limit made every document with a longer line
fail with 'token too long'.
---
 dataset/xcrepo/xcrepo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataset/xcrepo/xcrepo.go b/dataset/xcrepo/xcrepo.go
index 073f9dd..4aff8d7 100644
--- a/dataset/xcrepo/xcrepo.go
+++ b/dataset/xcrepo/xcrepo.go
@@ -19,6 +19,10 @@ import (
 	"github.com/nlpodyssey/goslide/index_value"
 )
 
+// maxLineLength is the maximum length of a line, in bytes. Lines of extreme
+// classification datasets can be way longer than bufio.MaxScanTokenSize.
+const maxLineLength = 1 << 30
+
 type Scanner struct {
 	bufScanner  *bufio.Scanner
 	err         error
@@ -44,6 +48,7 @@ func NewScanner(r io.Reader) *Scanner {
 	s := &Scanner{
 		bufScanner: bufio.NewScanner(r),
 	}
+	s.bufScanner.Buffer(nil, maxLineLength)
 
 	if s.bufScanner.Err() != nil {
 		return s
-- 
2.43.0


From b6931980146b5cc8f3edce44494c01d089a127b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 02/31] fix: give each winner-take-all code its own bits in the
 bucket address

The codes range over 0..7 and need log2(8) = 3 bits each; the natural
logarithm gave 2, so that e.g. the codes (0, 4) and (1, 0) shared a bucket.
---
 lsh/lsh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsh/lsh.go b/lsh/lsh.go
index eda739c..390f42a 100644
--- a/lsh/lsh.go
+++ b/lsh/lsh.go
@@ -14,7 +14,7 @@ import (
 
 const binSize = 8
 
-var logBinSize = int(math.Floor(math.Log(float64(binSize))))
+var logBinSize = int(math.Floor(math.Log2(float64(binSize))))
 
 type LSH struct {
 	buckets  [][]*fifo.FifoBucket
-- 
2.43.0


From 4ea037a0d2809ca9dc88ea21842f0776e1320c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 03/31] fix: look up winner-take-all values by their index

GetHash read the values by their position in the list of pairs, so that it
panicked or gave the codes of another vector for sparse or unordered input.
---
 wta_hash/wta_hash.go | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/wta_hash/wta_hash.go b/wta_hash/wta_hash.go
index a8dc16e..100aa36 100644
--- a/wta_hash/wta_hash.go
+++ b/wta_hash/wta_hash.go
@@ -60,32 +60,13 @@ func New(numHashes, numOfBitsToHash int) *WtaHash {
 }
 
 func (wh *WtaHash) GetHash(data []index_value.Pair) []int {
-	hashes := make([]int, wh.numHashes)
-	values := make([]float64, wh.numHashes)
-
-	for i := 0; i < wh.numHashes; i++ {
-		hashes[i] = math.MinInt64
-		values[i] = math.MinInt64
+	dense := make([]float64, wh.rangePow)
+	for _, pair := range data {
+		dense[pair.Index] = pair.Value
 	}
-
-	for i := 0; i < wh.numHashes; i++ {
-		iOffset := i * binSize
-
-		for j := 0; j < binSize; j++ {
-			jOffset := iOffset + j
-
-			curIndex := wh.indices[jOffset]
-			if value := data[curIndex].Value; values[i] < value {
-				hashes[i] = curIndex
-				values[i] = value
-			}
-		}
-	}
-
-	return hashes
+	return wh.GetHashDense(dense)
 }
 
-// TODO: avoid code duplication
 func (wh *WtaHash) GetHashDense(data []float64) []int {
 	hashes := make([]int, wh.numHashes)
 	values := make([]float64, wh.numHashes)
-- 
2.43.0


From 4096bfdd225ad80d4cce7077f049588df437c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:04 +0000
Subject: [PATCH 04/31] fix: return the winning position as winner-take-all
 code

The code is the position of the maximum inside its window of binSize
coordinates, which is what the hash tables are dimensioned for. The index of
the coordinate itself led to bucket addresses outside the tables, as did the
initial value when no value of the window exceeded math.MinInt64.
---
 wta_hash/wta_hash.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/wta_hash/wta_hash.go b/wta_hash/wta_hash.go
index 100aa36..413afdc 100644
--- a/wta_hash/wta_hash.go
+++ b/wta_hash/wta_hash.go
@@ -71,11 +71,6 @@ func (wh *WtaHash) GetHashDense(data []float64) []int {
 	hashes := make([]int, wh.numHashes)
 	values := make([]float64, wh.numHashes)
 
-	for i := 0; i < wh.numHashes; i++ {
-		hashes[i] = math.MinInt64
-		values[i] = math.MinInt64
-	}
-
 	for i := 0; i < wh.numHashes; i++ {
 		iOffset := i * binSize
 
@@ -83,8 +78,8 @@ func (wh *WtaHash) GetHashDense(data []float64) []int {
 			jOffset := iOffset + j
 
 			curIndex := wh.indices[jOffset]
-			if value := data[curIndex]; values[i] < value {
-				hashes[i] = curIndex
+			if value := data[curIndex]; j == 0 || values[i] < value {
+				hashes[i] = j
 				values[i] = value
 			}
 		}
-- 
2.43.0


From 9f3924c68177f017c96204c80b7834c36b4bf03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 05/31] fix: look up densified winner-take-all bins by
 coordinate index

GetHash used the position in the list of pairs instead of the pair's index,
so that the codes of a sparse vector were those of another vector.
---
 densified_wta_hash/densified_wta_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index 1dd3794..a943472 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -84,8 +84,8 @@ func (dw *DensifiedWtaHash) GetHash(data []index_value.Pair) []int {
 
 	for p := 0; p < dw.permute; p++ {
 		binIndex := p * dw.rangePow
-		for i, pair := range data {
-			innerIndex := binIndex + i
+		for _, pair := range data {
+			innerIndex := binIndex + pair.Index
 			binId := dw.indices[innerIndex]
 			if binId < dw.numHashes &&
 				(!items[binId].init || items[binId].value < pair.Value) {
-- 
2.43.0


From d36ba4fa593bb5289df718bcc24bc898055a5d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 06/31] fix: hash dense values below math.MinInt64

Such values never won a bin, unlike in the sparse form of the same vector.
---
 densified_wta_hash/densified_wta_hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index a943472..d0a5307 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -125,7 +125,7 @@ func (dw *DensifiedWtaHash) GetHashEasy(data []float64, topK int) []int {
 
 	for i := range hashes {
 		hashes[i] = math.MinInt64
-		values[i] = math.MinInt64
+		values[i] = math.Inf(-1)
 	}
 
 	for p := 0; p < dw.permute; p++ {
-- 
2.43.0


From f329e54c15e448daee9dc45eb2fa50054903db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 07/31] fix: compute the densification probe with 32-bit
 arithmetic

The multiply-shift hash keeps the top bits of a 32-bit word. With 64-bit
words nearly all probes were far beyond the number of hashes and so ended up
on the very last bin, making the densification useless.
---
 densified_minhash/densified_minhash.go   | 4 ++--
 densified_wta_hash/densified_wta_hash.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 85addf4..14005f5 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -194,8 +194,8 @@ func (dm *DensifiedMinhash) GetHashEasyDense(
 }
 
 func (dm *DensifiedMinhash) GetRandDoubleHash(binId, count int) int {
-	toHash := ((uint(binId) + 1) << 6) + uint(count)
-	return int((uint(dm.randHash[0]) * toHash << 3) >> (32 - dm.logNumHash)) // logNumHash needs to be ceiled.
+	toHash := ((uint32(binId) + 1) << 6) + uint32(count)
+	return int((uint32(dm.randHash[0]) * toHash << 3) >> (32 - dm.logNumHash)) // logNumHash needs to be ceiled.
 }
 
 func (dm *DensifiedMinhash) GetMap(n int) []int {
diff --git a/densified_wta_hash/densified_wta_hash.go b/densified_wta_hash/densified_wta_hash.go
index d0a5307..5863a46 100644
--- a/densified_wta_hash/densified_wta_hash.go
+++ b/densified_wta_hash/densified_wta_hash.go
@@ -163,8 +163,8 @@ func (dw *DensifiedWtaHash) GetHashEasy(data []float64, topK int) []int {
 }
 
 func (dw *DensifiedWtaHash) GetRandDoubleHash(binId, count int) int {
-	toHash := ((uint(binId) + 1) << 6) + uint(count)
-	return int((uint(dw.randHash[0]) * toHash << 3) >> (32 - dw.logNumHash)) // logNumHash needs to be ceiled.
+	toHash := ((uint32(binId) + 1) << 6) + uint32(count)
+	return int((uint32(dw.randHash[0]) * toHash << 3) >> (32 - dw.logNumHash)) // logNumHash needs to be ceiled.
 }
 
 func positiveOddRandomInt() int {
-- 
2.43.0


From 78e99622a23d627171d194f02b1f0518aed93967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 08/31] fix: use the coordinate index of the pairs in the
 sparse min-hash

GetHashEasy used the position in the list of pairs, so that the codes of a
sparse vector were those of another vector.
---
 densified_minhash/densified_minhash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 14005f5..f57698a 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -88,13 +88,13 @@ func (dm *DensifiedMinhash) GetHashEasy(
 	// O(1) and apply minhash on retuned index.
 	pq := make(indexValuePriorityQueue, topK, topK+1)
 	for index, value := range data[0:topK] {
-		pq[index] = indexValuePair{index, value.Value}
+		pq[index] = indexValuePair{value.Index, value.Value}
 	}
 	heap.Init(&pq)
 
 	dataLen := len(data)
 	for index := topK; index < dataLen; index++ {
-		heap.Push(&pq, indexValuePair{index, data[index].Value})
+		heap.Push(&pq, indexValuePair{data[index].Index, data[index].Value})
 		heap.Pop(&pq)
 	}
 
-- 
2.43.0


From 3aab5667228c6b1b0dedbeecf5a864dcd016097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 09/31] fix: min-hash vectors with fewer values than topK

Slicing data up to topK panicked, for instance for any example with fewer
than 30 features.
---
 densified_minhash/densified_minhash.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index f57698a..205f371 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -86,6 +86,7 @@ func (dm *DensifiedMinhash) GetHashEasy(
 	// Read the data and add it to priority queue O(dlogk approx 7d)
 	// with index as key and values as priority value, get topk index
 	// O(1) and apply minhash on retuned index.
+	topK = minInt(topK, len(data))
 	pq := make(indexValuePriorityQueue, topK, topK+1)
 	for index, value := range data[0:topK] {
 		pq[index] = indexValuePair{value.Index, value.Value}
@@ -144,6 +145,7 @@ func (dm *DensifiedMinhash) GetHashEasyDense(
 	// Read the data and add it to priority queue O(dlogk approx 7d)
 	// with index as key and values as priority value, get topk index
 	// O(1) and apply minhash on retuned index.
+	topK = minInt(topK, len(data))
 	pq := make(indexValuePriorityQueue, topK, topK+1)
 	for index, value := range data[0:topK] {
 		pq[index] = indexValuePair{index, value}
-- 
2.43.0


From 1b9a357df6e1c829469c4f0c88aa91ce97356a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 10/31] fix: keep the topK highest values in the min-hash

The order of the heap was inverted: the highest value was dropped each time,
leaving the topK lowest ones.
---
 densified_minhash/index_value_pairs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/index_value_pairs.go b/densified_minhash/index_value_pairs.go
index 57f0c80..897c27c 100644
--- a/densified_minhash/index_value_pairs.go
+++ b/densified_minhash/index_value_pairs.go
@@ -20,8 +20,8 @@ func (p indexValuePriorityQueue) Len() int {
 }
 
 func (p indexValuePriorityQueue) Less(i, j int) bool {
-	// lower is better
-	return p[i].value > p[j].value // TODO: check if correct
+	// The lowest value is popped first, so that the highest ones are kept.
+	return p[i].value < p[j].value
 }
 
 func (p indexValuePriorityQueue) Swap(i, j int) {
-- 
2.43.0


From 29e224dcf73c154dfc182e5db227836fffe12c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 11/31] fix: limit the hash range of the min-hash bin map

The range is 2 to the dimension of the data, which overflows for dimensions
of 63 and more: the bins were then negative and the first lookup panicked.
---
 densified_minhash/densified_minhash.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/densified_minhash/densified_minhash.go b/densified_minhash/densified_minhash.go
index 205f371..97974d0 100644
--- a/densified_minhash/densified_minhash.go
+++ b/densified_minhash/densified_minhash.go
@@ -15,6 +15,10 @@ import (
 	"github.com/nlpodyssey/goslide/index_value"
 )
 
+// maxRangePow limits the range of the hashes so that their values are exactly
+// representable as float64.
+const maxRangePow = 52
+
 type DensifiedMinhash struct {
 	randHash   [2]int
 	randa      int
@@ -203,7 +207,8 @@ func (dm *DensifiedMinhash) GetRandDoubleHash(binId, count int) int {
 func (dm *DensifiedMinhash) GetMap(n int) []int {
 	binIds := make([]int, n)
 
-	rng := 1 << dm.rangePow
+	rangePow := minInt(dm.rangePow, maxRangePow)
+	rng := 1 << rangePow
 
 	// The number of times the range is larger than
 	// the total number of hashes we need.
@@ -220,7 +225,7 @@ func (dm *DensifiedMinhash) GetMap(n int) []int {
 		mh.Write(buf[:bufLen])
 		curHash := mh.Sum64()
 
-		curHash = curHash & ((1 << dm.rangePow) - 1)
+		curHash = curHash & ((1 << rangePow) - 1)
 		binIds[i] = int(math.Floor(float64(curHash) / float64(binSize)))
 	}
 
-- 
2.43.0


From de19f706accd97f95a70ad4cedfc27f5cfd0bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 12/31] fix: accept unordered pairs in the sparse random
 projection

The sparse form merges the pairs with ordered index lists and silently
skipped every value whose index was lower than a previous one.
---
 sparse_random_projection/sparse_random_projection.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparse_random_projection/sparse_random_projection.go b/sparse_random_projection/sparse_random_projection.go
index 87e9d79..49e4f21 100644
--- a/sparse_random_projection/sparse_random_projection.go
+++ b/sparse_random_projection/sparse_random_projection.go
@@ -85,6 +85,12 @@ func (srp *SparseRandomProjection) GetHash(vector []float64) []int {
 func (srp *SparseRandomProjection) GetHashSparse(
 	data []index_value.Pair,
 ) []int {
+	byIndex := func(i, j int) bool { return data[i].Index < data[j].Index }
+	if !sort.SliceIsSorted(data, byIndex) {
+		data = append([]index_value.Pair(nil), data...)
+		sort.SliceStable(data, byIndex)
+	}
+
 	length := len(data)
 	hashes := make([]int, srp.numHashes)
 
-- 
2.43.0


From 304a8a24e0c16c775177dbf8e4dffc25f22a4f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 13/31] fix: keep the true labels active in threshold mode with
 few tables

Labels were counted as found in all L tables, which is not above the
threshold for one or two tables: they were dropped and never learnt.
---
 layer/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index 9397dcb..07e55b1 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -333,7 +333,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 			// Make sure that the true label node is in candidates
 			if l.nodeType == node.Softmax && len(label) > 0 {
 				for _, labelValue := range label {
-					counts[labelValue] = l.l
+					counts[labelValue] = threshold + 1
 				}
 			}
 
-- 
2.43.0


From 20cfb4c953f1cfe7d2e455ced33539e1d1d9e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 14/31] fix: order the active neurons of the threshold mode

They came in the random order of a Go map, so that results (sums, and the
predicted class among equal scores) differed from run to run.
---
 layer/layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer/layer.go b/layer/layer.go
index 07e55b1..6640c54 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -350,6 +350,9 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 					vect = append(vect, index_value.Pair{Index: index})
 				}
 			}
+			sort.Slice(vect, func(i, j int) bool {
+				return vect[i].Index < vect[j].Index
+			})
 
 			length = len(vect)
 			activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
-- 
2.43.0


From b73a7cd5b5f1eef7192c359569214574177d156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 15/31] fix: random mode with repeated labels or more labels
 than places

A repeated label made the same neuron active twice, and more labels than
sampled places panicked.
---
 layer/layer.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/layer/layer.go b/layer/layer.go
index 6640c54..7b94ccf 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -360,7 +360,11 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 			in = length
 		case configuration.LayerMode2:
 			if l.nodeType == node.Softmax {
+				label := uniqueInts(label)
 				length = int(math.Floor(float64(len(l.nodes)) * sparsity))
+				if length < len(label) {
+					length = len(label)
+				}
 				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
 
 				bs := make([]bool, mapLen) // bitset
@@ -647,6 +651,16 @@ func (l *Layer) clone(cowId int) *Layer {
 	return newLayer
 }
 
+func uniqueInts(slice []int) []int {
+	unique := make([]int, 0, len(slice))
+	for _, v := range slice {
+		if !intSliceContains(unique, v) {
+			unique = append(unique, v)
+		}
+	}
+	return unique
+}
+
 func intSliceContains(slice []int, value int) bool {
 	for _, v := range slice {
 		if v == value {
-- 
2.43.0


From 58a23c54f505933ea26547bf054dfb9352bb12ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:14 +0000
Subject: [PATCH 16/31] fix: random mode with layers of more than 325056
 neurons

The set of chosen neurons had a fixed size and indexing it panicked.
---
 layer/layer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/layer/layer.go b/layer/layer.go
index 7b94ccf..89d7891 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -26,7 +26,6 @@ const topK = 30
 const normalDistributionStdDev = 0.01
 const normalDistributionMean = 0.0
 const threshold = 2
-const mapLen = 325_056
 
 type Layer struct {
 	cowId                   int // "thread" ID for copy on write
@@ -367,7 +366,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 				}
 				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
 
-				bs := make([]bool, mapLen) // bitset
+				bs := make([]bool, len(l.nodes)) // bitset
 				tmpSize := 0
 				if l.nodeType == node.Softmax && len(label) > 0 {
 					for i, labelValue := range label {
-- 
2.43.0


From 0ad6b5a20d30e0799856e3b549cb951622893c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 17/31] fix: do not overrun the active neurons in exact mode

All neurons were written to a slice with room for the best ones only, which
always panicked; so did more labels than places.
---
 layer/layer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index 89d7891..bc68d67 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -387,6 +387,9 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 		case configuration.LayerMode3:
 			if l.nodeType == node.Softmax {
 				length = int(math.Floor(float64(len(l.nodes)) * sparsity))
+				if n := len(uniqueInts(label)); length < n {
+					length = n
+				}
 				activeNodesPerLayer[layerIndex+1] = make([]index_value.Pair, length)
 
 				sortW := make([]index_value.Pair, 0)
@@ -412,7 +415,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 
 				sort.Sort(indexValuePairByValue(sortW))
 
-				for i, sw := range sortW {
+				for i, sw := range sortW[:length] {
 					activeNodesPerLayer[layerIndex+1][i].Index = sw.Index
 					if intSliceContains(label, sw.Index) {
 						in = 1
-- 
2.43.0


From 7e84b8c46519c293a6d4ace33c0ffa24e92702e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 18/31] fix: put the labels first in exact mode whatever the
 scores

Scores above 1e9 came before the labels and could push them out.
---
 layer/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index bc68d67..1d01d70 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -402,7 +402,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 					if intSliceContains(label, s) {
 						sortW = append(sortW, index_value.Pair{
 							Index: s,
-							Value: -1000000000, // TODO: maybe min int?
+							Value: math.Inf(-1),
 						})
 						what++
 					} else {
-- 
2.43.0


From fe77edd49f8b3f6fe007c96e4191694a49fcb594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 19/31] fix: count repeated labels once in sampling mode

The list of active neurons was made too long and filled up with copies of
neuron 0, which panicked in the back-propagation.
---
 layer/layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index 1d01d70..3f9df3f 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -462,9 +462,11 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 			// Make sure that the true label node is in candidates
 			if l.nodeType == node.Softmax && len(label) > 0 {
 				for _, labelValue := range label {
+					if counts[labelValue] == -1 {
+						countsSize++
+					}
 					counts[labelValue] = l.l
 				}
-				countsSize = len(label)
 			}
 
 			for _, iVal := range actives {
-- 
2.43.0


From 3cf28ed2ffbeb4443c3d73c25c45edbb27174029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 20/31] fix: subtract the true maximum in the softmax

The maximum started from 0: when all scores were very negative all the
activations underflowed to 0.
---
 layer/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/layer.go b/layer/layer.go
index 3f9df3f..0b58955 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -527,7 +527,7 @@ func (la *Layer) QueryActiveNodeAndComputeActivations(
 
 	nextLayerActiveNodes := activeNodesPerLayer[layerIndex+1]
 
-	maxValue := 0.0
+	maxValue := math.Inf(-1)
 	if l.nodeType == node.Softmax {
 		l.normalizationConstants[inputId] = 0
 	}
-- 
2.43.0


From b533f9ce7addc1f40e68eb46d24df77e0e2d6460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 21/31] fix: average the target part of the softmax gradient
 over the batch

Only the probability was divided by the batch size, the target was not.
---
 node/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 71cc12f..c3455d8 100644
--- a/node/node.go
+++ b/node/node.go
@@ -315,8 +315,8 @@ func (nd *Node) ComputeExtaStatsForSoftMax(
 	//TODO:check gradient
 
 	if intSliceContains(labels, n.base.idInLayer) {
-		train[inputId].lastDeltaforBPs = 1.0/float64(len(labels)) -
-			train[inputId].lastActivations/float64(n.base.currentBatchsize)
+		train[inputId].lastDeltaforBPs = (1.0/float64(len(labels)) -
+			train[inputId].lastActivations) / float64(n.base.currentBatchsize)
 	} else {
 		train[inputId].lastDeltaforBPs = -train[inputId].lastActivations /
 			float64(n.base.currentBatchsize)
-- 
2.43.0


From b9da05ef16674e1beca957b4644d34f43ffbe7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 22/31] fix: multiply the first layer's bias gradient by the
 learning rate

Without Adam the learning rate was added to the gradient instead.
---
 node/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index c3455d8..209b023 100644
--- a/node/node.go
+++ b/node/node.go
@@ -406,7 +406,7 @@ func (nd *Node) BackPropagateFirstLayer(
 		// TODO: ?? biasgradTsq = biasgradT * biasgradT
 		n.base.tBias += biasgradT
 	} else {
-		n.base.mirrorBias += learningRate + train[inputId].lastDeltaforBPs
+		n.base.mirrorBias += learningRate * train[inputId].lastDeltaforBPs
 	}
 
 	train[inputId].activeinputIds = 0 // deactivate inputIDs
-- 
2.43.0


From d71f0d8dc7bcca4dd5f5e5e233d8d08262aa746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 23/31] fix: collect the updates of a batch apart from the
 weights

Without Adam the mirror weights were the weights themselves, so that the
gradients of a batch were computed with half updated weights.
---
 node/node.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 209b023..4dc2ac4 100644
--- a/node/node.go
+++ b/node/node.go
@@ -75,7 +75,7 @@ func NewNode(
 			weights:          weights,
 			bias:             bias,
 			mirrorBias:       bias,
-			mirrorWeights:    weights, // TODO: correct? not present in C++
+			mirrorWeights:    newMirror(weights),
 		},
 		train: nil,
 	}
@@ -95,6 +95,15 @@ func NewNode(
 	return newNode
 }
 
+// newMirror returns the weights that collect the updates of a batch. They are
+// not used by Adam.
+func newMirror(weights []float64) []float64 {
+	if configuration.Global.UseAdam {
+		return weights
+	}
+	return append([]float64(nil), weights...)
+}
+
 func (n *Node) Weights() []float64 {
 	return n.base.weights
 }
@@ -214,7 +223,7 @@ func (nd *Node) Update(
 	n.base.weights = weights
 	n.base.bias = bias
 	n.base.mirrorBias = bias
-	n.base.mirrorWeights = weights // TODO: correct? not present in C++
+	n.base.mirrorWeights = newMirror(weights)
 
 	if configuration.Global.UseAdam {
 		n.base.adamAvgMom = adamAvgMom
-- 
2.43.0


From 6c67a927b11f8862d1fb402755317c0c0ce683bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 24/31] fix: really copy the slices of a cloned node

The copy was made and then dropped, so that original and clone shared
weights, moments and gradients.
---
 node/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 4dc2ac4..bc25fdf 100644
--- a/node/node.go
+++ b/node/node.go
@@ -530,13 +530,13 @@ func (t *NodeTrain) clone(cowId int) *NodeTrain {
 func copyIntSlice(s []int) []int {
 	newS := make([]int, len(s))
 	copy(newS, s)
-	return s
+	return newS
 }
 
 func copyFloat64Slice(s []float64) []float64 {
 	newS := make([]float64, len(s))
 	copy(newS, s)
-	return s
+	return newS
 }
 
 func intSliceContains(slice []int, value int) bool {
-- 
2.43.0


From fa8ea970db3f10b86aad61e15ca65bba4b80ef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 25/31] fix: do not share parameters and activations between
 node clones

A later change of the original under its own id was visible in its clones.
---
 node/node.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index bc25fdf..a2a813e 100644
--- a/node/node.go
+++ b/node/node.go
@@ -472,13 +472,15 @@ func (n *Node) cloneIfNeeded(cowId int) *Node {
 func (n *Node) clone(cowId int) *Node {
 	newNode := &Node{
 		cowId: cowId,
-		base:  n.base,
+		base:  n.base.clone(cowId),
 		train: nil,
 	}
 
 	if n.train != nil {
 		newNode.train = make([]*NodeTrain, len(n.train))
-		copy(newNode.train, n.train)
+		for i, t := range n.train {
+			newNode.train[i] = t.clone(cowId)
+		}
 	}
 
 	return newNode
-- 
2.43.0


From 4d901bf311a23c006848b068e4cf68648c1665cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 26/31] fix: fill the hash tables again after a rebuild

A rebuild without a re-hash replaced the hash functions but left the tables
filled according to the old ones.
---
 network/network.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/network/network.go b/network/network.go
index 9d9e8cc..6f55fbe 100644
--- a/network/network.go
+++ b/network/network.go
@@ -246,8 +246,9 @@ func (ne *Network) ProcessInput(
 
 	for layerIndex, layer := range hiddenLayers {
 		curLayerSparsity := n.sparsity[layerIndex]
-		tmpRehash := rehash && curLayerSparsity < 1.0
 		tmpRebuild := rebuild && curLayerSparsity < 1.0
+		// New hash functions make the content of the tables meaningless.
+		tmpRehash := (rehash || rebuild) && curLayerSparsity < 1.0
 
 		if tmpRehash {
 			layer.ClearHashTables()
-- 
2.43.0


From 02d4f276c5096242fae0b11bf61526713d97e399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 27/31] fix: do not predict class 0 without active output
 neurons

Examples labelled 0 were counted as correctly predicted.
---
 network/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network/network.go b/network/network.go
index 6f55fbe..21abdcc 100644
--- a/network/network.go
+++ b/network/network.go
@@ -130,7 +130,7 @@ func (ne *Network) PredictClass(
 
 		//compute softmax
 		var maxAct float64
-		var predictClass int
+		predictClass := -1
 		for pairIndex, pair := range activeNodesPerLayer[n.numberOfLayers] {
 			act := lastHiddenLayer.GetNodeById(pair.Index).GetLastActivation(i)
 			if maxAct < act || pairIndex == 0 {
-- 
2.43.0


From 66258bf6a526fa8fb712f19dfb8e9edf7977be44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 28/31] fix: make networks of different owners independent

The layers, their nodes, hash tables and normalization constants were shared
between a network and its copies, so that using a copy changed the original.
---
 bucket/fifo/fifo.go |  8 ++++++++
 layer/layer.go      | 15 ++++++++++++---
 lsh/lsh.go          | 14 ++++++++++++++
 network/network.go  |  5 ++++-
 node/node.go        |  5 +++--
 5 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/bucket/fifo/fifo.go b/bucket/fifo/fifo.go
index b383fb0..718379d 100644
--- a/bucket/fifo/fifo.go
+++ b/bucket/fifo/fifo.go
@@ -21,6 +21,14 @@ func New() *FifoBucket {
 	}
 }
 
+// Clone returns an independent copy of the bucket.
+func (b *FifoBucket) Clone() *FifoBucket {
+	newBucket := New()
+	newBucket.slice = append(newBucket.slice, b.slice...)
+	newBucket.count = b.count
+	return newBucket
+}
+
 func (b *FifoBucket) Reset() {
 	b.slice = b.slice[:0]
 	b.count = 0
diff --git a/layer/layer.go b/layer/layer.go
index 0b58955..b373912 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -642,16 +642,25 @@ func (l *Layer) innerproduct(
 
 func (l *Layer) cloneIfNeeded(cowId int) *Layer {
 	if l.cowId != cowId {
-		return l.clone(cowId)
+		return l.Clone(cowId)
 	}
 	return l
 }
 
-func (l *Layer) clone(cowId int) *Layer {
-	// TODO: copy slices and pointers too?
+// Clone returns an independent copy of the layer. Only the hash functions,
+// which never change, are shared.
+func (l *Layer) Clone(cowId int) *Layer {
 	newLayer := &Layer{}
 	*newLayer = *l
 	newLayer.cowId = cowId
+	newLayer.nodes = make([]*node.Node, len(l.nodes))
+	for i, n := range l.nodes {
+		newLayer.nodes[i] = n.Clone(cowId)
+	}
+	newLayer.randNode = append([]int(nil), l.randNode...)
+	newLayer.normalizationConstants =
+		append([]float64(nil), l.normalizationConstants...)
+	newLayer.hashTables = l.hashTables.Clone()
 	return newLayer
 }
 
diff --git a/lsh/lsh.go b/lsh/lsh.go
index 390f42a..8a8c2c0 100644
--- a/lsh/lsh.go
+++ b/lsh/lsh.go
@@ -52,6 +52,20 @@ func New(k, l, rangePow int) *LSH {
 	}
 }
 
+// Clone returns an independent copy of the hash tables.
+func (lsh *LSH) Clone() *LSH {
+	newLSH := &LSH{}
+	*newLSH = *lsh
+	newLSH.buckets = make([][]*fifo.FifoBucket, len(lsh.buckets))
+	for i, buckets := range lsh.buckets {
+		newLSH.buckets[i] = make([]*fifo.FifoBucket, len(buckets))
+		for j, bucket := range buckets {
+			newLSH.buckets[i][j] = bucket.Clone()
+		}
+	}
+	return newLSH
+}
+
 func (lsh *LSH) Clear() {
 	for _, buckets := range lsh.buckets {
 		for _, bucket := range buckets {
diff --git a/network/network.go b/network/network.go
index 21abdcc..0a879a0 100644
--- a/network/network.go
+++ b/network/network.go
@@ -322,10 +322,13 @@ func (n *Network) cloneIfNeeded(cowId int) *Network {
 }
 
 func (n *Network) clone(cowId int) *Network {
-	// TODO: copy slices too?
 	newNetwork := &Network{}
 	*newNetwork = *n
 	newNetwork.cowId = cowId
+	newNetwork.hiddenLayers = make([]*layer.Layer, len(n.hiddenLayers))
+	for i, hiddenLayer := range n.hiddenLayers {
+		newNetwork.hiddenLayers[i] = hiddenLayer.Clone(cowId)
+	}
 	return newNetwork
 }
 
diff --git a/node/node.go b/node/node.go
index a2a813e..535fe71 100644
--- a/node/node.go
+++ b/node/node.go
@@ -464,12 +464,13 @@ func (n *Node) GetGradient(
 
 func (n *Node) cloneIfNeeded(cowId int) *Node {
 	if n.cowId != cowId {
-		return n.clone(cowId)
+		return n.Clone(cowId)
 	}
 	return n
 }
 
-func (n *Node) clone(cowId int) *Node {
+// Clone returns an independent copy of the node.
+func (n *Node) Clone(cowId int) *Node {
 	newNode := &Node{
 		cowId: cowId,
 		base:  n.base.clone(cowId),
-- 
2.43.0


From 9e6cd133c09bcf71da9576681d728a6f5b3c93b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 29/31] fix: allow re-hash and rebuild periods shorter than a
 batch

They panicked with an integer division by zero.
---
 goslide.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/goslide.go b/goslide.go
index ce796c2..8ab0470 100644
--- a/goslide.go
+++ b/goslide.go
@@ -141,13 +141,15 @@ func trainSvmEpoch(cowId, numBatches int, myNet *network.Network, epoch int) {
 
 		rehash := false
 		rebuild := false
+		rehashPeriod := batchesPerPeriod(config.Rehash, config.BatchSize)
+		rebuildPeriod := batchesPerPeriod(config.Rebuild, config.BatchSize)
 
 		if config.LayerMode == configuration.LayerMode1 || config.LayerMode == configuration.LayerMode4 {
-			if (epoch*numBatches+i)%(config.Rehash/config.BatchSize) == (config.Rehash/config.BatchSize - 1) {
+			if (epoch*numBatches+i)%rehashPeriod == rehashPeriod-1 {
 				rehash = true
 			}
 			// TODO: probably there was an error in the original code (using rehash at right)
-			if (epoch*numBatches+i)%(config.Rebuild/config.BatchSize) == (config.Rebuild/config.BatchSize - 1) {
+			if (epoch*numBatches+i)%rebuildPeriod == rebuildPeriod-1 {
 				rebuild = true
 			}
 		}
@@ -163,6 +165,15 @@ func trainSvmEpoch(cowId, numBatches int, myNet *network.Network, epoch int) {
 	}
 }
 
+// batchesPerPeriod returns the number of batches in a period given as a number
+// of records. A period shorter than a batch means every batch.
+func batchesPerPeriod(records, batchSize int) int {
+	if records < batchSize {
+		return 1
+	}
+	return records / batchSize
+}
+
 func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 	config := configuration.Global
 
-- 
2.43.0


From f2751c8363a9ba68321a060d1453ed4ffff8eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 30/31] fix: report the records really evaluated

With a test file shorter than the evaluation the number of records was
overstated and the accuracy understated.
---
 goslide.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/goslide.go b/goslide.go
index 8ab0470..b339807 100644
--- a/goslide.go
+++ b/goslide.go
@@ -178,6 +178,7 @@ func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 	config := configuration.Global
 
 	totCorrect := 0
+	totRecords := 0
 
 	file, err := os.Open(config.TestData)
 	if err != nil {
@@ -207,7 +208,9 @@ func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 			logger.Fatalf("Error at line %d. %v", scanner.LineNumber(), err)
 		}
 
-		logger.Println(config.BatchSize, "records, with", numFeatures,
+		totRecords += len(examples)
+
+		logger.Println(len(examples), "records, with", numFeatures,
 			"features and", numLabels, "labels")
 
 		var correctPredict int
@@ -218,16 +221,16 @@ func evaluateSvm(cowId, numBatchesTest int, myNet *network.Network, iter int) {
 		totCorrect += correctPredict
 
 		logger.Println("Iter", i, "-",
-			float64(totCorrect)/(float64(config.BatchSize)*(float64(i)+1)),
+			float64(totCorrect)/float64(totRecords),
 			"correct")
 	}
 
 	logger.Println("Over all:",
-		float64(totCorrect)/(float64(numBatchesTest)*float64(config.BatchSize)),
+		float64(totCorrect)/float64(totRecords),
 		"correct")
 
 	logger.Println(iter, globalTime,
-		float64(totCorrect)/(float64(numBatchesTest)*float64(config.BatchSize)))
+		float64(totCorrect)/float64(totRecords))
 }
 
 func validateArguments() {
-- 
2.43.0


From 70ddb725d01c9ef80cc93f2125102da78642977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:57 +0000
Subject: [PATCH 31/31] fix: keep no mirror weights with Adam

They were the weights themselves, but after copying a node they were old
weights, which copying from the mirror then brought back.
---
 node/node.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node/node.go b/node/node.go
index 535fe71..171e341 100644
--- a/node/node.go
+++ b/node/node.go
@@ -95,11 +95,11 @@ func NewNode(
 	return newNode
 }
 
-// newMirror returns the weights that collect the updates of a batch. They are
-// not used by Adam.
+// newMirror returns the weights that collect the updates of a batch. Adam has
+// no use for them.
 func newMirror(weights []float64) []float64 {
 	if configuration.Global.UseAdam {
-		return weights
+		return nil
 	}
 	return append([]float64(nil), weights...)
 }
-- 
2.43.0

