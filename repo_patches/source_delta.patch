From d780c023bdbfb4b625e1904bc13bfd955aa86aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:45 +0000
Subject: [PATCH 01/19] fix: an index table of size 0 accepts no id

---
 pkg/idxtable/table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 8d6f0e2..d06f709 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -46,8 +46,8 @@ type table[T1 any] struct {
 }
 
 func (r *table[T1]) validate(id uint64) error {
-	if id > r.size-1 {
-		return fmt.Errorf("id %d is bigger then max allowed entries: %d", id, r.size-1)
+	if id >= r.size {
+		return fmt.Errorf("id %d does not fit in a table of %d entries", id, r.size)
 	}
 	return nil
 }
-- 
2.43.0


From 37e588cd6b7235e84a31bed693378da074fca3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 02/19] fix: find and claim an index table range exactly when
 it fits and is free

A range of one id, a range whose last id is in use and a range whose
start is in use were judged wrong, and start+size could wrap.
---
 pkg/idxtable/table.go | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index d06f709..8727e75 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -229,35 +229,18 @@ func (r *table[T1]) FindFreeRange(start, size uint64) ([]uint64, error) {
 }
 
 func (r *table[T1]) findFreeRange(start, size uint64) ([]uint64, error) {
-	end := start + size - 1
-
-	if start > r.size-1 {
-		return nil, fmt.Errorf("start %d is bigger then max allowed entries: %d", start, r.size)
-	}
-	if end > r.size-1 {
-		return nil, fmt.Errorf("end %d is bigger then max allowed entries: %d", end, r.size)
+	if size > r.size || start > r.size-size {
+		return nil, fmt.Errorf("range start %d, size %d does not fit in a table of %d entries", start, size, r.size)
 	}
 
 	entries := []uint64{}
-	free := r.iterateFree()
-	for free.Next() {
-		if free.ID() < start {
-			continue
-		}
-		switch {
-		case free.ID() == start:
-			entries = append(entries, free.ID())
-		case free.ID() > start && free.ID() < end:
-			if !free.IsConsecutive() {
-				return nil, fmt.Errorf("entry %d in use in range: start: %d, end %d", free.ID(), start, end)
-			}
-			entries = append(entries, free.ID())
-		default:
-			entries = append(entries, free.ID())
-			return entries, nil
+	for id := start; id < start+size; id++ {
+		if !r.isFree(id) {
+			return nil, fmt.Errorf("entry %d in use in range: start: %d, size %d", id, start, size)
 		}
+		entries = append(entries, id)
 	}
-	return nil, fmt.Errorf("could not find free range that fit in start %d, size %d", start, size)
+	return entries, nil
 }
 
 func (r *table[T1]) FindFreeSize(size uint64) ([]uint64, error) {
-- 
2.43.0


From d56215e698688ac9960f22f0ba68be9d443f3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 03/19] fix: GetAll of an index table does not take its read
 lock twice

With a writer waiting between the two RLock calls the second one never
returned.
---
 pkg/idxtable/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index 8727e75..e894ffb 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -302,7 +302,7 @@ func (r *table[T1]) GetAll() Entries[T1] {
 
 	entries := make([]Entry[T1], 0, len(r.table))
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Value())
 	}
-- 
2.43.0


From 53d58775db03244a1df97fd80faf96d00cae2d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 04/19] fix: iterators of an index table keep a copy of the
 entries

They read the live map without the table's lock: a data race with
concurrent claims, and nil values after a release.
---
 pkg/idxtable/table.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/idxtable/table.go b/pkg/idxtable/table.go
index e894ffb..8671520 100644
--- a/pkg/idxtable/table.go
+++ b/pkg/idxtable/table.go
@@ -151,14 +151,17 @@ func (r *table[T1]) Iterate() *Iterator[T1] {
 
 func (r *table[T1]) iterate() *Iterator[T1] {
 	keys := make([]uint64, 0, len(r.table))
-	for key := range r.table {
+	// the iterator outlives the lock: give it its own copy of the entries
+	table := make(map[uint64]Entry[T1], len(r.table))
+	for key, e := range r.table {
 		keys = append(keys, key)
+		table[key] = e
 	}
 	sort.Slice(keys, func(i int, j int) bool {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: r.table}
+	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: table}
 }
 
 func (r *table[T1]) IterateFree() *Iterator[T1] {
@@ -170,22 +173,19 @@ func (r *table[T1]) IterateFree() *Iterator[T1] {
 
 func (r *table[T1]) iterateFree() *Iterator[T1] {
 	var keys []uint64
-	table := map[uint64]T1{}
-
-	var d T1
 
 	for id := uint64(0); id < r.size; id++ {
 		_, exists := r.table[id]
 		if !exists {
 			keys = append(keys, id)
-			table[id] = d
 		}
 	}
 	sort.Slice(keys, func(i int, j int) bool {
 		return keys[i] < keys[j]
 	})
 
-	return &Iterator[T1]{current: 1<<64-1, keys: keys, table: r.table}
+	// free ids have no entries
+	return &Iterator[T1]{current: 1<<64-1, keys: keys}
 }
 
 func (r *table[T1]) Size() int {
-- 
2.43.0


From 0776257e7ac71f7aa9d0132e322f89d446ed0ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:53 +0000
Subject: [PATCH 05/19] fix: an offset table can span the full range of its
 type

---
 pkg/table/table16/table16.go | 2 +-
 pkg/table/table32/table32.go | 2 +-
 pkg/table/table64/table64.go | 8 +++++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index acf36cb..fe58912 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -14,7 +14,7 @@ import (
 func New(start, end uint16) table.Table {
 	return &table16{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end) - uint64(start) + 1,
 		),
 		start: start,
 		end:   end,
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 8076a79..61f71a2 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -13,7 +13,7 @@ import (
 func New(start, end uint32) table.Table {
 	return &table32{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			uint64(end) - uint64(start) + 1,
 		),
 		start: start,
 		end:   end,
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 40f4fb6..477a39a 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -2,6 +2,7 @@ package table64
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/henderiw/idxtable/pkg/idxtable"
 	"github.com/henderiw/idxtable/pkg/table"
@@ -11,9 +12,14 @@ import (
 )
 
 func New(start, end uint64) table.Table {
+	size := end - start
+	if size < math.MaxUint64 {
+		// the full range has one id more than a size can count
+		size++
+	}
 	return &table64{
 		table: idxtable.NewTable[tree.Entry](
-			uint64(end - start + 1),
+			size,
 		),
 		start: start,
 		end:   end,
-- 
2.43.0


From d3be5144fc118175d9045b2cb33b819bd45f70eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 06/19] fix: an offset table reports its entries under the id
 they were claimed with

---
 pkg/table/table16/table16.go | 9 +++------
 pkg/table/table32/table32.go | 6 ++----
 pkg/table/table64/table64.go | 6 ++----
 3 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/pkg/table/table16/table16.go b/pkg/table/table16/table16.go
index fe58912..ceee8c0 100644
--- a/pkg/table/table16/table16.go
+++ b/pkg/table/table16/table16.go
@@ -7,7 +7,6 @@ import (
 	"github.com/henderiw/idxtable/pkg/table"
 	"github.com/henderiw/idxtable/pkg/tree"
 	"github.com/henderiw/idxtable/pkg/tree/id16"
-	"github.com/henderiw/idxtable/pkg/tree/id32"
 	"k8s.io/apimachinery/pkg/labels"
 )
 
@@ -51,7 +50,7 @@ func (r *table16) Claim(id uint64, labels labels.Set) error {
 		return fmt.Errorf("claim failed id %d already claimed", calculateIDFromIndex(r.start, newid))
 	}
 
-	treeId := id16.NewID(uint16(newid), id16.IDBitSize)
+	treeId := id16.NewID(uint16(id), id16.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	return r.table.Claim(newid, treeEntry)
 }
@@ -86,7 +85,7 @@ func (r *table16) Update(id uint64, labels labels.Set) error {
 		return err
 	}
 	newid := calculateIndex(uint16(id), r.start)
-	treeId := id16.NewID(uint16(newid), id16.IDBitSize)
+	treeId := id16.NewID(uint16(id), id16.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	return r.table.Update(newid, treeEntry)
 }
@@ -125,7 +124,7 @@ func (r *table16) GetAll() tree.Entries {
 	entries := make(tree.Entries, 0, r.table.Size())
 	for _, entry := range r.table.GetAll() {
 		// need to remap the id for the outside world
-		entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, entry.ID())), 32), entry.Data().Labels())
+		entry := tree.NewEntry(id16.NewID(calculateIDFromIndex(r.start, entry.ID()), id16.IDBitSize), entry.Data().Labels())
 
 		entries = append(entries, entry)
 	}
@@ -140,8 +139,6 @@ func (r *table16) GetByLabel(selector labels.Selector) tree.Entries {
 	for iter.Next() {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
-			// need to remap the id for the outside world
-			entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), 32), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
diff --git a/pkg/table/table32/table32.go b/pkg/table/table32/table32.go
index 61f71a2..2f1b7b2 100644
--- a/pkg/table/table32/table32.go
+++ b/pkg/table/table32/table32.go
@@ -50,7 +50,7 @@ func (r *table32) Claim(id uint64, labels labels.Set) error {
 		return fmt.Errorf("claim failed id %d already claimed", calculateIDFromIndex(r.start, newid))
 	}
 
-	treeId := id32.NewID(uint32(newid), id32.IDBitSize)
+	treeId := id32.NewID(uint32(id), id32.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	return r.table.Claim(newid, treeEntry)
 }
@@ -85,7 +85,7 @@ func (r *table32) Update(id uint64, labels labels.Set) error {
 		return err
 	}
 	newid := calculateIndex(uint32(id), r.start)
-	treeId := id32.NewID(uint32(newid), id32.IDBitSize)
+	treeId := id32.NewID(uint32(id), id32.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	return r.table.Update(newid, treeEntry)
 }
@@ -139,8 +139,6 @@ func (r *table32) GetByLabel(selector labels.Selector) tree.Entries {
 	for iter.Next() {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
-			// need to remap the id for the outside world
-			entry := tree.NewEntry(id32.NewID(uint32(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), id32.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
diff --git a/pkg/table/table64/table64.go b/pkg/table/table64/table64.go
index 477a39a..539fbb2 100644
--- a/pkg/table/table64/table64.go
+++ b/pkg/table/table64/table64.go
@@ -56,7 +56,7 @@ func (r *table64) Claim(id uint64, labels labels.Set) error {
 		return fmt.Errorf("claim failed id %d already claimed", calculateIDFromIndex(r.start, newid))
 	}
 
-	treeId := id64.NewID(uint64(newid), id64.IDBitSize)
+	treeId := id64.NewID(id, id64.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	return r.table.Claim(newid, treeEntry)
 }
@@ -91,7 +91,7 @@ func (r *table64) Update(id uint64, labels labels.Set) error {
 		return err
 	}
 	newid := calculateIndex(id, r.start)
-	treeId := id64.NewID(uint64(newid), id64.IDBitSize)
+	treeId := id64.NewID(id, id64.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	return r.table.Update(newid, treeEntry)
 }
@@ -145,8 +145,6 @@ func (r *table64) GetByLabel(selector labels.Selector) tree.Entries {
 	for iter.Next() {
 		entry := iter.Value().Data()
 		if selector.Matches(entry.Labels()) {
-			// need to remap the id for the outside world
-			entry := tree.NewEntry(id64.NewID(uint64(calculateIDFromIndex(r.start, uint64(entry.ID().ID()))), id64.IDBitSize), entry.Labels())
 			entries = append(entries, entry)
 		}
 	}
-- 
2.43.0


From e91acb0826aa399fe5ec0b318ff9e2cc978fcee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:47 +0000
Subject: [PATCH 07/19] fix: the successor of the largest id is the zero id

---
 pkg/tree/id16/myuint16.go | 4 ++--
 pkg/tree/id32/myuint32.go | 4 ++--
 pkg/tree/id64/myuint64.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/id16/myuint16.go b/pkg/tree/id16/myuint16.go
index e1a2812..e6c35d3 100644
--- a/pkg/tree/id16/myuint16.go
+++ b/pkg/tree/id16/myuint16.go
@@ -32,8 +32,8 @@ func (u myuint16) subOne() myuint16 {
 
 // addOne returns u + 1.
 func (u myuint16) addOne() myuint16 {
-	lo, carry := Add16(uint16(u), 1, 0)
-	return myuint16(lo + carry)
+	lo, _ := Add16(uint16(u), 1, 0)
+	return myuint16(lo)
 }
 
 // Sub32 returns the difference of x, y and borrow, diff = x - y - borrow.
diff --git a/pkg/tree/id32/myuint32.go b/pkg/tree/id32/myuint32.go
index 447664b..18e0018 100644
--- a/pkg/tree/id32/myuint32.go
+++ b/pkg/tree/id32/myuint32.go
@@ -34,8 +34,8 @@ func (u myuint32) subOne() myuint32 {
 
 // addOne returns u + 1.
 func (u myuint32) addOne() myuint32 {
-	lo, carry := bits.Add32(uint32(u), 1, 0)
-	return myuint32(lo + carry)
+	lo, _ := bits.Add32(uint32(u), 1, 0)
+	return myuint32(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 4aebcda..851da5d 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -34,8 +34,8 @@ func (u myuint64) subOne() myuint64 {
 
 // addOne returns u + 1.
 func (u myuint64) addOne() myuint64 {
-	lo, carry := bits.Add64(uint64(u), 1, 0)
-	return myuint64(lo + carry)
+	lo, _ := bits.Add64(uint64(u), 1, 0)
+	return myuint64(lo)
 }
 
 // bitsSetFrom returns a copy of u with the given bit
-- 
2.43.0


From 15e50826adef27320f1741dd2866c0e18b6f0fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:47 +0000
Subject: [PATCH 08/19] fix: the predecessor of a 64-bit id keeps its upper
 half

---
 pkg/tree/id64/myuint64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 851da5d..07ba6de 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -28,7 +28,7 @@ func (u myuint64) not() myuint64 {
 
 // subOne returns u - 1.
 func (u myuint64) subOne() myuint64 {
-	lo, borrow := bits.Sub32(uint32(u), 1, 0)
+	lo, borrow := bits.Sub64(uint64(u), 1, 0)
 	return myuint64(lo - borrow)
 }
 
-- 
2.43.0


From 2c40036c2c5ad6d335388c7669d2e8a7f3508d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:47 +0000
Subject: [PATCH 09/19] fix: masking a 64-bit id to 0 bits clears all of them

---
 pkg/tree/id64/myuint64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/id64/myuint64.go b/pkg/tree/id64/myuint64.go
index 07ba6de..6c3fa05 100644
--- a/pkg/tree/id64/myuint64.go
+++ b/pkg/tree/id64/myuint64.go
@@ -51,7 +51,7 @@ func (u myuint64) bitsClearedFrom(bit uint8) myuint64 {
 }
 
 var mask6 = [...]uint64{
-	0xffffffff00000000, //0
+	0x0000000000000000, //0
 	0x8000000000000000, //1
 	0xc000000000000000, //2
 	0xe000000000000000, //3
-- 
2.43.0


From e46cc534ea190db9339ff1dc9a5063dfe262f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:47 +0000
Subject: [PATCH 10/19] fix: a 64-bit id can be masked to more than 32 bits

---
 pkg/tree/id64/id64.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/tree/id64/id64.go b/pkg/tree/id64/id64.go
index 6ac19b5..2f5fbb3 100644
--- a/pkg/tree/id64/id64.go
+++ b/pkg/tree/id64/id64.go
@@ -129,8 +129,8 @@ func (id myid64) Prev() tree.ID {
 // Prev returns the ID before id.
 // If there is none, it returns the ID zero value.
 func (id myid64) Mask(l uint8) (tree.ID, error) {
-	if l > 32 {
-		return nil, fmt.Errorf("length is too large, max 32, got: %d", l)
+	if l > IDBitSize {
+		return nil, fmt.Errorf("length is too large, max %d, got: %d", IDBitSize, l)
 	}
 	newid := uint64(myuint64(id.id).and(myuint64(mask6[uint32(l)])))
 	return myid64{id: newid, length: l}, nil
-- 
2.43.0


From c61f8e255e02b1b0e99a580cd841b8cf312814b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:47 +0000
Subject: [PATCH 11/19] fix: the values of different nodes of a 64-bit tree no
 longer share a key

---
 pkg/tree/tree.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 75d62d0..5b1d937 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -78,12 +78,16 @@ func (r *Tree[T]) Clone() *Tree[T] {
 	return ret
 }
 
+// valKeyShift makes room for the values of a node: a value is stored under
+// the node index shifted by this, plus the number of the value at the node
+const valKeyShift = 32
+
 // add a tag to the node at the input index
 // - if matchFunc is non-nil, it is used to determine equality (if nil, no existing tag match)
 // - if udpateFunc is non-nil, it is used to update the tag if it already exists (if nil, the provided tag is used)
 // - returns whether the tag count was increased
 func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], updateFunc UpdatesFunc[T]) bool {
-	key := (uint64(nodeIndex) << uint64(r.length))
+	key := (uint64(nodeIndex) << valKeyShift)
 	valCount := r.nodes[nodeIndex].ValCount
 	if matchFunc != nil {
 		// need to check if this value already exists
@@ -103,8 +107,8 @@ func (r *Tree[T]) addVal(val T, nodeIndex uint, matchFunc MatchesFunc[T], update
 
 func (r *Tree[T]) moveTags(fromIndex uint, toIndex uint) {
 	tagCount := r.nodes[fromIndex].ValCount
-	fromKey := uint64(fromIndex) << uint64(r.length)
-	toKey := uint64(toIndex) << uint64(r.length)
+	fromKey := uint64(fromIndex) << valKeyShift
+	toKey := uint64(toIndex) << valKeyShift
 	for i := 0; i < tagCount; i++ {
 		r.vals[toKey+uint64(i)] = r.vals[fromKey+uint64(i)]
 		delete(r.vals, fromKey+uint64(i))
@@ -123,7 +127,7 @@ func (r *Tree[T]) valsForNode(ret []T, nodeIndex uint, filterFunc FilterFunc[T])
 
 	// TODO: clean up the typing in here, between uint, uint64
 	valCount := r.nodes[nodeIndex].ValCount
-	key := uint64(nodeIndex) << uint64(r.length)
+	key := uint64(nodeIndex) << valKeyShift
 	for i := 0; i < valCount; i++ {
 		tag := r.vals[key+uint64(i)]
 		if filterFunc == nil || filterFunc(tag) {
@@ -146,7 +150,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 	// delete tags
 	// TODO: this could be done smarter - delete in place?
 	for i := 0; i < r.nodes[nodeIndex].ValCount; i++ {
-		delete(r.vals, (uint64(nodeIndex)<<uint64(r.length))+uint64(i))
+		delete(r.vals, (uint64(nodeIndex)<<valKeyShift)+uint64(i))
 	}
 	r.nodes[nodeIndex].ValCount = 0
 
-- 
2.43.0


From 56535c2efea0de461382120be6f5987680281bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:47 +0000
Subject: [PATCH 12/19] fix: deleting values from a tree node keeps every value
 that does not match

---
 pkg/tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 5b1d937..7009975 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -162,7 +162,7 @@ func (r *Tree[T]) deleteVal(buf []T, nodeIndex uint, matchTag T, matchFunc Match
 			deleteCount++
 		} else {
 			// doesn't match - get to keep it
-			r.addVal(tag, nodeIndex, matchFunc, nil)
+			r.addVal(tag, nodeIndex, nil, nil)
 			keepCount++
 		}
 	}
-- 
2.43.0


From 440f92406a3ea19af906adb2eec35eb73b3e0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:09 +0000
Subject: [PATCH 13/19] fix: a cloned tree keeps the name, length and bit test
 of the original

---
 pkg/tree/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/tree/tree.go b/pkg/tree/tree.go
index 7009975..9111aa2 100644
--- a/pkg/tree/tree.go
+++ b/pkg/tree/tree.go
@@ -65,6 +65,9 @@ func NewTree[T any](name string, isLeftBitSetFn IsLeftBitSetFn, length uint8) *T
 // - Note: the items in the tree are not deep copied
 func (r *Tree[T]) Clone() *Tree[T] {
 	ret := &Tree[T]{
+		name:             r.name,
+		isLeftBitSetFn:   r.isLeftBitSetFn,
+		length:           r.length,
 		nodes:            make([]treeNode[T], len(r.nodes), cap(r.nodes)),
 		availableIndexes: make([]uint, len(r.availableIndexes), cap(r.availableIndexes)),
 		vals:             make(map[uint64]T, len(r.vals)),
-- 
2.43.0


From bb0e283d6010d80c038c3559da759e2a274f5d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:11 +0000
Subject: [PATCH 14/19] fix: the parents of a prefix are shorter than the
 prefix

---
 pkg/tree/tree16/tree16.go | 2 +-
 pkg/tree/tree32/tree32.go | 2 +-
 pkg/tree/tree64/tree64.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index db8d0cd..05190c4 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -198,7 +198,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	iter := r.Iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id16.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index a631a09..f637ab5 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -197,7 +197,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	iter := r.Iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id32.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 769c939..0691796 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -198,7 +198,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	iter := r.Iterate()
 	for iter.Next() {
 		entry := iter.Entry()
-		if entry.ID().Overlaps(id) && entry.ID().Length() < id64.IDBitSize {
+		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
 			entries = append(entries, iter.Entry())
 		}
 	}
-- 
2.43.0


From 208f752a48b15cdb8def281f759ea54b66a6fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:12 +0000
Subject: [PATCH 15/19] fix: free ids of a 32-bit tree are looked for in the
 whole tree

---
 pkg/tree/tree32/tree32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index f637ab5..74947ac 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -115,7 +115,7 @@ func (r *tree32) set(id tree.ID, e tree.Entry) error {
 }
 
 func (r *tree32) findFree() (uint32, error) {
-	rootID := id32.NewID(0, r.length)
+	rootID := id32.NewID(0, (id32.IDBitSize - r.length))
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-- 
2.43.0


From 670991b2114112dea094ae16c97bc4391698acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:26 +0000
Subject: [PATCH 16/19] fix: a claim of the whole tree leaves no free ids

---
 pkg/tree/tree16/tree16.go | 6 ++++--
 pkg/tree/tree32/tree32.go | 6 ++++--
 pkg/tree/tree64/tree64.go | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 05190c4..5558fb5 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -120,8 +120,10 @@ func (r *tree16) findFree() (uint16, error) {
 	bldr.AddId(rootID)
 
 
-	for _, e := range r.Children(rootID) {
-		bldr.RemoveId(e.ID())
+	// all claims count, also those of the root or of an enclosing prefix
+	iter := r.Iterate()
+	for iter.Next() {
+		bldr.RemoveId(iter.Entry().ID())
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 74947ac..e91c6a7 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -119,8 +119,10 @@ func (r *tree32) findFree() (uint32, error) {
 	var bldr id32.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
-		bldr.RemoveId(e.ID())
+	// all claims count, also those of the root or of an enclosing prefix
+	iter := r.Iterate()
+	for iter.Next() {
+		bldr.RemoveId(iter.Entry().ID())
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 0691796..ea2da80 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -120,8 +120,10 @@ func (r *tree64) findFree() (uint64, error) {
 	var bldr id64.IDSetBuilder
 	bldr.AddId(rootID)
 
-	for _, e := range r.Children(rootID) {
-		bldr.RemoveId(e.ID())
+	// all claims count, also those of the root or of an enclosing prefix
+	iter := r.Iterate()
+	for iter.Next() {
+		bldr.RemoveId(iter.Entry().ID())
 	}
 	ipset, err := bldr.IPSet()
 	if err != nil {
-- 
2.43.0


From cf39f6b259a5fc2411cdefa448c3d4d55d48b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:26 +0000
Subject: [PATCH 17/19] fix: a tree rejects ranges that are out of order or
 beyond its largest id

---
 pkg/tree/tree16/tree16.go | 6 ++++++
 pkg/tree/tree32/tree32.go | 6 ++++++
 pkg/tree/tree64/tree64.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 5558fb5..58d9af7 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -96,6 +96,12 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !trange.IsValid() {
+		return fmt.Errorf("range %q ends before it starts", s)
+	}
+	if err := r.validate(trange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index e91c6a7..47803e9 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -96,6 +96,12 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !vlanRange.IsValid() {
+		return fmt.Errorf("range %q ends before it starts", s)
+	}
+	if err := r.validate(vlanRange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index ea2da80..577d565 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -97,6 +97,12 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 	if err != nil {
 		return err
 	}
+	if !treeRange.IsValid() {
+		return fmt.Errorf("range %q ends before it starts", s)
+	}
+	if err := r.validate(treeRange.To()); err != nil {
+		return err
+	}
 	// TODO check if free
 
 	// get each entry and validate owner
-- 
2.43.0


From 0ca304cd3667ce36b2715fed9467a4f89ffacec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:47 +0000
Subject: [PATCH 18/19] fix: the methods of a tree hold its lock once, for as
 long as they use the tree

---
 pkg/tree/tree16/tree16.go | 65 ++++++++++++++++++++++++++++++---------
 pkg/tree/tree32/tree32.go | 64 +++++++++++++++++++++++++++++---------
 pkg/tree/tree64/tree64.go | 64 +++++++++++++++++++++++++++++---------
 3 files changed, 151 insertions(+), 42 deletions(-)

diff --git a/pkg/tree/tree16/tree16.go b/pkg/tree/tree16/tree16.go
index 58d9af7..519426f 100644
--- a/pkg/tree/tree16/tree16.go
+++ b/pkg/tree/tree16/tree16.go
@@ -32,6 +32,9 @@ type tree16 struct {
 }
 
 func (r *tree16) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree16{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -44,7 +47,12 @@ func (r *tree16) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	return r.get(id)
+}
+
+// get is Get with the lock held
+func (r *tree16) get(id tree.ID) (tree.Entry, error) {
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -77,12 +85,13 @@ func (r *tree16) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree16) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	id, err := r.findFree()
 	if err != nil {
 		return nil, fmt.Errorf("no free ids available, err: %s", err.Error())
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	treeId := id16.NewID(uint16(id), id16.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
 	if err := r.set(treeId, treeEntry); err != nil {
@@ -106,6 +115,9 @@ func (r *tree16) ClaimRange(s string, labels labels.Set) error {
 
 	// get each entry and validate owner
 
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	for _, treeId := range trange.IDs() {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
@@ -127,7 +139,7 @@ func (r *tree16) findFree() (uint16, error) {
 
 
 	// all claims count, also those of the root or of an enclosing prefix
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		bldr.RemoveId(iter.Entry().ID())
 	}
@@ -150,21 +162,21 @@ func (r *tree16) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree16) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -186,7 +198,7 @@ func (r *tree16) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -203,7 +215,7 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
@@ -214,9 +226,17 @@ func (r *tree16) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getByLabel(selector)
+}
+
+// getByLabel is GetByLabel with the lock held
+func (r *tree16) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -227,9 +247,12 @@ func (r *tree16) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree16) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -238,9 +261,12 @@ func (r *tree16) GetAll() tree.Entries {
 }
 
 func (r *tree16) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -252,6 +278,11 @@ func (r *tree16) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate is Iterate with the lock held
+func (r *tree16) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
@@ -268,9 +299,15 @@ func (r *tree16) validate(id tree.ID) error {
 }
 
 func (r *tree16) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(0)
 }
 
 func (r *tree16) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
\ No newline at end of file
diff --git a/pkg/tree/tree32/tree32.go b/pkg/tree/tree32/tree32.go
index 47803e9..f0d1ba1 100644
--- a/pkg/tree/tree32/tree32.go
+++ b/pkg/tree/tree32/tree32.go
@@ -30,6 +30,9 @@ type tree32 struct {
 }
 
 func (r *tree32) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree32{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -42,7 +45,12 @@ func (r *tree32) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	return r.get(id)
+}
+
+// get is Get with the lock held
+func (r *tree32) get(id tree.ID) (tree.Entry, error) {
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -75,6 +83,8 @@ func (r *tree32) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -83,8 +93,6 @@ func (r *tree32) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id32.NewID(uint32(id), id32.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -106,6 +114,9 @@ func (r *tree32) ClaimRange(s string, labels labels.Set) error {
 
 	// get each entry and validate owner
 
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	for _, treeId := range vlanRange.IDs() {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
@@ -126,7 +137,7 @@ func (r *tree32) findFree() (uint32, error) {
 	bldr.AddId(rootID)
 
 	// all claims count, also those of the root or of an enclosing prefix
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		bldr.RemoveId(iter.Entry().ID())
 	}
@@ -149,21 +160,21 @@ func (r *tree32) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree32) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -185,7 +196,7 @@ func (r *tree32) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -202,7 +213,7 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
@@ -213,9 +224,17 @@ func (r *tree32) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getByLabel(selector)
+}
+
+// getByLabel is GetByLabel with the lock held
+func (r *tree32) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -226,9 +245,12 @@ func (r *tree32) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree32) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -237,9 +259,12 @@ func (r *tree32) GetAll() tree.Entries {
 }
 
 func (r *tree32) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -251,6 +276,11 @@ func (r *tree32) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate is Iterate with the lock held
+func (r *tree32) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
@@ -267,9 +297,15 @@ func (r *tree32) validate(id tree.ID) error {
 }
 
 func (r *tree32) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(0)
 }
 
 func (r *tree32) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
\ No newline at end of file
diff --git a/pkg/tree/tree64/tree64.go b/pkg/tree/tree64/tree64.go
index 577d565..cc719aa 100644
--- a/pkg/tree/tree64/tree64.go
+++ b/pkg/tree/tree64/tree64.go
@@ -30,6 +30,9 @@ type tree64 struct {
 }
 
 func (r *tree64) Clone() gtree.GTree {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	return &tree64{
 		m:      new(sync.RWMutex),
 		tree:   r.tree.Clone(),
@@ -42,7 +45,12 @@ func (r *tree64) Get(id tree.ID) (tree.Entry, error) {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	return r.get(id)
+}
+
+// get is Get with the lock held
+func (r *tree64) get(id tree.ID) (tree.Entry, error) {
+	iter := r.iterate()
 	for iter.Next() {
 		if iter.Entry().ID().ID() == id.ID() &&
 			iter.Entry().ID().Length() == id.Length() {
@@ -76,6 +84,8 @@ func (r *tree64) ClaimID(id tree.ID, labels labels.Set) error {
 }
 
 func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 
 	id, err := r.findFree()
 	if err != nil {
@@ -84,8 +94,6 @@ func (r *tree64) ClaimFree(labels labels.Set) (tree.Entry, error) {
 
 	treeId := id64.NewID(id, id64.IDBitSize)
 	treeEntry := tree.NewEntry(treeId.Copy(), labels)
-	r.m.Lock()
-	defer r.m.Unlock()
 	if err := r.set(treeId, treeEntry); err != nil {
 		return nil, err
 	}
@@ -107,6 +115,9 @@ func (r *tree64) ClaimRange(s string, labels labels.Set) error {
 
 	// get each entry and validate owner
 
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	for _, treeId := range treeRange.IDs() {
 		treeEntry := tree.NewEntry(treeId.Copy(), labels)
 		if err := r.set(treeId, treeEntry); err != nil {
@@ -127,7 +138,7 @@ func (r *tree64) findFree() (uint64, error) {
 	bldr.AddId(rootID)
 
 	// all claims count, also those of the root or of an enclosing prefix
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		bldr.RemoveId(iter.Entry().ID())
 	}
@@ -150,21 +161,21 @@ func (r *tree64) ReleaseID(id tree.ID) error {
 	if err := r.validate(id); err != nil {
 		return err
 	}
-	e, err := r.Get(id)
+	r.m.Lock()
+	defer r.m.Unlock()
+
+	e, err := r.get(id)
 	if err != nil {
 		return nil
 	}
-	r.m.Lock()
-	defer r.m.Unlock()
 	return r.del(id, e)
 }
 
 func (r *tree64) ReleaseByLabel(selector labels.Selector) error {
-	entries := r.GetByLabel(selector)
-
 	r.m.Lock()
 	defer r.m.Unlock()
 
+	entries := r.getByLabel(selector)
 	for _, e := range entries {
 		if err := r.del(e.ID().Copy(), e); err != nil {
 			return err
@@ -186,7 +197,7 @@ func (r *tree64) Children(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 
 	for iter.Next() {
 		entry := iter.Entry()
@@ -203,7 +214,7 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entry := iter.Entry()
 		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
@@ -214,9 +225,17 @@ func (r *tree64) Parents(id tree.ID) tree.Entries {
 }
 
 func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
+	return r.getByLabel(selector)
+}
+
+// getByLabel is GetByLabel with the lock held
+func (r *tree64) getByLabel(selector labels.Selector) tree.Entries {
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		if selector.Matches(iter.Entry().Labels()) {
 			entries = append(entries, iter.Entry())
@@ -227,9 +246,12 @@ func (r *tree64) GetByLabel(selector labels.Selector) tree.Entries {
 }
 
 func (r *tree64) GetAll() tree.Entries {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	entries := tree.Entries{}
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		entries = append(entries, iter.Entry())
 	}
@@ -238,9 +260,12 @@ func (r *tree64) GetAll() tree.Entries {
 }
 
 func (r *tree64) Size() int {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	var size int
 
-	iter := r.Iterate()
+	iter := r.iterate()
 	for iter.Next() {
 		size++
 	}
@@ -252,6 +277,11 @@ func (r *tree64) Iterate() *gtree.GTreeIterator {
 	r.m.RLock()
 	defer r.m.RUnlock()
 
+	return r.iterate()
+}
+
+// iterate is Iterate with the lock held
+func (r *tree64) iterate() *gtree.GTreeIterator {
 	return &gtree.GTreeIterator{
 		Iter: r.tree.Iterate(),
 	}
@@ -268,9 +298,15 @@ func (r *tree64) validate(id tree.ID) error {
 }
 
 func (r *tree64) PrintNodes() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintNodes(1)
 }
 
 func (r *tree64) PrintValues() {
+	r.m.RLock()
+	defer r.m.RUnlock()
+
 	r.tree.PrintValues()
 }
-- 
2.43.0


From aeb858bddf89467b17e5f9aa546c8f34040d9fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:58 +0000
Subject: [PATCH 19/19] fix: entries are equal only if their labels are, not
 merely the text of them

---
 pkg/tree/entry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tree/entry.go b/pkg/tree/entry.go
index 26b342c..d03789c 100644
--- a/pkg/tree/entry.go
+++ b/pkg/tree/entry.go
@@ -25,7 +25,7 @@ func (r entry) String() string     { return fmt.Sprintf("id: %d, labels: %s", r.
 func (r entry) Equal(e2 Entry) bool {
 	if r.ID().ID() == e2.ID().ID() &&
 		r.ID().Length() == e2.ID().Length() &&
-		r.labels.String() == e2.Labels().String() {
+		labels.Equals(r.labels, e2.Labels()) {
 		return true
 	}
 	return false
-- 
2.43.0

