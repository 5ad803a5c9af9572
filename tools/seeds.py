SEEDS = {}
def seed(sid, prop, pkg, edits, needs, breaks, demo, race=False):
    SEEDS[sid] = dict(property=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=demo, race=race)

seed("idx-update-before-check", "C01", "pkg/idxtable",
  [("pkg/idxtable/table.go", """	if r.isFree(e.ID()) {
		return fmt.Errorf("entry %d not created", e.ID())
	}
	r.table[e.ID()] = e
	return nil
""", """	_, exists := r.table[e.ID()]
	r.table[e.ID()] = e
	if !exists {
		return fmt.Errorf("entry %d not created", e.ID())
	}
	return nil
""")],
  "an update of an id that is not claimed, followed by a read of that id", "a failing update leaves an entry behind",
  """
  package idxtable
  import "testing"
  func TestDemo(t *testing.T) {
  	r := NewTable[string](10)
  	if r.Update(3, "x") == nil { t.Fatal("update of a free id succeeds") }
  	if r.Has(3) || !r.IsFree(3) || r.Size() != 0 { t.Fatal("failed update left an entry") }
  }
  """)

seed("idx-free-hint", "C02", "pkg/idxtable",
  [("pkg/idxtable/table.go", """	size  uint64
}

func (r *table[T1]) validate""", """	size  uint64
	hint  uint64 // every id below is claimed
}

func (r *table[T1]) validate"""),
   ("pkg/idxtable/table.go", """	r.table[e.ID()] = e
	return nil
}

func (r *table[T1]) update""", """	r.table[e.ID()] = e
	if e.ID() == r.hint {
		r.hint++
	}
	return nil
}

func (r *table[T1]) update"""),
   ("pkg/idxtable/table.go", "	for id := uint64(0); id < r.size; id++ {", "	for id := r.hint; id < r.size; id++ {"),
   ("pkg/idxtable/table.go", "	delete(r.table, id)\n", "	delete(r.table, id)\n	if id+1 == r.hint {\n		r.hint = id\n	}\n")],
  "two low ids claimed in order and the lower one released", "the lowest free id is skipped (and a table that is not full reports to be)",
  """
  package idxtable
  import "testing"
  func TestDemo(t *testing.T) {
  	r := NewTable[string](10)
  	r.Claim(0, "a"); r.Claim(1, "b"); r.Release(0)
  	e, err := r.ClaimDynamic("c")
  	if err != nil || e.ID() != 0 { t.Fatal("not the lowest free id", e, err) }
  }
  """)

seed("table16-wide-check", "C07", "pkg/table/table16",
  [("pkg/table/table16/table16.go", "	if id > 65535 {", "	if id > 1<<32-1 {")],
  "an id above 65535 whose low 16 bits are inside the range", "ids above the width alias slots of the table",
  """
  package table16
  import "testing"
  func TestDemo(t *testing.T) {
  	r := New(10, 20)
  	if r.Claim(65536+12, nil) == nil || r.Has(12) { t.Fatal("id outside the range accepted") }
  }
  """)

seed("iptable-index-32", "C10", "pkg/iptable",
  [("pkg/iptable/iptable.go", "	return new(big.Int).Sub(ipToInt(ip), ipToInt(start)).Uint64()", "	return new(big.Int).Sub(ipToInt(ip), ipToInt(start)).Uint64() & (1<<40 - 1)")],
  "an IPv6 range of more than 2^40 addresses and two addresses that far apart", "two addresses share one slot",
  """
  package iptable
  import ("testing"; "net/netip"; "github.com/hansthienpondt/nipam/pkg/table")
  func TestDemo(t *testing.T) {
  	r := New(netip.MustParseAddr("2001:db8::"), netip.MustParseAddr("2001:db8::ffff:ffff:ffff"))
  	if r.Claim("2001:db8::1", table.Route{}) != nil { t.Fatal("claim") }
  	if r.Has("2001:db8::0100:0000:0001") { t.Fatal("two addresses share a slot") }
  	if err := r.Claim("2001:db8::0100:0000:0001", table.Route{}); err != nil { t.Fatal(err) }
  }
  """)

seed("id32-overlap-full", "C21", "pkg/tree/id32",
  [("pkg/tree/id32/id32.go", "	ida := r.id & mask6[minbits]\n	idb := uint32(b.ID()) & mask6[minbits]\n\n	return ida == idb",
   "	if minbits == IDBitSize-1 {\n		minbits++\n	}\n	ida := r.id & mask6[minbits]\n	idb := uint32(b.ID()) & mask6[minbits]\n\n	return ida == idb")],
  "two ids of which the shorter has one bit less than the width, differing in the last bit only", "overlap is decided on one bit too many",
  """
  package id32
  import "testing"
  func TestDemo(t *testing.T) {
  	if !NewID(4, 31).Overlaps(NewID(5, 32)) { t.Fatal("4/31 contains 5/32") }
  }
  """)

seed("idset-end-overlap", "C23", "pkg/tree/id16",
  [("pkg/tree/id16/range16.go", "	return other.From().Less(r.from) && lessOrEq(other.To(), r.to)", "	return lessOrEq(other.From(), r.from) && lessOrEq(other.To(), r.to)"),
   ("pkg/tree/id16/idset.go", "		case rin.CoveredBy(rout):", "		case rin.CoveredBy(rout) && rin.From() != rout.From():")],
  "a range removed that starts exactly where an added range starts and reaches its end", "the set keeps a reversed range",
  """
  package id16
  import "testing"
  func TestDemo(t *testing.T) {
  	var b IDSetBuilder
  	b.AddRange(RangeFrom(10, 20)); b.RemoveRange(RangeFrom(10, 30))
  	s, err := b.IPSet()
  	if err != nil || len(s.Ranges()) != 0 { t.Fatal("not empty", s.Ranges()) }
  }
  """)

seed("idx-size-contiguous", "C04", "pkg/idxtable",
  [("pkg/idxtable/table.go", """		i++
		entries = append(entries, free.ID())
""", """		if !free.IsConsecutive() && len(entries) > 1 {
			// start over behind a gap
			i, entries = 0, entries[:0]
		}
		i++
		entries = append(entries, free.ID())
""")],
  "two or more free ids below a claimed one, and a size larger than that", "the ids below a gap are not used",
  """
  package idxtable
  import "testing"
  func TestDemo(t *testing.T) {
  	r := NewTable[string](8)
  	r.Claim(2, "a")
  	e, err := r.ClaimSize(3, "c")
  	if err != nil || len(e) != 3 || e[0].ID() != 0 || e[1].ID() != 1 || e[2].ID() != 3 { t.Fatal(e, err) }
  }
  """)

seed("idx-size-partial", "C04", "pkg/idxtable",
  [("pkg/idxtable/table.go", "	ids, err := r.findFreeSize(size)\n	if err != nil {\n		return nil, err\n	}\n	entries := Entries[T1]{}",
    "	ids, err := r.findFreeSize(size)\n	if err != nil && len(ids) == 0 {\n		return nil, err\n	}\n	entries := Entries[T1]{}"),
   ("pkg/idxtable/table.go", "		entries = append(entries, e)\n	}\n	return entries, nil\n}\n\nfunc (r *table[T1]) Release",
    "		entries = append(entries, e)\n	}\n	return entries, err\n}\n\nfunc (r *table[T1]) Release"),
   ("pkg/idxtable/table.go", '	return nil, fmt.Errorf("could not find free entries that fit in size %d", size)', '	return entries, fmt.Errorf("could not find free entries that fit in size %d", size)')],
  "a claim of more ids than are free, though not more than the table has", "a failing claim takes the ids that are left",
  """
  package idxtable
  import "testing"
  func TestDemo(t *testing.T) {
  	r := NewTable[string](4)
  	r.Claim(2, "a")
  	if _, err := r.ClaimSize(4, "c"); err == nil { t.Fatal("succeeds") }
  	if r.Size() != 1 { t.Fatal("a failing claim changes the table", r.Size()) }
  }
  """)

seed("idx-iter-delta-order", "C05", "pkg/idxtable",
  [("pkg/idxtable/table.go", """	sort.Slice(keys, func(i int, j int) bool {
		return keys[i] < keys[j]
	})

	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: table}""", """	sort.Slice(keys, func(i int, j int) bool {
		return int32(keys[i]-keys[j]) < 0
	})

	return &Iterator[T1]{current: 1<<64 -1, keys: keys, table: table}""")],
  "two claimed ids that are 2^31 or more apart", "enumerations of sparse tables are out of order",
  """
  package idxtable
  import "testing"
  func TestDemo(t *testing.T) {
  	r := NewTable[string](1<<40)
  	r.Claim(1, "a"); r.Claim(1<<31+5, "b")
  	if e := r.GetAll(); len(e) != 2 || e[0].ID() != 1 { t.Fatal(e) }
  }
  """)

seed("idx-consecutive-first", "C05", "pkg/idxtable",
  [("pkg/idxtable/iterator.go", "	return r.keys[r.current-1] == r.keys[r.current]-1",
    "	return r.keys[r.current]-r.keys[0] == r.current")],
  "two neighbouring claimed ids after an earlier gap", "IsConsecutive is false for ids that follow each other once a gap was seen",
  """
  package idxtable
  import "testing"
  func TestDemo(t *testing.T) {
  	r := NewTable[string](100)
  	for _, id := range []uint64{1, 2, 9, 10} { r.Claim(id, "a") }
  	it := r.Iterate()
  	var got []bool
  	for it.Next() { got = append(got, it.IsConsecutive()) }
  	want := []bool{false, true, false, true}
  	if len(got) != 4 { t.Fatal(got) }
  	for i := range want { if got[i] != want[i] { t.Fatal(got) } }
  }
  """)

seed("idx-update-split-lock", "C06", "pkg/idxtable",
  [("pkg/idxtable/table.go", """	r.m.Lock()
	defer r.m.Unlock()

	return r.update(NewEntry(id, d))
}""", """	if r.IsFree(id) {
		return fmt.Errorf("entry %d not created", id)
	}
	r.m.Lock()
	defer r.m.Unlock()

	e := NewEntry(id, d)
	if err := r.validate(id); err != nil {
		return err
	}
	r.table[e.ID()] = e
	return nil
}""")],
  "a release of the id between the two critical sections of an update", "an update brings back an id released meanwhile",
  """
  package idxtable
  import ("testing"; "sync")
  func TestDemo(t *testing.T) {
  	for i := 0; i < 300000; i++ {
  		r := NewTable[string](4)
  		r.Claim(1, "a")
  		var wg sync.WaitGroup
  		wg.Add(2)
  		go func() { r.Update(1, "b"); wg.Done() }()
  		go func() { r.Release(1); wg.Done() }()
  		wg.Wait()
  		if r.Has(1) { t.Fatal("a released id is back") }
  	}
  }
  """)

seed("idx-findfree-racy", "C06", "pkg/idxtable",
  [("pkg/idxtable/table.go", """func (r *table[T1]) ClaimDynamic(d T1) (Entry[T1], error) {
	r.m.Lock()
	defer r.m.Unlock()

	free := r.iterateFree()
	if free.Next() {
		e := NewEntry(free.ID(), d)
		if err := r.add(e); err != nil {
			return nil, err
		}
		return e, nil
	}
	return nil, fmt.Errorf("no free entry found")
}""", """func (r *table[T1]) ClaimDynamic(d T1) (Entry[T1], error) {
	free := r.IterateFree()
	for free.Next() {
		e := NewEntry(free.ID(), d)
		// the id may have been taken meanwhile: try the next one
		if err := r.Claim(e.ID(), d); err != nil {
			continue
		}
		return e, nil
	}
	return nil, fmt.Errorf("no free entry found")
}""")],
  "an id released while a dynamic claim walks the free ids of a table that is full but for one id, which is claimed meanwhile", "a dynamic claim fails (or skips the lowest id) although at every moment an id is free",
  """
  package idxtable
  import ("testing"; "sync")
  func TestDemo(t *testing.T) {
  	for i := 0; i < 300000; i++ {
  		r := NewTable[string](2)
  		r.Claim(0, "a")
  		var wg sync.WaitGroup
  		var err error
  		wg.Add(2)
  		go func() { _, err = r.ClaimDynamic("b"); wg.Done() }()
  		// at every moment one of the ids 0, 1 is free, whichever way the calls are ordered
  		go func() { r.Release(0); r.Claim(1, "c"); wg.Done() }()
  		wg.Wait()
  		if err != nil { t.Fatal("a dynamic claim fails", err) }
  	}
  }
  """)

seed("table64-update-merge", "C08", "pkg/table/table64",
  [("pkg/table/table64/table64.go", """	return r.table.Update(newid, treeEntry)""", """	if e, err := r.table.Get(newid); err == nil && len(labels) == 0 {
		// nothing to change
		treeEntry = e.Data()
	}
	return r.table.Update(newid, treeEntry)""")],
  "an update with no labels of an id claimed with some", "an update to no labels is ignored",
  """
  package table64
  import ("testing"; "k8s.io/apimachinery/pkg/labels")
  func TestDemo(t *testing.T) {
  	r := New(10, 20)
  	r.Claim(12, labels.Set{"a": "b"})
  	if err := r.Update(12, nil); err != nil { t.Fatal(err) }
  	if e, _ := r.Get(12); len(e.Labels()) != 0 { t.Fatal(e) }
  }
  """)

seed("table16-getall-index", "C08", "pkg/table/table16",
  [("pkg/table/table16/table16.go", "	for iter.Next() {\n		entry := iter.Value().Data()\n		if selector.Matches(entry.Labels()) {",
    "	if selector.Empty() {\n		for iter.Next() {\n			entries = append(entries, tree.NewEntry(id16.NewID(uint16(iter.ID()), id16.IDBitSize), iter.Value().Data().Labels()))\n		}\n		return entries\n	}\n	for iter.Next() {\n		entry := iter.Value().Data()\n		if selector.Matches(entry.Labels()) {")],
  "an empty selector and a table that does not start at 0", "selecting everything reports indices in place of ids",
  """
  package table16
  import ("testing"; "k8s.io/apimachinery/pkg/labels")
  func TestDemo(t *testing.T) {
  	r := New(10, 20)
  	r.Claim(12, labels.Set{"a": "b"})
  	if e := r.GetByLabel(labels.Everything()); len(e) != 1 || e[0].ID().ID() != 12 { t.Fatal(e) }
  }
  """)

seed("table32-next-after-last", "C09", "pkg/table/table32",
  [("pkg/table/table32/table32.go", """	id, err := r.table.FindFree()
	if err != nil {
		return 0, err
	}
	return uint64(calculateIDFromIndex(r.start, id)), nil""", """	// most of the time ids are handed out in order
	if id := uint64(r.table.Size()); r.start == 0 && id <= uint64(r.end) && r.table.IsFree(id) {
		return id, nil
	}
	id, err := r.table.FindFree()
	if err != nil {
		return 0, err
	}
	return uint64(calculateIDFromIndex(r.start, id)), nil""")],
  "a table that starts at 0, with a gap below and as many claimed ids as the position of a free id above it", "a free id that is not the lowest is returned",
  """
  package table32
  import "testing"
  func TestDemo(t *testing.T) {
  	r := New(0, 20)
  	r.Claim(1, nil); r.Claim(3, nil)
  	id, err := r.FindFree()
  	if err != nil || id != 0 { t.Fatal(id, err) }
  }
  """)

seed("table64-free-top", "C09", "pkg/table/table64",
  [("pkg/table/table64/table64.go", "	id, err := r.table.FindFree()\n	if err != nil {\n		return 0, err\n	}\n", "	id, err := r.table.FindFree()\n	if err != nil {\n		return 0, err\n	}\n	if id > r.end-1-r.start {\n		return 0, fmt.Errorf(\"no free id between %d and %d\", r.start, r.end)\n	}\n")],
  "all ids but the last of the range claimed", "the last id of a table is never handed out",
  """
  package table64
  import "testing"
  func TestDemo(t *testing.T) {
  	r := New(10, 12)
  	r.Claim(10, nil); r.Claim(11, nil)
  	id, err := r.FindFree()
  	if err != nil || id != 12 { t.Fatal(id, err) }
  }
  """)

seed("iptable-mapped-family", "C11", "pkg/iptable",
  [("pkg/iptable/iptable.go", "	if startIP.Is4() {\n", "	if startIP.Unmap().Is4() {\n")],
  "a range of IPv4-mapped IPv6 addresses", "free addresses of a range of IPv4-mapped addresses are of the wrong family",
  """
  package iptable
  import ("testing"; "net/netip"; "github.com/hansthienpondt/nipam/pkg/table")
  func TestDemo(t *testing.T) {
  	r := New(netip.MustParseAddr("::ffff:10.0.0.0"), netip.MustParseAddr("::ffff:10.0.0.9"))
  	a, err := r.FindFree()
  	if err != nil || r.Claim(a.String(), table.Route{}) != nil { t.Fatal("the free address cannot be claimed", a, err) }
  }
  """)

seed("iptable-update-stale", "C10", "pkg/iptable",
  [("pkg/iptable/iptable.go", "	if !r.ipRange.Contains(claimIP) {", "	claimIP = claimIP.Unmap()\n	if !r.ipRange.Contains(claimIP) {")],
  "an IPv4 table asked for an IPv4-mapped IPv6 address", "addresses of the other family are accepted",
  """
  package iptable
  import ("testing"; "net/netip"; "github.com/hansthienpondt/nipam/pkg/table")
  func TestDemo(t *testing.T) {
  	r := New(netip.MustParseAddr("10.0.0.0"), netip.MustParseAddr("10.0.0.9"))
  	if r.Claim("::ffff:10.0.0.1", table.Route{}) == nil || r.Has("10.0.0.1") { t.Fatal("address of the other family accepted") }
  }
  """)

seed("tree-capacity", "C12", "pkg/tree",
  [("pkg/tree/tree.go", "(len(r.nodes) + 10) {", "(len(r.nodes) + 1) {")],
  "an insertion that splits a node while there is room for one more node only", "a split at the wrong moment writes to nodes that have moved",
  """
  package tree_test
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree"; "github.com/henderiw/idxtable/pkg/tree/id16")
  func TestDemo(t *testing.T) {
  	for n := 0; n < 40; n++ {
  		r := tree.NewTree[int]("t", id16.IsLeftBitSet, 16)
  		// n nodes, then a split
  		r.Set(id16.NewID(0x8000, 16), 1)
  		want := 1
  		for i := 0; i < n; i++ {
  			if inc, _ := r.Set(id16.NewID(1<<14>>i, uint8(2+i)), 1); inc && 2+i <= 16 { want++ }
  			if i == 14 { break }
  		}
  		for i := 0; i < 8; i++ {
  			r.Set(id16.NewID(0x8001+uint16(i*0x111), 16), 1); want++
  			got := 0
  			for it := r.Iterate(); it.Next(); { got += len(it.Vals()) }
  			if got != want { t.Fatal(n, i, got, want) }
  		}
  	}
  }
  """)

seed("tree-reuse-children", "C12", "pkg/tree",
  [("pkg/tree/tree.go", """				// parent now gets target's sibling's children
				parent.Right = r.nodes[parent.Left].Right
				parent.Left = r.nodes[parent.Left].Left
""", """				// parent now gets target's sibling's children
				parent.Left, parent.Right = r.nodes[parent.Left].Right, r.nodes[parent.Left].Left
""")],
  "a release of the right one of two siblings under a node with no values, the left one having children", "the children of a merged node swap sides",
  """
  package tree_test
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree"; "github.com/henderiw/idxtable/pkg/tree/id16")
  func TestDemo(t *testing.T) {
  	r := tree.NewTree[int]("t", id16.IsLeftBitSet, 16)
  	eq := func(a, b int) bool { return a == b }
  	r.Set(id16.NewID(0x4000, 3), 1); r.Set(id16.NewID(0x4000, 4), 2); r.Set(id16.NewID(0x5000, 4), 3); r.Set(id16.NewID(0x6000, 3), 4)
  	if r.Delete(id16.NewID(0x6000, 3), eq, 4) != 1 { t.Fatal("delete") }
  	if r.Delete(id16.NewID(0x4000, 4), eq, 2) != 1 { t.Fatal("values are not found any more") }
  }
  """)

seed("tree-move-one", "C12", "pkg/tree",
  [("pkg/tree/tree.go", "		r.vals[toKey+uint64(i)] = r.vals[fromKey+uint64(i)]\n", "		r.vals[toKey+uint64(i)] = r.vals[fromKey]\n")],
  "a node with two different values merged into its parent", "the second value of a node is lost when the node moves",
  """
  package tree_test
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree"; "github.com/henderiw/idxtable/pkg/tree/id16")
  func TestDemo(t *testing.T) {
  	r := tree.NewTree[int]("t", id16.IsLeftBitSet, 16)
  	eq := func(a, b int) bool { return a == b }
  	r.Add(id16.NewID(0x4000, 3), 1, eq); r.Add(id16.NewID(0x4000, 3), 2, eq); r.Add(id16.NewID(0x6000, 3), 4, eq)
  	r.Delete(id16.NewID(0x6000, 3), eq, 4)
  	if r.Delete(id16.NewID(0x4000, 3), eq, 2) != 1 { t.Fatal("the second value is gone") }
  }
  """)

seed("tree64-get-low", "C13", "pkg/tree/tree64",
  [("pkg/tree/tree64/tree64.go", "		if iter.Entry().ID().ID() == id.ID() &&\n", "		if uint32(iter.Entry().ID().ID()) == uint32(id.ID()) &&\n")],
  "two 64-bit ids of the same length that differ in the upper 32 bits only", "get returns the entry of another id",
  """
  package tree64
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id64")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 64)
  	r.ClaimID(id64.NewID(5, 64), nil)
  	if e, err := r.Get(id64.NewID(1<<32+5, 64)); err == nil { t.Fatal(e) }
  }
  """)

seed("tree16-release-length", "C13", "pkg/tree/tree16",
  [("pkg/tree/tree16/tree16.go", "	e, err := r.get(id)\n	if err != nil {\n		return nil\n	}\n	return r.del(id, e)", "	e, err := r.get(id)\n	if err != nil {\n		return nil\n	}\n	if err := r.del(id, e); err != nil {\n		return err\n	}\n	if len(e.Labels()) == 0 {\n		// nothing can refer to what is nested in an unlabelled entry\n		for _, c := range r.children(id) {\n			r.del(c.ID(), c)\n		}\n	}\n	return nil"),
   ("pkg/tree/tree16/tree16.go", """	entries := tree.Entries{}
	r.m.RLock()
	defer r.m.RUnlock()

	iter := r.iterate()

	for iter.Next() {
		entry := iter.Entry()
		if entry.ID().Overlaps(id) && entry.ID().Length() > id.Length() {""", """	r.m.RLock()
	defer r.m.RUnlock()

	return r.children(id)
}

func (r *tree16) children(id tree.ID) tree.Entries {
	entries := tree.Entries{}
	iter := r.iterate()

	for iter.Next() {
		entry := iter.Entry()
		if entry.ID().Overlaps(id) && entry.ID().Length() > id.Length() {""")],
  "a release of a prefix without labels that encloses a claimed one", "a release takes the nested prefixes with it",
  """
  package tree16
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id16")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 16)
  	r.ClaimID(id16.NewID(0x4000, 4), nil); r.ClaimID(id16.NewID(0x4100, 8), nil)
  	r.ReleaseID(id16.NewID(0x4000, 4))
  	if _, err := r.Get(id16.NewID(0x4100, 8)); err != nil { t.Fatal(err) }
  }
  """)

seed("tree32-size-root", "C14", "pkg/tree/tree32",
  [("pkg/tree/tree32/tree32.go", "	for iter.Next() {\n		size++\n	}", "	for iter.Next() {\n		if iter.Entry().ID().Length() == 0 {\n			continue\n		}\n		size++\n	}")],
  "the prefix of length 0 claimed", "the size leaves out the root",
  """
  package tree32
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id32")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 32)
  	r.ClaimID(id32.NewID(0, 0), nil)
  	if r.Size() != 1 || len(r.GetAll()) != 1 { t.Fatal(r.Size()) }
  }
  """)

seed("tree-iter-up", "C14", "pkg/tree",
  [("pkg/tree/tree.go", """			if previousNode.Left == iter.nodeIndex {
				iter.nodeIndex = previousIndex
				iter.next = nextRight
""", """			if previousNode.Left == iter.nodeIndex {
				iter.nodeIndex = previousIndex
				iter.next = nextRight
				if previousNode.Right < previousNode.Left && nodeHistoryLen > 2 && previousNode.ValCount != 0 {
					iter.next = nextUp
				}
""")],
  "a claimed prefix, two levels or more below the root, whose right half was claimed before its left one", "the walk skips the right half of some prefixes",
  """
  package tree_test
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree"; "github.com/henderiw/idxtable/pkg/tree/id16")
  func TestDemo(t *testing.T) {
  	r := tree.NewTree[int]("t", id16.IsLeftBitSet, 16)
  	for i, id := range []tree.ID{id16.NewID(0, 1), id16.NewID(0, 2), id16.NewID(0, 3), id16.NewID(0x1000, 4), id16.NewID(0, 4)} { r.Set(id, i) }
  	n := 0
  	for it := r.Iterate(); it.Next(); { n++ }
  	if n != 5 { t.Fatal(n) }
  }
  """)

seed("tree32-parents-first", "C15", "pkg/tree/tree32",
  [("pkg/tree/tree32/tree32.go", """		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
			entries = append(entries, iter.Entry())
		}
	}""", """		if entry.ID().ID() > id.ID() {
			// entries come in ascending order
			break
		}
		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {
			entries = append(entries, iter.Entry())
		}
	}""")],
  "an enclosing prefix claimed with bits set behind its length, larger than the queried id", "parents claimed with a host part are left out",
  """
  package tree32
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id32")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 32)
  	r.ClaimID(id32.NewID(0x0a0000ff, 8), nil)
  	if e := r.Parents(id32.NewID(0x0a000001, 32)); len(e) != 1 { t.Fatal(e) }
  }
  """)

seed("tree16-children-sorted", "C15", "pkg/tree/tree16",
  [("pkg/tree/tree16/tree16.go", """		if entry.ID().Overlaps(id) && entry.ID().Length() > id.Length() {
			entries = append(entries, iter.Entry())
		}

	}""", """		if entry.ID().Overlaps(id) && entry.ID().Length() > id.Length() {
			if n := len(entries); n > 0 && entries[n-1].ID().Overlaps(entry.ID()) && entries[n-1].ID().ID() == entry.ID().ID() {
				// same first id: one entry
				continue
			}
			entries = append(entries, iter.Entry())
		}

	}""")],
  "two nested children with the same first id", "the inner one of two children that start at the same id is left out",
  """
  package tree16
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id16")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 16)
  	r.ClaimID(id16.NewID(0x4000, 4), nil); r.ClaimID(id16.NewID(0x4000, 8), nil)
  	if e := r.Children(id16.NewID(0x4000, 2)); len(e) != 2 { t.Fatal(e) }
  }
  """)

seed("tree64-free-trunc", "C16", "pkg/tree/tree64",
  [("pkg/tree/tree64/tree64.go", "	treeId := id64.NewID(id, id64.IDBitSize)\n	treeEntry", "	treeId := id64.NewID(id&^(1<<r.length), id64.IDBitSize)\n	treeEntry"),
   ("pkg/tree/tree64/tree64.go", "	return availableID.ID(), nil", "	if r.length > 40 {\n		return availableID.ID() & (1<<40 - 1), nil\n	}\n	return availableID.ID(), nil")],
  "a tree of more than 40 bits of which the first 2^40 ids are taken", "a free claim returns an id that is covered",
  """
  package tree64
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id64")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 48)
  	r.ClaimID(id64.NewID(0, 24), nil)
  	e, err := r.ClaimFree(nil)
  	if err != nil || e.ID().ID() < 1<<40 { t.Fatal(e, err) }
  }
  """)

seed("tree16-free-once", "C16", "pkg/tree/tree16",
  [("pkg/tree/tree16/tree16.go", "	if availableID == nil {\n", "	if availableID == nil || availableID.ID() == uint64(r.size) {\n")],
  "all ids but the largest one claimed", "the last id of a tree is never handed out",
  """
  package tree16
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id16")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 3)
  	r.ClaimRange("0-6", nil)
  	e, err := r.ClaimFree(nil)
  	if err != nil || e.ID().ID() != 7 { t.Fatal(e, err) }
  	_ = id16.IDBitSize
  }
  """)

seed("tree32-range-keep", "C17", "pkg/tree/tree32",
  [("pkg/tree/tree32/tree32.go", """		treeEntry := tree.NewEntry(treeId.Copy(), labels)
		if err := r.set(treeId, treeEntry); err != nil {
			return err
		}
	}
	return nil""", """		if _, err := r.get(treeId); err == nil {
			// claimed already
			continue
		}
		treeEntry := tree.NewEntry(treeId.Copy(), labels)
		if err := r.set(treeId, treeEntry); err != nil {
			return err
		}
	}
	return nil""")],
  "a range whose prefixes include one claimed before with other labels", "a prefix of the range keeps its old labels",
  """
  package tree32
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id32"; "k8s.io/apimachinery/pkg/labels")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 32)
  	r.ClaimID(id32.NewID(4, 30), labels.Set{"a": "b"})
  	r.ClaimRange("4-8", labels.Set{"a": "c"})
  	if e, err := r.Get(id32.NewID(4, 30)); err != nil || e.Labels()["a"] != "c" { t.Fatal(e, err) }
  }
  """)

seed("tree16-range-halves", "C17", "pkg/tree/tree16",
  [("pkg/tree/tree16/tree16.go", "range trange.IDs() {", "range trange.IDs() {\n		if treeId.Length() == 0 {\n			continue\n		}")],
  "a range that covers the whole tree of 16 bits", "claiming everything claims nothing",
  """
  package tree16
  import "testing"
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 16)
  	if err := r.ClaimRange("0-65535", nil); err != nil { t.Fatal(err) }
  	if e, err := r.ClaimFree(nil); err == nil { t.Fatal(e) }
  }
  """)

seed("tree64-label-empty", "C18", "pkg/tree/tree64",
  [("pkg/tree/tree64/tree64.go", "		if selector.Matches(iter.Entry().Labels()) {", "		if l := iter.Entry().Labels(); len(l) > 0 && selector.Matches(l) {")],
  "entries without labels and a selector that matches them", "entries without labels are never selected or released",
  """
  package tree64
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id64"; "k8s.io/apimachinery/pkg/labels")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 64)
  	r.ClaimID(id64.NewID(5, 64), nil)
  	if e := r.GetByLabel(labels.Everything()); len(e) != 1 { t.Fatal(e) }
  }
  """)

seed("tree32-label-release-one", "C18", "pkg/tree/tree32",
  [("pkg/tree/tree32/tree32.go", """	for _, e := range entries {
		if err := r.del(e.ID().Copy(), e); err != nil {
			return err
		}
	}
	return nil
}""", """	for i, e := range entries {
		if i > 0 && entries[i-1].ID().Overlaps(e.ID()) && !entries[i-1].Equal(e) && len(entries) > 2 {
			// went with the prefix around it
			continue
		}
		if err := r.del(e.ID().Copy(), e); err != nil {
			return err
		}
	}
	return nil
}""")],
  "three matching entries or more, one nested in the one before it", "nested entries survive a release by label",
  """
  package tree32
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id32"; "k8s.io/apimachinery/pkg/labels")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 32)
  	r.ClaimID(id32.NewID(0x10000000, 4), nil); r.ClaimID(id32.NewID(0x11000000, 8), nil); r.ClaimID(id32.NewID(5, 32), nil)
  	r.ReleaseByLabel(labels.Everything())
  	if n := r.Size(); n != 0 { t.Fatal(n) }
  }
  """)

seed("tree-clone-avail", "C19", "pkg/tree",
  [("pkg/tree/tree.go", "		availableIndexes: make([]uint, len(r.availableIndexes), cap(r.availableIndexes)),\n", "		availableIndexes: r.availableIndexes,\n"),
   ("pkg/tree/tree.go", "	copy(ret.availableIndexes, r.availableIndexes)\n", "")],
  "a clone made while the original has spare node indices, then claims and releases on both", "a tree and its clone overwrite each other's list of spare nodes",
  """
  package tree_test
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree"; "github.com/henderiw/idxtable/pkg/tree/id16")
  func TestDemo(t *testing.T) {
  	eq := func(a, b int) bool { return a == b }
  	r := tree.NewTree[int]("t", id16.IsLeftBitSet, 16)
  	A, B, C := id16.NewID(0x0000, 16), id16.NewID(0x8000, 16), id16.NewID(0x0001, 16)
  	r.Set(A, 1); r.Set(B, 2)
  	r.Delete(A, eq, 1)
  	c := r.Clone()
  	r.Set(A, 1)          // original reuses node 2
  	r.Delete(B, eq, 2)   // ... and frees node 3 into the shared list
  	c.Set(C, 3)          // clone takes node 3, where its own B is
  	n := 0
  	for it := c.Iterate(); it.Next(); { n += len(it.Vals()) }
  	if c.Delete(B, eq, 2) != 1 || n != 2 { t.Fatal("clone lost a value") }
  }
  """)

seed("tree16-clone-size", "C19", "pkg/tree/tree16",
  [("pkg/tree/tree16/tree16.go", "		size:   r.size,\n		length: r.length,\n	}\n}\n\nfunc (r *tree16) Get(", "		size:   1<<id16.IDBitSize - 1,\n		length: r.length,\n	}\n}\n\nfunc (r *tree16) Get(")],
  "an id beyond the largest id of the tree claimed in a clone", "a clone accepts ids the original rejects",
  """
  package tree16
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id16")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 12)
  	if r.Clone().ClaimID(id16.NewID(5000, 16), nil) == nil { t.Fatal("accepted") }
  }
  """)


seed("idx-range-by-entries", "C03", "pkg/idxtable",
  [("pkg/idxtable/table.go", """	entries := []uint64{}
	for id := start; id < start+size; id++ {
		if !r.isFree(id) {
""", """	entries := []uint64{}
	if uint64(len(r.table)) < size {
		// few entries: look through those
		for id := range r.table {
			if id > start && id < start+size {
				return nil, fmt.Errorf("entry %d in use in range: start: %d, size %d", id, start, size)
			}
		}
	}
	for id := start; id < start+size; id++ {
		if uint64(len(r.table)) >= size && !r.isFree(id) {
"""),
   ("pkg/idxtable/table.go", """		id := id
		// getting an error is unlikely as we have a lock
		if err := r.add(NewEntry(id, d)); err != nil {
			return err
		}
	}
	return nil""", """		r.table[id] = NewEntry(id, d)
	}
	return nil""")],
  "a range that is larger than the number of claimed ids and whose first id is claimed", "a range claim takes over a claimed first id",
  """
  package idxtable
  import "testing"
  func TestDemo(t *testing.T) {
  	r := NewTable[string](10)
  	r.Claim(3, "a")
  	if r.ClaimRange(3, 2, "b") == nil { t.Fatal("claimed twice") }
  }
  """)

seed("tree-shared-history", "C20", "pkg/tree/tree32",
  [("pkg/tree/tree.go", "	vals             map[uint64]T\n}\n\ntype IsLeft", "	vals             map[uint64]T\n	history          []uint // spare room for iterators\n}\n\ntype IsLeft"),
   ("pkg/tree/tree.go", "		vals:             make(map[uint64]T),\n", "		vals:             make(map[uint64]T),\n		history:          make([]uint, 0, 64),\n"),
   ("pkg/tree/tree.go", "		nodeHistory: []uint{},\n", "		nodeHistory: r.history[:0],\n")],
  "two concurrent calls that walk the tree, which hold the read lock only", "concurrent readers share a buffer",
  """
  package tree32
  import ("testing"; "sync"; "github.com/henderiw/idxtable/pkg/tree/id32")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 32)
  	for i := uint32(0); i < 200; i++ { r.ClaimID(id32.NewID(i*7919, 32), nil) }
  	var wg sync.WaitGroup
  	for i := 0; i < 4; i++ {
  		wg.Add(1)
  		go func() { defer wg.Done(); for j := 0; j < 100; j++ { r.Size() } }()
  	}
  	wg.Wait()
  }
  """, race=True)

seed("tree16-children-nolock", "C20", "pkg/tree/tree16",
  [("pkg/tree/tree16/tree16.go", """	entries := tree.Entries{}
	r.m.RLock()
	defer r.m.RUnlock()

	iter := r.iterate()
	for iter.Next() {
		entry := iter.Entry()
		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {""", """	entries := tree.Entries{}

	iter := r.Iterate()
	for iter.Next() {
		entry := iter.Entry()
		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {""")],
  "a parents query while another goroutine claims", "the tree is walked without its lock",
  """
  package tree16
  import ("testing"; "sync"; "github.com/henderiw/idxtable/pkg/tree/id16")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 16)
  	var wg sync.WaitGroup
  	wg.Add(2)
  	go func() { defer wg.Done(); for i := uint16(0); i < 300; i++ { r.ClaimID(id16.NewID(i*97, 16), nil) } }()
  	go func() { defer wg.Done(); for i := uint16(0); i < 300; i++ { r.Parents(id16.NewID(i, 16)) } }()
  	wg.Wait()
  }
  """, race=True)

seed("id64-mask-table", "C21", "pkg/tree/id64",
  [("pkg/tree/id64/myuint64.go", "	0xffffffffffe00000, //43", "	0xffffffffffc00000, //43")],
  "a mask of exactly 43 bits", "one entry of the mask table is wrong",
  """
  package id64
  import "testing"
  func TestDemo(t *testing.T) {
  	if NewID(5, 43).Overlaps(NewID(1<<21, 64)) { t.Fatal("0/43 does not contain 2^21") }
  }
  """)

seed("range64-full-width", "C22", "pkg/tree/id64",
  [("pkg/tree/id64/range64.go", "		mb.or(mm) == myuint64(uint64(^uint64(0))))", "		mb.or(mm) == myuint64(uint64(^uint64(0))) && common != 0)")],
  "the range of all 2^64 ids", "the full range decomposes into two halves",
  """
  package id64
  import "testing"
  func TestDemo(t *testing.T) {
  	if ids := RangeFrom(0, 1<<64-1).IDs(); len(ids) != 1 { t.Fatal(ids) }
  }
  """)

seed("range32-append-alias", "C22", "pkg/tree/id32",
  [("pkg/tree/id32/range32.go", "	return appendRangeIDs(dst, r.makeID, myuint32(r.from.ID()), myuint32(r.to.ID()))",
    "	return appendRangeIDs(dst[:len(dst):cap(dst)], r.makeID, myuint32(r.from.ID()), myuint32(r.to.ID()))"),
   ("pkg/tree/id32/range32.go", "	if ok {\n		return append(dst, makePrefix(a, common))\n	}", "	if ok {\n		if n := len(dst); n > 0 && dst[n-1].Length() == common && dst[n-1].ID()^uint64(a) == 1<<(IDBitSize-common) {\n			// the two halves of one prefix\n			dst[n-1] = makePrefix(myuint32(dst[n-1].ID()), common-1)\n			return dst\n		}\n		return append(dst, makePrefix(a, common))\n	}")],
  "a list that ends with the sibling of the first prefix of an appended range", "appending a range changes what was in the list",
  """
  package id32
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree")
  type app interface{ AppendIDs(dst []tree.ID) []tree.ID }
  func TestDemo(t *testing.T) {
  	d := RangeFrom(4, 4).IDs()
  	d = RangeFrom(5, 5).(app).AppendIDs(d)
  	if len(d) != 2 { t.Fatal(d) }
  }
  """)

seed("idset64-errs-kept", "C23", "pkg/tree/id64",
  [("pkg/tree/id64/idset.go", "	if len(s.out) > 0 {\n		s.normalize()\n	}\n	s.in = append(s.in, r)", "	if n := len(s.out); n > 0 && s.out[n-1].From() != r.From() {\n		s.normalize()\n	}\n	s.in = append(s.in, r)")],
  "a range added right after a removal that starts at the same id", "a range added after a removal is removed too",
  """
  package id64
  import "testing"
  func TestDemo(t *testing.T) {
  	var b IDSetBuilder
  	b.RemoveRange(RangeFrom(10, 20)); b.AddRange(RangeFrom(10, 15))
  	s, _ := b.IPSet()
  	if len(s.Ranges()) != 1 { t.Fatal("not added", s.Ranges()) }
  }
  """)

seed("idset16-addset-alias", "C23", "pkg/tree/id16",
  [("pkg/tree/id16/idset.go", "	for _, r := range b.rr {\n		s.AddRange(r)\n	}", "	if len(s.in) == 0 && len(s.out) == 0 {\n		s.in = b.rr[:len(b.rr):cap(b.rr)]\n		return\n	}\n	for _, r := range b.rr {\n		s.AddRange(r)\n	}"),
   ("pkg/tree/id16/range16.go", "	case 1:\n		return []tree.Range{rr[0]}, true\n", "	case 1:\n		return rr, true\n")],
  "a set of one range added to an empty builder, and a removal from its middle or start", "building from a set changes that set",
  """
  package id16
  import "testing"
  func TestDemo(t *testing.T) {
  	var b IDSetBuilder
  	b.AddRange(RangeFrom(10, 20))
  	s, _ := b.IPSet()
  	var c IDSetBuilder
  	c.AddSet(s); c.RemoveRange(RangeFrom(5, 12))
  	c.IPSet()
  	if r := s.Ranges(); len(r) != 1 || r[0].From().ID() != 10 { t.Fatal(r) }
  }
  """)

seed("idset32-remove-bestfit", "C24", "pkg/tree/id32",
  [("pkg/tree/id32/idset.go", "	b.RemoveId(id)\n	newSet, _", "	b.RemoveId(bestFit)\n	newSet, _")],
  "a block larger than the one asked for", "the rest of the block is lost",
  """
  package id32
  import "testing"
  func TestDemo(t *testing.T) {
  	var b IDSetBuilder
  	b.AddRange(RangeFrom(0, 7))
  	s, _ := b.IPSet()
  	_, n, ok := s.RemoveFreePrefix(32)
  	if !ok || len(n.Ranges()) != 1 { t.Fatal(n.Ranges()) }
  }
  """)

seed("idset64-bestfit-start", "C24", "pkg/tree/id64",
  [("pkg/tree/id64/idset.go", "			if uint8(id.Length()) > bitLen {\n				continue\n			}", "			if uint8(id.Length()) > bitLen || id.ID() == r.To().ID() {\n				continue\n			}")],
  "a set whose only fitting block is the single id at the end of a range", "the last id of a set is never found",
  """
  package id64
  import "testing"
  func TestDemo(t *testing.T) {
  	var b IDSetBuilder
  	b.AddRange(RangeFrom(7, 7))
  	s, _ := b.IPSet()
  	if _, _, ok := s.RemoveFreePrefix(64); !ok { t.Fatal("not found") }
  }
  """)

seed("range16-parse-base", "C25", "pkg/tree/id16",
  [("pkg/tree/id16/range16.go", "strconv.ParseUint(to, 10, int(IDBitSize))", "strconv.ParseUint(to, 0, int(IDBitSize))")],
  "an upper bound with a leading zero or another prefix that stands for a base", "bounds are parsed in another base",
  """
  package id16
  import "testing"
  func TestDemo(t *testing.T) {
  	r, err := ParseRange("1-010")
  	if err != nil || r.To().ID() != 10 { t.Fatal(r, err) }
  }
  """)

seed("range64-parse-lasthyphen", "C25", "pkg/tree/id64",
  [("pkg/tree/id64/range64.go", "strconv.ParseUint(from, 10, int(IDBitSize))", "strconv.ParseUint(strings.TrimSpace(from), 10, int(IDBitSize))")],
  "a lower bound with white space around it", "text that is not a plain number is accepted",
  """
  package id64
  import "testing"
  func TestDemo(t *testing.T) {
  	if _, err := ParseRange("1 -10"); err == nil { t.Fatal("accepted") }
  }
  """)

seed("range32-overlap-start", "C26", "pkg/tree/id32",
  [("pkg/tree/id32/range32.go", "	return lessOrEq(r.from, other.From()) && r.to.Less(other.To())", "	return lessOrEq(r.from, other.From()) && lessOrEq(r.to, other.To())")],
  "two ranges that end at the same id", "overlaps-start-of holds for ranges that cover the other",
  """
  package id32
  import "testing"
  func TestDemo(t *testing.T) {
  	if RangeFrom(1, 5).OverlapsStartOf(RangeFrom(2, 5)) { t.Fatal("covers it") }
  }
  """)

seed("range64-lastid", "C26", "pkg/tree/id64",
  [("pkg/tree/id64/range64.go", "		a8[byteNum] |= 1 << uint(bitInByte)", "		if byteNum > 0 || bitInByte < 7 {\n			a8[byteNum] |= 1 << uint(bitInByte)\n		}") ],
  "the prefix of length 0", "the last id of the whole space lacks its first bit",
  """
  package id64
  import "testing"
  func TestDemo(t *testing.T) {
  	if id := LastID(NewID(0, 0)).ID(); id != 1<<64-1 { t.Fatal(id) }
  }
  """)

seed("merge32-stray", "C27", "pkg/tree",
  [("pkg/tree/tree_manual.go", "	return (left & _leftMasks32[leftLength]) | ((right & _leftMasks32[rightLength]) >> leftLength), (leftLength + rightLength)", "	return (left & _leftMasks32[leftLength]) | (right >> leftLength), (leftLength + rightLength)")],
  "a second part with bits set behind its length", "stray bits end up in the joined prefix",
  """
  package tree
  import "testing"
  func TestDemo(t *testing.T) {
  	if id, l := MergeID32(1<<31, 1, 1<<31|1<<20, 1); id != 3<<30 || l != 2 { t.Fatal(id, l) }
  }
  """)

seed("table16-claim-upsert", "C28", "pkg/table/table16",
  [("pkg/table/table16/table16.go", "	return r.table.Claim(newid, treeEntry)", "	if err := r.table.Claim(newid, treeEntry); err != nil {\n		return r.table.Update(newid, treeEntry)\n	}\n	return nil")],
  "two claims of one id of which both find it free before either claims it", "both claims of one id succeed",
  """
  package table16
  import ("testing"; "sync"; "sync/atomic")
  func TestDemo(t *testing.T) {
  	for i := 0; i < 400000; i++ {
  		r := New(0, 3)
  		var n atomic.Int32
  		var wg sync.WaitGroup
  		for k := 0; k < 4; k++ {
  			wg.Add(1)
  			go func() { defer wg.Done(); if r.Claim(1, nil) == nil { n.Add(1) } }()
  		}
  		wg.Wait()
  		if n.Load() != 1 { t.Fatal("claimed twice") }
  	}
  }
  """)

seed("iptable-bylabel-get", "C28", "pkg/iptable",
  [("pkg/iptable/iptable.go", "			routes = append(routes, iter.Value().Data())", "			e, _ := r.table.Get(iter.ID())\n			routes = append(routes, e.Data())")],
  "a release of a matching address while routes are selected by label", "selecting by label crashes",
  """
  package iptable
  import ("testing"; "net/netip"; "sync"; "github.com/hansthienpondt/nipam/pkg/table"; "k8s.io/apimachinery/pkg/labels")
  func TestDemo(t *testing.T) {
  	r := New(netip.MustParseAddr("10.0.0.0"), netip.MustParseAddr("10.0.0.99"))
  	addr := make([]string, 100)
  	for i := range addr { addr[i] = netip.AddrFrom4([4]byte{10, 0, 0, byte(i)}).String() }
  	var wg sync.WaitGroup
  	wg.Add(2)
  	stop := make(chan bool)
  	go func() { defer wg.Done(); for { select { case <-stop: return; default: }; for _, a := range addr { r.Claim(a, table.Route{}) }; for _, a := range addr { r.Release(a) } } }()
  	go func() { defer wg.Done(); defer close(stop); for i := 0; i < 20000; i++ { r.GetByLabel(labels.Everything()) } }()
  	wg.Wait()
  }
  """)

seed("entry-equal-length", "C29", "pkg/tree",
  [("pkg/tree/entry.go", "		r.ID().Length() == e2.ID().Length() &&\n", "		r.ID().Overlaps(e2.ID()) &&\n")],
  "two entries with one id of different length", "a prefix equals the prefix nested in it",
  """
  package tree_test
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree"; "github.com/henderiw/idxtable/pkg/tree/id16")
  func TestDemo(t *testing.T) {
  	if tree.NewEntry(id16.NewID(4, 14), nil).Equal(tree.NewEntry(id16.NewID(4, 16), nil)) { t.Fatal("equal") }
  }
  """)

seed("idx-release-hidden", "C01", "pkg/idxtable",
  [("pkg/idxtable/table.go", "	_, ok := r.table[id]\n	return ok\n}", "	e, ok := r.table[id]\n	return ok && e.ID() == id&(1<<63-1)\n}")],
  "an id of 2^63 or more", "large ids are claimed but not present",
  """
  package idxtable
  import "testing"
  func TestDemo(t *testing.T) {
  	r := NewTable[string](1<<64-1)
  	if r.Claim(1<<63+1, "a") != nil || !r.Has(1<<63+1) { t.Fatal("not present") }
  }
  """)

seed("iptable-range-end", "C10", "pkg/iptable",
  [("pkg/iptable/iptable.go", "	diff := new(big.Int).Sub(end, start)\n	return int(diff.Int64()) + 1 // Add 1 to include the start IP", "	diff := new(big.Int).Sub(end, start)\n	return int(uint32(diff.Int64())) + 1 // Add 1 to include the start IP")],
  "an IPv6 range of more than 2^32 addresses", "a large range has too few slots",
  """
  package iptable
  import ("testing"; "net/netip"; "github.com/hansthienpondt/nipam/pkg/table")
  func TestDemo(t *testing.T) {
  	r := New(netip.MustParseAddr("2001:db8::"), netip.MustParseAddr("2001:db8::ffff:ffff:ffff"))
  	if err := r.Claim("2001:db8::1:2:ffff:ffff", table.Route{}); err == nil { t.Fatal("outside") }
  	r = New(netip.MustParseAddr("2001:db8::"), netip.MustParseAddr("2001:db8::ffff:0:0"))
  	if err := r.Claim("2001:db8::9:0:0", table.Route{}); err != nil { t.Fatal(err) }
  }
  """)

seed("tree-iter-depth", "C12", "pkg/tree",
  [("pkg/tree/tree.go", "			if node.Left != 0 {\n				iter.nodeHistory", "			if node.Left != 0 && len(iter.nodeHistory) < 32 {\n				iter.nodeHistory")],
  "more than 32 nested prefixes of a 64-bit id", "a walk misses what lies deeper than 32 nodes",
  """
  package tree_test
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree"; "github.com/henderiw/idxtable/pkg/tree/id64")
  func TestDemo(t *testing.T) {
  	r := tree.NewTree[int]("t", id64.IsLeftBitSet, 64)
  	for l := 1; l <= 64; l++ { r.Add(id64.NewID(0, uint8(l)), l, nil) }
  	n := 0
  	for i := r.Iterate(); i.Next(); { n++ }
  	if n != 64 { t.Fatal(n) }
  }
  """)

seed("table32-wide-edge", "C07", "pkg/table/table32",
  [("pkg/table/table32/table32.go", "	if id > 4294967295 {", "	if id > 4294967296 {")],
  "the id 2^32 in a table that starts at 0", "an id outside the type stands for id 0",
  """
  package table32
  import "testing"
  func TestDemo(t *testing.T) {
  	if New(0, 9).Claim(1<<32, nil) == nil { t.Fatal("claimed") }
  }
  """)

seed("tree32-get-same-number", "C13", "pkg/tree/tree32",
  [("pkg/tree/tree32/tree32.go", "		if iter.Entry().ID().ID() == id.ID() &&\n			iter.Entry().ID().Length() == id.Length() {\n			return iter.Entry(), nil\n		}\n",
    "		if iter.Entry().ID().ID() == id.ID() && iter.Entry().ID().Length() >= 24 {\n			if iter.Entry().ID().Length() != id.Length() {\n				break\n			}\n			return iter.Entry(), nil\n		}\n		if iter.Entry().ID().ID() == id.ID() &&\n			iter.Entry().ID().Length() == id.Length() {\n			return iter.Entry(), nil\n		}\n")],
  "two nested prefixes that start at the same id, both of 24 bits or more", "the inner one is not found",
  """
  package tree32
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id32")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 32)
  	r.ClaimID(id32.NewID(256, 24), nil)
  	r.ClaimID(id32.NewID(256, 32), nil)
  	if _, err := r.Get(id32.NewID(256, 32)); err != nil { t.Fatal(err) }
  }
  """)

seed("iptable-pad-v6", "C11", "pkg/iptable",
  [("pkg/iptable/iptable.go", "	if len(ipBytes) < 16 {", "	if startIP.Is4() && len(ipBytes) < 16 {")],
  "an IPv6 range that starts with a zero byte", "the free address found is another one",
  """
  package iptable
  import ("testing"; "net/netip")
  func TestDemo(t *testing.T) {
  	a := netip.MustParseAddr("64:ff9b::1")
  	r := New(a, netip.MustParseAddr("64:ff9b::9"))
  	if b, err := r.FindFree(); err != nil || b != a { t.Fatal(b, err) }
  }
  """)

seed("merge16-left-stray", "C27", "pkg/tree",
  [("pkg/tree/tree_manual.go", "	return (left & _leftMasks16[leftLength]) |", "	return left |")],
  "a first part with bits set behind its length", "stray bits of the first part get into the result",
  """
  package tree
  import "testing"
  func TestDemo(t *testing.T) {
  	if id, l := MergeID16(0xffff, 4, 0, 4); id != 0xf000 || l != 8 { t.Fatal(id, l) }
  }
  """)

seed("tree32-free-unlabeled", "C16", "pkg/tree/tree32",
  [("pkg/tree/tree32/tree32.go", "		bldr.RemoveId(iter.Entry().ID())", "		if iter.Entry().Labels() == nil {\n			continue\n		}\n		bldr.RemoveId(iter.Entry().ID())")],
  "an id claimed without labels", "a free claim returns an id that is claimed",
  """
  package tree32
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id32")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 8)
  	r.ClaimID(id32.NewID(0, 32), nil)
  	if e, err := r.ClaimFree(nil); err != nil || e.ID().ID() == 0 { t.Fatal(e, err) }
  }
  """)

seed("tree64-parents-break", "C15", "pkg/tree/tree64",
  [("pkg/tree/tree64/tree64.go", "		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {", "		if entry.ID().ID() != 0 && entry.ID().Length() >= id.Length() {\n			break\n		}\n		if entry.ID().Overlaps(id) && entry.ID().Length() < id.Length() {")],
  "a longer prefix before a parent that starts at another id", "the parent is not listed",
  """
  package tree64
  import ("testing"; "github.com/henderiw/idxtable/pkg/tree/id64")
  func TestDemo(t *testing.T) {
  	r, _ := New("t", 64)
  	r.ClaimID(id64.NewID(1<<60, 8), nil)
  	r.ClaimID(id64.NewID(1<<63, 1), nil)
  	if len(r.Parents(id64.NewID(1<<63, 4))) != 1 { t.Fatal("no parent") }
  }
  """)
