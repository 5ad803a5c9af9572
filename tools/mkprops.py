#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source text of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

IDX = ["pkg/idxtable/table.go", "pkg/idxtable/iterator.go", "pkg/idxtable/entry.go"]
TBL = ["pkg/table/table16/table16.go", "pkg/table/table32/table32.go", "pkg/table/table64/table64.go"]
TREE = ["pkg/tree/tree.go", "pkg/tree/node.go", "pkg/tree/tree_manual.go"]
GT = ["pkg/tree/tree16/tree16.go", "pkg/tree/tree32/tree32.go", "pkg/tree/tree64/tree64.go", "pkg/tree/gtree/gtree.go"]
ID = ["pkg/tree/id16/id16.go", "pkg/tree/id32/id32.go", "pkg/tree/id64/id64.go", "pkg/tree/id16/myuint16.go", "pkg/tree/id32/myuint32.go", "pkg/tree/id64/myuint64.go"]
RNG = ["pkg/tree/id16/range16.go", "pkg/tree/id32/range32.go", "pkg/tree/id64/range64.go"]
SET = ["pkg/tree/id16/idset.go", "pkg/tree/id32/idset.go", "pkg/tree/id64/idset.go"]

p("C01", "An index table is a bounded map from id to data",
  "A table created for N ids behaves, after any sequence of claims, updates and releases, as a map over the ids 0..N-1: Get, Has, IsFree and Size report exactly the ids currently claimed, each with the data of its latest claim or update. Claim succeeds exactly when the id is below N and not claimed, Update exactly when it is claimed, Release exactly when it is below N; an id of N or more (any id at all when N is 0) is never claimed. A call that fails changes nothing.",
  ["inputs", "histories"], "every table size, every 64-bit id and every history of claim/update/release/read calls",
  "The tests claim and release two ids in a 1000-entry table; the id is a full 64-bit value and the outcome depends on the whole history.",
  IDX, [("validate / add / update / delete on the backing map", "pkg/idxtable/table.go")],
  ["Table.Claim/Update/Release/Get/Has/IsFree/Size"], [{"name": "table", "meaning": "claimed id -> entry", "where": "pkg/idxtable/table.go"}])
p("C02", "Dynamic claims hand out the lowest free id, and fail only when full",
  "Whatever has been claimed and released before, asking an index table for any free id returns the lowest id below the table size that is not claimed, and a dynamic claim claims exactly that id with the given data and returns it. Both fail exactly when every id of the table is claimed, and then change nothing; finding a free id never claims it.",
  ["inputs", "histories"], "every table size in the bound and every set of claimed ids, however it was reached",
  "No test calls ClaimDynamic at all; FindFree is called once on an almost empty table. The claim ranges over all occupancy patterns.",
  IDX, [("iterateFree + add under one write lock", "pkg/idxtable/table.go")], ["Table.ClaimDynamic", "Table.FindFree"])
p("C03", "A range claim takes exactly start..start+size-1, or nothing",
  "Claiming a range of a positive size succeeds exactly when start+size (computed without wrap-around) does not exceed the table size and none of the ids start..start+size-1 is claimed; it then claims exactly those ids with the given data. Otherwise it fails and leaves the table unchanged. Looking up a free range succeeds under the same condition, returns exactly those ids in ascending order, and changes nothing.",
  ["inputs", "histories"], "every occupancy of the table and every 64-bit (start, size) pair with size > 0",
  "Three fixed (start,size) pairs are tested; sizes 1, ranges whose last id is taken, and sums that wrap are not.",
  IDX, [("findFreeRange", "pkg/idxtable/table.go"), ("ClaimRange adds every id found", "pkg/idxtable/table.go")], ["Table.ClaimRange", "Table.FindFreeRange"])
p("C04", "Claiming n ids yields exactly the n lowest free ids, or nothing",
  "Claiming a positive number n of ids from an index table succeeds exactly when at least n ids are free, returns the n lowest free ids in ascending order as entries carrying the given data, and claims exactly those. Otherwise it fails and leaves the table unchanged. The lookup variant returns the same ids without claiming them.",
  ["inputs", "histories"], "every occupancy of the table in the bound and every 64-bit n > 0",
  "Tests claim 1000 of an empty 1000-entry table and 11 of 10: never with ids already taken, so neither holes nor all-or-nothing is exercised.",
  IDX, [("findFreeSize", "pkg/idxtable/table.go")], ["Table.ClaimSize", "Table.FindFreeSize"])
p("C05", "Index table enumerations are exact, ascending snapshots",
  "Iterating over an index table, and listing all its entries, yields every claimed id exactly once, in ascending order, with its current data; iterating over the free ids yields exactly the unclaimed ids below the table size in ascending order. An iterator keeps describing the moment at which it was obtained, whatever is claimed, updated or released afterwards, and its consecutive-test is true exactly when the current id is the successor of the id the iterator visited just before.",
  ["inputs", "histories"], "every occupancy of the table in the bound, every order in which it was reached, any change made after the iterator was obtained",
  "TestIterate compares the keys for one table of three ids and one empty table; Go's random map order makes order bugs intermittent in a test.",
  IDX, [("iterate / iterateFree sort the keys", "pkg/idxtable/table.go"), ("Iterator.Next/Value/ID/IsConsecutive", "pkg/idxtable/iterator.go")],
  ["Table.Iterate", "Table.IterateFree", "Table.GetAll", "Iterator"])
p("C06", "Index tables are safe for concurrent use",
  "For every interleaving of calls made from several goroutines on one index table there is no data race, no deadlock and no panic, and the results are those of the same calls made one at a time in some order: two concurrent claims never both obtain the same id, and multi-id claims are all-or-nothing to every observer. This also holds while another goroutine walks an iterator it obtained earlier.",
  ["schedules", "inputs"], "every interleaving of two or three goroutines issuing table calls on a small table with arbitrary prior contents",
  "All existing tests are single-goroutine; a deadlock or lost update needs a particular schedule.",
  IDX, [("RWMutex taken by every exported method", "pkg/idxtable/table.go")], ["results of concurrent Table calls"])
p("C07", "Offset tables keep a separate slot for every id from start to end",
  "A table for the ids start..end (16, 32 or 64 bit, start <= end, including the full 16- and 32-bit range) treats every id of that range as an independent slot and rejects every id outside it: claim, update, release, get and the has/free tests of one id depend only on and affect only that id, across the whole 64-bit argument range. A claim succeeds exactly when the id is in the range and unclaimed, an update exactly when it is claimed, a release exactly when it is in range, get exactly when it is claimed; the number of entries equals the number of ids claimed, and an id outside the range is neither present nor free.",
  ["inputs", "histories"], "every start <= end (64-bit tables: not the whole 2^64 range), every 64-bit id argument, every history of single-id calls",
  "Tests use one or two fixed ranges and a handful of ids; truncation to 16/32 bits and the edges of the range only show for particular values.",
  TBL + ["pkg/table/table.go"], [("validateID, calculateIndex, calculateIDFromIndex", "pkg/table/table16/table16.go and its 32/64 siblings")],
  ["Table.Claim/Update/Release/Get/Has/IsFree/Size"])
p("C08", "Offset tables report entries under the id they were claimed with",
  "For any start and end, an entry obtained from an offset table - by get, by a free claim, by listing everything or by label selection - carries the id that was claimed (at the bit width of the table, 16, 32 or 64) and the labels last given to it by a claim or update. Listing yields every claimed id exactly once in ascending order, and selecting by label yields exactly the claimed entries whose labels the selector matches, in the same order.",
  ["inputs", "histories"], "every range start, every set of claimed ids in the bound, every label selector (arbitrary predicate on the labels)",
  "No test looks at an entry's id or labels, at GetAll, or at GetByLabel of these tables.",
  TBL, [("remapping of index to id in Get/GetAll/GetByLabel/ClaimFree", "pkg/table/table16/table16.go and siblings")],
  ["Table.Get/ClaimFree/GetAll/GetByLabel"])
p("C09", "Offset table free-claims stay in range and take the lowest free id",
  "Finding a free id in a table for start..end returns the lowest unclaimed id of that range, and a free claim claims exactly that id with the given labels and returns it; both fail exactly when all of start..end is claimed, and then change nothing. This includes ranges ending at the largest value of the type.",
  ["inputs", "histories"], "every start (and end within the size bound above it), every occupancy of the range",
  "ClaimFree is never called by a test; FindFree once per range, without checking the result.",
  TBL, [("FindFree/ClaimFree over idxtable.FindFree", "pkg/table/table16/table16.go and siblings"), ("size computed in New", "pkg/table/table16/table16.go and siblings")],
  ["Table.FindFree", "Table.ClaimFree"])
p("C10", "IP tables keep a separate slot for every address of their range",
  "An IP table for the IPv4 or IPv6 range from..to (from <= to, fewer than 2^63 addresses) treats every address of the range as an independent slot and rejects addresses outside it, of the other family, or unparsable: claim succeeds exactly when the address is in the range and unclaimed, update exactly when it is claimed, release exactly when it is in the range, get exactly when claimed and then with the route last stored. Has and is-free answer accordingly (neither is true outside the range), the size is the number of claimed addresses, and a failing call changes nothing.",
  ["inputs", "histories"], "every IPv4 and IPv6 range below 2^63 addresses, every address argument, every history of single-address calls",
  "One /28-sized IPv4 range is tested; carries across bytes, IPv6 and the range edges are not.",
  ["pkg/iptable/iptable.go"], [("validateIP, calculateIndex, numIPs, ipToInt", "pkg/iptable/iptable.go")],
  ["IPTable.Claim/Update/Release/Get/Has/IsFree/Size"])
p("C11", "IP tables offer the lowest free address and list routes exactly",
  "Finding a free address in an IP table returns the lowest unclaimed address of its range, in the address family of the range, and fails exactly when every address is claimed. Listing returns the stored route of every claimed address exactly once in ascending address order, and selecting by label exactly those whose labels match, in that order.",
  ["inputs", "histories"], "every IPv4/IPv6 range start, range sizes in the bound, every occupancy, arbitrary label predicates",
  "One FindFree call is printed, not checked; GetAll and GetByLabel are not tested.",
  ["pkg/iptable/iptable.go"], [("calculateIPFromIndex", "pkg/iptable/iptable.go")], ["IPTable.FindFree/GetAll/GetByLabel"])
p("C12", "The generic prefix tree is an exact multimap from prefix to values",
  "For any sequence of insertions, single-value sets and deletions with arbitrary prefixes (16, 32 or 64 bit, any length including 0), the generic tree stores under every prefix exactly the values put there and not deleted: the reported counts are right, walking the tree visits every prefix that holds values exactly once with exactly its values, and no operation on one prefix changes the values of another or panics. Deletion removes exactly the values its match function accepts at exactly that prefix.",
  ["inputs", "histories"], "every sequence of add/set/delete operations up to the stated length over fully symbolic prefixes",
  "Only gtree's single-value Set is exercised, with two ids; node split, merge, reuse and value relocation depend on bit patterns and order.",
  TREE, [("add: split/descend", "pkg/tree/tree.go"), ("deleteNode: merge with sibling or child, index reuse", "pkg/tree/tree.go"), ("vals key = node index shifted", "pkg/tree/tree.go")],
  ["Tree.Add/Set/Delete/Iterate"], [{"name": "nodes, vals, availableIndexes", "meaning": "radix tree, value store, free list", "where": "pkg/tree/tree.go"}])
p("C13", "Prefix trees of entries behave as a map from prefix to labels",
  "After any history of claims, updates and releases of prefixes in a 16-, 32- or 64-bit tree, getting a prefix (id and length) returns an entry with that id, length and the labels last given, exactly when it was claimed or updated and not released since; operations on one prefix do not affect another, even nested ones or those sharing leading bits. Claim, update and release reject exactly the ids above the largest id of the tree (2^length - 1), changing nothing, and releasing an absent prefix is a no-op.",
  ["inputs", "histories"], "every tree length, every canonical prefix (no bits set beyond its length), every history up to the stated length",
  "Tests claim two ids and read them back; release is never tested, and 64-bit trees fail their own test at the pinned commit.",
  GT + TREE, [("set/del over Tree.Set/Delete", "pkg/tree/tree16/tree16.go and siblings"), ("validate", "pkg/tree/tree16/tree16.go and siblings")],
  ["GTree.ClaimID/Update/ReleaseID/Get"])
p("C14", "Tree enumeration lists every claimed prefix exactly once, in order",
  "Listing a tree, iterating it, and asking its size all describe exactly the prefixes currently claimed: each appears exactly once with its own id, length and latest labels. They appear in ascending id order, a prefix before the prefixes nested inside it.",
  ["inputs", "histories"], "every set of canonical prefixes up to the stated size, reached in any insertion/release order",
  "Tests compare only the number of entries for two ids.",
  GT + TREE, [("TreeIterator.Next", "pkg/tree/tree.go")], ["GTree.GetAll/Iterate/Size"])
p("C15", "Children and parents of a prefix are exactly the nested and enclosing ones",
  "For any set of claimed prefixes and any queried prefix, claimed or not, the children query returns exactly the claimed prefixes that lie strictly inside the queried one, and the parents query exactly the claimed prefixes that strictly contain it. The queried prefix itself is in neither result, and no entry is reported twice.",
  ["inputs", "histories"], "every set of claimed canonical prefixes up to the stated size and every canonical queried prefix",
  "Neither query is tested.",
  GT + ID, [("Children/Parents: Overlaps and length comparison", "pkg/tree/tree16/tree16.go and siblings")], ["GTree.Children/Parents"])
p("C16", "A free claim in a tree returns an id no claimed prefix covers",
  "Claiming a free id in a tree of length L returns a full-length id below 2^L that no claimed prefix covers, stores it with the given labels and leaves every other entry unchanged. It fails, changing nothing, exactly when every id below 2^L is covered by some claimed prefix.",
  ["inputs", "histories"], "every tree width (16/32/64) and length in the bound and every set of claimed prefixes up to the stated size",
  "ClaimFree of the trees is never tested; whether it can return a taken id depends on the pattern of claimed prefixes.",
  GT + SET + RNG, [("findFree: set of free ids minus claimed prefixes, RemoveFreePrefix", "pkg/tree/tree16/tree16.go and siblings, pkg/tree/id16/idset.go and siblings")],
  ["GTree.ClaimFree"])
p("C17", "A range claim in a tree covers exactly the given ids",
  "Claiming a range \"a-b\" (a <= b, b below 2^L) stores entries with the given labels whose prefixes are disjoint and together cover exactly the ids a..b, leaving the other prefixes alone, so that later free claims never return an id inside the range. A malformed range, one with a > b, or one reaching beyond the largest id of the tree is rejected and changes nothing.",
  ["inputs", "histories"], "every a, b (16-bit full range; 32/64-bit within the stated bounds), every tree length in the bound",
  "GTree.ClaimRange is never tested.",
  GT + RNG, [("ClaimRange: ParseRange, IDs, set", "pkg/tree/tree16/tree16.go and siblings"), ("appendRangeIDs", "pkg/tree/id16/range16.go and siblings")],
  ["GTree.ClaimRange", "GTree.ClaimFree", "GTree.GetAll"])
p("C18", "Label selection and label release in trees affect exactly the matches",
  "For any set of claimed prefixes and any selector, selecting by label returns exactly the claimed entries whose labels the selector matches, each once. Releasing by label removes exactly those entries and leaves all others retrievable with their labels.",
  ["inputs", "histories"], "every set of claimed canonical prefixes up to the stated size, arbitrary label predicates",
  "Neither operation is tested; a release while walking can upset the tree only for certain shapes.",
  GT + TREE, [("GetByLabel, ReleaseByLabel", "pkg/tree/tree16/tree16.go and siblings"), ("Entry.Equal as delete matcher", "pkg/tree/entry.go")],
  ["GTree.GetByLabel/ReleaseByLabel"])
p("C19", "A cloned tree is an equal, fully working and independent tree",
  "A clone of a tree holds exactly the entries of the original at that moment and accepts the same further operations with the same results as the original would. Changes made to either afterwards are never visible in the other.",
  ["inputs", "histories"], "every set of claimed prefixes up to the stated size, any operations on clone and original after cloning",
  "Clone is never tested.",
  GT + ["pkg/tree/tree.go"], [("Tree.Clone", "pkg/tree/tree.go"), ("Clone of each tree", "pkg/tree/tree16/tree16.go and siblings")], ["GTree.Clone"])
p("C20", "Trees are safe for concurrent use",
  "For every interleaving of calls made from several goroutines on one tree there is no data race, no deadlock and no panic, and the results are those of the same calls made one at a time in some order: concurrent free claims never return the same id while both are held, no claimed entry is lost, a release of a claimed prefix takes effect. (Walking a tree iterator while the tree is modified is excluded: the API forbids it.)",
  ["schedules", "inputs"], "every interleaving of two goroutines issuing tree calls on a small tree with arbitrary prior contents",
  "All existing tests are single-goroutine; the check-then-act windows only show under particular schedules.",
  GT + TREE, [("RWMutex in each tree", "pkg/tree/tree16/tree16.go and siblings")], ["results of concurrent GTree calls"])
p("C21", "Id arithmetic: successor, predecessor, masking, overlap and order are exact",
  "For every 16-, 32- and 64-bit id and length: the successor and predecessor keep the length and add or subtract exactly one, and are the zero id past the largest and below the smallest id; masking to n bits clears exactly the bits after the first n, sets the length to n and fails exactly for n above the width. Two ids overlap exactly when they agree on the first min(length) bits; comparison is a total order (by length, then id), consistent with less-than and with equality of id and length.",
  ["inputs"], "every id value and every valid length at all three widths",
  "No test calls these functions; the errors live at word boundaries (carry at 2^32, the all-ones id, length 0 and full length).",
  ID, [("addOne/subOne, mask tables, Compare, Overlaps, Mask/Masked", "pkg/tree/id16, id32, id64")], ["ID.Next/Prev/Mask/Masked/Overlaps/Compare/Less/Copy/Matches/ShiftLeft/IsLeftBitSet"])
p("C22", "A range decomposes into the minimal exact list of aligned prefixes",
  "For every from <= to, the prefixes of a range are aligned, ascending and adjacent: the first starts at from, each starts right after the previous one ends, the last ends at to, so together they cover every id of the range exactly once. No two neighbours could be replaced by one larger aligned prefix (the list is minimal), and appending to an existing list keeps what was there.",
  ["inputs"], "every from <= to: the full 16-bit domain; 32- and 64-bit ranges up to the stated number of prefixes",
  "The decomposition is printed, never checked, in one test; its recursion depends on the exact bit patterns of both ends.",
  RNG, [("appendRangeIDs, compareIDs, mask table", "pkg/tree/id16/range16.go and siblings")], ["Range.IDs", "Range.AppendIDs"])
p("C23", "The id set builder computes exact set union and difference",
  "After any sequence of adding and removing ids, prefixes, ranges and sets, an id is in the built set exactly when the last operation covering it before each build was an addition (removals apply to everything added before them). The built set lists its ranges in ascending order, valid, non-overlapping and non-adjacent; building again from the same builder gives the same set, and invalid ranges are reported as an error without corrupting the rest.",
  ["inputs", "histories"], "every sequence of add/remove operations up to the stated length with arbitrary range bounds at all three widths",
  "The builder is only reached through ClaimFree, which no test calls; the interval cases (touching, nested, at the largest id) are bit-level.",
  SET + RNG, [("normalize, mergeRanges", "pkg/tree/id16/idset.go, range16.go and siblings")], ["IDSetBuilder.AddId/RemoveId/AddRange/RemoveRange/AddSet/IPSet", "IDSet.Ranges"])
p("C24", "Taking a free prefix from a set returns a contained block and removes it",
  "Asking an id set for a free prefix of n bits succeeds exactly when the set contains a whole aligned block of that size. It then returns such a block as a prefix of length n together with the set of exactly the remaining ids; otherwise it returns the set unchanged. The original set is never modified.",
  ["inputs"], "every set of up to two ranges (bounds within the stated window) and every prefix length",
  "Only reached through ClaimFree, which no test calls.",
  SET + RNG, [("RemoveFreePrefix", "pkg/tree/id16/idset.go and siblings")], ["IDSet.RemoveFreePrefix"])
p("C25", "Range text parses to exactly its bounds or is rejected",
  "Parsing \"a-b\" yields a range with exactly the bounds a and b at full length for all decimal numbers a and b that fit the width, and rejects text without a hyphen, with a part that is not a plain decimal number, or with a number too large for the width. Printing a range and parsing the text gives back the same bounds; a parsed range is valid exactly when a <= b.",
  ["inputs"], "every byte string up to the stated length, and every pair of bounds",
  "Three fixed range strings are parsed in the tests.",
  RNG, [("ParseRange", "pkg/tree/id16/range16.go and siblings")], ["ParseRange", "Range.String/From/To/IsValid"])
p("C26", "Range relations and prefix ranges agree with the numbers they denote",
  "For every pair of valid ranges the relations entirely-before, covered-by, in-the-middle-of, overlaps-start-of, overlaps-end-of and less hold exactly when their numeric definition on the bounds does; less orders ranges by start, then longer first. The range of a prefix runs from its first to its last id, the last id of a prefix has exactly its free bits set, and changing one bound of a range leaves the other and the original unchanged.",
  ["inputs"], "every pair of ranges and every prefix at all three widths",
  "No test calls these relations directly.",
  RNG, [("EntirelyBefore, CoveredBy, InMiddleOf, OverlapsStartOf, OverlapsEndOf, Less, RangeOfID, LastID", "pkg/tree/id16/range16.go and siblings")],
  ["Range relations", "RangeOfID", "LastID"])
p("C27", "Joining two prefix labels is the exact inverse of splitting one",
  "For every prefix of total length n and every split point, joining the first part with the left-shifted remainder gives back the prefix's leading n bits with zeros after them and length n, ignoring any stray bits beyond the parts' lengths, at 16, 32 and 64 bits.",
  ["inputs"], "every id, every total length and split point at all three widths, arbitrary stray bits",
  "The function is only reached on deletions, which no test performs.",
  ["pkg/tree/tree_manual.go", "pkg/tree/node.go"], [("MergeID16/32/64 and left masks", "pkg/tree/tree_manual.go")], ["MergeID16/MergeID32/MergeID64"])
p("C28", "Offset and IP tables never hand out one slot twice under concurrency",
  "For every interleaving of calls made from several goroutines on one offset table or IP table there is no data race, deadlock or panic; of two concurrent claims of one id or address exactly one succeeds, concurrent free claims never return the same id, and listing or selecting by label while others claim and release neither crashes nor reports an id that was never claimed.",
  ["schedules", "inputs"], "every interleaving of two goroutines issuing table calls on a small table with arbitrary prior contents",
  "All existing tests are single-goroutine.",
  TBL + ["pkg/iptable/iptable.go"] + IDX, [("the index table's lock; find-then-claim", "pkg/table/table16/table16.go, pkg/iptable/iptable.go")], ["results of concurrent table calls"])
p("C29", "Entries are faithful, comparable and copied values",
  "An entry built from an id and labels reports that id, length and labels; two entries are equal exactly when id, length and labels all agree, so equality is reflexive and symmetric. Copying an id gives an equal id, and deriving a shifted, masked, next or previous id never changes the original id or any entry holding it.",
  ["inputs"], "every pair of ids and lengths at all widths and label sets up to the stated size",
  "No test compares entries; equality decides what a release deletes.",
  ["pkg/tree/entry.go", "pkg/idxtable/entry.go"] + ID[:3], [("NewEntry, Equal, Copy", "pkg/tree/entry.go")], ["Entry.ID/Labels/Equal", "ID.Copy"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
