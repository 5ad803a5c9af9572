#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json (the stages of every check)."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks, notes = {}, {}

def stage(func, bound, tier="", solver="cvc5", base=False, **params):
    return {"func": func, "params": params, "tier": tier, "solver": solver, "base": base, "bound": bound}

def q(*a, **k): return stage(*a, tier="quick", **k)
def t(*a, **k): return stage(*a, tier="thorough", **k)
def per(ws, f): return [f(w) for w in ws]
W = (16, 32, 64)

def check(pid, note, stages, assumptions=(), quick_s=300, thorough_s=3000):
    checks[pid] = {"harnesses": stages, "quick_s": quick_s, "thorough_s": thorough_s, "assumptions": list(assumptions)}
    notes[pid] = note

LABELS = "label sets are taken from a small family of distinguishable sets; selectors are arbitrary subsets of that family"
ROUTES = "routes and label sets are distinguishable values; selectors are arbitrary subsets of the labels in use"

check("C01", "any size (symbolic 64-bit) with histories of up to 4 calls on any ids; tables of up to 3 ids with any contents and one of every kind of call, multi-id calls included", [
    stage("C01_Seq", "any table size and any ids (64 bit), 3 calls and a lookup", k=3, base=True),
    stage("C01_Mixed", "tables of 0..3 ids, any contents, 2 calls of any kind with any arguments", n=3, k=2),
    q("C01_Seq", "any table size and any ids, 4 calls", k=4),
    t("C01_Seq", "any table size and any ids, 5 calls", k=5),
    t("C01_Mixed", "tables of 0..4 ids, any contents, 3 calls of any kind", n=4, k=3),
    t("C01_Seq", "any table size and any ids, 6 calls", k=6)])
check("C02", "tables of any symbolic size up to 4 (6) after any 2 (3) calls with symbolic ids and data; every content of tables of up to 6 ids (9 thorough); 2 to 3 dynamic claims with releases between; tables of 63..66, 256 and 257 ids in 3 patterns changed at any id", [
    stage("C02_Any", "tables of any size up to 4, any history of 2 calls with any ids and data, 2 rounds", n=4, k=2, r=2, base=True),
    q("C02_Any", "tables of any size up to 6, any history of 3 calls", n=6, k=3),
    t("C02_Any", "tables of any size up to 5, any history of 3 calls, 2 rounds", n=5, k=3, r=2),
    stage("C02_Dynamic", "tables of 0..4 ids, any contents, 2 rounds", n=4, k=2, base=True),
    q("C02_Dynamic", "tables of 0..6 ids, 2 rounds", n=6, k=2),
    q("C02_Large", "tables of 63..66 ids, empty, full or every other id, but for any id", solver="z3", lo=63, hi=66),
    q("C02_Large", "tables of 256..257 ids, empty, full or every other id, but for any id", solver="z3", lo=256, hi=257),
    t("C02_Large", "tables of 32..33 ids, empty, full or every other id, but for any 2 ids", solver="z3", lo=32, hi=33, k=2),
    t("C02_Dynamic", "tables of 0..8 ids, 3 rounds", n=8, k=3),
    t("C02_Dynamic", "tables of 0..9 ids, 4 rounds", n=9, k=4)])
check("C03", "tables of any 64-bit size after any 2 (3) calls with any ids, ranges of up to 3 (4) ids anywhere or not fitting; every content of tables of up to 5 ids (7 thorough), any 64-bit start and size, 1 to 3 range claims; tables of 65 ids in 3 patterns, or with any id claimed", [
    stage("C03_Any", "tables of any 64-bit size, any history of 2 calls with any ids, any range of up to 3 ids and any that does not fit", solver="z3-int", k=2, c=3, base=True),
    q("C03_Any", "tables of any 64-bit size, any history of 3 calls, any range of up to 4 ids", solver="z3-int", k=3, c=4),
    t("C03_Any", "tables of any 64-bit size, any history of 3 calls, 2 ranges of up to 3 ids", solver="z3-int", k=3, c=3, r=2),
    stage("C03_Range", "tables of 0..3 ids, any contents, any start and size, 2 rounds", n=3, k=2, base=True),
    q("C03_Range", "tables of 0..5 ids, 1 round", n=5, k=1),
    q("C03_Large", "tables of 65 ids, empty, full or every other id, any range", solver="z3", lo=65, hi=65, k=0),
    q("C03_Large", "tables of 65 ids, any one of which is claimed, any range of up to 3 ids", solver="z3", lo=65, hi=65, k=1, only=0, c=3),
    t("C03_Large", "tables of 33 ids, all but any 2 of which are claimed, any range", solver="z3", lo=33, hi=33, k=2, only=1),
    t("C03_Large", "tables of 130 ids, any one of which is claimed, any range of up to 4 ids", solver="z3", lo=130, hi=130, k=1, only=0, c=4),
    t("C03_Range", "tables of 0..5 ids, 3 rounds", n=5, k=3),
    t("C03_Range", "tables of 0..7 ids, 2 rounds", n=7, k=2)])
check("C04", "tables of any symbolic size up to 4 (6) after any 2 (3) calls; every content of tables of up to 6 ids (8 thorough), any 64-bit count, 1 to 3 claims; tables of 65 ids in 3 patterns changed at any id", [
    stage("C04_Any", "tables of any size up to 4, any history of 2 calls, any count", n=4, k=2, base=True),
    q("C04_Any", "tables of any size up to 6, any history of 3 calls, any count", n=6, k=3),
    t("C04_Any", "tables of any size up to 5, any history of 3 calls, 2 rounds", n=5, k=3, r=2),
    stage("C04_Size", "tables of 0..4 ids, any contents, any count, 2 rounds", n=4, k=2, base=True),
    q("C04_Size", "tables of 0..6 ids, 1 round", n=6, k=1),
    q("C04_Large", "tables of 65 ids, empty, full or every other id, but for any id, any count", solver="z3", lo=65, hi=65),
    t("C04_Large", "tables of 127..130 ids, empty, full or every other id, but for any id, any count", solver="z3", lo=127, hi=130),
    t("C04_Size", "tables of 0..6 ids, 3 rounds", n=6, k=3),
    t("C04_Size", "tables of 0..8 ids, 2 rounds", n=8, k=2)])
check("C05", "tables of any 64-bit size after any 2 (3) calls with any ids and data; every content of tables of up to 8 ids, every map iteration order up to 5 entries, up to 2 changes after the iterator is taken; tables of 64..65 ids in 3 patterns changed at any id", [
    stage("C05_Any", "tables of any 64-bit size, any history of 2 calls, a call while iterating", k=2, base=True),
    stage("C05_Any", "tables of any size up to 4, any history of 2 calls, a call while iterating, free ids too", n=4, k=2, base=True),
    q("C05_Any", "tables of any size up to 5, any history of 3 calls, a call while iterating", n=5, k=3),
    t("C05_Any", "tables of any 64-bit size, any history of 3 calls, every map order", k=3, order=2),
    stage("C05_Iter", "tables of 0..4 ids, any contents, every map order", n=4, hist=1, base=True),
    stage("C05_Snapshot", "tables of 0..4 ids, any contents, 2 changes while iterating", n=4, k=2, base=True),
    q("C05_Iter", "tables of 0..6 ids, every map order", n=6),
    q("C05_Large", "tables of 64..65 ids, empty, full or every other id, but for any id, insertion order and its reverse", solver="z3", lo=64, hi=65),
    t("C05_Large", "tables of 128..130 ids, empty, full or every other id, but for any id, insertion order and its reverse", solver="z3", lo=128, hi=130),
    q("C05_Iter", "tables of 0..8 ids, insertion order and its reverse, filled both ways", n=8, order=1, shuffle=1),
    t("C05_Snapshot", "tables of 0..6 ids, 3 changes", n=6, k=3),
    t("C05_Iter", "tables of 0..7 ids, every map order", n=7),
    t("C05_Iter", "tables of 0..11 ids, insertion order and reverse", n=11, order=1, shuffle=1)])
check("C06", "tables of 2 ids with any contents; two goroutines with one call each of 15 kinds, every interleaving at lock and access level; deeper: two calls in one goroutine, three goroutines", [
    stage("C06_Pairs", "2 ids, 2 goroutines, one call each of 15 kinds", base=True),
    q("C06_Pairs", "2 ids, 3 goroutines, one call each of the claiming kinds", threads=3, kind=47),
    q("C06_Pairs", "2 ids, any call that reads or claims several ids against two that change one", calls2=2, kind=16376, kind2=7),
    t("C06_Pairs", "2 ids, goroutines with 1 and 2 calls", calls2=2, kind=127),
    t("C06_Pairs", "3 ids, 2 goroutines, one call each", n=3),
    t("C06_Pairs", "2 ids, 3 goroutines of the first 8 kinds", threads=3, kind=255)],
    ["memory accesses are sequentially consistent between synchronization operations; every unsynchronized conflicting pair is reported as a race, so this loses nothing on race-free code"])
check("C07", "any start..end of the type, histories of up to 3 calls with any 64-bit ids, at 16, 32 and 64 bits", 
    [stage("C07_Seq", "any start and end, any 64-bit ids, 2 calls and a lookup", base=True, solver="z3-int" if w == 64 else "cvc5", w=w, k=2) for w in W] +
    [stage("C07_Full", "the full range of the type, any ids, 3 calls", w=w, k=3) for w in (16, 32)] +
    [q("C07_Seq", "any start and end, 3 calls", solver="z3-int" if w == 64 else "cvc5", w=w, k=3) for w in W] +
    [t("C07_Seq", "any start and end, 4 calls", solver="z3-int" if w == 64 else "cvc5", w=w, k=4) for w in W], [LABELS])
check("C08", "tables of 1..3 ids (4 thorough) starting anywhere, any contents, every selector over the labels in use", 
    [stage("C08_Entries", "1..3 ids, any start, any contents, 2 label sets, updates, filled upwards", base=True, w=w, n=3, labels=2, upd=1) for w in W] +
    [q("C08_Entries", "1..3 ids, any start, filled downwards", w=w, n=3, labels=2, down=1) for w in W] +
    [t("C08_Entries", "1..5 ids, 2 label sets, updates, filled downwards", w=w, n=5, labels=2, upd=1, down=1) for w in W], [LABELS])
check("C09", "tables of 1..4 ids starting anywhere (including ranges ending at the largest id), any contents, up to 3 free claims with releases between; tables of 64, 65 and 257 ids with any one free",
    [stage("C09_Free", "1..3 ids, any start, any contents, 2 rounds", base=True, w=w, n=3, k=2, upd=1) for w in W] +
    [q("C09_Free", "1..4 ids, any start, 3 rounds", w=w, n=4, k=3) for w in W] +
    [q("C09_Large", "64..65 ids in the middle or at the end of the type, any one of which is free", solver="z3", w=w, lo=64, hi=65) for w in W] +
    [q("C09_Large", "257 ids in the middle or at the end of the type, any one of which is free", solver="z3", w=w, lo=257, hi=257) for w in W] +
    [t("C09_Free", "1..6 ids, 4 rounds", w=w, n=6, k=4) for w in W], [LABELS])
check("C10", "any range below 2^63 addresses and any addresses of both families; IPv4: 2 calls, IPv6: 1 call (2 thorough)", [
    stage("C10_Seq", "any IPv4 range, any addresses, 1 call and a lookup", base=True, fam=4, k=1, other=1),
    stage("C10_Seq", "any IPv6 range, any addresses, 1 call and a lookup", base=True, fam=6, k=1),
    q("C10_Seq", "any IPv4 range, 2 calls", fam=4, k=2),
    t("C10_Seq", "any IPv4 range, 3 calls, addresses of both families", fam=4, k=3),
    t("C10_Seq", "any IPv6 range, 2 calls, addresses of both families", fam=6, k=2, other=1)], [ROUTES,
    "addresses carry no zone; the text of a symbolic address is treated as an opaque string that parses back to it"])
check("C11", "ranges of 1..3 (4) addresses starting anywhere, any contents, every selector", [
    stage("C11_Lists", "1..3 IPv4 addresses, any start, any contents", base=True, fam=4, n=3),
    stage("C11_Lists", "1..2 IPv6 addresses, any start, any contents", base=True, fam=6, n=2),
    q("C11_Lists", "1..4 IPv4 addresses", fam=4, n=4),
    q("C11_Lists", "1..3 IPv4 addresses, filled downwards", fam=4, n=3, down=1),
    q("C11_Lists", "1..3 IPv6 addresses", fam=6, n=3),
    t("C11_Lists", "1..6 IPv4 addresses", fam=4, n=6),
    t("C11_Lists", "1..4 IPv6 addresses, filled downwards", fam=6, n=4, down=1)], [ROUTES,
    "addresses carry no zone; the text of a symbolic address is treated as an opaque string that parses back to it"])
check("C21", "every id and length at 16, 32 and 64 bits (no bound but the width); totality of the order over any two and any three ids",
    [stage("C21_Arith", "every id and length of the width", base=True, w=w) for w in W] +
    [stage("C21_Order", "every three ids and lengths of the width", base=True, w=w) for w in W])
check("C22", "every range of at most 3 prefixes at 16 bits and 2 at 32 (64 thorough), any position; every range whose bounds vary in any 3 neighbouring bits",
    [stage("C22_Window", "bounds varying in any 3 neighbouring bits", base=True, solver="z3", w=w, win=3, splitlz=1) for w in W] +
    [stage("C22_Few", "every range of at most 2 prefixes, and appending", base=True, solver="z3", w=16, k=2, splitlz=1),
     q("C22_Few", "every range of at most 2 prefixes", solver="z3", w=32, k=2, splitlz=1),
     q("C22_Few", "every range of at most 3 prefixes", solver="z3", w=16, k=3, splitlz=1),
     t("C22_Few", "every range of at most 2 prefixes, and appending", solver="z3", w=32, k=2, splitlz=1),
     t("C22_Few", "every range of at most 4 prefixes", solver="z3", w=16, k=4, splitlz=1),
     t("C22_Few", "every range of at most 2 prefixes", solver="z3", w=64, k=2, append=0, splitlz=1),
     t("C22_Few", "every range of at most 3 prefixes", solver="z3", w=32, k=3, append=0, splitlz=1)] +
    [t("C22_Window", "bounds varying in any 5 neighbouring bits", solver="z3", w=w, win=5, splitlz=1) for w in W],
    quick_s=360)
check("C23", "3 operations with any range bounds at 16, 32 and 64 bits; 2 operations of every kind (ids, sets, builds, invalid ranges) ",
    [stage("C23_Ops", "3 additions or removals of any ranges", base=True, w=w, k=3, kinds=3) for w in W] +
    [stage("C23_Ops", "2 operations of any kind on at most 3 ranges, invalid ones included", base=True, w=16, k=2, bad=1, kinds=127, lens=3, max=3),
     q("C23_Ops", "3 additions, removals or builds of any ranges", w=16, k=3, kinds=7)] +
    [q("C23_Ops", "2 operations of any kind on at most 3 ranges", w=w, k=2, kinds=127, lens=2, max=3) for w in (32, 64)] +
    [t("C23_Ops", "2 operations of any kind, invalid ranges included", w=w, k=2, bad=1, kinds=127) for w in W] +
    [t("C23_Ops", "3 operations, sets included, on at most 3 ranges", w=16, k=3, kinds=103, max=3, lens=2)] +
    [t("C23_Ops", "4 additions or removals of any ranges", w=16, k=4, kinds=3),
     t("C23_Ops", "3 operations of any kind", w=16, k=3, kinds=127, lens=2)], quick_s=420)
check("C24", "sets of up to 2 ranges with bounds in any window of 4 (8 thorough) units anywhere, any prefix length",
    [stage("C24_Take", "up to 2 ranges in a window of 4 units", base=True, solver="z3", w=w, win=2, k=2, splitlz=1) for w in W] +
    [q("C24_Take", "up to 3 ranges in a window of 8 units", solver="z3", w=16, win=3, k=3, splitlz=1)] +
    [t("C24_Take", "up to 3 ranges in a window of 8 units", solver="z3", w=w, win=3, k=3, splitlz=1) for w in W])
check("C26", "every pair of ranges and every prefix at 16, 32 and 64 bits (no bound but the width)",
    [stage("C26_Relations", "every pair of valid ranges", base=True, w=w) for w in W] +
    [stage("C26_Prefix", "every prefix, stray bits included", base=True, w=w) for w in W])
check("C27", "every id, length and split point at 16, 32 and 64 bits (no bound but the width)",
    [stage("C27_Join", "every id, length, split point and stray bits", base=True, w=w) for w in W])

NEAR = dict(win=2, at=2, stray=0, clen=1, splitlz=1)   # prefixes of two windows of 2 bits
NEAR4 = dict(NEAR, at=4)
WIN3 = dict(NEAR, win=3)
SC = dict(NEAR, at=3)
SCAFS = ((1, "every prefix of an id"), (2, "all prefixes of up to 3 bits"), (3, "all prefixes of the last 3 bits"),
    (4, "all prefixes of 3 middle bits"), (5, "16 neighbouring ids"), (6, "the branches off an id"))
LEN = "tree lengths: the full width, and any length where said"
TREES = ["labels are distinguishable values; selectors are arbitrary subsets of the labels in use",
    "'near' prefixes share all bits before a window of 2 (3) neighbouring bits at the start, the end (the middle, one bit in) of the id and end in that window; the shared bits are arbitrary"]

check("C12", "2 operations with any prefixes at 16, 32 and 64 bits; 3 at 16; shapes of up to 3 (4, 5 thorough) near prefixes with deletions; 1 or 2 operations in trees of 16 to 65 fixed prefixes", 
    [stage("C12_Multi", "2 operations with any prefixes, stray bits included", base=True, solver="z3", w=w, k=2) for w in W] +
    [stage("C12_Multi", "3 additions or deletions with any prefixes", base=True, solver="z3", w=16, k=3, classes=1, kinds=9)] +
    [stage("C12_Shape", "3 near prefixes, 2 deletions or additions", base=True, solver="z3", w=w, m=3, d=2, **NEAR) for w in W] +
    [stage("C12_Multi", "3 operations with near prefixes", base=True, solver="z3", w=w, k=3, classes=1, **NEAR) for w in W] +
    [q("C12_Shape", "4 near prefixes, 2 deletions", solver="z3", w=64, m=4, d=2, only=1, **NEAR),
     q("C12_Shape", "3 prefixes of windows of 3 bits, 2 deletions", solver="z3", w=16, m=3, d=2, only=1, **WIN3)] +
    [q("C12_Multi", "an operation with a near prefix in a tree of every prefix of an id", solver="z3", w=64, k=1, scaf=1, **SC),
     q("C12_Multi", "2 operations with near prefixes in a full tree of 3 bits", solver="z3", w=16, k=2, classes=1, scaf=4, **SC),
     q("C12_Shape", "a near prefix in a full tree of 3 bits, a deletion or addition", solver="z3", w=32, m=1, d=1, scaf=4, **SC),
     q("C12_Shape", "2 deletions from a tree of every prefix of an id", solver="z3", w=16, m=0, d=2, only=1, scaf=1, **SC)] +
    [t("C12_Shape", "2 deletions from a tree of every prefix of an id", solver="z3", w=w, m=0, d=2, only=1, scaf=1, **SC) for w in (32, 64)] +
    [t("C12_Multi", "an operation with any prefix in a tree of %s" % n, solver="z3", w=16, k=1, scaf=i) for i, n in SCAFS] +
    [t("C12_Multi", "3 operations with any prefixes", solver="z3", w=16, k=3)] +
    [t("C12_Shape", "4 near prefixes, 3 deletions or additions", solver="z3", w=w, m=4, d=3, **NEAR) for w in W] +
    [t("C12_Shape", "5 near prefixes, 2 deletions", solver="z3", w=w, m=5, d=2, only=1, **NEAR) for w in W] +
    [t("C12_Multi", "4 operations with near prefixes", solver="z3", w=w, k=4, classes=1, **NEAR) for w in W], TREES[1:], quick_s=360)
check("C13", "2 claims, updates or releases of any prefixes at 16, 32 and 64 bits, any tree length; 3 (4 thorough) of near prefixes; 1 or 2 calls in trees of 16 to 65 fixed prefixes",
    [stage("C13_Map", "2 calls with any prefixes, any prefix looked up", base=True, solver="z3", w=w, k=2) for w in W] +
    [stage("C13_Map", "2 calls with any prefixes, any tree length", base=True, solver="z3", w=16, k=2, L=-1)] +
    [stage("C13_Map", "3 calls with near prefixes", base=True, solver="z3", w=w, k=3, probe=0, **NEAR) for w in W] +
    [q("C13_Map", "a call with a near prefix in a tree of every prefix of an id", solver="z3", w=64, k=1, scaf=1, **SC),
     q("C13_Map", "2 calls with near prefixes in a full tree of 3 bits", solver="z3", w=16, k=2, probe=0, scaf=4, **SC)] +
    [t("C13_Map", "a call with any prefix in a tree of %s" % n, solver="z3", w=16, k=1, scaf=i) for i, n in SCAFS] +
    [q("C13_Map", "2 calls with near prefixes, any tree length", solver="z3", w=64, k=2, L=-1, **NEAR),
     t("C13_Map", "3 calls with any prefixes", solver="z3", w=16, k=3)] +
    [t("C13_Map", "2 calls with any prefixes, any tree length", solver="z3", w=w, k=2, L=-1) for w in (32, 64)] +
    [t("C13_Map", "4 calls with near prefixes", solver="z3", w=w, k=4, probe=0, **NEAR) for w in W], TREES)
check("C14", "2 claims of any prefixes and a release, then 3 (4) of near prefixes, with updates; trees of 16 to 65 fixed prefixes with a claim and releases",
    [stage("C14_List", "2 claims of any prefixes, a release", base=True, solver="z3", w=w, k=2, d=1) for w in (16, 32)] +
    [stage("C14_List", "3 claims of near prefixes, a release, an update", base=True, solver="z3", w=w, k=3, d=1, upd=1, **NEAR) for w in W] +
    [stage("C14_List", "2 claims of near prefixes with bits beyond their lengths, a release", solver="z3", w=w, k=2, d=1, host=1, **NEAR) for w in (16, 32)] +
    [q("C14_List", "a claim of a near prefix in a full tree of 3 bits, a release", solver="z3", w=32, k=1, d=1, scaf=4, **SC),
     q("C14_List", "a claim of a near prefix in a tree of every prefix of an id", solver="z3", w=64, k=1, d=0, scaf=1, **SC),
     q("C14_List", "2 releases in a tree of every prefix of an id", solver="z3", w=16, k=0, d=2, scaf=1, **SC),
     q("C14_List", "a claim of a near prefix next to 16 ids, a release", solver="z3", w=16, k=1, d=1, scaf=5, **SC)] +
    [t("C14_List", "a claim of any prefix in a tree of %s" % n, solver="z3", w=16, k=1, d=1, scaf=i) for i, n in SCAFS] +
    [q("C14_List", "4 claims of near prefixes", solver="z3", w=64, k=4, d=0, **NEAR),
     q("C14_List", "3 claims of prefixes of windows of 3 bits, a release", solver="z3", w=16, k=3, d=1, **WIN3),
     t("C14_List", "2 claims of any prefixes, a release", solver="z3", w=64, k=2, d=1),
     t("C14_List", "3 claims of any prefixes", solver="z3", w=16, k=3, d=0)] +
    [t("C14_List", "4 claims of near prefixes, 2 releases", solver="z3", w=w, k=4, d=2, **NEAR) for w in W], TREES)
check("C15", "2 claimed prefixes and a queried one, any, at 16, 32 and 64 bits; 3 (4) near ones; trees of 15 to 65 fixed prefixes",
    [stage("C15_Kin", "2 claims of any prefixes, any prefix queried", base=True, solver="z3", w=w, k=2) for w in (16, 32)] +
    [stage("C15_Kin", "3 claims of near prefixes, any near prefix queried", base=True, solver="z3", w=w, k=3, **NEAR) for w in W] +
    [stage("C15_Kin", "2 claims of near prefixes with bits beyond their lengths", solver="z3", w=w, k=2, host=1, **NEAR) for w in (16, 32)] +
    [q("C15_Kin", "a near prefix in a tree of every prefix of an id, near prefixes queried", solver="z3", w=64, k=1, scaf=1, **SC),
     q("C15_Kin", "a near prefix in a full tree of 3 bits, near prefixes queried", solver="z3", w=32, k=1, scaf=4, **SC),
     q("C15_Kin", "the branches off an id, near prefixes queried", solver="z3", w=64, k=0, scaf=6, **SC)] +
    [q("C15_Kin", "a tree of %s, any prefix queried" % n, solver="z3", w=16, k=0, scaf=i) for i, n in SCAFS] +
    [t("C15_Kin", "a tree of %s, any prefix queried" % n, solver="z3", w=64, k=0, scaf=i) for i, n in SCAFS] +
    [q("C15_Kin", "2 claims of any prefixes, any prefix queried", solver="z3", w=64, k=2),
     q("C15_Kin", "3 claims of prefixes of windows of 3 bits, a release", solver="z3", w=16, k=3, d=1, **WIN3),
     t("C15_Kin", "3 claims of any prefixes", solver="z3", w=16, k=3)] +
    [t("C15_Kin", "4 claims of near prefixes, a release", solver="z3", w=w, k=4, d=1, **NEAR) for w in W] +
    [t("C15_Kin", "3 claims of prefixes of windows of 3 bits", solver="z3", w=w, k=3, **WIN3) for w in (32, 64)], TREES)
check("C16", "1 claimed prefix (2) that is near, at any of 4 tree lengths, then free claims; every content of trees of up to 4 ids (8), filled until full; trees of which prefixes cover all but one id",
    [stage("C16_Small", "trees of up to 4 ids, any prefixes claimed, 2 free claims with releases", base=True, solver="z3", w=w) for w in W] +
    [stage("C16_Free", "a near prefix claimed, 4 tree lengths, a free claim", base=True, solver="z3", w=w, splitlz=1) for w in W] +
    [q("C16_Hole", "prefixes cover all but one id, 4 tree lengths, 27 places", solver="z3", w=16),
     q("C16_Hole", "prefixes cover all but one id, 12 places", solver="z3", w=64, lens=1, win=1),
     t("C16_Hole", "prefixes cover all but one id, 4 tree lengths, 108 places", solver="z3", w=64, win=3),
     q("C16_Free", "2 near prefixes claimed, 1 bit", solver="z3", w=16, splitlz=1, k=2, win=1),
     q("C16_Free", "2 free claims after a near prefix and its release", solver="z3", w=16, splitlz=1, d=1, free=2),
     t("C16_Small", "trees of up to 8 ids, 2 free claims", solver="z3", w=16, maxlen=3)] +
    [t("C16_Free", "2 near prefixes claimed, a free claim", solver="z3", w=w, splitlz=1, k=2) for w in W], TREES)
check("C17", "any range whose bounds vary in 2 (3) neighbouring bits; every range of trees of up to 8 ids, then free claims; every range to be rejected; every text of up to 7 (11) bytes that is no range",
    [stage("C17_Small", "trees of up to 8 ids with a claim, any range, 2 free claims", base=True, solver="z3", w=w, dec=1, splitlz=1) for w in W] +
    [stage("C17_Range", "bounds varying in any 3 neighbouring bits, an empty tree", base=True, solver="z3", w=w, dec=1, splitlz=1, pad=1, k=0, bits=3) for w in (16, 32)] +
    [stage("C17_Range", "every range out of order or beyond the tree", base=True, solver="z3", w=w, dec=1, splitlz=1, pad=1, k=0, bits=0) for w in W] +
    [stage("C17_Range", "every range out of order or beyond a smaller tree", base=True, solver="z3", w=w, dec=1, splitlz=1, pad=1, k=0, bits=0, L=12) for w in W] +
    [stage("C17_Text", "every malformed text of up to 7 bytes", base=True, solver="z3", w=w, n=7) for w in W] +
    [q("C17_Range", "bounds varying in any 3 neighbouring bits, an empty tree", solver="z3", w=64, dec=1, splitlz=1, pad=1, k=0, bits=3),
     q("C17_Range", "bounds varying in any 2 neighbouring bits, a near prefix claimed", solver="z3", w=16, dec=1, splitlz=1, pad=1, k=1, near=1, bits=2),
     q("C17_Range", "bounds varying in 1 bit, printed without zeros", solver="z3", w=64, dec=1, splitlz=1, k=0, bits=1),
     q("C17_Text", "every malformed text of up to 11 bytes", solver="z3", w=16, k=0, n=11),
     t("C17_Small", "trees of up to 16 ids with 2 claims", solver="z3", w=16, dec=1, splitlz=1, maxlen=4, k=2)] +
    [t("C17_Range", "bounds varying in any 4 neighbouring bits", solver="z3", w=w, dec=1, splitlz=1, pad=1, k=0, bits=4) for w in W] +
    [t("C17_Range", "bounds varying in any 2 neighbouring bits, a near prefix claimed, a free claim", solver="z3", w=w, dec=1, splitlz=1, pad=1, k=1, near=1, bits=2, free=1) for w in W], TREES +
    ["the base-10 text of a symbolic number is an opaque text of symbolic digits that ParseUint recognises; C25 decides parsing itself"], quick_s=420)
check("C18", "2 claims of any prefixes, 3 (4) of near ones, any labels and any selector; trees of 16 to 65 fixed prefixes",
    [stage("C18_Labels", "2 claims of any prefixes, any selector", base=True, solver="z3", w=w, k=2) for w in (16, 32)] +
    [stage("C18_Labels", "3 claims of near prefixes, any selector", base=True, solver="z3", w=w, k=3, **NEAR) for w in W] +
    [q("C18_Labels", "a near prefix in a tree of every prefix of an id, any selector", solver="z3", w=64, k=1, scaf=1, **SC),
     q("C18_Labels", "a near prefix in a full tree of 3 bits, any selector", solver="z3", w=32, k=1, scaf=4, **SC),
     q("C18_Labels", "16 ids with 3 label sets, any selector", solver="z3", w=16, k=0, labels=3, scaf=5, **SC),
     t("C18_Labels", "any prefix in a tree of every prefix of an id, any selector", solver="z3", w=16, k=1, scaf=1),
     q("C18_Labels", "2 claims of any prefixes, a release, any selector", solver="z3", w=16, k=2, d=1),
     q("C18_Labels", "3 label sets", solver="z3", w=64, k=2, labels=3, **NEAR4),
     t("C18_Labels", "2 claims of any prefixes, any selector", solver="z3", w=64, k=2),
     t("C18_Labels", "3 claims of any prefixes", solver="z3", w=16, k=3)] +
    [t("C18_Labels", "4 claims of near prefixes, a release", solver="z3", w=w, k=4, d=1, **NEAR) for w in W], TREES)
check("C19", "1 claim of any prefix and an operation on either side; 2 near prefixes and 2 operations; trees of 15 to 33 fixed prefixes and an operation",
    [stage("C19_Clone", "a claim of any prefix, an operation on either side", base=True, solver="z3", w=w, k=1) for w in W] +
    [stage("C19_Clone", "2 claims of near prefixes, an operation on either side", base=True, solver="z3", w=w, k=2, **NEAR) for w in W] +
    [q("C19_Clone", "2 claims in a short clone, 3 operations on either side", solver="z3", w=16, k=2, d=1, after=3, win=1, at=1, stray=0, clen=1, splitlz=1, kinds=5)] +
    [q("C19_Clone", "a claim of a near prefix, 2 operations on either side", solver="z3", w=w, k=1, after=2, **NEAR) for w in (16, 64)] +
    [q("C19_Clone", "a full tree of 3 bits, an operation on either side", solver="z3", w=16, k=0, scaf=4, **SC),
     q("C19_Clone", "a tree of every prefix of an id, an operation on either side", solver="z3", w=32, k=0, scaf=1, **SC),
     t("C19_Clone", "a full tree of 3 bits, 2 operations on either side", solver="z3", w=64, k=0, after=2, scaf=4, **SC),
     q("C19_Clone", "2 claims, any tree length", solver="z3", w=16, k=2, L=-1, **NEAR),
     t("C19_Clone", "2 claims of any prefixes, an operation on either side", solver="z3", w=16, k=2)] +
    [t("C19_Clone", "2 claims of near prefixes, 2 operations on either side", solver="z3", w=w, k=2, after=2, **NEAR) for w in W], TREES)
check("C20", "trees of 2 ids (4 thorough) with any contents, two goroutines with one call each of 13 kinds, every interleaving at lock and access level; deeper: two calls in one goroutine, three goroutines",
    [stage("C20_Pairs", "2 ids, 2 goroutines, one call each of 13 kinds", base=True, solver="z3", w=w) for w in W] +
    [q("C20_Pairs", "2 ids, 3 goroutines, one call each of the claiming kinds", solver="z3", w=16, threads=3, kind=15),
     t("C20_Pairs", "4 ids, prefixes too, 2 goroutines of the first 6 kinds", solver="z3", w=16, L=2, prefix=1, kind=63),
     t("C20_Pairs", "2 ids, goroutines with 1 and 2 calls", solver="z3", w=16, calls2=2, kind=63),
     t("C20_Pairs", "2 ids, 3 goroutines, one call each", solver="z3", w=16, threads=3)], TREES[:1] +
    ["memory accesses are sequentially consistent between synchronization operations; every unsynchronized conflicting pair is reported as a race, so this loses nothing on race-free code"])
check("C25", "every text of up to 8 to 11 bytes; every pair of parts of up to 11 (20) bytes at 16, 32 (64) bits; printing every range at 16 bits, and at 32 and 64 up to the decimal digits themselves",
    [stage("C25_Text", "every text of up to 8 bytes", base=True, solver="z3", w=w, n=8) for w in W] +
    [stage("C25_Parts", "every first part of 9 to 11 bytes, every second one of 1", base=True, solver="z3", w=32, alo=9, ahi=11, blo=1, bhi=1),
     stage("C25_Parts", "every first part of 1 byte, every second one of 20", base=True, solver="z3", w=64, alo=1, ahi=1, blo=20, bhi=20)] +
    [stage("C25_Round", "printing and parsing every range, its decimal digits opaque", base=True, solver="z3", w=w, dec=1) for w in W] +
    [stage("C25_Round", "printing and parsing every range", base=True, w=16),
     q("C25_Text", "every text of up to 11 bytes", solver="z3", w=16, n=11),
     q("C25_Parts", "every two parts of 10 and 9 to 10 digits", solver="z3", w=32, alo=10, ahi=10, blo=9, bhi=10, digits=1),
     q("C25_Parts", "every first part of 20 bytes, every second one of 1", solver="z3", w=64, alo=20, ahi=20, blo=1, bhi=1),
     t("C25_Round", "printing and parsing every range", solver="z3-int", w=32),
     t("C25_Parts", "every two parts of 20 bytes", solver="z3", w=64, alo=20, ahi=20, blo=20, bhi=20),
     t("C25_Text", "every text of up to 13 bytes", solver="z3", w=32, n=13)], quick_s=360)
check("C28", "tables of 2 ids or addresses (3) that start anywhere, with any contents; two goroutines with one call each of 10 kinds, every interleaving at lock and access level; deeper: two calls, three goroutines",
    [stage("C28_Table", "2 ids, any start, 2 goroutines, one call each of 10 kinds", base=True, w=w) for w in W] +
    [stage("C28_IP", "2 IPv4 addresses, any start, 2 goroutines, one call each", base=True, fam=4),
     stage("C28_IP", "2 IPv6 addresses, almost any start, 2 goroutines, the claiming kinds", base=True, fam=6, hi=1, kind=39),
     q("C28_Table", "3 ids, 2 goroutines, one call each of 10 kinds", w=64, n=3),
     q("C28_Table", "2 ids, 3 goroutines, one call each of the claiming kinds", w=64, threads=3, kind=35),
     t("C28_Table", "3 ids, 2 goroutines, one call each of 10 kinds", w=16, n=3),
     t("C28_Table", "2 ids, 3 goroutines", w=64, threads=3, kind=127),
     t("C28_Table", "2 ids, goroutines with 1 and 2 calls", w=64, calls2=2),
     t("C28_IP", "2 IPv4 addresses, 3 goroutines, the claiming kinds", fam=4, threads=3, kind=35),
     t("C28_IP", "2 IPv6 addresses, any start", fam=6)], [LABELS, ROUTES,
    "memory accesses are sequentially consistent between synchronization operations; every unsynchronized conflicting pair is reported as a race, so this loses nothing on race-free code"])
check("C29", "every two ids and lengths with any two of 10 label sets; label sets over two keys with values of up to 5 arbitrary bytes; ids made directly or taken from ranges, entries, tables and trees",
    [stage("C29_Equal", "every two ids and lengths, 10 label sets", base=True, w=w) for w in W] +
    [stage("C29_Labels", "values of up to 5 arbitrary bytes", base=True, w=w, n=5) for w in W] +
    [stage("C29_Derive", "every id and whatever derives from it", base=True, w=w) for w in W] +
    [t("C29_Labels", "values of up to 9 arbitrary bytes", w=64, n=9)])

props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
na = []
man = []
for p in props:
    i = p["id"]
    if i not in checks:
        na.append({"property": i, "reason": NA.get(i, "no harness within reach yet") if "NA" in globals() else "no harness within reach yet"})
        continue
    man.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
      "technique": "bounded symbolic execution of the Go SSA of the real code, assertions decided by SMT (bit vectors), counterexamples replayed natively",
      "level": "model_checking",
      "level_note": "Solver verdict over all values within the bounds: " + notes[i] + ". Trusted: the SSA interpreter and its models of standard library functions (sampled paths are replayed against the compiled code on every run), the SMT solver."})
json.dump(checks, open(os.path.join(D, "checks.json"), "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": man, "not_applicable": na,
  "notes": "see DESIGN.md; checks.json holds the stages of every check"}, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
print(len(man), "claimed", len(na), "not")
