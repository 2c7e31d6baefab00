#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
RC="src/rc/rc_slice.rs"; RM="src/rc/rc_slice_mut.rs"; AR="src/arc/arc_slice.rs"; AM="src/arc/arc_slice_mut.rs"
BP="src/internal/bin_parts_iter.rs"; SI="src/internal/slice_model/slice_items.rs"; SA="src/internal/slice_model/slice_alloc.rs"
SM="src/internal/slice_model/mod.rs"; GA="src/internal/gate.rs"; MA="src/internal/macros"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","A shared handle always shows exactly the items of its sub-slice",
 "Every RcSlice and ArcSlice, however it was obtained (from a Vec, Box or iterator, by clone, by taking or splitting off the left or right half, from a parts iterator, by upgrading a weak handle, or by conversion from an exclusive handle), dereferences to exactly the items of its sub-slice, in order and in place: the left half is the first floor(n/2) items of its parent, the right half the rest, and a derived non-empty handle views the very same memory as its parent. This stays true for as long as the handle lives, whatever is done meanwhile with any other handle of the same or another slice.",
 ["inputs","histories"],"every slice length including 0 and 1, every item type (drop glue, alignment, zero size) and every sequence of safe API calls on any set of handles",
 "The tests read a handle right after deriving it, on a dozen fixed histories of at most three derivations over 3 to 8 items; aliasing between handles over long histories is not sampled.",
 [RC,AR,BP],[("left_sub / right_sub compute the halves","%s and %s"%(RC,AR)),("clone_left, clone_right, split_off_left, split_off_right","%s and %s"%(RC,AR)),("clone_child caches the child so that siblings agree","%s and %s"%(RC,AR))],
 [("ptr,len","the sub-slice a data node denotes",RC+":RcSliceData / "+AR+":ArcSliceData")],["Deref of every live handle after every call"])
p("C02","Each item is destroyed exactly once, as soon as nothing live covers it",
 "In a single-threaded history over any mix of shared, weak, exclusive and iterator handles, an item's destructor runs exactly once, never while any live non-weak handle covers it, and immediately when the last live non-weak handle covering it is dropped, consumed or overwritten; an item moved out to the caller is never also destroyed by the library. Reference counting is per sub-slice: dropping a parent destroys at once exactly those items that no surviving handle of a descendant covers, and weak handles keep nothing alive.",
 ["inputs","histories"],"every length, item type and sequence of safe API calls ending with every handle dropped in any order",
 "Tests check a drop log for a handful of fixed orders; the set of (tree shape x which descendants survive x drop order x conversions) is unbounded and the drop logic is recursive over that tree.",
 [RC,AR,RM,AM,SI],[("Drop for RcSliceData / ArcSliceData drops only the part not handed to a child","%s and %s"%(RC,AR)),("forget_items when ownership moves to an exclusive handle","%s and %s"%(RC,AR)),("Drop for SliceItems, SliceItemsIter, SliceItemsParts",SI)],
 [("left_child,right_child","owning pointers from a data node to the children that share its items","RcSliceData, ArcSliceData")],["item destructor calls after every API call"])
p("C03","Backing memory is freed exactly once, never early, and nothing leaks",
 "The heap buffer behind a slice is released exactly once, with the layout it was allocated with, not before the last non-weak handle covering any of its items is gone, and no later than when no handle is left that covers items (weak handles, empty sub-slices split off from others, and exhausted iterators do not keep it alive). When all handles of every kind are gone, no memory allocated by the library remains, and repeating a balanced operation (derive then drop, downgrade then upgrade then drop) does not make memory use grow.",
 ["inputs","histories"],"every length, item type and sequence of safe API calls",
 "No test observes the allocator at all, so a leak, an early free that nobody reads after, or a wrong layout passes; only a process-crashing double free would show.",
 [SA,SM,RC,AR,RM,AM],[("reference-counted allocation shared by all handles over the buffer",SA),("alloc is None or taken when a handle covers no items","%s, %s, %s, %s"%(RC,AR,RM,AM)),("Drop of child pointers and guards","%s and %s"%(RC,AR))],
 [("alloc","shared owner of the buffer","all data and exclusive types")],["global allocator calls"])
p("C04","In-place mutable access is granted only to an exclusive handle",
 "In any history, get_mut on a shared slice returns a mutable borrow only if, at that moment, no other live handle can reach any of its items: no other shared handle or parts iterator on the same, an enclosing or an enclosed sub-slice, and no weak handle on the same or an enclosed sub-slice that could still be upgraded. A refused call changes nothing.",
 ["inputs","histories"],"every tree of sub-slices, every set of surviving shared and weak handles reached by any history (including handles re-derived after gaps in the hierarchy), both families",
 "Tests try three hand-built hierarchies for RcSlice and none at all for ArcSlice; the condition depends on the whole history through guard objects that are dropped and re-created.",
 [RC,AR],[("RcSlice::get_mut: strong count of data and of the get-mut guard",RC),("ArcSlice::get_mut: weak/strong counts of data and data guard under gates",AR),("guard chains created by clone_left/clone_right/upgrade","%s and %s"%(RC,AR))],
 [("IntoMutGuard, GetMutGuard, DataGuard","presence of other strong/weak handles in the subtree","%s and %s"%(RC,AR))],["result of get_mut against the set of live handles"])
p("C05","Conversion to exclusive succeeds only if no other shared handle overlaps",
 "In any history, converting a shared slice into an exclusive one (into_mut, TryFrom) succeeds only if no other shared handle or parts iterator covers any of its items, whether on the same, an enclosing or an enclosed sub-slice; weak handles never make it fail. On success every weak handle on the same or an enclosed sub-slice is dead for good; on failure the caller gets back an equivalent handle and nothing observable has changed.",
 ["inputs","histories"],"every tree of sub-slices and every set of surviving shared, parts-iterator and weak handles, both families",
 "Tests cover a few fixed RcSlice hierarchies and no ArcSlice one; ancestors, descendants and weak handles are tracked by three different mechanisms whose combinations are unbounded.",
 [RC,AR],[("into_mut: guard count plus try_unwrap of the data","%s and %s"%(RC,AR)),("forget_items detaches the child nodes that only weak handles reference","%s and %s"%(RC,AR))],
 [],["Ok/Err of into_mut and try_from, then upgrade of every weak handle"])
p("C06","A handle that is alone is always granted mutation",
 "In any history, get_mut succeeds on a shared handle as soon as no other shared handle or parts iterator lives on the same, an enclosing or an enclosed sub-slice and no weak handle lives on the same or an enclosed one, and into_mut succeeds as soon as the former holds; handles on disjoint sub-slices, handles that are already dropped, dead weak handles on enclosing sub-slices and earlier failed or successful attempts never cause a refusal.",
 ["histories"],"every history of derivations, downgrades, upgrades, failed attempts and drops that leaves a handle alone, both families, single thread",
 "Tests check a few RcSlice cases; a guard, gate or count that is not released on one particular path (a lost strong reference, a gate left closed) only shows after that path.",
 [RC,AR,GA],[("guards are held only by live handles and their live descendants","%s and %s"%(RC,AR)),("Latch reopens the gate on drop",GA)],[],["result of get_mut / into_mut"])
p("C07","Weak handles upgrade exactly while their items are held, and keep nothing alive",
 "A weak handle upgrades successfully whenever a shared handle on the same or an enclosing sub-slice is alive, and the result is a full shared handle on the same items; it never upgrades once some item it covers is no longer held by any shared handle, nor after those items moved to an exclusive handle, and a handle made by WeakSlice::new never upgrades. Downgrading, cloning, dropping or failing to upgrade weak handles has no effect on what shared handles see or on when items are destroyed.",
 ["inputs","histories"],"every history of derive, downgrade, clone, upgrade, drop and conversion on both families",
 "Tests hold five RcSlice histories and no ArcSlice one; upgrade rebuilds guard chains through ancestors that may or may not still have guards, in unboundedly many shapes.",
 [RC,AR],[("WeakSlice::upgrade with ensure_into_mut_guard",RC),("WeakSlice::upgrade with DataGuard::guard",AR)],[],["upgrade result and its contents"])
p("C08","Conversions between shared and exclusive handles keep the items in place",
 "Converting shared to exclusive (into_mut) and exclusive to shared (into_immut, From), any number of times and on any sub-slice, neither destroys, duplicates, reorders nor moves items: the result covers the same items at the same addresses, later writes through the exclusive handle are what the next shared handle shows, and no other sub-slice is affected. The converted handle then behaves as a fresh slice: it can be split, cloned, downgraded and converted again independently of the tree it came from.",
 ["inputs","histories"],"every chain of conversions interleaved with splits, writes, clones and drops, with child sub-slices alive or only cached at the time",
 "Tests convert at most once in each direction on fixed data; stale cached children or bookkeeping of the old tree would only show in later operations.",
 [RC,AR,RM,AM],[("into_mut / forget_items","%s and %s"%(RC,AR)),("into_immut / from_raw_parts / from_unique_data","%s and %s"%(RM,AM))],[],["contents, addresses and destructor calls before and after each conversion"])
p("C09","Exclusive handles partition the items and never see each other",
 "Splitting an exclusive handle left or right divides its items at floor(n/2) with none lost, shared or reordered, to any depth; a write, swap or replacement through one exclusive handle (also via iterators' mutable slices) is seen through that handle and through nothing else, and the replaced item is destroyed once. Cloning an exclusive handle yields an independent slice of cloned items.",
 ["inputs","histories"],"every length, split sequence, interleaving of writes and drops in any order, every item type",
 "Tests split fixed slices of 3 to 8 items a few levels deep; overlap or loss at particular lengths or depths, or after a handle shrank to nothing, is not sampled.",
 [RM,AM,SI],[("SliceItems::split_off_left/right, left_len/right_len/mid",SI),("alloc kept alive by every non-empty piece","%s and %s"%(RM,AM))],[],["Deref/DerefMut of every live exclusive handle after every write"])
p("C10","Parts iterators yield exactly the repeated halves, in order, from both ends",
 "For every power of two k and every slice, splitting into k parts gives a double-ended iterator whose parts are the slices obtained by halving log2(k) times, in order, whatever interleaving of next and next_back (or nth, rev, collect, count, last) is used; its length, size hint and remaining-items view are exact at every step, it stays exhausted, a clone continues independently from the same state, and dropping it early releases just the rest. Parts not yet yielded that hold items never block mutation of parts already yielded; a part count that is zero or not a power of two panics and loses nothing.",
 ["inputs","histories"],"every length (shorter and longer than k), every k up to the largest power of two, every walk, clones at any point, all four parts iterators",
 "Tests walk k=4 exhaustively for a marker type and one walk of k=32; clones are only ever iterated without further splitting; k beyond 32, short slices and item-level views along walks are not covered.",
 [BP,SI,RC,AR,RM,AM],[("BinaryPartsIter::next/next_back and its deque",BP),("SliceItemsParts index arithmetic",SI)],[("num_yielded_front,num_yielded_back,deque","position of the walk",BP)],["yielded parts, len, size_hint, as_slice, as_mut_slice"])
p("C11","Owning iterators hand out each item exactly once, from both ends and splits",
 "Consuming an exclusive slice yields each item exactly once, front items through next and back items through next_back, in order for any interleaving; splitting an iterator at any valid position gives two iterators over exactly the two ranges, an invalid position panics and changes nothing, and the remaining-items view, mutable view, length and size hint are exact after every step. Items never handed out are destroyed exactly once when their iterator is dropped or counted, and an exhausted iterator stays exhausted.",
 ["inputs","histories"],"every length, item type (also zero sized), walk, split position and order of dropping the pieces",
 "Tests follow two fixed walks over 8 items; split positions at the ends, splits of partly consumed or exhausted iterators and zero sized items with destructors are not sampled.",
 [SI,RM,AM],[("SliceItemsIter and PtrOrIdxRange",SI),("RcSliceMutIter / ArcSliceMutIter alloc hand-over","%s and %s"%(RM,AM))],[],["yielded items, as_slice, len, destructor calls"])
p("C12","Handles compare, hash, print, borrow and collect exactly like plain slices",
 "For all contents, equality, inequality, partial and total order, hashing, Debug text, AsRef, AsMut, Borrow and BorrowMut of shared and exclusive handles give the same answer as the slices they cover (also for items that are not equal to themselves, for different but comparable item types, and for handles that are sub-slices), and constructing a handle from a Vec (with any spare capacity), boxed slice or iterator yields those items in order. Debug output of an iterator names it and shows its remaining length and items.",
 ["inputs"],"all pairs of contents, element types with partial order, all ways of obtaining the handle",
 "Tests compare one pair of slices per trait; values such as NaN, prefixes, empty slices and cross-type comparison are not sampled.",
 [MA+"/cmp.rs",MA+"/hash.rs",MA+"/fmt.rs",MA+"/borrow.rs",MA+"/iter.rs",RM,AM],[("compare_as_slice!, hash_as_slice!, debug_as_*!, borrow_as_slice!, from_iter_via_vec!",MA)],[],["trait method results against core's slice implementations"])
p("C13","Zero sized items and extreme lengths or part counts are handled exactly",
 "For zero sized item types (with or without destructor or alignment), lengths up to usize::MAX and part counts up to the largest power of two, every length and count reported by handles, views and iterators is exact and is had without walking the items, halving is exact at every depth, nothing overflows, and each item counted in is destroyed exactly once. The same holds for part counts far larger than the slice, where surplus parts are empty.",
 ["inputs","histories"],"zero sized types, n in 0..=usize::MAX, k in all powers of two, all split and iteration walks",
 "Tests use n at most 32 and k at most 32 with the unit type only, so overflow, precision and destructor counting for zero sized items are out of reach.",
 [SI,BP,SM,RC,AR],[("PtrOrIdx index arithmetic for zero sized types",SI),("as_slice length by summing the deque",BP)],[],["lengths and destructor counts"])
p("C14","Under any schedule, shared items stay valid and are destroyed exactly once",
 "When threads concurrently clone, derive, split, iterate, downgrade, upgrade, convert and drop handles of the same ArcSlice, every thread always reads the right, live items through every handle it holds, and each item is destroyed exactly once, after the last handle covering it is released and no later than when all threads are done. Buffer and bookkeeping memory is never touched after it is freed, never freed twice, and none remains at the end.",
 ["schedules","histories"],"every program of a few threads over shared and weak handles and every interleaving of their atomic steps",
 "Two tests spawn threads that rarely interleave inside a call; the race to create a child or a guard takes a preemption between two adjacent atomic steps.",
 [AR,SA],[("compare-and-swap installation of child nodes; the loser discards its node",AR+":clone_child"),("installation of the guard",AR+":DataGuard::guard"),("Drop for ArcSliceData",AR)],
 [("left_child,right_child,guard","shared mutable bookkeeping of a node",AR)],["item reads, destructor calls, allocator"],
 "none in /repo: the crate is recompiled against instrumented stand-ins for core and alloc")
p("C15","Under any schedule, exclusive access never overlaps any other access",
 "In no interleaving is a thread inside a mutable borrow from ArcSlice::get_mut, or in possession of an ArcSliceMut, while any thread holds or obtains another handle giving access to any of the same items; of several threads competing for exclusive ownership at most one succeeds. Failed attempts leave every handle usable.",
 ["schedules","histories"],"every program of a few threads mixing derive, drop, downgrade, upgrade, get_mut and into_mut, and every interleaving of their atomic steps",
 "No test calls get_mut or into_mut on an ArcSlice, let alone concurrently; the checks read several counters one after the other and rely on gates and on their order.",
 [AR,GA],[("gates closed while counts are checked",AR+":get_mut,into_mut"),("order: guard outlives data in a handle",AR+":ArcSlice"),("try_unwrap of the data",AR+":into_mut")],
 [("clone_child_gate,downgrade_gate","block creation of handles during the check",GA)],["registry of live handles at the moment access is granted"],
 "none in /repo: the crate is recompiled against instrumented stand-ins for core and alloc")
p("C16","Concurrent derivation converges: afterwards all is as if done in some sequence",
 "Threads that concurrently derive the same sub-slice of an ArcSlice all get handles on one and the same sub-slice, with sharing, destruction, upgrade and exclusivity among those handles exactly as if they had been cloned from one another. Once threads are done, every surviving handle is as capable as after a sequential history: a handle that is alone is granted get_mut and into_mut, a weak handle upgrades if and only if it should, and dropping everything frees everything.",
 ["schedules","histories"],"every program of a few threads and every interleaving, followed by every sequential use of the surviving handles",
 "The parallel tests only look at contents and at the final drop set; a duplicated child node or guard left by a lost race shows only in later uniqueness checks.",
 [AR],[("one child node and one live guard per node, whoever wins the race",AR)],[],["get_mut/into_mut/upgrade after joining"],
 "none in /repo: the crate is recompiled against instrumented stand-ins for core and alloc")
p("C17","Every operation returns: no schedule or history blocks a thread for good",
 "Every call on any handle returns after finitely many of its own steps once other threads stop interfering, in any history and under any schedule, including concurrently with successful or failed get_mut, into_mut and downgrade calls; nothing an earlier call did makes a later call wait forever, and no legal call panics.",
 ["schedules","histories"],"every program of a few threads, every interleaving, every single-threaded history",
 "A gate left closed on one path makes a later derive or downgrade spin forever; the tests never close a gate.",
 [GA,AR],[("Latch reopens the gate when dropped",GA),("wait_till_open spins",GA),("retry loop of DataGuard::guard",AR)],[("is_closed","gate state",GA)],["completion of every call within a step bound under a fair schedule"],
 "none in /repo: the crate is recompiled against instrumented stand-ins for core and alloc")
p("C18","A panicking destructor, clone or source iterator never breaks memory safety",
 "If an item's destructor, an item's clone, or the iterator a slice is collected from panics, the panic propagates, but no item is destroyed twice or read after destruction, memory is not freed early or twice, handles not involved keep working with exactly their items, and afterwards the buffer is still released once all handles are gone. The same holds when a call panics for a documented reason (a bad part count or split position).",
 ["histories","fault_sequences"],"every history with a panic injected at any item's destructor or clone or at any step of a source iterator, both families",
 "No test has a panicking item; the destructors hand items and children over in several steps, each of which may be interrupted.",
 [RC,AR,RM,AM,SI,SA],[("drop_in_place on whole ranges, then field drop order","%s and %s"%(SI,SA)),("children taken out before items are dropped","%s and %s"%(RC,AR))],[],["destructor calls, allocator, surviving handles after catch_unwind"])
p("C19","Handles cross threads exactly when the standard counterparts may",
 "For every item type, ArcSlice, its weak handle and its parts iterator are Send and Sync exactly when the standard Arc of that item type is (items both Send and Sync); exclusive Arc handles, their iterators and parts are Send exactly when the items are Send and Sync exactly when the items are Sync; no Rc-based handle or iterator is ever Send or Sync.",
 ["programs"],"all item types, built by nesting the standard Send/Sync building blocks, times all twelve public handle and iterator types",
 "A wrong bound compiles and passes every test because the tests only use types for which all bounds hold.",
 [AR,AM,RC,RM,SI,SA],[("unsafe impl Send/Sync for ArcSliceData, SliceItems, SliceItemsIter, SliceItemsParts, SliceAlloc","%s, %s, %s"%(AR,SI,SA))],[],["auto-trait probes on generated types"])
p("C20","The compiler rejects programs that let a borrow or item outlive its owner",
 "For programs built from the public API, the borrow checker accepts a use of a handle, of a borrow from it, or of an item borrowing other data exactly when it accepts the same program over an equivalent safe owner type: no borrow from a handle outlives it, get_mut and mutable views borrow exclusively, items may not dangle when a handle is dropped, and all handles stay covariant in their item type.",
 ["programs"],"generated programs over handles, borrows from them, scopes and item types with lifetimes",
 "Tests must compile, so they can never show that a bad program is rejected; only one acceptance example (covariance) exists per type.",
 [RC,AR,RM,AM,SI],[("signatures of Deref, get_mut, as_slice, as_mut_slice","%s, %s, %s, %s"%(RC,AR,RM,AM)),("PhantomData ownership markers and type-erased child pointers","%s, %s, %s"%(RC,AR,SI))],[],["rustc accept/reject, against a reference implementation in safe Rust"])
p("C21","No sequence of safe calls causes undefined behaviour",
 "In any single-threaded history of safe API calls, with any item type (destructors, alignment, zero size, niches), the library performs no undefined behaviour: no out-of-bounds, dangling, misaligned or uninitialised access, no aliasing violation, no invalid value, no invalid deallocation.",
 ["inputs","histories"],"every length, item type and sequence of safe API calls on both families",
 "Undefined behaviour is usually invisible to a native test run; none of the tests runs under an interpreter or sanitizer.",
 [SI,SA,SM,RC,AR,RM,AM,BP],[("all unsafe blocks","src/")],[],["Miri (tree borrows) executing the generated histories"])
p("C22","Accesses by different threads are ordered before exclusive access is granted",
 "Whatever a thread read or wrote through any handle before releasing it happens before every access made under exclusive access (get_mut, into_mut, destruction, deallocation) that is later granted to another thread, and writes made under exclusive access are visible to every thread that later obtains a handle on those items; there is no data race on items or on the library's own bookkeeping in any execution allowed by the memory model.",
 ["schedules","histories"],"every program of a few threads and every execution allowed by the Rust memory model, not only sequentially consistent ones",
 "On x86 a missing acquire or release is invisible to the tests, and no test performs exclusive access after another thread released the slice.",
 [AR,GA],[("Acquire/Release orderings on child and guard pointers",AR),("acquire before handing out the mutable borrow",AR+":get_mut")],[],["happens-before clocks on instrumented runs; Miri's race detector and weak memory emulation"],
 "none in /repo: the crate is recompiled against instrumented stand-ins for core and alloc")
p("C23","Item code run by the library may itself use handles of the same slices",
 "Items' destructors, clones, comparisons and Debug, and the iterator a slice is collected from, may call the library on any other live handle, also of the very slice whose items are being destroyed, cloned or compared (upgrade a weak handle, derive, convert, drop, mutate). Such calls return, a handle obtained this way shows only live items, which then stay alive until it is dropped, exclusive access is never granted or upgraded past, every item is destroyed exactly once, and once the outermost call has returned everything is as if the calls had been made one after the other.",
 ["histories","schedules"],"every history in which item code makes calls of its own, nested to any depth, both families, on one or several threads",
 "No test item has a destructor that touches a handle; destruction hands children and items over in steps, between which such calls see the tree half taken apart.",
 [RC,AR,RM,AM,SI],[("children taken out of a dying node and released before or while its own items are destroyed","%s and %s"%(RC,AR)),("items skipped or replaced while a handle is in use",SI),("no gate may be held while item code runs","%s and %s"%(AR,GA))],[],["calls made from destructors, clones, comparisons and source iterators; state after the outermost call"])
p("C24","Sharing, splitting and converting cost no more for a longer slice",
 "Wrapping an existing buffer, deriving, splitting, cloning, downgrading, upgrading, converting and dropping handles, and creating, advancing and splitting iterators, in any history, allocate no more for a longer slice than for a shorter one and neither copy nor clone items (cloning an exclusive handle and collecting apart); splitting into k parts and taking the next one cost memory at most in proportion to the number of halvings, log2(k), never to k or to the number of items.",
 ["inputs","histories"],"every history of calls, slice length, item type and part count, both families",
 "Tests use slices of a few items, on which copying or eager work goes unnoticed; only the capacity of one deque is asserted.",
 [RC,AR,RM,AM,SI,BP],[("items are shared in place and counted per node, not copied","%s and %s"%(RC,AR)),("parts are split off only when asked for; deque capacity",BP),("parts of exclusive slices are computed on the fly",SI)],[],["allocations made by each call; item clones"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),max(len(x["title"]) for x in P))
