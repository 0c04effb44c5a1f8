#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are maintained here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))

MGR, MGRH = "src/bdd_mgr.cpp", "include/bdd_mgr.h"
COL, COLH = "src/bdd_collection.cpp", "include/bdd_collection.h"

prop("C01", "Boolean connectives compute exactly the connective of their operands",
 "AND, OR, XOR, NOT and if-then-else, in every form offered (two operands, argument list, iterator range, overloaded operators), "
 "return a BDD that evaluates, under every assignment, to that connective of the operands' values. "
 "This holds for all operands of one manager, including constants, equal operands and operands sharing or skipping variables, and whatever operations were executed before.",
 ["inputs", "histories"], "all tuples of Boolean functions as operands, after every history of earlier operations on the same manager",
 "The tests evaluate a few formulas over 3 variables in fresh managers; XOR is never called, ITE only on three plain variables; a wrong result needs a particular operand shape or a particular earlier operation (shared result cache).",
 [MGR, MGRH, "src/bdd_memo_cache.cpp", "include/bdd_memo_cache.h"],
 [("and_rec/or_rec/xor_rec/ite_rec/negate recursion and terminal cases", MGR), ("n-ary forms and operators", MGRH), ("result cache keyed by operation and operands", "src/bdd_memo_cache.cpp")],
 ["evaluate on every assignment of the returned BDD"])

prop("C02", "Equal functions are the same node; every BDD is ordered and reduced",
 "Within one manager two handles compare equal if and only if they denote the same Boolean function, however and whenever the two were built. "
 "Every BDD tests variables in strictly increasing order along each path, has no node with two equal branches and no two nodes with the same variable and branches, so its node count is the minimum for its function.",
 ["inputs", "histories", "configurations"], "all functions, all ways and histories of building them, all values of the randomly drawn node hash keys",
 "Tests compare a handful of pairs built in two ways; canonicity must hold for every construction order, table size, cache state and random hash seed.",
 ["src/bdd_var.cpp", MGR, MGRH], [("hash-consing through the per-variable unique table", "src/bdd_var.cpp unique_find/unique_table_lookup"), ("branching on the smallest variable", MGR)],
 ["handle comparison, low/high/variable walk of every returned BDD"],
 [("unique table", "one node per (variable, low, high)", "var_struct::base")])

prop("C03", "Counting constraints accept exactly the right number of true inputs",
 "all_false, simplex, at_most_one, at_least_one, at_least(b), at_most(b) and cardinality(b) over a non-empty list of BDDs return the BDD that is true exactly when respectively none, exactly one, at most one, at least one, at least b, at most b, exactly b of the listed BDDs are true. "
 "This holds for every list length and every bound b, including 0 and bounds above the list length, and also when listed BDDs are not plain variables or repeat.",
 ["inputs"], "all list lengths, all bounds, all lists of BDDs",
 "The tests cover 2 to 5 plain variables with bound 1 or 2 only; the divide-and-conquer recursions split differently for every (length, bound) pair.",
 [MGRH], [("divide-and-conquer templates all_false .. cardinality", MGRH)], ["evaluate on every assignment; node count"])

prop("C04", "Garbage collection never disturbs live BDDs or later results",
 "Collecting garbage, at any point and any number of times, leaves every BDD that is still referenced identical: same handle identity, same nodes, same value under every assignment. "
 "Every operation afterwards returns the same function it would have returned without the collection, and building an existing function again yields the existing node.",
 ["histories", "configurations"], "all histories interleaving constructions, handle drops, collections and further constructions, for all hash keys",
 "Only one test collects garbage, it checks nothing but a smaller node count, and it is excluded as flaky; a stale cached result or a lost table entry only shows up in operations after the collection.",
 ["src/bdd_var.cpp", MGR, "src/bdd_memo_cache.cpp", "src/bdd_node_cache.cpp"],
 [("remove_dead_nodes: sweep and rehash", "src/bdd_var.cpp"), ("memo purge", "src/bdd_memo_cache.cpp purge/can_be_purged"), ("collect_garbage", MGR)],
 ["evaluation, identity and structure of all live handles after collection; results of later operations"])

prop("C05", "Garbage collection reclaims exactly the unreferenced nodes",
 "Right after a collection the manager's node count equals the two sinks plus the number of distinct nodes reachable from live handles, and in between it never counts fewer and only grows by newly created nodes. "
 "Repeating any create, drop, collect cycle therefore returns to the same count, and once every handle is gone a collection leaves only the sinks.",
 ["histories", "configurations"], "all histories of constructions, drops and collections, all hash keys",
 "The single (excluded) test only asks that the count decreased; leaks or double frees depend on which nodes share table neighbourhoods.",
 ["src/bdd_var.cpp", MGR, "src/bdd_node_cache.cpp", "src/bdd_node.cpp"],
 [("dead-node sweep in variable order", "src/bdd_var.cpp remove_dead_nodes"), ("node count", "src/bdd_node_cache.cpp")],
 ["manager nr_nodes() after every operation and after collection"])

prop("C06", "Reference counts equal live handles plus parent nodes",
 "At any quiescent point the reference count reported for a node equals the number of handles currently denoting it plus the number of branches of existing nodes that lead to it. "
 "Copying, moving, assigning (including self-assignment), returning and destroying handles, running any operation, and reading children or node lists change it by exactly the handles gained or lost.",
 ["histories"], "all histories of handle copies, moves, assignments, drops and operations",
 "Tests check a count of 1 on a few fresh results; a leaked or lost count only matters at a later collection or at teardown.",
 ["src/bdd_node.cpp", "include/bdd_node.h", "src/bdd_node_cache.cpp"],
 [("node_ref constructors, destructor, assignment", "src/bdd_node.cpp"), ("child counts in init_new_node / free_node", "src/bdd_node.cpp, src/bdd_node_cache.cpp")],
 ["reference_count() of live handles"])

prop("C07", "Structural queries describe the BDD exactly and leave it unchanged",
 "For every BDD the evaluation, node count, support variables (sorted, no duplicates), postorder list (each node once, children first), breadth-first list (each node once, by non-decreasing distance from the root), single-solution test (true iff exactly one assignment of the support satisfies it) and printed graph all describe the same diagram. "
 "Queries can be repeated and interleaved in any order with the same answers, also on constants and on BDDs sharing nodes.",
 ["inputs", "histories"], "all BDDs, all orders and repetitions of queries and interleaved operations",
 "Tests query single simplex diagrams once; the queries mark shared nodes, so a leftover mark only corrupts a later query on another diagram.",
 ["src/bdd_node.cpp", "include/bdd_node.h"],
 [("mark/unmark traversals", "src/bdd_node.cpp"), ("print", "include/bdd_node.h"), ("exactly_one_solution", "src/bdd_node.cpp")],
 ["evaluate, nr_nodes, variables, nodes_postorder, nodes_bfs, exactly_one_solution, print"])

prop("C08", "Rebasing a BDD substitutes its variables and nothing else",
 "Rebasing a BDD by a variable map (hash map or vector form) returns the BDD of the same function with each variable replaced by its image, adding variables to the manager when an image is beyond the existing ones; two variables may have the same image. "
 "The original BDD is unchanged, both forms agree, constants map to themselves, and for a one-to-one map rebasing by the inverse map returns the original BDD, also when the map changes the relative order of variables.",
 ["inputs", "histories"], "all functions and all variable maps covering the support",
 "One test shifts one simplex by three positions; identity, sparse, order-changing and variable-adding maps and constants are not reached.",
 [MGRH], [("rebase templates", MGRH)], ["evaluate of result vs original under permuted assignment; nr_variables"])

prop("C09", "Node-limited conjunction returns the conjunction iff it is small enough",
 "The conjunction with a node limit returns the ordinary conjunction together with its exact node count if that count is below the limit, and otherwise the null reference with the maximum count. "
 "Either outcome leaves all existing BDDs and later results unaffected, and the outcome does not depend on earlier operations.",
 ["inputs", "histories"], "all operand pairs, all limits, all earlier histories",
 "The test tries two limits on one pair of disjoint simplices in a fresh manager.",
 [MGR], [("and_rec_limited recursion", MGR)], ["returned pair; canonicity with and_rec"])

prop("C10", "Import into and export from a collection preserve the function",
 "Importing a BDD into a collection yields a stored BDD that evaluates like the original under every assignment, with one entry per node plus the two sinks. "
 "Exporting a stored BDD to the same or another manager, or adding it through that manager, yields the canonical BDD of the same function: back in the original manager it is the original handle. This holds for constants, for stored BDDs whose variables were renamed to another order, for any number of stored BDDs and any collection size.",
 ["inputs", "histories"], "all functions, all collection contents and sizes, any target manager",
 "Tests round-trip single simplices in small collections, mostly on the all-zero assignment.",
 [COL, COLH, MGR], [("add_bdd / export_bdd", COL), ("bdd_mgr::add_bdd", MGR)], ["collection evaluate; handle equality after export"])

prop("C11", "Conjunction of stored BDDs is correct for any number of operands",
 "The conjunction of any two stored BDDs, or of a range of 1 to 49 of them, evaluates under every assignment to the AND of the operands, including contradictory or repeated operands and disjoint or interleaved supports. "
 "The result is appended as a new stored BDD (a range of one names the existing one) and is the reduced BDD of that function if the operands test variables in increasing order, as all do that were not renamed to another order; no existing BDD changes.",
 ["inputs", "histories"], "all operand lists of length 1..49 over all functions, in all collection states",
 "Tests AND two or three simplices and look at the all-zero assignment only; each operand count is a separate instantiation.",
 [COL, COLH], [("bdd_and, bdd_and_impl (2-way and N-way)", COL), ("dispatch on operand count", COLH)], ["collection evaluate, sizes, export"])

prop("C12", "A node limit on stored conjunctions is exact and leaves no trace",
 "With a node limit the conjunction of stored BDDs succeeds exactly when the result, sinks included, has at most that many nodes, and otherwise reports failure. "
 "A failed attempt leaves the collection as it was: same number of BDDs, same contents, and later operations behave as if it never happened.",
 ["inputs", "histories"], "all operand lists, all limits above 2, all later operations",
 "The test tries one pair at its exact size and one below.",
 [COL, COLH], [("stack size bound in bdd_and_impl, cleanup in bdd_and", COL)], ["return value, nr_bdds, contents"])

prop("C13", "Removing or rebasing stored BDDs affects only the ones named",
 "Removing a sorted set of stored BDDs keeps the others in order, renumbered consecutively, each with the same function, size and structure as before. "
 "Rebasing a stored BDD (map or vector form) renames exactly its own variables and leaves all other stored BDDs as they were.",
 ["inputs", "histories"], "all collections, all subsets to remove, all injective variable maps, any sequence of them",
 "One test removes two of four BDDs and evaluates one assignment; collection rebase is never called by a test.",
 [COLH], [("remove: compaction and offset shift", COLH), ("rebase templates", COLH)], ["evaluation of all stored BDDs before and after"])

prop("C14", "Disjunction with literals is exact for stored BDDs",
 "OR-ing a stored BDD with a set of positive and a set of negative variables yields a new stored BDD, reduced if the operand tests variables in increasing order, that is true exactly when the operand is true, a positive variable is true, or a negative variable is false. "
 "This includes variables the operand does not test on some or all paths and results that become constant, and leaves the operand and all other stored BDDs unchanged.",
 ["inputs"], "all functions and all pairs of variable sets",
 "The single test uses one simplex with its two topmost variables.",
 [COLH, COL], [("bdd_or_var", COLH), ("reduction", COL)], ["evaluation and size of the new stored BDD"])

prop("C15", "Stored BDDs are well-formed and all views of them agree",
 "Every stored BDD has its root first, both sinks last, every branch leading to a later node of the same BDD, no redundant, duplicate or unreachable node. "
 "Navigation (root, children, reverse order walk, sinks, indexing, equality), per-variable counts, variable list, evaluation, and Graphviz export all describe that same diagram, whichever operation produced it.",
 ["inputs", "histories"], "all stored BDDs produced by any sequence of collection operations",
 "Navigation wrappers, sinks, per-variable counts are not called by tests, and Graphviz output is never read.",
 [COL, COLH], [("bdd_collection_entry / bdd_collection_node", COL), ("is_bdd", COL), ("export_graphviz", COLH)], ["entry and node API, graphviz text"])

prop("C16", "A BDD built node by node in a collection is the BDD described",
 "Opening a new stored BDD, adding nodes, setting each branch to a node or to a sink in any order, and closing it yields a stored BDD with exactly those nodes and branches, which evaluates accordingly and can be used by every other collection operation. "
 "The last setting of a branch counts, and setting a branch of a BDD that is already closed changes that branch and nothing else. "
 "Closing with a branch left unset is reported as an error.",
 ["inputs", "histories"], "all diagrams, all orders of setting branches, in empty and non-empty collections",
 "No test uses the construction interface.",
 [COL, COLH], [("new_bdd / add_bdd_node / set_*_arc / set_*_to_*_terminal / close_bdd", COL)], ["evaluation, structure and further use of the built BDD"])

prop("C17", "Node lookup stays exact as tables grow, collide and shrink",
 "For every variable, asking for the node with given low and high branches returns the same node whenever it exists and creates exactly one node otherwise, from one node up to hundreds of thousands per variable. "
 "This holds for every assignment of hash keys, hence across collisions, wrap-around, table growth, removal of dead nodes and table shrinking; a variable asked for equal branches returns that branch.",
 ["configurations", "histories", "inputs"], "all hash keys, all insertion/removal histories, table sizes 64 .. 2^20",
 "Hash keys are drawn at random, tests create at most a few thousand nodes per variable, and collections that remove entries are excluded from the test run.",
 ["src/bdd_var.cpp", "include/bdd_var.h"], [("open addressing with linear probing, doubling, sweep", "src/bdd_var.cpp")],
 ["addresses returned by unique_find / lookup, free slot and node counts"],
 [("table slots", "node or empty", "var_struct::base"), ("free", "number of empty slots", "var_struct::free")],
 "hash keys must be controllable to reach chosen collision patterns (guarded hook in node initialisation)")

prop("C18", "The operation cache only answers with the result stored for that key",
 "Looking up a triple of operands in the operation cache returns nothing or the result most recently stored for exactly that triple, never another operation's, another operand order's or an overwritten result, while the cache grows and entries displace each other. "
 "After a purge no entry whose operand or result node is dead can be returned.",
 ["histories", "configurations"], "all sequences of stores, lookups and purges, all hash keys",
 "No test touches the cache directly; collisions and growth are random, purge is only reached by the excluded test.",
 ["src/bdd_memo_cache.cpp", "include/bdd_memo_cache.h"], [("direct-mapped table, doubling, purge", "src/bdd_memo_cache.cpp")],
 ["cache_lookup results"], [("memos", "direct-mapped entries", "memo_cache::memos")])

prop("C19", "The node store never hands out a node that is in use",
 "Reserving a node returns one that is neither a sink nor reserved and not yet freed, and nodes keep their address and contents until freed, across any number of page extensions. "
 "The reported node count is always the sinks plus reserved minus freed nodes, freed nodes are reused before new memory is taken, and freeing a node releases exactly one reference of each of its children.",
 ["histories"], "all sequences of reserve and free",
 "The test reserves everything, then frees everything, once.",
 ["src/bdd_node_cache.cpp", "include/bdd_node_cache.h"], [("free list and bump pointer over pages", "src/bdd_node_cache.cpp")], ["addresses returned, nr_nodes, child counts"])

prop("C20", "Table pages are exclusive, empty and large enough",
 "A page reserved from a table page cache is completely empty, overlaps no other page currently reserved, and stays intact until freed, over any sequence of reserve and free and for every page size. "
 "Freed pages are reused before new memory is allocated and the reported page total counts whole allocation blocks.",
 ["histories"], "all sequences of reserve and free for all page sizes",
 "The test reserves 100 pages then frees them and never writes to or re-reserves one.",
 ["include/bdd_var.h"], [("page_avail stack, increase_cache", "include/bdd_var.h")], ["page addresses and contents, nr_pages"])

prop("C21", "Variables are numbered consecutively and can be added at any time",
 "Adding a variable returns the next consecutive number; requesting a projection or rebasing beyond the last variable adds exactly the missing ones. "
 "A projection is true iff its variable is true and its negative iff it is false, and adding variables, in any number and at any time, leaves all existing BDDs and handles as they are.",
 ["histories", "inputs"], "all interleavings of adding variables with other operations, up to large variable numbers",
 "The test adds 10000 variables to an otherwise unused manager.",
 [MGR, "src/bdd_var.cpp"], [("add_variable / projection / neg_projection", MGR), ("relocation of variable tables", "src/bdd_var.cpp move constructor")], ["nr_variables, evaluation of projections, live handles afterwards"])

prop("C22", "Managers and collections are independent and tear down cleanly",
 "Any number of managers and collections can live and be destroyed in any order in one process without operations on one changing BDDs, counts or results of another. "
 "Operators and handles always act on the manager that owns their operands, and destroying a manager whose handles are gone succeeds whatever was built in it.",
 ["histories"], "all interleavings of operations on several managers and collections, all destruction orders",
 "Every test uses one manager that lives until exit.",
 [MGR, "src/bdd_node.cpp", "src/bdd_var.cpp"], [("manager back-pointer in the sinks, find_bdd_mgr", "src/bdd_node.cpp"), ("destructor order", MGR)], ["results of operators and counts per manager; completion of destruction"])

prop("C23", "Recorded node depths equal the longest path to a sink",
 "Depth bookkeeping assigns 0 to the sinks and to every other node one more than the larger depth of its two children, for nodes added in any children-first order. "
 "The depth returned for a BDD's root is the number of variables on its longest path.",
 ["inputs", "histories"], "all BDDs and all children-first insertion orders",
 "No test uses the depth bookkeeping.",
 ["src/bdd_node_depth.cpp", "include/bdd_node_depth.h"], [("add_node / add_botsink / add_topsink", "src/bdd_node_depth.cpp")], ["returned depths"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
