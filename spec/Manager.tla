------------------------------- MODULE Manager -------------------------------
(***************************************************************************)
(* The BDD manager at the level of its public interface.                    *)
(*                                                                         *)
(*   mg[m]  manager m: nv    number of variables                            *)
(*                     cnt   the node count it reports                      *)
(*                     node  the nodes known to exist, without the sinks:   *)
(*                           id -> [v, lo, hi, f], f the function it denotes*)
(*                     sx    reference count a sink has before any use      *)
(*   hs[s]  handle s: [m, id]                                               *)
(*                                                                         *)
(* Ids 0 and 1 are the sinks of every manager.  A result may come with      *)
(* intermediate nodes no handle leads to; these are only counted            *)
(* (cnt >= 2 + known).  They are gone after the next collection.            *)
(***************************************************************************)
EXTENDS BoolFun, TLC
LOCAL INSTANCE SequencesExt

VARIABLES u, mg, hs
mvars == <<u, mg, hs>>

BOT == 0
TOP == 1
Sinks == {BOT, TOP}

FunOf(nd, id) == IF id = BOT THEN FFalse(u) ELSE IF id = TOP THEN FTrue(u) ELSE nd[id].f

EmptyFn == [x \in {} |-> x]
Minus(fn, S) == [x \in (DOMAIN fn) \ S |-> fn[x]]

\* new: sequence of <<id, v, lo, hi, f>>
AddNodes(nd, new) ==
   IF new = <<>> THEN nd
   ELSE FoldLeft(LAMBDA acc, n : (n[1] :> [v |-> n[2], lo |-> n[3], hi |-> n[4], f |-> n[5]]) @@ acc, EmptyFn, new) @@ nd

RECURSIVE ReachFrom(_, _, _)
ReachFrom(nd, todo, seen) ==
   IF todo = {} THEN seen
   ELSE LET next == UNION { {nd[x].lo, nd[x].hi} : x \in todo }
        IN ReachFrom(nd, (next \ Sinks) \ (seen \cup todo), seen \cup todo)
\* the non-sink nodes reachable from the ids in S
Reach(nd, S) == ReachFrom(nd, S \ Sinks, {})

HandlesOf(m)  == { s \in DOMAIN hs : hs[s].m = m }
Roots(m)      == { hs[s].id : s \in HandlesOf(m) }
Live(m)       == Reach(mg[m].node, Roots(m))
Known(m)      == DOMAIN mg[m].node
Exact(m)      == mg[m].cnt = 2 + Cardinality(Known(m))

\* references to id that the specification knows about
Refs(m, id) ==
     Cardinality({ s \in HandlesOf(m) : hs[s].id = id })
   + Cardinality({ x \in Known(m) : mg[m].node[x].lo = id })
   + Cardinality({ x \in Known(m) : mg[m].node[x].hi = id })
   + (IF id \in Sinks THEN mg[m].sx[id+1] ELSE 0)

-----------------------------------------------------------------------------
(* Actions *)

NewMgr(m, nn, sx) ==
   /\ m \notin DOMAIN mg
   /\ mg' = (m :> [nv |-> 0, cnt |-> nn, node |-> EmptyFn, sx |-> sx]) @@ mg
   /\ UNCHANGED <<u, hs>>

DelMgr(m) ==
   /\ m \in DOMAIN mg
   /\ HandlesOf(m) = {}
   /\ mg' = Minus(mg, {m})
   /\ UNCHANGED <<u, hs>>

\* an operation of m created the nodes new (and nn nodes exist now), there are nv variables,
\* and handle d denotes r (d = -1: the result was dropped at once)
Result(m, d, r, new, nn, nv) ==
   /\ m \in DOMAIN mg
   /\ mg' = [mg EXCEPT ![m].node = AddNodes(@, new), ![m].cnt = nn, ![m].nv = nv]
   /\ hs' = IF d = -1 THEN hs ELSE (d :> [m |-> m, id |-> r]) @@ hs
   /\ UNCHANGED u

Copy(s, d) ==
   /\ s \in DOMAIN hs
   /\ hs' = (d :> hs[s]) @@ hs
   /\ UNCHANGED <<u, mg>>

Move(s, d) ==
   /\ s \in DOMAIN hs
   /\ hs' = IF s = d THEN hs ELSE (d :> hs[s]) @@ Minus(hs, {s})
   /\ UNCHANGED <<u, mg>>

Drop(s) ==
   /\ s \in DOMAIN hs
   /\ hs' = Minus(hs, {s})
   /\ UNCHANGED <<u, mg>>

\* garbage collection keeps exactly the nodes reachable from handles
Collect(m) ==
   /\ m \in DOMAIN mg
   /\ LET live == Live(m)
      IN mg' = [mg EXCEPT ![m].node = Minus(@, (DOMAIN @) \ live), ![m].cnt = 2 + Cardinality(live)]
   /\ UNCHANGED <<u, hs>>

-----------------------------------------------------------------------------
(* Meaning of the operations: fs operand functions, b the numeric argument *)
Sem(op, fs, b) ==
   LET Eq(c) == c = b   Ge(c) == c >= b   Le(c) == c <= b   One(c) == c = 1
       Ge1(c) == c >= 1   Le1(c) == c <= 1   Zero(c) == c = 0
   IN CASE op = "not"  -> FNot(u, fs[1])
        [] op = "and"  -> AndAll(u, fs)
        [] op = "or"   -> OrAll(u, fs)
        [] op = "xor"  -> XorAll(u, fs)
        [] op = "ite"  -> FIte(u, fs[1], fs[2], fs[3])
        [] op = "bot"  -> FFalse(u)
        [] op = "top"  -> FTrue(u)
        [] op = "proj" -> VarFun(u, b)
        [] op = "nproj" -> FNot(u, VarFun(u, b))
        [] op = "find" -> Node(u, b, fs[1], fs[2])
        [] op = "none" -> Counting(u, fs, Zero)     \* all_false
        [] op = "one"  -> Counting(u, fs, One)      \* simplex
        [] op = "amo"  -> Counting(u, fs, Le1)      \* at_most_one
        [] op = "alo"  -> Counting(u, fs, Ge1)      \* at_least_one
        [] op = "atleast" -> Counting(u, fs, Ge)
        [] op = "atmost"  -> Counting(u, fs, Le)
        [] op = "card"    -> Counting(u, fs, Eq)
        [] op = "copy" -> fs[1]

-----------------------------------------------------------------------------
(* Properties of states *)
ChildrenKnown(m) ==
   \A x \in Known(m) : \A c \in {mg[m].node[x].lo, mg[m].node[x].hi} : c \in Sinks \cup Known(m)
HandlesKnown(m) == Roots(m) \subseteq Sinks \cup Known(m)
Ordered(m) ==
   \A x \in Known(m) : LET n == mg[m].node[x] IN
      /\ n.v < mg[m].nv
      /\ \A c \in {n.lo, n.hi} \ Sinks : mg[m].node[c].v > n.v
Reduced(m) == \A x \in Known(m) : mg[m].node[x].lo # mg[m].node[x].hi
Unique(m) ==
   \A x, y \in Known(m) :
      (/\ mg[m].node[x].v = mg[m].node[y].v
       /\ mg[m].node[x].lo = mg[m].node[y].lo
       /\ mg[m].node[x].hi = mg[m].node[y].hi) => x = y
\* equal functions are the same node (exact universes)
Canonical(m) ==
   \A x, y \in Known(m) \cup Sinks : FunOf(mg[m].node, x) = FunOf(mg[m].node, y) => x = y
CountBounds(m) == mg[m].cnt >= 2 + Cardinality(Known(m))
=============================================================================
