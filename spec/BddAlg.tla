------------------------------- MODULE BddAlg -------------------------------
(***************************************************************************)
(* The manager as it is built: node records with reference counts, a unique *)
(* table, an operation cache, recursive connectives, mark-free sweeping.     *)
(*                                                                         *)
(* A state is a record                                                      *)
(*   node   id -> [v, lo, hi]      nodes in the unique tables               *)
(*   xref   id -> number           reference counts, sinks 0 and 1 included *)
(*   memo   <<f, g, h>> -> r       operation cache; AND, OR, XOR as symbols *)
(*   free   stack of freed ids     their memory is used again first         *)
(*   next   the next fresh id                                               *)
(* Operators return <<state, id>>.                                          *)
(*                                                                         *)
(* Variant selects a faulty version of one step (for checking that the      *)
(* specification notices), "none" is the algorithm of the code.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Variant
Bot == 0
Top == 1
ANDS == -1
ORS  == -2
XORS == IF Variant = "xor-shares-or-key" THEN -2 ELSE -3
IsSink(x) == x \in {Bot, Top}
EmptyMap == [x \in {} |-> x]

Fresh == [node |-> EmptyMap, xref |-> (Bot :> 1) @@ (Top :> 1), memo |-> EmptyMap, free |-> <<>>, next |-> 2]

\* the node for v, lo, hi
Unique(st, v, lo, hi) ==
   IF lo = hi THEN <<st, lo>>
   ELSE LET old == { x \in DOMAIN st.node : st.node[x] = [v |-> v, lo |-> lo, hi |-> hi] }
        IN IF old # {} THEN <<st, CHOOSE x \in old : TRUE>>
           ELSE LET re == st.free # <<>>
                    id == IF re THEN Head(st.free) ELSE st.next
                    x1 == [st.xref EXCEPT ![lo] = @ + 1]
                    x2 == [x1 EXCEPT ![hi] = IF Variant = "one-reference-only" THEN @ ELSE @ + 1]
                IN <<[st EXCEPT !.node = (id :> [v |-> v, lo |-> lo, hi |-> hi]) @@ @,
                                !.xref = (id :> 0) @@ x2,
                                !.free = IF re THEN Tail(@) ELSE @,
                                !.next = IF re THEN @ ELSE @ + 1], id>>

Var(st, x) == st.node[x].v
Lo(st, x) == st.node[x].lo
Hi(st, x) == st.node[x].hi
Min(a, b) == IF a < b THEN a ELSE b
Put(st, f, g, h, r) == [st EXCEPT !.memo = (<<f, g, h>> :> r) @@ @]
Has(st, f, g, h) == <<f, g, h>> \in DOMAIN st.memo
Get(st, f, g, h) == st.memo[<<f, g, h>>]

RECURSIVE Not(_, _)
Not(st, x) ==
   IF x = Bot THEN <<st, Top>> ELSE IF x = Top THEN <<st, Bot>>
   ELSE LET a == Not(st, Lo(st, x)) b == Not(a[1], Hi(st, x)) IN Unique(b[1], Var(st, x), a[2], b[2])

RECURSIVE And(_, _, _), Or(_, _, _), Xor(_, _, _), Ite(_, _, _, _)
\* cofactors with respect to the smaller variable
Side(st, x, v, hi) == IF ~IsSink(x) /\ Var(st, x) = v THEN (IF hi THEN Hi(st, x) ELSE Lo(st, x)) ELSE x

And(st, f, g) ==
   IF f = g THEN <<st, f>>
   ELSE IF f > g THEN And(st, g, f)
   ELSE IF f = Bot \/ g = Bot THEN <<st, Bot>>
   ELSE IF f = Top THEN <<st, g>> ELSE IF g = Top THEN <<st, f>>
   ELSE IF Has(st, f, g, ANDS) THEN <<st, Get(st, f, g, ANDS)>>
   ELSE LET v == Min(Var(st, f), Var(st, g))
            a == And(st, Side(st, f, v, FALSE), Side(st, g, v, FALSE))
            b == And(a[1], Side(st, f, v, TRUE), Side(st, g, v, TRUE))
            r == Unique(b[1], v, a[2], b[2])
        IN <<Put(r[1], f, g, ANDS, r[2]), r[2]>>
Or(st, f, g) ==
   IF f = g THEN <<st, f>>
   ELSE IF f > g THEN Or(st, g, f)
   ELSE IF f = Top \/ g = Top THEN <<st, Top>>
   ELSE IF f = Bot THEN <<st, g>> ELSE IF g = Bot THEN <<st, f>>
   ELSE IF Has(st, f, g, ORS) THEN <<st, Get(st, f, g, ORS)>>
   ELSE LET v == Min(Var(st, f), Var(st, g))
            a == Or(st, Side(st, f, v, FALSE), Side(st, g, v, FALSE))
            b == Or(a[1], Side(st, f, v, TRUE), Side(st, g, v, TRUE))
            r == Unique(b[1], v, a[2], b[2])
        IN <<Put(r[1], f, g, ORS, r[2]), r[2]>>
Xor(st, f, g) ==
   IF f = g THEN <<st, Bot>>
   ELSE IF f > g THEN Xor(st, g, f)
   ELSE IF f = Bot THEN <<st, g>> ELSE IF g = Bot THEN <<st, f>>
   ELSE IF f = Top THEN Not(st, g) ELSE IF g = Top THEN Not(st, f)
   ELSE IF Has(st, f, g, XORS) THEN <<st, Get(st, f, g, XORS)>>
   ELSE LET v == IF Variant = "xor-larger-variable" THEN (IF Var(st, f) < Var(st, g) THEN Var(st, g) ELSE Var(st, f)) ELSE Min(Var(st, f), Var(st, g))
            a == Xor(st, Side(st, f, v, FALSE), Side(st, g, v, FALSE))
            b == Xor(a[1], Side(st, f, v, TRUE), Side(st, g, v, TRUE))
            r == Unique(b[1], v, a[2], b[2])
        IN <<Put(r[1], f, g, XORS, r[2]), r[2]>>
Ite(st, f, g, h) ==
   IF f = Top THEN <<st, g>> ELSE IF f = Bot THEN <<st, h>>
   ELSE IF g = f \/ g = Top THEN Or(st, f, h)
   ELSE IF h = f \/ h = Bot THEN And(st, f, g)
   ELSE IF g = h THEN <<st, g>>
   ELSE IF g = Bot /\ h = Top THEN Not(st, f)
   ELSE IF Has(st, f, g, h) THEN <<st, Get(st, f, g, h)>>
   ELSE LET vs == { Var(st, x) : x \in { y \in {f, g, h} : ~IsSink(y) } }
            v == CHOOSE x \in vs : \A y \in vs : x <= y
            a == Ite(st, Side(st, f, v, FALSE), Side(st, g, v, FALSE), Side(st, h, v, FALSE))
            b == Ite(a[1], Side(st, f, v, TRUE), Side(st, g, v, TRUE), Side(st, h, v, TRUE))
            r == Unique(b[1], v, a[2], b[2])
        IN <<Put(r[1], f, g, h, r[2]), r[2]>>

RECURSIVE Below(_, _, _)
Below(st, todo, seen) ==
   IF todo = {} THEN seen
   ELSE LET n == { x \in UNION { {Lo(st, y), Hi(st, y)} : y \in todo } : ~IsSink(x) }
        IN Below(st, n \ (seen \cup todo), seen \cup todo)
NodesOf(st, x) == IF IsSink(x) THEN {} ELSE Below(st, {x}, {})

\* conjunction with node limit: -1 is the null reference
NULL == -1
Limited(st, r, lim) == IF Cardinality(NodesOf(st, r)) >= lim THEN <<st, NULL>> ELSE <<st, r>>
RECURSIVE AndLim(_, _, _, _)
AndLim(st, f, g, lim) ==
   IF f = g THEN Limited(st, f, lim)
   ELSE IF f > g THEN AndLim(st, g, f, lim)
   ELSE IF f = Bot \/ g = Bot THEN Limited(st, Bot, lim)
   ELSE IF f = Top THEN (IF Variant = "limit-skips-sinks" THEN <<st, g>> ELSE Limited(st, g, lim))
   ELSE IF g = Top THEN Limited(st, f, lim)
   ELSE IF Has(st, f, g, ANDS) THEN Limited(st, Get(st, f, g, ANDS), lim)
   ELSE LET v == Min(Var(st, f), Var(st, g))
            a == AndLim(st, Side(st, f, v, FALSE), Side(st, g, v, FALSE), lim)
        IN IF a[2] = NULL THEN a
           ELSE LET b == AndLim(a[1], Side(st, f, v, TRUE), Side(st, g, v, TRUE), lim)
                IN IF b[2] = NULL THEN b
                   ELSE LET r == Unique(b[1], v, a[2], b[2])
                        IN Limited(Put(r[1], f, g, ANDS, r[2]), r[2], lim)

\* rename variables: bottom up, each node by an if-then-else on its new variable
RECURSIVE Renaming(_, _, _, _)
Renaming(st, todo, m, map) ==   \* todo: nodes, children first
   IF todo = <<>> THEN <<st, m>>
   ELSE LET x == Head(todo)
            p == Unique(st, map[Var(st, x) + 1], Bot, Top)
            r == IF Variant = "rename-keeps-order" THEN Unique(st, map[Var(st, x) + 1], m[Lo(st, x)], m[Hi(st, x)])
                 ELSE Ite(p[1], p[2], m[Hi(st, x)], m[Lo(st, x)])
        IN Renaming(r[1], Tail(todo), (x :> r[2]) @@ m, map)
RECURSIVE ByVar(_, _, _)
ByVar(st, S, v) == IF v < 0 THEN <<>>
   ELSE LET RECURSIVE Lin(_)
            Lin(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o Lin(T \ {x})
        IN Lin({ x \in S : Var(st, x) = v }) \o ByVar(st, S, v - 1)
Rename(st, x, map) ==
   LET r == Renaming(st, ByVar(st, NodesOf(st, x), Len(map) - 1), (Bot :> Bot) @@ (Top :> Top), map)
   IN <<r[1], r[2][x]>>

-----------------------------------------------------------------------------
(* Garbage collection: variables in increasing order; a node without references *)
(* is freed and releases its children; then the cache forgets what is dead.     *)
RECURSIVE FreeAll(_, _)
FreeAll(st, S) ==
   IF S = {} THEN st
   ELSE LET x == CHOOSE y \in S : TRUE
            x1 == [st.xref EXCEPT ![Lo(st, x)] = @ - 1]
            x2 == [x1 EXCEPT ![Hi(st, x)] = @ - 1]
        IN FreeAll([st EXCEPT !.node = [y \in DOMAIN st.node \ {x} |-> st.node[y]], !.xref = x2, !.free = <<x>> \o @], S \ {x})
RECURSIVE SweepVars(_, _, _)
SweepVars(st, vs, n) ==
   IF vs = <<>> THEN st
   ELSE SweepVars(FreeAll(st, { x \in DOMAIN st.node : Var(st, x) = Head(vs) /\ st.xref[x] <= 0 }), Tail(vs), n)
Dead(st, x) == st.xref[x] <= 0
Forgotten(st, k) ==
   \/ Dead(st, st.memo[k])
   \/ Variant # "purge-by-result-only" /\ (Dead(st, k[1]) \/ Dead(st, k[2]) \/ (k[3] >= 0 /\ Variant # "purge-ignores-else" /\ Dead(st, k[3])))
PurgeMemo(st) ==
   IF Variant = "no-purge" THEN st
   ELSE [st EXCEPT !.memo = [k \in { q \in DOMAIN st.memo : ~Forgotten(st, q) } |-> st.memo[k]]]
Collect(st, n) ==
   LET order == IF Variant = "sweep-bottom-up" THEN [i \in 1..n |-> n - i] ELSE [i \in 1..n |-> i - 1]
   IN IF Variant = "purge-before-sweep" THEN SweepVars(PurgeMemo(st), order, n)
      ELSE PurgeMemo(SweepVars(st, order, n))
Hold(st, x) == [st EXCEPT !.xref[x] = @ + 1]
Drop(st, x) == [st EXCEPT !.xref[x] = @ - 1]
=============================================================================
