------------------------------ MODULE NodeDepth ------------------------------
(* Depths: nodes are numbered in the order they are added, the sinks are 1 and 2. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES kids, dep      \* node -> <<lo, hi>> for nodes above the sinks; node -> recorded depth
dvars == <<kids, dep>>
Max(a, b) == IF a > b THEN a ELSE b
DInit == kids = <<>> /\ dep = <<0, 0>>
Want(lo, hi) == 1 + Max(dep[lo], dep[hi])
Add(lo, hi) == kids' = Append(kids, <<lo, hi>>) /\ dep' = Append(dep, Want(lo, hi))
\* m nodes, one on top of the other and all above node lo, whose other child is a sink
Chain(lo, sink, m) ==
   /\ m >= 1 /\ sink \in {1, 2}
   /\ kids' = kids \o [i \in 1..m |-> <<IF i = 1 THEN lo ELSE Len(dep) + i - 1, sink>>]
   /\ dep' = dep \o [i \in 1..m |-> dep[lo] + i]
\* the number of nodes on the longest path to a sink, counted path by path
Longest(n) ==
   LET RECURSIVE go(_)
       go(S) == IF S = {} THEN 0       \* nodes at the end of the paths of a given length
                ELSE LET T == { m \in S : m > 2 } IN
                     IF T = {} THEN 0 ELSE 1 + go(UNION { { kids[m-2][1], kids[m-2][2] } : m \in T })
   IN go({n})
DepthIsLongestPath == \A n \in DOMAIN dep : dep[n] = Longest(n)
=============================================================================
