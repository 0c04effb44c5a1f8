------------------------------ MODULE MC_Depth ------------------------------
(* all diagrams with up to MaxNodes nodes *)
EXTENDS NodeDepth
CONSTANTS MaxNodes, Variant
Grow(lo, hi) ==
   /\ kids' = Append(kids, <<lo, hi>>)
   /\ dep' = Append(dep, CASE Variant = "shorter" -> 1 + (IF dep[lo] < dep[hi] THEN dep[lo] ELSE dep[hi])
                           [] Variant = "first-branch" -> 1 + dep[lo]
                           [] OTHER -> Want(lo, hi))
Next == /\ Len(kids) < MaxNodes
        /\ \/ \E lo, hi \in 1..Len(dep) : lo # hi /\ Grow(lo, hi)
           \/ \E lo \in 1..Len(dep), sink \in {1, 2}, m \in 1..MaxNodes :
                 lo # sink /\ Len(kids) + m <= MaxNodes /\ Variant = "none" /\ Chain(lo, sink, m)
Spec == DInit /\ [][Next]_dvars
=============================================================================
