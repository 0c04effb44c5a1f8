--------------------------- MODULE MC_StorePages ---------------------------
EXTENDS StorePages
\* what a node keeps from before it was freed does not matter
View == <<pages, ptr, avail, [n \in All |-> IF n \in InUse THEN mem[n] ELSE IF n \in fre THEN [Node0 EXCEPT !.lo = mem[n].lo] ELSE Node0], tot, use, fre, hnd, xr>>
=============================================================================
