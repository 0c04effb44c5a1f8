----------------------------- MODULE StorePages -----------------------------
(***************************************************************************)
(* The node store as it is built: pages of PageSize nodes, handed out one     *)
(* after the other; freed nodes form a list whose links lie in the field lo.   *)
(* It has to implement NodeStore.                                             *)
(*   pages   number of pages          ptr    nodes of the last page handed out *)
(*   avail   first freed node or 0    mem    node -> [lo, hi, x]               *)
(*   tot     nodes in use, counted    got    node handed out last, 0 none      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS PageSize, MaxPages, MaxHandles, Variant
VARIABLES pages, ptr, avail, mem, tot, got, use, fre, hnd, xr
spvars == <<pages, ptr, avail, mem, tot, got, use, fre, hnd, xr>>
NS == INSTANCE NodeStore
Node0 == [lo |-> 0, hi |-> 0, x |-> 0]
All == 1..(MaxPages * PageSize + 1)       \* one node beyond the last page

Init == /\ pages = 1 /\ ptr = (IF Variant = "first-page-from-zero" THEN 0 ELSE 2) /\ avail = 0 /\ tot = 2 /\ got = 0
        /\ mem = [n \in All |-> IF n \in NS!Sinks THEN [Node0 EXCEPT !.x = 1] ELSE Node0]
        /\ NS!SInit
Bump(m, n, d) == [m EXCEPT ![n].x = @ + d]
Reserve(lo, hi) ==
   LET full  == IF Variant = "one-too-many" THEN ptr > PageSize ELSE ptr >= PageSize
       fresh == IF full THEN pages * PageSize + 1 ELSE (pages - 1) * PageSize + ptr + 1
       n == IF avail # 0 /\ Variant # "list-unused" THEN avail ELSE fresh
       m1 == [mem EXCEPT ![n] = [lo |-> lo, hi |-> hi, x |-> 0]]
   IN /\ (n = fresh /\ full) => pages < MaxPages
      /\ n \in All
      /\ got' = n
      /\ IF n # fresh THEN UNCHANGED <<pages, ptr>> ELSE pages' = (IF full THEN pages + 1 ELSE pages) /\ ptr' = (IF full THEN 1 ELSE ptr + 1)
      /\ avail' = IF n = fresh \/ Variant = "list-not-advanced" THEN avail ELSE mem[n].lo
      /\ mem' = Bump(Bump(m1, lo, 1), hi, 1)
      /\ tot' = IF n = fresh /\ full /\ Variant = "counted-twice" THEN tot + 2 ELSE tot + 1
      /\ NS!Reserve(n, [lo |-> lo, hi |-> hi])
Free(n) ==
   LET m1 == Bump(Bump(mem, mem[n].lo, -1), mem[n].hi, -1)
       m2 == [m1 EXCEPT ![n].lo = avail]
       w1 == [mem EXCEPT ![n].lo = avail]                 \* the link written first
       w2 == Bump(IF w1[n].lo = 0 THEN w1 ELSE Bump(w1, w1[n].lo, -1), mem[n].hi, -1)
   IN /\ mem' = CASE Variant = "link-first" -> w2 [] Variant = "one-child" -> [Bump(mem, mem[n].lo, -1) EXCEPT ![n].lo = avail] [] OTHER -> m2
      /\ avail' = n /\ tot' = tot - 1 /\ got' = 0
      /\ UNCHANGED <<pages, ptr>>
      /\ NS!Free(n)
Hold(n) == NS!Hold(n) /\ mem' = Bump(mem, n, 1) /\ got' = 0 /\ UNCHANGED <<pages, ptr, avail, tot>>
Release(n) == NS!Release(n) /\ mem' = Bump(mem, n, -1) /\ got' = 0 /\ UNCHANGED <<pages, ptr, avail, tot>>
InUse == NS!Sinks \cup DOMAIN use
Next == \/ \E lo, hi \in InUse : lo < hi /\ Reserve(lo, hi)
        \/ \E n \in DOMAIN use : xr[n] = 0 /\ Free(n)
        \/ \E n \in InUse : Cardinality({ m \in InUse : NS!Hnd(m) > 0 }) < MaxHandles /\ NS!Hnd(n) = 0 /\ Hold(n)
        \/ \E n \in InUse : NS!Hnd(n) > 0 /\ Release(n)
Spec == Init /\ [][Next]_spvars

RECURSIVE ListFrom(_, _, _)
ListFrom(m, n, k) == IF n = 0 \/ k = 0 THEN {} ELSE {n} \cup ListFrom(m, m[n].lo, k - 1)
RefsKept == \A n \in InUse : mem[n].x = xr[n]
FieldsKept == \A n \in DOMAIN use : mem[n].lo = use[n].lo /\ mem[n].hi = use[n].hi
FreeList == ListFrom(mem, avail, Cardinality(All) + 1) = fre
Counted == tot = NS!Count
Inside == \A n \in DOMAIN use : n <= pages * PageSize
RefsRight == NS!RefsRight
NeverTwice == [][got' # 0 /\ got' # got => got' \notin InUse]_spvars
NeverTwiceInv == got # 0 => got \notin NS!Sinks
Economical == [][got' # 0 /\ DOMAIN use' # DOMAIN use => NS!Economical(got')]_spvars
=============================================================================
