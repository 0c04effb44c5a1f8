----------------------------- MODULE PageBlocks -----------------------------
(***************************************************************************)
(* A page cache as it is built: blocks of BlockSize pages, free pages in a    *)
(* list whose links lie in the first slot of the pages.  Every page has two    *)
(* slots here; a user fills them with whatever it likes.  It has to implement  *)
(* PageCache, with exclusive and empty pages.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS BlockSize, MaxBlocks, Variant
VARIABLES blocks, avail, data, held, got, out, total, block
pbvars == <<blocks, avail, data, held, got, out, total, block>>
PC == INSTANCE PageCache
Pages == 1..(BlockSize * MaxBlocks)
Garbage == 99
Init == blocks = 0 /\ avail = 0 /\ data = [p \in Pages |-> <<0, 0>>] /\ held = {} /\ got = 0 /\ PC!PInit(BlockSize)
\* links of a new block
Linked(d, b) == [p \in Pages |-> IF p \in (b * BlockSize + 1)..((b + 1) * BlockSize)
                                 THEN IF p = (b + 1) * BlockSize
                                      THEN (IF Variant = "last-not-ended" THEN <<p, d[p][2]>> ELSE <<0, d[p][2]>>)
                                      ELSE <<(IF Variant = "skips-a-page" /\ p + 2 <= (b + 1) * BlockSize THEN p + 2 ELSE p + 1), d[p][2]>>
                                 ELSE d[p]]
Reserve ==
   LET grow == avail = 0
       d  == IF grow THEN Linked(data, blocks) ELSE data
       p  == IF grow THEN blocks * BlockSize + 1 ELSE avail
       d1 == IF Variant = "not-cleared" THEN d ELSE IF Variant = "first-slot-kept" THEN [d EXCEPT ![p] = <<@[1], 0>>] ELSE [d EXCEPT ![p] = <<0, 0>>]
   IN /\ grow => blocks < MaxBlocks
      /\ got' = p /\ held' = held \cup {p}
      /\ data' = d1
      /\ avail' = IF Variant = "cleared-before-unlinking" THEN d1[p][1] ELSE d[p][1]
      /\ blocks' = IF grow THEN blocks + 1 ELSE blocks
      /\ PC!Reserve(1)
Write(p) == p \in held /\ data' = [data EXCEPT ![p] = <<Garbage, Garbage>>] /\ got' = 0 /\ UNCHANGED <<blocks, avail, held, out, total, block>>
Free(p) == /\ p \in held /\ held' = held \ {p} /\ got' = 0
           /\ data' = [data EXCEPT ![p] = <<(IF Variant = "list-dropped" THEN 0 ELSE avail), @[2]>>]
           /\ avail' = p /\ UNCHANGED blocks /\ PC!Free(1)
Next == Reserve \/ \E p \in held : Write(p) \/ Free(p)
Spec == Init /\ [][Next]_pbvars
Empty == got # 0 => data[got] = <<0, 0>>
Exclusive == [][got' # 0 /\ got' # got => got' \notin held]_pbvars
Blocks == blocks * BlockSize = total /\ Cardinality(held) = out
RECURSIVE ListFrom(_, _)
ListFrom(p, k) == IF p = 0 \/ k = 0 THEN {} ELSE IF p \notin Pages THEN {p} ELSE {p} \cup ListFrom(data[p][1], k - 1)
FreeList == ListFrom(avail, Cardinality(Pages) + 1) = (1..(blocks * BlockSize)) \ held
PInv == PC!PInv
=============================================================================
