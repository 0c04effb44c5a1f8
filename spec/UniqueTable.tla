----------------------------- MODULE UniqueTable -----------------------------
(***************************************************************************)
(* The unique table of one variable as it is built: open addressing with     *)
(* linear probing, doubling when more than half full, removal of dead nodes  *)
(* by rebuilding, halving when sparse.  The hash of every key is chosen       *)
(* arbitrarily in the initial state.  It has to implement NodeTable.          *)
(*   base   slot -> node or 0      mask   number of slots - 1                 *)
(*   left   number of free slots the table believes in                        *)
(*   key    node -> <<lo, hi>>     hash   key -> number                       *)
(*   answer what the last lookup was for, and its answer                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, MinSize, MaxSize, HMax, MinFill, Variant
VARIABLES base, mask, left, key, hash, answer
uvars == <<base, mask, left, key, hash, answer>>

Slots(m) == 0..m
Blank(m) == [i \in Slots(m) |-> 0]
Size == mask + 1
NodeIds == DOMAIN key
\* keys are numbered; the node of a key has its number
IdOf(k) == k[1]

RECURSIVE Probe(_, _, _, _)
\* slot of key k, or of the first gap; -1 after a whole round
Probe(b, m, i, k) ==
   IF i > m THEN -1
   ELSE LET s == IF Variant = "no-wrap-around" THEN (hash[k] % (m + 1)) + i ELSE (hash[k] + i) % (m + 1)
        IN IF s > m THEN -2
           ELSE IF b[s] = 0 \/ key[b[s]] = k THEN s ELSE Probe(b, m, i + 1, k)
Lookup(k) == LET s == Probe(base, mask, 0, k) IN IF s < 0 THEN -1 ELSE base[s]   \* 0: not present

RECURSIVE Gap(_, _, _)
Gap(b, m, h) == IF b[h % (m + 1)] = 0 THEN h % (m + 1) ELSE Gap(b, m, h + 1)
RECURSIVE PutAll(_, _, _)
PutAll(b, m, seq) == IF seq = <<>> THEN b
   ELSE PutAll([b EXCEPT ![Gap(b, m, hash[key[Head(seq)]])] = Head(seq)], m, Tail(seq))
RECURSIVE Listed(_, _, _)
Listed(b, m, i) == IF i > m THEN <<>> ELSE (IF b[i] = 0 THEN <<>> ELSE <<b[i]>>) \o Listed(b, m, i + 1)

Init ==
   /\ base = Blank(MinSize - 1) /\ mask = MinSize - 1 /\ left = MinSize
   /\ key = [x \in {} |-> x] /\ answer = <<>>
   \* keys are interchangeable
   /\ hash \in { h \in [Keys -> 0..(HMax - 1)] : \A k, q \in Keys : k[1] < q[1] => h[k] <= h[q] }

Find(k) ==
   LET p == Lookup(k) IN
   IF p > 0 THEN answer' = <<k, p>> /\ UNCHANGED <<base, mask, left, key, hash>>
   ELSE LET grow == 2 * (Size - left) > Size /\ Size < MaxSize
            m2 == IF grow THEN 2 * Size - 1 ELSE mask
            b2 == IF grow
                  THEN IF Variant = "copy-without-rehash" THEN [i \in Slots(m2) |-> IF i <= mask THEN base[i] ELSE 0]
                       ELSE PutAll(Blank(m2), m2, Listed(base, mask, 0))
                  ELSE base
            l2 == IF grow THEN left + Size ELSE left
            id == IdOf(k)
            key2 == (id :> k) @@ key
            s == LET RECURSIVE G(_)
                     G(h) == IF b2[h % (m2 + 1)] = 0 THEN h % (m2 + 1) ELSE G(h + 1)
                 IN G(hash[k])
        IN /\ l2 > 0
           /\ base' = [b2 EXCEPT ![s] = id] /\ mask' = m2 /\ left' = l2 - 1 /\ key' = key2
           /\ answer' = <<k, id>> /\ UNCHANGED hash
RECURSIVE Shrunk(_, _)
Shrunk(size, live) == IF size > MinSize /\ live * MinFill <= size THEN Shrunk(size \div 2, live) ELSE size
\* the nodes in held survive
Sweep(held) ==
   LET live == [i \in 1..Len(Listed(base, mask, 0)) |-> Listed(base, mask, 0)[i]]
       keep == SelectSeq(live, LAMBDA n : n \in held)
       size == IF Variant = "shrink-by-dead" THEN Shrunk(Size, Len(live) - Len(keep)) ELSE Shrunk(Size, Len(keep))
       gaps == [i \in Slots(mask) |-> IF base[i] \in held THEN base[i] ELSE 0]
   IN /\ Variant = "shrink-by-dead" => Len(keep) <= size
      /\ base' = IF Variant = "gaps-stay" /\ size = Size THEN gaps ELSE PutAll(Blank(size - 1), size - 1, keep)
      /\ mask' = size - 1
      /\ left' = IF Variant = "count-not-updated" /\ size = Size THEN left ELSE size - Len(keep)
      /\ key' = [n \in held |-> key[n]]
      /\ answer' = <<>> /\ UNCHANGED hash
Next == (\E k \in Keys : Find(k)) \/ (\E S \in SUBSET NodeIds : Sweep(S))
Spec == Init /\ [][Next]_uvars

-----------------------------------------------------------------------------
Stored == { base[i] : i \in Slots(mask) } \ {0}
\* what lookups answer
View(k) == Lookup(k)
LookupExact == \A k \in Keys :
   /\ View(k) >= 0          \* a lookup ends
   /\ View(k) > 0 => key[View(k)] = k
   /\ View(k) = 0 => \A n \in NodeIds : key[n] # k
AllStored == Stored = NodeIds /\ Cardinality({ i \in Slots(mask) : base[i] # 0 }) = Cardinality(NodeIds)
LeftRight == left = Cardinality({ i \in Slots(mask) : base[i] = 0 })
OnePerKey == \A n, m \in NodeIds : key[n] = key[m] => n = m
Sized == Size >= MinSize /\ Size <= MaxSize /\ \E j \in 0..10 : Size = MinSize * 2^j

\* refinement: the node table seen through lookups; survivors have a handle, others have none
Tab == [k \in { q \in Keys : Lookup(q) > 0 } |-> Lookup(k)]
NT(h) == INSTANCE NodeTable WITH tab <- Tab, held <- h, cnt <- Cardinality(NodeIds)
None == [x \in {} |-> x]
AbsStep == \/ /\ answer' # <<>>
              /\ LET k == answer'[1] r == answer'[2] IN
                    NT(None)!Find(k[1], k[2], r) /\ (NT(None)!Found(k[1], k[2], r) \/ NT(None)!Created(k[1], k[2], r))
           \/ /\ answer' = <<>>
              /\ LET kept == DOMAIN key' IN
                    /\ Tab' = [k \in { q \in DOMAIN Tab : Tab[q] \in kept } |-> Tab[k]]
                    /\ Cardinality(DOMAIN key') = Cardinality(DOMAIN Tab')
Implements == DOMAIN Tab = {} /\ [][AbsStep]_uvars
NoAnswer == <<base, mask, left, key, hash>>
=============================================================================
