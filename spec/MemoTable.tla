----------------------------- MODULE MemoTable -----------------------------
(***************************************************************************)
(* The operation cache as it is built: direct mapped, doubled when as many    *)
(* results were stored as it has slots, entries of the lower half moved then. *)
(* The hash of every triple is chosen arbitrarily.  It has to implement       *)
(* MemoCache: history variables last and alive.                               *)
(*   mem   slot -> 0 or <<key, result>>     stale entries have result 0       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Results, Nodes, HMax, MaxSize, Variant
VARIABLES mem, ins, lim, hash, last, alive
mtvars == <<mem, ins, lim, hash, last, alive>>
MC == INSTANCE MemoCache
Nothing == <<>>
Size == Len(mem)
Slot(m, k) == (hash[k] % Len(m)) + 1
Same(k, q) == IF Variant = "third-operand-ignored" THEN k[1] = q[1] /\ k[2] = q[2] ELSE k = q
Answer(k) == LET e == mem[Slot(mem, k)] IN IF e # Nothing /\ Same(e[1], k) THEN e[2] ELSE 0

Init ==
   /\ mem = <<Nothing>> /\ ins = 0 /\ lim = 0 /\ hash \in [Keys -> 0..(HMax - 1)]
   /\ last = MC!EmptyFn /\ alive = [n \in Nodes |-> 1]
RECURSIVE Move(_, _, _)
Move(m, i, half) ==
   IF i > half THEN m
   ELSE IF m[i] = Nothing THEN Move(m, i + 1, half)
   ELSE LET s == Slot(m, m[i][1])
            m1 == [m EXCEPT ![s] = m[i]]
        IN Move(IF s = i \/ Variant = "copies-stay" THEN m1 ELSE [m1 EXCEPT ![i] = Nothing], i + 1, half)
Occupied(m) == Cardinality({ i \in DOMAIN m : m[i] # Nothing })
Store(k, r) ==
   LET grow == ins + 1 >= lim /\ Size < MaxSize
       m == IF grow THEN (IF Variant = "not-moved" THEN mem \o [i \in 1..Size |-> Nothing] ELSE Move(mem \o [i \in 1..Size |-> Nothing], 1, Size)) ELSE mem
       s == IF Variant = "old-slot" THEN Slot(mem, k) ELSE Slot(m, k)
   IN /\ mem' = IF Variant = "first-stays" /\ m[s] # Nothing THEN [m EXCEPT ![s] = <<k, m[s][2]>>] ELSE [m EXCEPT ![s] = <<k, r>>]
      /\ ins' = IF grow THEN Occupied(m) ELSE ins + 1
      /\ lim' = IF grow THEN 1 + Size ELSE lim
      /\ MC!Insert(k[1], k[2], k[3], r)
      /\ UNCHANGED hash
Gone(e) == \/ ~MC!Alive(e[2])
           \/ Variant # "results-only" /\ (~MC!Alive(e[1][1]) \/ ~MC!Alive(e[1][2]) \/ ~MC!OpAlive(e[1][3]))
PurgeT == /\ mem' = [i \in DOMAIN mem |-> IF mem[i] # Nothing /\ Gone(mem[i]) THEN Nothing ELSE mem[i]]
          /\ MC!Purge /\ UNCHANGED <<ins, lim, hash>>
Die(n)  == n \in DOMAIN alive /\ MC!Release(n) /\ UNCHANGED <<mem, ins, lim, hash>>
Live(n) == n \notin DOMAIN alive /\ MC!Hold(n) /\ UNCHANGED <<mem, ins, lim, hash>>
Next == (\E k \in Keys, r \in Results : Store(k, r)) \/ PurgeT \/ (\E n \in Nodes : Die(n) \/ Live(n))
Spec == Init /\ [][Next]_mtvars

RightAnswers == \A k \in Keys : MC!MayAnswer(k[1], k[2], k[3], Answer(k))
\* a result just stored can be found
StoredFound == [][\A k \in Keys, r \in Results : Store(k, r) => Answer(k)' = r]_mtvars
InPlace == \A i \in DOMAIN mem : mem[i] # Nothing => \E j \in {i} : Slot(mem, mem[i][1]) = i
Counted == ins >= 0 /\ (Size < MaxSize => ins <= Size + 1)
=============================================================================
