------------------------------ MODULE MemoCache ------------------------------
(***************************************************************************)
(* What the operation cache may answer.                                     *)
(*   last   triple of operands -> the result stored last for that triple     *)
(*   alive  node -> number of handles; nodes outside its domain are dead     *)
(* The cache may forget at any time, but never answer anything else.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES last, alive
mvars == <<last, alive>>
EmptyFn == [x \in {} |-> x]
Sinks == {1, 2}
Alive(n) == n \in Sinks \/ n \in DOMAIN alive
\* operation symbols are negative numbers, they never die
OpAlive(h) == h < 0 \/ Alive(h)

Insert(f, g, h, r) == last' = (<<f, g, h>> :> r) @@ last /\ UNCHANGED alive
MayAnswer(f, g, h, r) == r = 0 \/ (<<f, g, h>> \in DOMAIN last /\ last[<<f, g, h>>] = r)
Hold(n) == alive' = (n :> (IF n \in DOMAIN alive THEN alive[n] + 1 ELSE 1)) @@ alive /\ UNCHANGED last
Release(n) == alive' = (IF alive[n] = 1 THEN [x \in DOMAIN alive \ {n} |-> alive[x]] ELSE [alive EXCEPT ![n] = @ - 1]) /\ UNCHANGED last
Kept(k) == Alive(k[1]) /\ Alive(k[2]) /\ OpAlive(k[3]) /\ Alive(last[k])
Purge == LET ks == { k \in DOMAIN last : Kept(k) } IN last' = [k \in ks |-> last[k]] /\ UNCHANGED alive
=============================================================================
