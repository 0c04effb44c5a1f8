------------------------------ MODULE NodeTable ------------------------------
(***************************************************************************)
(* What the unique table of a variable has to be: a one-to-one map from     *)
(* pairs of branches to nodes.                                              *)
(*   tab   <<lo, hi>> -> node        held  node -> number of handles         *)
(*   cnt   the node count                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES tab, held, cnt
nvars == <<tab, held, cnt>>
EmptyFn == [x \in {} |-> x]
Nodes == { tab[k] : k \in DOMAIN tab }
Held(n) == IF n \in DOMAIN held THEN held[n] ELSE 0

\* asking for the node of lo and hi
Found(lo, hi, r)   == <<lo, hi>> \in DOMAIN tab /\ r = tab[<<lo, hi>>]
Created(lo, hi, r) == <<lo, hi>> \notin DOMAIN tab /\ r \notin Nodes
Find(lo, hi, r) ==
   IF <<lo, hi>> \in DOMAIN tab THEN tab' = tab /\ cnt' = cnt
   ELSE tab' = (<<lo, hi>> :> r) @@ tab /\ cnt' = cnt + 1
Hold(r)    == held' = (r :> Held(r) + 1) @@ held
Release(r) == held' = IF Held(r) = 1 THEN [x \in (DOMAIN held) \ {r} |-> held[x]] ELSE [held EXCEPT ![r] = @ - 1]
\* the nodes without handles disappear
Sweep ==
   LET live == { k \in DOMAIN tab : Held(tab[k]) > 0 }
   IN /\ tab' = [k \in live |-> tab[k]]
      /\ cnt' = cnt - (Cardinality(DOMAIN tab) - Cardinality(live))
      /\ UNCHANGED held

OneToOne == \A k, m \in DOMAIN tab : tab[k] = tab[m] => k = m
=============================================================================
