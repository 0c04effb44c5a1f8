------------------------------ MODULE NodeStore ------------------------------
(***************************************************************************)
(* The node store.                                                          *)
(*   use   node -> [lo, hi, idx, key]   reserved and not yet freed          *)
(*   fre   nodes freed and not reserved again                                *)
(*   hnd   node -> number of handles                                         *)
(*   xr    node -> references (of nodes in use and the sinks)                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES use, fre, hnd, xr
svars == <<use, fre, hnd, xr>>
EmptyFn == [x \in {} |-> x]
Bot == 1
Top == 2
Sinks == {Bot, Top}
Hnd(n) == IF n \in DOMAIN hnd THEN hnd[n] ELSE 0
Known == Sinks \cup DOMAIN use \cup fre
Count == 2 + Cardinality(DOMAIN use)

SInit == use = EmptyFn /\ fre = {} /\ hnd = EmptyFn /\ xr = (Bot :> 1) @@ (Top :> 1)
MayReserve(n) == n \notin Sinks /\ n \notin DOMAIN use
Economical(n) == IF fre # {} THEN n \in fre ELSE n \notin Known
Reserve(n, c) ==
   /\ use' = (n :> c) @@ use
   /\ fre' = fre \ {n}
   /\ xr' = LET x1 == [xr EXCEPT ![c.lo] = @ + 1] x2 == [x1 EXCEPT ![c.hi] = @ + 1] IN (n :> 0) @@ x2
   /\ UNCHANGED hnd
Free(n) ==
   /\ use' = [x \in DOMAIN use \ {n} |-> use[x]]
   /\ fre' = fre \cup {n}
   /\ xr' = LET x1 == [xr EXCEPT ![use[n].lo] = @ - 1] x2 == [x1 EXCEPT ![use[n].hi] = @ - 1] IN [x \in DOMAIN x2 \ {n} |-> x2[x]]
   /\ UNCHANGED hnd
Hold(n) == hnd' = (n :> Hnd(n) + 1) @@ hnd /\ xr' = [xr EXCEPT ![n] = @ + 1] /\ UNCHANGED <<use, fre>>
Release(n) == hnd' = (n :> Hnd(n) - 1) @@ hnd /\ xr' = [xr EXCEPT ![n] = @ - 1] /\ UNCHANGED <<use, fre>>

\* the references of a node are its handles and the branches of nodes in use
RefsRight == \A n \in Sinks \cup DOMAIN use :
   xr[n] = (IF n \in Sinks THEN 1 ELSE 0) + Hnd(n)
           + Cardinality({ m \in DOMAIN use : use[m].lo = n }) + Cardinality({ m \in DOMAIN use : use[m].hi = n })
=============================================================================
