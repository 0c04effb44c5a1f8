--------------------------- MODULE Gen_StorePages ---------------------------
(* histories of StorePages as scripts for the driver of the node store *)
EXTENDS MC_StorePages, TLC
VARIABLE hist
RECURSIVE Text(_)
Text(a) == IF a = <<>> THEN "" ELSE " " \o ToString(a[1]) \o Text(Tail(a))
Say(op, a) == hist' = hist \o op \o Text(a) \o ";"
\* every transition is printed, as the history that leads to it and the transition
Printed == PrintT("SCRIPT " \o hist')
GInit == Init /\ hist = ""
GNext == Len(hist) < 42 /\
         \/ \E lo, hi \in InUse : lo < hi /\ Say("res", <<lo, hi>>) /\ Reserve(lo, hi)
         \/ \E n \in DOMAIN use : xr[n] = 0 /\ Say("free", <<n>>) /\ Free(n)
         \/ \E n \in InUse : Cardinality({ m \in InUse : NS!Hnd(m) > 0 }) < MaxHandles /\ NS!Hnd(n) = 0 /\ Say("hold", <<n>>) /\ Hold(n)
         \/ \E n \in InUse : NS!Hnd(n) > 0 /\ Say("rel", <<n>>) /\ Release(n)
GSpec == GInit /\ [][GNext]_<<spvars, hist>>
=============================================================================
