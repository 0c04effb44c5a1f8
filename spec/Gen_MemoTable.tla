--------------------------- MODULE Gen_MemoTable ---------------------------
(* histories of MC_MemoTable as scripts for the driver of the operation cache *)
EXTENDS MC_MemoTable, TLC
VARIABLE hist
RECURSIVE Text(_)
Text(a) == IF a = <<>> THEN "" ELSE " " \o ToString(a[1]) \o Text(Tail(a))
Say(op, a) == hist' = hist \o op \o Text(a) \o ";"
\* every transition is printed, as the history that leads to it and the transition
Printed == PrintT("SCRIPT " \o hist')
GInit == Init /\ hist = ""
GNext == Len(hist) < 120 /\
   \/ \E k \in Keys, r \in Results : Say("ins", <<k[1], k[2], k[3], r>>) /\ Store(k, r)
   \/ Say("purge", <<>>) /\ PurgeT
   \/ \E n \in Nodes : Say("rel", <<n>>) /\ Die(n)
   \/ \E n \in Nodes : Say("hold", <<n>>) /\ Live(n)
GSpec == GInit /\ [][GNext]_<<mtvars, hist>>
=============================================================================
