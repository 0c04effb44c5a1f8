-------------------------- MODULE Gen_UniqueTable --------------------------
(* histories of UniqueTable as scripts for the driver of the unique table *)
EXTENDS MC_UniqueTable, TLC
VARIABLE hist
RECURSIVE Text(_)
Text(a) == IF a = <<>> THEN "" ELSE " " \o ToString(a[1]) \o Text(Tail(a))
Say(op, a) == hist' = hist \o op \o Text(a) \o ";"
\* every transition is printed, as the history that leads to it and the transition
Printed == PrintT("SCRIPT " \o hist')
GInit == Init /\ hist = ""
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Asc(S \ {x})
GNext == \/ \E k \in Keys : Say("find", <<k[1]>>) /\ Find(k)
         \/ \E S \in SUBSET NodeIds : Say("sweep", Asc(S)) /\ Sweep(S)
GSpec == GInit /\ [][GNext]_<<uvars, hist>>
GView == <<NoAnswer>>
=============================================================================
