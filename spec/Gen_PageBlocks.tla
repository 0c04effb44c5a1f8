--------------------------- MODULE Gen_PageBlocks ---------------------------
(* histories of PageBlocks as scripts for the driver of the page caches *)
EXTENDS PageBlocks, TLC
VARIABLE hist
RECURSIVE Text(_)
Text(a) == IF a = <<>> THEN "" ELSE " " \o ToString(a[1]) \o Text(Tail(a))
Say(op, a) == hist' = hist \o op \o Text(a) \o ";"
\* every transition is printed, as the history that leads to it and the transition
Printed == PrintT("SCRIPT " \o hist')
GInit == Init /\ hist = ""
GNext == Len(hist) < 64 /\
         \/ Say("get", <<IF avail = 0 THEN blocks * BlockSize + 1 ELSE avail>>) /\ Reserve
         \/ \E p \in held : Say("put", <<p>>) /\ Free(p)
GSpec == GInit /\ [][GNext]_<<pbvars, hist>>
\* what users write into their pages does not matter
GView == <<blocks, avail, [p \in Pages |-> IF p \in held THEN 0 ELSE data[p][1]], held>>
=============================================================================
