----------------------------- MODULE Gen_Depth -----------------------------
(* all diagrams with up to MaxNodes nodes as scripts for the driver of the depths *)
EXTENDS MC_Depth, TLC
VARIABLE hist
RECURSIVE Text(_)
Text(a) == IF a = <<>> THEN "" ELSE " " \o ToString(a[1]) \o Text(Tail(a))
Say(op, a) == hist' = hist \o op \o Text(a) \o ";"
\* every transition is printed, as the history that leads to it and the transition
Printed == PrintT("SCRIPT " \o hist')
GInit == DInit /\ hist = ""
GNext == Len(kids) < MaxNodes /\ \E lo, hi \in 1..Len(dep) : lo # hi /\ Say("add", <<lo, hi>>) /\ Grow(lo, hi)
GSpec == GInit /\ [][GNext]_<<dvars, hist>>
GPrinted == Len(kids') = MaxNodes => Printed
=============================================================================
