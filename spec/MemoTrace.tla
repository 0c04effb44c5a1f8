------------------------------ MODULE MemoTrace ------------------------------
(* Trace validation of the operation cache.  In histories with many entries a  *)
(* row a stands for the triples of one first operand with all second operands; *)
(* which results belong to which version of a row is fixed.                    *)
EXTENDS MemoCache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Check == { IOEnv.CHECK }
VARIABLES l, row, cols
tvars == <<last, alive, l, row, cols>>
E == Trace[l]
Req(name, b) == IF b THEN TRUE ELSE PrintT(<<"REJECT", l, Check, name>>) /\ FALSE
TInit == l = 1 /\ last = EmptyFn /\ alive = EmptyFn /\ row = EmptyFn /\ cols = 0 /\ TLCSet(7, 1)

New   == E.e = "new" /\ last' = EmptyFn /\ alive' = EmptyFn /\ UNCHANGED <<row, cols>>
Ins   == E.e = "ins" /\ Insert(E.f, E.g, E.h, E.r) /\ UNCHANGED <<row, cols>>
Look  == /\ E.e = "look" /\ UNCHANGED <<last, alive, row, cols>>
         /\ Req("nothing, or the result stored last for this triple", MayAnswer(E.f, E.g, E.h, E.r))
HoldE == E.e = "hold" /\ Hold(E.id) /\ UNCHANGED <<row, cols>>
RelE  == E.e = "rel" /\ Release(E.id) /\ UNCHANGED <<row, cols>>
PurgeE == E.e = "purge" /\ Purge /\ UNCHANGED <<row, cols>>

BNew  == E.e = "bnew" /\ row' = EmptyFn /\ cols' = E.cols /\ UNCHANGED mvars
BRow  == E.e = "brow" /\ row' = (E.a :> E.v) @@ row /\ UNCHANGED <<mvars, cols>>
BScan == /\ E.e = "bscan" /\ UNCHANGED <<mvars, row, cols>>
         /\ Req("only the results of the last version", \A i \in DOMAIN E.hit : E.a \in DOMAIN row /\ E.hit[i][1] = row[E.a])
         /\ Req("no results of other triples", E.alien = 0)
BPurge == /\ E.e = "bpurge" /\ UNCHANGED <<mvars, cols>>
          /\ LET dead == { E.dead[i] : i \in DOMAIN E.dead }
             IN row' = [a \in DOMAIN row \ dead |-> row[a]]

TNext == /\ l <= Len(Trace)
         /\ \/ New \/ Ins \/ Look \/ HoldE \/ RelE \/ PurgeE \/ BNew \/ BRow \/ BScan \/ BPurge
         /\ l' = l + 1 /\ TLCSet(7, l')
TSpec == TInit /\ [][TNext]_tvars
Accepted ==
   IF TLCGet(7) = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
   ELSE PrintT(<<"STUCK", TLCGet(7), Trace[TLCGet(7)]>>) /\ FALSE
=============================================================================
