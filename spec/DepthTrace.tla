----------------------------- MODULE DepthTrace -----------------------------
(* Trace validation of depth bookkeeping. *)
EXTENDS NodeDepth, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Check == { IOEnv.CHECK }
VARIABLES l
tvars == <<kids, dep, l>>
E == Trace[l]
Req(name, b) == IF b THEN TRUE ELSE PrintT(<<"REJECT", l, Check, name>>) /\ FALSE
TInit == l = 1 /\ DInit /\ TLCSet(7, 1)
New == E.e = "new" /\ kids' = <<>> /\ dep' = <<0, 0>>
AddE == /\ E.e = "add" /\ Add(E.lo, E.hi) /\ Req("one more than the larger depth of the children", E.d = dep'[Len(dep')])
\* E.m nodes in a row on top of node E.lo, their other child is a sink
ChainE == /\ E.e = "chain" /\ Chain(E.lo, E.sink, E.m)
          /\ Req("one more than the larger depth of the children", E.d = SubSeq(dep', Len(dep') - E.m + 1, Len(dep')))
TNext == /\ l <= Len(Trace) /\ (New \/ AddE \/ ChainE) /\ l' = l + 1 /\ TLCSet(7, l')
TSpec == TInit /\ [][TNext]_tvars
Accepted ==
   IF TLCGet(7) = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
   ELSE PrintT(<<"STUCK", TLCGet(7), Trace[TLCGet(7)]>>) /\ FALSE
=============================================================================
