------------------------------ MODULE PageTrace ------------------------------
(* Trace validation of the page caches. *)
EXTENDS PageCache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Check == { IOEnv.CHECK }
VARIABLES l, used  \* used: pages ever reserved
tvars == <<out, total, block, l, used>>
E == Trace[l]
Req(name, b) == IF b THEN TRUE ELSE PrintT(<<"REJECT", l, Check, name>>) /\ FALSE
TInit == l = 1 /\ PInit(1) /\ used = 0 /\ TLCSet(7, 1)
New == E.e = "new" /\ out' = 0 /\ total' = 0 /\ block' = E.block /\ used' = 0 /\ Req("page total", E.total = 0)
Res == /\ E.e = "res" /\ Reserve(E.n)
       /\ Req("empty", E.empty = E.n)
       /\ Req("exclusive", E.clash = 0)
       /\ Req("whole blocks, and only when all pages are reserved", E.total = total')
       /\ used' = used + (E.n - E.seen)
       /\ Req("pages within the allocated ones", used' <= total')
FreeE == /\ E.e = "free" /\ Free(E.n) /\ UNCHANGED used /\ Req("intact until freed", E.ok = E.n) /\ Req("page total", E.total = total)
Scan == /\ E.e = "scan" /\ UNCHANGED <<pvars, used>> /\ Req("intact", E.ok = E.n /\ E.n = out) /\ Req("page total", E.total = total)
TNext == /\ l <= Len(Trace) /\ (New \/ Res \/ FreeE \/ Scan) /\ l' = l + 1 /\ TLCSet(7, l')
TSpec == TInit /\ [][TNext]_tvars
Accepted ==
   IF TLCGet(7) = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
   ELSE PrintT(<<"STUCK", TLCGet(7), Trace[TLCGet(7)]>>) /\ FALSE
=============================================================================
