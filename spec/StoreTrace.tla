----------------------------- MODULE StoreTrace -----------------------------
(* Trace validation of the node store.  In the big histories only numbers are *)
(* kept: nu nodes in use, nf freed ones.                                      *)
EXTENDS NodeStore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Check == { IOEnv.CHECK }
VARIABLES l, nu, nf
tvars == <<use, fre, hnd, xr, l, nu, nf>>
E == Trace[l]
Req(name, b) == IF b THEN TRUE ELSE PrintT(<<"REJECT", l, Check, name>>) /\ FALSE
Min(a, b) == IF a < b THEN a ELSE b
TInit == l = 1 /\ SInit /\ nu = 0 /\ nf = 0 /\ TLCSet(7, 1)

New == /\ E.e = "new" /\ UNCHANGED <<nu, nf>>
       /\ use' = EmptyFn /\ fre' = {} /\ hnd' = EmptyFn /\ xr' = (Bot :> 1) @@ (Top :> 1)
       /\ Req("two different sinks", E.bot = Bot /\ E.top = Top /\ E.isbot = 1 /\ E.istop = 1)
       /\ Req("count", E.cnt = 2)
Res == /\ E.e = "res" /\ UNCHANGED <<nu, nf>>
       /\ Req("not in use", MayReserve(E.id))
       /\ Req("freed nodes first", Economical(E.id))
       /\ Reserve(E.id, [lo |-> E.lo, hi |-> E.hi, idx |-> E.idx, key |-> E.key])
       /\ Req("count", E.cnt = Count')
FreeE == /\ E.e = "free" /\ UNCHANGED <<nu, nf>> /\ Free(E.id) /\ Req("count", E.cnt = Count')
HoldE == E.e = "hold" /\ Hold(E.id) /\ UNCHANGED <<nu, nf>>
RelE  == E.e = "rel" /\ Release(E.id) /\ UNCHANGED <<nu, nf>>
Peek == /\ E.e = "peek" /\ UNCHANGED <<svars, nu, nf>>
        /\ E.id \notin Sinks => Req("contents kept", use[E.id] = [lo |-> E.lo, hi |-> E.hi, idx |-> E.idx, key |-> E.key])
        /\ Req("references", E.xref = xr[E.id])
        /\ Req("count", E.cnt = Count)

BNew == E.e = "bnew" /\ nu' = 0 /\ nf' = 0 /\ UNCHANGED svars /\ Req("count", E.cnt = 2)
BRes == /\ E.e = "bres" /\ UNCHANGED svars
        /\ Req("no node in use is handed out", E.clash = 0)
        /\ Req("freed nodes first", E.reused = Min(E.n, nf) /\ E.fresh = E.n - E.reused)
        /\ nu' = nu + E.n /\ nf' = nf - E.reused
        /\ Req("count", E.cnt = 2 + nu')
        /\ Req("references of the sinks", E.bx = 1 + nu' /\ E.tx = 1 + nu')
BFree == /\ E.e = "bfree" /\ UNCHANGED svars
         /\ nu' = nu - E.n /\ nf' = nf + E.n
         /\ Req("count", E.cnt = 2 + nu')
         /\ Req("references of the sinks", E.bx = 1 + nu' /\ E.tx = 1 + nu')
BScan == /\ E.e = "bscan" /\ UNCHANGED <<svars, nu, nf>>
         /\ Req("contents kept", E.n = nu /\ E.ok = nu /\ E.isbot = 1 /\ E.istop = 1)

TNext == /\ l <= Len(Trace)
         /\ \/ New \/ Res \/ FreeE \/ HoldE \/ RelE \/ Peek \/ BNew \/ BRes \/ BFree \/ BScan
         /\ l' = l + 1 /\ TLCSet(7, l')
TSpec == TInit /\ [][TNext]_tvars
Accepted ==
   IF TLCGet(7) = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
   ELSE PrintT(<<"STUCK", TLCGet(7), Trace[TLCGet(7)]>>) /\ FALSE
=============================================================================
