----------------------------- MODULE TableTrace -----------------------------
(* Trace validation of node lookups.  Events with many lookups are aggregated *)
(* by rows: row a holds the nodes <<a, b>> for all b in 1..cols; rows maps    *)
(* the rows present to whether they are held.                                 *)
EXTENDS NodeTable, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Check == { IOEnv.CHECK }
VARIABLES l, rows, cols
tvars == <<tab, held, cnt, l, rows, cols>>
E == Trace[l]
Has(f) == f \in DOMAIN E
Req(name, b) == IF b THEN TRUE ELSE PrintT(<<"REJECT", l, Check, name>>) /\ FALSE

TInit == l = 1 /\ tab = EmptyFn /\ held = EmptyFn /\ cnt = 0 /\ rows = EmptyFn /\ cols = 0 /\ TLCSet(7, 1)

New == /\ E.e = "new" /\ tab' = EmptyFn /\ held' = EmptyFn /\ cnt' = E.cnt /\ UNCHANGED <<rows, cols>>
PowersOf2 == { 2^k : k \in 6..20 }
Slots(n) == Req("free slots", Has("fs") => E.fs > 0 /\ (E.fs + n) \in PowersOf2)
FindStep ==
   /\ E.e = "find"
   /\ IF E.lo = E.hi
      THEN /\ Req("equal branches give that branch", E.r = E.lo)
           /\ UNCHANGED <<tab, held, cnt>>
      ELSE /\ Req("the existing node", <<E.lo, E.hi>> \in DOMAIN tab => Found(E.lo, E.hi, E.r))
           /\ Req("a new node", <<E.lo, E.hi>> \notin DOMAIN tab => E.r >= 1000 /\ Created(E.lo, E.hi, E.r))
           /\ Req("its branches", E.nlo = 1 /\ E.nhi = 1)
           /\ Find(E.lo, E.hi, E.r)
           /\ IF E.held = 1 THEN Hold(E.r) ELSE UNCHANGED held
   /\ Req("created nodes are counted", E.cnt = cnt')
   /\ Slots(Cardinality(DOMAIN tab'))
   /\ UNCHANGED <<rows, cols>>
LookStep ==
   /\ E.e = "look"
   /\ Req("lookup", E.r = (IF <<E.lo, E.hi>> \in DOMAIN tab THEN tab[<<E.lo, E.hi>>] ELSE -1))
   /\ Req("lookup creates nothing", E.cnt = cnt)
   /\ UNCHANGED <<tab, held, cnt, rows, cols>>
RelStep == /\ E.e = "rel" /\ Release(E.id) /\ UNCHANGED <<tab, cnt, rows, cols>>
SweepStep ==
   /\ E.e = "sweep" /\ Sweep /\ UNCHANGED <<rows, cols>>
   /\ Req("count after the removal of dead nodes", E.cnt = cnt')
   /\ Slots(Cardinality(DOMAIN tab'))
EndStep ==
   /\ E.e = "end"
   /\ Req("all nodes released", E.cnt = cnt - Cardinality(DOMAIN tab))
   /\ UNCHANGED <<tab, held, cnt, rows, cols>>

-----------------------------------------------------------------------------
BNew == /\ E.e = "bnew" /\ rows' = EmptyFn /\ cols' = E.cols /\ cnt' = E.cnt /\ tab' = EmptyFn /\ held' = EmptyFn
RowStep ==
   /\ E.e = "row"
   /\ LET there == E.a \in DOMAIN rows
      IN /\ Req("nodes created", E.created = (IF there THEN 0 ELSE cols))
         /\ Req("the existing nodes", there => E.same = cols)
         /\ Req("their branches", E.bad = 0)
         /\ Req("distinct nodes", E.dist = cols)
         /\ cnt' = cnt + (IF there THEN 0 ELSE cols)
         /\ Req("count", E.cnt = cnt')
         /\ rows' = (E.a :> ((there /\ rows[E.a]) \/ E.hold = 1)) @@ rows
   /\ UNCHANGED <<tab, held, cols>>
DropRow == /\ E.e = "drow" /\ rows' = [rows EXCEPT ![E.a] = FALSE] /\ Req("count", E.cnt = cnt) /\ UNCHANGED <<tab, held, cnt, cols>>
BSweep ==
   /\ E.e = "bsweep"
   /\ LET live == { a \in DOMAIN rows : rows[a] }
      IN /\ rows' = [a \in live |-> TRUE]
         /\ cnt' = cnt - cols * (Cardinality(DOMAIN rows) - Cardinality(live))
   /\ Req("count after the removal of dead nodes", E.cnt = cnt')
   /\ UNCHANGED <<tab, held, cols>>
AllStep ==
   /\ E.e = "all"
   /\ LET n == cols * Cardinality({ a \in DOMAIN rows : rows[a] })
      IN Req("every held node is found again", E.n = n /\ E.same = n /\ E.dist = n /\ E.created = 0 /\ E.cnt = cnt)
   /\ UNCHANGED <<tab, held, cnt, rows, cols>>

TNext ==
   /\ l <= Len(Trace)
   /\ \/ New \/ FindStep \/ LookStep \/ RelStep \/ SweepStep \/ EndStep
      \/ BNew \/ RowStep \/ DropRow \/ BSweep \/ AllStep
   /\ l' = l + 1
   /\ TLCSet(7, l')
TSpec == TInit /\ [][TNext]_tvars
Accepted ==
   IF TLCGet(7) = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
   ELSE PrintT(<<"STUCK", TLCGet(7), Trace[TLCGet(7)]>>) /\ FALSE
=============================================================================
