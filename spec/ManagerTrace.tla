----------------------------- MODULE ManagerTrace -----------------------------
(***************************************************************************)
(* Trace validation: is a recorded history of real bdd_mgr objects a        *)
(* behaviour of Manager?  One event per public call, written when the call  *)
(* has returned.  The constant Check (from the environment) is the set of   *)
(* properties judged; every requirement carries the property it belongs to. *)
(* Requirements of other properties are not judged and the state follows    *)
(* what was observed, so that a defect in one property does not raise an    *)
(* alarm for another.                                                       *)
(***************************************************************************)
EXTENDS Manager, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Check == { IOEnv.CHECK }
VARIABLE l
tvars == <<u, mg, hs, l>>
E == Trace[l]

Req(p, name, b) ==
   IF p \notin Check THEN TRUE
   ELSE IF b THEN TRUE ELSE PrintT(<<"REJECT", l, p, name>>) /\ FALSE
\* as Req, for requirements that several properties share
ReqAny(ps, name, b) ==
   IF ps \cap Check = {} THEN TRUE
   ELSE IF b THEN TRUE ELSE PrintT(<<"REJECT", l, ps \cap Check, name>>) /\ FALSE

Has(f) == f \in DOMAIN E
SetOf(seq) == { seq[i] : i \in DOMAIN seq }

TInit ==
   /\ l = 1
   /\ u = [full |-> <<0>>, var |-> <<>>, exact |-> FALSE, n |-> 0]
   /\ mg = EmptyFn
   /\ hs = EmptyFn
   /\ TLCSet(7, 1)

\* a new history in a new process state
Reset ==
   /\ E.e = "reset"
   /\ u' = [full |-> E.full, var |-> E.var, exact |-> E.exact = 1, n |-> E.n]
   /\ mg' = EmptyFn
   /\ hs' = EmptyFn

-----------------------------------------------------------------------------
(* What is required of a diagram reported for a result: dag is the list of  *)
(* its nodes <<id, v, lo, hi>>, children first, r its root, rt its values   *)

\* (a row has, after <<id, v, lo, hi>>, the positions of lo and hi: 1 and 2 the sinks, i+2 the i-th row)
DagFuns(dag) ==
   FoldLeft(LAMBDA acc, n : Append(acc, Node(u, n[2], acc[n[5]], acc[n[6]])), <<FFalse(u), FTrue(u)>>, dag)
IdAt(dag, k) == IF k < 3 THEN k - 1 ELSE dag[k-2][1]
WellListed(dag) ==
   \A i \in DOMAIN dag : LET n == dag[i] IN n[5] < i + 2 /\ n[6] < i + 2 /\ IdAt(dag, n[5]) = n[3] /\ IdAt(dag, n[6]) = n[4]
IsNew(nd, n) == IF n[1] \in DOMAIN nd THEN nd[n[1]].v # n[2] \/ nd[n[1]].lo # n[3] \/ nd[n[1]].hi # n[4] ELSE TRUE
DagNew(nd, dag) ==
   LET fresh == TLCEval({ i \in DOMAIN dag : IsNew(nd, dag[i]) })
       fs == TLCEval(DagFuns(dag))
   IN IF fresh = {} THEN <<>>
      ELSE FoldLeft(LAMBDA acc, i : Append(acc, <<dag[i][1], dag[i][2], dag[i][3], dag[i][4], fs[i+2]>>),
                    <<>>, SetToSortSeq(fresh, <))

\* ordered, reduced, unique, shared with the nodes that exist
CanonDag(m, dag, r, rt) ==
   \A nd \in {mg[m].node} : \A new \in {DagNew(nd, dag)} : \A fs \in {DagFuns(dag)} :   \* (evaluated once)
      LET fr == IF dag = <<>> THEN FunOf(nd, r) ELSE fs[Len(fs)] IN
      /\ WellListed(dag)
      /\ (IF dag = <<>> THEN r \in Sinks ELSE dag[Len(dag)][1] = r)
      /\ Req("C02", "existing nodes unchanged", \A i \in DOMAIN new : ~(new[i][1] \in DOMAIN nd))
      /\ Req("C02", "ordered", \A i \in DOMAIN dag : \A k \in {dag[i][5], dag[i][6]} : k < 3 \/ dag[k-2][2] > dag[i][2])
      /\ Req("C02", "reduced", \A i \in DOMAIN dag : dag[i][3] # dag[i][4])
      /\ Req("C02", "diagram denotes the value", fr = rt)
      /\ Req("C02", "node count is minimal", u.exact /\ Has("min") => Len(dag) = Size(u, u.n, rt))

\* no two nodes alike.  A node stays known until the next collection, so it is enough to look at
\* all known nodes at collections and audits (every history ends with an audit).
NoTwins(m) ==
   \A nd \in {mg[m].node} : \A n \in {Cardinality(DOMAIN nd)} :
      /\ Req("C02", "unique", Cardinality({ <<nd[x].v, nd[x].lo, nd[x].hi>> : x \in DOMAIN nd }) = n)
      /\ Req("C02", "equal function is the same node",
             u.exact => Cardinality({ nd[x].f : x \in DOMAIN nd } \cup {FTrue(u), FFalse(u)}) = n + 2)

\* which live handles compare equal to the result
EqHandles(m, r, rt) ==
   Req("C02", "== is equality of functions",
       Has("eq") => SetOf(E.eq) = { s \in HandlesOf(m) \ {E.d} :
                       IF u.exact THEN FunOf(mg[m].node, hs[s].id) = rt ELSE hs[s].id = r })

\* reference counts reported by the handles
RefCounts ==
   Req("C06", "reference count of handles",
       Has("rc") => \A h2 \in {hs'} : \A i \in DOMAIN E.rc : \A nd \in {mg'[h2[E.rc[i][1]].m].node} :
          LET s == E.rc[i][1]  m == h2[s].m  id == h2[s].id
              hm == { t \in DOMAIN h2 : h2[t].m = m }
              known == Cardinality({ t \in hm : h2[t].id = id })
                     + Cardinality({ x \in DOMAIN nd : nd[x].lo = id })
                     + Cardinality({ x \in DOMAIN nd : nd[x].hi = id })
                     + (IF id \in Sinks THEN mg'[m].sx[id+1] ELSE 0)
          IN IF mg'[m].cnt = 2 + Cardinality(DOMAIN nd) THEN E.rc[i][2] = known ELSE E.rc[i][2] >= known)

CountReq(m, new, nn) ==
   /\ Req("C05", "count never drops without a collection", nn >= mg[m].cnt)
   /\ Req("C05", "count covers the existing nodes",
          \A kn \in {Known(m)} : nn >= 2 + Cardinality(kn) + Cardinality({ n[1] : n \in SetOf(new) } \ kn))
   /\ Req("C05", "count grows by created nodes only", Has("maxnew") => nn <= mg[m].cnt + E.maxnew)
   /\ Req("C05", "repeating an operation creates nothing", Has("rep") => E.rep[2] = nn)

Others(m) ==
   ReqAny({"C22"}, "counts of other managers", Has("nns") =>
          \A i \in DOMAIN E.nns : E.nns[i][1] # m => E.nns[i][2] = mg[E.nns[i][1]].cnt)

PropsOfOp(op) ==
   CASE op \in {"not", "and", "or", "xor", "ite"} -> {"C01"}
     [] op \in {"none", "one", "amo", "alo", "atleast", "atmost", "card"} -> {"C03"}
     [] op \in {"proj", "nproj"} -> {"C21"}
     [] op \in {"find", "layer", "build"} -> {"C17"}
     [] OTHER -> {}

-----------------------------------------------------------------------------
(* Events *)

\* the function described node by node: <<v, lo, hi>>, 0 and 1 the sinks, i+1 the i-th node
Described(want) ==
   LET fs == FoldLeft(LAMBDA acc, n : Append(acc, Node(u, n[1], acc[n[2]+1], acc[n[3]+1])),
                      <<FFalse(u), FTrue(u)>>, want)
   IN fs[Len(fs)]
OpStep ==
   /\ E.e = "op"
   /\ \E new \in { IF Has("dag") THEN DagNew(mg[E.m].node, E.dag) ELSE <<>> } :
      \E exp \in { IF E.op = "build" THEN E.w ELSE IF E.op = "layer" THEN Described(E.want) ELSE Sem(E.op, E.at, E.b) } :
      LET m == E.m
      IN /\ ReqAny(PropsOfOp(E.op), "value of the result", E.rt = exp)
         /\ ReqAny({"C01", "C03", "C21"} \cap PropsOfOp(E.op), "operands unchanged", Has("at2") => E.at2 = E.at)
         /\ Req("C04", "same value as without collections", Has("rt2") => E.rt = E.rt2)
         /\ Req("C04", "same size as without collections", Has("sz2") => E.sz = E.sz2)
         /\ Req("C04", "same equalities as without collections", Has("eq2") => E.eq = E.eq2)
         /\ ReqAny({"C04", "C06"}, "handles denote what they denoted",
                   \A i \in DOMAIN E.a : hs[E.a[i]].id = E.ai[i])
         /\ ReqAny({"C01", "C02"}, "repeating gives the same handle", Has("rep") => E.rep[1] = E.r)
         /\ Req("C21", "variables", E.nv = (IF E.op = "proj" /\ E.b >= mg[m].nv THEN E.b + 1 ELSE mg[m].nv))
         /\ Req("C22", "the result belongs to the operands' manager", Has("own") => E.own = m)
         /\ (Has("dag") => CanonDag(m, E.dag, E.r, E.rt))
         /\ EqHandles(m, E.r, E.rt)
         /\ CountReq(m, new, E.nn)
         /\ Others(m)
         /\ Result(m, E.d, E.r, new, E.nn, E.nv)
         /\ RefCounts

\* a result whose value is not judged here (rebase, child, import, limited conjunction, ...)
GetStep ==
   /\ E.e = "get"
   /\ \E new \in { IF Has("dag") THEN DagNew(mg[E.m].node, E.dag) ELSE <<>> } :
      LET m == E.m
          nd == mg[m].node
      IN /\ (E.op = "child") =>
               ReqAny({"C06", "C07", "C02"}, "child handle",
                      E.r = (IF E.b = 0 THEN nd[hs[E.a[1]].id].lo ELSE nd[hs[E.a[1]].id].hi))
         /\ ((Has("dag") /\ Has("rt")) => CanonDag(m, E.dag, E.r, E.rt))
         /\ (Has("rt") => EqHandles(m, E.r, E.rt))
         /\ CountReq(m, new, E.nn)
         /\ Others(m)
         /\ Result(m, E.d, E.r, new, E.nn, E.nv)
         /\ RefCounts

RECURSIVE MapGet(_, _)
MapGet(pairs, v) == IF Head(pairs)[1] = v THEN Head(pairs)[2] ELSE MapGet(Tail(pairs), v)
\* value of a diagram (children first) after renaming its variables by map
RenFun(dag, map) ==
   FoldLeft(LAMBDA acc, n : Append(acc, Node(u, MapGet(map, n[2]), acc[n[5]], acc[n[6]])), <<FFalse(u), FTrue(u)>>, dag)

RebaseStep ==
   /\ E.e = "rebase"
   /\ \E new \in { DagNew(mg[E.m].node, E.dag) } : \E rf \in { RenFun(E.adag, E.map) } :
      LET m == E.m
          exp == IF E.adag = <<>> THEN Const(u, E.ai[1] = TOP) ELSE rf[Len(rf)]
      IN /\ WellListed(E.adag)
         /\ Req("C08", "value with renamed variables", E.rt = exp)
         /\ Req("C08", "operand unchanged", E.at2 = E.at /\ E.adag2 = E.adag)
         /\ Req("C08", "hash map and vector forms agree", E.r2 = E.r)
         /\ Req("C08", "inverse map gives back the original", E.inj = 1 => E.inv = E.ai[1])
         /\ ReqAny({"C08", "C21"}, "variables added", E.nv = E.wantnv)
         /\ CanonDag(m, E.dag, E.r, E.rt)
         /\ CountReq(m, new, E.nn)
         /\ Result(m, E.d, E.r, new, E.nn, E.nv)
         /\ RefCounts

\* a variable with a large number: functions of x[v], x[0] and x[1], as tables of 8 bits
FarStep ==
   /\ E.e = "far"
   /\ LET m == E.m  xv == 170  x0 == 204  x1 == 240
      IN /\ Req("C21", "projections", E.rows[1] = xv /\ E.rows[2] = 255 - xv /\ E.root = E.v)
         /\ Req("C21", "variables", E.nv = E.v + 1)
         /\ Req("C01", "connectives", E.rows[3] = xv & x1 /\ E.rows[4] = xv ^^ x0
                                      /\ E.rows[8] = (xv & x0) | ((255 - xv) & x1))
         /\ Req("C08", "value with renamed variables", E.rows[5] = xv & (255 - x1))
         /\ ReqAny({"C21", "C02"}, "through a collection", E.rows[6] = xv & x1 /\ E.rows[7] = xv & x1 /\ E.same = 1)
         /\ Req("C07", "variables", E.vars = <<1, E.v>>)
         /\ CountReq(m, <<>>, E.nn)
         /\ Others(m)
         /\ Result(m, -1, BOT, <<>>, E.nn, E.nv)
         /\ RefCounts

\* node-limited conjunction; E.null: null reference, E.c: count (-1: maximum)
LimitStep ==
   /\ E.e = "lim"
   /\ \E new \in { DagNew(mg[E.m].node, E.dag) } : \E f \in { FAnd(E.at[1], E.at[2]) } :
      \E size \in { IF u.exact THEN Size(u, u.n, f) ELSE E.size } :
      LET m == E.m
      IN /\ Req("C09", "null iff the conjunction is too large", (E.null = 1) <=> (size >= E.limit))
         /\ Req("C09", "count", E.c = (IF size >= E.limit THEN -1 ELSE size))
         /\ Req("C09", "the ordinary conjunction", E.null = 0 => E.rt = f /\ E.r = E.r2)
         /\ Req("C09", "operands unchanged", E.at2 = E.at)
         /\ Req("C09", "ordinary conjunction afterwards", E.rt2 = f /\ E.size = size)
         /\ (E.null = 0 => CanonDag(m, E.dag, E.r, E.rt))
         /\ CountReq(m, new, E.nn)
         /\ Result(m, IF E.null = 1 THEN -1 ELSE E.d, E.r, new, E.nn, E.nv)
         /\ RefCounts

HandleStep ==
   /\ E.e \in {"copy", "move", "drop"}
   /\ CASE E.e = "copy" -> Copy(E.s, E.d)
        [] E.e = "move" -> Move(E.s, E.d)
        [] E.e = "drop" -> Drop(E.s)
   /\ (E.e # "drop" => ReqAny({"C04", "C06"}, "copied handle denotes the same node", hs[E.s].id = E.r))
   /\ Req("C05", "handles do not change the count",
          \A i \in DOMAIN E.nns : E.nns[i][2] = mg[E.nns[i][1]].cnt)
   /\ RefCounts

GcStep ==
   /\ E.e = "gc"
   /\ NoTwins(E.m)
   /\ Req("C05", "exactly the reachable nodes are left", E.nn = 2 + Cardinality(Live(E.m)))
   /\ Others(E.m)
   /\ \E live \in { Live(E.m) } :
         mg' = [mg EXCEPT ![E.m].node = Minus(@, (DOMAIN @) \ live), ![E.m].cnt = E.nn]
   /\ UNCHANGED <<u, hs>>
   /\ RefCounts

\* everything a manager shows: slots <<slot, id, tt>>, nodes <<id, v, lo, hi, xref>>, sinks' xrefs
AuditStep ==
   /\ E.e = "audit"
   /\ NoTwins(E.m)
   /\ LET m == E.m
          nd == mg[m].node
      IN /\ ReqAny({"C04", "C06", "C09", "C21", "C22"}, "handles denote the same nodes",
             /\ { E.slots[i][1] : i \in DOMAIN E.slots } = HandlesOf(m)
             /\ \A i \in DOMAIN E.slots : hs[E.slots[i][1]].id = E.slots[i][2])
         /\ ReqAny({"C04", "C09", "C21", "C22"}, "values unchanged",
             \A i \in DOMAIN E.slots : E.slots[i][3] = FunOf(nd, E.slots[i][2]))
         /\ ReqAny({"C02", "C04", "C09", "C21", "C22"}, "nodes unchanged",
             /\ Live(m) \subseteq { E.nodes[i][1] : i \in DOMAIN E.nodes }
             /\ \A i \in DOMAIN E.nodes :
                  LET n == E.nodes[i] IN
                     n[1] \in DOMAIN nd => nd[n[1]].v = n[2] /\ nd[n[1]].lo = n[3] /\ nd[n[1]].hi = n[4])
         /\ Req("C06", "reference counts of nodes",
             \A i \in DOMAIN E.nodes :
                IF Exact(m) THEN E.nodes[i][5] = Refs(m, E.nodes[i][1])
                            ELSE E.nodes[i][5] >= Refs(m, E.nodes[i][1]))
         /\ Req("C06", "reference counts of sinks",
             \A i \in 1..2 : IF Exact(m) THEN E.sx[i] = Refs(m, i-1) ELSE E.sx[i] >= Refs(m, i-1))
         /\ Req("C05", "count", E.nn = mg[m].cnt)
         /\ ReqAny({"C22"}, "count", E.nn = mg[m].cnt)
         /\ ReqAny({"C21", "C22"}, "variables", E.nv = mg[m].nv)
   /\ UNCHANGED mvars

\* structural queries of one handle
RECURSIVE Layers(_, _, _, _)
Layers(nd, cur, seen, d) ==
   IF cur = {} THEN EmptyFn
   ELSE LET next == (UNION { {nd[x].lo, nd[x].hi} : x \in cur } \ Sinks) \ (seen \cup cur)
        IN [x \in cur |-> d] @@ Layers(nd, next, seen \cup cur, d + 1)
\* number of satisfying assignments of the variables vs (sorted), counted up to 2; dag: the nodes, children first
SolCount(nd, dag, r, vs) ==
   LET rank == TLCEval([v \in { vs[i] : i \in DOMAIN vs } |-> (CHOOSE i \in DOMAIN vs : vs[i] = v) - 1])
       at(x) == IF x \in Sinks THEN Len(vs) ELSE rank[nd[x].v]
       cap(c) == IF c > 2 THEN 2 ELSE c
       widen(c, gap) == IF c = 0 \/ gap = 0 THEN c ELSE 2
       cnt == FoldLeft(LAMBDA acc, n :
                          LET here == rank[n[2]] + 1
                          IN Append(acc, cap(widen(acc[n[5]], at(n[3]) - here) + widen(acc[n[6]], at(n[4]) - here))),
                       <<0, 1>>, dag)
   IN IF dag = <<>> THEN r ELSE widen(cnt[Len(cnt)], at(r))

\* the diagram as its own pointers show it
RowsOf(dag) ==
   FoldLeft(LAMBDA acc, n : (n[1] :> [v |-> n[2], lo |-> n[3], hi |-> n[4]]) @@ acc, EmptyFn, dag)
\* x -> its place in seq
PlaceIn(seq) == FoldLeft(LAMBDA acc, x : (x :> Cardinality(DOMAIN acc)) @@ acc, EmptyFn, seq)
IsPerm(seq, S) == Len(seq) = Cardinality(S) /\ SetOf(seq) = S
QueryStep ==
   /\ E.e = "query"
   /\ \A nd \in { RowsOf(E.dag) } : \A D \in { Reach(nd, {E.r}) } : \A fs \in { DagFuns(E.dag) } :
      \A vars \in { SetToSortSeq({ nd[x].v : x \in D }, <) } :
      LET r == E.r
          f == IF E.dag = <<>> THEN Const(u, r = TOP) ELSE fs[Len(fs)]
      IN /\ WellListed(E.dag) /\ (E.dag # <<>> => E.dag[Len(E.dag)][1] = r)
         /\ Req("C07", "node count", E.nr = Cardinality(D))
         /\ Req("C07", "variables", E.vars = vars)
         /\ Req("C07", "postorder lists each node once", IsPerm(E.post, D))
         /\ Req("C07", "postorder has children first",
                \A post \in { PlaceIn(E.post) } :
                \A x \in D : \A c \in {nd[x].lo, nd[x].hi} \ Sinks : post[c] < post[x])
         /\ Req("C07", "breadth-first lists each node once", IsPerm(E.bfs, D))
         /\ Req("C07", "breadth-first distances",
                \A dist \in { Layers(nd, {r} \ Sinks, {}, 0) } :
                \A i \in 1..(Len(E.bfs)-1) : dist[E.bfs[i]] <= dist[E.bfs[i+1]])
         /\ Req("C07", "single solution",
                (E.one = 1) <=> (IF u.exact THEN Pop(f) = 2 ^ (u.n - Len(vars))
                                 ELSE SolCount(nd, E.dag, r, vars) = 1))
         /\ Req("C07", "printed graph",
                /\ Len(E.edges) = 2 * Cardinality(D)
                /\ SetOf(E.edges) = { <<x, nd[x].lo, 0>> : x \in D } \cup { <<x, nd[x].hi, 1>> : x \in D })
         /\ Req("C07", "evaluation", E.rt = f)
         /\ Req("C07", "root", E.root = (IF r = BOT THEN <<-1, 1, 0>> ELSE IF r = TOP THEN <<-1, 0, 1>>
                                         ELSE <<nd[r].v, 0, 0>>))
         /\ Req("C07", "repeated queries give the same answers", E.same = 1)
         /\ Req("C07", "the diagram is unchanged", E.dag2 = E.dag)
         /\ Req("C05", "queries do not change the count", E.nn = mg[E.m].cnt)
   /\ UNCHANGED mvars
   /\ RefCounts

VarStep ==
   /\ E.e = "addvar"
   /\ Req("C21", "number of the new variable", E.v = mg[E.m].nv /\ E.nv = mg[E.m].nv + 1)
   /\ Req("C05", "no nodes created", E.nn = mg[E.m].cnt)
   /\ Others(E.m)
   /\ mg' = [mg EXCEPT ![E.m].nv = E.nv]
   /\ UNCHANGED <<u, hs>>

MgrStep ==
   \/ /\ E.e = "newmgr"
      /\ ReqAny({"C05", "C22"}, "a new manager has the sinks only", E.nn = 2 /\ E.nv = 0)
      /\ Others(E.m)
      /\ NewMgr(E.m, E.nn, E.sx)
   \/ /\ E.e = "delmgr"
      /\ Others(E.m)
      /\ DelMgr(E.m)

\* tables of results for all pairs/triples of functions: rows[i] = op(f, g_i, ...)
TabStep ==
   /\ E.e = "tab"
   /\ ReqAny(PropsOfOp(E.op), "table of results",
         \A i \in DOMAIN E.rows :
            CASE E.op = "not" -> E.rows[i] = FNot(u, <<E.gs[i]>>)[1]
              [] E.op = "and" -> E.rows[i] = E.f & E.gs[i]
              [] E.op = "or"  -> E.rows[i] = E.f | E.gs[i]
              [] E.op = "xor" -> E.rows[i] = E.f ^^ E.gs[i]
              [] E.op = "ite" -> E.rows[i] = (E.f & E.g) | ((u.full[1] ^^ E.f) & E.gs[i]))
   /\ Req("C02", "table of equalities", E.canon = 1)
   /\ UNCHANGED mvars

\* results for the list E.a followed by every function
TabnStep ==
   /\ E.e = "tabn"
   /\ ReqAny(PropsOfOp(E.op), "results for all lists",
         \A i \in DOMAIN E.rows :
            <<E.rows[i]>> = Sem(E.op, [k \in 1..(Len(E.a)+1) |-> IF k > Len(E.a) THEN <<i-1>> ELSE <<E.a[k]>>], E.b))
   /\ Req("C02", "table of equalities", E.canon = 1)
   /\ UNCHANGED mvars

TNext ==
   /\ l <= Len(Trace)
   /\ \/ Reset \/ OpStep \/ GetStep \/ RebaseStep \/ FarStep \/ LimitStep \/ HandleStep \/ GcStep
      \/ AuditStep \/ QueryStep \/ VarStep \/ MgrStep \/ TabStep \/ TabnStep
   /\ l' = l + 1
   /\ TLCSet(7, l')

TSpec == TInit /\ [][TNext]_tvars
Accepted ==
   IF TLCGet(7) = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
   ELSE PrintT(<<"STUCK", TLCGet(7), Trace[TLCGet(7)]>>) /\ FALSE
=============================================================================
