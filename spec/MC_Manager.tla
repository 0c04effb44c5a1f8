------------------------------ MODULE MC_Manager ------------------------------
(* Exhaustive model: one manager, N variables, handles Slots.  Node ids are  *)
(* 2 + the word of the function, so that a canonical manager is the only     *)
(* one this model can build; the invariants are what has to follow.          *)
EXTENDS Manager
CONSTANTS N, Slots, WithIte

Id(f) == IF f = FFalse(u) THEN BOT ELSE IF f = FTrue(u) THEN TOP ELSE f[1] + 2
\* nodes of f by decreasing variable, as <<id, v, lo, hi>>
RECURSIVE SeqOf(_, _)
SeqOf(D, v) ==
   IF v < 0 THEN <<>>
   ELSE LET RECURSIVE Lin(_)
            Lin(S) == IF S = {} THEN <<>>
                      ELSE LET d == CHOOSE x \in S : TRUE
                           IN << <<Id(d[2]), v, Id(Cof(u, d[2], v, FALSE)), Id(Cof(u, d[2], v, TRUE))>> >> \o Lin(S \ {d})
        IN Lin({ d \in D : d[1] = v }) \o SeqOf(D, v - 1)
NewNodes(m, f) == SeqOf({ d \in SubNodes(u, N, f) : Id(d[2]) \notin Known(m) }, N - 1)

FOfSlot(s) == FunOf(mg[0].node, hs[s].id)
\* the function of a node is that of its test and its children
WithFun(nd, n) == LET f == Node(u, n[2], FunOf(nd, n[3]), FunOf(nd, n[4])) IN Append(n, f)
RECURSIVE WithFuns(_, _)
WithFuns(nd, new) ==
   IF new = <<>> THEN <<>>
   ELSE LET n == WithFun(nd, Head(new)) IN <<n>> \o WithFuns(AddNodes(nd, <<n>>), Tail(new))
Do(d, f) == LET new == WithFuns(mg[0].node, NewNodes(0, f)) IN Result(0, d, Id(f), new, mg[0].cnt + Len(new), N)

Init ==
   /\ u = ExactUniverse(N)
   /\ mg = (0 :> [nv |-> N, cnt |-> 2, node |-> EmptyFn, sx |-> <<1, 1>>])
   /\ hs = EmptyFn

Op1 == \E s \in DOMAIN hs, d \in Slots : Do(d, Sem("not", <<FOfSlot(s)>>, 0))
Op2 == \E op \in {"and", "or", "xor", "amo"} : \E s, t \in DOMAIN hs, d \in Slots :
          Do(d, Sem(op, <<FOfSlot(s), FOfSlot(t)>>, 0))
Op3 == WithIte /\ \E s, t, w \in DOMAIN hs, d \in Slots :
          Do(d, Sem("ite", <<FOfSlot(s), FOfSlot(t), FOfSlot(w)>>, 0))
Proj == \E v \in 0..(N-1), d \in Slots : Do(d, Sem("proj", <<>>, v))
\* an operation may leave intermediate results behind
Garbage == \E v \in 0..(N-1) : Do(-1, Sem("nproj", <<>>, v))
Next == Op1 \/ Op2 \/ Op3 \/ Proj \/ Garbage
        \/ (\E s \in DOMAIN hs : Drop(s))
        \/ (\E s \in DOMAIN hs, d \in Slots : s # d /\ (Copy(s, d) \/ Move(s, d)))
        \/ Collect(0)
Spec == Init /\ [][Next]_mvars

Inv ==
   /\ ChildrenKnown(0) /\ HandlesKnown(0) /\ Ordered(0) /\ Reduced(0)
   /\ Unique(0) /\ Canonical(0) /\ Exact(0)
   /\ \A s \in DOMAIN hs :
        /\ Cardinality(Reach(mg[0].node, {hs[s].id})) = Size(u, N, FOfSlot(s))
        /\ { mg[0].node[x].v : x \in Reach(mg[0].node, {hs[s].id}) } = Support(u, N, FOfSlot(s))

\* Reference counting decides reachability: sweeping the variables once in increasing order and
\* freeing nodes without references (which releases their children) frees the unreachable nodes.
RECURSIVE Sweep(_, _, _)
Sweep(nd, xr, v) ==
   IF v = N THEN DOMAIN nd
   ELSE LET dead == { x \in DOMAIN nd : nd[x].v = v /\ xr[x] = 0 }
            rel(c) == Cardinality({ x \in dead : nd[x].lo = c }) + Cardinality({ x \in dead : nd[x].hi = c })
        IN Sweep(Minus(nd, dead), [c \in (DOMAIN xr) \ dead |-> xr[c] - rel(c)], v + 1)
SweepIsExact ==
   Sweep(mg[0].node, [x \in Known(0) |-> Refs(0, x)], 0) = Live(0)

\* Action properties
HandlesKeepMeaning ==
   [][\A s \in (DOMAIN hs) \cap (DOMAIN hs') :
        hs[s].id \notin Sinks /\ hs[s] = hs'[s] =>
            mg'[0].node[hs[s].id] = mg[0].node[hs[s].id]]_mvars
OnlyCollectShrinks == [][mg'[0].cnt < mg[0].cnt => mg'[0].cnt = 2 + Cardinality(Live(0))]_mvars
=============================================================================
