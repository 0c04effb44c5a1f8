------------------------------ MODULE MC_BddAlg ------------------------------
(* Histories of one manager built by the algorithms of BddAlg: N variables,   *)
(* handles Slots, at most Depth operations.  `last' is what the last operation *)
(* returned and what it should have returned.                                  *)
EXTENDS BddAlg
CONSTANTS N, Slots, Depth, Ops
B == INSTANCE BoolFun
U == B!ExactUniverse(N)

VARIABLES st, hs, last, steps, hist
vars == <<st, hs, last, steps, hist>>

\* hist: the operations so far, as a script for the driver; kept by the generating configurations only
Rec == FALSE
Yes == TRUE
RECURSIVE Text(_)
Text(a) == IF a = <<>> THEN "" ELSE " " \o ToString(a[1]) \o Text(Tail(a))
Say(op, a) == hist' = IF Rec THEN hist \o op \o Text(a) \o ";" ELSE hist
\* every transition is printed, as the history that leads to it and the transition
Printed == PrintT("SCRIPT " \o hist')

RECURSIVE FunOf(_, _)
FunOf(s, x) == IF x = Bot THEN B!FFalse(U) ELSE IF x = Top THEN B!FTrue(U)
               ELSE B!Node(U, Var(s, x), FunOf(s, Lo(s, x)), FunOf(s, Hi(s, x)))
F(s) == FunOf(st, hs[s])
None == [kind |-> "none"]

Init == st = Fresh /\ hs = EmptyMap /\ last = None /\ steps = 0 /\ hist = ""

\* the result res = <<state, id>> is stored in handle d
Return(d, res, want) ==
   /\ st' = (LET s1 == Hold(res[1], res[2]) IN IF d \in DOMAIN hs THEN Drop(s1, hs[d]) ELSE s1)
   /\ hs' = (d :> res[2]) @@ hs
   /\ last' = [kind |-> "op", id |-> res[2], want |-> want]
   /\ steps' = steps + 1
Projection == "proj" \in Ops /\ \E v \in 0..(N-1), d \in Slots : Say("proj", <<v, d>>) /\ Return(d, Unique(st, v, Bot, Top), B!VarFun(U, v))
NegProjection == "nproj" \in Ops /\ \E v \in 0..(N-1), d \in Slots : Say("nproj", <<v, d>>) /\ Return(d, Unique(st, v, Top, Bot), B!FNot(U, B!VarFun(U, v)))
Negation == "not" \in Ops /\ \E s \in DOMAIN hs, d \in Slots : Say("not", <<s, d>>) /\ Return(d, Not(st, hs[s]), B!FNot(U, F(s)))
Binary == \E s, t \in DOMAIN hs, d \in Slots :
   \/ "and" \in Ops /\ Say("and", <<s, t, d>>) /\ Return(d, And(st, hs[s], hs[t]), B!FAnd(F(s), F(t)))
   \/ "or" \in Ops /\ Say("or", <<s, t, d>>) /\ Return(d, Or(st, hs[s], hs[t]), B!FOr(F(s), F(t)))
   \/ "xor" \in Ops /\ Say("xor", <<s, t, d>>) /\ Return(d, Xor(st, hs[s], hs[t]), B!FXor(F(s), F(t)))
IfThenElse == "ite" \in Ops /\ \E s, t, w \in DOMAIN hs, d \in Slots : Say("ite", <<s, t, w, d>>) /\ Return(d, Ite(st, hs[s], hs[t], hs[w]), B!FIte(U, F(s), F(t), F(w)))
LimitedAnd == "lim" \in Ops /\ \E s, t \in DOMAIN hs, d \in Slots, lim \in 1..4 :
   LET want == B!FAnd(F(s), F(t))
       small == B!Size(U, N, want) < lim
       res == AndLim(st, hs[s], hs[t], lim)
   IN Say("lim", <<s, t, d, lim>>) /\ IF res[2] = NULL
      THEN /\ st' = res[1] /\ UNCHANGED hs /\ steps' = steps + 1
           /\ last' = [kind |-> "null", right |-> ~small]
      ELSE /\ st' = (LET s1 == Hold(res[1], res[2]) IN IF d \in DOMAIN hs THEN Drop(s1, hs[d]) ELSE s1)
           /\ hs' = (d :> res[2]) @@ hs /\ steps' = steps + 1
           /\ last' = [kind |-> "lim", id |-> res[2], want |-> want, right |-> small]
\* f with its variables renamed by the permutation map
Renamed(f, map) ==
   LET P == 0..(2^N - 1)
       bit(p, v) == (p \div (2^v)) % 2
       RECURSIVE Pt(_, _)
       Pt(p, v) == IF v = N THEN 0 ELSE bit(p, map[v+1]) * (2^v) + Pt(p, v+1)
   IN << B!SumBits({ p \in P : B!BitOf(f[1], Pt(p, 0)) }, 0) >>
Perms == { m \in [1..N -> 0..(N-1)] : \A i, j \in 1..N : i # j => m[i] # m[j] }
Rebase == "rebase" \in Ops /\ \E s \in DOMAIN hs, d \in Slots, map \in Perms : Say("rebase", <<s, d>> \o map) /\ Return(d, Rename(st, hs[s], map), Renamed(F(s), map))
Release == \E s \in DOMAIN hs : Say("drop", <<s>>) /\ st' = Drop(st, hs[s]) /\ hs' = [x \in DOMAIN hs \ {s} |-> hs[x]] /\ last' = None /\ steps' = steps + 1
Garbage == Say("gc", <<>>) /\ st' = Collect(st, N) /\ UNCHANGED hs /\ last' = [kind |-> "gc"] /\ steps' = steps + 1
Next == steps < Depth /\ (Projection \/ NegProjection \/ Negation \/ Binary \/ IfThenElse \/ LimitedAnd \/ Rebase \/ Release \/ Garbage)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
AllNodes == DOMAIN st.node
Live == UNION { NodesOf(st, hs[s]) : s \in DOMAIN hs }
RightResult == last.kind \in {"op", "lim"} => FunOf(st, last.id) = last.want
RightLimit == last.kind \in {"null", "lim"} => last.right
Linked == \A x \in AllNodes : {Lo(st, x), Hi(st, x)} \subseteq AllNodes \cup {Bot, Top}
Ordered == \A x \in AllNodes : \A c \in {Lo(st, x), Hi(st, x)} : IsSink(c) \/ Var(st, c) > Var(st, x)
Canonical == \A x, y \in AllNodes \cup {Bot, Top} : x # y => FunOf(st, x) # FunOf(st, y)
Minimal == \A s \in DOMAIN hs : Cardinality(NodesOf(st, hs[s])) = B!Size(U, N, F(s))
RefsRight == \A x \in AllNodes \cup {Bot, Top} :
   st.xref[x] = (IF IsSink(x) THEN 1 ELSE 0) + Cardinality({ s \in DOMAIN hs : hs[s] = x })
                + Cardinality({ y \in AllNodes : Lo(st, y) = x }) + Cardinality({ y \in AllNodes : Hi(st, y) = x })
CollectedExactly == last.kind = "gc" => AllNodes = Live
\* every cache entry whose nodes exist is right
MemoRight == \A k \in DOMAIN st.memo :
   LET ex(x) == x \in AllNodes \cup {Bot, Top} IN
   /\ ex(k[1]) /\ ex(k[2]) /\ (k[3] < 0 \/ ex(k[3])) /\ ex(st.memo[k])
   /\ LET f == FunOf(st, k[1]) g == FunOf(st, k[2]) r == FunOf(st, st.memo[k])
      IN r = CASE k[3] = ANDS -> B!FAnd(f, g) [] k[3] = ORS -> B!FOr(f, g) [] k[3] = XORS -> B!FXor(f, g)
               [] OTHER -> B!FIte(U, f, g, FunOf(st, k[3]))
HandlesStay == [][\A s \in DOMAIN hs \cap DOMAIN hs' : hs'[s] = hs[s] => FunOf(st', hs'[s]) = FunOf(st, hs[s])]_vars
\* two states that differ in the history only are the same
View == <<st, hs, last>>
=============================================================================
